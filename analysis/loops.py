"""Region execution and loop summarisation."""
from core import *
import core
from core import _n, _asseq, _atom_by_id, _mkrat
from interp import *
from interp import State, merge, Undecided, pext, _tov

UNROLL = 12

def run_region(m, fr, nodes, entry, st, cut):
    """execute the subgraph; {target: [states]} for edges leaving it, 'return', and 'back' for edges to cut"""
    out = {}
    pending = {entry: [st]}
    cfg = fr.cfg
    for scc in cfg.sccs(nodes, entry, cut):
        if len(scc) == 1 and scc[0] not in [x for x in cfg.succ[scc[0]] if x != cut]:
            b = scc[0]
            ss = pending.pop(b, None)
            if not ss: continue
            s = merge(ss)
            if s.pc is FALSE: continue
            res = exec_block(m, fr, b, s)
        else:
            heads = [b for b in scc if b in pending]
            if not heads: continue
            if len(heads) > 1: raise Undecided('irreducible loop in ' + fr.inst['name'])
            s = merge(pending.pop(heads[0]))
            if s.pc is FALSE: continue
            res = summarise(m, fr, frozenset(scc), heads[0], s)
        for tgt, s in res:
            if s.pc is FALSE: continue
            if tgt == 'return': out.setdefault('return', []).append(s)
            elif tgt == cut: out.setdefault('back', []).append(s)
            elif nodes is not None and tgt not in nodes: out.setdefault(tgt, []).append(s)
            else: pending.setdefault(tgt, []).append(s)
    return out

def exec_block(m, fr, b, s):
    blk = fr.inst['blocks'][b]
    core._tick()
    for x in blk['st']: m.stmt(s, fr, x)
    return m.term(s, fr, blk['t'])

# --------------------------------------------------------------------------
def atoms_in(v, out=None, seen=None):
    """all atoms occurring in a value"""
    if out is None: out = set()
    if seen is None: seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, (bool, int, str, type(None), Fr)): continue
        if isinstance(x, tuple): st.extend(x); continue
        if isinstance(x, Poly):
            for a in x.atoms(): st.append(_atom_by_id[a])
            continue
        k = (type(x), getattr(x, 'id', id(x)))
        if k in seen: continue
        seen.add(k)
        if isinstance(x, Atom):
            out.add(x); st.extend(x.args)
        elif isinstance(x, Rat): st.append(x.n); st.append(x.d)
        elif isinstance(x, Leaf): st.append(x.v)
        elif isinstance(x, Node):
            st.append(x.c); st.append(x.hi); st.append(x.lo)
        elif isinstance(x, Struct): st.extend(x.f)
        elif isinstance(x, Cond): st.append(x.q)
        elif isinstance(x, core._Pay): st.extend(x.k if isinstance(x.k, tuple) else (x.k,))
    return out

def exists(n, lam_or_val, K=None):
    """there is a k < n with body(k)"""
    body = lam_or_val
    if body is FALSE: return FALSE
    def f(x):
        x = _n(x)
        if K.id not in body.fv: return b_and(cmp_rat(x, True), body)
        if x.const() is not None and x.const() <= 0: return FALSE
        return b_atom(atom('exists', (x, mk_lam(K, body)), 'bool'))
    return lift(f)(n)
core.REBUILD['exists'] = lambda a, g, b: _reb_exists(a, g)
def _reb_exists(a, g):
    t = fresh('q', 'int', 0)
    return exists(_tov(g[0]), lam_app(g[1], num(t)) if isinstance(g[1], Lam) else g[1], t)
def first(n, K, stop):
    """least k < n with stop(k), n if there is none"""
    if stop is FALSE: return n
    def f(x):
        x = _n(x)
        if K.id not in stop.fv: return ite(b_and(stop, cmp_rat(x, True)), N(0), leaf(x))
        return num(atom('first', (x, mk_lam(K, stop)), 'int', 0))
    return lift(f)(n)
def _reb_first(a, g, b):
    t = fresh('q', 'int', 0)
    return first(_tov(g[0]), t, lam_app(g[1], num(t)))
core.REBUILD['first'] = _reb_first

def vsum(n, K, e):
    """sum of e(K) over 0 <= K < n"""
    if isinstance(e, Node):
        if K.id not in e.c.fv: return ite(node(e.c, TRUE, FALSE), vsum(n, K, e.hi), vsum(n, K, e.lo))
        return lift(lambda x: N(0) if _n(x).const() == 0 else num(atom('sum', (_n(x), mk_lam(K, e)), 'int' if _allint(e) else 'real')))(n)
    r = e.v
    if not isinstance(r, Rat): raise Undecided('sum of %r' % (e,))
    if K.id in _mkrat(r.d, P1).fv:
        return lift(lambda x: N(0) if _n(x).const() == 0 else num(atom('sum', (_n(x), mk_lam(K, e)), 'real')))(n)
    acc = N(0)
    for mo, c in r.n.t.items():
        free = [(a, x) for a, x in mo if K.id not in _atom_by_id[a].fv]
        dep = [(a, x) for a, x in mo if K.id in _atom_by_id[a].fv]
        cf = leaf(core.rat(Poly({tuple(free): c}), r.d))
        if not dep: s = n
        elif dep == [(K.id, 1)]: s = div(mul(n, sub(n, N(1))), N(2))
        else:
            d = leaf(_mkrat(Poly({tuple(dep): Fr(1)}), P1))
            s = lift(lambda x: N(0) if _n(x).const() == 0 else num(atom('sum', (_n(x), mk_lam(K, d)), 'int' if _allint(d) else 'real')))(n)
        acc = add(acc, mul(cf, s))
    return acc
def _allint(e):
    return all(isinstance(l.v, Rat) and core.is_int(l.v) for _, l in paths(e))
def _reb_sum(a, g, b):
    t = fresh('q', 'int', 0)
    return vsum(_tov(g[0]), t, lam_app(g[1], num(t)))
core.REBUILD['sum'] = _reb_sum
def extf(kind, init, n, K, e):
    """max/min of init and e(K), 0 <= K < n"""
    op = vmax if kind == 'maxf' else vmin
    if K.id not in e.fv: return ite(gt(n, N(0)), op(init, e), init)
    def f(i, x):
        i, x = _n(i), _n(x)
        c = x.const()
        if c is not None and c <= 4:
            r = leaf(i)
            for j in range(int(c)): r = op(r, subst(e, {K.id: N(j)}))
            return r
        ci = r_range(i)
        return num(atom(kind, (i, x, mk_lam(K, e)), 'int' if _allint(e) and core.is_int(i) else 'real',
                        ci[0] if kind == 'maxf' else None, ci[1] if kind == 'minf' else None))
    return lift(f)(init, n)
def _reb_ext(a, g, b):
    t = fresh('q', 'int', 0)
    return extf(a.kind, _tov(g[0]), _tov(g[1]), t, lam_app(g[2], num(t)))
core.REBUILD['maxf'] = core.REBUILD['minf'] = _reb_ext

# --------------------------------------------------------------------------
def type_at(m, ty, path):
    for e in path:
        if ty is None: return None
        if isinstance(ty, tuple):
            if e[0] != 'i': return None
            ty = ty[1]; continue
        T = m.T[ty]
        if e[0] == 'f':
            if T['k'] in ('tuple', 'closure'): ty = T['f'][e[1]]
            elif T['k'] == 'adt':
                p = T['path']
                if p.endswith('sync::Arc') or p.endswith('arc::Arc') or p.endswith('rc::Rc'): ty = T['args'][0] if e[1] == 0 else None
                elif p.endswith('HashMap') or p.endswith('BTreeMap'): ty = ('vals', T['args'][1]) if e[1] == 1 else None
                elif p.endswith('graph_impl::Graph'): ty = ('vals', T['args'][0]) if e[1] == 1 else None
                elif T.get('variants'): ty = T['variants'][0]['f'][e[1]][1]
                else: return None
            elif T['k'] == 'dyn': return None
            else: return None
        elif e[0] == 'i':
            if T['k'] in ('array', 'slice'): ty = T['e']
            elif T['k'] == 'adt' and T['path'] in SEQ_ADT: ty = T['args'][0]
            else: return None
        else: return None
    return ty

class Phi:
    """one generalised leaf"""
    __slots__ = ('key', 'sub', 'kind', 'var', 'init', 'ty', 'val')

def genphi(m, key, v0, ty, sub, out, st):
    """value with fresh symbols in place of everything in v0"""
    T = m.T[ty] if isinstance(ty, int) else None
    p = Phi(); p.key, p.sub, p.init, p.ty = key, sub, v0, ty
    if v0 is BOT or (isinstance(v0, Leaf) and isinstance(v0.v, Unk)): return v0
    if isinstance(v0, Struct):
        fs = []
        for i, x in enumerate(v0.f):
            t = type_at(m, ty, (('f', i),)) if isinstance(ty, int) else None
            if t is None and v0.tag == ('arc',) and i == 1: t = 'bool'
            fs.append(genphi(m, key, x, t, sub + (('f', i),), out, st))
        return struct(v0.tag, fs)
    if isinstance(ty, tuple) or (T is not None and (T['k'] in ('array', 'slice') or (T['k'] == 'adt' and T['path'] in SEQ_ADT))):
        ety = ty[1] if isinstance(ty, tuple) else T['e'] if T['k'] in ('array', 'slice') else T['args'][0]
        p.kind = 'seq'; p.var = fresh('S', 'obj'); SHAPE[p.var.id] = (m, ety)
        n = N(T['n']) if T is not None and T['k'] == 'array' else num(atom('len', (p.var,), 'int', 0))
        # the length of a sequence of constant length stays
        p.val = m.symseq(p.var, n, ety, st); p.ty = ety
        out.append(p); return p.val
    lf = None
    for _, l in paths(v0):
        if l is not BOT: lf = l; break
    if lf is None: return v0
    if isinstance(lf.v, IterV):
        if not isinstance(v0, Leaf): raise Undecided('merged iterators')
        p.kind = 'iter'; p.var = fresh('it', 'int', 0); p.init = lf.v.pos
        out.append(p); p.val = iterv(lf.v.src, num(p.var)); return p.val
    if isinstance(lf.v, bool) or ty == 'bool' or (T is not None and T['k'] == 'bool'):
        p.kind = 'bool'; p.var = fresh('B', 'bool'); p.val = b_atom(p.var); out.append(p); return p.val
    if isinstance(lf.v, Rat):
        p.kind = 'num'
        if T is not None and T['k'] == 'int':
            lo, hi = m.int_range(T); p.var = fresh('F', 'int', lo, hi)
        elif T is not None and T['k'] == 'float':
            p.var = fresh('F')
            if T['bits'] == 32: F32ATOMS.add(p.var.id)
        else:
            a = lf.v.single()
            if a is not None and a.sort == 'obj' or T is not None and T['k'] in ('dyn', 'adt'):
                if T is not None and T['k'] == 'adt' and T['path'] == 'core::time::Duration': p.var = fresh('F', 'real', 0)
                elif T is not None and T['k'] == 'adt' and T['path'].endswith('NodeIndex'): p.var = fresh('F', 'int', 0)
                else: p.kind = 'obj'; p.var = fresh('O', 'obj')
            elif core.is_int(lf.v): p.var = fresh('F', 'int')
            else: p.var = fresh('F')
        p.val = num(p.var); out.append(p); return p.val
    if isinstance(lf.v, Variant):
        if T is None: raise Undecided('loop changes an enumeration of unknown type')
        p.kind = 'enum'; p.var = fresh('E', 'obj')
        p.val = m.sym('var', p.var.args, ty, st)
        out.append(p); return p.val
    if isinstance(lf.v, Ptr): raise Undecided('a pointer changes in a loop')
    if isinstance(lf.v, SeqV): raise Undecided('a sequence of unknown element type changes in a loop')
    if isinstance(lf.v, StrV): raise Undecided('a string changes in a loop')
    raise Undecided('loop changes %r' % (lf,))

def slotpath(path, variant=None):
    """prefix of a written path that names one location in every iteration"""
    out = []
    for e in path:
        if e[0] == 'dyn': continue
        if e[0] == 'i' and variant is not None and not (e[1].fv & variant):
            out.append(e); continue
        if e[0] != 'f': break
        out.append(e)
    return tuple(out)
def noidx(path):
    for j, e in enumerate(path):
        if e[0] == 'i': return path[:j]
    return path

def filtered_loop(m, fr, scc, header, S0):
    """A loop over an iterator with filters, or with one nested in another: the same loop with the
    filter's condition, or the inner loop, written out.  None when the loop is of another kind."""
    t = fr.inst['blocks'][header]['t']
    if t['k'] != 'call' or t['t'] < 0 or t['d'][1] or t['t'] not in scc or t['t'] == header or 'path' not in t['f']: return None
    import models
    from models import has_filter, pull, src_len, base_of, option, unite
    from interp import State, Frame, Cfg
    if 'Iterator::next' not in list(models.names(t['f'])): return None
    if t['f'].get('inst') is not None and t['f'].get('rcrate', t['f'].get('crate')) in models.LOCAL: return None
    def iterator(s):
        """(pointer, value) of the iterator"""
        p = restrict(m.operand(s, fr, t['a'][0]), s.pc)
        for _ in range(3):
            v = restrict(m.load(s, p), s.pc)
            if not (isinstance(v, Leaf) and isinstance(v.v, core.Ptr)): break
            p = v
        if isinstance(v, Node) and all(isinstance(l, Leaf) and isinstance(l.v, models.IterV) for _, l in core.paths(v) if l is not BOT): v = unite(v)
        return p, v
    mark = (len(m.oblig), len(m.events))
    s = S0.copy()
    m.wlogs.append([])
    try:
        for x in fr.inst['blocks'][header]['st']: m.stmt(s, fr, x)
        _, v = iterator(s)
        if not (isinstance(v, Leaf) and isinstance(v.v, models.IterV) and has_filter(v.v.src)): return None
        src = v.v.src
        n = src_len(base_of(src))
        s.pc = b_and(s.pc, TRUE if n is None else lt(v.v.pos, n))
        nested = s.pc is not FALSE and any(k == 'seq' for k, _, _ in pull(m, s, src, v.v.pos))
    finally:
        m.wlogs.pop()
        del m.oblig[mark[0]:]; del m.events[mark[1]:]
    inst = dict(fr.inst)
    inst['locals'] = list(fr.inst['locals']) + [None]
    L, inner, T, dest = len(fr.inst['locals']), len(fr.inst['blocks']), t['t'], t['d'][0]
    def wr(s, cell, v):
        for w in m.wlogs: w.append((cell, ()))
        s.cells[cell] = v
    def outer_step(st, fr):
        p, v = iterator(st)
        if not (isinstance(v, Leaf) and isinstance(v.v, models.IterV)) or v.v.src != src: raise Undecided('merged iterators')
        n = src_len(base_of(src))
        out = []
        def none(s):
            wr(s, fr.cell(dest), models.NONE)
            out.extend(exec_block(m, fr, T, s))
        go = st
        if n is not None:
            go = None
            for q, s in models.split(st, lt(v.v.pos, n)):
                if q: go = s
                else: none(s)
        if go is None: return out
        m.store(go, p, models.iterv(src, add(v.v.pos, N(1))))
        for kind, s, x in pull(m, go, src, v.v.pos):
            if s.pc is FALSE: continue
            if kind == 'stop': none(s)
            elif kind == 'skip': out.append((header, s))
            elif kind == 'some': wr(s, fr.cell(dest), models.some(x)); out.append((T, s))
            else: wr(s, fr.cell(L), x); out.append((inner, s))
        return out
    def inner_step(st, fr):
        v = restrict(st.cells[fr.cell(L)], st.pc)
        v = models.unit(v)
        sr, n = v.v.src, src_len(base_of(v.v.src))
        out = []
        go = st
        if n is not None:
            go = None
            for q, s in models.split(st, lt(v.v.pos, n)):
                if q: go = s
                else: out.append((header, s))
        if go is None: return out
        wr(go, fr.cell(L), models.iterv(sr, add(v.v.pos, N(1))))
        for kind, s, x in pull(m, go, sr, v.v.pos):
            if s.pc is FALSE: continue
            if kind == 'skip': out.append((inner, s))
            elif kind == 'some': wr(s, fr.cell(dest), models.some(x)); out.append((T, s))
            else: raise Undecided('nested iteration')
        return out
    tsucc = fr.cfg.succ[T]
    args = {o['p'][0] for o in t['a'] if o['k'] in ('copy', 'move')}
    bl = [dict(b) for b in fr.inst['blocks']]
    if nested:
        def to(x): return inner if x == header else x
        for b in scc:
            if b == header: continue
            u = dict(bl[b]['t'])
            if u['k'] == 'switch': u['cases'] = [[c, to(x)] for c, x in u['cases']]; u['else'] = to(u['else'])
            elif u['k'] == 'py': return None
            elif 't' in u: u['t'] = to(u['t'])
            bl[b]['t'] = u
        tsucc = [to(x) for x in tsucc]
    bl[header]['t'] = {'k': 'py', 'fn': outer_step, 'succ': [T] + [x for x in tsucc if x != T] + ([inner] if nested else []) + [header], 'use': args, 'def': {dest, L}}
    bl.append({'cleanup': False, 'st': [], 't': {'k': 'py', 'fn': inner_step, 'succ': [T, inner, header], 'use': {L}, 'def': {dest}}})
    inst['blocks'] = bl
    fr2 = Frame(m, inst, Cfg(inst))
    fr2.cells = fr.cells
    return fr2, (scc | {inner} if nested else scc)

def summarise(m, fr, scc, header, S0):
    alt = filtered_loop(m, fr, scc, header, S0)
    if alt is not None: fr, scc = alt
    cfg = fr.cfg
    # dead locals
    live = cfg.live()[header]
    borrowed = cfg.borrowed(scc)
    for loc, c in fr.cells.items():
        if loc not in live and loc not in borrowed: S0.cells.pop(c, None)
    # ---- bounded unrolling when every branch on the way is decided
    mark = (len(m.oblig), len(m.events))
    s = S0.copy()
    ok = False
    for it in range(UNROLL):
        try: res = run_region(m, fr, scc, header, s, header)
        except Undecided: break
        back = res.pop('back', [])
        back = [x for x in back if x.pc is not FALSE]
        exits = [(t, x) for t, l in res.items() for x in l if x.pc is not FALSE]
        if not back:
            m.loops.append((fr.inst['name'], header, 'unrolled %d' % it))
            return exits
        if exits: break
        s = merge(back)
        for loc, c in fr.cells.items():
            if loc not in live and loc not in borrowed: s.cells.pop(c, None)
    del m.oblig[mark[0]:]; del m.events[mark[1]:]
    # ---- discover what the loop changes
    slots = {}
    P = S0.pc
    while True:
        del m.oblig[mark[0]:]; del m.events[mark[1]:]
        st = S0.copy()
        phis = []
        vals = {}
        for key in sorted(slots, key=lambda k: (k[0], len(k[1]))):
            c, path = key
            v0 = restrict(m.get(S0.cells[c], path), P)
            v = genphi(m, key, v0, type_at(m, m.cellty.get(c), path), (), phis, st)
            vals[key] = v
            st.cells[c] = m.put(st.cells[c], path, v)
        log = []
        m.wlogs.append(log)
        try: res = run_region(m, fr, scc, header, st, header)
        finally: m.wlogs.pop()
        new = False
        for c, path in log:
            if c not in S0.cells: continue
            sp = slotpath(path, frozenset(p.var.id for p in phis))
            if any(k[0] == c and sp[:len(k[1])] == k[1] for k in slots): continue
            base = noidx(sp)
            if base != sp and (type_at(m, m.cellty.get(c), sp) is None or any(k[0] == c and noidx(k[1]) == base and k[1][:len(base) + 1] != sp[:len(base) + 1] for k in slots)):
                sp = base       # two elements of one sequence: may be the same one
                if any(k[0] == c and sp[:len(k[1])] == k[1] for k in slots): continue
            for k in [k for k in slots if k[0] == c and k[1][:len(sp)] == sp]: del slots[k]
            slots[(c, sp)] = 1; new = True
        if not new: break
    for w in m.wlogs:        # writes are visible to enclosing loops too
        for k in slots: w.append(k)
    backs = [x for x in res.pop('back', []) if x.pc is not FALSE]
    exits = [(t, x) for t, l in res.items() for x in l if x.pc is not FALSE]
    if not backs:
        m.loops.append((fr.inst['name'], header, 'no iteration'))
        # φ at the first arrival is the initial value
        mp = phimap_init(phis)
        return [(t, State(subst(x.pc, mp), substcells(x.cells, mp))) for t, x in exits]
    B = merge(backs)
    return Solver(m, fr, header, P, phis, B, exits, mark).solve()

def phimap_init(phis):
    return {p.var.id: p.init for p in phis}
def substcells(cells, mp):
    s = core._Subst(mp)
    return {k: (s.val(v) if v.fv & s.dom else v) for k, v in cells.items()}

class Solver:
    def __init__(self, m, fr, header, P, phis, B, exits, mark):
        self.m, self.fr, self.header, self.P, self.phis, self.B, self.exits, self.mark = m, fr, header, P, phis, B, exits, mark
        self.K = fresh('k', 'int', 0)
        self.k = num(self.K)
        self.sol = {}
        self.kinds = []
    def result_of(self, p):
        c, path = p.key
        v = self.m.get(self.B.cells[c], path + p.sub)
        if p.kind == 'iter':
            v = restrict(v, self.B.pc)
            if isinstance(v, Leaf) and isinstance(v.v, IterV) and v.v.src == p.val.v.src: return v.v.pos
            if isinstance(v, Leaf) and isinstance(v.v, IterV): raise Undecided('iterator replaced in a loop')
            # conditional advance
            def f(x):
                if isinstance(x, Leaf) and isinstance(x.v, IterV) and x.v.src == p.val.v.src: return x.v.pos
                raise Undecided('iterator replaced in a loop')
            return dmap(v, f)
        return v
    def subst_all(self, mp):
        sb = core._Subst(mp)
        self.b = {v: sb.val(x) for v, x in self.b.items()}
        self.pcB = sb.val(self.pcB)
        self.restrict_all()
    def restrict_all(self):
        self.b = {v: restrict(x, self.pcB) for v, x in self.b.items()}
    def finish(self, p, sol, kind):
        self.sol[p.var.id] = sol
        if p in self.alias: self.sol[self.alias[p]] = sol
        self.kinds.append(kind)
        self.un.remove(p)
        del self.b[p]
        self.subst_all({p.var.id: sol})
    def solve(self):
        m, K = self.m, self.K
        self.un = list(self.phis)
        self.pcB = restrict(self.B.pc, self.P)
        self.b = {p: self.result_of(p) for p in self.un}
        self.restrict_all()
        self.pseq = {}
        self.run()
        return self.close()
    alias = {}      # generalised sequence -> variable that stood for it first
    def invariants(self):
        """lengths, and uniqueness of shared handles, that no iteration changes"""
        m = self.m
        cand = [p for p in self.un if p.kind == 'seq' and p not in self.pseq and p not in self.alias]
        while cand:
            new = {}
            for p in cand:
                S2 = fresh('S', 'obj'); SHAPE[S2.id] = (m, p.ty)
                i = fresh('e', 'int', 0)
                n0 = seq_len(p.init)
                el = m.sym('at', (S2, ratom(i)), p.ty, State(TRUE, {}))
                inr = lt(num(i), n0)
                if isinstance(el, Struct) and el.tag == ('arc',):
                    old = restrict(seq_at(p.init, num(i)), inr)
                    if isinstance(old, Struct) and old.tag == el.tag: el = struct(el.tag, [el.f[0], old.f[1]])
                new[p] = (S2, n0, i, inr, el, seq_comp_v(n0, i, el))
            sb = core._Subst({p.var.id: x[5] for p, x in new.items()})
            pc = sb.val(self.pcB)
            b = {q: restrict(sb.val(x), pc) for q, x in self.b.items()}
            bad = []
            for p, (S2, n0, i, inr, el, v) in new.items():
                n1 = seq_len(b[p])
                ok = n1 is n0 or restrict(eq(n1, n0), pc) is TRUE
                if ok and isinstance(el, Struct) and el.tag == ('arc',):
                    q = b_and(pc, inr)
                    e = restrict(seq_at(b[p], num(i)), q)
                    ok = isinstance(e, Struct) and e.tag == el.tag and same_at(e.f[1], restrict(el.f[1], q), i, q)
                if not ok: bad.append(p)
            if bad:
                cand = [p for p in cand if p not in bad]; continue
            self.alias = dict(self.alias)
            for p, x in new.items():
                self.alias[p] = p.var.id
                p.var, p.val = x[0], x[5]
            self.b, self.pcB = b, pc
            return True
        return False
    def samelen(self, a, b):
        x, y = seq_len(a), seq_len(b)
        return x is y or restrict(eq(x, y), self.pcB) is TRUE
    def run(self):
        progress = True
        while self.un and progress:
            progress = False
            U = self.U()
            for p in list(self.un):
                if p not in self.un: continue
                r = self.try_solve(p, self.U())
                if r is not None:
                    self.finish(p, *r); progress = True
            if progress: continue
            # sequences updated at one position per iteration
            for p in list(self.un):
                if p.kind == 'seq' and p not in self.pseq and self.detect_point(p):
                    progress = True
        if self.un and self.invariants(): return self.run()
        if self.un: self.fold()
    def U(self): return frozenset(p.var.id for p in self.un)
    # ---- single leaves
    def try_solve(self, p, U):
        b, K, k = self.b[p], self.K, self.k
        if p.kind == 'seq': return self.try_seq(p, U)
        if b is p.val or (p.kind == 'iter' and b is num(p.var)): return (p.init, 'invariant')
        if p in self.pseq: return None
        if not (b.fv & U):
            return (self.lastval(b, p.init), 'last')
        if p.kind in ('num', 'iter'):
            v = num(p.var)
            if self.has_struct(b): return None
            try: d = sub(b, v)
            except Undecided: return None
            d = restrict(d, self.pcB)
            if not (d.fv & U):
                if K.id not in d.fv: return (add(p.init, mul(d, k)), 'counter')
                q = fresh('j', 'int', 0)
                return (add(p.init, vsum(k, q, subst(d, {K.id: num(q)}))), 'sum')
            for kind in ('maxf', 'minf'):
                e = self.extreme(b, p.var, kind == 'maxf')
                if e is None or e.fv & U: continue
                if kind == 'maxf': cands = (ite(gt(e, v), e, v), ite(ge(e, v), e, v))
                else: cands = (ite(lt(e, v), e, v), ite(le(e, v), e, v))
                if b in [restrict(c, self.pcB) for c in cands]:
                    q = fresh('j', 'int', 0)
                    return (extf(kind, p.init, k, q, subst(e, {K.id: num(q)})), kind)
        if p.kind == 'bool':
            v = p.val
            hi = restrict(b, v); lo = restrict(b, b_not(v))
            if hi is TRUE and not (lo.fv & U):
                q = fresh('j', 'int', 0)
                return (b_or(p.init, exists(k, subst(lo, {K.id: num(q)}), q)), 'any')
            if lo is FALSE and not (hi.fv & U):
                q = fresh('j', 'int', 0)
                return (b_and(p.init, b_not(exists(k, b_not(subst(hi, {K.id: num(q)})), q))), 'all')
        return None
    def has_struct(self, b): return any(not isinstance(l.v, (Rat, bool)) for _, l in paths(b) if l is not BOT)
    def lastval(self, b, init):
        K, k = self.K, self.k
        if K.id not in b.fv and b is init: return init
        return ite(gt(k, N(0)), subst(b, {K.id: sub(k, N(1))}), init)
    def extreme(self, b, var, ismax):
        """b with the branch var -> -inf (max) / +inf (min) taken in every condition on var"""
        if isinstance(b, Leaf): return b
        c = b.c
        if c.kind != 'b' and var.id in [a for mo in c.q.t for a, _ in mo]:
            co = c.q.t.get(((var.id, 1),))
            if co is None: return None
            pos = (co < 0) == ismax       # condition holds in the limit
            return self.extreme(b.hi if pos else b.lo, var, ismax)
        h, l = self.extreme(b.hi, var, ismax), self.extreme(b.lo, var, ismax)
        if h is None or l is None: return None
        return ite(node(c, TRUE, FALSE), h, l)
    # ---- sequences
    def try_seq(self, p, U):
        r, K, k, m = self.b[p], self.K, self.k, self.m
        if r is p.val: return (p.init, 'invariant')
        if p in self.pseq:
            return self.finish_point(p, U)
        if not (r.fv & U): return (self.lastval(r, p.init), 'last')
        if not (isinstance(r, Leaf) and isinstance(r.v, SeqV)):
            if not isinstance(r, Struct) and all(l is BOT or isinstance(l.v, SeqV) for _, l in paths(r)) and self.samelen(r, p.val):
                return self.try_map(p, r, U)
            return None
        pc = r.v.p
        ph = p.val.v.p
        n = len(ph)
        if len(pc) > n and pc[:n] == ph and not any(self.dep(x, U) for x in pc[n:]):
            a = self.flatten(pc[n:])
            if a is not None: return (seq_cat(p.init, a), 'push')
        if len(pc) > n and pc[-n:] == ph and not any(self.dep(x, U) for x in pc[:-n]) and all(x[0] == 'lit' for x in pc[:-n]) and len(pc) - n == 1:
            v = pc[0][1]
            i = fresh('i', 'int', 0)
            return (seq_cat(seq_comp_v(k, i, subst(v, {K.id: sub(sub(k, N(1)), num(i))})), p.init), 'push_front')
        # same length: element-wise
        if self.samelen(r, p.val):
            return self.try_map(p, r, U)
        return None
    def dep(self, piece, U):
        fv = piece[1].fv if piece[0] == 'lit' else piece[1].fv | piece[2].fv
        return bool(fv & U)
    def flatten(self, pieces):
        """concatenation over k < K of the pieces"""
        K, k = self.K, self.k
        if all(x[0] == 'lit' for x in pieces):
            if len(pieces) == 1:
                i = fresh('i', 'int', 0)
                return seq_comp_v(k, i, subst(pieces[0][1], {K.id: num(i)}))
        mlen = core._seqlen(seqv(list(pieces)).v)
        if K.id in mlen.fv: return None
        q = fresh('i', 'int', 0)
        M = leaf(mlen)
        kk = floor(div(num(q), M))
        j = sub(num(q), mul(M, kk))
        body = seq_at(subst(seqv(list(pieces)), {K.id: kk}), j)
        return seq_comp_v(mul(k, M), q, body)
    def elem(self, p, r):
        i = fresh('i', 'int', 0)
        return i, seq_at(r, num(i)), seq_at(p.val, num(i))
    def try_map(self, p, r, U):
        """r_i depends only on the old element i: solve per element"""
        K, k = self.K, self.k
        i, ri, oi = self.elem(p, r)
        if isinstance(ri, Struct): return self.try_map_struct(p, r, i, ri, oi, U)
        if isinstance(oi, Struct): return self.try_map_struct(p, r, i, ri, oi, U)
        if not (isinstance(oi, Leaf) and isinstance(oi.v, Rat)) :
            return self.try_map_seqs(p, r, i, ri, oi, U)
        a = oi.v.single()
        if a is None: return None
        # every use of the sequence is the element i itself
        t = fresh('elt', a.sort, a.lo, a.hi)
        ri2 = replace_atom(ri, a, num(t))
        if ri2.fv & U: return None
        q = Phi(); q.key = None; q.sub = (); q.kind = 'num'; q.var = t; q.val = num(t)
        q.init = seq_at(p.init, num(i)); q.ty = None
        s = Solver.__new__(Solver)
        s.m, s.K, s.k, s.pcB, s.sol, s.kinds, s.pseq = self.m, K, k, self.pcB, {}, [], {}
        s.un = [q]; s.b = {q: ri2}
        rr = s.try_solve(q, frozenset([t.id]))
        if rr is None: return None
        if rr[1] == 'last' and self.point_cond(ri, i): return None
        return (seq_comp_v(seq_len(p.init), i, rr[0]), 'map ' + rr[1])
    def point_cond(self, ri, i):
        return any(isinstance(x, Cond) and i.id in x.fv and self.K.id in x.fv for x in conds_in(ri))
    def try_map_struct(self, p, r, i, ri, oi, U):
        K, k = self.K, self.k
        leaves = []
        def go(x, y, t):
            if isinstance(x, Struct):
                if not isinstance(y, Struct) or len(y.f) != len(x.f): return False
                return all(go(a, b, type_at(self.m, t, (('f', j),)) if isinstance(t, int) else None) for j, (a, b) in enumerate(zip(x.f, y.f)))
            if isinstance(x, Leaf) and isinstance(x.v, Rat) and x.v.single() is not None: a = x.v.single()
            elif isinstance(x, Node) and x.hi is TRUE and x.lo is FALSE and x.c.kind == 'b': a = x.c.q
            else: return False
            leaves.append((a, y, t)); return True
        if not go(oi, ri, p.ty if isinstance(p.ty, int) else None): return None
        bodies = [y for _, y, _ in leaves]
        qs = []
        for a, y, t in leaves:
            q = Phi(); q.key = None; q.sub = (); q.ty = t
            q.var = fresh('elt', a.sort, a.lo, a.hi)
            if a.id in F32ATOMS: F32ATOMS.add(q.var.id)
            q.kind = 'bool' if a.sort == 'bool' else 'num'
            q.val = b_atom(q.var) if q.kind == 'bool' else num(q.var)
            qs.append(q)
        for (a, _, _), q in zip(leaves, qs):
            bodies = [replace_atom(b, a, q.val) for b in bodies]
        # whatever else mentions the sequence is another element of it
        if any(b.fv & U for b in bodies): return None
        init = seq_at(p.init, num(i))
        inits = []
        def go2(x):
            if isinstance(x, Struct):
                for y in x.f: go2(y)
            else: inits.append(x)
        def shape(x, vals):
            if isinstance(x, Struct): return struct(x.tag, [shape(y, vals) for y in x.f])
            return vals.pop(0)
        if not isinstance(init, Struct): return None
        go2(init)
        if len(inits) != len(qs): return None
        for q, x in zip(qs, inits): q.init = x
        s = Solver.__new__(Solver)
        s.m, s.K, s.k, s.pcB, s.sol, s.kinds, s.pseq = self.m, K, k, self.pcB, {}, [], {}
        s.un = list(qs); s.b = dict(zip(qs, bodies))
        s.run()
        if any(self.point_cond(y, i) for _, y, _ in leaves) and 'last' in s.kinds: return None
        return (seq_comp_v(seq_len(p.init), i, shape(init, [s.sol[q.var.id] for q in qs])), 'map ' + '+'.join(s.kinds))
    def try_map_seqs(self, p, r, i, ri, oi, U):
        """elements are sequences: push e(k) on element k mod m, or push on all"""
        K, k = self.K, self.k
        if not (isinstance(oi, Leaf) and isinstance(oi.v, SeqV)): return None
        # all elements
        if isinstance(ri, Leaf) and isinstance(ri.v, SeqV):
            pc, ph = ri.v.p, oi.v.p
            n = len(ph)
            if len(pc) > n and pc[:n] == ph and not any(self.dep(x, U) for x in pc[n:]):
                a = self.flatten(pc[n:])
                if a is not None: return (seq_comp_v(seq_len(p.init), i, seq_cat(seq_at(p.init, num(i)), a)), 'push all')
            return None
        # one element, selected by k mod m
        for c in conds_in(ri):
            if c.kind == 'b': continue
            for mo in c.q.t:
                for a, _ in mo:
                    at = _atom_by_id[a]
                    if not (at.kind == 'floor' and K.id in at.fv): continue
                    # floor(K/m)
                    mm = core.r_div(ratom(K), at.args[0])
                    if K.id in mm.fv or mm.fv & U or i.id in mm.fv: continue
                    M = leaf(mm)
                    idx = sub(k, mul(M, floor(div(k, M))))
                    v = subst(ri, {i.id: idx})
                    old = seq_at(p.val, idx)
                    if not (isinstance(v, Leaf) and isinstance(v.v, SeqV) and isinstance(old, Leaf)): continue
                    pc, ph = v.v.p, old.v.p
                    n = len(ph)
                    if not (len(pc) == n + 1 and pc[:n] == ph and pc[n][0] == 'lit' and not self.dep(pc[n], U)): continue
                    ne = b_not(eq(num(i), idx))
                    if restrict(ri, ne) is not restrict(oi, ne): continue
                    e = pc[n][1]
                    j = fresh('j', 'int', 0)
                    ev = subst(e, {K.id: add(num(i), mul(num(j), M))})
                    cnt = floor(div(add(sub(k, num(i)), sub(M, N(1))), M))
                    body = seq_cat(seq_at(p.init, num(i)), seq_comp_v(cnt, j, ev))
                    full = seq_comp_v(seq_len(p.init), i, ite(lt(num(i), M), body, seq_at(p.init, num(i))))
                    if seq_len(p.init) is M: full = seq_comp_v(seq_len(p.init), i, body)
                    return (full, 'scatter')
        # one element, selected by a constant
        if K.id not in ri.c.fv if isinstance(ri, Node) else False:
            pass
        return None
    def detect_point(self, p):
        """element idx(k)=s*k+off gets v(k), everything else stays"""
        r, K, k = self.b[p], self.K, self.k
        if isinstance(r, Struct) or not all(l is BOT or isinstance(l.v, SeqV) for _, l in paths(r)): return False
        if not self.samelen(r, p.val): return False
        i, ri, oi = self.elem(p, r)
        for c in conds_in(ri):
            if c.kind == 'b' or K.id not in c.fv or i.id not in c.fv: continue
            co = c.q.t.get(((i.id, 1),))
            kc = c.q.t.get(((K.id, 1),))
            if co is None or kc is None or abs(co) != 1 or abs(kc) != 1: continue
            rest = Poly({mo: x for mo, x in c.q.t.items() if mo not in (((i.id, 1),), ((K.id, 1),))})
            rr = _mkrat(rest, P1)
            if rr.fv & self.U() or K.id in rr.fv or i.id in rr.fv: continue
            for t in (c.t, c.t - 1):
                # co*i + kc*k + rest = t
                idx = leaf(core.r_div(core.r_sub(core.r_sub(R(t), rr), core.r_mul(R(kc), ratom(K))), R(co)))
                v = subst(ri, {i.id: idx})
                ne = b_not(eq(num(i), idx))
                if restrict(ri, ne) is not restrict(oi, ne): continue
                s = -kc / co
                off = core.r_div(core.r_sub(R(t), rr), R(co))
                # reads of the sequence elsewhere must be of elements not written yet
                if not self.reads_ok(p, s, off, [v] + [x for q, x in self.b.items() if q is not p] + [self.pcB]): continue
                init = p.init
                v = subst(v, {p.var.id: init})
                self.pseq[p] = (s, off, v)
                self.b[p] = v
                mp = {p.var.id: init}
                sb = core._Subst(mp)
                for q in list(self.b):
                    self.b[q] = sb.val(self.b[q])
                self.pcB = sb.val(self.pcB)
                self.restrict_all()
                return True
        return False
    def reads_ok(self, p, s, off, vals):
        seen = set()
        for x in vals:
            for a in atoms_in(x):
                if a.kind == 'at' and a.args[0] is p.var:
                    j = a.args[1]
                    # k_j = (j - off)/s must be >= k
                    kj = core.r_div(core.r_sub(j, off), R(s))
                    d = core.r_sub(kj, ratom(self.K))
                    lo, hi = r_range(d)
                    if lo is None or lo < 0: return False
                elif p.var in a.args and a.kind not in ('len', 'at'): return False
        return True
    def finish_point(self, p, U):
        s, off, _ = self.pseq[p]
        v = self.b[p]
        if v.fv & (U - {p.var.id}): return None
        K, k = self.K, self.k
        i = fresh('i', 'int', 0)
        ki = leaf(core.r_div(core.r_sub(ratom(i), off), R(s)))
        touched = b_and(ge(ki, N(0)), lt(ki, k))
        body = ite(touched, subst(v, {K.id: ki}), seq_at(p.init, num(i)))
        return (seq_comp_v(seq_len(p.init), i, body), 'point')
    # ---- everything else
    def fold(self):
        m, K, k = self.m, self.K, self.k
        # pointwise sequences waiting on other leaves are not part of the fold
        grp = [p for p in self.un if p not in self.pseq]
        if not grp: raise Undecided('mutually dependent sequence updates')
        bodies = [self.b[p] for p in grp]
        U = self.U()
        if any((b.fv & U) - frozenset(p.var.id for p in grp) for b in bodies): raise Undecided('recurrence')
        if any(isinstance(l, Leaf) and isinstance(l.v, (Ptr, IterV)) for b in bodies if not isinstance(b, Struct) for _, l in paths(b)): raise Undecided('pointers in a recurrence')
        d = max([b.ld for b in bodies] + [0]) + 1
        acc = [var('acc%d_%d' % (d, j), p.var.sort, p.var.lo, p.var.hi) for j, p in enumerate(grp)]
        for p, a in zip(grp, acc):
            if p.var.id in F32ATOMS: F32ATOMS.add(a.id)
            if p.kind == 'seq': SHAPE[a.id] = (m, p.ty)
        mp = {}
        for p, a in zip(grp, acc):
            mp[p.var.id] = b_atom(a) if p.kind == 'bool' else num(a)
        body = struct('fold', [subst(b, mp) for b in bodies])
        t = fresh('fk', 'int', 0)
        lam = mk_lam(t, subst(body, {K.id: num(t)}))
        inits = struct('init', [p.init for p in grp])
        args = (ratom(K), inits, lam, d)
        st = State(TRUE, {})
        sols = []
        for j, p in enumerate(grp):
            v = foldval(m, p.kind, p.ty, (j,) + args, p.var)
            if p in self.alias: v = subst(p.val, {p.var.id: num(atom('fold', (j,) + args, 'obj'))})
            sols.append((p, v))
        for p, s in sols:
            self.finish(p, s, 'fold')
        for p in list(self.un):
            r = self.try_seq(p, self.U())
            if r is None: raise Undecided('sequence update')
            self.finish(p, *r)
    # ---- trip count and exits
    def close(self):
        m, K, k, P = self.m, self.K, self.k, self.P
        sol = self.sol
        C = self.pcB
        bound, stop = self.trip(C)
        sb = core._Subst(sol)
        exits = [(t, sb.val(x.pc), x) for t, x in self.exits]
        # obligations and events inside the loop speak about iteration K
        for o in m.oblig[self.mark[0]:]: o.cond = sb.val(o.cond)
        for e in m.events[self.mark[1]:]:
            e.pc = sb.val(e.pc); e.args = tuple(sb.val(a) if isinstance(a, (Leaf, Node, Struct)) else a for a in e.args)
        inf = bound is None
        if inf:
            if stop is None: raise Undecided('the loop does not terminate')
            bound = leaf(ratom(atom('inf', (), 'real', 10 ** 40)))
        n = bound if stop is None else first(bound, K, stop)
        m.loops.append((self.fr.inst['name'], self.header, ','.join(self.kinds) or 'none'))
        out = []
        def fin(t, x, kv, pc):
            mp = {}
            s1 = core._Subst(sol)
            s2 = core._Subst({K.id: kv})
            cells = {}
            for key, v in x.cells.items():
                if v.fv & s1.dom: v = s1.val(v)
                if K.id in v.fv: v = s2.val(v)
                cells[key] = v
            out.append((t, State(pc, cells)))
        tgts = {}
        if len(exits) == 1:
            t, pc, x = exits[0]
            fin(t, x, n, P)
            return out
        if stop is None:
            rest = P
            for j, (t, pc, x) in enumerate(exits):
                c = subst(restrict(pc, P), {K.id: n})
                fin(t, x, n, b_and(P, c))
            return [o for o in out if o[1].pc is not FALSE]
        ex = exists(bound, stop, K)
        others = []
        for t, pc, x in exits:
            c = restrict(subst(pc, {K.id: bound}), P)
            if not inf and c is TRUE: fin(t, x, bound, b_and(P, b_not(ex)))
            else: others.append((t, pc, x))
        for t, pc, x in others:
            q = P if inf else b_and(P, ex)
            if len(others) > 1: q = b_and(q, subst(restrict(pc, P), {K.id: n}))
            fin(t, x, n, q)
        return [o for o in out if o[1].pc is not FALSE]
    def trip(self, C):
        """(bound value or None, stop condition or None)"""
        K = self.K
        if C is TRUE: return (None, None)
        if C is FALSE: return (N(0), None)
        c = C.c
        b = node(c, TRUE, FALSE)
        if K.id not in c.fv:
            h, l = self.trip(C.hi), self.trip(C.lo)
            if h == l: return h
            bh, bl = h[0], l[0]
            if bh is None or bl is None:
                # may not terminate on one side: keep as a stop condition
                return (None, b_not(C))
            bd = ite(b, bh, bl)
            if h[1] is None and l[1] is None: return (bd, None)
            return (bd, ite(b, h[1] or FALSE, l[1] or FALSE))
        if C.lo is FALSE:
            t1 = self.first_false(c, True); t2 = self.trip(C.hi)
        elif C.hi is FALSE:
            t1 = self.first_false(c, False); t2 = self.trip(C.lo)
        else: return (None, b_not(C))
        if t1 is None:
            stop = b_not(b) if C.lo is FALSE else b
            return (t2[0], stop if t2[1] is None else b_or(stop, t2[1]))
        bd = t1 if t2[0] is None else vmin(t1, t2[0])
        return (bd, t2[1])
    def first_false(self, c, val):
        if c.kind == 'b': return None
        K = self.K
        if not isinstance(c.q, Poly): return None
        co, re_ = {}, {}
        for mo, x in c.q.t.items():
            d = dict(mo)
            if K.id not in d: re_[mo] = x; continue
            if d[K.id] != 1: return None
            co[tuple((i, e) for i, e in mo if i != K.id)] = x
        if not co: return None
        cp = Poly(co)
        a = _mkrat(cp, P1); rest = _mkrat(Poly(re_), P1)
        if K.id in rest.fv or K.id in a.fv: return None
        sg = core.p_sign(cp)
        if sg is None: return None
        x = div(leaf(core.r_sub(R(c.t), rest)), leaf(a))   # a*K (>=|>) t - rest
        if val:
            if sg > 0: return None
            n = add(floor(x), N(1)) if c.kind == 'ge' else ceil(x)     # K <= x (ge) / K < x (gt)
        else:
            if sg < 0: return None
            n = ceil(x) if c.kind == 'ge' else add(floor(x), N(1))     # K < x / K <= x
        return vmax(n, N(0))

def settle(v, pc):
    """v with the loop lengths in it solved under pc, where they can be"""
    for _ in range(4):
        todo = [a for a in atoms_in(v) if a.kind == 'first']
        done = False
        for a in todo:
            t = fresh('q', 'int', 0)
            body = restrict(lam_app(a.args[1], num(t)), pc)
            s = Solver.__new__(Solver); s.K = t
            bd, stop = s.trip(b_not(body))
            n = _tov(a.args[0])
            x = n.v.single() if isinstance(n, Leaf) and isinstance(n.v, Rat) else None
            inf = x is not None and x.kind == 'inf'
            if bd is None: new = first(n, t, stop) if stop is not None else None
            else:
                if not inf: bd = vmin(bd, n)
                new = bd if stop is None else first(bd, t, stop)
            if new is None: continue
            if isinstance(new, Leaf) and isinstance(new.v, Rat) and new.v.single() is a: continue
            v = restrict(replace_atom(v, a, new), pc); done = True
        if not done: break
    return v

def same_at(a, b, i, pc, depth=4):
    """equal for every i, told apart by the positions i is compared with"""
    a, b = restrict(a, pc), restrict(b, pc)
    if a is b or pc is FALSE: return True
    if not depth: return False
    for c in conds_in(a) + conds_in(b):
        if c.kind == 'b' or i.id not in c.fv or not isinstance(c.q, Poly): continue
        x = c.q.t.get(((i.id, 1),))
        if x not in (1, -1): continue
        rest = _mkrat(Poly({mo: y for mo, y in c.q.t.items() if mo != ((i.id, 1),)}), P1)
        if i.id in rest.fv: continue
        # a whole position at which the comparison turns
        at = leaf(core.r_sub(R(c.t), rest)) if x == 1 else leaf(core.r_sub(rest, R(c.t)))
        v = num(i)
        if not all(same_at(a, b, i, b_and(pc, d), depth - 1) for d in (gt(v, at), lt(v, at))): return False
        e = {i.id: at}
        return restrict(subst(a, e), subst(pc, e)) is restrict(subst(b, e), subst(pc, e))
    return False
def foldval(m, kind, ty, args, v):
    if kind == 'bool': return b_atom(atom('fold', args, 'bool'))
    if kind in ('num', 'iter', 'obj'):
        a = atom('fold', args, v.sort, v.lo, v.hi)
        if v.id in F32ATOMS: F32ATOMS.add(a.id)
        return num(a)
    st = State(TRUE, {})
    base = atom('fold', args, 'obj')
    if kind == 'seq': SHAPE[base.id] = (m, ty)
    if kind == 'seq': return m.symseq(base, num(atom('len', (base,), 'int', 0)), ty, st)
    if kind == 'enum': return m.sym('fold', args, ty, st)
    raise Undecided('recurrence of kind ' + kind)
def _reb_fold(a, g, boolean):
    j, n, inits, lam, d = g
    n = _tov(n)
    def f(x):
        x = _n(x)
        c = x.const()
        if c is not None and c <= 0:
            return inits.f[j]
        at = atom('fold', (j, x, inits, lam, d), a.sort, a.lo, a.hi)
        if a.id in F32ATOMS: F32ATOMS.add(at.id)
        if a.id in SHAPE: SHAPE[at.id] = SHAPE[a.id]
        return b_atom(at) if a.sort == 'bool' else leaf(ratom(at))
    return dmap(n, lambda l: f(l.v))
core.REBUILD['fold'] = _reb_fold

def conds_in(v):
    out, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if isinstance(x, Struct): st.extend(x.f); continue
        if isinstance(x, Leaf):
            if isinstance(x.v, Variant): st.extend(x.v.f)
            continue
        if not isinstance(x, Node) or x.id in seen: continue
        seen.add(x.id)
        out.append(x.c); st.append(x.hi); st.append(x.lo)
    return out

class _Every:
    """met by every set of variables: an atom without variables can be anywhere"""
    def __rand__(self, x): return (-1,)
class _AtomSubst(core._Subst):
    """substitution of one non-variable atom"""
    def __init__(self, a, v):
        super().__init__({i: v for i in a.fv} or {-1: v})
        if not a.fv: self.dom = _Every()
        self.a, self.v = a, v
    whole = False
    def again(self, x): return replace_atom(x, self.a, self.v)
    def atomval(self, x, boolean=False):
        if x is self.a: return self.v
        if not (x.fv & self.dom): return b_atom(x) if boolean else leaf(ratom(x))
        k = ('a', x.id, boolean)
        r = self.memo.get(k)
        if r is None:
            args = [self.arg(y) for y in x.args]
            r = core.rebuild(x, args, boolean)
            self.memo[k] = r
        return r
def replace_atom(v, a, new): return _AtomSubst(a, new).val(v)
