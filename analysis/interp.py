"""Abstract interpreter: MIR of the analysed crate -> value graphs.

Every function is turned into a transformer of a symbolic memory.  Joins become
conditional values, loops are summarised (see loops.py), calls are inlined,
virtual calls on unknown objects become uninterpreted functions of the object's
state and the arguments.
"""
import json, math, re, struct as _st, itertools
from core import *
import core, evaluate

# --------------------------------------------------------------------------
class Dump:
    def __init__(self, path):
        d = json.load(open(path))
        self.roots, self.types, self.insts = d['roots'], d['types'], d['insts']
        self.byname = {}
        for i, x in enumerate(self.insts): self.byname.setdefault(x['name'], i)
    def root(self, name):
        for k, v in self.roots.items():
            if k == name or k.endswith('::' + name): return v
        raise KeyError(name)

TRANSPARENT = ('core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop', 'core::ptr::unique::Unique',
               'core::ptr::non_null::NonNull', 'alloc::boxed::Box', 'core::cell::UnsafeCell', 'core::num::wrapping::Wrapping',
               'core::mem::maybe_dangling::MaybeDangling')
SEQ_ADT = ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque')

class State:
    __slots__ = ('pc', 'cells')
    def __init__(self, pc, cells): self.pc, self.cells = pc, cells
    def copy(self): return State(self.pc, dict(self.cells))

class Oblig:
    __slots__ = ('kind', 'msg', 'fn', 'sp', 'cond', 'stack')
    def __init__(self, kind, msg, fn, sp, cond, stack): self.kind, self.msg, self.fn, self.sp, self.cond, self.stack = kind, msg, fn, sp, cond, stack

class Event:
    __slots__ = ('name', 'args', 'pc', 'fn', 'sp', 'stack')
    def __init__(self, name, args, pc, fn, sp, stack): self.name, self.args, self.pc, self.fn, self.sp, self.stack = name, args, pc, fn, sp, stack

class Cfg:
    """control flow of one body: successors, topological order of SCCs, liveness"""
    def __init__(self, inst):
        self.inst = inst
        bl = inst['blocks']
        self.succ = []
        for b in bl:
            t = b['t']; k = t['k']
            if b['cleanup']: s = []
            elif k == 'goto' or k == 'drop': s = [t['t']]
            elif k == 'switch': s = [x[1] for x in t['cases']] + [t['else']]
            elif k == 'assert': s = [t['t']]
            elif k == 'py': s = t['succ']
            elif k == 'call': s = [t['t']] if t['t'] >= 0 else []
            else: s = []
            self.succ.append([x for x in s if not bl[x]['cleanup']])
        self._scc_cache = {}
        self._live = None
    def sccs(self, nodes, entry, cut):
        """SCCs of the subgraph `nodes` reachable from entry, edges into `cut` removed, in topological order"""
        key = (nodes, entry, cut)
        r = self._scc_cache.get(key)
        if r is not None: return r
        index, low, onst, st, out = {}, {}, set(), [], []
        cnt = itertools.count()
        def go(v):
            stack = [(v, iter([w for w in self.succ[v] if (nodes is None or w in nodes) and w != cut]))]
            index[v] = low[v] = next(cnt); st.append(v); onst.add(v)
            while stack:
                u, it = stack[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = next(cnt); st.append(w); onst.add(w)
                        stack.append((w, iter([x for x in self.succ[w] if (nodes is None or x in nodes) and x != cut])))
                        adv = True
                        break
                    elif w in onst: low[u] = min(low[u], index[w])
                if adv: continue
                stack.pop()
                if stack: low[stack[-1][0]] = min(low[stack[-1][0]], low[u])
                if low[u] == index[u]:
                    comp = []
                    while True:
                        w = st.pop(); onst.discard(w); comp.append(w)
                        if w == u: break
                    out.append(comp)
        go(entry)
        out.reverse()
        self._scc_cache[key] = out
        return out
    def live(self):
        """live-in locals per block (use-before-def), ref counts as use"""
        if self._live is not None: return self._live
        bl = self.inst['blocks']
        use, dfn = [], []
        for b in bl:
            u, d = set(), set()
            def us(p):
                if p[0] not in d: u.add(p[0])
                for e in p[1]:
                    if isinstance(e, list) and e[0] == 'i' and e[1] not in d: u.add(e[1])
            def op(o):
                if o['k'] in ('copy', 'move'): us(o['p'])
            def rv(r):
                for key in ('o', 'a', 'b'):
                    if isinstance(r.get(key), dict): op(r[key])
                for o in r.get('ops', ()): op(o)
                if isinstance(r.get('p'), list): us(r['p'])
            def df(p):
                if p[1]: us(p)
                else: d.add(p[0])
            if not b['cleanup']:
                for s in b['st']:
                    if s['k'] == '=':
                        rv(s['r']); df(s['p'])
                    elif s['k'] == 'setdisc': us(s['p'])
                t = b['t']
                if t['k'] == 'switch' or t['k'] == 'assert': op(t['o'])
                if t['k'] == 'call':
                    for o in t['a']: op(o)
                    if 'o' in t['f'] and isinstance(t['f']['o'], dict): op(t['f']['o'])
                    df(t['d'])
                if t['k'] == 'return': u.add(0) if 0 not in d else None
                if t['k'] == 'py':
                    u.update(x for x in t.get('use', range(len(self.inst['locals']))) if x not in d)
                    d.update(t.get('def', ()))
            use.append(u); dfn.append(d)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(len(bl) - 1, -1, -1):
                n = set(use[i])
                for s in self.succ[i]: n |= live[s] - dfn[i]
                if n != live[i]: live[i] = n; ch = True
        self._live = live
        return live
    def borrowed(self, blocks):
        """locals borrowed by blocks outside the given set"""
        out = set()
        for i, b in enumerate(self.inst['blocks']):
            if b['cleanup'] or i in blocks: continue
            for s in b['st']:
                if s['k'] == '=' and s['r']['k'] == 'ref' and '*' not in s['r']['p'][1]: out.add(s['r']['p'][0])
        return out

# --------------------------------------------------------------------------
# constants

def fbits(bits, n):
    return _st.unpack('<d' if n == 64 else '<f', int(bits).to_bytes(n // 8, 'little'))[0]
def _rnd(x, n):
    if n == 64: return float(x)
    return _st.unpack('<f', _st.pack('<f', float(x)))[0]
_cc = {}
def widened(x):
    """a single-precision constant read as a double: the value it really has"""
    if not isinstance(x, Rat): return leaf(x)
    c = x.const()
    if c is None:
        a = x.single() or (list(x.n.t)[0][0][0] and x.d is core.P1 and len(x.n.t) == 1 and core._atom_by_id[list(x.n.t)[0][0][0]] if x.n.t and list(x.n.t)[0] else None)
        if not a or a.kind not in ('pi', 'ln10', 'ln2'): return leaf(x)
        try: c = evaluate.Eval({}).rat(x)
        except Exception: return leaf(x)
    return N(Fr(_rnd(c, 32)))
def fconst(v, n):
    r = _cc.get((v, n))
    if r is None:
        r = _fconst(v, n); _cc[(v, n)] = r
    return r
def _bl(x): return x.numerator.bit_length() + x.denominator.bit_length()
def _fconst(v, n):
    if v != v: return leaf(ratom(atom('nan', ())))
    if v in (math.inf, -math.inf): return leaf(r_mul(R(1 if v > 0 else -1), ratom(atom('inf', (), 'real', 10 ** 40))))
    x = Fr(v)
    lim = 44 if n == 64 else 22
    if x.denominator == 1 or _bl(x) <= lim: return N(x)
    for q in (10 ** 3, 10 ** 5, 10 ** 6):
        y = x.limit_denominator(q)
        if _bl(y) <= lim and _rnd(y, n) == v: return N(y)
    # short decimal
    y = Fr(repr(_st_short(v, n)))
    if _bl(y) <= lim + 6 and _rnd(y, n) == v: return N(y)
    inv = (1 / x).limit_denominator(4)
    if inv and _rnd(1 / inv, n) == v and _bl(inv) <= lim: return N(1 / inv)
    lim2 = 26 if n == 64 else 12
    pi = Fr(31415926535897932384626433832795, 10 ** 31)
    y = (x / pi).limit_denominator(10 ** 5)
    if y and _bl(y) <= lim2 and abs(Fr(_rnd(y * pi, n)) - x) <= abs(x) * (Fr(1, 2 ** 51) if n == 64 else Fr(1, 2 ** 22)): return mul(N(y), leaf(RPI))
    l10 = Fr(23025850929940456840179914546844, 10 ** 31)
    for f in (lambda z: z / l10, lambda z: z * l10):
        y = f(x).limit_denominator(1000)
        if y and _bl(y) <= 12:
            back = y * l10 if f(l10) == 1 else y / l10
            if abs(Fr(_rnd(back, n)) - x) <= abs(x) * (Fr(1, 2 ** 51) if n == 64 else Fr(1, 2 ** 22)):
                return mul(N(y), leaf(RLN10)) if f(l10) == 1 else div(N(y), leaf(RLN10))
    y = (x * x).limit_denominator(1000)
    if y and _bl(y) <= 14 and abs(math.sqrt(y) - abs(float(x))) <= abs(float(x)) * (2 ** -51 if n == 64 else 2 ** -22):
        return sqrt(N(y)) if x > 0 else neg(sqrt(N(y)))
    return N(x)
def _st_short(v, n):
    if n == 64: return v
    for p in range(1, 10):
        s = float('%.*g' % (p, v))
        if _rnd(s, 32) == v: return s
    return v

# --------------------------------------------------------------------------
F32ATOMS = set()       # atoms known to be exactly representable as f32

class Machine:
    def __init__(self, dump, mode='real'):
        self.dump, self.T, self.mode = dump, dump.types, mode
        self.cellty = {}
        self._cell = itertools.count(1)
        self.oblig = []
        self.events = []
        self.wlogs = []
        self.stack = []
        self.cfgs = {}
        self.called = set()          # instances analysed
        self.extern = {}             # opaque callee path -> call sites
        self.vts = dump.__dict__.setdefault('vts', {})                # vtable id -> {method: callee}
        self.vtids = {}
        self.statics = {}
        self.loops = []              # loop summaries (fn, header, kind)
        self.opaque_types = ('probe::Opaque', 'Opaque')
        self.ranges = {}
        self.notes = []
        self.noframe = 0
    # ---- types
    def ty(self, t): return self.T[t]
    def tstr(self, t): return self.T[t]['s']
    def is_float(self, t): return self.T[t]['k'] == 'float'
    def is_opaque_adt(self, T):
        return T['k'] == 'adt' and T['path'].split('::')[-1].startswith('Opaque')
    def fields(self, T, v=0):
        if T['k'] == 'tuple': return [(str(i), t) for i, t in enumerate(T['f'])]
        if T['k'] == 'closure': return [(str(i), t) for i, t in enumerate(T['f'])]
        return [(n, t) for n, t in T['variants'][v]['f']]
    # ---- cells
    def newcell(self, ty, label=''):
        i = next(self._cell)
        self.cellty[i] = ty
        return i
    # ---- symbolic values of a type
    def sym(self, kind, args, ty, st):
        """an arbitrary value of type ty named by (kind,args)"""
        T = self.T[ty]; k = T['k']
        if k == 'float':
            a = atom(kind, args, 'real')
            if T['bits'] == 32: F32ATOMS.add(a.id)
            return num(a)
        if k == 'int':
            lo, hi = self.int_range(T)
            return num(atom(kind, args, 'int', lo, hi))
        if k == 'char': return num(atom(kind, args, 'int', 0, 0x10ffff))
        if k == 'bool': return b_atom(atom(kind, args, 'bool'))
        if k in ('tuple', 'closure'):
            base = atom(kind, args, 'obj') if T['f'] else None
            return struct(self.tag(ty), [self.sym('proj', (base, n, i), t, st) for i, (n, t) in enumerate(self.fields(T))])
        if k == 'array' or k == 'slice':
            base = atom(kind, args, 'obj')
            n = N(T['n']) if k == 'array' else num(atom('len', (base,), 'int', 0))
            return self.symseq(base, n, T['e'], st)
        if k == 'str': return num(atom(kind, args, 'obj'))
        if k == 'ref' or k == 'ptr':
            c = self.newcell(T['e'])
            st.cells[c] = self.sym('deref', (atom(kind, args, 'obj'),), T['e'], st)
            return ptr(c)
        if k == 'dyn' or k == 'fnptr' or k == 'never': return num(atom(kind, args, 'obj'))
        if k == 'fndef': return struct(self.tag(ty), [])
        if k == 'adt':
            p = T['path']
            if p in SEQ_ADT:
                base = atom(kind, args, 'obj')
                return self.symseq(base, num(atom('len', (base,), 'int', 0)), T['args'][0], st)
            if p == 'core::time::Duration':
                a = atom(kind, args, 'int', 0)
                return div(num(a), N(10 ** 9))
            if p == 'alloc::rcs::arc::Arc' or p == 'alloc::rcs::rc::Rc':
                base = atom(kind, args, 'obj')
                return struct(('arc',), [self.sym('proj', (base, 'content', 0), T['args'][0], st), b_atom(atom('uniq', (base,), 'bool'))])
            if p == 'alloc::boxed::Box':
                c = self.newcell(T['args'][0])
                st.cells[c] = self.sym('deref', (atom(kind, args, 'obj'),), T['args'][0], st)
                return ptr(c)
            if p == 'std::collections::hash::map::HashMap' or p == 'alloc::collections::btree::map::BTreeMap':
                base = atom(kind, args, 'obj')
                vb = atom('mapvals', (base,), 'obj')
                return struct(('map',), [num(base), self.symseq(vb, num(atom('len', (vb,), 'int', 0)), T['args'][1], st)])
            if p == 'petgraph::graph_impl::Graph':
                base = atom(kind, args, 'obj')
                vb = atom('weights', (base,), 'obj')
                return struct(('graph',), [num(base), self.symseq(vb, num(atom('len', (vb,), 'int', 0)), T['args'][0], st)])
            if p == 'petgraph::graph_impl::NodeIndex':
                return num(atom(kind, args, 'int', 0))
            if p in TRANSPARENT: return self.sym(kind, args, T['args'][0], st)
            if not T.get('variants') or self.is_opaque_adt(T): return num(atom(kind, args, 'obj'))
            if T['adt'] == 'struct':
                base = atom(kind, args, 'obj')
                return struct(self.tag(ty), [self.sym('proj', (base, n, i), t, st) for i, (n, t) in enumerate(self.fields(T))])
            if T['adt'] == 'enum':
                base = atom(kind, args, 'obj')
                vs = T['variants']
                d = num(atom('disc', (base,), 'int', 0, len(vs) - 1))
                r = None
                for i in range(len(vs) - 1, -1, -1):
                    x = variant(i, [self.sym('vproj', (base, i, n, j), t, st) for j, (n, t) in enumerate(self.fields(T, i))])
                    r = x if r is None else ite(eq(d, N(i)), x, r)
                return r
            return num(atom(kind, args, 'obj'))
        raise Undecided('symbolic value of type ' + T['s'])
    def symseq(self, base, n, ety, st):
        i = fresh('e', 'int', 0)
        E = self.T[ety]
        if E['k'] in ('ref', 'ptr'): raise Undecided('unknown sequence of references')
        r = seq_comp_v(n, i, self.sym('at', (base, ratom(i)), ety, st))
        if base.kind == 'var' and isinstance(r, Leaf) and len(r.v.p) == 1 and r.v.p[0][0] == 'comp': core.ETA[r.v.p[0][2].id] = (base.id, r.v.p[0][1])
        return r
    def tag(self, ty): return self.T[ty]['s'] if self.T[ty]['k'] != 'tuple' else 'tuple'
    def int_range(self, T):
        b = T['bits']
        if T['signed']: return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        if b == 64: return (0, None)     # lengths and counts are unbounded above in the model
        return (0, (1 << b) - 1)
    # ---- constants
    def const(self, ty, v, st):
        T = self.T[ty]; k = T['k']
        if 'z' in v and v['z']:
            if k == 'fndef': return struct(self.tag(ty), [])
            if k == 'tuple' and not T['f']: return UNIT
            if k == 'closure': return struct(self.tag(ty), [])
            if k == 'adt':
                if T.get('variants') and T['adt'] == 'struct': return struct(self.tag(ty), [self.const(t, {'z': 1}, st) for _, t in self.fields(T)])
                return num(atom('zst', (T['s'],), 'obj'))
            return num(atom('zst', (T['s'],), 'obj'))
        if 'b' in v:
            b = int(v['b'])
            if k == 'float': return fconst(fbits(b, T['bits']), T['bits'])
            if k == 'bool': return TRUE if b else FALSE
            if k == 'int':
                if T['signed'] and b >= 1 << (T['bits'] - 1): b -= 1 << T['bits']
                return N(b)
            if k == 'char': return N(b)
            if k == 'adt' and T.get('variants'):
                if T['adt'] == 'enum':
                    for i, x in enumerate(T['variants']):
                        if int(x['d']) == b and not x['f']: return variant(i)
                if T['adt'] == 'struct':
                    fs = self.fields(T)
                    nz = [t for _, t in fs]
                    if len(nz) == 1: return struct(self.tag(ty), [self.const(nz[0], v, st)])
            if k == 'adt' and T['path'] == 'core::time::Duration': raise Undecided('duration constant')
            return num(atom('const', (T['s'], str(b)), 'obj'))
        if 's' in v:
            if k == 'tuple': return struct('tuple', [self.const(t, x, st) for t, x in zip(T['f'], v['s'])])
            if k == 'adt' and T.get('variants'):
                if T['adt'] == 'enum':
                    i = v.get('v', 0)
                    return variant(i, [self.const(t, x, st) for (_, t), x in zip(self.fields(T, i), v['s'])])
                return struct(self.tag(ty), [self.const(t, x, st) for (_, t), x in zip(self.fields(T), v['s'])])
            if k == 'closure': return struct(self.tag(ty), [self.const(t, x, st) for t, x in zip(T['f'], v['s'])])
            if k == 'adt' and T['path'] == 'core::time::Duration':
                return self.durconst(v)
        if 'a' in v: return seq_lit([self.const(T['e'], x, st) for x in v['a']])
        if 'str' in v: return strv(v['str'])
        if 'ref' in v:
            key = ('const', json.dumps(v, sort_keys=True), ty)
            c = self.statics.get(key)
            if c is None:
                c = self.newcell(v['ty']); self.statics[key] = c
            if c not in st.cells: st.cells[c] = self.const(v['ty'], v['ref'], st)
            return ptr(c)
        if 'static' in v:
            c = self.statics.get(v['static'])
            e = T['e'] if k in ('ref', 'ptr') else ty
            if c is None:
                c = self.newcell(e); self.statics[v['static']] = c
                self.notes.append(('static', v['static'], self.tstr(e)))
            if c not in st.cells: st.cells[c] = num(atom('static', (v['static'],), 'obj'))
            return ptr(c)
        if 'fn' in v: return struct(self.tag(ty), [])
        return unknown('constant of type %s' % T['s'])
    def durconst(self, v):
        def flat(x):
            if 'b' in x: return [int(x['b'])]
            return [y for z in x.get('s', ()) for y in flat(z)]
        f = flat(v)
        if len(f) == 2: return N(Fr(f[0]) + Fr(f[1], 10 ** 9))
        raise Undecided('duration constant')
    # ---- paths in values
    def get(self, v, path, i=0):
        if i == len(path): return v
        e = path[i]
        if isinstance(v, Node): return dmap(v, lambda x: self.get(x, path, i))
        if v is BOT: return BOT
        if isinstance(v, Leaf) and isinstance(v.v, Unk): return v
        if e[0] == 'f':
            if isinstance(v, Struct):
                if e[1] >= len(v.f): raise Undecided('field %d of %s' % (e[1], v.tag))
                return self.get(v.f[e[1]], path, i + 1)
            raise Undecided('field of %r' % (v,))
        if e[0] == 'v':
            if isinstance(v, Leaf) and isinstance(v.v, Variant):
                if v.v.idx != e[1]: return BOT
                return self.get(struct(('variant', e[1]), v.v.f), path, i + 1)
            if isinstance(v, Struct) and e[1] == 0: return self.get(v, path, i + 1)
            raise Undecided('variant of %r' % (v,))
        if e[0] == 'i':
            if i + 1 < len(path): return self.get(seq_at(v, e[1]), path, i + 1)
            return seq_at(v, e[1])
        if e[0] == 's': return self.get(seq_slice(v, e[1], e[2]), path, i + 1)
        if e[0] == 'dyn': return self.get(v, path, i + 1)
        raise Undecided('path element %r' % (e,))
    def put(self, v, path, new, i=0):
        if i == len(path): return new
        e = path[i]
        if e[0] == 'dyn': return self.put(v, path, new, i + 1)
        if v is BOT and e[0] in 'fv': return BOT
        if isinstance(v, Leaf) and isinstance(v.v, Unk): return v
        if isinstance(v, Node) and e[0] != 'i':
            def f(x): return self.put(x, path, new, i)
            return dmap(v, f)
        if e[0] == 'f':
            if not isinstance(v, Struct): raise Undecided('write to a field of %r' % (v,))
            fs = list(v.f); fs[e[1]] = self.put(fs[e[1]], path, new, i + 1)
            return struct(v.tag, fs)
        if e[0] == 'v':
            if isinstance(v, Leaf) and isinstance(v.v, Variant):
                if v.v.idx != e[1]: return v
                s = self.put(struct(('variant', e[1]), v.v.f), path, new, i + 1)
                return variant(e[1], s.f)
            if isinstance(v, Struct) and e[1] == 0: return self.put(v, path, new, i + 1)
            raise Undecided('write to a variant of %r' % (v,))
        if e[0] == 'i':
            old = seq_at(v, e[1]) if i + 1 < len(path) else None
            return seq_set(v, e[1], self.put(old, path, new, i + 1))
        if e[0] == 's':
            mid = self.put(seq_slice(v, e[1], e[2]), path, new, i + 1)
            return seq_cat(seq_cat(seq_take(v, e[1]), mid), seq_drop(v, add(e[1], e[2])))
        raise Undecided('path element %r' % (e,))
    def load(self, st, p):
        """p: pointer value"""
        def f(x):
            if not isinstance(x, Leaf) or not isinstance(x.v, Ptr):
                if isinstance(x, Leaf) and isinstance(x.v, StrV): return x
                if isinstance(x, Leaf) and isinstance(x.v, Unk): return x
                raise Undecided('dereference of %r' % (x,))
            if x.v.cell not in st.cells: raise Undecided('dangling pointer')
            return self.get(st.cells[x.v.cell], x.v.path)
        return dmap(restrict(p, st.pc), f)
    def store(self, st, p, new):
        p = restrict(p, st.pc)
        if isinstance(p, Leaf):
            if isinstance(p.v, Ptr): return self.store1(st, p.v.cell, p.v.path, new)
            raise Undecided('store through %r' % (p,))
        for cond, lf in leafconds(p):
            if lf is BOT: continue
            if not isinstance(lf.v, Ptr): raise Undecided('store through %r' % (lf,))
            c = lf.v.cell
            old = self.get(st.cells[c], lf.v.path)
            self.store1(st, c, lf.v.path, ite(cond, new, old) if old is not BOT else new)
    def store1(self, st, c, path, new):
        for w in self.wlogs: w.append((c, path))
        st.cells[c] = self.put(st.cells.get(c, BOT), path, new)
    # ---- places
    def place(self, st, fr, p):
        """(cell, path, type) — a pointer leaf or a diagram of pointers"""
        local, proj = p
        cur = ptr(fr.cell(local))
        ty = fr.inst['locals'][local]
        var = None
        for e in proj:
            T = self.T[ty]
            if e == '*':
                if T['k'] == 'adt' and T['path'] == 'alloc::boxed::Box':
                    cur = self.load(st, cur); ty = T['args'][0]
                else:
                    cur = self.load(st, cur); ty = T['e']
                cur = self._strptr(st, cur, ty)
            elif e[0] == 'f':
                if T['k'] == 'adt' and T['path'] in TRANSPARENT:
                    ty = e[2]
                    continue
                if var is not None:
                    cur = pext(cur, ('f', e[1])); var = None
                else: cur = pext(cur, ('f', e[1]))
                ty = e[2]
            elif e[0] == 'v':
                cur = pext(cur, ('v', e[1])); var = e[1]
            elif e[0] == 'i':
                cur = pext(cur, ('i', st.cells[fr.cell(e[1])])); ty = T['e']
            elif e[0] == 'c':
                off, mn, fe = e[1], e[2], e[3]
                if fe:
                    n = seq_len(self.load(st, cur))
                    cur = pext(cur, ('i', sub(n, N(off))))
                else: cur = pext(cur, ('i', N(off)))
                ty = T['e']
            elif e[0] == 's':
                a, b, fe = e[1], e[2], e[3]
                if fe:
                    n = seq_len(self.load(st, cur))
                    cur = pext(cur, ('s', N(a), sub(sub(n, N(b)), N(a))))
                else: cur = pext(cur, ('s', N(a), N(b - a)))
            else: raise Undecided('projection %r' % (e,))
        return cur, ty
    def _strptr(self, st, cur, ty):
        return cur
    def readplace(self, st, fr, p):
        local, proj = p
        if not proj: return st.cells.get(fr.cell(local), BOT)
        cur, ty = self.place(st, fr, p)
        return self.load(st, cur)
    def operand(self, st, fr, o):
        if o['k'] in ('copy', 'move'): return self.readplace(st, fr, o['p'])
        return self.const(o['ty'], o['v'], st)
    def opty(self, fr, o):
        if o['k'] == 'const': return o['ty']
        local, proj = o['p']
        ty = fr.inst['locals'][local]
        for e in proj:
            T = self.T[ty]
            if e == '*': ty = T['args'][0] if T['k'] == 'adt' else T['e']
            elif e[0] == 'f': ty = e[2]
            elif e[0] in 'ic': ty = T['e']
        return ty
    # ---- arithmetic
    def fop(self, op, bits, *args):
        """uninterpreted floating operation"""
        def f(*xs):
            xs = tuple(_n(x) for x in xs)
            if op in ('Add', 'Mul'): xs = tuple(sorted(xs, key=lambda r: r.id))
            return leaf(ratom(atom('fp', (op, bits) + xs, 'real')))
        return lift(f)(*args)
    def fcmp(self, op, a, b):
        if op == 'Gt': op, a, b = 'Lt', b, a
        if op == 'Ge': op, a, b = 'Le', b, a
        def f(x, y):
            x, y = _n(x), _n(y)
            cx, cy = x.const(), y.const()
            if cx is not None and cy is not None:
                return TRUE if {'Lt': cx < cy, 'Le': cx <= cy, 'Eq': cx == cy, 'Ne': cx != cy}[op] else FALSE
            if op in ('Eq', 'Ne'):
                if x.id > y.id: x, y = y, x
                c = b_atom(atom('fcmp', ('Eq', x, y), 'bool'))
                return c if op == 'Eq' else b_not(c)
            return b_atom(atom('fcmp', (op, x, y), 'bool'))
        return lift(f)(a, b)
    def binop(self, op, a, b, ty):
        T = self.T[ty]
        k = T['k']
        if isinstance(a, Leaf) and isinstance(a.v, Unk): return a
        if isinstance(b, Leaf) and isinstance(b.v, Unk): return b
        if k == 'float':
            if self.mode == 'fp':
                if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'): return self.fop(op, T['bits'], a, b)
                return self.fcmp(op, a, b)
            if op == 'Add': return self.f32r(add(a, b), T)
            if op == 'Sub': return self.f32r(sub(a, b), T)
            if op == 'Mul': return self.f32r(mul(a, b), T)
            if op == 'Div': return self.f32r(div(a, b), T)
            if op == 'Rem': return frem(a, b)
        if op == 'Lt': return lt(a, b)
        if op == 'Le': return le(a, b)
        if op == 'Gt': return gt(a, b)
        if op == 'Ge': return ge(a, b)
        if op == 'Eq': return self.eqv(a, b)
        if op == 'Ne': return b_not(self.eqv(a, b))
        if op == 'Cmp': return cmp3(a, b)
        if k == 'bool':
            if op == 'BitAnd': return b_and(a, b)
            if op == 'BitOr': return b_or(a, b)
            if op == 'BitXor': return ite(a, b_not(b), b)
        if k == 'int':
            bits, sg = T['bits'], T['signed']
            w = lambda x: self.wrapint(x, bits, sg)
            if op in ('Add', 'AddUnchecked'): return w(add(a, b)) if op == 'Add' else add(a, b)
            if op in ('Sub', 'SubUnchecked'): return w(sub(a, b)) if op == 'Sub' else sub(a, b)
            if op in ('Mul', 'MulUnchecked'): return w(mul(a, b)) if op == 'Mul' else mul(a, b)
            if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
                r = {'A': add, 'S': sub, 'M': mul}[op[0]](a, b)
                return struct('tuple', [r, self.outside(r, bits, sg)])
            if op == 'Div': return idiv(a, b, sg)
            if op == 'Rem': return irem(a, b, sg)
            if op in ('Shl', 'ShlUnchecked'): return w(mul(a, pow2(b)))
            if op in ('Shr', 'ShrUnchecked'): return floor(div(a, pow2(b)))
            if op == 'BitAnd': return bitand(a, b, bits, sg)
            if op == 'BitOr': return bitor(a, b)
            if op == 'BitXor': return self.opaque_int('xor', T, a, b)
        if op == 'Offset': raise Undecided('pointer arithmetic')
        raise Undecided('operator %s on %s' % (op, T['s']))
    def wrapint(self, x, bits, sg):
        if bits == 64: return wrapc(x, bits, sg)      # machine words are treated as unbounded; overflow is a separate obligation
        return wrap(x, bits, sg)
    def outside(self, r, bits, sg):
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        c = lt(r, N(lo))
        if bits < 64 or self.mode == 'fp' and any(core._atom_by_id[i].kind == 'f2i' for i in r.fv): c = b_or(c, gt(r, N(hi)))
        return c
    def opaque_int(self, name, T, *args):
        lo, hi = self.int_range(T)
        return lift(lambda *x: num(atom('iop', (name,) + tuple(_n(y) for y in x), 'int', lo, hi)))(*args)
    def eqv(self, a, b):
        return eq(a, b)
    def f32r(self, v, T):
        return v
    def r32(self, v):
        """rounding to single precision"""
        if self.mode != 'real32': return v
        def f(x):
            x = _n(x)
            return leaf(r32rat(x))
        return lift(f)(v)
    def cast(self, kind, v, frm, to, st, vt=None):
        F, Tt = self.T[frm], self.T[to]
        if isinstance(v, Leaf) and isinstance(v.v, Unk): return v
        if kind == 'IntToInt':
            if F['k'] == 'bool': v = ite(v, N(1), N(0))
            if Tt['k'] == 'char': return v
            if F['k'] == 'int' and F['bits'] == 64 and not F['signed'] and Tt['bits'] == 64 and Tt['signed']: return v
            if F['k'] == 'int' and F['bits'] == 64 and F['signed'] and Tt['bits'] == 64 and not Tt['signed']:
                return v      # i64 -> u64 of non-negative values; negative ones are outside the model
            if Tt['bits'] == 64: return wrapc(v, 64, Tt['signed'])
            return wrap(v, Tt['bits'], Tt['signed'])
        if kind == 'FloatToInt':
            if self.mode == 'fp':
                lo, hi = (-(1 << (Tt['bits'] - 1)), (1 << (Tt['bits'] - 1)) - 1) if Tt['signed'] else (0, (1 << Tt['bits']) - 1)
                def f(x):
                    x = _n(x); c = x.const()
                    if c is not None: return N(min(max(int(c), lo), hi))
                    return num(atom('f2i', (x, Tt['bits'], Tt['signed']), 'int', lo, hi))
                return lift(f)(v)
            return toint(v, Tt['bits'], Tt['signed'])
        if kind == 'IntToFloat':
            if F['k'] == 'bool': v = ite(v, N(1), N(0))
            if self.mode == 'fp': return lift(lambda x: leaf(_n(x)) if _n(x).const() is not None else leaf(ratom(atom('i2f', (_n(x), Tt['bits'])))))(v)
            return self.r32(v) if Tt['bits'] == 32 else v
        if kind == 'FloatToFloat':
            if F['bits'] == Tt['bits']: return v
            if self.mode == 'fp':
                def f(x):
                    x = _n(x)
                    if Tt['bits'] == 64: return leaf(ratom(atom('f32to64', (x,)))) if x.const() is None else leaf(x)
                    a = x.single()
                    if a is not None and a.kind == 'f32to64': return leaf(a.args[0])
                    return leaf(ratom(atom('f64to32', (x,)))) if x.const() is None else leaf(x)
                return lift(f)(v)
            return self.r32(v) if Tt['bits'] == 32 else lift(widened)(v)
        if kind.startswith('PointerCoercion(Unsize'):
            return self.unsize(v, frm, to, vt, st)
        if kind.startswith('PointerCoercion(ReifyFnPointer') or kind.startswith('PointerCoercion(ClosureFnPointer'):
            return v if isinstance(v, Struct) else v
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'BoxDerefTransmute', 'FnPtrToPtr', 'Transmute', 'Subtype'):
            if kind == 'Transmute':
                if F['k'] == Tt['k'] == 'int' and F['bits'] == Tt['bits']: return wrap(v, Tt['bits'], Tt['signed'])
                if F['k'] not in ('ptr', 'ref', 'adt') : raise Undecided('transmute %s to %s' % (F['s'], Tt['s']))
            return v
        raise Undecided('cast ' + kind)
    def vtid(self, vt):
        key = (vt['conc'], vt['dyn'])
        if key not in self.vtids:
            self.vtids[key] = 'vt:%s' % self.tstr(vt['conc'])
            d = self.vts.setdefault(self.vtids[key], {})
            d.update({m.get('method'): m for m in vt['m'] if m})
            d['#conc'] = vt['conc']
        return self.vtids[key]
    def unsize(self, v, frm, to, vt, st):
        F, Tt = self.T[frm], self.T[to]
        if vt is None or vt.get('dyn') is None or self.T[vt['dyn']]['k'] != 'dyn': return v       # arrays, dyn->dyn
        C = self.T[vt['conc']]
        if self.is_opaque_adt(C): return v
        i = self.vtid(vt)
        if F['k'] == 'adt' and F['path'].endswith('Arc') or F['k'] == 'adt' and F['path'].endswith('Rc'):
            return struct(('arc',), [struct(('dyn', i), [v.f[0]]), v.f[1]])
        # reference or box
        return pext(v, ('dyn', i))
    # ---- rvalues
    def rvalue(self, st, fr, r):
        k = r['k']
        if k == 'use': return self.operand(st, fr, r['o'])
        if k == 'repeat':
            return seq_rep(N(r['n']), self.operand(st, fr, r['o']))
        if k == 'ref':
            cur, ty = self.place(st, fr, r['p'])
            return cur
        if k == 'cast':
            return self.cast(r['c'], self.operand(st, fr, r['o']), r['from'], r['to'], st, r.get('vt'))
        if k == 'bin':
            a, b = self.operand(st, fr, r['a']), self.operand(st, fr, r['b'])
            a, b = restrict(a, st.pc), restrict(b, st.pc)
            return self.binop(r['op'], a, b, r['ty'])
        if k == 'un':
            v = self.operand(st, fr, r['a'])
            op = r['op']
            if isinstance(v, Leaf) and isinstance(v.v, Unk): return v
            if op == 'Not':
                T = self.T[r['ty']] if 'ty' in r else self.T[self.opty(fr, r['a'])]
                if T['k'] == 'bool': return b_not(v)
                return wrap(sub(N(-1), v), T['bits'], T['signed'])
            if op == 'Neg':
                T = self.T[r['ty']] if 'ty' in r else self.T[self.opty(fr, r['a'])]
                if T['k'] == 'float' and self.mode == 'fp': return self.fop('Neg', T['bits'], v)
                return neg(v) if T['k'] == 'float' else self.wrapint(neg(v), T['bits'], T['signed'])
            if op == 'PtrMetadata': return seq_len(self.load(st, v))
            raise Undecided('operator ' + op)
        if k == 'disc':
            return self.discr(self.readplace(st, fr, r['p']), r['ty'])
        if k == 'agg':
            a = r['a']; ops = [self.operand(st, fr, o) for o in r.get('ops', ())]
            if a == 'tuple': return struct('tuple', ops)
            if a == 'array': return seq_lit(ops)
            if a == 'closure': return struct(self.tag(r['ty']), ops)
            if a == 'adt':
                T = self.T[r['ty']]
                if T['path'] in TRANSPARENT: return ops[0]
                if T['adt'] == 'enum': return variant(r['v'], ops)
                return struct(self.tag(r['ty']), ops)
            if a == 'rawptr': return ops[0]
        raise Undecided('rvalue %s' % k)
    def discr(self, v, ty):
        T = self.T[ty]
        def f(x):
            if isinstance(x, Leaf):
                if isinstance(x.v, Variant):
                    vs = T.get('variants')
                    if vs and x.v.idx < len(vs):
                        d = int(vs[x.v.idx]['d'])      # the bits: negative ones wrap around
                        if T.get('path') == 'core::cmp::Ordering' and d > 127: d -= 256
                        elif d >= 1 << 63: d -= 1 << 64
                        return N(d)
                    return N(x.v.idx)
                if isinstance(x.v, Unk): return x
            raise Undecided('discriminant of %r' % (x,))
        return dmap(v, f)
    # ---- execution
    def run(self, inst_id, args, st):
        """execute an instance; returns (return value, state) — state.pc FALSE if it never returns"""
        from loops import run_region
        inst = self.dump.insts[inst_id]
        if len(self.stack) > 60: raise Undecided('recursion too deep in ' + inst['name'])
        if sum(1 for x in self.stack if x is inst) > 3: raise Undecided('recursion in ' + inst['name'])
        self.called.add(inst_id)
        self.stack.append(inst)
        try:
            cfg = self.cfgs.get(inst_id)
            if cfg is None: cfg = self.cfgs[inst_id] = Cfg(inst)
            fr = Frame(self, inst, cfg)
            if len(args) != inst['nargs']: raise Undecided('argument count of ' + inst['name'])
            for i, a in enumerate(args): st.cells[fr.cell(i + 1)] = a
            res = run_region(self, fr, None, 0, st, None)
            rets = res.get('return', [])
            if not rets:
                s = st.copy(); s.pc = FALSE
                return BOT, s
            s = merge(rets)
            v = s.cells.get(fr.cell(0), UNIT)
            if v is BOT and self.T[inst['locals'][0]]['k'] == 'tuple' and not self.T[inst['locals'][0]]['f']: v = UNIT
            for c in fr.cells.values(): s.cells.pop(c, None)
            return v, s
        finally:
            self.stack.pop()
    def stmt(self, st, fr, s):
        if s['k'] == '=':
            try:
                v = self.rvalue(st, fr, s['r'])
            except Undecided as e:
                if not getattr(e, 'where', None): e.where = s.get('sp'); e.fn = fr.inst['name']
                raise
            p = s['p']
            if not p[1]:
                c = fr.cell(p[0])
                for w in self.wlogs: w.append((c, ()))
                st.cells[c] = v
            else:
                cur, ty = self.place(st, fr, p)
                self.store(st, cur, v)
        elif s['k'] == 'setdisc': raise Undecided('set discriminant')
    def oblige(self, kind, msg, sp, cond):
        if cond is FALSE: 
            self.oblig.append(Oblig(kind, msg, self.stack[-1]['name'] if self.stack else '', sp, FALSE, tuple(x['name'] for x in self.stack)))
            return
        self.oblig.append(Oblig(kind, msg, self.stack[-1]['name'] if self.stack else '', sp, cond, tuple(x['name'] for x in self.stack)))
    def site(self):
        return self.stack[-1]['name'] if self.stack else ''
    def event(self, name, args, st, sp):
        self.events.append(Event(name, args, st.pc, self.stack[-1]['name'] if self.stack else '', sp, tuple(x['name'] for x in self.stack)))
    def term(self, st, fr, t):
        """list of (target, state); target 'return' or a block; 'none' dropped"""
        k = t['k']
        if k in ('goto', 'drop'): return [(t['t'], st)]
        if k == 'return': return [('return', st)]
        if k == 'unreachable' or k == 'resume': return []
        if k == 'assert':
            c = restrict(self.operand(st, fr, t['o']), st.pc)
            if not t['exp']: c = b_not(c)
            if isinstance(c, Leaf) and isinstance(c.v, Unk): raise Undecided('assertion on an unknown value')
            self.oblige(assert_kind(t['msg']), t['msg'], t.get('sp'), b_and(st.pc, b_not(c)))
            st.pc = b_and(st.pc, c)
            return [(t['t'], st)] if st.pc is not FALSE else []
        if k == 'switch':
            v = restrict(self.operand(st, fr, t['o']), st.pc)
            if isinstance(v, Leaf) and isinstance(v.v, Unk): raise Undecided('branch on an unknown value: %s' % (v.v.k,))
            T = self.T[t['ty']]
            out = []
            rest = st.pc
            bl = fr.inst['blocks']
            for val, tgt in t['cases']:
                val = int(val)
                if T['k'] == 'bool': c = v if val else b_not(v)
                else:
                    if T['k'] == 'int' and T['signed'] and val >= 1 << (T['bits'] - 1): val -= 1 << T['bits']
                    c = eq(v, N(val))
                p = b_and(rest, c)
                if p is not FALSE:
                    out.append((tgt, State(p, st.cells if False else dict(st.cells))))
                rest = b_and(rest, b_not(c))
                if rest is FALSE: break
            if rest is not FALSE and bl[t['else']]['t']['k'] != 'unreachable':
                out.append((t['else'], State(rest, dict(st.cells))))
            # merge equal targets
            return out
        if k == 'call': return self.call_term(st, fr, t)
        if k == 'py': return t['fn'](st, fr)
        raise Undecided('terminator ' + k)
    def call_term(self, st, fr, t):
        from models import call
        f = t['f']
        args = [restrict(self.operand(st, fr, o), st.pc) for o in t['a']]
        atys = [self.opty(fr, o) for o in t['a']]
        if f['kind'] == 'indirect':
            fv = self.operand(st, fr, f['o']) if 'o' in f else None
            r = self.call_value(fv, None, args, st)
        else:
            try:
                r = call(self, st, f, args, atys, t['dt'], t.get('sp'), t['t'] < 0)
            except Undecided as e:
                if not getattr(e, 'where', None): e.where = t.get('sp'); e.fn = fr.inst['name']
                raise
        if t['t'] < 0 or r is None or st.pc is FALSE: return []
        p = t['d']
        if not p[1]:
            c = fr.cell(p[0])
            for w in self.wlogs: w.append((c, ()))
            st.cells[c] = r
        else:
            cur, ty = self.place(st, fr, p)
            self.store(st, cur, r)
        return [(t['t'], st)]
    def call_inst(self, inst_id, args, st):
        """run a callee in the caller's state (in place)"""
        v, s = self.run(inst_id, args, st)
        st.pc, st.cells = s.pc, s.cells
        return v
    def call_value(self, fv, fty, args, st):
        """call a closure / fn item value with positional args. fv: the callable value or a pointer to it"""
        from models import call
        def target(v):
            if isinstance(v, Leaf) and isinstance(v.v, Ptr):
                x = self.load(st, v)
                if isinstance(x, Struct) or (isinstance(x, Leaf) and isinstance(x.v, Ptr)): return target_v(x, v)
                return None
            return target_v(v, None)
        def target_v(x, p):
            if isinstance(x, Leaf) and isinstance(x.v, Ptr): return target(x)
            if isinstance(x, Struct):
                if isinstance(x.tag, tuple) and x.tag[0] == 'dyn':
                    return ('dyn', x, p)
                t = self.callable(x.tag)
                if t is not None: return t + (x, p)
            return None
        t = target(fv)
        if t is None: raise Undecided('call of an unknown function value')
        if t[0] == 'dyn':
            conc = t[1].f[0]
            return self.call_value(pext(t[2], ('f', 0)) if t[2] is not None else conc, None, args, st)
        if t[0] == 'fn':
            cal = t[1]
            return call(self, st, cal, args, None, None, None, False)
        # closure
        ct, x, p = t[1], t[2], t[3]
        inst = self.dump.insts[ct['inst']]
        selfty = inst['locals'][1]
        if self.T[selfty]['k'] in ('ref', 'ptr'):
            if p is None:
                c = self.newcell(None); st.cells[c] = x; p = ptr(c)
            a0 = p
        else: a0 = x
        return self.call_inst(ct['inst'], [a0] + args, st)
    def callable(self, tag):
        m = self.__dict__.setdefault('_callables', None)
        if m is None:
            m = self._callables = {}
            for i, T in enumerate(self.T):
                if T['k'] == 'fndef': m[self.tag(i)] = ('fn', T['callee'])
                elif T['k'] == 'closure' and T.get('inst') is not None: m[self.tag(i)] = ('clo', T)
        return m.get(tag)

class Frame:
    def __init__(self, m, inst, cfg):
        self.m, self.inst, self.cfg = m, inst, cfg
        self.cells = {}
    def cell(self, local):
        c = self.cells.get(local)
        if c is None:
            c = self.cells[local] = self.m.newcell(self.inst['locals'][local])
        return c

def pext(p, e):
    def f(x):
        if isinstance(x, Leaf) and isinstance(x.v, Ptr): return ptr(x.v.cell, x.v.path + (e,))
        if isinstance(x, Leaf) and isinstance(x.v, Unk): return x
        if isinstance(x, Leaf) and isinstance(x.v, StrV): return x
        raise Undecided('projection of %r' % (x,))
    return dmap(p, f)

def leafconds(d):
    """[(condition, leaf)] of a diagram; conditions disjoint"""
    out = {}
    order = []
    def go(x, c):
        if isinstance(x, Node):
            b = node(x.c, TRUE, FALSE)
            go(x.hi, b_and(c, b)); go(x.lo, b_and(c, b_not(b)))
        else:
            if c is FALSE: return
            if x not in out: out[x] = c; order.append(x)
            else: out[x] = b_or(out[x], c)
    go(d, TRUE)
    return [(out[x], x) for x in order]

def merge(states):
    if len(states) == 1: return states[0]
    a = states[0]
    for b in states[1:]: a = merge2(a, b)
    return a
def merge2(a, b):
    if a.pc is FALSE: return b
    if b.pc is FALSE: return a
    pc = b_or(a.pc, b.pc)
    c = restrict(a.pc, pc)
    if c is TRUE: return State(pc, dict(a.cells))
    cells = dict(a.cells)
    for k, vb in b.cells.items():
        va = cells.get(k)
        if va is None or va is BOT: cells[k] = vb
        elif va is vb or vb is BOT: pass
        else:
            try: cells[k] = ite(c, va, vb)
            except Undecided as e: cells[k] = unknown('merge: %s' % e)
    return State(pc, cells)

def assert_kind(msg):
    if msg.startswith('BoundsCheck'): return 'bounds'
    if msg.startswith('Overflow'): return 'overflow'
    if msg.startswith('DivisionByZero') or msg.startswith('RemainderByZero'): return 'divzero'
    return 'assert'

def idiv(a, b, signed):
    if signed:
        q = div(a, b)
        return trunc(q)
    return floor(div(a, b))
def irem(a, b, signed): return sub(a, mul(b, idiv(a, b, signed)))
def frem(a, b): return sub(a, mul(b, trunc(div(a, b))))
def pow2(b):
    def f(x):
        c = _n(x).const()
        if c is None or c < 0 or c > 128: raise Undecided('shift by a variable amount')
        return N(1 << int(c))
    return lift(f)(b)
def bitand(a, b, bits, sg):
    def f(x, y):
        x, y = _n(x), _n(y)
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None: return N(int(cx) & int(cy))
        if cx is not None: x, y, cx, cy = y, x, cy, cx
        if cy is not None:
            m = int(cy) & ((1 << bits) - 1)
            if m & (m + 1) == 0:           # low mask
                return sub(leaf(x), mul(N(m + 1), floor(div(leaf(x), N(m + 1)))))
            low = (m & -m)
            if (m + low) & ((1 << bits) - 1) == 0 and sg:   # high mask
                return mul(N(low), floor(div(leaf(x), N(low))))
            hi = m // low + 1
            if hi & (hi - 1) == 0:
                q = floor(div(leaf(x), N(low)))
                return mul(N(low), sub(q, mul(N(hi), floor(div(q, N(hi))))))
        if x.id > y.id: x, y = y, x
        return num(atom('iop', ('and', x, y), 'int'))
    return lift(f)(a, b)
def bitor(a, b):
    def f(x, y):
        x, y = _n(x), _n(y)
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None: return N(int(cx) | int(cy))
        for p, q in ((x, y), (y, x)):
            lo, hi = r_range(p)
            if lo is not None and lo >= 0 and hi is not None and q.d is P1:
                k = int(hi).bit_length()
                if all(c.denominator == 1 and int(c) % (1 << k) == 0 for c in q.n.t.values()) and is_int_poly(p_scale(q.n, Fr(1, 1 << k))):
                    return leaf(r_add(p, q))
        if x.id > y.id: x, y = y, x
        return num(atom('iop', ('or', x, y), 'int'))
    return lift(f)(a, b)
def cmp3(a, b):
    return ite(lt(a, b), variant(0), ite(gt(a, b), variant(2), variant(1)))
def r32rat(x):
    c = x.const()
    if c is not None:
        y = Fr(_rnd(c, 32))
        return x if y == c or isinstance(fconst(float(y), 32).v, Rat) and fconst(float(y), 32).v is x else R(y)
    a = x.single()
    if a is not None and (a.id in F32ATOMS or a.kind == 'r32'): return x
    # integer combination that fits 24 bits
    if is_int(x):
        lo, hi = r_range(x)
        if lo is not None and hi is not None and lo >= -(1 << 24) and hi <= 1 << 24: return x
    lo, hi = r_range(x)
    return ratom(atom('r32', (x,), 'real', None if lo is None else lo - abs(lo) / 2 ** 20, None if hi is None else hi + abs(hi) / 2 ** 20))

from core import _n, _floor, REBUILD, _pay, _asseq, _atom_by_id

# ---- substitution into symbolic accessors -----------------------------------
def _base(v):
    """leaf value -> Atom or None"""
    if isinstance(v, Leaf) and isinstance(v.v, Rat): return v.v.single()
    return None
def _tov(x):
    return x if isinstance(x, (Leaf, Node, Struct)) else leaf(ratom(x)) if isinstance(x, Atom) else leaf(x)
def _mk(a, args, boolean):
    at = atom(a.kind, tuple(args), a.sort, a.lo, a.hi)
    if a.id in F32ATOMS: F32ATOMS.add(at.id)
    return b_atom(at) if boolean or a.sort == 'bool' else leaf(ratom(at))
def _reb_proj(a, g, boolean):
    def f(x):
        if x is BOT: return BOT
        if isinstance(x, Struct): return x.f[a.args[2]]
        b = _base(x)
        if b is not None: return _mk(a, (b,) + a.args[1:], boolean)
        if isinstance(x, Leaf) and isinstance(x.v, Unk): return x
        raise Undecided('projection of %r' % (x,))
    return dmap(_tov(g[0]), f)
REBUILD['proj'] = _reb_proj
def _reb_vproj(a, g, boolean):
    def f(x):
        if x is BOT: return BOT
        if isinstance(x, Leaf) and isinstance(x.v, Variant):
            return x.v.f[a.args[3]] if x.v.idx == a.args[1] else BOT
        b = _base(x)
        if b is not None: return _mk(a, (b,) + a.args[1:], boolean)
        if isinstance(x, Leaf) and isinstance(x.v, Unk): return x
        raise Undecided('projection of %r' % (x,))
    return dmap(_tov(g[0]), f)
REBUILD['vproj'] = _reb_vproj
def _reb_disc(a, g, boolean):
    def f(x):
        if x is BOT: return BOT
        if isinstance(x, Leaf) and isinstance(x.v, Variant): return N(x.v.idx)
        b = _base(x)
        if b is not None: return _mk(a, (b,), boolean)
        if isinstance(x, Leaf) and isinstance(x.v, Unk): return x
        raise Undecided('discriminant of %r' % (x,))
    return dmap(_tov(g[0]), f)
REBUILD['disc'] = _reb_disc
def _reb_len(a, g, boolean):
    def f(x):
        if x is BOT: return BOT
        b = _base(x)
        if b is not None: return _mk(a, (b,), boolean)
        return seq_len(x)
    return dmap(_tov(g[0]), f)
REBUILD['len'] = _reb_len
SHAPE = {}             # sequence-valued atoms -> (machine, element type)
def _reb_at(a, g, boolean):
    idx = _tov(g[1])
    base = _tov(g[0])
    mixed = isinstance(base, Node)
    def f(x):
        if x is BOT: return BOT
        b = _base(x)
        if mixed and b is not None and b.id in SHAPE:
            m, ety = SHAPE[b.id]
            if isinstance(ety, int) and m.T[ety]['k'] in ('adt', 'tuple', 'closure'):
                return lift(lambda i: m.sym('at', (b, _n(i)), ety, State(TRUE, {})))(idx)
        if b is not None: return lift(lambda i: _mk(a, (b, _n(i)), boolean))(idx)
        return seq_at(x, idx)
    return dmap(base, f)
REBUILD['at'] = _reb_at
def _reb_uniq(a, g, boolean):
    def f(x):
        if x is BOT: return BOT
        if isinstance(x, Struct) and x.tag == ('arc',): return x.f[1]
        b = _base(x)
        if b is not None: return _mk(a, (b,), True)
        raise Undecided('uniqueness of %r' % (x,))
    return dmap(_tov(g[0]), f)
REBUILD['uniq'] = _reb_uniq
def _reb_part(k):
    def go(a, g, boolean):
        def f(x):
            if x is BOT: return BOT
            if isinstance(x, Struct) and x.tag in (('map',), ('graph',)): return x.f[k]
            b = _base(x)
            if b is not None: return _mk(a, (b,), boolean)
            raise Undecided('part of %r' % (x,))
        return dmap(_tov(g[0]), f)
    return go
REBUILD['mapvals'] = _reb_part(1)
REBUILD['weights'] = _reb_part(1)
REBUILD['r32'] = lambda a, g, b: lift(lambda x: leaf(r32rat(_n(x))))(_tov(g[0]))
