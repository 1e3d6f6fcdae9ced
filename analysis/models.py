"""Semantics of the functions outside the analysed crate (std, petgraph, wav,
rand, lazy_static) that the analysed code calls."""
import re, itertools
from core import *
import core
from core import _n, _asseq, _pay, _mkrat
import interp
from interp import State, Cfg, pext, leafconds, merge, Undecided, frem, idiv, irem, cmp3, pow2
from interp import F32ATOMS

NONE = variant(0)
def some(v): return variant(1, [v])
def option(c, v): return ite(c, some(v), NONE) if v is not BOT else NONE
def ok(v): return variant(0, [v])

MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

class Call:
    """one call site being interpreted"""
    __slots__ = ('m', 'st', 'f', 'a', 'atys', 'dt', 'sp', 'selfty', 'name')
    def load(self, p): return self.m.load(self.st, p)
    def store(self, p, v): self.m.store(self.st, p, v)
    def upd(self, p, g):
        """p := g(*p)"""
        self.store(p, g(restrict(self.load(p), self.st.pc)))
    def fail(self, kind, cond, msg):
        """the call panics where cond holds"""
        m, st = self.m, self.st
        c = b_and(st.pc, cond)
        m.oblige(kind, msg, self.sp, c)
        st.pc = b_and(st.pc, b_not(cond))
    def targ(self, i):
        return self.f['args'][i]
    @property
    def ret(self):
        if self.dt is not None: return self.dt
        if self.f.get('inst') is not None: return self.m.dump.insts[self.f['inst']]['locals'][0]
        raise Undecided('result type of %s' % self.name)

class Sub:
    """a call context inside another"""
    def __init__(self, m, st, name='iterator'): self.m, self.st, self.name, self.sp = m, st, name, None
    load, store = Call.load, Call.store

def norm(path):
    """strip generics: alloc::vec::Vec::<T, A>::push -> Vec::push, f64::abs, ..."""
    m = re.search(r'<impl ([^>]*(?:<[^>]*>)?[^>]*)>::(\w+)$', path)
    if m:
        t = m.group(1)
        if ' for ' in t: t = t.split(' for ')[-1]
        t = {'[T]': 'slice', '[T; N]': 'array'}.get(t, t)
        if t == 'str': t = 'str'
        return t.split('::')[-1].split('<')[0] + '::' + m.group(2)
    p = path
    while True:
        q = re.sub(r'::<[^<>]*>|<[^<>]*>', '', p)
        if q == p: break
        p = q
    parts = p.split('::')
    return '::'.join(parts[-2:])

def names(f):
    """candidate model names, most specific first"""
    out = []
    if f.get('trait'):
        tr = f['trait'].split('::')[-1]
        out.append('%s::%s' % (tr, f.get('method')))
    out.append(norm(f.get('rpath') or f['path']))
    out.append(norm(f['path']))
    return out

LOCAL = ('bae_rs', 'probe', 'bin2str')

def basety(m, t):
    """type below references"""
    while t is not None and m.T[t]['k'] in ('ref', 'ptr'): t = m.T[t]['e']
    return t
def tyname(m, t):
    if t is None: return None
    T = m.T[t]
    if T['k'] == 'adt': return T['path']
    return T['k']

def call(m, st, f, args, atys, dt, sp, diverges):
    c = Call()
    c.m, c.st, c.f, c.a, c.atys, c.dt, c.sp = m, st, f, args, atys, dt, sp
    c.name = f.get('rpath') or f['path']
    tr, me = f.get('trait'), f.get('method')
    c.selfty = f.get('rself')
    if c.selfty is None and tr and f.get('args'): c.selfty = f['args'][0]
    if c.selfty is None: c.selfty = f.get('implself')
    # calls of function values
    if tr in ('core::ops::function::FnMut', 'core::ops::function::Fn', 'core::ops::function::FnOnce'):
        return call_fn(c)
    if f['kind'] == 'virtual': return call_virtual(c)
    if f['kind'] == 'ctor': return call_ctor(c)
    if c.selfty is not None and tr:
        b = basety(m, c.selfty)
        if b is not None and m.T[b]['k'] == 'adt' and m.is_opaque_adt(m.T[b]):
            if me == 'clone': return c.load(args[0])
            return call_opaque(c, args[0], args[1:])
    inst = f.get('inst')
    if inst is not None and f.get('rcrate', f['crate']) in LOCAL:
        i = m.dump.insts[inst]
        return m.call_inst(inst, spread(m, st, i, args), st)
    if diverges or m_diverges(f):
        m.oblige('panic', f['path'].split('::')[-1], sp, st.pc)
        st.pc = FALSE
        return None
    for n in names(f):
        g = MODELS.get(n)
        if g is None: continue
        r = g(c)
        if r is not NotImplemented: return r
    if inst is not None:
        i = m.dump.insts[inst]
        return m.call_inst(inst, spread(m, st, i, args), st)
    m.extern.setdefault(c.name, []).append(sp)
    raise Undecided('no model of ' + c.name)

def m_diverges(f):
    return f['path'].startswith('core::panicking') or f['path'].endswith('unwrap_failed') or f['path'].endswith('expect_failed')

def spread(m, st, inst, args):
    if inst.get('spread') is not None and len(args) != inst['nargs']:
        raise Undecided('spread arguments')
    if len(args) == 2 and inst['nargs'] != 2 and isinstance(args[1], Struct) and args[1].tag == 'tuple':
        return [args[0]] + list(args[1].f)
    return args

def call_ctor(c):
    m, T = c.m, c.m.T[c.ret]
    if T['adt'] == 'enum':
        n = c.f['path'].split('::')[-1]
        for i, v in enumerate(T['variants']):
            if v['n'] == n: return variant(i, c.a)
    return struct(m.tag(c.ret), c.a)

def call_fn(c):
    m, st = c.m, c.st
    args = list(c.a[1].f) if isinstance(c.a[1], Struct) and c.a[1].tag == 'tuple' else None
    if args is None: raise Undecided('closure arguments')
    if c.f['kind'] == 'virtual':
        recv = c.a[0]
        v = c.load(recv)
        if isinstance(v, Struct) and isinstance(v.tag, tuple) and v.tag[0] == 'dyn':
            return m.call_value(pext(recv, ('f', 0)), None, args, st)
        if isinstance(v, Struct): return m.call_value(recv, None, args, st)
        c2 = c
        return call_opaque(c2, recv, args)
    return m.call_value(c.a[0], None, args, st)

def concrete(c, recv):
    """(vtable id, pointer to the concrete object) or None if the object is unknown"""
    m = c.m
    r = restrict(recv, c.st.pc)
    ls = [l for _, l in leafconds(r) if l is not BOT]
    if not ls: raise Undecided('no receiver')
    vts = set()
    for l in ls:
        if not isinstance(l.v, Ptr): raise Undecided('receiver %r' % (l,))
        p = l.v.path
        if p and p[-1][0] == 'dyn': vts.add(('path', p[-1][1]))
        else:
            v = m.get(c.st.cells[l.v.cell], p)
            if isinstance(v, Struct) and isinstance(v.tag, tuple) and v.tag[0] == 'dyn': vts.add(('val', v.tag[1]))
            else: vts.add(None)
    if vts == {None}: return None
    if len(vts) != 1: raise Undecided('receiver of several types')
    k, i = vts.pop()
    return i, (pext(r, ('f', 0)) if k == 'val' else r)

def call_virtual(c):
    m, st = c.m, c.st
    r = concrete(c, c.a[0])
    if r is None and c.f['trait'].split('::')[-1] == 'Write' and '::io::' in c.f['trait'] and c.f['method'] in ('write_all', 'write', 'flush'): return _iowrite(c)
    if r is None: return call_opaque(c, c.a[0], c.a[1:])
    i, p = r
    cal = m.vts[i].get(c.f['method'])
    if cal is None or cal.get('inst') is None:
        C = m.vts[i].get('#conc')
        if C is not None and m.is_opaque_adt(m.T[C]): return call_opaque(c, p, c.a[1:])
        raise Undecided('method %s of %s' % (c.f['method'], i))
    return call(m, st, cal, [p] + c.a[1:], None, c.dt, c.sp, False)

def call_opaque(c, recv, args):
    """unknown method of an unknown object: an uninterpreted function of its state and the arguments"""
    m, st = c.m, c.st
    name = c.f['trait'].split('::')[-1] + '::' + c.f['method']
    o = restrict(c.load(recv), st.pc)
    mut = True
    if c.atys is not None and c.atys and c.atys[0] is not None and m.T[c.atys[0]]['k'] == 'ref': mut = bool(m.T[c.atys[0]].get('mut'))
    vals = []
    for a in args:
        if isinstance(a, Struct): raise Undecided('structure passed to an unknown method')
        vals.append(restrict(a, st.pc))
    m.event(name, (o,) + tuple(vals), st, c.sp)
    rt = c.dt
    unit = rt is None or (m.T[rt]['k'] == 'tuple' and not m.T[rt]['f'])
    def key(ps):
        out = []
        for p in ps:
            if isinstance(p, (Rat, bool)): out.append(p if isinstance(p, Rat) else (core.R1 if p else core.R0))
            else: out.append(leaf(p))
        return tuple(out)
    def oa(x):
        if isinstance(x, Rat):
            a = x.single()
            if a is not None: return a
        raise Undecided('method of %r' % (x,))
    try:
        res = UNIT if unit else liftany(lambda x, *ps: m.sym('res', (name, oa(x)) + key(ps), rt, st), [o] + vals)
        post = lift(lambda x, *ps: num(atom('post', (name, oa(x)) + key(ps), 'obj')))(o, *vals)
    except Undecided: raise
    if mut: c.store(recv, post)
    return res

def liftany(f, args):
    """lift f(payloads) whose result may be a structure"""
    def go(i, acc):
        if i == len(args): return f(*acc)
        def g(l):
            if l is BOT: return BOT
            return go(i + 1, acc + [l.v])
        return dmap(args[i], g)
    return go(0, [])

# --------------------------------------------------------------------------
# iterators: IterV(src, pos)

def it_of(c, v, ty=None):
    """value -> IterV leaf value (a range structure is converted)"""
    if isinstance(v, Struct):
        if isinstance(v.tag, str) and 'RangeInclusive' in v.tag: return iterv(('range', v.f[0], add(v.f[1], N(1))), N(0))
        if isinstance(v.tag, str) and 'RangeFrom' in v.tag: return iterv(('from', v.f[0]), N(0))
        if isinstance(v.tag, str) and 'Range<' in v.tag: return iterv(('range', v.f[0], v.f[1]), N(0))
        raise Undecided('iteration over %s' % (v.tag,))
    if isinstance(v, Leaf) and isinstance(v.v, IterV): return v
    if isinstance(v, Leaf) and isinstance(v.v, SeqV): return iterv(('seq', v), N(0))
    if isinstance(v, Leaf) and isinstance(v.v, Variant):     # Option as an iterator
        return iterv(('seq', seq_lit(v.v.f)), N(0))
    raise Undecided('iteration over %r' % (v,))

def src_len(s):
    k = s[0]
    if k == 'seq': return seq_len(s[1])
    if k == 'ref': return s[2]
    if k == 'range': return vmax(sub(s[2], s[1]), N(0))
    if k in ('map', 'enum', 'rev', 'cloned', 'inspect'): return src_len(s[1])
    if k == 'zip': 
        a, b = src_len(s[1]), src_len(s[2])
        if a is None: return b
        if b is None: return a
        return vmin(a, b)
    if k == 'take':
        a = src_len(s[1])
        return s[2] if a is None else vmin(a, s[2])
    if k == 'skip':
        a = src_len(s[1])
        return None if a is None else vmax(sub(a, s[2]), N(0))
    if k == 'step':
        a = src_len(s[1])
        return None if a is None else floor(div(add(a, sub(s[2], N(1))), s[2]))
    if k == 'chain': 
        a, b = src_len(s[1]), src_len(s[2])
        return None if a is None or b is None else add(a, b)
    if k == 'chunks': return floor(div(add(s[3], sub(s[2], N(1))), s[2]))
    if k == 'chunksx': return floor(div(s[3], s[2]))
    if k == 'windows': return vmax(add(sub(s[3], s[2]), N(1)), N(0))
    if k in ('from', 'rep', 'repwith', 'cycle'): return None
    raise Undecided('length of iterator ' + k)
def src_at(m, st, s, i):
    k = s[0]
    if k == 'seq': return seq_at(s[1], i)
    if k == 'ref': return pext(s[1], ('i', i))
    if k in ('range', 'from'): return add(s[1], i)
    if k == 'map': return m.call_value(s[2], None, [src_at(m, st, s[1], i)], st)
    if k == 'inspect':
        x = src_at(m, st, s[1], i)
        cl = m.newcell(None); st.cells[cl] = x
        m.call_value(s[2], None, [ptr(cl)], st)
        return x
    if k == 'enum': return struct('tuple', [i, src_at(m, st, s[1], i)])
    if k == 'rev': return src_at(m, st, s[1], sub(sub(src_len(s[1]), N(1)), i))
    if k == 'cloned': return clone_value(m, st, m.load(st, src_at(m, st, s[1], i)))
    if k == 'zip': return struct('tuple', [src_at(m, st, s[1], i), src_at(m, st, s[2], i)])
    if k == 'take': return src_at(m, st, s[1], i)
    if k == 'skip': return src_at(m, st, s[1], add(i, s[2]))
    if k == 'step': return src_at(m, st, s[1], mul(i, s[2]))
    if k == 'chain':
        n = src_len(s[1])
        c = lt(i, n)
        if c is TRUE: return src_at(m, st, s[1], i)
        if c is FALSE: return src_at(m, st, s[2], sub(i, n))
        return ite(c, src_at(m, st, s[1], i), src_at(m, st, s[2], sub(i, n)))
    if k == 'chunks':
        a = mul(i, s[2])
        return pext(s[1], ('s', a, vmin(s[2], sub(s[3], a))))
    if k == 'chunksx': return pext(s[1], ('s', mul(i, s[2]), s[2]))
    if k == 'windows': return pext(s[1], ('s', i, s[2]))
    if k == 'rep': return s[1]
    if k == 'repwith': return m.call_value(s[1], None, [], st)
    if k == 'cycle':
        n = src_len(s[1])
        return src_at(m, st, s[1], sub(i, mul(n, floor(div(i, n)))))
    raise Undecided('element of iterator ' + k)
def has_filter(s):
    if s[0] in ('filter', 'filtermap', 'takewhile', 'mapwhile', 'scan', 'flat'): return True
    return any(has_filter(x) for x in s[1:] if isinstance(x, tuple))
def base_src(v):
    """source of an iterator that may have advanced"""
    it = v.v
    return it.src if it.pos is N(0) else ('skip', it.src, it.pos)

def it_next(m, st, v):
    """(Option, advanced iterator) for an IterV leaf"""
    it = v.v
    if has_filter(it.src): raise Undecided('next on a filtering iterator')
    n = src_len(it.src)
    c = TRUE if n is None else lt(it.pos, n)
    c = restrict(c, st.pc)
    if c is FALSE: return NONE, v
    s2 = State(b_and(st.pc, c), st.cells)
    x = src_at(m, s2, it.src, it.pos)
    nv = iterv(it.src, ite(c, add(it.pos, N(1)), it.pos))
    return option(c, x), nv

def via_ref(c, p):
    """the iterator a pointer designates, as a value"""
    v = restrict(c.load(p), c.st.pc)
    return v

@model('Iterator::next')
def _next(c):
    m, st = c.m, c.st
    p = c.a[0]
    v = via_ref(c, p)
    if isinstance(v, Leaf) and isinstance(v.v, Ptr):        # &mut I as an iterator
        p = v; v = via_ref(c, p)
    if isinstance(v, Struct):
        if isinstance(v.tag, str) and ('RangeInclusive' in v.tag): 
            # start, end, exhausted
            s, e, x = v.f
            cnd = b_and(b_not(x), le(s, e))
            more = lt(s, e)
            c.store(p, struct(v.tag, [ite(b_and(cnd, more), add(s, N(1)), s), e, ite(b_and(cnd, b_not(more)), TRUE, x)]))
            return option(restrict(cnd, st.pc), s)
        if isinstance(v.tag, str) and ('Range<' in v.tag or v.tag.endswith('::Range')):
            s, e = v.f
            cnd = restrict(lt(s, e), st.pc)
            c.store(p, struct(v.tag, [ite(cnd, add(s, N(1)), s), e]))
            return option(cnd, s)
        return NotImplemented
    if isinstance(v, Node):
        # an iterator that advanced conditionally: same source, conditional position
        v = unite(v)
    if not (isinstance(v, Leaf) and isinstance(v.v, IterV)): return NotImplemented
    if has_filter(v.v.src):
        b = find_ty(m, lambda T: T['k'] == 'bool')
        u = find_ty(m, lambda T: T['k'] == 'int' and T['bits'] == 64 and not T['signed'])
        fnd, k = consume(c, v, [FALSE, N(0)], [b, u], lambda s, a, x: ([TRUE, cur_pos[0]], TRUE))
        c.store(p, c_end[0])
        return at_filtered(c, v.v.src, fnd, k)
    r, nv = it_next(m, st, v)
    c.store(p, nv)
    return r
def unite(v):
    src = None
    for _, l in paths(v):
        if l is BOT: continue
        if not isinstance(l.v, IterV): raise Undecided('merged iterators')
        if src is None: src = l.v.src
        elif src != l.v.src: raise Undecided('merged iterators')
    return iterv(src, dmap(v, lambda l: l.v.pos))

def adapter(kind):
    def g(c):
        return iterv((kind, base_src(it_of(c, unit(c.a[0])))) + tuple(keep(c, x) for x in c.a[1:]), N(0))
    return g
def unit(v):
    return unite(v) if isinstance(v, Node) else v
def keep(c, x):
    """closures live in a cell so that their state persists"""
    if isinstance(x, Struct) and not (isinstance(x.tag, str) and 'ange' in x.tag):
        k = c.m.newcell(None); c.st.cells[k] = x
        return ptr(k)
    return x
MODELS['Iterator::map'] = adapter('map')
MODELS['Iterator::inspect'] = adapter('inspect')
MODELS['Iterator::enumerate'] = adapter('enum')
MODELS['Iterator::rev'] = adapter('rev')
MODELS['Iterator::take'] = adapter('take')
MODELS['Iterator::skip'] = adapter('skip')
MODELS['Iterator::step_by'] = adapter('step')
MODELS['Iterator::cloned'] = adapter('cloned')
MODELS['Iterator::copied'] = adapter('cloned')
MODELS['Iterator::filter'] = adapter('filter')
MODELS['Iterator::filter_map'] = adapter('filtermap')
MODELS['Iterator::cycle'] = adapter('cycle')
MODELS['Iterator::take_while'] = adapter('takewhile')
MODELS['Iterator::map_while'] = adapter('mapwhile')
@model('Iterator::skip_while')
def _skipwhile(c):
    # the items up to the first one the condition rejects are gone; nothing else sees when
    m = c.m
    f = keep(c, c.a[1])
    it = it_of(c, unit(c.a[0]))
    b = find_ty(m, lambda T: T['k'] == 'bool')
    u = find_ty(m, lambda T: T['k'] == 'int' and T['bits'] == 64 and not T['signed'])
    n = src_len(base_of(it.v.src))
    if n is None: raise Undecided('skip_while without end')
    def step(s, a, x):
        cl = m.newcell(None); s.cells[cl] = x
        r = restrict(b_not(m.call_value(f, None, [ptr(cl)], s)), s.pc)
        return [ite(r, cur_pos[0], a[0])], r
    if any(x in str(it.v.src) for x in ("'flat'",)): raise Undecided('skip_while over nested iteration')
    k = consume(c, it, [n], [u], step)[0]
    return iterv(it.v.src, k)
MODELS['Iterator::flat_map'] = adapter('flat')
@model('Iterator::flatten')
def _flatten(c): return iterv(('flat', base_src(it_of(c, unit(c.a[0]))), None), N(0))
@model('Iterator::fuse', 'Iterator::peekable')
def _fuse(c): return it_of(c, unit(c.a[0])) if c.f['method'] == 'fuse' else NotImplemented
@model('Iterator::by_ref')
def _byref(c): return c.a[0]
@model('Iterator::chain', 'Iterator::zip')
def _chain(c):
    k = c.f['method']
    a, b = it_of(c, unit(c.a[0])), into_iter(c, c.a[1], c.targ(1) if c.f.get('args') and len(c.f['args']) > 1 else None)
    return iterv((k, base_src(a), base_src(b)), N(0))
MODELS['zip::zip'] = lambda c: iterv(('zip', base_src(into_iter(c, c.a[0], None)), base_src(into_iter(c, c.a[1], None))), N(0))

def into_iter(c, v, ty):
    """IntoIterator::into_iter of a value"""
    m = c.m
    if isinstance(v, Struct):
        if v.tag == ('map',): return iterv(('seq', pairs_of(m, c.st, v)), N(0))
        return it_of(c, v)
    v = restrict(v, c.st.pc)
    if isinstance(v, Leaf) and isinstance(v.v, Ptr):
        x = restrict(m.load(c.st, v), c.st.pc)
        if isinstance(x, Struct) and x.tag == ('map',): return map_iter(c, v, x, 'iter')
        if isinstance(x, Struct) and isinstance(x.tag, str) and 'ange' in x.tag: raise Undecided('iterator by reference')
        if isinstance(x, Leaf) and isinstance(x.v, IterV): raise Undecided('iterator by reference')
        return iterv(('ref', v, seq_len(x)), N(0))
    if isinstance(v, Leaf) and isinstance(v.v, IterV): return v
    if isinstance(v, Node):
        ls = [l for _, l in paths(v) if l is not BOT]
        if all(isinstance(l.v, SeqV) for l in ls): return iterv(('seq', v), N(0))
        if all(isinstance(l.v, IterV) for l in ls): return unite(v)
        if all(isinstance(l.v, Ptr) for l in ls): return iterv(('ref', v, seq_len(m.load(c.st, v))), N(0))
    return it_of(c, v)
@model('IntoIterator::into_iter')
def _into_iter(c):
    v = c.a[0]
    if isinstance(v, Struct) and isinstance(v.tag, str) and 'ange' in v.tag: return v
    if isinstance(v, Leaf) and isinstance(v.v, Ptr):
        x = c.load(v)
        if isinstance(x, Struct) and isinstance(x.tag, str) and 'ange' in x.tag: return v
        if isinstance(x, Leaf) and isinstance(x.v, IterV): return v
    return into_iter(c, v, c.selfty)
@model('slice::iter', 'slice::iter_mut', 'Vec::iter', 'Vec::iter_mut', 'VecDeque::iter', 'VecDeque::iter_mut', 'array::iter')
def _iter(c): return into_iter(c, c.a[0], None)
@model('Vec::drain', 'VecDeque::drain')
def _drain(c):
    v = c.load(c.a[0])
    a, n = range_bounds(c.a[1], seq_len(v))
    c.store(c.a[0], seq_cat(seq_take(v, a), seq_drop(v, add(a, n))))
    return iterv(('seq', seq_slice(v, a, n)), N(0))
@model('slice::chunks')
def _chunks(c):
    c.fail('panic', eq(c.a[1], N(0)), 'chunk size is zero')
    return iterv(('chunks', c.a[0], c.a[1], seq_len(c.load(c.a[0]))), N(0))
@model('slice::chunks_mut')
def _chunks2(c): return _chunks(c)
@model('slice::chunks_exact', 'slice::chunks_exact_mut')
def _chunksx(c):
    c.fail('panic', eq(c.a[1], N(0)), 'chunk size is zero')
    return iterv(('chunksx', c.a[0], c.a[1], seq_len(c.load(c.a[0]))), N(0))
@model('slice::windows')
def _windows(c):
    c.fail('panic', eq(c.a[1], N(0)), 'window size is zero')
    return iterv(('windows', c.a[0], c.a[1], seq_len(c.load(c.a[0]))), N(0))
@model('sources::repeat', 'repeat::repeat')
def _repeat(c): return iterv(('rep', c.a[0]), N(0))
@model('repeat_n::repeat_n')
def _repeatn(c): return iterv(('take', ('rep', c.a[0]), c.a[1]), N(0))
@model('repeat_with::repeat_with')
def _repeatw(c): return iterv(('repwith', keep(c, c.a[0])), N(0))
@model('once::once')
def _once(c): return iterv(('seq', seq_lit([c.a[0]])), N(0))
@model('empty::empty')
def _empty(c): return iterv(('seq', N_EMPTY), N(0))
@model('ExactSizeIterator::len')
def _itlen(c):
    v = unit(via_ref(c, c.a[0]))
    if isinstance(v, Struct): return vmax(sub(v.f[1], v.f[0]), N(0))
    return vmax(sub(src_len(v.v.src), v.v.pos), N(0))
@model('ChunksExact::remainder', 'ChunksExactMut::into_remainder')
def _chrem(c):
    v = unit(via_ref(c, c.a[0]))
    s = v.v.src
    if s[0] != 'chunksx': raise Undecided('remainder of an adapted iterator')
    k = floor(div(s[3], s[2]))
    return pext(s[1], ('s', mul(k, s[2]), sub(s[3], mul(k, s[2]))))
@model('Iterator::size_hint')
def _hint(c):
    n = _itlen(c)
    return struct('tuple', [n, some(n)])

# ---- consumers: a synthetic one-block loop -----------------------------------
_syn = itertools.count()
def consume(c, itval, accs, acctys, step):
    """run step(state, accs, element) -> (accs, stop condition or FALSE) over the
    iterator; returns the final accumulators.  The loop goes through the same
    summariser as loops in the analysed code."""
    m, st = c.m, c.st
    it0 = unit(itval)
    it = it_of(c, it0)
    k = len(accs)
    boolty = find_ty(m, lambda T: T['k'] == 'bool')
    inst = {'name': c.name, 'def': c.name, 'crate': 'core', 'nargs': 1 + k, 'locals': [None, None] + list(acctys), 'blocks': None}
    src = it.v.src
    def go(stt, fr):
        st = stt
        pos = st.cells[fr.cell(1)]
        pos = unit(pos)
        out = []
        # element
        n = src_len(base_of(src))
        cnd = TRUE if n is None else restrict(lt(pos.v.pos, n), st.pc)
        if cnd is not TRUE:
            ex = State(b_and(st.pc, b_not(cnd)), dict(st.cells))
            if ex.pc is not FALSE: out.append((1, ex))
        s = State(b_and(st.pc, cnd), dict(st.cells))
        if s.pc is FALSE: return out
        wr(s, fr.cell(1), iterv(src, add(pos.v.pos, N(1))))
        on = []
        for kind, s1, x in pull(m, s, src, pos.v.pos):
            if s1.pc is FALSE: continue
            if kind == 'stop': out.append((1, s1)); continue
            if kind == 'skip': on.append(s1); continue
            if kind == 'some':
                cur_pos[0] = pos.v.pos
                stop = one(s1, fr, x)
            else:
                # an inner iterator: its own loop, writing the same accumulators
                c2 = Sub(m, s1, c.name)
                def inner(s2, acc, y): q = one(s2, fr, y); return [q], q
                stop = consume(c2, x, [FALSE], [boolty], inner)[0]
            for q, s2 in split(s1, stop):
                if q: out.append((1, s2))
                else: on.append(s2)
        if on: out.append((0, merge(on)))
        return out
    def one(s, fr, x):
        new, stop = step(s, [s.cells[fr.cell(2 + j)] for j in range(k)], x)
        for j in range(k): wr(s, fr.cell(2 + j), new[j])
        return restrict(stop, s.pc)
    def wr(s, cell, v):
        for w in m.wlogs: w.append((cell, ()))
        s.cells[cell] = v
    inst['blocks'] = [{'cleanup': False, 'st': [], 't': {'k': 'py', 'fn': go, 'succ': [0, 1]}},
                      {'cleanup': False, 'st': [], 't': {'k': 'return'}}]
    cfg = Cfg(inst)
    fr = interp.Frame(m, inst, cfg)
    for j, v in enumerate([it] + list(accs)): st.cells[fr.cell(1 + j)] = v
    from loops import run_region
    m.stack.append(inst)
    try:
        res = run_region(m, fr, None, 0, st.copy(), None)
    finally: m.stack.pop()
    rets = [x for x in res.get('return', []) if x.pc is not FALSE]
    if not rets:
        st.pc = FALSE
        return [BOT] * k
    s = merge(rets)
    out = [s.cells[fr.cell(2 + j)] for j in range(k)]
    itend = s.cells.get(fr.cell(1))
    for q in fr.cells.values(): s.cells.pop(q, None)
    st.pc, st.cells = s.pc, s.cells
    c_end[0] = itend
    return out
c_end = [None]
cur_pos = [None]
def base_of(src):
    """the source that determines the number of steps"""
    if src[0] in ('filter', 'filtermap', 'takewhile', 'mapwhile', 'scan', 'flat'): return base_of(src[1])
    if src[0] in ('map', 'inspect', 'cloned') and has_filter(src[1]): return base_of(src[1])
    if has_filter(src): raise Undecided('adapter above a filter')
    return src
def isvariant(v):
    ls = [l for _, l in paths(v) if l is not BOT]
    return bool(ls) and all(isinstance(l, Leaf) and isinstance(l.v, Variant) for l in ls)
def split(s, cond):
    """(True, state where cond holds), (False, state where it does not)"""
    cond = restrict(cond, s.pc)
    if cond is TRUE: return [(True, s)]
    if cond is FALSE: return [(False, s)]
    a, b = State(b_and(s.pc, cond), dict(s.cells)), State(b_and(s.pc, b_not(cond)), s.cells)
    return [x for x in ((True, a), (False, b)) if x[1].pc is not FALSE]
def pull(m, st, src, i):
    """what step i of a source does: ('some', state, value), ('skip', state, None), ('stop', state, None), ('seq', state, inner iterator)"""
    if not has_filter(src): return [('some', st, src_at(m, st, src, i))]
    k = src[0]
    out = []
    def cellof(s, x):
        cl = m.newcell(None); s.cells[cl] = x
        return ptr(cl)
    for kind, s, x in pull(m, st, src[1], i):
        if s.pc is FALSE: continue
        if kind in ('skip', 'stop'): out.append((kind, s, None)); continue
        if kind == 'seq':
            if k not in ('map', 'inspect', 'cloned', 'filter', 'filtermap', 'flat'): raise Undecided('adapter %s above nested iteration' % k)
            out.append(('seq', s, iterv((k, base_src(x)) + tuple(src[2:]), N(0)))); continue
        if k == 'map': out.append(('some', s, m.call_value(src[2], None, [x], s)))
        elif k == 'inspect':
            m.call_value(src[2], None, [cellof(s, x)], s); out.append(('some', s, x))
        elif k == 'cloned': out.append(('some', s, clone_value(m, s, m.load(s, x))))
        elif k in ('filter', 'takewhile'):
            r = m.call_value(src[2], None, [cellof(s, x)], s)
            for q, s1 in split(s, r): out.append(('some', s1, x) if q else ('skip' if k == 'filter' else 'stop', s1, None))
        elif k in ('filtermap', 'flat', 'mapwhile', 'scan'):
            y = x if src[2] is None else m.call_value(src[2], None, [src[3], x] if k == 'scan' else [x], s)
            y = restrict(y, s.pc)
            if isinstance(y, Leaf) and isinstance(y.v, Ptr): z, q1 = restrict(m.load(s, y), s.pc), pext(pext(y, ('v', 1)), ('f', 0))
            else: z, q1 = y, payload(y, 1)
            if isvariant(z):
                for q, s1 in split(s, isvar(z, 1)): out.append(('some', s1, restrict(q1, s1.pc)) if q else ('stop' if k in ('mapwhile', 'scan') else 'skip', s1, None))
            elif k == 'flat': out.append(('seq', s, unit(into_iter(Sub(m, s), y, None))))
            else: raise Undecided('filter_map by something else than an option')
        else: raise Undecided('adapter %s above a filter' % k)
    return out
def isvar(v, i): return lift(lambda x: TRUE if x.idx == i else FALSE)(v)
def payload(v, i, j=0): return dmap(v, lambda l: l.v.f[j] if isinstance(l.v, Variant) and l.v.idx == i else BOT)

def find_ty(m, pred):
    for i, T in enumerate(m.T):
        if pred(T): return i
    return None
def opt_payload_ty(m, t):
    T = m.T[t]
    return T['args'][0] if T['k'] == 'adt' and T.get('args') else None

def recv_iter(c):
    """receiver by value or by &mut"""
    v = c.a[0]
    if isinstance(v, Leaf) and isinstance(v.v, Ptr):
        return c.load(v), v
    return v, None
def finish_iter(c, p):
    if p is not None:
        e = c_end[0]
        if e is None: raise Undecided('iterator after a consumer')
        c.store(p, e)

@model('Iterator::fold')
def _fold(c):
    f = keep(c, c.a[2])
    r = consume(c, c.a[0], [c.a[1]], [c.ret if c.dt is not None else None], lambda s, a, x: ([c.m.call_value(f, None, [a[0], x], s)], FALSE))
    return r[0]
@model('Iterator::for_each')
def _foreach(c):
    f = keep(c, c.a[1])
    def step(s, a, x):
        c.m.call_value(f, None, [x], s)
        return [], FALSE
    consume(c, c.a[0], [], [], step)
    return UNIT
def deref_num(c, s, x):
    if isinstance(x, Leaf) and isinstance(x.v, Ptr): return c.m.load(s, x)
    if isinstance(x, Node) and any(isinstance(l.v, Ptr) for _, l in paths(x)): return c.m.load(s, x)
    return x
@model('Iterator::sum')
def _sum(c):
    m = c.m
    T = m.T[c.ret]
    if T['k'] not in ('float', 'int'): raise Undecided('sum of ' + T['s'])
    return consume(c, c.a[0], [N(0)], [c.ret], lambda s, a, x: ([m.binop('Add', a[0], deref_num(c, s, x), c.ret)], FALSE))[0]
@model('Iterator::product')
def _product(c):
    m = c.m
    return consume(c, c.a[0], [N(1)], [c.ret], lambda s, a, x: ([m.binop('Mul', a[0], deref_num(c, s, x), c.ret)], FALSE))[0]
@model('Iterator::count')
def _count(c):
    u = find_ty(c.m, lambda T: T['k'] == 'int' and T['bits'] == 64 and not T['signed'])
    v = unit(c.a[0])
    if isinstance(v, Leaf) and isinstance(v.v, IterV) and not has_filter(v.v.src): return vmax(sub(src_len(v.v.src), v.v.pos), N(0))
    return consume(c, c.a[0], [N(0)], [u], lambda s, a, x: ([add(a[0], N(1))], FALSE))[0]
@model('Iterator::any')
def _any(c):
    f = keep(c, c.a[1])
    b = find_ty(c.m, lambda T: T['k'] == 'bool')
    v, p = recv_iter(c)
    def step(s, a, x):
        r = restrict(c.m.call_value(f, None, [x], s), s.pc)
        return [ite(r, TRUE, a[0])], r
    r = consume(c, v, [FALSE], [b], step)[0]
    return r
@model('Iterator::all')
def _all(c):
    f = keep(c, c.a[1])
    b = find_ty(c.m, lambda T: T['k'] == 'bool')
    v, p = recv_iter(c)
    def step(s, a, x):
        r = restrict(c.m.call_value(f, None, [x], s), s.pc)
        return [ite(r, a[0], FALSE)], b_not(r)
    return consume(c, v, [TRUE], [b], step)[0]
@model('Iterator::position')
def _position(c):
    f = keep(c, c.a[1])
    m = c.m
    v, p = recv_iter(c)
    v = it_of(c, unit(v))
    b = find_ty(m, lambda T: T['k'] == 'bool')
    u = find_ty(m, lambda T: T['k'] == 'int' and T['bits'] == 64 and not T['signed'])
    def step(s, a, x):
        r = restrict(m.call_value(f, None, [x], s), s.pc)
        return [ite(r, TRUE, a[0]), ite(r, a[1], add(a[1], N(1)))], r
    fnd, k = consume(c, v, [FALSE, N(0)], [b, u], step)
    return option(fnd, k)
@model('Iterator::find')
def _find(c):
    f = keep(c, c.a[1])
    m = c.m
    v, p = recv_iter(c)
    v = it_of(c, unit(v))
    src = base_src(v)
    b = find_ty(m, lambda T: T['k'] == 'bool')
    u = find_ty(m, lambda T: T['k'] == 'int' and T['bits'] == 64 and not T['signed'])
    if has_filter(src):
        def step(s, a, x):
            cl = m.newcell(None); s.cells[cl] = x
            r = restrict(m.call_value(f, None, [ptr(cl)], s), s.pc)
            return [ite(r, TRUE, a[0]), ite(r, cur_pos[0], a[1])], r
        fnd, k = consume(c, iterv(src, N(0)), [FALSE, N(0)], [b, u], step)
        if p is not None: c.store(p, c_end[0])
        return at_filtered(c, src, fnd, k)
    def step(s, a, x):
        cl = m.newcell(None); s.cells[cl] = x
        r = restrict(m.call_value(f, None, [ptr(cl)], s), s.pc)
        return [ite(r, TRUE, a[0]), ite(r, a[1], add(a[1], N(1)))], r
    fnd, k = consume(c, iterv(src, N(0)), [FALSE, N(0)], [b, u], step)
    if p is not None: c.store(p, c_end[0])
    return option(fnd, src_at(m, c.st, src, k))
def at_filtered(c, src, fnd, k):
    """Some(item) of a filtering source, of the base position k it came from"""
    m, st = c.m, c.st
    def at(src, st):
        if not has_filter(src): return src_at(m, st, src, k)
        j = src[0]
        x = at(src[1], st)
        if j == 'map': return m.call_value(src[2], None, [x], st)
        if j == 'cloned': return clone_value(m, st, m.load(st, x))
        if j in ('filter', 'takewhile', 'inspect'): return x
        if j == 'scan': raise Undecided('position of an item of a scan')
        y = x if j == 'flat' and src[2] is None else m.call_value(src[2], None, [x], st)
        if isinstance(y, Leaf) and isinstance(y.v, Ptr): return pext(pext(y, ('v', 1)), ('f', 0))
        if not isvariant(y): raise Undecided('position of an item of a nested iteration')
        return restrict(payload(y, 1), st.pc)
    fnd = restrict(fnd, st.pc)
    if fnd is FALSE: return NONE
    s2 = State(b_and(st.pc, fnd), dict(st.cells))
    return option(fnd, at(src, s2))
def ext_filtered(c, src, t, val, pick):
    """extremum over a filtering source: whether any item was seen, and the best so far"""
    b = find_ty(c.m, lambda T: T['k'] == 'bool')
    def step(s, a, x):
        v = val(s, x)
        w = {q: pick(s1, a[1], v, x) if q else v for q, s1 in split(s.copy(), a[0])}
        return [TRUE, ite(a[0], w.get(True, v), w.get(False, v))], FALSE
    return consume(c, iterv(src, N(0)), [FALSE, N(0)], [b, t], step)
def ext_model(op):
    def g(c):
        m = c.m
        v = it_of(c, unit(c.a[0]))
        src = base_src(v)
        t = basety(m, opt_payload_ty(m, c.ret)) if c.dt is not None else None
        if t is None or m.T[t]['k'] not in ('int', 'float'): raise Undecided('extremum of ' + str(t))
        isref = m.T[opt_payload_ty(m, c.ret)]['k'] == 'ref'
        if has_filter(src):
            ne, r = ext_filtered(c, src, t, lambda s, x: deref_num(c, s, x), lambda s, a, v, x: op(a, v))
            if isref:
                cl = m.newcell(t); c.st.cells[cl] = r
                r = ptr(cl)
            return option(ne, r)
        ne = gt(src_len(src), N(0))
        first = deref_num(c, c.st, src_at(m, c.st, src, N(0)))
        r = consume(c, iterv(('skip', src, N(1)), N(0)), [first if first is not BOT else N(0)], [t], lambda s, a, x: ([op(a[0], deref_num(c, s, x))], FALSE))[0]
        if isref:
            cl = m.newcell(t); c.st.cells[cl] = r
            r = ptr(cl)
        return option(ne, r)
    return g
MODELS['Iterator::max'] = ext_model(vmax)
MODELS['Iterator::min'] = ext_model(vmin)
@model('Iterator::reduce')
def _reduce(c):
    m = c.m
    src = base_src(it_of(c, unit(c.a[0])))
    f = keep(c, c.a[1])
    if has_filter(src):
        t = opt_payload_ty(m, c.ret)
        if m.T[t]['k'] not in ('int', 'float', 'bool'): raise Undecided('reduce of a filter')
        ne, r = ext_filtered(c, src, t, lambda s, x: x, lambda s, a, v, x: m.call_value(f, None, [a, x], s))
        return option(ne, r)
    ne = gt(src_len(src), N(0))
    x0 = src_at(m, c.st, src, N(0))
    r = consume(c, iterv(('skip', src, N(1)), N(0)), [x0], [opt_payload_ty(m, c.ret)], lambda s, a, x: ([m.call_value(f, None, [a[0], x], s)], FALSE))[0]
    return option(ne, r)
def ext_by(sign):
    """max_by / min_by with partial_cmp-like comparators, max_by_key..: via reduce on the comparator"""
    def g(c):
        m = c.m
        src = base_src(it_of(c, unit(c.a[0])))
        f = keep(c, c.a[1])
        t = opt_payload_ty(m, c.ret)
        isref = m.T[t]['k'] == 'ref'
        ety = m.T[t]['e'] if isref else t
        if m.T[ety]['k'] not in ('int', 'float'): raise Undecided('extremum of ' + m.tstr(ety))
        def val(s, x): return m.load(s, x) if isref else x
        def step(s, a, x):
            p, q = m.newcell(ety), m.newcell(ety)
            s.cells[p], s.cells[q] = a[0], val(s, x)
            pa, pb = ptr(p), ptr(q)
            if isref:
                r1, r2 = m.newcell(t), m.newcell(t)
                s.cells[r1], s.cells[r2] = pa, pb
                pa, pb = ptr(r1), ptr(r2)
            o = m.call_value(f, None, [pa, pb], s)
            xx = val(s, x)
            if sign > 0: return [ite(isvar(o, 2), a[0], xx)], FALSE
            return [ite(isvar(o, 2), xx, a[0])], FALSE
        if has_filter(src):
            ne, r = ext_filtered(c, src, ety, val, lambda s, a, v, x: step(s, [a], x)[0][0])
            if isref:
                cl = m.newcell(ety); c.st.cells[cl] = r; r = ptr(cl)
            return option(ne, r)
        ne = gt(src_len(src), N(0))
        x0 = val(c.st, src_at(m, c.st, src, N(0)))
        r = consume(c, iterv(('skip', src, N(1)), N(0)), [x0 if x0 is not BOT else N(0)], [ety], step)[0]
        if isref:
            cl = m.newcell(ety); c.st.cells[cl] = r; r = ptr(cl)
        return option(ne, r)
    return g
MODELS['Iterator::max_by'] = ext_by(1)
MODELS['Iterator::min_by'] = ext_by(-1)
@model('Iterator::last')
def _last(c):
    src = base_src(it_of(c, unit(c.a[0])))
    if has_filter(src):
        m = c.m
        b = find_ty(m, lambda T: T['k'] == 'bool')
        u = find_ty(m, lambda T: T['k'] == 'int' and T['bits'] == 64 and not T['signed'])
        t = opt_payload_ty(m, c.ret)
        if m.T[t]['k'] in ('int', 'float', 'bool'):
            fnd, x = consume(c, iterv(src, N(0)), [FALSE, FALSE if m.T[t]['k'] == 'bool' else N(0)], [b, t], lambda s, a, x: ([TRUE, x], FALSE))
            return option(fnd, x)
        fnd, k = consume(c, iterv(src, N(0)), [FALSE, N(0)], [b, u], lambda s, a, x: ([TRUE, cur_pos[0]], FALSE))
        return at_filtered(c, src, fnd, k)
    n = src_len(src)
    return option(gt(n, N(0)), src_at(c.m, c.st, src, sub(n, N(1))))
@model('Iterator::nth')
def _nth(c):
    v = unit(via_ref(c, c.a[0]))
    v = it_of(c, v)
    pos = add(v.v.pos, c.a[1])
    n = src_len(v.v.src)
    cnd = TRUE if n is None else lt(pos, n)
    c.store(c.a[0], iterv(v.v.src, add(pos, N(1)) if n is None else ite(cnd, add(pos, N(1)), n)))
    return option(cnd, src_at(c.m, c.st, v.v.src, pos))
def collect_seq(c, itv, vecty, init=N_EMPTY):
    m = c.m
    it = it_of(c, unit(itv))
    src = base_src(it)
    if simple(src):
        n = src_len(src)
        if n is None: raise Undecided('unbounded collect')
        if src[0] == 'seq': return seq_cat(init, src[1])
        i = fresh('i', 'int', 0)
        s = State(b_and(c.st.pc, lt(num(i), n)), c.st.cells)
        if src[0] != 'map':
            return seq_cat(init, seq_comp_v(n, i, src_at(m, s, src, num(i))))
    return consume(c, it, [init], [vecty], lambda s, a, x: ([seq_push(a[0], x)], FALSE))[0]
def simple(src):
    if src[0] in ('map', 'inspect', 'repwith', 'filter', 'filtermap', 'takewhile', 'mapwhile', 'scan', 'flat'): return False
    if src[0] == 'cycle': return False
    return all(simple(x) for x in src[1:] if isinstance(x, tuple))
@model('Iterator::collect')
def _collect(c): return collect_to(c, c.a[0], c.ret)
@model('FromIterator::from_iter')
def _from_iter(c):
    return collect_to(c, into_iter(c, c.a[0], None), c.selfty)
def collect_to(c, itv, ty):
    T = c.m.T[ty]
    if T['k'] == 'adt' and T['path'] in interp.SEQ_ADT: return collect_seq(c, itv, ty)
    if T['k'] == 'adt' and T['path'] == 'alloc::boxed::Box': 
        cl = c.m.newcell(T['args'][0]); c.st.cells[cl] = collect_seq(c, itv, T['args'][0]); return ptr(cl)
    if T['k'] == 'adt' and T['path'] == 'alloc::string::String':
        consume(c, itv, [], [], lambda s, a, x: ([], FALSE))
        return fresh_string(c)
    raise Undecided('collect into ' + T['s'])
@model('Extend::extend')
def _extend(c):
    old = restrict(c.load(c.a[0]), c.st.pc)
    it = into_iter(c, c.a[1], None)
    if isinstance(it.v, IterV) and it.v.src[0] == 'ref':
        # extending from references copies
        it = iterv(('cloned', base_src(it)), N(0))
    if c.selfty is not None and tyname(c.m, c.selfty) not in interp.SEQ_ADT: return NotImplemented
    c.store(c.a[0], collect_seq(c, it, c.selfty, old))
    return UNIT
def try_run(c, acc0, accty, call):
    m = c.m
    v, p = recv_iter(c)
    rt = basety(m, c.ret)
    nm = tyname(m, rt)
    ok = 1 if nm.endswith('Option') else 0 if nm.endswith('Result') or nm.endswith('ControlFlow') else None
    if ok is None: raise Undecided('no model of %s into %s' % (c.f['method'], nm))
    wrapv = lambda x: variant(ok, [x])
    b = find_ty(m, lambda T: T['k'] == 'bool')
    def step(s, a, x):
        r = restrict(call(s, a[0], x), s.pc)
        good = isvar(r, ok)
        return [ite(good, payload(r, ok), a[0]) if acc0 is not UNIT else a[0], b_not(good), ite(good, a[2], r)], b_not(good)
    acc, bad, brk = consume(c, v, [acc0, FALSE, wrapv(acc0)], [accty, b, c.ret], step)
    finish_iter(c, p)
    return ite(bad, brk, wrapv(acc))
@model('Iterator::try_fold')
def _tryfold(c):
    f = keep(c, c.a[2])
    rt = c.m.T[basety(c.m, c.ret)]
    return try_run(c, c.a[1], c.atys[1], lambda s, a, x: c.m.call_value(f, None, [a, x], s))
@model('Iterator::try_for_each')
def _tryeach(c):
    f = keep(c, c.a[1])
    u = find_ty(c.m, lambda T: T['k'] == 'tuple' and not T['f'])
    return try_run(c, UNIT, u, lambda s, a, x: c.m.call_value(f, None, [x], s))
@model('Iterator::scan')
def _scan(c):
    cl = c.m.newcell(c.atys[1]); c.st.cells[cl] = c.a[1]
    return iterv(('scan', base_src(it_of(c, unit(c.a[0]))), keep(c, c.a[2]), ptr(cl)), N(0))
@model('Iterator::unzip', 'Iterator::partition')
def _unzip(c):
    m = c.m
    T = m.T[basety(m, c.ret)]
    if T['k'] != 'tuple' or len(T['f']) != 2 or any(tyname(m, t) not in interp.SEQ_ADT for t in T['f']): raise Undecided('no model of ' + c.f['method'])
    e = seq_lit([])
    if c.f['method'] == 'unzip':
        def step(s, a, x): return [seq_push(a[0], fieldof(x, 0)), seq_push(a[1], fieldof(x, 1))], FALSE
    else:
        f = keep(c, c.a[1])
        def step(s, a, x):
            cl = m.newcell(None); s.cells[cl] = x
            r = restrict(m.call_value(f, None, [ptr(cl)], s), s.pc)
            return [ite(r, seq_push(a[0], x), a[0]), ite(r, a[1], seq_push(a[1], x))], FALSE
    return struct('tuple', consume(c, c.a[0], [e, e], list(T['f']), step))
def fieldof(v, i):
    if isinstance(v, Struct): return v.f[i]
    return dmap(v, lambda l: l.f[i] if isinstance(l, Struct) else l.v.f[i])
@model('Iterator::peekable', 'Iterator::cmp', 'Iterator::eq')
def _nope(c): raise Undecided('no model of iterator method ' + c.f['method'])

# --------------------------------------------------------------------------
# vectors, slices, deques

@model('Vec::new', 'VecDeque::new', 'Vec::with_capacity', 'VecDeque::with_capacity')
def _vnew(c): return N_EMPTY
@model('Vec::len', 'VecDeque::len', 'slice::len')
def _vlen(c): return seq_len(c.load(c.a[0]))
@model('Vec::is_empty', 'VecDeque::is_empty', 'slice::is_empty')
def _vempty(c): return eq(seq_len(c.load(c.a[0])), N(0))
@model('Vec::capacity')
def _cap(c): raise Undecided('capacity')
@model('Vec::reserve', 'VecDeque::reserve', 'Vec::shrink_to_fit', 'VecDeque::shrink_to_fit', 'Vec::reserve_exact')
def _nop(c): return UNIT
@model('Vec::push', 'VecDeque::push_back')
def _push(c): c.upd(c.a[0], lambda s: seq_push(s, c.a[1])); return UNIT
@model('VecDeque::push_front')
def _pushf(c): c.upd(c.a[0], lambda s: seq_push_front(s, c.a[1])); return UNIT
@model('Vec::pop', 'VecDeque::pop_back')
def _pop(c):
    o, r = seq_pop_back(restrict(c.load(c.a[0]), c.st.pc))
    c.store(c.a[0], r); return o
@model('VecDeque::pop_front')
def _popf(c):
    o, r = seq_pop_front(restrict(c.load(c.a[0]), c.st.pc))
    c.store(c.a[0], r); return o
@model('Vec::clear', 'VecDeque::clear')
def _clear(c): c.store(c.a[0], N_EMPTY); return UNIT
@model('Vec::truncate', 'VecDeque::truncate')
def _trunc(c): c.upd(c.a[0], lambda s: ite(lt(c.a[1], seq_len(s)), seq_take(s, c.a[1]), s)); return UNIT
def resize(s, n, mk):
    l = seq_len(s)
    return ite(lt(n, l), seq_take(s, n), seq_cat(s, mk(sub(n, l))))
@model('Vec::resize', 'VecDeque::resize')
def _resize(c): c.upd(c.a[0], lambda s: resize(s, c.a[1], lambda k: seq_rep(k, c.a[2]))); return UNIT
@model('Vec::resize_with', 'VecDeque::resize_with')
def _resizew(c):
    v = c.m.call_value(keep(c, c.a[2]), None, [], c.st)
    c.upd(c.a[0], lambda s: resize(s, c.a[1], lambda k: seq_rep(k, v)))
    return UNIT
@model('Vec::append', 'VecDeque::append')
def _append(c):
    o = c.load(c.a[1])
    c.upd(c.a[0], lambda s: seq_cat(s, o)); c.store(c.a[1], N_EMPTY); return UNIT
@model('Vec::extend_from_slice')
def _extsl(c):
    o = c.load(c.a[1])
    c.upd(c.a[0], lambda s: seq_cat(s, o)); return UNIT
@model('Vec::insert', 'VecDeque::insert')
def _insert(c):
    s = c.load(c.a[0]); i = c.a[1]
    c.fail('bounds', gt(i, seq_len(s)), 'insert index')
    c.store(c.a[0], seq_cat(seq_push(seq_take(s, i), c.a[2]), seq_drop(s, i))); return UNIT
@model('Vec::remove')
def _remove(c):
    s = c.load(c.a[0]); i = c.a[1]
    c.fail('bounds', ge(i, seq_len(s)), 'remove index')
    c.store(c.a[0], seq_cat(seq_take(s, i), seq_drop(s, add(i, N(1)))))
    return seq_at(s, i)
@model('VecDeque::remove')
def _vdremove(c):
    s = c.load(c.a[0]); i = c.a[1]
    ok_ = lt(i, seq_len(s))
    c.store(c.a[0], ite(ok_, seq_cat(seq_take(s, i), seq_drop(s, add(i, N(1)))), s))
    return option(ok_, seq_at(s, i))
@model('VecDeque::rotate_left', 'slice::rotate_left')
def _rotl(c):
    s = c.load(c.a[0]); k = c.a[1]
    c.fail('panic', gt(k, seq_len(s)), 'rotate')
    c.store(c.a[0], seq_cat(seq_drop(s, k), seq_take(s, k))); return UNIT
@model('VecDeque::rotate_right', 'slice::rotate_right')
def _rotr(c):
    s = c.load(c.a[0]); k = sub(seq_len(s), c.a[1])
    c.fail('panic', gt(c.a[1], seq_len(s)), 'rotate')
    c.store(c.a[0], seq_cat(seq_drop(s, k), seq_take(s, k))); return UNIT
@model('slice::reverse')
def _reverse(c):
    s = c.load(c.a[0])
    i = fresh('i', 'int', 0); n = seq_len(s)
    c.store(c.a[0], seq_comp_v(n, i, seq_at(s, sub(sub(n, N(1)), num(i))))); return UNIT
@model('slice::fill')
def _fill(c): c.upd(c.a[0], lambda s: seq_rep(seq_len(s), c.a[1])); return UNIT
@model('slice::swap', 'VecDeque::swap')
def _swap(c):
    s = c.load(c.a[0]); n = seq_len(s)
    c.fail('bounds', b_or(ge(c.a[1], n), ge(c.a[2], n)), 'swap index')
    x, y = seq_at(s, c.a[1]), seq_at(s, c.a[2])
    c.store(c.a[0], seq_set(seq_set(s, c.a[1], y), c.a[2], x)); return UNIT
@model('slice::copy_from_slice', 'slice::clone_from_slice')
def _copyfs(c):
    s, o = c.load(c.a[0]), c.load(c.a[1])
    c.fail('panic', b_not(eq(seq_len(s), seq_len(o))), 'slices of different lengths')
    c.store(c.a[0], o); return UNIT
@model('slice::copy_within')
def _cw(c):
    s = c.load(c.a[0])
    a, n = range_bounds(c.a[1], seq_len(s))
    d = c.a[2]
    c.store(c.a[0], seq_cat(seq_cat(seq_take(s, d), seq_slice(s, a, n)), seq_drop(s, add(d, n)))); return UNIT
@model('Vec::as_slice', 'Vec::as_mut_slice', 'slice::as_ref', 'slice::as_mut', 'VecDeque::make_contiguous', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'Vec::leak')
def _ident(c): return c.a[0]
@model('Vec::into_boxed_slice')
def _ibs(c):
    k = c.m.newcell(None); c.st.cells[k] = c.a[0]; return ptr(k)
@model('slice::into_vec')
def _intovec(c): return c.load(c.a[0])
@model('slice::to_vec', 'ToOwned::to_owned', 'slice::to_owned')
def _tovec(c):
    v = c.load(c.a[0])
    if isinstance(v, Leaf) and isinstance(v.v, StrV): return fresh_string(c)
    return clone_value(c.m, c.st, v)
@model('vec::from_elem')
def _from_elem(c): return seq_rep(c.a[1], c.a[0])
@model('slice::get', 'slice::get_mut', 'VecDeque::get', 'VecDeque::get_mut', 'Vec::get', 'Vec::get_mut')
def _get(c):
    i = c.a[1]
    n = seq_len(c.load(c.a[0]))
    if isinstance(i, Struct):
        a, k = range_bounds(i, n)
        return option(b_and(ge(k, N(0)), le(add(a, k), n)), pext(c.a[0], ('s', a, k)))
    return option(lt(i, n), pext(c.a[0], ('i', i)))
@model('slice::first', 'slice::first_mut', 'VecDeque::front', 'VecDeque::front_mut')
def _first(c): return option(gt(seq_len(c.load(c.a[0])), N(0)), pext(c.a[0], ('i', N(0))))
@model('slice::last', 'slice::last_mut', 'VecDeque::back', 'VecDeque::back_mut')
def _lastm(c):
    n = seq_len(c.load(c.a[0]))
    return option(gt(n, N(0)), pext(c.a[0], ('i', sub(n, N(1)))))
@model('slice::split_at', 'slice::split_at_mut')
def _split(c):
    n = seq_len(c.load(c.a[0]))
    c.fail('bounds', gt(c.a[1], n), 'split_at')
    return struct('tuple', [pext(c.a[0], ('s', N(0), c.a[1])), pext(c.a[0], ('s', c.a[1], sub(n, c.a[1])))])
@model('slice::contains')
def _contains(c):
    s = c.load(c.a[0]); x = c.load(c.a[1])
    b = find_ty(c.m, lambda T: T['k'] == 'bool')
    return consume(c, iterv(('seq', s), N(0)), [FALSE], [b], lambda st, a, e: ([b_or(a[0], eq(e, x))], FALSE))[0]
def range_bounds(r, n):
    """(start, count) of a range argument over a sequence of length n"""
    if not isinstance(r, Struct): raise Undecided('range')
    t = r.tag if isinstance(r.tag, str) else ''
    if 'RangeFull' in t: return N(0), n
    if 'RangeInclusive' in t: return r.f[0], add(sub(r.f[1], r.f[0]), N(1))
    if 'RangeToInclusive' in t: return N(0), add(r.f[0], N(1))
    if 'RangeTo' in t: return N(0), r.f[0]
    if 'RangeFrom' in t: return r.f[0], sub(n, r.f[0])
    if 'Range' in t: return r.f[0], sub(r.f[1], r.f[0])
    raise Undecided('range ' + t)
@model('Index::index', 'IndexMut::index_mut')
def _index(c):
    if tyname(c.m, c.selfty) not in interp.SEQ_ADT + ('slice', 'array'):
        n = tyname(c.m, c.selfty)
        if n and n.endswith('HashMap'): raise Undecided('map index')
        if n == 'petgraph::graph_impl::Graph':
            v = c.load(c.a[0]); i = restrict(c.a[1], c.st.pc)
            c.fail('bounds', ge(i, seq_len(v.f[1])), 'node index')
            return pext(pext(c.a[0], ('f', 1)), ('i', i))
        return NotImplemented
    p = c.a[0]
    n = seq_len(c.load(p))
    i = c.a[1]
    if isinstance(i, Struct):
        a, k = range_bounds(i, n)
        c.fail('bounds', b_or(lt(k, N(0)), gt(add(a, k), n)), 'slice index')
        return pext(p, ('s', a, k))
    c.fail('bounds', ge(i, n), 'index')
    i = restrict(i, c.st.pc)
    return pext(p, ('i', i))
@model('SliceIndex::index', 'SliceIndex::index_mut')
def _sidx(c):
    c2 = c; p, i = c.a[1], c.a[0]
    n = seq_len(c.load(p))
    if isinstance(i, Struct):
        a, k = range_bounds(i, n)
        c.fail('bounds', b_or(lt(k, N(0)), gt(add(a, k), n)), 'slice index')
        return pext(p, ('s', a, k))
    c.fail('bounds', ge(i, n), 'index')
    return pext(p, ('i', i))
@model('Deref::deref', 'DerefMut::deref_mut')
def _deref(c):
    t = tyname(c.m, c.selfty)
    if t in interp.SEQ_ADT or t in ('slice', 'array', 'alloc::string::String'): return c.a[0]
    if t in ('alloc::rcs::arc::Arc', 'alloc::rcs::rc::Rc'): return pext(c.a[0], ('f', 0))
    if t == 'alloc::boxed::Box': return c.load(c.a[0])
    if t and (t.endswith('LazyLock') or t.endswith('LazyCell')): return lazy_get(c)
    return NotImplemented
@model('Vec::retain', 'VecDeque::retain')
def _retain(c):
    s = restrict(c.load(c.a[0]), c.st.pc)
    f = keep(c, c.a[1])
    m = c.m
    def step(st, a, x):
        cl = m.newcell(None); st.cells[cl] = x
        r = m.call_value(f, None, [ptr(cl)], st)
        return [ite(r, seq_push(a[0], x), a[0])], FALSE
    T = c.atys[0] if c.atys else None
    r = consume(c, iterv(('seq', s), N(0)), [N_EMPTY], [m.T[T]['e'] if T is not None else None], step)[0]
    c.store(c.a[0], r)
    return UNIT
def fold_seq_sorted(c, s): return s
@model('slice::sort', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key')
def _sort(c): raise Undecided('sorting')

# boxes and arcs
@model('Box::new')
def _boxnew(c):
    k = c.m.newcell(c.m.T[c.ret]['args'][0] if c.dt is not None else None); c.st.cells[k] = c.a[0]; return ptr(k)
@model('Box::new_uninit')
def _boxun(c):
    k = c.m.newcell(None); c.st.cells[k] = BOT; return ptr(k)
@model('boxed::box_assume_init_into_vec_unsafe')
def _boxvec(c): return c.load(c.a[0])
@model('Arc::new', 'Rc::new')
def _arcnew(c): return struct(('arc',), [c.a[0], TRUE])
@model('Arc::get_mut', 'Rc::get_mut')
def _arcgm(c):
    v = c.load(c.a[0])
    if not isinstance(v, Struct): raise Undecided('shared pointer')
    return option(restrict(v.f[1], c.st.pc), pext(c.a[0], ('f', 0)))
@model('Arc::strong_count', 'Rc::strong_count', 'Arc::ptr_eq', 'Arc::try_unwrap', 'Arc::make_mut')
def _arcx(c): raise Undecided('no model of ' + c.name)
@model('From::from', 'Into::into')
def _from(c):
    m = c.m
    if c.f.get('inst') is not None and c.f.get('rcrate') in LOCAL: return NotImplemented
    if c.dt is None and c.f.get('inst') is None: return NotImplemented
    to = m.T[c.ret]
    fr = m.T[c.atys[0]] if c.atys else None
    if to['k'] == 'adt' and to['path'] in ('alloc::rcs::arc::Arc',): return struct(('arc',), [c.a[0], TRUE])
    if fr is None: return NotImplemented
    if fr['k'] == 'int' and to['k'] == 'int': return c.a[0]
    if fr['k'] in ('int', 'bool') and to['k'] == 'float': return m.cast('IntToFloat', c.a[0], c.atys[0], c.ret, c.st)
    if fr['k'] == 'float' and to['k'] == 'float': return m.cast('FloatToFloat', c.a[0], c.atys[0], c.ret, c.st)
    if fr['k'] == 'bool' and to['k'] == 'int': return ite(c.a[0], N(1), N(0))
    if to['k'] == 'adt' and to['path'] == 'alloc::string::String': return fresh_string(c)
    if to['k'] == 'adt' and to['path'] in interp.SEQ_ADT and (fr['k'] == 'adt' and fr['path'] in interp.SEQ_ADT): return c.a[0]
    if to['k'] == 'adt' and to['path'] in interp.SEQ_ADT and fr['k'] == 'array': return c.a[0]
    if to['k'] == 'adt' and to['path'] in interp.SEQ_ADT and fr['k'] in ('ref',) and m.T[fr['e']]['k'] in ('slice', 'array'): return c.load(c.a[0])
    if to['k'] == 'adt' and to['path'] == 'alloc::boxed::Box' and fr['k'] == 'adt' and not c.f.get('inst'): return _boxnew(c)
    if to['k'] == 'adt' and to['path'].endswith('io::error::Error'): return m.sym('ext', ('ioerror',), c.ret, c.st)
    return NotImplemented
@model('TryFrom::try_from', 'TryInto::try_into')
def _tryfrom(c):
    m = c.m
    if c.f.get('inst') is not None and c.f.get('rcrate') in LOCAL: return NotImplemented
    T = m.T[c.ret]
    if T['k'] == 'adt' and T.get('args'):
        to = m.T[T['args'][0]]; fr = m.T[c.atys[0]] if c.atys else None
        if fr is not None and fr['k'] == to['k'] == 'int':
            lo, hi = m.int_range(to)
            x = c.a[0]
            okc = ge(x, N(lo))
            if hi is not None: okc = b_and(okc, le(x, N(hi)))
            return ite(okc, variant(0, [x]), variant(1, [m.sym('ext', ('tryfrom',), T['args'][1], c.st)]))
        if fr is not None and to['k'] == 'array':
            s = c.a[0] if fr['k'] == 'adt' else c.load(c.a[0])
            okc = eq(seq_len(s), N(to['n']))
            return ite(okc, variant(0, [seq_lit([seq_at(s, N(i)) for i in range(to['n'])]) if to['n'] <= 64 else s]), variant(1, [m.sym('ext', ('tryfrom',), T['args'][1], c.st)]))
    return NotImplemented

# clone / default / mem
def clone_value(m, st, v):
    """structural copy; shared pointers become shared"""
    def go(v):
        if isinstance(v, Struct):
            if v.tag == ('arc',): return struct(v.tag, [v.f[0], FALSE])
            return struct(v.tag, [go(x) for x in v.f])
        if not has_arc(v): return v
        if isinstance(v, Node): return dmap(v, go)
        if isinstance(v.v, Variant): return variant(v.v.idx, [go(x) for x in v.v.f])
        if isinstance(v.v, SeqV):
            out = N_EMPTY
            for p in v.v.p:
                if p[0] == 'lit': out = seq_cat(out, seq_lit([go(p[1])]))
                else:
                    t = fresh('c', 'int', 0)
                    out = seq_cat(out, seq_comp_v(leaf(p[1]), t, go(lam_app(p[2], num(t)))))
            return out
        return v
    return go(v)
def has_arc(v):
    if isinstance(v, Struct): return v.tag == ('arc',) or any(has_arc(x) for x in v.f)
    if isinstance(v, Node): return has_arc(v.hi) or has_arc(v.lo)
    if isinstance(v, Leaf):
        if isinstance(v.v, Variant): return any(has_arc(x) for x in v.v.f)
        if isinstance(v.v, SeqV): return any(has_arc(p[1] if p[0] == 'lit' else p[2].body) for p in v.v.p)
    return False
@model('Clone::clone')
def _clone(c):
    m = c.m
    v = restrict(c.load(c.a[0]), c.st.pc)
    if c.selfty is None: return NotImplemented
    T = m.T[c.selfty]
    if T['k'] == 'ref' : return v
    # elements with a clone of their own in the analysed crate
    if T['k'] == 'adt' and (T['path'] in interp.SEQ_ADT or T['path'].startswith('core::option') ):
        for a in T['args']:
            A = m.T[a]
            if A['k'] == 'adt' and A['crate'] in LOCAL and has_arc(v) is False and A.get('variants') and not is_copyish(m, a): return NotImplemented
    if isinstance(v, Leaf) and isinstance(v.v, Ptr) and T['k'] == 'adt' and T['path'] == 'alloc::boxed::Box':
        k = m.newcell(T['args'][0]); c.st.cells[k] = clone_value(m, c.st, c.load(v)); return ptr(k)
    if isinstance(v, Struct) and v.tag == ('arc',):
        c.store(pext(c.a[0], ('f', 1)), FALSE)
        return struct(v.tag, [v.f[0], FALSE])
    r = clone_value(m, c.st, v)
    if r is not v or has_arc(v):
        c.store(c.a[0], r)
    return r
def is_copyish(m, t): return True
@model('Clone::clone_from')
def _clonefrom(c): c.store(c.a[0], clone_value(m_of(c), c.st, c.load(c.a[1]))); return UNIT
def m_of(c): return c.m
def default_of(m, st, t):
    T = m.T[t]
    if T['k'] in ('float', 'int', 'char'): return N(0)
    if T['k'] == 'bool': return FALSE
    if T['k'] == 'tuple': return struct('tuple', [default_of(m, st, x) for x in T['f']])
    if T['k'] == 'array': return seq_rep(N(T['n']), default_of(m, st, T['e']))
    if T['k'] == 'adt':
        if T['path'] in interp.SEQ_ADT: return N_EMPTY
        if T['path'] == 'core::option::Option': return NONE
        if T['path'] == 'core::time::Duration': return N(0)
        if T['path'].endswith('HashMap'): return new_map()
    raise Undecided('default of ' + T['s'])
@model('Default::default')
def _default(c):
    if c.f.get('inst') is not None and c.f.get('rcrate') in LOCAL: return NotImplemented
    return default_of(c.m, c.st, c.ret)
@model('mem::swap')
def _mswap(c):
    a, b = c.load(c.a[0]), c.load(c.a[1])
    c.store(c.a[0], b); c.store(c.a[1], a); return UNIT
@model('mem::replace')
def _mrep(c):
    a = c.load(c.a[0]); c.store(c.a[0], c.a[1]); return a
@model('mem::take')
def _mtake(c):
    a = c.load(c.a[0])
    t = c.ret
    c.store(c.a[0], default_of(c.m, c.st, t)); return a
@model('Option::take')
def _otake(c):
    a = c.load(c.a[0]); c.store(c.a[0], NONE); return a
@model('Option::replace', 'Option::insert')
def _orep(c):
    a = c.load(c.a[0]); c.store(c.a[0], some(c.a[1])); return a
@model('Option::is_some')
def _iss(c): return isvar(c.load(c.a[0]), 1)
@model('Option::is_none')
def _isn(c): return isvar(c.load(c.a[0]), 0)
@model('Result::is_ok')
def _iso(c): return isvar(c.load(c.a[0]), 0)
@model('Result::is_err')
def _ise(c): return isvar(c.load(c.a[0]), 1)
def opt_ref(c):
    v = c.load(c.a[0])
    p = c.a[0]
    return v, p
@model('Option::as_ref', 'Option::as_mut', 'Option::as_deref_mut', 'Option::as_deref')
def _asref(c):
    v = c.load(c.a[0])
    r = option(isvar(v, 1), pext(c.a[0], ('v', 1)))
    r = option(isvar(v, 1), pext(pext(c.a[0], ('v', 1)), ('f', 0)))
    return r
@model('Option::copied', 'Option::cloned')
def _ocop(c):
    m = c.m
    return dmap(c.a[0], lambda l: some(clone_value(m, c.st, m.load(c.st, l.v.f[0]))) if l.v.idx == 1 else NONE)
def on_variant(c, v, i, f, g):
    """case split on an Option/Result value; f(payload, state) where it is variant i, g(state) elsewhere; both run under the matching condition"""
    m, st = c.m, c.st
    cnd = restrict(isvar(v, i), st.pc)
    outs = []
    if cnd is not FALSE:
        s = State(b_and(st.pc, cnd), dict(st.cells))
        if s.pc is not FALSE:
            r = f(payload(v, i) if True else None, s)
            if s.pc is not FALSE: outs.append((s, r))
    if cnd is not TRUE:
        s = State(b_and(st.pc, b_not(cnd)), dict(st.cells))
        if s.pc is not FALSE:
            r = g(s)
            if s.pc is not FALSE: outs.append((s, r))
    if not outs: st.pc = FALSE; return None
    if len(outs) == 1:
        s, r = outs[0]
    else:
        s = merge([outs[0][0], outs[1][0]])
        r = ite(restrict(outs[0][0].pc, s.pc), outs[0][1], outs[1][1])
    st.pc, st.cells = s.pc, s.cells
    return r
def die(c, msg):
    def g(s):
        c.m.oblige('panic', msg, c.sp, s.pc); s.pc = FALSE
        return None
    return g
@model('Option::unwrap', 'Option::expect')
def _ounwrap(c): return on_variant(c, c.a[0], 1, lambda x, s: x, die(c, 'unwrap of None'))
@model('Result::unwrap', 'Result::expect')
def _runwrap(c): return on_variant(c, c.a[0], 0, lambda x, s: x, die(c, 'unwrap of Err'))
@model('Option::unwrap_or')
def _ouo(c): return on_variant(c, c.a[0], 1, lambda x, s: x, lambda s: c.a[1])
@model('Result::unwrap_or')
def _ruo(c): return on_variant(c, c.a[0], 0, lambda x, s: x, lambda s: c.a[1])
@model('Option::unwrap_or_else')
def _ouoe(c): return on_variant(c, c.a[0], 1, lambda x, s: x, lambda s: c.m.call_value(keep(c, c.a[1]) if not isinstance(c.a[1], Struct) else c.a[1], None, [], s))
@model('Option::unwrap_or_default')
def _ouod(c): return on_variant(c, c.a[0], 1, lambda x, s: x, lambda s: default_of(c.m, s, c.ret))
@model('Option::map')
def _omap(c): return on_variant(c, c.a[0], 1, lambda x, s: some(c.m.call_value(c.a[1], None, [x], s)), lambda s: NONE)
@model('Option::map_or')
def _omapor(c): return on_variant(c, c.a[0], 1, lambda x, s: c.m.call_value(c.a[2], None, [x], s), lambda s: c.a[1])
@model('Option::map_or_else')
def _omapore(c): return on_variant(c, c.a[0], 1, lambda x, s: c.m.call_value(c.a[2], None, [x], s), lambda s: c.m.call_value(c.a[1], None, [], s))
@model('Option::and_then')
def _oat(c): return on_variant(c, c.a[0], 1, lambda x, s: c.m.call_value(c.a[1], None, [x], s), lambda s: NONE)
@model('Option::filter')
def _ofil(c):
    def f(x, s):
        k = c.m.newcell(None); s.cells[k] = x
        return option(c.m.call_value(c.a[1], None, [ptr(k)], s), x)
    return on_variant(c, c.a[0], 1, f, lambda s: NONE)
@model('Option::or_else')
def _ooe(c): return on_variant(c, c.a[0], 1, lambda x, s: some(x), lambda s: c.m.call_value(c.a[1], None, [], s))
@model('Option::or')
def _oor(c): return on_variant(c, c.a[0], 1, lambda x, s: some(x), lambda s: c.a[1])
@model('Option::ok_or')
def _oor2(c): return on_variant(c, c.a[0], 1, lambda x, s: variant(0, [x]), lambda s: variant(1, [c.a[1]]))
@model('Option::ok_or_else')
def _oor3(c): return on_variant(c, c.a[0], 1, lambda x, s: variant(0, [x]), lambda s: variant(1, [c.m.call_value(c.a[1], None, [], s)]))
@model('Result::ok')
def _rok(c): return on_variant(c, c.a[0], 0, lambda x, s: some(x), lambda s: NONE)
@model('Result::err')
def _rerr(c): return on_variant(c, c.a[0], 1, lambda x, s: some(x), lambda s: NONE)
@model('Result::map')
def _rmap(c):
    e = payload(c.a[0], 1)
    return on_variant(c, c.a[0], 0, lambda x, s: variant(0, [c.m.call_value(c.a[1], None, [x], s)]), lambda s: variant(1, [e]))
@model('Result::map_err')
def _rmape(c):
    e = payload(c.a[0], 1)
    return on_variant(c, c.a[0], 0, lambda x, s: variant(0, [x]), lambda s: variant(1, [c.m.call_value(c.a[1], None, [e], s)]))
@model('Result::and_then')
def _rat(c):
    e = payload(c.a[0], 1)
    return on_variant(c, c.a[0], 0, lambda x, s: c.m.call_value(c.a[1], None, [x], s), lambda s: variant(1, [e]))
@model('Result::unwrap_or_else')
def _ruoe(c):
    e = payload(c.a[0], 1)
    return on_variant(c, c.a[0], 0, lambda x, s: x, lambda s: c.m.call_value(c.a[1], None, [e], s))
@model('Result::or_else')
def _roe(c):
    e = payload(c.a[0], 1)
    return on_variant(c, c.a[0], 0, lambda x, s: variant(0, [x]), lambda s: c.m.call_value(c.a[1], None, [e], s))
@model('bool::then')
def _then(c):
    cnd = restrict(c.a[0], c.st.pc)
    v = ite(cnd, variant(1, [UNIT]), NONE)
    return on_variant(c, v, 1, lambda x, s: some(c.m.call_value(c.a[1], None, [], s)), lambda s: NONE)
@model('bool::then_some')
def _thens(c): return option(c.a[0], c.a[1])

# --------------------------------------------------------------------------
# maps
def new_map(): return struct(('map',), [num(atom('emptymap', (), 'obj')), N_EMPTY])
@model('HashMap::new', 'HashMap::with_capacity', 'BTreeMap::new')
def _mapnew(c): return new_map()
def mapkey(k):
    return k
@model('HashMap::insert', 'BTreeMap::insert')
def _mapins(c):
    m = c.m
    v = c.load(c.a[0])
    b, s = v.f
    k = restrict(c.a[1], c.st.pc)
    old = lift(lambda x, y: b_atom(atom('map_has', (x.single(), _n(y)), 'bool')))(b, k) if b.v.single().kind != 'emptymap' else FALSE
    nb = lift(lambda x, y: num(atom('map_insert', (x.single(), _n(y)), 'obj')))(b, k)
    m.event('map_insert', (b, k, c.a[2]), c.st, c.sp)
    c.store(c.a[0], struct(v.tag, [nb, seq_push(s, c.a[2])]))
    if c.dt is None: return UNIT
    pt = opt_payload_ty(m, c.dt)
    return option(old, m.sym('map_val', (b.v.single(), _n(k.v)) , pt, c.st)) if isinstance(k, Leaf) and old is not FALSE else NONE
@model('HashMap::remove', 'BTreeMap::remove')
def _maprem(c):
    m = c.m
    v = c.load(c.a[0])
    b, s = v.f
    k = c.load(c.a[1])
    m.event('map_remove', (b, k), c.st, c.sp)
    if not isinstance(k, Leaf) or not isinstance(b, Leaf): raise Undecided('map key')
    ba, ka = b.v.single(), _n(k.v)
    if ba.kind == 'emptymap': return NONE
    has = b_atom(atom('map_has', (ba, ka), 'bool'))
    x = m.sym('map_val', (ba, ka), opt_payload_ty(m, c.ret), c.st)
    vty = opt_payload_ty(m, c.ret)
    na = atom('map_remove', (ba, ka), 'obj')
    sb = atom('map_remove_vals', (ba, ka), 'obj')
    ns = m.symseq(sb, num(atom('len', (sb,), 'int', 0)), vty, c.st)
    c.store(c.a[0], struct(v.tag, [ite(has, num(na), b), ite(has, ns, s)]))
    return option(has, x)
@model('HashMap::contains_key', 'BTreeMap::contains_key')
def _maphas(c):
    b = c.load(c.a[0]).f[0]; k = c.load(c.a[1])
    if b.v.single().kind == 'emptymap': return FALSE
    return lift(lambda x, y: b_atom(atom('map_has', (x.single(), _n(y)), 'bool')))(b, k)
@model('HashMap::len', 'BTreeMap::len')
def _maplen(c): return seq_len(c.load(c.a[0]).f[1])
@model('HashMap::is_empty', 'BTreeMap::is_empty')
def _mapemp(c): return eq(seq_len(c.load(c.a[0]).f[1]), N(0))
@model('HashMap::get', 'HashMap::get_mut', 'BTreeMap::get', 'BTreeMap::get_mut')
def _mapget(c):
    # the value lives somewhere in the value sequence
    m = c.m
    v = c.load(c.a[0]); b = v.f[0]; k = c.load(c.a[1])
    if not isinstance(k, Leaf) or not isinstance(b, Leaf): raise Undecided('map key')
    ba, ka = b.v.single(), _n(k.v)
    if ba.kind == 'emptymap': return NONE
    has = b_atom(atom('map_has', (ba, ka), 'bool'))
    i = num(atom('map_slot', (ba, ka), 'int', 0))
    return option(has, pext(pext(c.a[0], ('f', 1)), ('i', i)))
@model('HashMap::values', 'HashMap::values_mut', 'BTreeMap::values', 'BTreeMap::values_mut')
def _mapvals(c):
    v = c.load(c.a[0])
    return iterv(('ref', pext(c.a[0], ('f', 1)), seq_len(v.f[1])), N(0))
@model('HashMap::iter', 'HashMap::iter_mut', 'BTreeMap::iter', 'BTreeMap::iter_mut')
def _mapiter(c): return map_iter(c, c.a[0], c.load(c.a[0]), 'iter')
def map_iter(c, p, v, how):
    b = v.f[0]
    if not isinstance(b, Leaf): raise Undecided('map')
    ba = b.v.single()
    m = c.m
    i = fresh('i', 'int', 0)
    k = m.newcell(None)
    n = seq_len(v.f[1])
    kb = atom('map_keys', (ba,), 'obj')
    c.st.cells[k] = seq_comp_v(n, i, num(atom('at', (kb, core.ratom(i)), 'int', 0)))
    return iterv(('zip', ('ref', ptr(k), n), ('ref', pext(p, ('f', 1)), n)), N(0))
@model('HashMap::keys')
def _mapkeys(c): return iterv(map_iter(c, c.a[0], c.load(c.a[0]), 'iter').v.src[1], N(0))
@model('HashMap::clear')
def _mapclear(c): c.store(c.a[0], new_map()); return UNIT
@model('HashMap::entry', 'HashMap::retain', 'HashMap::drain', 'HashMap::into_values')
def _mapx(c): raise Undecided('no model of ' + c.name)
def pairs_of(m, st, v): raise Undecided('map by value')

# --------------------------------------------------------------------------
# petgraph
def gtopo(v): return v.f[0]
def gop(name, g, *ks):
    return lift(lambda x, *ys: num(atom(name, (x.single(),) + tuple(_n(y) for y in ys), 'obj')))(g, *ks)
@model('Graph::new', 'Graph::with_capacity', 'Graph::default')
def _gnew(c): return struct(('graph',), [num(atom('emptygraph', (), 'obj')), N_EMPTY])
@model('Graph::add_node')
def _gadd(c):
    v = c.load(c.a[0])
    i = seq_len(v.f[1])
    c.m.event('graph_add_node', (i,), c.st, c.sp)
    c.store(c.a[0], struct(v.tag, [gop('g_add_node', v.f[0]), seq_push(v.f[1], c.a[1])]))
    return i
@model('Graph::update_edge', 'Graph::add_edge')
def _gedge(c):
    v = c.load(c.a[0])
    meth = c.f.get('method') or 'update_edge'
    n = seq_len(v.f[1])
    c.fail('panic', b_or(ge(c.a[1], n), ge(c.a[2], n)), 'node index out of range')
    c.m.event('graph_' + meth, (c.a[1], c.a[2]), c.st, c.sp)
    old = v.f[0]
    c.store(c.a[0], struct(v.tag, [gop('g_' + meth, v.f[0], c.a[1], c.a[2]), v.f[1]]))
    return c.m.sym('g_edge', (old.v.single(), _n(c.a[1].v), _n(c.a[2].v)), c.ret, c.st) if isinstance(old, Leaf) and isinstance(c.a[1], Leaf) and isinstance(c.a[2], Leaf) else unknown('edge')
@model('Graph::find_edge')
def _gfind(c):
    v = c.load(c.a[0])
    a, b = _n(c.a[1].v), _n(c.a[2].v)
    t = v.f[0].v.single()
    return option(b_atom(atom('g_has_edge', (t, a, b), 'bool')), c.m.sym('g_edge', (t, a, b), opt_payload_ty(c.m, c.ret), c.st))
@model('Graph::find_edge_undirected')
def _gfindu(c):
    v = c.load(c.a[0])
    a, b = _n(c.a[1].v), _n(c.a[2].v)
    t = v.f[0].v.single()
    pt = opt_payload_ty(c.m, c.ret)
    et = c.m.T[pt]['f'][0]
    def one(x, y, d): return some(struct('tuple', [c.m.sym('g_edge', (t, x, y), et, c.st), variant(d)]))
    return ite(b_atom(atom('g_has_edge', (t, a, b), 'bool')), one(a, b, 0), ite(b_atom(atom('g_has_edge', (t, b, a), 'bool')), one(b, a, 1), NONE))
@model('Graph::contains_edge')
def _gcont(c):
    v = c.load(c.a[0])
    return b_atom(atom('g_has_edge', (v.f[0].v.single(), _n(c.a[1].v), _n(c.a[2].v)), 'bool'))
@model('Graph::remove_edge')
def _grem(c):
    v = c.load(c.a[0])
    c.m.event('graph_remove_edge', (c.a[1],), c.st, c.sp)
    def flat(x):
        if isinstance(x, Struct): return [z for y in x.f for z in flat(y)]
        return [x]
    c.store(c.a[0], struct(v.tag, [gop('g_remove_edge', v.f[0], *flat(c.a[1])), v.f[1]]))
    return unknown('removed edge weight')
@model('Graph::remove_node')
def _gremn(c): raise Undecided('node removal')
@model('Graph::node_weight', 'Graph::node_weight_mut')
def _gweight(c):
    v = c.load(c.a[0])
    n = seq_len(v.f[1])
    return option(lt(c.a[1], n), pext(pext(c.a[0], ('f', 1)), ('i', c.a[1])))
@model('Graph::node_count')
def _gcount(c): return seq_len(c.load(c.a[0]).f[1])
@model('Graph::edge_count')
def _gecount(c): return lift(lambda g: num(atom('g_edge_count', (_n(g).single(),), 'int', 0)))(restrict(c.load(c.a[0]).f[0], c.st.pc))
@model('Graph::edges', 'Graph::edges_directed')
def _gedges(c):
    v = c.load(c.a[0])
    n = restrict(c.a[1], c.st.pc)
    back = False
    if c.f.get('method') == 'edges_directed':
        d = c.a[2]
        if not isinstance(d.v, Variant): raise Undecided('direction')
        back = d.v.idx == 1
    def mk(g, x):
        b = atom('g_pred' if back else 'g_succ', (_n(g).single(), _n(x)), 'obj')
        i = fresh('i', 'int', 0)
        far = num(atom('at', (b, core.ratom(i)), 'int', 0)); here = leaf(_n(x))
        return seq_comp_v(num(atom('len', (b,), 'int', 0)), i, struct(('edgeref',), [far, here] if back else [here, far]))
    return iterv(('seq', lift(mk)(restrict(v.f[0], c.st.pc), n)), N(0))
@model('EdgeReference::source', 'EdgeReference::target', 'EdgeRef::source', 'EdgeRef::target')
def _eref(c):
    e = c.a[0]
    if isinstance(e, Leaf) and isinstance(e.v, Ptr): e = c.load(e)
    if not (isinstance(e, Struct) and e.tag == ('edgeref',)): raise Undecided('edge reference')
    return e.f[0 if (c.f.get('method') or c.f['path']).endswith('source') else 1]
@model('algo::is_cyclic_directed')
def _gcyc(c): return lift(lambda g: b_not(b_atom(atom('g_acyclic', (_n(g).single(),), 'bool'))))(restrict(c.load(c.a[0]).f[0], c.st.pc))
@model('NodeIndex::new')
def _ninew(c): return c.a[0]
@model('NodeIndex::index')
def _niidx(c): return c.a[0]
def gseq(c, name, args, ety_int=True):
    b = atom(name, args, 'obj')
    i = fresh('i', 'int', 0)
    return seq_comp_v(num(atom('len', (b,), 'int', 0)), i, num(atom('at', (b, core.ratom(i)), 'int', 0)))
def garg(v):
    v = v.f[0]
    if not isinstance(v, Leaf): raise Undecided('graph')
    return v.v.single()
@model('Graph::neighbors', 'Graph::neighbors_undirected', 'Graph::neighbors_directed')
def _gneigh(c):
    v = c.load(c.a[0])
    n = restrict(c.a[1], c.st.pc)
    meth = c.f.get('method')
    nm = 'g_succ'
    if meth == 'neighbors_undirected': nm = 'g_adj'
    if meth == 'neighbors_directed':
        d = c.a[2]
        i = d.v.idx if isinstance(d.v, Variant) else None
        nm = {0: 'g_succ', 1: 'g_pred'}.get(i, 'g_dir')
    s = lift(lambda g, x: gseq(c, nm, (_n(g).single(), _n(x))))(restrict(v.f[0], c.st.pc), n)
    return iterv(('seq', s), N(0))
@model('Neighbors::detach')
def _gdetach(c): return c.load(c.a[0])
@model('WalkNeighbors::next')
def _gwn(c):
    v = restrict(c.load(c.a[0]), c.st.pc)
    r, nv = it_next(c.m, c.st, v)
    c.store(c.a[0], nv)
    return dmap(r, lambda l: some(struct('tuple', [unknown('edge'), l.v.f[0]])) if l.v.idx == 1 else NONE)
@model('WalkNeighbors::next_node')
def _gwnn(c):
    v = restrict(c.load(c.a[0]), c.st.pc)
    r, nv = it_next(c.m, c.st, v)
    c.store(c.a[0], nv); return r
@model('WalkNeighbors::next_edge')
def _gwne(c): raise Undecided('edge walk')
@model('Graph::node_indices')
def _gni(c): return iterv(('range', N(0), seq_len(c.load(c.a[0]).f[1])), N(0))
@model('Graph::externals')
def _gext(c):
    v = c.load(c.a[0])
    d = c.a[1]
    nm = 'g_ext%s' % (d.v.idx if isinstance(d.v, Variant) else '?')
    return iterv(('seq', lift(lambda g: gseq(c, nm, (_n(g).single(),)))(restrict(v.f[0], c.st.pc))), N(0))
@model('DfsPostOrder::empty', 'DfsPostOrder::new', 'Dfs::empty', 'Dfs::new', 'Topo::new', 'Bfs::new')
def _dfs(c):
    m = c.m
    ks = tuple(_n(a.v) for a in c.a[1:] if isinstance(a, Leaf) and isinstance(a.v, Rat))
    nm = norm(c.f['path'])
    return lift(lambda g: num(atom(nm, (_n(g).single(),) + ks, 'obj')))(restrict(c.load(c.a[0]).f[0], c.st.pc))
@model('DfsPostOrder::move_to', 'Dfs::move_to', 'DfsPostOrder::next', 'Dfs::next', 'Topo::next', 'Bfs::next', 'DfsPostOrder::reset')
def _dfsm(c):
    m = c.m
    o = restrict(c.load(c.a[0]), c.st.pc)
    name = norm(c.f['path'])
    args = []
    for a in c.a[1:]:
        if isinstance(a, Leaf) and isinstance(a.v, Ptr):
            a = c.load(a)
            if isinstance(a, Struct) and a.tag == ('graph',): a = a.f[0]
        args.append(a)
    def f(x, *ys): return num(atom('post', (name, x.single()) + tuple(_n(y) for y in ys), 'obj'))
    post = lift(f)(o, *args)
    c.store(c.a[0], post)
    if name.endswith('move_to') or name.endswith('reset'): return UNIT
    return lift(lambda x, *ys: m.sym('res', (name, x.single()) + tuple(_n(y) for y in ys), c.ret, c.st))(o, *args)
@model('algo::toposort')
def _topo(c):
    v = c.load(c.a[0])
    def f(x):
        g = _n(x).single()
        e = c.m.sym('ext', ('cycle', g), c.m.T[c.ret]['args'][1], c.st)
        return ite(b_atom(atom('g_acyclic', (g,), 'bool')), variant(0, [gseq(c, 'g_toposort', (g,))]), variant(1, [e]))
    return lift(f)(restrict(v.f[0], c.st.pc))

# --------------------------------------------------------------------------
# strings, errors, io, wav, rand, lazy
_sid = itertools.count()
def fresh_string(c):
    return num(atom('string', (next(_sid),), 'obj'))
for _nm in ('fmt::format', 'Arguments::new', 'Argument::new_display', 'Arguments::new_const', 'Arguments::new_v1', 'Argument::new_debug', 'ToString::to_string', 'hint::must_use', 'String::new', 'String::from', 'str::to_string', 'Arguments::from_str', 'Arguments::from_str_nonconst'):
    def _fmt(c):
        if c.f['path'].endswith('must_use'): return c.a[0]
        return fresh_string(c)
    MODELS[_nm] = _fmt
@model('String::push_str', 'String::push', 'fmt::write', 'Write::write_fmt', 'Write::write_str', 'String::insert', 'AddAssign::add_assign')
def _strpush(c):
    t = tyname(c.m, c.selfty)
    if c.f.get('trait') and c.f['trait'].endswith('AddAssign') and t != 'alloc::string::String': return NotImplemented
    if t != 'alloc::string::String': raise Undecided('formatted output')
    c.upd(c.a[0], lambda s: fresh_string(c)); return UNIT
@model('Error::new', 'Error::other', 'Error::kind', 'Error::from')
def _ioerr(c):
    return c.m.sym('ext', ('ioerror', c.f['path'].split('::')[-1]), c.ret, c.st)
@model('io::_print', 'stdio::_print', 'stdio::_eprint')
def _print(c):
    c.m.event('print', (), c.st, c.sp); return UNIT
@model('Header::new')
def _hdr(c):
    fmt, ch, rate, bits = c.a
    by = floor(div(bits, N(8)))
    c.m.oblige('overflow', 'Header::new', c.sp, b_and(c.st.pc, gt(mul(by, ch), N(65535))))
    c.m.oblige('overflow', 'Header::new', c.sp, b_and(c.st.pc, gt(mul(mul(by, ch), rate), N(2 ** 32 - 1))))
    return struct(c.m.tag(c.ret), [fmt, ch, rate, mul(mul(by, ch), rate), mul(by, ch), bits])
_evid = itertools.count()
def in_memory(c, p):
    """a writer that is a vector of bytes in memory; None where it is the caller's"""
    v = restrict(c.load(p), c.st.pc)
    ls = [l for _, l in paths(v)] if isinstance(v, Node) else [v]
    if all(isinstance(l, Leaf) and isinstance(l.v, core.SeqV) for l in ls): return v
    if any(isinstance(l, Leaf) and isinstance(l.v, (core.SeqV, Struct, Variant, Unk)) for l in ls): raise Undecided('a writer built around another')
    return None
def count_events(m, n): return sum(1 for e in m.events if e.name == n)
@model('wav::write_wav', 'wav::write')
def _wavwrite(c):
    m = c.m
    k = count_events(m, 'wav::write_wav') + count_events(m, 'wav::encode')
    buf = in_memory(c, c.a[2])
    if buf is not None:
        # the bytes of the file, whatever they are, appended; memory takes them all
        base = atom('ext', ('wav_bytes', k), 'obj')
        i = fresh('e', 'int', 0)
        blob = seq_comp_v(num(atom('ext', ('wav_len', k), 'int', 44)), i, num(atom('at', (base, ratom(i)), 'int', 0, 255)))
        c.upd(c.a[2], lambda s: seq_cat(s, blob))
        empty = lift(lambda x: FALSE if isinstance(x, Variant) and x.idx <= 2 else TRUE)(restrict(c.a[1], c.st.pc))
        r = ok(UNIT) if empty is FALSE else m.sym('ext', ('wav_write', m.site(), k), c.ret, c.st)
        m.event('wav::encode', tuple(c.a[:2]) + (blob, r), c.st, c.sp)
        return r
    r = m.sym('ext', ('wav_write', m.site(), k), c.ret, c.st)
    m.event('wav::write_wav', tuple(c.a[:3]) + (r,), c.st, c.sp)
    return r
@model('Write::write_all', 'Write::write', 'Write::flush')
def _iowrite(c):
    m = c.m
    w = c.f['method'] if c.f.get('kind') == 'virtual' else c.f['path'].split('::')[-1]
    buf = in_memory(c, c.a[0])
    q = c.load(c.a[1]) if w != 'flush' else UNIT
    if buf is not None:
        if w == 'flush': return ok(UNIT)
        c.upd(c.a[0], lambda s: seq_cat(s, q))
        return ok(UNIT if w == 'write_all' else seq_len(q))
    r = m.sym('ext', ('io_' + w, m.site(), count_events(m, 'io::' + w)), c.ret if c.f.get('kind') != 'virtual' else c.dt, c.st)
    m.event('io::' + w, (q, r), c.st, c.sp)
    return r
@model('wav::read_wav', 'wav::read')
def _wavread(c):
    r = c.m.sym('ext', ('wav_read', sum(1 for e in c.m.events if e.name == 'wav::read_wav')), c.ret, c.st)
    c.m.event('wav::read_wav', (c.a[0], r), c.st, c.sp)
    return r
@model('thread::thread_rng', 'rngs::thread_rng')
def _trng(c):
    c.m.event('rand::thread_rng', (), c.st, c.sp)
    return num(atom('rng', (), 'obj'))
@model('Rng::gen', 'random::random', 'rand::random')
def _gen(c):
    m = c.m
    c.m.event('rand::gen', (), c.st, c.sp)
    T = m.T[c.ret]
    n = m.__dict__.setdefault('_rng', itertools.count())
    if T['k'] == 'float': return num(atom('random', (next(n), c.f['path'].split('::')[-1]), 'real', 0, 1))
    if T['k'] == 'bool': return b_atom(atom('random', (next(n), 'bool'), 'bool'))
    return m.sym('random', (next(n), 'gen'), c.ret, c.st)
@model('Rng::gen_range')
def _genr(c):
    m = c.m
    c.m.event('rand::gen', (), c.st, c.sp)
    n = m.__dict__.setdefault('_rng', itertools.count())
    u = num(atom('random', (next(n), 'range'), 'real', 0, 1))
    if len(c.a) == 3: return add(c.a[1], mul(u, sub(c.a[2], c.a[1])))
    raise Undecided('gen_range')
@model('Lazy::get')
def _lazy(c):
    m, st = c.m, c.st
    p = c.a[0]
    if not (isinstance(p, Leaf) and isinstance(p.v, Ptr)): raise Undecided('lazy static')
    key = ('lazy', p.v.cell)
    k = m.statics.get(key)
    if k is None:
        k = m.newcell(None)
        m.statics[key] = k
        s = State(TRUE, {})
        w, m.wlogs = m.wlogs, []
        try:
            v = m.call_value(c.a[1], None, [], s)
        finally: m.wlogs = w
        m.statics[('lazyval', k)] = v
    if k not in st.cells: st.cells[k] = m.statics[('lazyval', k)]
    return ptr(k)
def lazy_get(c): raise Undecided('lazy cell')

# --------------------------------------------------------------------------
# time
NANO = 10 ** 9
@model('Duration::as_secs_f64', 'Duration::as_secs_f32')
def _secs(c): 
    v = c.load(c.a[0]) if isptr(c.a[0]) else c.a[0]
    if c.m.mode == 'fp': return lift(lambda x: leaf(core.ratom(atom('fp', ('secs', 64, _n(x))))) if _n(x).const() is None else leaf(_n(x)))(v)
    return c.m.r32(v) if c.f['path'].endswith('f32') else v
def isptr(v): return isinstance(v, Leaf) and isinstance(v.v, Ptr)
def val(c, i): return c.load(c.a[i]) if isptr(c.a[i]) else c.a[i]
@model('Duration::as_secs')
def _secsi(c): return floor(val(c, 0))
@model('Duration::as_millis')
def _ms(c): return floor(mul(val(c, 0), N(1000)))
@model('Duration::as_micros')
def _us(c): return floor(mul(val(c, 0), N(10 ** 6)))
@model('Duration::as_nanos')
def _ns(c): return floor(mul(val(c, 0), N(NANO)))
@model('Duration::subsec_nanos')
def _sns(c): v = val(c, 0); return floor(mul(sub(v, floor(v)), N(NANO)))
@model('Duration::subsec_millis')
def _sms(c): v = val(c, 0); return floor(mul(sub(v, floor(v)), N(1000)))
@model('Duration::subsec_micros')
def _sus(c): v = val(c, 0); return floor(mul(sub(v, floor(v)), N(10 ** 6)))
@model('Duration::from_secs')
def _fs(c): return c.a[0]
@model('Duration::from_millis')
def _fms(c): return div(c.a[0], N(1000))
@model('Duration::from_micros')
def _fus(c): return div(c.a[0], N(10 ** 6))
@model('Duration::from_nanos')
def _fns(c): return div(c.a[0], N(NANO))
@model('Duration::new')
def _dnew(c): return add(c.a[0], div(c.a[1], N(NANO)))
@model('Duration::from_secs_f64', 'Duration::from_secs_f32')
def _fsf(c):
    if c.m.mode == 'fp':
        bad = lift(lambda x: b_atom(atom('badsecs', (_n(x),), 'bool')) if _n(x).const() is None else (TRUE if _n(x).const() < 0 else FALSE))(c.a[0])
        c.fail('panic', bad, 'from_secs_f64 of a negative or non-finite number')
        return lift(lambda x: leaf(core.ratom(atom('fp', ('fromsecs', 64, _n(x))))) if _n(x).const() is None else leaf(_n(x)))(c.a[0])
    c.fail('panic', lt(c.a[0], N(0)), 'from_secs_f64 of a negative number')
    return restrict(c.a[0], c.st.pc)
@model('Duration::mul_f64', 'Duration::mul_f32')
def _dmul(c): return mul(c.a[0], c.a[1])
@model('Duration::div_f64', 'Duration::div_f32')
def _ddiv(c): return div(c.a[0], c.a[1])
def is_dur(c): return c.selfty is not None and tyname(c.m, c.selfty) == 'core::time::Duration'
@model('Add::add', 'Sub::sub', 'Mul::mul', 'Div::div')
def _darith(c):
    if not is_dur(c): return NotImplemented
    me = c.f['method']
    if me == 'sub': c.fail('overflow', lt(c.a[0], c.a[1]), 'duration subtraction')
    return {'add': add, 'sub': sub, 'mul': mul, 'div': div}[me](c.a[0], c.a[1])
for _nm in ('Instant::now', 'SystemTime::now', 'Instant::elapsed'):
    def _clock(c):
        c.m.event('clock', (), c.st, c.sp)
        return c.m.sym('clock', (len(c.m.events),), c.ret, c.st)
    MODELS[_nm] = _clock

# --------------------------------------------------------------------------
# comparisons
@model('PartialOrd::partial_cmp')
def _pcmp(c):
    if c.f.get('inst') is not None and c.f.get('rcrate') in LOCAL: return NotImplemented
    a, b = c.load(c.a[0]), c.load(c.a[1])
    if c.m.mode == 'fp' and compound(a) is None: return fp_cmp3(c, a, b)
    return some(cmpv(c, a, b))
def compound(v):
    """some leaf of v when all are variants"""
    if isinstance(v, Struct): return None
    ls = [l.v for l in core.leaves_of(v) if l is not BOT and not isinstance(l.v, Unk)]
    return ls[0] if ls and all(isinstance(x, Variant) for x in ls) else None
def cmpv(c, a, b):
    """the ordering of values in the order of their variants, then of their fields"""
    while isptr(a) and isptr(b): a, b = c.load(a), c.load(b)
    if compound(a) is None or compound(b) is None: return cmp3(a, b)
    def f(x, y):
        if x.idx != y.idx: return variant(0 if x.idx < y.idx else 2)
        r = variant(1)
        for u, v in reversed(list(zip(x.f, y.f))):
            z = cmpv(c, u, v)
            r = ite(eq(z, variant(1)), r, z)
        return r
    return lift(f)(a, b)
def fp_cmp3(c, a, b):
    l, g, e = c.m.fcmp('Lt', a, b), c.m.fcmp('Gt', a, b), c.m.fcmp('Eq', a, b)
    return ite(l, some(variant(0)), ite(g, some(variant(2)), ite(e, some(variant(1)), NONE)))
@model('Ord::cmp', 'f64::total_cmp', 'f32::total_cmp')
def _ocmp(c): return cmpv(c, c.load(c.a[0]), c.load(c.a[1]))
@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _plt(c):
    T = c.m.T[basety(c.m, c.selfty)] if c.selfty is not None else None
    if T is None or T['k'] not in ('float', 'int', 'char'):
        if T is not None and T['k'] == 'adt' and T['path'] == 'core::time::Duration': pass
        else: return NotImplemented
    a, b = c.load(c.a[0]), c.load(c.a[1])
    while isptr(a): a, b = c.load(a), c.load(b)
    me = c.f['method']
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[me]
    if T['k'] == 'adt': return {'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}[op](a, b)
    return c.m.binop(op, a, b, basety(c.m, c.selfty))
@model('PartialEq::eq', 'PartialEq::ne')
def _peq(c):
    T = c.m.T[basety(c.m, c.selfty)] if c.selfty is not None else None
    if T is None: return NotImplemented
    if c.f.get('inst') is not None and c.f.get('rcrate') in LOCAL: return NotImplemented
    a, b = c.load(c.a[0]), c.load(c.a[1])
    while isptr(a) and isptr(b): a, b = c.load(a), c.load(b)
    if T['k'] in ('float', 'int', 'bool', 'char'): r = c.m.binop('Eq', a, b, basety(c.m, c.selfty)) if T['k'] != 'bool' else ite(a, b, b_not(b))
    elif T['k'] == 'adt' and (T['path'] in ('petgraph::graph_impl::NodeIndex', 'core::time::Duration', 'core::option::Option')): r = eq(deref_in(c, a), deref_in(c, b))
    elif T['k'] == 'adt' and T['adt'] == 'enum' and not any(v['f'] for v in T.get('variants', [{'f': 1}])): r = eq(a, b)
    else:
        return NotImplemented if c.f.get('inst') is not None else seq_eq(c, a, b, c.f['method'])
    return r if c.f['method'] == 'eq' else b_not(r)
def deref_in(c, v):
    """an optional reference as the optional value behind it"""
    def f(l):
        x = l.v
        if not isinstance(x, Variant): return l
        fs = []
        for y in x.f:
            while isptr(y): y = c.load(y)
            fs.append(y)
        if any(isinstance(y, Node) for y in fs) and len(fs) == 1: return dmap(fs[0], lambda z: variant(x.idx, [z]))
        return variant(x.idx, fs)
    return v if isinstance(v, Struct) else dmap(v, f)
def seq_eq(c, a, b, me): raise Undecided('equality of sequences')
@model('Ord::max', 'Ord::min', 'Ord::clamp', 'cmp::max', 'cmp::min')
def _omax(c):
    if isinstance(c.a[0], Struct): return NotImplemented
    me = c.f['path'].split('::')[-1]
    if me in ('max', 'min') and compound(c.a[0]) is not None:
        # of equal values max takes the second, min the first
        return ite(eq(cmpv(c, *c.a), variant(2)), c.a[0], c.a[1]) if me == 'max' else ite(eq(cmpv(c, *c.a), variant(2)), c.a[1], c.a[0])
    if me == 'max': return vmax(*c.a)
    if me == 'min': return vmin(*c.a)
    c.fail('panic', gt(c.a[1], c.a[2]), 'clamp bounds')
    return clampv(*c.a)
@model('Ordering::is_lt')
def _olt(c): return isvar(c.a[0], 0)
@model('Ordering::is_gt')
def _ogt(c): return isvar(c.a[0], 2)
@model('Ordering::reverse')
def _orev(c): return dmap(c.a[0], lambda l: variant(2 - l.v.idx))
@model('RangeInclusive::new')
def _rinew(c): return struct(c.m.tag(c.ret), [c.a[0], c.a[1], FALSE])
@model('Range::contains', 'RangeInclusive::contains')
def _rcont(c):
    r = c.load(c.a[0]); x = c.load(c.a[1])
    t = str(r.tag)
    lo, hi = r.f[0], r.f[1]
    return b_and(ge(x, lo), le(x, hi) if 'Inclusive' in t else lt(x, hi))
@model('Range::is_empty')
def _rempty(c): r = c.load(c.a[0]); return ge(r.f[0], r.f[1])

# --------------------------------------------------------------------------
# floats
def fl(name):
    def d(f):
        for t in ('f64', 'f32'):
            def g(c, t=t):
                m = c.m
                a = [c.load(x) if isptr(x) else x for x in c.a]
                if m.mode == 'fp': return fp_fn(m, name, 64 if t == 'f64' else 32, a)
                return f(c, *a)
            MODELS['%s::%s' % (t, name)] = g
        return f
    return d
def fp_fn(m, name, bits, a):
    if name in ('is_nan', 'is_finite', 'is_infinite', 'is_sign_negative', 'is_sign_positive', 'is_normal', 'is_subnormal'):
        return lift(lambda x: b_atom(atom('fpp', (name, _n(x)), 'bool')))(a[0])
    if name == 'clamp':
        # panics unless lo <= hi: constants are decided
        pass
    if name == 'powi': a = [a[0], a[1]]
    return lift(lambda *xs: leaf(core.ratom(atom('fp', (name, bits) + tuple(_n(x) for x in xs)))))(*a)
fl('abs')(lambda c, x: vabs(x))
fl('floor')(lambda c, x: floor(x))
fl('ceil')(lambda c, x: ceil(x))
fl('round')(lambda c, x: vround(x))
fl('trunc')(lambda c, x: trunc(x))
fl('fract')(lambda c, x: sub(x, trunc(x)))
fl('sqrt')(lambda c, x: sqrt(x))
fl('sin')(lambda c, x: sin(x))
fl('cos')(lambda c, x: cos(x))
fl('tan')(lambda c, x: tan(x))
fl('sin_cos')(lambda c, x: struct('tuple', [sin(x), cos(x)]))
fl('exp')(lambda c, x: exp(x))
fl('exp2')(lambda c, x: vpow(N(2), x))
fl('ln')(lambda c, x: ln(x))
fl('log10')(lambda c, x: log10(x))
fl('log2')(lambda c, x: div(ln(x), ln(N(2))))
fl('log')(lambda c, x, b: div(ln(x), ln(b)))
fl('powf')(lambda c, x, y: vpow(x, y))
fl('powi')(lambda c, x, y: vpow(x, y))
fl('recip')(lambda c, x: div(N(1), x))
fl('min')(lambda c, x, y: vmin(x, y))
fl('max')(lambda c, x, y: vmax(x, y))
fl('mul_add')(lambda c, x, y, z: add(mul(x, y), z))
fl('to_radians')(lambda c, x: mul(x, div(leaf(RPI), N(180))))
fl('hypot')(lambda c, x, y: sqrt(add(mul(x, x), mul(y, y))))
fl('is_nan')(lambda c, x: FALSE)
fl('is_finite')(lambda c, x: TRUE)
fl('is_infinite')(lambda c, x: FALSE)
def tiny_(c): return N(Fr(1, 2 ** 126 if 'f32' in c.f['path'] else 2 ** 1022))
fl('is_normal')(lambda c, x: ge(vabs(x), tiny_(c)))
fl('is_subnormal')(lambda c, x: b_and(lt(vabs(x), tiny_(c)), b_not(core.eq(x, N(0)))))
fl('is_sign_negative')(lambda c, x: lt(x, N(0)))
fl('is_sign_positive')(lambda c, x: ge(x, N(0)))
fl('signum')(lambda c, x: ite(lt(x, N(0)), N(-1), N(1)))
fl('copysign')(lambda c, x, y: ite(lt(y, N(0)), neg(vabs(x)), vabs(x)))
def _feuclid(c, x, y):
    return sub(x, mul(y, ite(gt(y, N(0)), floor(div(x, y)), ceil(div(x, y)))))
fl('rem_euclid')(_feuclid)
fl('div_euclid')(lambda c, x, y: ite(gt(y, N(0)), floor(div(x, y)), ceil(div(x, y))))
def _fclamp(c, x, lo, hi):
    c.fail('panic', gt(lo, hi), 'clamp bounds')
    return clampv(x, lo, hi)
for _t in ('f64', 'f32'):
    def _g(c):
        if c.m.mode == 'fp':
            lo, hi = c.a[1], c.a[2]
            def bad(x, y):
                x, y = _n(x), _n(y)
                if x.const() is not None and y.const() is not None: return FALSE if x.const() <= y.const() else TRUE
                return b_not(c.m.fcmp('Le', leaf(x), leaf(y)))
            c.fail('panic', lift(bad)(lo, hi), 'clamp bounds')
            return fp_fn(c.m, 'clamp', 64, c.a)
        return _fclamp(c, *c.a)
    MODELS[_t + '::clamp'] = _g
@model('f64::to_bits', 'f32::to_bits', 'f64::from_bits', 'f32::from_bits')
def _bits(c): return c.m.opaque_int(c.f['path'].split('::')[-1], c.m.T[c.ret], c.a[0]) if c.m.T[c.ret]['k'] == 'int' else lift(lambda x: leaf(core.ratom(atom('frombits', (_n(x),)))))(c.a[0])
@model('f32::to_le_bytes', 'f64::to_le_bytes')
def _fbytes(c): raise Undecided('float bytes')
for _nm, _f in (('sqrt', 'sqrt'), ('floor', 'floor'), ('ceil', 'ceil'), ('trunc', 'trunc'), ('fabs', 'abs'), ('sin', 'sin'), ('cos', 'cos'), ('exp', 'exp'), ('log10', 'log10'), ('log', 'ln'), ('round', 'round'), ('pow', 'powf'), ('powi', 'powi'), ('minnum', 'min'), ('maxnum', 'max'), ('copysign', 'copysign'), ('fma', 'mul_add')):
    for _b in ('f64', 'f32'):
        MODELS['intrinsics::%s%s' % (_nm, _b)] = MODELS['%s::%s' % (_b, _f)]

# --------------------------------------------------------------------------
# integers
INTS = ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize', 'u128', 'i128')
def ity(t):
    sg = t[0] == 'i'
    b = 64 if t.endswith('size') else int(t[1:])
    return b, sg
def ints(*ns):
    def d(f):
        for n in ns:
            for t in INTS:
                def g(c, t=t, n=n):
                    b, sg = ity(t)
                    return f(c, b, sg, *[c.load(x) if isptr(x) else x for x in c.a])
                MODELS['%s::%s' % (t, n)] = g
        return f
    return d
def lim(b, sg): return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
ints('min_value')(lambda c, b, sg: N(lim(b, sg)[0]))
ints('max_value')(lambda c, b, sg: N(lim(b, sg)[1]))
ints('abs')(lambda c, b, sg, x: vabs(x))
ints('unsigned_abs')(lambda c, b, sg, x: vabs(x))
ints('abs_diff')(lambda c, b, sg, x, y: vabs(sub(x, y)))
ints('signum')(lambda c, b, sg, x: ite(lt(x, N(0)), N(-1), ite(gt(x, N(0)), N(1), N(0))))
ints('min')(lambda c, b, sg, x, y: vmin(x, y))
ints('max')(lambda c, b, sg, x, y: vmax(x, y))
ints('rem_euclid')(lambda c, b, sg, x, y: sub(x, mul(y, floor(div(x, y)))) if True else None)
ints('div_ceil')(lambda c, b, sg, x, y: ceil(div(x, y)))
ints('pow')(lambda c, b, sg, x, y: vpow(x, y))
ints('wrapping_add')(lambda c, b, sg, x, y: c.m.wrapint(add(x, y), b, sg))
ints('wrapping_sub')(lambda c, b, sg, x, y: c.m.wrapint(sub(x, y), b, sg))
ints('wrapping_mul')(lambda c, b, sg, x, y: wrap(mul(x, y), b, sg))
ints('wrapping_neg')(lambda c, b, sg, x: c.m.wrapint(neg(x), b, sg))
ints('wrapping_shl')(lambda c, b, sg, x, y: c.m.wrapint(mul(x, pow2(y)), b, sg))
ints('wrapping_shr')(lambda c, b, sg, x, y: floor(div(x, pow2(y))))
def sat(v, b, sg):
    lo, hi = lim(b, sg)
    r = ite(lt(v, N(lo)), N(lo), v)
    return r if b >= 64 else ite(gt(v, N(hi)), N(hi), r)
ints('saturating_add')(lambda c, b, sg, x, y: sat(add(x, y), b, sg))
ints('saturating_sub')(lambda c, b, sg, x, y: sat(sub(x, y), b, sg))
ints('saturating_mul')(lambda c, b, sg, x, y: sat(mul(x, y), b, sg))
def chk(v, b, sg):
    lo, hi = lim(b, sg)
    okc = ge(v, N(lo))
    if b < 64: okc = b_and(okc, le(v, N(hi)))
    return option(okc, v)
ints('checked_add')(lambda c, b, sg, x, y: chk(add(x, y), b, sg))
ints('checked_sub')(lambda c, b, sg, x, y: chk(sub(x, y), b, sg))
ints('checked_mul')(lambda c, b, sg, x, y: chk(mul(x, y), b, sg))
ints('checked_div')(lambda c, b, sg, x, y: option(b_not(eq(y, N(0))), idiv(x, y, sg)))
ints('checked_rem')(lambda c, b, sg, x, y: option(b_not(eq(y, N(0))), irem(x, y, sg)))
ints('is_power_of_two', 'count_ones', 'leading_zeros', 'trailing_zeros', 'rotate_left', 'rotate_right', 'swap_bytes', 'to_string', 'reverse_bits')(lambda c, b, sg, *a: _und('integer bits'))
def _und(m): raise Undecided(m)
def _tobytes(c, b, sg, x, rev=False):
    u = ite(lt(x, N(0)), add(x, N(1 << b)), x) if sg else x
    bs = []
    for i in range(b // 8):
        q = floor(div(u, N(1 << (8 * i))))
        bs.append(sub(q, mul(N(256), floor(div(u, N(1 << (8 * i + 8)))))) if i + 1 < b // 8 else q)
    return seq_lit(bs[::-1] if rev else bs)
ints('to_le_bytes', 'to_ne_bytes')(lambda c, b, sg, x: _tobytes(c, b, sg, x))
ints('to_be_bytes')(lambda c, b, sg, x: _tobytes(c, b, sg, x, True))
def _frombytes(c, b, sg, s, rev=False):
    n = b // 8
    u = N(0)
    for i in range(n): u = add(u, mul(N(1 << (8 * i)), seq_at(s, N(n - 1 - i if rev else i))))
    if not sg: return u
    top = seq_at(s, N(0 if rev else n - 1))
    return ite(ge(top, N(128)), sub(u, N(1 << b)), u)
ints('from_le_bytes', 'from_ne_bytes')(lambda c, b, sg, s: _frombytes(c, b, sg, s))
ints('from_be_bytes')(lambda c, b, sg, s: _frombytes(c, b, sg, s, True))
ints('to_le', 'from_le')(lambda c, b, sg, x: x)

@model('intrinsics::cold_path', 'mem::drop', 'mem::forget', 'hint::black_box', 'intrinsics::likely', 'intrinsics::unlikely', 'intrinsics::assume')
def _noop(c):
    n = c.f['path'].split('::')[-1]
    if n in ('black_box', 'likely', 'unlikely'): return c.a[0]
    return UNIT
@model('Drop::drop')
def _drop(c): return UNIT
@model('convert::identity')
def _idn(c): return c.a[0]
