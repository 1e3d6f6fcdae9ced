"""Effects: panics while processing (C41), calls outside the object (C40), the
write trace of the table tool (C43)."""
import math
from engine import *
from lib import *
import linear

# ---------------------------------------------------------------- C41
INF, NAN = math.inf, math.nan
# type: constructors, operations on the object (the first is the one that must not fail)
PROC = {
 'sawtooth': (['new'], ['process', 'set']), 'sine': (['new'], ['process', 'set']),
 'square': (['new'], ['process', 'set']), 'triangle': (['new'], ['process', 'set']),
 'zero': (['new'], ['process']), 'noise': (['new'], ['process']),
 'wav': (['from_track'], ['process']), 'resam': (['new'], ['process', 'set_speed']),
 'adsr': (['new'], ['process', 'release']),
 'bandpass': (['new', 'from_corners'], ['process', 'set_cf', 'set_q', 'set_corners']),
 'delay': (['new'], ['process']), 'echo': (['new'], ['process']), 'envelope': (['new'], ['process']), 'gain': (['new'], ['process']),
 'generic': (['new'], ['process']),
 'highpass': (['new'], ['process', 'set_cf', 'set_r']), 'lowpass': (['new'], ['process', 'set_cf', 'set_r']),
 'passthrough': (['new'], ['process']),
}
NOCLONE = ('noise',)
def fails(code, name, given=None, pc=TRUE):
    """panic conditions of a call that are not shown impossible"""
    r = code.tf(name, 'fp', given or {}, pc)
    return [o for o in r.oblig if o.cond is not FALSE and not linear.never(o.cond, pc)]
def bound_ks(v):
    """quantified loop positions in a condition, in a fixed order"""
    return sorted((core._atom_by_id[i] for i in v.fv if core._atom_by_id[i].kind == 'var' and '#' in str(core._atom_by_id[i].args[0])), key=lambda a: a.id)
def never_max(c, pc=TRUE):
    """c cannot hold, using that a maximum is at least each of its members"""
    if linear.never(c, pc): return True
    ks = bound_ks(c)
    ms = [a for a in atoms_deep(c) if a.kind == 'maxf']
    for a in ms: c = b_and(c, ge(num(a), lf_(a.args[0])))
    if linear.never(c, pc): return True
    if not ks or not ms: return False
    for k in ks:
        z = subst(c, {k.id: N(0)})
        f = ge(num(k), N(1))
        for a in ms:
            init, n, lam = a.args
            for off in (0, 1):
                j = num(k) - off
                f = b_and(f, b_or(b_not(b_and(ge(j, N(0)), lt(j, lf_(n)))), ge(num(a), core.lam_app(lam, j))))
        if linear.never(b_and(c, f), pc) and never_max(z, pc): return True
    return False
def lf_(x): return x if isinstance(x, (Leaf, Node)) else leaf(x)
from p_util import atoms_of
def atoms_deep(v):
    return atoms_of(v)
def implied(o, hyp, pc=TRUE):
    """o cannot hold where none of hyp does (for every loop position)"""
    ks = bound_ks(o.cond)
    for h in hyp:
        hs = bound_ks(h.cond)
        if len(hs) != len(ks): continue
        c = subst(h.cond, {a.id: num(b) for a, b in zip(hs, ks)}) if hs else h.cond
        if linear.never(b_and(o.cond, b_not(c)), pc): return True
    return False
def C41(p):
    p.rule = 'every panic condition on every path of the processing entry points, with floating-point operations uninterpreted (so any value, NaN included), is contradictory, or is false for every new object and stays false under every operation'
    code = p.code
    for t, (ctors, ops) in PROC.items():
        pr = '%s_%s' % (t, ops[0])
        def never_fails(t=t, ctors=ctors, ops=ops, pr=pr):
            bad = fails(code, pr)
            if not bad: return True
            s = code.args(pr, 'fp')[0]
            own = lambda o: None
            for c in ctors:
                z = code.tf('%s_%s' % (t, c), 'fp')
                left = [o for o in fails(code, pr, {0: z.value}) if not never_max(o.cond)]
                if left: return 'a new object: %s %s' % (left[0].kind, str(left[0].cond)[:200])
            for op in ops + ([] if t in NOCLONE else ['clone']):
                r = code.tf('%s_%s' % (t, op), 'fp')
                z = r.value if op == 'clone' else r.post[0]
                for o in fails(code, pr, {0: z}):
                    if not implied(o, bad): return 'after %s: %s %s' % (op, o.kind, str(o.cond)[:200])
            return True
        def refute(t=t, ctors=ctors, ops=ops):
            def body():
                x = make(p, t, p.rng.choice(ctors))
                n = p.rng.choice([2, 5, 12, 30])
                for _ in range(n):
                    rest = ops[1:] + ([] if t in NOCLONE else ['clone'])
                    op = ops[0] if not rest or p.rng.random() < .7 else p.rng.choice(rest)
                    if op == 'clone': x = x.spawn(t + '_clone')
                    else: x.do('%s_%s' % (t, op), *extreme(p, '%s_%s' % (t, op), 1))
            p.point(p.deep(250, 1500), lambda: (), body)
        p.ob('%s never fails' % t, pr, never_fails, refute)
def make(p, t, ctor):
    c = '%s_%s' % (t, ctor)
    return Obj(p.code, c, *extreme(p, c, 0), mode='fp')
SPECIAL = [0.0, 1.0, -1.0, INF, -INF, NAN, 1e300, -1e300, 5e-324, -5e-324, 1e-18, -1e-18, 24000.0, 48000.0, 47999.99, 48000.01, 96000.0, -48000.0, 440.0, 1e20, 9.3e18, 1.9e19, 0.5, 2.0]
def xf(rng, bits=64):
    x = rng.choice(SPECIAL) if rng.random() < .75 else rng.uniform(-3, 3) * 10 ** rng.randrange(-3, 6)
    if bits == 32: x = evaluate.rfp(x, 32)
    return x
def extreme(p, name, skip):
    """arguments by type: any float, any length, any duration"""
    r = p.code.tf(name, 'fp')
    out = []
    for ty in r.tys[skip:]: out.append(arg(p, ty))
    return out
def tuple_elems(T): return T['f']
def arg(p, ty):
    T = p.code.dump.types[ty]
    rng = p.rng
    if T['k'] == 'float': return xf(rng, T['bits'])
    if T['k'] == 'int': return F(rng.choice([0, 0, 1, 2, 3, 5, 9, 40, 1 << 40]))
    if T['k'] == 'bool': return rng.random() < .5
    if T['k'] == 'tuple': return S('tuple', [arg(p, e) for e in tuple_elems(T)])
    if T['k'] == 'adt':
        if T['path'] == 'core::time::Duration': return rdur(rng, 30) if rng.random() < .8 else Fr(rng.choice([0, 1, 20832, 20833, 20834]), 10 ** 9)
        if T['path'].endswith(('::Vec', '::VecDeque')):
            E = p.code.dump.types[T['args'][0]]
            if E['k'] == 'tuple': return [S('tuple', [F(rng.choice([0, 0, 1, 2, 3, 7])), xf(rng, 32)]) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
            return [arg(p, T['args'][0]) for _ in range(rng.choice([0, 1, 2, 3, 5, 10]))]
        if T.get('variants') and len(T['variants']) == 1: return S(T['s'], [arg(p, f[1]) for f in T['variants'][0]['f']])
    raise NoEval('argument of type %s' % T['s'])

# ---------------------------------------------------------------- C40
# functions that reach outside the object and its arguments
OUTSIDE = (
 ('the clock', ('std::time::Instant', 'std::time::SystemTime', 'std::sys::time', 'std::sys::pal::unix::time', 'core::arch::x86_64::_rdtsc', 'core::core_arch::x86::rdtsc')),
 ('a random source', ('rand::', 'rand_core::', 'rand_chacha::', 'getrandom::', 'std::sys::random', 'std::random')),
 ('the environment', ('std::env::', 'std::sys::env', 'std::sys::args')),
 ('a file', ('std::fs::', 'std::sys::fs')),
 ('standard input or output', ('std::io::stdio', 'std::sys::stdio')),
 ('the network', ('std::net::', 'std::sys::net')),
 ('a process', ('std::process::', 'std::sys::process')),
 ('thread-local state', ('std::thread::local',)),
 ('a thread', ('std::thread::',)),
 ('another thread through a lock or channel', ('std::sync::poison::', 'std::sync::mutex', 'std::sync::rwlock', 'std::sync::condvar', 'std::sync::barrier', 'std::sync::mpsc', 'std::sync::mpmc', 'std::sync::nonpoison', 'std::sync::reentrant_lock', 'std::sys::sync::mutex', 'std::sys::sync::rwlock', 'std::sys::sync::condvar')),
)
# randomly seeded hashing: which entry a table finds does not depend on the seed, the order of its entries does
RANDOM = 'std::hash::random::RandomState'
HASHED = ('std::collections::hash::map::', 'std::collections::hash::set::', 'hashbrown::map::', 'hashbrown::set::')
ORDER = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'into_iter', 'drain', 'retain', 'extract_if')
# where the walk ends: failing, allocation, formatting into memory, one-time initialisation
ENDS = ('core::panicking', 'std::panicking', 'alloc::alloc::', 'alloc::raw_vec', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'std::sys::sync::once', 'std_detect::', 'std::sys::cmath',
        'hashbrown::raw::Fallibility', RANDOM, 'std::rt::', 'std::backtrace', 'core::fmt::')
ONCE = ('lazy_static::lazy::Lazy', 'lazy_static::inline_lazy::Lazy', 'std::sync::once_lock::OnceLock', 'std::sync::lazy_lock::LazyLock', 'std::sync::once::Once')
STD = ('core', 'alloc', 'std', 'std_detect', 'hashbrown')
def plain(path): return path.lstrip('<').replace('&mut ', '').replace('&', '')
class Calls:
    """the resolved call graph, with the calls made on unknown objects"""
    def __init__(self, path):
        d = json.load(open(path))
        self.n, self.roots = d['nodes'], {k.split('::')[-1]: v for k, v in d['roots'].items()}
        self.local = {x['crate'] for x in self.n} & {'bae_rs'}
    def outside(self, i, e, random_ok, entry=False):
        """what edge target i reaches outside: (what, where) or None"""
        x = self.n[i]
        pth = plain(x['path'])
        for what, ps in OUTSIDE:
            if pth.startswith(ps): return None if random_ok and what == 'a random source' else what
        if x['foreign'] and x['crate'] not in STD: return 'a foreign function'
        return None
    def order(self, x, e):
        """the analysed crate asks for the entries of a randomly seeded table in their order, or for hashes"""
        if x['crate'] not in self.local: return None
        y = self.n[e]
        if plain(y['path']).startswith(RANDOM): return 'a random source'
        if RANDOM in y['name'] or 'std::collections::hash::' in y['name']:
            if plain(y['path']).split('::')[-1] in ORDER and ('hash::' in y['path'] or 'hashbrown' in y['path'] or 'HashMap' in y['name'] or 'HashSet' in y['name']): return 'the random order of a hash table'
        return None
    def ends(self, i, random_ok):
        x = self.n[i]
        pth = plain(x['path'])
        return pth.startswith(ENDS) or random_ok and x['crate'] in ('rand', 'rand_core', 'rand_chacha', 'getrandom')
    def statics(self, x):
        for s in x.get('statics', []):
            if s['crate'] in STD: continue
            if s['tls']: yield s, 'thread-local state'
            elif s['mut']: yield s, 'a mutable global'
            elif not s['freeze'] and not (s['adt'] in ONCE and all(s['inner'])): yield s, 'a mutable global'
    def walk(self, root, random_ok, stop):
        """(functions visited, edges, first effect as (what, path))"""
        seen = {root: None}
        todo = [root]
        edges = 0
        while todo:
            i = todo.pop()
            x = self.n[i]
            for s, what in self.statics(x):
                return len(seen), edges, (what, self.path(seen, i) + [s['path']])
            if x['crate'] in self.local:
                for o in x.get('other', []):
                    if o.startswith(('asm', 'address')): return len(seen), edges, ({'asm': 'machine code', 'address': 'a memory address'}[o.split()[0]], self.path(seen, i) + [o])
            for e, sp in x.get('edges', []):
                edges += 1
                if x['crate'] in STD and RANDOM in self.n[e]['name']: continue     # seeding a table
                w = self.outside(e, sp, random_ok) or self.order(x, e)
                if w: return len(seen), edges, (w, self.path(seen, i) + ['%s at %s' % (self.n[e]['name'], sp)])
                if e in seen or self.ends(e, random_ok) or e in stop: continue
                seen[e] = i
                todo.append(e)
        self.visited |= set(seen)
        return len(seen), edges, None
    visited = set()
    def path(self, seen, i):
        out = []
        while i is not None: out.append(self.n[i]['name']); i = seen[i]
        return out[::-1]
NOISE = ('noise_new', 'noise_process')
def C40(p):
    p.rule = 'no function reachable in the resolved call graph (through every crate whose MIR is at hand, drops, closures and addressed functions included; calls on unknown objects lead to their own entry points) is a clock, random source, environment, file, terminal, network, process, thread or lock function, a foreign function, or touches a mutable or thread-local static'
    p.explanation = 'The call graph is resolved by the compiler from the MIR of /repo and of every dependency and library function whose MIR is at hand; one obligation per entry point. A violation names the path of calls.'
    code = p.code
    g = Calls(code.calls)
    # what a noise generator does is decided at its own entry points
    noise = {i for n in NOISE if n in g.roots for i, _ in g.n[g.roots[n]].get('edges', []) if g.n[i]['crate'] in g.local}
    need = [n for n in code.names]
    tot = [0, 0]
    for r in need:
        if r not in g.roots: raise Missing(r)
        rnd_ok = r in NOISE
        def selfcontained(r=r, rnd_ok=rnd_ok):
            f, e, w = g.walk(g.roots[r], rnd_ok, set() if rnd_ok else noise)
            tot[0] += f; tot[1] += e
            return True if w is None else w[0]
        def path(r=r, rnd_ok=rnd_ok):
            f, e, w = g.walk(g.roots[r], rnd_ok, set() if rnd_ok else noise)
            if w: raise Witness('reaches %s: %s' % (w[0], ' -> '.join(w[1][1:])), w[1][1] if len(w[1]) > 1 else r)
        p.ob('%s is self-contained' % r, r, selfcontained, path)
    p.info = {'entry_points_analysed': need, 'call_graph_functions': len(g.n), 'functions_visited': len(g.visited), 'edges_followed': tot[1]}
