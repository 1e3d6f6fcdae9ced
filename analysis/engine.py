"""Obligations over extracted transfer functions.

Every check states obligations: identities between normal forms of transfer
functions extracted from the source (or between one and the specified form).
An obligation is *discharged* when both sides reduce to the same normal form on
every path.  One that is not is never reported by itself: the two forms are
first told apart at a point reachable through the public interface (a
*witness*); without one the obligation is counted as open.
"""
import sys, os, json, time, random, hashlib, signal, contextlib
from fractions import Fraction as Fr
import core
from core import *
import evaluate
from evaluate import Eval, Skip, NoEval, S, V, Graph, Map, show, key
from interp import Dump, State
from roots import run_root, Result
sys.setrecursionlimit(200000)

# arithmetic on values
for _c in (Leaf, Node):
    _c.__add__ = lambda a, b: add(a, lf(b)); _c.__radd__ = lambda a, b: add(lf(b), a)
    _c.__sub__ = lambda a, b: sub(a, lf(b)); _c.__rsub__ = lambda a, b: sub(lf(b), a)
    _c.__mul__ = lambda a, b: mul(a, lf(b)); _c.__rmul__ = lambda a, b: mul(lf(b), a)
    _c.__truediv__ = lambda a, b: div(a, lf(b)); _c.__rtruediv__ = lambda a, b: div(lf(b), a)
    _c.__neg__ = lambda a: neg(a)
def lf(x):
    if isinstance(x, (int, Fr)) and not isinstance(x, bool): return N(x)
    if x is True: return TRUE
    if x is False: return FALSE
    return x
def ALL(*cs):
    r = TRUE
    for c in cs: r = b_and(r, c)
    return r

class Panic:
    def __init__(self, ob): self.ob = ob; self.msg = '%s: %s in %s' % (ob.kind, ob.msg, short(ob.fn))
    def __repr__(self): return 'panic(%s)' % self.msg
def short(fn): return fn.replace('bae_rs::', '')

class Out:
    __slots__ = ('value', 'post', 'panic')
    def __init__(self, value, post, panic=None): self.value, self.post, self.panic = value, post, panic

class Missing(Exception): pass

class Code:
    """the analysed program: transfer functions by entry point"""
    def __init__(self, path):
        self.dump = Dump(path)
        self.cache = {}
        self.used = {}
        self.names = {k.split('::')[-1]: k for k in self.dump.roots}
        self.T = self.dump.types if hasattr(self.dump, 'types') else self.dump.T
        self.evals = 0
        self.inps = {}
    def has(self, name): return name in self.names
    def tf(self, name, mode='real', given=None, pc=TRUE):
        k = (name, mode, tuple(sorted((i, id(v)) for i, v in (given or {}).items())), id(pc))
        r = self.cache.get(k)
        if r is None:
            if name not in self.names: raise Missing(name)
            try: r = run_root(self.dump, name, mode, given, pc)
            except Undecided as e: r = e
            except RecursionError as e: r = Undecided('recursion')
            except (AttributeError, TypeError, KeyError, IndexError, AssertionError, ValueError, NotImplementedError) as e:
                r = Undecided('internal: %s %s' % (type(e).__name__, e))
            self.cache[k] = (r, given, pc)   # keep the keys alive
        else: r = r[0]
        if isinstance(r, Exception): raise r
        self.used.setdefault(name, r)
        return r
    def anchor(self, name):
        """source function behind an entry point"""
        r = self.used.get(name)
        inst = self.dump.insts[self.dump.root(name)]
        return inst
    def ret(self, name, *args, pc=TRUE, mode='real'):
        return restrict(self.tf(name, mode, dict(enumerate(args)), pc).value, pc)
    def post(self, name, *args, pc=TRUE, i=0, mode='real'):
        return restrict(self.tf(name, mode, dict(enumerate(args)), pc).post[i], pc)
    def sym(self, ty, name):
        """an arbitrary value of an argument type"""
        from interp import Machine
        m = Machine(self.dump, 'real')
        return m.sym('var', (name, m.T[ty]['s']), ty, State(TRUE, {}))
    def inputs(self, name, mode='real'):
        """the arguments of an entry point, as `tf` starts from, and their types (the body need not be followed)"""
        r = self.inps.get((name, mode))
        if r is None:
            if name not in self.names: raise Missing(name)
            from interp import Machine
            from roots import inputs
            m = Machine(self.dump, mode)
            _, cells = inputs(m, self.dump.insts[self.dump.root(name)], State(TRUE, {}))
            r = self.inps[(name, mode)] = [x[3] for x in cells], [x[1] for x in cells]
        return r
    def args(self, name, mode='real'): return self.inputs(name, mode)[0]
    def argtys(self, name): return self.inputs(name)[1]
    def safe(self, name, *args, pc=TRUE, mode='real'):
        """conditions under which the call panics, restricted"""
        r = self.tf(name, mode, dict(enumerate(args)), pc)
        import linear
        return [o for o in r.oblig if o.cond is not FALSE and not linear.never(o.cond, pc)]
    # ---- concrete
    def conv(self, v, ty):
        T = self.dump.types[ty]
        if T['k'] == 'adt' and T['path'] == 'core::time::Duration': return Fr(v) * 10 ** 9
        if isinstance(v, int) and not isinstance(v, bool): return Fr(v)
        return v
    def call(self, name, *args, mode='real', hooks=None, pan=True, budget=400000):
        r = self.tf(name, mode)
        env = {'a%d' % i: self.conv(a, r.tys[i]) for i, a in enumerate(args)}
        ev = Eval(env, hooks, budget)
        self.evals += 1
        if pan:
            for o in r.oblig:
                if o.cond is FALSE: continue
                p = self.obl_true(ev, o.cond)
                if p: return Out(None, None, Panic(o))
        v = ev.val(r.value)
        return Out(v, [None if p is None or r.args[i] is p and isinstance(args[i], tuple) else ev.val(p) for i, p in enumerate(r.post)])
    def functions(self, names):
        """instances of the crate reached from entry points through the resolved
        calls, breadth first; and how many blocks and call sites they have"""
        d = self.dump
        todo = [d.roots[self.names[n]] for n in names if n in self.names]
        seen = []; got = set(todo); nb = nc = 0
        def walk(x):
            if isinstance(x, dict):
                i = x.get('inst')
                if isinstance(i, int) and i not in got: got.add(i); todo.append(i)
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        while todo:
            i = todo.pop(0)
            f = d.insts[i]
            if f['crate'] not in ('bae_rs', 'probe'): continue
            if f['crate'] == 'bae_rs':
                seen.append(f)
                nb += sum(not b['cleanup'] for b in f['blocks'])
                nc += sum(b['t'].get('k') == 'call' for b in f['blocks'] if not b['cleanup'])
            walk(f['blocks'])
        return seen, nb, nc
    def constants(self):
        """numbers the functions of the crate reached from the entry points in
        use mention"""
        d = self.dump
        todo = [d.roots[self.names[n]] for n in self.used if n in self.names]
        seen = set(); out = set()
        def num_(x):
            t = d.types[x['ty']] if isinstance(x.get('ty'), int) else {}
            v = x.get('v')
            b = v.get('b') if isinstance(v, dict) else None
            if b is None: return
            b = int(b)
            if t.get('k') == 'float':
                import struct
                f = struct.unpack('<d' if t['bits'] == 64 else '<f', struct.pack('<Q' if t['bits'] == 64 else '<I', b))[0]
                if f == f and abs(f) < 1e38: out.add(Fr(repr(f)) if abs(f) > 1e-12 else Fr(f))
            elif t.get('k') == 'int':
                if t.get('signed') and b >= 1 << (t['bits'] - 1): b -= 1 << t['bits']
                out.add(Fr(b))
        def walk(x):
            if isinstance(x, dict):
                if x.get('k') == 'const': num_(x)
                if x.get('k') == 'switch':
                    for c in x.get('cases', ()):
                        try: out.add(Fr(int(c[0])))
                        except (TypeError, ValueError): pass
                i = x.get('inst')
                if isinstance(i, int) and i not in seen: todo.append(i)
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i)
            f = d.insts[i]
            if f['crate'] in ('bae_rs', 'probe'): walk(f['blocks'])
        return {x for x in out if abs(x) < 10 ** 38}
    def obl_true(self, ev, c):
        free = [i for i in c.fv if self.isfree(i, ev)]
        if not free:
            try: return ev.val(c)
            except Skip as e:
                if str(e) in ('threshold', 'budget', 'nan'): raise
                return False
        if len(free) > 1: return False
        at = core._atom_by_id[free[0]]
        for i in range(40):
            ev.bind(at, Fr(i))
            try:
                if ev.val(c): return True
            except Skip: pass
            finally: ev.b.pop(at.id, None)
        return False
    def isfree(self, i, ev):
        at = core._atom_by_id[i]
        return at.kind == 'var' and i not in ev.env and at.args[0] not in ev.env and not at.args[0].startswith(('bv', 'acc'))

# ---- values of a named layout ------------------------------------------------
class NoLayout(Exception): pass
def field_map(code, v):
    """{field name: value} of a struct value"""
    for T in code.dump.types:
        if T and T['k'] == 'adt' and T['s'] == v.tag and T.get('variants'):
            return {f[0]: x for f, x in zip(T['variants'][0]['f'], v.f)}
    raise NoLayout(str(v.tag))
def type_of(code, tag):
    for i, T in enumerate(code.dump.types):
        if T and T['k'] == 'adt' and T['s'] == tag: return i, T
    raise NoLayout(tag)
def build(code, tag, fields):
    i, T = type_of(code, tag)
    names = [f[0] for f in T['variants'][0]['f']]
    if set(names) != set(fields): raise NoLayout('%s has fields %s' % (tag, names))
    return struct(tag, [lf(fields[n]) for n in names])

def same(a, b, pc=TRUE):
    a, b = restrict(a, pc), restrict(b, pc)
    if a is b: return True
    return samev(a, b)
def samev(a, b):
    if a is b: return True
    if isinstance(a, Struct) and isinstance(b, Struct): return a.tag == b.tag and len(a.f) == len(b.f) and all(samev(x, y) for x, y in zip(a.f, b.f))
    return False

# ---- comparisons of concrete values ------------------------------------------
REL, ABS = Fr(1, 10 ** 6), Fr(1, 10 ** 9)
def close(a, b, rel=REL, ab=ABS):
    if isinstance(a, bool) or isinstance(b, bool): return a == b
    if isinstance(a, (int, Fr)) and isinstance(b, (int, Fr)): return abs(a - b) <= ab + rel * max(abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(close(x, y, rel, ab) for x, y in zip(a, b))
    if isinstance(a, S) and isinstance(b, S): return len(a.f) == len(b.f) and all(close(x, y, rel, ab) for x, y in zip(a.f, b.f))
    if isinstance(a, V) and isinstance(b, V): return a.idx == b.idx and len(a.f) == len(b.f) and all(close(x, y, rel, ab) for x, y in zip(a.f, b.f))
    if isinstance(a, Graph) and isinstance(b, Graph): return a.key() == b.key()
    if isinstance(a, Map) and isinstance(b, Map): return a.items == b.items
    if isinstance(a, tuple) and isinstance(b, tuple): return key(a) == key(b)
    return key(a) == key(b)

class Witness(Exception):
    """a point at which code and property part"""
    def __init__(self, text, anchor=None): super().__init__(text); self.text = text; self.anchor = anchor

PLAIN = {Fr(x) for x in (0, 1, 2, 3, 4, 8, -1, 32)}
class Rng(random.Random):
    """a source of sample points that also draws, now and then, the constants
    the analysed functions themselves mention and close neighbours of earlier
    values: the places where a comparison in the code changes its outcome"""
    code = None; n = -1; last = None
    def dictionary(self):
        c = self.code
        if c is None: return ()
        if len(c.used) != self.n:
            self.n = len(c.used)
            self.vals = c.constants()
            self.ints = sorted({int(x) for x in self.vals if x.denominator == 1 and abs(x) < 1 << 40} - {int(x) for x in PLAIN})
            self.small = sorted({int(x) for x in self.vals if x.denominator == 1 and 0 <= x <= 256})
            self.huge = sorted(abs(x) for x in self.vals if 1 << 40 <= abs(x) < 10 ** 38 and abs(x) not in (1 << 63, (1 << 63) - 1, 1 << 64, (1 << 64) - 1))
            self.reals = sorted(x for x in self.vals if x not in PLAIN and abs(x) < 1 << 40)
        return self.reals
    def randrange(self, a, b=None, step=1):
        lo, hi = (0, a) if b is None else (a, b)
        r = super().randrange(a, b, step) if b is not None else super().randrange(a)
        if step == 1 and hi - lo > 4 and self.dictionary() and self.ints and self.random() < .06:
            x = super().choice(self.ints) + super().choice([0, 0, 0, 1, -1])
            if lo <= x < hi: return x
        return r
    def near(self, lo=None, hi=None, scales=(1,), p=.08):
        """None, or a value in [lo,hi] next to a constant of the code or to an
        earlier value"""
        r = self.random(); v = None
        if r < p and self.dictionary():
            c = self.choice(self.reals)
            v = c * self.choice(scales) * self.choice([1, 1, 1, -1])
            if self.random() < .3: v *= self.choice([Fr(1, 2), 2, Fr(1, 16), Fr(999, 1000), Fr(1001, 1000)])
            else: v += self.choice([0, 0, Fr(1, 1000), -Fr(1, 1000), Fr(1, 8), -Fr(1, 8), 1, -1])
        elif r < p + .04 and self.last is not None:
            e = self.choice([Fr(1, 10 ** 3), Fr(1, 10 ** 6), Fr(1, 10 ** 10)])
            v = self.last + self.choice([1, -1]) * e * self.choice([1, max(abs(self.last), 1)])
        if v is None: return None
        v = Fr(v).limit_denominator(10 ** 12)
        if lo is not None and v < lo or hi is not None and v > hi: return None
        return v
    def keep(self, v):
        self.last = Fr(v); return v

def _alarm(*a): raise Undecided('time limit')
class Prop:
    """the obligations of one property"""
    def __init__(self, pid, code, tier='quick', seed=1, budget=600):
        self.t0, self.budget = time.time(), budget
        self.bad = []
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, budget, 2)
        self.pid, self.code, self.tier = pid, code, tier
        self.rng = Rng('%s/%s' % (pid, seed)); self.rng.code = code
        self.obs = []           # dicts
        self.refuters = []
        self.known = []
        self.points = 0
        self.skipped = 0
        self.samples = []
    def deep(self, q, t):
        """how many points: thorough, a self-test of discharged obligations (FORCE), or telling apart what is open"""
        return t if self.tier == 'thorough' else q if os.environ.get('FORCE') else min(3 * q, max(q, t))
    def ob(self, name, anchor, fn, refute=None, group=None):
        """fn() -> True when discharged; refute(): raises Witness"""
        o = {'name': name, 'anchor': anchor, 'group': group}
        try:
            with self.limit(0.2, 0.55): r = fn()
            o['status'] = 'discharged' if r is True else 'open'
            if r is not True and r: o['why'] = str(r)[:400]
        except Undecided as e: o['status'] = 'undecided'; o['why'] = str(e)[:300]
        except NoLayout as e: o['status'] = 'open'; o['why'] = 'layout: %s' % e
        except (NoEval, Skip) as e: o['status'] = 'open'; o['why'] = 'eval: %s' % e
        except (AttributeError, TypeError, KeyError, IndexError, AssertionError, ValueError) as e:
            o['status'] = 'undecided'; o['why'] = 'internal: %s %s' % (type(e).__name__, e)
            if os.environ.get('DEBUG'): raise
        o['refute'] = refute
        self.obs.append(o)
        return o['status'] == 'discharged'
    @contextlib.contextmanager
    def limit(self, share, until):
        """at most this share of the time, and not beyond that point of it"""
        left = min(share * self.budget, self.t0 + until * self.budget - time.time())
        if left <= 0: raise Undecided('time limit')
        signal.setitimer(signal.ITIMER_REAL, left, 2)
        try: yield
        finally: signal.setitimer(signal.ITIMER_REAL, max(0.1, self.t0 + self.budget - time.time()), 2)
    def refuter(self, fn, group=None): self.refuters.append((group, fn))
    def run_refuter(self, fn):
        try:
            with self.limit(0.5, 1): fn()
        except Witness as w: return w
        except (Undecided, NoEval, Skip, NoLayout) as e: self.notes.append('refuter %s: %s' % (getattr(fn, '__name__', '?'), str(e)[:200]))
        except (AttributeError, TypeError, KeyError, IndexError, AssertionError, ValueError, ArithmeticError, NameError, RecursionError, MemoryError) as e:
            if os.environ.get('DEBUG'): raise
            self.notes.append('refuter internal: %s %s' % (type(e).__name__, e))
        return None
    def decide(self):
        """list of (obligation name or group, Witness)"""
        self.notes = []
        bad = self.bad
        ran = {}
        groups_open = {o['group'] for o in self.obs if o['status'] != 'discharged'}
        force = self.tier == 'thorough' or bool(os.environ.get('FORCE'))
        for o in self.obs:
            if o['refute'] and (o['status'] != 'discharged' or force):
                w = ran[o['refute']] if o['refute'] in ran else self.run_refuter(o['refute'])
                ran[o['refute']] = w
                if w: bad.append((o['name'], o['anchor'], w)); o['status'] = 'violated'
        for g, fn in self.refuters:
            if g in groups_open or force or g == 'always':
                w = self.run_refuter(fn)
                if w:
                    os_ = [o for o in self.obs if o['group'] == g and o['status'] != 'discharged'] or [o for o in self.obs if o['group'] == g]
                    bad.append((os_[0]['name'] if os_ else g, w.anchor or (os_[0]['anchor'] if os_ else g), w))
                    for o in os_:
                        if o['status'] != 'discharged': o['status'] = 'violated'
        return bad
    def point(self, n, gen, body):
        """body(*gen()) raises Witness; Skip discards the point"""
        done = 0; tries = 0
        while done < n and tries < 4 * n + 20:
            tries += 1
            try:
                a = gen()
                body(*a)
                done += 1; self.points += 1
            except NoEval as e:
                self.skipped += 1
                if tries > 40 and done == 0: raise
            except Skip:
                self.skipped += 1
        return done
