"""Shared pieces of the property modules."""
from engine import *
import core, evaluate

def F(x): return Fr(x)
import linear
from linear import always, never
def agree(a, b, pc=TRUE, depth=3):
    """equal on every joint path of the two diagrams"""
    if a is b: return True
    if isinstance(a, Struct):
        return isinstance(b, Struct) and len(a.f) == len(b.f) and all(agree(x, y, pc, depth) for x, y in zip(a.f, b.f))
    if isinstance(b, Struct): return False
    la, lb = literal_seq(a), literal_seq(b)
    if la is not None and lb is not None: return len(la) == len(lb) and all(agree(x, y, pc, depth) for x, y in zip(la, lb))
    try: d = restrict(ite_diff(a, b), pc)
    except Undecided: return False
    if d is FALSE or never(d, pc): return True
    if not depth: return False
    # where a branch boundary pins a variable to a constant, split there
    for at, c in pinned(d):
        v = num(at)
        hi, lo = b_and(pc, gt(v, N(c))), b_and(pc, lt(v, N(c)))
        m = {at.id: N(c)}
        if all(q is FALSE or agree(restrict(a, q), restrict(b, q), q, depth - 1) for q in (hi, lo)) and agree(subst(a, m), subst(b, m), subst(pc, m), depth - 1): return True
        return False
    return False
def pinned(d):
    seen = {}
    for c in conds_of(d):
        if c.kind == 'b' or not isinstance(c.q, Poly): continue
        ts = [(m, k) for m, k in c.q.t.items() if m != core.ONE_M]
        if len(ts) == 1 and len(ts[0][0]) == 1 and ts[0][0][0][1] == 1:
            at = core._atom_by_id[ts[0][0][0][0]]
            if at.kind != 'var' or at.sort == 'int': continue
            v = Fr(c.t) / ts[0][1]
            seen.setdefault((at, v), set()).add(c.kind)
    return [k for k, s in seen.items() if len(s) > 1] + [k for k, s in seen.items() if len(s) == 1]
def ite_diff(a, b):
    """where two values are not the same normal form"""
    def f(x, y):
        if x is y: return FALSE
        if isinstance(x, Rat) and isinstance(y, Rat):
            d = r_sub(x, y)
            if d.n.is_zero(): return FALSE
            ax, ay = x.single(), y.single()
            if (ax is not None and ax.sort == 'obj') or (ay is not None and ay.sort == 'obj'): return TRUE
            try: return b_not(core._eq(x, y))
            except Undecided: return TRUE
        if isinstance(x, SeqV) and isinstance(y, SeqV):
            if all(q[0] == 'lit' for q in x.p + y.p) and len(x.p) == len(y.p) and not any(isinstance(q[1], Struct) for q in x.p + y.p):
                r = FALSE
                for p, q in zip(x.p, y.p): r = b_or(r, ite_diff(p[1], q[1]))
                return r
            cx, cy = rep_of(x), rep_of(y)
            if cx is None or cy is None: return TRUE
            if cx[0] is not None and cy[0] is not None and cx[0] is not cy[0]: return TRUE
            return ite_diff(cx[1], cy[1])
        if isinstance(x, core.Variant) and isinstance(y, core.Variant) and x.idx == y.idx:
            r = FALSE
            for p, q in zip(x.f, y.f):
                if isinstance(p, Struct) or isinstance(q, Struct): r = b_or(r, FALSE if p is q else TRUE)
                else: r = b_or(r, ite_diff(p, q))
            return r
        return TRUE
    return lift(f)(a, b)
def rep_of(s):
    """(element, length) of a sequence of one repeated element"""
    e, n = None, N(0)
    for q in s.p:
        if q[0] == 'lit': x, m = q[1], N(1)
        else:
            if core.bv(q[2].d).id in q[2].body.fv: return None
            x, m = q[2].body, leaf(q[1])
        if e is not None and e is not x: return None
        e = x; n = n + m
    return e, n
def rv(name, lo=None, hi=None): return num(var(name, 'real', lo, hi))
def iv(name, lo=0, hi=None): return num(var(name, 'int', lo, hi))
def seqvar(name, n, ety_val):
    """a sequence of n elements, ety_val(index Rat value) -> element"""
    base = var(name, 'obj')
    i = fresh('e', 'int', 0)
    return seq_comp_v(n, i, ety_val(base, ratom(i)))
def f32seq(name, n):
    return seqvar(name, n, lambda b, i: num(atom('at', (b, i), 'real')))

# ---- settings and history, told apart by what processing writes ------------------
def written(code, proc, state_ty=0):
    """indices of the state fields a processing call may change"""
    r = code.tf(proc)
    a, b = r.args[0], r.post[0]
    if not isinstance(a, Struct): return []
    return flat_diff(a, b)
def flat_diff(a, b, path=()):
    if a is b: return []
    if isinstance(a, Struct) and isinstance(b, Struct) and a.tag == b.tag:
        out = []
        for i, (x, y) in enumerate(zip(a.f, b.f)): out += flat_diff(x, y, path + (i,))
        return out
    return [path]
def getp(v, path):
    for i in path: v = v.f[i]
    return v
def setp(v, path, x):
    if not path: return x
    fs = list(v.f); fs[path[0]] = setp(fs[path[0]], path[1:], x)
    return struct(v.tag, fs)
_hv = [0]
def havoc(code, v, paths, entry, prefix='h'):
    """v with the fields at paths replaced by arbitrary values of the same shape"""
    arg = code.tf(entry).args[0]
    for p in paths:
        x = getp(arg, p)
        old = getp(v, p)
        v = setp(v, p, havoc_like(x, old, '%s_%s' % (prefix, '_'.join(map(str, p)))))
    return v
def havoc_like(x, old, name):
    """rename the argument's leaf x to a fresh name; sequences keep the length of old"""
    if isinstance(x, Struct):
        fs = old.f if isinstance(old, Struct) else [None] * len(x.f)
        return struct(x.tag, [havoc_like(y, o, '%s.%d' % (name, i)) for i, (y, o) in enumerate(zip(x.f, fs))])
    if isinstance(x, Leaf) and isinstance(x.v, Rat):
        a = x.v.single()
        if a is not None: return num(var(name, a.sort, a.lo, a.hi))
    if isinstance(x, (Leaf, Node)):
        n = None
        if old is not None:
            try: n = core.seq_len(old)
            except Exception: n = None
        lits = literal_seq(x)
        if lits is not None and (old is None or literal_seq(old) is None or len(literal_seq(old)) == len(lits)):
            return seq_lit([havoc_like(e, None, '%s.%d' % (name, i)) for i, e in enumerate(lits)])
        if n is not None:
            # element type from the argument
            for p in walk_seq(x):
                if p[0] == 'comp':
                    i = fresh('e', 'int', 0)
                    el = core.lam_app(p[2], num(i))
                    b = var(name, 'obj')
                    return seq_comp_v(n, i, rename_el(el, b, ratom(i)))
        c = [c for c in conds_of(x)]
        if all(k.kind == 'b' for k in c) and c: return b_atom(var(name, 'bool'))
        # enumeration: discriminant tests on one object
        vs = sorted({l.v.idx for l in leaves_of(x) if isinstance(l.v, Variant)})
        if vs and all(not l.v.f for l in leaves_of(x) if isinstance(l.v, Variant)):
            d = num(var(name, 'int', 0, vs[-1]))
            r = variant(vs[0])
            for i in vs[1:]: r = ite(ge(d, N(i)), variant(i), r)
            return r
    raise NoLayout('cannot generalise %s' % name)
def literal_seq(v):
    if isinstance(v, Leaf) and isinstance(v.v, SeqV) and v.v.p and all(q[0] == 'lit' for q in v.v.p): return [q[1] for q in v.v.p]
    return None
def rename_el(el, b, i):
    if isinstance(el, Struct): return struct(el.tag, [num(atom('proj', (atom('at', (b, i), 'obj'), str(k), k), 'real')) for k, _ in enumerate(el.f)])
    return num(atom('at', (b, i), 'real'))
def walk_seq(x):
    for l in leaves_of(x):
        if isinstance(l.v, SeqV): yield from l.v.p
def conds_of(v, seen=None):
    seen = set() if seen is None else seen
    if v.id in seen: return
    seen.add(v.id)
    if isinstance(v, Struct):
        for x in v.f: yield from conds_of(x, seen)
    elif isinstance(v, Node):
        yield v.c
        yield from conds_of(v.hi, seen); yield from conds_of(v.lo, seen)

# ---- concrete helpers --------------------------------------------------------
class Obj:
    """a value driven through the extracted transfer functions"""
    def __init__(self, code, ctor, *args, mode='real', hooks=None):
        self.code, self.mode, self.hooks = code, mode, hooks
        self.hist = []
        if ctor is None: return
        self.hist.append('%s(%s)' % (ctor, ', '.join(map(show, args))))
        o = code.call(ctor, *args, mode=mode, hooks=hooks)
        if o.panic: raise Witness('%s fails: %s' % (self.hist[-1], o.panic.msg))
        self.s = o.value
    def copy(self):
        x = Obj(self.code, None, mode=self.mode, hooks=self.hooks)
        x.s, x.hist = self.s, list(self.hist)
        return x
    def do(self, op, *args):
        o = self.code.call(op, self.s, *args, mode=self.mode, hooks=self.hooks)
        t = '%s(%s)' % (op, ', '.join(map(show, args)))
        if self.hist and self.hist[-1].split(' x')[0] == t:
            n = int(self.hist[-1].split(' x')[1]) if ' x' in self.hist[-1] else 1
            self.hist[-1] = '%s x%d' % (t, n + 1)
        else: self.hist.append(t)
        if o.panic: raise Witness('%s fails: %s' % (self.log(), o.panic.msg))
        if o.post and o.post[0] is not None: self.s = o.post[0]
        return o.value
    def spawn(self, op, *args):
        """a new object returned by op(self)"""
        o = self.code.call(op, self.s, *args, mode=self.mode, hooks=self.hooks)
        if o.panic: raise Witness('%s; %s fails: %s' % (self.log(), op, o.panic.msg))
        x = Obj(self.code, None, mode=self.mode, hooks=self.hooks)
        x.s, x.hist = o.value, self.hist + [op]
        if o.post and o.post[0] is not None: self.s = o.post[0]
        return x
    def log(self):
        h = self.hist
        return '; '.join(h if len(h) < 14 else h[:6] + ['...'] + h[-7:])

def expect(a, b, what, rel=REL, ab=ABS, anchor=None):
    if not close(a, b, rel, ab): raise Witness('%s: got %s, expected %s' % (what, show(a), show(b)), anchor)

def near(rng, lo=None, hi=None, scales=(1,), p=.08):
    return rng.near(lo, hi, scales, p) if hasattr(rng, 'near') else None
def keep(rng, v):
    if hasattr(rng, 'keep'): rng.keep(v)
    return v
def rfreq(rng):
    v = near(rng, 0, 24000, (1, 1, 24000, 12000, 10, 48000))
    if v is not None: return keep(rng, v)
    k = rng.randrange(8)
    if k == 0: v = F(rng.choice([0, 1, 10, 100, 440, 1000, 4800, 6000, 8000, 12000, 16000, 20000, 23999, 24000]))
    elif k == 1: v = F(rng.randrange(1, 24000))
    elif k == 2: v = Fr(rng.randrange(1, 240000), 10)
    elif k == 3: v = Fr(rng.randrange(1, 24000 * 97), 97)
    elif k == 4: v = F(24000) / rng.randrange(1, 30)
    elif k == 5: v = Fr(rng.randrange(20000 * 8, 24000 * 8 + 1), 8)
    elif k == 6: v = Fr(rng.randrange(1, 1000), 1000)
    else: v = F(48000) / rng.randrange(2, 40)
    return keep(rng, v)
def rx(rng):
    v = near(rng, -4, 4)
    if v is not None: return v
    k = rng.randrange(6)
    if k == 0: return F(rng.choice([0, 1, -1]))
    if k == 1: return Fr(rng.randrange(-4, 5), 4)
    if k == 2: return Fr(rng.randrange(-1000, 1001), 512)
    return Fr(rng.randrange(-1000, 1001), 1024)
def rscale(rng):
    """the size of a signal: full scale as a rule, else quiet, now and then like a small constant of the code"""
    if rng.random() < .75: return F(1)
    c = [abs(x) for x in rng.dictionary() if 0 < abs(x) < Fr(1, 100)] if hasattr(rng, 'dictionary') else []
    if c and rng.random() < .6: return rng.choice(c) * rng.choice([Fr(1, 8), Fr(1, 2), F(1), F(4), F(20)])
    return Fr(1, 1 << rng.randrange(6, 60))
def fv(rng, alt, lo=None, hi=None):
    """alt(), or a value at which branches are likely to meet"""
    v = near(rng, lo, hi)
    if v is not None: return v
    if rng.random() < .2:
        v = rng.choice([F(0), F(0), F(1), F(-1), Fr(1, 2), Fr(-1, 2), F(2), F(-2), rng.last])
        if v is not None and (lo is None or v >= lo) and (hi is None or v <= hi): return v
    return keep(rng, alt())
def symlens(v):
    """the lengths of the sequences in a symbolic value"""
    if isinstance(v, Struct):
        for x in v.f: yield from symlens(x)
        return
    try: yield core.seq_len(v)
    except (Undecided, AttributeError, TypeError, NoLayout): pass
def far_lengths(p, root, value, arg, what, most=48000 * 3600 * 24 * 365):
    """the length of a queue as a function of the duration, far beyond what can be driven: it goes on as it begins"""
    ls = list(symlens(value))
    def at(l, n):
        v = evaluate.Eval({arg: F(-(-n * 10 ** 9 // 48000))}).val(l)
        return int(v)
    ns = {2 ** k + e for k in (16, 20, 24, 31, 32, 33) for e in (0, 1)} | {most}
    for c in p.rng.dictionary():
        for k in (1, 48, 48000):
            for e in (-1, 0, 1, 7):
                if 200 < c * k + e <= most: ns.add(int(c * k) + e)
    for l in ls:
        try: off = {at(l, n) - n for n in (100, 137, 1000, 4097)}
        except (NoEval, Skip, KeyError, Undecided): continue
        if len(off) != 1: continue
        for n in sorted(ns):
            p.points += 1
            try: m = at(l, n)
            except (NoEval, Skip, Undecided): continue
            if m - n not in off: raise Witness('%s of %d samples: it holds %d, where one of 100 samples holds %d' % (what, n, m, 100 + min(off)), root)
def long_sizes(p, root, most=20000):
    """sizes around the constants the code mentions"""
    try: p.code.tf(root)
    except Undecided: pass
    p.rng.dictionary()
    out = {x + e for x in getattr(p.rng, 'ints', ()) if 8 < x <= most for e in (-1, 0, 1)}
    return sorted(out)[:18]
def csize(rng, small, most=6000):
    """a size: small as a rule, now and then one around a constant of the code"""
    if rng.random() < .06 and rng.dictionary():
        c = [x for x in rng.ints if 4 < x <= most]
        if c: return max(0, rng.choice(c) + rng.choice([-1, 0, 1]))
    return small() if callable(small) else small
def parts(rng, n, most=40):
    """a number of parts: below n as a rule; now and then larger, or around a
    constant of the code"""
    if rng.random() < .2:
        c = [x + e for x in getattr(rng, 'small', ()) if rng.dictionary() is not None for e in (0, 1, 2) if x + e <= most]
        if c and rng.random() < .7: return max(1, rng.choice(c))
        return rng.randrange(n, max(n + 1, min(most, n + 8)))
    return rng.randrange(1, n)
def rdur(rng, maxsamples=40):
    v = near(rng, 0, Fr(maxsamples + 60, 48000), (1, Fr(1, 48000), Fr(1, 1000)))
    if v is not None: return Fr(int(v * 10 ** 9), 10 ** 9)
    k = rng.randrange(5)
    n = rng.randrange(0, maxsamples)
    if k == 0: return F(0)
    if k == 1: return Fr(n * 1000000000 // 48000, 10 ** 9)
    if k == 2: return Fr(rng.randrange(0, maxsamples * 20833), 10 ** 9)
    if k == 3: return Fr((2 * n + 1) * 10 ** 9 // 96000 + rng.choice([-1, 0, 1, 2]), 10 ** 9)
    return Fr(rng.randrange(0, maxsamples * 20), 10 ** 6)
def rnd(x):
    """round half away from zero"""
    from math import floor
    return floor(x + Fr(1, 2)) if x >= 0 else -floor(-x + Fr(1, 2))
