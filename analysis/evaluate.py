"""Value of a normal form at one point.

Used to tell two normal forms apart: where a code form and a specified form are
not the same object, the point at which they take different values is the
witness without which no difference is reported.  Rational arithmetic is exact;
transcendental functions are correctly rounded far beyond the comparison
tolerance; a point too close to a branch threshold is discarded.
"""
import math, hashlib, struct as _st
from fractions import Fraction as Fr
import mpmath
from mpmath.libmp import from_rational, to_rational
import core
from core import _atom_by_id, Atom, Leaf, Node, Struct, Rat, Variant, SeqV, Lam, Unk, StrV, Ptr, BOT, P1

PREC = 260
mpmath.mp.prec = PREC
TINY = Fr(1, 10 ** 50)

ENDLESS = 99991
class Skip(Exception):
    """this point says nothing (threshold too close, value not defined here)"""
class Beyond(Skip):
    """an element past the end of a sequence"""
class NoEval(Skip):
    """the form contains something without a concrete value"""

class S:
    __slots__ = ('tag', 'f', 'x')
    def __init__(self, tag, f): self.tag, self.f = tag, list(f)
    def __repr__(self): return '%s{%s}' % (self.tag[0] if isinstance(self.tag, tuple) else str(self.tag).split('::')[-1], ', '.join(map(show, self.f)))
class V:
    __slots__ = ('idx', 'f')
    def __init__(self, idx, f=()): self.idx, self.f = idx, list(f)
    def __repr__(self): return 'V%d(%s)' % (self.idx, ', '.join(map(show, self.f)))
class Ref:
    __slots__ = ('cell', 'path')
    def __init__(self, cell, path): self.cell, self.path = cell, path
class Graph:
    """a directed graph: edge list in insertion order"""
    def __init__(self, n=0, edges=()): self.n, self.edges = n, tuple(edges)
    def key(self): return (self.n, self.edges)
    def succ(self, a): return [y for x, y in reversed(self.edges) if x == a]
    def pred(self, a): return [x for x, y in reversed(self.edges) if y == a]
class Map:
    def __init__(self, items=()): self.items = tuple(items)       # (key, value-slot) in iteration order

def show(x):
    if isinstance(x, Fr):
        return str(x) if x.denominator < 10 ** 6 and abs(x.numerator) < 10 ** 12 else '%.12g' % float(x)
    if isinstance(x, list):
        return '[' + ', '.join(show(y) for y in (x if len(x) <= 12 else x[:12])) + (', ...%d' % len(x) if len(x) > 12 else '') + ']'
    if isinstance(x, tuple): return '<%s>' % (hashlib.md5(repr(key(x)).encode()).hexdigest()[:6] if len(repr(x)) > 60 else ' '.join(map(str, x)))
    return repr(x)

def key(x):
    """hashable image of a concrete value, numbers rounded"""
    if isinstance(x, bool): return x
    if isinstance(x, (int, Fr)): return quant(x)
    if isinstance(x, float): return x if x == x else 'nan'
    if isinstance(x, list): return ('L',) + tuple(key(y) for y in x)
    if isinstance(x, tuple): return tuple(key(y) if not isinstance(y, str) else y for y in x)
    if isinstance(x, S): return ('S',) + tuple(key(y) for y in x.f)
    if isinstance(x, V): return ('V', x.idx) + tuple(key(y) for y in x.f)
    if isinstance(x, Graph): return ('G',) + x.key()
    if isinstance(x, Map): return ('M', x.items)
    return x
def quant(x):
    # steps of 2^-44; what is far below one is told from nothing by its size: 20 significant bits
    x = Fr(x)
    r = round(x * (1 << 44))
    if r or not x: return r
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if e < 60 - PREC: return 0
    return ('tiny', e, round(abs(x) * (Fr(2) ** (20 - e))) * (1 if x > 0 else -1))

def hnum(k, sort, lo, hi):
    h = int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), 'little')
    if sort == 'bool': return bool(h & 1)
    if sort == 'int':
        lo = 0 if lo is None else int(lo)
        hi = lo + 5 if hi is None else int(hi)
        return Fr(lo + h % (hi - lo + 1))
    if lo is not None and hi is not None:
        return lo + (hi - lo) * Fr(h % (1 << 20), 1 << 20)
    return Fr((h % (1 << 20)) - (1 << 19), 1 << 19) + (lo or 0)

def cut(x):
    """keep rationals small"""
    if x.denominator.bit_length() > 640:
        e = PREC + 40 - (x.numerator.bit_length() - x.denominator.bit_length())
        if e < 0: return Fr(round(x))
        return Fr(round(x * (1 << e)), 1 << e)
    return x
def tomp(x): return mpmath.mpf(x.numerator) / x.denominator
def frommp(y):
    if not mpmath.isfinite(y): raise Skip('not finite')
    s, m, e, b = y._mpf_
    m = -int(m) if s else int(m)
    return Fr(m << e) if e >= 0 else Fr(m, 1 << -e)

def rnd32(x):
    """nearest single-precision number"""
    if x == 0: return Fr(0)
    s = -1 if x < 0 else 1
    a = abs(x)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if a < Fr(2) ** e: e -= 1
    e = max(e, -126)
    u = Fr(2) ** (e - 23)
    q = a / u
    f = q.numerator // q.denominator
    r = q - f
    if r > Fr(1, 2) or (r == Fr(1, 2) and f & 1): f += 1
    return s * f * u

_trans = {}
def trans(name, x):
    k = (name, x)
    r = _trans.get(k)
    if r is not None: return r
    if name == 'exp' and x > 3000: raise Skip('overflow')
    if name == 'exp' and x < -3000: r = Fr(0)
    elif name == 'ln':
        if x <= 0: raise Skip('log of a non-positive number')
        r = frommp(mpmath.log(tomp(x)))
    elif name == 'sqrt':
        if x < 0: raise Skip('root of a negative number')
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        r = Fr(n, d) if n * n == x.numerator and d * d == x.denominator else frommp(mpmath.sqrt(tomp(x)))
    else: r = frommp({'exp': mpmath.exp, 'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan}[name](tomp(x)))
    if len(_trans) > 200000: _trans.clear()
    _trans[k] = r
    return r
PIF = frommp(+mpmath.pi)
LN10F = frommp(mpmath.log(10))
BIG = Fr(10 ** 40)

def tofp(x):
    if isinstance(x, float): return x
    if isinstance(x, bool): raise NoEval('number expected')
    if isinstance(x, (int, Fr)): return float(x)
    raise NoEval('number expected: %r' % (x,))
def rfp(x, bits):
    import numpy as np
    if bits == 64: return float(x)
    with np.errstate(all='ignore'):
        if isinstance(x, Fr) and x.denominator == 1 and abs(x) < 1 << 24: return float(x)
        return float(np.float32(float(x)))
def fpop(op, bits, xs):
    import numpy as np
    t = np.float32 if bits == 32 else np.float64
    with np.errstate(all='ignore'):
        xs = [t(x) for x in xs]
        x = xs[0]
        if op == 'Add': r = x + xs[1]
        elif op == 'Sub': r = x - xs[1]
        elif op == 'Mul': r = x * xs[1]
        elif op == 'Div': r = x / xs[1]
        elif op == 'Rem': r = np.fmod(x, xs[1])
        elif op == 'Neg': r = -x
        elif op == 'abs': r = abs(x)
        elif op in ('floor', 'ceil', 'trunc', 'sqrt', 'sin', 'cos', 'tan', 'exp', 'log10'): r = getattr(np, op)(x)
        elif op == 'ln': r = np.log(x)
        elif op == 'log2': r = np.log2(x)
        elif op == 'round': r = np.copysign(np.floor(abs(x) + t(0.5)) if abs(x) < t(1 << (22 if bits == 32 else 51)) and abs(x) != np.nextafter(t(0.5), t(0)) else np.floor(abs(x)) if abs(x) < 1 else np.round(x), x)
        elif op == 'fract': r = x - np.trunc(x)
        elif op in ('powf', 'pow', 'powi'): r = np.power(x, xs[1])
        elif op == 'mul_add': r = t(np.longdouble(x) * np.longdouble(xs[1]) + np.longdouble(xs[2]))
        elif op == 'min': r = np.fmin(x, xs[1])
        elif op == 'max': r = np.fmax(x, xs[1])
        elif op == 'copysign': r = np.copysign(x, xs[1])
        elif op == 'signum': r = x if x != x else np.copysign(t(1), x)
        elif op == 'clamp': r = xs[1] if x < xs[1] else xs[2] if x > xs[2] else x
        elif op == 'recip': r = t(1) / x
        elif op == 'rem_euclid':
            r = np.fmod(x, xs[1])
            if r < 0: r = r + abs(xs[1])
        elif op == 'div_euclid':
            r = np.trunc(x / xs[1])
            if np.fmod(x, xs[1]) < 0: r = r - t(1) if xs[1] > 0 else r + t(1)
        elif op == 'hypot': r = np.hypot(x, xs[1])
        elif op == 'exp2': r = np.exp2(x)
        elif op == 'log': r = np.log(x) / np.log(xs[1])
        elif op == 'to_radians': r = x * (t(np.pi) / t(180))
        elif op == 'secs': r = x
        elif op == 'fromsecs': r = x
        else: raise NoEval('fp ' + op)
    return float(r)

class Eval:
    def __init__(self, env, hooks=None, budget=400000):
        self.env = env            # variable name -> concrete value
        self.b = {}               # bound variables: atom id -> (value, key)
        self.memo = {}
        self.hooks = hooks or {}
        self.n = 0
        self.budget = budget
        self.uid = 0
    def bk(self, fv):
        if not self.b: return ()
        return tuple([(v, self.b[v][1]) for v in fv if v in self.b]) if len(fv) < len(self.b) else tuple([(v, x[1]) for v, x in self.b.items() if v in fv])
    def bind(self, at, v):
        if isinstance(v, (Fr, bool)): k = v
        else:
            self.uid += 1; k = ('u', self.uid)
        self.b[at.id] = (v, k)
    # ---- values
    def val(self, v):
        if isinstance(v, Leaf):
            if not v.fv.isdisjoint(self.b) or True:
                return self.pay(v.v)
        k = (v.id, self.bk(v.fv))
        r = self.memo.get(k)
        if r is not None: return r
        self.tick()
        if isinstance(v, Struct):
            r = S(v.tag, [self.val(x) for x in v.f])
            if v.tag in (('graph',), ('map',)) and isinstance(r.f[0], S): r.f[0] = r.f[0].f[0]
        else:
            n = v
            while isinstance(n, Node):
                try: t = self.cond(n.c)
                except Beyond:
                    # conditions are in a fixed order, which need not be that of the code:
                    # one on an element that does not exist is irrelevant, both sides agree
                    hi, lo = self.val(n.hi), self.val(n.lo)
                    if not isinstance(hi, (bool, Fr)) or hi != lo: raise
                    n = None; r = hi; break
                n = n.hi if t else n.lo
            if n is not None: r = self.val(n)
        self.memo[k] = r
        return r
    def tick(self):
        self.n += 1
        if self.n > self.budget: raise Skip('budget')
    def pay(self, p):
        if p is True or p is False: return p
        if isinstance(p, Rat): return self.rat(p)
        if isinstance(p, Variant): return V(p.idx, [self.val(x) for x in p.f])
        if isinstance(p, SeqV): return self.seq(p)
        if isinstance(p, StrV): return ('str', p.k[0])
        if isinstance(p, Ptr):
            return Ref(p.cell, tuple(tuple(self.val(y) if isinstance(y, (Leaf, Node, Struct)) else y for y in e) for e in p.path))
        raise NoEval('%r' % (p,))
    def seq(self, p):
        k = ('s', p.id, self.bk(p.fv))
        r = self.memo.get(k)
        if r is not None: return r
        out = []
        for q in p.p:
            if q[0] == 'lit': out.append(self.val(q[1]))
            else:
                n = self.rat(q[1])
                self.comp(n, q[2], out)
        self.memo[k] = out
        return out
    def lamvar(self, l): return core.bv(l.d)
    def with_bv(self, l, i, f):
        at = core.bv(l.d)
        old = self.b.get(at.id)
        self.bind(at, Fr(i))
        try: return f(l.body)
        finally:
            if old is None: self.b.pop(at.id, None)
            else: self.b[at.id] = old
    def comp(self, n, l, out):
        n = int(n)
        at = core.bv(l.d)
        if at.id not in l.body.fv and n > 16:
            if n > 800000: raise Skip('long sequence')
            out.extend([self.val(l.body)] * n); return
        sl = self.slice(l, at) if n > 16 else None
        if sl is not None:
            xs, k = sl
            if 0 <= k and k + n <= len(xs): out.extend(xs[k:k + n]); return
        if n > 320000: raise Skip('long sequence')
        for i in range(n): out.append(self.with_bv(l, i, self.val))
    def slice(self, l, at):
        """(sequence, k) when the element of the comprehension is s[i + k]"""
        b = l.body
        if not isinstance(b, Leaf) or not isinstance(b.v, Rat): return None
        a = b.v.single()
        if a is None or a.kind != 'at': return None
        s, i = a.args[0], a.args[1]
        if not isinstance(i, Rat) or i.d is not P1 or getattr(s, 'fv', None) is None or at.id in s.fv: return None
        k = Fr(0); one = 0
        for mo, c in i.n.t.items():
            if mo == ((at.id, 1),) and c == 1: one = 1; continue
            if any(x == at.id for x, _ in mo): return None
            k0 = c
            for x, e in mo:
                y = self.num(self.atom(_atom_by_id[x]))
                for _ in range(e): k0 = k0 * y
            k += k0
        if not one or k.denominator != 1: return None
        xs = self.arg(s)
        return (xs, int(k)) if isinstance(xs, list) else None
    def rat(self, r):
        if not r.fv and r.d is P1:
            c = r.n.const()
            if c is not None: return c
        k = ('r', r.id, self.bk(r.fv))
        x = self.memo.get(k)
        if x is not None: return x
        self.tick()
        a = r.single()
        if a is not None: x = self.atom(a)
        else:
            n = self.poly(r.n)
            if r.d is not P1:
                d = self.poly(r.d)
                if d == 0: raise Skip('division by zero')
                n = n / d
            x = cut(n) if isinstance(n, Fr) else n
        self.memo[k] = x
        return x
    def poly(self, p):
        s = Fr(0)
        for mo, c in p.t.items():
            x = c
            for a, e in mo:
                y = self.num(self.atom(_atom_by_id[a]))
                for _ in range(e): x = x * y
            s = s + x
        return s
    def num(self, x):
        if isinstance(x, bool): return Fr(int(x))
        if isinstance(x, (Fr, float)): return x
        raise NoEval('number expected: %r' % (x,))
    # ---- conditions
    def cond(self, c):
        if c.kind == 'b':
            x = self.atom(c.q)
            if not isinstance(x, bool): raise NoEval('condition %r' % (c,))
            return x
        q = self.poly(c.q) - c.t
        if q != 0 and abs(q) < TINY: raise Skip('threshold')
        return q >= 0 if c.kind == 'ge' else q > 0
    # ---- atoms
    def atom(self, a):
        k = ('a', a.id, self.bk(a.fv))
        x = self.memo.get(k)
        if x is not None: return x
        x = self.atom0(a)
        if isinstance(x, int) and not isinstance(x, bool): x = Fr(x)
        self.memo[k] = x
        return x
    def arg(self, x):
        if isinstance(x, Rat): return self.rat(x)
        if isinstance(x, Atom): return self.atom(x)
        if isinstance(x, (Leaf, Node, Struct)): return self.val(x)
        if isinstance(x, tuple): return tuple(self.arg(y) for y in x)
        if isinstance(x, (str, int)) or x is None: return x
        raise NoEval('%r' % (x,))
    def atom0(self, a):
        k, g = a.kind, a.args
        if k == 'var':
            x = self.b.get(a.id)
            if x is not None: return x[0]
            if a.id in self.env: return self.env[a.id]
            n = g[0]
            if n in self.env: return self.env[n]
            raise NoEval('free variable %s' % n)
        f = getattr(self, 'k_' + k, None)
        if f is not None: return f(a, *g)
        h = self.hooks.get(k)
        if h is not None:
            r = h(self, a, *g)
            if r is not None: return r
        return self.opaque(a)
    def opaque(self, a):
        ks = (a.kind,) + tuple(key(self.arg(x)) for x in a.args)
        if a.sort == 'obj': return ('tok', hashlib.blake2b(repr(ks).encode(), digest_size=8).hexdigest())
        return hnum(ks, a.sort, a.lo, a.hi)
    def k_pi(self, a): return PIF
    def k_ln10(self, a): return LN10F
    def k_inf(self, a): return BIG
    def k_nan(self, a): raise Skip('nan')
    def k_div0(self, a, *g): raise Skip('division by zero')
    def k_floor(self, a, x):
        x = self.num(self.rat(x))
        f = math.floor(x)
        d = x - f
        if d != 0 and (d < TINY or 1 - d < TINY): raise Skip('threshold')
        return Fr(f)
    def k_sqrt(self, a, x): return trans('sqrt', self.num(self.rat(x)))
    def k_sin(self, a, x): return trans('sin', self.num(self.rat(x)))
    def k_cos(self, a, x): return trans('cos', self.num(self.rat(x)))
    def k_tan(self, a, x): return trans('tan', self.num(self.rat(x)))
    def k_exp(self, a, x): return trans('exp', self.num(self.rat(x)))
    def k_ln(self, a, x): return trans('ln', self.num(self.rat(x)))
    def k_pow(self, a, b, e):
        b, e = self.num(self.rat(b)), self.num(self.rat(e))
        if b <= 0: raise Skip('power of a non-positive number')
        return frommp(mpmath.power(tomp(b), tomp(e)))
    def k_r32(self, a, x): return rnd32(self.num(self.rat(x)))
    # ---- floating point, bit for bit
    def fpv(self, x):
        if isinstance(x, Leaf): x = x.v
        if isinstance(x, Rat):
            if x.d is P1 and len(x.n.t) == 1:
                (m, c), = x.n.t.items()
                if len(m) == 1 and m[0][1] == 1:
                    k = _atom_by_id[m[0][0]].kind
                    if k == 'inf': return math.inf if c > 0 else -math.inf
                    if k == 'nan': return math.nan
            return tofp(self.rat(x))
        return tofp(self.val(x))
    def k_fp(self, a, op, bits, *xs): return fpop(op, bits, [self.fpv(x) for x in xs])
    def k_fcmp(self, a, op, x, y):
        x, y = self.fpv(x), self.fpv(y)
        return {'Lt': x < y, 'Le': x <= y, 'Eq': x == y}[op]
    def k_fpp(self, a, name, x):
        x = self.fpv(x)
        return {'is_nan': x != x, 'is_finite': math.isfinite(x), 'is_infinite': math.isinf(x), 'is_sign_negative': math.copysign(1, x) < 0, 'is_sign_positive': math.copysign(1, x) > 0}[name]
    def k_badsecs(self, a, x):
        x = self.fpv(x)
        return not (0 <= x < 2.0 ** 64)
    def k_f2i(self, a, x, bits, signed):
        x = self.fpv(x)
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if x != x: return Fr(0)
        if math.isinf(x): return Fr(hi if x > 0 else lo)
        return Fr(min(max(int(x), lo), hi))
    def k_i2f(self, a, x, bits):
        x = self.num(self.rat(x))
        return rfp(x, bits)
    def k_f32to64(self, a, x): return rfp(self.fpv(x), 32)
    def k_f64to32(self, a, x): return rfp(self.fpv(x), 32)
    def k_iop(self, a, op, *xs):
        xs = [int(self.rat(x)) for x in xs]
        if op == 'and': return Fr(xs[0] & xs[1])
        if op == 'or': return Fr(xs[0] | xs[1])
        if op == 'xor': return Fr(xs[0] ^ xs[1])
        return self.opaque(a)
    def k_objeq(self, a, x, y): return key(self.rat(x)) == key(self.rat(y))
    # structure
    def k_proj(self, a, base, name, i):
        x = self.arg(base)
        if isinstance(x, S):
            if i >= len(x.f): raise NoEval('field')
            return x.f[i]
        if isinstance(x, tuple):
            if x[0] == 'edge': return x
            return self.tok(a, ('proj', x, i))
        raise NoEval('field of %r' % (x,))
    def tok(self, a, k):
        if a.sort == 'obj': return ('tok', hashlib.blake2b(repr(key(k)).encode(), digest_size=8).hexdigest())
        return hnum(key(k), a.sort, a.lo, a.hi)
    def k_vproj(self, a, base, v, n, j):
        x = self.arg(base)
        if isinstance(x, V):
            if x.idx != v: raise Skip('other variant')
            return x.f[j]
        return self.tok(a, ('vproj', x, v, j))
    def k_disc(self, a, base):
        x = self.arg(base)
        if isinstance(x, V): return Fr(x.idx)
        return self.tok(a, ('disc', x))
    def k_deref(self, a, base): return self.arg(base)
    def k_uniq(self, a, base):
        x = self.arg(base)
        if isinstance(x, S): return x.f[1]
        return self.tok(a, ('uniq', x))
    def k_mapvals(self, a, base):
        x = self.arg(base)
        return x.f[1] if isinstance(x, S) else self.tok(a, ('mapvals', x))
    k_weights = k_mapvals
    def k_len(self, a, base):
        x = self.arg(base)
        if isinstance(x, list): return Fr(len(x))
        return self.tok(a, ('len', x))
    def k_at(self, a, base, i):
        x, i = self.arg(base), self.rat(i)
        if isinstance(x, list):
            if i.denominator != 1 or not 0 <= i < len(x): raise Beyond('index %s of %d' % (i, len(x)))
            return x[int(i)]
        return self.tok(a, ('at', x, i))
    # loops
    def times(self, n):
        n = self.num(self.rat(n))
        if n == BIG: return ENDLESS
        if n > 100000: raise Skip('long loop')
        return max(0, math.ceil(n))
    def until(self, n, l):
        """(how many turns, the first at which l is true or None)"""
        n = self.num(self.rat(n))
        m = ENDLESS if n == BIG else max(0, math.ceil(n))
        for i in range(min(m, 100001)):
            if i == 100000: raise Skip('long loop')
            if self.with_bv(l, i, self.val): return m, i
        return m, None
    def k_exists(self, a, n, l): return self.until(n, l)[1] is not None
    def k_first(self, a, n, l):
        m, i = self.until(n, l)
        if i is not None: return Fr(i)
        if m == ENDLESS: raise Skip('endless loop')
        return Fr(m)
    def k_sum(self, a, n, l):
        s = Fr(0)
        for i in range(self.times(n)): s += self.num(self.with_bv(l, i, self.val))
        return s
    def k_maxf(self, a, init, n, l):
        r = self.num(self.rat(init))
        for i in range(self.times(n)): r = max(r, self.num(self.with_bv(l, i, self.val)))
        return r
    def k_minf(self, a, init, n, l):
        r = self.num(self.rat(init))
        for i in range(self.times(n)): r = min(r, self.num(self.with_bv(l, i, self.val)))
        return r
    def k_fold(self, a, j, n, inits, l, d):
        m = self.times(n)
        fv = l.fv | inits.fv
        accs = [at for i in range(len(inits.f)) for at in core.vars_named('acc%d_%d' % (d, i))]
        ids = {at.id for at in accs}
        kk = ('f', l.id, inits.id, self.bk(fv - ids))
        run = self.memo.get(kk)
        if run is None:
            run = [[self.val(x) for x in inits.f]]
            self.memo[kk] = run
        saved = {i: self.b[i] for i in ids if i in self.b}
        try:
            while len(run) <= m:
                self.tick()
                cur = run[-1]
                for at in accs:
                    x = cur[int(at.args[0].split('_')[1])]
                    if (at.sort == 'bool') != isinstance(x, bool): self.b.pop(at.id, None); continue
                    if (at.sort == 'obj') != (not isinstance(x, (bool, Fr, float))): self.b.pop(at.id, None); continue
                    self.bind(at, x)
                r = self.with_bv(l, len(run) - 1, self.val)
                run.append(r.f)
        finally:
            for i in ids: self.b.pop(i, None)
            self.b.update(saved)
        return run[m][j]
    # graphs and maps
    def k_emptygraph(self, a): return Graph()
    def k_g_add_node(self, a, g):
        g = self.gr(g); return Graph(g.n + 1, g.edges)
    def k_g_update_edge(self, a, g, x, y):
        g, x, y = self.gr(g), int(self.rat(x)), int(self.rat(y))
        return g if (x, y) in g.edges else Graph(g.n, g.edges + ((x, y),))
    def k_g_add_edge(self, a, g, x, y):
        g, x, y = self.gr(g), int(self.rat(x)), int(self.rat(y))
        return Graph(g.n, g.edges + ((x, y),))
    def k_g_remove_edge(self, a, g, e):
        g, e = self.gr(g), self.arg(e)
        if isinstance(e, tuple) and e[0] == 'edge':
            l = list(g.edges)
            if (e[1], e[2]) in l: l.remove((e[1], e[2]))
            return Graph(g.n, l)
        raise NoEval('edge %r' % (e,))
    def gr(self, g):
        x = self.arg(g)
        if isinstance(x, S) and isinstance(x.f[0], Graph): x = x.f[0]
        if not isinstance(x, Graph): raise NoEval('graph %r' % (x,))
        return x
    def k_g_has_edge(self, a, g, x, y): return (int(self.rat(x)), int(self.rat(y))) in self.gr(g).edges
    def k_g_edge(self, a, g, x, y): return ('edge', int(self.rat(x)), int(self.rat(y)))
    def k_g_succ(self, a, g, x): return [Fr(y) for y in self.gr(g).succ(int(self.rat(x)))]
    def k_g_pred(self, a, g, x): return [Fr(y) for y in self.gr(g).pred(int(self.rat(x)))]
    def k_g_adj(self, a, g, x):
        G, x = self.gr(g), int(self.rat(x))
        return [Fr(y) for y in G.succ(x)] + [Fr(y) for y in G.pred(x)]
    def k_g_ext0(self, a, g):       # externals(Outgoing): no outgoing edges
        G = self.gr(g); return [Fr(i) for i in range(G.n) if not G.succ(i)]
    def k_g_ext1(self, a, g):
        G = self.gr(g); return [Fr(i) for i in range(G.n) if not G.pred(i)]
    def k_g_edge_count(self, a, g): return Fr(len(self.gr(g).edges))
    def k_g_acyclic(self, a, g): return topo(self.gr(g)) is not None
    def k_g_toposort(self, a, g): return [Fr(i) for i in topo(self.gr(g))]
    def k_res(self, a, name, o, *xs):
        w = WALK.get(name)
        if w is not None: return w(self, self.arg(o), [self.arg(x) for x in xs])[0]
        h = self.hooks.get('res')
        if h is not None:
            r = h(self, a, name, o, *xs)
            if r is not None: return r
        return self.opaque(a)
    def k_post(self, a, name, o, *xs):
        w = WALK.get(name)
        if w is not None: return w(self, self.arg(o), [self.arg(x) for x in xs])[1]
        h = self.hooks.get('post')
        if h is not None:
            r = h(self, a, name, o, *xs)
            if r is not None: return r
        return self.opaque(a)
    # maps: concrete S(('map',), [Map, values])
    def k_emptymap(self, a): return Map()
    def mp(self, b):
        x = self.arg(b)
        if isinstance(x, S): x = x.f[0]
        if not isinstance(x, Map): raise NoEval('map %r' % (x,))
        return x
    def k_map_has(self, a, b, k):
        k = self.rat(k); return any(q == k for q in self.mp(b).items)
    def k_map_slot(self, a, b, k): return Fr(self.mp(b).items.index(self.rat(k)))
    def k_map_insert(self, a, b, k):
        m = self.mp(b); k = self.rat(k)
        if k in m.items: raise Skip('key replaced')
        return Map(m.items + (k,))
    def k_map_remove(self, a, b, k):
        m = self.mp(b); k = self.rat(k)
        return Map(tuple(x for x in m.items if x != k))
    def k_map_remove_vals(self, a, b, k):
        x = self.arg(b); k = self.rat(k)
        if not isinstance(x, S): raise NoEval('map values')
        return [v for q, v in zip(x.f[0].items, x.f[1]) if q != k]
    def k_map_val(self, a, b, k):
        x = self.arg(b); k = self.rat(k)
        if not isinstance(x, S): raise NoEval('map value')
        for q, v in zip(x.f[0].items, x.f[1]):
            if q == k: return v
        raise Skip('no such key')
    def k_map_keys(self, a, b): return list(self.mp(b).items)

def topo(G):
    """petgraph::algo::toposort: reverse depth-first finish order over reversed... (any valid order is tried)"""
    order, state = [], {}
    def go(x):
        state[x] = 1
        for y in reversed(G.succ(x)):
            if state.get(y) == 1: return False
            if y not in state and not go(y): return False
        state[x] = 2
        order.append(x)
        return True
    for i in range(G.n):
        if i not in state and not go(i): return None
    order.reverse()
    return order

# depth-first post-order walker (petgraph::visit::DfsPostOrder): state ('dpo', stack, discovered, finished)
def _g(args):
    for x in args:
        if isinstance(x, S): x = x.f[0]
        if isinstance(x, Graph): return x
    raise NoEval('graph')
def _dpo_state(o):
    if isinstance(o, tuple) and o[0] == 'dpo': return list(o[1]), set(o[2]), set(o[3])
    raise NoEval('walker %r' % (o,))
def _dpo_next(ev, o, args):
    st, disc, fin = _dpo_state(o)
    G = _g(args)
    while st:
        n = st[-1]
        if n not in disc:
            disc.add(n)
            for s in G.succ(n):
                if s not in disc: st.append(s)
        else:
            st.pop()
            if n not in fin:
                fin.add(n)
                return V(1, [Fr(n)]), ('dpo', tuple(st), frozenset(disc), frozenset(fin))
    return V(0), ('dpo', (), frozenset(disc), frozenset(fin))
def _dpo_move(ev, o, args):
    st, disc, fin = _dpo_state(o)
    n = [x for x in args if isinstance(x, Fr)][0]
    return None, ('dpo', (int(n),), frozenset(disc), frozenset(fin))
def _dfs_next(ev, o, args):
    if not (isinstance(o, tuple) and o[0] == 'dfs'): raise NoEval('walker')
    st, disc = list(o[1]), set(o[2])
    G = _g(args)
    while st:
        n = st.pop()
        if n not in disc:
            disc.add(n)
            for s in G.succ(n):
                if s not in disc: st.append(s)
            return V(1, [Fr(n)]), ('dfs', tuple(st), frozenset(disc))
    return V(0), ('dfs', (), frozenset(disc))
def _dfs_move(ev, o, args):
    n = [x for x in args if isinstance(x, Fr)][0]
    return None, ('dfs', (int(n),), o[2])
def _topo_next(ev, o, args):
    if not (isinstance(o, tuple) and o[0] == 'topo'): raise NoEval('walker')
    G = _g(args)
    done = list(o[1])
    # ready nodes, most recently enabled last-in first-out like petgraph
    for i in reversed(range(G.n)):
        if i not in done and all(p in done for p in G.pred(i)):
            return V(1, [Fr(i)]), ('topo', tuple(done + [i]))
    return V(0), o
def _bfs_next(ev, o, args):
    G = _g(args)
    q, disc = list(o[1]), set(o[2])
    if not q: return V(0), o
    n = q.pop(0)
    for s in G.succ(n):
        if s not in disc: disc.add(s); q.append(s)
    return V(1, [Fr(n)]), ('bfs', tuple(q), frozenset(disc))
def _k_new(kind):
    def f(self, a, g, *ks):
        n = [int(self.rat(x)) for x in ks if isinstance(x, Rat)]
        if kind == 'dpo': return ('dpo', tuple(n), frozenset(), frozenset())
        if kind == 'dfs': return ('dfs', tuple(n), frozenset())
        if kind == 'topo': return ('topo', ())
        return ('bfs', tuple(n), frozenset(n))
    return f

WALK = {'DfsPostOrder::next': _dpo_next, 'DfsPostOrder::move_to': _dpo_move, 'DfsPostOrder::reset': lambda e, o, a: (None, ('dpo', (), frozenset(), frozenset())),
        'Dfs::next': _dfs_next, 'Dfs::move_to': _dfs_move, 'Topo::next': _topo_next, 'Bfs::next': _bfs_next}
for _n, _k in (('DfsPostOrder', 'dpo'), ('Dfs', 'dfs'), ('Topo', 'topo'), ('Bfs', 'bfs')):
    for _m in ('new', 'empty'): setattr(Eval, 'k_%s::%s' % (_n, _m), _k_new(_k))
