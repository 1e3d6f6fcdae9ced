"""Value domain of the analysis.

Numbers are rational functions (with exact rational coefficients) over
hash-consed atoms; case distinctions are ordered decision diagrams over
canonical comparisons; sequences are lists of literal and comprehension pieces.
Everything is interned, so that two values with the same normal form are the
same object.
"""
import sys, math, itertools, hashlib
from fractions import Fraction as Fr

sys.setrecursionlimit(20000)

class Undecided(Exception):
    """The analysis cannot follow this construct."""

# --------------------------------------------------------------------------
# atoms

EMPTY = frozenset()
_atoms = {}
_atom_by_id = []

class Atom:
    __slots__ = ('id', 'kind', 'args', 'sort', 'fv', 'ld', 'lo', 'hi')
    def __repr__(self): return show_atom(self)

def _fv(args):
    s = EMPTY
    for a in args:
        if isinstance(a, tuple):
            f = _fv(a)
        else:
            f = getattr(a, 'fv', EMPTY)
        if f: s = s | f if s else f
    return s

def _ld(args):
    d = 0
    for a in args:
        if isinstance(a, tuple):
            x = _ld(a)
        else:
            x = getattr(a, 'ld', 0)
        if x > d: d = x
    return d

def atom(kind, args=(), sort='real', lo=None, hi=None):
    """sort: 'real', 'int' or 'obj'."""
    key = (kind, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atom_by_id)
        a.kind, a.args, a.sort = kind, args, sort
        a.lo = None if lo is None else Fr(lo)
        a.hi = None if hi is None else Fr(hi)
        a.ld = _ld(args)
        a.fv = frozenset([a.id]) if kind == 'var' else _fv(args) | {a.id} if kind == 'ext' else _fv(args)
        _atoms[key] = a
        _atom_by_id.append(a)
    else:
        if lo is not None and (a.lo is None or lo > a.lo): a.lo = Fr(lo)
        if hi is not None and (a.hi is None or hi < a.hi): a.hi = Fr(hi)
    return a

_vars = {}
def var(name, sort='real', lo=None, hi=None):
    """a variable is its name and its range: the same name over another range is another variable"""
    a = atom('var', (name, None if lo is None else Fr(lo), None if hi is None else Fr(hi)), sort, lo, hi)
    _vars.setdefault(name, {})[a.id] = a
    return a
def vars_named(name): return list(_vars.get(name, {}).values())

_fresh = itertools.count()
def fresh(prefix, sort='real', lo=None, hi=None):
    return var('%s#%d' % (prefix, next(_fresh)), sort, lo, hi)

def bv(d):
    return var('bv%d' % d, 'int', 0)

# --------------------------------------------------------------------------
# polynomials: dict monomial -> Fraction; monomial: tuple of (atom id, exp)

ONE_M = ()

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted((x, e) for x, e in d.items() if e))

class Poly:
    __slots__ = ('t', 'key', '_h', '_r')
    def __init__(self, t):
        self.t = t
        self.key = tuple(sorted(t.items()))
        self._h = hash(self.key)
        self._r = None
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o or (self._h == o._h and self.key == o.key)
    def is_zero(self): return not self.t
    def const(self):
        if not self.t: return Fr(0)
        if len(self.t) == 1 and ONE_M in self.t: return self.t[ONE_M]
        return None
    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m: s.add(a)
        return s

def p_const(c): return Poly({ONE_M: Fr(c)} if c else {})
P0 = p_const(0)
P1 = p_const(1)
def p_atom(a): return Poly({((a.id, 1),): Fr(1)})
def p_add(a, b):
    if not b.t: return a
    if not a.t: return b
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + c
        if v: t[m] = v
        else: t.pop(m, None)
    return Poly(t)
def p_scale(a, c):
    if c == 1: return a
    if c == 0: return P0
    return Poly({m: v * c for m, v in a.t.items()})
def p_mul(a, b):
    ca = a.const()
    if ca is not None: return p_scale(b, ca)
    cb = b.const()
    if cb is not None: return p_scale(a, cb)
    if len(a.t) * len(b.t) > 20000: raise Undecided('polynomial too large')
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mono_mul(m1, m2)
            v = t.get(m, 0) + c1 * c2
            if v: t[m] = v
            else: t.pop(m, None)
    return Poly(t)
def p_neg(a): return p_scale(a, Fr(-1))
def p_sub(a, b): return p_add(a, p_neg(b))
def p_lead(a):
    return max(a.t, key=lambda m: (sum(e for _, e in m), m))

_gcd_cache = {}
def p_cofactors(a, b):
    """(a/g, b/g)"""
    k = (a, b)
    r = _gcd_cache.get(k)
    if r is not None: return r
    r = _cofactors(a, b)
    _gcd_cache[k] = r
    return r

def _monocontent(a):
    it = iter(a.t)
    c = dict(next(it))
    for m in it:
        d = dict(m)
        for x in list(c):
            e = min(c[x], d.get(x, 0))
            if e > 0: c[x] = e
            else: del c[x]
        if not c: break
    return c
def _monodiv(a, c):
    if not c: return a
    t = {}
    for m, v in a.t.items():
        d = dict(m)
        for x, e in c.items(): d[x] = d[x] - e
        t[tuple(sorted((x, e) for x, e in d.items() if e))] = v
    return Poly(t)

def _cofactors(a, b):
    ca, cb = _monocontent(a), _monocontent(b)
    common = {x: min(e, cb[x]) for x, e in ca.items() if x in cb}
    if common:
        a, b = _monodiv(a, common), _monodiv(b, common)
    if len(a.t) == 1 or len(b.t) == 1: return a, b
    ats = sorted(a.atoms() & b.atoms())
    if not ats: return a, b
    ats = sorted(a.atoms() | b.atoms())
    from sympy.polys.rings import ring
    from sympy.polys.domains import QQ
    R, *g = ring(['x%d' % i for i in ats], QQ)
    idx = {x: i for i, x in enumerate(ats)}
    def conv(p):
        d = {}
        for m, c in p.t.items():
            e = [0] * len(ats)
            for x, k in m: e[idx[x]] = k
            d[tuple(e)] = QQ(c.numerator, c.denominator)
        return R.from_dict(d)
    def back(q):
        return Poly({tuple((ats[i], k) for i, k in enumerate(m) if k): Fr(int(c.numerator), int(c.denominator)) for m, c in q.items()})
    A, B = conv(a), conv(b)
    G, A1, B1 = A.cofactors(B)
    if G == 1: return a, b
    return back(A1), back(B1)

# --------------------------------------------------------------------------
# rational functions

_rats = {}
_rid = itertools.count()
class Rat:
    __slots__ = ('n', 'd', 'fv', 'ld', 'id')
    def __repr__(self): return show_rat(self)
    def const(self):
        return self.n.const() if self.d is P1 else None
    def single(self):
        """the atom, if this is just one atom"""
        if self.d is P1 and len(self.n.t) == 1:
            (m, c), = self.n.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1: return _atom_by_id[m[0][0]]
        return None

def _mkrat(n, d):
    if d == P1: d = P1
    k = (n, d)
    r = _rats.get(k)
    if r is None:
        r = Rat()
        r.n, r.d = n, d
        fv, ld = EMPTY, 0
        for p in (n, d):
            for a in p.atoms():
                at = _atom_by_id[a]
                fv = fv | at.fv
                if at.ld > ld: ld = at.ld
        r.fv, r.ld = fv, ld
        r.id = next(_rid)
        _rats[k] = r
    return r

def rat(n, d=P1):
    if d is P1 or d == P1:
        return _mkrat(n, P1)
    if d.is_zero():
        return _mkrat(p_atom(atom('div0', (_mkrat(n, P1),))), P1)
    if n.is_zero(): return _mkrat(P0, P1)
    c = d.const()
    if c is not None: return _mkrat(p_scale(n, 1 / c), P1)
    n, d = p_cofactors(n, d)
    c = d.const()
    if c is not None: return _mkrat(p_scale(n, 1 / c), P1)
    lc = d.t[p_lead(d)]
    if lc != 1: n, d = p_scale(n, 1 / lc), p_scale(d, 1 / lc)
    return _mkrat(n, d)

def R(c): return _mkrat(p_const(Fr(c)), P1)
R0, R1 = R(0), R(1)
def ratom(a): return _mkrat(p_atom(a), P1)

def _reduce_sqrt(r):
    """sqrt(q)^2 -> q"""
    for p in (r.n, r.d):
        for m in p.t:
            for a, e in m:
                if e >= 2 and _atom_by_id[a].kind == 'sqrt':
                    return _reduce_sqrt2(r)
    return r
def _reduce_sqrt2(r):
    def red(p):
        acc = R0
        for m, c in p.t.items():
            x = R(c)
            for a, e in m:
                at = _atom_by_id[a]
                if at.kind == 'sqrt' and e >= 2:
                    q = at.args[0]
                    for _ in range(e // 2): x = r_mul0(x, q)
                    e = e % 2
                if e: x = r_mul0(x, _mkrat(Poly({((a, e),): Fr(1)}), P1))
            acc = r_add0(acc, x)
        return acc
    n, d = red(r.n), red(r.d)
    return _reduce_sqrt(r_div0(n, d))

def r_add0(a, b):
    if a.d is P1 and b.d is P1: return _mkrat(p_add(a.n, b.n), P1)
    if a.d == b.d: return rat(p_add(a.n, b.n), a.d)
    return rat(p_add(p_mul(a.n, b.d), p_mul(b.n, a.d)), p_mul(a.d, b.d))
def r_mul0(a, b):
    return rat(p_mul(a.n, b.n), p_mul(a.d, b.d))
def r_div0(a, b):
    if b.n.is_zero(): return ratom(atom('div0', (a,)))
    return rat(p_mul(a.n, b.d), p_mul(a.d, b.n))
def r_add(a, b): return r_add0(a, b)
def r_mul(a, b): return _reduce_sqrt(r_mul0(a, b))
def r_div(a, b):
    # rationalise a denominator that is a constant times one sqrt atom
    return _reduce_sqrt(_rationalise(r_div0(a, b)))
def _rationalise(r):
    if r.d is P1 or len(r.d.t) != 1: return r
    (m, c), = r.d.t.items()
    for a, e in m:
        at = _atom_by_id[a]
        if at.kind == 'sqrt' and at.args[0].const() is not None:
            s = _mkrat(Poly({((a, 1),): Fr(1)}), P1)
            n = r_mul0(_mkrat(r.n, P1), s)
            q = at.args[0].const()
            m2 = tuple((x, k - 1 if x == a else k) for x, k in m if not (x == a and k == 1))
            d = Poly({m2: c * q})
            return _rationalise(rat(n.n, p_mul(n.d, d)))
    return r
def r_neg(a): return _mkrat(p_neg(a.n), a.d)
def r_sub(a, b): return r_add0(a, r_neg(b))

def is_int_poly(p):
    for m, c in p.t.items():
        if c.denominator != 1: return False
        for a, e in m:
            if _atom_by_id[a].sort != 'int' or e < 0: return False
    return True
def is_int(r): return r.d is P1 and is_int_poly(r.n)

# --- ranges ----------------------------------------------------------------
INF = None
def iv_mul(a, b):
    """interval product; ends may be None = unbounded"""
    if a[0] is not None and a[0] == a[1] == 0: return (Fr(0), Fr(0))
    if b[0] is not None and b[0] == b[1] == 0: return (Fr(0), Fr(0))
    lo = hi = None
    def mul(x, sx, y, sy):
        # sx: -1/+1 infinite sign if x is None
        if x is not None and y is not None: return x * y, 0
        if x is not None and x == 0: return Fr(0), 0
        if y is not None and y == 0: return Fr(0), 0
        s = (sx if x is None else (1 if x > 0 else -1)) * (sy if y is None else (1 if y > 0 else -1))
        return None, s
    vals = [mul(a[i], (-1, 1)[i], b[j], (-1, 1)[j]) for i in (0, 1) for j in (0, 1)]
    if any(v is None and s < 0 for v, s in vals): lo = None
    else: lo = min([v for v, s in vals if v is not None], default=None)
    if any(v is None and s > 0 for v, s in vals): hi = None
    else: hi = max([v for v, s in vals if v is not None], default=None)
    return (lo, hi)
def iv_add(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])
def iv_pow(a, e):
    r = (Fr(1), Fr(1))
    if e % 2 == 0:
        lo, hi = a
        if (lo is not None and lo >= 0) or (hi is not None and hi <= 0):
            for _ in range(e): r = iv_mul(r, a)
            return r
        m = None if lo is None or hi is None else max(abs(lo), abs(hi)) ** e
        return (Fr(0), m)
    for _ in range(e): r = iv_mul(r, a)
    return r
def p_range(p, rng=None):
    if rng is None:
        if p._r is None: p._r = _p_range(p, None)
        return p._r
    return _p_range(p, rng)
def _p_range(p, rng):
    acc = (Fr(0), Fr(0))
    for m, c in p.t.items():
        x = (c, c)
        for a, e in m:
            at = _atom_by_id[a]
            iv = rng.get(a) if rng else None
            if iv is None: iv = (at.lo, at.hi)
            elif at.lo is not None or at.hi is not None:
                iv = (at.lo if iv[0] is None else iv[0] if at.lo is None else max(iv[0], at.lo),
                      at.hi if iv[1] is None else iv[1] if at.hi is None else min(iv[1], at.hi))
            x = iv_mul(x, iv_pow(iv, e))
        acc = iv_add(acc, x)
        if acc == (None, None): return acc
    return acc
def r_range(r, rng=None):
    n = p_range(r.n, rng)
    if r.d is P1: return n
    d = p_range(r.d, rng)
    if (d[0] is not None and d[0] > 0) or (d[1] is not None and d[1] < 0):
        inv = (None if d[1] is None else 1 / d[1] if d[1] != 0 else None, None if d[0] is None else 1 / d[0] if d[0] != 0 else None)
        if d[0] is not None and d[0] > 0: inv = (Fr(0) if d[1] is None else 1 / d[1], 1 / d[0])
        else: inv = (1 / d[1], Fr(0) if d[0] is None else 1 / d[0])
        return iv_mul(n, inv)
    return (None, None)
def p_sign(p):
    """+1 / -1 if the polynomial is known positive / negative, 0 if >= 0, else None"""
    lo, hi = p_range(p)
    if lo is not None and lo > 0: return 1
    if hi is not None and hi < 0: return -1
    return None

# --------------------------------------------------------------------------
# conditions and decision diagrams

_conds = {}
_nconds = itertools.count()
_qids = {}
class Cond:
    """kind 'ge': Q >= t, 'gt': Q > t (Q without constant term, primitive, positive
    leading coefficient; integer Q only uses 'ge'); kind 'b': an opaque boolean atom."""
    __slots__ = ('kind', 'q', 't', 'id', 'fv', 'ld', 'isint', 'qid')
    def __repr__(self): return show_cond(self)

def _cond(kind, q, t):
    k = (kind, q, t)
    c = _conds.get(k)
    if c is None:
        c = Cond()
        c.kind, c.q, c.t = kind, q, t
        c.id = next(_nconds)
        c.qid = _qids.setdefault(q, len(_qids))
        if kind == 'b':
            c.fv, c.ld, c.isint = q.fv, q.ld, False
        else:
            r = _mkrat(q, P1)
            c.fv, c.ld = r.fv, r.ld
            c.isint = is_int_poly(q)
        _conds[k] = c
    return c

_leaves = {}
_nid = itertools.count()
class Leaf:
    __slots__ = ('v', 'id', 'fv', 'ld')
    supp = EMPTY
    def __repr__(self): return show(self)
class Node:
    __slots__ = ('c', 'hi', 'lo', 'id', 'fv', 'ld', 'supp')
    def __repr__(self): return show(self)
def leaf(v):
    k = (type(v), v)
    x = _leaves.get(k)
    if x is None:
        x = Leaf(); x.v = v; x.id = next(_nid)
        x.fv = getattr(v, 'fv', EMPTY); x.ld = getattr(v, 'ld', 0)
        _leaves[k] = x
    return x
_nodes = {}
def node(c, hi, lo):
    if hi is lo: return hi
    if hi is BOT: return lo
    if lo is BOT: return hi
    k = (c, hi, lo)
    x = _nodes.get(k)
    if x is None:
        x = Node(); x.c, x.hi, x.lo = c, hi, lo; x.id = next(_nid)
        x.fv = c.fv | hi.fv | lo.fv
        x.ld = max(c.ld, hi.ld, lo.ld)
        # the quantities the diagram tests
        x.supp = hi.supp | lo.supp | frozenset((c.qid,))
        _nodes[k] = x
    return x

class _Bot:
    fv = EMPTY; ld = 0
    def __repr__(self): return '_|_'
BOT = leaf(_Bot())
TRUE, FALSE = leaf(True), leaf(False)
def N(c): return leaf(R(c))
def num(a): return leaf(ratom(a))

_structs = {}
class Struct:
    """tag: opaque hashable (type id, 'tuple', ('closure', ty) ...)"""
    __slots__ = ('tag', 'f', 'id', 'fv', 'ld')
    def __repr__(self): return show(self)
def struct(tag, fields):
    fields = tuple(fields)
    k = (tag, fields)
    x = _structs.get(k)
    if x is None:
        x = Struct(); x.tag, x.f = tag, fields; x.id = next(_nid)
        x.fv, x.ld = _fv(fields), _ld(fields)
        _structs[k] = x
    return x
UNIT = struct('tuple', ())

class _Pay:
    __slots__ = ('k', 'id', 'fv', 'ld')
    def __repr__(self): return show_pay(self)
_pays = {}
def _pay(cls, k):
    kk = (cls, k)
    x = _pays.get(kk)
    if x is None:
        x = cls(); x.k = k; x.id = next(_nid)
        x.fv, x.ld = _fv(k), _ld(k)
        _pays[kk] = x
    return x
class Variant(_Pay):
    __slots__ = ()
    @property
    def idx(self): return self.k[0]
    @property
    def f(self): return self.k[1]
def variant(idx, fields=()): return leaf(_pay(Variant, (idx, tuple(fields))))
class Ptr(_Pay):
    """cell id and access path.  Elements: ('f',i) ('v',i) ('i',Value) ('s',start,len) ('arc',) ('val',key)"""
    __slots__ = ()
    @property
    def cell(self): return self.k[0]
    @property
    def path(self): return self.k[1]
def ptr(cell, path=()): return leaf(_pay(Ptr, (cell, tuple(path))))
class SeqV(_Pay):
    """pieces: ('lit', value) or ('comp', Rat count, Lam)"""
    __slots__ = ()
    @property
    def p(self): return self.k[0]
class Unk(_Pay):
    __slots__ = ()
def unknown(why): return leaf(_pay(Unk, (why,)))
class IterV(_Pay):
    """k = (source tree, pos Value)"""
    __slots__ = ()
    @property
    def src(self): return self.k[0]
    @property
    def pos(self): return self.k[1]
def iterv(src, pos): return leaf(_pay(IterV, (src, pos)))
class StrV(_Pay):
    """a string literal (compile-time constant)"""
    __slots__ = ()
def strv(s): return leaf(_pay(StrV, (s,)))
class MapV(_Pay):
    """k = (keys Value seq, vals Value seq) insertion content of an associative map"""
    __slots__ = ()

class Lam(_Pay):
    """k=(depth, body): a function of bv(depth)"""
    __slots__ = ()
    @property
    def body(self): return self.k[1]
    @property
    def d(self): return self.k[0]
def mk_lam(v, body):
    """v: the variable atom abstracted over"""
    d = body.ld + 1
    b = subst(body, {v.id: num(bv(d))})
    if b.ld >= d:
        d = b.ld + 1
        b = subst(body, {v.id: num(bv(d))})
    x = _pay(Lam, (d, b))
    x.ld = d
    x.fv = b.fv - frozenset([bv(d).id])
    return x
def lam_app(l, i):
    return subst(l.body, {bv(l.d).id: i if not isinstance(i, Rat) else leaf(i)})
def const_lam(v):
    x = _pay(Lam, (v.ld + 1, v)); x.ld = v.ld + 1; x.fv = v.fv
    return x

# --- theory context ----------------------------------------------------------
class Ctx:
    """what a path of a decision diagram implies: an interval per tested quantity, a value per opaque boolean"""
    __slots__ = ('iv', 'keys')
    def __init__(self, iv=None):
        self.iv = iv or {}
        self.keys = self.iv.keys()
    def decide(self, c):
        e = self.iv.get(c.qid)
        if e is None: return None
        if c.kind == 'b': return e
        lo, ls, hi, hs = e
        t = c.t
        if c.kind == 'ge':
            if lo is not None and (lo >= t): return True
            if hi is not None and (hi < t or (hi == t and hs)): return False
        else:
            if lo is not None and (lo > t or (lo == t and ls)): return True
            if hi is not None and hi <= t: return False
        return None
    def assume(self, c, val):
        iv = dict(self.iv)
        if c.kind == 'b':
            iv[c.qid] = val
            return Ctx(iv)
        e = self.iv.get(c.qid)
        if e is None:
            lo, hi = p_range(c.q)
            e = (lo, False, hi, False)
        lo, ls, hi, hs = e
        t = c.t
        if c.kind == 'ge':
            if val:
                if lo is None or t > lo: lo, ls = t, False
            elif c.isint:
                if hi is None or t - 1 < hi: hi, hs = t - 1, False
            else:
                if hi is None or t < hi or (t == hi and not hs): hi, hs = t, True
        else:
            if val:
                if lo is None or t > lo or (t == lo and not ls): lo, ls = t, True
            else:
                if hi is None or t < hi: hi, hs = t, False
        iv[c.qid] = (lo, ls, hi, hs)
        return Ctx(iv)
    def on(self, supp):
        """the part that concerns these quantities, hashable"""
        iv = self.iv
        return tuple(sorted((q, iv[q]) for q in supp if q in iv))
    def contradictory(self):
        for e in self.iv.values():
            if isinstance(e, bool): continue
            lo, ls, hi, hs = e
            if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs))): return True
        return False
C0 = Ctx()

_steps = [0]
LIMIT = 3000000
def _tick():
    _steps[0] += 1
    if _steps[0] > LIMIT: raise Undecided('analysis budget exceeded')

def top_cond(dds):
    best = None
    for d in dds:
        if isinstance(d, Node) and (best is None or d.c.id < best.id): best = d.c
    return best

_apply_memo = {}
def apply(f, args, ctx=C0, memo=None):
    """Apply f (on leaf payload values) to decision diagrams."""
    if all(not isinstance(a, Node) for a in args):
        return f(*args)
    if memo is None: memo = {}
    _tick()
    c = top_cond(args)
    v = ctx.decide(c)
    if v is not None:
        return apply(f, [((a.hi if v else a.lo) if isinstance(a, Node) and a.c is c else a) for a in args], ctx, memo)
    hi = apply(f, [(a.hi if isinstance(a, Node) and a.c is c else a) for a in args], ctx.assume(c, True), memo)
    lo = apply(f, [(a.lo if isinstance(a, Node) and a.c is c else a) for a in args], ctx.assume(c, False), memo)
    return join(c, hi, lo)

def join(c, hi, lo):
    """Value that is hi where c holds, lo elsewhere; hi and lo may contain conditions
    that are not ordered after c, so rebuild with proper order."""
    if hi is lo: return hi
    if hi is BOT: return lo
    if lo is BOT: return hi
    if isinstance(hi, Struct) or isinstance(lo, Struct):
        if isinstance(hi, Struct) and isinstance(lo, Struct) and len(hi.f) == len(lo.f) and hi.tag == lo.tag:
            return struct(hi.tag, [join(c, a, b) for a, b in zip(hi.f, lo.f)])
        if (isinstance(hi, Leaf) and isinstance(hi.v, Unk)) or (isinstance(lo, Leaf) and isinstance(lo.v, Unk)): return unknown('merge')
        if isinstance(hi, Struct) and isinstance(lo, Struct): raise Undecided('merging structures of different types: %s / %s' % (hi.tag, lo.tag))
        raise Undecided('merging a structure with a scalar')
    t = top_cond((hi, lo))
    if t is None or c.id < t.id:
        # merge variants with the same index
        if isinstance(hi, Leaf) and isinstance(lo, Leaf):
            a, b = hi.v, lo.v
            if isinstance(a, Variant) and isinstance(b, Variant) and a.idx == b.idx and len(a.f) == len(b.f) and len(a.f):
                return variant(a.idx, [join(c, x, y) for x, y in zip(a.f, b.f)])
            m = _merge_ptr(c, a, b)
            if m is not None: return m
        return node(c, hi, lo)
    # order: t before c
    return ite_node(c, hi, lo, C0)

def _merge_ptr(c, a, b):
    """pointers that differ only in numeric path components merge pointwise"""
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell == b.cell and len(a.path) == len(b.path):
        out = []
        for x, y in zip(a.path, b.path):
            if x == y: out.append(x)
            elif x[0] == y[0] == 'i': out.append(('i', join(c, x[1], y[1])))
            elif x[0] == y[0] == 's': out.append(('s', join(c, x[1], y[1]), join(c, x[2], y[2])))
            else: return None
        return ptr(a.cell, out)
    return None

def ite_node(c, hi, lo, ctx):
    v = ctx.decide(c)
    if v is not None: return restrict_ctx(hi if v else lo, ctx)
    t = top_cond((hi, lo))
    if t is None: return join(c, hi, lo)
    if c.id <= t.id:
        h = restrict_ctx(hi, ctx.assume(c, True))
        l = restrict_ctx(lo, ctx.assume(c, False))
        if isinstance(h, (Leaf, Node)) and isinstance(l, (Leaf, Node)): 
            return _final(c, h, l)
        return join(c, h, l)
    _tick()
    tv = ctx.decide(t)
    if tv is not None:
        return ite_node(c, pick(hi, t, tv), pick(lo, t, tv), ctx)
    h = ite_node(c, pick(hi, t, True), pick(lo, t, True), ctx.assume(t, True))
    l = ite_node(c, pick(hi, t, False), pick(lo, t, False), ctx.assume(t, False))
    if isinstance(h, (Leaf, Node)) and isinstance(l, (Leaf, Node)): return _final(t, h, l)
    return join(t, h, l)
def _final(c, h, l):
    if isinstance(h, Leaf) and isinstance(l, Leaf):
        return join(c, h, l)
    return node(c, h, l)
def pick(d, c, v):
    if isinstance(d, Node) and d.c is c: return d.hi if v else d.lo
    return d

def restrict_ctx(d, ctx):
    """simplify under what ctx implies"""
    if isinstance(d, Struct): return struct(d.tag, [restrict_ctx(x, ctx) for x in d.f])
    if not isinstance(d, Node): return d
    if d.supp.isdisjoint(ctx.keys): return d
    return _rctx(d, ctx, frozenset(ctx.keys))
_rctx_memo = {}
def _rctx(d, ctx, keys):
    # d is reduced in itself, so only quantities the outer context knows about matter
    if not isinstance(d, Node) or d.supp.isdisjoint(keys): return d
    v = ctx.decide(d.c)
    if v is not None: return _rctx(d.hi if v else d.lo, ctx, keys)
    k = (d, ctx.on(d.supp & keys))
    r = _rctx_memo.get(k)
    if r is not None: return r
    _tick()
    h = _rctx(d.hi, ctx.assume(d.c, True), keys)
    l = _rctx(d.lo, ctx.assume(d.c, False), keys)
    if h is d.hi and l is d.lo: r = d
    elif isinstance(h, Struct) or isinstance(l, Struct): r = join(d.c, h, l)
    else: r = _final(d.c, h, l)
    _rctx_memo[k] = r
    return r

def ite(c, a, b):
    """c: boolean diagram; a, b: any values"""
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is BOT: return b
    if b is BOT: return a
    if isinstance(a, Struct) and isinstance(b, Struct):
        if a.tag != b.tag or len(a.f) != len(b.f): raise Undecided('merging structures of different types %s %s' % (a.tag, b.tag))
        return struct(a.tag, [ite(c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Struct) or isinstance(b, Struct):
        o = b if isinstance(a, Struct) else a
        if isinstance(o, Leaf) and isinstance(o.v, Unk): return unknown('merge')
        # a symbolic object meeting an explicit structure
        raise Undecided('merging a structure with a scalar')
    return _ite3(c, a, b, C0)
def _ite3(c, a, b, ctx):
    if c is TRUE: return restrict_ctx(a, ctx)
    if c is FALSE: return restrict_ctx(b, ctx)
    if c is BOT: return BOT
    if isinstance(c, Leaf): 
        raise Undecided('condition is unknown')
    if a is b: return restrict_ctx(a, ctx)
    t = top_cond((c, a, b))
    v = ctx.decide(t)
    if v is not None: return _ite3(pick(c, t, v), pick(a, t, v), pick(b, t, v), ctx)
    mk = (c, a, b, ctx.on(c.supp | a.supp | b.supp))
    r = _ite3_memo.get(mk)
    if r is not None: return r
    _tick()
    h = _ite3(pick(c, t, True), pick(a, t, True), pick(b, t, True), ctx.assume(t, True))
    l = _ite3(pick(c, t, False), pick(a, t, False), pick(b, t, False), ctx.assume(t, False))
    r = _final(t, h, l)
    _ite3_memo[mk] = r
    return r
_ite3_memo = {}

def dmap(d, f, ctx=C0):
    """map a leaf function returning any value over a diagram"""
    if isinstance(d, Leaf):
        if d is BOT: return BOT
        return f(d)
    if isinstance(d, Struct): return f(d)
    v = ctx.decide(d.c)
    if v is not None: return dmap(d.hi if v else d.lo, f, ctx)
    _tick()
    h = dmap(d.hi, f, ctx.assume(d.c, True))
    l = dmap(d.lo, f, ctx.assume(d.c, False))
    return ite(node(d.c, TRUE, FALSE), h, l)

def lift(f):
    """lift f(payload,...)->value over diagrams"""
    def g(*args):
        for a in args:
            if isinstance(a, Struct): raise Undecided('operation on a structure')
        def ff(*ls):
            for l in ls:
                if l is BOT: return BOT
                if isinstance(l.v, Unk): return l
            return f(*[l.v for l in ls])
        return _apply_any(ff, list(args), C0)
    return g
def _apply_any(f, args, ctx):
    c = top_cond(args)
    if c is None: return restrict_ctx(f(*args), ctx)
    v = ctx.decide(c)
    if v is not None: return _apply_any(f, [pick(a, c, v) for a in args], ctx)
    _tick()
    h = _apply_any(f, [pick(a, c, True) for a in args], ctx.assume(c, True))
    l = _apply_any(f, [pick(a, c, False) for a in args], ctx.assume(c, False))
    if h is l: return h
    return ite(node(c, TRUE, FALSE), h, l)

# booleans
def b_not(a): return apply(lambda x: BOT if x is BOT else _bn(x), [a])
def _bn(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    if isinstance(x.v, Unk): return x
    raise Undecided('not a boolean: %r' % (x,))
def b_and(a, b):
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE or b is FALSE: return FALSE
    return ite(a, b, FALSE)
def b_or(a, b):
    if a is FALSE: return b
    if b is FALSE: return a
    if a is TRUE or b is TRUE: return TRUE
    return ite(a, TRUE, b)
def b_atom(at): return node(_cond('b', at, None), TRUE, FALSE)

def restrict(v, pc):
    """simplify v assuming pc (a boolean diagram); don't-care where pc is false"""
    if pc is TRUE or pc is FALSE: return v
    if isinstance(v, Struct): return struct(v.tag, [restrict(x, pc) for x in v.f])
    if isinstance(v, Leaf):
        return v
    return _restrict(v, pc, C0)
def _restrict(v, pc, ctx):
    if pc is FALSE: return BOT
    if pc is TRUE: return restrict_ctx(v, ctx)
    if isinstance(v, Leaf): return v
    _tick()
    t = top_cond((v, pc))
    k = ctx.decide(t)
    if k is not None: return _restrict(pick(v, t, k), pick(pc, t, k), ctx)
    ph, pl = pick(pc, t, True), pick(pc, t, False)
    h = _restrict(pick(v, t, True), ph, ctx.assume(t, True))
    l = _restrict(pick(v, t, False), pl, ctx.assume(t, False))
    if h is BOT: return l
    if l is BOT: return h
    # pc tests t but v does not depend on it
    if h is l: return h
    return _final(t, h, l)

def paths(d, ctx=C0):
    """(ctx, leaf) for each consistent path"""
    if isinstance(d, Leaf):
        yield ctx, d
        return
    _tick()
    v = ctx.decide(d.c)
    if v is not None:
        yield from paths(d.hi if v else d.lo, ctx)
        return
    yield from paths(d.hi, ctx.assume(d.c, True))
    yield from paths(d.lo, ctx.assume(d.c, False))

# --- comparisons -------------------------------------------------------------
def _prim(p):
    """(Q, t, s): p = s*(Q - t) with Q primitive, positive lead, no constant"""
    c = p.t.get(ONE_M, Fr(0))
    q = {m: v for m, v in p.t.items() if m != ONE_M}
    Q = Poly(q)
    ml = p_lead(Q)
    from math import gcd
    g = 0; l = 1
    for v in q.values():
        g = gcd(g, v.numerator)
        l = l * v.denominator // gcd(l, v.denominator)
    s = Fr(g, l)
    # content of fractions: gcd(num)/lcm(den)
    nums = 0
    for v in q.values(): nums = gcd(nums, int(v * l))
    s = Fr(nums, l)
    if q[ml] < 0: s = -s
    Q = p_scale(Q, 1 / s)
    return Q, -c / s, s

_floor_atoms = set()
def _cmp(p, strict):
    """p > 0 (strict) or p >= 0 as a diagram, p a polynomial"""
    c = p.const()
    if c is not None: return TRUE if (c > 0 if strict else c >= 0) else FALSE
    # integer valued: normalise to >=, drop a floor
    if is_int_poly(p):
        if strict: p, strict = p_add(p, p_const(-1)), False
        for m, k in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1:
                at = _atom_by_id[m[0][0]]
                if at.kind == 'floor' and not any(any(a == at.id for a, _ in m2) for m2 in p.t if m2 != m):
                    rest = Poly({m2: v for m2, v in p.t.items() if m2 != m})
                    if k == 1: return cmp_rat(r_add(at.args[0], _mkrat(rest, P1)), False)
                    return cmp_rat(r_sub(_mkrat(p_add(rest, P1), P1), at.args[0]), True)
    lo, hi = p_range(p)
    if lo is not None and (lo > 0 or (lo == 0 and not strict)): return TRUE
    if hi is not None and (hi < 0 or (hi == 0 and strict)): return FALSE
    x = _cmp_mod(p, strict)
    if x is not None: return x
    Q, t, s = _prim(p)
    isint = is_int_poly(Q)
    if s > 0:
        if isint:
            t2 = Fr(math.floor(t) + 1) if strict else Fr(math.ceil(t))
            return node(_cond('ge', Q, t2), TRUE, FALSE)
        return node(_cond('gt' if strict else 'ge', Q, t), TRUE, FALSE)
    # Q < t (strict) or Q <= t
    if isint:
        # Q < t <=> not Q >= ceil(t); Q <= t <=> not Q >= floor(t)+1
        t2 = Fr(math.ceil(t)) if strict else Fr(math.floor(t) + 1)
        return node(_cond('ge', Q, t2), FALSE, TRUE)
    return node(_cond('ge' if strict else 'gt', Q, t), FALSE, TRUE)

def _cmp_mod(p, strict):
    """M*floor(x/M) is x minus a remainder in 0..M-1, for integers x and M (M is not 0 where x/M is defined)"""
    if not any(_atom_by_id[a].kind == 'floor' for m in p.t for a, _ in m): return None
    for m, c in p.t.items():
        if len(m) != 2 or m[0][1] != 1 or m[1][1] != 1: continue
        for (f, _), (w, _) in (m, m[::-1]):
            F, W = _atom_by_id[f], _atom_by_id[w]
            if F.kind != 'floor' or W.sort != 'int' or W.lo is None or W.lo < 0: continue
            r = F.args[0]
            if r.d is P1 or r.d != p_atom(W) or not is_int_poly(r.n): continue
            base = p_add(Poly({m2: v for m2, v in p.t.items() if m2 != m}), p_scale(r.n, c))
            far = p_add(base, p_scale(p_add(p_atom(W), p_const(-1)), -c))
            low, high = (far, base) if c > 0 else (base, far)
            rng = {w: (Fr(1), None)}
            lo, hi = p_range(low, rng)[0], p_range(high, rng)[1]
            if lo is not None and (lo > 0 or (lo == 0 and not strict)): return TRUE
            if hi is not None and (hi < 0 or (hi == 0 and strict)): return FALSE
    return None
def cmp_rat(r, strict):
    if r.d is P1:
        # drop a positive monomial factor
        k = r.n.t.get(ONE_M)
        if not strict and k == -1 and len(r.n.t) > 1 and is_int(r):
            # whole numbers: p >= 1 is p > 0
            p = p_add(r.n, P1); q = _drop_pos(p)
            if q is not p: return _cmp(q, True)
        return _cmp(_drop_pos(r.n), strict)
    s = p_sign(r.d)
    if s == 1: return _cmp(_drop_pos(r.n), strict)
    if s == -1: return _cmp(_drop_pos(p_neg(r.n)), strict)
    return _cmp(p_mul(r.n, r.d), strict)
def _drop_pos(p):
    if len(p.t) <= 1 and ONE_M in p.t: return p
    c = _monocontent(p) if p.t else {}
    d = {x: e for x, e in c.items() if _atom_by_id[x].lo is not None and _atom_by_id[x].lo > 0}
    return _monodiv(p, d) if d else p

def gt(a, b): return lift(lambda x, y: cmp_rat(r_sub(_n(x), _n(y)), True))(a, b)
def ge(a, b): return lift(lambda x, y: cmp_rat(r_sub(_n(x), _n(y)), False))(a, b)
def lt(a, b): return gt(b, a)
def le(a, b): return ge(b, a)
def _n(x):
    if isinstance(x, Rat): return x
    if x is True: return R1
    if x is False: return R0
    raise Undecided('number expected, got %r' % (x,))
def _eq(x, y):
    if isinstance(x, bool) and isinstance(y, bool): return TRUE if x == y else FALSE
    if isinstance(x, Rat) and isinstance(y, Rat):
        if x is y: return TRUE
        ax, ay = x.single(), y.single()
        if (ax is not None and ax.sort == 'obj') or (ay is not None and ay.sort == 'obj'):
            return b_atom(atom('objeq', tuple(sorted((x, y), key=lambda r: r.id)), 'obj'))
        d = r_sub(x, y)
        return b_and(cmp_rat(d, False), cmp_rat(r_neg(d), False))
    if isinstance(x, Variant) and isinstance(y, Variant):
        if x.idx != y.idx: return FALSE
        r = TRUE
        for a, b in zip(x.f, y.f): r = b_and(r, eq(a, b))
        return r
    if isinstance(x, StrV) and isinstance(y, StrV): return TRUE if x is y else FALSE
    if x is y: return TRUE
    raise Undecided('equality of %r and %r' % (x, y))
def eq(a, b):
    if isinstance(a, Struct) and isinstance(b, Struct):
        r = TRUE
        for x, y in zip(a.f, b.f): r = b_and(r, eq(x, y))
        return r
    return lift(_eq)(a, b)

# --- numeric operations on values --------------------------------------------
add = lift(lambda x, y: leaf(r_add(_n(x), _n(y))))
sub = lift(lambda x, y: leaf(r_sub(_n(x), _n(y))))
mul = lift(lambda x, y: leaf(r_mul(_n(x), _n(y))))
div = lift(lambda x, y: leaf(r_div(_n(x), _n(y))))
neg = lift(lambda x: leaf(r_neg(_n(x))))
def vabs(a): return lift(lambda x: ite(cmp_rat(x, False), leaf(x), leaf(r_neg(x))))(a)
def vmin(a, b): return ite(lt(a, b), a, b) if a is not b else a
def vmax(a, b): return ite(gt(a, b), a, b) if a is not b else a
def clampv(x, lo, hi): return ite(lt(x, lo), lo, ite(gt(x, hi), hi, x))

def _floor(r):
    c = r.const()
    if c is not None: return leaf(R(math.floor(c)))
    if is_int(r): return leaf(r)
    # split off the integer part
    if r.d is P1:
        ip, fp = {}, {}
        for m, c in r.n.t.items():
            q = Poly({m: Fr(1)})
            if m == ONE_M:
                k = Fr(math.floor(c))
                if k: ip[m] = k
                if c - k: fp[m] = c - k
            elif is_int_poly(q):
                k = Fr(math.floor(c))
                if c.denominator == 1: ip[m] = c
                else:
                    if k: ip[m] = k
                    fp[m] = c - k
            else: fp[m] = c
        I, F = _mkrat(Poly(ip), P1), Poly(fp)
        # floor((floor(x)+m)/n) = floor((x+m)/n)
        fl = [(m, c) for m, c in F.t.items() if len(m) == 1 and m[0][1] == 1 and _atom_by_id[m[0][0]].kind == 'floor']
        if len(fl) == 1 and fl[0][1] > 0 and fl[0][1].numerator == 1:
            n = fl[0][1].denominator
            rest = Poly({m: c for m, c in F.t.items() if m != fl[0][0]})
            if is_int_poly(p_scale(rest, Fr(n))):
                inner = _atom_by_id[fl[0][0][0][0]].args[0]
                F = r_add(r_mul(inner, R(Fr(1, n))), _mkrat(rest, P1))
                return add(leaf(I), _floor(F))
        F = _mkrat(F, P1)
    else:
        I, F = R0, r
    lo, hi = r_range(F)
    if lo is not None and hi is not None and math.floor(lo) == math.floor(hi):
        return leaf(r_add(I, R(math.floor(lo))))
    # integer numerator over n: range is closed at (n-1)/n steps
    if F.d is P1:
        l = 1
        for v in F.n.t.values(): l = l * v.denominator // math.gcd(l, v.denominator)
        if l > 1 and is_int_poly(p_scale(F.n, Fr(l))) and hi is not None and lo is not None:
            if math.floor(lo) == math.floor(hi): return leaf(r_add(I, R(math.floor(lo))))
    if F.d is P1:
        # over the integers floor(n/l) = -floor((l-1-n)/l): keep the orientation with the smaller leading coefficient
        l = 1
        for v in F.n.t.values(): l = l * v.denominator // math.gcd(l, v.denominator)
        if l > 1 and is_int_poly(p_scale(F.n, Fr(l))):
            ms = [m for m in F.n.t if m != ONE_M]
            if ms and F.n.t[min(ms)] > Fr(1, 2):
                return sub(leaf(I), _floor(r_sub(R(Fr(l - 1, l)), F)))
    a = atom('floor', (F,), 'int', None if lo is None else math.floor(lo), None if hi is None else math.floor(hi))
    return leaf(r_add(I, ratom(a)))
floor = lift(lambda x: _floor(_n(x)))
def ceil(a): return neg(floor(neg(a)))
def trunc(a): return ite(lt(a, N(0)), ceil(a), floor(a))
HALF = N(Fr(1, 2))
def vround(a):
    return ite(lt(a, N(0)), neg(floor(add(neg(a), HALF))), floor(add(a, HALF)))

def fn1(name, x, sort='real', lo=None, hi=None):
    return leaf(ratom(atom(name, (x,), sort, lo, hi)))

PI = atom('pi', (), 'real', Fr(3141592653589793, 10**15), Fr(3141592653589794, 10**15))
LN10 = atom('ln10', (), 'real', Fr(2302585092994045, 10**15), Fr(2302585092994046, 10**15))
RPI, RLN10 = ratom(PI), ratom(LN10)

def p_sqrt(p):
    """polynomial square root or None"""
    if not p.t: return P0
    c = p.const()
    if c is not None:
        if c < 0: return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        return p_const(Fr(a, b)) if a * a == c.numerator and b * b == c.denominator else None
    lm = max(p.t, key=_gk)
    if any(e % 2 for _, e in lm): return None
    lc = p_sqrt(p_const(p.t[lm]))
    if lc is None: return None
    m0 = tuple((a, e // 2) for a, e in lm)
    q = Poly({m0: lc.const()})
    for _ in range(40):
        r = p_sub(p, p_mul(q, q))
        if not r.t: return q
        m = max(r.t, key=_gk)
        d = dict(m)
        ok = True
        for a, e in m0:
            k = d.get(a, 0) - e
            if k < 0: ok = False
            d[a] = k
        if not ok: return None
        t = tuple(sorted((a, e) for a, e in d.items() if e))
        q2 = p_add(q, Poly({t: r.t[m] / (2 * lc.const())}))
        if t in q.t: return None
        q = q2
    return None
def _gk(m):
    # lexicographic monomial order (a proper admissible order)
    d = dict(m)
    return tuple(sorted(((-a, e) for a, e in d.items()), reverse=True)) and _lex(d)
def _lex(d):
    if not d: return ()
    mx = sorted(d)
    return _LexKey(d)
class _LexKey:
    __slots__ = ('d',)
    def __init__(self, d): self.d = d
    def __lt__(self, o):
        for a in sorted(set(self.d) | set(o.d)):
            x, y = self.d.get(a, 0), o.d.get(a, 0)
            if x != y: return x < y
        return False
    def __gt__(self, o): return o.__lt__(self)
    def __eq__(self, o): return self.d == o.d
def _gk(m): return _LexKey(dict(m))

def _squarefree(n):
    s, k, d = 1, n, 2
    while d * d <= k and d < 2000:
        while k % (d * d) == 0:
            k //= d * d; s *= d
        d += 1
    return s, k
def _sqrt(r):
    c = r.const()
    if c is not None:
        if c < 0: return leaf(ratom(atom('sqrt', (r,))))
        s, k = _squarefree(c.numerator * c.denominator)
        q = Fr(s, c.denominator)
        if k == 1: return leaf(R(q))
        return leaf(r_mul(R(q), ratom(atom('sqrt', (R(k),), 'real', Fr(math.isqrt(k)), Fr(math.isqrt(k) + 1)))))
    a = p_sqrt(r.n)
    if a is not None:
        b = p_sqrt(r.d)
        if b is not None:
            return vabs(leaf(rat(a, b)))
    return leaf(ratom(atom('sqrt', (r,), 'real', 0)))
sqrt = lift(lambda x: _sqrt(_n(x)))

_COS = {Fr(0): 1, Fr(1, 3): Fr(1, 2), Fr(1, 2): 0, Fr(2, 3): Fr(-1, 2), Fr(1): -1}
def _picoef(r):
    """c if r == c*pi"""
    q = r_div0(r, RPI)
    return q.const()
def _cos(r):
    r = _turns(r)
    c = _picoef(r)
    if c is not None:
        c = abs(c) % 2
        if c > 1: c = 2 - c
        if c in _COS: return leaf(R(_COS[c]))
    # even: canonical sign
    if r.n.t and r.n.t[p_lead(r.n)] < 0: r = r_neg(r)
    return fn1('cos', r, 'real', -1, 1)
def _turns(r):
    """drop whole turns: 2*pi*k for integer-valued k"""
    if r.d is not P1: return r
    pi = atom('pi', ())
    t, ch = {}, False
    for m, c in r.n.t.items():
        d = dict(m)
        if d.get(pi.id) == 1 and all(a == pi.id or (_atom_by_id[a].sort == 'int' and e > 0) for a, e in m):
            k = c % 2
            if k > 1: k -= 2
            if k != c: ch = True; c = k
            if not c: continue
        t[m] = c
    return rat(Poly(t)) if ch else r
def _sin(r):
    r = _turns(r)
    c = _picoef(r)
    if c is not None:
        c = (c - Fr(1, 2)) % 2
        if c > 1: c = 2 - c
        if c in _COS: return leaf(R(_COS[c]))
    if r.n.t and r.n.t[p_lead(r.n)] < 0: return neg(fn1('sin', r_neg(r), 'real', -1, 1))
    return fn1('sin', r, 'real', -1, 1)
def _tan(r):
    if not r.n.t: return N(0)
    c = _picoef(r)
    if c is not None and c == Fr(1, 4): return N(1)
    if r.n.t[p_lead(r.n)] < 0: return neg(fn1('tan', r_neg(r)))
    return fn1('tan', r)
cos = lift(lambda x: _cos(_n(x)))
sin = lift(lambda x: _sin(_n(x)))
tan = lift(lambda x: _tan(_n(x)))
def _exp(r):
    if not r.n.t: return N(1)
    a = r.single()
    if a is not None and a.kind == 'ln': return leaf(a.args[0])
    q = r_div0(r, RLN10)
    c = q.const()
    if c is not None and c.denominator == 1 and abs(c) < 400: return leaf(R(Fr(10) ** int(c)))
    return fn1('exp', r, 'real', 0)
def _ln(r):
    c = r.const()
    if c is not None and c == 1: return N(0)
    if c is not None and c > 0:
        k = 0; x = c
        while x.denominator == 1 and x.numerator % 10 == 0: x /= 10; k += 1
        while x.numerator == 1 and x.denominator % 10 == 0: x *= 10; k -= 1
        if x == 1: return leaf(r_mul(R(k), RLN10))
    a = r.single()
    if a is not None and a.kind == 'exp': return leaf(a.args[0])
    return fn1('ln', r)
exp = lift(lambda x: _exp(_n(x)))
ln = lift(lambda x: _ln(_n(x)))
def log10(a): return div(ln(a), leaf(RLN10))
def exp10(a): return exp(mul(a, leaf(RLN10)))
def _pow(b, e):
    c = e.const()
    if c is not None and c.denominator == 1 and abs(c) <= 64:
        k = int(c)
        r = R1
        for _ in range(abs(k)): r = r_mul(r, b)
        return leaf(r if k >= 0 else r_div(R1, r))
    if c is not None and c == Fr(1, 2): return _sqrt(b)
    bc = b.const()
    if bc is not None and bc > 0: return exp(mul(leaf(e), _ln(b)))
    return leaf(ratom(atom('pow', (b, e))))
vpow = lift(lambda b, e: _pow(_n(b), _n(e)))

def wrap(a, bits, signed):
    """reduce an exact integer to a machine integer of that width"""
    m = 1 << bits
    def f(x):
        x = _n(x)
        lo, hi = r_range(x)
        l, h = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
        if lo is not None and hi is not None and lo >= l and hi <= h: return leaf(x)
        if signed: return sub(leaf(x), mul(N(m), _floor(r_div(r_add(x, R(m >> 1)), R(m)))))
        return sub(leaf(x), mul(N(m), _floor(r_div(x, R(m)))))
    return lift(f)(a)

def wrapc(a, bits, signed):
    """wrap, where the value is known"""
    m = 1 << bits
    l, h = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
    def f(x):
        if not isinstance(x, Rat): return leaf(x)
        c = x.const()
        if c is None or l <= c <= h: return leaf(x)
        return N((c - l) % m + l)
    return lift(f)(a)

def toint(a, bits, signed):
    """saturating float -> integer conversion (`as`)"""
    m = 1 << bits
    lo, hi = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
    def f(x):
        x = _n(x)
        X = leaf(x)
        r = trunc(X) if signed else floor(X)
        r = ite(lt(X, N(lo)), N(lo), r)
        if bits < 64: r = ite(gt(X, N(hi)), N(hi), r)
        return r
    return lift(f)(a)

# --------------------------------------------------------------------------
# substitution

def subst(v, m):
    """m: {var atom id: Value}; applies to any value"""
    if not m: return v
    return _Subst(m).val(v)

def leaves_of(v, seen=None):
    seen = set() if seen is None else seen
    if v.id in seen: return
    seen.add(v.id)
    if isinstance(v, Struct):
        for x in v.f: yield from leaves_of(x, seen)
    elif isinstance(v, Node):
        yield from leaves_of(v.hi, seen); yield from leaves_of(v.lo, seen)
    else: yield v

class _Subst:
    def __init__(self, m):
        self.m = m
        self.dom = frozenset(m)
        self.memo = {}
    whole = True
    def again(self, x): return subst(x, self.m)
    def hit(self, x): return bool(x.fv & self.dom)
    def val(self, v):
        if not self.hit(v): return v
        k = v.id, type(v) is Struct
        r = self.memo.get(k)
        if r is None:
            r = self._val(v)
            self.memo[k] = r
        return r
    def _val(self, v):
        if isinstance(v, Struct): return struct(v.tag, [self.val(x) for x in v.f])
        if isinstance(v, Leaf): return self.pay(v.v)
        return ite(self.cond(v.c), self.val(v.hi), self.val(v.lo))
    def cond(self, c):
        if not self.hit(c): return node(c, TRUE, FALSE)
        if c.kind == 'b': return self.atomval(c.q, boolean=True)
        q = self.poly(c.q)
        return lift(lambda x: cmp_rat(r_sub(_n(x), R(c.t)), c.kind == 'gt'))(q)
    def poly(self, p):
        acc = N(0)
        keep = {}
        for mo, c in p.t.items():
            if not any(_atom_by_id[a].fv & self.dom for a, _ in mo):
                keep[mo] = c
                continue
            x = N(c)
            for a, e in mo:
                y = self.atomval(_atom_by_id[a])
                for _ in range(e): x = mul(x, y)
            acc = add(acc, x)
        if keep: acc = add(acc, leaf(_mkrat(Poly(keep), P1)))
        return acc
    def rat(self, r):
        n = self.poly(r.n)
        if r.d is P1: return n
        return div(n, self.poly(r.d))
    def atomval(self, a, boolean=False):
        if a.id in self.m and a.kind == 'var': return self.m[a.id]
        if not (a.fv & self.dom): return b_atom(a) if boolean else leaf(ratom(a))
        k = ('a', a.id, boolean)
        r = self.memo.get(k)
        if r is None:
            args = [self.arg(x) for x in a.args]
            r = rebuild(a, args, boolean)
            self.memo[k] = r
        return r
    def arg(self, x):
        """argument of an atom -> value (or unchanged non-value)"""
        if isinstance(x, tuple): return tuple(self.arg(y) for y in x)
        if isinstance(x, Rat): return self.rat(x) if self.hit(x) else leaf(x)
        if isinstance(x, Atom): return self.atomval(x) if self.hit(x) else x
        if isinstance(x, Lam): return self.lam(x)
        if isinstance(x, (Leaf, Node, Struct)): return self.val(x)
        if isinstance(x, _Pay): return self.pay(x) if self.hit(x) else x
        return x
    def lam(self, l):
        if not self.hit(l): return l
        b = self.val(l.body)
        # avoid capture: the substituted values may contain lambdas as deep as l.d
        mx = 0
        for i in l.fv & self.dom:
            v = self.m.get(i)
            if v is not None:
                if v.ld > mx: mx = v.ld
        if b.ld >= l.d or mx >= l.d or any(_atom_by_id[i].args[0] == 'bv%d' % l.d for j in (l.fv & self.dom) for i in self.m[j].fv):
            t = fresh('cap', 'int', 0)
            b = self.again(subst(l.body, {bv(l.d).id: num(t)}))
            return mk_lam(t, b)
        x = _pay(Lam, (l.d, b)); x.ld = l.d; x.fv = b.fv - frozenset([bv(l.d).id])
        return x
    def pay(self, p):
        if isinstance(p, Rat): return self.rat(p)
        if isinstance(p, Variant): return variant(p.idx, [self.val(x) for x in p.f])
        if isinstance(p, Ptr): return ptr(p.cell, [tuple(self.val(y) if isinstance(y, (Leaf, Node, Struct)) else y for y in e) for e in p.path])
        if isinstance(p, SeqV):
            out = N_EMPTY
            for q in p.p:
                if q[0] == 'lit': out = seq_cat(out, seq_lit([self.val(q[1])])); continue
                eta = ETA.get(q[2].id)
                if self.whole and eta is not None and eta[0] in self.m and eta[1] is q[1]:
                    new = self.m[eta[0]]
                    if all(isinstance(l.v, SeqV) for l in leaves_of(new) if l is not BOT):
                        # the whole of an unknown sequence: put the replacement itself
                        out = seq_cat(out, new); continue
                if True: out = seq_cat(out, seq_comp(self.rat(q[1]) if self.hit(q[1]) else leaf(q[1]), self.lam(q[2])))
            return out
        if isinstance(p, IterV): return iterv(self.arg(p.src), self.val(p.pos))
        if isinstance(p, MapV): return leaf(_pay(MapV, tuple(self.arg(x) for x in p.k)))
        if isinstance(p, (Unk, StrV)): return leaf(p)
        raise Undecided('substitution in %r' % (p,))

REBUILD = {}
ETA = {}      # lambda id -> (sequence atom, its length): the elements of an unknown sequence
def rebuild(a, args, boolean=False):
    f = REBUILD.get(a.kind)
    if f is not None: return f(a, args, boolean)
    return generic_rebuild(a, args, boolean)
def generic_rebuild(a, args, boolean):
    """lift diagrams among Value args, keep the rest"""
    idx = [i for i, x in enumerate(args) if isinstance(x, (Leaf, Node, Struct)) ]
    for i in idx:
        if isinstance(args[i], Struct): 
            # opaque function of a structure
            pass
    vals = [args[i] for i in idx if not isinstance(args[i], Struct)]
    idx2 = [i for i in idx if not isinstance(args[i], Struct)]
    def f(*ps):
        out = list(args)
        for i, p in zip(idx2, ps):
            out[i] = p if isinstance(a.args[i], (Rat,)) or isinstance(p, Rat) else leaf(p)
            if isinstance(a.args[i], Atom):
                s = p.single() if isinstance(p, Rat) else None
                out[i] = s if s is not None else (p if isinstance(p, Rat) else leaf(p))
            elif isinstance(a.args[i], (Leaf, Node, Struct)):
                out[i] = leaf(p)
        at = atom(a.kind, tuple(out), a.sort)
        if a.lo is not None and at.lo is None and a.kind in KEEP_BOUNDS: at.lo = a.lo
        if a.hi is not None and at.hi is None and a.kind in KEEP_BOUNDS: at.hi = a.hi
        return b_atom(at) if boolean else leaf(ratom(at))
    if not vals: return f()
    return lift(f)(*vals)
KEEP_BOUNDS = {'res', 'proj', 'at', 'len', 'disc'}
REBUILD['floor'] = lambda a, g, b: floor(g[0])
def _reb_fp(a, g, boolean):
    # Add and Mul commute: operands in canonical order again
    if a.args[0] not in ('Add', 'Mul') or len(g) != 4: return generic_rebuild(a, g, boolean)
    return lift(lambda x, y: leaf(ratom(atom('fp', tuple(a.args[:2]) + tuple(sorted((_n(x), _n(y)), key=lambda r: r.id)), 'real'))))(g[2], g[3])
def _reb_fcmp(a, g, boolean):
    if a.args[0] != 'Eq' or len(g) != 3: return generic_rebuild(a, g, boolean)
    r = lift(lambda x, y: b_atom(atom('fcmp', ('Eq',) + tuple(sorted((_n(x), _n(y)), key=lambda r: r.id)), 'bool')))(g[1], g[2])
    return r
REBUILD['fp'], REBUILD['fcmp'] = _reb_fp, _reb_fcmp
REBUILD['sqrt'] = lambda a, g, b: sqrt(g[0])
REBUILD['cos'] = lambda a, g, b: cos(g[0])
REBUILD['sin'] = lambda a, g, b: sin(g[0])
REBUILD['tan'] = lambda a, g, b: tan(g[0])
REBUILD['exp'] = lambda a, g, b: exp(g[0])
REBUILD['ln'] = lambda a, g, b: ln(g[0])
REBUILD['pow'] = lambda a, g, b: vpow(g[0], g[1])
REBUILD['div0'] = lambda a, g, b: lift(lambda x: leaf(ratom(atom('div0', (_n(x),)))))(g[0])

# --------------------------------------------------------------------------
# sequences

def seqv(pieces):
    """canonical sequence from a piece list (counts are Rat)"""
    out = []
    for p in pieces:
        if p[0] == 'comp':
            c = p[1].const()
            if c is not None:
                if c <= 0: continue
                if c <= 8:
                    for i in range(int(c)): out.append(('lit', lam_app(p[2], N(i))))
                    continue
        out.append(p)
    # merge adjacent comprehensions / literals that continue each other
    res = []
    for p in out:
        if res:
            q = res[-1]
            m = _merge_pieces(q, p)
            if m is not None:
                res[-1] = m
                continue
        res.append(p)
    return leaf(_pay(SeqV, (tuple(res),)))
def _merge_pieces(q, p):
    if q[0] == 'comp' and p[0] == 'comp':
        # does p continue q?  p(i) == q(n+i)
        if lam_eq(p[2], q[2], q[1]): return ('comp', r_add(q[1], p[1]), q[2])
    elif q[0] == 'comp' and p[0] == 'lit':
        if lam_app(q[2], leaf(q[1])) is p[1]: return ('comp', r_add(q[1], R1), q[2])
    elif q[0] == 'lit' and p[0] == 'comp':
        t = fresh('m', 'int', 0)
        if not p[2].body.fv & frozenset([bv(p[2].d).id]) and p[2].body is q[1]: return ('comp', r_add(p[1], R1), p[2])
        # q is p(-1)
        try:
            shifted = mk_lam(t, lam_app(p[2], leaf(r_sub(ratom(t), R1))))
        except Undecided: return None
        if lam_app(shifted, N(0)) is q[1]: return ('comp', r_add(p[1], R1), shifted)
    return None
def lam_eq(p, q, off):
    t = var('lameq', 'int', 0)
    return lam_app(p, num(t)) is lam_app(q, add(num(t), leaf(off)))

N_EMPTY = leaf(_pay(SeqV, ((),)))
def seq_lit(vals): return seqv([('lit', v) for v in vals])
def seq_comp(n, lam):
    """n: Value"""
    def f(x):
        x = _n(x)
        lo, hi = r_range(x)
        if lo is not None and lo >= 0: return seqv([('comp', x, lam)])
        return ite(cmp_rat(x, True), seqv([('comp', x, lam)]), N_EMPTY)
    return lift(f)(n)
def seq_comp_v(n, v, body): return seq_comp(n, mk_lam(v, body))
def seq_rep(n, v): return seq_comp(n, const_lam(v))
def _asseq(x):
    if isinstance(x, SeqV): return x
    if isinstance(x, Rat):
        a = x.single()
        if a is not None and a.sort == 'obj': raise Undecided('sequence of unknown element type: %r' % (x,))
    raise Undecided('sequence expected, got %r' % (x,))
seq_cat = lift(lambda a, b: seqv(_asseq(a).p + _asseq(b).p))
def _seqlen(s):
    n = R0
    for p in s.p: n = r_add(n, R1 if p[0] == 'lit' else p[1])
    return n
seq_len = lift(lambda s: leaf(_seqlen(_asseq(s))))

def seq_at(s, i):
    """element i; don't-care outside the bounds"""
    def f(sv, iv):
        sv = _asseq(sv); iv = _n(iv)
        return _seq_at(sv.p, iv)
    return lift2(f, s, i)
def lift2(f, a, b):
    """lift where the result may be a structure"""
    return dmap(a, lambda x: dmap(b, lambda y: _g2(f, x, y)))
def _g2(f, x, y):
    for l in (x, y):
        if isinstance(l, Leaf) and isinstance(l.v, Unk): return l
    if isinstance(x, Struct) or isinstance(y, Struct): raise Undecided('sequence operation on a structure')
    return f(x.v, y.v)
def _seq_at(pieces, i):
    if not pieces: return BOT
    p = pieces[0]
    if p[0] == 'lit':
        c = eq(leaf(i), N(0)) if len(pieces) > 1 else TRUE
        if c is TRUE: return p[1]
        rest = _seq_at(pieces[1:], r_sub(i, R1))
        return rest if c is FALSE else ite(c, p[1], rest)
    c = cmp_rat(r_sub(p[1], i), True) if len(pieces) > 1 else TRUE
    if c is FALSE: return _seq_at(pieces[1:], r_sub(i, p[1]))
    x = lam_app(p[2], leaf(i))
    if c is TRUE: return x
    return ite(c, x, _seq_at(pieces[1:], r_sub(i, p[1])))

def seq_slice(s, start, n):
    """n elements from start (assumed in range)"""
    def f(sv, st, nn):
        sv = _asseq(sv); st, nn = _n(st), _n(nn)
        return _drop_take(sv.p, st, nn)
    return lift(f)(s, start, n)
def _drop_take(pieces, st, n):
    # fast exact cases
    if st.const() == 0 and _seqlen_p(pieces) is n: return seqv(pieces)
    return seq_take(_seq_drop(list(pieces), st), leaf(n))
def _seqlen_p(ps):
    n = R0
    for p in ps: n = r_add(n, R1 if p[0] == 'lit' else p[1])
    return n
def _seq_drop(ps, k):
    if k.const() == 0 or not ps: return seqv(ps)
    p = ps[0]
    if p[0] == 'lit':
        c = cmp_rat(k, True)
        return ite(c, _seq_drop(ps[1:], r_sub(k, R1)), seqv(ps))
    if len(ps) == 1 or cmp_rat(r_sub(p[1], k), False) is TRUE:
        t = fresh('d', 'int', 0)
        l = mk_lam(t, lam_app(p[2], add(num(t), leaf(k))))
        return seq_cat(seq_comp(leaf(r_sub(p[1], k)), l), seqv(ps[1:]))
    c = cmp_rat(r_sub(k, p[1]), False)
    t = fresh('d', 'int', 0)
    l = mk_lam(t, lam_app(p[2], add(num(t), leaf(k))))
    return ite(c, _seq_drop(ps[1:], r_sub(k, p[1])), seq_cat(seq_comp(leaf(r_sub(p[1], k)), l), seqv(ps[1:])))
def seq_drop(s, k): return lift(lambda sv, kv: _seq_drop(list(_asseq(sv).p), _n(kv)))(s, k)
def _seq_take(ps, n):
    if n.const() == 0 or not ps: return N_EMPTY
    p = ps[0]
    if p[0] == 'lit':
        c = cmp_rat(n, True)
        return ite(c, seq_cat(seq_lit([p[1]]), _seq_take(ps[1:], r_sub(n, R1))), N_EMPTY)
    if len(ps) == 1 or cmp_rat(r_sub(p[1], n), False) is TRUE: return seq_comp(leaf(n), p[2])
    c = cmp_rat(r_sub(n, p[1]), False)
    return ite(c, seq_cat(seqv([p]), _seq_take(ps[1:], r_sub(n, p[1]))), seq_comp(leaf(n), p[2]))
def seq_take(s, n): return lift(lambda sv, nv: _seq_take(list(_asseq(sv).p), _n(nv)))(s, n)

def seq_set(s, i, v):
    """s with element i replaced"""
    def f(sv, iv):
        return _seq_set(list(_asseq(sv).p), _n(iv), v)
    return lift(f)(s, i)
def _seq_set(ps, i, v):
    c = i.const()
    if c is not None:
        k = 0
        for j, p in enumerate(ps):
            if p[0] == 'lit':
                if k == c: return seqv(ps[:j] + [('lit', v)] + ps[j + 1:])
                k += 1
            else: break
    out = []
    off = R0
    for p in ps:
        if p[0] == 'lit':
            e = eq(leaf(i), leaf(off))
            out.append(('lit', ite(e, v, p[1])))
            off = r_add(off, R1)
        else:
            t = fresh('u', 'int', 0)
            e = eq(add(num(t), leaf(off)), leaf(i))
            l = mk_lam(t, ite(e, v, lam_app(p[2], num(t))))
            out.append(('comp', p[1], l))
            off = r_add(off, p[1])
    return seqv(out)
def seq_push(s, v): return seq_cat(s, seq_lit([v]))
def seq_push_front(s, v): return seq_cat(seq_lit([v]), s)
def seq_pop_front(s):
    """(Option value, rest)"""
    n = seq_len(s)
    ne = gt(n, N(0))
    x = seq_at(s, N(0))
    rest = ite(ne, seq_drop(s, N(1)), s)
    return ite(ne, variant(1, [x]) if x is not BOT else BOT, variant(0)), rest
def seq_pop_back(s):
    n = seq_len(s)
    ne = gt(n, N(0))
    x = seq_at(s, sub(n, N(1)))
    rest = ite(ne, seq_take(s, sub(n, N(1))), s)
    return ite(ne, variant(1, [x]) if x is not BOT else BOT, variant(0)), rest

# --------------------------------------------------------------------------
# printing

def show_atom(a):
    if a.kind == 'var': return str(a.args[0])
    if a.kind == 'proj': return '%s.%s' % (show_any(a.args[0]), a.args[1])
    if a.kind == 'at': return '%s[%s]' % (show_any(a.args[0]), show_any(a.args[1]))
    return '%s(%s)' % (a.kind, ', '.join(show_any(x) for x in a.args))
def show_any(x):
    if isinstance(x, tuple): return '<' + ','.join(show_any(y) for y in x) + '>'
    if isinstance(x, Lam): return show_pay(x)
    return str(x) if not isinstance(x, (Leaf, Node, Struct)) else show(x)
def show_poly(p):
    if not p.t: return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (-sum(e for _, e in x[0]), x[0])):
        s = '*'.join((show_atom(_atom_by_id[a]) + ('^%d' % e if e != 1 else '')) for a, e in m)
        if not s: out.append(str(c))
        elif c == 1: out.append(s)
        elif c == -1: out.append('-' + s)
        else: out.append('%s*%s' % (c, s))
    return ' + '.join(out).replace('+ -', '- ')
def show_rat(r):
    if r.d is P1: return show_poly(r.n)
    return '(%s)/(%s)' % (show_poly(r.n), show_poly(r.d))
def show_cond(c):
    if c.kind == 'b': return show_atom(c.q)
    return '%s %s %s' % (show_poly(c.q), '>=' if c.kind == 'ge' else '>', c.t)
def show_pay(p):
    if isinstance(p, Variant): return 'V%d(%s)' % (p.idx, ', '.join(show(x) for x in p.f))
    if isinstance(p, Ptr): return '&%s%s' % (p.cell, ''.join('.' + '/'.join(show_any(y) for y in e) for e in p.path))
    if isinstance(p, SeqV): return '[' + ' ++ '.join(show(q[1]) if q[0] == 'lit' else '(%s)#%s' % (q[1], show_pay(q[2])) for q in p.p) + ']'
    if isinstance(p, Lam): return '\\bv%d.%s' % (p.d, show(p.body))
    if isinstance(p, Unk): return '?%s' % (p.k[0],)
    if isinstance(p, StrV): return repr(p.k[0])
    if isinstance(p, IterV): return 'iter(%s @ %s)' % (show_any(p.src), show(p.pos))
    return repr(p.k)
def show(v):
    if isinstance(v, Struct): return '%s{%s}' % (v.tag if not isinstance(v.tag, tuple) else v.tag[0], ', '.join(show(x) for x in v.f))
    if isinstance(v, Leaf):
        return str(v.v) if not isinstance(v.v, _Pay) else show_pay(v.v)
    return '(%s ? %s : %s)' % (show_cond(v.c), show(v.hi), show(v.lo))
