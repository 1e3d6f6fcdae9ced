"""Path pruning in the domain of linear inequalities over monomials.

A path of a decision diagram is a conjunction of polynomial inequalities.
Treating every monomial as a dimension, Fourier-Motzkin elimination shows many
conjunctions to be empty; ranges of atoms, the defining bounds of floors and,
if asked, pairwise products of the path's inequalities are added as facts.
Emptiness is only ever claimed, never presumed: a path that is not shown empty
stays.
"""
from fractions import Fraction as Fr
import core
from core import Node, Leaf, Struct, TRUE, FALSE, Poly, p_add, p_neg, p_mul, p_const, p_atom, _atom_by_id, ONE_M, P1, b_and, b_not, restrict

LIMIT = 900

def norm(p, strict):
    """(tuple of sorted (mono,coef)), const, strict scaled"""
    c = p.t.get(ONE_M, Fr(0))
    q = {m: v for m, v in p.t.items() if m != ONE_M}
    if not q: return None, c, strict
    k = abs(next(iter(sorted(q.items())))[1])
    return tuple(sorted((m, v / k) for m, v in q.items())), c / k, strict

def empty(cons, depth=0):
    """cons: list of (Poly, strict): p >= 0 or p > 0; True when shown unsatisfiable"""
    rows = {}
    def put(q, c, s):
        """returns True on contradiction"""
        if q is None or not q: return c < 0 or (c == 0 and s)
        o = rows.get(q)
        # q + c >= 0: smaller c is stronger
        if o is None or c < o[0] or (c == o[0] and s and not o[1]): rows[q] = (c, s)
        return False
    for p, s in cons:
        q, c, s = norm(p, s)
        if put(q, c, s): return True
    while True:
        if len(rows) > LIMIT: return False
        # choose the monomial with the cheapest elimination
        pos, neg = {}, {}
        for q in rows:
            for m, v in q: (pos if v > 0 else neg).setdefault(m, []).append(q)
        ms = set(pos) | set(neg)
        if not ms: return False
        best = min(ms, key=lambda m: (len(pos.get(m, ())) * len(neg.get(m, ())) - len(pos.get(m, ())) - len(neg.get(m, ())), m))
        P_, N_ = pos.get(best, []), neg.get(best, [])
        new = []
        for a in P_:
            da = dict(a); ca, sa = rows[a]
            for b in N_:
                db = dict(b); cb, sb = rows[b]
                x, y = -db[best], da[best]
                q = {}
                for m, v in a: q[m] = q.get(m, 0) + v * x
                for m, v in b: q[m] = q.get(m, 0) + v * y
                q = {m: v for m, v in q.items() if v != 0}
                c = ca * x + cb * y
                if q:
                    k = abs(q[min(q)])
                    new.append((tuple(sorted((m, v / k) for m, v in q.items())), c / k, sa or sb))
                else:
                    if c < 0 or (c == 0 and (sa or sb)): return True
        for a in set(P_) | set(N_): rows.pop(a, None)
        for q, c, s in new:
            if put(q, c, s): return True
        if not rows: return False

def facts(cons, extra=()):
    """ranges and floor bounds of every atom occurring"""
    out, seen, st = [], set(), []
    for p, _ in cons: st.extend(p.atoms())
    while st:
        i = st.pop()
        if i in seen: continue
        seen.add(i)
        a = _atom_by_id[i]
        if a.lo is not None: out.append((p_add(p_atom(a), p_const(-a.lo)), False))
        if a.hi is not None: out.append((p_add(p_const(a.hi), p_neg(p_atom(a))), False))
        if a.kind == 'floor':
            x = a.args[0]
            if x.d is P1:
                out.append((p_add(x.n, p_neg(p_atom(a))), False))
                out.append((p_add(p_add(p_atom(a), p_const(1)), p_neg(x.n)), True))
                st.extend(x.n.atoms())
            else:
                # n/d with d of known sign: d*floor <= n < d*(floor+1)
                s = core.p_sign(x.d)
                d = x.d if s == 1 else p_neg(x.d) if s == -1 else None
                if d is not None:
                    n = x.n if s == 1 else p_neg(x.n)
                    out.append((p_add(n, p_neg(p_mul(d, p_atom(a)))), False))
                    out.append((p_add(p_add(p_mul(d, p_atom(a)), d), p_neg(n)), True))
    return out

def con(c, val):
    """constraint of taking branch val at condition c, or None for an opaque one"""
    if c.kind == 'b': return None
    p = p_add(c.q, p_const(-c.t))
    if val: return (p, c.kind == 'gt')
    if c.isint: return (p_add(p_neg(p), p_const(-1)), False)
    return (p_neg(p), c.kind == 'ge')

def empty_path(cons, products=True):
    fs = facts(cons)
    if empty(cons + fs): return True
    if products and len(cons) <= 16:
        pr = []
        base = [c for c in cons if len(c[0].t) <= 6 and all(len(m) <= 2 for m in c[0].t)][:10]
        for i, (p, s) in enumerate(base):
            if len(p.t) > 12: continue
            for q, t in base[i:]:
                if len(q.t) > 12: continue
                x = p_mul(p, q)
                if len(x.t) <= 40: pr.append((x, s and t))
        if len(pr) <= 120 and empty(cons + fs + pr): return True
    return False

class Budget(Exception): pass
def sat_paths(d, cons=(), bools=(), limit=None):
    """paths of boolean diagram d to True not shown empty: yields constraint lists"""
    limit = limit or [4000]
    def go(d, cons, bools):
        if d is FALSE: return
        limit[0] -= 1
        if limit[0] < 0: raise Budget()
        if d is TRUE:
            if not empty_path(cons): yield cons, bools
            return
        if isinstance(d, Leaf):
            yield cons, bools; return
        k = con(d.c, True)
        if k is None:
            b = dict(bools).get(d.c.q.id)
            if b is not False: yield from go(d.hi, cons, bools + ((d.c.q.id, True),))
            if b is not True: yield from go(d.lo, cons, bools + ((d.c.q.id, False),))
            return
        for val, nx in ((True, d.hi), (False, d.lo)):
            if nx is FALSE: continue
            c2 = cons + [con(d.c, val)]
            if len(c2) > 1 and empty(c2 + facts(c2)): continue
            yield from go(nx, c2, bools)
    yield from go(d, list(cons), tuple(bools))

def never(d, pc=TRUE):
    """d and pc is shown impossible"""
    x = b_and(pc, d)
    if x is FALSE: return True
    try:
        for _ in sat_paths(x): return False
    except Budget: return False
    return True
def always(d, pc=TRUE): return never(b_not(d), pc)
