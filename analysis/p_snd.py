"""Blocks, sounds and channels (C19-C25)."""
import hashlib
from lib import *
import core, loops
from core import Variant
from p_fmt import holds, callv
from p_util import rr, atoms_of, is_ok
from p_gen import has_kind

# ---------------------------------------------------------------- unknown blocks, generators, modifiers, sounds
def digest(*k): return hashlib.blake2b(repr(tuple(key(x) for x in k)).encode(), digest_size=8).hexdigest()
SPECIAL = []
PLAINS = [F(0), F(0), F(1), F(-1), Fr(1, 10 ** 6), -Fr(1, 10 ** 7), Fr(1, 10 ** 10), F(3), F(-2), F(100), Fr(3, 2), Fr(1, 1000)]
def RES(name, o, *xs):
    """what an unknown part returns: a fixed function of its state, now and then
    a value at which code tends to treat samples differently"""
    d = digest('r', name, o, *xs)
    if SPECIAL and int(d[5:7], 16) < 40: return SPECIAL[int(d[7:11], 16) % len(SPECIAL)]
    return Fr(int(d[:5], 16) - (1 << 19), 1 << 19)
def special(p, *names):
    """call before driving objects: values next to the constants of the code"""
    for n in names:
        try: p.code.tf(n)
        except (Undecided, KeyError): pass
    SPECIAL[:] = PLAINS
    for c in p.rng.dictionary():
        if abs(c) < 1 << 24: SPECIAL.extend([c, -c, c + Fr(1, 128), c - Fr(1, 128)])
def rval(rng):
    """a sample or gain"""
    v = near(rng, -1 << 20, 1 << 20)
    if v is not None: return v
    k = rng.randrange(12)
    if k == 0: return rng.choice(PLAINS)
    if k == 1: return Fr(rng.randrange(-800, 800), 1) / 10 ** rng.randrange(1, 10)
    if k == 2 and rng.random() < .5: return Fr(rng.choice([-1, 1]) * rng.randrange(1, 16), 1 << (rng.randrange(20, 149) if rng.random() < .5 else rng.randrange(129, 149)))
    return Fr(rng.randrange(-8, 9), rng.choice([4, 8]))
def rsize(rng, n):
    """a number of parts: mostly below n, now and then up to a constant of the code"""
    if rng.random() < .2:
        rng.dictionary()
        c = [x + e for x in getattr(rng, 'small', ()) if 0 <= x <= (40 if rng.random() < .8 else 300) for e in (0, 1, 2)]
        if c: return rng.choice(c)
        return rng.randrange(n, n + 6)
    return rng.randrange(0, n)
def POST(name, o, *xs): return ('tok', digest('p', name, o, *xs))
def _res(ev, a, name, o, *xs): return RES(name, ev.arg(o), *[ev.arg(x) for x in xs]) if a.sort == 'real' else None
def _post(ev, a, name, o, *xs): return POST(name, ev.arg(o), *[ev.arg(x) for x in xs])
HOOKS = {'res': _res, 'post': _post}
def arc(x, u=True): return S(('arc',), [x, u])
def sarc(name, u=TRUE): return struct(('arc',), [num(var(name, 'obj')), u])
def ob_(o): x = core._n(o.v); return x if x.single() is None else x.single()
def res(name, o, *xs): return num(atom('res', (name, ob_(o)) + tuple(map(rr, xs)), 'real'))

class Cell:
    """a concrete object driven through entry points, with a log"""
    def __init__(self, code, what, v): self.code, self.v, self.log = code, v, [what]
    def do(self, name, *a, say=None, anchor=None):
        self.log.append(say or '%s(%s)' % (name, ', '.join(map(show, a))))
        o = self.code.call(name, self.v, *a, hooks=HOOKS)
        if o.panic: raise Witness('%s fails: %s' % (self.text(), o.panic.msg), anchor or name)
        if o.post and o.post[0] is not None: self.v = o.post[0]
        return o.value
    def ask(self, name, *a):
        o = self.code.call(name, self.v, *a, hooks=HOOKS)
        if o.panic: raise Witness('%s; %s fails: %s' % (self.text(), name, o.panic.msg), name)
        return o.value
    def text(self): return '; '.join(self.log)
def simple(code, rng, n=None):
    n = rsize(rng, 4) if n is None else n
    ig, og = rval(rng), rval(rng)
    c = Cell(code, 'SimpleSound(gains %s, %s, generator G, %d modifiers)' % (show(ig), show(og), n), callv(code, 'ss_new', ig, og, arc(('tok', 'G'))))
    for i in range(n): c.do('ss_add', arc(('tok', 'M%d' % i)), say='add_modifier M%d' % i)
    c.gains = [ig, og]; c.gen = ('tok', 'G'); c.mods = [('tok', 'M%d' % i) for i in range(n)]
    return c
def complex_(code, rng, extra=None):
    ig, og = rval(rng), rval(rng)
    c = Cell(code, 'ComplexSound(gains %s, %s)' % (show(ig), show(og)), callv(code, 'cs_new', ig, og))
    n = rsize(rng, 4) if extra is None else extra
    for i in range(n): c.do('cs_add', arc(('tok', 'B%d' % i)), say='add_block B%d' % i)
    for _ in range(rng.randrange(0, 6)):
        a, b = rng.randrange(n + 2), rng.randrange(n + 2)
        if a < b if rng.randrange(4) else a != b: c.do('cs_conn', F(a), F(b), say='connect %d->%d' % (a, b))
    return c
KINDS = {'ss': ('simple sound', simple), 'cs': ('complex sound', complex_)}
def node(x): return x

def quiet(r, pc):
    """under pc: result 0, nothing called, nothing changed, no panic"""
    if not agree(restrict(r.value, pc), N(0), pc): return 'value'
    if not same(r.post[0], r.args[0], pc): return 'state'
    if any(e.pc is not FALSE and not never(restrict(e.pc, pc), pc) for e in r.events): return 'calls'
    if any(o.cond is not FALSE and not never(restrict(o.cond, pc), pc) for o in r.oblig): return 'panic'
    return True

def toggling(p, k, mk):
    """any history of toggles, processing and questions, against two booleans"""
    def body():
        c = mk(p.code, p.rng)
        pz = mu = False
        for _ in range(14):
            op = p.rng.randrange(5)
            if op < 2: c.do(k + '_tp', say='toggle_pause'); pz = not pz
            elif op < 4: c.do(k + '_tm', say='toggle_mute'); mu = not mu
            else:
                before = key(c.v)
                v = c.do(k + '_process', rval(p.rng), say='process')
                if (pz or mu) and v != 0: raise Witness('%s: returned %s' % (c.text(), show(v)), k + '_process')
                if pz and key(c.v) != before: raise Witness('%s: state changed while paused' % c.text(), k + '_process')
            a, b = bool(c.ask(k + '_ip')), bool(c.ask(k + '_im'))
            if (a, b) != (pz, mu): raise Witness('%s: reported paused %s, muted %s, expected %s, %s' % (c.text(), a, b, pz, mu), k + '_tm')
    p.point(p.deep(15, 100), lambda: (), body)

# ---------------------------------------------------------------- C19
def C19(p):
    code = p.code
    for k, (name, mk) in KINDS.items():
        s = code.args(k + '_tp')[0]
        P = code.ret(k + '_ip', s)
        def silent(k=k):
            r = code.tf(k + '_process')
            return quiet(r, code.ret(k + '_ip', r.args[0]))
        def toggles(k=k, s=s, P=P):
            q = code.ret(k + '_ip', code.post(k + '_tp', s))
            return agree(q, b_not(P))
        def twice(k=k, s=s): return same(code.post(k + '_tp', code.post(k + '_tp', s)), s)
        def reads(k=k): 
            r = code.tf(k + '_ip'); return r.post[0] is None or same(r.post[0], r.args[0])
        def total(k=k): return not code.safe(k + '_tp') and not code.safe(k + '_ip')
        def ref(k=k, mk=mk):
            def body():
                c = mk(code, p.rng)
                for _ in range(p.rng.randrange(0, 3)): c.do(k + '_process', rval(p.rng), say='process')
                if p.rng.randrange(2): c.do(k + '_tm', say='toggle_mute')
                if p.rng.randrange(2): c.do(k + '_reg', F(7), say='register 7')
                was = c.ask(k + '_ip')
                st = key(c.v)
                c.do(k + '_tp', say='toggle_pause')
                if bool(c.ask(k + '_ip')) == bool(was): raise Witness('%s: is_paused is still %s' % (c.text(), bool(was)), k + '_tp')
                if was: return
                st1 = key(c.v)
                for _ in range(3):
                    x = rval(p.rng)
                    v = c.do(k + '_process', x, say='process(%s)' % show(x))
                    if v != 0: raise Witness('%s: returned %s while paused' % (c.text(), show(v)), k + '_process')
                    if key(c.v) != st1: raise Witness('%s: state changed while paused, to %s' % (c.text(), show(c.v)), k + '_process')
                c.do(k + '_tp', say='toggle_pause')
                if key(c.v) != st: raise Witness('%s: pausing twice did not restore the state' % c.text(), k + '_tp')
                if c.ask(k + '_ip'): raise Witness('%s: still paused' % c.text(), k + '_tp')
            special(p, *['%s_%s' % (k, o) for o in ('process', 'tp', 'tm', 'ip', 'im', 'reg')])
            p.point(p.deep(25, 150), lambda: (), body)
            toggling(p, k, mk)
        p.ob('%s: paused, nothing happens and silence is returned' % name, k + '_process', silent, ref)
        p.ob('%s: toggling inverts the reported state' % name, k + '_tp', toggles, ref)
        p.ob('%s: toggling twice restores everything' % name, k + '_tp', twice, ref)
        p.ob('%s: asking changes nothing' % name, k + '_ip', reads, ref)
        p.ob('%s: toggling and asking never fail' % name, k + '_tp', total, ref)
    # a sound starts running
    def starts():
        a = code.ret('ss_new', rv('i'), rv('o'), sarc('G')); b = code.ret('cs_new', rv('i'), rv('o'))
        return agree(code.ret('ss_ip', a), FALSE) and agree(code.ret('cs_ip', b), FALSE)
    def rstarts():
        for k, (name, mk) in KINDS.items():
            c = mk(code, p.rng); p.points += 1
            if c.ask(k + '_ip'): raise Witness('%s: a new sound is paused' % c.text(), k + '_new')
    p.ob('new sounds are not paused', 'ss_new', starts, rstarts)

# ---------------------------------------------------------------- C20
def C20(p):
    code = p.code
    for k, (name, mk) in KINDS.items():
        r0 = code.tf(k + '_process')
        s, x = r0.args[0], r0.args[1]
        P, M = code.ret(k + '_ip', s), code.ret(k + '_im', s)
        def silent(r0=r0, P=P, M=M):
            pc = b_and(M, b_not(P))
            return agree(restrict(r0.value, pc), N(0), pc)
        def advance(k=k, s=s, x=x):
            # muting commutes with processing
            a = code.post(k + '_process', code.post(k + '_tm', s), x)
            b = code.post(k + '_tm', code.post(k + '_process', s, x))
            return agree_all(a, b)
        def kept(k=k, r0=r0, P=P, M=M):
            q = r0.post[0]
            return agree(code.ret(k + '_ip', q), P) and agree(code.ret(k + '_im', q), M)
        def indep(k=k, s=s, P=P, M=M):
            a, b = code.post(k + '_tm', s), code.post(k + '_tp', s)
            return agree(code.ret(k + '_im', a), b_not(M)) and agree(code.ret(k + '_ip', a), P) and agree(code.ret(k + '_im', b), M) and agree(code.ret(k + '_ip', b), b_not(P))
        def twice(k=k, s=s): return same(code.post(k + '_tm', code.post(k + '_tm', s)), s)
        def commute(k=k, s=s): return same(code.post(k + '_tm', code.post(k + '_tp', s)), code.post(k + '_tp', code.post(k + '_tm', s)))
        def reads(k=k):
            r = code.tf(k + '_im'); return r.post[0] is None or same(r.post[0], r.args[0])
        def total(k=k): return not code.safe(k + '_tm') and not code.safe(k + '_im')
        def ref(k=k, mk=mk):
            def body():
                c = mk(code, p.rng)
                d = Cell(code, '', c.v); d.log = list(c.log)
                c.do(k + '_tm', say='toggle_mute')
                if not c.ask(k + '_im') or c.ask(k + '_ip'): raise Witness('%s: reported muted %s, paused %s' % (c.text(), c.ask(k + '_im'), c.ask(k + '_ip')), k + '_tm')
                for j in range(4):
                    xx = rval(p.rng)
                    v = c.do(k + '_process', xx, say='process(%s)' % show(xx))
                    w = d.do(k + '_process', xx)
                    if v != 0: raise Witness('%s: returned %s while muted' % (c.text(), show(v)), k + '_process')
                    if not c.ask(k + '_im') or c.ask(k + '_ip'): raise Witness('%s: processing changed the mute or pause state' % c.text(), k + '_process')
                    if d.ask(k + '_im') or d.ask(k + '_ip'): raise Witness('%s: processing changed the mute or pause state' % d.text(), k + '_process')
                    if p.rng.randrange(2):
                        c.do(k + '_tp', say='toggle_pause'); d.do(k + '_tp')
                        if not c.ask(k + '_im') or not c.ask(k + '_ip'): raise Witness('%s: reported muted %s, paused %s' % (c.text(), c.ask(k + '_im'), c.ask(k + '_ip')), k + '_tp')
                        c.do(k + '_process', xx, say='process'); d.do(k + '_process', xx)
                        c.do(k + '_tp', say='toggle_pause'); d.do(k + '_tp')
                c.do(k + '_tm', say='toggle_mute')
                if key(c.v) != key(d.v): raise Witness('%s: state differs from that of a sound that was not muted meanwhile' % c.text(), k + '_process')
                v, w = c.do(k + '_process', F(1), say='process(1)'), d.do(k + '_process', F(1))
                if v != w: raise Witness('%s: returned %s, %s without the muting' % (c.text(), show(v), show(w)), k + '_process')
            special(p, *['%s_%s' % (k, o) for o in ('process', 'tp', 'tm', 'ip', 'im')])
            p.point(p.deep(25, 150), lambda: (), body)
            toggling(p, k, mk)
        p.ob('%s: muted, silence is returned' % name, k + '_process', silent, ref)
        p.ob('%s: muted or not, processing advances alike' % name, k + '_process', advance, ref)
        p.ob('%s: processing keeps mute and pause' % name, k + '_process', kept, ref)
        p.ob('%s: mute and pause are separate toggles' % name, k + '_tm', indep, ref)
        p.ob('%s: toggling twice restores everything' % name, k + '_tm', twice, ref)
        p.ob('%s: toggling mute and pause commutes' % name, k + '_tm', commute, ref)
        p.ob('%s: asking changes nothing' % name, k + '_im', reads, ref)
        p.ob('%s: toggling and asking never fail' % name, k + '_tm', total, ref)
    def starts():
        a = code.ret('ss_new', rv('i'), rv('o'), sarc('G')); b = code.ret('cs_new', rv('i'), rv('o'))
        return agree(code.ret('ss_im', a), FALSE) and agree(code.ret('cs_im', b), FALSE)
    def rstarts():
        for k, (name, mk) in KINDS.items():
            c = mk(code, p.rng); p.points += 1
            if c.ask(k + '_im'): raise Witness('%s: a new sound is muted' % c.text(), k + '_new')
    p.ob('new sounds are not muted', 'ss_new', starts, rstarts)
def agree_all(a, b):
    """the same value or, field by field, on every joint path"""
    if a is b or same(a, b): return True
    if isinstance(a, Struct) and isinstance(b, Struct) and a.tag == b.tag: return len(a.f) == len(b.f) and all(agree_all(x, y) for x, y in zip(a.f, b.f))
    return agree(a, b)

# ---------------------------------------------------------------- C21
EDITS = {'ss': [('ss_add', 1), ('ss_extend', 1), ('ss_set_ig', 1), ('ss_set_og', 1)], 'cs': [('cs_add', 1), ('cs_conn', 2), ('cs_disc', 2)]}
def C21(p):
    code = p.code
    i = iv('id', 0)
    def is_none(v, pc=TRUE): return all(isinstance(l.v, Variant) and l.v.idx == 0 for l in leaves_of(restrict(v, pc)))
    def is_some(v, x): return all(isinstance(l.v, Variant) and l.v.idx == 1 and agree(l.v.f[0], x) for l in leaves_of(v))
    for k, (name, mk) in KINDS.items():
        s = code.args(k + '_reg')[0]
        ID = lambda v, k=k: code.ret(k + '_id', v)
        reg = lambda v, k=k: code.post(k + '_reg', v, i)
        un = lambda v, k=k: code.post(k + '_unreg', v)
        def sets(): return is_some(ID(reg(s)), i)
        def clears(): return is_none(ID(un(s)))
        def only(): 
            a = un(reg(s))
            return same(a, un(s)) and same(reg(un(s)), reg(s)) and same(reg(s2()), reg(s))
        def s2(k=k): return code.post(k + '_reg', s, iv('id2', 0))
        def fresh_(k=k):
            v = code.ret('ss_new', rv('i'), rv('o'), sarc('G')) if k == 'ss' else code.ret('cs_new', rv('i'), rv('o'))
            return is_none(ID(v))
        def leaves(op, n, k=k):
            def fn():
                r = code.tf(op)
                return agree(ID(r.post[0]), ID(r.args[0]))
            return fn
        def unaffected(k=k):
            # what processing, muting and pausing do does not depend on the registration
            r = code.tf(k + '_process')
            s, x = r.args
            a = reg(s)
            if not agree(code.ret(k + '_process', a, x), r.value): return 'value'
            if not agree_all(code.post(k + '_process', a, x), reg(r.post[0])): return 'state'
            for op in ('_tm', '_tp'):
                if not same(code.post(k + op, reg(s)), reg(code.post(k + op, s))): return op
            return agree(code.ret(k + '_ip', a), code.ret(k + '_ip', s)) and agree(code.ret(k + '_im', a), code.ret(k + '_im', s))
        def total(k=k): return not any(code.safe(k + o) for o in ('_reg', '_unreg', '_id'))
        def ref(k=k, mk=mk):
            def idis(c, want):
                v = c.ask(k + '_id')
                if not isinstance(v, V): raise Skip('id')
                got = v.f[0] if v.idx == 1 else None
                if got != want: raise Witness('%s: id is %s, expected %s' % (c.text(), 'none' if got is None else show(got), 'none' if want is None else show(want)), k + '_id')
            def body():
                c = mk(code, p.rng); d = Cell(code, '', c.v)
                idis(c, None)
                want = None; paused = muted = False
                for _ in range(12):
                    op = p.rng.randrange(8)
                    if op < 2:
                        want = F(p.rng.choice([0, 1, 2, 7, 10 ** 9])); c.do(k + '_reg', want, say='register %s' % show(want))
                    elif op == 2: c.do(k + '_unreg', say='unregister'); want = None
                    else:
                        if op == 3: nm, a = k + '_tm', ()
                        elif op == 4: nm, a = k + '_tp', ()
                        elif op == 5:
                            nm, n = p.rng.choice(EDITS[k])
                            a = (arc(('tok', 'N%d' % p.rng.randrange(99))),) if nm.endswith('_add') else ([arc(('tok', 'E%d' % p.rng.randrange(99)))],) if nm == 'ss_extend' else (Fr(p.rng.randrange(9), 4),) if k == 'ss' else (F(0), F(1))
                        else: nm, a = k + '_process', (rval(p.rng),)
                        x, y = c.do(nm, *a), d.do(nm, *a)
                        if nm == k + '_process' and x != y: raise Witness('%s: returned %s, an unregistered sound %s' % (c.text(), show(x), show(y)), nm)
                    idis(c, want)
                    if bool(c.ask(k + '_ip')) != bool(d.ask(k + '_ip')) or bool(c.ask(k + '_im')) != bool(d.ask(k + '_im')): raise Witness('%s: pause or mute differs from that of an unregistered sound' % c.text(), k + '_reg')
                c.do(k + '_unreg', say='unregister'); d.do(k + '_unreg')
                if key(c.v) != key(d.v): raise Witness('%s: registration changed something else' % c.text(), k + '_reg')
            special(p, *['%s_%s' % (k, o) for o in ('process', 'tp', 'tm', 'reg', 'unreg', 'id')])
            p.point(p.deep(25, 150), lambda: (), body)
        p.ob('%s: a new sound has no id' % name, k + '_id', fresh_, ref)
        p.ob('%s: registering sets exactly the given id' % name, k + '_reg', sets, ref)
        p.ob('%s: unregistering clears it' % name, k + '_unreg', clears, ref)
        p.ob('%s: the id is all that changes' % name, k + '_reg', only, ref)
        p.ob('%s: registration does not matter to processing' % name, k + '_process', unaffected, ref)
        for op, n in [(k + '_process', 1), (k + '_tm', 0), (k + '_tp', 0)] + EDITS[k]:
            p.ob('%s: %s leaves the id alone' % (name, op), op, leaves(op, n), ref)
        p.ob('%s: registering never fails' % name, k + '_reg', total, ref)

# ---------------------------------------------------------------- C22
def sarcs(name, n, u=TRUE): return seqvar(name, n, lambda b, i: struct(('arc',), [num(atom('at', (b, i), 'obj')), u]))
def post(name, o, *xs): return num(atom('post', (name, ob_(o)) + tuple(map(rr, xs)), 'obj'))
PRIME, PROC = 'Block::prime_input', 'Block::process'
def primed(o, x): return post(PRIME, o, x)
def ran(o, x): return post(PROC, primed(o, x))
def outp(o, x): return res(PROC, primed(o, x))
def seq_agree(a, b, pc=TRUE, agree_el=None):
    """sequences of the same length with the same element at every index"""
    if a is b: return True
    n, m = core.seq_len(a), core.seq_len(b)
    if not agree(n, m, pc): return False
    i = iv('sq', 0)
    q = b_and(pc, lt(i, n))
    return alike(core.seq_at(a, i), core.seq_at(b, i), q)
def alike(a, b, pc=TRUE):
    """equal under pc: structures by field, sequences by element"""
    a, b = restrict(a, pc), restrict(b, pc)
    if a is b: return True
    if isinstance(a, Struct) or isinstance(b, Struct):
        return isinstance(a, Struct) and isinstance(b, Struct) and a.tag == b.tag and len(a.f) == len(b.f) and all(alike(x, y, pc) for x, y in zip(a.f, b.f))
    la, lb = [l for l in leaves_of(a)], [l for l in leaves_of(b)]
    if all(isinstance(l.v, SeqV) for l in la + lb): return seq_agree(a, b, pc)
    return agree(a, b, pc)
def fold_in(v, n, want_init, want_step, pc=TRUE):
    """the fold atoms in v that run want_step n times from want_init"""
    out = []
    for a in atoms_of(v):
        if a.kind != 'fold' or a.sort == 'bool': continue
        s = one_acc_at(a, n)
        if s is None: continue
        init, step = s
        A, q = rv('A'), iv('q', 0)
        qq = b_and(pc, lt(q, n))
        if agree(init, want_init, pc) and agree(restrict(step(A, q), qq), restrict(want_step(A, q), qq), qq): out.append(a)
    return out
def one_acc_at(a, n):
    from p_util import one_acc
    try: return one_acc(a, n)
    except NoLayout: return None
def fold_at(a, i):
    """the same fold after i steps"""
    j, _, inits, lam, d = a.args
    return core.REBUILD['fold'](a, (j, i, inits, lam, d), False)

def chain(code):
    """a simple sound with n modifiers, its parts, and one processing of it"""
    n = iv('n', 1)
    ig, og, x = rv('ig'), rv('og'), rv('x')
    G = num(var('G', 'obj'))
    s = code.post('ss_extend', code.ret('ss_new', ig, og, struct(('arc',), [G, TRUE])), sarcs('M', n))
    return n, ig, og, x, G, s
def mod_at(i): return num(atom('at', (var('M', 'obj'), rr(i)), 'obj'))
def C22(p):
    code = p.code
    n, ig, og, x, G, s = chain(code)
    w0 = outp(G, ig * x)
    step = lambda A, q: outp(mod_at(q), A)
    def value():
        v = restrict(code.ret('ss_process', s, x), ge(n, N(1)))
        fs = fold_in(v, n, w0, step)
        if not fs: raise NoLayout('the modifiers are run in an unknown way')
        B = rv('B')
        for a in fs: v = loops.replace_atom(v, a, B)
        return agree(v, og * B)
    def bare():
        z = code.ret('ss_new', ig, og, struct(('arc',), [G, TRUE]))
        if not agree(code.ret('ss_process', z, x), og * w0): return 'value'
        return alike(code.post('ss_process', z, x), code.ret('ss_new', ig, og, struct(('arc',), [ran(G, ig * x), TRUE])))
    def state():
        q = code.post('ss_process', s, x)
        fs = fold_in(code.ret('ss_process', s, x), n, w0, step)
        if not fs: raise NoLayout('the modifiers are run in an unknown way')
        i = fresh('mi', 'int', 0)
        Mi = core.seq_comp_v(n, i, struct(('arc',), [ran(num(atom('at', (var('M', 'obj'), ratom(i)), 'obj')), fold_at(fs[0], ratom(i))), TRUE]))
        want = code.post('ss_extend', code.ret('ss_new', ig, og, struct(('arc',), [ran(G, ig * x), TRUE])), Mi)
        return alike(q, want)
    def append():
        a = code.post('ss_add', s, sarc('m'))
        b = code.post('ss_extend', s, seq_lit([sarc('m')]))
        return alike(a, b)
    def extend():
        k = iv('k', 0)
        a = code.post('ss_extend', s, sarcs('N', k))
        b = code.post('ss_extend', code.ret('ss_new', ig, og, struct(('arc',), [G, TRUE])), core.seq_cat(sarcs('M', n), sarcs('N', k)))
        return alike(a, b)
    def gains():
        g = rv('g')
        a, b = code.post('ss_set_ig', s, g), code.post('ss_set_og', s, g)
        if not (agree(code.ret('ss_get_ig', s), ig) and agree(code.ret('ss_get_og', s), og)): return 'reading'
        if not (agree(code.ret('ss_get_ig', a), g) and agree(code.ret('ss_get_og', a), og) and agree(code.ret('ss_get_ig', b), ig) and agree(code.ret('ss_get_og', b), g)): return 'setting'
        mk = lambda u, v: code.post('ss_extend', code.ret('ss_new', u, v, struct(('arc',), [G, TRUE])), sarcs('M', n))
        return alike(a, mk(g, og)) and alike(b, mk(ig, g))
    def total(): return not code.safe('ss_add') and not code.safe('ss_extend') and not code.safe('ss_process')
    def ref():
        def body(size=None, more=None):
            c = simple(code, p.rng, rsize(p.rng, 5) if size is None else size)
            for _ in range(p.rng.randrange(0, 3) if more is None else 1):
                k = p.rng.randrange(4) if more is None else 0
                if k == 0:
                    ms = ['E%d' % p.rng.randrange(100) for _ in range(rsize(p.rng, 3) if more is None else more)]
                    c.do('ss_extend', [arc(('tok', m)) for m in ms], say='extend_modifiers [%s]' % ', '.join(ms)); c.mods += [('tok', m) for m in ms]
                elif k < 3:
                    g = rval(p.rng); nm = ('ss_set_ig', 'ss_set_og')[k - 1]
                    c.do(nm, g, say='%s %s' % (nm, show(g))); c.gains[k - 1] = g
                for nm, g in zip(('ss_get_ig', 'ss_get_og'), c.gains):
                    if c.ask(nm) != g: raise Witness('%s: %s is %s' % (c.text(), nm, show(c.ask(nm))), nm)
                for _ in range(p.rng.randrange(1, 3)):
                    xx = rval(p.rng)
                    v = c.do('ss_process', xx, say='process(%s)' % show(xx))
                    a = xx * c.gains[0]
                    c.gen, w = POST(PROC, POST(PRIME, c.gen, a)), RES(PROC, POST(PRIME, c.gen, a))
                    for j, m in enumerate(c.mods):
                        c.mods[j], w = POST(PROC, POST(PRIME, m, w)), RES(PROC, POST(PRIME, m, w))
                    if v != w * c.gains[1]: raise Witness('%s: returned %s, the chain gives %s' % (c.text(), show(v), show(w * c.gains[1])), 'ss_process')
        special(p, 'ss_process', 'ss_add', 'ss_extend', 'ss_set_ig', 'ss_set_og')
        p.point(p.deep(60, 400), lambda: (), body)
        for z in getattr(p.rng, 'small', ())[-12:]:
            if z > 4: p.points += 1; body(1, z); body(z - 1, 2)
    p.ob('the output is the gained end of the chain', 'ss_process', value, ref)
    p.ob('without modifiers the generator is heard', 'ss_process', bare, ref)
    p.ob('every block is primed and processed exactly once', 'ss_process', state, ref)
    p.ob('adding a modifier appends it', 'ss_add', append, ref)
    p.ob('extending appends in order', 'ss_extend', extend, ref)
    p.ob('gains are what was set and change nothing else', 'ss_set_ig', gains, ref)
    p.ob('adding and processing never fail', 'ss_process', total, ref)
    def shared_gen():
        z = code.ret('ss_new', ig, og, sarc('G', FALSE))
        return agree(code.ret('ss_process', z, x), og * w0)
    def rshared_gen():
        c = Cell(code, 'SimpleSound(1, 1, generator G whose handle is also held elsewhere)', callv(code, 'ss_new', F(1), F(1), arc(('tok', 'G'), False)))
        v = c.do('ss_process', F(1), say='process(1)'); p.points += 1
        w = RES(PROC, POST(PRIME, ('tok', 'G'), F(1)))
        if v != w: raise Witness('%s: returned %s, the generator gives %s' % (c.text(), show(v), show(w)), 'ss_process')
    def shared_mod():
        z = code.post('ss_add', code.ret('ss_new', ig, og, struct(('arc',), [G, TRUE])), sarc('m', FALSE))
        return agree(code.ret('ss_process', z, x), og * outp(num(var('m', 'obj')), w0))
    def rshared_mod():
        c = Cell(code, 'SimpleSound(1, 1, generator G); add_modifier M whose handle is also held elsewhere', callv(code, 'ss_new', F(1), F(1), arc(('tok', 'G'))))
        c.do('ss_add', arc(('tok', 'M'), False), say='')
        v = c.do('ss_process', F(1), say='process(1)'); p.points += 1
        w = RES(PROC, POST(PRIME, ('tok', 'M'), RES(PROC, POST(PRIME, ('tok', 'G'), F(1)))))
        if v != w: raise Witness('%s: returned %s, the chain gives %s' % (c.text(), show(v), show(w)), 'ss_process')
    def rest():
        # a shared block before, between and after others, or as the generator: at worst it is left out itself
        def run(g, ms):
            z = code.post('ss_extend', code.ret('ss_new', ig, og, struct(('arc',), [G, g])), seq_lit([struct(('arc',), [num(var(m, 'obj')), u]) for m, u in ms]))
            return code.ret('ss_process', z, x)
        M = lambda *ms: [(m.strip('-'), FALSE if '-' in m else TRUE) for m in ms]
        for ms in (M('X-', 'Y'), M('Y', 'X-'), M('Y', 'X-', 'Z'), M('X-', 'W-', 'Y')):
            e = run(TRUE, ms)
            if not agree(e, run(TRUE, [m for m in ms if m[1] is TRUE])) and not agree(e, run(TRUE, [(m, TRUE) for m, u in ms])): return 'the rest of the chain'
        e = run(FALSE, M('Y'))
        return agree(e, og * outp(num(var('Y', 'obj')), N(0))) or agree(e, run(TRUE, M('Y'))) or 'the chain behind the generator'
    def rrest():
        for gen, hand in ((True, [False, True]), (True, [True, False]), (True, [True, False, True]), (True, [False, False, True, True]), (False, [True]), (False, [True, False, True])):
            c = Cell(code, 'SimpleSound(1, 1, generator G%s)' % ('' if gen else ' whose handle is also held elsewhere'), callv(code, 'ss_new', F(1), F(1), arc(('tok', 'G'), gen)))
            p.points += 1
            for j, own in enumerate(hand): c.do('ss_add', arc(('tok', 'M%d' % j), own), say='add_modifier M%d%s' % (j, '' if own else ' whose handle is also held elsewhere'))
            v = c.do('ss_process', F(1), say='process(1)')
            def chain(all_):
                w = RES(PROC, POST(PRIME, ('tok', 'G'), F(1))) if gen or all_ else F(0)
                for j, own in enumerate(hand):
                    if own or all_: w = RES(PROC, POST(PRIME, ('tok', 'M%d' % j), w))
                return w
            if v not in (chain(False), chain(True)): raise Witness('%s: returned %s, the blocks nobody else holds give %s' % (c.text(), show(v), show(chain(False))), 'ss_process')
    p.ob('a block is applied whoever holds the others', 'ss_process', rest, rrest)
    p.ob('a shared generator block is heard', 'ss_process', shared_gen, rshared_gen)
    p.ob('a shared modifier block is applied', 'ss_process', shared_mod, rshared_mod)

class Sym:
    """like Cell, but the object stays a normal form, so that calls through its parts are resolved"""
    def __init__(self, code, what, v, env): self.code, self.v, self.log, self.env = code, v, [what], env
    def run(self, name, args):
        r = self.code.tf(name, given=dict(enumerate((self.v,) + tuple(N(a) for a in args))))
        ev = Eval(self.env, HOOKS)
        for o in r.oblig:
            if o.cond is not FALSE and self.code.obl_true(ev, o.cond): raise Witness('%s fails: %s: %s' % (self.text(), o.kind, o.msg), name)
        return r, ev
    def do(self, name, *a, say=None):
        self.log.append(say)
        r, ev = self.run(name, a)
        if r.post[0] is not None: self.v = r.post[0]
        return ev.val(r.value)
    def text(self): return '; '.join(self.log)
# ---------------------------------------------------------------- C23
GP, MP, FC = 'Generator::process', 'Modifier::process', 'FnMut::call_mut'
def sb(code, g, m, i): return code.ret('sb_new', g, m, struct(('arc',), [i, TRUE]))
def C23(p):
    code = p.code
    G, M, I = (num(var(k, 'obj')) for k in 'GMI')
    x, y = rv('x'), rv('y')
    z = sb(code, G, M, I)
    def primes():
        a = code.post('sb_prime', code.post('sb_prime', z, x), y)
        return alike(a, code.post('sb_prime', z, x + y)) and agree(code.ret('sb_process', a), code.ret('sb_process', code.post('sb_prime', z, x + y)))
    def value():
        g, m = res(GP, G), res(MP, M, x)
        a = code.post('sb_prime', z, x)
        if not agree(code.ret('sb_process', a), res(FC, I, g, m)): return 'value'
        return agree(code.ret('sb_process', z), res(FC, I, g, res(MP, M, N(0)))) or 'unprimed'
    def state():
        g, m = res(GP, G), res(MP, M, x)
        a = code.post('sb_process', code.post('sb_prime', z, x))
        return alike(a, sb(code, post(GP, G), post(MP, M, x), post(FC, I, g, m)))
    def once():
        a = code.post('sb_prime', z, x)
        r = code.tf('sb_process', given={0: a})
        n = sorted(e.name for e in r.events if restrict(e.pc, TRUE) is not FALSE)
        return n == sorted([GP, MP, FC]) or str(n)
    def clean(): return not [o for o in code.tf('sb_process', given={0: z}).oblig if o.cond is not FALSE] and not code.safe('sb_prime')
    def parts():
        a = code.post('sb_prime', z, x)
        if not (agree(code.ret('sb_run_g', a), res(GP, G)) and alike(code.post('sb_run_g', a), code.post('sb_prime', sb(code, post(GP, G), M, I), x))): return 'generator'
        return agree(code.ret('sb_run_m', a, y), res(MP, M, y)) and alike(code.post('sb_run_m', a, y), code.post('sb_prime', sb(code, G, post(MP, M, y), I), x))
    def two(new, o, nm, args):
        """several calls on a block of one part"""
        def fn(o=o):
            b = code.ret(new, o)
            for t in range(3):
                u, w = rv('u%d' % t), rv('w%d' % t)
                b = code.post('sb_prime', code.post('sb_prime', b, u), w)
                if not agree(code.ret('sb_process', b), res(nm, o, *args(u + w))): return 'value of call %d' % t
                b, o2 = code.post('sb_process', b), post(nm, o, *args(u + w))
                if not alike(b, code.ret(new, o2)): return 'state after call %d' % t
                b = code.ret(new, o2); o = o2
            return True
        return fn
    def product():
        return agree(code.ret('sb_default_process', G, M, x), res(GP, G) * res(MP, M, x)) and agree(code.ret('sb_gen_process', G, x), res(GP, G)) and agree(code.ret('sb_mod_process', M, x), res(MP, M, x))
    # ---- concrete sequences
    def drive(kind):
        def body():
            g, m, i = ('tok', 'G'), ('tok', 'M'), ('tok', 'I')
            if kind == 'all': c = Cell(code, 'StandardBlock::new(G, M, I)', callv(code, 'sb_new', g, m, arc(i)))
            elif kind == 'gen': c = Sym(code, 'StandardBlock::from_generator(G)', code.ret('sb_from_gen', G), {'G': g})
            else: c = Sym(code, 'StandardBlock::from_modifier(M)', code.ret('sb_from_mod', M), {'M': m})
            pend = F(0)
            for _ in range(6):
                k = p.rng.randrange(5)
                if k < 3:
                    a = rval(p.rng); pend += a
                    c.do('sb_prime', a, say='prime(%s)' % show(a))
                elif k == 3 and kind != 'mod':
                    v = c.do('sb_run_g', say='get_g_mut().process()'); w = RES(GP, g); g = POST(GP, g)
                    if v != w: raise Witness('%s: returned %s, the generator gives %s' % (c.text(), show(v), show(w)), 'sb_get_g_mut')
                else:
                    v = c.do('sb_process', say='process()')
                    gs = g_ = ms = m_ = None
                    if kind != 'mod': gs, g_ = RES(GP, g), POST(GP, g)
                    if kind != 'gen': ms, m_ = RES(MP, m, pend), POST(MP, m, pend)
                    if kind == 'all': w, i = RES(FC, i, gs, ms), POST(FC, i, gs, ms)
                    else: w = gs if kind == 'gen' else ms
                    if v != w: raise Witness('%s: returned %s, expected %s' % (c.text(), show(v), show(w)), 'sb_process')
                    g, m, pend = g_ or g, m_ or m, F(0)
        def ref():
            special(p, 'sb_process', 'sb_prime')
            p.point(p.deep(40, 250), lambda: (), body)
        return ref
    rall, rgen, rmod = drive('all'), drive('gen'), drive('mod')
    def rprod():
        for _ in range(5):
            a = rval(p.rng); p.points += 1
            for nm, args, w in (('sb_default_process', (('tok', 'G'), ('tok', 'M'), a), RES(GP, ('tok', 'G')) * RES(MP, ('tok', 'M'), a)), ('sb_gen_process', (('tok', 'G'), a), RES(GP, ('tok', 'G'))), ('sb_mod_process', (('tok', 'M'), a), RES(MP, ('tok', 'M'), a))):
                o = code.call(nm, *args, hooks=HOOKS)
                if o.panic: raise Witness('%s: a new block primed with %s fails: %s' % (nm, show(a), o.panic.msg), nm)
                if o.value != w: raise Witness('%s: a new block primed with %s returned %s, expected %s' % (nm, show(a), show(o.value), show(w)), nm)
    p.ob('priming adds to the pending input', 'sb_prime', primes, rall)
    p.ob('the result is the interactor of one generator and one modifier sample', 'sb_process', value, rall)
    p.ob('each part advances once and the pending input is cleared', 'sb_process', state, rall)
    p.ob('one call of each part', 'sb_process', once, rall)
    p.ob('processing unshared parts never fails', 'sb_process', clean, rall)
    p.ob('the parts handed out are the block\'s own', 'sb_get_g_mut', parts, rall)
    p.ob('a generator-only block returns the generator\'s samples', 'sb_from_gen', two('sb_from_gen', G, GP, lambda s: ()), rgen)
    p.ob('a modifier-only block returns the modifier\'s samples', 'sb_from_mod', two('sb_from_mod', M, MP, lambda s: (s,)), rmod)
    p.ob('the default interactor multiplies, the others pass through', 'sb_default_inter', product, rprod)
    def shared():
        z = code.ret('sb_new', G, M, struct(('arc',), [I, FALSE]))
        return not [o for o in code.tf('sb_process', given={0: z}).oblig if o.cond is not FALSE]
    def rshared():
        c = Cell(code, 'StandardBlock::new(G, M, I) with another handle to I alive', callv(code, 'sb_new', ('tok', 'G'), ('tok', 'M'), arc(('tok', 'I'), False))); p.points += 1
        c.do('sb_process', say='process()')
    p.ob('a shared interactor can be processed', 'sb_process', shared, rshared)

# ---------------------------------------------------------------- C24
def view(a, sort='int'):
    """the elements of an unknown list"""
    i = fresh('i', 'int', 0)
    return core.seq_comp_v(num(atom('len', (a,), 'int', 0)), i, num(atom('at', (a, ratom(i)), sort, 0)))
def viewed(v):
    """the list a value shows unchanged"""
    if not (isinstance(v, Leaf) and isinstance(v.v, SeqV) and len(v.v.p) == 1 and v.v.p[0][0] == 'comp'): return None
    n = core._n(v.v.p[0][1]).single()
    if n is None or n.kind != 'len' or not isinstance(n.args[0], core.Atom): return None
    a = n.args[0]
    return a if same(v, view(a)) else None
def accvar(a, j):
    for x in core.vars_named('acc%d_%d' % (a.args[4], j)):
        if x.sort == a.sort or j != a.args[0]: return x
def accs(a, j, sort):
    return [x for x in core.vars_named('acc%d_%d' % (a.args[4], j)) if x.sort == sort]
class Shape(NoLayout): pass
def need(c, what):
    if not c: raise Shape(what)
def walk_order(o, G, n, ig, og):
    """o is [ig] + (reverse depth-first finish order of G from roots covering all n nodes, without ig and og) + [og]"""
    F2 = short_ = None
    for pc, l in paths_of(o):
        need(isinstance(l.v, SeqV) and len(l.v.p) >= 2, 'the order is not a list of known ends')
        ps = l.v.p
        need(ps[0][0] == 'lit' and ps[-1][0] == 'lit' and same(ps[0][1], ig) and same(ps[-1][1], og), 'ends of the order')
        if len(ps) == 2: short_ = pc; continue
        need(len(ps) == 3 and F2 is None, 'middle of the order')
        F2 = viewed(seqv([ps[1]]))
        need(F2 is not None and F2.kind == 'fold', 'middle of the order')
    need(F2 is not None, 'no middle')
    # F2 keeps what is neither ig nor og
    j, cnt, inits, lam, d = F2.args
    ln = core._n(cnt).single()
    need(ln is not None and ln.kind == 'len', 'filtered list')
    F1 = ln.args[0]
    if short_ is not None: need(same(short_, le(num(ln), N(0))) or same(restrict(short_, ge(num(ln), N(1))), FALSE), 'shortened order')
    q = iv('q', 0)
    need(same(inits.f[j], N_EMPTY_()), 'filter start')
    S = accs(F2, j, 'obj')
    need(S, 'filter accumulator')
    e = num(atom('at', (F1, core._n(q.v)), 'int', 0))
    keep = b_and(b_not(eq(e, ig)), b_not(eq(e, og)))
    step = core.lam_app(lam, q).f[j]
    need(any(same(step, ite(keep, core.seq_push(view(x), e), view(x))) for x in S), 'filter step')
    # F1 collects, per root
    need(F1.kind == 'fold', 'collected list')
    j, cnt, inits, lam, d = F1.args
    need(len(inits.f) == 2 and same(inits.f[j], N_EMPTY_()), 'collection start')
    k = 1 - j
    D0 = core._n(inits.f[k].v).single()
    need(D0 is not None and D0.kind in ('DfsPostOrder::empty', 'DfsPostOrder::new') and D0.args[0] is G, 'walk start')
    R = leaf(cnt) if not isinstance(cnt, (Leaf, Node)) else cnt
    st = core.lam_app(lam, q).f
    NX = 'DfsPostOrder::next'
    # state of the walk after a root is drained
    dn = core._n(st[k].v).single() if isinstance(st[k], Leaf) else None
    need(dn is not None and dn.kind == 'post' and dn.args[0] == NX and dn.args[2].single() is G, 'walk not drained')
    Fi = dn.args[1]
    Fi = Fi if isinstance(Fi, core.Atom) else core._n(Fi).single()
    need(Fi is not None and Fi.kind == 'fold', 'walk not drained')
    jk, cnt2, in2, lam2, d2 = Fi.args
    Fs = viewed(st[j])
    need(Fs is not None and Fs.kind == 'fold' and Fs.args[1:] == Fi.args[1:] and len(in2.f) == 2, 'collected nodes')
    js = Fs.args[0]
    t = iv('t', 0)
    f = core._n(cnt2).single()
    need(f is not None and f.kind == 'first' and core._n(f.args[0]).single() is not None and core._n(f.args[0]).single().kind == 'inf', 'drain loop')
    stop = core.lam_app(f.args[1], t)
    cur = fold_at(Fi, rr(t))
    gone = lambda D: le(num(atom('disc', (atom('res', (NX, ob_(D), core.ratom(G)), 'obj'),), 'int', 0)), N(0))
    need(str(stop) == '(%s >= 1 ? False : True)' % str(num(atom('disc', (atom('res', (NX, ob_(cur), core.ratom(G)), 'obj'),), 'int', 0, 1))) or same(stop, gone(cur)), 'drain condition')
    s2 = core.lam_app(lam2, t).f
    for X in accs(Fi, jk, 'obj'):
        if same(s2[jk], num(atom('post', (NX, X, core.ratom(G)), 'obj'))): break
    else: raise Shape('drain step')
    ok = False
    for Y in accs(Fi, js, 'obj'):
        ps = s2[js].v.p if isinstance(s2[js], Leaf) and isinstance(s2[js].v, SeqV) else []
        if len(ps) == 2 and ps[0][0] == 'lit' and same(seqv([ps[1]]), view(Y)):
            v = core._n(ps[0][1].v).single()
            ok = v is not None and v.kind == 'vproj' and str(v.args[0]) == str(atom('res', (NX, X, core.ratom(G)), 'obj'))
    need(ok, 'nodes are not put in front')
    # the walk is moved to each root, and the list goes on
    need(any(same(in2.f[js], view(Y)) for Y in accs(F1, j, 'obj')), 'collected nodes of earlier roots')
    def root(v, pc):
        v = restrict(v, pc)
        a = core._n(v.v).single() if isinstance(v, Leaf) else None
        need(a is not None and a.kind == 'post' and a.args[0] == 'DfsPostOrder::move_to' and any(a.args[1] is Y or getattr(a.args[1], 'single', lambda: None)() is Y for Y in accs(F1, k, 'obj')), 'walk is not moved to the root')
        return leaf(a.args[2])
    off = R - n
    hi = b_and(ge(q, off), lt(q, R))
    lo = lt(q, n)
    def covers():
        try: return agree(root(in2.f[jk], hi), q - off, hi)
        except Shape: return False
    def covers2():
        try: return agree(root(in2.f[jk], lo), q, lo)
        except Shape: return False
    need(covers() or covers2(), 'not every node is a root')
    return True
def N_EMPTY_(): return seq_lit([])
def paths_of(v, pc=TRUE):
    if isinstance(v, Node):
        c = core.node(v.c, TRUE, FALSE)
        yield from paths_of(v.hi, b_and(pc, c))
        yield from paths_of(v.lo, b_and(pc, b_not(c)))
    else: yield pc, v
def find_graph(v):
    if isinstance(v, Struct):
        if v.tag == ('graph',): return v
        for x in v.f:
            g = find_graph(x)
            if g is not None: return g
    return None
def put_graph(v, g):
    if isinstance(v, Struct):
        if v.tag == ('graph',): return g
        return struct(v.tag, [put_graph(x, g) for x in v.f])
    return v
def any_complex(code):
    """a complex sound with an arbitrary graph of m+2 unshared blocks"""
    m = iv('m', 0)
    Gr = var('Gr', 'obj')
    g = struct(('graph',), [num(Gr), sarcs('W', m + 2)])
    s = code.args('cs_process')[0]
    need(find_graph(s) is not None, 'no graph')
    return put_graph(s, g), Gr, m + 2
def content(a, i): return num(atom('proj', (atom('at', (a, rr(i)), 'obj'), 'content', 0), 'obj'))
def C24(p):
    code = p.code
    a, b, x = iv('a', 0), iv('b', 0), rv('x')
    def setting():
        s, Gr, n = any_complex(code)
        return s, Gr, n, code.ret('cs_get_ig', s), code.ret('cs_get_og', s)
    def op1(name, *k): return atom(name, k, 'obj')
    def connected():
        s, Gr, n, ig, og = setting()
        q = code.post('cs_conn', s, a, b)
        g = find_graph(q)
        ga = op1('g_update_edge', Gr, rr(a), rr(b))
        need(same(g.f[0], num(ga)) and same(g.f[1], find_graph(s).f[1]), 'graph after connecting')
        return walk_order(code.ret('cs_nodes', q), ga, n, code.ret('cs_get_ig', q), code.ret('cs_get_og', q))
    def disconnected():
        s, Gr, n, ig, og = setting()
        q = code.post('cs_disc', s, a, b)
        g = find_graph(q)
        ha = atom('g_has_edge', (Gr, rr(a), rr(b)), 'bool')
        h = b_atom(ha)
        need(same(g.f[1], find_graph(s).f[1]), 'blocks after disconnecting')
        o = code.ret('cs_nodes', q)
        g1 = core._n(restrict(g.f[0], h).v).single()
        need(g1 is not None and g1.kind == 'g_remove_edge' and g1.args[0] is Gr and 'g_edge(Gr, a, b)' in str(g1), 'graph after disconnecting')
        need(same(restrict(g.f[0], b_not(h)), num(Gr)), 'graph after disconnecting nothing')
        return walk_order(loops.replace_atom(o, ha, TRUE), g1, n, code.ret('cs_get_ig', q), code.ret('cs_get_og', q)) and walk_order(loops.replace_atom(o, ha, FALSE), Gr, n, code.ret('cs_get_ig', q), code.ret('cs_get_og', q))
    def added():
        s, Gr, n, ig, og = setting()
        B = sarc('Bk')
        q = code.post('cs_add', s, B)
        g = find_graph(q)
        ga = op1('g_add_node', Gr)
        need(same(g.f[0], num(ga)) and same(g.f[1], core.seq_push(find_graph(s).f[1], B)), 'graph after adding')
        need(same(code.ret('cs_add', s, B), n), 'returned node')
        return walk_order(code.ret('cs_nodes', q), ga, n + 1, code.ret('cs_get_ig', q), code.ret('cs_get_og', q))
    def created():
        z = code.ret('cs_new', rv('i'), rv('o'))
        ig, og = code.ret('cs_get_ig', z), code.ret('cs_get_og', z)
        g = find_graph(z)
        need(same(core.seq_len(g.f[1]), N(2)) and {str(ig), str(og)} == {'0', '1'}, 'new graph')
        ga = core._n(g.f[0].v).single()
        return walk_order(code.ret('cs_nodes', z), ga, N(2), ig, og)
    def kept():
        s, Gr, n, ig, og = setting()
        for q in (code.post('cs_conn', s, a, b), code.post('cs_disc', s, a, b), code.post('cs_add', s, sarc('Bk')), code.post('cs_process', s, x)):
            if not agree(code.ret('cs_get_ig', q), ig) or not agree(code.ret('cs_get_og', q), og): return 'gains'
        q = code.post('cs_process', s, x)
        return same(code.ret('cs_nodes', q), code.ret('cs_nodes', s)) and same(find_graph(q).f[0], find_graph(s).f[0])
    def inrange(at, k, n):
        """at = first(L, some element is no node): the whole length"""
        at = core._n(at).single()
        if at is None or at.kind != 'first': return None
        L = leaf(at.args[0]) if not isinstance(at.args[0], (Leaf, Node)) else at.args[0]
        body = core.lam_app(at.args[1], k)
        return L, body
    def steps():
        s, Gr, n, ig, og = setting()
        P, M = code.ret('cs_ip', s), code.ret('cs_im', s)
        O = code.ret('cs_nodes', s)
        nO = core.seq_len(O)
        pc = ALL(b_not(P), b_not(M), ge(nO, N(1)))
        v = restrict(code.ret('cs_process', s, x, pc=pc), pc)
        A = core._n(v.v).single() if isinstance(v, Leaf) else None
        need(A is not None and A.kind == 'fold', 'processing is not one pass')
        j, cnt, inits, lam, d = A.args
        k, q, t, i = iv('k', 0), iv('q', 0), iv('t', 0), iv('i', 0)
        r = inrange(cnt, k, n)
        need(r is not None and agree(r[0], nO) and same(restrict(r[1], TRUE), ge(core.seq_at(O, k), n)) or same(leaf(cnt), nO), 'blocks passed')
        need(len(inits.f) == 2 and same(inits.f[j], N(0)), 'start')
        w = 1 - j
        W0 = find_graph(s).f[1]
        ir = lt(i, n)
        wi = lambda z: num(atom('at', (var('W', 'obj'), rr(z)), 'obj'))
        e = restrict(core.seq_at(inits.f[w], i), ir)
        need(agree(core.seq_len(inits.f[w]), n) and alike(e, struct(('arc',), [ite(eq(i, ig), primed(wi(ig), x), wi(i)), TRUE]), ir), 'input gain is not primed with the input')
        st = core.lam_app(lam, q).f
        X = accs(A, w, 'obj')
        oq = core.seq_at(O, q)
        qc = lt(q, nO)
        for Y in X:
            out = res(PROC, content(Y, oq))
            if agree(restrict(st[j], qc), out, qc): break
        else: raise Shape('output of a step')
        # blocks after the step: the block is processed, its successors are primed with its output
        sw = restrict(st[w], qc)
        need(agree(core.seq_len(sw), n), 'blocks after a step')
        succ = atom('g_succ', (Gr, rr(oq)), 'obj')
        L = num(atom('len', (succ,), 'int', 0))
        ec = ALL(qc, ir, ge(L, N(1)))
        el = restrict(core.seq_at(sw, i), ec)
        need(isinstance(el, Struct) and el.tag == ('arc',) and same(el.f[1], TRUE), 'handles')
        c = core._n(el.f[0].v).single() if isinstance(el.f[0], Leaf) else None
        need(c is not None and c.kind == 'proj', 'blocks after a step')
        F = c.args[0].args[0]
        need(F.kind == 'fold' and c is core._n(content(F, i).v).single(), 'successors')
        j3, cnt3, in3, lam3, d3 = F.args
        r = inrange(cnt3, t, n)
        st_ = num(atom('at', (succ, rr(t)), 'int', 0))
        need(r is not None and agree(r[0], L) and same(r[1], ge(st_, n)) or same(leaf(cnt3), L), 'successors passed')
        e0 = restrict(core.seq_at(in3.f[j3], i), ir)
        need(alike(e0, struct(('arc',), [ite(eq(i, oq), post(PROC, content(Y, oq)), content(Y, i)), TRUE]), ir), 'the block is not processed once')
        s3 = core.lam_app(lam3, t).f[j3]
        need(any(alike(restrict(core.seq_at(s3, i), ir), struct(('arc',), [ite(eq(i, st_), primed(content(Z, st_), out), content(Z, i)), TRUE]), ir) for Z in accs(F, j3, 'obj')), 'a successor is not primed with the output')
        # without successors nothing is primed
        e1 = restrict(core.seq_at(sw, i), ALL(qc, ir, le(L, N(0))))
        f1 = [z for z in atoms_of(e1) if z.kind == 'fold']
        if f1:
            for z in f1:
                cn = core._n(z.args[1]).single()
                need(z.args[2] is in3 and z.args[3] is lam3 and (core._n(z.args[1]).const() == 0 or cn is not None and cn.kind == 'first' and core._n(cn.args[0]).const() == 0), 'a block without successors')
        else: need(alike(e1, e0), 'a block without successors')
        # and the state afterwards is that of the pass
        qs = code.post('cs_process', s, x, pc=pc)
        g = find_graph(qs)
        el = restrict(core.seq_at(g.f[1], i), b_and(pc, ir))
        need(isinstance(el, Struct) and same(el.f[1], TRUE) and same(el.f[0], content(atom('fold', (w, cnt, inits, lam, d), 'obj'), i)), 'blocks afterwards')
        return same(put_graph(qs, find_graph(s)), s, pc)
    def total():
        s, Gr, n, ig, og = setting()
        O = code.ret('cs_nodes', s)
        bad = []
        for o in code.tf('cs_process', given={0: s, 1: x}).oblig:
            if o.cond is FALSE: continue
            c, lim = o.cond, TRUE
            # nodes in the order, and neighbours of nodes, are nodes
            nodes = [z for z in atoms_of(c) if z.kind == 'at' and (z.args[0].kind == 'g_succ' or viewed(O) is z.args[0])]
            for z in sorted(nodes, key=lambda z: -len(str(z))):
                nv = num(fresh('node', 'int', 0))
                c = loops.replace_atom(c, z, nv); lim = b_and(lim, lt(nv, n))
            for z in (ig, og): lim = b_and(lim, lt(z, n))
            if not never(c, lim): bad.append(o)
        return not bad or '%d panics possible, e.g. %s' % (len(bad), bad[0].msg)
    # ---- concrete edit sequences
    def check(c, ed, nb, ids):
        ig, og = int(c.ask('cs_get_ig')), int(c.ask('cs_get_og'))
        o = [int(z) for z in c.ask('cs_nodes')]
        if sorted(o) != list(range(nb)): raise Witness('%s: the order %s does not hold each of %d blocks once' % (c.text(), o, nb), 'cs_nodes')
        if o[0] != ig or o[-1] != og: raise Witness('%s: the order %s does not run from input gain %d to output gain %d' % (c.text(), o, ig, og), 'cs_nodes')
        if evaluate.topo(Graph(nb, sorted(ed))) is not None and not any(z == ig or y == og for y, z in ed):
            for y, z in ed:
                if o.index(y) > o.index(z): raise Witness('%s: in the order %s block %d comes before block %d which feeds it' % (c.text(), o, z, y), 'cs_nodes')
        return o
    def weights(v):
        for z in v.f:
            if isinstance(z, S) and z.tag == ('graph',): return [w.f[0] for w in z.f[1]]
        raise NoEval('weights')
    def run(c, o, ed, xx):
        W = weights(c.v)
        ig = int(c.ask('cs_get_ig'))
        W[ig] = POST(PRIME, W[ig], xx)
        for k in o:
            r = RES(PROC, W[k]); W[k] = POST(PROC, W[k])
            for y, z in ed:
                if y == k: W[z] = POST(PRIME, W[z], r)
        v = c.do('cs_process', xx, say='process(%s)' % show(xx))
        if v != r: raise Witness('%s: returned %s, running the blocks in order %s gives %s' % (c.text(), show(v), o, show(r)), 'cs_process')
        for k, (y, z) in enumerate(zip(weights(c.v), W)):
            if key(y) != key(z): raise Witness('%s: block %d was not processed once and primed with exactly the outputs of blocks %s' % (c.text(), k, sorted(y for y, z in ed if z == k)), 'cs_process')
    def ref():
        def body():
            igv, ogv = rval(p.rng), rval(p.rng)
            c = Cell(code, 'ComplexSound(gains %s, %s)' % (show(igv), show(ogv)), callv(code, 'cs_new', igv, ogv))
            ed, nb = set(), 2
            check(c, ed, nb, None)
            style = p.rng.randrange(3)
            many = p.rng.choice([0, 0, 0, 3, 6, 9])
            for step in range(p.rng.randrange(2, 14) + 2 * many):
                k = p.rng.randrange(8) if step >= many else 0
                if k < 3 and nb < 12:
                    r = c.do('cs_add', arc(('tok', 'B%d' % nb)), say='add_block B%d' % nb)
                    if r != nb: raise Witness('%s: returned node %s' % (c.text(), show(r)), 'cs_add')
                    nb += 1
                elif k < 7 or not ed:
                    y, z = p.rng.randrange(nb), p.rng.randrange(nb)
                    rank = lambda q: -1 if q == 0 else 99 if q == 1 else (q if style == 0 else -q + 50)
                    if style < 2:
                        if rank(y) > rank(z): y, z = z, y
                        if y == z: continue
                    ed.add((y, z))
                    c.do('cs_conn', F(y), F(z), say='connect %d->%d' % (y, z))
                else:
                    y, z = p.rng.choice(sorted(ed)) if p.rng.randrange(8) else (p.rng.randrange(nb), p.rng.randrange(nb))
                    if not p.rng.randrange(4): y, z = z, y
                    ed.discard((y, z))
                    c.do('cs_disc', F(y), F(z), say='disconnect %d->%d' % (y, z))
                o = check(c, ed, nb, None)
                if not p.rng.randrange(4): run(c, o, ed, rval(p.rng))
            o = check(c, ed, nb, None)
            for _ in range(2): run(c, o, ed, rval(p.rng))
        special(p, 'cs_process')
        p.point(p.deep(60, 400), lambda: (), body)
    p.ob('a new sound has its two gains in order', 'cs_new', created, ref)
    p.ob('adding a block: every block once, after its feeders', 'cs_add', added, ref)
    p.ob('connecting: every block once, after its feeders', 'cs_conn', connected, ref)
    p.ob('disconnecting: every block once, after its feeders', 'cs_disc', disconnected, ref)
    p.ob('the gains keep their nodes, processing keeps order and connections', 'cs_get_ig', kept, ref)
    p.ob('a pass runs the order and hands outputs to direct successors', 'cs_process', steps, ref)
    p.ob('processing unshared blocks never fails', 'cs_process', total, ref)
    def shared():
        s, Gr, n, ig, og = setting()
        g = find_graph(s)
        q = code.post('cs_add', s, sarc('Bk', FALSE))
        return not [o for o in code.tf('cs_process', given={0: q}).oblig if o.cond is not FALSE]
    def rshared():
        c = Cell(code, 'ComplexSound(1, 1)', callv(code, 'cs_new', F(1), F(1)))
        c.do('cs_add', arc(('tok', 'B'), False), say='add_block B whose handle is also held elsewhere'); p.points += 1
        c.do('cs_process', F(1), say='process(1)')
    p.ob('a shared block can be processed', 'cs_process', shared, rshared)

# ---------------------------------------------------------------- C25
SP, SR, SU = 'Sound::process', 'Sound::register', 'Sound::unregister'
def find_map(v):
    if isinstance(v, Struct):
        if v.tag == ('map',): return v
        for x in v.f:
            m = find_map(x)
            if m is not None: return m
    return None
def put_map(v, m):
    if isinstance(v, Struct):
        if v.tag == ('map',): return m
        return struct(v.tag, [put_map(x, m) for x in v.f])
    return v
def any_channel(code, k, u=TRUE):
    """a channel with n unshared sounds"""
    s = code.args(k + '_process')[0]
    mp = find_map(s)
    need(mp is not None, 'no map of sounds')
    n = iv('n', 0)
    return put_map(s, struct(('map',), [num(var('Ids', 'obj')), sarcs('V', n, u)])), n
def vat(i): return num(atom('at', (var('V', 'obj'), rr(i)), 'obj'))
def events_of(r, name): return [e for e in r.events if e.name == name and e.pc is not FALSE]
CH = (('chm', 'Mono', 'mono'), ('chs', 'Stereo', 'stereo'))
def C25(p):
    code = p.code
    for k, nm, fmt in CH:
        outv = lambda v, k=k: code.ret(k + '_outv', v)
        i, q = iv('i', 0), iv('q', 0)
        def new(k=k, fmt=fmt, outv=outv):
            g = rv('g')
            s = code.ret(k + '_new', g)
            if not agree(core.seq_len(outv(s)), N(480)): return 'length'
            if not same(core.seq_len(find_map(s).f[1]), N(0)): return 'sounds'
            return same(code.post(k + '_gain', s, g), s)
        def time(k=k, outv=outv):
            s, n = any_channel(code, k)
            r = code.tf(k + '_time', given={0: s})
            d = r.args[1]
            q = r.post[0]
            if not agree(core.seq_len(outv(q)), core.floor(d * 48000)): return 'length'
            return same(blank(q), blank(s))
        def blank(v, k=k):
            """everything but the output"""
            o = code.ret(k + '_outv', v)
            def go(x):
                if same(x, o): return N(0)
                if isinstance(x, Struct) and x.tag != ('map',): return struct(x.tag, [go(y) for y in x.f])
                return x
            return go(v)
        def mix(k=k, fmt=fmt, outv=outv):
            s, n = any_channel(code, k)
            g = rv('g')
            s = code.post(k + '_gain', s, g)
            z = code.post(k + '_process', s)
            o, o0 = outv(z), outv(s)
            L = core.seq_len(o0)
            if not agree(core.seq_len(o), L): return 'length'
            pc = lt(i, L)
            state = sound_fold(z, n, L)
            for big in (TRUE, FALSE):
                # with sounds, without sounds
                qc = b_and(pc, ge(n, N(1)) if big is TRUE else le(n, N(0)))
                e = restrict(core.seq_at(o, i), qc)
                w = code.ret(fmt + '_from_sample', rv('y'))
                y = rv('y').v.single()
                def one(part):
                    if big is FALSE: return N(0)
                    t = var('tq', 'int', 0)
                    b = subst(part, {y.id: res(SP, state(i, num(t)), N(0))})
                    return loops.vsum(n, t, restrict(b, b_and(lt(num(t), n), qc)))
                want = struct(e.tag, [g * one(x) for x in w.f]) if isinstance(w, Struct) else g * one(w)
                if not alike(e, want, qc): return 'sample with%s sounds' % ('' if big is TRUE else 'out')
            return True
        def sound_fold(z, n, L, k=k):
            """the state of sound t before sample i, from the fold over the samples of the pass"""
            t = iv('t', 0)
            tc = ALL(lt(t, n), ge(L, N(1)))
            e = restrict(core.seq_at(find_map(z).f[1], t), tc)
            need(isinstance(e, Struct) and e.tag == ('arc',) and same(e.f[1], TRUE), 'handles')
            a = core._n(e.f[0].v).single() if isinstance(e.f[0], Leaf) else None
            need(a is not None, 'how sounds advance')
            tt = t.v.single()
            if a.kind == 'fold':
                of = lambda F, i, u: subst(num(fold_at(F, rr(i))), {tt.id: u}) 
                el = lambda x: x
                F = a
            else:
                need(a.kind == 'proj' and a.args[1:] == ('content', 0) and a.args[0].kind == 'at' and agree(leaf(a.args[0].args[1]), t, tc), 'how sounds advance')
                F = a.args[0].args[0]
                F = F if isinstance(F, core.Atom) else core._n(F).single()
                need(F is not None and F.kind == 'fold', 'how sounds advance')
                of = lambda F, i, u: content(fold_at(F, rr(i)), u)
                el = lambda x: restrict(core.seq_at(x, t), tc).f[0]
            need(agree(leaf(F.args[1]), L, tc), 'how often sounds advance')
            j, cnt, inits, lam, d = F.args
            need(agree(el(restrict(inits.f[j], tc)), vat(t), tc), 'where sounds start')
            qc = b_and(tc, lt(q, L))
            stp = restrict(el(restrict(core.lam_app(lam, q).f[j], qc)), qc)
            pre = (lambda x: num(x)) if a.kind == 'fold' else (lambda x: content(x, t))
            need(any(agree(stp, post(SP, pre(x), N(0)), qc) for x in accs(F, j, 'obj')), 'a sound advances once per sample')
            return lambda i, u: of(F, i, u)
        def advance(k=k, outv=outv):
            s, n = any_channel(code, k)
            z = code.post(k + '_process', s)
            L = core.seq_len(outv(s))
            if not agree(core.seq_len(find_map(z).f[1]), n): return 'sounds'
            sound_fold(z, n, L)
            if not same(find_map(z).f[0], find_map(s).f[0]): return 'ids'
            if not same(blank(put_map(z, find_map(s))), blank(s)): return 'rest'
            return True
        def fresh_id(k=k):
            s, n = any_channel(code, k)
            def idof(v):
                r = code.tf(k + '_add', given={0: v, 1: struct(('arc',), [num(var('X', 'obj')), TRUE])})
                es = events_of(r, SR)
                need(len(es) == 1, 'registration')
                return es[0].args[1], r
            a, r = idof(s)
            mp = find_map(s)
            m2 = struct(('map',), [num(var('Ids2', 'obj')), sarcs('V2', iv('n2', 0))])
            if not agree(idof(put_map(s, m2))[0], a): return 'the id depends on the sounds held'
            b, _ = idof(put_map(r.post[0], mp))
            if not always(gt(b, a)): return 'an id may come twice'
            for w in (code.post(k + '_process', s), code.tf(k + '_remove', given={0: s}).post[0], code.tf(k + '_time', given={0: s}).post[0], code.tf(k + '_gain', given={0: s}).post[0]):
                if not agree(idof(put_map(w, mp))[0], a): return 'an id may come twice'
            return True
        def adds(k=k):
            s, n = any_channel(code, k)
            X = num(var('X', 'obj'))
            r = code.tf(k + '_add', given={0: s, 1: struct(('arc',), [X, TRUE])})
            es, ei = events_of(r, SR), events_of(r, 'map_insert')
            need(len(es) == 1 and len(ei) == 1 and es[0].pc is TRUE and ei[0].pc is TRUE, 'registration')
            d = es[0].args[1]
            Y = post(SR, X, d)
            if not (same(es[0].args[0], X) and agree(ei[0].args[1], d)): return 'registered under another id'
            h = r.post[1]
            if not same(h.f[0], Y): return 'the caller\'s handle'
            z = find_map(r.post[0])
            if not same(z.f[0], num(atom('map_insert', (var('Ids', 'obj'), rr(d)), 'obj'))): return 'ids'
            vs = z.f[1]
            if not agree(core.seq_len(vs), n + 1): return 'sounds'
            if not alike(core.seq_at(vs, i), core.seq_at(find_map(s).f[1], i), lt(i, n)): return 'other sounds'
            if not same(core.seq_at(vs, n).f[0], Y): return 'the sound'
            return not [o for o in r.oblig if o.cond is not FALSE] or 'panic'
        def removes(k=k):
            r = code.tf(k + '_remove')
            s, d = r.args
            mp = find_map(s)
            has = b_atom(atom('map_has', (mp.f[0].v.single(), rr(d)), 'bool'))
            z = find_map(r.post[0])
            if not same(restrict(z.f[0], has), num(atom('map_remove', (mp.f[0].v.single(), rr(d)), 'obj'))): return 'ids'
            if not same(z, mp, b_not(has)): return 'an unknown id removes something'
            if not same(put_map(r.post[0], mp), s): return 'rest'
            vs = restrict(z.f[1], has)
            x = core.seq_len(vs).v.single() if isinstance(core.seq_len(vs), Leaf) else None
            if not (x is not None and x.kind == 'len' and x.args[0].kind == 'map_remove_vals'): return 'sounds'
            if any(o.cond is not FALSE for o in r.oblig): return 'panic'
            es = events_of(r, SU)
            need(len(es) == 1, 'unregistration')
            u = atom('map_val', (mp.f[0].v.single(), rr(d)), 'obj')
            if 'map_val(%s, %s)' % (mp.f[0], d) not in str(es[0].args[0]): return 'another sound is unregistered'
            f = [c for c in conds_of(es[0].pc)]
            return all(c.kind == 'b' and (c.q.kind == 'map_has' or c.q.kind == 'uniq' and c.q.args[0] is u) for c in f) or 'unregistered only sometimes'
        def total(k=k):
            s, n = any_channel(code, k)
            for op in ('_process', '_time', '_gain', '_outv'):
                if [o for o in code.tf(k + op, given={0: s}).oblig if o.cond is not FALSE and not never(o.cond)]: return op
            return True
        # ---- concrete histories
        def ref(k=k, nm=nm, fmt=fmt):
            conv = lambda y: callv(code, fmt + '_from_sample', y)
            def num_of(v): return v.f if isinstance(v, S) else [v]
            def body():
                g = rval(p.rng)
                c = Cell(code, 'StandardChannel<%s>::new(%s)' % (nm, show(g)), callv(code, k + '_new', g))
                held, used, size, cnt = {}, set(), 480, 0
                n0 = len(c.ask(k + '_outv'))
                if n0 != 480: raise Witness('%s: produces %d samples by default, not 480' % (c.text(), n0), k + '_new')
                def settime():
                    nonlocal size
                    d = Fr(p.rng.choice([0, 20833, 20834, 41666, 41667, 62500, 62499, 83333, 100000, 104166, 104167, 150000]), 10 ** 9)
                    c.do(k + '_time', d, say='set_process_time(%s ns)' % (d * 10 ** 9))
                    size = (d * 48000).__floor__()
                    m = len(c.ask(k + '_outv'))
                    if m != size: raise Witness('%s: %d samples, expected %d' % (c.text(), m, size), k + '_time')
                settime()
                few = p.rng.choice([0, 0, 1, 2])
                for _ in range(p.rng.randrange(3, 12)):
                    op = p.rng.randrange(8)
                    if op < 3 and few and len(held) >= few: op = 3 + p.rng.randrange(5)
                    if op < 3:
                        x = ('tok', 'S%d' % cnt); cnt += 1
                        c.log.append('add_sound %s' % x[1])
                        o = code.call(k + '_add', c.v, arc(x), hooks=HOOKS)
                        if o.panic: raise Witness('%s fails: %s' % (c.text(), o.panic.msg), k + '_add')
                        c.v = o.post[0]
                        h = o.post[1].f[0]
                        d = next((F(z) for z in range(200) if POST(SR, x, F(z)) == h), None)
                        if d is None: raise Witness('%s: the sound was not registered with an id' % c.text(), k + '_add')
                        if d in used: raise Witness('%s: id %s was used before' % (c.text(), show(d)), k + '_add')
                        used.add(d); held[d] = h
                        own(c)
                    elif op == 3 and held:
                        d = p.rng.choice(sorted(held)) if p.rng.randrange(4) else F(p.rng.randrange(12))
                        gone(c, d, held)
                    elif op == 4:
                        g = rval(p.rng) if p.rng.randrange(5) else F(0)
                        c.do(k + '_gain', g, say='set_gain(%s)' % show(g))
                    elif op == 5: settime()
                    else:
                        want = []
                        for t in range(size):
                            acc = None
                            for d in held:
                                y = conv(RES(SP, held[d], F(0))); held[d] = POST(SP, held[d], F(0))
                                acc = num_of(y) if acc is None else [a + b for a, b in zip(acc, num_of(y))]
                            want.append([g * a for a in acc] if acc else None)
                        c.do(k + '_process', say='process')
                        out = c.ask(k + '_outv')
                        if len(out) != size: raise Witness('%s: %d samples, expected %d' % (c.text(), len(out), size), k + '_process')
                        for t, (a, b) in enumerate(zip(out, want)):
                            a = num_of(a)
                            if not all(close(u, v) for u, v in zip(a, b or [F(0)] * len(a))): raise Witness('%s: sample %d is %s, expected %s' % (c.text(), t, show(a), show(b or [F(0)] * len(a))), k + '_process')
                    here = sorted(key(z.f[0]) for z in mapvals(c))
                    if here != sorted(key(z) for z in held.values()): raise Witness('%s: the channel holds %d sounds in states %s, expected %d: %s' % (c.text(), len(here), here, len(held), sorted(held.values())), k + '_process')
            def mapvals(c):
                for z in c.v.f:
                    if isinstance(z, S) and z.tag == ('map',): return z.f[1]
                raise NoEval('map')
            def own(c):
                """the caller lets go of its handle"""
                for z in mapvals(c): z.f[1] = True
            def gone(c, d, held):
                r = code.tf(k + '_remove')
                env = {'a0': c.v, 'a1': d}
                c.log.append('remove_sound(%s)' % show(d))
                ev = Eval(env, HOOKS)
                seen = []
                for e in r.events:
                    if e.name in (SU, SR) and ev.val(e.pc): seen.append((e.name, ev.val(e.args[0])))
                want = [(SU, held[d])] if d in held else []
                c.do(k + '_remove', d, say='')
                c.log.pop()
                if key([list(z) for z in seen]) != key([list(z) for z in want]): raise Witness('%s: %s' % (c.text(), 'the removed sound is not unregistered' if want and not seen else 'unregisters %s, expected %s' % (seen, want)), k + '_remove')
                held.pop(d, None)
            special(p, *['%s_%s' % (k, o) for o in ('process', 'add', 'remove', 'time', 'gain')])
            far_lengths(p, k + '_time', code.tf(k + '_time').post[0], 'a1', 'the output')
            p.point(p.deep(25, 150), lambda: (), body)
        p.ob('%s: a new channel holds no sound and 10 ms of samples' % nm, k + '_new', new, ref)
        p.ob('%s: the set time gives the number of samples' % nm, k + '_time', time, ref)
        p.ob('%s: each sample is the gain times the sum over the sounds' % nm, k + '_process', mix, ref)
        p.ob('%s: each sound advances once per sample' % nm, k + '_process', advance, ref)
        p.ob('%s: ids are never reused' % nm, k + '_add', fresh_id, ref)
        p.ob('%s: adding registers and keeps the sound' % nm, k + '_add', adds, ref)
        p.ob('%s: removing drops and unregisters exactly that sound' % nm, k + '_remove', removes, ref)
        p.ob('%s: processing and setting never fail' % nm, k + '_process', total, ref)
        def counted(k=k, outv=outv):
            # the number of samples in the arithmetic the program really performs
            n = core.seq_len(outv(code.tf(k + '_time', 'fp').post[0]))
            return not any(has_kind(n, z) for z in ('fp', 'f2i', 'r32'))
        def rcount(k=k, nm=nm):
            def body(m):
                d = Fr(62500 * m, 10 ** 9)
                c = code.call(k + '_time', callv(code, k + '_new', F(1)), d, mode='fp').post[0]
                n = len(code.call(k + '_outv', c).value)
                if n != 3 * m: raise Witness('StandardChannel<%s>: set_process_time(%d ns) gives %d samples, it is exactly %d' % (nm, 62500 * m, n, 3 * m), k + '_time')
            for m in list(range(1, 41)) + [72, 83, 129, 141, 144]: p.point(1, lambda m=m: (m,), body)
        p.ob('%s: the samples of the set time are counted without rounding' % nm, k + '_time', counted, rcount)
        # ---- sounds whose handle somebody else holds as well
        def heard(k=k, outv=outv, fmt=fmt):
            s, n = any_channel(code, k, FALSE)
            s = put_map(s, struct(('map',), [num(var('Ids', 'obj')), sarcs('V', N(1), FALSE)]))
            o = outv(code.post(k + '_process', s))
            pc = lt(i, core.seq_len(o))
            return not same(restrict(core.seq_at(o, i), pc), restrict(core.seq_at(outv(code.post(k + '_process', put_map(s, struct(('map',), [num(var('Ids', 'obj')), seqv([])])))), i), pc))
        def rheard(k=k, fmt=fmt, nm=nm):
            c = Cell(code, 'StandardChannel<%s>::new(1)' % nm, callv(code, k + '_new', F(1)))
            c.do(k + '_add', arc(('tok', 'S')), say='add_sound S whose handle the caller keeps'); p.points += 1
            c.do(k + '_process', say='process')
            o = c.ask(k + '_outv')[0]
            x = callv(code, fmt + '_from_sample', RES(SP, POST(SR, ('tok', 'S'), F(0)), F(0)))
            if key(o) != key(x): raise Witness('%s: sample 0 is %s, the sound produces %s' % (c.text(), show(o), show(x)), k + '_process')
        def beside(k=k, outv=outv):
            # a shared sound before, between and after others: at worst it is left out itself
            s, n = any_channel(code, k)
            def at(*arcs):
                ids = seq_lit([N(2 * j) for j in range(len(arcs))])
                o = outv(code.post(k + '_process', put_map(s, struct(('map',), [ids, seq_lit(list(arcs))]))))
                return restrict(core.seq_at(o, i), lt(i, core.seq_len(o)))
            X, Y = (lambda u, nm=nm: struct(('arc',), [num(var(nm, 'obj')), u]) for nm in 'XY')
            for sh, alone in (([X(FALSE), Y(TRUE)], [Y(TRUE)]), ([Y(TRUE), X(FALSE)], [Y(TRUE)])):
                e = at(*sh)
                if not alike(e, at(*alone)) and not alike(e, at(*[struct(('arc',), [a.f[0], TRUE]) for a in sh])): return 'the other sounds'
            return True
        def rbeside(k=k, fmt=fmt, nm=nm):
            def num_of(v): return v.f if isinstance(v, S) else [v]
            g = lambda a, d: num_of(callv(code, fmt + '_from_sample', RES(SP, POST(SR, ('tok', a), F(d)), F(0))))
            for hand in ([False, True], [True, False], [True, False, True], [False, True, True, False, True]):
                c = Cell(code, 'StandardChannel<%s>::new(1)' % nm, callv(code, k + '_new', F(1)))
                p.points += 1
                for d, own in enumerate(hand):
                    c.do(k + '_add', arc(('tok', 'S%d' % d)), say='add_sound S%d%s' % (d, '' if own else ' whose handle the caller keeps'))
                for z in c.v.f:
                    if isinstance(z, S) and z.tag == ('map',):
                        for own, w in zip(hand, z.f[1]): w.f[1] = own
                c.do(k + '_process', say='process')
                o = num_of(c.ask(k + '_outv')[0])
                def total(ds):
                    acc = [F(0)] * len(o)
                    for d in ds: acc = [a + b for a, b in zip(acc, g('S%d' % d, d))]
                    return acc
                wants = [total([d for d, own in enumerate(hand) if own]), total(range(len(hand)))]
                if not any(all(close(a, b) for a, b in zip(o, w)) for w in wants): raise Witness('%s: sample 0 is %s, the sounds nobody else holds produce %s' % (c.text(), show(o), show(wants[0])), k + '_process')
        p.ob('%s: a sound is heard whoever holds the others' % nm, k + '_process', beside, rbeside)
        def unreg(k=k):
            r = code.tf(k + '_remove')
            mp = find_map(r.args[0])
            has = b_atom(atom('map_has', (mp.f[0].v.single(), rr(r.args[1])), 'bool'))
            return any(always(e.pc, has) for e in events_of(r, SU))
        def runreg(k=k, nm=nm):
            c = Cell(code, 'StandardChannel<%s>::new(1)' % nm, callv(code, k + '_new', F(1)))
            c.do(k + '_add', arc(('tok', 'S')), say='add_sound S whose handle the caller keeps'); p.points += 1
            r = code.tf(k + '_remove')
            ev = Eval({'a0': c.v, 'a1': F(0)}, HOOKS)
            if not any(e.name == SU and ev.val(e.pc) for e in r.events): raise Witness('%s; remove_sound(0): S is not unregistered' % c.text(), k + '_remove')
        def accepts(k=k):
            s, n = any_channel(code, k)
            r = code.tf(k + '_add', given={0: s, 1: struct(('arc',), [num(var('X', 'obj')), FALSE])})
            return not [o for o in r.oblig if o.cond is not FALSE]
        def raccepts(k=k, nm=nm):
            c = Cell(code, 'StandardChannel<%s>::new(1)' % nm, callv(code, k + '_new', F(1))); p.points += 1
            o = code.call(k + '_add', c.v, arc(('tok', 'S'), False), hooks=HOOKS)
            if o.panic: raise Witness('%s; add_sound S with two handles fails: %s' % (c.text(), o.panic.msg), k + '_add')
        p.ob('%s: a sound whose handle the caller keeps is heard' % nm, k + '_process', heard, rheard)
        p.ob('%s: a removed sound whose handle the caller keeps is unregistered' % nm, k + '_remove', unreg, runreg)
        p.ob('%s: a sound with two handles can be added' % nm, k + '_add', accepts, raccepts)

# ---------------------------------------------------------------- C51
def unshared(v):
    """v with every handle the only one to its part"""
    if isinstance(v, Struct):
        if v.tag == ('arc',): return struct(v.tag, [unshared(v.f[0]), TRUE])
        return struct(v.tag, [unshared(x) for x in v.f])
    def f(x):
        if isinstance(x, SeqV):
            out = []
            for q in x.p:
                if q[0] == 'lit': out.append(('lit', unshared(q[1])))
                elif q[0] == 'comp':
                    i = fresh('ui', 'int', 0)
                    out.append(('comp', q[1], core.mk_lam(i, unshared(core.lam_app(q[2], num(i))))))
                else: return leaf(x)
            return core.seqv(out)
        if isinstance(x, Variant): return core.variant(x.idx, [unshared(y) for y in x.f])
        return leaf(x)
    return lift(f)(v)
def alone(v):
    """the same for a concrete value"""
    if isinstance(v, list): return [alone(x) for x in v]
    if isinstance(v, S):
        r = S(v.tag, [alone(x) for x in v.f])
        if v.tag == ('arc',): r.f[1] = True
        return r
    if isinstance(v, V): return V(v.idx, [alone(x) for x in v.f])
    return v
def C51(p):
    p.rule = 'every cell of clone(s) == that of s, for arbitrary s, up to who holds the parts; s itself is left as it was'
    code = p.code
    asks = {'ss': ('ss_ip', 'ss_im', 'ss_id', 'ss_get_ig', 'ss_get_og'), 'cs': ('cs_ip', 'cs_im', 'cs_id', 'cs_get_ig', 'cs_get_og', 'cs_nodes'), 'chm': ('chm_outv',), 'chs': ('chs_outv',)}
    for k, nm, kind in (('ss', 'SimpleSound', 'ss'), ('cs', 'ComplexSound', 'cs'), ('chm', 'StandardChannel<Mono>', 'ch'), ('chs', 'StandardChannel<Stereo>', 'ch')):
        def equal(k=k):
            r = code.tf(k + '_clone')
            return alike(unshared(r.value), unshared(r.args[0]))
        def leaves(k=k):
            r = code.tf(k + '_clone')
            return r.post[0] is None or alike(unshared(r.post[0]), unshared(r.args[0]))
        def safe(k=k): return not code.safe(k + '_clone')
        def steps(k, kind, rng):
            """the same random operation for both"""
            op = rng.randrange(8)
            if kind == 'ch':
                if op < 4: return 'process', [(k + '_process',)]
                if op == 4: d = F(rng.randrange(6)); return 'remove_sound(%s)' % show(d), [(k + '_remove', d)]
                if op == 5: g = rval(rng); return 'set_gain(%s)' % show(g), [(k + '_gain', g)]
                if op == 6: d = Fr(rng.choice([20834, 62500, 104167]), 10 ** 9); return 'set_process_time', [(k + '_time', d)]
                return 'add_sound Z', [(k + '_add', arc(('tok', 'Z')))]
            if op < 4: x = rval(rng); return 'process(%s)' % show(x), [(k + '_process', x)]
            if op == 4: return 'toggle_pause', [(k + '_tp',)]
            if op == 5: return 'toggle_mute', [(k + '_tm',)]
            if op == 6: return 'register 9', [(k + '_reg', F(9))]
            if k == 'ss': return 'add_modifier Z', [(k + '_add', arc(('tok', 'Z')))]
            return 'add_block Z', [(k + '_add', arc(('tok', 'Z')))]
        def make(k, kind, rng, nm):
            if kind != 'ch':
                c = simple(code, rng) if k == 'ss' else complex_(code, rng)
            else:
                g = rval(rng)
                c = Cell(code, '%s::new(%s)' % (nm, show(g)), callv(code, k + '_new', g))
                c.do(k + '_time', Fr(62500, 10 ** 9), say='set_process_time(62500 ns)')
                for i in range(rng.randrange(0, 4)): c.do(k + '_add', arc(('tok', 'S%d' % i)), say='add_sound S%d' % i); c.v = alone(c.v)
            return c
        def ref(k=k, kind=kind, nm=nm):
            def both(a, b, say, t, rng):
                for q in t:
                    x, y = (code.call(q[0], v, *q[1:], hooks=HOOKS) for v in (a, b))
                    if bool(x.panic) != bool(y.panic): raise Witness('%s: %s' % (say, 'only %s fails: %s' % (('the original', x.panic.msg) if x.panic else ('the clone', y.panic.msg))), k + '_clone')
                    if x.panic: raise Skip('panic')
                    if key(x.value) != key(y.value): raise Witness('%s: the original returns %s, the clone %s' % (say, show(x.value), show(y.value)), k + '_clone')
                    if x.post and x.post[0] is not None: a = alone(x.post[0])
                    if y.post and y.post[0] is not None: b = alone(y.post[0])
                for z in asks[k]:
                    x, y = code.call(z, a, hooks=HOOKS).value, code.call(z, b, hooks=HOOKS).value
                    if key(alone(x)) != key(alone(y)): raise Witness('%s: %s is %s for the original and %s for the clone' % (say, z, show(x), show(y)), k + '_clone')
                return a, b
            def body():
                c = make(k, kind, p.rng, nm)
                for _ in range(p.rng.randrange(0, 8)):
                    say, t = steps(k, kind, p.rng)
                    for q in t: c.do(*q, say=say); c.v = alone(c.v)
                o = code.call(k + '_clone', c.v, hooks=HOOKS)
                if o.panic: raise Witness('%s: cloning fails: %s' % (c.text(), o.panic.msg), k + '_clone')
                say = c.text() + '; clone'
                o0, o1 = alone(o.post[0] if o.post and o.post[0] is not None else c.v), alone(o.value)
                for z in asks[k]:
                    x, y = code.call(z, c.v, hooks=HOOKS).value, code.call(z, o0, hooks=HOOKS).value
                    if key(alone(x)) != key(alone(y)): raise Witness('%s: cloning changed %s from %s to %s' % (say, z, show(x), show(y)), k + '_clone')
                a, b = both(o0, o1, say, [], p.rng)
                c0 = c.v
                for _ in range(p.rng.randrange(1, 10)):
                    w, t = steps(k, kind, p.rng)
                    say += '; ' + w
                    a, b = both(a, b, say, t, p.rng)
                    x = code.call(t[0][0], c0, *t[0][1:], hooks=HOOKS)   # as if never cloned
                    if x.panic: raise Skip('panic')
                    if x.post and x.post[0] is not None: c0 = alone(x.post[0])
                    for z in asks[k]:
                        u, y = code.call(z, c0, hooks=HOOKS).value, code.call(z, a, hooks=HOOKS).value
                        if key(alone(u)) != key(alone(y)): raise Witness('%s: the original goes on differently once cloned: %s is %s, not %s' % (say, z, show(y), show(u)), k + '_clone')
            special(p, *['%s_%s' % (k, o) for o in ('clone', 'process')])
            p.point(p.deep(40, 200), lambda: (), body)
        p.ob('%s: a clone has every setting and every part of the original' % nm, k + '_clone', equal, ref)
        p.ob('%s: cloning leaves the original as it was' % nm, k + '_clone', leaves, ref)
        p.ob('%s: cloning never fails' % nm, k + '_clone', safe, ref)

# ---------------------------------------------------------------- C52
def amounts(v, path=()):
    """how many values each part of v holds: [(where, number)]"""
    if isinstance(v, Struct):
        out = []
        if v.tag in (('graph',), ('map',)): out.append((path + ('contents',), v.f[0]))
        for i, x in enumerate(v.f): out += amounts(x, path + (v.tag, i))
        return out
    ls = list(leaves_of(v))
    if ls and all(isinstance(l.v, SeqV) for l in ls): return [(path, core.seq_len(v))]
    return []
def weight(v):
    """how many values a concrete object holds"""
    if isinstance(v, list): return len(v) + sum(weight(x) for x in v if not isinstance(x, Fr))
    if isinstance(v, (S, V)): return sum(weight(x) for x in v.f)
    if isinstance(v, Graph): return v.n + len(v.edges)
    if isinstance(v, Map): return len(v.items)
    return 0
def C52(p):
    from p_fx import PROC as KINDS_, bound_ks
    from p_mod import mgen, MODS
    p.rule = 'the number of elements of every sequence, graph and map in the state after a sample or a control equals the number before, for arbitrary states (a channel: the samples of its process time)'
    code = p.code
    def steady(root, make=None):
        def f():
            if make is None: r = code.tf(root)
            else: r = code.tf(root, given={0: make()})
            a, b = r.args[0], r.post[0]
            if b is None: return True
            pc = ALL(*[b_not(o.cond) for o in r.oblig if not bound_ks(o.cond)])   # calls that end (C41)
            x, y = dict(amounts(a)), dict(amounts(b))
            for k in y:
                if k not in x: return 'a new part'
                if not (agree(x[k], y[k], pc) or same(x[k], y[k], pc)): return 'the number at %s' % (k,)
            return True
        return f
    def grows(kind, nm, begin, step, root):
        """three stretches, each longer than anything the code counts to"""
        def ref():
            code.tf(root)
            p.rng.dictionary()
            m = max([x for x in p.rng.ints if 0 < x <= 1200] or [0])
            def body():
                c, t = begin()
                n = 2 * (m + weight(c.v)) + 130
                if n > 3000: raise Skip('long')
                w = []
                for _ in range(3):
                    for _ in range(n): step(c)
                    w.append(weight(c.v))
                if w[0] < w[1] < w[2] and w[2] - w[0] > 4: raise Witness('%s holds %d values after %d steps (%s), %d after %d and %d after %d' % (t, w[0], n, root, w[1], 2 * n, w[2], 3 * n), root)
            p.point(6 if not p.tier == 'thorough' else 12, lambda: (), body)
        return ref
    rng = p.rng
    for t, (ctors, ops) in KINDS_.items():
        def begin(t=t, ctors=ctors):
            if t in MODS: a = mgen(rng, t); n = t + '_new'
            elif t in ('zero', 'noise'): a, n = [], t + '_new'
            elif t == 'wav': n = 'wav_from_track'; a = [F(44100), [S('bae_rs::sample_format::mono::Mono', [Fr(i, 9)]) for i in range(8)]]
            elif t == 'resam': n = 'resam_new'; a = [[S('bae_rs::sample_format::mono::Mono', [Fr(i, 9)]) for i in range(8)], F(44100), F(0), F(0)]
            else: a, n = [rfreq(rng)], t + '_new'
            if t == 'delay' or t == 'echo': a[0] = Fr(rng.randrange(0, 12), 48000).limit_denominator(10 ** 9)
            if t == 'echo' and rng.random() < .5: a[1] = F(rng.choice([0, 0, 1, -1]))
            if t == 'gain' and rng.random() < .5: a[0] = F(rng.choice([0, 0, 1, -1]))
            v = callv(code, n, *a)
            return Cell(code, t, v), '%s(%s)' % (n, ', '.join(map(show, a)))
        pr = t + '_process'
        def step(c, t=t, pr=pr):
            a = [Fr(rng.randrange(-8, 9), 8)] if t in MODS else []
            o = code.call(pr, c.v, *a, hooks={'random': lambda ev, at, *g: Fr(1, 4)})
            if o.panic: raise Skip('panic')
            if o.post and o.post[0] is not None: c.v = o.post[0]
        rf = grows(t, t, begin, step, pr)
        p.ob('%s: producing samples needs no more memory' % t, pr, steady(pr), rf)
        for o in ops[1:]:
            if o != 'set_speed': p.ob('%s: %s needs no more memory' % (t, o), '%s_%s' % (t, o), steady('%s_%s' % (t, o)))
    # blocks
    def bbegin():
        return Cell(code, 'block', callv(code, 'sb_new', ('tok', 'G'), ('tok', 'M'), arc(('tok', 'I')))), 'StandardBlock'
    def bstep(c):
        for r, a in (('sb_prime', (F(1),)), ('sb_process', ())):
            o = code.call(r, c.v, *a, hooks=HOOKS)
            if o.panic: raise Skip('panic')
            c.v = o.post[0]
    rf = grows('sb', 'block', bbegin, bstep, 'sb_process')
    for r in ('sb_prime', 'sb_process'): p.ob('block: %s needs no more memory' % r[3:], r, steady(r), rf)
    # sounds
    for k, (name, mk) in KINDS.items():
        def begin(mk=mk): c = mk(code, rng); return c, c.text()
        def step(c, k=k):
            for q in ((k + '_process', F(1)), (k + '_tm',), (k + '_tp',), (k + '_tp',), (k + '_reg', F(3)), (k + '_unreg',)):
                o = code.call(*((q[0], c.v) + q[1:]), hooks=HOOKS)
                if o.panic: raise Skip('panic')
                if o.post and o.post[0] is not None: c.v = alone(o.post[0])
        def lone(k=k):
            return any_complex(code)[0] if k == 'cs' else code.post('ss_extend', code.ret('ss_new', rv('i'), rv('o'), sarc('G')), sarcs('M', iv('n', 0)))
        rf = grows(k, name, begin, step, k + '_process')
        for r in ('process', 'tp', 'tm', 'reg', 'unreg'): p.ob('%s: %s needs no more memory' % (name, r), '%s_%s' % (k, r), steady('%s_%s' % (k, r), lone), rf)
    # channels
    for k, nm, fmt in CH:
        def begin(k=k, nm=nm):
            c = Cell(code, 'StandardChannel<%s>' % nm, callv(code, k + '_new', F(1)))
            c.do(k + '_time', Fr(62500, 10 ** 9), say='set_process_time(62500 ns)')
            for i in range(2): c.do(k + '_add', arc(('tok', 'S%d' % i)), say='add_sound S%d' % i); c.v = alone(c.v)
            return c, c.text()
        def step(c, k=k):
            o = code.call(k + '_process', c.v, hooks=HOOKS)
            if o.panic: raise Skip('panic')
            c.v = alone(o.post[0])
        def lone(k=k): return any_channel(code, k)[0]
        rf = grows(k, nm, begin, step, k + '_process')
        p.ob('%s: process needs no more memory' % nm, k + '_process', steady(k + '_process', lone), rf)
        p.ob('%s: gain needs no more memory' % nm, k + '_gain', steady(k + '_gain', lone), rf)
