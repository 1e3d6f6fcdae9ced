"""C02, C06 - C16: modifiers."""
import time
from lib import *
from p_gen import rdata, rgen, same_but, has_kind, atoms_in, mono, RES
import core, math
from math import floor as ifloor

MODS = ['adsr', 'bandpass', 'delay', 'echo', 'envelope', 'gain', 'generic', 'highpass', 'lowpass', 'passthrough']
FILT = ['lowpass', 'highpass']
TYM = {m: 'bae_rs::modifiers::%s::%s' % (m, {'adsr': 'ADSR', 'bandpass': 'BandPass', 'highpass': 'HighPass', 'lowpass': 'LowPass'}.get(m, m.capitalize())) for m in MODS}

def margs(code, m, tag='p'): return [code.sym(t, '%s%d' % (tag, i)) for i, t in enumerate(code.argtys(m + '_new'))]
def mnew(code, m, args): return code.ret(m + '_new', *args)
def many(code, m, args, ctor='_new'):
    """any state reachable with these settings: what processing (and releasing) writes is arbitrary"""
    s = code.ret(m + ctor, *args)
    w = written(code, m + '_process')
    if m == 'adsr': w = sorted(set(w) | set(written(code, 'adsr_release')))
    return havoc(code, s, w, m + '_process'), w
X = rv('x')

def rcoef(rng):
    """a coefficient's size: full as a rule, now and then like a small constant of the code"""
    c = rscale(rng)
    return c if c > Fr(1, 10 ** 8) else F(1)
def rloud(rng):
    """nothing limits a signal inside: now and then one far beyond full scale"""
    if rng.random() < .8: return F(1)
    c = [abs(x) for x in rng.dictionary() if 1 < abs(x) < 10 ** 6] if hasattr(rng, 'dictionary') else []
    if getattr(rng, 'huge', ()) and rng.random() < .6: return rng.choice(rng.huge) * rng.choice([Fr(1, 2), F(4), F(100)])
    return rng.choice(c) * rng.choice([1, 2, 4]) if c and rng.random() < .6 else F(rng.choice([10, 100, 1000]))
def louder(rng, us):
    k = rloud(rng)
    return [u * k for u in us]
def rtaps(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 4]) if n is None else n
    return [S('tuple', [F(rng.choice([0, 1, 2, 3, 5])), Fr(rng.randrange(-8, 9), 8) * rcoef(rng)]) for _ in range(n)]
def rtaps_stable(rng):
    n = rng.choice([0, 1, 1, 2, 3])
    return [S('tuple', [F(rng.choice([0, 1, 2, 4])), Fr(rng.randrange(-4, 5), 4 * max(n, 1)) * rcoef(rng)]) for _ in range(n)]
def rq(rng): return near(rng, Fr(1, 20), 60) or Fr(rng.choice([1, 2, 3, 5, 10, 20, 40]), rng.choice([1, 2, 4, 7]))
def rr(rng):
    v = near(rng, -1, 3)
    return v if v is not None else rng.choice([F(0), F(1), Fr(1, 2), Fr(rng.randrange(0, 101), 100), Fr(rng.randrange(-100, 300), 100)])
def rlen(rng): return rdur(rng, rng.choice([3, 12, 40]))
def rfc(rng): return rng.choice([rfreq(rng), rfreq(rng), F(rng.randrange(24000, 60000)), F(24000), Fr(rng.randrange(1, 200), 3), F(7639), F(7640), F(15000)])
def rdb(rng):
    """a level in dB, now and then that of a linear constant of the code"""
    if rng.random() < .15 and rng.dictionary():
        import math
        c = [abs(x) for x in rng.reals if 0 < abs(x) < 1]
        if c: return Fr(round(2000 * math.log10(rng.choice(c)) + rng.choice([-300, -10, 10, 300])), 100)
    v = near(rng, -200, 6)
    return v if v is not None else rng.choice([F(0), F(-3), F(-6), F(-20), Fr(rng.randrange(-600, 1), 10), F(4), F(-60), Fr(rng.randrange(-1500, -600), 10)])
def mgen(rng, m):
    if m == 'adsr': return [rlen(rng), rlen(rng), rdb(rng), rlen(rng)]
    if m == 'bandpass': return [max(rfreq(rng), F(1)), rq(rng)]
    if m == 'delay': return [rlen(rng)]
    if m == 'echo': return [rlen(rng), Fr(rng.randrange(-8, 9), 8)]
    if m == 'envelope':
        a, b = sorted([rng.choice([F(20), F(200), F(1000), F(10000), F(20), F(rng.randrange(1, 11000)), F(rng.randrange(1, 23900)), min(rfreq(rng), F(23900))]) for _ in 'ab'])
        return [a, b]
    if m == 'gain': return [Fr(rng.randrange(-16, 17), 8)]
    if m == 'generic': return [rtaps(rng), rtaps_stable(rng)]
    if m in FILT: return [rfc(rng), rr(rng)]
    return []
def drive(rng, o, m, n):
    for _ in range(n):
        if m == 'adsr' and rng.random() < .1: o.do('adsr_release')
        o.do(m + '_process', rx(rng))

# ---------------------------------------------------------------- C02
def C02(p):
    p.rule = 'clone(any state with settings p) == new(p), and the original is unchanged'
    code = p.code
    for m in MODS:
        def f(m=m):
            a = margs(code, m); h, w = many(code, m, a)
            return same(code.ret(m + '_clone', h), mnew(code, m, a))
        def keep(m=m):
            a = margs(code, m); h, w = many(code, m, a)
            return same(code.post(m + '_clone', h), h)
        p.ob('%s: clone of any state equals a new one with its settings' % m, m + '_clone', f, group=m)
        p.ob('%s: cloning leaves the original alone' % m, m + '_clone', keep, group=m)
        setters = {'lowpass': ['_set_cf', '_set_r'], 'highpass': ['_set_cf', '_set_r'], 'bandpass': ['_set_cf', '_set_q', '_set_corners']}.get(m, [])
        for st in setters:
            def fs(m=m, st=st):
                a = margs(code, m); h, w = many(code, m, a)
                v = code.sym(code.argtys(m + st)[1], 'v')
                return same(code.ret(m + '_clone', code.post(m + st, h, v)), code.post(m + st, mnew(code, m, a), v))
            p.ob('%s: clone after %s equals a new one so set' % (m, st[1:]), m + '_clone', fs, group=m)
        def ref(m=m, setters=setters):
            def body(a, n, sets):
                x = Obj(code, m + '_new', *a); r = Obj(code, m + '_new', *a)
                drive(p.rng, x, m, n)
                for st, v in sets: x.do(m + st, v); r.do(m + st, v); drive(p.rng, x, m, n)
                before = x.copy()
                c = x.spawn(m + '_clone')
                if m == 'delay': expect(c.do('delay_get'), r.do('delay_get'), c.log())
                if m in FILT + ['bandpass']:
                    for g in [s.replace('_set', '_get') for s in setters if 'corners' not in s]: expect(c.do(m + g), r.do(m + g), '%s: %s of the clone' % (c.log(), g[1:]))
                for k in range(45):
                    if m == 'adsr' and k in (12, 30): c.do('adsr_release'); r.do('adsr_release')
                    u = rx(p.rng)
                    expect(c.do(m + '_process', u), r.do(m + '_process', u), '%s: sample %d of the clone' % (c.log(), k))
                for k in range(12):
                    u = rx(p.rng)
                    expect(x.do(m + '_process', u), before.do(m + '_process', u), '%s: sample %d of the original after cloning' % (x.log(), k))
            def gen():
                s = []
                for _ in range(p.rng.choice([0, 0, 1, 2])):
                    if setters:
                        st = p.rng.choice(setters)
                        s.append((st, setv(p.rng, st)))
                return (mgen(p.rng, m), p.rng.choice([0, 1, 3, 10, 50]), s)
            p.point(p.deep(40, 300), gen, body)
            if m in ('delay', 'echo'): far_lengths(p, m + '_clone', code.ret(m + '_clone', code.tf(m + '_new').value), 'a0', 'the clone of a ' + m)
        p.refuter(ref, m)
def setv(rng, st):
    if 'corners' in st:
        c = corners(rng)
        return c if rng.randrange(5) else S('tuple', c.f[::-1])
    if st == '_set_cf': return max(rfc(rng), F(1))
    if st == '_set_q': return rq(rng)
    return rr(rng)
def corners(rng):
    a, b = sorted([F(rng.randrange(1, 20000)), F(rng.randrange(1, 20000))])
    if rng.random() < .4:       # narrow or wide bands, in Hz or in proportion, now and then around a constant of the code
        d = near(rng, 0, 20000) or rng.choice([Fr(1, 8), Fr(1, 2), F(1), F(3), F(10), a, 3 * a, a / 2, a / 100])
        b = a + max(d, Fr(1, 64))
    elif rng.random() < .2: a = Fr(rng.randrange(1, 64), 64)
    if a == b: b += 100
    return S('tuple', [a, b])

# ---------------------------------------------------------------- C06
TUP = 'tuple'
def whole(x):
    """whole part of a non-negative number"""
    f = core.floor(x)
    return ite(ge(f, N(1)), f, N(0))
def C06(p):
    p.rule = 'get(set_v(any state)) == v; get is unchanged by process; no rounding in double-precision settings'
    code = p.code
    cases = []
    # (name, ctor, ctor args, setter, getter, process, value, transform of value, condition)
    def clampf(v): return vmin(v, N(24000))
    def clampr(v): return ite(lt(v, N(0)), N(0), vmin(v, N(1)))
    for m in FILT:
        cases.append((m, '_set_cf', '_get_cf', clampf)); cases.append((m, '_set_r', '_get_r', clampr))
    cases.append(('bandpass', '_set_cf', '_get_cf', lambda v: v)); cases.append(('bandpass', '_set_q', '_get_q', lambda v: v))
    for m, st, gt_, tr in cases:
        i = 0 if 'cf' in st else 1
        def a1(m=m, st=st, gt_=gt_, tr=tr):
            h, w = many(code, m, margs(code, m)); v = rv('v')
            return agree(code.ret(m + gt_, code.post(m + st, h, v)), tr(v))
        def a2(m=m, gt_=gt_, tr=tr, i=i):
            a = margs(code, m); h, w = many(code, m, a)
            return agree(code.ret(m + gt_, h), tr(a[i]))
        def a3(m=m, gt_=gt_):
            h, w = many(code, m, margs(code, m))
            return same(code.ret(m + gt_, code.post(m + '_process', h, X)), code.ret(m + gt_, h)) and same(code.post(m + gt_, h), h)
        def a4(m=m, st=st, gt_=gt_):
            # the other parameter's setter leaves this one alone
            ot = {'_set_cf': '_set_r' if m != 'bandpass' else '_set_q', '_set_r': '_set_cf', '_set_q': '_set_cf'}[st]
            h, w = many(code, m, margs(code, m)); v = rv('v')
            return same(code.ret(m + gt_, code.post(m + ot, h, v)), code.ret(m + gt_, h))
        def a5(m=m, st=st, gt_=gt_):
            s = code.tf(m + st, 'real32'); g = code.tf(m + gt_, 'real32'); n = code.tf(m + '_new', 'real32')
            out = code.ret(m + gt_, s.post[0], mode='real32'); o2 = code.ret(m + gt_, n.value, mode='real32')
            return not (has_kind(out, 'r32') or has_kind(o2, 'r32'))
        p.ob('%s%s reads back after %s' % (m, gt_, st), m + st, a1, group=m)
        p.ob('%s%s reads back after construction' % (m, gt_), m + '_new', a2, group=m)
        p.ob('%s%s is unchanged by processing and reading' % (m, gt_), m + '_process', a3, group=m)
        p.ob('%s%s is unchanged by the other setter' % (m, gt_), m + st, a4, group=m)
        p.ob('%s%s is not rounded to single precision' % (m, gt_), m + st, a5, group=m)
    # band-pass corners
    lo, w_ = rv('lo', 0), rv('wd', 0)
    hi = lo + w_
    pcc = ALL(gt(lo, N(0)), gt(w_, N(0)))
    pair = struct(TUP, [lo, hi]); rpair = struct(TUP, [hi, lo])
    def cset(pr):
        def f():
            h, w = many(code, 'bandpass', margs(code, 'bandpass'))
            return agree(code.ret('bandpass_get_corners', code.post('bandpass_set_corners', h, pr, pc=pcc), pc=pcc), pair, pcc)
        return f
    p.ob('bandpass corners read back after set_corners', 'bandpass_set_corners', cset(pair), group='corners')
    p.ob('bandpass corners read back in order after set_corners reversed', 'bandpass_set_corners', cset(rpair), group='corners')
    p.ob('bandpass corners read back after from_corners', 'bandpass_from_corners', lambda: agree(code.ret('bandpass_get_corners', code.ret('bandpass_from_corners', pair, pc=pcc), pc=pcc), pair, pcc), group='corners')
    def ckeep():
        h, w = many(code, 'bandpass', margs(code, 'bandpass'))
        return same(code.ret('bandpass_get_corners', code.post('bandpass_process', h, X)), code.ret('bandpass_get_corners', h))
    p.ob('bandpass corners unchanged by processing', 'bandpass_process', ckeep, group='corners')
    def cconv():
        # central frequency and quality follow from corners: fc = sqrt(lo hi), q = fc/(hi-lo)
        h, w = many(code, 'bandpass', margs(code, 'bandpass'))
        s = code.post('bandpass_set_corners', h, pair, pc=pcc)
        c = fn1('sqrt', lo * hi) if False else lift(core._sqrt)(lo * hi)
        return agree(code.ret('bandpass_get_cf', s, pc=pcc), c, pcc) and agree(code.ret('bandpass_get_q', s, pc=pcc) * w_, c, pcc)
    p.ob('bandpass central frequency and quality follow from the corners', 'bandpass_set_corners', cconv, group='corners')
    def cfq():
        # corners from centre and quality: lo*hi = fc^2, hi-lo = fc/q
        f, q = rv('f', 0), rv('q', 0)
        pc = ALL(gt(f, N(0)), gt(q, N(0)))
        r = code.ret('bandpass_get_corners', code.ret('bandpass_new', f, q, pc=pc), pc=pc)
        l, h = (r.f if isinstance(r, Struct) else (None, None))
        return agree(l * h, f * f, pc) and agree((h - l) * q, f, pc)
    p.ob('bandpass corners follow from central frequency and quality', 'bandpass_get_corners', cfq, group='corners')
    # resampler speed
    def r1():
        s = code.ret('resam_new', rdata(), rv('rate'), iv('ls'), iv('le'))
        h = havoc(code, s, written(code, 'resam_process'), 'resam_process'); v = rv('v')
        t = code.post('resam_set_speed', h, v)
        return same(code.ret('resam_get_speed', t), v) and same(code.ret('resam_get_speed', code.post('resam_process', t)), v) and same(code.ret('resam_get_speed', h), N(1)) and same(code.post('resam_get_speed', h), h)
    p.ob('resampler speed reads back, 1 at first, unchanged by sampling', 'resam_set_speed', r1, group='resam')
    def r2(): return not has_kind(code.ret('resam_get_speed', code.tf('resam_set_speed', 'real32').post[0], mode='real32'), 'r32')
    p.ob('resampler speed is not rounded to single precision', 'resam_set_speed', r2, group='resam')
    # simple sound gains
    def ss(w):
        def f():
            r = code.tf('ss_set_' + w); s = r.args[0]; v = r.args[1]
            g = lambda t: code.ret('ss_get_' + w, t)
            o = {'ig': 'og', 'og': 'ig'}[w]
            t = code.post('ss_set_' + w, s, v)
            return same(g(t), v) and same(code.post('ss_get_' + w, s), s) and same(code.ret('ss_get_' + o, t), code.ret('ss_get_' + o, s))
        return f
    def ssk(w):
        def f():
            r = code.tf('ss_process')
            s = r.args[0]
            g = lambda t: code.ret('ss_get_' + w, t)
            for op in ('ss_process',):
                if not same(g(code.tf(op).post[0]), g(code.args(op)[0])): return op
            for op in ('ss_tp', 'ss_tm'):
                if not same(g(code.post(op, s)), g(s)): return op
            return True
        return f
    def ssn(w):
        def f():
            r = code.tf('ss_new'); i = {'ig': 0, 'og': 1}[w]
            return same(code.ret('ss_get_' + w, r.value), r.args[i])
        return f
    for w, nm in (('ig', 'input'), ('og', 'output')):
        p.ob('simple sound %s gain reads back after setting' % nm, 'ss_set_' + w, ss(w), group='ss')
        p.ob('simple sound %s gain unchanged by processing, pausing, muting' % nm, 'ss_process', ssk(w), group='ss')
        p.ob('simple sound %s gain reads back after construction' % nm, 'ss_new', ssn(w), group='ss')
    # delay time
    def d1():
        d = margs(code, 'delay')[0]; h, w = many(code, 'delay', [d])
        want = whole(d * 48000 + Fr(1, 2)) / 48000
        got = code.ret('delay_get', h)
        return agree(got, want) and agree(code.ret('delay_get', code.post('delay_process', h, X)), want) and same(code.post('delay_get', h), h)
    p.ob('delay time reads back as a whole number of samples', 'delay_get', d1, group='delay')
    p.ob('delay time is not rounded to single precision', 'delay_get', lambda: not single(code.tf('delay_get', 'fp').value), group='delay')

    # ---- separation points
    EX = Fr(1, 10 ** 12)
    def reff(m, gets, sets):
        def ref():
            def body(a, ops):
                x = Obj(code, m + '_new', *a, mode='real32')
                cur = {'_get_cf': a[0], ('_get_q' if m == 'bandpass' else '_get_r'): a[1]}
                def tr(g, v): return v if m == 'bandpass' else (min(v, F(24000)) if g == '_get_cf' else max(F(0), min(F(1), v)))
                def chk():
                    for g, v in cur.items(): expect(x.do(m + g), tr(g, v), '%s: %s' % (x.log(), g[1:]), EX, EX)
                chk()
                for st, v in ops:
                    if st == 'run': drive(p.rng, x, m, 5)
                    else: x.do(m + st, v); cur[st.replace('set', 'get')] = v
                    chk()
            def gen():
                ops = []
                for _ in range(p.rng.choice([0, 1, 2, 4])):
                    st = p.rng.choice(['run'] + sets)
                    ops.append((st, None if st == 'run' else setv(p.rng, st)))
                return mgen(p.rng, m), ops
            p.point(p.deep(60, 400), gen, body)
        return ref
    for m in FILT: p.refuter(reff(m, ['_get_cf', '_get_r'], ['_set_cf', '_set_r']), m)
    p.refuter(reff('bandpass', ['_get_cf', '_get_q'], ['_set_cf', '_set_q']), 'bandpass')
    def refc():
        def body(c, rev, how, n):
            q = S('tuple', [c.f[1], c.f[0]]) if rev else c
            if how: x = Obj(code, 'bandpass_from_corners', q)
            else: x = Obj(code, 'bandpass_new', F(500), F(2)); x.do('bandpass_set_corners', q)
            drive(p.rng, x, 'bandpass', n)
            expect(x.do('bandpass_get_corners'), c, '%s: corner frequencies' % x.log())
            cf = x.do('bandpass_get_cf'); qq = x.do('bandpass_get_q')
            expect(cf * cf, c.f[0] * c.f[1], '%s: square of the central frequency' % x.log())
            expect(qq * (c.f[1] - c.f[0]), cf, '%s: quality times bandwidth' % x.log())
            y = Obj(code, 'bandpass_new', cf, qq)
            expect(y.do('bandpass_get_corners'), c, '%s: corner frequencies' % y.log())
        p.point(p.deep(60, 400), lambda: (corners(p.rng), p.rng.random() < .5, p.rng.random() < .5, p.rng.choice([0, 4])), body)
    p.refuter(refc, 'corners')
    def refr():
        def body(g, v):
            x = Obj(code, 'resam_new', *g[:4], mode='real32')
            expect(x.do('resam_get_speed'), F(1), x.log())
            for s in v:
                x.do('resam_set_speed', s)
                expect(x.do('resam_get_speed'), s, '%s: speed' % x.log(), EX, EX)
                for _ in range(g[5]): x.do('resam_process')
                expect(x.do('resam_get_speed'), s, '%s: speed' % x.log(), EX, EX)
        p.point(p.deep(60, 300), lambda: (rgen(p.rng), [p.rng.choice([F(0), F(1), Fr(1, 3), F(-2), Fr(7, 5), F(100)]) for _ in range(3)]), body)
    p.refuter(refr, 'resam')
    def refd():
        def body(d, n):
            x = Obj(code, 'delay_new', d)
            drive(p.rng, x, 'delay', n)
            expect(x.do('delay_get'), Fr(rnd(d * 48000), 48000), '%s: delay time' % x.log(), EX, Fr(2, 10 ** 9))
        p.point(p.deep(80, 500), lambda: (rlen(p.rng), p.rng.choice([0, 1, 7])), body)
        def far(n):
            x = Obj(code, 'delay_new', Fr(n * 10 ** 9 // 48000, 10 ** 9), mode='fp')
            v = x.do('delay_get')
            expect(Fr(v) if isinstance(v, float) else v, Fr(n, 48000), '%s: delay time' % x.log(), EX, Fr(2, 10 ** 9))
        for n in (1, 7, 100003): p.point(1, lambda n=n: (n,), far)
    p.refuter(refd, 'delay')
    def refs():
        def body():
            a, b, c = (Fr(p.rng.randrange(-9, 9), 4) for _ in 'abc')
            s = code.tf('ss_new')
            e = {'a0': a, 'a1': b, 'v': c}
            for w, want in (('ig', a), ('og', b)):
                g = code.ret('ss_get_' + w, s.value)
                expect(Eval(e).val(g), want, 'SimpleSound::new(.., input gain %s, output gain %s): %s' % (show(a), show(b), 'ss_get_' + w))
            for w in ('ig', 'og'):
                st = code.post('ss_set_' + w, s.value, rv('v'))
                expect(Eval(e).val(code.ret('ss_get_' + w, st)), c, 'ss_set_%s(%s); ss_get_%s' % (w, show(c), w))
                o = {'ig': 'og', 'og': 'ig'}[w]
                expect(Eval(e).val(code.ret('ss_get_' + o, st)), b if w == 'ig' else a, 'new(%s, %s); ss_set_%s(%s); ss_get_%s' % (show(a), show(b), w, show(c), o))
                for op in ('ss_tp', 'ss_tm', 'ss_process'):
                    ar = [st] + [rv('v')] * (len(code.args(op)) - 1)
                    t = code.post(op, *ar)
                    expect(Eval(e).val(code.ret('ss_get_' + w, t)), c, 'ss_set_%s(%s); %s; ss_get_%s' % (w, show(c), op, w))
        p.point(20, lambda: (), body)
    p.refuter(refs, 'ss')

# ---------------------------------------------------------------- C07
def C07(p):
    p.rule = 'new(f,r) == new(min(f,24000), clamp(r,0,1)); set_v == set_clamp(v); ADSR new(..s..) == new(..min(s,0)..)'
    code = p.code
    cf = lambda v: vmin(v, N(24000))
    cr = lambda v: ite(lt(v, N(0)), N(0), vmin(v, N(1)))
    for m in FILT:
        f, r, v = rv('f'), rv('r'), rv('v')
        def c1(m=m): return agree(code.ret(m + '_new', f, r), code.ret(m + '_new', cf(f), cr(r)))
        def c2(m=m):
            n = code.ret(m + '_new', f, r)
            return agree(code.ret(m + '_get_cf', n), cf(f)) and agree(code.ret(m + '_get_r', n), cr(r))
        def c3(m=m):
            h, w = many(code, m, [f, r])
            return agree(code.post(m + '_set_cf', h, v), code.post(m + '_set_cf', h, cf(v))) and agree(code.ret(m + '_get_cf', code.post(m + '_set_cf', h, v)), cf(v))
        def c4(m=m):
            h, w = many(code, m, [f, r])
            return agree(code.post(m + '_set_r', h, v), code.post(m + '_set_r', h, cr(v))) and agree(code.ret(m + '_get_r', code.post(m + '_set_r', h, v)), cr(v))
        p.ob('%s: constructing equals constructing with clamped parameters' % m, m + '_new', c1, group=m)
        p.ob('%s: constructor clamps cut-off and resonance' % m, m + '_new', c2, group=m)
        p.ob('%s: setter clamps the cut-off' % m, m + '_set_cf', c3, group=m)
        p.ob('%s: setter clamps the resonance' % m, m + '_set_r', c4, group=m)
        def ref(m=m):
            kf = lambda v: min(v, F(24000)); kr = lambda v: max(F(0), min(F(1), v))
            def body(a, ops):
                x = Obj(code, m + '_new', *a); y = Obj(code, m + '_new', kf(a[0]), kr(a[1]))
                cur = [kf(a[0]), kr(a[1])]
                def chk():
                    expect(x.do(m + '_get_cf'), cur[0], '%s: cut-off' % x.log()); expect(x.do(m + '_get_r'), cur[1], '%s: resonance' % x.log())
                    for k in range(4):
                        u = rx(p.rng)
                        expect(x.do(m + '_process', u), y.do(m + '_process', u), '%s: sample, against the same filter given clamped values' % x.log())
                chk()
                for i, v in ops:
                    x.do(m + ['_set_cf', '_set_r'][i], v); y.do(m + ['_set_cf', '_set_r'][i], (kf, kr)[i](v)); cur[i] = (kf, kr)[i](v)
                    chk()
            def gen():
                def pr(i): return (rfc(p.rng) if p.rng.random() < .7 else Fr(p.rng.randrange(23990 * 4, 24010 * 4), 4)) if i == 0 else rr(p.rng)
                return [pr(0), pr(1)], [(i, pr(i)) for i in [p.rng.randrange(2) for _ in range(p.rng.choice([0, 1, 2, 3]))]]
            p.point(p.deep(80, 600), gen, body)
        p.refuter(ref, m)
    def a1():
        a = margs(code, 'adsr')
        return agree(code.ret('adsr_new', *a), code.ret('adsr_new', a[0], a[1], vmin(a[2], N(0)), a[3]))
    p.ob('adsr: sustain level is clamped to 0 dB', 'adsr_new', a1, group='adsr')
    def refa():
        def body(a):
            a[2] = p.rng.choice([a[2], Fr(p.rng.randrange(1, 300), 10), Fr(1, 1000)])
            x = Obj(code, 'adsr_new', *a); y = Obj(code, 'adsr_new', a[0], a[1], min(a[2], F(0)), a[3])
            for k in range(100):
                if k == 85: x.do('adsr_release'); y.do('adsr_release')
                expect(x.do('adsr_process', F(1)), y.do('adsr_process', F(1)), '%s: sample %d, against a sustain level of at most 0 dB' % (x.log(), k))
        p.point(p.deep(40, 300), lambda: (mgen(p.rng, 'adsr'),), body)
    p.refuter(refa, 'adsr')

# ---------------------------------------------------------------- C08
def C08(p):
    p.rule = 'set_v(any state of new(p)) == new(p with v) carrying the same history'
    code = p.code
    cases = [(m, st, i) for m in FILT for st, i in (('_set_cf', 0), ('_set_r', 1))] + [('bandpass', '_set_cf', 0), ('bandpass', '_set_q', 1), ('bandpass', '_set_corners', 2)]
    for m, st, i in cases:
        def f(m=m, st=st, i=i):
            a = margs(code, m); h, w = many(code, m, a)
            v = code.sym(code.argtys(m + st)[1], 'v')
            if i == 2:
                for pc in (lt(v.f[0], v.f[1]), lt(v.f[1], v.f[0])):
                    got = code.post(m + st, h, v, pc=pc); want = code.ret('bandpass_from_corners', v, pc=pc)
                    for q in w: want = setp(want, q, getp(h, q))
                    if not agree(got, want, pc): return False
                return True
            got = code.post(m + st, h, v)
            if 0: pass
            else:
                b = list(a); b[i] = v; want = code.ret(m + '_new', *b)
            for q in w: want = setp(want, q, getp(h, q))
            # the new settings are derived on clamped values, so compare under both
            return agree(got, want)
        p.ob('%s%s equals constructing with the resulting parameters, history kept' % (m, st), m + st, f, group=m + st)
        def hist(m=m, st=st):
            a = margs(code, m); h, w = many(code, m, a)
            v = code.sym(code.argtys(m + st)[1], 'v')
            return all(same(getp(code.post(m + st, h, v), q), getp(h, q)) for q in w)
        p.ob('%s%s leaves the signal history alone' % (m, st), m + st, hist, group=m + st)
        def ref(m=m, st=st, i=i):
            def body(a, n, v):
                x = Obj(code, m + '_new', *a)
                # twin: built with the result and given the same history through linearity:
                # history is exposed by running the same signal, so compare settings on a
                # fresh object and the running one from an equal history
                y = Obj(code, m + '_new', *a)
                y.do(m + st, v)
                if i == 2: z = Obj(code, 'bandpass_from_corners', v)
                else:
                    b = list(a); b[i] = v; z = Obj(code, m + '_new', *b)
                for g in ('_get_cf', '_get_q') if m == 'bandpass' else ('_get_cf', '_get_r'):
                    expect(y.do(m + g), z.do(m + g), '%s: against one constructed with the result' % y.log(), Fr(1, 10 ** 7))
                for k in range(12):
                    u = rx(p.rng)
                    expect(y.do(m + '_process', u), z.do(m + '_process', u), '%s: sample %d, against one constructed with the result' % (y.log(), k), Fr(1, 10 ** 7))
                # running filter: setting there and back again is transparent
                us = [rx(p.rng) for _ in range(n)]
                x = Obj(code, m + '_new', *a)
                for u in us: x.do(m + '_process', u)
                y = x.copy()
                y.do(m + st, v)
                if i == 2: y.do('bandpass_set_cf', a[0]); y.do('bandpass_set_q', a[1])
                else: y.do(m + st, a[i])
                for k in range(8):
                    u = rx(p.rng)
                    expect(y.do(m + '_process', u), x.do(m + '_process', u), '%s: sample %d, against the filter left alone' % (y.log(), k), Fr(1, 10 ** 7))
                # transplanted history
                hw = written(code, m + '_process')
                x2 = x.copy(); x2.do(m + st, v)
                t = z.copy()
                if isinstance(t.s, S) and isinstance(x.s, S):
                    if i == 2: t = Obj(code, 'bandpass_from_corners', v)
                    else: t = Obj(code, m + '_new', *b)
                    fs = list(t.s.f)
                    for q in hw:
                        if len(q) != 1: return
                        fs[q[0]] = x.s.f[q[0]]
                    t.s = S(t.s.tag, fs)
                    for k in range(8):
                        u = rx(p.rng)
                        expect(x2.do(m + '_process', u), t.do(m + '_process', u), '%s: sample %d after retuning, against one constructed with the result on the same history' % (x2.log(), k), Fr(1, 10 ** 7))
            def gen():
                a = mgen(p.rng, m); v = setv(p.rng, st)
                if p.rng.random() < .4:
                    # next to the present setting
                    e = p.rng.choice([Fr(1, 2), Fr(1, 10), Fr(1, 100), Fr(1, 1000), Fr(1, 10 ** 4)] + [abs(c) / 2 for c in p.rng.dictionary() if 0 < abs(c) < 1000])
                    e *= p.rng.choice([1, -1])
                    if i < 2: v = max(a[i] + (e if st == '_set_cf' else e / 4), F(1) if st == '_set_cf' else Fr(1, 100))
                    else: v = S('tuple', [v.f[0], v.f[0] + e])
                elif i == 2 and p.rng.random() < .4:
                    # corners in the squares of whole numbers have a rational centre and quality: from the same quality or centre
                    t, s = sorted(p.rng.sample(range(2, 12), 2)); k, j = F(p.rng.randrange(1, 150)), F(p.rng.randrange(1, 150))
                    v = S('tuple', [k * t * t, k * s * s])
                    a = [j * t * s, Fr(t * s, s * s - t * t)] if p.rng.random() < .6 else [k * t * s, a[1]]
                if i == 2 and p.rng.random() < .3: v = S('tuple', [v.f[1], v.f[0]])
                return a, p.rng.choice([0, 1, 2, 6]), v
            p.point(p.deep(60, 300), gen, body)
        p.refuter(ref, m + st)

# ---------------------------------------------------------------- C09
def hstate(code, m, args, vals):
    """new(args) with history fields given by a function of their current (zero) shape"""
    s = code.ret(m + '_new', *args)
    return s
def fill(v, x):
    """sequence or number with every element x"""
    if isinstance(v, Struct): return struct(v.tag, [fill(y, x) for y in v.f])
    L = [l for l in leaves_of(v)]
    if all(isinstance(l.v, Rat) for l in L): return x
    return lift(lambda q: seqv([('lit', x) if t[0] == 'lit' else ('comp', t[1], const_lam(x).k and const_lam(x)) for t in q.p]))(v)
def named(code, tag, v, want):
    """v with named fields replaced"""
    i, T = type_of(code, tag)
    names = [f[0] for f in T['variants'][0]['f']]
    fs = list(v.f)
    for n, x in want.items():
        if n not in names: raise NoLayout(n)
        fs[names.index(n)] = x
    return struct(v.tag, fs)
def C09(p):
    p.rule = 'the constant (or alternating) signal and its specified answer are a fixed point of the extracted step'
    code = p.code
    c = rv('c')
    f, r, q = rv('f', 0, 24000), rv('r', 0, 1), rv('q', 0)
    def fixed(m, args, hist, x, y, nxt=None, pc=TRUE):
        def g():
            s = code.ret(m + '_new', *args, pc=pc)
            t = named(code, TYM[m], s, hist)
            n = named(code, TYM[m], s, nxt if nxt is not None else hist)
            return agree(code.ret(m + '_process', t, x, pc=pc), y, pc) and agree(code.post(m + '_process', t, x, pc=pc), n, pc)
        return g
    z = N(0)
    pf = gt(f, N(0))
    p.ob('lowpass: a constant passes unchanged', 'lowpass_process', fixed('lowpass', [f, r], {'outs': seq_lit([c, c, c])}, c, c, pc=pf), group='lowpass')
    p.ob('highpass: a constant is blocked', 'highpass_process', fixed('highpass', [f, r], {'x1': c, 'x2': c, 'x3': c, 'y1': z, 'y2': z, 'y3': z}, c, z, pc=pf), group='highpass')
    bq = ALL(gt(f, N(0)), gt(q, N(0)))
    p.ob('bandpass: a constant is blocked', 'bandpass_process', fixed('bandpass', [f, q], {'x1': c, 'x2': c, 'y1': z, 'y2': z}, c, z, pc=bq), group='bandpass')
    p.ob('bandpass: an alternating signal is blocked', 'bandpass_process', fixed('bandpass', [f, q], {'x1': -c, 'x2': c, 'y1': z, 'y2': z}, c, z, {'x1': c, 'x2': -c, 'y1': z, 'y2': z}, pc=bq), group='bandpass')
    lo, up = rv('lo', 0, 20000), rv('up', 0, 20000)
    p.ob('envelope: settles at the magnitude of a constant', 'envelope_process', fixed('envelope', [lo, up], {'x1': c, 'y1': vabs(c)}, c, vabs(c)), group='envelope')
    # settled within the settings after any setter
    for m, st in (('lowpass', '_set_cf'), ('lowpass', '_set_r'), ('highpass', '_set_cf'), ('highpass', '_set_r'), ('bandpass', '_set_cf'), ('bandpass', '_set_q'), ('bandpass', '_set_corners')):
        def g(m=m, st=st):
            v = code.sym(code.argtys(m + st)[1], 'v')
            s = code.post(m + st, code.ret(m + '_new', f, r if m != 'bandpass' else q), v)
            hist = {'lowpass': {'outs': seq_lit([c, c, c])}, 'highpass': {'x1': c, 'x2': c, 'x3': c, 'y1': z, 'y2': z, 'y3': z}, 'bandpass': {'x1': c, 'x2': c, 'y1': z, 'y2': z}}[m]
            t = named(code, TYM[m], s, hist)
            return agree(code.ret(m + '_process', t, c), c if m == 'lowpass' else z)
        p.ob('%s: the same after %s' % (m, st[1:]), m + st, g, group=m)
    # separation: the steady state found by running to convergence
    def settle(m, mk, sig, want):
        def ref():
            def body(a, c, st):
                x = Obj(code, m + mk, *a)
                if st: x.do(m + st[0], st[1])
                y = None; big = 0
                last = []
                for k in range(4000):
                    u = sig(c, k)
                    y = x.do(m + '_process', u)
                    if abs(y) > 10 ** 4: raise Skip('unstable')
                    last.append(y)
                    if k > 60 and all(abs(v - last[-2]) < Fr(1, 10 ** 13) for v in last[-12::2]) and all(abs(v - last[-1]) < Fr(1, 10 ** 13) for v in last[-11::2]): break
                else: raise Skip('slow')
                w = want(c)
                for v in last[-2:]: expect(v, w, '%s: steady response to %s' % (x.log(), 'the constant ' + show(c) if sig(c, 0) == sig(c, 1) else 'alternating +-' + show(c)), Fr(1, 10 ** 6), Fr(1, 10 ** 8))
            def gen():
                a = mgen(p.rng, m)
                st = None
                if m in FILT:
                    a = [F(p.rng.choice([7700, 8000, 9000, 12000, 16000, 20000, 24000, 6000, 4000])), p.rng.choice([F(0), Fr(1, 4), Fr(1, 2), Fr(3, 4)])]
                    if p.rng.random() < .4: st = p.rng.choice([('_set_cf', F(p.rng.choice([7700, 10000, 24000, 30000]))), ('_set_r', Fr(p.rng.randrange(0, 60), 100))])
                if m == 'bandpass':
                    a = [F(p.rng.choice([2000, 4000, 6000, 9000, 12000, 15000])), Fr(p.rng.choice([1, 2, 3, 5]), 4)]
                    if p.rng.random() < .4: st = p.rng.choice([('_set_cf', F(p.rng.choice([3000, 5000, 11000]))), ('_set_q', Fr(p.rng.choice([1, 3, 4]), 4)), ('_set_corners', S('tuple', [F(2000), F(12000)]))])
                if m == 'envelope': a = sorted([F(p.rng.choice([1000, 4000, 8000])), F(p.rng.choice([4000, 8000, 11000]))])
                return a, rx(p.rng) or F(1), st
            p.point(p.deep(24, 150), gen, body)
        return ref
    p.refuter(settle('lowpass', '_new', lambda c, k: c, lambda c: c), 'lowpass')
    p.refuter(settle('highpass', '_new', lambda c, k: c, lambda c: F(0)), 'highpass')
    p.refuter(settle('bandpass', '_new', lambda c, k: c, lambda c: F(0)), 'bandpass')
    p.refuter(settle('bandpass', '_new', lambda c, k: c if k % 2 else -c, lambda c: F(0)), 'bandpass')
    p.refuter(settle('envelope', '_new', lambda c, k: c, lambda c: abs(c)), 'envelope')

# ---------------------------------------------------------------- C10
LIN = ['gain', 'passthrough', 'delay', 'echo', 'generic', 'lowpass', 'highpass', 'bandpass']
class NonLin(Exception): pass
def sigdeg(v, sig, memo):
    """1: homogeneous linear in the signal, 0: free of it; raises NonLin"""
    k = v.id
    if k in memo: return memo[k]
    if isinstance(v, Struct):
        ds = [sigdeg(x, sig, memo) for x in v.f]
        r = max(ds) if ds else 0
    elif isinstance(v, Node):
        if cond_sig(v.c, sig, memo): raise NonLin('a branch depends on the signal: %s' % core.show_cond(v.c)[:200])
        a, b = sigdeg(v.hi, sig, memo), sigdeg(v.lo, sig, memo)
        r = max(a, b)
    elif isinstance(v.v, Rat): r = ratdeg(v.v, sig, memo)
    elif isinstance(v.v, SeqV):
        r = 0
        for q in v.v.p: r = max(r, sigdeg(q[1], sig, memo) if q[0] == 'lit' else sigdeg(q[2].body, sig, memo))
    elif isinstance(v.v, Variant): r = max([sigdeg(x, sig, memo) for x in v.v.f] or [0])
    elif v is TRUE or v is FALSE or v is UNIT: r = 0
    else: raise NonLin('value %s' % show(v)[:100])
    memo[k] = r
    return r
def polyterms(q, sig, memo):
    for mo, c in q.t.items():
        yield mo, c, sum(atomdeg(core._atom_by_id[a], sig, memo) * e for a, e in mo)
def ratdeg(r, sig, memo):
    if any(d for _, _, d in polyterms(r.d, sig, memo)): raise NonLin('division by the signal')
    ds = {d for _, _, d in polyterms(r.n, sig, memo)}
    if not ds: return 0
    if len(ds) > 1: raise NonLin('not homogeneous in the signal: %s' % core.show_rat(r)[:200])
    d = ds.pop()
    if d > 1: raise NonLin('degree %d in the signal: %s' % (d, core.show_rat(r)[:200]))
    return d
def atomdeg(a, sig, memo):
    k = ('a', a.id)
    if k in memo: return memo[k]
    if sig(a): r = 1
    elif a.kind == 'at' and a.args and isinstance(a.args[0], Atom) and sig(a.args[0]):
        r = 1
    elif a.kind == 'sum': r = sigdeg(a.args[1].body, sig, memo)
    elif any(sig(core._atom_by_id[i]) for i in atoms_in(num(a))): raise NonLin('%s of the signal' % a.kind)
    else: r = 0
    memo[k] = r
    return r
def cond_sig(c, sig, memo):
    ids = set()
    q = c.q
    if isinstance(q, Atom): ids = atoms_in(num(q)) | {q.id}
    else:
        for x in q.atoms(): ids |= atoms_in(num(core._atom_by_id[x])) | {x}
    return any(sig(core._atom_by_id[i]) for i in ids)
def is_signal(a): return a.kind == 'var' and isinstance(a.args[0], str) and (a.args[0] == 'x' or a.args[0].startswith('h_'))
def zeros_only(v):
    return all((not isinstance(l.v, Rat)) or l.v.n.is_zero() for l in leaves_deep(v))
def leaves_deep(v):
    for l in leaves_of(v):
        if isinstance(l.v, SeqV):
            for q in l.v.p: yield from leaves_deep(q[1] if q[0] == 'lit' else q[2].body)
        else: yield l
def gen_state(code, n=''):
    """a generic filter in any state satisfying its invariant: every tap lies inside its history"""
    M, P, nz, np_ = iv('M' + n, 1), iv('P' + n, 1), iv('nz' + n), iv('np' + n)
    def taps(nm, n_, L):
        def el(b, i):
            slack = num(atom('proj', (atom('at', (b, i), 'obj'), '0', 0), 'int', 0))
            return struct('tuple', [L - 1 - slack, num(atom('proj', (atom('at', (b, i), 'obj'), '1', 1), 'real'))])
        return seqvar(nm, n_, el)
    z, q = taps('z' + n, nz, M), taps('q' + n, np_, P)
    i, o = f32seq('h_i' + n, M), f32seq('h_o' + n, P)
    return {'zeros': z, 'poles': q, 'inputs': i, 'outputs': o}
def state_of(code, m):
    if m == 'generic':
        f = gen_state(code)
        return build(code, TYM['generic'], f), [q for q in written(code, 'generic_process')]
    return many(code, m, margs(code, m))
def C10(p):
    p.rule = 'output and next history are homogeneous linear in input and history, no branch on either; a new one is silent and stays so'
    code = p.code
    for m in LIN:
        def f(m=m):
            h, w = state_of(code, m)
            y = code.ret(m + '_process', h, X); n = code.post(m + '_process', h, X)
            memo = {}
            try:
                sigdeg(y, is_signal, memo)
                for q in w:
                    sigdeg(getp(n, q), is_signal, memo)
            except NonLin as e: return str(e)
            return True
        def hom(m=m):
            h, w = state_of(code, m)
            y = code.ret(m + '_process', h, X)
            memo = {}
            try: return all(ratdeg(l.v, is_signal, memo) == 1 or l.v.n.is_zero() for l in leaves_of(y))
            except NonLin as e: return str(e)
        def rest(m=m):
            a = margs(code, m); s = mnew(code, m, a); z = N(0)
            if m == 'generic':
                w = written(code, m + '_process')
                return all(zeros_only(getp(s, q)) for q in w)
            return agree(code.ret(m + '_process', s, z), z) and agree(code.post(m + '_process', s, z), s)
        def sett(m=m):
            # processing changes nothing a new filter of the same settings does not start blank
            h, w = state_of(code, m)
            s = mnew(code, m, margs(code, m))
            return all(zeros_only(getp(s, q)) for q in w)
        p.ob('%s: output and next state linear in input and history' % m, m + '_process', f, group=m)
        p.ob('%s: output homogeneous of degree one' % m, m + '_process', hom, group=m)
        p.ob('%s: silence at rest stays silence' % m, m + '_process', rest, group=m)
        p.ob('%s: processing writes only the signal history' % m, m + '_process', sett, group=m)
        def ref(m=m):
            def body(a, n, c, k0, sg):
                o = [Obj(code, m + '_new', *a) for _ in range(4)]
                late = Obj(code, m + '_new', *a)
                us = [(rx(p.rng) * sg, rx(p.rng) * sg) for _ in range(n)]
                ys = []
                for j in range(k0): expect(late.do(m + '_process', F(0)), F(0), '%s: silence from rest' % late.log())
                sc = sg
                for j, (u, v) in enumerate(us):
                    y = [o[0].do(m + '_process', u), o[1].do(m + '_process', v), o[2].do(m + '_process', u + v), o[3].do(m + '_process', c * u)]
                    sc = max([sc] + [abs(q) for q in y])
                    if sc > 10 ** 6: raise Skip('unstable')
                    h = 'signals %s' % show([t for t, _ in us[:j + 1]])
                    ab = ABS * sc * 10
                    expect(y[2], y[0] + y[1], '%s(%s): response %d to the sum of %s and %s' % (m, ', '.join(map(show, a)), j, show([t for t, _ in us[:j + 1]]), show([t for _, t in us[:j + 1]])), ab=ab)
                    expect(y[3], c * y[0], '%s(%s): response %d to %s times %s' % (m, ', '.join(map(show, a)), j, show(c), show([t for t, _ in us[:j + 1]])), ab=ab)
                    expect(late.do(m + '_process', u), y[0], '%s(%s): response %d to %s, %d samples later' % (m, ', '.join(map(show, a)), j, show([t for t, _ in us[:j + 1]]), k0), ab=ab)
            def big(x): return x * p.rng.choice([1, 1, 1, 4, 100])
            p.point(p.deep(50, 400), lambda: (mgen(p.rng, m), p.rng.choice([5, 15, 45]), p.rng.choice([F(2), F(-1), Fr(1, 100), F(50), F(1 << 20)]), p.rng.choice([0, 1, 3, 30]), rscale(p.rng)), body)
        p.refuter(ref, m)

# ---------------------------------------------------------------- C11
def coef(f, r):
    pi = num(atom('pi', ()))
    t = pi * f / 24000
    k = 1 - 2 * core.cos(pi * (4 - r) / 6)
    return t, k
def bp_coef(l, u):
    pi = num(atom('pi', ()))
    tl, tu = core.tan(pi * l / 48000), core.tan(pi * u / 48000)
    d = (1 + tu) * (1 + tl)
    return tu / d, ((1 - tu) * (1 + tl) + (1 + tu) * (1 - tl)) / d, (1 - tu) * (1 - tl) / d
def ffix(x): return mpm(x)
def C11(p):
    p.rule = 'one extracted step from any history equals one step of the stated recursion; coefficients are the stated functions of the settings'
    code = p.code
    f, r = rv('f'), rv('r')
    h = [rv('h%d' % i) for i in range(3)]; g = [rv('g%d' % i) for i in range(3)]
    t, k = coef(vmin(f, N(24000)), ite(lt(r, N(0)), N(0), vmin(r, N(1))))
    D = 1 + k * t + k * t * t + t * t * t
    fb = (3 + 2 * k * t + k * t * t, -(3 + k * t), N(1))
    # the clamped parameters are what the filter runs with
    def lp():
        s = named(code, TYM['lowpass'], code.ret('lowpass_new', f, r), {'outs': seq_lit(h)})
        y = (t * t * t * X + fb[0] * h[0] + fb[1] * h[1] + fb[2] * h[2]) / D
        return agree(code.ret('lowpass_process', s, X), y) and agree(code.post('lowpass_process', s, X), named(code, TYM['lowpass'], s, {'outs': seq_lit([y, h[0], h[1]])}))
    def hp():
        s = named(code, TYM['highpass'], code.ret('highpass_new', f, r), {'x1': g[0], 'x2': g[1], 'x3': g[2], 'y1': h[0], 'y2': h[1], 'y3': h[2]})
        y = (X - 3 * g[0] + 3 * g[1] - g[2] + fb[0] * h[0] + fb[1] * h[1] + fb[2] * h[2]) / D
        return agree(code.ret('highpass_process', s, X), y) and agree(code.post('highpass_process', s, X), named(code, TYM['highpass'], s, {'x1': X, 'x2': g[0], 'x3': g[1], 'y1': y, 'y2': h[0], 'y3': h[1]}))
    cf, q = rv('f', 0), rv('q', 0)
    bpc = ALL(gt(cf, N(0)), gt(q, N(0)))
    def bp():
        s0 = code.ret('bandpass_new', cf, q, pc=bpc)
        c = code.ret('bandpass_get_corners', s0, pc=bpc)
        if not isinstance(c, Struct): return 'corner pair is not one value'
        a0, b1, b2 = bp_coef(c.f[0], c.f[1])
        s = named(code, TYM['bandpass'], s0, {'x1': g[0], 'x2': g[1], 'y1': h[0], 'y2': h[1]})
        y = a0 * X - a0 * g[1] + b1 * h[0] - b2 * h[1]
        return agree(code.ret('bandpass_process', s, X, pc=bpc), y, bpc) and agree(code.post('bandpass_process', s, X, pc=bpc), named(code, TYM['bandpass'], s, {'x1': X, 'x2': g[0], 'y1': y, 'y2': h[0]}), bpc)
    l, wd = rv('l', 0), rv('wd', 0)
    u = l + wd
    cpc = ALL(gt(l, N(0)), gt(wd, N(0)))
    def bpcor(rev, how):
        def fn():
            pr = struct('tuple', [u, l] if rev else [l, u])
            s0 = code.ret('bandpass_from_corners', pr, pc=cpc) if how else code.post('bandpass_set_corners', code.ret('bandpass_new', cf, q), pr, pc=cpc)
            a0, b1, b2 = bp_coef(l, u)
            s = named(code, TYM['bandpass'], s0, {'x1': g[0], 'x2': g[1], 'y1': h[0], 'y2': h[1]})
            y = a0 * X - a0 * g[1] + b1 * h[0] - b2 * h[1]
            return agree(code.ret('bandpass_process', s, X, pc=cpc), y, cpc)
        return fn
    for m, fn in (('lowpass', lp), ('highpass', hp), ('bandpass', bp)):
        p.ob('%s: one step from any history is the stated recursion' % m, m + '_process', fn, group=m)
        # history-layout free: the first samples from rest
        def rest(m=m):
            pc = TRUE
            if m == 'bandpass':
                s = code.ret('bandpass_new', cf, q, pc=bpc); pc = bpc
                c = code.ret('bandpass_get_corners', s, pc=pc)
                a0, b1, b2 = bp_coef(c.f[0], c.f[1])
                step = lambda xs, ys: a0 * xs[0] - a0 * xs[2] + b1 * ys[0] - b2 * ys[1]
            else:
                s = code.ret(m + '_new', f, r)
                step = (lambda xs, ys: (t * t * t * xs[0] + fb[0] * ys[0] + fb[1] * ys[1] + fb[2] * ys[2]) / D) if m == 'lowpass' else (lambda xs, ys: (xs[0] - 3 * xs[1] + 3 * xs[2] - xs[3] + fb[0] * ys[0] + fb[1] * ys[1] + fb[2] * ys[2]) / D)
            xs = [N(0)] * 4; ys = [N(0)] * 3
            for n in range(3):
                x = rv('x%d' % n); xs = [x] + xs[:3]
                y = step(xs, ys)
                if not agree(code.ret(m + '_process', s, x, pc=pc), y, pc): return 'sample %d' % n
                s = code.post(m + '_process', s, x, pc=pc); ys = [y] + ys[:2]
            return True
        p.ob('%s: the first samples from rest' % m, m + '_process', rest, group=m)
    for m in FILT:
        for st, ex in (('_set_cf', 0), ('_set_r', 1)):
            def fs(m=m, st=st, ex=ex):
                v = rv('v')
                old = [rv('f_'), rv('r_')]
                s = code.post(m + st, code.ret(m + '_new', *old), v)
                nw = list(old); nw[ex] = v
                return agree(s, code.ret(m + '_new', *nw))
            p.ob('%s%s: coefficients are those of the new settings' % (m, st), m + st, fs, group=m)
    for rev in (False, True):
        for how in (0, 1):
            p.ob('bandpass %s%s: cascade of a low-pass at the upper and a high-pass at the lower corner' % (('set_corners', 'from_corners')[how], ' reversed' if rev else ''), ('bandpass_set_corners', 'bandpass_from_corners')[how], bpcor(rev, how), group='bandpass')
    from evaluate import trans, PIF
    def num_coef(f, r):
        t = 2 * PIF * f / 48000; k = 1 - 2 * trans('cos', PIF * (4 - r) / 6)
        return t, k
    def spec_run(m, a, sets, us, cuts):
        """difference equation, histories carried through parameter changes"""
        x = [F(0)] * 4; y = [F(0)] * 3; out = []
        cur = list(a)
        for j, v in enumerate(us):
            for (cut, st, val) in cuts:
                if cut == j:
                    if st == '_set_cf': cur[0] = val
                    elif st in ('_set_r', '_set_q'): cur[1] = val
                    else:
                        l, h = sorted(val.f); cur[0] = trans('sqrt', l * h); cur[1] = cur[0] / (h - l)
            x = [v] + x[:3]
            if m == 'bandpass':
                b = cur[0] / cur[1]; s = trans('sqrt', b * b + 4 * cur[0] ** 2)
                hi, lo = (b + s) / 2, (s - b) / 2
                tl, tu = trans('tan', PIF * lo / 48000), trans('tan', PIF * hi / 48000)
                d = (1 + tu) * (1 + tl)
                if abs(d) < Fr(1, 100): raise Skip('pole')
                z = (tu * (x[0] - x[2]) + ((1 - tu) * (1 + tl) + (1 + tu) * (1 - tl)) * y[0] - (1 - tu) * (1 - tl) * y[1]) / d
            else:
                t, k = num_coef(min(cur[0], F(24000)), max(F(0), min(F(1), cur[1])))
                D = 1 + k * t + k * t * t + t ** 3
                drive_ = t ** 3 * x[0] if m == 'lowpass' else x[0] - 3 * x[1] + 3 * x[2] - x[3]
                z = (drive_ + (3 + 2 * k * t + k * t * t) * y[0] - (3 + k * t) * y[1] + y[2]) / D
            z = evaluate.cut(z)
            y = [z] + y[:2]; out.append(z)
        return out
    for m in FILT + ['bandpass']:
        def ref(m=m):
            def body(a, n, cuts, sg):
                us = [sg * (F(1) if p.rng.random() < .3 else rx(p.rng) if p.rng.random() < .9 else 0) for _ in range(n)]
                try: want = spec_run(m, a, None, us, cuts)
                except (ZeroDivisionError, NoEval): raise Skip('spec')
                x = Obj(code, m + '_new', *a)
                big = sg
                for j, v in enumerate(us):
                    for cut, st, val in cuts:
                        if cut == j: x.do(m + st, val)
                    y = x.do(m + '_process', v)
                    big = max(big, abs(want[j]))
                    if big > 10 ** 5: raise Skip('unstable')
                    expect(y, want[j], '%s: sample %d of the response to %s' % (x.log(), j, show(us[:j + 1])), Fr(1, 10 ** 6), Fr(1, 10 ** 7) * big)
            def gen():
                a = mgen(p.rng, m)
                n = p.rng.choice([3, 6, 12, 24])
                cuts = []
                for _ in range(p.rng.choice([0, 0, 1, 2])):
                    st = p.rng.choice(['_set_cf', '_set_r'] if m != 'bandpass' else ['_set_cf', '_set_q', '_set_corners'])
                    cuts.append((p.rng.randrange(0, n), st, setv(p.rng, st)))
                return a, n, cuts, rscale(p.rng)
            p.point(p.deep(80, 600), gen, body)
        p.refuter(ref, m)

# ---------------------------------------------------------------- C48
def leafpairs(a, b, path=()):
    """(path, before, after) of every scalar of a state"""
    if isinstance(a, Struct):
        if not (isinstance(b, Struct) and len(a.f) == len(b.f)): raise NoLayout('state')
        for i, (x, y) in enumerate(zip(a.f, b.f)): yield from leafpairs(x, y, path + (i,))
        return
    la, lb = literal_seq(a), literal_seq(b)
    if la is not None and lb is not None and len(la) == len(lb):
        for i, (x, y) in enumerate(zip(la, lb)): yield from leafpairs(x, y, path + (i,))
        return
    yield path, a, b
def is32(x): return x.kind in ('f64to32', 'r32') or x.kind == 'fp' and x.args[1] in (32, N(32))
def single(v):
    """the single-precision operations a floating-point form goes through"""
    return [a for a in (core._atom_by_id[i] for i in atoms_in(v)) if is32(a)]
def narrow_feedback(code, m, entry=None):
    """single-precision operations on the feedback history, or in the settings a step uses; '' when there are none"""
    r = code.tf(entry or m + '_process', 'fp')
    ps = list(leafpairs(r.args[0], r.post[0]))
    x = r.args[1]
    before = {a.id: q for q, a, b in ps}
    pure = set()
    while True:
        more = {q for q, a, b in ps if q not in pure and (b is x or b.id in before and before[b.id] in pure)}
        if not more: break
        pure |= more
    fb = [(q, a, b) for q, a, b in ps if b is not a and q not in pure]
    fixed = [q for q, a, b in ps if b is a]
    fa = set()
    for q, a, b in fb:
        y = a.v.single() if isinstance(a, Leaf) and isinstance(a.v, Rat) else None
        if y is not None: fa.add(y.id)
    for q, a, b in fb:
        for i in atoms_in(b):
            z = core._atom_by_id[i]
            if is32(z) and atoms_in(num(z)) & fa: return 'the history is rounded to single precision'
    for ctor in (m + '_new',):
        n = code.tf(ctor, 'fp').value
        vals = dict((q, a) for q, a, b in leafpairs(n, n))
        for q in fixed:
            if q in vals and any(is32(core._atom_by_id[i]) for i in atoms_in(vals[q])): return 'the coefficients are rounded to single precision'
    return ''
def C48(p):
    p.rule = 'the feedback coefficients have all poles inside the unit circle; neither they nor the feedback history pass through single precision'
    code = p.code
    h = [rv('h%d' % i) for i in range(3)]
    z = N(0); one = N(1)
    f, r = rv('f', 0), rv('r')
    pf = gt(f, z)
    # the characteristic polynomial in w = 1/z, and its factors
    # k = 1 - 2 cos(pi (4 - r) / 6) >= 1 for r in [0, 1], where the angle runs from 2/3 pi down to pi / 2
    T, K1, Wv = rv('t', 0), rv('k1', 0, 1), rv('w')
    K = 1 + K1
    def factors():
        D = 1 + K * T + K * T * T + T * T * T
        ch = D - (3 + 2 * K * T + K * T * T) * Wv + (3 + K * T) * Wv * Wv - Wv * Wv * Wv
        u, v = K1 * T, T * T
        if not agree(ch, ((one - Wv) + T) * ((one - Wv) * (one - Wv) + u * (one - Wv) + v)): return 'factorisation'
        pc = gt(T, z)
        # roots w = 1 + t; w^2 - (2 + u) w + (1 + u + v): both outside the unit circle when the product exceeds one (u >= 0, v > 0), the value v at one is positive and the vertex lies at one or beyond
        return all(always(c, pc) for c in (gt(1 + T, one), ge(u, z), gt(v, z), gt(D, z)))
    hist = {'lowpass': lambda: {'outs': seq_lit(h)}, 'highpass': lambda: {'x1': z, 'x2': z, 'x3': z, 'y1': h[0], 'y2': h[1], 'y3': h[2]}}
    for m in FILT:
        def poles(m=m):
            t, k = coef(vmin(f, N(24000)), ite(lt(r, z), z, vmin(r, one)))
            D = 1 + k * t + k * t * t + t * t * t
            s = named(code, TYM[m], code.ret(m + '_new', f, r), hist[m]())
            y = ((3 + 2 * k * t + k * t * t) * h[0] - (3 + k * t) * h[1] + h[2]) / D
            if not agree(code.ret(m + '_process', s, z), y): return 'feedback'
            # as set later, one after the other
            q = named(code, TYM[m], code.ret(m + '_new', rv('f9', 0), rv('r9')), hist[m]())
            pf9 = gt(rv('f9', 0), z)
            q = code.post(m + '_set_r', code.post(m + '_set_cf', q, f), r)
            q = named(code, TYM[m], q, hist[m]())
            return agree(code.ret(m + '_process', q, z), y) and factors()
        p.ob('%s: all poles inside the unit circle' % m, m + '_process', poles, group=m)
    l, wd = rv('l', 0), rv('wd', 0)
    u = l + wd
    cpc = ALL(gt(l, z), gt(wd, z))
    def bp():
        s0 = code.ret('bandpass_from_corners', struct('tuple', [l, u]), pc=cpc)
        a0, b1, b2 = bp_coef(l, u)
        s = named(code, TYM['bandpass'], s0, {'x1': z, 'x2': z, 'y1': h[0], 'y2': h[1]})
        if not agree(code.ret('bandpass_process', s, z, pc=cpc), b1 * h[0] - b2 * h[1], cpc): return 'feedback'
        tl, tu = rv('tl', 0), rv('tu', 0)
        pc = ALL(gt(tl, z), gt(tu, z))
        P = lambda t: (1 - t) / (1 + t)
        d = (1 + tu) * (1 + tl)
        return agree(((1 - tu) * (1 + tl) + (1 + tu) * (1 - tl)) / d, P(tl) + P(tu), pc) and agree((1 - tu) * (1 - tl) / d, P(tl) * P(tu), pc) and always(gt((1 + tl) * (1 + tl) - (1 - tl) * (1 - tl), z), pc)
    p.ob('bandpass: all poles inside the unit circle', 'bandpass_process', bp, group='bandpass')
    lo, up = rv('lo', 0, 20000), rv('up', 0, 20000)
    def env():
        pi = num(atom('pi', ()))
        tu, td = core.tan(pi * up / 48000), core.tan(pi * lo / 48000)
        g = rv('g0')
        s = named(code, TYM['envelope'], code.ret('envelope_new', lo, up), {'x1': g, 'y1': h[0]})
        y = lambda t: (t * (vabs(X) + vabs(g)) + (1 - t) * h[0]) / (1 + t)
        return agree(code.ret('envelope_process', s, X), ite(gt(vabs(X), h[0]), y(tu), y(td)))
    p.ob('envelope: both rates decay', 'envelope_process', env, group='envelope')
    for m in FILT + ['bandpass', 'envelope']:
        p.ob('%s: coefficients and feedback stay in double precision' % m, m + '_process', lambda m=m: narrow_feedback(code, m) or True, group=m)
    # ---- separation: the program's own arithmetic against exact arithmetic on the same formulas
    GRID = {m: [(F(a), Fr(b)) for b in (Fr(1, 2), 0, 1, -3, 7) for a in (20, 5, 1, 40, 100, 1000, 12000, 24000, 30000, 2)] for m in FILT}
    GRID['bandpass'] = [(F(1) / 2, F(1)), (F(1), F(1)), (Fr(1, 10), F(1)), (F(1), F(10)), (F(20), F(20)), (F(100), Fr(1, 4)), (F(1000), F(1)), (F(12000), F(1)), (F(22000), F(10))]
    GRID['envelope'] = [(F(20), F(1000)), (F(1), F(5)), (Fr(1, 10), F(100)), (Fr(1, 10), Fr(1, 5)), (F(0), F(12000)), (F(12000), F(23000)), (F(20), F(20))]
    for m in FILT + ['bandpass', 'envelope']:
        def ref(m=m):
            def body(a, how, n):
                if how is None: x, e = Obj(code, m + '_new', *a, mode='fp'), Obj(code, m + '_new', *a)
                else:
                    b = [F(1000), F(1)]
                    x, e = Obj(code, m + '_new', *b, mode='fp'), Obj(code, m + '_new', *b)
                    for i, st in enumerate(how):
                        for o in (x, e): o.do(m + st, a[i])
                top = F(0)
                for k in range(n):
                    v = F(1) if k < 2600 or k > 9000 else F(0)
                    y = x.do(m + '_process', v); w = e.do(m + '_process', v)
                    top = max(top, abs(w))
                    for q, t in ((w, 'in exact arithmetic'), (y, 'in the arithmetic of the program')):
                        if abs(q) > 100: raise Witness('%s: a constant one gives %s after %d samples %s' % (x.log(), show_f(q), k + 1, t), m + '_process')
                    if k % 20 == 0 and abs(y - w) > Fr(1, 200) * top + Fr(1, 10 ** 6): raise Witness('%s: rounding has built up to %s where the exact output is %s after %d samples' % (x.log(), show_f(y), show_f(w), k + 1), m + '_process')
            # short runs of every setting before the long ones
            for n in (500, p.deep(3000, 20000)):
                for i, a in enumerate(GRID[m]):
                    p.point(1, lambda a=a: (a, None, n), body)
                    if m in FILT and i % 3 == 0: p.point(1, lambda a=a: (a, ('_set_cf', '_set_r'), n), body)
                    if m in FILT and i % 5 == 1: p.point(1, lambda a=a: ([a[1], a[0]], ('_set_r', '_set_cf'), n), body)
                    if m == 'bandpass' and i < 4: p.point(1, lambda a=a: (a, ('_set_cf', '_set_q'), n), body)
            if m == 'envelope':
                # a level that rounding keeps from ever falling
                x = Obj(code, 'envelope_new', Fr(1, 10 ** 4), F(12000), mode='fp'); p.points += 1
                for _ in range(40): x.do('envelope_process', F(1))
                for _ in range(3): s0 = x.s; y = x.do('envelope_process', F(0))
                if key(s0) == key(x.s) and y != 0: raise Witness('%s: the level stays at %s for ever, silence is never reached' % (x.log(), show_f(y)), 'envelope_process')
        p.refuter(ref, m)
def show_f(q): return '%.6g' % float(q)

# ---------------------------------------------------------------- C12, C13
def C12(p):
    p.rule = 'a delay is a queue of N = round(48000 d) samples: pop front, push back'
    code = p.code
    d = margs(code, 'delay')[0]
    Nn = whole(d * 48000 + Fr(1, 2))
    def start():
        return agree(code.ret('delay_new', d), build(code, TYM['delay'], {'delay': seq_rep(Nn, N(0)) if not isinstance(Nn, Node) else lift(lambda n: seq_rep(leaf(n), N(0)))(Nn)}))
    L = iv('L')
    def step(zero):
        def f():
            if zero:
                s = build(code, TYM['delay'], {'delay': seq_lit([])})
                return agree(code.ret('delay_process', s, X), X) and agree(code.post('delay_process', s, X), s)
            n = iv('L', 1)
            q = f32seq('h', n)
            s = build(code, TYM['delay'], {'delay': q})
            y = seq_at(q, N(0)); nx = seq_push(seq_drop(q, N(1)), X)
            return agree(code.ret('delay_process', s, X), y) and agree(code.post('delay_process', s, X), build(code, TYM['delay'], {'delay': nx}))
        return f
    def safe():
        return not code.safe('delay_process', build(code, TYM['delay'], {'delay': f32seq('h', L)}), X)
    def exact():
        r = code.tf('delay_process', 'real32')
        return not has_kind(r.value, 'r32')
    p.ob('a new delay holds N samples of silence', 'delay_new', start, group='delay')
    p.ob('one step of a delay of at least one sample', 'delay_process', step(False), group='delay')
    p.ob('one step of a delay of no samples', 'delay_process', step(True), group='delay')
    p.ob('the queue is never empty when read', 'delay_process', safe, group='delay')
    p.ob('samples pass through unrounded', 'delay_process', exact, group='delay')
    def ref():
        def body(d, us):
            x = Obj(code, 'delay_new', d)
            n = rnd(d * 48000)
            for j, u in enumerate(us):
                expect(x.do('delay_process', u), us[j - n] if j >= n else F(0), '%s: sample %d of a delay of %d samples' % (x.log(), j, n))
        def gen():
            d = rlen(p.rng)
            if p.rng.random() < .3: d = Fr(rlen_near(p.rng), 10 ** 9)
            k = p.rng.choice([1, 1, 1, Fr(1, 100), Fr(1, 10 ** 6), 0])
            return d, louder(p.rng, [Fr(p.rng.randrange(-9000, 9000), 1000) * k if p.rng.random() < .8 else rx(p.rng) for _ in range(rnd(d * 48000) * 2 + 10)])
        p.point(p.deep(120, 900), gen, body)
        def blong(n):
            x = Obj(code, 'delay_new', ns_of(n))
            g = x.do('delay_get')
            for j in range(3):
                y = x.do('delay_process', F(1))
                expect(y, F(0), '%s: sample %d of a delay of %d samples' % (x.log(), j, n))
                expect(x.do('delay_get'), g, '%s: the delay time of %d samples after sample %d' % (x.log(), n, j))
            shown(x, n, 'delay')
        def shown(x, n, what):
            """a queue of another length shows as soon as the first sample comes out or fails to"""
            l = list(lists_in(x.s))
            if len(l) != 1 or l == [n] or min(l[0], n) > 20000: return
            for j in range(3, min(l[0], n) + 3):
                expect(x.do('delay_process', F(0)), F(1 if n <= j < n + 3 else 0), '%s of %d samples fed an impulse: sample %d' % (what, n, j))
                del x.hist[2:]
        far_lengths(p, 'delay_new', code.tf('delay_new').value, 'a0', 'a delay')
        ls = long_lengths(p, 'delay_process')
        for n in ls + [261, 65541, 65541 + 48000]: p.point(1, lambda n=n: (n,), blong)
        def bfull(n):
            # a whole turn of the queue: runs of equal samples, silence, sign changes
            x = Obj(code, 'delay_new', ns_of(n))
            us = [F(0)] * n; v = F(1)
            for j in range(n + 200):
                if p.rng.random() < .3 or j < 40: v = p.rng.choice([F(0), F(1), F(-1), -v, Fr(p.rng.randrange(-99, 100), 64)])
                us.append(v)
                expect(x.do('delay_process', v), us[j], 'delay of %d samples fed runs of equal samples: sample %d' % (n, j))
                del x.hist[2:]
        for n in sorted(ls, key=lambda n: (n > 3000, n < 48000, n)): p.point(1, lambda n=n: (n,), bfull)
    p.refuter(ref, 'delay')
def long_lengths(p, new, *rest):
    """sample counts around the constants the code mentions, read as samples,
    milliseconds and seconds: a case distinction on the length changes there"""
    try: p.code.tf(new)
    except Undecided: pass
    out = []
    for c in p.rng.dictionary():
        for k in (1, 48, 48000):
            for e in (0, 1, -1, 5):
                n = int(c * k) + e
                if 45 <= n <= 300000 and n not in out: out.append(n)
    out.sort()
    return out[:12] + out[-8:] if len(out) > 20 and p.tier != 'thorough' else out[:80]
def ns_of(n):
    """a duration of a whole number of ns and (just over) n samples"""
    return Fr(-(-n * 10 ** 9 // 48000), 10 ** 9)
def lists_in(s):
    if isinstance(s, list): yield len(s)
    elif isinstance(s, (S, V)):
        for x in s.f: yield from lists_in(x)

def rlen_near(rng):
    n = rng.randrange(0, 12)
    return max(0, (2 * n + 1) * 10 ** 9 // 96000 + rng.choice([-1, 0, 1]))

def C13(p):
    p.rule = 'an echo is a queue of D = max(1, trunc(48000 d)) outputs fed back once'
    code = p.code
    d, gn = margs(code, 'echo')
    x0 = whole(d * 48000)
    D = ite(ge(x0, N(1)), x0, N(1))
    def start():
        q = lift(lambda n: seq_rep(leaf(n), N(0)))(D)
        return agree(code.ret('echo_new', d, gn), build(code, TYM['echo'], {'delay': q, 'gain': gn}))
    def step():
        n = iv('L', 1); q = f32seq('h', n); g = rv('g')
        s = build(code, TYM['echo'], {'delay': q, 'gain': g})
        y = X + g * seq_at(q, N(0))
        return agree(code.ret('echo_process', s, X), y) and agree(code.post('echo_process', s, X), build(code, TYM['echo'], {'delay': seq_push(seq_drop(q, N(1)), y), 'gain': g}))
    def safe():
        n = iv('L', 1)
        return not code.safe('echo_process', build(code, TYM['echo'], {'delay': f32seq('h', n), 'gain': rv('g')}), X)
    p.ob('a new echo holds D samples of silence', 'echo_new', start, group='echo')
    p.ob('one step feeds the output back once', 'echo_process', step, group='echo')
    p.ob('the queue is never empty when read', 'echo_process', safe, group='echo')
    def ref():
        def body(d, g, us):
            x = Obj(code, 'echo_new', d, g)
            n = max(1, ifloor(d * 48000)); ys = []
            for j, u in enumerate(us):
                w = u + (g * ys[j - n] if j >= n else 0)
                ys.append(w)
                expect(x.do('echo_process', u), w, '%s: sample %d of an echo of %d samples' % (x.log(), j, n))
        def gen():
            d, g = mgen(p.rng, 'echo')
            if p.rng.random() < .3: d = Fr(p.rng.randrange(0, 12) * 10 ** 9 // 48000 + p.rng.choice([0, 1]), 10 ** 9)
            return d, g, louder(p.rng, [rx(p.rng) for _ in range(ifloor(d * 48000) * 3 + 8)])
        p.point(p.deep(120, 900), gen, body)
        def blong(n):
            x = Obj(code, 'echo_new', ns_of(n), F(1))
            l0 = list(lists_in(x.s))
            for j in range(3): x.do('echo_process', F(1))
            if list(lists_in(x.s)) == l0 == [n]: return
            if len(l0) == 1 and l0[0] < min(n, 20000):
                for j in range(3, l0[0] + 3): expect(x.do('echo_process', F(0)), F(0), '%s: sample %d of an echo of %d samples' % (x.log(), j, n))
            # the queue has another length: does it show?
            t0 = time.time()
            for j in range(3, 2 * n + 4):
                if time.time() - t0 > 120: raise Skip('time')
                expect(x.do('echo_process', F(0)), F(1 if j % n < 3 else 0), '%s: sample %d of an echo of %d samples' % (x.log(), j, n))
        far_lengths(p, 'echo_new', code.tf('echo_new').value, 'a0', 'an echo')
        ls = long_lengths(p, 'echo_process')
        for n in ls + [261, 65541]: p.point(1, lambda n=n: (n,), blong)
        def bfull(n):
            # a whole turn of the queue: runs of equal samples, silence, sign changes
            g = p.rng.choice([F(1), F(-1), Fr(1, 2)])
            x = Obj(code, 'echo_new', ns_of(n), g)
            ys = []; v = F(1)
            for j in range(n + 200):
                if p.rng.random() < .3 or j < 40: v = p.rng.choice([F(0), F(1), F(-1), -v, Fr(p.rng.randrange(-99, 100), 64)])
                w = v + (g * ys[j - n] if j >= n else 0)
                ys.append(w)
                expect(x.do('echo_process', v), w, 'echo of %d samples with gain %s fed runs of equal samples: sample %d' % (n, show(g), j))
                del x.hist[2:]
        for n in sorted(ls, key=lambda n: (n > 3000, n < 48000, n)): p.point(1, lambda n=n: (n,), bfull)
    p.refuter(ref, 'echo')
    def counted():
        # the length in the arithmetic the program really performs
        return not any(has_kind(code.tf('echo_new', 'fp').value, k) for k in ('fp', 'f2i', 'r32'))
    def rcount():
        def body(k):
            # k * 62.5 us is 3k samples exactly
            x = Obj(code, 'echo_new', Fr(62500 * k, 10 ** 9), F(1), mode='fp')
            for j in range(3 * k + 2):
                y = x.do('echo_process', F(1) if j == 0 else F(0))
                if j and y != 0: break
            if j != 3 * k: raise Witness('%s: an impulse returns after %d samples, %d ns are exactly %d' % (x.log(), j, 62500 * k, 3 * k), 'echo_new')
        for k in list(range(1, 41)) + [72, 83, 129, 141, 144]: p.point(1, lambda k=k: (k,), body)
    p.ob('the length of the delay is counted without rounding', 'echo_new', counted, rcount)

# ---------------------------------------------------------------- C14
def C14(p):
    p.rule = 'one step from any history is the sum over all taps; a new filter holds exactly enough history for every tap'
    import loops
    code = p.code
    def spec(f, x):
        k = fresh('k', 'int', 0)
        ins = seq_take(seq_push_front(f['inputs'], x), core.seq_len(f['inputs']))
        def tot(tp, hist):
            n = core.seq_len(tp)
            if same(n, N(0)): return N(0)
            el = seq_at(tp, num(k))
            kk, c = (el.f if isinstance(el, Struct) else (num(atom('proj', (el, '0', 0), 'int', 0)), None))
            return ite(ge(n, N(1)), loops.vsum(n, k, c * seq_at(hist, kk)), N(0))
        return tot(f['zeros'], ins) + tot(f['poles'], f['outputs'])
    def step():
        f = gen_state(code)
        s = build(code, TYM['generic'], f)
        y = spec(f, X)
        nx = dict(f)
        nx['inputs'] = seq_take(seq_push_front(f['inputs'], X), core.seq_len(f['inputs']))
        nx['outputs'] = seq_take(seq_push_front(f['outputs'], y), core.seq_len(f['outputs']))
        return agree(code.ret('generic_process', s, X), y) and agree(code.post('generic_process', s, X), build(code, TYM['generic'], nx))
    def safe():
        return not code.safe('generic_process', build(code, TYM['generic'], gen_state(code)), X)
    def none(which):
        def f():
            s = gen_state(code)
            for w in which:
                s[w] = seq_lit([]); s[{'zeros': 'inputs', 'poles': 'outputs'}[w]] = seq_lit([])
            y = spec(s, X)
            t = build(code, TYM['generic'], s)
            nx = dict(s)
            if 'zeros' not in which: nx['inputs'] = seq_take(seq_push_front(s['inputs'], X), core.seq_len(s['inputs']))
            if 'poles' not in which: nx['outputs'] = seq_take(seq_push_front(s['outputs'], y), core.seq_len(s['outputs']))
            return agree(code.ret('generic_process', t, X), y) and agree(code.post('generic_process', t, X), build(code, TYM['generic'], nx)) and not code.safe('generic_process', t, X)
        return f
    def start():
        z, q = margs(code, 'generic')
        def back(t):
            n = core.seq_len(t); k = fresh('k', 'int', 0)
            e0 = seq_at(t, N(0)).f[0] + 1
            return ite(ge(n, N(1)), ite(ge(n, N(2)), loops.extf('maxf', e0, n - 1, k, seq_at(t, num(k) + 1).f[0] + 1), e0), N(0))
        def blank(t): return lift(lambda n: seq_rep(leaf(n), N(0)))(back(t))
        return agree(code.ret('generic_new', z, q), build(code, TYM['generic'], {'zeros': z, 'poles': q, 'inputs': blank(z), 'outputs': blank(q)}))
    p.ob('one step is the sum over all taps, histories shifted by one', 'generic_process', step, group='g')
    p.ob('no tap reaches outside the history', 'generic_process', safe, group='g')
    p.ob('one step without zeros', 'generic_process', none(['zeros']), group='g')
    p.ob('one step without poles', 'generic_process', none(['poles']), group='g')
    p.ob('one step without taps', 'generic_process', none(['zeros', 'poles']), group='g')
    p.ob('a new filter keeps its taps and holds silence up to its furthest tap', 'generic_new', start, group='g')
    def ref():
        def body(z, q, us):
            x = Obj(code, 'generic_new', z, q)
            ys = []
            for j, u in enumerate(us):
                w = F(0)
                for t in z:
                    if j - int(t.f[0]) >= 0: w += t.f[1] * us[j - int(t.f[0])]
                for t in q:
                    if j - 1 - int(t.f[0]) >= 0: w += t.f[1] * ys[j - 1 - int(t.f[0])]
                ys.append(w)
                if abs(w) > 10 ** 6: raise Skip('unstable')
                expect(x.do('generic_process', u), w, '%s: sample %d' % (x.log(), j))
        p.point(p.deep(150, 1000), lambda: (rtaps(p.rng), rtaps_stable(p.rng), louder(p.rng, [rx(p.rng) for _ in range(p.rng.choice([3, 8, 16]))])), body)
    p.refuter(ref, 'g')

# ---------------------------------------------------------------- C15
ST = ['attack', 'decay', 'sustain', 'release', 'stopped']
def db2lin(s): return core.exp10(s / 20)
def C15(p):
    p.rule = 'the extracted step is the stage machine attack, decay, sustain, release, stopped'
    code = p.code
    a, d, s, r = margs(code, 'adsr')
    one = N(1)
    n48 = lambda t: vmax(t * 48000, one)
    ss = vmin(s, N(0))
    sl = db2lin(ss)
    def start():
        w = build(code, TYM['adsr'], {'a': 1 / n48(a), 'd': (sl - 1) / n48(d), 's': sl, 'r': -sl / n48(r), 'state': variant(0), 'g': N(0)})
        return agree(code.ret('adsr_new', a, d, s, r), w)
    A, D, S_, R_, g = rv('A', 0), rv('D', 0), rv('S', 0, 1), rv('R', 0), rv('g', 0, 1)
    def mk(state, g): return build(code, TYM['adsr'], {'a': A, 'd': -D, 's': S_, 'r': -R_, 'state': variant(state), 'g': g})
    # gain reached within the stage; the next stage begins when the target is reached
    def stage(i):
        def f():
            s0 = mk(i, g)
            if i == 0:
                u = g + A; done = ge(u, one); ng = ite(done, one, u); nx = ite(done, mk(1, one), mk(0, u))
            elif i == 1:
                u = g - D; done = le(u, S_); ng = ite(done, S_, u); nx = ite(done, mk(2, S_), mk(1, u))
            elif i == 2: ng = g; nx = s0
            elif i == 3:
                u = g - R_; done = le(u, N(0)); ng = ite(done, N(0), u); nx = ite(done, mk(4, N(0)), mk(3, u))
            else: ng = N(0); nx = s0
            if not agree(code.ret('adsr_process', s0, X), X * ng): return 'output'
            post = code.post('adsr_process', s0, X)
            if i == 4:      # the gain of a stopped envelope is not observable except through release
                return agree(post, s0)
            return agree(post, nx) or 'next stage'
        return f
    def rel():
        return all(agree(code.post('adsr_release', mk(i, g)), mk(3, g)) for i in range(5))
    def inside():
        # the gain stays in [0,1]: all stages, with the sustain level as floor of the decay
        for i in range(5):
            s0 = mk(i, g)
            post = field_map(code, code.post('adsr_process', s0, X))['g'] if isinstance(code.post('adsr_process', s0, X), Struct) else None
            if post is None: return 'state'
            if not always(b_and(ge(post, N(0)), le(post, N(1))), TRUE): return ST[i]
        return True
    p.ob('a new ADSR starts its attack from silence with the specified rates', 'adsr_new', start, group='adsr')
    for i in range(5): p.ob('one step of %s' % ST[i], 'adsr_process', stage(i), group='adsr')
    p.ob('release enters the release stage from every stage and keeps the gain', 'adsr_release', rel, group='adsr')
    p.ob('the gain stays in [0,1]', 'adsr_process', inside, group='adsr')
    p.ob('the gain and its rates stay in double precision', 'adsr_process', lambda: narrow_feedback(code, 'adsr') or True, group='adsr')
    from evaluate import trans, LN10F
    def slow():
        # stages of twenty minutes: each step must still move the gain
        T = F(1200)
        for a, pre, what in (([F(0), T, F(-60), F(0)], 1, 'decay'), ([F(0), T, F(-1), F(0)], 1, 'decay'), ([F(0), F(0), F(0), T], 3, 'release'), ([T, F(0), F(0), F(0)], None, 'attack')):
            x = Obj(code, 'adsr_new', *a, mode='fp'); p.points += 1
            if pre is None: continue
            for _ in range(pre): x.do('adsr_process', F(1))
            if what == 'release': x.do('adsr_release')
            for _ in range(3): s0 = x.s; y = x.do('adsr_process', F(1))
            if key(s0) == key(x.s) and abs(y) > Fr(9, 10): raise Witness('%s: the gain stays at %s for ever, the %s of %s s never ends' % (x.log(), show_f(y), what, T), 'adsr_process')
    p.refuter(slow, 'adsr')
    def silent_sustain():
        # a sustain level of minus infinity dB is a gain of 0, reached exactly
        for d in (Fr(3, 96000), Fr(7, 96000), F(0), Fr(1, 16000)):
            x = Obj(code, 'adsr_new', F(0), d, float('-inf'), F(0), mode='fp'); p.points += 1
            g, st = 0.0, 0
            for k in range(8):
                if st == 0: g, st = 1.0, 1
                elif st == 1:
                    g -= 1 / max(1.0, float(d) * 48000)
                    if 0 < abs(g) < 1e-7: break
                    if g <= 0: g, st = 0.0, 2
                y = x.do('adsr_process', F(1))
                expect(Fr(y) if isinstance(y, float) else y, Fr(g), '%s: sample %d' % (x.log(), k), Fr(1, 10 ** 5), Fr(1, 10 ** 6))
    p.refuter(silent_sustain, 'adsr')
    def ref():
        def body(a, d, s, r, rels):
            x = Obj(code, 'adsr_new', a, d, s, r)
            n = lambda t: max(F(1), t * 48000)
            sl = trans('exp', min(s, F(0)) / 20 * LN10F)
            ra, rd, rr_ = 1 / n(a), (1 - sl) / n(d), sl / n(r)
            st, g = 0, F(0)
            for k in range(150):
                if k in rels: x.do('adsr_release'); st = 3
                if st == 0:
                    g += ra
                    if near(g, 1): raise Skip('threshold')
                    if g >= 1: g, st = F(1), 1
                elif st == 1:
                    g -= rd
                    if near(g, sl) and rd > 0: g, st = sl, 2
                    elif g <= sl: g, st = sl, 2
                elif st == 3:
                    g -= rr_
                    if near(g, 0): raise Skip('threshold')
                    if g <= 0: g, st = F(0), 4
                u = rx(p.rng) if k % 3 else F(1)
                if st == 4: g_ = F(0)
                else: g_ = g
                expect(x.do('adsr_process', u), u * g_, '%s: sample %d (%s) of input %s' % (x.log(), k, ST[st], show(u)), Fr(1, 10 ** 6), Fr(1, 10 ** 10))
        def near(x, y): return x != y and abs(x - y) < Fr(1, 10 ** 7)
        def gen():
            a, d, s, r = mgen(p.rng, 'adsr')
            rels = sorted(p.rng.sample(range(150), p.rng.choice([0, 1, 1, 2, 3])))
            return a, d, s, r, rels
        p.point(p.deep(150, 1000), gen, body)
    p.refuter(ref, 'adsr')

# ---------------------------------------------------------------- C16
def C16(p):
    p.rule = 'step is even in input and history; coefficients of the upper frequency when |x| exceeds the last output, else of the lower'
    code = p.code
    lo, up = rv('lo', 0, 20000), rv('up', 0, 20000)
    x1, y1 = rv('h_x'), rv('h_y')
    T = TYM['envelope']
    def st(l, u, a=x1, b=y1): return named(code, T, code.ret('envelope_new', l, u), {'x1': a, 'y1': b})
    def even():
        for pc in (gt(X, N(0)), lt(X, N(0))):
            if not agree(code.ret('envelope_process', st(lo, up), X), code.ret('envelope_process', st(lo, up), -X), pc): return 'input'
        for pc in (gt(x1, N(0)), lt(x1, N(0))):
            if not agree(code.ret('envelope_process', st(lo, up), X), code.ret('envelope_process', st(lo, up, -x1), X), pc): return 'previous input'
        return True
    def even2():
        # two steps, whatever the signs
        a, b = rv('xa'), rv('xb')
        t = lambda u, v: code.ret('envelope_process', code.post('envelope_process', st(lo, up), u), v)
        return all(agree(t(a, b), t(-a, b), pc) for pc in (gt(a, N(0)), lt(a, N(0)))) and all(agree(t(a, b), t(a, -b), pc) for pc in (gt(b, N(0)), lt(b, N(0))))
    def sel(above):
        def f():
            pc = gt(vabs(X), y1) if above else le(vabs(X), y1)
            k = up if above else lo
            return agree(code.ret('envelope_process', st(lo, up), X, pc=pc), code.ret('envelope_process', st(k, k), X, pc=pc), pc)
        return f
    def form():
        pi = num(atom('pi', ()))
        th = core.tan(pi * lo / 48000)
        y = (th * (vabs(X) + vabs(x1)) + (1 - th) * y1) / (1 + th)
        s = st(lo, lo)
        return agree(code.ret('envelope_process', s, X), y)
    def hist():
        y = code.ret('envelope_process', st(lo, up), X)
        n = code.post('envelope_process', st(lo, up), X)
        m = field_map(code, n)
        return agree(m['y1'], y) and agree(vabs(m['x1']), vabs(X))
    p.ob('even in the input and the previous input', 'envelope_process', even, group='e')
    p.ob('even over two steps', 'envelope_process', even2, group='e')
    p.ob('upper frequency when the magnitude exceeds the last output', 'envelope_process', sel(True), group='e')
    p.ob('lower frequency otherwise', 'envelope_process', sel(False), group='e')
    p.ob('first-order low-pass of the magnitude at one frequency', 'envelope_process', form, group='e')
    p.ob('the history is the last output and the last input', 'envelope_process', hist, group='e')
    from evaluate import trans, PIF
    def ref():
        def body(l, u, us):
            x = Obj(code, 'envelope_new', l, u); z = Obj(code, 'envelope_new', l, u)
            tl, tu = trans('tan', PIF * l / 48000), trans('tan', PIF * u / 48000)
            px, py = F(0), F(0)
            for j, v in enumerate(us):
                y = x.do('envelope_process', v); y2 = z.do('envelope_process', v * p.rng.choice([1, -1]))
                h = '%s: sample %d of the response to %s' % (x.log(), j, show(us[:j + 1]))
                expect(y2, y, h + ' with some signs changed')
                t = tu if abs(v) > py else tl
                if abs(abs(v) - py) < Fr(1, 10 ** 12) * min(1, max(map(abs, us))) and j and abs(v) != py: raise Skip('threshold')
                w = evaluate.cut((t * (abs(v) + abs(px)) + (1 - t) * py) / (1 + t))
                expect(y, w, h, Fr(1, 10 ** 6), Fr(1, 10 ** 8) * min(1, max(map(abs, us))))
                px, py = v, w
        def gen():
            l, u = mgen(p.rng, 'envelope')
            if p.rng.random() < .2: l, u = u, l
            c = rx(p.rng)
            if p.rng.random() < .15: l, u = p.rng.choice([(F(0), u), (l, F(0))])      # a side that does not move
            sg = rscale(p.rng)
            return l, u, [sg * (c if p.rng.random() < .3 else rx(p.rng) if p.rng.random() < .85 else 0) for _ in range(p.rng.choice([3, 8, 20]))]
        p.point(p.deep(100, 600), gen, body)
    p.refuter(ref, 'e')

# ---------------------------------------------------------------- C49
def C49(p):
    p.rule = 'process(new(a), x) == x * a with a single rounding, a as given; passthrough is the identity, bit for bit'
    code = p.code
    a = margs(code, 'gain')[0]
    def scales():
        s = code.ret('gain_new', a)
        return agree(code.ret('gain_process', s, X), X * a) and same(code.post('gain_process', s, X), s)
    def once():
        s = code.ret('gain_new', a, mode='fp')
        v = code.ret('gain_process', s, X, mode='fp')
        fps = [core._atom_by_id[i] for i in atoms_in(v) if core._atom_by_id[i].kind in ('fp', 'r32', 'f2i', 'cast')]
        return len(fps) <= 1 and not has_kind(code.ret('gain_new', a, mode='fp'), 'fp') or 'rounded %d times' % len(fps)
    def ident():
        s = code.ret('passthrough_new')
        return same(code.ret('passthrough_process', s, X, mode='fp'), X) and same(code.ret('passthrough_process', s, X), X)
    def safe(): return not code.safe('gain_process') and not code.safe('passthrough_process')
    def vals():
        return [F(0), F(1), F(-1), Fr(1, 10 ** 8), Fr(-3, 10 ** 6), F(100), Fr(1, 1000)] + [c * k + e for c in p.rng.dictionary() if abs(c) < 1 << 24 for k in (1, -1) for e in (0, Fr(1, 128), -Fr(1, 128))] + [rx(p.rng) for _ in range(10)]
    def rgain():
        for g in vals():
            x = Obj(code, 'gain_new', g)
            for u in vals():
                p.points += 1
                y = x.do('gain_process', u)
                if y != u * g: raise Witness('%s: a gain of %s turned %s into %s' % (x.log(), show(g), show(u), show(y)), 'gain_process')
    def rpass():
        x = Obj(code, 'passthrough_new')
        for u in vals() + vals():
            p.points += 1
            y = x.do('passthrough_process', u)
            if y != u: raise Witness('%s: passthrough turned %s into %s' % (x.log(), show(u), show(y)), 'passthrough_process')
    p.ob('a gain multiplies by its gain', 'gain_process', scales, rgain)
    p.ob('a gain rounds once', 'gain_process', once)
    p.ob('passthrough returns its input', 'passthrough_process', ident, rpass)
    p.ob('neither fails', 'gain_process', safe, rgain)
