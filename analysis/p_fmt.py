"""Sample formats: C26-C32."""
from lib import *
import core
from core import Variant

W = {'u8': (8, 128, 128, 0, 255), 'i16': (16, 0, 32767, -32768, 32767), 'i24': (24, 0, 8388607, -8388608, 8388607)}
NB = {'u8': 1, 'i16': 2, 'i24': 3}
MONO = 'bae_rs::sample_format::mono::Mono'
STEREO = 'bae_rs::sample_format::stereo::Stereo'
FM = {'mono': (MONO, ('mono',)), 'stereo': (STEREO, ('left', 'right'))}

def holds(c, pc=TRUE):
    """a condition true on every path"""
    c = restrict(c, pc)
    return c is TRUE or always(c, pc)
def no_panic(code, name, mode='real', pc=TRUE):
    def fn():
        bad = code.safe(name, pc=pc, mode=mode)
        return True if not bad else 'may fail: %s' % bad[0].msg
    return fn
def fmtval(code, fmt, xs): return build(code, FM[fmt][0], dict(zip(FM[fmt][1], xs)))
def chans(code, fmt, v):
    if not isinstance(v, Struct) or v.tag != FM[fmt][0]: raise NoLayout('not a sample of the format')
    m = field_map(code, v)
    return [m[n] for n in FM[fmt][1]]
def mks(fmt, xs): return S(FM[fmt][0], list(xs))
def fchans(code, fmt, s):
    """channels of a concrete sample, in declared meaning"""
    i, T = type_of(code, FM[fmt][0])
    names = [f[0] for f in T['variants'][0]['f']]
    return [s.f[names.index(n)] for n in FM[fmt][1]]
def cmk(code, fmt, xs):
    i, T = type_of(code, FM[fmt][0])
    names = [f[0] for f in T['variants'][0]['f']]
    return S(FM[fmt][0], [dict(zip(FM[fmt][1], xs))[n] for n in names])
def callv(code, name, *a, mode='real', what=None):
    o = code.call(name, *a, mode=mode)
    if o.panic: raise Witness('%s(%s) fails: %s' % (name, ', '.join(map(show, a)), o.panic.msg), name)
    return o.value

# ---------------------------------------------------------------- C26
def C26(p):
    code = p.code
    for w, (bits, zero, scale, lo, hi) in W.items():
        fr, to = 'from_' + w, 'to_' + w
        v = iv('v_' + w, lo, hi)
        s = rv('s')
        y = s * scale + zero
        def lin(fr=fr, v=v, scale=scale, zero=zero): return agree(code.ret(fr, v), (v - zero) / scale)
        def near(to=to, y=y, lo=lo, hi=hi):
            pc = b_and(ge(y, N(lo)), le(y, N(hi)))
            r = code.ret(to, s, pc=pc)
            return holds(le(r - y, N(Fr(1, 2))), pc) and holds(ge(r - y, N(Fr(-1, 2))), pc)
        def above(to=to, y=y, hi=hi):
            pc = gt(y, N(hi)); return agree(code.ret(to, s, pc=pc), N(hi), pc)
        def below(to=to, y=y, lo=lo):
            pc = lt(y, N(lo)); return agree(code.ret(to, s, pc=pc), N(lo), pc)
        def integral(to=to):
            return all(isinstance(l.v, Rat) and core.is_int(l.v) for l in leaves_of(code.ret(to, s)))
        def trip(fr=fr, to=to, v=v):
            x = code.ret(fr, v)
            return agree(code.ret(to, x), v)
        def pts(rng, w=w):
            lo, hi = W[w][3:]
            if w == 'u8': vs = list(range(256))
            else:
                m = 1 << (W[w][0] - 1)
                vs = [lo, lo + 1, -1, 0, 1, hi - 1, hi, lo // 2, hi // 2] + [x + d for k in range(3, W[w][0] - 1) for x in (1 << k, -(1 << k)) for d in (-1, 0, 1)]
                vs += [rng.randrange(lo, hi + 1) for _ in range(300)]
            return vs
        def rfrom(fr=fr, w=w, scale=scale, zero=zero):
            for x in pts(p.rng, w):
                expect(callv(code, fr, F(x)), Fr(x - zero, scale), '%s(%d)' % (fr, x), rel=Fr(1, 10 ** 12), ab=Fr(1, 10 ** 12), anchor=fr); p.points += 1
        def rto(to=to, w=w, scale=scale, zero=zero, lo=lo, hi=hi):
            xs = [Fr(x - zero, scale) + d for x in pts(p.rng, w) for d in (Fr(0), Fr(3, 10 * scale), Fr(-3, 10 * scale), Fr(49, 100 * scale), Fr(-49, 100 * scale))]
            xs += [Fr(x) for x in (-1000, -3, -2, 2, 3, 1000, 10 ** 6, -10 ** 6)] + [Fr(-101, 100), Fr(101, 100), Fr(-1), Fr(1)]
            xs += [Fr(k, 1) for k in (255, 256, 257, 511, 512, -255, -256, -257, -512)]
            for x in xs:
                try: r = callv(code, to, x)
                except Skip: continue
                y = x * scale + zero
                e = min(max(rnd(y), lo), hi)
                p.points += 1
                if r != e and abs(abs(y - (y.numerator // y.denominator)) - Fr(1, 2)) > Fr(1, 1000): raise Witness('%s(%s) = %s, nearest representable is %s' % (to, show(x), show(r), e), to)
        def rtrip(fr=fr, to=to, w=w):
            for x in pts(p.rng, w):
                for mode in ('real', 'fp'):
                    try: r = callv(code, to, callv(code, fr, F(x), mode=mode), mode=mode)
                    except Undecided: continue
                    p.points += 1
                    if r != x: raise Witness('%s(%s(%d)) = %s%s' % (to, fr, x, show(r), ' in single precision' if mode == 'fp' else ''), to)
        p.ob('%s: integer to float is linear' % w, fr, lin, rfrom)
        p.ob('%s: float to integer rounds to nearest' % w, to, near, rto)
        p.ob('%s: float to integer saturates above' % w, to, above, rto)
        p.ob('%s: float to integer saturates below' % w, to, below, rto)
        p.ob('%s: result is a whole number' % w, to, integral, rto)
        p.ob('%s: round trip is lossless' % w, to, trip, rtrip)
        p.ob('%s: no failure' % w, to, lambda to=to, fr=fr, v=v: all(not code.safe(n, *a) for n, a in ((to, ()), (fr, (v,)))), lambda rto=rto, rfrom=rfrom: (rfrom(), rto()))

# ---------------------------------------------------------------- C27
def C27(p):
    code = p.code
    for w, (bits, zero, scale, lo, hi) in W.items():
        n = NB[w]
        tb, fb, to, fr = 'to_%s_bytes' % w, 'from_%s_bytes' % w, 'to_' + w, 'from_' + w
        s = rv('s')
        bs = [iv('b%d' % i, 0, 255) for i in range(n)]
        def tobytes(tb=tb, to=to, n=n, bits=bits):
            r = literal_seq(code.ret(tb, s))
            if r is None or len(r) != n: return 'length'
            t = code.ret(to, s)
            u = ite(lt(t, N(0)), t + (1 << bits), t)
            tot = N(0)
            for i, b in enumerate(r): tot = tot + b * 256 ** i
            return agree(tot, u) and all(holds(ge(b, N(0))) and holds(le(b, N(255))) for b in r)
        def frombytes(fb=fb, fr=fr, n=n, bits=bits, bs=bs, w=w):
            r = code.ret(fb, seq_lit(bs))
            t = N(0)
            for i, b in enumerate(bs): t = t + b * 256 ** i
            t = t if w == 'u8' else ite(ge(bs[-1], N(128)), t - (1 << bits), t)
            return agree(r, code.ret(fr, t))
        def trip(to=to, fr=fr, lo=lo, hi=hi, w=w, tobytes=tobytes, frombytes=frombytes):
            # bytes -> integer -> sample -> integer -> bytes, each step decided on its own
            v = iv('v_' + w, lo, hi)
            return frombytes() is True and tobytes() is True and agree(code.ret(to, code.ret(fr, v)), v)
        def vals(n=n):
            out = [[i] * n for i in (0, 1, 127, 128, 129, 254, 255)]
            if n == 1: return [[i] for i in range(256)]
            for i in range(n):
                for b in (1, 127, 128, 255): out.append([b if j == i else 0 for j in range(n)]); out.append([b if j == i else 255 for j in range(n)])
            return out + [[p.rng.randrange(256) for _ in range(n)] for _ in range(200)]
        def rfrom(fb=fb, fr=fr, w=w, bits=bits, scale=scale, zero=zero, vals=vals):
            for b in vals():
                v = sum(x << (8 * i) for i, x in enumerate(b))
                if w != 'u8' and v >= 1 << (bits - 1): v -= 1 << bits
                r = callv(code, fb, [F(x) for x in b]); p.points += 1
                expect(r, callv(code, fr, F(v)), '%s(%s) against %s(%d)' % (fb, b, fr, v), rel=Fr(1, 10 ** 12), ab=Fr(1, 10 ** 12), anchor=fb)
        def rto(tb=tb, to=to, n=n, bits=bits, scale=scale, zero=zero, lo=lo, hi=hi):
            xs = [Fr(p.rng.randrange(lo, hi + 1) - zero, scale) + Fr(p.rng.randrange(-4, 5), 10 * scale) for _ in range(200)]
            xs += [Fr(i - zero + d, scale) for i in (lo, lo + 1, -1, 0, 1, 127, 128, 255, 256, hi - 1, hi) for d in (0,)] + [F(2), F(-2), F(1), F(-1)] + [Fr(d, k * scale) for k in (3, 10, 1000) for d in (-2, -1, 1, 2)]
            for x in xs:
                try: t = callv(code, to, x); b = callv(code, tb, x)
                except Skip: continue
                p.points += 1
                e = [F((int(t) >> (8 * i)) & 255) for i in range(n)]
                expect(b, e, '%s(%s) against %s = %s' % (tb, show(x), to, show(t)), anchor=tb)
        def rtrip(fb=fb, tb=tb, vals=vals):
            for b in vals():
                b = [F(x) for x in b]
                try: r = callv(code, tb, callv(code, fb, b))
                except Skip: continue
                p.points += 1
                expect(r, b, '%s(%s(%s))' % (tb, fb, show(b)), anchor=tb)
        p.ob('%s: bytes are the little-endian bytes of the integer form' % w, tb, tobytes, rto)
        p.ob('%s: bytes decode as the little-endian integer' % w, fb, frombytes, rfrom)
        p.ob('%s: byte round trip' % w, tb, trip, rtrip)
        p.ob('%s: no failure' % w, fb, lambda fb=fb, tb=tb: not code.safe(fb) and not code.safe(tb), lambda rfrom=rfrom, rto=rto: (rfrom(), rto()))

# ---------------------------------------------------------------- C28
OPS = {'neg': ('-a', lambda x: -x), 'add': ('a+b', lambda x, y: x + y), 'sub': ('a-b', lambda x, y: x - y), 'mul': ('a*b', lambda x, y: x * y), 'mulf': ('a*f32', lambda x, y: x * y), 'muld': ('a*f64', lambda x, y: x * y)}
def narrowed(code, fmt, name):
    """the double-precision factor meets single precision before the product is formed"""
    r = code.tf(name, 'fp')
    from p_gen import atoms_in
    from p_mod import is32
    k = atoms_in(r.args[1])
    xs = atoms_in(r.args[0])
    for i in atoms_in(r.value):
        z = core._atom_by_id[i]
        if is32(z):
            u = atoms_in(num(z))
            if u & k and not u & xs: return True
    return False
def C28(p):
    code = p.code
    for fmt in FM:
        chn = FM[fmt][1]
        for op, (d, f) in OPS.items():
            for form in ('', 'a'):
                if op == 'neg' and form: continue
                name = '%s_%s' % (fmt, {'': op, 'a': {'add': 'adda', 'sub': 'suba', 'mul': 'mula', 'mulf': 'mulaf', 'muld': 'mulad'}.get(op)}[form])
                def chk(name=name, op=op, f=f, fmt=fmt, chn=chn):
                    xs = [rv('x_' + c) for c in chn]
                    a = fmtval(code, fmt, xs)
                    if op == 'neg': args, want = (a,), [f(x) for x in xs]
                    elif op in ('mulf', 'muld'):
                        k = rv('k'); args, want = (a, k), [f(x, k) for x in xs]
                    else:
                        ys = [rv('y_' + c) for c in chn]; args, want = (a, fmtval(code, fmt, ys)), [f(x, y) for x, y in zip(xs, ys)]
                    r = chans(code, fmt, code.ret(name, *args))
                    if op == 'muld' and narrowed(code, fmt, name): return 'the factor is rounded to single precision'
                    return all(agree(u, w) for u, w in zip(r, want)) and not code.safe(name)
                def ref(name=name, op=op, f=f, fmt=fmt, chn=chn):
                    def body(xs, ys, k):
                        a = cmk(code, fmt, xs)
                        if op == 'neg': args, want = (a,), [f(x) for x in xs]
                        elif op in ('mulf', 'muld'): args, want = (a, k), [f(x, k) for x in xs]
                        else: args, want = (a, cmk(code, fmt, ys)), [f(x, y) for x, y in zip(xs, ys)]
                        expect(fchans(code, fmt, callv(code, name, *args)), want, '%s(%s), channels %s' % (name, ', '.join(map(show, args)), ', '.join(chn)), anchor=name)
                    g = lambda: [fv(p.rng, lambda: Fr(p.rng.randrange(-2000, 2001), 512)) for _ in chn]
                    p.point(p.deep(60, 400), lambda: (g(), g(), p.rng.choice([F(0), F(1), F(-1), Fr(1, 2), F(3), Fr(p.rng.randrange(-999, 1000), 333)])), body)
                    if op == 'muld':
                        # the factor itself keeps its double precision: sizes no single can hold
                        def body2(xs, k):
                            for c, l, x in zip(chn, fchans(code, fmt, callv(code, name, cmk(code, fmt, [float(x) for x in xs]), float(k), mode='fp')), xs):
                                w = x * Fr(float(k))
                                if not (l == l) or abs(l) == float('inf') or abs(Fr(float(l)) - w) > abs(w) / (1 << 20) + Fr(1, 1 << 148): raise Witness('%s(%s, %r): channel %s is %r, %r times %r is about %.6g' % (name, show(xs), float(k), c, float(l), float(x), float(k), float(w)), name)
                        def g2():
                            e = p.rng.randrange(-60, 61)
                            if not p.rng.randrange(4): e = p.rng.randrange(-118, 120)
                            u = lambda: Fr(p.rng.randrange(4096, 8192), 8192) * p.rng.choice([1, -1])
                            big = e if p.rng.randrange(3) else p.rng.choice([128, 135, -155, -180])
                            xe = max(-120, min(120, p.rng.randrange(-20, 21) - big))
                            return [u() * F(2) ** xe for _ in chn], u() * F(2) ** big
                        p.point(p.deep(60, 400), g2, body2)
                p.ob('%s %s%s acts channel by channel' % (fmt, d, ' (assigning)' if form else ''), name, chk, ref)

# ---------------------------------------------------------------- C29
def C29(p):
    code = p.code
    for fmt in FM:
        for op, asg, ty in (('add', 'adda', 'sample'), ('sub', 'suba', 'sample'), ('mul', 'mula', 'sample'), ('mulf', 'mulaf', 'single'), ('muld', 'mulad', 'double')):
            a, b = '%s_%s' % (fmt, op), '%s_%s' % (fmt, asg)
            def chk(a=a, b=b): return code.tf(a, 'fp').value is code.tf(b, 'fp').value or agree(code.tf(a, 'fp').value, code.tf(b, 'fp').value)
            def ref(a=a, b=b, ty=ty, fmt=fmt):
                n = len(FM[fmt][1])
                def f32(x):
                    import numpy as np
                    return float(np.float32(x))
                def val():
                    k = p.rng.randrange(5)
                    if k == 0: return p.rng.choice([0.0, 1.0, -1.0, 0.1, 1e-3, 3e7, 1e-38, 3e38])
                    if k == 1: return p.rng.choice([0.0, -0.0, float('inf'), -float('inf'), float('nan'), 1e-45, -1e-45])
                    return p.rng.uniform(-1, 1) * 10 ** p.rng.randrange(-6, 3)
                def body(xs, y):
                    u, v = callv(code, a, cmk(code, fmt, xs), y, mode='fp'), callv(code, b, cmk(code, fmt, xs), y, mode='fp')
                    for c, l, r in zip(FM[fmt][1], fchans(code, fmt, u), fchans(code, fmt, v)):
                        if repr(float(l)) != repr(float(r)): raise Witness('%s%s %s %s: the operator gives %r, the compound assignment %r in channel %s' % (fmt, xs, {'add': '+', 'sub': '-'}.get(a.split('_')[1], '*'), y, float(l), float(r), c), b)
                gen = lambda: ([f32(val()) for _ in range(n)], cmk(code, fmt, [f32(val()) for _ in range(n)]) if ty == 'sample' else f32(val()) if ty == 'single' else val())
                p.point(p.deep(300, 3000), gen, body)
            p.ob('%s: compound %s by %s equals the operator' % (fmt, op[:3], ty), b, chk, ref)

# ---------------------------------------------------------------- C30
def C30(p):
    code = p.code
    x = rv('x')
    for fmt, (tag, ch) in FM.items():
        fs, is_, fr, to = ['%s_%s' % (fmt, n) for n in ('from_sample', 'into_sample', 'from', 'into')]
        ls, ms, k = [rv('l_' + c) for c in ch], [rv('m_' + c) for c in ch], rv('k')
        def trip(fmt=fmt, fs=fs, is_=is_): return agree(code.ret(is_, code.ret(fs, x)), x) and agree(code.ret(fmt + '_trip', x), x)
        def spread(fmt=fmt, fs=fs, ch=ch):
            r = chans(code, fmt, code.ret(fs, x))
            if fmt == 'mono': return agree(r[0], x)
            return agree(r[0], r[1]) and agree(r[0] * r[0] + r[1] * r[1], x * x)
        def linr(fmt=fmt, is_=is_, ls=ls, ms=ms, k=k):
            f = lambda xs: code.ret(is_, fmtval(code, fmt, xs))
            return agree(f([a + b for a, b in zip(ls, ms)]), f(ls) + f(ms)) and agree(f([k * a for a in ls]), k * f(ls))
        def sym(fmt=fmt, is_=is_, ls=ls): return agree(code.ret(is_, fmtval(code, fmt, ls)), code.ret(is_, fmtval(code, fmt, ls[::-1])))
        def conv(fmt=fmt, fr=fr, to=to, fs=fs, is_=is_, ls=ls): return agree(code.ret(fr, x), code.ret(fs, x)) and agree(code.ret(to, fmtval(code, fmt, ls)), code.ret(is_, fmtval(code, fmt, ls)))
        def zero(fmt=fmt): return all(agree(c, N(0)) for n in ('_default', '_new') for c in chans(code, fmt, code.ret(fmt + n)))
        def gx(): return fv(p.rng, lambda: Fr(p.rng.randrange(-3000, 3001), 1000))
        def rtrip(fmt=fmt, fs=fs, is_=is_):
            def body(a):
                expect(callv(code, is_, callv(code, fs, a)), a, '%s of %s(%s)' % (is_, fs, show(a)), anchor=is_)
                expect(callv(code, fmt + '_trip', a), a, 'into_sample of from_sample(%s)' % show(a), anchor=is_)
            p.point(p.deep(60, 400), lambda: (gx(),), body)
        def rspread(fmt=fmt, fs=fs):
            def body(a):
                r = fchans(code, fmt, callv(code, fs, a))
                if fmt == 'mono': expect(r[0], a, '%s(%s)' % (fs, show(a)), anchor=fs)
                else:
                    expect(r[0], r[1], '%s(%s): left against right' % (fs, show(a)), anchor=fs)
                    expect(r[0] ** 2 + r[1] ** 2, a * a, '%s(%s): total power' % (fs, show(a)), anchor=fs)
            p.point(p.deep(60, 400), lambda: (gx(),), body)
        def rlin(fmt=fmt, is_=is_, ch=ch):
            f = lambda xs: callv(code, is_, cmk(code, fmt, xs))
            def body(a, b, q):
                expect(f([u + v for u, v in zip(a, b)]), f(a) + f(b), '%s(%s + %s) against the sum' % (is_, show(a), show(b)), anchor=is_)
                expect(f([q * u for u in a]), q * f(a), '%s(%s * %s)' % (is_, show(q), show(a)), anchor=is_)
                expect(f(a), f(a[::-1]), '%s(%s) against swapped channels' % (is_, show(a)), anchor=is_)
            g = lambda: [gx() for _ in ch]
            p.point(p.deep(60, 400), lambda: (g(), g(), gx()), body)
        def rconv_(fmt=fmt, fr=fr, to=to, fs=fs, is_=is_, ch=ch):
            def body(a, b):
                expect(callv(code, fr, a), callv(code, fs, a), 'From(%s) against from_sample' % show(a), anchor=fr)
                expect(callv(code, to, cmk(code, fmt, b)), callv(code, is_, cmk(code, fmt, b)), 'Into of %s against into_sample' % show(b), anchor=to)
            p.point(p.deep(60, 400), lambda: (gx(), [gx() for _ in ch]), body)
        def rzero(fmt=fmt):
            for n in ('_default', '_new'):
                p.points += 1
                for c in fchans(code, fmt, callv(code, fmt + n)): expect(c, F(0), fmt + n, anchor=fmt + n)
        p.ob('%s: spreading and collapsing gives the sample back' % fmt, is_, trip, rtrip)
        p.ob('%s: spread equally at equal power' % fmt, fs, spread, rspread)
        p.ob('%s: collapsing is linear' % fmt, is_, linr, rlin)
        if fmt == 'stereo': p.ob('%s: collapsing treats channels alike' % fmt, is_, sym, rlin)
        p.ob('%s: From and Into agree with the named conversions' % fmt, fr, conv, rconv_)
        p.ob('%s: default is silence' % fmt, fmt + '_default', zero, rzero)
        def ctor(fmt=fmt, ls=ls):
            return all(agree(a, b) for a, b in zip(chans(code, fmt, code.ret(fmt + '_ctor', *ls)), ls))
        def rctor(fmt=fmt, ch=ch):
            p.point(40, lambda: ([gx() for _ in ch],), lambda xs: expect(fchans(code, fmt, callv(code, fmt + '_ctor', *xs)), xs, '%s::from(%s)' % (fmt, show(xs)), anchor=fmt + '_ctor'))
        p.ob('%s: the constructor keeps each channel' % fmt, fmt + '_ctor', ctor, rctor)
        p.ob('%s: no failure' % fmt, fs, lambda fmt=fmt: not any(code.safe(fmt + n) for n in ('_from_sample', '_into_sample', '_from', '_into', '_default', '_new', '_ctor', '_trip')), None)

# ---------------------------------------------------------------- C31
VEC = {'8': 'u8', '16': 'i16', '32': 'i24'}
def C31(p):
    code = p.code
    for fmt, (tag, ch) in FM.items():
        def count(fmt=fmt, ch=ch): return agree(code.ret(fmt + '_num'), N(len(ch)))
        def rcount(fmt=fmt, ch=ch): p.points += 1; expect(callv(code, fmt + '_num'), F(len(ch)), fmt + '::num_samples', anchor=fmt + '_num')
        p.ob('%s: number of samples it holds' % fmt, fmt + '_num', count, rcount)
        for b, w in VEC.items():
            n = len(ch)
            into, tr = '%s_into%s' % (fmt, b), '%s_try%s' % (fmt, b)
            def chk(fmt=fmt, into=into, w=w, ch=ch):
                ls = [rv('l_' + c) for c in ch]
                r = literal_seq(code.ret(into, fmtval(code, fmt, ls)))
                return r is not None and len(r) == len(ch) and all(agree(x, code.ret('to_' + w, l)) for x, l in zip(r, ls))
            def ref(fmt=fmt, into=into, w=w, ch=ch):
                def body(xs):
                    want = [callv(code, 'to_' + w, x) for x in xs]
                    expect(callv(code, into, cmk(code, fmt, xs)), want, 'vector of %s%s' % (fmt, show(xs)), anchor=into)
                p.point(p.deep(80, 400), lambda: ([fv(p.rng, lambda: Fr(p.rng.randrange(-1200, 1201), 1009)) for _ in ch],), body)
            p.ob('%s: to a vector of %s' % (fmt, w), into, chk, ref)
            lo, hi = W[w][3:]
            if w == 'i24': lo, hi = -(1 << 31), (1 << 31) - 1
            def vec(w=w, lo=lo, hi=hi):
                m = iv('n')
                return m, seqvar('vec' + w, m, lambda bb, i: num(atom('at', (bb, i), 'int', lo, hi)))
            def ok(fmt=fmt, tr=tr, w=w, n=n, vec=vec):
                m, v = vec(); pc = ge(m, N(n))
                r = code.ret(tr, v, pc=pc)
                want = variant(0, [fmtval(code, fmt, [code.ret('from_' + w, core.seq_at(v, N(i))) for i in range(n)])])
                if not (isinstance(r, Leaf) and isinstance(r.v, Variant) and r.v.idx == 0): 
                    return all(isinstance(l.v, Variant) and l.v.idx == 0 for l in leaves_of(r)) and r is want
                return r is want or all(agree(a, b) for a, b in zip(chans(code, fmt, r.v.f[0]), chans(code, fmt, want.v.f[0])))
            def short_(tr=tr, n=n, vec=vec):
                m, v = vec(); pc = lt(m, N(n))
                r = code.ret(tr, v, pc=pc)
                return all(isinstance(l.v, Variant) and l.v.idx == 1 for l in leaves_of(r))
            def nofail(tr=tr, vec=vec):
                m, v = vec()
                return not code.safe(tr, v)
            def reft(fmt=fmt, tr=tr, w=w, n=n, lo=lo, hi=hi):
                def body(k):
                    v = [F(p.rng.choice([lo, hi, 0, 1, -1 if lo < 0 else 2]) if p.rng.randrange(4) == 0 else p.rng.randrange(W[w][3], W[w][4] + 1)) for _ in range(k)]
                    r = callv(code, tr, v)
                    t = '%s::try_from(%s)' % (fmt, show(v))
                    if k < n:
                        if not (isinstance(r, V) and r.idx == 1): raise Witness('%s: got %s, expected an error' % (t, show(r)), tr)
                    else:
                        if not (isinstance(r, V) and r.idx == 0): raise Witness('%s: got %s, expected a sample' % (t, show(r)), tr)
                        expect(fchans(code, fmt, r.f[0]), [callv(code, 'from_' + w, v[i]) for i in range(n)], t, anchor=tr, rel=Fr(1, 10 ** 9))
                p.point(p.deep(60, 300), lambda: (p.rng.randrange(0, 5),), body)
            p.ob('%s: from a vector of %s' % (fmt, w), tr, ok, reft)
            p.ob('%s: a short vector of %s is an error' % (fmt, w), tr, short_, reft)
            p.ob('%s: no vector of %s makes the conversion fail' % (fmt, w), tr, nofail, reft)

# ---------------------------------------------------------------- C32
def p10(x): return core.exp(x * num(atom('ln10', ())))
def C32(p):
    code = p.code
    s = rv('s')
    def db(v): return p10(v / 20)
    def law(g):
        """gain of the named side and of the other, position g >= 0 towards it"""
        return N(-3) + 3 * g, N(-3) - 117 * g
    for t in ('f32', 'f64'):
        nm = 'pan_stereo_' + t
        g = rv('g', -1, 1)
        def right(nm=nm):
            g = rv('g', 0, 1); l, r = chans(code, 'stereo', code.ret(nm, s, g))
            return agree(r, s * db(N(-3) + 3 * g)) and agree(l, s * db(N(-3) - 117 * g))
        def left(nm=nm):
            g = rv('g', 0, 1); l, r = chans(code, 'stereo', code.ret(nm, s, -g))
            return agree(l, s * db(N(-3) + 3 * g)) and agree(r, s * db(N(-3) - 117 * g))
        def clamp(nm=nm):
            g = rv('g')
            return all(same(code.ret(nm, s, g, pc=c), code.ret(nm, s, N(e)), c) for c, e in ((gt(g, N(1)), 1), (lt(g, N(-1)), -1)))
        def mirror(nm=nm):
            g = rv('g'); a, b = chans(code, 'stereo', code.ret(nm, s, g)), chans(code, 'stereo', code.ret(nm, s, -g))
            return agree(a[0], b[1]) and agree(a[1], b[0])
        def spec(x, g):
            g = min(max(g, F(-1)), F(1))
            d = lambda v: evaluate.trans('exp', v / 20 * LN10())
            n, o = x * d(-3 + 3 * abs(g)), x * d(-3 - 117 * abs(g))
            return [o, n] if g >= 0 else [n, o]
        def ref(nm=nm, t=t):
            pts = [F(v) for v in (-1, 1, 0, 2, -2, 5, -5, 100, -100)] + [Fr(k, 8) for k in range(-9, 10)]
            def body(x, g):
                got = fchans(code, 'stereo', callv(code, nm, x, g))
                want = spec(x, g)
                for c, a, b in zip(('left', 'right'), got, want):
                    expect(a, b, 'panning %s to %s (%s), %s channel' % (show(x), show(g), t, c), rel=Fr(1, 10 ** 5), ab=Fr(1, 10 ** 10), anchor=nm)
            it = iter(pts)
            p.point(p.deep(len(pts) + 60, 500), lambda: (fv(p.rng, lambda: Fr(p.rng.randrange(-1000, 1001), 500)) or F(1), next(it, None) or fv(p.rng, lambda: Fr(p.rng.randrange(-1300, 1301), 1000))), body)
        p.ob('%s: right of centre' % t, nm, right, ref)
        p.ob('%s: left of centre' % t, nm, left, ref)
        p.ob('%s: beyond the extremes' % t, nm, clamp, ref)
        p.ob('%s: mirrored' % t, nm, mirror, ref)
        mm = 'pan_mono_' + t
        p.ob('%s: mono is unchanged' % t, mm, lambda mm=mm: agree(chans(code, 'mono', code.ret(mm, s, rv('g')))[0], s),
             lambda mm=mm: p.point(60, lambda: (rx(p.rng), fv(p.rng, lambda: Fr(p.rng.randrange(-300, 301), 100))), lambda x, g: expect(fchans(code, 'mono', callv(code, mm, x, g))[0], x, 'panning %s to %s in mono' % (show(x), show(g)), anchor=mm)))
        p.ob('%s: no failure' % t, nm, lambda nm=nm, mm=mm: not code.safe(nm) and not code.safe(mm), ref)
    def samew():
        g = rv('g')
        return same(code.ret('pan_stereo_f32', s, g), code.ret('pan_stereo_f64', s, g))
    p.ob('single and double precision positions agree', 'pan_stereo_f32', samew)
def LN10():
    import mpmath
    return evaluate.frommp(mpmath.log(10))
