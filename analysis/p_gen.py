"""C01, C03, C04, C05: oscillators; C17, C18: resampler."""
from lib import *
import core, math, json

OSC = ['sawtooth', 'sine', 'square', 'triangle']
TY = {o: 'bae_rs::generators::%s::%s' % (o, o.capitalize()) for o in OSC}
RES = 'bae_rs::utils::mono_resampler::MonoResampler'
f0 = rv('f', 0, 24000)

def osc_any(code, o, f=f0):
    """any state the oscillator can be in with frequency f: everything sampling writes is arbitrary"""
    s = code.ret(o + '_new', f)
    w = written(code, o + '_process')
    h = havoc(code, s, w, o + '_process')
    return h, w

# ---------------------------------------------------------------- C01
def C01(p):
    code = p.code
    for o in OSC:
        def f(o=o):
            f = rv('f')
            h, w = osc_any(code, o, f)
            return same(code.ret(o + '_clone', h), code.ret(o + '_new', f))
        def set_(o=o):
            f, g = rv('f'), rv('g')
            h, w = osc_any(code, o, f)
            return same(code.ret(o + '_clone', code.post(o + '_set', h, g)), code.ret(o + '_new', g))
        def keep(o=o):
            h, w = osc_any(code, o, rv('f'))
            return same(code.post(o + '_clone', h), h)
        def ref(o=o):
            def body(n, fs):
                x = Obj(code, o + '_new', fs[0])
                f = fs[0]
                for g in fs[1:]:
                    for _ in range(p.rng.randrange(0, n)): x.do(o + '_process')
                    x.do(o + '_set', g); f = g
                for _ in range(p.rng.randrange(0, n)): x.do(o + '_process')
                before = x.copy()
                c = x.spawn(o + '_clone')
                r = Obj(code, o + '_new', f)
                expect(c.do(o + '_get'), r.do(o + '_get'), c.log(), anchor=o)
                for k in range(20):
                    expect(c.do(o + '_process'), r.do(o + '_process'), '%s: sample %d of the clone' % (c.log(), k))
                for k in range(10):
                    expect(x.do(o + '_process'), before.do(o + '_process'), '%s: sample %d of the original after cloning' % (x.log(), k))
            p.point(p.deep(60, 400), lambda: (p.rng.choice([3, 30, 120]), [rfreq(p.rng) for _ in range(p.rng.choice([1, 1, 2, 3]))]), body)
        p.ob('%s: clone of any state equals a new one of its frequency' % o, o + '_clone', f, group=o)
        p.ob('%s: clone after a frequency change equals a new one of that frequency' % o, o + '_clone', set_, group=o)
        p.ob('%s: cloning leaves the original alone' % o, o + '_clone', keep, group=o)
        p.refuter(ref, o)
    # resampler and WAV player
    def rs(kind):
        data, rate, a, b, sp = rdata(), rv('rate'), iv('ls'), iv('le'), rv('sp')
        if kind == 'wav':
            s = code.ret('wav_from_track', rate, data)
            w = written(code, 'wav_process')
            return (code.ret('wav_from_track', rate, data), havoc(code, s, w, 'wav_process'), w)
        s = code.ret('resam_new', data, rate, a, b)
        w = written(code, 'resam_process')
        return (code.post('resam_set_speed', s, sp), havoc(code, code.post('resam_set_speed', s, sp), w, 'resam_process'), w)
    for kind in ('resam', 'wav'):
        def f(kind=kind):
            n, h, w = rs(kind)
            return same(code.ret(kind + '_clone', h), n)
        def keep(kind=kind):
            n, h, w = rs(kind)
            return same(code.post(kind + '_clone', h), h)
        p.ob('%s: clone of any state equals a new one with its data, rate, speed and loop' % kind, kind + '_clone', f, group=kind)
        p.ob('%s: cloning leaves the original alone' % kind, kind + '_clone', keep, group=kind)
    def ref():
        def body(data, rate, a, b, sp, n):
            x = Obj(code, 'resam_new', data, rate, a, b)
            if sp is not None: x.do('resam_set_speed', sp)
            for _ in range(n): x.do('resam_process')
            before = x.copy()
            c = x.spawn('resam_clone')
            r = Obj(code, 'resam_new', data, rate, a, b)
            if sp is not None: r.do('resam_set_speed', sp)
            expect(c.do('resam_get_speed'), r.do('resam_get_speed'), c.log())
            for k in range(25): expect(c.do('resam_process'), r.do('resam_process'), '%s: sample %d of the clone' % (c.log(), k))
            c2 = x.spawn('resam_clone'); r2 = Obj(code, 'resam_new', data, rate, a, b)
            c2.do('resam_set_speed', F(1)); r2.do('resam_set_speed', F(1))
            for k in range(12): expect(c2.do('resam_process'), r2.do('resam_process'), '%s: sample %d of the clone' % (c2.log(), k))
            for k in range(10): expect(x.do('resam_process'), before.do('resam_process'), '%s: sample %d of the original after cloning' % (x.log(), k))
        p.point(p.deep(60, 400), lambda: rgen(p.rng), body)
    p.refuter(ref, 'resam')
    def refw():
        def body(data, rate, a, b, sp, n):
            x = Obj(code, 'wav_from_track', rate, data)
            for _ in range(n): x.do('wav_process')
            before = x.copy()
            c = x.spawn('wav_clone')
            r = Obj(code, 'wav_from_track', rate, data)
            for k in range(25): expect(c.do('wav_process'), r.do('wav_process'), '%s: sample %d of the clone' % (c.log(), k))
            for k in range(10): expect(x.do('wav_process'), before.do('wav_process'), '%s: sample %d of the original after cloning' % (x.log(), k))
            # settings reached through the player
            x = Obj(code, 'wav_from_track', rate, data)
            if sp is not None and isinstance(x.s, S) and len(x.s.f) == 1:
                m = Obj(code, None); m.s = x.s.f[0]; m.hist = []
                m.do('resam_set_speed', sp); x.s = S(x.s.tag, [m.s]); x.hist.append('get_mut().set_playback_speed(%s)' % show(sp))
                for _ in range(n): x.do('wav_process')
                c = x.spawn('wav_clone')
                r = Obj(code, 'resam_new', data, rate, F(0), F(0)); r.do('resam_set_speed', sp)
                for k in range(25): expect(c.do('wav_process'), r.do('resam_process'), '%s: sample %d of the clone' % (c.log(), k))
        p.point(p.deep(60, 400), lambda: rgen(p.rng, loop=False), body)
    p.refuter(refw, 'wav')

MONO = 'bae_rs::sample_format::mono::Mono'
def rdata(name='data', n=None):
    n = iv('n') if n is None else n
    return seqvar(name, n, lambda b, i: struct(MONO, [num(atom('proj', (atom('at', (b, i), 'obj'), 'mono', 0), 'real'))]))
def mono(x): return S(MONO, [x])
def rgen(rng, loop=None):
    n = csize(rng, rng.choice([0, 1, 2, 3, 4, 5, 8]), 1000)
    data = [mono(rx(rng)) for _ in range(n)]
    rate = rng.choice([F(48000), F(24000), F(96000), F(44100), F(12000), F(36000), F(8000), F(192000)])
    a, b = F(0), F(0)
    lp = rng.random() < .6 if loop is None else loop
    if lp:
        a, b = F(rng.randrange(0, n + 2)), F(rng.randrange(0, n + 2))
    elif rng.random() < .3: a = b = F(rng.randrange(0, n + 2))
    sp = rng.choice([None, F(1), F(2), Fr(1, 2), Fr(3, 2), Fr(7, 3), F(0), F(5)])
    return data, rate, a, b, sp, rng.choice([0, 1, 2, 3, 5, 9, 20])

# ---------------------------------------------------------------- C03
def C03(p):
    code = p.code
    for o in OSC:
        f, g = rv('f'), rv('g')
        pcs = TRUE
        if o == 'square': pcs = b_and(gt(f, N(0)), gt(g, N(0)))
        def fresh_(o=o): return same(code.ret(o + '_get', code.ret(o + '_new', f)), f, pcs)
        def set_(o=o):
            h, w = osc_any(code, o, f)
            return same(code.ret(o + '_get', code.post(o + '_set', h, g)), g, pcs)
        def keep(o=o):
            h, w = osc_any(code, o, f)
            return same(code.ret(o + '_get', code.post(o + '_process', h)), f, pcs) and same(code.ret(o + '_get', code.post(o + '_get', h)), f, pcs)
        def seamless(o=o):
            h, w = osc_any(code, o, f)
            return same(code.ret(o + '_process', code.post(o + '_set', h, g)), code.ret(o + '_process', h))
        def phase(o=o):
            # setting the frequency changes no field that sampling writes
            h, w = osc_any(code, o, f)
            a = code.post(o + '_set', h, g)
            return all(same(getp(a, q), getp(h, q)) for q in w)
        def reach(o=o):
            # whatever a setter leaves behind is again a state of this family
            h, w = osc_any(code, o, f)
            n = code.ret(o + '_new', g)
            a = code.post(o + '_set', h, g)
            return all(same(setp(a, q, getp(n, q)), setp(n, q, getp(n, q))) or True for q in w) and same_but(a, n, w)
        def exact(o=o):
            r = code.tf(o + '_get', 'real32')
            s = code.tf(o + '_set', 'real32'); n = code.tf(o + '_new', 'real32')
            return not (has_kind(r.value, 'r32') or has_kind(s.post[0], 'r32') or has_kind(n.value, 'r32'))
        def ref(o=o):
            def body(fs):
                x = Obj(code, o + '_new', fs[0], mode='real32')
                f = fs[0]
                for i, g in enumerate(fs):
                    if i:
                        c = x.copy()
                        x.do(o + '_set', g); f = g
                        if o != 'square':
                            y = x.copy()
                            expect(y.do(o + '_process'), c.do(o + '_process'), '%s: next sample after the frequency change' % x.log())
                            # and the one after it continues from the same position
                            z = x.copy(); z.do(o + '_set', fs[i - 1]); c2 = c.copy()
                    expect(x.do(o + '_get'), f, '%s: frequency read back' % x.log(), Fr(1, 10 ** 12), Fr(1, 10 ** 12))
                    for _ in range(p.rng.randrange(0, 60)): x.do(o + '_process')
                    expect(x.do(o + '_get'), f, '%s: frequency read back' % x.log(), Fr(1, 10 ** 12), Fr(1, 10 ** 12))
            def gen():
                fs = [rfreq(p.rng) for _ in range(p.rng.choice([1, 2, 3, 4]))]
                if p.rng.random() < .2: fs = [-x if p.rng.random() < .4 else x * 3 for x in fs]
                return ([x if x != 0 or o != 'square' else F(1) for x in fs],)
            p.point(p.deep(60, 500), gen, body)
            if o == 'square': return
            # only the speed of the waveform changes: compare phase continuation with a twin
            def body2(f, g, n):
                x = Obj(code, o + '_new', f)
                for _ in range(n): x.do(o + '_process')
                a = x.copy(); a.do(o + '_set', g); a.do(o + '_set', f)
                for k in range(30): expect(a.do(o + '_process'), x.do(o + '_process'), '%s: sample %d after setting another frequency and the old one again' % (a.log(), k))
            p.point(p.deep(40, 300), lambda: (rfreq(p.rng), rfreq(p.rng), p.rng.randrange(0, 120)), body2)
            # stopping, a crawl and the limits, in each quarter of the cycle
            for f in (F(1000), F(3001)):
                for q in (1, 3, 5, 7):
                    for g in (F(0), F(24000), Fr(1, 10 ** 6), f, F(48000), Fr(1, 2)): p.point(1, lambda: (f, g, int(48000 * q / (8 * f))), body2)
        p.ob('%s: frequency reads back after construction' % o, o + '_get', fresh_, group=o)
        p.ob('%s: frequency reads back after setting, from any state' % o, o + '_get', set_, group=o)
        p.ob('%s: sampling and reading keep the frequency' % o, o + '_process', keep, group=o)
        p.ob('%s: setting turns any state into one of the new frequency' % o, o + '_set', reach, group=o)
        p.ob('%s: no single-precision rounding between setter and getter' % o, o + '_set', exact, group=o)
        if o != 'square':
            p.ob('%s: a frequency change leaves the next sample alone, from any state' % o, o + '_set', seamless, group=o)
            p.ob('%s: a frequency change leaves every field sampling writes alone' % o, o + '_set', phase, group=o)
        p.refuter(ref, o)

def same_but(a, b, paths):
    """equal structures apart from the given fields"""
    for q in paths: a = setp(a, q, UNIT); b = setp(b, q, UNIT)
    return samev(a, b)
def has_kind(v, kind):
    return any(core._atom_by_id[i].kind == kind for i in atoms_in(v))
def atoms_in(v, seen=None):
    """all atom ids occurring anywhere in a value"""
    out = set(); st = [v]; seen = set()
    while st:
        x = st.pop()
        if x is None or isinstance(x, (str, int, bool, Fr)): continue
        if isinstance(x, tuple): st.extend(x); continue
        if isinstance(x, Atom):
            if x.id in out: continue
            out.add(x.id); st.extend(x.args); continue
        k = (type(x), getattr(x, 'id', id(x)))
        if k in seen: continue
        seen.add(k)
        if isinstance(x, Rat):
            for q in (x.n, x.d): st.extend(core._atom_by_id[a] for a in q.atoms())
        elif isinstance(x, Poly): st.extend(core._atom_by_id[a] for a in x.atoms())
        elif isinstance(x, Struct): st.extend(x.f)
        elif isinstance(x, Node): st.extend((x.hi, x.lo)); st.append(x.c.q)
        elif isinstance(x, Leaf): st.append(x.v)
        elif hasattr(x, 'k'): st.append(x.k)
    return out

# ---------------------------------------------------------------- C04 / C05: waveforms
def table(k): return core.sin(mul(N(Fr(1, 2400)), mul(num(atom('pi', ())), k)))
PHI = {'sawtooth': None}
def named_zero(n): return {a.id: N(0) for a in core.vars_named(n)}
def wave_state(code, o, f=f0, rising=True):
    """(code state, output, next code state): the specified oscillator at position p with frequency f"""
    if o == 'sawtooth':
        p = rv('p', -1, 1); pc = lt(p, N(1))
        g = lambda f, p: build(code, TY[o], {'irate': f / 24000, 'inc': p})
        q = p + f / 24000
        return g(f, p), pc, p, g(f, ite(ge(q, N(1)), q - 2, q))
    if o == 'triangle':
        # two branches: rising and falling
        p = rv('p', -1, 1); d = TRUE if rising else FALSE
        sg = N(1) if rising else N(-1)
        g = lambda f, p, s: build(code, TY[o], {'irate': f / 12000, 'inc': p, 'dir': s})
        q = p + f / 12000 * sg
        n = ite(ge(q, N(1)), 2 - q, ite(gt(q, N(-1)), q, -2 - q))
        turn = ite(d, ge(q, N(1)), b_not(gt(q, N(-1))))
        return g(f, p, sg), TRUE, p, g(f, n, ite(turn, -sg, sg))
    if o == 'square':
        # position counted in samples; half = 24000/f samples per half cycle
        p = rv('p', 0); half = rv('half', 1)
        # the wrap may be taken with the next sample: up to one sample past the cycle's end
        pc = lt(p, 2 * half + 1)
        g = lambda p: build(code, TY[o], {'ind': p, 'inv': half})
        q = ite(ge(p, 2 * half), p - 2 * half, p)
        return g(p), pc, ite(lt(q, half), N(1), N(-1)), g(q + 1)
    if o == 'sine':
        p = rv('p', 0, 4800); pc = lt(p, N(4800))
        g = lambda f, p: build(code, TY[o], {'ind': p, 'inc': f / 10})
        i = core.floor(p); w = p - i
        j = i + 1
        out = (1 - w) * table(i) + w * table(j)
        q = p + f / 10
        return g(f, p), pc, out, g(f, ite(ge(q, N(4800)), q - 4800, q))

def wave(o, ph):
    """the waveform at phase ph in [0,1)"""
    if o == 'sawtooth': return 2 * ph if ph < Fr(1, 2) else 2 * ph - 2
    if o == 'triangle': return 4 * ph if ph <= Fr(1, 4) else 2 - 4 * ph if ph <= Fr(3, 4) else 4 * ph - 4
    if o == 'square': return F(1) if ph < Fr(1, 2) else F(-1)
    if o == 'sine':
        x = ph * 4800; i = int(x); w = x - i
        t = lambda k: evaluate.trans('sin', evaluate.PIF * (k % 4800) / 2400)
        return (1 - w) * t(i) + w * t(i + 1)

def C05(p):
    code = p.code
    for o in OSC:
        sides = (True, False) if o == 'triangle' else (True,)
        def out(o=o, sides=sides):
            for up in sides:
                s, pc, y, n = wave_state(code, o, rising=up)
                r = code.ret(o + '_process', s, pc=pc)
                if not (same(r, y, pc) or agree(r, y, pc)): return False
            return True
        def nxt(o=o, sides=sides):
            for up in sides:
                s, pc, y, n = wave_state(code, o, rising=up)
                if o == 'triangle':
                    # standing still, the slope's name is immaterial at the turning points
                    z = {f0.v.single().id: N(0)}
                    if not agree(field_map(code, code.post('triangle_process', subst(s, z)))['inc'], rv('p', -1, 1)): return False
                    pc = gt(f0, N(0))
                r = code.post(o + '_process', s, pc=pc)
                if o == 'square':
                    # a wrap taken at once or with the next sample is the same position
                    p, half = rv('p', 0), rv('half', 1)
                    m = field_map(code, r); e = field_map(code, n)
                    if not same(m['inv'], e['inv'], pc): return False
                    x, y2 = m['ind'], e['ind']
                    if not (agree(x, y2, pc) or agree(x, ite(ge(y2, 2 * half), y2 - 2 * half, y2), pc)): return False
                elif not (same(r, n, pc) or agree(r, n, pc)): return False
            return True
        def start(o=o):
            s, pc, y, n = wave_state(code, o)
            z = named_zero('p')
            if o == 'square':
                f = rv('f1', 1, 24000)
                return same(code.ret('square_new', f), build(code, TY[o], {'ind': N(0), 'inv': 24000 / f}))
            return same(code.ret(o + '_new', f0), subst(s, z))
        def setf(o=o):
            g = rv('g', 0, 24000)
            return all(same(code.post(o + '_set', wave_state(code, o, rising=u)[0], g), wave_state(code, o, g, rising=u)[0]) for u in (True, False))
        def safe(o=o):
            return all(not code.safe(o + '_process', s, pc=pc) for s, pc, y, n in [wave_state(code, o, rising=u) for u in (True, False)])
        def exact(o=o):
            r = code.tf(o + '_process', 'real32')
            n = code.tf(o + '_new', 'real32'); st = code.tf(o + '_set', 'real32')
            return not (has_kind(r.post[0], 'r32') or has_kind(n.value, 'r32') or has_kind(st.post[0], 'r32'))
        def ref(o=o):
            def body(fs, mode):
                x = Obj(code, o + '_new', fs[0][0], mode=mode)
                ph = F(0); f = fs[0][0]
                for i, (g, n) in enumerate(fs):
                    if i: x.do(o + '_set', g); f = g
                    for k in range(n):
                        y = x.do(o + '_process')
                        e = wave(o, ph)
                        if not close(y, e, Fr(1, 500000), Fr(1, 500000)):
                            raise Witness('%s: sample at cycle position %s is %s, the %s there is %s' % (x.log(), show(ph), show(y), o, show(e)))
                        ph += f / 48000
                        ph -= int(ph)
            def gen():
                big = p.rng.random() < .15
                segs = 1 if o == 'square' or big else p.rng.choice([1, 1, 2, 3])
                fs = [(rfreq(p.rng), p.rng.randrange(1, 1500 if big else 150)) for _ in range(segs)]
                if o == 'square': fs = [(x if x else F(1), n) for x, n in fs]
                return fs, 'real'
            p.point(p.deep(120, 900), gen, body)
            if o != 'square':
                for q in (1, 3, 5, 7):
                    for g in (F(0), F(24000), Fr(1, 10 ** 6)): p.point(1, lambda: ([(F(1000), 6 * q), (g, 4), (F(1001), 60)], 'real'), body)
            # single precision in the state shows as drift
            if any(q['name'].endswith('single precision') and q['group'] == o and q['status'] != 'discharged' for q in p.obs):
                def body32(f, n):
                    x = Obj(code, o + '_new', f, mode='real32'); ph = F(0)
                    for k in range(n):
                        y = x.do(o + '_process')
                        near = min(abs(ph - q) for q in (0, Fr(1, 2), 1)) < Fr(1, 1000)
                        if not near and not close(y, wave(o, ph), Fr(1, 10 ** 6), Fr(2, 10 ** 6)):
                            raise Witness('%s: after %d samples the position is off: %s instead of %s (single-precision state)' % (x.log(), k, show(y), show(wave(o, ph))))
                        ph += f / 48000; ph -= int(ph)
                p.point(p.deep(6, 30), lambda: (p.rng.choice([F(440), Fr(4401, 10), Fr(1234567, 1000), Fr(99, 7)]), 4000), body32)
        p.ob('%s: sample is the waveform at the current position' % o, o + '_process', out, group=o)
        p.ob('%s: advances by frequency/48000 of a cycle with wrap' % o, o + '_process', nxt, group=o)
        p.ob('%s: starts at position 0' % o, o + '_new', start, group=o)
        if o != 'square': p.ob('%s: a frequency change keeps the position' % o, o + '_set', setf, group=o)
        p.ob('%s: never fails at any position' % o, o + '_process', safe, group=o)
        p.ob('%s: position is not kept in single precision' % o, o + '_process', exact, group=o)
        p.refuter(ref, o)

def C04(p):
    code = p.code
    for o in OSC:
        def rng_(o=o):
            s, pc, y, n = wave_state(code, o)
            if o == 'square':
                h, w = osc_any(code, o)
                r = code.ret(o + '_process', h)
                return all(isinstance(l.v, Rat) and l.v.const() in (1, -1) for l in leaves_of(r))
            for u in (True, False):
                s, pc, y, n = wave_state(code, o, rising=u)
                if not within(code.ret(o + '_process', s, pc=pc), -1, 1, pc): return False
            return True
        def ind(o=o):
            if o == 'square': return True
            for u in (True, False):
                s, pc, y, n = wave_state(code, o, rising=u)
                r = code.post(o + '_process', s, pc=pc)
                fm = field_map(code, r)
                k = {'sawtooth': 'inc', 'triangle': 'inc', 'sine': 'ind'}[o]
                lo, hi = (0, 4800) if o == 'sine' else (-1, 1)
                if not within(fm[k], lo, hi, pc): return False
                if o == 'triangle' and not all(isinstance(l.v, Rat) and l.v.const() in (1, -1) for l in leaves_of(fm['dir'])): return False
                if o in ('sawtooth', 'sine') and not linear.always(lt(fm[k], N(hi)), pc): return False
            return True
        def base(o=o):
            if o == 'square': return True
            s, pc, y, n = wave_state(code, o)
            z = named_zero('p')
            g = rv('g', 0, 24000)
            return same(code.ret(o + '_new', f0), subst(s, z)) and all(same(code.post(o + '_set', wave_state(code, o, rising=u)[0], g), wave_state(code, o, g, rising=u)[0]) for u in (True, False))
        def ref(o=o):
            def body(fs):
                x = Obj(code, o + '_new', fs[0][0])
                for i, (g, n) in enumerate(fs):
                    if i: x.do(o + '_set', g)
                    for k in range(n):
                        y = x.do(o + '_process')
                        if o == 'square' and y not in (1, -1): raise Witness('%s: square sample %s' % (x.log(), show(y)))
                        if abs(y) > 1 + Fr(1, 10 ** 7): raise Witness('%s: sample %s is outside [-1,1]' % (x.log(), show(y)))
            def gen(): return ([(rfreq(p.rng), p.rng.randrange(1, 250)) for _ in range(p.rng.choice([1, 2, 3, 5]))],)
            p.point(p.deep(120, 900), gen, body)
        p.ob('%s: sample range at every position' % o, o + '_process', rng_, group=o)
        p.ob('%s: position range is preserved by every call' % o, o + '_process', ind, group=o)
        p.ob('%s: construction and frequency changes stay in the position range' % o, o + '_set', base, group=o)
        p.refuter(ref, o)
    def noise():
        r = code.tf('noise_process')
        return within(r.value, -1, 1, TRUE)
    def nref():
        def body(u):
            def h(ev, a, *g): return u
            o = code.call('noise_process', ('tok', 'n'), hooks={'random': h})
            if abs(o.value) > 1: raise Witness('noise sample %s when the random source yields %s' % (show(o.value), show(u)))
        for u in (F(0), Fr(1, 4), Fr(1, 2), Fr(3, 4), 1 - Fr(1, 1 << 24)): body(u)
    p.ob('noise: sample range', 'noise_process', noise, nref)
    def zero(): return same(code.tf('zero_process').value, N(0))
    def zref():
        o = code.call('zero_process', S('z', []))
        expect(o.value, F(0), 'zero generator')
    p.ob('zero: sample is 0', 'zero_process', zero, zref)

def within(v, lo, hi, pc):
    """every leaf lies in [lo,hi]: by path conditions, or at all vertices of a multi-affine form"""
    v = restrict(v, pc)
    if restrict(b_and(ge(v, N(lo)), le(v, N(hi))), pc) is TRUE: return True
    if linear.always(ge(v, N(lo)), pc) and linear.always(le(v, N(hi)), pc): return True
    for ctx, l in core.paths(v):
        if not isinstance(l.v, Rat): return False
        if not ma_within(l.v, lo, hi): 
            if restrict(b_and(ge(leaf(l.v), N(lo)), le(leaf(l.v), N(hi))), pc) is not TRUE: return False
    return True
def ma_within(r, lo, hi):
    if r.d is not P1: return False
    # x - floor(x) -> a fresh variable in [0,1)
    pol = r.n
    fl = [core._atom_by_id[a] for a in pol.atoms() if core._atom_by_id[a].kind == 'floor']
    sub_ = {}
    for a in fl:
        x = a.args[0].single()
        if x is None or x.kind != 'var': continue
        w = var('frac%d' % a.id, 'real', 0, 1)
        # x := floor(x) + w
        t = fresh('x', 'real')
        v = subst(leaf(r), {x.id: num(t)}) if False else None
        pol2 = replace_atom(pol, x.id, p_add(p_atom(a), p_atom(w)))
        if all(a.id not in [q for q, e in m] for m in pol2.t): pol = pol2
    ids = sorted(pol.atoms())
    if any(e > 1 for m in pol.t for _, e in m) or len(ids) > 10: return False
    ats = [core._atom_by_id[i] for i in ids]
    if any(a.lo is None or a.hi is None for a in ats): return False
    import itertools
    for vs in itertools.product(*[(a.lo, a.hi) for a in ats]):
        d = dict(zip(ids, vs))
        s = Fr(0)
        for m, c in pol.t.items():
            for a, e in m: c = c * d[a]
            s += c
        if not lo <= s <= hi: return False
    return True
def replace_atom(pol, i, q):
    out = Poly({})
    for m, c in pol.t.items():
        t = p_const(c)
        for a, e in m:
            for _ in range(e): t = p_mul(t, q if a == i else p_atom(core._atom_by_id[a]))
        out = p_add(out, t)
    return out

# ---------------------------------------------------------------- C17 / C18
def resam_layout(code, data, pos, inc, speed, ls, le): return build(code, RES, {'data': data, 'ind': pos, 'inc': inc, 'speed': speed, 'loop_start': ls, 'loop_end': le})
def melem(data, i):
    x = core.seq_at(data, i)
    return x.f[0] if isinstance(x, Struct) else dmap_mono(x)
def dmap_mono(x): raise NoLayout('sample')

def spec_resam(data, n, pos, step, ls, le):
    """one call of the specified resampler on concrete data"""
    if le > ls:
        i = int(pos); w = pos - i
        y0 = data[i]
        j = i + 1
        y1 = data[ls] if j >= le else data[j]
        out = y0 + w * (y1 - y0)
        pos += step
        if pos >= le: pos = ls + (pos - le) % (le - ls)
        return out, pos
    if pos >= n: return F(0), pos
    i = int(pos); w = pos - i
    y0 = data[i]; y1 = data[i + 1] if i + 1 < n else y0
    return y0 + w * (y1 - y0), pos + step

def resam_ref(p, loop):
    code = p.code
    def body(data, rate, a, b, sps, n):
        x = Obj(code, 'resam_new', data, rate, a, b, mode='real32')
        ds = [d.f[0] for d in data]
        N_ = len(ds)
        ls, le = min(int(min(a, b)), N_), min(int(max(a, b)), N_)
        pos = F(0); sp = F(1)
        for s in sps:
            if s is not None: x.do('resam_set_speed', s); sp = s
            for k in range(n):
                e, pos = spec_resam(ds, N_, pos, sp * rate / 48000, ls, le)
                q = x.copy()
                y = x.do('resam_process')
                if not close(y, e, Fr(1, 10 ** 6), Fr(1, 10 ** 6)):
                    raise Witness('%s on %d samples %s: sample %s, expected %s' % (x.log(), N_, show(ds), show(y), show(e)))
        # the WAV player is the same resampler without a loop
    def gen():
        data, rate, a, b, sp, n = rgen(p.rng, loop)
        data = [mono(evaluate.rnd32(d.f[0])) for d in data]
        if not loop: a = b = F(p.rng.choice([0, 0, 1, 2, len(data), len(data) + 3]))
        elif len(data) and int(min(a, len(data))) == int(min(b, len(data))): raise Skip('empty loop')
        if loop and not data: raise Skip('no data')
        def speed():
            v = near(p.rng, 0, 8)
            return v if v is not None else p.rng.choice([None, F(1), Fr(1, 3), F(3), Fr(9, 4), F(0), Fr(p.rng.randrange(0, 4000), 1000)])
        sps = [sp] + [speed() for _ in range(p.rng.choice([0, 0, 1, 2, 4]))]
        return data, rate, a, b, sps, p.rng.choice([1, 2, 3]) if len(sps) > 2 else n + p.rng.choice([1, 5, 20])
    p.point(p.deep(250, 2500), gen, body)
    # positions far into long data need more than single precision
    def long(n, m, rate, sp):
        ds = [Fr((i * 37 % 101) - 50, 64) for i in range(n)]
        x = Obj(code, 'resam_new', [mono(d) for d in ds], rate, F(0), F(n if loop else 0), mode='real32')
        x.do('resam_set_speed', sp)
        pos = F(0)
        for k in range(m):
            e, pos = spec_resam(ds, n, pos, sp * rate / 48000, 0, n if loop else 0)
            y = x.do('resam_process')
            if not close(y, e, Fr(1, 10 ** 5), Fr(1, 10 ** 5)): raise Witness('%s on %d samples: sample %d is %s, expected %s' % (x.log(), n, k, show(y), show(e)))
    p.point(p.deep(1, 4), lambda: (400, 900, F(44100), Fr(p.rng.randrange(300, 900), 1000)), long)
    p.point(1, lambda: (100009, 3, F(48000), F(100000) + Fr(3, 10) if not loop else Fr(500009, 10)), long)

def num_single(v):
    return v.v.single() if isinstance(v, Leaf) and isinstance(v.v, Rat) else None
def resam_tier1(p, loop):
    code = p.code
    n = iv('n'); data = rdata('data', n)
    pos = rv('pos', 0); inc = rv('inc'); sp = rv('sp')
    ls = iv('ls'); le = iv('le')
    g = lambda q, s=sp: resam_layout(code, data, q, inc, s, ls, le)
    gg = 'loop' if loop else 'plain'
    el = lambda i: core.seq_at(data, i).f[0]
    i = core.floor(pos); w = pos - i
    if loop:
        pc = ALL(gt(le, ls), le_(le, n), ge(pos, N(0)), lt(pos, le))
        y0 = el(i); y1 = ite(ge(i + 1, le), el(ls), el(i + 1))
        out = y0 + w * (y1 - y0)
        q = pos + inc * sp
        L = le - ls
        k = core.floor(div(q - le, L))
        nxt = ite(ge(q, le), q - le - k * L + ls, q)
    else:
        pc = ALL(le_(le, ls), ge(pos, N(0)))
        y0 = el(i); y1 = ite(ge(i + 1, n), y0, el(i + 1))
        out = ite(ge(pos, n), N(0), y0 + w * (y1 - y0))
        nxt = ite(ge(pos, n), pos, pos + inc * sp)
    def o(): 
        r = code.ret('resam_process', g(pos), pc=pc)
        return same(r, out, pc) or agree(r, out, pc)
    def x():
        r = code.post('resam_process', g(pos), pc=pc)
        m = field_map(code, r); e = field_map(code, g(pos))
        fixed = all(same(m[k], e[k], pc) for k in m if k != 'ind')
        if not fixed: return False
        if loop: 
            # with a positive step
            return same(m['ind'], nxt, b_and(pc, ge(inc * sp, N(0)))) or agree(m['ind'], nxt, b_and(pc, ge(inc * sp, N(0))))
        return same(m['ind'], nxt, pc) or agree(m['ind'], nxt, pc)
    def new():
        rate = rv('rate')
        a, b = iv('pa'), iv('pb')
        r = code.ret('resam_new', data, rate, a, b)
        m = field_map(code, r)
        lo, hi = vmin(a, b), vmax(a, b)
        ok = same(m['ind'], N(0)) and same(m['inc'], rate / 48000) and same(m['speed'], N(1)) and same(m['data'], data)
        if not ok: return False
        if loop:
            pcl = lt(lo, vmin(hi, n))
            return agree(m['loop_end'], vmin(hi, n), pcl) and agree(m['loop_start'], lo, pcl)
        pcl = le_(vmin(hi, n), lo)
        return always(le_(m['loop_end'], m['loop_start']), pcl)
    def spd():
        v = rv('v'); r = code.post('resam_set_speed', g(pos), v)
        return same(r, g(pos, v))
    def safe():
        return not code.safe('resam_process', g(pos), pc=pc)
    def exact():
        for nme in ('resam_process',):
            r = code.tf(nme, 'real32')
            fm = field_map(code, r.post[0])
            if any(has_kind(fm[k], 'r32') for k in ('ind', 'inc', 'speed')): return False
        # what the interpolation rounds is the fraction, never the position itself
        a = code.tf('resam_process', 'real32'); at = {z.id for z in (num_single(field_map(code, a.args[0])['ind']),) if z is not None}; of = set(atoms_in(field_map(code, a.args[0])['ind']))
        for i in atoms_in(a.value):
            z = core._atom_by_id[i]
            if z.kind != 'r32': continue
            x = z.args[0]; w = [core._atom_by_id[j] for j in atoms_in(num(z)) if j != i]
            if at & {j.id for j in w} and all(j.id in of or j.kind in ('floor', 'trunc', 'whole') for j in w) and not (always(ge(leaf(x), N(-1)), TRUE) and always(core.le(leaf(x), N(1)), TRUE)): return 'the position is rounded to single precision'
        fm = field_map(code, code.tf('resam_new', 'real32').value)
        return not any(has_kind(fm[k], 'r32') for k in ('ind', 'inc', 'speed'))
    p.ob('output is the interpolation at the current position', 'resam_process', o, group=gg)
    p.ob('position advances by speed times rate/48000', 'resam_process', x, group=gg)
    p.ob('construction starts at 0 with ordered, limited loop points', 'resam_new', new, group=gg)
    p.ob('setting the speed changes the speed only', 'resam_set_speed', spd, group=gg)
    p.ob('no read outside the data at any position', 'resam_process', safe, group=gg)
    p.ob('position kept in double precision', 'resam_process', exact, group=gg)
    p.refuter(lambda: resam_ref(p, loop), gg)
le_ = core.le
def C17(p):
    resam_tier1(p, False)
    code = p.code
    def wav():
        rate = rv('rate'); d = rdata()
        w = code.ret('wav_from_track', rate, d)
        r = code.ret('resam_new', d, rate, N(0), N(0))
        return same(getp(w, (0,)), r)
    def wavp():
        a = code.tf('wav_process'); s = a.args[0].f[0]
        return same(a.value, code.ret('resam_process', s)) and same(a.post[0].f[0], code.post('resam_process', s))
    def wref():
        def body(data, rate, a, b, sp, n):
            x = Obj(code, 'wav_from_track', rate, data); pos = F(0); ds = [d.f[0] for d in data]
            for k in range(n + 5):
                e, pos = spec_resam(ds, len(ds), pos, rate / 48000, 0, 0)
                expect(x.do('wav_process'), e, '%s on %s' % (x.log(), show(ds)))
        p.point(p.deep(100, 600), lambda: rgen(p.rng, False), body)
    p.ob('the WAV player is a resampler over its track without a loop', 'wav_from_track', wav, group='wav')
    p.ob('the WAV player returns its resampler\'s samples', 'wav_process', wavp, group='wav')
    p.refuter(wref, 'wav')
def C18(p): resam_tier1(p, True)

# ---------------------------------------------------------------- C45
SEEDED = ('seed_from_u64', 'from_seed', 'StepRng')
def C45(p):
    p.rule = 'the sample is 2u - 1 (or 1 - 2u) of one fresh draw u of the thread random source, whatever the state, and leaves no other trace in the state'
    code = p.code
    def draws(v): return [core._atom_by_id[i] for i in atoms_in(v) if core._atom_by_id[i].kind == 'random']
    def uniform():
        r = code.tf('noise_process')
        ds = draws(r.value)
        if len(ds) != 1: return '%d draws' % len(ds)
        u = num(ds[0])
        return agree(r.value, 2 * u - 1) or agree(r.value, 1 - 2 * u)
    def memoryless():
        r = code.tf('noise_process')
        return (r.post[0] is None or not draws(r.post[0])) and same(r.post[0], r.args[0])
    def ref():
        import random
        rnd_ = random.Random(1)
        r = code.tf('noise_process')
        ats = sorted(draws(r.value), key=lambda a: a.id)
        apart = r.post[0] is None or not draws(r.post[0])   # no draw is kept
        n = 2048
        def halton(i, b):
            x, f = Fr(0), Fr(1, b)
            while i: i, d = divmod(i, b); x += d * f; f /= b
            return x
        BASE = (2, 3, 5, 7, 11, 13)
        even = [Fr(2 * k + 1, 2 * n) for k in range(n)]; rnd_.shuffle(even)
        order = list(range(1, n + 1)); rnd_.shuffle(order)
        def draw(k, j):
            if apart and len(ats) == 1: return even[k]
            if apart and len(ats) <= len(BASE): return halton(order[k], BASE[j])
            return Fr(rnd_.getrandbits(24), 1 << 24)
        x = code.call('noise_new').value
        ys = []
        for k in range(n):
            us = {}
            def one(ev, a, *g):
                i = next((j for j, q in enumerate(ats) if q is a), None)
                i = a.id if i is None else i
                if i not in us: us[i] = draw(k, i if i < len(ats) else 0)
                return us[i]
            o = code.call('noise_process', x, hooks={'random': one})
            if o.panic: raise Witness('noise fails: %s' % o.panic.msg, 'noise_process')
            ys.append(o.value)
            if o.post and o.post[0] is not None: x = o.post[0]
        p.points += 1
        z = sorted(ys)
        tol = Fr(1, 100) if apart and len(ats) == 1 else Fr(1, 50) if apart and len(ats) <= 2 else Fr(1, 16)
        for k, y in enumerate(z):
            e = Fr(2 * k + 1, len(z)) - 1
            if abs(y - e) > 2 * tol: raise Witness('noise: when the random source delivers evenly spread values, %.1f %% of the samples are at most %s; evenly spread samples would reach %s' % (100.0 * (k + 1) / len(z), show(y), show(e)), 'noise_process')
        m = sum(ys) / len(ys); var = sum((y - m) ** 2 for y in ys)
        for lag in (1, 2, 3, 4, 8):
            c = sum((ys[k] - m) * (ys[k + lag] - m) for k in range(len(ys) - lag)) / var
            if abs(c) > Fr(1, 5): raise Witness('noise: samples %d apart have a correlation of %s although the draws are independent' % (lag, show(c)), 'noise_process')
    def source():
        calls = set()
        for f in code.functions(['noise_new', 'noise_process'])[0]:
            for b in f['blocks']:
                i = b['t'].get('f') if isinstance(b['t'].get('f'), dict) else None
                if i and any(q in i.get('path', '') for q in SEEDED): calls.add((i['path'], all(q.get('k') == 'const' for q in b['t']['a'])))
        # and through addressed functions: initialisers of globals and thread-locals
        import p_fx
        g = p_fx.Calls(code.calls)
        seen = {g.roots[n] for n in ('noise_new', 'noise_process')}; todo = list(seen)
        while todo:
            x = g.n[todo.pop()]
            for e, _ in x.get('edges', []):
                y = g.n[e]
                if x['crate'] in g.local and any(q in y['path'] for q in SEEDED): calls.add((y['path'], any(e == z for z, _ in x.get('fixed', []))))
                if e not in seen and (y['crate'] in g.local or y['crate'] in p_fx.STD or y['crate'] == 'probe'): seen.add(e); todo.append(e)
        bad = sorted(calls, key=lambda c: not c[1])
        return not bad or ('%s' % bad[0][0] if bad[0][1] else 'a seed of unknown origin')
    def rsource():
        w = source()
        if w is not True and 'unknown' not in w: raise Witness('noise draws from a source with a fixed or reproducible seed, so that two generators agree: %s' % w, 'noise_new')
    p.ob('a sample is one even draw over [-1,1)', 'noise_process', uniform, ref)
    p.ob('samples leave no trace in the next one', 'noise_process', memoryless, ref)
    p.ob('the random source is not seeded by the code', 'noise_new', source, rsource)
