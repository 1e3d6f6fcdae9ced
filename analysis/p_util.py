import os
"""Utilities: WAV input and output, unit conversions, normalising, interpolation, the in-memory reader (C33-C39, C42)."""
from lib import *
import core, loops
from core import Variant
from p_fmt import holds, callv, W

BITS = {8: 'u8', 16: 'i16', 24: 'i24'}
DEPTH = {8: 0, 16: 1, 24: 2}

import p_mod
# ---------------------------------------------------------------- tracks
def sym_tracks(k, n):
    """k tracks of n samples"""
    return seqvar('tracks', k, lambda b, i: f32seq_at(atom('at', (b, i), 'obj'), n))
def f32seq_at(b, n):
    j = fresh('e', 'int', 0)
    return seq_comp_v(n, j, num(atom('at', (b, ratom(j)), 'real')))
def ragged(k):
    """k tracks of arbitrary lengths"""
    return seqvar('tracks', k, lambda b, i: (lambda x: f32seq_at(x, num(atom('len', (x,), 'int', 0))))(atom('at', (b, i), 'obj')))
def tsample(c, f): return num(atom('at', (atom('at', (var('tracks', 'obj'), rr(c)), 'obj'), rr(f)), 'real'))
def rr(v): return v.v
def is_err(v, pc=TRUE):
    v = restrict(v, pc)
    return v is not core.BOT and all(isinstance(l.v, Variant) and l.v.idx == 1 for l in leaves_of(v) if l is not core.BOT)
def is_ok(v, pc=TRUE):
    v = restrict(v, pc)
    return v is not core.BOT and all(isinstance(l.v, Variant) and l.v.idx == 0 for l in leaves_of(v) if l is not core.BOT)
def failed(v):
    """condition under which an external result is an error"""
    def f(x):
        if isinstance(x, Variant): return FALSE if x.idx == 0 else TRUE
        raise NoLayout('result')
    return lift(f)(v)
class Sent:
    """an encoded file handed to the destination; whole: the destination takes all of it or the result is an error"""
    def __init__(self, args, pc, whole): self.name, self.args, self.pc, self.whole = 'wav::write_wav', args, pc, whole
def leaf_paths(v, pc=TRUE):
    if isinstance(v, Node):
        c = core.node(v.c, TRUE, FALSE)
        yield from leaf_paths(v.hi, b_and(pc, c))
        yield from leaf_paths(v.lo, b_and(pc, b_not(c)))
    elif v is not core.BOT: yield pc, v
def delivered(r, w):
    """(encoding, condition) for the encodings whose bytes w sends"""
    q = restrict(w.args[0], w.pc)
    for e in r.events:
        if e.name != 'wav::encode': continue
        for pc, l in leaf_paths(q):
            if l is e.args[2] or same(l, e.args[2], ALL(w.pc, pc)): yield e, ALL(w.pc, e.pc, pc)
def writes(r):
    out = []
    for e in r.events:
        if e.name == 'wav::write_wav': out.append(Sent(e.args, e.pc, False))
        elif e.name == 'io::write_all':
            for x, pc in delivered(r, e):
                if pc is not FALSE and not never(pc): out.append(Sent(x.args[:2] + (None, e.args[1]), pc, True))
    return out
def sent_one(r):
    ws = writes(r)
    if not ws: raise NoLayout('a file sent')
    return ws[0]
def others(r):
    """effects beside encoding, sending what was encoded, flushing"""
    return [e for e in r.events if e.name not in ('wav::write_wav', 'wav::read_wav', 'wav::encode', 'io::flush') and e.pc is not FALSE and not never(e.pc)
            and not (e.name == 'io::write_all' and holds(OR([pc for _, pc in delivered(r, e)]), e.pc))]
def OR(l):
    c = FALSE
    for x in l: c = b_or(c, x)
    return c
def touching(r):
    """effects the destination sees"""
    return [e for e in r.events if e.name != 'wav::encode']

class Wav:
    """one concrete call of write_wav"""
    def __init__(self, code, tracks, bps, clip, fail=False, short=False, mode='real'):
        self.t = 'write_wav(%s, %d bits, clip %s)%s' % (show(tracks) if len(tracks) < 6 and all(len(t) < 8 for t in tracks) else '%d tracks of lengths %s' % (len(tracks), sorted({len(t) for t in tracks})[:4]), bps, 'on' if clip else 'off', ', encoder failing' if fail else '')
        r = code.tf('write', mode) if mode != 'real' else code.tf('write')
        bad, good = V(1, [('tok', 'error')]), V(0, [S('tuple', [])])
        self.lost, self.flushed = 0, False
        size = 44 + (lambda z: z + z % 2)(len(tracks) * max([len(t) for t in tracks] + [0]) * (bps // 8))
        def ext(ev, a, *g):
            if g[0] in ('wav_write', 'io_write_all', 'io_flush'): return bad if fail in (True, g[0]) else good
            if g[0] == 'io_write': return bad if fail is True else V(0, [F(1 if short else size)])
            if g[0] == 'wav_len': return F(size)
            if g[0] == 'wav_bytes': return [F(x) for x in range(size)]
        env = {'a0': tracks, 'a1': F(bps), 'a2': ('tok', 'dest'), 'a3': bool(clip)}
        ev = Eval(env, {'ext': ext}, 4000000)
        code.evals += 1
        for o in r.oblig:
            if o.cond is not FALSE and code.obl_true(ev, o.cond): raise Witness('%s fails: %s' % (self.t, Panic(o).msg), 'write')
        self.value = ev.val(r.value)
        self.sent, self.direct, files, got = [], False, [], []
        for e in r.events:
            if e.pc is FALSE: continue
            if ev.val(e.pc):
                a = [ev.val(x) if isinstance(x, (Leaf, Node, Struct)) and not isinstance(getattr(x, 'v', None), core.Ptr) else None for x in e.args]
                if e.name == 'wav::encode': files.append(a)
                elif e.name in ('io::write_all', 'io::write') and files:
                    if e.name == 'io::write': self.lost = len(a[0]) - 1
                    if not isinstance(a[0], list): raise Skip('bytes')
                    got += a[0]
                    if got == files[-1][2]:
                        self.sent.append(('wav::write_wav', files[-1][:2] + [None, a[1]])); got = []
                elif e.name == 'io::flush': self.flushed = True
                else:
                    self.direct = self.direct or e.name == 'wav::write_wav'
                    self.sent.append((e.name, a))
        if got: self.sent.append(('io::write_all', [got]))
    @property
    def err(self): return isinstance(self.value, V) and self.value.idx == 1

def hfield(code, s):
    i, T = type_of(code, 'wav::Header')
    return dict(zip([f[0] for f in T['variants'][0]['f']], s.f))

def gtracks(rng, ragged=False):
    k = parts(rng, 5); n = csize(rng, rng.randrange(0, 6), 2000)
    if n > 8: k = min(k, 2)
    def x():
        j = rng.randrange(7)
        return rng.choice([F(0), F(1), F(-1), Fr(3, 2), Fr(-3, 2), Fr(100001, 100000), Fr(-100001, 100000)]) if j == 0 else fv(rng, lambda: Fr(rng.randrange(-1300, 1301), 1024))
    return [[x() for _ in range(n)] for _ in range(k)]

def ltracks(p, root, ks=(3,)):
    """a few long sets of tracks: with a total, or a length, just beyond a size the code mentions"""
    for z in long_sizes(p, root, 5000)[2::3]:
        for k in ks:
            for n in {z // k + 1, z} if z * k <= 9000 else {z // k + 1}:
                yield [[Fr((17 * c + 29 * f) % 2001 - 1000, 1024) for f in range(n)] for c in range(k)]

# ---------------------------------------------------------------- C33
def C33(p):
    code = p.code
    k, n = iv('k', 1, 2000), iv('n', 1)
    for bps, w in BITS.items():
        lo, hi = W[w][3:]
        def call(bps=bps, clip=FALSE): return code.tf('write', given={0: sym_tracks(k, n), 1: N(bps), 3: clip})
        def one(bps=bps):
            for clip in (FALSE, TRUE):
                r = call(bps, clip)
                ws = [e for e in writes(r) if e.pc is not FALSE and not never(e.pc)]
                if len(ws) != 1 or not holds(ws[0].pc) or others(r): return False
            return True
        def header(bps=bps):
            for clip in (FALSE, TRUE):
                e = sent_one(call(bps, clip))
                h = field_map(code, e.args[0])
                want = {'audio_format': N(1), 'channel_count': k, 'sampling_rate': N(48000), 'bytes_per_second': k * (48000 * (bps // 8)), 'bytes_per_sample': k * (bps // 8), 'bits_per_sample': N(bps)}
                if not all(agree(h[f], want[f]) for f in want): return False
            return True
        def data(bps=bps, w=w):
            e = sent_one(call(bps))
            d = e.args[1]
            if not (isinstance(d, Leaf) and isinstance(d.v, Variant) and d.v.idx == DEPTH[bps]): return False
            q = d.v.f[0]
            t = iv('t', 0); pc = lt(t, k * n)
            f = core.floor(t / k)
            want = code.ret('to_' + w, tsample(t - k * f, f))
            return agree(core.seq_len(q), k * n) and agree(restrict(core.seq_at(q, t), pc), want, pc)
        def empty(bps=bps):
            k2 = iv('k', 1, 2000)
            r = code.tf('write', given={0: sym_tracks(k2, N(0)), 1: N(bps), 3: FALSE})
            e = writes(r)
            return len(e) == 1 and holds(e[0].pc) and e[0].args[1].v.idx == DEPTH[bps] and agree(core.seq_len(e[0].args[1].v.f[0]), N(0))
        def ref(bps=bps, w=w, lo=lo, hi=hi):
            def body(tr, clip):
                x = Wav(code, tr, bps, clip)
                ws = [a for n_, a in x.sent if n_ == 'wav::write_wav']
                if len(ws) != 1: raise Witness('%s: data handed to the encoder %d times' % (x.t, len(ws)), 'write')
                h = hfield(code, ws[0][0])
                want = {'audio_format': 1, 'channel_count': len(tr), 'sampling_rate': 48000, 'bytes_per_second': 48000 * len(tr) * (bps // 8), 'bytes_per_sample': len(tr) * (bps // 8), 'bits_per_sample': bps}
                for f in want:
                    if h[f] != want[f]: raise Witness('%s: header %s is %s, expected %s' % (x.t, f, show(h[f]), want[f]), 'write')
                d = ws[0][1]
                if d.idx != DEPTH[bps]: raise Witness('%s: data has variant %d of the encoder\'s depths' % (x.t, d.idx), 'write')
                lim = (lambda s: min(max(s, F(-1)), F(1))) if clip else (lambda s: s)
                exp = [callv(code, 'to_' + w, lim(tr[c][f])) for f in range(len(tr[0])) for c in range(len(tr))]
                if d.f[0] != exp: raise Witness('%s: stored %s, expected %s' % (x.t, show(d.f[0]), show(exp)), 'write')
            p.point(p.deep(40, 300), lambda: (gtracks(p.rng), p.rng.randrange(2)), body)
            for tr in ltracks(p, 'write'): p.points += 1; body(tr, 1)
            for nk in (255, 256, 257, 300): p.points += 1; body([[Fr((17 * c) % 2001 - 1000, 1024)] for c in range(nk)], 0)
        p.ob('%d bits: encoded once' % bps, 'write', one, ref)
        p.ob('%d bits: header' % bps, 'write', header, ref)
        p.ob('%d bits: every sample once, interleaved, converted' % bps, 'write', data, ref)
        p.ob('%d bits: tracks without samples' % bps, 'write', empty, ref)

# ---------------------------------------------------------------- C34
def C34(p):
    code = p.code
    k = iv('k', 0); n = iv('n', 0)
    clip = b_atom(var('clip', 'bool'))
    bps = iv('bps', 0, 65535)
    def quiet(r, pc=TRUE):
        """an error, with nothing sent"""
        return is_err(r.value, pc) and all(never(restrict(e.pc, pc), pc) for e in touching(r)) and (r.post[2] is None or same(r.post[2], r.args[2], pc)) and not [o for o in r.oblig if o.cond is not FALSE and not never(o.cond, pc)]
    def none(): return quiet(code.tf('write', given={0: seq_lit([]), 3: clip}))
    def depth():
        r = code.tf('write', given={0: sym_tracks(iv('k', 1), n), 3: clip})
        b = r.args[1]
        pcs = [b_not(core.eq(b, N(v))) for v in (8, 16, 24)]
        return quiet(r, ALL(*pcs))
    def lengths():
        # two tracks that differ, among any number
        out = True
        for b in (8, 16, 24):
            k = iv('k', 2)
            r = code.tf('write', given={0: ragged(k), 1: N(b), 3: clip})
            i = iv('i', 0)
            ln = lambda c: num(atom('len', (atom('at', (var('tracks', 'obj'), rr(c)), 'obj'),), 'int', 0))
            # contrapositive: where anything is sent or success returned, all lengths equal the first
            okc = b_or(any_event(r), ok_cond(r.value))
            out = out and implies_all_equal(okc, k, ln)
        return out
    def any_event(r):
        return OR([e.pc for e in touching(r)])
    def ok_cond(v):
        def f(x): return TRUE if isinstance(x, Variant) and x.idx == 0 else FALSE
        return lift(f)(v)
    def implies_all_equal(c, k, ln):
        """c excludes the existence of a track whose length differs from the first"""
        ex = core_exists(k, lambda i: b_not(core.eq(ln(i), ln(N(0)))))
        return restrict(c, ex) is FALSE or never(restrict(c, ex), ex) or excl(c, k, ln)
    def excl(c, k, ln):
        ats = [x.q for x in conds_of(c) if x.kind == 'b' and x.q.kind == 'exists']
        for a in ats:
            t = b_atom(a)
            if restrict(c, t) is not FALSE: continue
            # the test itself must be true of every differing track
            K, lam = a.args[0], a.args[1]
            if not agree(leaf(K) if isinstance(K, Rat) else K, k) : continue
            i = iv('i', 0)
            body = core.lam_app(lam, i)
            d = b_not(core.eq(ln(i), ln(N(0))))
            if b_and(d, b_not(body)) is FALSE or never(b_not(body), d): return True
        return False
    def core_exists(k, f):
        import loops
        i = fresh('i', 'int', 0)
        return loops.exists(k, f(num(i)), i)
    def many():
        for b, lim in ((8, 65535), (16, 32767), (24, 21845)):
            k = iv('k', lim + 1)
            if not quiet(code.tf('write', given={0: sym_tracks(k, n), 1: N(b), 3: clip})): return False
            k = iv('k', lim, lim)
        return True
    def prop():
        for b in (8, 16, 24):
            r = code.tf('write', given={0: sym_tracks(iv('k', 1, 2000), n), 1: N(b), 3: clip})
            ws = writes(r)
            if not ws: return False
            ok = ok_cond(r.value)
            allf, done = FALSE, FALSE
            for e in ws:
                bad = b_and(e.pc, failed(e.args[-1]))
                # an encoder error is returned
                if not never(b_and(bad, ok)) or restrict(ok, bad) is not FALSE and not never(restrict(ok, bad), bad): return False
                done = b_or(done, b_and(e.pc, b_not(failed(e.args[-1]))))
            for e in r.events:
                if e.name != 'io::flush': continue
                if not never(ALL(e.pc, failed(e.args[-1]), ok)): return False
                done = b_and(done, b_not(b_and(e.pc, failed(e.args[-1]))))
            # success only after the data was written
            if not never(b_and(ok, b_not(done))): return False
            # success otherwise
            if not is_ok(r.value, done): return False
        return True
    def whole():
        # neither the encoder nor a single write looks at how many bytes the destination took
        for b in (8, 16, 24):
            r = code.tf('write', given={0: sym_tracks(iv('k', 1, 2000), n), 1: N(b), 3: clip})
            ws = writes(r)
            if not ws or others(r) or not all(e.whole for e in ws): return False
        return True
    def nofail():
        for b in (8, 16, 24):
            for kk in (iv('k', 1),):
                r = code.tf('write', given={0: sym_tracks(kk, n), 1: N(b), 3: clip})
                if [o for o in r.oblig if o.cond is not FALSE and not never(o.cond)]: return False
        return True
    def rquiet(x):
        if not x.err: raise Witness('%s: got %s, expected an error' % (x.t, show(x.value)), 'write')
        if x.sent: raise Witness('%s: %s was called before the error was found' % (x.t, x.sent[0][0]), 'write')
    def rnone():
        for b in (8, 16, 24, 32, 0):
            for c in (0, 1): p.points += 1; rquiet(Wav(code, [], b, c))
    def rdepth():
        for b in (0, 1, 4, 7, 9, 12, 15, 17, 20, 23, 25, 32, 64, 65535, 264, 272, 280):
            for c in (0, 1):
                try: x = Wav(code, [[F(0), F(1)]], b, c)
                except Skip: continue
                p.points += 1; rquiet(x)
    def rlen():
        def body(tr, b, c):
            if len({len(t) for t in tr}) < 2: raise Skip('equal')
            rquiet(Wav(code, tr, b, c))
        def g():
            k = parts(p.rng, 6) + 1
            if p.rng.randrange(2):  # one that differs
                n = csize(p.rng, p.rng.randrange(0, 4), 2000); ns = [n] * k
                ns[p.rng.randrange(k)] = max(0, n + p.rng.choice([-2, -1, 1, 2, -n]))
            else: ns = [p.rng.randrange(0, 4) for _ in range(k)]
            return [[F(0)] * x for x in ns], p.rng.choice([8, 16, 24]), p.rng.randrange(2)
        p.point(p.deep(60, 300), g, body)
    def rmany():
        for b, lim in ((8, 65535), (16, 32767), (24, 21845)):
            for x in (1, 2, lim // 3, lim + 1):
                try: w = Wav(code, [[]] * (lim + x), b, 0)
                except Skip: continue
                p.points += 1; rquiet(w)
    def rprop():
        def body(tr, b, c):
            x = Wav(code, tr, b, c, fail=True)
            if not x.err: raise Witness('%s: got %s, expected the encoder\'s error' % (x.t, show(x.value)), 'write')
            x = Wav(code, tr, b, c)
            if x.err: raise Witness('%s: error for valid input' % x.t, 'write')
            if x.flushed and not Wav(code, tr, b, c, fail='io_flush').err: raise Witness('%s: the destination fails to flush and success is returned' % x.t, 'write')
            if not x.sent: raise Witness('%s: success without writing' % x.t, 'write')
        p.point(p.deep(40, 200), lambda: (gtracks(p.rng), p.rng.choice([8, 16, 24]), p.rng.randrange(2)), body)
        for tr in ltracks(p, 'write'):
            for b in (8, 16, 24): p.points += 1; body(tr, b, 1)
    p.ob('no track: error, nothing sent', 'write', none, rnone)
    p.ob('other bit depths: error, nothing sent', 'write', depth, rdepth)
    p.ob('differing lengths: error, nothing sent', 'write', lengths, rlen)
    p.ob('more tracks than the header can state: error, nothing sent', 'write', many, rmany)
    p.ob('encoder errors are returned, success only after writing', 'write', prop, rprop)
    def rwhole():
        def body(tr, b, c):
            x = Wav(code, tr, b, c, short=True)
            if x.direct and not x.err: raise Witness('%s: the encoder drops what the destination does not take at once; a destination that takes a few bytes at a time gets a broken file, and success is returned' % x.t, 'write')
            if x.lost and not x.err: raise Witness('%s: the destination takes 1 of %d bytes and success is returned' % (x.t, x.lost), 'write')
        p.point(p.deep(20, 100), lambda: (gtracks(p.rng), p.rng.choice([8, 16, 24]), p.rng.randrange(2)), body)
    p.ob('a destination that takes a few bytes at a time still gets them all', 'write', whole, rwhole)
    p.ob('valid input never fails otherwise', 'write', nofail, rprop)

# ---------------------------------------------------------------- C35
def C35(p):
    code = p.code
    k, n = iv('k', 1, 2000), iv('n', 1)
    for bps, w in BITS.items():
        def arg(clip, bps=bps):
            r = code.tf('write', given={0: sym_tracks(k, n), 1: N(bps), 3: clip})
            e = writes(r)
            if len(e) != 1: raise NoLayout('one write')
            return e[0].args[1].v.f[0]
        t = iv('t', 0)
        f = core.floor(t / k)
        s = tsample(t - k * f, f)
        def clipped(arg=arg, w=w):
            q = core.seq_at(arg(TRUE), t)
            pc = lt(t, k * n)
            lim = ite(gt(s, N(1)), N(1), ite(lt(s, N(-1)), N(-1), s))
            return agree(core.seq_len(arg(TRUE)), k * n) and agree(restrict(q, pc), code.ret('to_' + w, lim), pc)
        def plain(arg=arg, w=w):
            pc = lt(t, k * n)
            return agree(core.seq_len(arg(FALSE)), k * n) and agree(restrict(core.seq_at(arg(FALSE), t), pc), code.ret('to_' + w, s), pc)
        def ref(clip, bps=bps, w=w):
            def body(tr):
                x = Wav(code, tr, bps, clip)
                ws = [a for m, a in x.sent if m == 'wav::write_wav']
                if len(ws) != 1 or len(ws[0][1].f[0]) != len(tr) * len(tr[0]): raise Witness('%s: not every sample was written' % x.t, 'write')
                for i, got in enumerate(ws[0][1].f[0]):
                    v = tr[i % len(tr)][i // len(tr)]
                    e = min(max(v, F(-1)), F(1)) if clip else v
                    if got != callv(code, 'to_' + w, e): raise Witness('%s: sample %s of track %d is stored as %s, expected the conversion of %s' % (x.t, show(v), i % len(tr), show(got), show(e)), 'write')
            p.point(p.deep(40, 300), lambda: (gtracks(p.rng),), body)
        def formed(bps=bps, w=w):
            # in single precision: the stored value is the conversion of the clipped or untouched sample
            pc = lt(t, k * n)
            for clip in (TRUE, FALSE):
                e = writes(code.tf('write', 'fp', given={0: sym_tracks(k, n), 1: N(bps), 3: clip}))
                if len(e) != 1: return False
                q = restrict(core.seq_at(e[0].args[1].v.f[0], t), pc)
                over, under = [b_atom(core.atom('fcmp', ('Lt',) + tuple(x.v if isinstance(x, Leaf) else x for x in z), 'bool')) for z in ((N(1), s), (s, N(-1)))]
                want = ite(over, N(1), ite(under, N(-1), s)) if clip is TRUE else s
                if not agree(q, restrict(code.ret('to_' + w, want, mode='fp'), pc), pc): return False
            return True
        def odd(bps=bps, w=w):
            def body(tr, clip):
                x = Wav(code, tr, bps, clip, mode='fp')
                ws = [a for m, a in x.sent if m == 'wav::write_wav']
                if len(ws) != 1 or len(ws[0][1].f[0]) != len(tr) * len(tr[0]): raise Witness('%s: not every sample was written' % x.t, 'write')
                for i, got in enumerate(ws[0][1].f[0]):
                    v = tr[i % len(tr)][i // len(tr)]
                    e = v if not clip or v != v else 1.0 if v > 1 else -1.0 if v < -1 else v
                    if got != callv(code, 'to_' + w, e, mode='fp'): raise Witness('%s: sample %r of track %d is stored as %s, expected the conversion of %r' % (x.t, v, i % len(tr), show(got), e), 'write')
            one = lambda: p.rng.choice([float('nan'), float('inf'), -float('inf'), 0.5, -0.5, 1.0, -1.0, 1.5, -1.5, 1 + 2.0 ** -23, 1e38, -0.0, 0.25])
            p.point(p.deep(20, 100), lambda: ((lambda k, n: [[one() for _ in range(n)] for _ in range(k)])(p.rng.randrange(1, 4), p.rng.randrange(1, 6)), p.rng.randrange(2)), body)
        p.ob('%d bits: infinite and undefined samples too' % bps, 'write', formed, odd)
        p.ob('%d bits: clipping limits exactly the samples out of range' % bps, 'write', clipped, lambda ref=ref: ref(1))
        p.ob('%d bits: without clipping samples are unaltered' % bps, 'write', plain, lambda ref=ref: ref(0))

# ---------------------------------------------------------------- C36
class Reader: pass
def reader(code):
    """the reader's result as a function of what the decoder returns"""
    r0 = []
    def tf():
        if not r0:
            r = code.tf('read')
            ev = [e for e in r.events if e.name == 'wav::read_wav']
            if len(ev) != 1: raise NoLayout('one decoder call')
            r0.extend([r, ev[0], ev[0].args[-1]])
        return r0
    def okres():
        """payload of a successful decode"""
        r, e, x = tf()
        v = restrict(x, b_not(failed(x)))
        l = [q for q in leaves_of(v)]
        if len(l) != 1: raise NoLayout('decoder result')
        h, bd = l[0].v.f[0].f
        return r, b_not(failed(x)), h, bd
    def variant_cond(bd, d):
        def f(x): return TRUE if x.idx == d else FALSE
        return lift(f)(bd)
    def good(d):
        r, ok, h, bd = okres()
        ch = field_map(code, h)['channel_count']
        pc = ALL(ok, gt(ch, N(0)), variant_cond(bd, d))
        v = restrict(r.value, pc)
        # from here on the channel count is a variable known to be at least one
        ct = ch.v.single()
        if ct is None: raise NoLayout('channel count')
        C = iv('ch', 1, 65535)
        rep = lambda x: loops.replace_atom(x, ct, C)
        return rep(pc), rep(h), C, rep(v), rep(restrict(bd, pc))
    def payload(v):
        """struct of an Ok diagram"""
        ls = list({l for l in leaves_of(v)})
        if not ls or not all(isinstance(l.v, Variant) and l.v.idx == 0 for l in ls): raise NoLayout('not a success')
        return core.dmap(v, lambda l: l.v.f[0].f[0] if isinstance(l.v.f[0].f[0], (Leaf, Node)) else l.v.f[0].f[0]), core.dmap(v, lambda l: l.v.f[0].f[1])
    def tracks(d, w):
        pc, h, ch, v, bd = good(d)
        tr = core.dmap(v, lambda l: l.v.f[0].f[1])
        c = iv('c', 0)
        pcc = b_and(pc, lt(c, ch))
        if not agree(restrict(core.seq_len(tr), pc), restrict(ch, pc), pc): return 'track count'
        t = restrict(core.seq_at(tr, c), pcc)
        if d == 3: return agree(restrict(core.seq_len(t), pcc), N(0), pcc)
        data = bd.v.f[0]
        ln = core.seq_len(data)
        q = iv('q', 0)
        # element q of track c is value c + q*channels, for as long as that exists
        cnt = core.seq_len(t)
        pcq = ALL(pcc, lt(c + q * ch, ln))
        got = restrict(core.seq_at(t, q), pcq)
        want = restrict(code.ret('from_' + w, core.seq_at(data, c + q * ch)), pcq)
        if not agree(got, want, pcq): return 'element'
        want_n = ite(gt(ln, c), core.floor((ln - c + ch - 1) / ch), N(0))
        return agree(restrict(cnt, pcc), restrict(want_n, pcc), pcc) or 'length'
    def run(res):
        r = tf()[0]
        hooks = {'ext': lambda ev, a, *g: res if g[0] == 'wav_read' else None}
        ev = Eval({'a0': ('tok', 'src')}, hooks, 2000000)
        code.evals += 1
        t = 'read_wav of a stream decoding to %s' % show(res)
        for o in r.oblig:
            if o.cond is not FALSE and code.obl_true(ev, o.cond): raise Witness('%s fails: %s' % (t, Panic(o).msg), 'read')
        return t, ev.val(r.value)
    R = Reader()
    R.tf, R.okres, R.good, R.payload, R.tracks, R.run, R.variant_cond = tf, okres, good, payload, tracks, run, variant_cond
    return R
def C36(p):
    code = p.code
    R = reader(code)
    tf, okres, good, payload, tracks, run = R.tf, R.okres, R.good, R.payload, R.tracks, R.run
    def once():
        r, e, x = tf()
        return holds(e.pc) and not others(r)
    def err():
        r, e, x = tf()
        return is_err(r.value, failed(x))
    def nochan():
        r, ok, h, bd = okres()
        return is_err(r.value, b_and(ok, core.eq(field_map(code, h)['channel_count'], N(0))))
    def hdr():
        for d in range(4):
            pc, h, ch, v, bd = good(d)
            for l in leaves_of(v):
                if not (isinstance(l.v, Variant) and l.v.idx == 0): return False
                if not (l.v.f[0].f[0] is h or agree(l.v.f[0].f[0], h, pc)): return False
        return True
    # concrete
    def mkhdr(ch, bits, rng):
        i, T = type_of(code, 'wav::Header')
        vals = {'audio_format': 1, 'channel_count': ch, 'sampling_rate': rng.choice([44100, 48000, 8000]), 'bytes_per_second': rng.randrange(10 ** 6), 'bytes_per_sample': rng.randrange(100), 'bits_per_sample': bits}
        return S('wav::Header', [F(vals[f[0]]) for f in T['variants'][0]['f']])
    def ref():
        def body(ch, d, n):
            w = {0: 'u8', 1: 'i16', 2: 'i24', 3: None}[d]
            data = [F(p.rng.randrange(W[w][3], W[w][4] + 1)) for _ in range(n)] if w else []
            h = mkhdr(ch, {0: 8, 1: 16, 2: 24, 3: 0}[d], p.rng)
            t, v = run(V(0, [S('tuple', [h, V(d, [data] if w else [])])]))
            if not isinstance(v, V): raise Skip('value')
            if ch == 0:
                if v.idx != 1: raise Witness('%s: got %s, expected an error' % (t, show(v)), 'read')
                return
            if v.idx != 0: raise Witness('%s: got an error' % t, 'read')
            h2, tr = v.f[0].f
            if h2.f != h.f: raise Witness('%s: header returned as %s' % (t, show(h2)), 'read')
            want = [[callv(code, 'from_' + w, data[i]) for i in range(c, n, ch)] for c in range(ch)] if w else [[] for _ in range(ch)]
            expect(tr, want, t, anchor='read', rel=Fr(1, 10 ** 9))
        p.point(p.deep(80, 400), lambda: (p.rng.choice([0, 1, 1, 2, 2, 3, 5, 8, parts(p.rng, 6)]), p.rng.randrange(4), csize(p.rng, p.rng.randrange(0, 13), 2000)), body)
        for z in long_sizes(p, 'read', 5000)[2::3]:
            for w in range(4): p.points += 1; body(3, w, z + 4)
        for z in sorted(set(long_sizes(p, 'read', 1000)) | {256, 257}):
            for w in range(3): p.points += 1; body(z, w, z + 3)
        t, v = run(V(1, [('tok', 'error')]))
        if not (isinstance(v, V) and v.idx == 1): raise Witness('%s: got %s, expected the error' % (t, show(v)), 'read')
    def nofail():
        r = tf()[0]
        return not [o for o in r.oblig if o.cond is not FALSE and not never(o.cond)]
    p.ob('the decoder runs once', 'read', once, ref)
    p.ob('decoder errors are returned', 'read', err, ref)
    p.ob('a header without channels is an error', 'read', nochan, ref)
    p.ob('the header is returned unchanged', 'read', hdr, ref)
    for d, w in ((0, 'u8'), (1, 'i16'), (2, 'i24'), (3, None)):
        p.ob('%s data: each channel in order' % (w or 'empty'), 'read', lambda d=d, w=w: tracks(d, w), ref)
    p.ob('reading never fails otherwise', 'read', nofail, ref)

# ---------------------------------------------------------------- C53
def C53(p):
    p.rule = 'element c + f*channels of what write_wav sends == to(track[c][f]) with channels*frames elements; element f of track c of what read_wav returns == from(data[c + f*channels]), as many as there are; |from(to(s)) - s| <= one step for s in [-1,1]; the header sent states the channels'
    code = p.code
    R = reader(code)
    for bps, w in BITS.items():
        _, zero, scale, lo, hi = W[w]
        k, n = iv('k', 1, 2000), iv('n', 1)
        def sent(bps=bps, clip=FALSE, n=n):
            r = code.tf('write', given={0: sym_tracks(k, n), 1: N(bps), 3: clip})
            ws = [e for e in writes(r) if e.pc is not FALSE and not never(e.pc)]
            need_(len(ws) == 1 and holds(ws[0].pc), 'encoded once')
            return ws[0]
        def stored(bps=bps, w=w):
            for clip in (FALSE, TRUE):
                e = sent(bps, clip)
                d = e.args[1]
                if not (isinstance(d, Leaf) and isinstance(d.v, Variant) and d.v.idx == DEPTH[bps]): return 'depth'
                if not agree(field_map(code, e.args[0])['channel_count'], k): return 'channels'
                q = d.v.f[0]
                if not agree(core.seq_len(q), k * n): return 'length'
                c, f = iv('c', 0), iv('f', 0)
                t = iv('t', 0); pc = lt(t, k * n)
                fl = core.floor(t / k)
                got, x = restrict(core.seq_at(q, t), pc), tsample(t - k * fl, fl)
                inr = ALL(pc, le(x, N(1)), ge(x, N(-1)))
                if not agree(restrict(got, inr), restrict(code.ret('to_' + w, x), inr), inr): return 'element'
            return True
        def back(w=w, bps=bps): return R.tracks(DEPTH[bps], w)
        def step(w=w, scale=scale, zero=zero, lo=lo, hi=hi):
            s = rv('s')
            pc = ALL(le(s, N(1)), ge(s, N(-1)))
            y = restrict(code.ret('to_' + w, s), pc)
            v = iv('v_' + w, lo, hi)
            if not agree(code.ret('from_' + w, v), (v - zero) / scale): return 'reading'
            if not (holds(ge(y, N(lo)), pc) and holds(le(y, N(hi)), pc)): return 'range'
            e = restrict((y - zero) / scale - s, pc)
            return holds(le(e, N(Fr(1, scale))), pc) and holds(ge(e, N(Fr(-1, scale))), pc)
        def rate(bps=bps): return agree(field_map(code, sent(bps).args[0])['sampling_rate'], N(48000))
        def header():
            r, ok, h, bd = R.okres()
            for d in range(4):
                pc, h, ch, v, bd = R.good(d)
                for l in leaves_of(v):
                    if not (isinstance(l.v, Variant) and l.v.idx == 0 and (l.v.f[0].f[0] is h or agree(l.v.f[0].f[0], h, pc))): return False
            return True
        def ref(bps=bps, w=w, scale=scale):
            def body(tr, clip):
                tr = [[min(max(s, F(-1)), F(1)) for s in t] for t in tr]
                x = Wav(code, tr, bps, clip)
                ws = [a for n_, a in x.sent if n_ == 'wav::write_wav']
                if x.err or not ws: raise Witness('%s: nothing to read back' % x.t, 'write')
                h, d = ws[-1][0], ws[-1][1]
                _, v = R.run(V(0, [S('tuple', [h, d])]))
                if not isinstance(v, V): raise Skip('value')
                if v.idx: raise Witness('%s: reading it back is an error' % x.t, 'read')
                h2, got = v.f[0].f
                if hfield(code, h2)['sampling_rate'] != 48000: raise Witness('%s: read back at %s Hz' % (x.t, show(hfield(code, h2)['sampling_rate'])), 'write')
                if [len(t) for t in got] != [len(t) for t in tr]: raise Witness('%s: read back as tracks of %s samples' % (x.t, [len(t) for t in got][:12]), 'read')
                for c in range(len(tr)):
                    for f in range(len(tr[c])):
                        if abs(got[c][f] - tr[c][f]) > Fr(10001, 10000 * scale): raise Witness('%s: sample %d of track %d is %s and comes back as %s, more than one step of 1/%d away' % (x.t, f, c, show(tr[c][f]), show(got[c][f]), scale), 'read')
            p.point(p.deep(60, 300), lambda: (gtracks(p.rng), p.rng.randrange(2)), body)
            for root in ('write', 'read'):
                for tr in ltracks(p, root): p.points += 1; body(tr, 0)
        p.ob('%d bits: frame by frame, every sample where the reader looks for it' % bps, 'write', stored, ref)
        p.ob('%d bits: the reader takes each track from there, whole' % bps, 'read', back, ref)
        p.ob('%d bits: a sample moves by at most one step' % bps, 'from_' + w, step, ref)
        p.ob('%d bits: the rate comes back' % bps, 'write', rate, ref)
    p.ob('the header comes back', 'read', header, ref)
def need_(c, what):
    if not c: raise NoLayout(what)

# ---------------------------------------------------------------- C37
def C37(p):
    code = p.code
    n = iv('n', 0)
    ln10 = num(atom('ln10', ()))
    def s2t(): return agree(code.ret('u_samples_to_seconds', n), n / 48000)
    def t2s():
        i = iv('ns', 0); d = i / 10 ** 9
        y = d * 48000
        r = code.ret('u_seconds_to_samples', d)
        return holds(le(r - y, N(Fr(1, 2)))) and holds(ge(r - y, N(Fr(-1, 2)))) and all(core.is_int(l.v) for l in leaves_of(r))
    def trip():
        # a duration holds whole nanoseconds: any value within a nanosecond of n/48000
        e = rv('e', Fr(-1, 10 ** 9), Fr(1, 10 ** 9))
        r = code.ret('u_seconds_to_samples', n / 48000 + e)
        return holds(ge(r, n)) and holds(le(r, n))
    def db(): 
        g = rv('g', Fr(1, 10 ** 9)); return agree(code.ret('u_linear_to_db', g), 20 * core.ln(g) / ln10)
    def lin(): d = rv('d'); return agree(code.ret('u_db_to_linear', d), core.exp(d * ln10 / 20))
    def inv():
        d = rv('d'); return agree(code.ret('u_linear_to_db', code.ret('u_db_to_linear', d)), d)
    def inv2():
        g = rv('g', Fr(1, 10 ** 9)); return agree(code.ret('u_db_to_linear', code.ret('u_linear_to_db', g)), g)
    def rs2t():
        for x in [0, 1, 2, 3, 47999, 48000, 48001, 96000, 10 ** 6, 123456789] + [p.rng.randrange(10 ** 7) for _ in range(50)] + [p.rng.randrange(1 << p.rng.randrange(24, 38)) for _ in range(20)]:
            p.points += 1
            expect(callv(code, 'u_samples_to_seconds', F(x)), Fr(x, 48000), 'samples_to_seconds(%d)' % x, rel=0, ab=Fr(2, 10 ** 9), anchor='u_samples_to_seconds')
    def rt2s():
        def body(d):
            r = callv(code, 'u_seconds_to_samples', d)
            if abs(r - d * 48000) > Fr(1, 2) + Fr(1, 10 ** 6): raise Witness('seconds_to_samples(%s s) = %s, exact value %s' % (show(d), show(r), float(d * 48000)), 'u_seconds_to_samples')
        p.point(p.deep(150, 1000), lambda: (Fr(p.rng.randrange(10 ** p.rng.randrange(3, 12)), 10 ** 9),), body)
        for x in [0, 1, 2, 3, 7, 47999, 48000, 48001, 96000, 10 ** 6, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 10 ** 11 + 7, 10 ** 13 + 1] + [p.rng.randrange(10 ** 7) for _ in range(80)] + [p.rng.randrange(1 << p.rng.randrange(24, 46)) for _ in range(40)]:
            ns = (x * 10 ** 9 + 24000) // 48000
            for d in (ns - 1, ns, ns + 1):
                if d < 0: continue
                p.points += 1
                r = callv(code, 'u_seconds_to_samples', Fr(d, 10 ** 9))
                if r != x: raise Witness('seconds_to_samples(%d ns) = %s, %d samples last that long' % (d, show(r), x), 'u_seconds_to_samples')
    def rdb():
        def body(g):
            d = callv(code, 'u_linear_to_db', g)
            expect(d, 20 * evaluate.trans('ln', g) / LN10_(), 'linear_to_db(%s)' % show(g), anchor='u_linear_to_db')
            expect(callv(code, 'u_db_to_linear', d), g, 'db_to_linear(linear_to_db(%s))' % show(g), anchor='u_db_to_linear')
        p.point(p.deep(60, 400), lambda: (fv(p.rng, lambda: Fr(p.rng.randrange(1, 1000), 1000) * F(10) ** p.rng.randrange(-9, 7), Fr(1, 10 ** 12), 10 ** 6),), body)
        def body2(d):
            g = callv(code, 'u_db_to_linear', d)
            expect(g, evaluate.trans('exp', d * LN10_() / 20), 'db_to_linear(%s)' % show(d), anchor='u_db_to_linear')
        p.point(p.deep(60, 400), lambda: (fv(p.rng, lambda: Fr(p.rng.randrange(-1600, 1000), 8), -200, 200),), body2)
    def rdouble():
        import math
        for _ in range(p.deep(20, 200)):
            p.points += 1
            d = float(p.rng.randrange(-1600, 1000)) / 8 + .1; g = 10.0 ** (p.rng.randrange(-90, 70) / 10)
            if p.rng.random() < .3: d /= 1000; g = 1 + g / 10 ** 9
            expect(exactly(callv(code, 'u_db_to_linear', d, mode='fp')), Fr(10.0 ** (d / 20)), 'db_to_linear(%r) in double precision' % d, rel=Fr(1, 10 ** 11), anchor='u_db_to_linear')
            expect(exactly(callv(code, 'u_linear_to_db', g, mode='fp')), Fr(20 * math.log10(g)), 'linear_to_db(%r) in double precision' % g, rel=Fr(1, 10 ** 10), ab=Fr(1, 10 ** 13), anchor='u_linear_to_db')
    p.ob('samples to seconds', 'u_samples_to_seconds', s2t, rs2t)
    p.ob('seconds to samples, to nearest', 'u_seconds_to_samples', t2s, rt2s)
    p.ob('sample counts survive the round trip', 'u_seconds_to_samples', trip, lambda: (rs2t(), rt2s()))
    p.ob('gain to decibels', 'u_linear_to_db', db, lambda: (rdb(), rdouble()))
    p.ob('decibels to gain', 'u_db_to_linear', lin, lambda: (rdb(), rdouble()))
    p.ob('decibels back to decibels', 'u_linear_to_db', inv, rdb)
    p.ob('gain back to gain', 'u_db_to_linear', inv2, rdb)
    for e, nm in (('u_db_to_linear', 'decibels to gain'), ('u_linear_to_db', 'gain to decibels'), ('u_samples_to_seconds', 'samples to seconds'), ('u_seconds_to_samples', 'seconds to samples')):
        p.ob(nm + ' in double precision throughout', e, lambda e=e: not p_mod.single(code.tf(e, 'fp').value), rdouble if 'db' in e else lambda: (rs2t(), rt2s()))
    p.ob('no failure', 'u_samples_to_seconds', lambda: not any(code.safe(x) for x in ('u_samples_to_seconds', 'u_seconds_to_samples', 'u_linear_to_db', 'u_db_to_linear')), None)
def exactly(x): return Fr(x) if isinstance(x, float) and x == x and abs(x) != float('inf') else x
def LN10_():
    import mpmath
    return evaluate.frommp(mpmath.log(10))

# ---------------------------------------------------------------- C38
def atoms_of(v):
    """every atom reachable in a value"""
    seen, out, st = set(), [], [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if isinstance(x, core.Atom):
            if x.id in seen: continue
            seen.add(x.id); out.append(x); st.extend(x.args); continue
        if isinstance(x, Poly): st.extend(core._atom_by_id[a] for m in x.t for a, _ in m); continue
        if isinstance(x, Rat): st.extend((x.n, x.d)); continue
        if isinstance(x, core.Lam): st.append(x.body); continue
        if isinstance(x, Variant): st.extend(x.f); continue
        if isinstance(x, SeqV):
            for q in x.p: st.extend(q[1:])
            continue
        if isinstance(x, (Struct, Node, Leaf)):
            if ('v', x.id) in seen: continue
            seen.add(('v', x.id))
            if isinstance(x, Struct): st.extend(x.f)
            elif isinstance(x, Leaf): st.append(x.v)
            else:
                st.append(x.c.q); st.append(x.hi); st.append(x.lo)
    return out
def one_acc(a, n):
    """(initial value, step as a function of accumulator and index) of a single fold over n elements"""
    j, cnt, inits, lam, d = a.args
    if not agree(leaf(cnt), n): return None
    acc = [x for x in core.vars_named('acc%d_%d' % (d, j))]
    def step(A, i):
        b = core.lam_app(lam, i).f[j]
        ids = {x.id: A for x in acc if x.id in b.fv}
        b = subst(b, ids) if ids else b
        if any(str(core._atom_by_id[z].args[0]).startswith('acc') for z in b.fv): raise NoLayout('entangled accumulators')
        return b
    return inits.f[j], step
def C38(p):
    code = p.code
    n = iv('n', 1)
    D = rv('db')
    ln10 = num(atom('ln10', ()))
    xa = lambda i: num(atom('at', (var('t', 'obj'), rr(i)), 'real'))
    def tf(mode='real'): return code.tf('u_normalize', mode, given={0: D, 1: f32seq('t', n)})
    i = iv('i', 0)
    pc = lt(i, n)
    X, M = rv('X'), rv('M', 0)
    def element(mode='real'):
        return restrict(core.seq_at(tf(mode).post[1], i), pc)
    q = iv('q', 0)
    mean = loops.vsum(n, var('q', 'int', 0), xa(q)) / n
    def form():
        """one element in terms of its input X and the largest magnitude M"""
        e = element()
        for a in atoms_of(e):
            if a.kind != 'fold': continue
            s = one_acc(a, n)
            if s is None: continue
            init, step = s
            A = rv('A', 0)
            if not agree(init, N(0)): continue
            qq = lt(q, n)
            if agree(restrict(step(A, q), qq), restrict(vmax(A, core.vabs(xa(q) - mean)), qq), qq): e = loops.replace_atom(e, a, M)
        e = restrict(loops.replace_atom(e, xa(i).v.single(), X), pc)
        if any(a.kind == 'fold' for a in atoms_of(e)): raise NoLayout('the largest magnitude is computed in an unknown way')
        return e
    def length(): return agree(core.seq_len(tf().post[1]), n)
    def scaled():
        h = gt(M, N(0))
        return agree(restrict(form(), h), (X - mean) * core.exp(D * ln10 / 20) / M, b_and(pc, h))
    def silent():
        e = subst(form(), {M.v.single().id: N(0), X.v.single().id: mean})
        return agree(e, N(0), pc)
    def nofail(): return not code.safe('u_normalize')
    # a constant track, in floating point: the sum of f32 values in an f64 accumulator is exact
    # (for fewer than 2^29 of them), so is its quotient by their number, and the mean is the constant
    def const():
        e = element('fp')
        t = rv('t', None, None)
        C = rv('C')
        def sub_fp(v):
            """x - x and operations on zeros"""
            for _ in range(8):
                was = v
                for a in atoms_of(v):
                    ks = [single0(x) for x in a.args[2:]] if a.kind == 'fp' else [single0(x) for x in a.args[1:]] if a.kind == 'fcmp' else None
                    if not ks: continue
                    if a.kind == 'fp':
                        op = str(a.args[0])
                        if op == 'Sub' and a.args[2] is a.args[3] or op in ('abs', 'Mul', 'Add', 'Sub', 'max', 'min') and all(k == 0 for k in ks): v = loops.replace_atom(v, a, N(0))
                    elif all(k == 0 for k in ks): v = loops.replace_atom(v, a, TRUE if str(a.args[0]) in ('Le', 'Ge', 'Eq') else FALSE)
                if v is was: break
            return v
        def single0(x):
            if isinstance(x, Leaf): x = x.v
            return x.const() if isinstance(x, Rat) else None
        for a in atoms_of(e):
            if a.kind != 'f64to32': continue
            b = single(a.args[0])
            if b is None or b.kind != 'fp' or str(b.args[0]) != 'Div' or b.args[1] not in (64, N(64)): continue
            s, c = single(b.args[2]), single(b.args[3])
            if s is None or s.kind != 'fold' or c is None or c.kind != 'i2f' or not agree(c.args[0] if not isinstance(c.args[0], Rat) else leaf(c.args[0]), n): continue
            o = one_acc(s, n)
            if o is None or not agree(o[0], N(0)): continue
            A = rv('A')
            st = restrict(o[1](A, q), lt(q, n))
            z = single(st)
            if z is None or z.kind != 'fp' or str(z.args[0]) != 'Add': continue
            ops = [single(y) for y in z.args[2:]]
            at = xa(q).v.single()
            if not any(y is A.v.single() for y in ops) or not any(y is not None and y.kind == 'f32to64' and single(y.args[0]) is at for y in ops): continue
            e = loops.replace_atom(e, a, C)
        e = loops.replace_atom(e, xa(i).v.single(), C)
        for _ in range(3):
            e = sub_fp(e)
            for a in atoms_of(e):
                if a.kind != 'fold': continue
                o = one_acc(a, n)
                if o is None: continue
                init, step = o
                v = restrict(step(init, q), lt(q, n))
                v = sub_fp(loops.replace_atom(v, xa(q).v.single(), C))
                if agree(v, init): e = loops.replace_atom(e, a, init)
        return agree(restrict(e, pc), N(0), pc)
    def single(v):
        if isinstance(v, Leaf): v = v.v
        return v.single() if isinstance(v, Rat) else None
    def gen():
        k = csize(p.rng, p.rng.randrange(1, 9), 2000)
        q = p.rng.choice([Fr(1, 10 ** 3), Fr(1, 10 ** 6), Fr(1, 10 ** 9), F(1000)] + [abs(c) * e for c in p.rng.dictionary() for e in (Fr(1, 2), 2)]) if p.rng.random() < .3 else 1
        return [q * fv(p.rng, lambda: Fr(p.rng.randrange(-1000, 1001), p.rng.choice([1, 8, 1000]))) for _ in range(k)], fv(p.rng, lambda: Fr(p.rng.randrange(-400, 100), 10), -200, 100)
    def run(db, t, mode='real'):
        o = code.call('u_normalize', db, [x for x in t], mode=mode)
        T = 'normalize(%s, %s)' % (show(db), show(t))
        if o.panic: raise Witness('%s fails: %s' % (T, o.panic.msg), 'u_normalize')
        r = o.post[1]
        if not isinstance(r, list) or len(r) != len(t): raise Witness('%s: %d samples became %s' % (T, len(t), show(r)), 'u_normalize')
        return T, r
    def ref():
        import mpmath
        def body(t, db):
            T, r = run(db, t)
            m = sum(t) / len(t); M_ = max(abs(x - m) for x in t)
            g = evaluate.trans('exp', db * LN10_() / 20) / M_ if M_ else 0
            expect(r, [(x - m) * g for x in t], T, anchor='u_normalize')
        p.point(p.deep(100, 600), gen, body)
        for z in [z for z in long_sizes(p, 'u_normalize', 66000) if z > 1990][2::3][:2]:
            p.point(1, lambda: ([F(1), Fr(-1, 4)] + [Fr(1, 2)] * (z + z // 16), F(-3)), body)
        for k in range(0, 6):
            for c in (F(0), Fr(1, 2), F(-1)):
                p.points += 1
                T, r = run(F(-3), [c] * k)
                if any(x != 0 for x in r): raise Witness('%s: constant track became %s' % (T, show(r)), 'u_normalize')
    def rconst():
        for k in list(range(1, 14)) + [30, 100]:
            for c in (F(0), Fr(1, 2), Fr(13421773, 134217728), Fr(11184811, 16777216), Fr(-9395241, 134217728)):
                p.points += 1
                T, r = run(F(-3), [c] * k, 'fp')
                if any(isinstance(x, evaluate.Special) or x != 0 for x in r) if hasattr(evaluate, 'Special') else any(x != 0 for x in r): raise Witness('%s in floating point: constant track became %s' % (T, show(r[:3])), 'u_normalize')
    p.ob('the length is kept', 'u_normalize', length, ref)
    p.ob('mean removed, one factor, largest magnitude at the level', 'u_normalize', scaled, ref)
    p.ob('no magnitude: silence', 'u_normalize', silent, ref)
    p.ob('a constant track is silenced in floating point', 'u_normalize', const, rconst)
    p.ob('no failure', 'u_normalize', nofail, ref)

# ---------------------------------------------------------------- C39
def C39(p):
    code = p.code
    x, a, b, c, d = [rv(n) for n in ('x', 'x1', 'x2', 'y1', 'y2')]
    for t in ('f64', 'f32'):
        L, C = 'lerp_' + t, 'clerp_' + t
        line = c + (d - c) / (b - a) * (x - a)
        def straight(L=L): return agree(code.ret(L, x, a, b, c, d), line)
        def ends(L=L): return agree(code.ret(L, a, a, b, c, d), c) and agree(code.ret(L, b, a, b, c, d), d)
        def inside(C=C):
            for pc in (ALL(ge(x, a), le(x, b), lt(a, b)), ALL(ge(x, b), le(x, a), lt(b, a))):
                if not agree(code.ret(C, x, a, b, c, d, pc=pc), line, pc): return False
            return True
        def outside(C=C):
            for pc, e in ((ALL(lt(x, a), lt(a, b)), c), (ALL(gt(x, b), lt(a, b)), d), (ALL(lt(x, b), lt(b, a)), d), (ALL(gt(x, a), lt(b, a)), c)):
                if not agree(code.ret(C, x, a, b, c, d, pc=pc), e, pc): return False
            return True
        def gen():
            g = lambda: fv(p.rng, lambda: Fr(p.rng.randrange(-400, 401), p.rng.choice([1, 4, 16])))
            u, v = g(), g()
            if u == v: v += 1
            k = p.rng.randrange(6)
            w = u if k == 0 else v if k == 1 else (u + v) / 2 if k == 2 else min(u, v) - abs(g()) if k == 3 else max(u, v) + abs(g()) if k == 4 else u + (v - u) * Fr(p.rng.randrange(0, 9), 8)
            return w, u, v, g(), g()
        def rl(L=L):
            p.point(p.deep(80, 600), gen, lambda x, a, b, c, d: expect(callv(code, L, x, a, b, c, d), c + (d - c) / (b - a) * (x - a), '%s(%s)' % (L, ', '.join(map(show, (x, a, b, c, d)))), anchor=L))
        def rc(C=C):
            def body(x, a, b, c, d):
                z = min(max(x, min(a, b)), max(a, b))
                expect(callv(code, C, x, a, b, c, d), c + (d - c) / (b - a) * (z - a), '%s(%s)' % (C, ', '.join(map(show, (x, a, b, c, d)))), anchor=C)
            p.point(p.deep(80, 600), gen, body)
        p.ob('%s: straight line' % t, L, straight, rl)
        p.ob('%s: through both points' % t, L, ends, rl)
        p.ob('%s: clamped form inside the interval' % t, C, inside, rc)
        p.ob('%s: clamped form outside the interval' % t, C, outside, rc)
        p.ob('%s: no failure' % t, C, lambda L=L, C=C: not code.safe(L) and not code.safe(C), rc)

# ---------------------------------------------------------------- C42
VR = 'bae_rs::debug::VecReader'
def C42(p):
    code = p.code
    ln, m = iv('n', 0), iv('m', 0)
    byte = lambda b, i: num(atom('at', (b, i), 'int', 0, 255))
    vec, buf = seqvar('bytes', ln, byte), seqvar('buf', m, byte)
    pos = iv('pos', 0)
    PC = le(pos, ln)
    def st(q): return build(code, VR, {'vec': vec, 'pos': q})
    def left(): return ite(lt(ln - pos, m), ln - pos, m)
    def tf(): return code.tf('vecreader_read', given={0: st(pos), 1: buf}, pc=PC)
    def new():
        return same(code.ret('vecreader_new', vec), st(N(0)))
    def cnt():
        v = restrict(tf().value, PC)
        return is_ok(v) and agree(core.dmap(v, lambda l: l.v.f[0]), left(), PC)
    def adv():
        fm = field_map(code, tf().post[0])
        return same(fm['vec'], vec, PC) and agree(restrict(fm['pos'], PC), pos + left(), PC)
    def copy():
        q = iv('q', 0); b = tf().post[1]
        pc = ALL(PC, lt(q, m))
        got = restrict(core.seq_at(b, q), pc)
        want = ite(lt(q, left()), num(atom('at', (var('bytes', 'obj'), rr(pos + q)), 'int', 0, 255)), num(atom('at', (var('buf', 'obj'), rr(q)), 'int', 0, 255)))
        return agree(restrict(core.seq_len(b), PC), m, PC) and agree(got, restrict(want, pc), pc)
    def inv():
        fm = field_map(code, tf().post[0])
        return holds(le(fm['pos'], ln), PC) and holds(ge(fm['pos'], N(0)), PC)
    def nofail(): return not [o for o in tf().oblig if o.cond is not FALSE and not never(o.cond, PC)]
    def ref():
        def body(n, sizes):
            data = [F(p.rng.randrange(256)) for _ in range(n)]
            o = code.call('vecreader_new', data)
            s, i = o.value, 0
            log = ['VecReader of %s' % show(data)]
            for z in sizes:
                b = [F(p.rng.randrange(256)) for _ in range(z)]
                o = code.call('vecreader_read', s, list(b))
                log.append('read into %s' % show(b))
                if o.panic: raise Witness('%s fails: %s' % ('; '.join(log), o.panic.msg), 'vecreader_read')
                k = min(z, n - i)
                if not (isinstance(o.value, V) and o.value.idx == 0): raise Witness('%s: %s' % ('; '.join(log), show(o.value)), 'vecreader_read')
                if o.value.f[0] != k: raise Witness('%s: count %s, expected %d' % ('; '.join(log), show(o.value.f[0]), k), 'vecreader_read')
                want = data[i:i + k] + b[k:]
                got = o.post[1] if o.post[1] is not None else b
                if got != want: raise Witness('%s: buffer %s, expected %s' % ('; '.join(log), show(got), show(want)), 'vecreader_read')
                if o.post[0] is not None: s = o.post[0]
                i += k
        p.point(p.deep(80, 500), lambda: (p.rng.randrange(0, 12), [p.rng.choice([0, 1, 2, 3, 4, 7, 20]) for _ in range(6)]), body)
        for z in long_sizes(p, 'vecreader_read', 150000):
            p.points += 1
            body(2 * z + 3, [z - 1, 2, z, 1, z + 1])
            body(z, [2 * z])
        for z in (16, 70, 300):
            # what remains fills the buffer exactly, comes one short, one over
            for d in (-1, 0, 1): p.points += 1; body(z + 5, [5, z + d, 3])
    p.ob('a new reader starts at the first byte', 'vecreader_new', new, ref)
    p.ob('returns the count that fits and remains', 'vecreader_read', cnt, ref)
    p.ob('advances by the count', 'vecreader_read', adv, ref)
    p.ob('copies the next bytes and nothing beyond', 'vecreader_read', copy, ref)
    p.ob('position stays within the data', 'vecreader_read', inv, ref)
    p.ob('no failure', 'vecreader_read', nofail, ref)

# ---------------------------------------------------------------- C47
def C47(p):
    p.rule = 'from_source(stream) == from_track(header rate, first channel of read(stream)); from_track(rate, t) == resampler over t at that rate, speed 1, no loop'
    code = p.code
    FS, FT = 'wav_from_source', 'wav_from_track'
    def tf():
        r = code.tf(FS); q = code.tf('read')
        ev = [e for e in r.events if e.name == 'wav::read_wav']
        eq = [e for e in q.events if e.name == 'wav::read_wav']
        if len(ev) != 1 or len(eq) != 1: raise NoLayout('one decoder call')
        return r, q, ev[0], ev[0].args[-1], eq[0].args[-1]
    def ok_(x, ch=None):
        v = restrict(x, b_not(failed(x)))
        l = list(leaves_of(v))
        if len(l) != 1: raise NoLayout('decoder result')
        return l[0].v.f[0].f
    def once():
        r, q, e, x, y = tf()
        return holds(e.pc) and not others(r)
    def ext(a, b, pc, n=0):
        """equal values, sequences compared by length and at an arbitrary place"""
        if isinstance(a, Struct) and isinstance(b, Struct): return len(a.f) == len(b.f) and all(ext(u, v, pc, n) for u, v in zip(a.f, b.f))
        if all(isinstance(l.v, core.SeqV) for z in (a, b) for l in leaves_of(z)):
            la, lb = core.seq_len(a), core.seq_len(b)
            if not agree(restrict(la, pc), restrict(lb, pc), pc): return False
            i = iv('q%d' % n, 0)
            pci = ALL(pc, lt(i, lb))
            return ext(restrict(core.seq_at(a, i), pci), restrict(core.seq_at(b, i), pci), pci, n + 1)
        return agree(restrict(a, pc), restrict(b, pc), pc)
    def plays(d):
        r, q, e, x, y = tf()
        hx, bx = ok_(x)
        v = r.value
        rv_ = restrict(q.value, ALL(b_not(failed(y))))
        hy, by = ok_(y)
        def var(bd): return lift(lambda z: TRUE if z.idx == d else FALSE)(bd)
        if x is not y and not agree(x, y): return 'decoder results differ'
        ch = field_map(code, hx)['channel_count']
        pc = ALL(b_not(failed(x)), gt(ch, N(0)), var(bx))
        ct = ch.v.single()
        C = iv('ch', 1, 65535)
        rep = lambda z: loops.replace_atom(z, ct, C)
        v = rep(restrict(v, pc)); w = rep(restrict(rv_, pc)); pc2 = rep(pc); h = rep(hx)
        ls = list(leaves_of(w))
        if not ls or not all(isinstance(l.v, Variant) and l.v.idx == 0 for l in ls): raise NoLayout('not a success')
        tr = core.dmap(w, lambda l: l.v.f[0].f[1])
        t0 = restrict(core.seq_at(tr, N(0)), pc2)
        n = restrict(core.seq_len(t0), pc2)
        m = core.fresh('m', 'int', 0)
        data = core.seq_comp_v(n, m, build(code, 'bae_rs::sample_format::mono::Mono', {'mono': core.seq_at(t0, num(m))}))
        want = code.ret(FT, field_map(code, h)['sampling_rate'], data)
        return ext(loops.settle(v, pc2), want, pc2)
    def track():
        d = code.sym(code.argtys(FT)[1], 'data'); rate = rv('rate')
        a = code.ret(FT, rate, d)
        b = code.ret('resam_new', d, rate, N(0), N(0))
        return isinstance(a, Struct) and len(a.f) == 1 and ext(a.f[0], b, TRUE)
    def ref():
        r = code.tf(FS)
        def body(ch, d, n, rate):
            w = {0: 'u8', 1: 'i16', 2: 'i24'}[d]
            data = [F(p.rng.randrange(W[w][3], W[w][4] + 1)) for _ in range(n)]
            i, T = type_of(code, 'wav::Header')
            bits = {0: 8, 1: 16, 2: 24}[d]
            vals = {'audio_format': 1, 'channel_count': ch, 'sampling_rate': rate, 'bytes_per_second': rate * ch * bits // 8, 'bytes_per_sample': ch * bits // 8, 'bits_per_sample': bits}
            h = S('wav::Header', [F(vals[f[0]]) for f in T['variants'][0]['f']])
            res = V(0, [S('tuple', [h, V(d, [data])])])
            t = 'a player of a %d-channel %s file at %d Hz holding %s' % (ch, w, rate, show(data))
            hooks = {'ext': lambda ev, a, *g: res if g[0] == 'wav_read' else None}
            ev = Eval({'a0': ('tok', 'src')}, hooks, 2000000); code.evals += 1
            for o in r.oblig:
                if o.cond is not FALSE and code.obl_true(ev, o.cond): raise Witness('%s fails: %s' % (t, Panic(o).msg), FS)
            x = Obj(code, None); x.s = ev.val(r.value); x.hist = [t]
            first = [callv(code, 'from_' + w, data[k]) for k in range(0, n, ch)]
            y = Obj(code, 'resam_new', [S('bae_rs::sample_format::mono::Mono', [s]) for s in first], F(rate), F(0), F(0))
            for k in range(len(first) * 2 + 8):
                expect(x.do('wav_process'), y.do('resam_process'), '%s: sample %d' % (t, k), Fr(1, 10 ** 6), Fr(1, 10 ** 7), FS)
        def gen():
            ch = p.rng.choice([1, 1, 2, 2, 3, 5])
            return ch, p.rng.randrange(3), ch * csize(p.rng, p.rng.randrange(0, 6), 1000), p.rng.choice([44100, 48000, 8000, 24000, 96000, 22050, 11025])
        p.point(p.deep(60, 400), gen, body)
    def reft():
        def body(data, rate):
            x = Obj(code, FT, rate, data)
            y = Obj(code, 'resam_new', data, rate, F(0), F(0))
            for k in range(len(data) * 3 + 8): expect(x.do('wav_process'), y.do('resam_process'), '%s: sample %d' % (x.log(), k), anchor=FT)
        p.point(p.deep(60, 400), lambda: ([S('bae_rs::sample_format::mono::Mono', [rx(p.rng)]) for _ in range(csize(p.rng, p.rng.randrange(0, 8), 1000))], F(p.rng.choice([48000, 44100, 24000, 96000, 8000]))), body)
    p.ob('the stream is decoded once', FS, once, ref)
    for d, w in ((0, 'u8'), (1, 'i16'), (2, 'i24')):
        p.ob('%s file: the first channel at the rate of the header' % w, FS, lambda d=d: plays(d), ref)
    p.ob('a track is played once from its start at its rate', FT, track, reft)
    # the player hands out its own resampler
    def own():
        s = code.args('wav_set_speed')[0]
        if not isinstance(s, Struct) or len(s.f) != 1: raise NoLayout('player')
        v = rv('v')
        a = code.post('wav_set_speed', s, v)
        if not same(a.f[0], code.post('resam_set_speed', s.f[0], v)): return 'the change is lost'
        g = code.tf('wav_speed')
        if g.post[0] is not None and not same(g.post[0], g.args[0]): return 'asking changes the player'
        return agree(code.ret('wav_speed', s), code.ret('resam_get_speed', s.f[0])) and agree(code.ret('wav_process', s), code.ret('resam_process', s.f[0])) and ext(code.post('wav_process', s).f[0], code.post('resam_process', s.f[0]), TRUE)
    def rown():
        def body(data, rate):
            x = Obj(code, FT, rate, data)
            y = Obj(code, 'resam_new', data, rate, F(0), F(0))
            for k in range(12):
                if p.rng.randrange(3) == 0:
                    v = near(p.rng, 0, 8)
                    if v is None: v = Fr(p.rng.randrange(0, 33), 8)
                    x.do('wav_set_speed', v); y.do('resam_set_speed', v)
                expect(x.do('wav_speed'), y.do('resam_get_speed'), '%s: the speed read back' % x.log(), anchor='wav_speed')
                expect(x.do('wav_process'), y.do('resam_process'), '%s: sample %d' % (x.log(), k), anchor='wav_set_speed')
        p.point(p.deep(60, 300), lambda: ([S('bae_rs::sample_format::mono::Mono', [rx(p.rng)]) for _ in range(csize(p.rng, p.rng.randrange(0, 8), 1000))], F(p.rng.choice([48000, 44100, 24000, 96000, 8000]))), body)
    p.ob('the resampler handed out is the one that plays', 'wav_set_speed', own, rown)

# ---------------------------------------------------------------- C50
def C50(p):
    p.rule = 'float_equal(a, b, e, f) == (f(a - b) < e), f called once'
    code = p.code
    for w in ('32', '64'):
        nm = 'float_equal%s' % w
        a, b, e = rv('a'), rv('b'), rv('e')
        def eqs(nm=nm):
            v = code.ret(nm, a, b, e)
            d = a - b
            return agree(v, ALL(lt(d, e), lt(-d, e)))
        def ref(nm=nm):
            def body(x, y, t):
                o = code.call(nm, x, y, t); p.points += 1
                if o.panic: raise Witness('%s(%s, %s, %s) fails: %s' % (nm, show(x), show(y), show(t), o.panic.msg), nm)
                if bool(o.value) != (abs(x - y) < t): raise Witness('float_equal(%s, %s, %s) is %s' % (show(x), show(y), show(t), bool(o.value)), nm)
            def gen():
                x = rx(p.rng) * p.rng.choice([1, 1, 1000, Fr(1, 1000)]); t = p.rng.choice([Fr(1, 1000), F(0), Fr(1, 10 ** 6), Fr(1, 8), F(2), Fr(-1, 8)])
                y = p.rng.choice([x, x + t, x - t, x + t / 2, x - t / 2, x + 2 * t, -x, rx(p.rng)])
                return x, y, t
            p.point(p.deep(150, 1000), gen, body)
        def word(nm=nm, w=w):
            # in the arithmetic of the width: one comparison, false of undefined values
            f = lambda u, v: 'fcmp(Lt, fp(abs, %s, fp(Sub, %s, a%d, a%d)), a2)' % (w, w, u, v)
            z = str(code.tf(nm, 'fp').value)
            return any(z in (q, '(%s ? True : False)' % q) for q in (f(0, 1), f(1, 0)))
        def odd(nm=nm, w=w):
            inf, nan = float('inf'), float('nan')
            def body(x, y, t):
                g = bool(callv(code, nm, x, y, t, mode='fp'))
                e = (abs(x - y) < t) if x == x and y == y and t == t else False
                if g != e: raise Witness('float_equal(%r, %r, %r) is %s' % (x, y, t, g), nm)
            def gen():
                one = lambda: p.rng.choice([nan, inf, -inf, 0.0, -0.0, 1.0, 0.5, -1.0, 1.125, 3.0, 2.0 ** -100])
                while 1:
                    x, y, t = one(), one(), one()
                    if x != y or abs(x) != inf: return x, y, t
            p.point(p.deep(150, 1000), gen, body)
        p.ob('f%s: also of infinite and undefined values' % w, nm, word, odd)
        def safe(nm=nm): return not code.safe(nm)
        p.ob('f%s: equal means strictly closer than the tolerance' % w, nm, eqs, ref)
        p.ob('f%s: never fails' % w, nm, safe, ref)
