"""What the standard library functions used by the tool do (see toolmir.py)."""
from toolmir import *
M = {}
def model(*names):
    def d(f):
        for n in names: M.setdefault(n, []).append(f)
        return f
    return d
def find(path, method, trait, f):
    c = M.get(method) or M.get(path.split('::')[-1])
    if not c: return None
    def g(t, st, a, f, dt):
        for h in c:
            r = h(t, st, a, f, dt)
            if r is not NotImplemented: return r
        return NotImplemented
    return g
NI = NotImplemented
TXT = (str, AT, Top)
def cl(t, f, *kinds):
    """the type of the closure or function argument"""
    for i in f.get('args', []):
        T = t.T[i]
        if T['k'] in ('closure', 'fndef'): return T
    raise Stop('function argument')
def clos(t, f): return [t.T[i] for i in f.get('args', []) if t.T[i]['k'] in ('closure', 'fndef')]
def ap(t, st, fn, T, *args):
    if T['k'] == 'fndef': return builtin(t, st, T, args)
    inst = t.closure_inst(T); F = t.I[inst]
    env = fn
    if t.T[F['locals'][1]]['k'] == 'ref' and not isinstance(fn, Ref): env = Ref(t.cell(st, fn))
    a = [env] + list(args)
    if len(a) != F['nargs']: a = [env, St(args)]
    r = t.call(inst, a, st)
    if len(r) != 1:
        vs = {v if not isinstance(v, list) else None for v, _ in r}
        raise Stop('a closure that branches')
    v, s = r[0]
    if s is not st: st.c, st.ev, st.failed, st.mask = s.c, s.ev, s.failed, s.mask
    return v
def builtin(t, st, T, args):
    n = T['s']
    if 'to_string' in n: return t.format([192, 0], [Obj('fmt', ('display', t.deref(st, args[0])))])
    for i, F in enumerate(t.I):
        if F['crate'] == 'bin2str' and F['blocks'] and n.split('{')[-1].split('::')[-1].rstrip('}') == F['name'].split('::')[-1]:
            r = t.call(i, list(args), st)
            if len(r) != 1: raise Stop('a function that branches')
            return r[0][0]
    raise Stop('function value ' + n)
# ---- texts
@model('new', 'with_capacity', 'default')
def s_new(t, st, a, f, dt):
    T = t.T[dt]
    if T.get('path') == 'alloc::string::String': return ''
    if T.get('path') == 'alloc::vec::Vec': return Byts()
    if T.get('path') == 'std::path::Path' or 'Path' in T['s'] and len(a) == 1: return a[0]
    p = (f.get('rpath') or '')
    if 'BufReader' in p: return a[-1]
    if 'BufWriter' in p: return Obj('bufw', '')
    if 'LineWriter' in p: return Obj('bufw', '')
    if 'Arguments' in p: return Obj('args', (a[0], [t.deref(st, x) for x in t.deref(st, a[1])]))
    return NI
@model('from', 'into', 'to_string', 'to_owned', 'clone', 'as_str', 'as_bytes', 'as_slice', 'deref', 'as_ref', 'borrow', 'into_bytes', 'into_boxed_str', 'must_use', 'to_vec', 'as_path', 'to_path_buf', 'into_string', 'as_mut_str', 'by_ref', 'identity', 'to_str', 'into_owned', 'from_utf8_lossy', 'as_ptr_range')
def s_id(t, st, a, f, dt):
    if not a: return NI
    v = t.deref(st, a[0])
    T = t.T[dt]
    if f.get('method') == 'by_ref': return a[0]
    if isinstance(v, TXT) or isinstance(v, (Byts, Data)): return v
    if isinstance(v, (int, Tab)) and f.get('method') == 'to_string': return t.format([192, 0], [Obj('fmt', ('display', v))])
    if isinstance(v, (int, Tab, type(UNK))): return v if T['k'] in ('int', 'bool', 'char') else NI
    if isinstance(v, Obj) and v.kind in ('ioerr', 'path', 'err'): return v
    if isinstance(v, Obj) and v.kind == 'args': return NI
    if isinstance(v, (It, AIt, St)): return v
    return NI
def target(t, st, r):
    o = t.owner(st, r)
    v = t.load(st, o)
    if not isinstance(v, TXT): return None, None
    return o, v
@model('push_str', 'push', 'write_str', 'write_char', 'add_assign')
def s_push(t, st, a, f, dt):
    if not isinstance(a[0], Ref): return NI
    o = t.owner(st, a[0]); v = t.load(st, o)
    x = t.deref(st, a[1])
    if isinstance(v, (Byts,)) and f.get('method') == 'push': t.store(st, o, Byts(v + (x,))); return UNIT
    if isinstance(v, It) and f.get('method') == 'push': t.store(st, o, It(v.items + (x,))); return UNIT
    if not isinstance(v, TXT): return NI
    if isinstance(x, (int, Tab)): x = tab(chr, x)
    t.store(st, o, tpush(v, x))
    return ok(UNIT) if f.get('method', '').startswith('write') else UNIT
@model('add')
def s_add(t, st, a, f, dt):
    v = t.deref(st, a[0])
    return tpush(v, t.deref(st, a[1])) if isinstance(v, TXT) else NI
@model('pop')
def s_pop(t, st, a, f, dt):
    o = t.owner(st, a[0]); v = t.load(st, o)
    if isinstance(v, str):
        if not v: return NONE
        t.store(st, o, v[:-1]); return some(ord(v[-1]))
    if isinstance(v, (AT, Top)): t.store(st, o, tpop(v)); return some(UNK)
    if isinstance(v, Byts):
        if not v: return NONE
        t.store(st, o, Byts(v[:-1])); return some(v[-1])
    return NI
@model('len')
def s_len(t, st, a, f, dt):
    v = t.deref(st, a[0])
    if isinstance(v, (str, AT, Byts, It)): return t.length(v)
    if isinstance(v, (Data, Top)): return UNK
    return NI
@model('is_empty')
def s_empty(t, st, a, f, dt):
    v = t.deref(st, a[0])
    if isinstance(v, (str, Byts)): return int(not v)
    if isinstance(v, It): return int(not v.items)
    if isinstance(v, AT):
        return 0 if any(isinstance(s, str) and s for s in v.segs) or v.head is not None and v.head.suffix else UNK
    return UNK if isinstance(v, (Data, Top)) else NI
@model('reserve', 'shrink_to_fit', 'reserve_exact')
def s_res(t, st, a, f, dt): return UNIT
@model('clear')
def s_clear(t, st, a, f, dt):
    o = t.owner(st, a[0]); v = t.load(st, o)
    t.store(st, o, '' if isinstance(v, TXT) else Byts()); return UNIT
@model('truncate')
def s_trunc(t, st, a, f, dt):
    o = t.owner(st, a[0]); v = t.load(st, o)
    if isinstance(a[1], Pos) and a[1].kind == 'len' and a[1].text == v and a[1].k <= 0:
        for _ in range(-a[1].k): v = tpop(v)
        t.store(st, o, v); return UNIT
    if isinstance(a[1], int) and isinstance(v, str): t.store(st, o, v.encode()[:a[1]].decode()); return UNIT
    if isinstance(a[1], int) and isinstance(v, Byts): t.store(st, o, Byts(v[:a[1]])); return UNIT
    if isinstance(v, TXT): t.store(st, o, TOP); return UNIT
    return NI
@model('remove')
def s_rm(t, st, a, f, dt):
    o = t.owner(st, a[0]); v = t.load(st, o)
    if isinstance(v, str) and isinstance(a[1], int):
        if a[1] >= len(v): raise Fails('index out of range')
        t.store(st, o, v[:a[1]] + v[a[1] + 1:]); return ord(v[a[1]])
    return NI
@model('split_off')
def s_split(t, st, a, f, dt):
    o = t.owner(st, a[0]); v = t.load(st, o)
    if isinstance(v, str) and isinstance(a[1], int):
        if a[1] > len(v): raise Fails('index out of range')
        t.store(st, o, v[:a[1]]); return v[a[1]:]
    return NI
@model('insert_str', 'insert')
def s_ins(t, st, a, f, dt):
    o, v = target(t, st, a[0])
    if o is None: return NI
    k, x = a[1], t.deref(st, a[2])
    if isinstance(x, (int, Tab)): x = tab(chr, x)
    if isinstance(k, int):
        if k == 0:
            if isinstance(v, AT):
                if isinstance(v.head, Rep) and isinstance(x, str): r = AT(v.head.before(x), v.segs)
                elif v.head is None and isinstance(x, str): r = AT(None, ('',)); r = tpush(x, v)
                else: r = TOP
            else: r = tpush(x, v)
            t.store(st, o, r); return UNIT
        if isinstance(v, str) and isinstance(x, str):
            if k > len(v): raise Fails('index out of range')
            t.store(st, o, v[:k] + x + v[k:]); return UNIT
    if isinstance(k, Pos) and k.kind == 'at' and isinstance(x, str) and not x.strip(WS) and k.text[1] <= set(WS) and k.k in (0, 1) and isinstance(v, AT) and k.text[0] == v:
        r = last_space(v, k.text[1])
        if r is not None:
            pre, rest = r
            cut = 0 if k.k == 0 else 1
            if isinstance(pre, tuple):
                h = v.head.suffix; j = pre[1] + cut
                n = AT(Acc(v.head.key, h[:j] + x + h[j:] if j or cut else x + h[j:]), ())
                # what precedes the known end of an accumulated text is unknown: keep only what follows the insertion
                n = AT(Acc(v.head.key, x + h[j:]), ())
                if h[:j]: n = AT(Acc(v.head.key, h[:j] + x + h[j:]), ())
                for s in rest: n = tpush(n, s)
            else:
                n = pre; first = True
                for s in rest:
                    if first and isinstance(s, str): s = s[:cut] + x + s[cut:]
                    first = False
                    n = tpush(n, s)
            t.store(st, o, n); return UNIT
    t.store(st, o, TOP)
    if not t.general: raise Stop('insertion')
    return UNIT
@model('chars', 'char_indices')
def s_chars(t, st, a, f, dt):
    v = t.deref(st, a[0])
    if isinstance(v, str):
        return It(ord(c) for c in v) if f.get('method') == 'chars' or (f.get('rpath') or '').endswith('chars') else It(St((i, ord(c))) for i, c in enumerate(v))
    if isinstance(v, AT) and 'indices' not in (f.get('rpath') or ''): return Chars(v)
    return NI
@model('lines', 'split_whitespace')
def s_lines(t, st, a, f, dt):
    v = t.deref(st, a[0])
    return It(v.splitlines() if 'lines' in f['path'] else v.split()) if isinstance(v, str) else NI
@model('bytes')
def s_bytes(t, st, a, f, dt):
    v = t.deref(st, a[0])
    if isinstance(v, str): return It(v.encode())
    if isinstance(v, Obj) and v.kind == 'in' and not t.general:
        out = []
        for b in t.data: out.append(ok(b))
        i = t.io; t.io += 1; t.ops.append('reading')
        if i in t.plan: st.failed += ('reading',); out = out[:len(out) // 2] + [err(Obj('ioerr', 'reading'))]
        return It(out)
    return NI
def pat(t, st, x, T=None):
    """a set of characters, or a text"""
    if isinstance(x, int): return {chr(x)}
    if isinstance(x, str): return x
    return None
@model('rfind', 'find', 'contains', 'ends_with', 'starts_with', 'trim_end_matches', 'strip_suffix', 'trim_end', 'trim', 'trim_start', 'trim_right')
def s_find(t, st, a, f, dt):
    v = t.deref(st, a[0])
    if not isinstance(v, TXT): return NI
    n = f.get('method') or ''
    if n.startswith('trim') and len(a) == 1:
        if isinstance(v, str): return {'trim_end': v.rstrip(), 'trim_right': v.rstrip(), 'trim': v.strip(), 'trim_start': v.lstrip()}[n]
        if n in ('trim_end', 'trim_right'): return trimmed(v)
        return TOP
    x = t.deref(st, a[1])
    if isinstance(x, Byts): x = {chr(c) for c in x}
    elif isinstance(x, int): x = {chr(x)}
    elif isinstance(x, (St, Obj)):
        T = cl(t, f)
        if T['k'] == 'closure': x = {chr(c) for c in range(128) if ap(t, st, x, T, c) == 1}
        else: return NI
    if isinstance(v, str):
        xs = x if isinstance(x, set) else {x}
        if n == 'rfind': k = max((v.rfind(c) for c in xs), default=-1); return some(k) if k >= 0 else NONE
        if n == 'find':
            k = min((v.find(c) for c in xs if c in v), default=-1); return some(k) if k >= 0 else NONE
        if n == 'contains': return int(any(c in v for c in xs))
        if n == 'ends_with': return int(any(v.endswith(c) for c in xs))
        if n == 'starts_with': return int(any(v.startswith(c) for c in xs))
        if n == 'strip_suffix':
            for c in xs:
                if v.endswith(c): return some(v[:len(v) - len(c)])
            return NONE
        if n == 'trim_end_matches':
            ch = True
            while ch:
                ch = False
                for c in xs:
                    if c and v.endswith(c): v = v[:len(v) - len(c)]; ch = True
            return v
    if isinstance(v, AT):
        if n == 'rfind' and isinstance(x, set): return some(Pos('at', (v, frozenset(x)))) if last_space(v, x) else UNKOPT(t)
        if n in ('ends_with', 'strip_suffix') : 
            return UNK if n == 'ends_with' else NI
    return NI
def UNKOPT(t): raise Stop('an optional result')
def trimmed(v): return TOP
@model('repeat')
def s_rep(t, st, a, f, dt):
    v = t.deref(st, a[0])
    return v * a[1] if isinstance(v, str) and isinstance(a[1], int) else NI
# ---- sequences
@model('iter', 'into_iter', 'iter_mut')
def q_iter(t, st, a, f, dt):
    v = t.deref(st, a[0])
    if isinstance(v, Data): return AIt(None)
    if isinstance(v, Byts): return It(v)
    if isinstance(v, St) and len(v) == 2 and all(isinstance(x, int) for x in v) and 'ange' in (t.T[dt]['s']): return It(range(v[0], v[1])) if v[1] - v[0] < 100000 else NI
    if isinstance(v, (It, AIt, Chars)): return v
    if isinstance(v, En): return It(v.f) if v.i == 1 else It(())
    return NI
@model('next')
def q_next(t, st, a, f, dt):
    o = t.owner(st, a[0]); v = t.load(st, o)
    if isinstance(v, It):
        if not v.items: return NONE
        t.store(st, o, It(v.items[1:])); return some(v.items[0])
    if isinstance(v, St) and len(v) == 2 and all(isinstance(x, int) for x in v):
        if v[0] >= v[1]: return NONE
        t.store(st, o, St((v[0] + 1, v[1]))); return some(v[0])
    if isinstance(v, AIt):
        if v.n >= 1: raise Stop('several bytes taken in a round')
        s2 = st.copy()
        t.store(s2, o, AIt(v.fn, v.n, True))
        t.store(st, o, AIt(v.fn, 1)); st.mask = FULL
        x = Tab(range(256))
        return [(some(v.fn(x) if v.fn else x), st), (NONE, s2)]
    return NI
@model('next_back')
def q_nextb(t, st, a, f, dt):
    o = t.owner(st, a[0]); v = t.load(st, o)
    if isinstance(v, It):
        if not v.items: return NONE
        t.store(st, o, It(v.items[:-1])); return some(v.items[-1])
    return NI
@model('rev', 'copied', 'cloned', 'peekable', 'fuse', 'enumerate', 'skip', 'take', 'step_by', 'zip', 'chain')
def q_adapt(t, st, a, f, dt):
    n = f.get('method')
    v = t.deref(st, a[0])
    if isinstance(v, St) and len(v) == 2 and all(isinstance(x, int) for x in v): v = It(range(v[0], v[1]))
    if n in ('copied', 'cloned', 'peekable', 'fuse') and isinstance(v, (It, AIt)): return v
    if isinstance(v, It):
        if n == 'rev': return It(v.items[::-1])
        if n == 'enumerate': return It(St((i, x)) for i, x in enumerate(v.items))
        if n == 'skip': return It(v.items[a[1]:])
        if n == 'take': return It(v.items[:a[1]])
        if n == 'step_by': return It(v.items[::a[1]])
        w = t.deref(st, a[1])
        if isinstance(w, Byts): w = It(w)
        if isinstance(w, str): w = It([w])
        if isinstance(w, It): return It(v.items + w.items) if n == 'chain' else It(St(x) for x in zip(v.items, w.items))
    if isinstance(v, AIt) and n == 'enumerate' and v.fn is None: return AIt(ENUM)
    if isinstance(v, Chars) and n == 'rev': return Chars(v.text, not v.rev)
    return NI
def ENUM(x): return St((UNK, x))
@model('peek')
def q_peek(t, st, a, f, dt):
    v = t.deref(st, a[0])
    if isinstance(v, It): return some(v.items[0]) if v.items else NONE
    return NI
@model('chunks', 'windows', 'split_at', 'chunks_exact')
def q_chunks(t, st, a, f, dt):
    v = t.deref(st, a[0]); n = a[1]
    if isinstance(v, str): v = Byts(v.encode())
    if not isinstance(v, Byts) or not isinstance(n, int): return NI
    w = f.get('method') or f['path'].split('::')[-1]
    if w == 'split_at':
        if n > len(v): raise Fails('index out of range')
        return St((Byts(v[:n]), Byts(v[n:])))
    if n == 0: raise Fails('chunk size')
    if w == 'windows': return It(Byts(v[i:i + n]) for i in range(len(v) - n + 1))
    return It(Byts(v[i:i + n]) for i in range(0, len(v), n) if w == 'chunks' or i + n <= len(v))
@model('split_last', 'split_first', 'first', 'last')
def q_ends(t, st, a, f, dt):
    v = t.deref(st, a[0]); w = f.get('method') or f['path'].split('::')[-1]
    if isinstance(v, It): v = Byts(v.items)
    if not isinstance(v, Byts): return NI
    if not v: return NONE
    return some({'split_last': lambda: St((v[-1], Byts(v[:-1]))), 'split_first': lambda: St((v[0], Byts(v[1:]))), 'first': lambda: v[0], 'last': lambda: v[-1]}[w]())
@model('map', 'filter', 'for_each', 'fold', 'position', 'rposition', 'any', 'all', 'flat_map', 'filter_map', 'take_while', 'skip_while', 'try_for_each', 'inspect')
def q_map(t, st, a, f, dt):
    v = t.deref(st, a[0]); n = f.get('method')
    if isinstance(v, En) or isinstance(v, TXT): return NI
    if isinstance(v, St) and len(v) == 2 and all(isinstance(x, int) for x in v): v = It(range(v[0], v[1]))
    T = cl(t, f)
    if isinstance(v, Chars) and n == 'position' and v.rev:
        chars = {chr(c) for c in range(128) if ap(t, st, a[1], T, c) == 1}
        if last_space(v.text, chars) is None: raise Stop('position')
        return some(Pos('rpos', (v.text, frozenset(chars))))
    if isinstance(v, AIt) and n == 'map':
        g, env = v.fn, a[1]
        def fn(x): return ap(t, st, env, T, g(x) if g else x)
        return AIt(fn)
    if isinstance(v, AIt) and n == 'for_each': raise Stop('for_each over the input')
    if not isinstance(v, It): return NI
    g = a[-1]
    if n == 'map': return It(ap(t, st, g, T, x) for x in v.items)
    if n == 'filter': return It(x for x in v.items if ap(t, st, g, T, x) == 1)
    if n == 'flat_map': return It(y for x in v.items for y in items(t, st, ap(t, st, g, T, x)))
    if n == 'filter_map': return It(y.f[0] for y in (ap(t, st, g, T, x) for x in v.items) if y.i == 1)
    if n == 'for_each':
        for x in v.items: ap(t, st, g, T, x)
        return UNIT
    if n == 'fold':
        r = a[1]
        for x in v.items: r = ap(t, st, g, T, r, x)
        return r
    if n in ('take_while', 'skip_while'):
        k = 0
        while k < len(v.items) and ap(t, st, g, T, v.items[k]) == 1: k += 1
        return It(v.items[:k] if n == 'take_while' else v.items[k:])
    if n == 'position':
        for i, x in enumerate(v.items):
            if ap(t, st, g, T, x) == 1: return some(i)
        return NONE
    if n == 'rposition':
        for i in range(len(v.items) - 1, -1, -1):
            if ap(t, st, g, T, v.items[i]) == 1: return some(i)
        return NONE
    if n in ('any', 'all'):
        r = [ap(t, st, g, T, x) for x in v.items]
        return int(any(r) if n == 'any' else all(r))
    return NI
def items(t, st, v):
    v = t.deref(st, v)
    if isinstance(v, str): return [ord(c) for c in v]
    if isinstance(v, It): return v.items
    if isinstance(v, Byts): return v
    raise Stop('items')
@model('count')
def q_count(t, st, a, f, dt):
    v = a[0]
    return len(v.items) if isinstance(v, It) else UNK if isinstance(v, (AIt, Chars)) else NI
@model('collect', 'from_iter')
def q_collect(t, st, a, f, dt):
    v = t.deref(st, a[0]); T = t.T[dt]
    if T.get('path') == 'alloc::string::String':
        if isinstance(v, It): return ''.join(chr(x) if isinstance(x, int) else t.deref(st, x) for x in v.items)
        if isinstance(v, AIt):
            x = v.fn(Tab(range(256))) if v.fn else UNK
            x = t.deref(st, x)
            if isinstance(x, Tab) and all(isinstance(y, str) for y in x.v): return AT(Rep('', x.v, ''))
            if isinstance(x, AT) and x.head is None and all(y is not None for y in flat(x.segs)): return AT(Rep('', flat(x.segs), ''))
        return TOP if t.general else NI
    if isinstance(v, It):
        if T.get('path') == 'core::result::Result':
            for x in v.items:
                if x.i == 1: return err(x.f[0])
            return ok(Byts(x.f[0] for x in v.items))
        return Byts(v.items) 
    return NI
@model('join', 'concat')
def q_join(t, st, a, f, dt):
    v = t.deref(st, a[0]); sep = t.deref(st, a[1]) if len(a) > 1 else ''
    if isinstance(v, (It, Byts)):
        xs = [t.deref(st, x) for x in (v.items if isinstance(v, It) else v)]
        if all(isinstance(x, str) for x in xs) and isinstance(sep, str): return sep.join(xs)
    return NI
@model('extend', 'extend_from_slice')
def q_extend(t, st, a, f, dt):
    o = t.owner(st, a[0]); v = t.load(st, o); x = t.deref(st, a[1])
    if isinstance(v, TXT):
        if isinstance(x, Chars) and not x.rev: x = x.text
        elif isinstance(x, It): x = ''.join(chr(y) if isinstance(y, int) else t.deref(st, y) for y in x.items)
        elif isinstance(x, AIt): x = q_collect(t, st, [x], f, a_type(t))
        if isinstance(x, TXT): t.store(st, o, tpush(v, x)); return UNIT
        return NI
    if isinstance(v, Byts):
        if isinstance(x, str): x = Byts(x.encode())
        if isinstance(x, It): x = Byts(t.deref(st, y) for y in x.items)
        if isinstance(x, Byts): t.store(st, o, Byts(v + x)); return UNIT
        if isinstance(x, Data) and not v: t.store(st, o, x); return UNIT
    return NI
def a_type(t):
    for i, T in enumerate(t.T):
        if T.get('path') == 'alloc::string::String': return i
    raise Stop('type')
@model('index', 'get', 'index_mut')
def q_index(t, st, a, f, dt):
    v = t.deref(st, a[0]); k = a[1]
    if isinstance(v, (Byts, str)):
        if isinstance(k, int):
            if f.get('method') == 'get': return some(v[k]) if k < len(v) else NONE
            if k >= len(v): raise Fails('index out of range')
            return v[k]
        if isinstance(k, St) and all(isinstance(x, int) for x in k):
            s = ' '.join(t.T[i]['s'] for i in f.get('args', []))
            lo, hi = (k[0], k[1]) if len(k) == 2 else (0, k[0]) if 'RangeTo' in s else (k[0], len(v)) if 'RangeFrom' in s else (0, len(v))
            if 'Inclusive' in s: return NI
            if lo > hi or hi > len(v):
                if f.get('method') == 'get': return NONE
                raise Fails('index out of range')
            r = v[lo:hi]
            r = r if isinstance(v, str) else Byts(r)
            return some(r) if f.get('method') == 'get' else r
        if k == UNIT or isinstance(k, Obj) and k.kind == 'const': return v
    if isinstance(v, Data) and (k == UNIT or isinstance(k, Obj) and k.kind == 'const' and 'RangeFull' in str(k.x)): return v
    return NI
# ---- options and results
@model('branch')
def r_branch(t, st, a, f, dt):
    v = a[0]
    if not isinstance(v, En): return NI
    if 'Option' in f.get('rpath', ''): return En(0, v.f[0]) if v.i == 1 else En(1, NONE)
    return En(0, v.f[0]) if v.i == 0 else En(1, err(v.f[0]))
@model('from_residual')
def r_res(t, st, a, f, dt): return a[0]
@model('unwrap', 'expect', 'unwrap_or_else', 'unwrap_or', 'unwrap_or_default', 'ok', 'is_ok', 'is_err', 'is_some', 'is_none', 'map_err', 'map', 'and_then', 'ok_or', 'ok_or_else', 'err', 'and', 'or_else', 'map_or', 'unwrap_err', 'expect_err', 'as_ref', 'as_mut', 'is_some_and')
def r_opt(t, st, a, f, dt):
    n = f.get('method') or f['path'].split('::')[-1]
    p = f.get('rpath') or f['path']
    v = t.deref(st, a[0])
    if not isinstance(v, En): return NI
    isopt = 'option' in p
    good = v.i == (1 if isopt else 0)
    x = v.f[0] if v.f else None
    if n in ('unwrap', 'expect'):
        if good: return x
        if t.general: return []
        raise Fails('unwrap')
    if n in ('unwrap_err', 'expect_err'):
        if not good: return x
        if t.general: return []
        raise Fails('unwrap_err')
    if n == 'unwrap_or': return x if good else a[1]
    if n == 'unwrap_or_default':
        T = t.T[dt]
        return x if good else '' if T.get('path') == 'alloc::string::String' else Byts() if T['k'] == 'adt' else 0
    if n == 'ok': return some(x) if good else NONE
    if n == 'err': return some(x) if not good else NONE
    if n in ('is_ok', 'is_some'): return int(good)
    if n in ('is_err', 'is_none'): return int(not good)
    if n in ('as_ref', 'as_mut'): return v
    if n == 'and': return a[1] if good else v
    if n == 'ok_or': return ok(x) if good else err(a[1])
    Ts = clos(t, f)
    if not Ts: return NI
    T = Ts[0]
    A = (x,) if x is not None else ()
    if n == 'map': return En(v.i, ap(t, st, a[1], T, *A)) if good else v
    if n == 'map_err': return v if good else err(ap(t, st, a[1], T, x))
    if n == 'and_then': return ap(t, st, a[1], T, x) if good else v
    if n == 'or_else': return v if good else ap(t, st, a[1], T, *A)
    if n == 'unwrap_or_else': return x if good else ap(t, st, a[1], T, *A)
    if n == 'ok_or_else': return ok(x) if good else err(ap(t, st, a[1], T))
    if n == 'map_or': return ap(t, st, a[2], T, x) if good else a[1]
    if n == 'is_some_and': return ap(t, st, a[1], T, x) if good else 0
    return NI
# ---- formatting
@model('new_display', 'new_debug', 'new_lower_hex', 'new_upper_hex', 'new_octal', 'new_binary')
def f_arg(t, st, a, f, dt):
    v = t.deref(st, a[0])
    how = (f.get('method') or f['path'].split('::')[-1])[4:]
    if t.T[f['args'][0]]['k'] == 'char' or t.T[f['args'][0]].get('s', '').endswith('char'): how = 'chr'
    return Obj('fmt', (how, v))
@model('from_str', 'new_const', 'from_str_nonconst')
def f_const(t, st, a, f, dt):
    if 'Arguments' not in (f.get('rpath') or f['path']): return NI
    v = t.deref(st, a[0])
    return Obj('args', (v, []))
def ftext(t, x):
    if not isinstance(x, Obj) or x.kind != 'args': raise Stop('format')
    return x.x[0] if isinstance(x.x[0], str) else t.format(list(x.x[0]), x.x[1])
@model('format')
def f_format(t, st, a, f, dt): return ftext(t, a[0])
@model('_print', '_eprint')
def f_print(t, st, a, f, dt): return UNIT
@model('write_fmt')
def f_write(t, st, a, f, dt):
    x = ftext(t, a[1])
    o = t.owner(st, a[0]); v = t.load(st, o)
    if isinstance(v, TXT): t.store(st, o, tpush(v, x)); return ok(UNIT)
    if isinstance(v, Obj) and v.kind == 'out': return t.write(st, x, 'writing')
    if isinstance(v, Obj) and v.kind == 'bufw': t.store(st, o, Obj('bufw', tpush(v.x, x))); return ok(UNIT)
    if isinstance(v, Byts) and isinstance(x, str): t.store(st, o, Byts(v + tuple(x.encode()))); return ok(UNIT)
    return NI
# ---- files
@model('open')
def i_open(t, st, a, f, dt):
    if 'File' not in (f.get('rpath') or f['path']): return NI
    return t.fallible(st, 'opening the input', lambda s: Obj('in'))
@model('create', 'create_new')
def i_create(t, st, a, f, dt):
    def good(s): s.ev = (); return Obj('out')
    return t.fallible(st, 'creating the output', good)
@model('read_to_end')
def i_rte(t, st, a, f, dt):
    v = t.deref(st, a[0]); o = t.owner(st, a[1]); w = t.load(st, o)
    if not isinstance(v, Obj) or v.kind != 'in' or not isinstance(w, Byts): return NI
    if t.general:
        if w: raise Stop('read')
        def good(s): t.store(s, o, DATA); return UNK
        def bad(s): t.store(s, o, Obj('some data'))
        return t.fallible(st, 'reading the input', good, bad)
    def good(s): t.store(s, o, Byts(w + tuple(t.data))); return len(t.data)
    def bad(s): t.store(s, o, Byts(w + tuple(t.data[:len(t.data) // 2])))
    return t.fallible(st, 'reading the input', good, bad)
@model('read')
def i_read(t, st, a, f, dt):
    p = f.get('rpath') or f['path']
    if 'fs::read' in p:
        return t.fallible(st, 'reading the input', lambda s: DATA if t.general else Byts(t.data))
    v = t.deref(st, a[0])
    if t.general or not isinstance(v, Obj) or v.kind != 'in': return NI
    if not isinstance(a[1], Ref): return NI
    o = t.owner(st, a[1]); w = t.load(st, o)
    if not isinstance(w, Byts): return NI
    r = t.owner(st, a[0])
    def good(s):
        pos = v.x or 0
        k = min(len(w), len(t.data) - pos)
        if k > 1 and t.short: k = (k + 1) // 2
        t.store(s, o, Byts(tuple(t.data[pos:pos + k]) + w[k:])); t.store(s, r, Obj('in', pos + k))
        return k
    return t.fallible(st, 'reading the input', good)
@model('write_all')
def i_wall(t, st, a, f, dt):
    v = t.deref(st, a[0]); x = t.text(st, a[1])
    if not isinstance(x, TXT): return NI
    if isinstance(v, Obj) and v.kind == 'out': return t.write(st, x, 'writing')
    if isinstance(v, Obj) and v.kind == 'bufw':
        t.store(st, t.owner(st, a[0]), Obj('bufw', tpush(v.x, x))); return ok(UNIT)
    return NI
@model('write')
def i_write(t, st, a, f, dt):
    p = f.get('rpath') or f['path']
    if 'fs::write' in p:
        def good(s): s.ev = (t.text(s, a[1]),); return UNIT
        return t.fallible(st, 'writing the output', good)
    v = t.deref(st, a[0]); x = t.text(st, a[1])
    if not isinstance(v, Obj) or v.kind != 'out' or not isinstance(x, TXT): return NI
    if t.general:
        s2 = st.copy(); s2.ev += (TOP,); s2.failed += ('a short write',)
        return t.write(st, x, 'writing') and [(ok(UNK), s2)] + t.fallible(st, 'writing', lambda s: UNK)
    if isinstance(x, str):
        def good(s):
            k = len(x)
            if t.short and k > 1: k = (k + 1) // 2; s.failed += ('a short write',)
            s.ev += (x[:k],); return k
        return t.fallible(st, 'writing', good)
    return NI
@model('flush', 'sync_all', 'sync_data')
def i_flush(t, st, a, f, dt):
    v = t.deref(st, a[0])
    if isinstance(v, Obj) and v.kind == 'bufw':
        x = v.x; t.store(st, t.owner(st, a[0]), Obj('bufw', ''))
        return t.write(st, x, 'flushing') if x != '' else ok(UNIT)
    if isinstance(v, Obj) and v.kind == 'out': return t.fallible(st, 'synchronising', lambda s: UNIT)
    return NI
@model('into_inner')
def i_inner(t, st, a, f, dt):
    v = t.deref(st, a[0])
    if isinstance(v, Obj) and v.kind == 'bufw':
        r = t.write(st, v.x, 'flushing')
        return [(ok(Obj('out')) if x.i == 0 else x, s) for x, s in r]
    return NI
@model('drop')
def m_drop(t, st, a, f, dt):
    return [(UNIT, s) for s in t.drop(st, a[0])] if a else UNIT
@model('swap', 'replace', 'take')
def m_mem(t, st, a, f, dt):
    n = f.get('method') or f['path'].split('::')[-1]
    if 'mem' not in (f.get('rpath') or f['path']): return NI
    o = t.owner(st, a[0]); v = t.load(st, o)
    if n == 'replace': t.store(st, o, a[1]); return v
    if n == 'take': t.store(st, o, '' if isinstance(v, TXT) else Byts()); return v
    p = t.owner(st, a[1]); t.store(st, o, t.load(st, p)); t.store(st, p, v); return UNIT
@model('min', 'max')
def m_min(t, st, a, f, dt):
    if len(a) != 2: return NI
    return tab(min if (f.get('method') or f['path'].split('::')[-1]) == 'min' else max, a[0], a[1])
@model('saturating_sub', 'wrapping_sub', 'saturating_add', 'wrapping_add')
def m_arith(t, st, a, f, dt):
    n = f.get('method') or f['path'].split('::')[-1]
    if any(isinstance(x, Pos) for x in a): return t.binop('Sub' if 'sub' in n else 'Add', a[0], a[1], t.T[dt])
    r = tab((lambda x, y: x - y) if 'sub' in n else (lambda x, y: x + y), a[0], a[1])
    T = t.T[dt]
    if n.startswith('wrapping'): return t.wrap(r, T)
    lo, hi = (-(1 << T['bits'] - 1), (1 << T['bits'] - 1) - 1) if T['signed'] else (0, (1 << T['bits']) - 1)
    return tab(lambda x: min(max(x, lo), hi), r)
@model('eq', 'ne')
def m_eq(t, st, a, f, dt):
    x, y = t.deref(st, a[0]), t.deref(st, a[1])
    n = f.get('method')
    if isinstance(x, (int, Tab)) and isinstance(y, (int, Tab)): return tab(lambda p, q: int((p == q) == (n == 'eq')), x, y)
    if isinstance(x, str) and isinstance(y, str): return int((x == y) == (n == 'eq'))
    return UNK if t.general else NI
