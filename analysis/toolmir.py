"""A small interpreter of MIR for the command-line tool: texts, byte sequences
and fallible input/output.

Two readings share it.  In the *general* reading the input is an arbitrary byte
sequence: an integer that depends on the current byte only is a table of its
256 values, every other integer is unknown, a text is its head (what earlier
rounds of a loop added, kept as a symbol) followed by known pieces, every
fallible operation both succeeds and fails, and both sides of an unknown branch
are followed.  In the *particular* reading the input is one given sequence and
a plan says which fallible operation fails; it serves to tell a wrong text or a
hidden failure from a merely unproved one.
"""
import json, re
class Stop(Exception): pass          # no answer
class Fails(Exception): pass         # a panic (particular reading)
UNK = type('U', (), {'__repr__': lambda s: '?'})()
class Tab:
    """a value per current byte; None where the path excludes the byte"""
    __slots__ = ('v',)
    def __init__(self, v): self.v = tuple(v)
    def __eq__(a, b): return isinstance(b, Tab) and a.v == b.v
    def __hash__(self): return hash(self.v)
def tab(f, *xs):
    if any(x is UNK for x in xs): return UNK
    if not any(isinstance(x, Tab) for x in xs): return f(*xs)
    out = []
    for b in range(256):
        a = [x.v[b] if isinstance(x, Tab) else x for x in xs]
        out.append(None if any(y is None for y in a) else f(*a))
    d = {x for x in out if x is not None}
    if len(d) == 1 and None not in out: return d.pop()
    return Tab(out)
class AT:
    """a text: head then pieces (literal, or a table of texts)"""
    __slots__ = ('head', 'segs')
    def __init__(self, head, segs=()): self.head, self.segs = head, tuple(segs)
    def __eq__(a, b): return isinstance(b, AT) and (a.head, a.segs) == (b.head, b.segs)
    def __hash__(self): return hash((self.head, self.segs))
    def __repr__(self): return 'AT(%r, %r)' % (self.head, [s if isinstance(s, str) else '<b>' for s in self.segs])
class Acc:
    """what the rounds so far have made of a text; `suffix` is how it certainly ends"""
    __slots__ = ('key', 'suffix')
    def __init__(self, key, suffix): self.key, self.suffix = key, suffix
    def __eq__(a, b): return isinstance(b, Acc) and (a.key, a.suffix) == (b.key, b.suffix)
    def __hash__(self): return hash((self.key, self.suffix))
class Rep:
    """literal, then one text per input byte; `cut` characters missing at the end (`lit0` is left for an empty input)"""
    __slots__ = ('lit', 'body', 'suffix', 'cut', 'lit0')
    def __init__(self, lit, body, suffix, cut=0, lit0=None): self.lit, self.body, self.suffix, self.cut, self.lit0 = lit, tuple(body), suffix, cut, lit if lit0 is None else lit0
    def before(self, x): return Rep(x + self.lit, self.body, self.suffix, self.cut, x + self.lit0)
    def __eq__(a, b): return isinstance(b, Rep) and (a.lit, a.body, a.suffix, a.cut, a.lit0) == (b.lit, b.body, b.suffix, b.cut, b.lit0)
    def __hash__(self): return hash((self.lit, self.body, self.cut))
WS = ' \n\t\r'
class Top:                            # a text nothing is known about
    def __repr__(self): return 'Top'
TOP = Top()
class Data:
    """the contents of the input (general reading)"""
    def __repr__(self): return 'Data'
DATA = Data()
class Byts(tuple): pass               # particular bytes
class It:
    """an iterator over particular items"""
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)
    def __eq__(a, b): return isinstance(b, It) and a.items == b.items
    def __hash__(self): return hash(self.items)
class AIt:
    """an iterator over the input: `fn` items per byte, taken this round, exhausted"""
    __slots__ = ('fn', 'n', 'done')
    def __init__(self, fn, n=0, done=False): self.fn, self.n, self.done = fn, n, done
    def __eq__(a, b): return isinstance(b, AIt) and (a.fn, a.n, a.done) == (b.fn, b.n, b.done)
    def __hash__(self): return hash((self.n, self.done))
class Chars:
    __slots__ = ('text', 'rev', 'by')
    def __init__(self, text, rev=False, by=False): self.text, self.rev, self.by = text, rev, by
    def __eq__(a, b): return isinstance(b, Chars) and (a.text, a.rev, a.by) == (b.text, b.rev, b.by)
    def __hash__(self): return hash((self.rev,))
class Pos:
    """a length or an index of a text, relative to a marked place in it"""
    __slots__ = ('kind', 'text', 'k')
    def __init__(self, kind, text, k=0): self.kind, self.text, self.k = kind, text, k
    def __eq__(a, b): return isinstance(b, Pos) and (a.kind, a.text, a.k) == (b.kind, b.text, b.k)
    def __hash__(self): return hash((self.kind, self.k))
class St(tuple): pass                 # struct, tuple or closure
class En:
    __slots__ = ('i', 'f')
    def __init__(self, i, *f): self.i, self.f = i, f
    def __eq__(a, b): return isinstance(b, En) and a.i == b.i and a.f == b.f
    def __hash__(self): return hash((self.i,))
    def __repr__(self): return 'En%d%r' % (self.i, self.f)
class Ref:
    __slots__ = ('c', 'p')
    def __init__(self, c, p=()): self.c, self.p = c, p
    def __eq__(a, b): return isinstance(b, Ref) and (a.c, a.p) == (b.c, b.p)
    def __hash__(self): return hash((self.c, self.p))
class Obj:
    """an opaque value"""
    __slots__ = ('kind', 'x')
    def __init__(self, kind, x=None): self.kind, self.x = kind, x
    def __eq__(a, b): return isinstance(b, Obj) and (a.kind, a.x) == (b.kind, b.x)
    def __hash__(self): return hash(self.kind)
    def __repr__(self): return '%s(%r)' % (self.kind, self.x)
UNIT = St()
NONE = En(0)
def some(x): return En(1, x)
def ok(x): return En(0, x)
def err(x): return En(1, x)
UNSET = type('X', (), {'__repr__': lambda s: 'unset'})()

class State:
    __slots__ = ('c', 'ev', 'failed', 'mask')
    def __init__(self, c, ev, failed, mask): self.c, self.ev, self.failed, self.mask = c, ev, failed, mask
    def copy(self): return State(dict(self.c), self.ev, self.failed, self.mask)
FULL = frozenset(range(256))

def astext(x): return x if isinstance(x, AT) else AT(None, (x,) if x else ())
def tpush(t, x):
    """text t followed by x (literal or table of literals)"""
    if t is TOP or x is TOP or x is UNK: return TOP
    if isinstance(t, str) and isinstance(x, str): return t + x
    if isinstance(x, AT):
        if x.head is not None:
            t = astext(t)
            if t.head is None and all(isinstance(s, str) for s in t.segs) and isinstance(x.head, Rep):
                return AT(x.head.before(''.join(t.segs)), x.segs)
            return TOP
        for s in x.segs: t = tpush(t, s)
        return t
    t = astext(t)
    segs = list(t.segs)
    if segs and isinstance(segs[-1], str) and isinstance(x, str): segs[-1] += x
    elif x != '': segs.append(x)
    return AT(t.head, segs)
def flat(segs):
    """pieces as one table"""
    out = ['' for _ in range(256)]
    for s in segs:
        for b in range(256):
            y = s if isinstance(s, str) else s.v[b]
            out[b] = None if y is None or out[b] is None else out[b] + y
    return out
def tpop(t):
    if t is TOP: return TOP
    if isinstance(t, str): return t[:-1]
    segs = list(t.segs)
    while segs:
        s = segs[-1]
        if isinstance(s, str):
            if s == '': segs.pop(); continue
            segs[-1] = s[:-1]
            return AT(t.head, [x for x in segs if x != ''])
        if all(y is None or y for y in s.v):
            segs[-1] = Tab(None if y is None else y[:-1] for y in s.v)
            return AT(t.head, segs)
        return TOP
    h = t.head
    if h is None: return ''
    if isinstance(h, Acc):
        # only white space that still separates what comes next may go
        if len(h.suffix) > 1 and h.suffix[-1] in WS and not h.suffix[-2].isalnum(): return AT(Acc(h.key, h.suffix[:-1]), ())
        return TOP
    return AT(Rep(h.lit, h.body, h.suffix[:-1], h.cut + 1, h.lit0[:-1]), ())
def last_space(t, chars):
    """the text up to its last occurrence of one of `chars`, and from there on; None if that is not certain"""
    if isinstance(t, str):
        k = max(t.rfind(c) for c in chars)
        return (AT(None, (t[:k],)), t[k:]) if k >= 0 else None
    segs = list(t.segs)
    rest = []
    while segs:
        s = segs.pop()
        if isinstance(s, str):
            k = max(s.rfind(c) for c in chars)
            if k >= 0: return AT(t.head, segs + [s[:k]]), [s[k:]] + rest
            rest.insert(0, s)
        else:
            if any(y and any(c in y for c in chars) for y in s.v): return None
            rest.insert(0, s)
    if isinstance(t.head, Acc):
        k = max(t.head.suffix.rfind(c) for c in chars)
        if k >= 0: return ('acc', k), rest
    return None

INTS = {'u8': (0, 255), 'i8': (-128, 127)}
class Tool:
    def __init__(self, dump, data=None, plan=(), chunk=None, budget=4000000):
        self.d, self.T, self.I = dump, dump['types'], dump['insts']
        self.general = data is None
        self.data, self.plan, self.short = data, plan, False
        self.n = 0                      # cells
        self.io = 0                     # fallible operations so far (particular reading)
        self.ops = []
        self.budget = budget
        self.sccs = {}
        self.used = set()
        self.calls = 0
        self.depth = 0
    # ---- cells and places
    def cell(self, st, v=UNSET):
        self.n += 1; st.c[self.n] = v
        return self.n
    def get(self, v, path):
        for e in path:
            if isinstance(v, tuple) and not isinstance(v, Byts) and e[0] == 'f': v = v[e[1]]
            elif isinstance(v, En) and e[0] == 'f': v = v.f[e[1]]
            elif isinstance(v, Byts) and e[0] == 'i': 
                if not isinstance(e[1], int): raise Stop('index')
                if e[1] >= len(v): raise Fails('index out of range')
                v = v[e[1]]
            elif isinstance(v, It) and e[0] == 'i' and isinstance(e[1], int):
                if e[1] >= len(v.items): raise Fails('index out of range')
                v = v.items[e[1]]
            else: raise Stop('part %r of %r' % (e, type(v).__name__))
        return v
    def put(self, v, path, x):
        if not path: return x
        e = path[0]
        if isinstance(v, St) and e[0] == 'f': return St(self.put(y, path[1:], x) if i == e[1] else y for i, y in enumerate(v))
        if isinstance(v, En) and e[0] == 'f': return En(v.i, *[self.put(y, path[1:], x) if i == e[1] else y for i, y in enumerate(v.f)])
        if isinstance(v, Byts) and e[0] == 'i' and isinstance(e[1], int): return Byts(self.put(y, path[1:], x) if i == e[1] else y for i, y in enumerate(v))
        if v is UNSET and e[0] == 'f': return St(self.put(UNSET, path[1:], x) if i == e[1] else UNSET for i in range(e[1] + 1))
        raise Stop('store into %r' % type(v).__name__)
    def load(self, st, r):
        if isinstance(r, Ref): return self.get(st.c[r.c], r.p)
        return r                        # shared borrows of texts and data are the value itself
    def store(self, st, r, v):
        if not isinstance(r, Ref): raise Stop('store through a value')
        st.c[r.c] = self.put(st.c[r.c], r.p, v)
    def place(self, st, fr, p):
        """a reference, or ('val', value) when the base is a value"""
        c, path = fr[p[0]], ()
        val = None
        for e in p[1]:
            if e == '*':
                v = val[0] if val else self.get(st.c[c], path)
                if isinstance(v, Ref): c, path, val = v.c, v.p, None
                else: val = (v,)
            elif e[0] == 'v': continue
            elif e[0] == 'f':
                if val: val = (self.get(val[0], (('f', e[1]),)),)
                else: path += (('f', e[1]),)
            elif e[0] in ('i', 'c'):
                if e[0] == 'i': ix = st.c[fr[e[1]]]
                elif e[3]: raise Stop('index from the end')
                else: ix = e[1]
                if val: val = (self.get(val[0], (('i', ix),)),)
                else: path += (('i', ix),)
            else: raise Stop('projection')
        return val if val else Ref(c, path)
    def readp(self, st, fr, p):
        r = self.place(st, fr, p)
        return self.get(st.c[r.c], r.p) if isinstance(r, Ref) else r[0]
    def operand(self, st, fr, o):
        if o['k'] in ('copy', 'move'):
            v = self.readp(st, fr, o['p'])
            if v is UNSET: raise Stop('unset')
            return v
        return self.const(o['ty'], o['v'])
    def const(self, ty, v):
        T = self.T[ty]
        if 'str' in v: return v['str']
        if 'ref' in v: 
            w = v['ref']; t = v['ty'] if 'ty' in v else w.get('ty')
            if 'a' in w: return Byts(int(x['b']) if 'b' in x else x.get('str', UNK) for x in w['a'])
            if 'str' in w: return w['str']
            return self.const(t, w) if t is not None else UNK
        if 'b' in v:
            b = int(v['b'])
            if T['k'] == 'int' and T['signed'] and b >= 1 << (T['bits'] - 1): b -= 1 << T['bits']
            if T['k'] == 'adt' and T.get('adt') == 'enum': return En(b)
            return b
        if 's' in v: return St(self.const(t, x) for t, x in zip(T.get('f', []), v['s'])) if T['k'] in ('tuple', 'closure') else Obj('const', T['s'])
        if 'e' in v and isinstance(v['e'], list): return En(int(v['e'][0]), *[self.const(t[1], x) for t, x in zip(T['variants'][int(v['e'][0])]['f'], v['e'][1])])
        if T['k'] in ('tuple', 'closure') and not T['f']: return UNIT
        return Obj('const', T['s'])
    # ---- values
    def rvalue(self, st, fr, r, pt):
        k = r['k']
        if k == 'use': return self.operand(st, fr, r['o'])
        if k == 'ref' or k == 'rawref':
            x = self.place(st, fr, r['p'])
            return x if isinstance(x, Ref) else x[0]
        if k == 'cast':
            v = self.operand(st, fr, r['o'])
            F, G = self.T[r['from']], self.T[r['to']]
            if G['k'] in ('int', 'char') and F['k'] in ('int', 'char', 'bool'):
                if G['k'] == 'char': return v
                if isinstance(v, Pos): return v
                return self.wrap(v, G)
            if 'Unsize' in r['c'] or 'Ptr' in r['c'] or 'Transmute' in r['c'] or 'Pointer' in r['c']: return v
            raise Stop('cast')
        if k == 'bin':
            a, b = self.operand(st, fr, r['a']), self.operand(st, fr, r['b'])
            return self.binop(r['op'], a, b, self.T[r['ty']] if 'ty' in r else self.T[pt])
        if k == 'un':
            a = self.operand(st, fr, r['o'] if 'o' in r else r['a'])
            op = r['op']
            if op == 'Not': 
                T = self.T[pt]
                return tab(lambda x: 1 - x, a) if T['k'] == 'bool' else (self.wrap(tab(lambda x: ~x, a), T))
            if op == 'Neg': return self.wrap(tab(lambda x: -x, a), self.T[pt])
            if op == 'PtrMetadata': return self.length(a)
            raise Stop('operator ' + op)
        if k == 'repeat':
            v = self.operand(st, fr, r['o']); n = self.T[pt].get('n')
            if isinstance(n, int) and n <= 65536: return Byts((v,) * n)
            raise Stop('repeat')
        if k == 'len': return self.length(self.readp(st, fr, r['p']))
        if k == 'disc':
            v = self.readp(st, fr, r['p'])
            if isinstance(v, En):
                vs = self.T[r['ty']].get('variants')
                return int(vs[v.i]['d']) if vs and v.i < len(vs) else v.i
            raise Stop('discriminant of %r' % type(v).__name__)
        if k == 'agg':
            a = r['a']; ops = [self.operand(st, fr, o) for o in r.get('ops', ())]
            if a == 'tuple' or a == 'closure': return St(ops)
            if a == 'array': return Byts(ops)
            if a == 'adt':
                T = self.T[r['ty']]
                return En(r['v'], *ops) if T['adt'] == 'enum' else St(ops)
        raise Stop('rvalue ' + k)
    def length(self, v):
        if isinstance(v, str): return len(v.encode())
        if isinstance(v, Byts): return len(v)
        if isinstance(v, It): return len(v.items)
        if isinstance(v, AT): return Pos('len', v)
        return UNK
    def wrap(self, v, T):
        if v is UNK or isinstance(v, Pos): return v
        n = T.get('bits', 64)
        def f(x):
            x &= (1 << n) - 1
            return x - (1 << n) if T['signed'] and x >> (n - 1) else x
        return tab(f, v)
    def binop(self, op, a, b, T):
        ov = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if isinstance(a, Pos) or isinstance(b, Pos):
            r = UNK
            if isinstance(a, Pos) and isinstance(b, int) and base in ('Add', 'Sub'): r = Pos(a.kind, a.text, a.k + (b if base == 'Add' else -b))
            elif isinstance(a, Pos) and isinstance(b, Pos) and base == 'Sub' and a.kind == 'len' and b.kind == 'rpos' and b.k == 0 and a.text == b.text[0]: r = Pos('at', b.text, a.k + 1)
            elif isinstance(a, Pos) and isinstance(b, Pos) and a == b and base in ('Eq', 'Ne', 'Sub'): r = {'Eq': 1, 'Ne': 0, 'Sub': 0}[base]
            return St((r, 0)) if ov else r
        if any(not isinstance(x, (int, Tab)) and x is not UNK for x in (a, b)): raise Stop('operation on %r' % type(a).__name__)
        import operator as o
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            f = {'Eq': o.eq, 'Ne': o.ne, 'Lt': o.lt, 'Le': o.le, 'Gt': o.gt, 'Ge': o.ge}[base]
            return tab(lambda x, y: int(f(x, y)), a, b)
        if base in ('Div', 'Rem'):
            def dv(x, y):
                if y == 0: raise Fails('division by zero')
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if base == 'Div' else x - q * y
            return tab(dv, a, b)
        f = {'Add': o.add, 'Sub': o.sub, 'Mul': o.mul, 'BitAnd': o.and_, 'BitOr': o.or_, 'BitXor': o.xor, 'Shl': lambda x, y: x << min(y, 200), 'Shr': lambda x, y: x >> min(y, 200)}.get(base)
        if f is None: raise Stop('operator ' + op)
        if T['k'] == 'bool': return tab(f, a, b)
        if T['k'] != 'int': raise Stop('operator on ' + T['s'])
        r = tab(f, a, b); w = self.wrap(r, T)
        if ov:
            return St((w, 0 if r is UNK else tab(lambda x, y: int(x != y), r, w)))
        return w
    # ---- execution
    def call(self, inst, args, st):
        """list of (value, state)"""
        f = self.I[inst]
        self.used.add(f['name'])
        self.depth += 1
        if self.depth > 40: raise Stop('recursion')
        try:
            if len(args) != f['nargs']: 
                raise Stop('arguments of ' + f['name'])
            fr = {}
            for i in range(len(f['locals'])): fr[i] = self.cell(st)
            for i, a in enumerate(args): st.c[fr[i + 1]] = a
            out = []
            for tgt, s in self.run(inst, fr, 0, st, None, None):
                if tgt != 'return': raise Stop('exit')
                v = s.c[fr[0]]
                if v is UNSET: v = UNIT
                for c in fr.values(): s.c.pop(c, None)
                out.append((v, s))
            return out
        finally: self.depth -= 1
    def succ(self, t):
        k = t['k']
        if k in ('goto', 'drop', 'assert'): return [t['t']]
        if k == 'switch': return [x[1] for x in t['cases']] + [t['else']]
        if k == 'call': return [t['t']] if t['t'] >= 0 else []
        return []
    def loops(self, inst):
        """header -> blocks of its natural loop"""
        r = self.sccs.get(inst)
        if r is not None: return r
        bl = self.I[inst]['blocks']
        r = {}
        # back edges by depth-first search
        color = {}; back = []
        stack = [(0, iter(self.succ(bl[0]['t'])))]; color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1: back.append((b, s))
                elif s not in color:
                    color[s] = 1; stack.append((s, iter(self.succ(bl[s]['t'])))); break
            else: color[b] = 2; stack.pop()
        pred = {}
        for i, b in enumerate(bl):
            for s in self.succ(b['t']): pred.setdefault(s, []).append(i)
        for b, h in back:
            body = r.setdefault(h, {h})
            todo = [b]
            while todo:
                x = todo.pop()
                if x in body: continue
                body.add(x); todo += pred.get(x, [])
        self.sccs[inst] = r
        return r
    def run(self, inst, fr, bb, st, header, body):
        """run from bb until return, or until leaving `body` / reaching `header` again"""
        out = []
        todo = [(bb, st, True)]
        bl = self.I[inst]['blocks']
        lp = self.loops(inst)
        while todo:
            b, st, first = todo.pop()
            if b == 'return': out.append((b, st)); continue
            if body is not None and not first and (b == header or b not in body): out.append((b, st)); continue
            if self.general and b in lp and not (first and b == header):
                for t, s in self.loop(inst, fr, b, lp[b], st): todo.append((t, s, False))
                continue
            self.budget -= 1
            if self.budget < 0: raise Stop('budget')
            for s in bl[b]['st']:
                if s['k'] != '=': 
                    if s['k'] in ('nop', 'live', 'dead'): continue
                    raise Stop('statement ' + s['k'])
                v = self.rvalue(st, fr, s['r'], s['pt'])
                if not s['p'][1]: st.c[fr[s['p'][0]]] = v
                else: self.store(st, self.place(st, fr, s['p']), v)
            for t, s in self.term(inst, fr, bl[b]['t'], st): todo.append((t, s, False))
            if len(todo) > 3000 or len(out) > 3000: raise Stop('paths')
        return out
    def term(self, inst, fr, t, st):
        k = t['k']
        if k == 'goto': return [(t['t'], st)]
        if k == 'drop':
            try: v = self.readp(st, fr, t['p'])
            except Stop: return [(t['t'], st)]
            return [(t['t'], s) for s in self.drop(st, v)]
        if k == 'return': return [('return', st)]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'assert':
            v = self.operand(st, fr, t['o'])
            if v is UNK: return [(t['t'], st)]
            if isinstance(v, Tab):
                m = frozenset(b for b in st.mask if v.v[b] == int(t['exp']))
                if not m: return []
                st.mask = m; return [(t['t'], st)]
            if v != int(t['exp']):
                if self.general: return []
                raise Fails(t['msg'])
            return [(t['t'], st)]
        if k == 'switch':
            v = self.operand(st, fr, t['o'])
            T = self.T[t['ty']]
            cs = []
            for val, tgt in t['cases']:
                val = int(val)
                if T['k'] == 'int' and T['signed'] and val >= 1 << (T['bits'] - 1): val -= 1 << T['bits']
                cs.append((val, tgt))
            if v is UNK or isinstance(v, Pos):
                if not self.general: raise Stop('unknown branch')
                return [(tgt, st.copy()) for _, tgt in cs] + [(t['else'], st.copy())]
            if isinstance(v, Tab):
                out = []
                rest = set(st.mask)
                for val, tgt in cs:
                    m = frozenset(b for b in rest if v.v[b] == val)
                    if m:
                        s = st.copy(); s.mask = m; out.append((tgt, s)); rest -= m
                if rest:
                    s = st.copy(); s.mask = frozenset(rest); out.append((t['else'], s))
                return out
            for val, tgt in cs:
                if v == val: return [(tgt, st)]
            return [(t['else'], st)]
        if k == 'call':
            f = t['f']
            args = [self.operand(st, fr, a) for a in t['a']]
            out = []
            for v, s in self.callf(f, args, st, t.get('dt'), t.get('sp')):
                if t['t'] < 0:
                    if self.general: continue
                    raise Fails('panic')
                if not t['d'][1]: s.c[fr[t['d'][0]]] = v
                else: self.store(s, self.place(s, fr, t['d']), v)
                out.append((t['t'], s))
            return out
        raise Stop('terminator ' + k)
    def drop(self, st, v):
        if isinstance(v, Obj) and v.kind == 'bufw' and v.x:
            # an unflushed buffer is written when it is dropped, its failure unseen
            return [s for _, s in self.write(st, v.x, 'writing out the buffer')]
        return [st]
    # ---- a loop in the general reading
    def loop(self, inst, fr, h, body, S0):
        S = S0.copy()
        init = dict(S0.c)
        S.mask = FULL
        acc = {}
        for _ in range(60):
            start = S.copy(); start.mask = FULL
            backs, exits = [], []
            for t, s in self.run(inst, fr, h, start, h, body):
                (backs if t == h else exits).append((t, s))
            changed = False
            texts = {}
            for c, v in list(S.c.items()):
                for _, s in backs:
                    w = s.c.get(c, UNSET)
                    nv, ch = self.widen(c, (), init.get(c, UNSET), S.c[c], w, s, texts)
                    if ch: S.c[c] = nv; changed = True; break
                    if S.ev != s.ev: raise Stop('input or output in a loop')
            if not changed: break
        else: raise Stop('loop')
        if not backs: return [(t, s) for t, s in exits]
        out = []
        for t, s in exits:
            if any(isinstance(v, AIt) and not v.done and c in S.c and isinstance(S.c[c], AIt) and v.n for c, v in s.c.items()): raise Stop('a loop left early')
            if not any(isinstance(v, AIt) and v.done for c, v in s.c.items() if c in S.c): raise Stop('a loop that does not run through the input')
            n = s.copy(); n.mask = S0.mask
            for c, v in list(n.c.items()): n.c[c] = self.after(v, texts, init)
            out.append((t, n))
        return out
    def widen(self, c, path, v0, v, w, s, texts):
        """(new header value, changed)"""
        if isinstance(v, AT) and isinstance(v.head, Acc) and v.head.key == (c, path):
            if not isinstance(w, AT) or not isinstance(w.head, Acc) or w.head.key != v.head.key:
                return (TOP, True) if v is not TOP else (v, False)
            body = flat(w.segs)
            suf = v.head.suffix
            for b in s.mask:
                if body[b] is None: raise Stop('text')
                full = w.head.suffix + body[b]
                k = 0
                while k < len(suf) and k < len(full) and suf[-1 - k] == full[-1 - k]: k += 1
                suf = suf[len(suf) - k:] if k else ''
                texts.setdefault((c, path), {}).setdefault(b, set()).add(body[b])
            if suf != v.head.suffix: return AT(Acc((c, path), suf)), True
            return v, False
        if v == w or v is TOP or v is UNK: return v, False
        if isinstance(v, AIt) and isinstance(w, AIt) and v.fn == w.fn:
            if w.n != 1: raise Stop('%d bytes taken in a round' % w.n)
            return v, False
        if isinstance(v, (str, AT)) and isinstance(w, (str, AT, Top)):
            if isinstance(v, str): return AT(Acc((c, path), v)), True
            return TOP, True
        if isinstance(v, St) and isinstance(w, St) and len(v) == len(w):
            ch = False; out = []
            for i, (a, b) in enumerate(zip(v, w)):
                x, y = self.widen(c, path + (i,), v0[i] if isinstance(v0, St) and i < len(v0) else UNSET, a, b, s, texts)
                out.append(x); ch |= y
            return St(out), ch
        if isinstance(v, (int, Tab, Pos)) or w is UNK: return UNK, True
        if v is UNSET: return UNSET, False
        if isinstance(v, En) or isinstance(w, En) or isinstance(v, (Ref, Chars, It, Byts, Obj)): return UNSET, True
        raise Stop('loop changes a %s' % type(v).__name__)
    def after(self, v, texts, init):
        if isinstance(v, (Tab, Pos)): return UNK
        if isinstance(v, St): return St(self.after(x, texts, init) for x in v)
        if isinstance(v, En): return En(v.i, *[self.after(x, texts, init) for x in v.f])
        if isinstance(v, AT):
            if any(isinstance(s, Tab) for s in v.segs): return TOP
            if isinstance(v.head, Acc):
                c, path = v.head.key
                d = texts.get(v.head.key)
                p0 = init[c]
                for i in path: p0 = p0[i]
                if d is None: return TOP
                if isinstance(p0, AT): return TOP
                if any(len(d.get(b, ())) != 1 for b in range(256)): return TOP
                return AT(Rep(p0, [next(iter(d[b])) for b in range(256)], v.head.suffix), v.segs)
        return v
    # ---- input and output
    def fallible(self, st, what, good, bad=None, short=None):
        """fork on success"""
        if self.general:
            s2 = st.copy(); s2.failed = st.failed + (what,)
            if bad: bad(s2)
            r = good(st)
            return [(ok(r), st), (err(Obj('ioerr', what)), s2)]
        i = self.io; self.io += 1
        self.ops.append(what)
        if i in self.plan:
            st.failed = st.failed + (what,)
            if bad: bad(st)
            return [(err(Obj('ioerr', what)), st)]
        return [(ok(good(st)), st)]
    def write(self, st, x, what):
        def good(s): s.ev = s.ev + (x,); return UNIT
        return self.fallible(st, what, good)
    def text(self, st, v):
        v = self.deref(st, v)
        if isinstance(v, Byts): return ''.join(map(chr, v)) if all(isinstance(x, int) for x in v) else TOP
        return v
    def deref(self, st, v):
        k = 0
        while isinstance(v, Ref):
            v = self.load(st, v); k += 1
            if k > 8: raise Stop('reference')
        return v
    def owner(self, st, v):
        """the last reference before the value"""
        while isinstance(v, Ref):
            w = self.load(st, v)
            if not isinstance(w, Ref): return v
            v = w
        raise Stop('not a place')
    # ---- formatting
    def format(self, tmpl, args):
        """the byte program of core::fmt::Arguments"""
        out = ''
        i = 0; arg = 0
        while True:
            n = tmpl[i]; i += 1
            if n == 0: return out
            if n < 128:
                out = tpush(out, bytes(tmpl[i:i + n]).decode()); i += n
            elif n == 128:
                k = tmpl[i] | tmpl[i + 1] << 8; i += 2
                out = tpush(out, bytes(tmpl[i:i + k]).decode()); i += k
            elif n == 192:
                a = args[arg]; arg += 1
                out = tpush(out, self.show(a, 0, None, None))
            else:
                flags = 0x20 | 0x60000000; width = prec = None
                if n & 1: flags = tmpl[i] | tmpl[i + 1] << 8 | tmpl[i + 2] << 16 | tmpl[i + 3] << 24; i += 4
                if n & 2: width = tmpl[i] | tmpl[i + 1] << 8; i += 2
                if n & 4: prec = tmpl[i] | tmpl[i + 1] << 8; i += 2
                if n & 8: arg = tmpl[i] | tmpl[i + 1] << 8; i += 2
                if n & 16 or n & 32: raise Stop('format width from an argument')
                a = args[arg]; arg += 1
                out = tpush(out, self.show(a, flags, width, prec))
    def show(self, a, flags, width, prec):
        if a.kind != 'fmt': raise Stop('format argument')
        how, v = a.x
        if isinstance(v, (str, AT, Top)) or how == 'chr':
            if width is not None: raise Stop('padded text')
            if how == 'chr': return tab(chr, v)
            if how == 'debug': raise Stop('debug format')
            return v
        if v is UNK or isinstance(v, Pos): return TOP
        if not isinstance(v, (int, Tab)): raise Stop('format of %r' % type(v).__name__)
        alt, zero, plus = flags >> 23 & 1, flags >> 24 & 1, flags >> 21 & 1
        def one(x):
            if how in ('display', 'debug'): s, pre = str(abs(x)), ''
            elif how == 'lower_hex': s, pre = '%x' % x, '0x'
            elif how == 'upper_hex': s, pre = '%X' % x, '0x'
            elif how == 'octal': s, pre = '%o' % x, '0o'
            elif how == 'binary': s, pre = bin(x)[2:], '0b'
            else: raise Stop('format ' + how)
            sign = '-' if x < 0 and how in ('display', 'debug') else '+' if plus else ''
            pre = pre if alt else ''
            if width is not None:
                n = width - len(sign) - len(pre) - len(s)
                if n > 0:
                    if zero: s = '0' * n + s
                    else:
                        al = flags >> 29 & 3
                        fill = chr(flags & 0x1fffff) if flags & 0x1fffff else ' '
                        s = sign + pre + s
                        return s + fill * n if al == 0 else fill * (n // 2) + s + fill * (n - n // 2) if al == 2 else fill * n + s
            return sign + pre + s
        return tab(one, v)
    # ---- calls
    def callf(self, f, args, st, dt, sp):
        self.calls += 1
        p = f.get('rpath') or f.get('path') or ''
        name = p.split('::')[-1] if not p.endswith('>') else p
        m = f.get('method') or name
        tr = (f.get('trait') or '').split('::')[-1]
        if f.get('rcrate') == 'bin2str' or f.get('crate') == 'bin2str':
            if 'inst' in f:
                a = args
                if self.I[f['inst']].get('spread', -1) >= 0 or '{closure' in self.I[f['inst']]['name']: a = self.spread(f['inst'], args)
                return self.call(f['inst'], a, st)
        import toolstd
        g = toolstd.find(p, m, tr, f)
        if g is not None:
            r = g(self, st, args, f, dt)
            if r is not NotImplemented:
                return r if isinstance(r, list) else [(r, st)]
        if 'inst' in f: return self.call(f['inst'], args, st)
        raise Stop('call of ' + p)
    def spread(self, inst, args):
        f = self.I[inst]
        if len(args) == f['nargs']: return args
        if len(args) == 2 and isinstance(args[1], St) and 1 + len(args[1]) == f['nargs']: return [args[0]] + list(args[1])
        return args
    def apply(self, st, clo, dtype, *args):
        """call a closure value (its function is found by its type)"""
        inst = self.closure_inst(dtype)
        f = self.I[inst]
        env = clo
        if self.T[f['locals'][1]]['k'] == 'ref' and not isinstance(clo, Ref):
            env = Ref(self.cell(st, clo))
        a = [env] + list(args)
        if f['nargs'] == 2 and len(args) != 1: a = [env, St(args)]
        r = self.call(inst, a, st)
        if len(r) != 1: raise Stop('a closure that branches')
        return r[0][0]
    def closure_inst(self, T):
        key = re.search(r'main\.rs:(\d+):(\d+)', T['s'])
        for i, f in enumerate(self.I):
            if f['crate'] == 'bin2str' and '{closure' in f['name'] and f['blocks']:
                t = self.T[f['locals'][1]]
                if t['k'] == 'ref': t = self.T[t['e']]
                if t['s'] == T['s']: return i
        for i, f in enumerate(self.I):
            if T['k'] == 'fndef' and f['crate'] == 'bin2str' and T['s'].split('::')[-1].startswith(f['name'].split('::')[-1]): return i
        raise Stop('function value ' + T['s'])
