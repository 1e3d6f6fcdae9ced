"""The byte-to-table tool: C43."""
from lib import *
import json, re
import toolmir
from toolmir import Tool, State, En, St, AT, Rep, Tab, Acc, TOP, FULL, UNIT, Stop, Fails

def table_text(lit, tail):
    """(what follows the last '[' of lit, what precedes the first ']' of tail) if only white space"""
    return lit.rsplit('[', 1)[-1].strip() == '' and '[' in lit and tail.split(']', 1)[0].strip() == '' and ']' in tail
def right(x):
    """a general text writes each byte once, in order, in decimal"""
    if not isinstance(x, AT) or not isinstance(x.head, Rep): return 'the text written is not of the form literal, one entry per byte, literal'
    h = x.head
    tail = ''.join(s for s in x.segs if isinstance(s, str))
    if any(isinstance(s, Tab) for s in x.segs): return 'the text does not end in a literal'
    if not table_text(h.lit0, tail): return 'an empty input gives %r' % (h.lit0 + tail)[:200]
    if not table_text(h.lit, tail): return 'the opening and the end are %r' % (h.lit + tail)[:200]
    for b, s in enumerate(h.body):
        m = re.fullmatch(r'\s*(\d+)\s*,\s*', s)
        if not m or m.group(1) != str(b): return 'byte %d is written %r' % (b, s)
        if h.cut:
            e = s[:-h.cut] if h.cut <= len(s) else ''
            m = re.fullmatch(r'\s*(\d+)\s*,?\s*', e)
            if not m or m.group(1) != str(b): return 'a last byte %d is written %r' % (b, e)
    return True
def parse(s):
    """the numbers between the brackets, or None"""
    i = s.rfind('[')
    j = s.find(']', i)
    if i < 0 or j < 0: return None
    xs = [x.strip() for x in s[i + 1:j].split(',')]
    if xs and xs[-1] == '': xs.pop()
    if any(not re.fullmatch(r'[0-9]+', x) for x in xs): return [x for x in xs]
    return [int(x) for x in xs]
def main_inst(d):
    for k, v in d['roots'].items():
        if k.split('::')[-1] == 'main': return v
    raise Missing('main of the tool')
def start(t, inst):
    st = State({}, (), (), FULL)
    try: return t.call(inst, [], st)
    except RecursionError: raise Stop('recursion')
def good_exit(v):
    if isinstance(v, En): return v.i == 0
    return True
INPUTS = [(), (0,), (255,), (7, 42, 200), tuple(range(256)), (255,) * 300, (0,) * 300, tuple((i * 37 + 11) % 256 for i in range(500)), (10, 13, 32, 44, 91, 93, 34, 92, 0, 128, 255, 127), tuple((i * i + i // 7) % 256 for i in range(1024)), tuple((i * i + i // 5) % 256 for i in range(9001))]
def C43(p):
    p.rule = 'in the general reading of the tool\'s MIR (any input; every fallible operation succeeding and failing) each path that reports success has had no failure and has written: literal opening, one decimal number per input byte in input order separated by commas, literal end'
    d = json.load(open(p.code.b2s))
    inst = main_inst(d)
    seen = {'paths': 0, 'fns': set(), 'calls': 0}
    cache = {}
    def general():
        if 'o' not in cache:
            t = Tool(d)
            try: cache['o'] = start(t, inst)
            except Stop as e: cache['o'] = e
            seen['paths'] += len(cache['o']) if isinstance(cache['o'], list) else 0
            seen['fns'] |= t.used; seen['calls'] += t.calls
        if isinstance(cache['o'], Stop): raise Undecided(str(cache['o']))
        return cache['o']
    def written(st):
        r = ''
        for x in st.ev: r = toolmir.tpush(r, x)
        return r
    def complete():
        n = 0
        for v, st in general():
            if good_exit(v) and not st.failed:
                r = right(written(st)); n += 1
                if r is not True: return r
        return True if n else 'no path succeeds'
    def honest():
        for v, st in general():
            if st.failed and good_exit(v): return 'success is reported after a failure in %s' % st.failed[0]
        return True
    def useful():
        for v, st in general():
            if not st.failed and not good_exit(v): return 'an error is reported although nothing failed'
        return True
    def particular(data, plan=(), short=False):
        t = Tool(d, data, plan); t.short = short
        try: o = start(t, inst)
        except Fails as e: return t, None, str(e), None
        seen['fns'] |= t.used
        if len(o) != 1: raise Stop('several outcomes')
        return t, o[0][0], None, o[0][1]
    def show_data(x): return '%d bytes %s' % (len(x), list(x[:12]))
    def refute():
        for x in INPUTS + [tuple(p.rng.randrange(256) for _ in range(p.rng.choice([1, 2, 19, 20, 21, 40, 100, 700]))) for _ in range(p.deep(20, 200))]:
            t, v, pan, st = particular(x)
            p.points += 1
            if pan: raise Witness('for %s the tool fails: %s' % (show_data(x), pan), 'main')
            if not good_exit(v): raise Witness('for %s an error is reported although nothing failed' % show_data(x), 'main')
            out = written(st)
            if not isinstance(out, str): raise NoEval('text')
            got = parse(out)
            if got != list(x):
                k = next((i for i, (a, b) in enumerate(zip(got or [], x)) if a != b), min(len(got or []), len(x)))
                raise Witness('for %s the table has %s entries; the first wrong one is number %d: %s' % (show_data(x), len(got) if got is not None else 'no', k, (got or [])[k:k + 1]), 'main')
    def hidden():
        for x in INPUTS[2:6] + INPUTS[:1]:
            t, v, pan, st = particular(x)
            for i in range(len(t.ops)):
                u, v, pan, st = particular(x, (i,))
                p.points += 1
                if pan is None and good_exit(v): raise Witness('for %s success is reported although %s failed' % (show_data(x), u.ops[i]), 'main')
            u, v, pan, st = particular(x, (), True)
            p.points += 1
            if pan is None and good_exit(v):
                out = written(st)
                if isinstance(out, str) and parse(out) != list(x): raise Witness('for %s a short read or write leaves a wrong table and success is reported' % show_data(x), 'main')
    p.ob('every byte is written once, in order, in decimal', 'main', complete, wrap(refute))
    p.ob('no failure is hidden', 'main', honest, wrap(hidden))
    p.ob('no failure is made up', 'main', useful, wrap(refute))
    p.info = {'tool_functions': sorted(seen['fns'])[:60], 'paths': seen['paths'], 'call_sites_interpreted': seen['calls']}
def wrap(f):
    def g():
        try: f()
        except Stop as e: raise NoEval(str(e))
    return g
