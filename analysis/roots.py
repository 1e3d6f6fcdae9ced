"""Symbolic execution of one probe entry point."""
import sys, time
from core import *
import core
from interp import Dump, Machine, State, Undecided
sys.setrecursionlimit(200000)

class Result:
    """value, final pointees of the arguments, obligations and events of one entry point"""
    pass

def inputs(m, inst, st, names=None):
    """one symbolic argument per parameter; references get a cell each"""
    args, cells = [], []
    for i in range(inst['nargs']):
        ty = inst['locals'][i + 1]
        T = m.T[ty]
        nm = 'a%d' % i
        if T['k'] in ('ref', 'ptr'):
            c = m.newcell(T['e'])
            v = m.sym('var', (nm, m.T[T['e']]['s']), T['e'], st)
            st.cells[c] = v
            args.append(ptr(c)); cells.append((c, T['e'], T.get('mut'), v))
        else:
            v = m.sym('var', (nm, T['s']), ty, st)
            args.append(v); cells.append((None, ty, False, v))
    return args, cells

def run_root(dump, name, mode='real', given=None, pc=TRUE, fuel=400000):
    """given: {arg index: value} replacing the symbolic argument (pointee for references)"""
    m = Machine(dump, mode)
    core.fuel = [fuel]
    st = State(pc, {})
    iid = dump.root(name)
    inst = dump.insts[iid]
    args, cells = inputs(m, inst, st)
    for i, v in (given or {}).items():
        c, ty, mu, _ = cells[i]
        if c is not None: st.cells[c] = v
        else: args[i] = v
        cells[i] = (c, ty, mu, v)
    r = Result()
    r.m, r.name, r.inst = m, name, inst
    v, s = m.run(iid, args, st)
    r.value, r.state = v, s
    r.args = [x[3] for x in cells]
    r.tys = [x[1] for x in cells]
    r.post = [s.cells.get(c) if c is not None else None for c, *_ in cells]
    r.oblig, r.events = m.oblig, m.events
    return r

if __name__ == '__main__':
    d = Dump(sys.argv[1])
    pats = sys.argv[2:]
    import fnmatch
    for k in d.roots:
        n = k.split('::')[-1]
        if pats and not any(fnmatch.fnmatch(n, p) for p in pats): continue
        t = time.time()
        try:
            r = run_root(d, n)
            dt = time.time() - t
            print('OK  %-22s %.2fs oblig=%d live=%d' % (n, dt, len(r.oblig), sum(1 for o in r.oblig if o.cond is not FALSE)))
            if len(pats) and '-v' in sys.argv:
                print('   ret', str(r.value)[:3000])
                for i, p in enumerate(r.post):
                    if p is not None and p is not r.args[i]: print('   post%d' % i, str(p)[:6000])
                for o in r.oblig:
                    if o.cond is not FALSE: print('   ob', o.kind, o.msg[:60], o.fn, str(o.cond)[:300])
                for e in r.events: print('   ev', e.name, str(e.args)[:300], str(e.pc)[:200])
                for l in r.m.loops: print('   loop', l)
        except Undecided as e:
            print('UND %-22s %.2fs %s  [%s %s]' % (n, time.time() - t, str(e)[:200], getattr(e, 'fn', ''), getattr(e, 'where', '')))
            if '-t' in sys.argv:
                import traceback; traceback.print_exc()
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            print('ERR %-22s %.2fs %s: %s  at %s:%s' % (n, time.time() - t, type(e).__name__, str(e)[:160], tb.filename.split('/')[-1], tb.lineno))
            if '-t' in sys.argv: traceback.print_exc()
