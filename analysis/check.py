"""check.py <property>...|all : decide properties of /repo's working tree.

  exit 0: every obligation discharged or undecided (printed), or known finding
  exit 1: VIOLATION property=<id> replay=<path>
"""
import sys, os, json, time, subprocess, fcntl, re, shutil, hashlib, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
WORK = os.path.join(ROOT, 'work')
REPO = os.environ.get('BAE_REPO', '/repo')
if REPO != '/repo': WORK = os.path.join(WORK, 'of-%s' % hashlib.sha256(REPO.encode()).hexdigest()[:8])
MODULES = ['p_gen', 'p_mod', 'p_fmt', 'p_util', 'p_snd', 'p_fx', 'p_tool']
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LIMIT = {'quick': 480, 'thorough': 3000}

class Broken(Exception): pass

# ---- the program under analysis ---------------------------------------------
def sh(cmd, cwd, env=None, check=True):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if check and p.returncode: raise Broken('%s failed:\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    return p
def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
def driver():
    d = os.path.join(ROOT, 'driver')
    exe = os.path.join(d, 'target', 'debug', 'mirdump')
    src = hashlib.sha256(open(os.path.join(d, 'src', 'main.rs'), 'rb').read()).hexdigest()
    stamp = exe + '.stamp'
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == src):
        sh(['cargo', '+nightly', 'build', '--offline'], d)
        open(stamp, 'w').write(src)
    return exe
def base_env(exe, out, crate):
    e = dict(os.environ)
    e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    e.update(MIRDUMP_CRATE=crate, MIRDUMP_OUT=out)
    for k in ('RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR'): e.pop(k, None)
    return e
FLAGS = '-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off -Awarnings'
def dump_probe(out):
    """extract the MIR reachable from the public interface.  Returns names of
    entry points that no longer type-check against the crate."""
    exe = driver()
    crate = os.path.join(ROOT, 'probe')
    env = base_env(exe, out, 'probe')
    env.update(RUSTFLAGS=FLAGS, RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_LOCAL='bae_rs', MIRDUMP_CALLS=out.replace('dump.json', 'calls.json'))
    lost = []
    src = open(os.path.join(crate, 'src', 'lib.rs')).read().split('\n')
    if REPO != '/repo':
        alt = os.path.join(WORK, 'probe-%s' % hashlib.sha256(REPO.encode()).hexdigest()[:8])
        os.makedirs(os.path.join(alt, 'src'), exist_ok=True)
        shutil.copy(os.path.join(crate, 'Cargo.lock'), alt)
        open(os.path.join(alt, 'Cargo.toml'), 'w').write(open(os.path.join(crate, 'Cargo.toml')).read().replace('"/repo"', '"%s"' % REPO))
        open(os.path.join(alt, 'src', 'lib.rs'), 'w').write('\n'.join(src))
        crate = alt
    target = os.path.join(crate, 'target')
    for attempt in range(4):
        if os.path.exists(out): os.remove(out)
        sh(['cargo', '+nightly', 'clean', '--offline', '-p', 'bae_rs', '-p', 'probe'], crate, env, check=False)
        p = sh(['cargo', '+nightly', 'check', '--offline', '--message-format=short'], crate, env, check=False)
        if p.returncode == 0 and os.path.exists(out): return lost
        bad = sorted({int(m.group(1)) for m in re.finditer(r'^src/lib\.rs:(\d+):\d+: error', p.stdout, re.M)})
        if not bad or 'could not compile `bae_rs`' in p.stdout: raise Broken('analysis build failed:\n' + p.stdout[-3000:])
        drop = False
        for n in bad:
            if n - 1 < len(src):
                lost += re.findall(r'pub fn (\w+)', src[n - 1])
                if 'pub fn' in src[n - 1] or src[n - 1].strip(): src[n - 1] = ''; drop = True
        if not drop: raise Broken('analysis build failed:\n' + p.stdout[-3000:])
        alt = os.path.join(WORK, 'probe-cut')
        os.makedirs(os.path.join(alt, 'src'), exist_ok=True)
        for f in ('Cargo.toml', 'Cargo.lock'): shutil.copy(os.path.join(crate, f), alt)
        open(os.path.join(alt, 'src', 'lib.rs'), 'w').write('\n'.join(src))
        crate = alt
    raise Broken('analysis build did not settle')
def dump_bin2str(out):
    exe = driver()
    if os.path.exists(out): os.remove(out)
    env = base_env(exe, out, 'bin2str')
    env.update(MIRDUMP_LOCAL='bin2str', MIRDUMP_ALLFNS='1')
    tmp = os.path.join(WORK, 'bin2str-out'); os.makedirs(tmp, exist_ok=True)
    sr = sysroot()
    p = sh([exe, sr + '/bin/rustc', '--crate-name', 'bin2str', '--crate-type', 'bin', '--edition', '2018', '--emit=metadata', '--out-dir', tmp,
            '--sysroot', sr] + FLAGS.split() + [os.path.join(REPO, 'utility', 'bin2str', 'src', 'main.rs')], ROOT, env, check=False)
    if not os.path.exists(out): raise Broken('bin2str: ' + p.stdout[-2000:])

# ---- known findings -----------------------------------------------------------
def known():
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(C\d+) key=(\S+) (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def decide(pid, code, lost, verbose=False):
    import importlib
    from rules import RULES
    from engine import Prop, Missing, short
    import core
    t0 = time.time()
    fn = None
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, m + '.py')):
            mod = importlib.import_module(m)
            fn = fn or getattr(mod, pid, None)
    if fn is None: raise Broken('no check for ' + pid)
    p = Prop(pid, code, TIER, SEED, LIMIT[TIER])
    missing = None
    try:
        fn(p)
        p.decide()
    except Missing as e:
        missing = str(e)
    except core.Undecided as e:
        p.notes = getattr(p, 'notes', []) + ['stopped: %s' % e]
        try: p.decide()      # what was stated before that
        except Missing as e: missing = str(e)
        except core.Undecided: pass
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    bad = p.bad
    n = len(p.obs)
    d = sum(o['status'] == 'discharged' for o in p.obs)
    viol = []
    fnd = []
    for name, anchor, w in bad:
        k = (pid, re.sub(r'\s+', '_', str(name)))
        hit = next((x for x in known() if x[0] == pid and x[1] == k[1]), None)
        (fnd if hit else viol).append((name, anchor, w.text, hit))
    for key, text in p.known:
        hit = next((x for x in known() if x[0] == pid and x[1] == key), None)
        (fnd if hit else viol).append((key, key, text, hit))
    if missing: viol.append(('anchor', missing, 'entry point %s no longer type-checks against the crate%s' % (missing, ' (%s)' % ', '.join(lost) if lost else ''), None))
    # evidence
    roots = sorted(code.used)
    fns, blocks, calls = code.functions(roots)
    def where(anchor):
        """source function(s) an obligation is about"""
        fs = code.functions(re.findall(r'\w+', str(anchor)))[0]
        return '; '.join(sorted({'%s: %s' % (re.sub(r':.*', '', f['span']), short(f['name'])) for f in fs[:1]}))
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'other', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'coverage': {
              'explanation': getattr(p, 'explanation', None) or 'Transfer functions (result, state after the call, panic conditions) extracted from the MIR of /repo for the entry points listed, as normal forms over gated diagrams; each obligation is an identity between such forms (or with the form the property specifies), decided on all paths at once. discharged: reduces to the same form. open: not identical, and no point reachable through the public interface separates the two sides. undecided: outside what the extraction models.',
              'rule': getattr(p, 'rule', None) or RULES.get(pid, ''),
              'obligations': n, 'discharged': d,
              'undischarged': [{k: o[k] for k in ('name', 'anchor', 'status', 'why') if k in o} for o in p.obs if o['status'] != 'discharged'],
              'entry_points_analysed': roots, 'entry_points_in_crate_dump': len(code.dump.roots),
              'functions_in_dump': len(code.dump.insts),
              'functions_analysed': sorted({'%s: %s' % (re.sub(r':.*', '', f['span']), short(f['name'])) for f in fns}),
              'basic_blocks': blocks, 'call_sites': calls,
              'separation_points': p.points, 'separation_points_discarded': p.skipped,
              'obligation_list': ['%s @ %s' % (o['name'], o['anchor']) for o in p.obs],
              **getattr(p, 'info', {}),
              'notes': p.notes if hasattr(p, 'notes') else [],
          },
          'assumptions': ['real-number reading of f32/f64 arithmetic except where the property is about rounding or exceptional values', 'std, rand, wav and petgraph behave as their documented contracts (models.py)']}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d separation points, %d entry points, %.1fs' % (pid, n, d, p.points, len(roots), time.time() - t0))
    for o in p.obs:
        if o['status'] not in ('discharged', 'violated'): print('  %s: %s @ %s: %s' % (o['status'], o['name'], o['anchor'], o.get('why', '')))
    if verbose:
        for x in getattr(p, 'notes', []): print('  note:', x)
    for k, a, t, hit in fnd: print('KNOWN-FINDING: property=%s %s' % (pid, hit[2]))
    if viol:
        rp = os.path.join(ROOT, 'evidence', 'replay-%s.json' % pid)
        json.dump([{'obligation': str(k), 'anchor': str(a), 'in': where(a), 'separation': t} for k, a, t, _ in viol], open(rp, 'w'), indent=1)
        for k, a, t, _ in viol: print('  violated: %s @ %s%s: %s' % (k, a, ' (%s)' % where(a) if where(a) else '', t[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0

def main(argv):
    os.makedirs(WORK, exist_ok=True)
    from engine import Code
    dump = os.path.join(WORK, 'dump.json')
    pids = [a for a in argv if re.match(r'C\d+$', a)]
    if 'all' in argv:
        pids = [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
    with open(os.devnull if os.environ.get("NOLOCK") else os.path.join(WORK, "lock"), "w") as lk:
        if not os.environ.get('NOLOCK'): fcntl.flock(lk, fcntl.LOCK_EX)
        if os.environ.get('DUMP'): dump, lost = os.environ['DUMP'], []
        else: lost = dump_probe(dump)
        b2s = os.path.join(WORK, 'bin2str.json')
        if 'C43' in pids: dump_bin2str(b2s)
        if len(pids) == 1:
            code = Code(dump); code.b2s = b2s; code.calls = dump.replace('dump.json', 'calls.json'); code.lost = lost
            return decide(pids[0], code, lost, True)
        # several: one process each
        rc = 0
        import concurrent.futures as cf
        def one(pid):
            e = dict(os.environ, DUMP=dump, NOLOCK='1')
            return subprocess.run([sys.executable, __file__, pid], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        fcntl.flock(lk, fcntl.LOCK_UN)
        with cf.ThreadPoolExecutor(8) as ex:
            for pid, r in zip(pids, ex.map(one, pids)):
                print(r.stdout.rstrip())
                if r.returncode not in (0, 1): print('%s: ERROR exit %d' % (pid, r.returncode)); rc = 2
                rc = max(rc, r.returncode)
        return rc
if __name__ == '__main__':
    try: sys.exit(main(sys.argv[1:]))
    except Broken as e:
        print(e); sys.exit(2)
