"""mutants.py FILE [ID..] : run every check against changed scratch copies of /repo.

A FILE holds entries
  ## id | bug C01 C02 | src/path.rs        (or: ok)
  <<<<
  old
  ====
  new
  >>>>
  @ src/other.rs        (switches file)
For a bug at least one of the named checks must report; for `ok` none may.
"""
import sys, os, re, subprocess, shutil, threading, queue, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get('BASE', '/tmp/mu')
ALL = ['C%02d' % i for i in range(1, 44)] + ['C45', 'C47', 'C48', 'C49', 'C50', 'C51', 'C52', 'C53']
if os.environ.get('ONLY'): ALL = os.environ['ONLY'].split()
def parse(t):
    out = []
    for e in re.split(r'^## ', t, flags=re.M)[1:]:
        head, body = e.split('\n', 1)
        i, kind, f = [x.strip() for x in head.split('|')]
        edits = []
        for part in re.split(r'(?m)^(?=@ )', body):
            m = re.match(r'@ (\S+)\n', part)
            if m: f = m.group(1)
            for o, n in re.findall(r'^<<<<\n(.*?)^====\n(.*?)^>>>>', part, re.M | re.S): edits.append((f, o, n))
        out.append((i, kind, edits))
    return out
def job(slot, m):
    i, kind, edits = m
    d = '%s/s%d' % (BASE, slot)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for x in ('Cargo.toml', 'Cargo.lock'):
        if os.path.exists('/repo/' + x): shutil.copy('/repo/' + x, d)
    for x in ('src', 'utility'): shutil.copytree('/repo/' + x, d + '/' + x, ignore=shutil.ignore_patterns('target'))
    for f, o, n in edits:
        s = open('%s/%s' % (d, f)).read()
        m = re.match(r'\[(\d+)\] ?(.*)\n$', o) # "[n] text": the whole item that begins with the n-th line containing text
        if m:
            ls = [z for z in re.finditer(r'(?m)^([ \t]*)(.*)\n', s) if m[2] in z[2] and not z[2].startswith('//')]
            if len(ls) <= int(m[1]): return '?? %s: no %r' % (i, o)
            z = ls[int(m[1])]
            e = re.compile('(?m)^%s}.*\n' % z[1]).search(s, z.end())
            open('%s/%s' % (d, f), 'w').write(s[:z.start()] + n + s[e.end():]); continue
        if s.count(o) != 1: return '?? %s: %d matches of %r' % (i, s.count(o), o[:50])
        open('%s/%s' % (d, f), 'w').write(s.replace(o, n))
    if not edits: return '?? %s: no edits' % i
    t0 = time.time()
    p = subprocess.run(['./check.sh'] + ALL, cwd=ROOT, env=dict(os.environ, BAE_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    open('%s/out.%s' % (BASE, i), 'w').write(p.stdout)
    hits = re.findall(r'VIOLATION property=(C\d+)', p.stdout)
    if 'analysis build failed' in p.stdout or 'failed:' in p.stdout[:300]:
        return '?? %s: build: %s' % (i, ' / '.join(re.findall(r'^\S+\.rs:\S+ error.*', p.stdout, re.M)[:3]))
    want = kind.split()[1:]
    if kind.startswith('bug'):
        tag = 'ok' if set(want) & set(hits) == set(want) else ('part' if set(want) & set(hits) else ('MISS' if not hits else 'OTHER'))
    else: tag = 'ok' if not hits else 'FALSE'
    if p.returncode not in (0, 1): tag = 'EXIT%d' % p.returncode
    und = len(re.findall(r'^  undecided', p.stdout, re.M)); op = len(re.findall(r'^  open', p.stdout, re.M))
    return '%-5s %s [%s] -> %s (open %d, undecided %d, %.0fs)' % (tag, i, kind, ' '.join(sorted(hits)), op, und, time.time() - t0)
def main(a):
    ms = parse(open(a[0]).read())
    if a[1:]: ms = [m for m in ms if any(re.fullmatch(x, m[0]) for x in a[1:])]
    q = queue.Queue(); [q.put(m) for m in ms]
    os.makedirs(BASE, exist_ok=True)
    # a copy, so that the analysis can be edited meanwhile
    global ROOT
    snap = BASE + '/verif'
    shutil.rmtree(snap, ignore_errors=True); os.makedirs(snap)
    for x in ('analysis', 'driver', 'probe', 'check.sh', 'known_findings.txt', 'MANIFEST.json', 'setup.sh'):
        (shutil.copy if os.path.isfile(ROOT + '/' + x) else shutil.copytree)(ROOT + '/' + x, snap + '/' + x)
    shutil.rmtree(snap + '/probe/target', ignore_errors=True)
    ROOT = snap
    def w(k):
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            print(job(k, m), flush=True)
    ts = [threading.Thread(target=w, args=(k,)) for k in range(int(os.environ.get('SLOTS', '3')))]
    [t.start() for t in ts]; [t.join() for t in ts]
main(sys.argv[1:])
