"""seed.py FILE.. : confirm planted changes and keep them under seeded/.

A FILE is JSON-free text:
  id: C01-foo
  property: C01
  needs: ...
  breaks: ...
  --- path            (file in /repo)
  <<<<
  old
  ====
  new
  >>>>
  --- demo
  rust source of main.rs
"""
import sys, os, re, subprocess, shutil, json, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/bae'
DEMO = r'''#!/bin/sh
# builds main.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
bae_rs = { path = "$repo" }
wav = "0.3"
petgraph = "0.5"
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/"
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline 2>&1
'''
def parse(t):
    head, *rest = re.split(r'^--- (.*)$', t, flags=re.M)
    meta = dict(re.findall(r'^(\w+): (.*)$', head, re.M))
    edits, demo = [], None
    for k, b in zip(rest[::2], rest[1::2]):
        if k.strip() == 'demo': demo = b.lstrip('\n')
        else:
            for o, n in re.findall(r'^<<<<\n(.*?)^====\n(.*?)^>>>>', b, re.M | re.S): edits.append((k.strip(), o, n))
    return meta, edits, demo
def run(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(f):
    meta, edits, demo = parse(open(f).read())
    sid = meta['id']
    run(['git', 'checkout', '-q', '--', '.'], SCR)
    run(['git', 'fetch', '-q', '/repo', 'HEAD'], SCR); run(['git', 'checkout', '-q', 'FETCH_HEAD'], SCR)
    for p, o, n in edits:
        s = open(os.path.join(SCR, p)).read()
        if s.count(o) != 1: return '%s: %d matches in %s of %r' % (sid, s.count(o), p, o[:60])
        open(os.path.join(SCR, p), 'w').write(s.replace(o, n))
    diff = run(['git', 'diff'], SCR).stdout
    d = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if demo: open(os.path.join(d, 'main.rs'), 'w').write(demo)
    json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    for x in ('modifiers','sounds','utils','some/path'): os.makedirs(SCR + '/.junk/' + x, exist_ok=True)
    r = run(['cargo', 'test', '--offline', '-q'], SCR)
    ok = True; msg = []
    fails = re.findall(r'^    (\S+)$', r.stdout, re.M)
    if 'could not compile' in r.stdout: msg.append('does not compile:\n' + r.stdout[-1500:]); ok = False
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = json.dumps(base)
    bad = [x for x in set(fails) if x in names]
    if bad: msg.append('tests fail: %s' % bad); ok = False
    if ok:
        r1 = run([os.path.join(d, 'demo.sh')], SCR)
        if r1.returncode == 0: msg.append('demo passes with the change'); ok = False
        elif 'error[' in r1.stdout or 'could not compile' in r1.stdout: msg.append('demo does not compile: ' + r1.stdout[-1500:]); ok = False
        run(['git', 'checkout', '-q', '--', '.'], SCR)
        r0 = run([os.path.join(d, 'demo.sh')], SCR)
        if r0.returncode: msg.append('demo fails on the unchanged tree: ' + r0.stdout[-800:]); ok = False
    run(['git', 'checkout', '-q', '--', '.'], SCR)
    if not ok:
        shutil.rmtree(d)
    return '%s: %s' % (sid, 'kept' if ok else '; '.join(msg))
if __name__ == '__main__':
    if not os.path.exists(SCR + '/.git'): subprocess.run(['git', 'clone', '-q', '/repo', SCR])
    for f in sys.argv[1:]: print(one(f), flush=True)
