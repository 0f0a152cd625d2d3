#!/usr/bin/env python3
"""Turns the planted bugs described in tools/bugs.py into seeded/<id>/ and tries them: seed.py [make|run] [ids...]

make: in a scratch copy of /repo, apply the edit, confirm that it builds and passes the stable tests and that the demonstration
fails with it and passes without it; then write seeded/<id>/.  run: apply each patch to /repo, run the check(s), undo."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))

DEMO = '''#!/bin/bash
# cwd: the repository. Builds the program beside this file against it, in a scratch directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
advanced_collections = { path = "$repo" }
[workspace]
X
cd "$d" || exit 9
export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q 2> "$d/log"
built=$?
'''
RUN = '''[ $built = 0 ] || { cat "$d/log"; exit 9; }
timeout 100 "$d/target/debug/demo"
'''
ACCEPT = '''# the program has to compile: it uses the element types the operations are documented for
[ $built = 0 ] || { cat "$d/log"; grep -Eq 'E0[0-9]{3}' "$d/log" && exit 101; exit 9; }
timeout 100 "$d/target/debug/demo"
'''
REJECT = '''# the program must not compile: the borrow checker has to refuse it
if [ $built = 0 ]; then echo "accepted: the compiler lets this program through"; exit 1; fi
grep -Eq 'E0[0-9]{3}' "$d/log" && grep -Eq '%s' "$d/log" || { cat "$d/log"; exit 9; }
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def edit(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, f)
        s = open(p).read()
        k = s.count(old)
        if k != 1:
            raise SystemExit('%s: %d occurrences of %r' % (f, k, old[:60]))
        open(p, 'w').write(s.replace(old, new))


def make(b, only_check=False):
    scratch = '/tmp/seedrepo'
    if not os.path.exists(scratch):
        subprocess.check_call(['cp', '-a', '/repo', scratch])
    sh('git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD; git clean -fdq', scratch)
    d = os.path.join(ROOT, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    rej = b.get('reject')
    text = DEMO + (REJECT % rej if rej else ACCEPT if b['property'] == 'T01' else RUN)
    if b['release']:
        text = text.replace('cargo build', 'cargo build --release').replace('/debug/', '/release/')
    open(os.path.join(d, 'main.rs'), 'w').write(b['demo'])
    open(os.path.join(d, 'demo.sh'), 'w').write(text)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    ok = sh('bash %s/demo.sh' % d, scratch)
    edit(scratch, b['edits'])
    diff = sh('git diff', scratch).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    bad = sh('bash %s/demo.sh' % d, scratch)
    t = sh('cargo test --workspace --offline 2>&1', scratch)
    base = json.load(open('/opt/vp/BASELINE.json'))
    fails = re.findall(r'^test (.*) \.\.\. FAILED', t.stdout, re.M)
    built = 'test result' in t.stdout
    sh('git checkout -q -f HEAD', scratch)
    good = ok.returncode == 0 and bad.returncode not in (0, 9) and built and not fails
    print('%-8s %s  clean=%d patched=%d built=%s fails=%s' % (b['id'], 'OK ' if good else 'BAD', ok.returncode, bad.returncode, built, fails[:4]))
    if not good:
        if ok.returncode:
            print(ok.stdout[-1500:])
        if not built:
            print(t.stdout[-1500:])
        shutil.rmtree(d)
    return good


def run(i, props=None):
    d = os.path.join(ROOT, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    r = sh('git apply %s/patch.diff' % d, '/repo')
    if r.returncode:
        print(i, 'patch does not apply', r.stdout)
        return
    try:
        for p in props or [prop]:
            r = sh('VERIF_TIER=%s python3 check.py --property %s' % (os.environ.get('VERIF_TIER', 'quick'), p), ROOT)
            v = [l.strip()[:230] for l in r.stdout.splitlines() if l.startswith('  ')]
            caught = r.returncode == 1 and 'VIOLATION property=' + p in r.stdout
            if props is None or caught or p == prop:
                print('%-8s %-4s %s rc=%d %s' % (i, p, 'CAUGHT' if caught else 'missed', r.returncode, (v or [r.stdout[-300:]])[0]))
    finally:
        sh('git checkout -- .', '/repo')


def main():
    from bugs import BUGS
    mode, ids = sys.argv[1], sys.argv[2:]
    if mode == 'make':
        for b in BUGS:
            if (ids and b['id'] in ids) or (not ids and not os.path.exists(os.path.join(ROOT, 'seeded', b['id']))):
                make(b)
    elif mode == 'run':
        for i in ids or sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
            run(i)
    elif mode == 'all':
        ps = [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
        for i in ids or sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
            run(i, ps)


main()
