#!/usr/bin/env python3
"""plant.py new ID PROPERTY 'needs' 'what it breaks'   (edits already made in /tmp/plant) : records seeded/ID and verifies it
plant.py verify ID...  : builds, tests and demonstrates the patch in the scratch copy
plant.py check ID...   : applies it to /repo, runs the property's check, undoes it
The demonstration is /tmp/demo.rs for `new`."""
import json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')
S = '/tmp/plant'
DEMO = r'''#!/bin/bash
# exit 0: the property holds for the demonstrated case; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
prima_undine = { path = "$repo/prima_undine", features = ["derive"] }
prima_undine_contrib = { path = "$repo/prima_undine_contrib" }
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
EOF
export CARGO_TARGET_DIR="$d/target" RUSTFLAGS="-A warnings" CARGO_NET_OFFLINE=true
cargo build --offline --quiet --manifest-path "$d/Cargo.toml" || exit 3
timeout 120 "$d/target/debug/demo"
'''

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def scratch():
    if not os.path.isdir(S):
        sh('cp -a /repo ' + S, '/tmp')
    sh('git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD', S)

def tests():
    # the tests of the workspace, compared with the stable list
    r = sh('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/plant.log 2>&1;'
           'python3 /opt/vp/results.py /tmp/plant.json cargo:/tmp/plant.log', S)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    got = set(json.load(open('/tmp/plant.json'))['passed'])
    return sorted(stable - got)

def verify(i):
    d = os.path.join(SEED, i)
    scratch()
    a = sh('bash %s/demo.sh' % d, S)
    r = sh('git apply %s/patch.diff' % d, S)
    if r.returncode: return 'does not apply: ' + r.stdout
    b = sh('bash %s/demo.sh' % d, S)
    missing = tests()
    sh('git checkout -q -- .', S)
    ok = a.returncode == 0 and b.returncode != 0 and not missing
    return ('ok' if ok else 'BAD') + ' demo %d -> %d, tests missing %d %s %s' % (a.returncode, b.returncode, len(missing), missing[:3], '' if ok else a.stdout[-800:] + b.stdout[-800:])

def check(i, pid=None):
    d = os.path.join(SEED, i)
    pid = pid or json.load(open(d + '/meta.json'))['property']
    assert sh('git status --porcelain', '/repo').stdout.strip() == '', '/repo not clean'
    sh('git apply %s/patch.diff' % d, '/repo')
    t = time.time()
    try:
        r = sh('bin/check %s' % pid, ROOT)
    finally:
        sh('git checkout -q -- .', '/repo')
    lines = [x for x in r.stdout.splitlines()]
    return '%s %s exit %d %.0f s %s' % (i, pid, r.returncode, time.time() - t, ' | '.join(lines[:2])[:300])

a = sys.argv[1:]
if a[0] == 'new':
    i, pid, needs, what = a[1:5]
    d = os.path.join(SEED, i)
    os.makedirs(d, exist_ok=True)
    diff = sh('git diff', S).stdout
    assert diff.strip(), 'no edit in ' + S
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    shutil.copy('/tmp/demo.rs', d + '/demo.rs')
    json.dump({'property': pid, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    sh('git checkout -q -- .', S)
    print(i, verify(i))
elif a[0] == 'verify':
    for i in a[1:]: print(i, verify(i), flush=True)
elif a[0] == 'check':
    for i in a[1:]: print(check(*i.split(':')), flush=True)
elif a[0] == 'scratch':
    scratch()
