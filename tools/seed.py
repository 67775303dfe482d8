#!/usr/bin/env python3
"""make seeded bugs from tools/seeds/*.py: each defines SEEDS = [dict(id, property, edits=[(file, old, new)], main=<rust>, needs, what)]
usage: seed.py [-c] [ids...]   (-c: confirm: stable tests pass with the patch, demo passes without and fails with it)"""
import sys, os, json, subprocess, shutil, glob, importlib.util, re
V = '/verif'
conf = '-c' in sys.argv
ids = [a for a in sys.argv[1:] if a[0] != '-']
DEMO = '''#!/bin/bash
# run in the repository's directory after its build; builds a small program against it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "${tmp:?}"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$tmp/src/main.rs" && cp "$repo/Cargo.lock" "$tmp/Cargo.lock" || exit 2
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rust-systre = { path = "$repo" }
num-bigint = "0.4.3"
num-integer = "0.1.45"
num-rational = "0.4.1"
num-traits = "0.2.15"
[workspace]
EOF
cd "$tmp" || exit 2
CARGO_TARGET_DIR="$tmp/target" cargo build --offline -q || exit 3
timeout 120 "$tmp/target/debug/demo"
'''
TESTDEMO = '''#!/bin/bash
# run in the repository's directory after its build; compiles a copy of it with one added unit test in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "${tmp:?}"' EXIT
cp -r "$repo/src" "$repo/Cargo.toml" "$repo/Cargo.lock" "$tmp/" || exit 2
cat "$here/demo_test.rs" >> "$tmp/%s"
cd "$tmp" || exit 2
CARGO_TARGET_DIR="$tmp/target" timeout 250 cargo test --offline -q --lib seeded_demo
'''

def load():
    out = []
    for p in sorted(glob.glob(V + '/tools/seeds/*.py')):
        sp = importlib.util.spec_from_file_location('s', p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.SEEDS
    return out

def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, **k)

W = '/tmp/seedw'
for s in load():
    if ids and s['id'] not in ids:
        continue
    d = V + '/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    if os.path.exists(W):
        shutil.rmtree(W)
    shutil.copytree('/repo', W, symlinks=True)
    for f, o, n in s['edits']:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(o) != 1:
            sys.exit('%s: %d matches of %r' % (s['id'], t.count(o), o))
        open(p, 'w').write(t.replace(o, n))
    diff = sh('git diff', W).stdout
    open(d + '/patch.diff', 'w').write(diff)
    if 'test' in s:
        open(d + '/demo_test.rs', 'w').write('\n#[cfg(test)]\nmod seeded_demo {\n    use super::*;\n' + s['test'] + '\n}\n')
        open(d + '/demo.sh', 'w').write(TESTDEMO % s['file'])
    else:
        open(d + '/main.rs', 'w').write(s['main'])
        open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
    if conf:
        t = sh('timeout 200 cargo test --offline --locked 2>&1 | grep -E "^test result|FAILED|error|panicked" | head -8', W)
        ok = 'FAILED' not in t.stdout and 'error' not in t.stdout and 'ok.' in t.stdout
        b = sh('bash %s/demo.sh' % d, W)
        a = sh('bash %s/demo.sh' % d, '/repo')
        r = 'OK' if ok and a.returncode == 0 and b.returncode not in (0, 2, 3) else 'BROKEN'
        c = sh('SA_REPO=%s python3 %s/check.py %s | tail -1' % (W, V, s['property']), V)
        print(s['id'], r, 'tests', ok, 'demo clean', a.returncode, 'patched', b.returncode, '|', 'CAUGHT' if 'VIOLATION' in c.stdout else 'missed', flush=True)
        if r != 'OK':
            print(t.stdout, a.stdout[-1500:], a.stderr[-1500:], 'PATCHED:', b.stdout[-800:], b.stderr[-800:])
    else:
        print(s['id'], 'written')
    shutil.rmtree(W)
