"""Turn tools/seedspecs.py into seeded/<id>/ after confirming each one in a scratch copy of /repo.

Usage: mkseed.py [ID ...]   (development tool; no check uses it)
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
REPO = '/repo'
sys.path.insert(0, HERE)
from seedspecs import SEEDS

DEMO = r'''#!/bin/bash
# Exit 0 when the library behaves as the property says, nonzero otherwise.
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$H/demo.rs" "$T/src/main.rs" && cp "$H/demo.lock" "$T/Cargo.lock" || exit 2
cat > "$T/Cargo.toml" <<X
[package]
name = "lfademo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
lfa = { path = "$R" }
ndarray = "0.15"
spaces = "5.0"
X
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo run --offline -q
'''
PRE = '''#![allow(unused_imports, dead_code)]
use lfa::{basis::*, optim::*, *};
use ndarray::{arr1, arr2, Array1, Array2};
use spaces::{BoundedSpace, Equipartition, ProductSpace, Space, Surjection};
fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }
'''


def sh(cmd, cwd, env=None, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env, **k)


def mine():
    """lines added by our own fix commits, per file"""
    out, cur = {}, None
    base = sh('git rev-list --max-parents=0 HEAD', REPO).stdout.split()[0]
    for l in sh('git diff -U0 %s HEAD' % base, REPO).stdout.splitlines():
        if l.startswith('+++ b/'):
            cur = l[6:]
        elif l.startswith('+') and cur:
            out.setdefault(cur, set()).add(l[1:].strip())
    return out


def lock(prop):
    if prop == 'C31':
        return open(V + '/serdeharness/Cargo.lock').read().replace('name = "lfasaving"', 'name = "lfademo"')
    t = open(V + '/harness/Cargo.lock').read()
    return t.replace('name = "lfaoracle"', 'name = "lfademo"')


def demo_sh(prop):
    if prop != 'C31':
        return DEMO
    return DEMO.replace('lfa = { path = "$R" }', 'lfa = { path = "$R", features = ["serde"] }').replace('spaces = "5.0"', 'spaces = "5.0"\nserde = { version = "1.0", features = ["derive"] }\nserde_json = { version = "1.0", features = ["float_roundtrip"] }\nbincode = "1.3"')


def main():
    ids = sys.argv[1:] or list(SEEDS)
    work = tempfile.mkdtemp(prefix='seedwork')
    subprocess.check_call('cp -a %s %s/repo' % (REPO, work), shell=True)
    R = work + '/repo'
    own = mine()
    bad = []
    for i in ids:
        prop, edits, demo, needs, what = SEEDS[i]
        sh('git checkout -- .', R)
        err = None
        for f, old, new in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(old) != 1:
                err = 'pattern occurs %d times in %s' % (s.count(old), f)
                break
            open(p, 'w').write(s.replace(old, new))
        if err:
            bad.append((i, err)); continue
        diff = sh('git diff', R).stdout
        gone = [l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        allmine = set().union(*own.values()) if own else set()
        if gone and all(g in allmine for g in gone if g):
            bad.append((i, 'only changes lines of our own commits')); continue
        d = os.path.join(V, 'seeded', i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(demo_sh(prop))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(PRE + demo)
        open(d + '/demo.lock', 'w').write(lock(prop))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
        b = sh('cargo build --offline 2>&1', R)
        t = sh('cargo test --offline 2>&1', R)
        p1 = sh('bash %s/demo.sh' % d, R)
        sh('git checkout -- .', R)
        p0 = sh('bash %s/demo.sh' % d, R)
        tests = [l for l in t.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = json.dumps(base)
        ft = [l for l in tests if l.split()[1].split('::')[-1] in stable]
        ok = b.returncode == 0 and not ft and p1.returncode != 0 and p0.returncode == 0
        print('%-32s %s build=%d fails=%s patched=%d clean=%d' % (i, 'ok ' if ok else 'BAD', b.returncode, ft, p1.returncode, p0.returncode), flush=True)
        if 'panicked' not in p1.stderr:
            print('   patched demo stderr:', p1.stderr[-300:])
        if not ok:
            print(p0.stderr[-1500:]); print(b.stdout[-800:] if b.returncode else '')
            bad.append((i, 'not confirmed')); shutil.rmtree(d)
    shutil.rmtree(work)
    print('bad:', bad)


main()
