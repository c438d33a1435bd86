#!/usr/bin/env python3
"""seedtool.py gen|check [ID...]: write and confirm the planted bugs of /verif/seeded (development only; no check reads it).
A bug is defined in vx/seeddefs.py; gen writes patch.diff, demo.sh, main.rs, meta.json; check confirms in a scratch copy of
/repo that the patch applies, builds, passes the stable tests, and that the demo fails with it and passes without."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, 'seeded')
sys.path.insert(0, os.path.join(V, 'vx'))

DEMO = '''#!/bin/bash
# runs the small program main.rs beside this file against the crate in the current directory
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'cd /; find "$tmp" -delete' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
tmi = {{ path = "$repo", default-features = false, features = [{feats}] }}
{deps}
[profile.dev]
debug = false
incremental = false
{profile}
TOML
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS="{flags}"
cargo build --offline -q
timeout 60 ./target/debug/demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def gen(d):
    out = os.path.join(SD, d['id'])
    os.makedirs(out, exist_ok=True)
    tmp = f'/tmp/seed-gen-{os.getpid()}'
    sh(f'git -C /repo worktree prune; git clone -q /repo {tmp}')
    try:
        for f, old, new in d['edits']:
            p = os.path.join(tmp, f)
            s = open(p).read()
            n = s.count(old)
            want = d.get('count', 1)
            assert n == want, f"{d['id']}: {n} matches of {old!r} in {f}"
            open(p, 'w').write(s.replace(old, new))
        diff = sh(f'git -C {tmp} diff').stdout
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    open(os.path.join(out, 'main.rs'), 'w').write(d['main'].lstrip('\n'))
    demo = DEMO.format(feats=', '.join(f'"{x}"' for x in d.get('feats', [])), deps=d.get('deps', ''), flags=d.get('flags', '-C target-cpu=x86-64'),
                       profile=d.get('profile', ''))
    p = os.path.join(out, 'demo.sh')
    open(p, 'w').write(demo)
    os.chmod(p, 0o755)
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)


def check(ids):
    work = '/tmp/seed-work'
    # build.sh and test.sh name /repo: run them with the copy's path put in
    if not os.path.exists(work):
        sh(f'cp -a /repo {work}')
    sh(f'git -C {work} fetch -q /repo HEAD; git -C {work} checkout -q -f FETCH_HEAD; git -C {work} clean -fdq')
    for s in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + s).read().replace('/repo', work)
        open(f'/tmp/seed-{s}', 'w').write(t)
    base = set(x for x in json.load(open('/opt/vp/BASELINE.json'))['stable_pass']) if 'stable_pass' in json.load(open('/opt/vp/BASELINE.json')) else None
    for i in ids:
        p = os.path.join(SD, i)
        sh(f'git -C {work} checkout -q -f .')
        r = sh(f'cd {work} && bash {p}/demo.sh', timeout=600)
        clean = r.returncode
        if clean:
            print(i, 'DEMO FAILS CLEAN', r.stdout[-1500:])
            continue
        r = sh(f'git -C {work} apply {p}/patch.diff')
        if r.returncode:
            print(i, 'NO APPLY', r.stdout)
            continue
        r = sh('bash /tmp/seed-build.sh')
        if r.returncode:
            print(i, 'BUILD FAILS', r.stdout[-1500:])
            continue
        sh('bash /tmp/seed-test.sh /tmp/seed-out.json')
        o = json.load(open('/tmp/seed-out.json'))
        bad = failing(o)
        r = sh(f'cd {work} && bash {p}/demo.sh', timeout=600)
        ok = not bad and r.returncode != 0
        print(i, 'OK' if ok else 'BAD', 'tests failing:', bad[:5], 'demo', r.returncode, r.stdout[-200:].replace('\n', ' | '), flush=True)
    sh(f'git -C {work} checkout -q -f .')


def failing(o):
    b = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(b.get('stable') or b.get('passed') or b.get('pass') or [])
    passed = set(o.get('passed') or o.get('pass') or [])
    return sorted(stable - passed)


def run(ids, D):
    import time
    for i in ids:
        p = os.path.join(SD, i)
        prop = json.load(open(p + '/meta.json'))['property']
        t = time.time()
        r = sh(f'git -C /repo apply {p}/patch.diff')
        if r.returncode:
            print(i, 'PATCH DOES NOT APPLY', r.stdout)
            continue
        try:
            r = sh(f'VERIF_SEED=1 VERIF_TIER=quick python3 {V}/check.py {prop} quick', timeout=900)
        finally:
            sh('git -C /repo checkout -- .')
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        print(i, prop, 'exit', r.returncode, v[:2], f'{time.time() - t:.0f}s', '' if v else r.stdout[-600:], flush=True)


if __name__ == '__main__':
    import seeddefs as defs
    D = {d['id']: d for d in defs.DEFS}
    ids = sys.argv[2:] or sorted(D)
    if sys.argv[1] == 'gen':
        for i in ids:
            gen(D[i])
    elif sys.argv[1] == 'run':
        run(ids, D)
    else:
        check(ids)
