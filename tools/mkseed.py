#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy and write them to /verif/seeded.
   mkseed.py <file in /verif/seeds> [id ...]
A seeds file is Python with a list SEEDS of
   dict(id, prop, needs, breaks, edits=[(file, old, new), ...], demo=rust source of main.rs)"""
import json, os, shutil, subprocess, sys, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/seed/repo'
DEMO = r'''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd at the repository root
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/main.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
essay-tensor = { path = "$R" }
essay-opt = { path = "$R/crates/essay-opt" }
num-complex = "0.4"
[workspace]
EOF
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/Cargo.lock"
[ -f "$R/Cargo.lock" ] || { [ -f /opt/vp/Cargo.lock ] && cp /opt/vp/Cargo.lock "$W/Cargo.lock"; }
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd "$W" || exit 3
cargo build --offline -q || exit 3
./target/debug/demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prep():
    os.makedirs('/tmp/seed', exist_ok=True)
    sh('rsync -a --delete /repo/ %s/ || (rm -rf /tmp/seed/repo; cp -a /repo /tmp/seed/repo)' % SC)
    sh('git checkout -q -- . && git clean -fdq', cwd=SC)


def tests():
    env = dict(os.environ, CARGO_TARGET_DIR=SC + '/target', CARGO_INCREMENTAL='1', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    j = SC + '/target/nextest/default/junit.xml'
    if os.path.exists(j):
        os.remove(j)
    r = sh('cargo build --workspace --all-targets --offline', cwd=SC, env=env)
    if r.returncode:
        return 'build: ' + r.stdout[-1500:]
    sh('cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml', cwd=SC, env=env)
    if not os.path.exists(j):
        return 'no junit'
    sh('python3 /opt/vp/results.py /tmp/seed/out.json junit:%s' % j)
    got = json.load(open('/tmp/seed/out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss = sorted(set(base) - set(got['passed']))
    return 'tests fail: %s' % miss if miss else None


def main(a):
    seeds = runpy.run_path(a[0])['SEEDS']
    ids = a[1:]
    ok = True
    for s in seeds:
        if ids and s['id'] not in ids:
            continue
        dst = os.path.join(HERE, 'seeded', s['id'])
        if not ids and os.path.exists(dst + '/patch.diff'):
            continue
        prep()
        tmp = '/tmp/seed/demo'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/main.rs', 'w').write(s['demo'])
        open(tmp + '/demo.sh', 'w').write(DEMO)
        r = sh('bash %s/demo.sh' % tmp, cwd=SC)
        if r.returncode != 0:
            print(s['id'], 'DEMO FAILS ON CLEAN', r.stdout[-1500:])
            continue
        bad = False
        for f, o, n in s['edits']:
            p = os.path.join(SC, f)
            t = open(p).read()
            if t.count(o) != 1:
                print(s['id'], 'EDIT does not apply once:', f, t.count(o))
                bad = True
                break
            open(p, 'w').write(t.replace(o, n))
        if bad:
            continue
        e = tests()
        if e:
            print(s['id'], e)
            continue
        r = sh('bash %s/demo.sh' % tmp, cwd=SC)
        if r.returncode == 0 or r.returncode == 3:
            print(s['id'], 'DEMO DOES NOT FAIL', r.returncode, r.stdout[-600:])
            continue
        os.makedirs(dst, exist_ok=True)
        d = sh('git diff', cwd=SC).stdout
        open(dst + '/patch.diff', 'w').write(d)
        shutil.copy(tmp + '/main.rs', dst)
        shutil.copy(tmp + '/demo.sh', dst)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(dst + '/meta.json', 'w'), indent=1)
        print(s['id'], 'OK', r.stdout.strip().splitlines()[-1:][0][:160] if r.stdout.strip() else '')


main(sys.argv[1:])
