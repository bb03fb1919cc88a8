#!/usr/bin/env python3
"""Make and verify planted bugs (not part of any check).

seed.py make FILE     create /verif/seeded/<id>/ from the definitions in FILE (python: SEEDS list)
seed.py verify ID...  build, stable tests, demo with and without the patch, in /repo itself
seed.py check ID...   run the property's quick check with the patch applied
"""
import json, os, shutil, subprocess, sys, time, tempfile

V = '/verif'
R = '/repo'
H = '/verif/seeded'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def clean():
    sh('git -C /repo checkout -- .')
    # cargo goes by modification times; git restores with the current time
    assert sh('git -C /repo status --porcelain').stdout == ''

LIB_DEMO = r'''#!/bin/bash
# exit 0: behaves as required; nonzero: does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cambrian = { path = "$repo" }
tokio = { version = "1", features = ["full"] }
futures = "0.3"
serde_json = "1"
async-trait = "0.1"
async-broadcast = "0.5"
rand = "0.8"
[workspace]
END
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$tmp/"; fi
cd "$tmp" || exit 3
export CARGO_TARGET_DIR=$tmp/target CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg cambrian_verif -Awarnings"
cargo build -q --offline || exit 3
timeout 120 ./target/debug/demo
'''

CLI_HEAD = r'''#!/bin/bash
# exit 0: behaves as required; nonzero: does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
bin=$repo/target/debug/cambrian
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
if [ ! -x "$bin" ]; then
  CARGO_NET_OFFLINE=true cargo build -q --offline --bin cambrian || exit 3
fi
cd "$tmp" || exit 3
'''

def make(path):
    ns = {}
    exec(open(path).read(), ns)
    only = sys.argv[3:]
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = f'{H}/{s["id"]}'
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        clean()
        for f, old, new in s['edits']:
            p = f'{R}/{f}'
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run('git -C /repo diff', shell=True, text=True, stdout=subprocess.PIPE).stdout
        assert diff
        open(f'{d}/patch.diff', 'w').write(diff)
        clean()
        if 'main' in s:
            open(f'{d}/main.rs', 'w').write(s['main'])
            open(f'{d}/h.rs', 'w').write(ns['H_RS'])
            open(f'{d}/demo.sh', 'w').write(LIB_DEMO)
        else:
            open(f'{d}/demo.sh', 'w').write(CLI_HEAD + s['cli'])
            for n, c in s.get('files', {}).items():
                open(f'{d}/{n}', 'w').write(c)
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(f'{d}/meta.json', 'w'), indent=1)
        print('made', s['id'])

def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'stable_tests', 'passing', 'pass', 'tests'):
        if k in b:
            v = b[k]
            return set(v)
    raise SystemExit(f'BASELINE keys {list(b)}')

def passed(out):
    o = json.load(open(out))
    for k in ('passed', 'pass'):
        if k in o:
            return set(o[k])
    raise SystemExit(f'test output keys {list(o)}')

def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, r.stdout[-1500:]

def demo(i):
    # run from another folder, as the final check does
    t = tempfile.mkdtemp()
    try:
        d = f'{t}/x'
        shutil.copytree(f'{H}/{i}', d, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        t0 = time.time()
        try:
            r = sh(f'bash {d}/demo.sh', cwd=R, timeout=300)
        except subprocess.TimeoutExpired:
            return 'timeout', '', time.time() - t0
        return r.returncode, r.stdout[-1200:], time.time() - t0
    finally:
        shutil.rmtree(t)

def verify(ids):
    clean()
    ok, out = build(); assert ok, out
    res = {}
    for i in ids:
        rc, out, dt = demo(i)
        res[i] = rc
        print(f'{i}: unchanged demo rc={rc} {dt:.0f}s', '' if rc == 0 else out, flush=True)
    for i in ids:
        if res[i] != 0:
            continue
        r = sh(f'git -C /repo apply {H}/{i}/patch.diff')
        if r.returncode:
            print(i, 'PATCH FAILS', r.stdout); clean(); continue
        try:
            ok, out = build()
            if not ok:
                print(i, 'BUILD FAILS', out); continue
            r = sh('bash /opt/vp/test.sh /tmp/o.json')
            missing = stable() - passed('/tmp/o.json')
            if missing:
                print(i, 'TESTS FAIL', sorted(missing)[:5]); continue
            rc, out, dt = demo(i)
            print(f'{i}: patched demo rc={rc} {dt:.0f}s', 'OK' if rc not in (0, 'timeout') else 'BAD ' + out, '|', out.strip()[-200:].replace('\n', ' / '), flush=True)
        finally:
            clean()
    build()

def check(ids):
    for i in ids:
        p = json.load(open(f'{H}/{i}/meta.json'))['property']
        r = sh(f'git -C /repo apply {H}/{i}/patch.diff')
        assert r.returncode == 0, r.stdout
        t0 = time.time()
        try:
            r = sh(f'python3 check.py {p}', cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'), timeout=1200)
            vs = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(f'{i}: {p} rc={r.returncode} {time.time()-t0:.0f}s', 'CAUGHT' if r.returncode == 1 and vs else 'MISSED', (vs or [''])[0][:160], flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
        finally:
            clean()

if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(H))
        (verify if sys.argv[1] == 'verify' else check)(ids)
