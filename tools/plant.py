#!/usr/bin/env python3
"""plant.py FILE [id...]: FILE defines P = [dict(id, property, needs, breaks, edits=[(path under src, old, new)], demo=rust main,
features=[...])].  Confirms each change in a scratch copy (builds, stable tests pass, demo passes without / fails with it), then
writes /verif/seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys, tempfile
SEED = os.environ.get('SEED_DIR', '/verif/seeded')
SCR = '/tmp/plantscratch'
DEMO = '''#!/bin/bash
# run in the repository root, after the build: exit 0 when the property holds
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
gauss-quad = { path = "$repo", default-features = false, features = [%s] }
%s
[profile.dev]
opt-level = 1
T
cargo build -q --offline --manifest-path "$t/Cargo.toml" --target-dir "$t/target" || exit 3
timeout 200 "$t/target/debug/demo"
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def fresh():
    shutil.rmtree(SCR, ignore_errors=True)
    sh(['cp', '-a', '/repo', SCR], check=True)
def test(dirn):
    ok = True
    base = json.load(open('/opt/vp/BASELINE.json'))
    for fe in ([], ['--all-features']):
        r = sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--locked', '--offline'] + fe, cwd=dirn,
               env=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only'))
        if r.returncode:
            ok = False
            print('\n'.join([l for l in r.stdout.split('\n') if 'FAILED' in l or 'error' in l or 'panicked' in l][:12]))
    return ok
P = runpy.run_path(sys.argv[1])['P']
sel = sys.argv[2:]
bad = []
for d in P:
    if sel and d['id'] not in sel:
        continue
    out = os.path.join(SEED, d['id'])
    if os.path.exists(out) and not sel:
        continue
    fresh()
    for p, old, new in d['edits']:
        q = SCR + '/src/' + p
        s = open(q).read()
        assert s.count(old) >= 1, (d['id'], p, old)
        open(q, 'w').write(s.replace(old, new, 1))
    diff = sh(['git', '-C', SCR, 'diff']).stdout
    w = tempfile.mkdtemp()
    fe = d.get('features', ['libm'])
    open(w + '/demo.rs', 'w').write(d['demo'])
    open(w + '/demo.sh', 'w').write(DEMO % (', '.join('"%s"' % f for f in fe), d.get('deps', '')))
    os.chmod(w + '/demo.sh', 0o755)
    r0 = sh(['bash', w + '/demo.sh'], cwd='/repo')
    r1 = sh(['bash', w + '/demo.sh'], cwd=SCR)
    t = test(SCR)
    ok = r0.returncode == 0 and r1.returncode not in (0, 3) and t and diff.strip()
    print(d['id'], 'OK' if ok else '*** REJECTED', 'clean rc', r0.returncode, 'patched rc', r1.returncode, 'tests', t, flush=True)
    if not ok:
        print(r0.stdout[-600:], r1.stdout[-600:])
        bad.append(d['id'])
        shutil.rmtree(w)
        continue
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + '/patch.diff', 'w').write(diff)
    shutil.copy(w + '/demo.rs', out); shutil.copy(w + '/demo.sh', out)
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
shutil.rmtree(SCR, ignore_errors=True)
print('rejected:', bad)
