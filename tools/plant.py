#!/usr/bin/env python3
"""developer helper: plant.py SPEC.py... creates seeded/<id> from specs and confirms each one in a scratch copy.
A spec file defines: id, prop, needs, breaks, edits=[(file, old, new)], demo (Rust main.rs text), deps (crates), or demo_sh."""
import json, os, shutil, subprocess, sys
S = '/tmp/plant'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           RUSTC_WRAPPER='', CARGO_TARGET_DIR=S + '/target', PYO3_PYTHON='/opt/vp/venv/bin/python', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
DEMO = '''#!/bin/bash
# exit 0: the property holds for the demonstrated case
D="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
[ -e "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
[profile.dev]
opt-level = 1
debug = 0
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/usr/local/bin:$PATH
cd "$T" || exit 3
cargo build --offline -q || exit 3
mkdir "$T/scratch" && cd "$T/scratch" && exec_rc=0
"$T/target/debug/demo" || exec_rc=1
exit $exec_rc
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=ENV, **k)
def fresh():
    os.makedirs(S, exist_ok=True)
    sh(f'rsync -a --delete --exclude /target /repo/ {S}/ || (cp -a /repo/. {S}/)')
    sh(f'git -C {S} checkout -q -- .')
def main():
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        d = f"/verif/seeded/{g['id']}"
        os.makedirs(d, exist_ok=True)
        fresh()
        ok = True
        for file, old, new in g['edits']:
            p = f'{S}/{file}'
            s = open(p).read()
            if s.count(old) != g.get('count', 1):
                print(g['id'], 'edit does not match once:', file, s.count(old)); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok: continue
        diff = sh(f'git -C {S} diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if 'demo_sh' in g:
            open(d + '/demo.sh', 'w').write(g['demo_sh'])
            for n, t in g.get('files', {}).items(): open(f'{d}/{n}', 'w').write(t)
        else:
            open(d + '/demo.sh', 'w').write(DEMO % '\n'.join(f'{c} = {{ path = "$REPO/{c}" }}' for c in g['deps']))
            open(d + '/demo.rs', 'w').write(g['demo'].lstrip())
        os.chmod(d + '/demo.sh', 0o755)
        r = sh('cargo build --workspace --offline && cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=S)
        log = r.stdout + r.stderr
        npass = sum(int(l.split(' passed')[0].split()[-1]) for l in log.splitlines() if l.startswith('test result'))
        tests = 'pass' if r.returncode == 0 else 'FAIL'
        py = ''
        if tests == 'pass' and (g.get('python', True)):
            os.makedirs('/tmp/plant_py', exist_ok=True)
            shutil.copy(S + '/target/debug/libd10.so', '/tmp/plant_py/d10.so')
            q = sh('PYTHONPATH=/tmp/plant_py PYTHONDONTWRITEBYTECODE=1 /opt/vp/venv/bin/python -m pytest -q -p no:cacheprovider .', cwd=S + '/d10-python/python-tests')
            py = q.stdout.strip().splitlines()[-1] if q.stdout.strip() else q.stderr[-200:]
        elif tests == 'FAIL':
            print('\n'.join(l for l in log.splitlines() if 'FAILED' in l or 'error' in l or 'panicked' in l)[:1500])
        bad = sh(f'bash {d}/demo.sh', cwd=S)
        fresh()
        good = sh(f'bash {d}/demo.sh', cwd=S)
        applies = sh(f'git -C {S} apply --check {d}/patch.diff').returncode == 0
        verdict = tests == 'pass' and bad.returncode == 1 and good.returncode == 0 and applies
        print(f"{'OK ' if verdict else 'BAD'} {g['id']}: tests {tests} ({npass}) python [{py}] demo patched={bad.returncode} clean={good.returncode} applies={applies}")
        if not verdict:
            print(' patched:', (bad.stdout + bad.stderr)[-600:]); print(' clean:', (good.stdout + good.stderr)[-600:])
main()
