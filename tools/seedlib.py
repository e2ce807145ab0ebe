"""Creates and validates planted bugs: python3 tools/mkseeds.py [id...]   (works on a scratch copy under /tmp)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/sh
# Builds main.rs (beside this file) against the bytecodec in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
bytecodec = { path = "$repo", features = [%s] }
%s
[workspace]
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline
'''


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def baseline():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b


def make(seed, wt):
    """seed: dict(id, property, needs, breaks, edits=[(file, old, new)], main, features)"""
    d = f"{V}/seeded/{seed['id']}"
    sh(['git', '-C', wt, 'checkout', '-q', '--', '.'])
    for f, old, new in seed['edits']:
        p = f'{wt}/{f}'
        s = open(p).read()
        n = s.count(old)
        if n != seed.get('count', 1):
            return f'old text found {n} times in {f}: {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new))
    diff = sh(['git', '-C', wt, 'diff']).stdout
    if not diff:
        return 'empty patch'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/main.rs', 'w').write(seed['main'].lstrip('\n'))
    feats = seed.get('features', [])
    deps = ''.join(f'{x}\n' for x in seed.get('deps', []))
    open(f'{d}/demo.sh', 'w').write(DEMO % (', '.join(f'"{x}"' for x in feats), deps))
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    # the patched tree passes the tests, the demo fails
    t = sh('cargo test --workspace --all-features --offline 2>&1', cwd=wt)
    if t.returncode != 0:
        bad = [l for l in t.stdout.split('\n') if 'FAILED' in l or 'panicked' in l or l.startswith('error')]
        return 'existing tests fail: ' + ' | '.join(bad[:4])
    r = sh([f'{d}/demo.sh'], cwd=wt, timeout=400)
    if r.returncode == 0:
        return 'demo passes with the patch'
    tail = [l for l in r.stdout.strip().split('\n') if 'panicked' in l or 'assert' in l or 'left' in l or 'right' in l or 'error' in l][:4]
    sh(['git', '-C', wt, 'checkout', '-q', '--', '.'])
    r = sh([f'{d}/demo.sh'], cwd=wt, timeout=400)
    if r.returncode != 0:
        return 'demo fails on the unchanged tree: ' + r.stdout[-600:]
    return None if True else tail


def run(seeds, argv):
    todo = [s for s in seeds if not argv or s['id'] in argv]
    wt = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        shutil.rmtree(wt)
        sh(['cp', '-a', '/repo', wt])
        for s in todo:
            e = make(s, wt)
            print(s['id'], s['property'], 'OK' if e is None else 'BAD ' + e, flush=True)
            if e is not None and not os.environ.get('KEEP'):
                shutil.rmtree(f"{V}/seeded/{s['id']}", ignore_errors=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
