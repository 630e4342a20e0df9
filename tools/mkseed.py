#!/usr/bin/env python3
"""Create and confirm one planted bug: mkseed.py SPEC.py [id ...]

A spec file defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=RUST_MAIN)].
For each one a scratch copy of /repo is changed, built and tested, and the demonstration is run on the
unchanged and on the changed copy; only a change for which all of that works is kept in /verif/seeded.
"""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaves as it should; run in the repository's root
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
work=$(mktemp -d)
trap 'cd /; rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$root/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
syntaxis = { path = "$root" }
regex = "1"
serde = "1"
serde_json = "1"
tera = { version = "1", default-features = false }
[workspace]
TOML
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0
cargo build --offline -q 2> "$work/log" || { tail -20 "$work/log"; echo "demo does not build"; exit 3; }
export DEMO_ROOT="$root" DEMO_OUT="$work"
timeout 60 "$work/target/debug/demo" > "$work/out" 2>&1
rc=$?
tail -5 "$work/out"
exit $rc
'''
def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    spec = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    for s in spec:
        if only and s['id'] not in only: continue
        out = f"{HERE}/seeded/{s['id']}"
        w = '/tmp/seedw'
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        try:
            repo = w + '/repo'
            sh(['git', 'clone', '-q', '/repo', repo])
            for f, old, new in s['edits']:
                p = f'{repo}/{f}'
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = sh(['git', '-C', repo, 'diff']).stdout
            d = w + '/d'
            os.makedirs(d)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo.rs', 'w').write(s['demo'])
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            env = dict(os.environ, CARGO_TARGET_DIR=w + '/target')
            r = sh(['cargo', 'test', '--offline', '--no-fail-fast'], cwd=repo, env=env)
            bad = [l for l in r.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
            if r.returncode: print(s['id'], 'TESTS', bad[:5], r.stdout[-800:] if not bad else ''); continue
            sh(['git', '-C', repo, 'checkout', '--', '.'])
            a = sh(['bash', d + '/demo.sh'], cwd=repo)
            sh(['git', '-C', repo, 'apply', d + '/patch.diff'])
            b = sh(['bash', d + '/demo.sh'], cwd=repo)
            if a.returncode != 0 or b.returncode in (0, 2, 3):
                print(s['id'], 'DEMO unchanged', a.returncode, a.stdout[-600:], 'changed', b.returncode, b.stdout[-600:]); continue
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(d, out)
            print(s['id'], 'kept;', b.stdout.strip().splitlines()[-1:] )
        finally:
            shutil.rmtree(w, ignore_errors=True)
main()
