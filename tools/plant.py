#!/usr/bin/env python3
"""Author a planted bug in a scratch copy of /repo and keep it in seeded/<id>/.

usage: plant.py ID SPEC.json
SPEC: {property, needs, what_it_breaks, edits: [[file, old, new], ...], demo: rust source or shell script, files: {name: hex}?}
The Rust program gets the directory of its files and that of the repository as arguments.
The bug must compile, pass the stable tests, and make demo.sh fail.
"""
import json, os, subprocess, sys, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/plant-seed'
DEMO = '''#!/bin/bash
# exit 0: behaves as promised; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
ext=()
for c in kdbx_rs uuid chrono base64 cipher argon2 sha2 hmac; do
    lib=$(ls -t target/debug/deps/lib$c-*.rlib 2>/dev/null | head -1)
    [ -n "$lib" ] && ext+=(--extern "$c=$lib")
done
rustc --edition 2021 -A warnings "$here/demo.rs" "${ext[@]}" -L dependency=target/debug/deps -o "$d/demo" || exit 3
repo=$PWD
cd "$d" && timeout 200 ./demo "$here" "$repo"
'''
BASE = '990c5a3'    # only lines of the original repository may be changed

def sh(cmd, cwd=SCR, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def main():
    bid, spec = sys.argv[1], json.load(open(sys.argv[2]))
    if not os.path.isdir(SCR):
        subprocess.run(['cp', '-a', '/repo', SCR], check=True)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    d = os.path.join(VERIF, 'seeded', bid)
    os.makedirs(d, exist_ok=True)
    for name, hx in spec.get('files', {}).items():
        open(os.path.join(d, name), 'wb').write(bytes.fromhex(hx))
    if spec['demo'].startswith('#!'):
        open(d + '/demo.sh', 'w').write(spec['demo'])
    else:
        open(d + '/demo.rs', 'w').write(spec['demo'])
        open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    env = '. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; cd %s; ' % (SCR, SCR)
    def build():
        # results must not depend on time stamps
        sh('find src -name "*.rs" | xargs touch')
        p = sh('bash -c "%s cargo test --workspace --no-run --offline"' % env)
        if p.returncode: print(p.stdout.decode()[-3000:]); sys.exit('does not compile')
    build()
    p = sh('bash %s/demo.sh' % d)
    if p.returncode: print(p.stdout.decode()[-3000:]); sys.exit('demo fails on the unchanged tree')
    for f, old, new in spec['edits']:
        t = open(os.path.join(SCR, f)).read()
        if t.count(old) != 1: sys.exit('%s: %d matches for %r' % (f, t.count(old), old))
        open(os.path.join(SCR, f), 'w').write(t.replace(old, new))
    f = None
    for l in sh('git diff -U0').stdout.decode().split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]
        elif l.startswith('@@'):
            a, _, n = l.split()[1][1:].partition(',')
            for k in range(int(a), int(a) + int(n or 1)):
                b = sh('git blame -s -L %d,%d HEAD -- %s' % (k, k, f)).stdout.decode()
                if not b.lstrip('^').startswith(BASE):
                    sys.exit('changes a line that is not original: ' + b)
    build()
    p = sh('bash -c "%s cargo test --workspace --no-fail-fast --offline -- --test-threads 8"' % env)
    out = p.stdout.decode('utf-8', 'replace')
    if p.returncode:
        print('\n'.join(l for l in out.split('\n') if 'FAILED' in l or 'panicked' in l)); sys.exit('tests catch it')
    p = sh('bash %s/demo.sh' % d)
    if p.returncode == 0: sys.exit('demo does not show the bug')
    print('demo with bug: exit', p.returncode, p.stdout.decode('utf-8', 'replace')[-300:])
    open(d + '/patch.diff', 'w').write(sh('git diff').stdout.decode())
    json.dump({k: spec[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
    sh('git checkout -q -- .')
    print('planted', bid)

main()
