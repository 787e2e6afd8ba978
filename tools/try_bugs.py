#!/usr/bin/env python3
"""Apply planted bugs to /repo one by one and run the check of their property
(or the checks given after '--'). usage: try_bugs.py [ID...] [-- CHECK...]"""
import json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = []
if '--' in args:
    k = args.index('--'); checks = args[k+1:]; args = args[:k]
ids = args or sorted(os.listdir(VERIF + '/seeded'))
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], stdout=subprocess.PIPE).stdout
for b in ids:
    d = VERIF + '/seeded/' + b
    meta = json.load(open(d + '/meta.json'))
    try:
        subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
        for c in checks or [meta['property']]:
            t = time.time()
            p = subprocess.run([sys.executable, VERIF + '/run.py', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=VERIF)
            out = p.stdout.decode('utf-8', 'replace').strip().split('\n')
            v = 'CAUGHT' if p.returncode == 1 and any(l.startswith('VIOLATION property=' + c + ' ') for l in out) else ('quiet' if p.returncode == 0 else 'ERROR %d' % p.returncode)
            print('%-28s %s %-8s %5.1fs %s' % (b, c, v, time.time() - t, out[-2][:200] if v == 'CAUGHT' and len(out) > 1 else out[-1][:200] if v != 'quiet' else ''), flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
