"""C24: the command-line tools against spec/KdbxTools.tla"""
import json
import os
import re
import shutil
import subprocess
from . import arch, contents
from .core import HARNESS, ToolError, VERIF
from .files import AES, CHACHA, CIPHERS, FileGen, le, tx

TOOLS = ['kdbx-decrypt', 'kdbx-parse', 'kdbx-dump-header', 'kdbx-generate']


def build_tools(force=True):
    """The tools as /repo's current working tree has them; returns their directory"""
    with open(os.path.join(HARNESS, 'Cargo.toml')) as f:
        repo = re.search(r'kdbx-rs = \{ path = "([^"]+)"', f.read()).group(1)
    target = os.path.join(HARNESS, 'target', 'tools')
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
    if force:
        subprocess.run(['cargo', 'clean', '--offline', '--release', '-p', 'kdbx-rs', '--manifest-path', os.path.join(repo, 'Cargo.toml')],
                       env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    p = subprocess.run(['cargo', 'build', '--offline', '--locked', '--release', '--bins', '--manifest-path',
                        os.path.join(repo, 'Cargo.toml')], env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise ToolError('building the tools failed:\n' + p.stdout.decode('utf-8', 'replace')[-4000:])
    return os.path.join(target, 'release')


def c24(c):
    bins = build_tools()
    c.model_check('MCTools', {'DEPTH': c.pick(3, 4)}, note='all sequences of tool runs in all small directories')
    data = c.generate('GenTools')
    made = arch.gen_terms(c, 'GenFile', [{'id': i, 'd': d} for i, d in enumerate(data['d'])])

    def put(f, d, t):
        return {'op': 'put', 'f': f, 'd': d, 'term': t['term'], 'xml': t['xml']}
    cases = []
    for s in data['scripts']:
        steps = [put(o['f'], o['d'], made[o['n'] - 1]) if o['op'] == 'put' else o for o in s]
        cases.append({'id': len(cases), 'steps': steps})

    # seeded files of all kinds
    g = FileGen(c.seed * 7919 + 24)
    r = g.r
    descs = []
    for k in range(c.pick(150, 900)):
        pw = r.choice(['kdbxrs', 'kdbxrs', '', 'pass', 'ünï 密码', '-x', 'a b'])
        cr = {'pw': tx(pw), 'kf': g.hexs(8) if r.random() < 0.1 else 'none'}
        d = g.d4(cr=cr) if k % 4 else g.d3(cr=cr)
        descs.append(d)
        # settings that are not supported can be printed all the same
        if k % 5 == 0:
            for f in d['fields']:
                if f['id'] == 2 and r.random() < 0.5:
                    f['data'] = g.hexs(16)
                if f['id'] == 3 and r.random() < 0.3:
                    f['data'] = le(r.choice([2, 3, 256, 2 ** 32 - 1]), 4)
            if d['v'] == 4 and r.random() < 0.4:
                for e in d['vdict']:
                    if e[1] == tx('$UUID'):
                        e[2] = g.hexs(16)
    for n in (70000, 1100000):
        descs.append(g.d4(db=contents.sized(n), cr={'pw': tx('kdbxrs'), 'kf': 'none'}, kdf='aes'))
    for d, t in zip(descs, arch.gen_terms(c, 'GenFile', [{'id': i, 'd': d} for i, d in enumerate(descs)])):
        f = tx('f%d.kdbx' % len(cases))
        steps = [put(f, d, t)]
        args = [[f], [f, d['cr']['pw']], [f, tx('wrong')]]
        for tool in TOOLS[:2]:
            steps += [{'op': 'run', 'tool': tool, 'args': a} for a in args]
        steps.append({'op': 'run', 'tool': TOOLS[2], 'args': [f]})
        cases.append({'id': len(cases), 'steps': steps})

    os.environ['KVH_BINS'] = bins
    os.environ['KVH_SCRATCH'] = c.path('dirs')
    os.makedirs(c.path('dirs'))
    res = c.kvh('tools', cases)
    shutil.rmtree(c.path('dirs'))
    tr = [{'id': x['id'], 'steps': x['steps']} for x in res]
    c.extra['tool_runs'] = sum(1 for x in tr for s in x['steps'] if s['o']['op'] == 'run')
    c.extra['tool_runs_ended'] = {e: sum(1 for x in tr for s in x['steps'] if s['o']['op'] == 'run' and s['ret'].get('end') == e)
                                  for e in ('ok', 'err', 'panic')}
    c.validate('TraceTools', tr, note='runs of the tools', shards=8, workers=1)
    c.samples.append({'runs': [[s['o']['tool'], s['o']['args'], s['ret']['end']] for s in tr[2]['steps'] if s['o']['op'] == 'run'][:12]})

    last = tr[-3]
    for k, fn, note in [(2, lambda x: x.update(body='0' * len(x['body']), whole='0' * len(x['body'])), 'printed XML changed'),
                        (7, lambda x: x['hdr'].update(iv=x['hdr']['iv'] + '00'), 'printed header changed'),
                        (3, lambda x: x.update(end='ok'), 'wrong password accepted'),
                        (1, lambda x: x['dir'].append([tx('z'), 'dir']), 'a file left behind')]:
        t = json.loads(json.dumps(last))
        fn(t['steps'][k]['ret'])
        c.expect_rejected('TraceTools', t, note)
