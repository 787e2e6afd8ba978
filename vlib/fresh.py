"""C18: secrets of new archives."""
import hashlib
import json
from .core import ToolError, Violation


def secrets(x):
    salt = [h for n, t, h in x['kdf']['p'] if n == 'x53']
    return {'seed': x['seed'], 'iv': x['iv'], 'salt': salt[0] if salt else '', 'key': x['inner']['key']}


def derived(s):
    """Values that could be calculated from the secrets of an archive"""
    out = []
    for n in ('seed', 'iv', 'salt', 'key'):
        b = bytes.fromhex(s[n])
        out += [hashlib.sha256(b).hexdigest(), hashlib.sha512(b).hexdigest(), b[::-1].hex(), bytes(x ^ 255 for x in b).hex()]
    return out


def as_bytes(log):
    return [{k: list(bytes.fromhex(v)) for k, v in x.items()} for x in log]


def made(c, cases, threads=1):
    out = []
    for x in c.kvh('fresh', cases, threads=threads):
        if 'made' not in x:
            raise ToolError('harness failed: %r' % x)
        out.append(x['made'])
    return out


def c18(c):
    c.model_check('MCFresh', note='the conditions hold for a fresh source and fail for each broken one')
    n = c.pick(3000, 9000)
    logs = []
    # one after another in one process, in several processes, on several threads, in forked processes
    logs.append(('one process', made(c, [{'id': 0, 'kind': 'archive', 'n': n // 3}])[0]))
    several = []
    for _ in range(6):
        several += made(c, [{'id': 0, 'kind': 'archive', 'n': n // 36}])[0]
    logs.append(('several processes', several))
    logs.append(('threads', sum(made(c, [{'id': i, 'kind': 'archive', 'n': n // 192} for i in range(32)], threads=8), [])))
    logs.append(('forked processes', made(c, [{'id': 0, 'kind': 'archive', 'n': n // 36, 'forks': 4, 'out': c.path('child')}])[0]))
    all_ = [secrets(x) for _, l in logs for x in l]
    if any(not (x['salt'] and x['key']) for x in all_):
        raise Violation('a new archive lacks a salt or inner stream key', {'archives': all_[:3]})
    lens = {tuple(len(x[k]) for k in sorted(x)) for x in all_}
    if min(min(l) for l in lens) < 16:      # too short for the comparison of runs
        raise Violation('secrets of new archives are too short', {'lengths of secrets in hex': [list(l) for l in lens]})
    half = 100
    traces = [{'id': 'archives', 't': 'log', 'k': 240, 'log': all_, 'bytes': as_bytes(all_),
               'derived': [derived(x) for x in all_[:half] + all_[-half:]]}]
    # many: a source that can only be in few states repeats itself
    bulk = {}
    for h in sum(made(c, [{'id': i, 'kind': 'header', 'n': 2500} for i in range(c.pick(40, 160))], threads=8), []):
        bulk.setdefault('seed', []).append(h['seed'])
        bulk.setdefault('iv', []).append(h['iv'])
        bulk.setdefault('salt', []).append([v for p, t, v in h['kdf']['p'] if p == 'x53'][0])
    bulk['key'] = [h['key'] for h in sum(made(c, [{'id': i, 'kind': 'inner', 'n': 2500} for i in range(c.pick(40, 160))], threads=8), [])]
    ids = []
    for k in ('entry', 'group', 'named'):
        ids += sum(made(c, [{'id': i, 'kind': k, 'n': 1500} for i in range(c.pick(24, 96))], threads=8), [])
        ids += made(c, [{'id': 0, 'kind': k, 'n': 50, 'forks': 3, 'out': c.path('child')}])[0]
        for _ in range(3):
            ids += made(c, [{'id': 0, 'kind': k, 'n': 100}])[0]
    ids += [x['root'] for _, l in logs for x in l]
    bulk['identifiers'] = ids
    for k, v in bulk.items():
        traces.append({'id': k, 't': 'bulk', 'values': v})
    c.validate('TraceFresh', traces, shards=8, workers=1, note='secrets and identifiers of new archives, headers, groups, entries', heap='4g', few=1)
    c.extra['made'] = dict({k: len(v) for k, v in bulk.items()}, archives={k: len(v) for k, v in logs})
    log = json.loads(json.dumps(all_[:1200]))

    def bad(log, note, derived=()):
        c.expect_rejected('TraceFresh', {'id': 'x', 't': 'log', 'k': 230, 'derived': list(derived), 'log': log, 'bytes': as_bytes(log)}, note)
    bad(log[:-1] + [dict(log[-1], seed=log[3]['seed'])], 'a seed used twice')
    bad([dict(x, key=x['key'][:-2] + '00') for x in log], 'last byte of the inner key always 0')
    bad([dict(x, iv=x['seed'][:32]) for x in log], 'IV taken from the seed')
    bad([dict(x, iv=bytes((b ^ 0x5c) for b in bytes.fromhex(x['seed'][:32])).hex()) for x in log], 'IV calculated from the seed')
    bad(log, 'salt is the digest of another secret', [[log[5]['salt']]])
    c.samples.append({'archive': {k: v[:16] + '...' for k, v in all_[0].items()}, 'identifier': ids[0]})
