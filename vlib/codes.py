"""C28: codes and their names."""
import copy
import random
from .core import ToolError

SIZE = {'u32': 4, 'u64': 8, 'i32': 4, 'i64': 8, 'bool': 1}


def dict_values(r, ty, n):
    if ty == 'bool':
        return ['00', '01']
    if ty in SIZE:
        k = SIZE[ty]
        some = [bytes(k), b'\xff' * k, b'\x01' + bytes(k - 1), bytes(k - 1) + b'\x80', b'\xff' * (k - 1) + b'\x7f']
        return [x.hex() for x in some + [r.randbytes(k) for _ in range(n)]]
    if ty == 'String':
        return [x.encode().hex() for x in ('', 'a', '42', 'True', 'äöü€😀', 'x' * 300, '\0')]
    lead = [bytes([t]) for t in (0, 4, 5, 8, 12, 13, 24, 66, 77, 255)] if ty == 'unknown' else [b'']
    return [(a + b).hex() for a in lead for b in (b'', b'\0', b'\x01\0\0\0', bytes(8), r.randbytes(40))]


def record(c, cases):
    for i, x in enumerate(cases):
        x['id'] = i
    out = []
    for x, r in zip(cases, c.kvh('codes', cases)):
        if 'got' not in r:
            raise ToolError('harness failed on a case: %r' % r)
        out.append({'id': x['id'], 'kind': x['kind'], 'got': r['got']})
    return out


def c28(c):
    c.model_check('MCCodes', note='tables of codes, right and with one row wrong')
    r = random.Random(c.seed * 7919 + 28)
    cases = []
    for k in c.generate('GenCodes'):
        if k['kind'] == 'dict':
            steps = [{'t': 'dict', 'from': ty, 'x': x} for ty in k['codes'] for x in dict_values(r, ty, c.pick(60, 600))]
        else:
            more = [r.randbytes(k['digits'] // 2).hex() for _ in range(c.pick(400, 4000))]
            if k['digits'] == 8:
                more += [n.to_bytes(4, 'little').hex() for n in range(c.pick(600, 70000))]
            codes = k['codes'] + more
            steps = [{'t': 'code', 'x': x} for x in codes] + [{'t': 'unknown', 'x': x} for x in codes] + [{'t': 'name', 'x': x} for x in k['names']]
        c.extra.setdefault('conversions', {})[k['kind']] = len(steps)
        for i in range(0, len(steps), 200):
            cases.append({'kind': k['kind'], 'steps': steps[i:i + 200]})
    traces = record(c, cases)
    c.validate('TraceCodes', traces, shards=4, workers=2, note='conversions')
    base = record(c, [{'kind': 'cipher', 'steps': [{'t': 'code', 'x': 'd6038a2b8b6f4cb5a524339a31dbb59a'}, {'t': 'name', 'x': 'Aes256'}]},
                      {'kind': 'dict', 'steps': [{'t': 'dict', 'from': 'u32', 'x': '05000000'}]}])

    def bad(note, i, fn):
        x = copy.deepcopy(base[i])
        fn(x['got'])
        c.expect_rejected('TraceCodes', x, note)
    bad('a code with another name', 0, lambda g: g[0].update(read=['TwoFish', '']))
    bad('a code that is not known', 0, lambda g: g[0].update(read=['Unknown', g[0]['x']]))
    bad('another code for a name', 0, lambda g: g[1].update(back='00' * 16))
    bad('a conversion that widens', 1, lambda g: g[0]['to'].__setitem__(1, ['ok', '0500000000000000']))
    c.samples.append(base[0]['got'][0])
    c.samples.append(base[1]['got'][0])
