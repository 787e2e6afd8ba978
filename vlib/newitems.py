"""C26: what newly made items are like."""
import copy
import random
from .core import ToolError

# a machine can be anywhere
ZONES = ['UTC0', '<+14>-14', '<-12>12', '<+0530>-5:30', 'EST5EDT,M3.2.0,M11.1.0', '<-0330>3:30<-0230>,M3.2.0,M11.1.0']
NAMES = ['', ' ', 'n', 'General', ' two  words ', 'äöü€😀', '<&>"\'', 'a\tb\nc', 'x' * 700]


def op(x, **kw):
    return dict({'op': x}, **kw)


def script(r, n):
    ops = []
    for _ in range(n):
        x = r.random()
        if x < 0.45:
            ops.append(op(r.choice(['entry', 'entry', 'group', 'db'])))
        elif x < 0.6:
            ops.append(op('named', name='x' + r.choice(NAMES).encode().hex()))
        elif x < 0.85:
            ops.append(op(r.choice(['putEntry', 'putGroup', 'fill'])))
        elif x < 0.93:
            ops.append(op('look'))
        else:
            ops.append(op('tick'))
    return ops


def record(c, scripts):
    out = [None] * len(scripts)
    for z, zone in enumerate(ZONES):
        mine = [(i, s) for i, s in enumerate(scripts) if i % len(ZONES) == z]
        if not mine:
            continue
        for (i, s), r in zip(mine, c.kvh('new', [{'id': i, 'steps': s} for i, s in mine], threads=24, env={'TZ': zone})):
            if 'steps' not in r:
                raise ToolError('harness failed on a case: %r' % r)
            out[i] = {'id': i, 'zone': zone, 'steps': r['steps']}
    return out


def c26(c):
    c.model_check('MCNew', {'DEPTH': c.pick(4, 5)}, note='makers of items, right and wrong')
    r = random.Random(c.seed * 7919 + 26)
    scripts = c.generate('GenNew', {'DEPTH': c.pick(3, 4)})
    every = len(scripts)
    for name in NAMES:
        for _ in ZONES:
            scripts.append([op('named', name='x' + name.encode().hex()), op('look')])
    for _ in range(c.pick(150, 1500)):
        scripts.append([op('db')] + script(r, r.randrange(3, 25)) + [op('look')])
    for _ in range(c.pick(24, 120)):
        scripts.append([op('db')] + script(r, r.randrange(3, 12)) + [op('db'), op('entry'), op('putEntry'), op('archive'), op('save'), op('key'),
                                                                     op('tick'), op('save'), op('look')])
    r.shuffle(scripts)
    traces = record(c, scripts)
    c.validate('TraceNew', traces, shards=4, workers=2, note='items made')
    kinds = {}
    for t in traces:
        for s in t['steps']:
            k = '%s_%s' % (s['o']['op'], s['ret'])
            kinds[k] = kinds.get(k, 0) + 1
    c.extra['scripts'] = {'every_sequence': every, 'all': len(scripts), 'zones': len(ZONES), 'steps': kinds}

    base = record(c, [[op('db'), op('entry'), op('putEntry'), op('named', name='x6e'), op('tick'), op('look'), op('archive'), op('key'), op('save')]])[0]

    def bad(note, fn):
        x = copy.deepcopy(base)
        fn(x['steps'])
        c.expect_rejected('TraceNew', x, note)
    bad('an entry stamped before it was made', lambda s: s[1]['got']['times'].update(cre='t0000000000000000'))
    bad('an entry stamped with parts of a second', lambda s: s[1]['got']['times'].update(mod=s[1]['got']['times']['mod'] + '.7'))
    bad('a group with another name', lambda s: s[3]['got'].update(name='x'))
    bad('a database that protects passwords', lambda s: s[0]['got']['meta'].update(mp=[False, False, True, False, False]))
    bad('fewer iterations', lambda s: [p.__setitem__(2, '0900000000000000') for p in s[6]['got']['hdr']['kdf']['p'] if p[0] == 'x49'])
    bad('less memory', lambda s: [p.__setitem__(2, '00fbff0300000000') for p in s[6]['got']['hdr']['kdf']['p'] if p[0] == 'x4d'])
    bad('an archive without the entry', lambda s: s[6]['got']['db']['root'].update(entries=[]))
    bad('reopened with the stamp of the saving', lambda s: s[8]['got']['root']['entries'][0]['times'].update(mod=s[8]['hi']))
    c.samples.append({'zone': traces[0]['zone'], 'operations': [s['o'] for s in traces[0]['steps']], 'returned': [s['ret'] for s in traces[0]['steps']]})
    c.samples.append({'settings of a new archive': base['steps'][6]['got']['hdr']['kdf']})
