"""C27: errors that tell what went wrong."""
import copy
import itertools
from . import arch
from .core import ToolError
from .files import CHACHA, le
from .gen import tx
from .probes import Forger, little_db

ODD = 'a0' * 16
KINDS = {'other': 'Other', 'timeout': 'TimedOut', 'wouldblock': 'WouldBlock', 'pipe': 'BrokenPipe', 'eof': 'UnexpectedEof'}


def fault(f, x='', slot=None, **kw):
    return dict({'f': f, 'x': x, 'at': '', 'slot': slot or f}, **kw)


def faults_of(g, d):
    """Everything that can be wrong with a file"""
    r = g.r
    v4 = d['v'] == 4
    ids = [f['id'] for f in d['fields']]
    out = [fault('magic', edit=('header', {'t': 'flip', 'at': k, 'bit': r.randrange(8)})) for k in range(4)]
    out += [fault('type', edit=('header', {'t': 'flip', 'at': 4 + k, 'bit': r.randrange(8)})) for k in range(4)]
    for n in (0, 1, 2, 5, 6, 257, 0x0400, 65535):
        out.append(fault('version', str(n), edit=('header', {'t': 'set', 'at': 10, 'hex': le(n, 2)})))
    for p in ('magic', 'type', 'version', 'header', 'data') + (('hash', 'hmac') if v4 else ()):
        ks = range(4) if p in ('magic', 'type', 'version') else [0, 1, 5, r.randrange(1000), r.randrange(1000), 31]
        for k in ks:
            out.append(fault('cut', at=p, slot='src', src={'at': p, 'k': k, 'how': 'eof'}))
        for kind, name in KINDS.items():
            out.append(fault('fail', name, at=p, slot='src', src={'at': p, 'k': r.choice(list(ks)), 'how': 'fail', 'kind': kind}))
    need = [2, 3, 4, 7] + ([11] if 11 in ids else [5, 6]) + ([] if v4 else [8, 9, 10])
    out += [fault('missing', str(n), id=n, slot='field %d' % n if n not in (5, 6) else 'kdf') for n in need]
    sizes = {2: (0, 1, 15, 17, 32), 3: (0, 3, 5, 8)}
    if 6 in ids:
        sizes[6] = (0, 7)
    if not v4:
        sizes[10] = (0, 3)
    for n, ls in sizes.items():
        out += [fault('size', str(n), id=n, h=g.hexs(k), slot='field %d' % n if n != 6 else 'kdf') for k in ls]
    out.append(fault('cipher', id=2, h=ODD, slot='field 2'))
    cipher = next(f['data'] for f in d['fields'] if f['id'] == 2)
    out += [fault('iv', id=7, h=g.hexs(k), slot='field 7') for k in ((0, 8, 13, 16) if cipher == CHACHA else (0, 8, 12, 15, 17))]
    out += [fault('compression', id=3, h=h, slot='field 3') for h in ('02000000', 'ffffffff', '00010000')]
    wrong = [{'pw': tx(w), 'kf': k} for w, k in (('px', 'none'), ('', 'none'), ('pw', '6b6579'))] + [{'pw': 'none', 'kf': '6b6579'}, {'pw': 'none', 'kf': 'none'}]
    out += [fault('credentials', cr=cr) for cr in wrong if cr != d['cr']]
    if v4:
        if 11 in ids:
            algs = {e[1]: e for e in d['vdict']}
            known = [n for n in ('M', 'V', 'S', 'I', 'P') if tx(n) in algs] if tx('M') in algs else ['R', 'S']
            out += [fault('param', n, n=tx(n), slot='field 11') for n in known + ['$UUID']]
            out.append(fault('kdf', n=tx('$UUID'), h=ODD, slot='field 11'))
            bad = [('P', le(0, 4)), ('V', le(0x12, 4)), ('M', le(1024, 8)), ('I', le(0, 8)), ('S', 'aabb')] if 'M' in known else [('S', g.hexs(31)), ('S', '')]
            out += [fault('kdf param', n=tx(n), h=h, slot='field 11') for n, h in bad]
            out += [fault('dict', slot='field 11', edit=('dict', e)) for e in ({'t': 'trunc', 'at': 3}, {'t': 'trunc', 'at': 30}, {'t': 'set', 'at': 0, 'hex': '0002'})]
        out += [fault('sum', edit=('signed', {'t': 'flip', 'at': k, 'bit': r.randrange(8)})) for k in (0, 15, 31)]
        out += [fault('hmac', edit=('signed', {'t': 'flip', 'at': k, 'bit': r.randrange(8)})) for k in (32, 50, 63)]
        out += [fault('block', slot='data', edit=('blocks', {'t': 'flip', 'at': k, 'bit': r.randrange(8)})) for k in (0, 31, 36, 60)]
        out += [fault('inner missing', str(n), id=n, slot='inner %d' % n) for n in (1, 2)]
        inner = 'inner 1'
    else:
        out += [fault('kdf param', id=5, h=h, slot='kdf') for h in ('', g.hexs(31), g.hexs(33))]
        out += [fault('block', slot='data', edit=('hashed', {'t': 'flip', 'at': k, 'bit': r.randrange(8)})) for k in (36, 67, 72, 80)]
        inner = 'field 10'
    if d['gz'] != 'none':
        out.append(fault('packed', edit=('packed', {'t': 'set', 'at': 0, 'hex': '0000'})))
    out += [fault('stream', h=h, slot=inner) for h in ('00000000', '01000000', '04000000', '03010000')]
    # elements other than the first of their kind do as well
    out += [fault('xml', 'uuid', el='UUID', h=tx(h), **{'in': ''}) for h in ('nope', '!', 'AAAA', '')]
    out += [fault('xml', 'datetime', el=el, h=tx(h), **{'in': ''}) for el in ('CreationTime', 'ExpiryTime') for h in ('!', '2020-13-01T00:00:00Z', '12:00')]
    out += [fault('xml', 'number', el='UsageCount', h=tx(h), **{'in': ''}) for h in ('-1', 'x', '4294967296', '1.5')]
    out += [fault('xml', 'base64', el='Value', h=tx(h), **{'in': 'prot'}) for h in ('!!!', 'A', 'AAA')]
    out += [fault('xml', 'syntax', edit=('xml', e)) for e in ({'t': 'trunc', 'at': 300}, {'t': 'trunc', 'at': 100}, {'t': 'set', 'at': 0, 'hex': '3c3c3c'})]
    return out


def case(d, fs):
    e, src, cr = {}, {}, d['cr']
    for f in fs:
        if 'edit' in f:
            e.setdefault(f['edit'][0], []).append(f['edit'][1])
        src = f.get('src', src)
        cr = f.get('cr', cr)
    return {'t': 'read', 'v': d['v'], 'e': e, 'src': src, 'cr': cr}


def apart(fs):
    return len({f['slot'] for f in fs}) == len(fs)


def save_cases(g):
    db = little_db(g)
    one = []
    for kind, name in list(KINDS.items()) + [('zero', 'WriteZero')]:
        one += [fault('sink', name, slot='sink', put={'sink': {'fail': at, 'kind': kind}}) for at in (0, 11, 60, 300, 1000)]
        one.append(fault('sink', 'Other', slot='sink', put={'sink': {'flush': True}}))
    one += [fault('text', put={'text': t}) for t in (tx('a\x00b'), 'x' + '￿'.encode().hex(), tx('\x1b'))]
    one += [fault('save stream', put={'stream': n}) for n in (0, 1, 4)]
    one += [fault('save cipher', put={'cipher': ODD}), fault('save compression', put={'comp': 2})]
    one += [fault('save iv', put={'iv': n}) for n in (0, 12, 17)]
    one += [fault('no key', slot='key', put={'key': False})]
    one += [fault('key kdf', slot='key', put={'kdf': ODD}), fault('key kdf param', slot='key', put={'salt': 31})]
    sets = [[]] + [[f] for f in one] + [list(p) for p in itertools.combinations(one, 2) if apart(p)]
    out = []
    for fs in sets:
        c = {'t': 'save', 'db': db, 'key': True, 'sink': {}}
        for f in fs:
            c.update(f['put'])
        out.append((4, fs, c))
    return out


def run(c, todo, note):
    """todo: (version, faults, case)"""
    for i, (_, _, x) in enumerate(todo):
        x['id'] = i
    res = c.kvh('errors', [x for _, _, x in todo])
    traces, skipped = [], 0
    for (v, fs, x), r in zip(todo, res):
        if 'nop' in r:
            skipped += 1
            continue
        if 'got' not in r:
            raise ToolError('harness failed on a case: %r' % r)
        traces.append({'id': len(traces), 'v': v, 'faults': [{k: f[k] for k in ('f', 'x', 'at')} for f in fs], 'got': r['got'], 'same': r['same'],
                       'source': r['source'], 'file': x['id']})

    def describe(cid, step):
        t = traces[cid]
        v, fs, x = todo[t['file']]
        return {'faults': fs, 'got': t['got'], 'case': x}
    d = c.extra.setdefault('reports', {})
    for t in traces:
        k = ' '.join(t['got'][:2])
        d[k] = d.get(k, 0) + 1
    c.extra.setdefault('cases', {})[note] = len(traces)
    if skipped:
        c.extra['without_effect'] = c.extra.get('without_effect', 0) + skipped
    c.validate('TraceErrors', traces, note=note, shards=4, workers=1, describe=describe)
    return traces


def read_cases(c, sets):
    """sets: (description, faults)"""
    rows = [{'id': i, 'd': d, 'faults': [{k: v for k, v in f.items() if k not in ('edit', 'src', 'cr', 'slot')} for f in fs]} for i, (d, fs) in enumerate(sets)]
    out = []
    for (d, fs), t in zip(sets, arch.gen_terms(c, 'GenErrors', rows, shards=8)):
        x = case(d, fs)
        x['term'] = t['term']
        out.append((d['v'], fs, x))
    return out


def c27(c):
    c.model_check('MCErrors', note='readers that stop at the first fault, early, late and in time')
    g = Forger(c.seed * 7919 + 27)
    bases = g.bases()
    bases.append(dict(g.d4(db=little_db(g), legacy=True), cr={'pw': tx('pw'), 'kf': 'none'}))
    sets = [(d, []) for d in bases]
    for d in bases:
        sets += [(d, [f]) for f in faults_of(g, d)]
    tr = run(c, read_cases(c, sets), 'one fault of a file')
    run(c, save_cases(g) + [(4, [fault('absent')], {'t': 'absent'})], 'saves with one or two faults')
    sets = []
    for d in bases:
        fs = faults_of(g, d)
        # one of each kind with one of each other
        kinds = {}
        for f in fs:
            kinds.setdefault((f['f'], f['x'], f['at']), []).append(f)
        for a, b in itertools.combinations(sorted(kinds), 2):
            if d is bases[0] or d is bases[3] or c.thorough or g.r.random() < 0.12:
                p = [g.r.choice(kinds[a]), g.r.choice(kinds[b])]
                if apart(p) and (d is not bases[0] and d is not bases[3] or c.thorough or g.r.random() < 0.4):
                    sets.append((d, p))
        for _ in range(c.pick(60, 1500)):
            p = g.r.sample(fs, g.r.choice([3, 3, 4]))
            if apart(p):
                sets.append((d, p))
    run(c, read_cases(c, sets), 'several faults of a file')

    base = copy.deepcopy(next(t for t in tr if t['got'][1] == 'version'))

    def bad(note, **kw):
        c.expect_rejected('TraceErrors', dict(copy.deepcopy(base), **kw), note)
    bad('another version', got=['open', 'version', '77'])
    bad('another kind', got=['open', 'not kdbx', ''])
    bad('no error', got=['none', 'ok', ''])
    bad('another error after conversion', same=False)
    f = copy.deepcopy(next(t for t in tr if t['faults'] and t['faults'][0]['f'] == 'fail'))
    c.expect_rejected('TraceErrors', dict(f, source=''), 'an I/O error without its source')
    w = copy.deepcopy(next(t for t in tr if t['v'] == 3 and t['faults'] and t['faults'][0]['f'] == 'credentials'))
    c.expect_rejected('TraceErrors', dict(w, got=['unlock', 'decrypt', '']), 'wrong credentials reported as damage')
    c.samples += [{'faults': t['faults'], 'error': t['got']} for t in tr[20:200:30]]
