"""C25: database XML written and read on its own, through streams the caller holds."""
import copy
from . import contents
from .core import ToolError
from .files import FileGen

ALGS = ['chacha20', 'salsa20', 'null']


class Exports(FileGen):
    def stream(self, s, alg=None, key=None):
        r = self.r
        alg = alg or r.choice(['chacha20', 'chacha20', 'salsa20', 'salsa20', 'null'])
        return {'op': 'stream', 's': s, 'alg': alg, 'key': self.hexs(r.choice([32, 64, 1, 0, 33, 100])) if key is None else key}

    def write(self, s, d, db, sink=None):
        return {'op': 'write', 's': s, 'd': d, 'db': db, 'sink': sink or {}}

    def read(self, s, d, src=None):
        return {'op': 'read', 's': s, 'd': d, 'src': src or {}}

    def chunks(self):
        r = self.r
        return r.choice([{}, {}, {'chunks': [1]}, {'chunks': [7]}, {'chunks': [3, 1, 100, 2]}, {'chunks': [4096]},
                         {'chunks': [5], 'intr': 2}, {'intr': 3}, {'chunks': [64, 1]}])

    def trouble(self, n, sink):
        r = self.r
        t = dict(self.chunks())
        if r.random() < 0.2:
            t[r.choice(['fail', 'fail', 'stuck', 'flush'] if sink else ['fail', 'eof'])] = r.randrange(n)
            if 'flush' in t:
                t['flush'] = True
            t['kind'] = r.choice(['other', 'eof', 'timeout', 'wouldblock', 'pipe'])
            if r.random() < 0.3:
                t['once'] = True
        return t

    def script(self, dbs, n):
        """Any order of streams, writes and reads; readers often keep up with the writer"""
        r = self.r
        k = self.stream('s')
        ops = [k, dict(k, s='t')]
        for _ in range(n):
            x = r.random()
            if x < 0.12:
                ops.append(self.stream(r.choice('st'), r.choice([None, None, 'arcfour', '0', '7'])))
            elif x < 0.2:
                k = self.stream('s')
                ops += [k, dict(k, s='t')]
            elif x < 0.55:
                d = r.choice('de')
                ops.append(self.write('s', d, r.choice(dbs)(), self.trouble(9000, True)))
                ops.append(self.read('t', d, self.trouble(9000, False)))
            elif x < 0.7:
                ops += [self.write('s', 'd', r.choice(dbs)(), self.chunks()), self.write('s', 'e', r.choice(dbs)(), self.chunks()),
                        self.read('t', 'd', self.chunks()), self.read('t', 'e', self.chunks())]
            elif x < 0.85:
                ops.append(self.write(r.choice('st'), r.choice('de'), r.choice(dbs)(), self.trouble(9000, True)))
            else:
                ops.append(self.read(r.choice('st'), r.choice('de'), self.trouble(9000, False)))
        return ops


def sample_db():
    e, f, gr = contents.entry, contents.field, contents.group
    return contents.db(gr(0, 'r', [e(1, [f('Title', 't'), f('Password', 'secret', True)], [e(1, [f('Password', 'old', True)])])],
                          [gr(2, 'é & <', [e(3, [f('x', 'ü', True)])])]),
                       'name', 'desc', [f('c', 'v', True)])


def record(c, scripts):
    """The scripts on the real code"""
    res = c.kvh('export', [{'id': i, 'steps': s} for i, s in enumerate(scripts)])
    out = []
    for i, r in enumerate(res):
        if 'steps' not in r:
            raise ToolError('harness failed on a case: %r' % r)
        out.append({'id': i, 'steps': r['steps']})
    return out


def c25(c):
    c.model_check('MCExport', {'DEPTH': c.pick(4, 6)}, note='documents and streams')
    g = Exports(c.seed * 7919 + 25)
    r = g.r
    scripts = c.generate('GenExport', {'DEPTH': c.pick(3, 4)})
    every = len(scripts)
    # every offset of a document at which a sink or a source can give up
    db = sample_db()
    key = '07' * 32
    size = record(c, [[g.stream('s', 'chacha20', key), g.write('s', 'd', db)]])[0]['steps'][1]['len']
    step = c.pick(3, 1)
    for what in ('fail', 'stuck', 'once'):
        offs = list(range(r.randrange(step), size + 2, step))
        for i in range(0, len(offs), 25):
            ops = []
            for off in offs[i:i + 25]:
                t = {'stuck': off} if what == 'stuck' else {'fail': off, 'kind': r.choice(['other', 'eof', 'timeout', 'wouldblock', 'pipe'])}
                if what == 'once':
                    t['once'] = True
                ops += [g.stream('s', 'chacha20', key), g.stream('t', 'chacha20', key), g.write('s', 'd', db, dict(g.chunks(), **t)), g.read('t', 'd')]
            scripts.append(ops)
    for what in ('eof', 'fail', 'once'):
        offs = list(range(r.randrange(step), size + 2, step))
        for i in range(0, len(offs), 25):
            ops = [g.stream('s', 'salsa20', key), g.write('s', 'd', db)]
            for off in offs[i:i + 25]:
                t = {'eof': off} if what == 'eof' else {'fail': off, 'kind': r.choice(['other', 'eof', 'timeout', 'wouldblock', 'pipe'])}
                if what == 'once':
                    t['once'] = True
                ops += [g.stream('t', 'salsa20', key), g.read('t', 'd', dict(g.chunks(), **t))]
            scripts.append(ops)
    ends = len(scripts) - every
    # every database of the catalogue, one after the other on one stream, and read back likewise
    small = contents.all_small()
    for n in range(c.pick(1, 3)):
        for i in range(0, len(small), 4):
            k = g.stream('s', ALGS[(n + i // 4) % 3])
            ops = [k, dict(k, s='t')]
            for db in small[i:i + 4]:
                ops += [g.write('s', 'd', db, g.chunks()), g.read('t', 'd', g.chunks())]
            scripts.append(ops)
    # keys of every length
    for n in list(range(0, 70)) + [127, 128, 129, 255, 256, 1000]:
        for alg in ('chacha20', 'salsa20'):
            k = g.stream('s', alg, g.hexs(n))
            scripts.append([k, dict(k, s='t'), g.write('s', 'd', sample_db()), g.read('t', 'd')])
    words = contents.word_dbs()
    makers = [lambda: g.small_db(), lambda: g.small_db(), lambda: r.choice(words), sample_db,
              lambda: contents.db(contents.group(0)), lambda: r.choice(small)]
    for _ in range(c.pick(150, 3000)):
        scripts.append(g.script(makers, r.randrange(3, 9)))
    traces = record(c, scripts)
    c.validate('TraceExport', traces, shards=8, workers=1, note='documents written and read')
    kinds = {}
    for t in traces:
        for s in t['steps']:
            k = '%s_%s' % (s['o']['op'], s['ret'][0])
            kinds[k] = kinds.get(k, 0) + 1
    c.extra['scripts'] = {'every_sequence': every, 'broken_off_at_offsets': ends, 'all': len(scripts), 'steps': kinds}

    # binding: corrupted records
    k = g.stream('s', 'chacha20', key)
    t = record(c, [[k, dict(k, s='t'), g.write('s', 'd', sample_db()), g.write('s', 'e', sample_db()), g.read('t', 'd'), g.read('t', 'e')]])[0]

    def bad(note, fn):
        x = copy.deepcopy(t)
        fn(x['steps'])
        c.expect_rejected('TraceExport', x, note)
    bad('the stream stands one byte further after a write', lambda s: s[2].update(off=s[2]['off'] + 1))
    bad('the stream stands where it stood after a read', lambda s: s[4].update(off=0))
    bad('the second document was read with the values of another place', lambda s: s[5]['ret'][1]['root']['entries'][0]['fields'][1].update(v='x00'))
    bad('a write into a sink that failed is reported as done', lambda s: s[2].update(failed=True))
    bad('part of a document is read as if it were all', lambda s: s[4].update(cut=True))
    bad('a read that fails for no reason', lambda s: s[4].update(ret=['err', 'x']))
    c.samples.append({'operations': [dict(o, db='…') if 'db' in o else o for o in scripts[every + ends + 5][:6]],
                      'returned': [s['ret'][0] for s in traces[every + ends + 5]['steps'][:6]]})
    c.samples.append({'operations': [dict(o, db='…') if 'db' in o else o for o in scripts[7]], 'returned': [s['ret'][0] for s in traces[7]['steps']]})
