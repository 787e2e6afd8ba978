"""C21: database XML in all its layouts."""
import itertools
from . import arch, contents
from .core import ToolError
from .files import FileGen, PLAIN

KINDS = ['short', 'nested', 'prot', 'unprot', 'keepass', 'case', 'comment', 'pi', 'blank', 'cdata', 'ref', 'custom']


class Layouts(FileGen):
    def row(self, **kw):
        r = self.r
        d = {'style': dict(PLAIN), 'puts': [], 'attrs': [], 'pro': 0, 'alg': r.choice(['chacha20', 'salsa20']), 'key': self.hexs(r.choice([32, 64, 5]))}
        d.update(kw)
        return d

    def source(self):
        r = self.r
        return r.choice([{}, {}, {'chunks': [1]}, {'chunks': [7]}, {'chunks': [3, 1, 100, 2]}, {'chunks': [4096]}])

    def puts(self, n):
        return [{'n': self.r.randrange(100000), 'kind': self.r.choice(KINDS)} for _ in range(n)]

    def attrs(self, n):
        return [{'n': self.r.randrange(100000), 'k': self.r.randrange(1, 8), 'front': self.r.random() < 0.5} for _ in range(n)]


def c21(c):
    c.model_check('MCXml', {'ALL': 'yes' if c.thorough else 'no'}, note='all layouts read back')
    c.model_check('MCLayout', {'MAX': c.pick(1, 2)}, note='additions in every place of a document')
    g = Layouts(c.seed * 7919 + 21)
    r = g.r
    size = arch.gen_terms(c, 'GenXml', [dict(g.row(), id=0)])[0]
    rows = []
    for n in range(size['slots']):
        for k in KINDS:
            rows.append(g.row(puts=[{'n': n, 'kind': k}]))
    for n in range(size['elements']):
        for k in range(1, 8):
            rows.append(g.row(attrs=[{'n': n, 'k': k, 'front': (n + k) % 2 == 0}]))
    single = len(rows)
    for pro in range(4):
        rows.append(g.row(pro=pro))
    styles = [dict(ord=o, txt=t, ws=w, com=b1, attr=b2, short=b3, pad=b4, iso=b5, unk=u, bool=bo)
              for o, t, w, b1, b2, b3, b4, b5, u, bo in itertools.product(
                  range(4), ['text', 'cdata', 'refs', 'split'], ['x', 'x0d0a20'], (False, True), (False, True), (False, True), (False, True),
                  (False, True), range(3), range(3))]
    for s in (styles if c.thorough else r.sample(styles, 300)):
        if s['iso'] and r.random() < 0.5:
            s = dict(s, zone=r.choice([60, -60, 330, -720, 840, 1439]))
        rows.append(g.row(style=s))
    words = contents.word_dbs()
    for i in range(c.pick(500, 6000)):
        db = r.choice([g.small_db, g.small_db, lambda: r.choice(words)])()
        # ISO texts have four digits for the year
        style = g.style()
        if r.random() < 0.3:
            style['gen'] = 'x' + r.choice([g.word(), g.word(), '', 'kdbx-rs']).encode().hex()
        rows.append(g.row(db=db, style=style, puts=g.puts(r.randrange(5)), attrs=g.attrs(r.randrange(4)), pro=r.randrange(4)))
    for db in words + contents.shape_dbs() + contents.stream_dbs() + contents.mp_dbs()[::5]:
        for t in ('text', 'cdata', 'refs', 'split') if c.thorough else (r.choice(['cdata', 'refs', 'split']),):
            rows.append(g.row(db=db, style=dict(PLAIN, txt=t), puts=g.puts(r.randrange(3))))
    for i, x in enumerate(rows):
        x['id'] = i
    terms = arch.gen_terms(c, 'GenXml', rows, shards=8)
    cases = [{'id': i, 'xml': t['xml'], 'alg': x['alg'], 'key': x['key'], 'src': g.source()} for i, (x, t) in enumerate(zip(rows, terms))]
    res = c.kvh('xml', cases)
    traces = []
    for t, y in zip(terms, res):
        if 'ret' not in y:
            raise ToolError('harness failed: %r' % y)
        traces.append({'id': t['id'], 'db': t['db'], 'gen': t['gen'], 'ret': y['ret'], 'row': {k: v for k, v in rows[t['id']].items() if k != 'db'}})
    c.validate('TraceXml', traces, shards=8, workers=1, note='documents read')
    c.extra['documents'] = {'one_addition_in_every_place': single, 'all': len(rows)}
    t = traces[7]
    db = dict(t['ret'][1], meta=dict(t['ret'][1]['meta'], name='x206e'))
    c.expect_rejected('TraceXml', dict(t, ret=['ok', db, t['gen']]), 'a blank before the name of the database')
    c.expect_rejected('TraceXml', dict(t, ret=t['ret'][:2] + ['x']), 'the name of the program missing')
    c.samples.append({'document': 'one entry with history, one sub-group, custom data', 'addition': rows[1000]['puts'], 'style': rows[single + 50]['style']})
