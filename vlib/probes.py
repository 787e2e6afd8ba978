"""C08: malformed input."""
import copy
from . import arch
from .core import ToolError, Violation
from .files import FileGen, AES, CHACHA, TWOFISH, PLAIN, le
from .gen import tx

ID1, ID2, ID3 = '00112233445566778899aabbccddeeff', 'ff' * 16, '0f' * 16


def little_db(g):
    t = g.times()
    f = [{'k': tx('Title'), 'v': tx('a'), 'p': False}, {'k': tx('Password'), 'v': tx('secret'), 'p': True}]
    old = {'id': ID1, 'fields': f[1:], 'times': t, 'hist': []}
    return {'meta': {'name': tx('n'), 'desc': tx('d'), 'custom': [{'k': tx('c'), 'v': tx('v'), 'p': False}], 'mp': [False, False, True, False, False]},
            'root': {'id': ID2, 'name': tx('r'), 'times': t, 'entries': [{'id': ID1, 'fields': f, 'times': t, 'hist': [old]}],
                     'groups': [{'id': ID3, 'name': tx('s'), 'times': t, 'entries': [], 'groups': []}]}}


class Forger(FileGen):
    def bases(self):
        """Small files of both versions with every cipher, key derivation and kind of compression"""
        out = []
        for cipher, gz, kdf, alg in [(AES, 'none', 'aes', 3), (CHACHA, 'default', 'argon2d', 2), (TWOFISH, 'fixed', 'argon2id', 3)]:
            d = self.d4(db=little_db(self), cipher=cipher, gz=gz, kdf=kdf, alg=alg, legacy=False, sizes=[1048576], style=dict(PLAIN),
                        cr={'pw': tx('pw'), 'kf': 'none'})
            d['minor'], d['vdver'], d['vdrest'] = 0, '0001', ''
            out.append(d)
        for cipher, gz, alg in [(AES, 'default', 2), (CHACHA, 'none', 3)]:
            d = self.d3(db=little_db(self), cipher=cipher, gz=gz, alg=alg, sizes=[1048576], style=dict(PLAIN), cr={'pw': tx('pw'), 'kf': 'none'})
            out.append(d)
        return out

    def heads(self, d):
        """Headers with fields missing, repeated, or of another size or value, right in every other way"""
        out = []

        def put(fs=None, inner=None, vd=None, **kw):
            a = copy.deepcopy(d)
            a.update(kw)
            if fs is not None:
                a['fields'] = fs
            if inner is not None:
                a['inner'] = inner
            if vd is not None:
                a['vdict'] = vd
            out.append(a)
        for key, seq in (('fs', d['fields']), ('inner', d['inner'])):
            for i, f in enumerate(seq):
                put(**{key: seq[:i] + seq[i + 1:]})
                put(**{key: seq[:i + 1] + seq[i:]})
                for n in (0, 1, 3, 4, 5, 7, 8, 12, 15, 16, 17, 31, 32, 33, 64):
                    put(**{key: seq[:i] + [dict(f, data=self.hexs(n))] + seq[i + 1:]})
                    put(**{key: seq[:i] + [dict(f, data=(f['data'] * 20)[:2 * n])] + seq[i + 1:]})
                for n in (0, 1, 2, 3, 5, 9, 10, 11, 200):
                    put(**{key: seq[:i] + [dict(f, id=n)] + seq[i + 1:]})
            put(**{key: []})
        vd = d['vdict']
        for i, (t, n, v) in enumerate(vd):
            put(vd=vd[:i] + vd[i + 1:])
            put(vd=vd[:i + 1] + vd[i:])
            for t2 in (0, 4, 5, 8, 12, 13, 24, 66, 99):
                put(vd=vd[:i] + [[t2, n, v]] + vd[i + 1:])
                put(vd=vd[:i] + [[t2, n, self.hexs({4: 4, 12: 4, 5: 8, 13: 8, 8: 1}.get(t2, 16))]] + vd[i + 1:])
            for k in (0, 1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33):
                put(vd=vd[:i] + [[t, n, self.hexs(k)]] + vd[i + 1:])
                put(vd=vd[:i] + [[t, n, '00' * k]] + vd[i + 1:])
            for w in (1, 2, 3, 7, 8, 9, 15, 16, 31, 255, 65535):
                if t in (4, 5):
                    put(vd=vd[:i] + [[t, n, le(w, len(v) // 2)]] + vd[i + 1:])
            # numbers that do not fit where they are going
            for w in (2 ** 32, 2 ** 32 + 1, 2 ** 42, 2 ** 42 + 65536, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1):
                if t == 5 and n != tx('R'):
                    put(vd=vd[:i] + [[t, n, le(w, 8)]] + vd[i + 1:])
            for w in (2 ** 24 - 1, 2 ** 24, 2 ** 31, 2 ** 32 - 1):
                if t == 4:
                    put(vd=vd[:i] + [[t, n, le(w, 4)]] + vd[i + 1:])
        if vd:
            put(vd=[])
            for v in ('0000', '0002', 'ffff', ''):
                put(vdver=v)
        for m in (0, 1, 2, 255, 65535):
            put(minor=m)
        for v in (0, 1, 2, 3, 4, 5, 65535):
            put(v=v)
        return [a for a in out if not sum(f['id'] == 11 for f in a['fields']) > 1]

    def random_try(self, layers):
        r = self.r
        e = {}
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            l = r.choice(layers)
            k = r.randrange(8)
            at = r.choice([r.randrange(40), r.randrange(400), r.randrange(5000)])
            hx = r.choice(['00', 'ff', 'ffffffff', '00000010', '7f', self.hexs(r.randrange(1, 9))])
            x = [{'t': 'flip', 'bit': r.randrange(8)}, {'t': 'set', 'hex': hx}, {'t': 'insert', 'hex': hx}, {'t': 'delete', 'n': r.choice([1, 2, 4, 16, 300])},
                 {'t': 'copy', 'n': r.choice([1, 4, 16, 100]), 'to': r.randrange(5000)}, {'t': 'trunc'}, {'t': 'append', 'hex': hx, 'n': r.choice([1, 3, 16])},
                 {'t': 'set', 'hex': hx}][k]
            x.update({'at': at, 'wrap': True})
            e.setdefault(l, []).append(x)
        return align(e)


def align(e):
    if 'padded' in e:
        e['padded'] = e['padded'] + [{'t': 'align'}]
    return e


LAYERS4 = ['xml', 'payload', 'packed', 'padded', 'cipher', 'blocks', 'dict', 'header', 'signed', 'file']
LAYERS3 = ['xml', 'packed', 'hashed', 'padded', 'cipher', 'header', 'file']
# how far into a layer every change is made, and how far from its end
REACH = {'xml': (0, 20), 'payload': (130, 10), 'packed': (60, 30), 'hashed': (110, 60), 'padded': (4, 40), 'cipher': (4, 36), 'blocks': (44, 40),
         'dict': (400, 0), 'header': (600, 0), 'signed': (66, 0), 'file': (20, 80)}


def describe(cases):
    """A try as something to look at and to replay"""
    def fn(cid, step):
        x = cases[cid]
        out = {k: x[k] for k in ('term', 'xml') if k in x}
        out['try'] = x['tries'][step]
        return out
    return fn


def judge(c, cases, note, kind):
    """Run the tries and validate what happened"""
    for i, x in enumerate(cases):
        x['id'] = i
    res = c.kvh('probe', cases, case_secs=100)
    traces, done, top = [], {}, {}      # top: peak, size of the input, unpacked, memory for the key derivation (KiB)
    for x, r in zip(cases, res):
        if 'got' not in r:
            raise ToolError('harness failed: %r' % r)
        keep = [(t, g) for t, g in zip(x['tries'], r['got']) if g != ['nop']]
        x['tries'] = [t for t, _ in keep]
        if not keep:
            continue
        for _, g in keep:
            for call in ('open', 'unlock', 'parse'):
                if call in g and g[call][1] > top.get(call, [0])[0]:
                    top[call] = [g[call][1], g['size'], g.get('plain', 0), g.get('mem', 0)]
            k = g['parse'][0] if kind == 'xml' else g['open'][0] + ' ' + g['unlock'][0] + ' ' + str((g['unlock'] + ['', '', ''])[2] or (g['open'] + ['', ''])[2])
            done[k] = done.get(k, 0) + 1
        traces.append({'id': x['id'], 't': kind, 'got': [g for _, g in keep]})
    d = c.extra.setdefault('inputs', {})
    d[note] = done
    c.extra.setdefault('largest_memory', {})[note] = top
    c.extra['inputs_tried'] = c.extra.get('inputs_tried', 0) + sum(done.values())
    c.validate('TraceProbe', traces, note=note, shards=8, workers=1, few=4, describe=describe(cases))
    return traces


def c08(c):
    c.model_check('KdbxReader', cfg='MCReader_piecewise', note='reading in pieces ends within bounded memory')
    for p in ('claimed', 'patient'):
        if not c.tlc('KdbxReader', cfg='MCReader_' + p, count=False).violated:
            raise ToolError('KdbxReader holds for readers of kind ' + p)
    g = Forger(c.seed * 7919 + 8)
    bases = g.bases()
    terms = arch.gen_terms(c, 'GenProbe', [{'id': i, 't': 'file', 'd': d, 'a': d} for i, d in enumerate(bases)])
    ch = arch.gen_terms(c, 'GenProbe', [{'id': 0, 't': 'changes', 'n': 600, 'm': 100}])[0]
    cases = []
    for d, t in zip(bases, terms):
        for l in LAYERS4 if d['v'] == 4 else LAYERS3:
            near, end = REACH[l]
            es = [e for at in ch['at'][:near] for e in at] + [e for at in ch['end'][:end] for e in at] + ch['all']
            for k in range(0, len(es), 400):
                cases.append({'term': t['term'], 'tries': [dict(d['cr'], e=align({l: [e]})) for e in es[k:k + 400]]})
    tr = judge(c, cases, 'every change at every place of the outer layers and at the edges of the inner ones', 'file')
    # headers and inner headers that say something else, correctly signed
    rows = []
    for d in bases:
        rows += [{'t': 'file', 'd': d, 'a': a} for a in (g.heads(d) if d is bases[0] or d['v'] == 3 or c.thorough else g.heads(d)[::3])]
    for i, x in enumerate(rows):
        x['id'] = i
    ts = arch.gen_terms(c, 'GenProbe', rows, shards=8)
    judge(c, [{'term': t['term'], 'tries': [dict(x['d']['cr'], e={})]} for x, t in zip(rows, ts)], 'headers with other fields', 'file')
    # several changes in several layers
    cases = []
    for d, t in zip(bases, terms):
        for _ in range(c.pick(8, 80)):
            cases.append({'term': t['term'], 'tries': [dict(d['cr'], e=g.random_try(LAYERS4[:7] + ['file'] if d['v'] == 4 else LAYERS3))
                                                       for _ in range(400)]})
    judge(c, cases, 'random changes in several layers', 'file')
    documents(c, g)
    bulk(c, g)
    bad = copy.deepcopy(tr[0])
    bad['got'] = [dict(bad['got'][0], open=['panic', 1, 'x'])]
    c.expect_rejected('TraceProbe', bad, 'opening panicked')
    bad['got'] = [dict(bad['got'][0], open=['err', 40000, 'x'])]
    c.expect_rejected('TraceProbe', bad, 'opening took 40 MB')
    x = cases[3]['tries'][5]
    c.samples.append({'changes by layer': x['e']})
    findings(c)


def documents(c, g):
    """Documents with one or two changes of their tree, with changed bytes, and in odd encodings"""
    alg, key = 'chacha20', g.hexs(32)
    how = {'alg': alg, 'key': key}
    n = arch.gen_terms(c, 'GenProbe', [{'id': 0, 't': 'paths'}])[0]
    rows = [{'id': i, 't': 'doc', 'p': i + 1, 'alg': alg, 'key': key} for i in range(n['paths'])]
    for i in range(c.pick(40, 400)):
        rows.append({'id': len(rows), 't': 'two', 'alg': alg, 'key': key, 'two': [[g.r.randrange(100000) for _ in range(4)] for _ in range(50)]})
    docs = arch.gen_terms(c, 'GenProbe', rows, shards=8)
    judge(c, [{'xml': x, 'tries': [how]} for d in docs for x in d['docs']], 'documents with elements changed', 'xml')
    whole = ['layer', 'xml', docs[-1]['docs'][0]]
    plain = arch.gen_terms(c, 'GenXml', [dict(id=0, style=dict(PLAIN), puts=[], attrs=[], pro=0, alg=alg, key=key)])[0]['xml']
    ch = arch.gen_terms(c, 'GenProbe', [{'id': 0, 't': 'changes', 'n': c.pick(1500, 5000), 'm': 40}])[0]
    es = [e for at in ch['at'] for e in at] + [e for at in ch['end'] for e in at] + ch['all']
    cases = [{'xml': ['layer', 'xml', plain], 'tries': [dict(how, e={'xml': [e]}) for e in es[k:k + 300]]} for k in range(0, len(es), 300)]
    cases += [{'xml': whole, 'tries': [dict(how, e={'xml': [e]}) for e in es[k:k + 300:5]]} for k in range(0, len(es), 300)]
    judge(c, cases, 'documents with bytes changed', 'xml')
    texts = odd_documents()
    judge(c, [{'xml': ['hex', t.hex()], 'tries': [how]} for t in texts], 'odd documents', 'xml')
    c.samples.append({'document': texts[7].decode('latin1')[:200]})


def odd_documents():
    """Texts that are not quite XML, or XML in unusual encodings"""
    doc = ('<?xml version="1.0" encoding="%s"?><KeePassFile><Meta><DatabaseName>n\u00e9</DatabaseName></Meta>'
           '<Root><Group><Name>g</Name></Group></Root></KeePassFile>')
    out = [b'', b' ', b'\n', b'<', b'<a', b'<a>', b'</a>', b'<a/>', b'\0', b'\xff\xfe', b'\xfe\xff', b'\xef\xbb\xbf', b'<?xml', b'<?xml?>',
           b'<?xml version="1.0"?>', b'<?xml version="2.0"?><KeePassFile/>', b'<KeePassFile', b'<KeePassFile>', b'<KeePassFile/>',
           b'<KeePassFile></KeePassFile>', b'<KeePassFile/><KeePassFile/>', b'<KeePassFile><Root/></KeePassFile>',
           b'<KeePassFile><Meta/></KeePassFile>', b'<KeePassFile><Root><Group/></Root></KeePassFile>', b'<KeePassFile><Root><Group/><Group/></Root></KeePassFile>',
           b'<!-- --', b'<![CDATA[', b'<!DOCTYPE', b'<!DOCTYPE a>', b'<!DOCTYPE a><KeePassFile/>', b'<!DOCTYPE a [<!ENTITY b "c">]><KeePassFile>&b;</KeePassFile>',
           b'<!DOCTYPE a [<!ENTITY b "&b;">]><KeePassFile><Meta><DatabaseName>&b;</DatabaseName></Meta></KeePassFile>',
           b'<!DOCTYPE a [<!ENTITY b "<Group/>">]><KeePassFile><Root>&b;</Root></KeePassFile>',
           b'<!DOCTYPE a SYSTEM "file:///dev/null"><KeePassFile/>', b'<KeePassFile>&unknown;</KeePassFile>', b'<KeePassFile>&#0;&#xFFFFFFFF;</KeePassFile>',
           b'<KeePassFile>&#x110000;</KeePassFile>', b'<KeePassFile>&#xD800;</KeePassFile>', b'<KeePassFile>&', b'<KeePassFile a="', b'<KeePassFile a=b/>',
           b'<KeePassFile a="1" a="2"/>', b'<x:KeePassFile/>', b'<KeePassFile xmlns="urn:x"><Root xmlns="urn:y"/></KeePassFile>',
           b'<KeePassFile xmlns:x="urn:x"><x:Root><Group/></x:Root></KeePassFile>', b'<KeePassFile><?pi', b'<KeePassFile>]]></KeePassFile>']
    for enc in ('utf-8', 'UTF-8', 'utf-16', 'utf-16le', 'utf-16be', 'latin1', 'us-ascii', 'windows-1252', 'shift_jis', 'bogus', ''):
        for how in ('utf-8', 'utf-8-sig', 'utf-16', 'utf-16-le', 'utf-16-be', 'latin1', 'utf-32'):
            out.append((doc % enc).encode(how))
    # cut inside characters and markup
    full = (doc % 'utf-8').encode()
    out += [full[:k] for k in range(len(full))]
    u16 = (doc % 'utf-16').encode('utf-16')
    out += [u16[:k] for k in range(0, len(u16), 3)]
    return out


def nest(n, inner=b''):
    return b'<Group>' * n + inner + b'</Group>' * n


def wrapped(body, meta=b''):
    return b'<KeePassFile><Meta>' + meta + b'</Meta><Root><Group>' + body + b'</Group></Root></KeePassFile>'


def bulk(c, g):
    """Many, long or deep: time and memory in proportion"""
    n = c.pick(20000, 60000)
    ent = b'<Entry>%s</Entry>'
    docs = [wrapped(b'<Group/>' * n), wrapped(b'<Entry/>' * n), wrapped(ent % (b'<String/>' * n)), wrapped(ent % (b'<History/>' * n)),
            wrapped(ent % (b'<History>' + b'<Entry/>' * n + b'</History>')), wrapped(b'<Times/>' * n), wrapped(b'', b'<CustomData>' + b'<Item/>' * n + b'</CustomData>'),
            wrapped(b'', b'<DatabaseName>x</DatabaseName>' * n), wrapped(b'<X/>' * n), wrapped(b'<X>' * n + b'</X>' * n),
            wrapped(nest(300)), wrapped(b'<Entry><History>' * 200 + b'</History></Entry>' * 200),
            wrapped(ent % (b'<String><Key>k</Key><Value>' + b'v' * (50 * n) + b'</Value></String>')),
            wrapped(b'<Name>' + b'&lt;' * n + b'</Name>'), wrapped(b'<Name>' + b'<![CDATA[]]>' * n + b'</Name>'), wrapped(b'<Name>' + b'<!---->' * n + b'</Name>'),
            wrapped(b'<Name>' + b'<b/>x' * n + b'</Name>'), wrapped(b'<UUID>' + b'A' * (10 * n) + b'</UUID>'), wrapped(b' ' * (50 * n)),
            b'<' + b'K' * (10 * n) + b'/>', wrapped(b'<X ' + b' '.join(b'a%d="b"' % i for i in range(min(n, 20000))) + b'/>'),
            wrapped(ent % (b'<String><Key>k</Key><Value Protected="True">AAAA</Value></String>' * (n // 10)))]
    how = {'alg': 'chacha20', 'key': g.hexs(32)}
    judge(c, [{'xml': ['hex', d.hex()], 'tries': [how]} for d in docs], 'large and deep documents', 'xml')
    # lengths claimed by every length field of a file whose data ends soon after
    cases = []
    for d, t in zip(g.bases(), arch.gen_terms(c, 'GenProbe', [{'id': i, 't': 'file', 'd': d, 'a': d} for i, d in enumerate(g.bases())])):
        tries = []
        for size in ('00000010', '00000040', 'f0ffff7f', '00ca9a3b'):
            for layer, ats in (('blocks', (32,)), ('hashed', (68,)), ('payload', range(0, 120)), ('header', range(12, 260)), ('dict', range(0, 200))):
                if layer in (LAYERS4 if d['v'] == 4 else LAYERS3):
                    for at in ats:
                        tries.append(dict(d['cr'], e={layer: [{'t': 'set', 'at': at, 'hex': size}]}))
                        tries.append(dict(d['cr'], e={layer: [{'t': 'set', 'at': at, 'hex': size}, {'t': 'trunc', 'at': at + 20}]}))
        cases += [{'term': t['term'], 'tries': tries[k:k + 200]} for k in range(0, len(tries), 200)]
    judge(c, cases, 'lengths far beyond the data', 'file')


def entities(k, n):
    """An entity of k characters used n times"""
    return (b'<!DOCTYPE a [<!ENTITY e "' + b'x' * k + b'">]><KeePassFile><Meta><DatabaseName>' + b'&e;' * n
            + b'</DatabaseName></Meta><Root><Group/></Root></KeePassFile>')


def findings(c):
    """Inputs the current code is known not to cope with (KNOWN_FINDINGS.txt)"""
    how = {'alg': 'null', 'key': ''}
    doc = entities(16000, 4000)
    r = c.kvh('probe', [{'id': 0, 'xml': ['hex', doc.hex()], 'tries': [how]}], case_secs=100)[0]
    if r['got'][0]['parse'][0] == 'panic':
        raise Violation('parsing a document with entities panics', {'document': doc.decode(), 'got': r['got'][0]})
    if not c.accepts('TraceProbe', {'id': 0, 't': 'xml', 'got': r['got']}):
        c.finding('xml-entities', 'a document of %d KiB whose entity of 16,000 characters is used 4,000 times takes %d KiB' % (len(doc) // 1024, r['got'][0]['parse'][1]),
                  {'document': doc.decode(), 'got': r['got'][0]})
    deep = wrapped(nest(20000))
    try:
        r = c.kvh('probe', [{'id': 0, 'xml': ['hex', deep.hex()], 'tries': [how]}], threads=1, case_secs=100)[0]
        if not c.accepts('TraceProbe', {'id': 0, 't': 'xml', 'got': r['got']}):
            raise Violation('parsing deeply nested groups fails', {'document': '20,000 nested groups', 'got': r['got'][0]})
    except Violation as v:
        if 'overflowed its stack' not in str(v.replay.get('output')):
            raise
        c.finding('xml-nesting', 'a document with 20,000 nested groups overflows the stack', v.replay)
