"""C09: which byte strings open, and what they show."""
import hashlib
from . import arch
from .core import ToolError
from .files import FileGen
from .gen import tx


def good_at(data):
    """Positions where the hash of everything before follows"""
    h = hashlib.sha256()
    out = []
    for p in range(len(data) - 31):
        if p:
            h.update(data[p - 1:p])
        if h.digest() == data[p:p + 32]:
            out.append(p)
    return out


def vd_bytes(d):
    out = bytes.fromhex(d['vdver'])
    for t, n, v in d['vdict']:
        name, val = bytes.fromhex(n[1:]), bytes.fromhex(v)
        out += bytes([t]) + len(name).to_bytes(4, 'little') + name + len(val).to_bytes(4, 'little') + val
    return out + b'\0' + bytes.fromhex(d['vdrest'])


def header_bytes(d):
    out = bytes.fromhex('03d9a29a67fb4bb5') + d['minor'].to_bytes(2, 'little') + d['v'].to_bytes(2, 'little')
    for f in d['fields']:
        data = vd_bytes(d) if f['id'] == 11 else bytes.fromhex(f['data'])
        out += bytes([f['id']]) + len(data).to_bytes(2 if d['v'] == 3 else 4, 'little') + data
    return out


class Headers(FileGen):
    def __init__(self, seed):
        super().__init__(seed)
        self.items = []

    def tail(self):
        return bytes.fromhex(self.hexs(self.r.choice([32, 32, 33, 100])))

    def add(self, head, sha=True, tail=None):
        """A header with a right or wrong hash and something behind"""
        h = hashlib.sha256(head).digest() if sha is True else b'' if sha is None else sha
        self.items.append(head + h + (self.tail() if tail is None else tail))


def c09(c):
    g = Headers(c.seed * 7919 + 9)
    r = g.r
    c.model_check('MCHeader', note='parser against the headers it should accept, all selections of fields')
    fam = c.generate('GenHeader')
    for kind in ('family', 'spoiled', 'sized'):
        for h in fam[kind]:
            b = bytes.fromhex(h)
            v3 = b[10] == 3
            g.add(b, None if v3 else True)
            if kind == 'family' and not v3 and r.random() < c.pick(0.1, 1):
                g.add(b, bytes.fromhex(g.hexs(32)))
    n_fam = len(g.items)
    # descriptions with all their freedoms, and changes of every byte
    bases = [g.d4(legacy=False, kdf='aes'), g.d4(legacy=False, kdf='argon2d'), g.d4(legacy=True), g.d3(), g.d3()]
    for d in bases:
        d['fields'] = [f for f in d['fields'] if len(f['data']) < 150]
    d = g.d4(legacy=False)
    d['vdict'] = g.extra_params() + [[66, tx('$UUID'), g.hexs(16)]] + g.extra_params()
    bases.append(d)
    for d in bases:
        b = header_bytes(d)
        v3 = d['v'] == 3
        for i in range(len(b)):
            for v in {0, 255, b[i] ^ (1 << r.randrange(8)), (b[i] + 1) % 256, r.randrange(256)} - {b[i]}:
                if c.thorough or i < 12 or r.random() < 0.5:
                    x = b[:i] + bytes([v]) + b[i + 1:]
                    g.add(x, None if v3 else True)
                    if not v3 and (i < 12 or r.random() < 0.2):
                        g.add(x, hashlib.sha256(b).digest())
            if r.random() < c.pick(0.4, 1):
                g.add(b[:i], None if v3 else True)
                g.add(b[:i] + bytes([r.randrange(256)]) + b[i:], None if v3 else True)
                g.add(b[:i] + b[i + 1:], None if v3 else True)
        full = b + (b'' if v3 else hashlib.sha256(b).digest()) + g.tail()
        for i in range(len(full)):
            if i <= 12 or i >= len(b) - 5 or r.random() < c.pick(0.2, 1):
                g.items.append(full[:i])
        if not v3:
            s = hashlib.sha256(b).digest()
            for i in range(32):
                g.add(b, s[:i] + bytes([s[i] ^ (1 << r.randrange(8))]) + s[i + 1:])
            # hashes of other things, or in another place
            for q in (bytes(32), s[::-1], hashlib.sha256(s).digest(), hashlib.sha256(b[12:]).digest(), hashlib.sha256(b[:-1]).digest(),
                      hashlib.sha256(b + s).digest(), hashlib.sha1(b).digest() + bytes(12), s[1:] + s[:1], b'\0' + s):
                g.add(b, q)
            g.add(b, True, b'')
        else:
            g.add(b, True)
    # signatures and versions
    b = header_bytes(bases[0])
    for m in range(65536 if c.thorough else 300):
        g.add(b[:10] + (m if m < 260 or c.thorough else r.randrange(65536)).to_bytes(2, 'little') + b[12:])
    for x in ('', '03', '03d9a2', '03d9a29a', '03d9a29a67', '03d9a29a67fb4bb5', '03d9a29a65fb4bb501000300', '03d9a29a66fb4bb501000300',
              '504b030414000000', '1f8b080000000000', '3c3f786d6c20', '9aa2d903b54bfb67', '03d9a29a67fb4bb500000000', '00' * 40, 'ff' * 40):
        g.items.append(bytes.fromhex(x))
        g.items.append(bytes.fromhex(x) + b[12:])
    for _ in range(c.pick(200, 3000)):
        g.items.append(bytes.fromhex(g.hexs(r.randrange(1, 80))))
        g.items.append(b[:12] + bytes.fromhex(g.hexs(r.randrange(1, 80))))
    # lengths that are too large, and files made of many small fields
    for n in (2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 65536, 1000):
        for i in (1, 2, 4, 11, 99, 0):
            g.add(b[:12] + bytes([i]) + n.to_bytes(4, 'little') + b[12:])
    for d in [g.d4() for _ in range(c.pick(250, 2500))] + [g.d3() for _ in range(c.pick(80, 800))]:
        g.add(header_bytes(d), None if d['v'] == 3 else True)
    items = g.items
    res = arch.run_scripts(c, [{'id': i, 'steps': [{'op': 'hex', 'f': 'f', 'hex': x.hex()}, {'op': 'open', 'a': 'a', 'f': 'f'}]}
                               for i, x in enumerate(items)])
    traces = [{'id': i, 'hex': x.hex(), 'good': good_at(x), 'ret': t['steps'][1]['ret']} for i, (x, t) in enumerate(zip(items, res))]
    c.validate('TraceHeader', traces, shards=8, workers=1, note='byte strings opened')
    ok = [t for t in traces if t['ret'][0] == 'ok']
    kinds = {}
    for t in traces:
        k = 'opened' if t['ret'][0] == 'ok' else t['ret'][1]
        kinds[k] = kinds.get(k, 0) + 1
    if len(ok) < 500 or len(kinds) < 7:
        raise ToolError('outcomes are not varied enough: %r' % kinds)
    c.extra['outcomes'] = kinds
    o4 = [t for t in ok if t['hex'][20:22] == '04'][-1]
    t = dict(o4, ret=['err', 'checksum', False])
    c.expect_rejected('TraceHeader', t, 'a well-formed header recorded as refused')
    t = next(t for t in traces if t['hex'].startswith(b.hex()) and t['ret'][:2] == ['err', 'checksum'])
    c.expect_rejected('TraceHeader', dict(t, ret=['err', 'malformed', False]), 'kind of error changed')
    c.expect_rejected('TraceHeader', dict(t, ret=o4['ret']), 'a wrong hash recorded as opened')
    hdr = dict(o4['ret'][1]['hdr'], iv='00' * 15)
    c.expect_rejected('TraceHeader', dict(o4, ret=['ok', dict(o4['ret'][1], hdr=hdr), False]), 'another IV reported')
    c.samples.append({'bytes': items[n_fam + 40].hex()[:200], 'outcome': traces[n_fam + 40]['ret'][:2][0]})
