"""C19, C20: identifiers, timestamps and one-time passwords."""
import base64
from .core import ToolError
from .gen import Gen, tx

SECRET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567'


def c20(c):
    c.model_check('MCOtp', {'N': c.pick(2, 3)}, note='all URLs with up to %d parameters of the alphabet' % c.pick(2, 3))
    g = Gen(c.seed * 7919 + 20)
    r = g.r
    urls = c.generate('GenOtp')
    names = ['secret', 'period', 'digits', 'issuer', 'algorithm', 'encoder', 'Secret', 'PERIOD', 'digit', 'digitss', '', 'x', 'ss']
    nums = ['30', '6', '8', '0', '1', '60', '4294967295', '4294967296', '99999999999999999999', 'abc', '', '-1', '6.0', '0x10', '007',
            '1e3', '٣', '3O', '６', '+5', ' 5', '5 ']
    for _ in range(c.pick(1500, 20000)):
        ps = []
        for _ in range(r.randrange(7)):
            n = r.choice(names[:3] if r.random() < 0.7 else names)
            if n == 'secret' or (n not in names[1:3] and r.random() < 0.7):
                v = ''.join(r.choice(SECRET + '=' if r.random() < 0.2 else SECRET) for _ in range(r.choice([0, 1, 8, 16, 32, 52])))
                v += r.choice(['', '', '=', '===', '======'])
            else:
                v = r.choice(nums)
            ps.append(n if r.random() < 0.05 else n + '=' + v)
        label = r.choice(['', 'a:b', 'Issuer:user%40example.com', 'x=y&z', 'secret=no&period=1', 'é:ü', 'a/b'])
        url = r.choice(['otpauth://totp/'] * 5 + ['otpauth://hotp/', 'otpauth://', '']) + label
        if ps or r.random() < 0.5:
            url += '?' + '&'.join(ps)
        urls.append(tx(url))
    cases = [{'id': i, 'url': u, 'prot': i % 2 == 0} for i, u in enumerate(urls)]
    nu = len(cases)
    secrets = ['', 'A', 'JBSWY3DPEHPK3PXP', 'MFRGG===', 'ME======', 'MFRA====', 'MFRGGZA=', 'jbswy3dp', 'A' * 200, '=', '==A=', '0189',
               SECRET]
    for _ in range(c.pick(100, 2000)):
        secrets.append(''.join(r.choice(SECRET) for _ in range(r.randrange(1, 64))) + '=' * r.randrange(7))
    for s in secrets:
        for p, d in ((30, 6), (0, 0), (1, 10), (2 ** 32 - 1, 8), (r.randrange(2 ** 32), r.randrange(2 ** 32))):
            cases.append({'id': len(cases), 'new': [tx(s), str(p), str(d)], 'over': r.random() < 0.3})
    res = c.kvh('otp', cases)
    traces = []
    for x, y in zip(cases, res):
        if 'ret' not in y:
            raise ToolError('harness failed: %r' % y)
        t = {'id': x['id'], 'ret': y['ret']}
        t.update({k: x[k] for k in ('url', 'new') if k in x})
        traces.append(t)
    c.validate('TraceOtp', traces, shards=8, workers=1, note='settings reported for URLs and for new ones')
    got = [t for t in traces[:nu] if t['ret'][0][0] == 'some' and 'none' not in t['ret'][0]]
    absent = [t for t in traces[:nu] if 'none' in t['ret'][0]]
    if len(got) < 50 or len(absent) < 50:
        raise ToolError('outcomes not varied')
    t = traces[-1]
    c.expect_rejected('TraceOtp', dict(t, ret=[t['ret'][0], t['ret'][1], t['ret'][2][:3] + ['77']]), 'other digits for a new one')
    c.expect_rejected('TraceOtp', dict(got[3], ret=[got[3]['ret'][0][:1] + ['x41'] + got[3]['ret'][0][2:]]), 'another secret')
    c.extra['urls'] = {'all_settings_present': len(got), 'something_absent': len(absent), 'new': len(traces) - nu}
    c.samples.append({'url': bytes.fromhex(got[5]['url'][1:]).decode(), 'reported': got[5]['ret'][0]})


def c19(c):
    c.model_check('MCValues', {'YEARS': c.pick(120, 820)}, note='calendar and texts around the turns of months and years')
    g = Gen(c.seed * 7919 + 19)
    r = g.r
    cases = []

    def add(k, **kw):
        cases.append(dict(kw, id=len(cases), k=k))

    def b64(b):
        return base64.b64encode(b).decode()
    # identifiers
    ids = [bytes(16), b'\xff' * 16, bytes(range(16)), b'\0' * 15 + b'\1', b'\1' + b'\0' * 15]
    ids += [bytes(r.choice([0, 1 << k]) if j == i else 0 for j in range(16)) for i in range(16) for k in range(8)]
    ids += [r.getrandbits(128).to_bytes(16, 'big') for _ in range(c.pick(300, 5000))]
    for i in ids:
        add('encId', v=i.hex())
        add('decId', x=tx(b64(i)))
    for n in list(range(0, 40)) * 2:
        add('decId', x=tx(b64(r.getrandbits(8 * n + 1).to_bytes(n + 1, 'big')[:n])))
    # dates: turns of years, months, days; leap and century rules; extremes
    marks = [(0, 0, 0), (23, 59, 59), (12, 34, 56), (0, 0, 1), (0, 1, 0), (1, 0, 0)]
    dates = []
    years = [1, 2, 3, 4, 5, 99, 100, 101, 399, 400, 401, 1582, 1600, 1700, 1752, 1800, 1900, 1901, 1904, 1969, 1970, 1972, 1999, 2000, 2001, 2004,
             2020, 2024, 2026, 2037, 2038, 2039, 2100, 2106, 2200, 2400, 9999, 10000, 32767, 32768, 65535, 65536, 100000, 262141, 262142]
    years += [r.randrange(1, 10000) for _ in range(c.pick(400, 5000))]
    for y in years:
        leap = (y % 4 == 0 and y % 100 != 0) or y % 400 == 0
        days = [(1, 1), (2, 28), (3, 1), (12, 31)] + ([(2, 29)] if leap else []) + [(r.randrange(1, 13), r.randrange(1, 29))]
        if y in years[:45]:
            days += [(m, 1) for m in range(1, 13)] + [(m, 31 if m in (1, 3, 5, 7, 8, 10, 12) else 30) for m in range(3, 13)]
        for m, d in days:
            dates.append((y, m, d) + r.choice(marks))
    for y, m, d, hh, mm, ss in dates:
        add('encTime', v=[y, m, d, hh, mm, ss, r.choice([0, 0, 0, 1, 500000000, 999999999])])
    # decoding: seconds as bytes
    secs = [0, 1, 255, 256, 86399, 86400, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 62135596800, 63713188800, 315537897599, 315537897600,
            8210266876799, 8272379404799, 8272379404800, 8272379491199, 8272379491200, 2 ** 43 - 1, 2 ** 43, 2 ** 47, 2 ** 48,
            9223372036854775, 9223372036854776, 2 ** 53, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 86400, 2 ** 64 - 9223372036854775,
            2 ** 64 - 9223372036854776, 2 ** 64 - 8334632851200, 2 ** 64 - 8334632937601]
    secs += [8272379404800 + k for k in range(-90000, 90000, 7919)]
    secs += [r.randrange(315537897600) for _ in range(c.pick(1500, 20000))] + [r.randrange(2 ** r.randrange(1, 65)) for _ in range(c.pick(500, 5000))]
    for s in secs:
        add('decTime', x=tx(b64(s.to_bytes(8, 'little'))))
    # ISO 8601: zones, and neighbouring notations
    zones = ['Z', '+00:00', '-00:00', '+01:00', '-01:00', '+05:30', '-03:30', '+14:00', '-12:00', '+23:59', '-23:59', '+00:01', '-00:01']
    odd = ['z', '', '+01', '+0100', '-0330', '+24:00', '+99:99', '+1:00', '+01:0', 'UTC', ' Z', '+', '-', 'Z ', '+01:00Z', '+01:60', '+-1:00', 'A', '\n']
    for n, (y, m, d, hh, mm, ss) in enumerate(dates):
        if y > 9999:
            continue
        base = '%04d-%02d-%02d%s%02d:%02d:%02d'
        zs = [r.choice(zones), r.choice(zones)]
        for z in zs + ([r.choice(odd)] if r.random() < 0.3 else []):
            add('decTime', x=tx(base % (y, m, d, 'T', hh, mm, ss) + z))
        if r.random() < 0.4:
            z = r.choice(zones)
            add('decTime', x=tx(r.choice([
                base % (y, m, d, r.choice(['t', ' ', '_', '', 'TT']), hh, mm, ss) + z,
                base % (y, m, d, 'T', hh, mm, ss) + r.choice(['.5', '.123456789', '.0', '.', ',5', '.1234567890123', '.99', 'x']) + z,
                base % (y, r.choice([0, 13, 99, m]), r.choice([0, 29, 30, 31, 32]), 'T', hh, mm, ss) + z,
                base % (y, m, d, 'T', r.choice([24, 25, 99]), r.choice([0, 59, 60]), r.choice([0, 60, 61])) + z,
                base % (y, m, d, 'T', 23, 59, 60) + z,
                ' ' + base % (y, m, d, 'T', hh, mm, ss) + z,
                '+' + base % (y, m, d, 'T', hh, mm, ss) + z,
                '-' + base % (y, m, d, 'T', hh, mm, ss) + z,
                '%d-%d-%dT%d:%d:%d' % (y, m, d, hh, mm, ss) + z,
                '%02d-%02d-%04dT%02d:%02d:%02d' % (d, m, y, hh, mm, ss) + z,
                '%04d/%02d/%02dT%02d:%02d:%02d' % (y, m, d, hh, mm, ss) + z,
                '%04d%02d%02dT%02d%02d%02d' % (y, m, d, hh, mm, ss) + z,
                '%04d-%02d-%02d' % (y, m, d), '%04d-%02d-%02dT%02d:%02d' % (y, m, d, hh, mm) + z,
                '%02d:%02d:%02d' % (hh, mm, ss), '%02d:%02d-%02d' % (hh, mm, ss), '0000-%02d-%02dT%02d:%02d:%02dZ' % (m, d, hh, mm, ss)])))
    # every single change of good texts
    for s in ('2020-02-29T13:14:15Z', '1999-12-31T23:59:59-05:30', b64((63713188800).to_bytes(8, 'little'))):
        for i in range(len(s)):
            for ch in '0-:Tz+= é/_Aa9\n':
                if r.random() < c.pick(0.6, 1):
                    add('decTime', x=tx(s[:i] + ch + s[i + 1:]))
                    add('decTime', x=tx(s[:i] + ch + s[i:]))
            add('decTime', x=tx(s[:i] + s[i + 1:]))
            add('decTime', x=tx(s[:i]))
    s = b64(ids[-1])
    for i in range(len(s)):
        for ch in '0-:+= é/_Aa9\n':
            add('decId', x=tx(s[:i] + ch + s[i + 1:]))
            add('decId', x=tx(s[:i] + ch + s[i:]))
        add('decId', x=tx(s[:i]))
        add('decId', x=tx(s[:i] + s[i + 1:]))
    # anything
    for _ in range(c.pick(600, 10000)):
        n = r.randrange(0, 30)
        t = ''.join(r.choice('0123456789-:TZ+=/ABab \té٠\U0001f600') if r.random() < 0.9 else chr(r.randrange(1, 55000)) for _ in range(n))
        add('decTime', x=tx(t))
        add('decId', x=tx(t))
    for w in ('', '=', '==', '====', '-', '--', '\0', 'now', 'AAAA', 'AAAAAAAAAAA', 'AAAAAAAAAAA=', 'AAAAAAAAAAB=', 'AAAAAAAAAAAA', 'AAAAAAAAAAAAAAAAAAAAAA==',
              '{00000000-0000-0000-0000-000000000000}', '00000000-0000-0000-0000-000000000000', '0' * 32, 'A' * 22, 'A' * 24, 'A' * 1000):
        add('decTime', x=tx(w))
        add('decId', x=tx(w))
    res = c.kvh('codec', cases)
    traces = []
    for x, y in zip(cases, res):
        if 'ret' not in y:
            raise ToolError('harness failed: %r' % y)
        traces.append(dict(x, ret=y['ret']))
    c.validate('TraceValues', traces, shards=8, workers=1, note='encoded and decoded values')
    kinds = {}
    for t in traces:
        k = t['k'] + ' ' + t['ret'][0]
        kinds[k] = kinds.get(k, 0) + 1
    if min(kinds.get(k, 0) for k in ('decTime some', 'decTime none', 'decId some', 'decId none')) < 100:
        raise ToolError('outcomes not varied: %r' % kinds)
    c.extra['outcomes'] = kinds
    e = next(t for t in traces if t['k'] == 'encTime')
    c.expect_rejected('TraceValues', dict(e, ret=['some', ('x42' if e['ret'][1].startswith('x41') else 'x41') + e['ret'][1][3:]]),
                      'another encoded time')
    z = next(t for t in traces if t['k'] == 'decTime' and t['ret'][0] == 'some' and bytes.fromhex(t['x'][1:]).endswith(b'+05:30')
             and t['x'].startswith('x3139'))
    civ = list(z['ret'][2])
    civ[3] = (civ[3] + 1) % 24
    c.expect_rejected('TraceValues', dict(z, ret=['some', z['ret'][1], civ]), 'an hour off')
    n = next(t for t in traces if t['k'] == 'decId' and t['ret'][0] == 'none' and len(t['x']) < 20)
    c.expect_rejected('TraceValues', dict(n, ret=['some', '0' * 32]), 'a value for a text that is no identifier')
    c.samples.append({'text': bytes.fromhex(z['x'][1:]).decode(), 'decoded': z['ret'][2]})
