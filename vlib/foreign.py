"""C03, C06, C07: files of other programs, and the credentials they need."""
import hashlib
import unicodedata
from . import arch, contents
from .files import (AES, CHACHA, CIPHERS, KAES3, KAES4, KARGD, KARGID, PLAIN, TWOFISH, le)
from .gen import tx
from .life import Scripts, first_with

OPEN = {'op': 'open', 'a': 'a', 'f': 'f'}


def unlock(cr, a='a'):
    return dict(op='unlock', a=a, **cr)


def cr(pw='none', kf='none'):
    return {'pw': pw if pw == 'none' else tx(pw), 'kf': kf}


def near(c0, g):
    """Credentials that differ from the given ones in all sorts of ways"""
    out = []
    pw = None if c0['pw'] == 'none' else bytes.fromhex(c0['pw'][1:]).decode()
    kf = None if c0['kf'] == 'none' else bytes.fromhex(c0['kf'])
    for p in {'', 'a', (pw or '') + ' ', ' ' + (pw or ''), (pw or 'x').upper(), (pw or 'x').lower(), (pw or 'xy')[:-1],
              (pw or '') + '\n', (pw or '') + '\0', (pw or '') + (pw or 'q'), (pw or 'ab')[::-1], (pw or '').strip()}:
        out.append((p, kf))
    for k in {b'', b'\0', (kf or b'') + b'\0', (kf or b'')[:-1], (kf or b'') + b'\n', (kf or b'x')[::-1], bytes(32),
              hashlib.sha256(kf or b'').digest(), (kf or b'').hex().encode()}:
        out.append((pw, k))
    out += [(None, kf), (pw, None), (None, None), (None, (pw or '').encode()), ((pw or 'z'), (pw or 'z').encode())]
    if kf is not None:
        try:
            out += [(kf.decode(), None), (kf.decode(), (pw or '').encode())]
        except UnicodeDecodeError:
            pass
    seen, res = set(), []
    for p, k in out:
        key = (p, k)
        if key not in seen:
            seen.add(key)
            res.append({'pw': 'none' if p is None else tx(p), 'kf': 'none' if k is None else k.hex()})
    g.r.shuffle(res)
    return res


def folded(p):
    """Texts some programs take for the same"""
    out = {p.strip(), p.lower(), p.upper(), p.casefold(), p.replace('\r\n', '\n'), p.replace('\n', '\r\n'), p.replace('\r', '\n'), p.rstrip('\r\n'),
           p.lstrip('\ufeff'), '\ufeff' + p, p.split('\0')[0], p.replace('\0', ''), p.replace('\t', ' '), ' '.join(p.split()), p + p[-1:], p[:64], p[:72],
           p.encode('ascii', 'ignore').decode(), p.encode('ascii', 'replace').decode(), p.encode('utf-8').decode('latin-1')}
    out |= {unicodedata.normalize(f, p) for f in ('NFC', 'NFD', 'NFKC', 'NFKD')}
    return sorted(out - {p})


TEXTS = contents.WORDS + contents.UNSTORABLE + ['two\r\nlines', 'two\nlines', 'tab\tin', 'a' * 64, 'a' * 65, 'a' * 72, 'a' * 73, 'a' * 128, 'a' * 129,
                                                'e\u0301', 'ﬁ', 'Å', 'Ω', 'İstanbul', 'ẞ', 'ab' * 1500]

CREDS = [cr('pass'), cr(''), cr('ünïcödé 密码 😀'), cr(' spaced '), cr('x' * 200), cr('none' * 0 + 'nul\0in'),
         cr('none'), cr(kf='00'), cr(kf=''), cr(kf='7061737300'), cr(kf=bytes(range(32)).hex()),
         cr(kf=(b'0123456789abcdef' * 4).hex()), cr(kf=b'<KeyFile><Key><Data>AAAA</Data></Key></KeyFile>'.hex()),
         cr('pass', '00'), cr('pass', ''), cr('', ''), cr('', '70617373'), cr('both', bytes(range(64)).hex()),
         cr('pass', b'pass'.hex()), cr('é' * 30, 'ff' * 300), cr('long' * 2000), cr('p', 'a5' * 70000), cr()]
CREDS[6] = {'pw': tx('none'), 'kf': 'none'}


def c03(c):
    g = Scripts(c.seed * 7919 + 3)
    db = contents.db(contents.group(0, 'r', [contents.entry(1, [contents.field('Password', 'secret', True)])]))
    descs = []
    for i, k in enumerate(CREDS):
        descs.append(g.d4(db=db, cr=k, kdf=['aes', 'argon2d', 'argon2id', 'aes3'][i % 4], style=PLAIN))
        descs.append(g.d3(db=db, cr=k, style=PLAIN))
    for _ in range(c.pick(10, 60)):
        descs.append(g.d4(db=db, style=PLAIN))
    # key derivations that are not supported, or with settings that are not
    for u, p in [(g.hexs(16), []), ('0' * 32, [[66, tx('S'), g.hexs(32)]]), (KAES4, [[5, tx('R'), le(1, 8)], [66, tx('S'), g.hexs(31)]]),
                 (KARGD, arg(g, V='12000000')), (KARGID, arg(g, P='00000000')), (KARGD, arg(g, M=le(1024, 8))),
                 (KARGD, arg(g, S='01')), (KARGID, arg(g, I=le(0, 8)))]:
        d = g.d4(db=db, legacy=False, style=PLAIN)
        d['vdict'] = p + [[66, tx('$UUID'), u]]
        descs.append(d)
    scripts = []
    for s in arch.file_steps(c, descs):
        k = s['d']['cr']
        others = near(k, g) + [x for x in CREDS if x != k]
        for part in range(0, len(others), 10):
            some = others[part:part + 10]
            steps = [s, OPEN]
            for x in some:
                steps.append(unlock(x))
                if g.r.random() < 0.2:
                    steps += [{'op': 'save', 'a': 'a', 'f': 'g'}, {'op': 'same', 'f': 'f', 'g': 'g'}]
                steps.append(OPEN) if g.r.random() < 0.05 else None
            scripts.append({'id': len(scripts), 'steps': steps + [unlock(k), {'op': 'obs', 'a': 'a'}]})
    # the same for files this library saves, also through the constructor for passwords only
    for i, k in enumerate(CREDS):
        pre = [{'op': 'new', 'a': 'a', 'db': db}, {'op': 'hdr', 'a': 'a', 'set': {'kdf': g.kdf_setting()}},
               dict(op='key', a='a', from_password=k['kf'] == 'none' and k['pw'] != 'none', **k), {'op': 'save', 'a': 'a', 'f': 'f'},
               dict(op='decode', f='f', **k), OPEN]
        others = near(k, g)
        scripts.append({'id': len(scripts), 'steps': pre + [unlock(x) for x in others] + [
            dict(unlock(k), from_password=k['kf'] == 'none' and k['pw'] != 'none'), {'op': 'obs', 'a': 'a'}]})
    # every kind of text, and what it could be taken for
    texts = [cr(p) for p in TEXTS] + [cr('p', p.encode().hex()) for p in TEXTS]
    files = arch.file_steps(c, [g.d4(db=db, cr=k, kdf='aes', style=PLAIN) if i % 4 else g.d3(db=db, cr=k, style=PLAIN) for i, k in enumerate(texts)])
    for p, k, s in zip(TEXTS * 2, texts, files):
        wrong = [cr(x) if k['kf'] == 'none' else cr('p', x.encode().hex()) for x in folded(p)]
        scripts.append({'id': len(scripts), 'steps': [s, OPEN] + [unlock(x) for x in wrong] + [unlock(k), {'op': 'obs', 'a': 'a'}]})
        if k['kf'] == 'none':
            scripts.append({'id': len(scripts), 'steps': [
                {'op': 'new', 'a': 'a', 'db': db}, {'op': 'hdr', 'a': 'a', 'set': {'kdf': g.kdf_setting('aes')}},
                dict(op='key', a='a', from_password=True, **k), {'op': 'save', 'a': 'a', 'f': 'f'}, dict(op='decode', f='f', **k), OPEN,
                unlock(k), {'op': 'obs', 'a': 'a'}]})
    c.model_check('MCArch', {'SCEN': 'locked4', 'DEPTH': c.pick(3, 4)}, note='failed attempts leave the archive as it was')
    tr = arch.check_scripts(c, scripts, 'credentials against files', rebuild_every=0)
    t, k = first_with(tr, 'unlock', 'err')
    arch.corrupt(c, t, lambda t: t['steps'][k].update(ret=['ok', dict(t['steps'][-1]['ret'][1])]),
                 'a wrong password recorded as accepted')
    c.extra['unlock_attempts'] = {
        'failed': sum(1 for t in tr for s in t['steps'] if s['o']['op'] == 'unlock' and s['ret'][0] == 'err'),
        'succeeded': sum(1 for t in tr for s in t['steps'] if s['o']['op'] == 'unlock' and s['ret'][0] == 'ok')}
    c.samples.append({'credentials': CREDS[13], 'attempts': near(CREDS[13], g)[:8]})


def arg(g, **kw):
    p = {'I': (5, le(1, 8)), 'M': (5, le(65536, 8)), 'P': (4, le(1, 4)), 'S': (66, g.hexs(32)), 'V': (4, '13000000')}
    return [[t, tx(n), kw.get(n, v)] for n, (t, v) in p.items()]


def freedoms(g, c):
    """One file for every freedom the format leaves, all else plain"""
    r = g.r
    base = dict(db=contents.shape_dbs()[9], cr=cr('pw'), kdf='aes', legacy=False, style=PLAIN, gz='none', cipher=AES)
    out = []

    def add(**kw):
        d = g.d4(**dict(base, **{k: v for k, v in kw.items() if k in ('db', 'cr', 'kdf', 'legacy', 'style', 'gz', 'cipher', 'sizes', 'alg')}))
        for k, v in kw.items():
            if k in d and k not in ('db', 'cr', 'style', 'gz', 'sizes'):
                d[k] = v
        out.append(d)
        return d
    for ci in CIPHERS:
        for gz in ('none', 'default', 'store', 'fixed', 'named'):
            for alg in (2, 3):
                add(cipher=ci, gz=gz, alg=alg)
    for kdf in ('aes', 'aes3', 'argon2d', 'argon2id'):
        for _ in range(4):
            add(kdf=kdf)
    for m in (0, 1, 2, 255, 256, 65535):
        add(minor=m)
    for _ in range(3):
        add(legacy=True)
    for v in ('0001', '0101', 'ff01', '0000'):
        add(vdver=v)
    for s in ([1], [2], [15], [16], [17], [31], [1, 2, 3], [1000000, 1], [4, 1048576], [1048577], [3000000]):
        add(sizes=s)
        add(sizes=s, cipher=CHACHA, gz='default')
    # large blocks, and much content in small ones
    for n, s, ci, gz in [(1600000, [1100000], AES, 'none'), (2300000, [2147483647], CHACHA, 'none'), (3000000, [1048577], TWOFISH, 'store'),
                         (1200000, [1048575], CHACHA, 'none'), (70000, [65536], AES, 'none'), (70000, [65535, 1, 65537], CHACHA, 'default'),
                         (300000, [100], AES, 'none')]:
        add(db=contents.sized(n), sizes=s, cipher=ci, gz=gz)
    for n in (65535, 65536, 70000, c.pick(300000, 3000000)):
        d = add()
        d['fields'].insert(r.randrange(len(d['fields'])), {'id': 12, 'data': g.hexs(n)})
        d = add(cipher=r.choice(CIPHERS))
        d['inner'].insert(r.randrange(len(d['inner'])), {'id': 3, 'data': '01' + g.hexs(n)})
    # order of the fields: all rotations, and unknown ones everywhere
    for k in range(6):
        d = add()
        fs = d['fields'][:-1]
        d['fields'] = fs[k % len(fs):] + fs[:k % len(fs)] + [d['fields'][-1]]
    for i in (1, 12, 13, 14, 99, 127, 128, 254, 255):
        d = add()
        d['fields'].insert(r.randrange(len(d['fields'])), {'id': i, 'data': g.hexs(r.choice([0, 1, 70000 if c.thorough else 700]))})
        d = add()
        d['inner'].insert(r.randrange(len(d['inner'])), {'id': i if i > 2 else 3, 'data': g.hexs(r.choice([0, 1, 3000]))})
    # the end of the headers may have any content
    for n in (1, 2, 3, 5, 8, 16, 33, 300):
        d = add()
        d['fields'][-1]['data'] = g.hexs(n)
        d['inner'][-1]['data'] = g.hexs(300 - n)
    # old fields next to the parameters
    d = add()
    d['fields'][0:0] = [{'id': 5, 'data': g.hexs(32)}, {'id': 6, 'data': le(7, 8)}]
    d = add()
    d['fields'][-1:-1] = [{'id': 8, 'data': g.hexs(32)}, {'id': 10, 'data': le(2, 4)}]
    # parameters: additional ones of every type
    for t, v in [(4, '01020304'), (5, '0102030405060708'), (8, '01'), (8, '00'), (12, 'ffffffff'), (13, '00000000000000ff'),
                 (24, 'c3a9'), (24, ''), (66, ''), (66, 'ab' * 100)]:
        d = add()
        d['vdict'].insert(r.randrange(len(d['vdict']) + 1), [t, tx('Extra'), v])
    # layout of the XML
    styles = []
    for o in range(4):
        styles += [{'ord': o}, {'ord': o, 'unk': 1}, {'ord': o, 'unk': 2}, {'ord': o, 'unk': 2, 'ws': 'x0a09', 'com': True}]
    for t in ('cdata', 'refs', 'split'):
        styles += [{'txt': t}, {'txt': t, 'unk': 2, 'attr': True}]
    styles += [{'short': True}, {'pad': True}, {'bool': 1}, {'bool': 2}, {'attr': True}, {'com': True}, {'iso': True}]
    for i, st in enumerate(styles):
        add(style=dict(PLAIN, **st), db=contents.shape_dbs()[(9 + i) % len(contents.shape_dbs())])
        add(style=dict(PLAIN, **st), db=g.small_db())
    return out


def unsupported(g):
    """Well-formed files with settings this library does not know"""
    out = []
    base = dict(cr=cr('pw'), kdf='aes', legacy=False, style=PLAIN)
    for ci in ('61ab05a1946441c38d743a563df8dd35', '0' * 32, 'f' * 32, AES[:-1] + 'e', AES[::-1]):
        d = g.d4(**base)
        next(f for f in d['fields'] if f['id'] == 2)['data'] = ci
        out.append(d)
    for comp in (2, 3, 256, 0x01000000, 2 ** 32 - 1):
        d = g.d4(**base, gz='none')
        next(f for f in d['fields'] if f['id'] == 3)['data'] = le(comp, 4)
        out.append(d)
    for alg in (0, 1, 4, 5, 2 ** 31, 2 ** 32 - 1, 0x02000000):
        d = g.d4(**base)
        next(f for f in d['inner'] if f['id'] == 1)['data'] = le(alg, 4)
        out.append(d)
    for u in ('0' * 32, 'f' * 32, KAES4[:-1] + '9', KARGD[::-1], g.hexs(16)):
        d = g.d4(**base)
        d['vdict'] = [p for p in d['vdict'] if p[1] != tx('$UUID')] + [[66, tx('$UUID'), u]]
        out.append(d)
    for kw in (dict(V='00000000'), dict(V='14000000'), dict(V='11000000'), dict(P='00000000'), dict(P=le(2 ** 24, 4)), dict(M=le(0, 8)),
               dict(M=le(8191, 8)), dict(I=le(0, 8)), dict(S=''), dict(S='01' * 7), dict(M=le(2 ** 42, 8)),
               dict(M=le(2 ** 42 + 16384, 8)), dict(M=le(2 ** 63 + 16384, 8)), dict(M=le(2 ** 64 - 1, 8)), dict(I=le(2 ** 32, 8)),
               dict(I=le(2 ** 32 + 1, 8)), dict(I=le(2 ** 63 + 1, 8)), dict(I=le(2 ** 64 - 1, 8)), dict(P=le(2 ** 32 - 1, 4))):
        for u in (KARGD, KARGID):
            d = g.d4(**base)
            d['vdict'] = arg(g, **kw) + [[66, tx('$UUID'), u]]
            out.append(d)
    for n in (0, 1, 16, 31, 33, 64):
        d = g.d4(**base)
        d['vdict'] = [[5, tx('R'), le(1, 8)], [66, tx('S'), g.hexs(n)], [66, tx('$UUID'), KAES4]]
        out.append(d)
    for ci, n in [(AES, 12), (AES, 0), (AES, 15), (AES, 17), (TWOFISH, 12), (CHACHA, 16), (CHACHA, 0), (CHACHA, 8), (CHACHA, 24)]:
        d = g.d4(**base, cipher=ci)
        next(f for f in d['fields'] if f['id'] == 7)['data'] = g.hexs(n)
        out.append(d)
    return out


def c06(c):
    g = Scripts(c.seed * 7919 + 6)
    descs = freedoms(g, c) + unsupported(g) + [g.d4() for _ in range(c.pick(250, 2500))]
    scripts = []
    for i, s in enumerate(arch.file_steps(c, descs)):
        scripts.append({'id': i, 'steps': [s, OPEN, unlock(s['d']['cr']), {'op': 'obs', 'a': 'a'},
                                           dict(op='decode', f='f', **s['d']['cr'])]})
    tr = arch.check_scripts(c, scripts, 'files built according to the format', rebuild_every=7)
    t, k = first_with(tr, 'unlock')
    arch.corrupt(c, t, lambda t: t['steps'][k]['ret'][1]['db']['root']['times'].update(usage='12345'),
                 'a usage count changed after unlocking')
    c.samples.append({'file': {k: v for k, v in descs[40].items() if k not in ('db',)}})


def header_len(d):
    """Length of the header of a version 3 file"""
    return 12 + sum(3 + len(f['data']) // 2 for f in d['fields'])


def c07(c):
    g = Scripts(c.seed * 7919 + 7)
    r = g.r
    descs = []
    for ci in CIPHERS:
        for gz in ('none', 'default', 'store', 'fixed'):
            for alg in (2, 3):
                for sizes in ([1048576], [1], [16], [100, 3, 50]):
                    descs.append(g.d3(cipher=ci, gz=gz, alg=alg, sizes=sizes))
    for i in range(c.pick(34, 100)):
        descs.append(g.d3(db=contents.db(contents.group(0), name='n' * i), style=PLAIN, sizes=r.choice([[16], [1048576], [5]])))
    for alg in (0, 1, 4, 2 ** 32 - 1):
        d = g.d3()
        next(f for f in d['fields'] if f['id'] == 10)['data'] = le(alg, 4)
        descs.append(d)
    for ci in ('61ab05a1946441c38d743a563df8dd35', '0' * 32):
        d = g.d3()
        next(f for f in d['fields'] if f['id'] == 2)['data'] = ci
        descs.append(d)
    for ci, n in [(AES, 12), (CHACHA, 16), (TWOFISH, 0)]:
        d = g.d3(cipher=ci)
        next(f for f in d['fields'] if f['id'] == 7)['data'] = g.hexs(n)
        descs.append(d)
    descs += [g.d3(db=contents.sized(n), cipher=ci, sizes=s) for ci in CIPHERS for n, s in
              [(1048576 - 700, [1048576]), (2100000, [1048576]), (70000, [65536]), (70000, [1000]), (1700000, [1500000]),
               (1200000, [2147483647])]]
    descs += [g.d3() for _ in range(c.pick(120, 1500))]
    files = arch.file_steps(c, descs)
    scripts = []
    for i, s in enumerate(files):
        k = s['d']['cr']
        wrong = [unlock(x) for x in near(k, g)[:3]]
        scripts.append({'id': i, 'steps': [s, OPEN] + wrong + [unlock(k), {'op': 'obs', 'a': 'a'}, {'op': 'save', 'a': 'a', 'f': 'g'},
                                           dict(op='key', a='a', **k), {'op': 'hdr', 'a': 'a', 'set': {'kdf': g.kdf_setting()}},
                                           {'op': 'save', 'a': 'a', 'f': 'h'}, {'op': 'open', 'a': 'b', 'f': 'h'},
                                           unlock(k, 'b'), {'op': 'obs', 'a': 'a'}]})
    tr = arch.check_scripts(c, scripts, 'KDBX 3.1 files', rebuild_every=0)
    t, k = first_with(tr, 'unlock')
    arch.corrupt(c, t, lambda t: t['steps'][k]['ret'][1]['db']['root'].update(name='x00'), 'the name of the root group changed')
    t, k = first_with(tr, 'save', 'err')
    arch.corrupt(c, t, lambda t: t['steps'][k].update(ret=['ok', False]), 'saving a 3.1 archive recorded as successful')
    # damage to the encrypted data: every byte of small files, and larger cuts
    small = contents.db(contents.group(0, 'r', [contents.entry(1, [contents.field('Password', 'secret', True)])]))
    damaged = []
    for j, (ci, gz) in enumerate([(AES, 'none'), (CHACHA, 'none'), (TWOFISH, 'default')]):
        damaged.append(g.d3(db=small, cipher=ci, gz=gz, sizes=[[400, 30, 1048576], [64], [1048576]][j], cr=cr('pw'), style=dict(PLAIN)))
    scripts = []
    lens = [x['steps'][0]['ret'][1] for x in arch.run_scripts(c, [{'id': i, 'steps': [s]} for i, s in
                                                                 enumerate(arch.file_steps(c, damaged))])]
    for s, n in zip(arch.file_steps(c, damaged), lens):
        h = header_len(s['d'])
        edits = [[{'t': 'flip', 'at': at, 'bit': r.randrange(8)}] for at in range(h, n, c.pick(2, 1))]
        edits += [[{'t': 'trunc', 'n': at}] for at in range(h, n, c.pick(11, 1))]
        edits += [[{'t': 'delete', 'at': at, 'n': m}] for at in range(h, n - 64, c.pick(37, 5)) for m in (1, 16, 64)]
        edits += [[{'t': 'insert', 'at': at, 'hex': g.hexs(m)}] for at in range(h, n, c.pick(61, 7)) for m in (1, 16)]
        edits += [[{'t': 'append', 'hex': g.hexs(m)}] for m in (1, 15, 16, 17, 32, 100)]
        for e in edits:
            if e[0]['t'] == 'flip' or r.random() < 2:
                scripts.append({'id': len(scripts), 'steps': [
                    s, {'op': 'mutate', 'f': 'g', 'from': 'f', 'edits': e}, {'op': 'open', 'a': 'a', 'f': 'g'}, unlock(cr('pw')),
                    {'op': 'obs', 'a': 'a'}]})
    arch.check_scripts(c, scripts, 'KDBX 3.1 files with damaged data', rebuild_every=0)
    c.samples.append({'file': {k: v for k, v in damaged[0].items() if k != 'db'}, 'damage': scripts[7]['steps'][1]['edits']})
