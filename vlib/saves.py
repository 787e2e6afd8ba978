"""C01, C05, C11, C16, C23: what is saved and read back."""
from . import arch, contents
from .core import ToolError
from .files import FileGen, CIPHERS, CHACHA, le
from .life import first_with, Scripts

KDFS = ['aes', 'argon2d', 'argon2id']
CONFIGS = [(ci, k, co, al) for ci in CIPHERS for k in KDFS for co in ('00000000', '01000000')
           for al in ('03000000', '02000000')]


def new_steps(g, db, config, cr, a='a', edits=()):
    """A new archive with the given settings and key"""
    cipher, kdf, comp, alg = config
    keylen = g.r.choice([44, 64, 32, 32, 0, 1])
    set_ = {'cipher': cipher, 'iv': g.iv(cipher), 'comp': comp, 'kdf': g.kdf_setting(kdf)}
    if g.r.random() < 0.5:
        set_['seed'] = g.hexs(32)
    return ([{'op': 'new', 'a': a, 'db': db}, {'op': 'hdr', 'a': a, 'set': set_},
             {'op': 'inner', 'a': a, 'set': {'alg': alg, 'key': g.hexs(keylen)}}, dict(op='key', a=a, **cr)]
            + [{'op': 'edit', 'a': a, 'o': o, 'deref': g.r.random() < 0.5} for o in edits])


def reread(cr, f, a, g=None, b=None):
    """Save a to f, read it back, save that and read it again"""
    s = [{'op': 'save', 'a': a, 'f': f}, {'op': 'open', 'a': 'b', 'f': f}, dict(op='unlock', a='b', **cr), {'op': 'obs', 'a': 'b'}]
    if g:
        s += [{'op': 'save', 'a': 'b', 'f': g}, {'op': 'open', 'a': 'c', 'f': g}, dict(op='unlock', a='c', **cr)]
    return s


def boundary_cases(c, g, ks, spread, kdf='aes'):
    """Contents whose data ends near multiples of the block size, for every cipher and compression."""
    jobs = []
    for ci in CIPHERS:
        for co in ('00000000', '01000000'):
            for k in ks:
                cr = g.creds()
                n = k * 1000000
                pre = new_steps(g, contents.sized(n), (ci, kdf, co, '03000000'), cr)
                jobs.append({'cr': cr, 'n': n, 'pre': pre, 'goal': k * 1048576, 'rate': 1 if co == '00000000' else 0.77})
    # find out how long the data gets (several times, as the compressed length cannot be calculated)
    for _ in range(3):
        probe = []
        for i, j in enumerate(jobs):
            s = [dict(o) for o in j['pre']]
            s[0]['db'] = contents.sized(j['n'])
            probe.append({'id': i, 'steps': s + [{'op': 'save', 'a': 'a', 'f': 'f'}, dict(op='decode', f='f', **j['cr'])]})
        for j, r in zip(jobs, arch.run_scripts(c, probe)):
            st = r['steps'][-1]
            if st['ret'][0] == 'ok':    # if not, the cases themselves will show what is wrong
                j['n'] += int((j['goal'] - sum(st['ret'][1]['sizes'])) / j['rate'])
        arch.clean_spill(c)
    out = []
    for j in jobs:
        for d in range(-spread, spread + 1):
            s = [dict(o) for o in j['pre']]
            s[0]['db'] = contents.sized(j['n'] + d + (4 if j['pre'][1]['set']['cipher'] != CHACHA else 0))
            out.append((s, j['cr']))
    return out


def base_cases(c, g, n_random, ids=0):
    """(steps that make archive a, credentials)"""
    r = g.r
    out = []
    small = contents.all_small()
    for i, db in enumerate(small):
        cr = g.creds()
        out.append((new_steps(g, db, CONFIGS[i % len(CONFIGS)], cr), cr))
    for conf in CONFIGS:
        for _ in range(n_random):
            cr = g.creds()
            edits = g.ops(r.choice([0, 0, 3, 8]), r.choice(['tree', 'field', 'hist']))
            out.append((new_steps(g, g.small_db(r.random() < 0.9), conf, cr, edits=edits), cr))
    for ci in CIPHERS:
        for i, db in enumerate(contents.length_dbs()):
            cr = g.creds()
            out.append((new_steps(g, db, (ci, 'aes', '00000000' if i % 3 else '01000000', '03000000'), cr), cr))
    return out


def c01(c):
    c.model_check('MCXml', {'ALL': 'yes' if c.thorough else 'no'}, note='reading what was written, all layouts')
    g = Scripts(c.seed * 7919 + 1)
    cases = base_cases(c, g, c.pick(3, 25))
    scripts = [{'id': i, 'steps': s + reread(cr, 'f', 'a', 'g' if i % 2 else None)} for i, (s, cr) in enumerate(cases)]
    tr = arch.check_scripts(c, scripts, 'contents and settings, saved and reopened', rebuild_every=0)
    t, k = first_with(tr, 'unlock')

    def spoil(t):
        t['steps'][k]['ret'][1]['db']['root']['times']['exp'] = contents.tm(5)
    arch.corrupt(c, t, spoil, 'expiry time of the root group changed after reopening')
    big = boundary_cases(c, g, c.pick([1], [1, 2, 3]), c.pick(10, 20))
    scripts = [{'id': i, 'steps': s + reread(cr, 'f', 'a')} for i, (s, cr) in enumerate(big)]
    arch.check_scripts(c, scripts, 'contents around the block size', rebuild_every=0)
    c.samples.append({'settings': CONFIGS[7], 'contents': 'word %r in every text position' % contents.WORDS[15]})


def c05(c):
    g = Scripts(c.seed * 7919 + 5)
    cases = base_cases(c, g, c.pick(3, 20))
    scripts = [{'id': i, 'steps': s + [{'op': 'save', 'a': 'a', 'f': 'f'}, dict(op='decode', f='f', **cr)]}
               for i, (s, cr) in enumerate(cases)]
    n = len(scripts)
    # files of other programs, opened and saved again
    descs = [g.d4() for _ in range(c.pick(100, 800))]
    for i, s in enumerate(arch.file_steps(c, descs)):
        cr = s['d']['cr']
        scripts.append({'id': n + i, 'steps': [
            s, {'op': 'open', 'a': 'a', 'f': 'f'}, dict(op='unlock', a='a', **cr)]
            + [{'op': 'edit', 'a': 'a', 'o': o} for o in g.ops(g.r.choice([0, 2, 5]), 'field')]
            + [{'op': 'save', 'a': 'a', 'f': 'g'}, dict(op='decode', f='g', **cr)]})
    tr = arch.check_scripts(c, scripts, 'saved files read independently')
    t, k = first_with(tr, 'decode')
    arch.corrupt(c, t, lambda t: t['steps'][k]['ret'][1]['fields'].insert(0, {'id': 44, 'data': ''}),
                 'an additional header field in the saved file')
    big = boundary_cases(c, g, c.pick([1], [1, 2, 3]), c.pick(5, 20))
    scripts = [{'id': i, 'steps': s + [{'op': 'save', 'a': 'a', 'f': 'f'}, dict(op='decode', f='f', **cr)]}
               for i, (s, cr) in enumerate(big)]
    arch.check_scripts(c, scripts, 'files around the block size')
    c.samples.append({'settings': CONFIGS[5], 'file': 'decoded, checked and rebuilt byte for byte'})


def c11(c):
    tr = arch.scenario(c, 'protect', c.pick(2, 3), c.pick(2, 3), 0)
    t, k = first_with(tr, 'decode')

    def clear_one(t):
        # as if the first protected value stood in clear
        def walk(el):
            if el['d']:
                el['x'], el['d'], el['a'] = el['d'][0]['x'], [], []
                return True
            return any(walk(x) for x in el['c'])
        walk(t['steps'][k]['ret'][1]['doc'])
    arch.corrupt(c, t, clear_one, 'a protected value stored in clear')
    g = Scripts(c.seed * 7919 + 11)
    scripts = []
    for i in range(c.pick(200, 1500)):
        cr = g.creds()
        steps = new_steps(g, g.small_db(), CONFIGS[i % len(CONFIGS)], cr)
        for _ in range(g.r.choice([1, 2, 3])):
            steps += [{'op': 'edit', 'a': 'a', 'o': o} for o in g.ops(6, g.r.choice(['field', 'hist', 'field', 'tree']))]
            steps += [{'op': 'save', 'a': 'a', 'f': 'f'}, dict(op='decode', f='f', **cr), {'op': 'open', 'a': 'b', 'f': 'f'},
                      dict(op='unlock', a='b', **cr), {'op': 'open', 'a': 'a', 'f': 'f'}, dict(op='unlock', a='a', **cr)]
        scripts.append({'id': i, 'steps': steps})
    n = len(scripts)
    for i, db in enumerate(contents.stream_dbs() + contents.shape_dbs() + contents.word_dbs()[::c.pick(4, 1)]):
        cr = g.creds()
        scripts.append({'id': n + i, 'steps': new_steps(g, db, CONFIGS[i % len(CONFIGS)], cr) + [
            {'op': 'save', 'a': 'a', 'f': 'f'}, dict(op='decode', f='f', **cr), {'op': 'open', 'a': 'b', 'f': 'f'},
            dict(op='unlock', a='b', **cr)]})
    arch.check_scripts(c, scripts, 'random edits, saved, read independently and reopened', rebuild_every=c.pick(10, 10))


def c16(c):
    """Files of other programs, unlocked, perhaps edited, and saved again"""
    g = Scripts(c.seed * 7919 + 16)
    descs = [g.d4() for _ in range(c.pick(350, 3000))]
    scripts = []
    for i, s in enumerate(arch.file_steps(c, descs)):
        cr = s['d']['cr']
        steps = [s, {'op': 'open', 'a': 'a', 'f': 'f'}, dict(op='unlock', a='a', **cr)]
        k = i % 4
        if k == 1:
            steps += [{'op': 'edit', 'a': 'a', 'o': o} for o in g.ops(4, 'tree')]
        if k == 2:
            cr = g.creds()
            steps += [dict(op='key', a='a', **cr)]
        if k == 3:
            steps += [{'op': 'hdr', 'a': 'a', 'set': g.r.choice([{'kdf': g.kdf_setting()}, {'seed': g.hexs(32)},
                                                                {'comp': '01000000'}, {'other': 'reverse'}])},
                      {'op': 'inner', 'a': 'a', 'set': g.r.choice([{}, {'other': 'dup'}, {'other': 'reverse'}])}]
        steps += [{'op': 'save', 'a': 'a', 'f': 'g'}, dict(op='decode', f='g', **cr), {'op': 'open', 'a': 'b', 'f': 'g'},
                  {'op': 'sameHeaders', 'a': 'a', 'b': 'b'}, dict(op='unlock', a='b', **cr),
                  {'op': 'sameHeaders', 'a': 'a', 'b': 'b'}, {'op': 'save', 'a': 'b', 'f': 'h'}, dict(op='decode', f='h', **cr)]
        scripts.append({'id': i, 'steps': steps})
    tr = arch.check_scripts(c, scripts, 'settings and unknown fields kept over two saves', rebuild_every=5)
    t = next(t for t in tr if len(t['steps'][0]['o']['d']['inner']) > 4)
    k = len(t['steps']) - 1
    arch.corrupt(c, t, lambda t: t['steps'][k]['ret'][1]['inner'].pop(0) and None, 'a field of the inner header is gone')
    c.samples.append({'header fields': [f['id'] for f in descs[3]['fields']], 'inner': [f['id'] for f in descs[3]['inner']],
                      'parameters': [bytes.fromhex(p[1][1:]).decode() for p in descs[3]['vdict']]})


def c23(c):
    """What unlocking shows, for every payload length, block split, cipher and compression"""
    g = Scripts(c.seed * 7919 + 23)
    descs = []
    for ci in CIPHERS:
        for gz in ('none', 'default'):
            for i in range(c.pick(20, 70)):
                db = contents.db(contents.group(0), name='n' * i)
                sizes = g.r.choice([[16], [1], [7], [1048576], [64, 1], [300, 20, 5]])
                descs.append(g.d4(db=db, cipher=ci, gz=gz, sizes=sizes))
                if i % 3 == 0:
                    descs.append(g.d3(db=db, cipher=ci, gz=gz, sizes=sizes))
    for k in range(c.pick(60, 400)):
        descs.append(g.d4() if k % 3 else g.d3())
    for ci in CIPHERS:
        for gz in ('none', 'store', 'default'):
            for sizes in ([1048576], [65536], [1048576, 1], [2000000]):
                n = 1048576 + g.r.randrange(-3000, 3000) if sizes[0] == 1048576 else 3 * 65536 + 7
                descs.append(g.d4(db=contents.sized(n, g.r.random() < 0.3), cipher=ci, gz=gz, sizes=sizes, kdf='aes'))
                if ci == CHACHA or gz == 'default':
                    descs.append(g.d3(db=contents.sized(n), cipher=ci, gz=gz, sizes=sizes))
    scripts = []
    for i, s in enumerate(arch.file_steps(c, descs)):
        cr = s['d']['cr']
        scripts.append({'id': i, 'steps': [s, {'op': 'open', 'a': 'a', 'f': 'f'}, dict(op='unlock', a='a', **cr),
                                           {'op': 'obs', 'a': 'a'}, dict(op='edit', a='a', o={'op': 'dbName', 'v': 'x6e65'}),
                                           {'op': 'obs', 'a': 'a'}]})
    n = len(scripts)
    for i in range(c.pick(36, 72)):
        cr = g.creds()
        # new archives, and the files they are saved to
        scripts.append({'id': n + i, 'steps': new_steps(g, g.small_db(), CONFIGS[i % 36], cr) + [
            {'op': 'obs', 'a': 'a'}, {'op': 'save', 'a': 'a', 'f': 'f'}, {'op': 'obs', 'a': 'a'}, dict(op='decode', f='f', **cr),
            {'op': 'open', 'a': 'b', 'f': 'f'}, dict(op='unlock', a='b', **cr), {'op': 'obs', 'a': 'b'}]})
    tr = arch.check_scripts(c, scripts, 'raw XML, versions, settings and database after unlocking', rebuild_every=0)
    t, k = first_with(tr, 'unlock')

    def spoil(t):
        ret = t['steps'][k]['ret'][1]
        ret['raw'] = ret['raw'][:-1] + ('0' if ret['raw'][-1] != '0' else '1')
    arch.corrupt(c, t, spoil, 'raw XML after unlocking changed')
    c.samples.append({'payload': '%d lengths for each cipher and compression' % c.pick(20, 70), 'blocks': descs[4]['sizes']})
