"""C04: changed KDBX 4 files."""
import copy
from . import arch, contents
from .core import ToolError
from .files import AES, CHACHA, CIPHERS, PLAIN, TWOFISH, le
from .foreign import OPEN, cr, unlock
from .life import Scripts, first_with
from .saves import new_steps

PW = cr('pw', '6b65')


def header_len(d):
    n = 12
    for f in d['fields']:
        n += 5 + len(f['data']) // 2
        if f['id'] == 11:
            n += (len(d['vdver']) + len(d['vdrest'])) // 2 + 1
            n += sum(9 + (len(k) - 1) // 2 + len(v) // 2 for _, k, v in d['vdict'])
    return n


def lengths(c, steps):
    return [x['steps'][0]['ret'][1] for x in arch.run_scripts(c, [{'id': i, 'steps': [s]} for i, s in enumerate(steps)])]


def attack(edits):
    return [{'op': 'mutate', 'f': 'g', 'from': 'f', 'edits': edits}, {'op': 'open', 'a': 'a', 'f': 'g'}, unlock(PW)]


def scripts_of(pre, attacks, per=60):
    """Many attacks on one file in a script, at the end the intact file"""
    out = []
    for i in range(0, len(attacks), per):
        steps = list(pre)
        for e in attacks[i:i + per]:
            steps += attack(e)
        out.append(steps + [OPEN, unlock(PW)])
    return out


def header_variants(g, d):
    """Headers someone might put in place of the original one"""
    out = []

    def alt(fn, mac='keep'):
        a = copy.deepcopy(d)
        fn(a)
        if a != d:
            out.append((a, mac))

    def field(a, i):
        return next(f for f in a['fields'] if f['id'] == i)

    for m in ('keep', 'zero', 'sha'):
        alt(lambda a: field(a, 4).update(data=g.hexs(32)), m)
        alt(lambda a: a['fields'].insert(0, {'id': 44, 'data': '00'}), m)
        alt(lambda a: field(a, 0).update(data='0d0a0d0b'), m)
    for ci in CIPHERS:
        alt(lambda a: field(a, 2).update(data=ci))
        alt(lambda a: (field(a, 2).update(data=ci), field(a, 7).update(data=g.iv(ci))))
    alt(lambda a: field(a, 3).update(data=le(1, 4)))
    alt(lambda a: field(a, 3).update(data=le(0, 4)))
    alt(lambda a: field(a, 3).update(data=le(7, 4)))
    for k in (0, 5, 11):
        def flip(a):
            v = bytearray.fromhex(field(a, 7)['data'])
            v[k] ^= 1
            field(a, 7).update(data=v.hex())
        alt(flip)
    alt(lambda a: field(a, 7).update(data=''))
    alt(lambda a: field(a, 4).update(data=''))
    alt(lambda a: field(a, 4).update(data=field(a, 4)['data'] + '00'))
    for mi in (0, 1, 2, 9):
        alt(lambda a: a.update(minor=mi))
    alt(lambda a: a.update(v=3, minor=1))
    alt(lambda a: (a.update(v=3, minor=1), a['fields'].insert(0, {'id': 9, 'data': g.hexs(32)})))
    alt(lambda a: (a.update(v=3, minor=1), a['fields'].insert(0, {'id': 9, 'data': ''})))
    alt(lambda a: a.update(fields=a['fields'][1:2] + a['fields'][:1] + a['fields'][2:]))
    alt(lambda a: a.update(vdict=a['vdict'][::-1]))
    alt(lambda a: a.update(vdict=a['vdict'] + [[66, 'x58', '00']]))
    alt(lambda a: a.update(vdrest='00'))
    alt(lambda a: a.update(fields=[{'id': 5, 'data': g.hexs(32)}, {'id': 6, 'data': le(1, 8)}]
                           + [f for f in a['fields'] if f['id'] != 11], vdict=[]))
    for i in range(len(d['vdict'])):
        def change(a):
            v = bytearray.fromhex(a['vdict'][i][2])
            if v and a['vdict'][i][1] not in ('x4d', 'x50', 'x56'):
                v[0] ^= 3
            a['vdict'][i][2] = v.hex()
        alt(change)
    return out


def c04(c):
    g = Scripts(c.seed * 7919 + 4)
    r = g.r
    c.model_check('MCTamper', {'N': 2, 'MAX': c.pick(3, 4), 'OMIT': 'none'},
                  note='all files made of the pieces of a file with two data blocks')
    for omit in ('sha', 'mac', 'block', 'index', 'end'):
        x = c.tlc('MCTamper', {'N': 2, 'MAX': 3, 'OMIT': omit}, note='reader without the check: ' + omit, count=False)
        if not x.violated:
            raise ToolError('the specification does not need the check %r' % omit)
    c.extra['checks_shown_necessary'] = ['sha', 'mac', 'block', 'index', 'end']
    db = contents.db(contents.group(0, 'r', [contents.entry(1, [contents.field('UserName', 'me'), contents.field('Password', 'secret', True)])]))
    files = []
    for j, ci in enumerate(CIPHERS):
        for gz in ('none', 'default'):
            sizes = [600, 1048576] if gz == 'none' else [250, 1048576]
            files.append(g.d4(db=db, cipher=ci, gz=gz, sizes=sizes, cr=PW, style=PLAIN, legacy=False,
                              kdf=['aes', 'aes', 'argon2id'][j] if gz == 'none' else 'aes'))
    steps = arch.file_steps(c, files)
    lens = lengths(c, steps)
    scripts, n_attacks = [], 0
    # rearrangements of the blocks
    seqs = c.generate('GenTamper', {'N': 2, 'MAX': c.pick(5, 6), 'TWO': c.pick('no', 'yes')})['seqs']
    pieces = [s for s, _ in seqs]
    for s, n in zip(steps, lens):
        h = header_len(s['d'])
        if c.thorough and len(pieces) > 4000:
            pieces = r.sample(pieces, 4000)
        at = [[{'t': 'blocks', 'at': h + 64, 'seq': q}] for q in pieces]
        n_attacks += len(at)
        scripts += scripts_of([s], at)
    # bytes of a block changed, its MAC replaced by one that needs no key
    for s, n in zip(steps, lens):
        h = header_len(s['d'])
        at = []
        for i in range(h + 100, min(n - 36, h + 100 + 600), 1 if s['d']['gz'] == 'none' else c.pick(11, 3)):
            for j in range(5):
                if j == 0 or c.thorough or (i + j) % 5 == 0:
                    at.append([{'t': 'flip', 'at': i, 'bit': 0}, {'t': 'blocks', 'at': h + 64, 'seq': [[3 + j, 0], [1, 1], [2, 2]]}])
        n_attacks += len(at)
        scripts += scripts_of([s], at)
    # single bytes, cuts, insertions and deletions
    for k, (s, n) in enumerate(zip(steps, lens)):
        h = header_len(s['d'])
        at = []
        step = 1 if k % 2 == 0 or c.thorough else 3
        for i in range(0, n, step):
            for b in (range(8) if i < 12 or c.thorough else [r.randrange(8)]):
                at.append([{'t': 'flip', 'at': i, 'bit': b}])
        for i in range(0, n, 1 if k == 0 or c.thorough else 7):
            at.append([{'t': 'trunc', 'n': i}])
        for i in list(range(0, n, c.pick(13, 3))) + list(range(h - 4, h + 80)):
            at.append([{'t': 'insert', 'at': i, 'hex': g.hexs(r.choice([1, 1, 4, 16, 36]))}])
            at.append([{'t': 'delete', 'at': i, 'n': r.choice([1, 1, 4, 16, 36]) if i < n - 36 else 1}])
        for i in range(c.pick(60, 600)):
            m = r.choice([1, 4, 16, 32, 36, 100])
            i1, i2 = sorted(r.sample(range(h, n - m), 2))
            at.append([{'t': 'copy', 'at': i1, 'to': i2, 'n': m}])
            at.append([{'t': 'copy', 'at': i2, 'to': i1, 'n': m}])
            if i2 - i1 >= m:
                at.append([{'t': 'swap', 'at': i1, 'to': i2, 'n': m}])
            at.append([{'t': 'flip', 'at': r.randrange(n), 'bit': r.randrange(8)} for _ in range(r.choice([2, 3, 10]))])
            at.append([{'t': 'append', 'hex': g.hexs(r.choice([1, 16, 32, 36, 100]))}])
        # the lengths of blocks
        p = h + 64
        for v in (0, 1, 15, 16, 17, 599, 601, 1048576, 2 ** 31 - 1, 2 ** 32 - 1):
            at.append([{'t': 'set', 'at': p + 32, 'hex': le(v, 4)}])
        # signature and version
        for i, v in [(0, '03d9a29b'), (0, '9aa2d903'), (4, '65fb4bb5'), (4, '66fb4bb5'), (4, '00000000'), (8, '01000300'), (8, '00000300'),
                     (8, '00000500'), (8, '00000200'), (8, '00000000'), (8, 'ffffffff'), (8, '00040000')]:
            at.append([{'t': 'set', 'at': i, 'hex': v, 'differs': True}])
        n_attacks += len(at)
        scripts += scripts_of([s], at)
    scripts = [{'id': i, 'steps': s} for i, s in enumerate(scripts)]
    tr = arch.check_scripts(c, scripts, 'changed files', rebuild_every=0)
    # headers replaced, with a hash that fits
    rows, forged = [], []
    for d in files[:c.pick(4, 6)]:
        for a, mac in header_variants(g, d):
            rows.append({'id': len(rows), 'd': d, 'alt': a, 'mac': mac})
    for row, t in zip(rows, arch.gen_terms(c, 'GenFile', rows)):
        s = {'op': 'bytes', 'f': 'f', 'forged': True, 'term': t['term']}
        forged.append({'id': len(forged), 'steps': [s, OPEN, unlock(PW), {'op': 'obs', 'a': 'a'}]})
    ft = arch.check_scripts(c, forged, 'headers replaced and hashed again', rebuild_every=0)
    opened = sum(1 for t in ft if t['steps'][1]['ret'][0] == 'ok')
    if opened < len(ft) // 2:
        raise ToolError('only %d of %d forged headers open' % (opened, len(ft)))
    # files this library saved
    own = []
    for ci in CIPHERS:
        for comp in ('00000000', '01000000'):
            pre = new_steps(g, db, (ci, 'aes', comp, '03000000'), PW) + [{'op': 'save', 'a': 'a', 'f': 'f'}]
            at = [[{'t': 'flip', 'at': i, 'bit': r.randrange(8), 'wrap': True}] for i in range(0, 2400, c.pick(9, 1))]
            at += [[{'t': 'trunc', 'n': i}] for i in range(0, 2400, c.pick(41, 3))]
            n_attacks += len(at)
            own += scripts_of(pre, at)
    arch.check_scripts(c, [{'id': i, 'steps': s} for i, s in enumerate(own)], 'changed files of this library', rebuild_every=0)
    t, k = first_with(tr, 'unlock')
    arch.corrupt(c, t, lambda t: t['steps'][k]['ret'][1]['db']['root'].update(name='x73'), 'other content shown')
    t = next(t for t in tr if t['steps'][1]['o']['edits'][0]['t'] == 'flip' and t['steps'][1]['o']['edits'][0]['at'] < 100)
    ok = next(x['ret'] for x in tr[0]['steps'][::-1] if x['o']['op'] == 'open')
    arch.corrupt(c, t, lambda t: t['steps'][2].update(ret=copy.deepcopy(ok)), 'a damaged header recorded as opened')
    c.extra['attacks'] = {'files changed': n_attacks, 'headers replaced': len(forged)}
    c.extra['damaged_files_unlocked_with_original_content'] = sum(
        1 for t in tr for s in t['steps'][:-1] if s['o']['op'] == 'unlock' and s['ret'][0] == 'ok')
    c.samples.append({'blocks': pieces[5], 'attack': scripts[-1]['steps'][1]['edits']})
