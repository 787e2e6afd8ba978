"""C02, C17, C22: sequences of archive operations."""
from . import arch, contents
from .core import ToolError
from .gen import tx
from .files import FileGen, AES, CHACHA, CIPHERS, TWOFISH, KAES4, KARGD, KARGID, le


def steps_of(t, op, ret='ok'):
    return [i for i, s in enumerate(t['steps']) if s['o']['op'] == op and s['ret'][0] == ret]


def first_with(traces, op, ret='ok'):
    for t in traces:
        k = steps_of(t, op, ret)
        if k:
            return t, k[-1]
    raise ToolError('no %s %s was recorded' % (op, ret))


class Scripts(FileGen):
    """Random scripts of archive operations"""

    def setting(self):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            c = r.choice(CIPHERS)
            return {'cipher': c, 'iv': self.iv(c)}
        if k == 1:
            return {'comp': r.choice(['00000000', '01000000'])}
        if k == 2:
            return {'seed': self.hexs(r.choice([32, 32, 16, 0, 64]))}
        if k in (3, 4):
            return {'kdf': self.kdf_setting()}
        if k == 5:
            return {'other': r.choice(['clear', 'reverse', 'dup'])}
        if k == 6:
            return {'kdf': {'uuid': self.hexs(16), 'p': [[tx('A'), 66, '01']]}}
        return {'iv': self.hexs(r.choice([12, 16]))}

    def start(self, a):
        """A new archive with settings that are cheap to use"""
        r = self.r
        cipher = r.choice(CIPHERS)
        set_ = {'kdf': self.kdf_setting(), 'cipher': cipher, 'iv': self.iv(cipher),
                'comp': r.choice(['00000000', '01000000'])}
        return [{'op': 'new', 'a': a, 'db': self.small_db()}, {'op': 'hdr', 'a': a, 'set': set_},
                {'op': 'inner', 'a': a, 'set': {'alg': r.choice(['02000000', '03000000']),
                                                'key': self.hexs(r.choice([32, 64, 44, 1]))}}]

    def step(self, crs):
        r = self.r
        a = r.choice('aab')
        f = r.choice('fg')
        cr = r.choice(crs)
        k = r.randrange(20)
        if k < 3:
            return dict(op='key', a=a, **cr)
        if k < 6:
            return {'op': 'hdr', 'a': a, 'set': self.setting()}
        if k == 6:
            return {'op': 'inner', 'a': a, 'set': r.choice([
                {'alg': r.choice(['02000000', '03000000'])}, {'key': self.hexs(r.randrange(70))},
                {'other': r.choice(['clear', 'reverse', 'dup'])}])}
        if k < 10:
            return {'op': 'edit', 'a': a, 'o': self.op(r.choice(['tree', 'field', 'hist'])),
                    'deref': r.random() < 0.5}
        if k < 14:
            return {'op': 'save', 'a': a, 'f': f}
        if k < 16:
            return {'op': 'open', 'a': a, 'f': f}
        return dict(op='unlock', a=a, **cr)

    def finish(self, crs):
        """What a reader of the files sees"""
        out = []
        for f in 'fg':
            for cr in crs:
                out.append(dict(op='decode', f=f, **cr))
            out.append({'op': 'open', 'a': 'c', 'f': f})
            for cr in crs:
                out.append(dict(op='unlock', a='c', **cr))
            out.append({'op': 'obs', 'a': 'c'})
        return out

    def script(self, n, file=None):
        r = self.r
        crs = [self.creds() for _ in range(2)]
        if file:
            crs[0] = file['d']['cr']
            steps = [file, {'op': 'open', 'a': 'a', 'f': 'f'}]
        else:
            steps = self.start('a') + [dict(op='key', a='a', **crs[0])]
        body = [self.step(crs) for _ in range(n)]
        return steps + body + [{'op': 'obs', 'a': 'a'}, {'op': 'save', 'a': 'a', 'f': 'f'}] + self.finish(crs)


def random_scripts(c, n, length, seed, foreign=0.3):
    g = Scripts(c.seed * 7919 + seed)
    n3 = int(n * foreign)
    descs = [g.d4() if i % 3 else g.d3() for i in range(n3)]
    files = arch.file_steps(c, descs) if n3 else []
    return [{'id': i, 'steps': g.script(length, files[i] if i < n3 else None)} for i in range(n)]


def c02(c):
    tr = arch.scenario(c, 'life', c.pick(4, 5), c.pick(3, 4), c.pick(100, 1000))
    t, k = first_with(tr, 'unlock')
    arch.corrupt(c, t, lambda t: t['steps'][k]['ret'][1]['hdr'].update(seed='00' * 32),
                 'master seed shown after unlocking changed')
    t, k = first_with(tr, 'unlock', 'err')
    arch.corrupt(c, t, lambda t: t['steps'][k].update(ret=['err', 'decrypt', t['steps'][k]['ret'][2]]),
                 'kind of error for a wrong key changed')
    arch.scenario(c, 'keys', c.pick(5, 6), c.pick(4, 5), 0)
    cases = random_scripts(c, c.pick(250, 2500), c.pick(14, 20), 2)
    arch.check_scripts(c, cases, 'random operation sequences', rebuild_every=c.pick(4, 10))


def c17(c):
    for s in ('locked4', 'locked3'):
        tr = arch.scenario(c, s, c.pick(3, 4), c.pick(2, 3), 0)
        t, k = first_with(tr, 'same', 'same')
        arch.corrupt(c, t, lambda t: t['steps'][k].update(ret=['same', not t['steps'][k]['ret'][1]]),
                     'result of comparing the copy changed')
    g = Scripts(c.seed * 7919 + 17)
    descs = [g.d4() if i % 3 else g.d3() for i in range(c.pick(200, 1500))]
    cases = []
    for i, s in enumerate(arch.file_steps(c, descs)):
        cr = s['d']['cr']
        wrong = [dict(op='unlock', a='a', **g.creds()) for _ in range(g.r.randrange(4))]
        wrong = [w for w in wrong if (w['pw'], w['kf']) != (cr['pw'], cr['kf'])]
        cases.append({'id': i, 'steps': [s, {'op': 'open', 'a': 'a', 'f': 'f'}] + wrong + [
            {'op': 'save', 'a': 'a', 'f': 'g'}, {'op': 'same', 'f': 'f', 'g': 'g'}, {'op': 'open', 'a': 'b', 'f': 'g'},
            {'op': 'sameHeaders', 'a': 'a', 'b': 'b'}, dict(op='unlock', a='b', **cr),
            {'op': 'hdr', 'a': 'a', 'set': g.setting()}, {'op': 'save', 'a': 'a', 'f': 'h'},
            {'op': 'same', 'f': 'f', 'g': 'h'},
            {'op': 'open', 'a': 'c', 'f': 'h'}, dict(op='unlock', a='c', **cr)]})
    arch.check_scripts(c, cases, 'copies of files made by other programs', rebuild_every=0)


def c22(c):
    tr = arch.scenario(c, 'bad', c.pick(2, 3), c.pick(2, 3), c.pick(100, 1000))
    t, k = first_with(tr, 'save', 'err')
    arch.corrupt(c, t, lambda t: t['steps'][k].update(ret=['ok', False]), 'refused save recorded as successful')

    # sizes of IVs, salts and keys around what each algorithm takes
    g = Scripts(c.seed * 7919 + 22)
    sets = [{'cipher': ci, 'iv': g.hexs(n)} for ci in CIPHERS + [g.hexs(16)] for n in list(range(0, 34)) + [64, 255]]
    sets += [{'kdf': {'uuid': KAES4, 'p': sorted([[tx('R'), 5, le(n % 3, 8)], [tx('S'), 66, g.hexs(n)]])}}
             for n in list(range(0, 36)) + [48, 64, 65, 255]]
    sets += [{'kdf': {'uuid': u, 'p': sorted([[tx('I'), 5, le(i, 8)], [tx('M'), 5, le(m, 8)], [tx('P'), 4, le(p, 4)],
                                              [tx('S'), 66, g.hexs(s)], [tx('V'), 4, le(v, 4)]])}}
             for u in (KARGD, KARGID)
             for i, m, p, s, v in [(1, 8192, 1, n, 0x13) for n in (0, 1, 7, 8, 9, 15, 16, 33, 128)]
             + [(i, 8192, 1, 16, 0x13) for i in (0, 1, 2, 1 << 32, (1 << 32) + 1, (1 << 64) - 1)]
             + [(1, m, p, 16, 0x13) for m, p in [(0, 1), (1, 1), (1023, 1), (7168, 1), (8191, 1), (8192, 1), (8193, 1), (9215, 1),
                                                 (8192, 0), (8192, 2), (16383, 2), (16384, 2), (16385, 2), (24576, 3), (24575, 3),
                                                 (8192, 1 << 24), ((1 << 42) + 8192, 1), ((1 << 64) - 1, 1)]]
             + [(1, 8192, 1, 16, v) for v in (0, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x14, 0x113, 0x1000013, (1 << 32) - 1)]]
    sets += [{'comp': le(n, 4)} for n in (0, 1, 2, 3, 0x100, 0x101, 0x1000000, (1 << 32) - 1)]
    inners = [{'alg': le(n, 4)} for n in (0, 1, 2, 3, 4, 0x102, 0x103, 0x10003, (1 << 32) - 1)]
    inners += [{'alg': le(a, 4), 'key': g.hexs(n)} for a in (2, 3) for n in list(range(0, 66)) + [128, 1000]]
    cases = []
    for k, s in enumerate([{'hdr': x} for x in sets] + [{'inner': x} for x in inners]):
        cr = g.creds()
        steps = g.start('a') + [dict(op='key', a='a', **cr)]
        back = steps[1:3]
        for op, x in s.items():
            steps.append({'op': op, 'a': 'a', 'set': x})
        steps += [{'op': 'save', 'a': 'a', 'f': 'f'}, {'op': 'obs', 'a': 'a'}, dict(op='decode', f='f', **cr),
                  {'op': 'open', 'a': 'b', 'f': 'f'}, dict(op='unlock', a='b', **cr)]
        steps += back + [{'op': 'save', 'a': 'a', 'f': 'g'}, dict(op='decode', f='g', **cr),
                         {'op': 'open', 'a': 'c', 'f': 'g'}, dict(op='unlock', a='c', **cr), {'op': 'obs', 'a': 'c'}]
        cases.append({'id': k, 'steps': steps})
    # content that cannot be stored, in every place; then something that can
    for db in contents.bad_dbs() + contents.shape_dbs()[:3]:
        cr = g.creds()
        steps = g.start('a') + [dict(op='key', a='a', **cr)]
        steps[0]['db'] = db
        steps += [{'op': 'save', 'a': 'a', 'f': 'f'}, {'op': 'obs', 'a': 'a'}, dict(op='decode', f='f', **cr),
                  {'op': 'open', 'a': 'b', 'f': 'f'}, dict(op='unlock', a='b', **cr), {'op': 'save', 'a': 'a', 'f': 'f'},
                  {'op': 'edit', 'a': 'a', 'o': {'op': 'gAct', 'g': [], 'a': {'t': 'name', 'v': tx('better')}}, 'deref': False},
                  {'op': 'edit', 'a': 'a', 'o': {'op': 'dbName', 'v': tx('n')}, 'deref': False},
                  {'op': 'edit', 'a': 'a', 'o': {'op': 'dbDesc', 'v': tx('d')}, 'deref': False},
                  {'op': 'save', 'a': 'a', 'f': 'g'}, dict(op='decode', f='g', **cr),
                  {'op': 'open', 'a': 'c', 'f': 'g'}, dict(op='unlock', a='c', **cr), {'op': 'obs', 'a': 'c'}]
        cases.append({'id': len(cases), 'steps': steps})
    arch.check_scripts(c, cases, 'sizes and numbers around the limits of each setting', rebuild_every=0)
