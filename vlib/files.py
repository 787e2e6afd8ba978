"""Seeded descriptions of KDBX files (spec/KdbxFormat.tla) and archive scripts.
The specification turns a description into bytes and says what it shows."""
import random
from .gen import Gen, tx

AES = '31c1f2e6bf714350be5805216afc5aff'
TWOFISH = 'ad68f29f576f4bb9a36ad47af965346c'
CHACHA = 'd6038a2b8b6f4cb5a524339a31dbb59a'
KAES3 = 'c9d9f39a628a4460bf740d08c18a4fea'
KAES4 = '7c02bb8279a74ac0927d114a00648238'
KARGD = 'ef636ddf8c29444b91f7a9a403e30a0c'
KARGID = '9e298b1956db4773b23dfc3ec6f0a1e6'
CIPHERS = [AES, TWOFISH, CHACHA]
PLAIN = {'ord': 0, 'txt': 'text', 'ws': 'x', 'com': False, 'attr': False, 'short': False, 'pad': False,
         'iso': False, 'unk': 0, 'bool': 0}


def le(n, size):
    return n.to_bytes(size, 'little').hex()


DECL = '<?xml version="1.0" encoding="utf-8" standalone="yes"?>'
HEADS = [DECL, DECL + '\n', DECL + '\r\n<!-- made by a program -->\n', '', '<!-- -->', '\ufeff' + DECL + '\r\n', '<?xml version="1.0"?>\n\n',
         '<?xml version=\'1.0\' encoding=\'UTF-8\'?>  ']
TAILS = ['', '\n', '\r\n', ' ', '\t\n  ', '<!-- end -->', '\n<!-- end -->\n', '\n' * 40]


class FileGen(Gen):
    def hexs(self, n):
        return self.r.getrandbits(8 * n).to_bytes(n, 'big').hex() if n else ''

    def iv(self, cipher):
        return self.hexs(12 if cipher == CHACHA else 16)

    # key derivation settings cheap enough to be run thousands of times
    def kdf_params(self, kind=None):
        r = self.r
        kind = kind or r.choice(['aes', 'aes', 'aes3', 'argon2d', 'argon2id'])
        if kind in ('aes', 'aes3'):
            return (KAES3 if kind == 'aes3' else KAES4), [
                [5, tx('R'), le(r.choice([1, 1, 2, 3, 10, 100]), 8)], [66, tx('S'), self.hexs(32)]]
        p = r.choice([1, 1, 2, 3])
        return (KARGD if kind == 'argon2d' else KARGID), [
            [5, tx('I'), le(r.choice([1, 1, 2, 3]), 8)],
            [5, tx('M'), le(1024 * (8 * p + r.choice([0, 0, 1, 5])) + r.choice([0, 0, 1, 1023]), 8)],
            [4, tx('P'), le(p, 4)], [66, tx('S'), self.hexs(r.choice([8, 16, 32, 32, 64]))],
            [4, tx('V'), r.choice(['13000000', '13000000', '10000000'])]]

    def kdf_setting(self, kind=None):
        """As set through the API: {"uuid", "p": [[name, type, hex]]}"""
        if kind is None:
            kind = self.r.choice(['aes', 'argon2d', 'argon2id'])
        u, p = self.kdf_params(kind)
        return {'uuid': KAES4 if u == KAES3 else u, 'p': sorted([n, t, h] for t, n, h in p)}

    def extra_params(self):
        r = self.r
        out = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            t = r.choice([4, 5, 8, 12, 13, 24, 66])
            v = {4: lambda: self.hexs(4), 5: lambda: self.hexs(8), 8: lambda: r.choice(['00', '01']),
                 12: lambda: self.hexs(4), 13: lambda: self.hexs(8),
                 24: lambda: self.word().encode().hex(), 66: lambda: self.hexs(r.randrange(40))}[t]()
            out.append([t, tx(r.choice(['K', 'A', 'X', 'note', 'é', '', 'r', 's', 'RR']) + str(len(out))), v])
        return out

    def creds(self):
        r = self.r
        k = r.random()
        pw = tx(r.choice(['pass', 'kdbxrs', '', 'ünïcödé 密码', ' lead', 'x' * 100, 'two\r\nlines', 'e\u0301', self.word()]))
        kf = self.hexs(r.choice([0, 1, 16, 31, 32, 33, 64, 200]))
        return {'pw': pw if k < 0.8 else 'none', 'kf': kf if k > 0.6 else 'none'}

    def style(self, iso=False):
        r = self.r
        if r.random() < 0.25:
            s = dict(PLAIN)
        else:
            s = {'ord': r.randrange(4), 'txt': r.choice(['text', 'cdata', 'refs', 'split']),
                 'ws': r.choice(['x', 'x0a', 'x0d0a2020', 'x09']), 'com': r.random() < 0.3, 'attr': r.random() < 0.3,
                 'short': r.random() < 0.5, 'pad': r.random() < 0.3, 'iso': False,
                 'unk': r.choice([0, 0, 1, 2]), 'bool': r.randrange(3)}
        s['iso'] = iso and r.random() < 0.8
        if s['iso'] and r.random() < 0.5:
            s['zone'] = r.choice([60, 120, -300, -720, 840, 330, -1, 1439, -1439])
        return s

    def sizes(self):
        r = self.r
        return r.choice([[1048576], [1048576], [1], [15], [16], [17], [7, 16, 1, 33], [100], [1000, 5, 4096],
                         [32, 31, 1], [65536]])

    def small_db(self, storable=True):
        r = self.r
        self.small_ids = False
        db = self.db(r.choice([0, 1, 2]), r.choice([1, 2]))
        if storable:
            fix_db(db)
        return db

    def fields(self, fs, unknown=True):
        r = self.r
        r.shuffle(fs)
        if unknown:
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                fs.insert(r.randrange(len(fs) + 1), {'id': r.choice([1, 12, 13, 14, 100, 255, 1, 12, 200]),
                                                     'data': self.hexs(r.choice([0, 1, 4, 16, 32, 33, 300]))})
        fs.append({'id': 0, 'data': r.choice(['0d0a0d0a', '0d0a0d0a', '', '00', self.hexs(r.randrange(40))])})
        return fs

    def inner_fields(self, alg):
        r = self.r
        key = self.hexs(r.choice([64, 64, 32, 44, 0, 1, 200]))
        fs = [{'id': 1, 'data': le(alg, 4)}, {'id': 2, 'data': key}]
        r.shuffle(fs)
        for _ in range(r.choice([0, 0, 1, 2])):
            fs.insert(r.randrange(len(fs) + 1), {'id': r.choice([3, 3, 4, 77, 255]),
                                                 'data': self.hexs(r.choice([0, 1, 5, 100]))})
        fs.append({'id': 0, 'data': r.choice(['', '', '0d0a', self.hexs(r.randrange(40))])})
        return fs

    def around(self, d):
        """Text before and after the document"""
        r = self.r
        if r.random() < 0.4:
            d['head'] = tx(r.choice(HEADS))
            d['tail'] = tx(r.choice(TAILS))
        return d

    def d4(self, db=None, cipher=None, gz=None, legacy=None, kdf=None, sizes=None, style=None, cr=None,
           alg=None):
        r = self.r
        cipher = cipher or r.choice(CIPHERS)
        gz = gz or r.choice(['none', 'none', 'default', 'store', 'fixed', 'named'])
        legacy = r.random() < 0.1 if legacy is None else legacy
        fs = [{'id': 2, 'data': cipher}, {'id': 3, 'data': le(0 if gz == 'none' else 1, 4)},
              {'id': 4, 'data': self.hexs(32)}, {'id': 7, 'data': self.iv(cipher)}]
        vd = []
        if legacy:
            fs += [{'id': 5, 'data': self.hexs(32)}, {'id': 6, 'data': le(r.choice([1, 2, 60]), 8)}]
        else:
            u, p = self.kdf_params(kdf)
            vd = p + self.extra_params() + [[66, tx('$UUID'), u]]
            r.shuffle(vd)
            fs.append({'id': 11, 'data': ''})
        return self.around({'v': 4, 'minor': r.choice([0, 0, 1, 2]), 'fields': self.fields(fs),
                'vdver': r.choice(['0001', '0001', '0101', '0001']), 'vdrest': r.choice(['', '', '', '0000ff']),
                'vdict': vd, 'sizes': sizes or self.sizes(),
                'inner': self.inner_fields(alg or r.choice([2, 3, 3])), 'gz': gz, 'cr': cr or self.creds(),
                'db': db or self.small_db(), 'style': style or self.style()})

    def d3(self, db=None, cipher=None, gz=None, sizes=None, style=None, cr=None, alg=None):
        r = self.r
        cipher = cipher or r.choice(CIPHERS)
        gz = gz or r.choice(['none', 'default', 'default', 'fixed'])
        fs = [{'id': 2, 'data': cipher}, {'id': 3, 'data': le(0 if gz == 'none' else 1, 4)},
              {'id': 4, 'data': self.hexs(32)}, {'id': 5, 'data': self.hexs(32)},
              {'id': 6, 'data': le(r.choice([1, 2, 60]), 8)}, {'id': 7, 'data': self.iv(cipher)},
              {'id': 8, 'data': self.hexs(r.choice([32, 32, 32, 64, 16, 44, 1]))}, {'id': 9, 'data': self.hexs(32)},
              {'id': 10, 'data': le(alg or r.choice([2, 2, 3]), 4)}]
        return self.around({'v': 3, 'minor': r.choice([1, 1, 0]), 'fields': self.fields(fs), 'vdver': '', 'vdrest': '',
                'vdict': [], 'sizes': sizes or self.sizes(), 'inner': [], 'gz': gz, 'cr': cr or self.creds(),
                'db': db or self.small_db(), 'style': style or self.style(iso=True)})


def walk_fields(db, fn):
    for f in db['meta']['custom']:
        fn(f)

    def ent(e):
        for f in e['fields']:
            fn(f)
        for h in e['hist']:
            ent(h)

    def grp(g):
        for e in g['entries']:
            ent(e)
        for s in g['groups']:
            grp(s)
    grp(db['root'])


def fix_db(db):
    """Field names must not be empty"""
    def fn(f):
        if f['k'] == 'x':
            f['k'] = tx('k')
    walk_fields(db, fn)
