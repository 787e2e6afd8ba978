"""Seeded random databases and operation sequences, in the JSON encoding of
spec/KdbxDb.tla. The specification decides what each of them must do."""
import random

STD = ['Title', 'UserName', 'URL', 'Password', 'Notes', 'otp']


def tx(s):
    return 'x' + s.encode('utf-8').hex()


def tm(secs):
    return 't' + secs.to_bytes(8, 'little', signed=True).hex()


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.small_ids = True
        self.extreme = False
        self.near = False      # operations stay in one place

    def uid(self):
        r = self.r
        if self.small_ids and r.random() < 0.6:
            return '%032x' % r.randrange(8)
        k = r.random()
        if k < 0.05:
            return '0' * 32
        if k < 0.1:
            return 'f' * 32
        return '%032x' % r.getrandbits(128)

    WORDS = ['', 'a', 'Title', ' lead', 'trail ', '\t tab', 'line\nbreak', 'cr\rlf\r\n', '<&>"\'',
             ']]>', '&amp;', 'é', '日本語', '😀', '\u00a0', '\u2028', 'x' * 40, '   ', '\n',
             'True', '-1', '0', '\ufffd', '\ue000', 'a\u0301']

    def word(self):
        r = self.r
        if r.random() < 0.5:
            return r.choice(self.WORDS)
        n = r.choice([1, 2, 3, 5, 8, 13, 16, 17, 31])
        return ''.join(r.choice('abcXYZ 019_-&<>"\'é日😀') for _ in range(n))

    def key(self):
        r = self.r
        if r.random() < 0.6:
            return r.choice(STD)
        return r.choice(['kx', 'Kx', 'kx ', ' kx', 'k<x>', 'title', 'Ключ', 'K&R', 'Title2'])

    def field(self):
        r = self.r
        return {'k': tx(self.key()), 'v': 'none' if r.random() < 0.1 else tx(self.word()),
                'p': r.random() < 0.4}

    def secs(self):
        r = self.r
        k = r.random()
        if k < 0.1:
            return tm(0)
        if k < 0.2:
            return tm(r.choice([1, 59, 86399, 86400, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 315537897599,
                                62135596799, 62135596800]))
        return tm(r.randrange(0, 315537897600))

    def times(self):
        r = self.r
        return {'mod': self.secs(), 'cre': self.secs(), 'acc': self.secs(), 'exp': self.secs(),
                'loc': self.secs(), 'expires': r.random() < 0.5,
                'usage': str(r.choice([0, 1, 7, 2 ** 31, 2 ** 32 - 1, r.getrandbits(32)]))}

    def entry(self, hist=True):
        r = self.r
        return {'id': self.uid(), 'fields': [self.field() for _ in range(r.randrange(5))],
                'times': self.times(),
                'hist': [self.entry(r.random() < 0.3) for _ in range(r.randrange(3))] if hist else []}

    def group(self, depth=3, width=3):
        r = self.r
        return {'id': self.uid(), 'name': tx(self.word()), 'times': self.times(),
                'entries': [self.entry(r.random() < 0.4) for _ in range(r.randrange(width + 1))],
                'groups': [self.group(depth - 1, width) for _ in range(r.randrange(width + 1))]
                if depth > 0 else []}

    def db(self, depth=3, width=3):
        r = self.r
        return {'meta': {'name': tx(self.word()), 'desc': tx(self.word()),
                         'custom': [self.field() for _ in range(r.randrange(3))],
                         'mp': [r.random() < 0.5 for _ in range(5)]},
                'root': self.group(depth, width)}

    # ---- operations ------------------------------------------------------
    def path(self):
        r = self.r
        if self.near:
            return [1] * r.choice([0, 0, 0, 1])
        return [r.randrange(1, 4) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]

    def ref(self):
        r = self.r
        if self.near:
            return {'g': [], 'e': 1, 'h': [1] * (r.random() < 0.1)}
        return {'g': self.path(), 'e': r.randrange(1, 4),
                'h': [r.randrange(1, 3) for _ in range(r.choice([0, 0, 0, 1, 1, 2]))]}

    def fact(self):
        r = self.r
        return r.choice([
            lambda: {'t': 'set', 'v': tx(self.word())}, lambda: {'t': 'clear'},
            lambda: {'t': 'prot', 'b': r.random() < 0.5}, lambda: {'t': 'key', 'v': tx(self.key())}])()

    def eact(self):
        r = self.r
        return r.choice([
            lambda: {'t': r.choice(['title', 'username', 'url', 'password']), 'v': tx(self.word())},
            lambda: {'t': r.choice(['title', 'username', 'url', 'password']), 'v': tx(self.word())},
            lambda: {'t': 'otp', 'secret': tx('S' + str(r.randrange(99))), 'period': '30', 'digits': '6'},
            lambda: {'t': 'add', 'f': self.field()},
            lambda: {'t': 'remove', 'k': tx(self.key())},
            lambda: {'t': 'field', 'k': tx(self.key()), 'a': self.fact()},
            lambda: {'t': 'field', 'k': tx(self.key()), 'a': self.fact()},
            lambda: {'t': 'fieldAt', 'i': r.randrange(1, 5), 'a': self.fact()},
            lambda: {'t': 'allFields', 'a': self.fact()},
            lambda: {'t': 'uuid', 'id': self.uid()},
            lambda: {'t': 'times', 'times': self.times()},
            lambda: {'t': 'version'}, lambda: {'t': 'version'},
            lambda: {'t': 'hPush', 'e': self.entry(False)},
            lambda: {'t': 'hRemove', 'i': r.randrange(1, 4)}, lambda: {'t': 'nop'}])()

    def gact(self):
        r = self.r
        return r.choice([
            lambda: {'t': 'name', 'v': tx(self.word())}, lambda: {'t': 'uuid', 'id': self.uid()},
            lambda: {'t': 'times', 'times': self.times()}, lambda: {'t': 'addE', 'e': self.entry()},
            lambda: {'t': 'addG', 'g': self.group(1, 2)}, lambda: {'t': 'nop'}])()

    def epred(self):
        r = self.r
        return r.choice([
            lambda: {'t': 'id', 'id': self.uid()}, lambda: {'t': 'title', 'v': tx(self.word())},
            lambda: {'t': 'url', 'v': tx(self.word())}, lambda: {'t': 'has', 'k': tx(self.key())},
            lambda: {'t': 'any'}, lambda: {'t': 'never'}, lambda: {'t': 'nth', 'n': r.randrange(1, 15)}])()

    def gpred(self):
        r = self.r
        return r.choice([
            lambda: {'t': 'id', 'id': self.uid()}, lambda: {'t': 'name', 'v': tx(self.word())},
            lambda: {'t': 'holds', 'id': self.uid()},
            lambda: {'t': 'any'}, lambda: {'t': 'never'}, lambda: {'t': 'nth', 'n': r.randrange(1, 10)}])()

    def op(self, focus):
        r = self.r
        P = self.path
        tree = [
            lambda: {'op': 'gAct', 'g': P(), 'a': self.gact()}, lambda: {'op': 'gAct', 'g': P(), 'a': self.gact()},
            lambda: {'op': 'gRemoveE', 'g': P(), 'id': self.uid()}, lambda: {'op': 'gRemoveE', 'g': P(), 'id': self.uid()},
            lambda: {'op': 'gRemoveG', 'g': P(), 'id': self.uid()}, lambda: {'op': 'gRemoveG', 'g': P(), 'id': self.uid()},
            lambda: {'op': 'gPasteE', 'g': P()}, lambda: {'op': 'gPasteG', 'g': P()},
            lambda: {'op': 'gCounts', 'g': P()},
            lambda: {'op': 'gIdsMut', 'g': P(), 'ea': self.eact_simple(), 'ga': self.gact()},
            lambda: {'op': 'dbAddE', 'e': self.entry()}, lambda: {'op': 'dbAddG', 'x': self.group(1, 2)},
            lambda: {'op': 'dbName', 'v': tx(self.word())}, lambda: {'op': 'dbDesc', 'v': tx(self.word())},
            lambda: {'op': 'dbCustom', 'f': self.field()},
            lambda: {'op': 'dbMp', 'mp': [r.random() < 0.5 for _ in range(5)]}]
        search = [
            lambda: {'op': 'gSearchE', 'g': P(), 'p': self.epred()},
            lambda: {'op': 'gSearchG', 'g': P(), 'p': self.gpred()},
            lambda: {'op': 'gSearchEMut', 'g': P(), 'p': self.epred(), 'a': self.eact_simple()},
            lambda: {'op': 'gSearchGMut', 'g': P(), 'p': self.gpred(), 'a': self.gact()},
            lambda: {'op': 'gRecE', 'g': P()}, lambda: {'op': 'gRecG', 'g': P()},
            lambda: {'op': 'gRecEMut', 'g': P(), 'a': self.eact_simple()}]
        entry = [
            lambda: {'op': 'eAct', 'r': self.ref(), 'a': self.eact()},
            lambda: {'op': 'eAct', 'r': self.ref(), 'a': self.eact()},
            lambda: {'op': 'eAct', 'r': self.ref(), 'a': self.eact()},
            lambda: {'op': 'eGet', 'r': self.ref()}, lambda: {'op': 'eFind', 'r': self.ref(), 'k': tx(self.key())}]
        hist = [
            lambda: {'op': 'eAct', 'r': self.ref(), 'a': self.eact()},
            lambda: {'op': 'eAct', 'r': self.ref(), 'a': {'t': 'version'}},
            lambda: {'op': 'hGet', 'r': self.ref(), 'i': r.randrange(1, 4)},
            lambda: {'op': 'hLen', 'r': self.ref()}, lambda: {'op': 'hList', 'r': self.ref()}]
        pools = {'tree': tree, 'search': search, 'field': entry, 'hist': hist}
        if r.random() < 0.75:
            return r.choice(pools[focus])()
        return r.choice(tree + search + entry + hist)()

    def eact_simple(self):
        while True:
            a = self.eact()
            if a['t'] not in ('hRemove',):
                return a

    def ops(self, n, focus):
        return [self.op(focus) for _ in range(n)]
