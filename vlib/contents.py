"""Databases that between them use every corner of what can be stored."""
from .gen import tx, tm

WORDS = [
    '', ' ', '  two  ', '\t', '\n', '\r', '\r\n', '\n\n x', 'a\rb', 'trail\n', '<', '>', '&', '"', "'", '<&>"\'', ']]>', ']]', '&amp;',
    '&#13;', '&lt;', '<!--', '-->', '<![CDATA[x]]>', '<?xml?>', '</Value>', '<Value Protected="True">', 'True', 'false', '0',
    '-1', '=', 'é', 'ÿ', 'ß', '日本語', '😀', '\U0010fffd', '퟿', '', '�', '\u0085', ' ', ' ', '​',
    '﻿', 'á', '‮abc', '\x7f', '\x80', '\x9f', 'x' * 63, 'x' * 64, 'x' * 65, 'é' * 40, 'AAAA', 'AAAAAAAAAAAAAAAAAAAAAA==',
    '2020-01-01T00:00:00Z', '%00', '\\0', '\\x01', 'null', 'None', '{TITLE}', 'otpauth://totp/a?secret=b&period=1',
]
UNSTORABLE = ['\x00', '\x01', '\x08', '\x0b', '\x0c', '\x0e', '\x1b', '\x1f', 'a\x00b', '￾', '￿', 'ok\x02']

T0 = tm(63713188800)


def times(**kw):
    t = {'mod': T0, 'cre': T0, 'acc': T0, 'exp': T0, 'loc': T0, 'expires': False, 'usage': '0'}
    t.update(kw)
    return t


def field(k, v, p=False):
    return {'k': tx(k), 'v': v if v == 'none' or v.startswith('r0') else tx(v), 'p': p}


def entry(n, fields, hist=(), **kw):
    return {'id': '%032x' % n, 'fields': list(fields), 'times': times(**kw), 'hist': list(hist)}


def group(n, name='g', entries=(), groups=(), **kw):
    return {'id': '%032x' % n, 'name': tx(name), 'times': times(**kw), 'entries': list(entries), 'groups': list(groups)}


def db(root, name='n', desc='', custom=(), mp=(False, False, True, False, False)):
    return {'meta': {'name': tx(name), 'desc': tx(desc), 'custom': list(custom), 'mp': list(mp)}, 'root': root}


def long(n, seed=1):
    """Text of n bytes (more than 2048)"""
    return 'r%010d:%d' % (n, seed)


def word_dbs():
    """Every word in every place"""
    out = []
    for w in WORDS:
        key = w or 'k'
        e = entry(1, [field(key, w), field(key, w, True), field('Title', w), field('after', 'x', True)],
                  [entry(1, [field('Password', w, True), field(key, 'old')])])
        out.append(db(group(0, w, [e], [group(2, w, [entry(3, [field('Password', w, True)])])]), w, w,
                      [field(key, w), field(key, w, True), field('z', 'z', True)]))
    return out


def bad_dbs():
    """Text XML cannot hold, one place at a time; protected values can hold it"""
    out = []
    for w in UNSTORABLE:
        out.append(db(group(0, 'r', [entry(1, [field('Password', w, True), field('Title', 'after', True)])])))
        out.append(db(group(0), custom=[field('c', w, True), field('d', 'e', True)]))
    for w in UNSTORABLE[:1] + UNSTORABLE[3:6] + UNSTORABLE[-3:]:
        out.append(db(group(0, w)))
        out.append(db(group(0, 'r', [], [group(1, 'a', [], [group(2, w)])])))
        out.append(db(group(0), name=w))
        out.append(db(group(0), desc='a' + w))
        out.append(db(group(0), custom=[field('c', w)]))
        out.append(db(group(0), custom=[field(w, 'c', True)]))
        out.append(db(group(0, 'r', [entry(1, [field('Title', w)])])))
        out.append(db(group(0, 'r', [entry(1, [field('Title', 'a'), field(w, 'v', True)])])))
        out.append(db(group(0, 'r', [entry(1, [], [entry(1, [field('Title', w)])])])))
    for p in (False, True):
        out.append(db(group(0, 'r', [entry(1, [field('', 'v', p)])])))
        out.append(db(group(0, 'r', [entry(1, [], [entry(1, [field('', 'none', p)])])])))
        out.append(db(group(0), custom=[field('a', 'b'), field('', 'v', p)]))
    return out


def shape_dbs():
    out = []
    # nothing, and empty things
    out.append(db(group(0, ''), name=''))
    out.append(db(group(0, '', [entry(1, [])], [group(2, '')])))
    # absent and empty values
    out.append(db(group(0, 'r', [entry(1, [field('a', 'none'), field('b', ''), field('c', 'none', True), field('d', '', True),
                                           field('e', 'after', True)])]),
                  custom=[field('a', 'none', True), field('b', '', True), field('c', 'none'), field('d', 'x', True)]))
    # duplicate names, values and identifiers
    out.append(db(group(0, 'r', [entry(1, [field('k', 'a'), field('k', 'b', True), field('k', 'a'), field('K', 'c')]),
                                 entry(1, [field('k', 'a')]), entry(1, [field('k', 'a')])],
                        [group(0, 'r'), group(1, 'r', [entry(1, [])]), group(1, 'r')]),
                  custom=[field('k', '1'), field('k', '1'), field('k', '2', True)]))
    # nil and largest identifiers
    g = group(0)
    g['id'] = 'f' * 32
    out.append(db(g))
    # depth, width
    g = group(99, 'leaf', [entry(7, [field('Password', 'deep', True)])])
    for i in range(45):
        g = group(i, 'g%d' % i, [entry(i, [field('Title', str(i))])] if i % 7 == 0 else [], [g])
    out.append(db(g))
    out.append(db(group(0, 'r', [entry(i, [field('Title', 't%d' % i), field('Password', 'p' * (i % 70), True)])
                                 for i in range(150)])))
    out.append(db(group(0, 'r', [], [group(i, 'g%d' % i) for i in range(60)])))
    out.append(db(group(0, 'r', [entry(1, [field('f%d' % i, 'v%d' % i, i % 2 == 1) for i in range(80)])])))
    # entries before and after, groups with entries on all levels
    out.append(db(group(0, 'a', [entry(1, [field('Password', 'p1', True)]), entry(2, [])],
                        [group(3, 'b', [entry(4, [field('Password', 'p2', True)])],
                               [group(5, 'c', [entry(6, [field('Password', 'p3', True)])])]),
                         group(7, 'd', [], [group(8, 'e')])])))
    # history: many versions, versions with history, protected values in them
    h = [entry(1, [field('Password', 'old%d' % i, True), field('Title', 't', i % 2 == 0)], usage=str(i)) for i in range(12)]
    out.append(db(group(0, 'r', [entry(1, [field('Password', 'now', True)], h), entry(2, [field('x', 'y', True)])])))
    deep = entry(1, [field('Password', 'v0', True)])
    for i in range(1, 8):
        deep = entry(1, [field('Password', 'v%d' % i, True), field('n', str(i))],
                     [deep, entry(2, [field('Title', 'side', True)])])
    out.append(db(group(0, 'r', [deep, entry(3, [field('after', 'z', True)])])))
    # custom data
    out.append(db(group(0, 'r', [entry(1, [field('Password', 'p', True)])]),
                  custom=[field('c%d' % i, 'v%d' % i, i % 3 == 0) for i in range(20)]))
    return out


def time_dbs():
    out = []
    marks = [0, 1, 59, 60, 3599, 3600, 86399, 86400, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 62135596799, 62135596800,
             63082281599, 63713188800, 315537897599]
    for k, which in enumerate(['mod', 'cre', 'acc', 'exp', 'loc']):
        es = [entry(i, [], expires=i % 2 == 0, **{which: tm(m)}) for i, m in enumerate(marks)]
        gs = [group(i, 'g', expires=i % 2 == 1, **{which: tm(m)}) for i, m in enumerate(marks)]
        out.append(db(group(0, 'r', es, gs, **{which: tm(marks[k])})))
    # parts of a second are not stored
    out.append(db(group(0, 'r', [entry(1, [], mod=T0 + '.999999999', cre=T0 + '.1', acc=tm(0) + '.500000000')],
                        exp=T0 + '.5', loc=tm(315537897599) + '.999999999')))
    us = [0, 1, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
    out.append(db(group(0, 'r', [entry(i, [], usage=str(u)) for i, u in enumerate(us)],
                        [group(i, 'g', usage=str(u)) for i, u in enumerate(us)], usage='4294967295')))
    return out


def mp_dbs():
    return [db(group(0), mp=[bool(m >> i & 1) for i in range(5)]) for m in range(32)]


def stream_dbs():
    """Protected values of all lengths up to a few blocks of the inner stream, after each other"""
    out = [db(group(0, 'r', [entry(i, [field('Password', 'p' * n, True)]) for i, n in enumerate(range(a, a + 35))]))
           for a in (0, 35, 70, 100)]
    out.append(db(group(0, 'r', [entry(1, [field('a', long(5000, 3), True), field('b', 'x', True),
                                           field('c', long(65536, 4), True), field('d', 'y', True)])])))
    return out


def length_dbs(n=33):
    """Payloads of n consecutive lengths"""
    return [db(group(0), name='n' * i) for i in range(n)]


def sized(n, protected=False):
    return db(group(0, 'r', [entry(1, [field('Notes', long(n, 9), protected), field('Password', 'end', True)])]))


def all_small():
    return word_dbs() + bad_dbs() + shape_dbs() + time_dbs() + mp_dbs() + stream_dbs()
