"""C10: sources and sinks that work in pieces, end early or fail."""
from . import arch, contents
from .core import ToolError
from .files import AES, CHACHA, CIPHERS, PLAIN, TWOFISH
from .foreign import cr, unlock
from .life import Scripts, first_with
from .saves import CONFIGS, new_steps
from .tamper import header_len, lengths

PW = cr('pw', '6b65')
KINDS = ['other', 'eof', 'timeout', 'wouldblock', 'zero', 'pipe']


def grouped(pre, bodies, per=40, post=()):
    return [list(pre) + [o for b in bodies[i:i + per] for o in b] + list(post) for i in range(0, len(bodies), per)]


def c10(c):
    g = Scripts(c.seed * 7919 + 10)
    r = g.r
    c.model_check('MCIo', {'RETRY': 'yes', 'HEED': 'yes'}, note='all ways to move a file in pieces, ending or failing anywhere')
    for careless in ({'RETRY': 'no', 'HEED': 'yes'}, {'RETRY': 'yes', 'HEED': 'no'}):
        if not c.tlc('MCIo', careless, count=False).violated:
            raise ToolError('the specification does not notice %r' % careless)
    ways = c.generate('GenIo', {'LEN': c.pick(3, 4)})['p']
    ways += [{'chunks': [k], 'intr': i} for k in (4, 5, 8, 12, 16, 31, 32, 33, 64, 255, 4096, 65536) for i in (0, 5)]
    db = contents.db(contents.group(0, 'r', [contents.entry(1, [contents.field('UserName', 'me'), contents.field('Password', 'secret', True)])]))
    files = [g.d4(db=db, cr=PW, cipher=AES, gz='default', style=PLAIN, kdf='argon2d', legacy=False),
             g.d4(db=db, cr=PW, cipher=CHACHA, gz='none', sizes=[100, 7, 600], style=PLAIN, kdf='aes', legacy=False),
             g.d3(db=db, cr=PW, cipher=TWOFISH, gz='default', style=PLAIN), g.d3(db=db, cr=PW, cipher=CHACHA, gz='none', style=PLAIN)]
    steps = arch.file_steps(c, files)
    lens = lengths(c, steps)
    scripts = []

    def opened(src):
        return [{'op': 'open', 'a': 'a', 'f': 'f', 'src': src}, unlock(PW), {'op': 'obs', 'a': 'a'}]
    counts = {'ways to deliver a file': 0, 'ends': 0, 'failures of a source': 0, 'ways to accept a file': 0, 'failures of a sink': 0}
    for k, (s, n) in enumerate(zip(steps, lens)):
        some = ways if k < 2 or c.thorough else r.sample(ways, 150)
        bodies = [opened(w) for w in some] + [opened({'path': True})]
        counts['ways to deliver a file'] += len(bodies)
        scripts += grouped([s], bodies)
        ends = [opened({'eof': i, 'chunks': r.choice([[], [1], [3, 17]]), 'intr': r.choice([0, 3])})
                for i in range(0, n + 1, 1 if k % 2 == 0 or c.thorough else 5)]
        fails = [opened({'fail': i, 'kind': r.choice(KINDS), 'chunks': r.choice([[], [1], [5, 100]]), 'intr': r.choice([0, 0, 2])})[:2]
                 for i in range(0, n + 1, 1 if k < 2 or c.thorough else 3)]
        # failures that pass
        fails += [opened({'fail': i, 'kind': r.choice(KINDS), 'once': True, 'chunks': r.choice([[], [1], [5, 100]])})
                  for i in range(0, n + 1, 1 if k < 2 or c.thorough else 3)]
        # every kind of failure within the header, at its end and at the end of the file
        h = header_len(files[k]) if files[k]['v'] == 4 else 200
        fails += [opened({'fail': i, 'kind': q})[:2] for q in KINDS for i in (0, 3, 4, 8, 11, 12, 13, 17, h, h + 31, h + 32, h + 64, n - 1, n)]
        counts['ends'] += len(ends)
        counts['failures of a source'] += len(fails)
        scripts += grouped([s], ends) + grouped([s], fails)
    scripts = [{'id': i, 'steps': s} for i, s in enumerate(scripts)]
    tr = arch.check_scripts(c, scripts, 'reading in pieces, to early ends and failures', rebuild_every=0)
    t = next(t for t in tr if 'fail' in t['steps'][1]['o']['src'] and t['steps'][1]['o']['src']['fail'] > 20)
    good = next(s['ret'] for t in tr for s in t['steps'] if s['o']['op'] == 'open' and s['ret'][0] == 'ok')
    arch.corrupt(c, t, lambda t: t['steps'][1].update(ret=[good[0], good[1], True]), 'a failing source recorded as opened')

    # saving
    scripts = []
    for k, conf in enumerate(CONFIGS[::c.pick(5, 1)]):
        pre = new_steps(g, db, conf, PW)
        f_ok = [{'op': 'decode', 'f': 'f', **PW}, {'op': 'open', 'a': 'b', 'f': 'f'}, unlock(PW, 'b')]
        some = r.sample(ways, 40) if not c.thorough else ways
        bodies = [[{'op': 'save', 'a': 'a', 'f': 'f', 'sink': w}] + f_ok for w in some]
        bodies += [[{'op': 'save', 'a': 'a', 'f': 'f', 'sink': {'buf': b, 'chunks': r.choice([[], [1], [100]])}}] + f_ok
                   for b in (1, 10, 4096, 100000)]
        counts['ways to accept a file'] += len(bodies)
        scripts += grouped(pre, bodies)
        f_no = [{'op': 'open', 'a': 'b', 'f': 'f'}, unlock(PW, 'b')]
        fails = []
        for i in range(0, 2600, c.pick(7, 1)):
            w = {r.choice(['fail', 'fail', 'stuck']): i, 'kind': r.choice(KINDS)}
            if r.random() < 0.3:
                w['chunks'] = r.choice([[1], [7], [64]])
            if r.random() < 0.3:
                w['buf'] = r.choice([16, 500, 65536])
            if 'fail' in w and r.random() < 0.5:
                w['once'] = True
            fails.append([{'op': 'save', 'a': 'a', 'f': 'f', 'sink': w}] + f_no)
        # each of the writes fails once
        fails += [[{'op': 'save', 'a': 'a', 'f': 'f', 'sink': {'fail': i, 'once': True}}] + f_no for i in range(0, 600, c.pick(3, 1))]
        fails += [[{'op': 'save', 'a': 'a', 'f': 'f', 'sink': {'flush': True, **x}}] + f_no
                  for x in ({}, {'buf': 16}, {'buf': 100000}, {'chunks': [1]}, {'once': True}, {'once': True, 'buf': 100})]
        fails += [[{'op': 'save', 'a': 'a', 'f': 'f', 'sink': {'fail': i, 'kind': q, **b}}] + f_no
                  for q in KINDS for i in (0, 1, 4, 12, 200) for b in ({}, {'buf': 100000})]
        counts['failures of a sink'] += len(fails)
        # afterwards the archive can still be saved
        scripts += grouped(pre, fails, post=[{'op': 'save', 'a': 'a', 'f': 'f'}] + f_ok + [{'op': 'obs', 'a': 'a'}])
    # copies of locked archives
    for k, (s, n) in enumerate(zip(steps, lens)):
        same = {'op': 'same', 'f': 'f', 'g': 'g'}
        bodies = [[{'op': 'save', 'a': 'a', 'f': 'g', 'sink': w}, same] for w in r.sample(ways, c.pick(60, len(ways)))]
        bodies += [[{'op': 'save', 'a': 'a', 'f': 'g', 'sink': {'buf': b}}, same] for b in (1, 10, 4096, 100000)]
        fails = [[{'op': 'save', 'a': 'a', 'f': 'g', 'sink': {r.choice(['fail', 'stuck']): i, 'kind': r.choice(KINDS)}}, same]
                 for i in range(0, n + 1, c.pick(5, 1))]
        fails += [[{'op': 'save', 'a': 'a', 'f': 'g', 'sink': {'fail': i, 'once': True, **r.choice([{}, {}, {'buf': 50}])}}, same]
                  for i in range(0, n + 1, c.pick(4, 1))]
        fails += [[{'op': 'save', 'a': 'a', 'f': 'g', 'sink': {'flush': True, **x}}] for x in ({}, {'buf': 16}, {'buf': 100000})]
        counts['ways to accept a file'] += len(bodies)
        counts['failures of a sink'] += len(fails)
        pre = [s, {'op': 'open', 'a': 'a', 'f': 'f'}]
        scripts += grouped(pre, bodies) + grouped(pre, fails, post=[{'op': 'save', 'a': 'a', 'f': 'g'}, same, unlock(PW)])
    # large files, moved and failing around the boundaries of their blocks
    for ci in CIPHERS:
        big = contents.sized(1200000)
        pre = new_steps(g, big, (ci, 'aes', '00000000', '03000000'), PW)
        f_ok = [{'op': 'open', 'a': 'b', 'f': 'f', 'src': {'chunks': [1048575, 3, 65536], 'intr': 2}}, unlock(PW, 'b')]
        bodies = [[{'op': 'save', 'a': 'a', 'f': 'f', 'sink': w}] + f_ok for w in (
            {'chunks': [65536]}, {'chunks': [1000003], 'intr': 2}, {'chunks': [4096, 1048576]}, {'buf': 1000000})]
        fails = [[{'op': 'save', 'a': 'a', 'f': 'f', 'sink': {'fail': 1048576 + d, **b}}, {'op': 'open', 'a': 'b', 'f': 'f'}, unlock(PW, 'b')]
                 for d in (0, 300, 320, 350, 360, 400, 450, 500, 1000, 100000) for b in ({}, {'buf': 65536})]
        scripts += grouped(pre, bodies, 4) + grouped(pre, fails, 10)
        counts['ways to accept a file'] += len(bodies)
        counts['failures of a sink'] += len(fails)
    scripts = [{'id': i, 'steps': s} for i, s in enumerate(scripts)]
    tr = arch.check_scripts(c, scripts, 'saving in pieces and to failing sinks', rebuild_every=0)
    t, k = first_with(tr, 'save', 'err')
    arch.corrupt(c, t, lambda t: t['steps'][k].update(ret=['ok', True]), 'a failing sink recorded as a successful save')
    c.extra.update({'io': counts})
    c.samples.append({'source': ways[77], 'sink': scripts[3]['steps'][5].get('sink')})
