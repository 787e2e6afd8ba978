"""C12-C15: operations on the in-memory database."""
import copy
from . import arch, contents, saves
from .core import ToolError
from .gen import STD, Gen, tx
from .life import Scripts


def db_traces(c, cases):
    res = c.kvh('db', cases)
    traces = []
    for case, r in zip(cases, res):
        if 'steps' not in r:
            raise ToolError('harness failed on a case: %r' % r)
        traces.append({'id': case['id'], 'init': case['init'], 'steps': r['steps']})
    return traces


def big_db(g, scen):
    """Many entries, groups, levels, or many fields and versions"""
    r = g.r
    n = r.choice([101, 130, 257, 300]) if scen != 'search' else r.choice([34, 66, 130])
    db = g.db(0, 0)
    e = contents.entry
    if scen in ('tree', 'search'):
        def some(k):
            return [e(r.randrange(n), [contents.field('Title', 'e%d' % r.randrange(n))]) for _ in range(k)]
        chain = contents.group(1, 'end', some(1), [])
        for i in range(r.choice([17, 33, 55])):
            chain = contents.group(r.randrange(n), 'g%d' % r.randrange(n), some(r.randrange(3)), [chain])
        wide = [contents.group(r.randrange(n), 'g%d' % r.randrange(n), some(r.randrange(2)), []) for _ in range(n)]
        wide.insert(r.randrange(n), chain)
        db['root'].update(entries=some(n), groups=wide)
    elif scen == 'field':
        # some names once or twice, some often
        db['root']['entries'] = [e(1, [dict(g.field(), k=tx(r.choice(['k%d' % r.randrange(n), 'k%d' % r.randrange(12), r.choice(STD)]))) for _ in range(n)])]
    else:
        db['root']['entries'] = [e(1, [contents.field('Title', 'now')], [e(1, [contents.field('Title', str(i))]) for i in range(n)])]
    return db


def big_ops(g, scen):
    r = g.r
    ops = []
    ref = {'g': [], 'e': 1, 'h': []}
    for i in range(60):
        k = r.choice([12, 300]) if scen != 'search' else 66
        k = r.randrange(k)
        uid = '%032x' % k
        if scen == 'tree':
            ops.append(r.choice([
                lambda: {'op': 'gRemoveE', 'g': [], 'id': uid}, lambda: {'op': 'gRemoveG', 'g': [], 'id': uid},
                lambda: {'op': 'gPasteE', 'g': [r.randrange(1, 200)]}, lambda: {'op': 'gPasteG', 'g': [r.randrange(1, 200)]},
                lambda: {'op': 'dbAddE', 'e': g.entry(False)}, lambda: {'op': 'gCounts', 'g': []},
                lambda: {'op': 'gAct', 'g': [r.randrange(1, 200)], 'a': g.gact()}])())
        elif scen == 'search':
            ep = r.choice([{'t': 'id', 'id': uid}, {'t': 'title', 'v': tx('e%d' % k)}, {'t': 'nth', 'n': r.randrange(1, 200)}])
            gp = r.choice([{'t': 'id', 'id': uid}, {'t': 'name', 'v': tx('g%d' % k)}, {'t': 'name', 'v': tx('end')}, {'t': 'nth', 'n': r.randrange(1, 150)}])
            ops.append(r.choice([
                lambda: {'op': 'gSearchE', 'g': [], 'p': ep}, lambda: {'op': 'gSearchG', 'g': [], 'p': gp},
                lambda: {'op': 'gSearchEMut', 'g': [], 'p': ep, 'a': {'t': 'title', 'v': tx('e%d' % r.randrange(66))}},
                lambda: {'op': 'gSearchGMut', 'g': [], 'p': gp, 'a': {'t': 'name', 'v': tx('g%d' % r.randrange(66))}}])())
            if i % 20 == 0:
                ops += [{'op': 'gRecE', 'g': []}, {'op': 'gRecG', 'g': []}, {'op': 'gRecEMut', 'g': [], 'a': {'t': 'url', 'v': tx('u%d' % i)}}]
        elif scen == 'field':
            ops.append(r.choice([
                lambda: {'op': 'eFind', 'r': ref, 'k': tx('k%d' % k)},
                lambda: {'op': 'eAct', 'r': ref, 'a': {'t': 'field', 'k': tx('k%d' % k), 'a': g.fact()}},
                lambda: {'op': 'eAct', 'r': ref, 'a': {'t': 'remove', 'k': tx('k%d' % k)}},
                lambda: {'op': 'eAct', 'r': ref, 'a': {'t': r.choice(['title', 'username', 'url', 'password']), 'v': tx(g.word())}},
                lambda: {'op': 'eAct', 'r': ref, 'a': {'t': 'add', 'f': dict(g.field(), k=tx('k%d' % k))}}])())
        else:
            ops.append(r.choice([
                lambda: {'op': 'eAct', 'r': ref, 'a': {'t': 'version'}}, lambda: {'op': 'eAct', 'r': ref, 'a': {'t': 'version'}},
                lambda: {'op': 'eAct', 'r': ref, 'a': {'t': 'title', 'v': tx(g.word())}},
                lambda: {'op': 'eAct', 'r': ref, 'a': {'t': 'hRemove', 'i': r.choice([1, 2, 50, 101])}},
                lambda: {'op': 'eAct', 'r': ref, 'a': {'t': 'hPush', 'e': g.entry(False)}},
                lambda: {'op': 'hLen', 'r': ref}, lambda: {'op': 'hGet', 'r': ref, 'i': k + 1}])())
            if i % 20 == 0:
                ops.append({'op': 'hList', 'r': ref})
    return ops


def db_check(c, scen, mc_depth, gen_depth, n_random, ops_len, extra_scen=()):
    for s, d in [(scen, mc_depth)] + list(extra_scen):
        c.model_check('MCDb', {'SCEN': s, 'DEPTH': d}, note='%s, all states within %d operations' % (s, d))
    data = c.generate('GenDb', {'SCEN': scen, 'DEPTH': gen_depth})
    cases = [{'id': i, 'init': data['init'], 'ops': s['ops']} for i, s in enumerate(data['seqs'])]
    traces = db_traces(c, cases)
    c.validate('TraceDb', traces, note='all %s operation sequences of length %d' % (scen, gen_depth))
    c.samples.append({'ops': cases[len(cases) // 2]['ops']})
    g = Gen(c.seed * 1000003 + sum(map(ord, scen)))
    rc = []
    for i in range(n_random):
        rc.append({'id': i, 'init': g.db(2, 2) if i % 2 else g.db(3, 2),
                   'ops': g.ops(ops_len, scen), 'obs': 'all' if i % 3 == 0 else 'last'})
    # all in one place, so that operations meet what earlier ones left behind
    g.near = True
    for i in range(n_random):
        e = g.entry(False)
        names = g.r.sample(STD, g.r.randrange(len(STD))) + [g.key()] * g.r.choice([0, 0, 2, 4, 7])
        g.r.shuffle(names)
        e['fields'] = [dict(g.field(), k=tx(k)) for k in names] + e['fields'][:2]
        db = g.db(1, 1)
        db['root']['entries'].insert(0, e)
        rc.append({'id': len(rc), 'init': db, 'ops': g.ops(ops_len, scen), 'obs': 'all' if i % 3 == 0 else 'last'})
    g.near = False
    rt = db_traces(c, rc)
    c.validate('TraceDb', rt, note='random operation sequences')
    big = [{'id': i, 'init': big_db(g, scen), 'ops': big_ops(g, scen), 'obs': 'last'} for i in range(c.pick(4, 20))]
    bt = db_traces(c, big)
    c.validate('TraceDb', bt, note='operations on large databases')
    rt += bt
    done = sum(1 for t in rt for s in t['steps'] if s['ret'] != ['skipped'])
    c.extra['random_operations_executed'] = done
    bad = copy.deepcopy(traces[0])
    bad['steps'][-1]['obs'][0]['root']['name'] = 'x58'
    c.expect_rejected('TraceDb', bad, 'name of the root group changed in the last observation')


def c12(c):
    db_check(c, 'tree', c.pick(3, 4), c.pick(2, 3), c.pick(150, 1500), c.pick(30, 40))


def c13(c):
    db_check(c, 'search', c.pick(2, 3), c.pick(1, 2), c.pick(150, 1500), c.pick(30, 40),
             [('mix', c.pick(2, 2))])


def c14(c):
    db_check(c, 'field', c.pick(3, 3), c.pick(2, 3), c.pick(150, 1500), c.pick(30, 40))


def c15(c):
    db_check(c, 'hist', c.pick(3, 4), c.pick(2, 3), c.pick(150, 1500), c.pick(30, 40))
    saved_history(c)


def history_db(g, n):
    """An entry with n versions, each with its own fields, times, and now and then versions of its own"""
    r = g.r
    db = g.small_db()
    hist = []
    for i in range(n):
        v = contents.entry(r.choice([1, 1, 2]), [contents.field('Password', 'old%d' % i, r.random() < 0.7),
                                                contents.field('k%d' % (i % 3), 'v%d' % i, r.random() < 0.5)][:r.randrange(3)],
                           [contents.entry(7, [contents.field('n', str(i), True)])] if r.random() < 0.2 else [],
                           usage=str(i), mod=contents.tm(1000 + i))
        hist.append(v)
    db['root']['entries'].insert(r.choice([0, len(db['root']['entries'])]),
                                 contents.entry(1, [contents.field('Password', 'now', True)], hist))
    return db


def saved_history(c):
    """History edited, saved, reopened, edited and saved again"""
    g = Scripts(c.seed * 7919 + 15)
    scripts = []
    for i in range(c.pick(150, 1200)):
        cr = g.creds()
        s = saves.new_steps(g, history_db(g, g.r.choice([0, 1, 2, 3, 5, 9, 20])), saves.CONFIGS[i % len(saves.CONFIGS)], cr,
                            edits=g.ops(g.r.choice([0, 2, 6]), 'hist'))
        s += saves.reread(cr, 'f', 'a')
        s += [{'op': 'edit', 'a': 'b', 'o': o, 'deref': g.r.random() < 0.5} for o in g.ops(6, 'hist')]
        s += [{'op': 'save', 'a': 'b', 'f': 'g'}, {'op': 'open', 'a': 'c', 'f': 'g'}, dict(op='unlock', a='c', **cr)]
        scripts.append({'id': i, 'steps': s})
    tr = arch.check_scripts(c, scripts, 'history saved and reopened', rebuild_every=0)

    def last(t):
        return t['steps'][-1]['ret'][1]['db']['root']['entries'] if t['steps'][-1]['ret'][0] == 'ok' else []
    t = [t for t in tr if any(len(e['hist']) > 1 for e in last(t))]
    if not t:
        raise ToolError('no history was read back')

    def swap(t):
        e = [e for e in last(t) if len(e['hist']) > 1][0]
        e['hist'] = e['hist'][1:] + e['hist'][:1] if e['hist'][0] != e['hist'][1] else e['hist'][1:]
    arch.corrupt(c, t[0], swap, 'order of versions changed after reopening')
