"""Archive scripts: run on the real code, validate against KdbxArchive, take
saved files apart and rebuild them from the specification of the format."""
import concurrent.futures
import json
import os
import shutil
from .core import ToolError, Violation, tlc, write_nd


def gen_terms(c, module, rows, shards=6):
    """Rows {"id", ...} through a generator module, in parallel: list of results by row."""
    if not rows:
        return []
    shards = max(1, min(shards, len(rows) // 8 + 1))

    def one(s):
        part = rows[s::shards]
        fin, fout = c.path('%s-in-%d-%d' % (module, c.n, s)), c.path('%s-out-%d-%d' % (module, c.n, s))
        write_nd(fin, part)
        r = tlc(module, fin + '.meta', {'IN': fin, 'OUT': fout}, None, 1, '4g', 800)
        if r.violated or not os.path.exists(fout):
            raise ToolError('generator %s failed:\n%s' % (module, r.out[-3000:]))
        with open(fout) as f:
            d = json.load(f)
        os.remove(fin)
        os.remove(fout)
        return d, r.wall
    c.n += 1
    with concurrent.futures.ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    out = [None] * len(rows)
    for s, (d, _) in enumerate(rs):
        for k, x in enumerate(d):
            out[s + k * shards] = x
    c.runs.append({'module': module, 'note': 'generation', 'rows': len(rows), 'wall_s': round(max(w for _, w in rs), 1)})
    for row, x in zip(rows, out):
        assert row['id'] == x['id']
    return out


def file_steps(c, descs, with_xml=True):
    """For each description the step {"op": "bytes"} that creates its file (name f)."""
    terms = gen_terms(c, 'GenFile', [{'id': i, 'd': d} for i, d in enumerate(descs)])
    steps = []
    for d, t in zip(descs, terms):
        s = {'op': 'bytes', 'f': 'f', 'd': d, 'term': t['term']}
        if with_xml:
            s['xml'] = t['xml']
        steps.append(s)
    return steps


def run_scripts(c, cases, **kw):
    """cases: [{"id", "steps"}] -> recorded traces (with blobs)"""
    spill = c.path('spill')
    os.makedirs(spill, exist_ok=True)
    os.environ['KVH_SPILL'] = spill
    res = c.kvh('arch', cases, **kw)
    for case, r in zip(cases, res):
        if 'steps' not in r:
            raise ToolError('harness failed on case %s: %r' % (case['id'], r))
    return res


def traces_of(res):
    return [{'id': r['id'], 'steps': r['steps']} for r in res]


def rebuild(c, res):
    """Every decoded file must equal the file the specification builds from its parts."""
    rows, atoms = [], []
    for r in res:
        k = 0
        blobs = r['blobs']
        for st in r['steps']:
            if st['o']['op'] == 'decode' and st['ret'][0] == 'ok':
                at = {}
                while k < len(blobs):
                    name, v = blobs[k]
                    if name in at:
                        break
                    at[name] = v
                    k += 1
                d = dict(st['ret'][1])
                d.pop('doc')
                rows.append({'id': len(rows), 'd': d, 'cr': {'pw': st['o']['pw'], 'kf': st['o']['kf']}})
                atoms.append((at, r['id']))
    if not rows:
        return 0
    terms = gen_terms(c, 'GenRebuild', rows)
    cases = [{'id': i, 'term': t['term'], 'eqs': t['eqs'], 'file': at['file'], 'atoms': at}
             for i, (t, (at, _)) in enumerate(zip(terms, atoms))]
    out = c.kvh('term', cases)
    for o, (at, cid) in zip(out, atoms):
        if o.get('bad') is None:
            raise ToolError('term evaluation failed: %r' % o)
        if o['bad']:
            raise Violation('saved file is not the one the format prescribes (case %s): %s' % (cid, '; '.join(o['bad'])),
                            {'case': cid, 'file': at['file'] if len(at['file']) < 20000 else 'large', 'diff': o['bad']})
    c.extra['saved_files_rebuilt_byte_for_byte'] = c.extra.get('saved_files_rebuilt_byte_for_byte', 0) + len(rows)
    return len(rows)


def clean_spill(c):
    shutil.rmtree(c.path('spill'), ignore_errors=True)


def check_scripts(c, cases, note, shards=8, workers=1, rebuild_every=1, **kw):
    """Run, validate, and rebuild the decoded files of every rebuild_every-th script."""
    res = run_scripts(c, cases, **kw)
    tr = traces_of(res)
    c.validate('TraceArch', tr, note=note, shards=shards, workers=workers)
    if rebuild_every:
        rebuild(c, res[::rebuild_every])
    clean_spill(c)
    return tr


def scenario(c, name, mc_depth, gen_depth, rebuild_every=50):
    """Model check a scenario of ArchScen and replay all its operation sequences."""
    c.model_check('MCArch', {'SCEN': name, 'DEPTH': mc_depth},
                  note='%s: all worlds within %d operations' % (name, mc_depth))
    data = c.generate('GenArch', {'SCEN': name, 'DEPTH': gen_depth})
    pre = file_steps(c, data['d']) if data['d'] else []
    cases = [{'id': i, 'steps': pre + s} for i, s in enumerate(data['scripts'])]
    tr = check_scripts(c, cases, '%s: all operation sequences up to length %d' % (name, gen_depth),
                       rebuild_every=rebuild_every)
    mid = cases[len(cases) // 2]['steps'][len(pre):]
    c.samples.append({'scenario': name, 'script': [brief(o) for o in mid]})
    return tr


def brief(o):
    """An operation without its bulk"""
    return {k: v for k, v in o.items() if k not in ('db', 'term', 'xml', 'd')}


def corrupt(c, trace, fn, note):
    t = json.loads(json.dumps(trace))
    fn(t)
    c.expect_rejected('TraceArch', t, note)
