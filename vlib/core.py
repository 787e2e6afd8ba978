"""Shared machinery of the checks: building the harness from /repo's working
tree, running TLC, running cases on the real code, evidence and violations."""
import concurrent.futures
import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
KVH = os.path.join(HARNESS, 'target', 'debug', 'kvh')
TLACP = ('/opt/veriftools/tla/tla2tools.jar:'
         '/opt/veriftools/tla/CommunityModules-deps.jar')


class ToolError(Exception):
    pass


class Violation(Exception):
    """The property is broken: what failed and what is needed to replay it."""

    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


class TlcResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.violated = None   # name of the violated invariant/property
        self.trace = ''
        self.out = ''
        self.wall = 0.0

    def alias(self, name):
        """Value of a variable in the last state printed (as text)."""
        vals = re.findall(r'^/\\ %s = (.*)$' % re.escape(name), self.trace, re.M)
        return vals[-1] if vals else None


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, 'work', pid)
        self.level = 'model_checking'
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.runs = []
        self.extra = {}
        self.assumptions = []
        self.known = []
        self.n = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.dir, name)

    def fresh(self, stem, ext):
        self.n += 1
        return self.path('%s-%d.%s' % (stem, self.n, ext))

    def prepare(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        build()

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, env=None, cfg=None, workers=8, heap='6g', timeout=800,
            extra=(), note=None, count=True):
        """Run TLC. Raises ToolError unless it completes or finds a violation."""
        r = tlc(module, self.fresh('meta', 'd'), env, cfg, workers, heap, timeout, extra)
        if count:
            self.states += r.distinct
            self.transitions += r.generated
            self.runs.append({'module': module, 'note': note or '', 'distinct_states': r.distinct,
                              'states_generated': r.generated, 'wall_s': round(r.wall, 1)})
        return r

    def model_check(self, module, env=None, cfg=None, note=None, **kw):
        """The specification itself must satisfy its invariants."""
        r = self.tlc(module, env, cfg, note=note or 'model check', **kw)
        if r.violated:
            raise ToolError('specification %s violates its own %s:\n%s'
                            % (module, r.violated, r.trace[-3000:]))
        return r

    def generate(self, module, env=None, cfg=None):
        """A Gen* module writes JSON to $OUT."""
        out = self.fresh(module, 'json')
        e = dict(env or {})
        e['OUT'] = out
        r = tlc(module, self.fresh('meta', 'd'), e, cfg, 1, '8g', 800)
        if r.violated or not os.path.exists(out):
            raise ToolError('generator %s failed:\n%s' % (module, r.out[-3000:]))
        self.runs.append({'module': module, 'note': 'generation', 'wall_s': round(r.wall, 1)})
        with open(out) as f:
            data = json.load(f)
        os.remove(out)
        return data

    # ---- implementation --------------------------------------------------
    def kvh(self, cmd, cases, threads=8, timeout=700, case_secs=120, crash_is=None, env=None):
        """Run cases on the real code; returns the list of results."""
        cin = self.fresh(cmd, 'in')
        cout = self.fresh(cmd, 'out')
        write_nd(cin, cases)
        rc, out = run_kvh(cmd, cin, cout, threads, timeout, case_secs, env)
        if rc != 0:
            self.locate_crash(cmd, cases, cout, rc, out, case_secs, env)
        res = read_nd(cout)
        os.remove(cin)
        os.remove(cout)
        if len(res) != len(cases):
            raise ToolError('kvh %s: %d results for %d cases' % (cmd, len(res), len(cases)))
        return res

    def locate_crash(self, cmd, cases, cout, rc, out, case_secs, env=None):
        """The harness died or hung: find the case and decide by running it alone."""
        if rc == 2:
            raise ToolError('kvh %s: %s' % (cmd, out[-2000:]))
        suspects = []
        m = re.search(r'HANG case=(\d+)', out)
        if m:
            suspects.append(int(m.group(1)))
        for p in sorted(glob.glob(cout + '.inflight.*')):
            with open(p) as f:
                t = f.read().strip()
            if t and int(t) not in suspects:
                suspects.append(int(t))
        for i in suspects:
            one_in, one_out = self.fresh('one', 'in'), self.fresh('one', 'out')
            write_nd(one_in, [cases[i]])
            rc1, out1 = run_kvh(cmd, one_in, one_out, 1, 60 + 2 * case_secs, case_secs, env)
            if rc1 not in (0, 2):
                kind = 'does not return' if 'HANG' in out1 else 'kills the process (%s)' % rc1
                raise Violation('the library %s on this case' % kind,
                                {'command': cmd, 'case': cases[i], 'output': out1[-500:]})
        raise ToolError('kvh %s ended with %s: %s' % (cmd, rc, out[-2000:]))

    # ---- trace validation --------------------------------------------------
    def validate(self, module, traces, shards=4, workers=2, note=None, describe=None, heap='3g',
                 count_traces=True, cfg=None, env=None, few=20):
        """Every recorded case must be a behaviour of the trace module."""
        if not traces:
            raise ToolError('no traces to validate')
        shards = max(1, min(shards, len(traces) // few + 1))
        files = []
        for s in range(shards):
            p = self.fresh('trace', 'ndjson')
            write_nd(p, traces[s::shards])
            files.append(p)

        def one(p):
            e = dict(env or {})
            e['CASES'] = p
            return tlc(module, p + '.meta', e, cfg, workers, heap, 800)
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(one, files))
        gen = sum(r.generated for r in rs)
        dist = sum(r.distinct for r in rs)
        self.states += dist
        self.transitions += gen
        if count_traces:
            self.traces += len(traces)
        self.runs.append({'module': module, 'note': note or 'trace validation',
                          'traces': len(traces), 'distinct_states': dist, 'states_generated': gen,
                          'wall_s': round(max(r.wall for r in rs), 1)})
        for p, r in zip(files, rs):
            if r.violated:
                cid = r.alias('case')
                case = next((t for t in traces if str(t['id']) == str(cid).strip('"')), None)
                more = {'input': describe(case['id'], int(r.alias('step')))} if describe and case else {}
                raise Violation('%s: recorded behaviour is not allowed (%s, case %s, step %s%s)'
                                % (module, r.violated, cid, r.alias('step'),
                                   '' if r.alias('why') in (None, '{}') else ': ' + r.alias('why')),
                                {'module': module, 'why': r.alias('why'), 'invariant': r.violated, 'case': case, **more,
                                 'tlc': r.trace[-6000:]})
        for p in files:
            os.remove(p)
        return rs

    def expect_rejected(self, module, trace, note, cfg=None, env=None):
        """Binding self-test: a corrupted record must be rejected."""
        p = self.fresh('corrupt', 'ndjson')
        write_nd(p, [trace])
        e = dict(env or {})
        e['CASES'] = p
        r = tlc(module, p + '.meta', e, cfg, 1, '1g', 300)
        os.remove(p)
        if not r.violated:
            raise ToolError('%s accepts a corrupted record (%s)' % (module, note))
        self.extra.setdefault('corrupted_records_rejected', []).append(
            {'module': module, 'corruption': note})

    def accepts(self, module, trace):
        """Does the trace module allow this record?"""
        p = self.fresh('one', 'ndjson')
        write_nd(p, [trace])
        r = tlc(module, p + '.meta', {'CASES': p}, None, 1, '1g', 300)
        os.remove(p)
        return not r.violated

    def finding(self, slug, what, replay):
        """A violation: known if listed in KNOWN_FINDINGS.txt"""
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
            listed = [l for l in f if l.startswith('known: property=%s %s ' % (self.pid, slug))]
        if not listed:
            raise Violation(what, replay)
        self.known.append(what)

    # ---- outcome -----------------------------------------------------------
    def evidence(self, violations):
        cov = {}
        if self.level == 'model_checking':
            cov = {'states': self.states, 'transitions': self.transitions,
                   'traces_validated_against_impl': self.traces, 'samples': self.samples[:6]}
        else:
            cov = {'samples': self.samples[:6], 'states': self.states,
                   'transitions': self.transitions}
        cov['runs'] = self.runs
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': violations}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)

    def report(self, v):
        d = os.path.join(VERIF, 'work', 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.pid, int(time.time())))
        with open(p, 'w') as f:
            json.dump({'property': self.pid, 'what': v.what, 'seed': self.seed, 'tier': self.tier,
                       'replay': v.replay}, f, indent=1)
        print('%s: %s' % (self.pid, v.what))
        print('VIOLATION property=%s replay=%s' % (self.pid, p))


def write_nd(path, rows):
    with open(path, 'w') as f:
        for r in rows:
            f.write(json.dumps(r, separators=(',', ':')))
            f.write('\n')


def read_nd(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def run_kvh(cmd, cin, cout, threads, timeout, case_secs, env=None):
    env = dict(os.environ, **(env or {}))
    env['KVH_CASE_SECS'] = str(case_secs)
    try:
        p = subprocess.run([KVH, cmd, cin, cout, str(threads)], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        raise ToolError('kvh %s timed out after %d s' % (cmd, timeout))
    out = (p.stdout + p.stderr)[-20000:].decode('utf-8', 'replace')
    return p.returncode, out


def tlc(module, metadir, env=None, cfg=None, workers=8, heap='6g', timeout=800, extra=()):
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t0 = time.time()
    tmp = metadir + '.tmp'
    os.makedirs(tmp, exist_ok=True)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + tmp,
           '-cp', TLACP, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', metadir,
           '-workers', str(workers), '-config', (cfg or module) + '.cfg'] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC %s timed out after %d s' % (module, timeout))
    finally:
        shutil.rmtree(metadir, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
    r = TlcResult()
    r.wall = time.time() - t0
    r.out = p.stdout.decode('utf-8', 'replace')
    m = re.findall(r'(\d+) states generated.*?, (\d+) distinct states found', r.out)
    if m:
        r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.search(r'Error: Invariant (\S+) is violated', r.out)
    if m:
        r.violated = m.group(1)
    m2 = re.search(r'Error: Action property (\S+) is violated', r.out)
    if m2:
        r.violated = m2.group(1)
    if re.search(r'Error: Temporal propert(y|ies) .*violated', r.out):
        r.violated = 'temporal property'
    if r.violated:
        k = r.out.find('The behavior up to this point')
        r.trace = r.out[k:] if k >= 0 else r.out[r.out.find('Error: Invariant'):]
        return r
    if 'Model checking completed. No error has been found.' not in r.out:
        k = r.out.find('Error:')
        raise ToolError('TLC %s failed:\n%s' % (module, r.out[k if k >= 0 else -3000:][:4000]))
    return r


def build(force=True):
    """Build the harness against /repo's current working tree."""
    os.makedirs(os.path.join(VERIF, 'work'), exist_ok=True)
    with open(os.path.join(VERIF, 'work', 'build.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = dict(os.environ)
        env['CARGO_TARGET_DIR'] = os.path.join(HARNESS, 'target')
        env['CARGO_NET_OFFLINE'] = 'true'
        if force:
            subprocess.run(['cargo', 'clean', '--offline', '-p', 'kdbx-rs'], cwd=HARNESS, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        p = subprocess.run(['cargo', 'build', '--offline', '--locked'], cwd=HARNESS, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise ToolError('build failed:\n' + p.stdout.decode('utf-8', 'replace')[-4000:])


def main(pid, fn):
    c = Check(pid)
    try:
        c.prepare()
        fn(c)
    except Violation as v:
        c.evidence(1)
        c.report(v)
        return 1
    except ToolError as e:
        print('%s: TOOL ERROR: %s' % (pid, e))
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        print('%s: TOOL ERROR (exception)' % pid)
        return 2
    for k in c.known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    c.evidence(0)
    print('%s: held (%d states, %d transitions, %d traces, %.1f s)'
          % (pid, c.states, c.transitions, c.traces, time.time() - c.t0))
    shutil.rmtree(c.dir, ignore_errors=True)
    return 0
