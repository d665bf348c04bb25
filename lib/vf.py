"""Common runner for the solver-based checks.

A check is a list of cases.  A case executes real functions of /repo on
symbolic inputs and discharges obligations with an SMT solver.  Cases run in
forked worker processes.  See DESIGN.md for the conventions.
"""
import os, sys, io, json, time, signal, tempfile, shutil, traceback, contextlib
import multiprocessing as mp

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
os.environ.setdefault('PYTHONHASHSEED', '0')

if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings
warnings.filterwarnings('ignore')

REAL_STDOUT = sys.stdout


def say(*a):
    print(*a, file=REAL_STDOUT, flush=True)


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)

    def writable(self):
        return True


@contextlib.contextmanager
def quiet():
    """Discard what the code under test prints."""
    old, olde = sys.stdout, sys.stderr
    sys.stdout = _Null()
    sys.stderr = _Null()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old, olde


def patch_sleep():
    time.sleep = lambda *_a, **_k: None


class Case:
    """Result collector of one case (lives in the worker)."""

    def __init__(self, key, tier):
        self.key = key
        self.tier = tier
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.forks = 0
        self.validated = 0
        self.witness = 0
        self.violations = []     # dict(key, what, data)
        self.inconclusive = []
        self.nonrepro = []
        self.errors = []
        self.samples = []
        self.functions = set()
        self.notes = []
        self.skipped = []

    def violation(self, sub, what, data=None):
        k = self.key + ('/' + sub if sub else '')
        if any(v['key'] == k for v in self.violations):
            return
        self.violations.append(dict(key=k, what=what, data=data or {}))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def fn(self, *names):
        self.functions.update(names)

    def error(self, what):
        self.errors.append(what)

    def incon(self, sub, what):
        self.inconclusive.append(self.key + '/' + sub + ': ' + what)

    def export(self):
        d = dict(self.__dict__)
        d['functions'] = sorted(self.functions)
        return d


def _worker(conn, key, fn, args, scratch):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    c = Case(key, TIER)
    wd = tempfile.mkdtemp(prefix='case_', dir=scratch)
    os.chdir(wd)
    t = time.time()
    try:
        with quiet():
            fn(c, *args)
    except Exception:
        c.errors.append(traceback.format_exc())
    except SystemExit:
        c.errors.append('SystemExit escaped the case: ' + traceback.format_exc())
    d = c.export()
    d['wall'] = time.time() - t
    try:
        conn.send(d)
    except Exception:
        d['violations'] = [dict(key=v['key'], what=str(v['what']), data=json.loads(json.dumps(v['data'], default=str))) for v in d['violations']]
        d['samples'] = [str(s) for s in d['samples']]
        conn.send(d)
    conn.close()
    os._exit(0)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


class Check:
    def __init__(self, pid, explanation, bounds, assumptions, functions=()):
        self.pid = pid
        self.explanation = explanation
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.functions = set(functions)
        self.cases = []   # (key, fn, args, limit)

    def case(self, key, fn, *args, limit=None):
        assert all(k != key for k, *_ in self.cases), key
        self.cases.append((key, fn, args, limit))

    def run(self, jobs=None, case_limit=None, budget=None):
        only = None
        if '--only' in sys.argv:
            only = sys.argv[sys.argv.index('--only') + 1]
        if '--replay' in sys.argv:
            rp = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
            only = rp['case']
        if only:
            self.cases = [c for c in self.cases if c[0] == only or c[0].startswith(only)]
        if '--list' in sys.argv:
            for c in self.cases:
                say(c[0])
            return 0
        verbose = '-v' in sys.argv
        jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
        case_limit = case_limit or (1500 if THOROUGH else 300)
        budget = budget or (6000 if THOROUGH else 780)
        t0 = time.time()
        scratch = tempfile.mkdtemp(prefix='ikbtv_')
        results = {}
        pending = list(self.cases)
        running = {}
        timed_out = []
        ctx = mp.get_context('fork')
        from multiprocessing.connection import wait as mpwait
        try:
            while pending or running:
                while pending and len(running) < jobs and time.time() - t0 < budget:
                    key, fn, args, limit = pending.pop(0)
                    a, b = ctx.Pipe(False)
                    pr = ctx.Process(target=_worker, args=(b, key, fn, args, scratch))
                    pr.start()
                    b.close()
                    running[a] = (key, pr, time.time(), limit or case_limit)
                if time.time() - t0 >= budget and pending:
                    for key, *_ in pending:
                        timed_out.append(key + ': not started within the time budget')
                    pending = []
                for conn in mpwait(list(running), timeout=0.5):
                    key, pr, ts, lim = running.pop(conn)
                    try:
                        results[key] = conn.recv()
                    except EOFError:
                        results[key] = None
                    pr.join(5)
                    if os.environ.get('VERIF_FAILFAST') and results[key] and results[key]['violations']:
                        pending = []          # mutation runs only: one violation is enough
                    if verbose:
                        r = results[key]
                        say('  case', key, 'wall %.1fs' % (time.time() - ts),
                            'DIED' if r is None else 'q=%d paths=%d viol=%d inc=%d err=%d' % (
                                r['queries'], r['paths'], len(r['violations']), len(r['inconclusive']), len(r['errors'])))
                now = time.time()
                for conn in list(running):
                    key, pr, ts, lim = running[conn]
                    if now - ts > lim or now - t0 > budget + 60:
                        try:
                            os.killpg(pr.pid, signal.SIGKILL)
                        except OSError:
                            pr.kill()
                        pr.join(5)
                        running.pop(conn)
                        timed_out.append(key + ': case time limit %ds' % lim)
                        if verbose:
                            say('  case', key, 'TIMEOUT')
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return self.finish(results, timed_out, time.time() - t0, only)

    def finish(self, results, timed_out, wall, only):
        known = [k for k in load_known() if k['property'] == self.pid]
        tot = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, paths=0, forks=0, validated=0, witness=0)
        viol, incon, errs, samples, notes, nonrepro, skipped = [], list(timed_out), [], [], [], [], []
        fns = set(self.functions)
        died = []
        for key, r in results.items():
            if r is None:
                died.append(key)
                continue
            for k in tot:
                tot[k] += r[k]
            for v in r['violations']:
                v['case'] = key
                viol.append(v)
            incon += r['inconclusive']
            errs += [key + ': ' + e for e in r['errors']]
            nonrepro += r['nonrepro']
            if len(samples) < 8:
                samples += [dict(case=key, sample=s) for s in r['samples'][:1]]
            fns.update(r['functions'])
            notes += r['notes']
            skipped += r['skipped']
        incon += [d + ': worker died' for d in died]
        kn = {k['key']: k for k in known}
        new = [v for v in viol if v['key'] not in kn]
        seen_known = [v for v in viol if v['key'] in kn]
        for v in seen_known:
            say('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, kn[v['key']]['what'], v['key']))
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + '-'):
                os.unlink(os.path.join(rdir, f))
        for i, v in enumerate(new[:20]):
            path = os.path.join(rdir, '%s-%d.json' % (self.pid, i))
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, case=v['case'], key=v['key'], what=v['what'], data=v['data'],
                               how='python3-vt checks/%s.py --replay %s' % (self.pid.lower(), path)),
                          f, indent=1, default=str)
            say('VIOLATION property=%s replay=%s' % (self.pid, path))
            say('   ', v['key'], '--', str(v['what'])[:400])
        for x in incon[:20]:
            say('INCONCLUSIVE', x[:300])
        for x in nonrepro[:20]:
            say('NOT-REPRODUCED', x[:300])
        for x in errs[:4]:
            say('ERROR', x[-900:])
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level='model_checking',
                  coverage=dict(
                      explanation=self.explanation,
                      bounds=self.bounds,
                      functions_encoded=sorted(fns),
                      cases=len(results),
                      states=max(tot['paths'], 0),
                      transitions=tot['forks'] + tot['queries'],
                      symbolic_paths=tot['paths'], branch_decisions=tot['forks'],
                      solver_queries=tot['queries'], solver_unsat=tot['unsat'], solver_sat=tot['sat'],
                      solver_unknown=tot['unknown'], solver_seconds=round(tot['solver_s'], 3),
                      reachability_witnesses=tot['witness'],
                      traces_validated_against_impl=tot['validated'],
                      inconclusive=incon[:50], counterexamples_not_reproduced=nonrepro[:50],
                      outside_the_encoding=sorted(set(skipped))[:50],
                      known_findings=[v['key'] for v in seen_known],
                      samples=samples[:8], notes=sorted(set(notes))[:20]),
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(new))
        if not only:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=str)
        say('%s %s: cases=%d paths=%d queries=%d unsat=%d sat=%d unknown=%d solver=%.1fs validated=%d witnesses=%d inconclusive=%d violations=%d known=%d wall=%.1fs' % (
            self.pid, TIER, len(results), tot['paths'], tot['queries'], tot['unsat'], tot['sat'], tot['unknown'],
            tot['solver_s'], tot['validated'], tot['witness'], len(incon), len(new), len(seen_known), wall))
        if new:
            return 1
        if errs or nonrepro:
            return 2
        if not results or tot['queries'] == 0 or tot['witness'] == 0:
            say('ERROR vacuous run')
            return 2
        return 0
