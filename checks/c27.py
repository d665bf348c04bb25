"""C27: cached kinematics are equivalent to fresh ones, staleness is caught."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.smt import *
from lib.sym import Explorer, SymBool
from lib import pipeline
import contextlib, io, shutil
patch_sleep()

CTP = 'ikbtbasics/ik_classes.py:check_the_pickle'
KP = 'ikbtbasics/ik_classes.py:kinematics_pickle'


class Entry:
    """one DH table entry: any value, compared by the solver"""
    __slots__ = ('z',)

    def __init__(self, zz):
        self.z = zz

    def __eq__(self, o):
        return SymBool(self.z == o.z) if isinstance(o, Entry) else NotImplemented

    def __ne__(self, o):
        return SymBool(self.z != o.z) if isinstance(o, Entry) else NotImplemented
    __hash__ = None

    def equals(self, o):
        return self == o


class Table:
    def __init__(self, rows, n):
        self.r = rows
        self.shape = (n, 4)
        self.rows, self.cols = n, 4

    def __len__(self):
        return 4 * self.shape[0]

    def __getitem__(self, k):
        if isinstance(k, int):
            k = divmod(k, 4)
        i, j = k
        if isinstance(i, slice) or isinstance(j, slice):
            ii = range(self.shape[0])[i] if isinstance(i, slice) else [i]
            jj = range(4)[j] if isinstance(j, slice) else [j]
            return [self[a, b] for a in ii for b in jj]
        if not (-self.shape[0] <= i < self.shape[0] and -4 <= j < 4):
            raise IndexError(k)
        return self.r[i][j]

    def __iter__(self):
        return iter([x for r in self.r for x in r])

    def tolist(self):
        return [list(r) for r in self.r]

    def __eq__(self, o):
        if not isinstance(o, Table):
            return NotImplemented
        if o.shape != self.shape:
            return False
        return SymBool(z3.And([a.z == b.z for a, b in zip(self, o)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r
    __hash__ = None


def rejected(fn, *a):
    """outcome of the staleness check: False accepted, True rejected"""
    inp = sys.stdin
    sys.stdin = io.StringIO()
    try:
        fn(*a)
    except SystemExit:
        return True
    finally:
        sys.stdin = inp
    return False


def table_case(c, n, m, k, first):
    """n and m rows, at most k entries differ (the first in row `first`)"""
    from ikbtbasics.ik_classes import check_the_pickle
    c.fn(CTP)
    ex = Explorer(c)
    A = [[z3.Int('a%d%d' % (i, j)) for j in range(4)] for i in range(n)]
    B = [[z3.Int('b%d%d' % (i, j)) for j in range(4)] for i in range(m)]

    def concrete(vals):
        def mk(X, p, n):
            return sp.Matrix(n, 4, lambda i, j: sp.Symbol('x_%s' % vals.get('%s%d%d' % (p, i, j), 0)))
        a, b = mk(A, 'a', n), mk(B, 'b', m)
        r = rejected(check_the_pickle, a, b)
        if r == (a == b):
            return '%s table %s against cached %s' % ('rejects the identical' if r else 'accepts the different', b.tolist(), a.tolist())

    def go(ex):
        for X in (A, B):
            for r in X:
                for v in r:
                    ex.names[str(v)] = v
        diffs = [[A[i][j] != B[i][j] for j in range(4)] for i in range(min(n, m))]
        flat = [d for r in diffs for d in r]
        ex.assume(z3.Sum([z3.If(d, 1, 0) for d in flat]) <= k)
        if first is not None:
            ex.assume(z3.And([z3.Not(d) for r in diffs[:first] for d in r]))
            if first < n - 1:
                ex.assume(z3.Or(diffs[first]))
        mk = lambda X: [[Entry(v) for v in r] for r in X]
        return rejected(check_the_pickle, Table(mk(A), n), Table(mk(B), m))
    same = z3.And([A[i][j] == B[i][j] for i in range(n) for j in range(4)]) if n == m else z3.BoolVal(False)
    for st, o in ex.run(go):
        if st != 'ok':
            # not executable on stand-ins: the same question on real tables
            return real_table_case(c, n, m, first)
        ex.witness()
        ex.check(same if not o else z3.Not(same), 'verdict', 'the staleness check', concrete)
        if c.violations:
            return
    c.sample('%dx4 against %dx4, up to %d entries differ' % (n, m, k))


VALUES = [sp.Integer(0), sp.Integer(1), sp.pi / 2, -sp.pi / 2, sp.Symbol('l_1'), -sp.Symbol('l_1'), sp.Symbol('th_1'), sp.Symbol('d_2'), sp.Rational(1, 2), sp.Symbol('l_1') + sp.Symbol('l_2'),
          sp.Float('0.25'), sp.Float('0.250000001'), sp.Float('0.2504'), sp.Float('-0.25'), sp.Float('25.0'), sp.Float('1.5708'), sp.Float('1e-9'), 2 * sp.Symbol('l_1'), sp.Float('2.0000001') * sp.Symbol('l_1'), sp.Symbol('L_1'), sp.Symbol('l_10')]


def real_table_case(c, n, m, row):
    """real matrices; position and values of a differing entry are chosen"""
    from ikbtbasics.ik_classes import check_the_pickle
    c.fn(CTP)
    row = row or 0
    base = sp.Matrix(n, 4, lambda i, j: VALUES[(3 * i + j) % len(VALUES)])
    ex = Explorer(c)

    def go(ex):
        a, b = base.copy(), sp.Matrix(m, 4, lambda i, j: base[i, j] if i < n else 0)
        if n == m:
            j = ex.pick('col', [0, 1, 2, 3])
            a[row, j] = ex.pick('stored', VALUES)
            b[row, j] = ex.pick('asked', VALUES)
        return a, b, rejected(check_the_pickle, a, b)
    for st, o in ex.run(go):
        ex.witness()
        if st != 'ok':
            c.violation('raises', 'the staleness check raises %r' % (o,))
            return
        a, b, r = o
        if r == (a == b):
            c.violation('verdict', 'the staleness check %s table %s against cached %s' % ('rejects the identical' if r else 'accepts the different', b.tolist(), a.tolist()))
            return
    c.sample('real tables, row %d' % row)


def quiet(fn, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a)


def load(name, dh, vv, params, pvals, joints):
    from ikbtbasics.ik_classes import kinematics_pickle
    return quiet(kinematics_pickle, name, sp.Matrix(dh), list(params), dict(pvals), list(vv), pipeline.unknowns_of(joints), False)


def facts(m, R, unks):
    """what later stages use"""
    return dict(
        table=[sp.Matrix(m.DH)], transform=[sp.Matrix(m.T_06)],
        equations=[x for q in R.mequation_list for x in (sp.Matrix(q.Td), sp.Matrix(q.Ts))],
        auxiliary=[sp.Matrix([[e.LHS, e.RHS]]) for e in R.kequation_aux_list],
        params=[str(p) for p in m.params], pvals={str(k): str(v) for k, v in m.pvals.items()},
        unknowns=[(str(u.symbol), u.n, bool(u.solved), str(u.symbol)[:2]) for u in unks],
        lists=[[str(e) for e in l] for l in (R.l1, R.l2, R.l3p)])


def compare(c, sub, a, b, what):
    for k in a:
        if k in ('table', 'transform', 'equations', 'auxiliary'):
            if len(a[k]) != len(b[k]) or any(x.shape != y.shape for x, y in zip(a[k], b[k])):
                c.violation(sub + '/' + k, '%s: %s: %d matrices against %d' % (what, k, len(a[k]), len(b[k])))
                return False
            for i, (x, y) in enumerate(zip(a[k], b[k])):
                for p, (s, t) in enumerate(zip(x, y)):
                    if not prove_equal(c, '%s/%s%d.%d' % (sub, k, i, p), s, t, '%s: %s %d entry %d: cached %s, fresh %s' % (what, k, i, p, t, s)) and c.violations:
                        return False
        elif a[k] != b[k]:
            c.violation(sub + '/' + k, '%s: %s differ: fresh %s, cached %s' % (what, k, a[k], b[k]))
            return False
    return True


def fresh_case(c, name):
    c.fn(KP, CTP)
    dh, vv, params, joints = pipeline.arms()[name]
    from ikbtbasics.ik_classes import check_the_pickle
    pv = {p: 'v%d' % i for i, p in enumerate(params)}
    try:
        r1 = load(name, dh, vv, params, pv, joints)
        r2 = load(name, dh, vv, params, pv, joints)
    except Exception as e:
        c.violation('raises', 'arm %s: %r' % (name, e))
        return
    if rejected(check_the_pickle, r2[0].DH, sp.Matrix(dh)):
        c.violation('rejected', 'arm %s: the cache made from the same table is rejected' % name)
        return
    compare(c, 'fresh', facts(*r1), facts(*r2), 'arm ' + name)
    c.sample('arm %s: cached equals fresh' % name)


l1, l2, d1, d2, d3 = sp.symbols('l_1 l_2 d_1 d_2 d_3')
z4 = [0, 0, 0, 0]


def tables():
    """fast-to-compute prismatic arms differing in one entry"""
    pi = sp.pi
    base = [[0, 0, d1, 0], [pi / 2, l1, d2, pi / 2], [pi / 2, 0, d3, 0], z4, z4, z4]
    var = [(5, 1, l1), (1, 0, -pi / 2), (0, 2, d1 + l1), (1, 1, l2)] if THOROUGH else [(5, 1, l1), (1, 0, -pi / 2)]
    out = [base]
    for i, j, v in var:
        t = [list(r) for r in base]
        t[i][j] = v
        out.append(t)
    return out


def history_case(c, n, t0):
    """n requests for arms by two names, each for one of the tables"""
    from ikbtbasics.ik_classes import check_the_pickle
    c.fn(KP, CTP)
    T = tables()
    ref = {}
    PV = [{}, {l1: 0.5}, {l1: 0.25, l2: 2}]
    args = ([0, 0, 0, 1, 1, 1], [l1, l2])

    def reference(t):
        if t not in ref:
            os.makedirs('ref%d' % t)
            os.chdir('ref%d' % t)
            try:
                ref[t] = facts(*load('Ref', T[t], args[0], args[1], {}, [d1, d2, d3]))
            finally:
                os.chdir('..')
        return ref[t]
    ex = Explorer(c)
    num = [0]

    def go(ex):
        h = []
        for k in range(n):
            nm = ex.pick('name%d' % k, ['A', 'A_2'] if k else ['A'])
            t = ex.pick('table%d' % k, list(range(len(T)))) if k else t0
            h.append((nm, t, (k + t) % len(PV)))
        num[0] += 1
        d = 'h%d' % num[0]
        os.makedirs(d)
        os.chdir(d)
        try:
            made = {}
            for nm, t, p in h:
                m, R, u = load(nm, T[t], args[0], args[1], PV[p], [d1, d2, d3])
                rej = rejected(check_the_pickle, m.DH, sp.Matrix(T[t]))
                if nm in made and made[nm] != t:
                    if not rej:
                        return h, 'the request for %s with table %d uses the cache made from table %d' % (nm, t, made[nm])
                    continue
                made.setdefault(nm, t)
                if rej:
                    return h, 'the request for %s with table %d is rejected' % (nm, t)
                f = facts(m, R, u)
                want = dict(reference(t))
                want['pvals'] = dict(want['pvals'], **{str(k): str(v) for k, v in PV[p].items()})
                if made.get(nm) == t:
                    f['pvals'] = {k: v for k, v in f['pvals'].items() if k in want['pvals'] or k not in ('l_1', 'l_2')}
                if R.name != nm:
                    return h, 'the robot of the request for %s is called %s' % (nm, R.name)
                before = len(c.violations)
                if not compare(c, 'value', want, f, 'history %s: request for %s with table %d and values %s' % (h, nm, t, PV[p])):
                    return h, None
            return h, None
        finally:
            os.chdir('..')
            shutil.rmtree(d)
    for st, o in ex.run(go):
        ex.witness()
        if st != 'ok':
            c.violation('raises', 'a history of requests raises %r' % (o,))
            return
        if o[1]:
            c.violation('history', 'requests (name, table, values) %s: %s' % o)
        if c.violations:
            return
    c.sample('%d histories of %d requests' % (num[0], n))


def rerun_case(c, name):
    """the complete solver run twice: computed, then from the cache"""
    c.fn('ikSolver.py', KP)
    dh, vv, params, joints = pipeline.arms()[name]
    pv = {p: 'p%d' % i for i, p in enumerate(params)}
    out = []
    for k in range(2):
        try:
            g = quiet(pipeline.solve, name, dh, vv, list(params), dict(pv), joints)
        except (Exception, SystemExit) as e:
            c.violation('raises', 'run %d of ikSolver.py on arm %s raises %r' % (k + 1, name, e))
            return
        out.append(g['R'])
    a, b = out
    if [str(p) for p in a.params] != [str(p) for p in b.params]:
        c.violation('params', 'arm %s: parameters %s in the first run, %s in the cached run' % (name, a.params, b.params))
        return
    if {str(k): str(v) for k, v in a.Mech.pvals.items()} != {str(k): str(v) for k, v in b.Mech.pvals.items()}:
        c.violation('pvals', 'arm %s: values %s in the first run, %s in the cached run' % (name, a.Mech.pvals, b.Mech.pvals))
        return
    ma, mb = a.FinalEqnMatrix, b.FinalEqnMatrix
    if [[str(e.LHS) for e in r] for r in ma] != [[str(e.LHS) for e in r] for r in mb]:
        c.violation('solutions', 'arm %s: the cached run solves %s, the first %s' % (name, mb, ma))
        return
    for r1, r2 in zip(ma, mb):
        for x, y in zip(r1, r2):
            if x.RHS != y.RHS:
                prove_equal(c, 'solution/%s' % x.LHS, x.RHS, y.RHS, 'arm %s: %s is %s in the first run and %s in the cached one' % (name, x.LHS, x.RHS, y.RHS))
    c.sample('arm %s: %d equations equal in both runs' % (name, sum(map(len, ma))))


ch = Check('C27', 'check_the_pickle runs on pairs of DH tables whose entries are arbitrary values compared by the solver: accepted exactly when all entries are equal. kinematics_pickle runs on histories of requests (two names, several tables and parameter values, chosen by the solver) in a scratch directory; each returned object is proved equal, entry by entry for all symbol values, to a fresh computation for the requested table, or the stale cache is rejected. The complete solver is run twice on small arms and gives the same parameters and solutions.',
           {'tables': 'up to 7 rows, at most 2 differing entries (thorough 3) anywhere', 'histories': '2 requests (thorough 3), 3 tables (thorough 5)', 'arms': 'RP, RR, TWIST2, PRR (thorough: all small arms)'},
           ['table entries are abstract values with equality (what sympy comparison decides)'])
for n, m in [(1, 1), (6, 6), (3, 3)]:
    for f in range(n):
        ch.case('table/%d/%d' % (n, f), table_case, n, m, 3 if THOROUGH else 2, f)
for n, m in [(6, 5), (5, 6), (1, 6), (6, 7)]:
    ch.case('rows/%d-%d' % (n, m), table_case, n, m, 1, None)
for f in range(6):
    ch.case('real/%d' % f, real_table_case, 6, 6, f)
for t in range(len(tables())):
    ch.case('history/%d' % t, history_case, 3 if THOROUGH else 2, t)
for a in (['RP', 'RR', 'TWIST2', 'PRR'] if not THOROUGH else list(pipeline.arms())):
    ch.case('fresh/' + a, fresh_case, a, )
for a in (['TWIST2', 'RP'] if not THOROUGH else ['TWIST2', 'RP', 'RPR', 'PRR', 'RRR_elbow', 'PLANAR3', 'DIFF']):
    ch.case('rerun/' + a, rerun_case, a)
if __name__ == '__main__':
    sys.exit(ch.run())
