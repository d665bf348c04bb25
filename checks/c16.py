"""C16: solution sets enumerate every consistent branch combination once."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.sym import *
import sympy as sp
import itertools
patch_sleep()

NAMES = ['th_1', 'th_23', 'd_3', 'th_4', 'th_2', 'th_12', 'd_1', 'th_3']


def build(ns, order, mask=None):
    """real solve history: unknown c has ns[c] solutions, each an arbitrary
    function (a distinct uninterpreted symbol) of every unknown solved before,
    or of those d for which mask(c, branch, d) holds"""
    from ikbtbasics.kin_cl import unknown
    from ikbtbasics.ik_classes import Robot
    R = Robot()
    unks = [unknown(sp.Symbol(NAMES[i])) for i in order]
    done = []
    for c, u in enumerate(unks):
        u.solutions = [sp.Function('f_%d_%d' % (c, b))(sp.Symbol('Px'), *[d.symbol for i, d in enumerate(done) if mask is None or mask(c, b, i)]) for b in range(ns[c])]
        u.solvemethod = 'algebra'
        u.set_solved(R, unks)
        done.append(u)
    R.create_solution_set()
    R.make_LHS_versions()
    return R, unks


U = z3.DeclareSort('Value')


class ToZ3:
    def __init__(self):
        self.f = {}
        self.v = {}

    def var(self, n):
        if n not in self.v:
            self.v[n] = z3.Const(n, U)
        return self.v[n]

    def __call__(self, e):
        if e.is_Symbol:
            return self.var(str(e))
        assert isinstance(e.func, sp.core.function.UndefinedFunction), e
        args = [self(a) for a in e.args]
        k = (str(e.func), len(args))
        if k not in self.f:
            self.f[k] = z3.Function(k[0], *([U] * (len(args) + 1)))
        return self.f[k](*args)


def obligations(R, unks, ns):
    """list of (sub, what, hypotheses, goal, concrete)"""
    t = ToZ3()
    rows = [[str(x) for x in r] for r in R.solListMatrix]
    n = len(unks)
    total = 1
    for k in ns:
        total *= k
    out = []
    if len(rows) != total or len(R.FinalEqnMatrix) != total:
        return [('count', '%d poses and %d versions for %d branch combinations' % (len(rows), len(R.FinalEqnMatrix), total), [], z3.BoolVal(False))], t
    if len(set(map(tuple, rows))) != total or R.solutionSet != set(tuple(r) for r in R.solListMatrix):
        out.append(('set', 'solution set does not hold the %d poses' % total, [], z3.BoolVal(False)))
    defs = {}
    hyps = []
    for r, row in enumerate(R.FinalEqnMatrix):
        for c, e in enumerate(row):
            nm = str(e.LHS)
            if nm in defs:
                out.append(('defs', 'name %s is defined twice' % nm, [], z3.BoolVal(False)))
            defs[nm] = (r, c, e.RHS)
            hyps.append(t.var(nm) == t(e.RHS))
    # every name a pose refers to is defined; its equation speaks of that pose only
    for r, row in enumerate(rows):
        if len(row) != n:
            out.append(('shape', 'pose %d has %d entries for %d unknowns' % (r, len(row), n), [], z3.BoolVal(False)))
            return out, t
        for c, nm in enumerate(row):
            if nm not in defs:
                out.append(('undefined', 'pose %d refers to %s which no equation defines' % (r, nm), [], z3.BoolVal(False)))
                continue
            if defs[nm][1] != c:
                out.append(('column', 'pose %d has %s in the place of %s' % (r, nm, unks[c].name), [], z3.BoolVal(False)))
            used = {str(s) for s in defs[nm][2].free_symbols} - {'Px'}
            if not used <= set(row[:c]):
                out.append(('foreign', 'pose %d: equation of %s uses %s which are not of that pose' % (r, nm, sorted(used - set(row[:c]))), [], z3.BoolVal(False)))
    # every branch combination (solver variables) is the value of some pose
    beta = [z3.Int('beta_%s' % u.name) for u in unks]
    X = {}
    for c, u in enumerate(unks):
        val = None
        for b in reversed(range(ns[c])):
            e = u.solutions[b]
            f = t(e)
            f = z3.substitute(f, *[(t.var(d), X[d]) for d in X]) if X else f
            val = f if val is None else z3.If(beta[c] == b, f, val)
        x = z3.Const('X_%s' % u.name, U)
        hyps += [x == val, beta[c] >= 0, beta[c] < ns[c]]
        X[u.name] = x
    pose = [z3.And([t.var(nm) == X[unks[c].name] for c, nm in enumerate(row)]) for row in rows]
    out.append(('combination', 'some branch combination is the value of no pose', hyps, z3.Or(pose)))
    # every pose value of every unknown is one of its solved branches there
    for r, row in enumerate(rows):
        for c, u in enumerate(unks):
            br = []
            for b in range(ns[c]):
                f = t(u.solutions[b])
                br.append(t.var(row[c]) == z3.substitute(f, *[(t.var(unks[d].name), t.var(row[d])) for d in range(n)]))
            out.append(('branch', 'pose %d: %s is not one of the branches of %s at that pose' % (r, row[c], u.name), hyps, z3.Or(br)))
    return out, t


def concrete(ns, order, seed, mask=None):
    """the same statements on concrete numbers (replay)"""
    import random
    R, unks = build(ns, order, mask)
    rows = [[str(x) for x in r] for r in R.solListMatrix]
    total = 1
    for k in ns:
        total *= k
    if len(rows) != total:
        return '%d poses for branch counts %s' % (len(rows), ns)
    rng = random.Random(seed)
    memo = {}

    def F(name, args):
        return memo.setdefault((name, args), rng.random())

    def ev(e, env):
        if e.is_Symbol:
            return env[str(e)]
        return F(str(e.func), tuple(ev(a, env) for a in e.args))
    env = {'Px': 0.3}
    eq = {str(e.LHS): e.RHS for row in R.FinalEqnMatrix for e in row}

    def val(nm):
        if nm not in env:
            e = eq[nm]
            for s in e.free_symbols:
                val(str(s))
            env[nm] = ev(e, env)
        return env[nm]
    got = []
    for row in rows:
        try:
            got.append(tuple(val(nm) for nm in row))
        except (KeyError, RecursionError) as x:
            return 'pose %s refers to an undefined name %s (branch counts %s in solve order)' % (row, x, ns)
    want = []
    for br in itertools.product(*[range(k) for k in ns]):
        e2 = {'Px': 0.3}
        for c, u in enumerate(unks):
            e2[u.name] = ev(u.solutions[br[c]], e2)
        want.append(tuple(e2[u.name] for u in unks))
    if sorted(got) != sorted(want):
        miss = len(set(want) - set(got))
        return '%d of the %d branch combinations are missing from the poses (branch counts %s in solve order)' % (miss, total, ns)
    return None


PATTERNS = {
    'all': lambda c, b, d: True,
    'none': lambda c, b, d: False,
    'previous': lambda c, b, d: d == c - 1,
    'first': lambda c, b, d: d == 0,
    'not the previous': lambda c, b, d: d != c - 1,
    'second branch only': lambda c, b, d: b == 1,
    'first branch only': lambda c, b, d: b == 0,
    'every other': lambda c, b, d: (c + d) % 2 == 0,
    'last alone': lambda c, b, d: c == 1 or d == 0 and c % 2 == 1,
}


def mask_of(n, mode, pick):
    """the dependency pattern: one of the named ones or any subset of the earlier unknowns for each"""
    if mode == 'named':
        return PATTERNS[pick('pattern', sorted(PATTERNS))]
    if mode == 'any':
        m = {(c, d): pick('dep%d_%d' % (c, d), [True, False]) for c in range(1, n) for d in range(c)}
        return lambda c, b, d: m[c, d]
    return None


def hist_case(c, n, order, mode):
    c.fn('ikbtbasics/ik_classes.py:Robot.create_solution_set', 'ikbtbasics/ik_classes.py:Robot.make_LHS_versions', 'ikbtbasics/kin_cl.py:unknown.set_solved')
    ex = Explorer(c)

    for kind, val in ex.run(lambda e: (lambda ns: (ns, build(ns, order, mask_of(n, mode, e.pick))))([e.pick('n%d' % i, [1, 2]) for i in range(n)])):
        m = ex.witness()
        ns = [[1, 2][int(m.get('n%d' % i, 0))] for i in range(n)]
        mask = mask_of(n, mode, lambda name, opts: opts[int(m.get(name, 0))])
        if kind != 'ok':
            c.violation('raises', 'branch counts %s: %r' % (ns, val))
            return
        ns, (R, unks) = val
        obs, t = obligations(R, unks, ns)
        if not ex._chk() == z3.sat:
            c.error('path became infeasible')
        groups = {}
        for sub, what, hyps, goal in obs:
            groups.setdefault(sub, []).append((what, hyps, goal))
        for sub, gs in groups.items():
            ex.solver.push()
            for h in gs[0][1]:
                ex.solver.add(h)
            if ex._chk() != z3.sat:
                c.error('vacuous hypotheses')
            bad = next((w for w, _, g in gs if z3.is_false(g)), gs[0][0])
            ex.check(z3.And([g for _, _, g in gs]), sub, bad, lambda vals: concrete(ns, order, 5, mask) or structural(R, unks, ns, bad, gs))
            ex.solver.pop()
        if c.violations:
            return
        if concrete(ns, order, 7, mask) is None:
            c.validated += 1
        else:
            c.error('concrete evaluation disagrees with the solver: %s' % concrete(ns, order, 7, mask))
    c.sample('%d unknowns, every branch count in {1,2}, solutions arbitrary functions of %s earlier unknowns' % (n, {'named': 'patterns of', 'any': 'any subset of the'}.get(mode, 'all')))


def structural(R, unks, ns, what, gs):
    """facts about the concrete lists themselves need no further replay"""
    return what + ' (branch counts %s)' % (ns,) if any(z3.is_false(g) for _, _, g in gs) else None


N = 6 if not THOROUGH else 8
chk = Check('C16',
            'create_solution_set and make_LHS_versions of the real Robot run after real set_solved histories whose branch counts are symbolic and whose solutions are arbitrary '
            '(uninterpreted) functions of all unknowns solved before, and of subsets of them (every subset for few unknowns, named patterns for more); the solver decides that every branch combination (symbolic choice per unknown) '
            'is the value of a pose, that the number of poses is the number of combinations (so each occurs once), and that every pose entry is a solved branch evaluated at the same pose.',
            dict(unknowns='1..%d' % N, branches='1 or 2 each (what the solvers produce)', solutions='arbitrary functions of the earlier unknowns', orders='solve orders mixing single and compound names'),
            ['solutions depend on earlier solved unknowns only (set_solved asserts it)', 'more than two branches per unknown do not occur'])
orders = [list(range(8)), [4, 0, 1, 7, 3, 2, 5, 6], [3, 1, 2, 0, 5, 4, 7, 6]]
for n in range(1, N + 1):
    for k, o in enumerate(orders):
        if n >= 6 and k and not THOROUGH:
            continue
        chk.case('n%d/o%d' % (n, k), hist_case, n, o[:n], None)
for n in (2, 3) + ((4,) if THOROUGH else ()):
    chk.case('any%d' % n, hist_case, n, orders[1][:n], 'any')
for n in (4,) + ((5,) if THOROUGH else ()):
    chk.case('named%d' % n, hist_case, n, orders[2][:n], 'named')
sys.exit(chk.run())
