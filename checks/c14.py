"""C14: solved unknowns are recorded consistently."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.sym import *
import sympy as sp
patch_sleep()

NAMES = ['th_1', 'th_12', 'd_3', 'th_123', 'th_2', 'd_1']
PAR = sp.symbols('Px l_1 r_11 r_12')


class In:
    def __init__(self, ex=None, values=None):
        self.ex, self.v = ex, values

    def pick(self, name, opts):
        if self.ex is not None:
            return self.ex.pick(name, opts)
        return opts[int(self.v.get(name, 0))]

    def flag(self, name):
        """(python bool, z3 truth)"""
        b = z3.Bool(name)
        if self.ex is not None:
            return self.ex.flag(name), b
        v = bool(self.v.get(name, False))
        return v, z3.BoolVal(v)


SHAPES = [lambda a, d: sp.asin(a + sum(sp.cos(x) for x in d)),
          lambda a, d: a - sum(d) if d else a,
          lambda a, d: sp.atan2(sp.Mul(a, *[sp.sin(x) for x in d]), a),
          lambda a, d: sp.pi - sp.acos(sp.Mul(a, *[sp.cos(x + 1) for x in d]))]


def observe(w, n, maxsol, own, stray):
    """(sub, what, goal) after every solved unknown of a symbolic history"""
    from ikbtbasics.kin_cl import unknown
    from ikbtbasics.ik_classes import Robot
    R = Robot()
    unks = [unknown(sp.Symbol(NAMES[i])) for i in range(n)]
    extra = unknown(sp.Symbol('th_4'))
    board = unks + [extra]            # one unknown never gets solved
    out = []
    done = []
    truth = {}
    snap = {}

    def want(cond, sub, what):
        out.append((sub, what, cond if z3.is_expr(cond) else z3.BoolVal(bool(cond))))
    for k, u in enumerate(unks):
        ns = w.pick('n%d' % k, list(range(1, maxsol + 1)))
        sols = []
        carrier = w.pick('c%d' % k, list(range(ns))) if not own else None
        for b in range(ns):
            mine = []
            for d in done:
                if own or b == carrier:
                    f, zf = w.flag('dep%d_%d_%s' % (k, b if own else 0, d.name))
                    truth.setdefault((u.name, d.name), []).append(zf)
                    if f:
                        mine.append(d.symbol)
            sols.append(SHAPES[(k + b) % 4](PAR[(k + b) % 4] * (b + 1), mine))
        if stray and k == n - 1:
            sols[-1] = sols[-1] + extra.symbol
        u.solutions = list(sols)
        try:
            u.set_solved(R, board)
        except AssertionError:
            want(stray and k == n - 1, 'refused', 'solutions of %s, which depend on solved unknowns only, are refused' % u.name)
            return out
        want(not (stray and k == n - 1), 'stray', 'a solution of %s that needs an unsolved unknown is accepted' % u.name)
        done.append(u)
        deps = {(u.name, d): z3.Or(truth.get((u.name, d.name), [z3.BoolVal(False)])) for d in done[:-1]}
        want(u.solved and not u.readytosolve, 'flags', '%s is not marked solved' % u.name)
        want(u.solveorder == k + 1 and R.solveN == k + 1, 'order', '%s is solved %d-th but has solve order %s' % (u.name, k + 1, u.solveorder))
        want(u.solutions == sols and u.nsolutions == ns, 'nsol', '%s has %d solutions, recorded %s' % (u.name, ns, u.nsolutions))
        want([x.unknown is y for x, y in zip(R.solution_nodes, done)] == [True] * len(done) and len(R.solution_nodes) == len(done)
             and [str(x.symbol) for x in R.solution_nodes] == [y.name for y in done], 'nodes', 'solution nodes are not the solved unknowns in solve order after %s' % u.name)
        want(len(u.solutionNames) == ns and len(set(u.solutionNames)) == ns, 'names', '%s: names %s for %d solutions' % (u.name, u.solutionNames, ns))
        for d in board:
            isdep = deps.get((u.name, d), z3.BoolVal(False))
            want(isdep == z3.BoolVal(d in u.dependencies), 'deps', '%s: dependency on %s recorded as %s' % (u.name, d.name, d in u.dependencies))
        nv = z3.IntVal(ns)
        for d in done[:-1]:
            nv = nv * z3.If(deps[(u.name, d)], z3.IntVal(d.nsolutions), z3.IntVal(1))
        want(z3.IntVal(u.nversions) == nv, 'versions', '%s: %d versions recorded' % (u.name, u.nversions))
        want(len(u.versionNames) == u.nversions and all(u.versionNames.count(x) * ns == u.nversions for x in u.solutionNames), 'vnames', '%s: version names %s' % (u.name, u.versionNames[:8]))
        edges = list(R.notation_graph_edges)
        n_edges = z3.Sum([z3.If(z3.Or(t), 1, 0) for t in truth.values()] or [z3.IntVal(0)])
        want(z3.IntVal(len(edges)) == n_edges, 'edges', '%d edges after solving %s' % (len(edges), u.name))
        for d in done[:-1]:
            here = [e for e in edges if e.StartNode is u and e.dependsOn is d]
            want(deps[(u.name, d)] == z3.BoolVal(len(here) == 1), 'edge', 'edge %s->%s' % (u.name, d.name))
        want(all(e.StartNode in done and e.dependsOn in done and e.StartNode.solveorder > e.dependsOn.solveorder for e in edges), 'acyclic', 'an edge does not point to an earlier solved unknown')
        for v in done[:-1]:
            want(snap[v.name] == state(v), 'frozen', 'solving %s changes the record of %s' % (u.name, v.name))
        want(not extra.solved and extra.solveorder == 0 and not extra.dependencies, 'others', 'solving %s marks another unknown' % u.name)
        snap[u.name] = state(u)
    return out


def state(u):
    return (u.solved, u.solveorder, tuple(u.solutions), tuple(u.solutionNames), tuple(u.versionNames), u.nversions, u.nsolutions, frozenset(d.name for d in u.dependencies))


def hist_case(c, n, maxsol, own, stray, fixed):
    c.fn('ikbtbasics/kin_cl.py:unknown.set_solved', 'ikbtfunctions/helperfunctions.py:get_deps', 'ikbtbasics/solutionGraphV3.py:Node', 'ikbtbasics/solutionGraphV3.py:Edge')

    def replay(vals):
        try:
            for sub, what, g in observe(In(values=vals), n, maxsol, own, stray):
                if z3.is_false(z3.simplify(g)):
                    return what
        except Exception as e:
            return 'raises %r' % (e,)
        return None
    ex = Explorer(c)

    def body(e):
        w = In(e)
        for k, v in fixed.items():
            e.pick(k, list(range(v[1])))
            if e.store[('pick', k)] != v[0]:
                raise PathAbort()
        return observe(w, n, maxsol, own, stray)
    k = 0
    for kind, val in ex.run(body):
        if kind != 'ok':
            m = ex.witness()
            c.violation('raises', replay(m) or 'raises %r' % (val,))
            return
        if not ex.check(z3.And([g for _, _, g in val]), 'record', 'record after the history', replay):
            if c.violations:
                return
        k += 1
        if k % 50 == 1:
            m = ex.witness()
            if replay(m) is None:
                c.validated += 1
    c.sample('%d unknowns, %d histories' % (n, k))


chk = Check('C14',
            'the real set_solved runs over symbolic solve histories: the number of solutions of each unknown and, per solution, which earlier unknowns it mentions are solver variables; '
            'after every step the solver decides that order, names, dependencies, version counts, nodes and edges are what the statement says and that earlier records are untouched.',
            dict(unknowns='3 with dependencies chosen separately per solution, %d with one dependency-carrying solution each' % (4 if not THOROUGH else 5), solutions='1..3 per unknown (1..2 for the longer histories)'),
            ['solution expressions are drawn from four shapes (asin of a sum, a difference, atan2 of a product, pi - acos) with the chosen unknowns in them'])
for a in range(2):
    for b in range(2):
        chk.case('own/3/%d%d' % (a, b), hist_case, 3, 2, True, False, {'n0': (a, 2), 'n1': (b, 2)})
for a in range(3):
    chk.case('two/%d' % a, hist_case, 2, 3, True, False, {'n0': (a, 3)})
    chk.case('shared/3/%d' % a, hist_case, 3, 3, False, False, {'n0': (a, 3)})
for a in range(2):
    for b in range(2):
        for d in range(2):
            chk.case('shared/4/%d%d%d' % (a, b, d), hist_case, 4, 2, False, False, {'n0': (a, 2), 'n1': (b, 2), 'n2': (d, 2)})
            if THOROUGH:
                for e in range(2):
                    chk.case('shared/5/%d%d%d%d' % (a, b, d, e), hist_case, 5, 2, False, False, {'n0': (a, 2), 'n1': (b, 2), 'n2': (d, 2), 'n3': (e, 2)})
for n in (1, 2, 3):
    chk.case('stray/%d' % n, hist_case, n, 2, False, True, {})
sys.exit(chk.run())
