"""C15: competing solver results are ranked correctly."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.sym import *
import sympy as sp
import b3
patch_sleep()


class In:
    def __init__(self, ex=None, values=None):
        self.ex, self.v = ex, values

    def pick(self, name, opts):
        if self.ex is not None:
            return self.ex.pick(name, opts)
        return opts[int(self.v.get(name, 0))]

    def flag(self, name):
        b = z3.Bool(name)
        if self.ex is not None:
            return self.ex.flag(name), b
        v = bool(self.v.get(name, False))
        return v, z3.BoolVal(v)


KNOWN = ['th_1', 'th_23', 'd_3', 'th_2']


def observe(w, maxn, m, ticks):
    from ikbtbasics.kin_cl import unknown, kequation
    from ikbtbasics.ik_classes import Robot
    from ikbtleaves.rank_leaf import rank
    out = []

    def want(cond, sub, what):
        out.append((sub, what, cond if z3.is_expr(cond) else z3.BoolVal(bool(cond))))
    R = Robot()
    Px, Py, l1 = sp.symbols('Px Py l_1')
    known = [unknown(sp.Symbol(n)) for n in KNOWN[:m]]
    u = unknown(sp.Symbol('th_5'))
    other = unknown(sp.Symbol('th_6'))
    where = w.pick('where', [0, 1, 2, 3])         # order of the board
    board = [other, u] + known if where == 3 else known[:]
    if where < 3:
        board.insert([0, len(board), 1][where], u)
        board.append(other)
    for k in known:
        k.solutions = [Px]
        k.set_solved(R, board)
    n_sc = w.pick('n_sc', list(range(maxn + 1)))
    n_tan = w.pick('n_tan', list(range(maxn + 1)))
    cnt = {}

    def expr(tag, f):
        fl = [w.flag('%s_%d' % (tag, i)) for i in range(m)]
        cnt[tag] = z3.Sum([z3.If(z_, 1, 0) for _, z_ in fl]) if m else z3.IntVal(0)
        arg = l1
        for (on, _), k in zip(fl, known):
            if on:
                arg = arg + sp.cos(k.symbol)
        return f(arg)
    # what the two solver leaves leave behind (both append to u.solutions)
    sc_first = w.pick('first', [0, 1])
    if n_sc and n_tan:
        a_sc, a_tan = expr('sc', lambda a: sp.asin(a / Px)), expr('tan', lambda a: sp.atan2(Py, a))
    else:
        a_sc, a_tan = sp.asin(l1 / Px), sp.atan2(Py, l1)
    u.sincos_solutions = [a_sc, sp.pi - a_sc, a_sc + 1, a_sc + 2][:n_sc]
    u.tan_solutions = [a_tan, a_tan + sp.pi, a_tan + 3, a_tan + 4][:n_tan]
    e_sc, e_t1, e_t2 = kequation(sp.S.Zero, sp.sin(u.symbol) - Px), kequation(sp.S.Zero, sp.sin(u.symbol) - Py), kequation(sp.S.Zero, sp.cos(u.symbol) - l1)
    u.solvable_sincos = n_sc > 0 or w.pick('sc_claim', [False, True])
    u.solvable_tan = n_tan > 0 or w.pick('tan_claim', [False, True])
    if n_sc:
        u.sincos_eqnlist = [e_sc]
    if n_tan:
        u.tan_eqnlist = [e_t1, e_t2]
    meth = []
    for who in ([0, 1] if sc_first else [1, 0]):
        if who == 0 and u.solvable_sincos:
            u.eqntosolve = e_sc
            meth.append('arcsin')
            u.solutions += u.sincos_solutions
            u.nsolutions = n_sc or u.nsolutions
        if who == 1 and u.solvable_tan:
            u.eqntosolve, u.secondeqn = e_t1, e_t2
            meth.append('atan2(y,x)')
            u.solutions += u.tan_solutions
            u.nsolutions = n_tan or u.nsolutions
    u.solvemethod = ', '.join(meth)
    sc, tan = list(u.sincos_solutions), list(u.tan_solutions)
    bb = b3.Blackboard()
    bb.set('curr_unk', u)
    bb.set('unknowns', board)
    bb.set('Robot', R)
    tree = b3.BehaviorTree()
    tree.root = rank()
    st = tree.tick('x', bb)
    v = bb.get('curr_unk')
    want(v is u and bb.get('Robot') is R and len(bb.get('unknowns')) == m + 2, 'board', 'the blackboard does not hold the same unknown, robot and list')
    want(not other.solved and not other.solutions, 'others', 'another unknown is changed')
    got_sc = u.solved and list(u.solutions) == sc
    got_tan = u.solved and list(u.solutions) == tan
    if not n_sc and not n_tan:
        want(not u.solved and R.solveN == m and len(R.solution_nodes) == m, 'none', 'marked solved although no solver produced a solution')
        return out
    want(u.solved and R.solveN == m + 1 and u.solveorder == m + 1 and [x.unknown is u for x in R.solution_nodes].count(True) == 1, 'once', 'the unknown is not marked solved exactly once')
    want(len(u.solutions) == u.nsolutions and len(u.solutionNames) == u.nsolutions, 'count', '%d solutions adopted, count is %s' % (len(u.solutions), u.nsolutions))
    if n_sc and n_tan:
        sc_wins = z3.Or(z3.BoolVal(n_sc < n_tan), z3.And(z3.BoolVal(n_sc == n_tan), cnt['sc'] < cnt['tan']))
        want(z3.BoolVal(got_sc) == sc_wins, 'choice', '%d arcsin/arccos branches against %d arctangent branches: adopted %s' % (n_sc, n_tan, u.solutions))
        want(z3.BoolVal(got_tan) == z3.Not(sc_wins), 'choice', '%d arcsin/arccos branches against %d arctangent branches: adopted %s' % (n_sc, n_tan, u.solutions))
    else:
        want(got_sc if n_sc else got_tan, 'single', 'the only available solution is not adopted: %s' % (u.solutions,))
    if got_sc and not (n_sc and n_tan and sc == tan):
        want(u.eqntosolve == e_sc, 'eqn', 'source equation of an arcsin/arccos solution is %s' % (u.eqntosolve,))
        want('arcsin' in u.solvemethod or 'sin or cos' in u.solvemethod, 'method', 'method %r for an arcsin/arccos solution' % u.solvemethod)
        if n_sc and n_tan:
            want('sin or cos' in u.solvemethod.split('best ranked')[-1] and 'atan2' not in u.solvemethod.split('best ranked')[-1], 'method', 'method %r for an arcsin/arccos solution' % u.solvemethod)
    elif got_tan:
        want(u.eqntosolve == e_t1 and u.secondeqn == e_t2, 'eqn', 'source equations of an arctangent solution are %s, %s' % (u.eqntosolve, u.secondeqn))
        want('atan2' in u.solvemethod, 'method', 'method %r for an arctangent solution' % u.solvemethod)
        if n_sc and n_tan:
            want('atan2' in u.solvemethod.split('best ranked')[-1] and 'sin or cos' not in u.solvemethod.split('best ranked')[-1], 'method', 'method %r for an arctangent solution' % u.solvemethod)
    if ticks > 1:
        n0 = (R.solveN, len(R.solution_nodes))
        want(n0 == (m + 1, m + 1), 'twice', 'solved more than once')
    return out


def rank_case(c, maxn, m, fixed):
    c.fn('ikbtleaves/rank_leaf.py:rank.tick', 'ikbtleaves/rank_leaf.py:count_variables', 'ikbtbasics/kin_cl.py:unknown.set_solved')

    def replay(vals):
        try:
            for sub, what, g in observe(In(values=vals), maxn, m, 1):
                if z3.is_false(z3.simplify(g)):
                    return what
        except Exception as e:
            return 'raises %r' % (e,)
        return None
    ex = Explorer(c)

    def body(e):
        for k, (v, opts) in fixed.items():
            e.pick(k, list(range(opts)))
            if e.store[('pick', k)] != v:
                raise PathAbort()
        return observe(In(e), maxn, m, 1)
    k = 0
    for kind, val in ex.run(body):
        if kind != 'ok':
            c.violation('raises', replay(ex.witness()) or 'raises %r' % (val,))
            return
        for sub, what, g in val:
            if not z3.is_true(z3.simplify(g)):
                ex.check(g, sub, what, replay)
        ex.check(z3.And([g for _, _, g in val]), 'rank', 'adopted solution', replay)
        if c.violations:
            return
        k += 1
        if k % 20 == 1 and replay(ex.witness()) is None:
            c.validated += 1
    c.sample('%d paths' % k)


MAXN = 3 if not THOROUGH else 4
M = 3 if not THOROUGH else 4
chk = Check('C15',
            'the real rank leaf is ticked in a real behaviour tree on an unknown whose competing solutions are symbolic: how many branches each solver produced, which solved unknowns each solution mentions, '
            'whether a solver claimed without producing, order of the solvers and order of the board; the solver decides the adopted set against the stated rule and the agreement of the recorded fields.',
            dict(branches='0..%d per solver' % MAXN, known_unknowns=M, per_solution='any subset of them'),
            ['the equation counts that enter the tie-break are those of the first branch of each solver, as all branches of one solver come from the same equation'])
for w in range(4):
    for a in range(MAXN + 1):
        for b in range(MAXN + 1):
            if True:
                chk.case('w%d/sc%d/tan%d' % (w, a, b), rank_case, MAXN, M, {'where': (w, 4), 'n_sc': (a, MAXN + 1), 'n_tan': (b, MAXN + 1)})
sys.exit(chk.run())
