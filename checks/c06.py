"""C06: equations are sorted by number of unsolved unknowns, none lost."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.sym import *
from lib import arms
import sympy as sp
import b3
patch_sleep()

r_11, r_13, Px, Py, Pz, l_1, l_2, th_1, th_2, d_3, th_23, th_3 = sp.symbols('r_11 r_13 Px Py Pz l_1 l_2 th_1 th_2 d_3 th_23 th_3')
sin, cos, O, I1 = sp.sin, sp.cos, sp.S.Zero, sp.S.One
UN = [th_1, th_2, d_3, th_23]


class In:
    def __init__(self, ex=None, values=None):
        self.ex, self.v = ex, values

    def pick(self, name, opts):
        if self.ex is not None:
            return self.ex.pick(name, opts)
        return opts[int(self.v.get(name, 0))]

    def flag(self, name):
        if self.ex is not None:
            return self.ex.flag(name), z3.Bool(name)
        v = bool(self.v.get(name, False))
        return v, z3.BoolVal(v)


# equations (lhs, rhs); which unknowns occur is computed from the equation
POOL = [(r_11, cos(th_1)), (r_11, cos(th_1) * sin(th_2)), (Px, d_3 * sin(th_23) + l_1 * cos(th_1)), (O, O), (Pz, l_1), (Px * cos(th_1) + Py * sin(th_1), l_2 * cos(th_2) + d_3),
        (Px * sin(th_1) - Py * cos(th_1), l_1 * sin(th_1)), (d_3, Pz - l_1), (th_1 + th_2, th_1 + Px), (r_13, sin(th_1) * sin(th_2) * d_3 * cos(th_23)), (cos(th_1), r_11), (-r_11, -cos(th_1)),
        (Pz, d_3 * cos(th_2 + l_1) + l_2), (r_13 * cos(th_1), sin(th_23) * cos(th_23) * sin(th_1)), (Py, d_3 * sin(th_2) * sin(th_1)), (l_1 * sin(th_1), l_1 * sin(th_1) + Px)]
FIX1 = [(r_11, cos(th_1) * cos(th_23)), (r_13, -sin(th_2)), (Pz, d_3 + l_1), (Px, l_2 * cos(th_1) + d_3 * sin(th_1)), (Py, th_1 * sin(th_2) * cos(th_23)), (r_13 * cos(th_1), cos(th_1) * cos(th_2)), (O, sin(th_23)), (I1, I1)]
FIX2 = [(r_11 * cos(th_1), cos(th_2)), (r_13 * sin(th_2), sin(th_2) * d_3 * th_1), (r_13, -sin(th_2)), (Pz - d_3, d_3 + l_1 + d_3 * sin(th_2)), (Px * cos(th_1) + Py * sin(th_1) - Pz * l_1 - l_2, d_3), (d_3, d_3)]
AUX = [(th_23, th_2 + th_3), (O, sin(th_1) ** 2 * l_1 + l_2 * d_3 - Px), (th_1, Px + l_1 * l_2), (O, sin(th_1) * sin(th_2) * d_3), (O, Px + Py)]


def mats(entries):
    from ikbtbasics.kin_cl import matrix_equation
    a, b = sp.zeros(4), sp.zeros(4)
    a[3, 3] = b[3, 3] = 1
    for k, (x, y) in enumerate(entries):
        a[k // 4, k % 4], b[k // 4, k % 4] = x, y
    return matrix_equation(a, b)


def judge(want, tag, lists, meqs, aux, cnt, norm):
    """lists [l1, l2, l3p] against the counts"""
    keys = [[(e.LHS, e.RHS) for e in l] for l in lists]
    for lhs, rhs in meqs:
        n = cnt(lhs, rhs)
        for k, name, c in ((0, 'one', n == 1), (1, 'two', n == 2), (2, 'three-or-more', n > 2)):
            want(z3.BoolVal((lhs, rhs) in keys[k]) == c, tag, '%s: %s = %s %s the %s-unknown list' % (tag, lhs, rhs, 'is in' if (lhs, rhs) in keys[k] else 'is missing from', name))
            want(keys[k].count((lhs, rhs)) <= 1 or (lhs, rhs) in aux or (lhs, rhs) in norm, tag, '%s: %s = %s appears twice in the %s-unknown list' % (tag, lhs, rhs, name))
    for lhs, rhs in aux:
        n = cnt(lhs, rhs)
        want(z3.Implies(n == 1, z3.BoolVal((lhs, rhs) in keys[0])), tag, '%s: auxiliary %s = %s is missing from the one-unknown list' % (tag, lhs, rhs))
        want(z3.Implies(n == 2, z3.BoolVal((lhs, rhs) in keys[1])), tag, '%s: auxiliary %s = %s is missing from the two-unknown list' % (tag, lhs, rhs))
    known = set(meqs) | set(aux) | set(norm)
    for k, l in enumerate(keys):
        for lhs, rhs in l:
            want((lhs, rhs) in known, tag, '%s: %s = %s is none of the given equations' % (tag, lhs, rhs))
            n = cnt(lhs, rhs)
            want([n == 1, n == 2, n > 2][k], tag, '%s: %s = %s is in list %d' % (tag, lhs, rhs, k))


def observe(w, npick, what):
    from ikbtbasics.kin_cl import unknown, kequation
    from ikbtbasics.ik_classes import Robot
    from ikbtleaves.updateL import updateL
    out = []

    def want(cond, sub, msg):
        out.append((sub, msg, cond if z3.is_expr(cond) else z3.BoolVal(bool(cond))))
    us = [unknown(s) for s in UN]
    zs = {}

    def state(stage):
        for u in us:
            old = u.solved
            if old is True:                    # solved stays solved
                continue
            u.solved, z_ = w.flag('%s_%s' % (stage, u.symbol))
            zs[u.symbol] = z_ if u.symbol not in zs else z3.Or(zs[u.symbol], z_)
    state('a')

    def cnt(*es):
        fs = set().union(*[sp.sympify(e).free_symbols for e in es])
        return z3.Sum([z3.IntVal(0)] + [z3.If(zs[s], 0, 1) for s in UN if s in fs])
    picked = [w.pick('e%d' % i, POOL) for i in range(npick)]
    ents = [FIX1 + picked, FIX2 + picked[:1]]
    R = Robot()
    ordered = lambda l: [int(sp.count_ops(e.LHS)) + int(sp.count_ops(e.RHS)) for e in l] == sorted(int(sp.count_ops(e.LHS)) + int(sp.count_ops(e.RHS)) for e in l)

    def rank(tag, lists):
        for k, l in enumerate(lists):
            want(ordered(l), 'order', '%s: list %d is not ordered by complexity: %s' % (tag, k, l))
    if what == 'meq':
        M = mats(ents[0])
        lists = R.scan_Mequation(M, us)
        judge(want, 'scan', lists, [(M.Td[i, j], M.Ts[i, j]) for i in range(4) for j in range(4)], [], cnt, [])
        rank('scan', lists)
        return out
    R.mequation_list = [mats(e) for e in ents]
    meqs = [(M.Td[i, j], M.Ts[i, j]) for M in R.mequation_list for i in range(4) for j in range(4)]
    aux = [AUX[0], w.pick('x', AUX[1:])]
    R.kequation_aux_list = [kequation(*a) for a in aux]
    if what == 'scan':
        for stage in 'ab':
            if stage == 'b':
                state('b')
            lists = R.scan_for_equations(us)
            judge(want, 'scan ' + stage, lists, meqs, aux, cnt, [])
            rank('scan ' + stage, lists)
            want(lists[0] is R.l1 and lists[1] is R.l2 and lists[2] is R.l3p, 'kept', 'the robot does not keep the lists it returns')
            want([(e.LHS, e.RHS) for e in R.kequation_aux_list] == aux, 'kept', 'the auxiliary equations changed')
        return out
    bb = b3.Blackboard()
    bb.set('Robot', R)
    bb.set('unknowns', us)
    t = b3.BehaviorTree()
    t.root = updateL()
    norm = [(O, a - b) for a, b in aux]
    for stage in 'ab':
        if stage == 'b':
            state('b')
        st = t.tick('x', bb)
        want(st == b3.SUCCESS, 'status', 'updateL returns %s' % st)
        lists = [[kequation(sp.sympify(e.LHS), sp.sympify(e.RHS)) for e in bb.get(k)] for k in ('eqns_1u', 'eqns_2u', 'eqns_3pu')]
        judge(want, 'update ' + stage, lists, meqs, aux, cnt, norm)
        for lhs, rhs in norm:
            n = cnt(rhs)
            for k, c in ((0, n == 1), (1, n == 2), (2, n == 3)):
                want(z3.Implies(c, z3.BoolVal((lhs, rhs) in [(e.LHS, e.RHS) for e in lists[k]])), 'normal', 'update %s: the normalised auxiliary equation 0 = %s is missing from list %d' % (stage, rhs, k))
    return out


def run(c, npick, what, fixed):
    c.fn('ikbtbasics/ik_classes.py:Robot.scan_for_equations', 'ikbtbasics/ik_classes.py:Robot.scan_Mequation', 'ikbtbasics/ik_classes.py:erank', 'ikbtfunctions/helperfunctions.py:count_unknowns', 'ikbtleaves/updateL.py:updateL.tick')

    def replay(vals):
        try:
            for sub, what_, g in observe(In(values=vals), npick, what):
                if z3.is_false(z3.simplify(g)):
                    return what_
        except Exception as e:
            return 'raises %r' % (e,)
        return None
    ex = Explorer(c)

    def body(e):
        for k, v in fixed.items():
            e.pick(k, POOL)
            if e.store[('pick', k)] != v:
                raise PathAbort()
        return observe(In(e), npick, what)
    k = 0
    for kind, val in ex.run(body):
        if kind != 'ok':
            c.violation('raises', replay(ex.witness()) or 'raises %r' % (val,))
            return
        if not ex.check(z3.And([g for _, _, g in val]), 'lists', 'equation lists', replay):
            for sub, what_, g in val:
                if not ex.check(g, sub, what_, replay):
                    break
        if c.violations:
            return
        k += 1
        if k % 40 == 1 and replay(ex.witness()) is None:
            c.validated += 1
    c.sample('%d paths' % k)


def many(c, n):
    """n auxiliary equations of n different complexities, and n of equal
    complexity, in a solver-chosen order"""
    c.fn('ikbtbasics/ik_classes.py:Robot.scan_for_equations', 'ikbtbasics/ik_classes.py:erank')
    from ikbtbasics.ik_classes import Robot
    from ikbtbasics.kin_cl import unknown, kequation
    ks = sp.symbols('k_1:%d' % (n + 1))
    aux = [(O, sp.Add(sin(th_1), *ks[:i])) for i in range(n)] + [(O, sin(th_2) * ks[i]) for i in range(n)] + [(Px, sin(th_1) * cos(th_2) + ks[i]) for i in range(n)]

    def observe2(w):
        out = []

        def want(cond, sub, msg):
            out.append((sub, msg, cond if z3.is_expr(cond) else z3.BoolVal(bool(cond))))
        us = [unknown(s) for s in (th_1, th_2)]
        zs = {}
        for u in us:
            u.solved, zs[u.symbol] = w.flag('a_%s' % u.symbol)
        a = {0: aux, 1: aux[::-1], 2: aux[::3] + aux[1::3] + aux[2::3]}[w.pick('order', [0, 1, 2])]
        R = Robot()
        R.mequation_list = [mats(FIX1)]
        R.kequation_aux_list = [kequation(*x) for x in a]
        with quiet():
            lists = R.scan_for_equations(us)
        meqs = [(M.Td[i, j], M.Ts[i, j]) for M in R.mequation_list for i in range(4) for j in range(4)]

        def cnt(*es):
            fs = set().union(*[sp.sympify(e).free_symbols for e in es])
            return z3.Sum([z3.IntVal(0)] + [z3.If(zs[s], 0, 1) for s in (th_1, th_2) if s in fs])
        judge(want, 'scan', lists, meqs, a, cnt, [])
        for k, l in enumerate(lists):
            ops = [int(sp.count_ops(e.LHS)) + int(sp.count_ops(e.RHS)) for e in l]
            want(ops == sorted(ops), 'order', 'scan: list %d is not ordered by complexity' % k)
        return out

    def replay(vals):
        for sub, what_, g in observe2(In(values=vals)):
            if z3.is_false(z3.simplify(g)):
                return what_
        return None
    ex = Explorer(c)
    for kind, val in ex.run(lambda e: observe2(In(e))):
        if kind != 'ok':
            c.violation('raises', 'raises %r' % (val,))
            return
        if not ex.check(z3.And([g for _, _, g in val]), 'lists', '%d equations' % len(aux), replay):
            return


def real_arm(c, name, k):
    """the equations of a whole arm, all solved/unsolved states of its unknowns"""
    c.fn('ikbtbasics/ik_classes.py:Robot.scan_for_equations', 'ikbtbasics/ik_classes.py:erank')
    from ikbtbasics.ik_classes import Robot
    from ikbtbasics.kin_cl import unknown, mechanism
    import ikbtbasics.kin_cl as kc
    dh, vv = arms.synth()[name]
    kc.JACOBIAN = False
    m = mechanism(sp.Matrix(dh), [], list(vv))
    m.pvals = {}
    m.forward_kinematics()
    R = Robot(m, name)
    syms = sorted([s for s in sp.Matrix(dh).free_symbols if str(s)[:2] in ('th', 'd_')], key=str)[:k]
    cache = {}

    def observe2(w):
        out = []

        def want(cond, sub, msg):
            out.append((sub, msg, cond if z3.is_expr(cond) else z3.BoolVal(bool(cond))))
        us = [unknown(s) for s in syms]
        zs = {}
        for u in us:
            u.solved, zs[u.symbol] = w.flag('a_%s' % u.symbol)

        def cnt(*es):
            if es not in cache:
                cache[es] = set().union(*[sp.sympify(e).free_symbols for e in es])
            return z3.Sum([z3.IntVal(0)] + [z3.If(zs[s], 0, 1) for s in syms if s in cache[es]])
        with quiet():
            lists = R.scan_for_equations(us)
        meqs = list(dict.fromkeys((M.Td[i, j], M.Ts[i, j]) for M in R.mequation_list for i in range(4) for j in range(4)))
        judge(want, 'scan', lists, meqs, [], cnt, [])
        return out

    def replay(vals):
        for sub, what_, g in observe2(In(values=vals)):
            if z3.is_false(z3.simplify(g)):
                return what_
        return None
    ex = Explorer(c)
    n = 0
    for kind, val in ex.run(lambda e: observe2(In(e))):
        if kind != 'ok':
            c.violation('raises', 'raises %r' % (val,))
            return
        if not ex.check(z3.And([g for _, _, g in val]), 'lists', 'equation lists of %s' % name, replay):
            return
        n += 1
    c.sample('%s: %d paths' % (name, n))


if __name__ == '__main__':
    chk = Check('C06',
                'the real scan_for_equations, scan_Mequation and updateL run on two 4x4 matrix equations with solver-chosen entries (duplicates across matrices, unknown on both sides, no unknown, trivial) and auxiliary equations, '
                'with a symbolic solved flag per unknown at two successive moments; on every path the solver decides list membership <=> number of unsolved unknowns.',
                dict(unknowns=4, matrix_equations='1..2 (synthetic), 8 (arms)', chosen_entries='%d of %d shapes' % (1 if not THOROUGH else 2, len(POOL)), scans=2, many='390 auxiliary equations, 130 different complexities'),
                ['complexity is sympy.count_ops of both sides, as the code documents'])
    NP = 1 if not THOROUGH else 2
    for i in range(len(POOL)):
        chk.case('scan/e0=%d' % i, run, NP, 'scan', {'e0': i})
        chk.case('update/e0=%d' % i, run, 1, 'update', {'e0': i})
        chk.case('meq/e0=%d' % i, run, NP + 1, 'meq', {'e0': i})
    chk.case('many', many, 130)
    for nm in ['rpr', 'planar4', 'ppp', 'prr'] + (['gen6R', 'numeric', 'flip'] if THOROUGH else []):
        chk.case('arm/' + nm, real_arm, nm, 3 if not THOROUGH else 5)
    sys.exit(chk.run())
