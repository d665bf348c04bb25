"""C07: sum-of-angles substitution preserves every equation."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.smt import *
from lib.sym import Explorer, PathAbort
from lib.leaves import In
patch_sleep()

T = sp.symbols('th_1:7')
l_1, l_2, Px, Py, r_13, d_3 = sp.symbols('l_1 l_2 Px Py r_13 d_3')
sin, cos = sp.sin, sp.cos
S = lambda *i: sum(T[k - 1] for k in i)
C = lambda i: sp.Symbol('th_%d' % i)
# arguments: plain sums, and shapes that must be left alone
ARGS = [S(1, 2), S(2, 3), S(1, 2, 3), S(2, 3, 4), S(1, 3), S(4, 5, 6), S(2), T[1] - T[2], 2 * T[1], S(1, 2, 3, 4), S(2) + sp.Symbol('l_2'), S(5, 6), T[0] - T[1] + T[2], S(1) + 2 * T[1]]
# compound angles made earlier: name -> joints
STATES = [(), (12,), (23, 234), (123, 56)]
SHAPES = [lambda a, b: l_1 * sin(a) - Px * cos(b), lambda a, b: sin(a) * cos(b) * Py + l_2 * cos(a), lambda a, b: sin(b) + l_1 * cos(a) ** 2 - r_13 * sin(a) * cos(b) + d_3]


def joints(i):
    return [int(ch) for ch in str(i)]


def setup(state, rev):
    from ikbtbasics.kin_cl import unknown, kequation
    from ikbtbasics.ik_classes import Robot
    R = Robot()
    vs = []
    for k, s in enumerate(T[:2] + (d_3,) + T[2:]):
        u = unknown(s)
        u.n = int(str(s)[-1]) if s is not d_3 else 9
        vs.append(u)
    if rev:
        vs.reverse()
    for i in state:
        u = unknown(C(i))
        u.n = i
        vs.append(u)
        R.kequation_aux_list.append(kequation(C(i), S(*joints(i))))
    return R, vs


def judge(c, sub, R, vs, pre, before, after, state, all3=True):
    """structure and equality; before/after are lists of expressions"""
    def bad(s, what):
        c.violation(s, '%s: %s' % (sub, what))
    names = [v.symbol for v in vs]
    if len(set(names)) != len(names) or len(set(map(id, vs))) != len(vs):
        return bad('dup', 'unknowns listed twice: %s' % names)
    comp = [v for v in vs if len(v.name) > 4]
    defs = {}
    for e in R.kequation_aux_list:
        if e.LHS in defs:
            return bad('dup', 'the defining equation of %s is recorded twice: %s' % (e.LHS, R.kequation_aux_list))
        defs[e.LHS] = e.RHS
    if set(defs) != {v.symbol for v in comp}:
        return bad('defs', 'compound angles %s but defining equations %s' % (comp, R.kequation_aux_list))
    ex = dict(defs)
    for k in list(ex):
        while ex[k].free_symbols & set(ex):
            ex[k] = ex[k].subs(defs)
    for v in comp:
        if v.solved or v.n != int(v.name[3:]):
            return bad('unknown', '%s has index %s, solved %s' % (v.name, v.n, v.solved))
        if ex[v.symbol] != S(*joints(v.name[3:])):
            return bad('index', '%s stands for %s' % (v.name, ex[v.symbol]))
        if list(v.name[3:]) != sorted(v.name[3:]):
            return bad('order', '%s does not name its joints in chain order' % v.name)
    if [v for v in vs if v in pre] != pre or [v.symbol for v in pre] != names[:len(pre)]:
        return bad('unknown', 'unknowns present before changed')
    c.paths += 1
    for b, a in zip(before, after):
        extra = a.free_symbols - b.free_symbols - set(ex)
        if extra:
            return bad('free', '%s became %s with unrecorded symbols %s' % (b, a, extra))
        for x in a.atoms(sp.sin, sp.cos):
            t = x.args[0]
            if t.is_Add and len(t.args) in ((2, 3) if all3 else (2,)) and all(y in T for y in t.args):
                return bad('left', '%s is left in %s' % (x, a))
        full = a.subs(ex, simultaneous=True)
        if c.validated < 5 and full != b:
            validate_encoding(c, full)
        if full == b and a == b:
            c.syntactic += 1
            continue
        prove_equal(c, 'equal', b, full, '%s: %s rewritten as %s' % (sub, b, a), timeout_ms=10000)
        if c.violations:
            return


def sub_case(c, a0):
    from ikbtbasics.ik_classes import sum_of_angles_sub
    c.fn('ikbtbasics/ik_classes.py:sum_of_angles_sub', 'ikbtbasics/ik_classes.py:get_variable_index')
    c.syntactic = 0

    def mk(w):
        st = w.pick('state', STATES)
        a1 = w.pick('a1', ARGS)
        f = w.pick('shape', SHAPES if THOROUGH else SHAPES[:2])
        a2 = w.pick('a2', [ARGS[0], ARGS[3], ARGS[7]] if THOROUGH else [ARGS[3]])
        rev = w.pick('rev', [False, True]) if THOROUGH else len(st) == 2
        return st, f(ARGS[a0], a1), cos(a2) * l_1 + sin(ARGS[a0]), rev
    ex = Explorer(c, max_paths=20000)
    n = 0
    for kind, val in ex.run(lambda e: mk(In(e))):
        ex.witness()
        st, e1, e2, rev = val
        R, vs = setup(st, rev)
        if 234 in st and n % 2:
            e1 = e1.subs(T[1] + T[2], C(23))          # partly substituted already
        pre = list(vs)
        ex1 = sp.sympify(e1).subs(C(23), S(2, 3))
        try:
            o1 = sum_of_angles_sub(R, e1, vs)[0]
            o2 = sum_of_angles_sub(R, e2, vs)[0]
        except (Exception, SystemExit) as e:
            c.violation('raises', '%s then %s (compounds %s): raises %r' % (e1, e2, st, e))
            return
        judge(c, '%s then %s, compounds %s' % (e1, e2, list(st)), R, vs, pre, [ex1, e2], [o1.subs(C(23), S(2, 3)) if C(23) in o1.free_symbols and C(23) not in {q.LHS for q in R.kequation_aux_list} else o1, o2], st)
        if c.violations:
            return
        n += 1
    c.sample('%d expressions starting with %s' % (n, ARGS[a0]))


def tick_id(R, vs):
    """the sum_id leaf of the solver's tree, ticked until nothing changes"""
    import b3
    from ikbtleaves.sum_id import sum_id
    t, bb = b3.BehaviorTree(), b3.Blackboard()
    t.root = sum_id()
    t.root.BHdebug = False
    for k, v in (('Robot', R), ('unknowns', vs), ('eqns_1u', []), ('eqns_2u', []), ('eqns_3pu', [])):
        bb.set(k, v)
    for i in range(8):
        old = [(q.Td, q.Ts) for q in R.mequation_list]
        if t.tick('verif', bb) != b3.SUCCESS:
            raise RuntimeError('the leaf did not succeed')
        if [(q.Td, q.Ts) for q in R.mequation_list] == old:
            break
    vs[:] = bb.get('unknowns')


def transform_case(c, k, leaf=False):
    """the whole transform over a robot's matrix equations"""
    from ikbtbasics.kin_cl import matrix_equation
    c.fn('ikbtleaves/sum_id.py:sum_id.tick' if leaf else 'ikbtbasics/ik_classes.py:Robot.sum_of_angles_transform')
    c.syntactic = 0

    def mk(w):
        A = [S(1, 2), S(2, 3, 4), S(2, 3), T[1] - T[2]]
        st = w.pick('state', [(), (23,), (123, 12)])
        a0 = A[k % len(A)]
        a1 = w.pick('a1', A)
        side = w.pick('side', [0, 1, 2])
        return st, a0, a1, side
    ex = Explorer(c)
    n = 0
    for kind, val in ex.run(lambda e: mk(In(e))):
        ex.witness()
        st, a0, a1, side = val
        ents = [(l_1 * sin(a0) + Px, Py * cos(T[4])), (r_13, sp.expand_trig(sin(a0)) * l_1 + sp.expand_trig(cos(a1)) * Px), (Px * cos(T[0]), -cos(a1) * sin(T[4])), (Py, d_3 + l_2 * cos(a0) * cos(a1))]
        M = []
        for g in ((0, 1, 2), (3, 1)):
            a, b = sp.zeros(4), sp.zeros(4)
            for p, q in enumerate(g):
                x, y = ents[q]
                if side == 1 or (side == 2 and p % 2):
                    x, y = y, x
                a[p // 2, 2 * (p % 2) + 1], b[p // 2, 2 * (p % 2) + 1] = x, y
            M.append(matrix_equation(a, b))
        R, vs = setup(st, False)
        R.mequation_list = M
        pre = list(vs)
        before = [x for m in M for mm in (m.Td, m.Ts) for x in sp.Matrix(mm)]
        try:
            tick_id(R, vs) if leaf else R.sum_of_angles_transform(vs)
        except (Exception, SystemExit) as e:
            c.violation('raises', '%s on %s raises %r' % ('the sum_id leaf' if leaf else 'transform', ents, e))
            return
        after = [x for m in R.mequation_list for mm in (m.Td, m.Ts) for x in sp.Matrix(mm)]
        if len(after) != len(before) or R.mequation_list != M:
            c.violation('shape', 'matrix equations changed in number')
            return
        judge(c, 'transform of %s, compounds %s' % (ents, list(st)), R, vs, pre, before, after, st, not leaf)
        if c.violations:
            return
        n += 1
    c.sample('%d transforms' % n)


def arm_case(c, name):
    """a planar or partly planar arm end to end through the transform"""
    import ikbtbasics.kin_cl as kc
    from ikbtbasics.ik_classes import Robot
    from lib import arms
    c.fn('ikbtbasics/ik_classes.py:Robot.sum_of_angles_transform')
    c.syntactic = 0
    dh, vv = arms.synth()[name]
    kc.JACOBIAN = False
    m = kc.mechanism(sp.Matrix(dh), [], list(vv))
    m.pvals = {}
    m.forward_kinematics()
    R = Robot(m, name)
    vs = []
    for s in sorted([s for s in sp.Matrix(dh).free_symbols if str(s)[:2] in ('th', 'd_')], key=str):
        u = kc.unknown(s)
        u.n = int(str(s)[-1])
        vs.append(u)
    pre = list(vs)
    before = [x for q in R.mequation_list for mm in (q.Td, q.Ts) for x in sp.Matrix(mm)]
    try:
        R.sum_of_angles_transform(vs)
    except (Exception, SystemExit) as e:
        c.violation('raises', 'sum-of-angles transform of arm %s raises %r' % (name, e))
        return
    after = [x for q in R.mequation_list for mm in (q.Td, q.Ts) for x in sp.Matrix(mm)]
    judge(c, 'arm ' + name, R, vs, pre, before, after, ())
    c.sample('arm %s: new %s' % (name, vs[len(pre):]))


if __name__ == '__main__':
    chk = Check('C07',
                'the real sum_of_angles_sub, Robot.sum_of_angles_transform and sum_id leaf rewrite solver-chosen expressions (sums of two, three, four joints, differences, multiples, constants, products of two of them, on both sides of an equation, '
                'with earlier compound angles present); the solver proves for all joint values that every rewritten expression equals the original after expanding the compound angles by their recorded definitions.',
                dict(joints=6, arguments=len(ARGS), earlier_compounds=len(STATES), calls=2),
                ['bookkeeping (names, indices, duplicates, leftovers) is read off the resulting lists on every path'])
    for i in range(len(ARGS)):
        chk.case('sub/%d' % i, sub_case, i)
    for i in range(4):
        chk.case('transform/%d' % i, transform_case, i)
    for i in range(4):
        chk.case('id/%d' % i, transform_case, i, True)
    for nm in ['planar4', 'rpr', 'mid_p'] + (['gen6R', 'twist6', 'flip'] if THOROUGH else []):
        chk.case('arm/' + nm, arm_case, nm, limit=200)
    sys.exit(chk.run())
