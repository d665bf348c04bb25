"""C12: two-equation solver solves the pair exactly."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.leaves import *
patch_sleep()
U = th_3
s, k = sin(U), cos(U)
A_ = [l_1, -l_1, sp.Integer(2), -Px * cos(th_1) - Py * sin(th_1), l_1 + l_2, sp.S.Zero, -sp.Rational(1, 2)]
B_ = [l_2, -l_2, sp.S.Zero, -Pz, l_1, Px * cos(th_1) + Py * sin(th_1), sp.Integer(-1)]
C_ = [Pz - l_3, sp.S.Zero, a_2 * cos(th_2) + a_3]
D_ = [a_3 * r_13, -a_2 * sin(th_2) - d_1, sp.S.Zero]


def plain(w):
    A, B, C, D = w.pick('A', A_), w.pick('B', B_), w.pick('C', C_), w.pick('D', D_)
    mix = A_.index(A) + B_.index(B) + 2 * C_.index(C) + D_.index(D)
    forms = ['zero', 'rhs', 'lhs', 'split']
    form = w.pick('form', forms) if THOROUGH else forms[mix % 4]
    sg = w.pick('sign2', [1, -1])
    sg1 = w.pick('sign1', [1, -1]) if THOROUGH else (1, -1)[mix // 4 % 2]
    f1, f2 = sg1 * (A * s + B * k), sg * (A * k - B * s)
    g1, g2 = sg1 * C, sg * D
    if form == 'zero':
        e1, e2 = (sp.S.Zero, f1 - g1), (sp.S.Zero, f2 - g2)
    elif form == 'rhs':
        e1, e2 = (g1, f1), (g2, f2)
    elif form == 'lhs':
        e1, e2 = (f1, g1), (f2, g2)
    else:
        e1, e2 = (l_3 * s - g1, f1 * -1 + l_3 * s), (sp.S.Zero, f2 - g2)
        e1 = (l_3 * s, f1 - g1 + l_3 * s)
    order = w.pick('order', [0, 1])
    deco = w.pick('decoy', [[], [(Px, l_1 * s * r_13 + l_2)], [(l_2, sin(th_4) * l_1 + cos(th_4)), (Py, U * l_1)]])
    pair = [e1, e2] if order == 0 else [e2, e1]
    return dict(eqs1=deco + pair, pair=pair, must=(A != 0 or B != 0) and (C != 0 or D != 0))


def odd(w):
    A, B = w.pick('A', A_[:4]), w.pick('B', B_[:4])
    base1, base2 = A * s + B * k - Pz, A * k - B * s - a_3
    m = w.pick('m', ['mixed', 'same', 'coef', 'square1', 'square2', 'alg1', 'alg2', 'prod1', 'prod2', 'double', 'power', 'scaled', 'plus', 'swap', 'angle'])
    e = dict(mixed=(base1, -A * k - B * s - a_3), same=(base1, base1 + Px), coef=(base1, l_3 * k - B * s - a_3), square1=(base1 + l_3 * s ** 2, base2), square2=(base1, base2 + l_3 * k ** 2),
             alg1=(base1 + U * l_3, base2), alg2=(base1, base2 - U * l_3), prod1=(base1 + l_3 * s * k, base2), prod2=(base1, base2 - l_3 * s * k), double=(base1 + l_3 * sin(2 * U), base2),
             power=(base1 + s ** 3, base2 + k ** 3), scaled=(base1, 2 * base2), plus=(base1, A * k + B * s - a_3), swap=(base1, A * s - B * k - a_3), angle=(base1 + cos(U + th_1), base2))[m]
    sides = w.pick('side', [0, 1])
    pair = [(sp.S.Zero, x) if sides == 0 else (x, sp.S.Zero) for x in e]
    if w.pick('order', [0, 1]):
        pair.reverse()
    return dict(eqs1=pair, pair=pair, must=False)


def lin(e):
    x, y = sp.symbols('X Y')
    p = sp.expand(sp.expand(e[1] - e[0]).subs({s: x, k: y}))
    if p.has(U) or not p.is_polynomial(x, y) or sp.Poly(p, x, y).total_degree() > 1:
        return None
    a, b = p.coeff(x, 1), p.coeff(y, 1)
    return a, b, sp.expand(a * x + b * y - p)


def case(c, fam, fixed):
    from ikbtleaves.two_eqn_m7 import simu_id, simu_solver
    c.fn('ikbtleaves/two_eqn_m7.py:simu_id.tick', 'ikbtleaves/two_eqn_m7.py:canonical_second_eqn', 'ikbtleaves/two_eqn_m7.py:simu_solver.tick')

    def mk(w):
        for kk, v in fixed.items():
            w.ex.store[('pick', kk)] = v
        d = (plain if fam == 'plain' else odd)(w)
        st, u, R, bb = run_leaves([simu_id, simu_solver], U, [th_1, th_2, d_3], [th_4], d['eqs1'], [])
        d.update(st=st, u=u, R=R)
        return d

    def judge(c, d):
        u = d['u']
        txt = '%s' % ([('%s = %s' % e) for e in d['eqs1']],)
        if u.symbol != U:
            c.violation('unknown', 'works on another unknown: ' + txt)
        if not u.solved:
            if u.solutions or d['R'].solveN or d['st'] == b3.SUCCESS:
                c.violation('failed', 'status %s, solutions %s without solving: %s' % (d['st'], u.solutions, txt))
            if d['must']:
                c.violation('declined', 'plain pair not solved: ' + txt)
            return
        if d['st'] != b3.SUCCESS or u.nsolutions != 1 or len(u.solutions) != 1 or d['R'].solveN != 1 or 'simultaneous eqn' not in u.solvemethod:
            c.violation('record', 'status %s, %s solutions, count %s, method %s: %s' % (d['st'], len(u.solutions), u.nsolutions, u.solvemethod, txt))
            return
        l1, l2 = lin(d['pair'][0]), lin(d['pair'][1])
        srcs = [sp.expand(e[1] - e[0]) for e in d['pair']]
        b = u.solutions[0]
        if b.has(U):
            c.violation('self', 'the solution %s of %s contains it: %s' % (b, U, txt))
            return
        if l1 is None or l2 is None:
            c.violation('odd', 'claims %s = %s from equations that are not linear in its sine and cosine: %s' % (U, b, txt))
            return
        prove_vector(c, '', U, srcs, b, [[l1[0], l1[1]]], 'two-equation solution', [l1[0], l1[1], l1[2], l2[2]])
        c.sample('%s -> %s' % (txt, b))
    drive(c, mk, judge)


chk = Check('C12',
            'simu_id and simu_solver are ticked in a real behaviour tree on pairs A sin u + B cos u = C, A cos u - B sin u = D whose coefficients, sides, signs, order and surrounding equations are chosen by solver '
            'variables and whose parameters are symbols; for the returned atan2(y, x) the solver decides over all reals that (x, y) points along (cos u, sin u) for every u satisfying both equations. Pairs of other shapes must be declined or solved exactly.',
            dict(A=len(A_), B=len(B_), C=len(C_), D=len(D_), forms=4, signs=4, orders=2, decoys=3, odd_shapes=15, values='all reals, (A,B) != (0,0)'),
            ['angles are compared modulo 2 pi through their sine and cosine'])
for a in range(len(A_)):
    for b in range(len(B_)):
        for d in range(3):
            if d == 0 or THOROUGH or (a, b) in ((0, 0), (3, 3)):
                chk.case('plain/a%d/b%d/d%d' % (a, b, d), case, 'plain', dict(A=a, B=b, decoy=d))
for a in range(4):
    chk.case('odd/a%d' % a, case, 'odd', dict(A=a))
sys.exit(chk.run())
