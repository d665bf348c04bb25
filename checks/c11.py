"""C11: tangent solver returns the correct quadrant."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.leaves import *
patch_sleep()
U = th_3
s, k = sin(U), cos(U)
A1_ = [l_1, -l_2, sp.Integer(2), -l_1 * l_2, l_1 + l_2, Px * cos(th_1) + Py * sin(th_1), -sp.Rational(1, 2), l_3 / 3, -d_3 * cos(th_1)]
A2_ = [l_3, -l_3, sp.Integer(-3), l_1, -l_1, l_2 * sin(th_2), Px * cos(th_1) + Py * sin(th_1), sp.Integer(1)]
B1_ = [sp.S.Zero, Pz - l_2 * cos(th_1), -2 * a_3 + 2]
B2_ = [sp.S.Zero, r_33 - r_13 * cos(th_2) * sin(th_1), -sp.Rational(1, 5)]
SH = [sin(th_4), cos(th_4), -sin(th_4), d_1 * cos(th_4)]


def plain(w):
    shared = w.pick('shared', [None] + SH)
    A1, A2, B1, B2 = w.pick('A1', A1_), w.pick('A2', A2_), w.pick('B1', B1_), w.pick('B2', B2_)
    base = [A1, A2] + ([shared] if shared is not None else [])
    if shared is not None:
        A1, A2 = A1 * shared, A2 * shared
    forms = ['zero', 'rhs', 'lhs', 'split']
    mix = B1_.index(B1) + 2 * B2_.index(B2) + A1_.index(w.pick('A1', A1_))
    f1 = w.pick('form1', forms) if THOROUGH else forms[mix % 4]
    f2 = w.pick('form2', forms) if THOROUGH else forms[(mix // 2 + 1) % 4]
    order = w.pick('order', [0, 1]) if THOROUGH else mix % 2

    def mk(A, B, t, form):
        if form == 'zero':
            return (sp.S.Zero, A * t + B)
        if form == 'rhs':
            return (-B, A * t)
        if form == 'lhs':
            return (A * t, -B)
        return (A * t * 2 + B, A * t * 3 + 2 * B)
    e1, e2 = mk(A1, B1, s, f1), mk(A2, B2, k, f2)
    deco = w.pick('decoy', [[], [(Px, l_1 * s + l_2 * k)], [(l_2, sin(th_4) * l_1 + cos(th_4)), (Py, U * l_1)]])
    pair = [e1, e2] if order == 0 else [e2, e1]
    q = dict(eqs1=deco + pair, eqs2=[]) if shared is None else dict(eqs1=deco, eqs2=pair)
    # a common unknown in one coefficient only through a sum cannot be cancelled structurally
    q.update(pair=pair, base=base, must=(B1 != 0 or B2 != 0))
    return q


def odd(w):
    A1, A2 = w.pick('A1', A1_[:4]), w.pick('A2', A2_[:4])
    m = w.pick('m', ['sfac', 'cfac', 'diff', 'rest1', 'rest2', 'alg', 'prod', 'sq', 'double', 'two', 'sine', 'cosine', 'inv', 'unexp', 'comp', 'cub', 'mixB', 'same4'])
    b1, b2 = Pz, -l_3
    S4 = sin(th_4)
    e = dict(sfac=(A1 * S4 * s + b1, A2 * k + b2), cfac=(A1 * s + b1, A2 * S4 * k + b2), diff=(A1 * S4 * s + b1, A2 * cos(th_4) * k + b2), rest1=(A1 * s + S4, A2 * k + b2), rest2=(A1 * s + b1, A2 * k + S4),
             alg=(A1 * s + U, A2 * k + b2), prod=(A1 * s * k + b1, A2 * k + b2), sq=(A1 * s ** 2 + b1, A2 * k + b2), double=(A1 * sin(2 * U) + b1, A2 * cos(2 * U) + b2),
             two=(A1 * s + sin(2 * U), A2 * k + b2), sine=(A1 * s + b1, A2 * s + b2), cosine=(A1 * k + b1, A2 * k + b2), inv=(A1 / s + b1, A2 * k + b2), unexp=((A1 * s + l_1) * l_2 + b1, (A2 * k + d_3) * cos(th_1) + b2),
             comp=(A1 * s + b1, A2 * k + sin(U + th_1)), cub=(A1 * s ** 3 + A1 * s, A2 * k + b2), mixB=(A1 * s + l_1 * cos(th_4), A2 * k + l_2 * cos(th_4)), same4=(A1 * S4 * s + b1, A2 * S4 ** 2 * k + b2))[m]
    pair = [(sp.S.Zero, x) for x in e]
    if w.pick('order', [0, 1]):
        pair.reverse()
    two = w.pick('where', [0, 1])
    return dict(eqs1=pair if not two else [], eqs2=pair if two else [], pair=pair, must=False)


def lin(e):
    x, y = sp.symbols('X Y')
    p = sp.expand(sp.expand(e[1] - e[0]).subs({s: x, k: y}))
    if p.has(U) or not p.is_polynomial(x, y) or sp.Poly(p, x, y).total_degree() > 1:
        return None
    a, b = p.coeff(x, 1), p.coeff(y, 1)
    return a, b, sp.expand(p - a * x - b * y)


def case(c, fam, fixed):
    from ikbtleaves.tan_solver import tan_id, tan_solve
    c.fn('ikbtleaves/tan_solver.py:tan_id.tick', 'ikbtleaves/tan_solver.py:tan_solve.tick')

    def mk(w):
        for kk, v in fixed.items():
            w.ex.store[('pick', kk)] = v
        d = (plain if fam == 'plain' else odd)(w)
        st, u, R, bb = run_leaves([tan_id, tan_solve], U, [th_1, th_2, d_3], [th_4], d['eqs1'], d['eqs2'])
        d.update(st=st, u=u, R=R)
        return d

    def judge(c, d):
        u = d['u']
        txt = '%s' % ([('%s = %s' % e) for e in d['pair']],)
        if u.symbol != U or u.solved or d['R'].solveN:
            c.violation('early', 'works on another unknown or marks it solved before ranking: ' + txt)
        sols = list(u.tan_solutions)
        if d['st'] != b3.SUCCESS or not sols:
            if u.solutions or sols or d['st'] == b3.SUCCESS:
                c.violation('failed', 'status %s, solutions %s: %s' % (d['st'], u.solutions, txt))
            if d['must']:
                c.violation('declined', 'plain pair not solved: ' + txt)
            return
        if u.solutions != sols or u.nsolutions != len(sols) or len(u.tan_eqnlist) != 2 or 'atan2(y,x)' not in u.solvemethod:
            c.violation('record', 'recorded %s solutions, %s, %s equations: %s' % (u.nsolutions, u.solutions, len(u.tan_eqnlist), txt))
            return
        ls = [lin(e) for e in d['pair']]
        if None in ls:
            c.violation('odd', 'claims %s = %s from equations not linear in its sine and cosine: %s' % (U, sols, txt))
            return
        srcs = [sp.expand(e[1] - e[0]) for e in d['pair']]
        nondeg = [[l[0], l[1]] for l in ls]
        mults = d.get('base') or [x for l in ls for x in l[:2] if x != 0]
        nondeg += [[x] for x in d.get('base', [])]
        free = set().union(*[b.free_symbols for b in sols])
        if th_4 in free:
            c.violation('unsolved', 'solution %s mentions the unsolved th_4: %s' % (sols, txt))
            return
        if len(sols) == 1:
            prove_vector(c, '', U, srcs, sols[0], nondeg, 'tangent solution', mults)
        elif len(sols) == 2:
            if len(u.assumption) != 2:
                c.violation('assumption', '%d candidates but assumptions %s: %s' % (len(sols), u.assumption, txt))
                return
            conds = []
            for a in u.assumption:
                f, (arg,) = a.function, a.arguments
                if f not in (sp.Q.positive, sp.Q.negative):
                    c.violation('assumption', 'assumption %s' % a)
                    return
                conds.append(arg if f == sp.Q.positive else -arg)
            if sp.expand(conds[0] + conds[1]) != 0:
                c.violation('assumption', 'assumptions %s are not complementary: %s' % (u.assumption, txt))
                return
            for b, cd in zip(sols, conds):
                prove_vector(c, '', U, srcs, b, nondeg, 'tangent solution (%s > 0)' % cd, mults, cond=cd)
                if c.violations:
                    return
        else:
            c.violation('record', '%d solutions' % len(sols))
        c.sample('%s -> %s' % (txt, sols))
    drive(c, mk, judge)


chk = Check('C11',
            'tan_id and tan_solve are ticked in a real behaviour tree on pairs of equations A1 sin u + B1 = 0, A2 cos u + B2 = 0 (optionally sharing an unsolved factor) whose coefficients, sides, order and surrounding '
            'equations are chosen by solver variables and whose parameters are symbols; for every returned atan2(y, x) the solver decides over all reals with non-zero coefficients (and the recorded sign assumption) that '
            '(x, y) points along (cos u, sin u) for every u satisfying both equations. Pairs of other shapes must be declined or solved exactly.',
            dict(A1=len(A1_), A2=len(A2_), B1=len(B1_), B2=len(B2_), shared=len(SH) + 1, forms=4, orders=2, decoys=3, odd_shapes=18, values='all reals, coefficients non-zero'),
            ['angles are compared modulo 2 pi through their sine and cosine'])
for a in range(len(A1_)):
    for b in range(len(A2_)):
        for sh in range(5):
            for d in range(3):
                if THOROUGH or (sh == 0 and (d == 0 or (a + b) % 5 == 0)) or (d == 0 and (a + b + sh) % 4 == 0) or (d and sh and (a, b) == (0, 0)):
                    chk.case('plain/a%d/b%d/s%d/d%d' % (a, b, sh, d), case, 'plain', dict(A1=a, A2=b, shared=sh, decoy=d))
for a in range(4):
    chk.case('odd/a%d' % a, case, 'odd', dict(A1=a))
sys.exit(chk.run())
