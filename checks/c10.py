"""C10: A sin + B cos = C solver returns both and only correct branches."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.leaves import *
patch_sleep()
U = th_3

A_ = [l_1, -l_1, sp.Integer(2), -sp.Rational(1, 3), l_1 * cos(th_1), l_1 + l_2, -Px * l_2,
      l_1 * cos(th_1) - l_2 * sin(th_2), r_11 * Px - Pz, Px ** 2]
B_ = [l_2, -l_2, sp.Integer(-1), l_2 * sin(th_2), l_1, -Px * sin(th_1) + l_3, -l_1,
      l_3 * cos(th_1) * sin(th_2), Py * cos(th_1) - Px * sin(th_1), r_13]
C_ = [sp.S.Zero, Pz, -l_3, Py * cos(th_1) - l_3, sp.Rational(1, 4), Px * cos(th_1) + Py * sin(th_1) - l_1, Px ** 2 + Py ** 2 - l_3 ** 2]


def plain(w):
    A, B, C = w.pick('A', A_), w.pick('B', B_), w.pick('C', C_)
    s, k = sin(U), cos(U)
    form = w.pick('form', ['rhs', 'lhs', 'both', 'zero', 'prod', 'cross', 'neg'])
    if form == 'rhs':
        e = (C, A * s + B * k)
    elif form == 'lhs':
        e = (A * s + B * k, C)
    elif form == 'both':
        e = (l_3 * s - C, (A + l_3) * s + B * k)
    elif form == 'zero':
        e = (sp.S.Zero, A * s + B * k - C)
    elif form == 'prod':
        e = (C, d_3 * (A * s + B * k) + r_13)
    elif form == 'cross':
        e = (A * s, C - B * k)
    else:
        e = (-C, -(A * s) - B * k)
    A0, B0 = (A * d_3, B * d_3) if form == 'prod' else (A, B)
    deco = w.pick('decoy', [[], [(Px, l_1 * sin(U))], [(l_2, sin(th_4) * l_1 + cos(th_4))]])
    return dict(eqs1=deco + [e], source=[e[1] - e[0]], AB=(A0, B0), must=True, all=deco + [e])


def odd(w):
    A = w.pick('A', A_[:4])
    s, k = sin(U), cos(U)
    e = w.pick('e', [(Px, A * s * k + l_2 * k), (Px, A * s + l_2 * k + l_3 * s ** 2), (Px, A * s + l_2 * k + l_3 * s * k), (Px, A * s + l_2 * k + U), (Px, A * s ** 2 + l_2 * k), (Px, A * s * k), (Px, A * s + l_2 * k + sin(2 * U)),
                     (Px, A * (s + k) - A * s - A * k + l_3), (A * s, l_2 * k * s), (Px, (A * s + l_1) * (k + l_2)), (Px, A * s / k), (Px, A * s + l_2 * k + cos(U + th_1)), (Px, A * (s + k) - A * s), (Px, A * s + l_2 * k ** 3), (Px * k, A * s + l_2 * k),
                     (Px, sp.sqrt(A * s + k)), (Px, A * s * U + k), (Px, A * s ** 2 + A * k ** 2 + s * l_1 + l_2 * k)])
    return dict(eqs1=[e], source=[e[1] - e[0]], AB=None, must=False, all=[e])


def linear(src):
    """(A, B, C) if the equation is A sin U + B cos U = C, else None"""
    x, y = sp.symbols('X Y')
    p = sp.expand(sp.expand(src).subs({sin(U): x, cos(U): y}))
    if p.has(U) or not p.is_polynomial(x, y) or sp.Poly(p, x, y).total_degree() > 1:
        return None
    A, B = p.coeff(x, 1), p.coeff(y, 1)
    return A, B, sp.expand(A * x + B * y - p)


def case(c, fam, fixed):
    from ikbtleaves.sinANDcos_solver import sinandcos_id, sinandcos_solve
    c.fn('ikbtleaves/sinANDcos_solver.py:sinandcos_id.tick', 'ikbtleaves/sinANDcos_solver.py:sinandcos_solve.tick')

    def mk(w):
        for k, v in fixed.items():
            w.ex.store[('pick', k)] = v
        d = (plain if fam == 'plain' else odd)(w)
        st, u, R, bb = run_leaves([sinandcos_id, sinandcos_solve], U, [th_1, th_2, d_3], [th_4], d['eqs1'], [])
        d.update(st=st, u=u, R=R)
        return d

    def judge(c, d):
        u = d['u']
        txt = '%s' % ([('%s = %s' % e) for e in d['eqs1']],)
        if u.symbol != U:
            c.violation('unknown', 'works on another unknown: ' + txt)
        if not u.solved:
            if u.solutions or d['R'].solveN:
                c.violation('failed', 'leaves solutions %s without solving: %s' % (u.solutions, txt))
            if d['must']:
                A, B = d['AB']
                if A != 0 or B != 0:
                    c.violation('declined', 'plain equation not solved: ' + txt)
            return
        if d['st'] != b3.SUCCESS or u.nsolutions != len(u.solutions) or d['R'].solveN != 1 or 'sinANDcos' not in u.solvemethod:
            c.violation('record', 'status %s, %d solutions, count %s: %s' % (d['st'], len(u.solutions), u.nsolutions, txt))
            return
        src = d['source'][0]
        ABC = linear(src)
        if ABC is None:
            try:
                prove_angle(c, '', U, [src], list(u.solutions), lambda en: [], 'sinANDcos branches')
            except Unsupported as x:
                c.violation('odd', 'claims %s = %s from %s (%s)' % (U, u.solutions, txt, x))
            return
        prove_line(c, '', U, src, ABC, list(u.solutions), 'sinANDcos branches')
        c.sample('%s -> %s' % (txt, u.solutions))
    drive(c, mk, judge)


chk = Check('C10',
            'sinandcos_id and sinandcos_solve are ticked in a real behaviour tree on equations whose structure is chosen by solver variables and whose parameters are symbolic; for each branch the solver decides, over all '
            'real values with (A,B) not both zero, that it satisfies the equation, that it is defined wherever the equation has a solution, and that every angle solving the equation is one of the branches; '
            'odd shapes must be declined or solved exactly.',
            dict(A=len(A_), B=len(B_), C=len(C_), forms=7, decoys=3, odd_shapes=18, values='all reals, (A,B) != (0,0)'),
            ['angles are compared modulo 2 pi through their sine and cosine'])
for a in range(len(A_)):
    for b in range(len(B_)):
        for d in range(3):
            if d == 0 or THOROUGH or (a, b) in ((0, 0), (2, 5)):
                chk.case('plain/a%d/b%d/d%d' % (a, b, d), case, 'plain', dict(A=a, B=b, decoy=d))
chk.case('odd', case, 'odd', {})
chk.case('lemma', lemmas)
sys.exit(chk.run())
