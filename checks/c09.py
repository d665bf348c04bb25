"""C09: sine-or-cosine solver returns both and only correct branches."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.leaves import *
patch_sleep()
U = th_3

COEF = [l_1, -l_1, sp.Integer(1), sp.Integer(-3), l_1 + l_2, -Px * cos(th_1) - Py * sin(th_1), -l_1 * l_2, sp.Rational(1, 2), -2 * l_1 * cos(th_2), l_1 / 2]
OFF = [sp.S.Zero, l_2, -sp.Rational(1, 5), Pz - l_2 * sin(th_1), r_13 * cos(th_2) * sin(th_1)]
FAR = [Px, sp.S.Zero, -r_13 * sin(th_1) + Pz, sp.Rational(1, 4), -l_3]


def plain(w, f):
    """structures the solver has to handle"""
    A = w.pick('A', COEF)
    B = w.pick('B', OFF)
    x = w.pick('x', FAR)
    form = w.pick('form', ['rhs', 'lhs', 'both', 'split', 'zero'])
    t = f(U)
    if form == 'rhs':
        e = (x, A * t + B)
    elif form == 'lhs':
        e = (A * t + B, x)
    elif form == 'both':
        e = (l_3 * t - x, A * t + B)
    elif form == 'split':
        e = (x, A * t + B + d_3 * t)
    else:
        e = (sp.S.Zero, A * t + B - x)
    A0 = {'rhs': A, 'lhs': A, 'both': A - l_3, 'split': A + d_3, 'zero': A}[form]
    deco = w.pick('decoy', [[], [(Px, l_1 * sin(U) + l_2 * cos(U))], [(Px, l_1 * sin(th_4))]])
    return dict(eqs1=deco + [e], source=[e[1] - e[0]], A=A0, must=True)


def odd(w, f):
    """structures it must not mis-solve"""
    t = f(U)
    A = w.pick('A', COEF[:4])
    e = w.pick('e', [(Px, A * t ** 2 + l_2), (Px, A * t * sin(2 * U)), (Px, A * t + f(2 * U)), (Px, A * t + l_2 * f(U + th_1)), (Px, A * t * U), (Px, A / t), (Px, l_1 * (A * t + l_2) + l_3 * t),
                     (Px, A * t + l_2 * U), (A * t, l_2 * t ** 2), (Px * t, A * t + l_2), (Px, sp.sqrt(A * t + 1)), (Px, A * f(2 * U)), (Px, A * t ** 3 + t), (Px, (A + t) * t), (sp.asin(t), Px), (Px, A * sin(U + th_1) + t)])
    return dict(eqs1=[e], source=[e[1] - e[0]], A=None, must=False)


def case(c, fam, fname, fixed):
    from ikbtleaves.sincos_solver import sincos_id, sincos_solve
    c.fn('ikbtleaves/sincos_solver.py:sincos_id.tick', 'ikbtleaves/sincos_solver.py:sincos_solve.tick')
    f = sin if fname == 'sin' else cos

    def mk(w):
        for k, v in fixed.items():
            w.ex.store[('pick', k)] = v
        d = (plain if fam == 'plain' else odd)(w, f)
        st, u, R, bb = run_leaves([sincos_id, sincos_solve], U, [th_1, th_2, d_3], [th_4], d['eqs1'], [])
        d.update(st=st, u=u)
        return d

    def judge(c, d):
        u = d['u']
        txt = '%s' % ([('%s = %s' % e) for e in d['eqs1']],)
        if u.solved or u.symbol != U:
            c.violation('early', 'unknown marked solved before ranking: ' + txt)
        if d['st'] != b3.SUCCESS or not u.sincos_solutions:
            if u.solutions or u.sincos_solutions:
                c.violation('failed', 'solver fails but leaves solutions %s: %s' % (u.solutions, txt))
            if d['must']:
                c.violation('declined', 'plain equation not solved: ' + txt)
            return
        sols = list(u.sincos_solutions)
        if u.solutions != sols or u.nsolutions != len(sols) or len(u.sincos_eqnlist) != 1:
            c.violation('record', 'recorded %s solutions, %s, equations %s: %s' % (u.nsolutions, u.solutions, u.sincos_eqnlist, txt))
            return
        e = u.sincos_eqnlist[0]
        src = d['source']
        A = d['A']
        if A is None:
            # solved an odd shape: the coefficient is whatever the expanded
            # equation says; if the equation is not linear in f(u) no set of
            # branches can be right
            x = sp.Symbol('X')
            p = sp.expand(sp.expand(src[0]).subs(f(U), x))
            if p.has(U) or not p.is_polynomial(x) or sp.degree(p, x) != 1:
                p = None
            A = p.coeff(x, 1) if p is not None else sp.S.One
        try:
            prove_angle(c, '', U, src, sols, lambda en: [en.real(A) != 0], '%s branches' % fname)
        except Unsupported as x:
            c.violation('odd', 'claims %s = %s from %s (%s)' % (U, sols, txt, x))
        c.sample('%s -> %s' % (txt, sols))
    n = drive(c, mk, judge)


chk = Check('C09',
            'sincos_id and sincos_solve are ticked in a real behaviour tree on equations whose structure (coefficient, offset, far side, side of the sine or cosine, decoy equations) is chosen by solver variables and '
            'whose parameters are symbols; for every branch the solver decides over all real values of the parameters that it satisfies the equation, that it is defined wherever the equation has a solution, and that '
            'every angle solving the equation is one of the branches; odd shapes must be declined or solved exactly.',
            dict(coefficients=len(COEF), offsets=len(OFF), far_sides=len(FAR), forms=5, decoys=3, odd_shapes=16, values='all reals with non-zero coefficient'),
            ['angles are compared modulo 2 pi through their sine and cosine'])
for fname in ('sin', 'cos'):
    for a in range(len(COEF)):
        for d in range(3):
            if d == 0 or THOROUGH:
                chk.case('plain/%s/a%d/d%d' % (fname, a, d), case, 'plain', fname, dict(A=a, decoy=d))
            elif a in (0, 3):
                chk.case('plain/%s/a%d/d%d' % (fname, a, d), case, 'plain', fname, dict(A=a, decoy=d))
    chk.case('odd/%s' % fname, case, 'odd', fname, {})
sys.exit(chk.run())
