"""C08: algebraic solver is exact and declines what it cannot isolate."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.leaves import *
patch_sleep()
A_ = [l_1, -l_1, sp.Integer(2), -sp.Rational(1, 3), l_1 + l_2, l_1 * cos(th_1), -Px * sin(th_1) * l_2, 1 / l_1, l_2 / l_3]
B_ = [sp.S.Zero, Pz, sp.Rational(7, 2), -r_13 * cos(th_2) + l_3, -Px * l_1 - Py, sp.Integer(-5)]
X_ = [sp.S.Zero, Px, l_3 * cos(th_1), sp.sqrt(l_1), r_33 * l_2 - 1]


def plain(w):
    U = w.pick('u', [d_1, th_3])
    A, B, X = w.pick('A', A_), w.pick('B', B_), w.pick('X', X_)
    form = w.pick('form', ['rhs', 'lhs', 'both', 'prod', 'split', 'sum'])
    if form == 'rhs':
        e = (X, A * U + B)
    elif form == 'lhs':
        e = (A * U + B, X)
    elif form == 'both':
        e = (3 * A * U - X, A * U + B)
    elif form == 'prod':
        e = (X, l_3 * (A * U + B))
    elif form == 'split':
        e = (X - l_3 * U, A * U + B)
    else:
        e = (X + th_1, A * U + B + d_3)
    deco = w.pick('decoy', [[], [(Px, l_1 * sin(U))], [(Py, U ** 2 * l_1), (Px, l_2 * cos(th_4) + th_4)], [(U - l_1, U - r_11)], [(l_2, sin(U + th_1))]])
    after = [(Pz, 5 * U)] if w.pick('after', [0, 1]) else []
    return dict(U=U, eqs=deco + [e] + after, e=e, must=True)


def odd(w):
    U = w.pick('u', [d_1, th_3])
    A = w.pick('A', A_)
    e = w.pick('e', [(Px, A * U ** 2), (Px, A * sin(U)), (Px, A * cos(U) + U), (A * sin(U + th_1), Px), (Px, A * U ** 3 + U), (Px, A / U), (Px, A * sp.sqrt(U)), (U - A, U + Px), (Px, sp.Abs(U) * A), (Px, A * sp.exp(U)), (Px, U * (U + A)),
                     (Px * U, U ** 2 * A), (Px, sp.atan2(U, A)), (Px, A * U + sin(2 * U)), (Px, (A * U + 1) ** 2), (Px, A * U + U ** 2 - U), (A * U * l_2, U * (A * l_2) + Px), (Px, A * U + cos(U * l_1)), (Px, A * th_1), (sin(U), cos(U)), (Px, (U + A) ** 2 - U ** 2)])
    return dict(U=U, eqs=[e], e=e, must=False)


def case(c, fam, fixed):
    from ikbtleaves.algebra_solver import algebra_id, algebra_solve
    c.fn('ikbtleaves/algebra_solver.py:algebra_id.tick', 'ikbtleaves/algebra_solver.py:linear_match', 'ikbtleaves/algebra_solver.py:algebra_solve.tick')

    def mk(w):
        for k, v in fixed.items():
            w.ex.store[('pick', k)] = v
        d = (plain if fam == 'plain' else odd)(w)
        st, u, R, bb = run_leaves([algebra_id, algebra_solve], d['U'], [th_1, th_2, d_3], [th_4], d['eqs'], [])
        d.update(st=st, u=u, R=R)
        return d

    def judge(c, d):
        u, U = d['u'], d['U']
        txt = '%s' % ([('%s = %s' % e) for e in d['eqs']],)
        if u.symbol != U:
            c.violation('unknown', 'works on another unknown: ' + txt)
        if not u.solved:
            if u.solutions or d['R'].solveN or d['st'] == b3.SUCCESS:
                c.violation('failed', 'status %s, solutions %s without solving: %s' % (d['st'], u.solutions, txt))
            if d['must']:
                c.violation('declined', 'linear equation not solved: ' + txt)
            return
        if d['st'] != b3.SUCCESS or u.nsolutions != 1 or len(u.solutions) != 1 or d['R'].solveN != 1 or 'algebra' not in u.solvemethod:
            c.violation('record', 'status %s, %s solutions, count %s, method %s: %s' % (d['st'], len(u.solutions), u.nsolutions, u.solvemethod, txt))
            return
        b = u.solutions[0]
        if b.has(U) or b.has(sp.zoo, sp.nan, sp.oo):
            c.violation('self', 'the solution %s of %s: %s' % (b, U, txt))
            return
        # exact: it satisfies every equation it may have been taken from, and
        # every value of U satisfying that equation equals it
        ok = False
        last = None
        for e in d['eqs']:
            src = e[1] - e[0]
            if not src.has(U):
                continue
            x = sp.Symbol('X')
            p = sp.expand(src).subs(U, x)
            if p.has(U) or not p.is_polynomial(x) or sp.degree(p, x) != 1:
                continue
            cf = sp.expand(src).coeff(U, 1)
            enc = Enc()
            try:
                val, cv, bv, uv = enc.real(src), enc.real(cf), enc.real(b), enc.real(U)
            except Unsupported:
                continue

            def replay(vals, src=src):
                full = fill(vals, src, b, cf)
                if abs(neval(cf, full)) < 1e-9:
                    return None
                full[U] = mpmath.mpf(0)
                r0 = neval(src, full)
                want = -r0 / neval(cf, full)
                got = real_value(b, {k: v for k, v in full.items() if k != U})
                if got is not None and abs(got - want) < 1e-8 * (1 + abs(want)):
                    return None
                return 'solution %s = %s but the equation gives %s at %s' % (b, got, want, show(full))
            q = Query(c, 8000)
            hy = [val == 0, cv != 0]
            r, m = q.check(hy + list(enc.defs) + [bv != uv])
            if r == z3.unsat:
                w_, _ = q.check(hy + list(enc.defs), timeout=4000)
                c.witness += w_ == z3.sat
                ok = True
                break
            last = (enc, hy, bv == uv, replay, src, z3.Or(bv - uv > z3.Q(1, 10), uv - bv > z3.Q(1, 10)))
        if not ok:
            if last is None:
                c.violation('odd', 'claims %s = %s from equations none of which is linear in it: %s' % (U, b, txt))
            else:
                enc, hy, goal, replay, src, rob = last
                prove(c, 'exact', enc, hy, goal, replay, 8000, '%s = %s from 0 = %s' % (U, b, src), robust=rob)
        c.sample('%s -> %s' % (txt, b))
    drive(c, mk, judge)


chk = Check('C08',
            'algebra_id and algebra_solve are ticked in a real behaviour tree on equations whose coefficient, offset, far side, shape and surrounding equations are chosen by solver variables and whose parameters are symbols; '
            'the solver decides over all reals with a non-zero coefficient that every value of the unknown satisfying the equation equals the returned expression; non-linear, embedded and cancelling shapes must be declined.',
            dict(A=len(A_), B=len(B_), far_sides=len(X_), forms=6, decoys=5, odd_shapes=21, unknowns=2, values='all reals, coefficient non-zero'), [])
for a in range(len(A_)):
    for d in range(5):
        for b in range(len(B_)):
            if THOROUGH or (a + b + d) % 3 == 0:
                chk.case('plain/a%d/b%d/d%d' % (a, b, d), case, 'plain', dict(A=a, B=b, decoy=d))
    chk.case('odd/a%d' % a, case, 'odd', dict(A=a))
sys.exit(chk.run())
