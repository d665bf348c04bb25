"""C05: every inverse kinematics equation holds at every reachable pose."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.smt import *
from lib import arms
patch_sleep()

RS = [[sp.Symbol('r_%d%d' % (i, j)) for j in (1, 2, 3)] for i in (1, 2, 3)]
PS = list(sp.symbols('Px Py Pz'))
TD = sp.Matrix([RS[i] + [PS[i]] for i in range(3)] + [[0, 0, 0, 1]])
REQUIRED = [(0, 6), (1, 6), (2, 6), (3, 6), (4, 6), (5, 6), (1, 5), (2, 4)]


def build(name):
    if name.startswith('syn:'):
        dh, vv = arms.synth()[name[4:]]
        return sp.Matrix(dh), list(vv), [], {}
    dh, vv, params, pvals, unks = arms.robot(name)
    return dh, vv, list(params), dict(pvals)


def rng_point(syms, seed):
    import random
    r = random.Random(seed)
    return {s: mpmath.mpf(r.uniform(-2.5, 2.5)) for s in sorted(syms, key=str)}


def meq_case(c, name):
    import ikbtbasics.kin_cl as kc
    from ikbtbasics.ik_classes import Robot
    c.fn('ikbtbasics/kin_cl.py:mechanism.get_mequation_set', 'ikbtbasics/kin_cl.py:matrix_equation', 'ikbtbasics/ik_classes.py:Robot.__init__',
         'ikbtfunctions/helperfunctions.py:ik_lhs', 'ikbtbasics/pykinsym.py:H_inv_S')
    dh, vv, params, pvals = build(name)
    kc.JACOBIAN = False
    m = kc.mechanism(sp.Matrix(dh), params, vv)
    m.pvals = pvals
    trig = sp.trigsimp
    m.forward_kinematics()
    try:
        mlist = list(Robot(m, name).mequation_list)
    except Exception as e:
        c.violation('raises', 'building the equations of %s raises %r' % (name, e))
        return
    c.paths += 1
    known = set().union(*[sp.sympify(x).free_symbols for x in dh])
    sub = {k: v for k, v in arms.pvals_to_expr(m.pvals).items() if k not in known}
    L = [arms.link(*[dh[i, k] for k in range(4)]) for i in range(6)]
    Lc = L

    def links(i, j):
        P = sp.eye(4)
        for k in range(i, j):
            P = P * Lc[k]
        return P

    def enc_with_consts():
        return Enc()
    MG = sp.Matrix([[sp.Symbol('m_%d%d' % (i, j)) for j in range(4)] for i in range(3)] + [[0, 0, 0, 1]])

    def linv(t):
        R = t[0:3, 0:3]
        out = sp.eye(4)
        out[0:3, 0:3] = R.T
        out[0:3, 3] = -R.T * t[0:3, 3]
        return out
    found = {}
    pts = [rng_point(known | set(sub) | set(MG.free_symbols), s) for s in (1, 2)]
    for p in pts:
        for k, v in sub.items():
            p[k] = neval(v, p)
    prods = {(i, j): links(i, j) for i in range(7) for j in range(i, 7)}

    def approx_equal(A, B):
        for p in pts:
            for i in range(3):
                for j in range(4):
                    if not close(neval(A[i, j], p), neval(B[i, j], p), 1e-9):
                        return False
        return True
    p_td = links(0, 6)
    # pose entries this arm keeps constant may be written as symbols or as
    # their value: both sides are compared with the value put in
    joints = sorted(known - set(sp.Symbol(str(x)) for x in params), key=str)
    names = {(i, j): ([RS[i][j] for j in range(3)] + [PS[i]])[j] for i in range(3) for j in range(4)}
    fixed = {}
    for ij, sym in names.items():
        e = sp.sympify(p_td[ij])
        at0 = e.subs({q: 0 for q in joints})
        if all(close(neval(e, p), neval(at0, p), 1e-9) for p in pts):
            fixed[sym] = at0
    MF = sp.Matrix([[fixed.get(names[i, j], MG[i, j]) for j in range(4)] for i in range(3)] + [[0, 0, 0, 1]])
    for n, me in enumerate(mlist):
        Td, Ts = sp.Matrix(me.Td).subs(sub), sp.Matrix(me.Ts).subs(sub)
        # which product does the right side denote?  (candidate by evaluation,
        # decided by the solver below)
        tdsub = {RS[i][j]: p_td[i, j] for i in range(3) for j in range(3)}
        tdsub.update({PS[i]: p_td[i, 3] for i in range(3)})

        def real_point(vals):
            full = dict(vals)
            for s in known:
                full.setdefault(s, mpmath.mpf('0.7'))
            for k, v in sub.items():
                full[k] = neval(v, full)
            for s, e in tdsub.items():
                full[s] = neval(e, full)
            return full

        def rep(vals, i, j):
            full = real_point(vals)
            a, b = neval(Td[i, j], full), neval(Ts[i, j], full)
            return None if close(a, b) else 'equation %d of %s, entry (%d,%d): %s = %s but at the pose of joints %s the sides are %s and %s' % (
                n, name, i, j, str(Td[i, j])[:120], str(Ts[i, j])[:120], {str(k): mpmath.nstr(v, 6) for k, v in full.items() if k in known}, mpmath.nstr(a, 8), mpmath.nstr(b, 8))
        cand = [ij for ij in [(a, b) for a in range(6) for b in range(a + 1, 7)] if approx_equal(Ts, prods[ij])]
        cand.sort(key=lambda ij: (ij in found, ij not in REQUIRED))
        structured = False
        for (i0, j0) in cand:
            # Td must be  links(0,i0)^-1 * Tdesired * links(j0,6)^-1 : check with
            # Tdesired = links(0,i0) * M * links(j0,6) for an arbitrary M
            X = prods[(0, i0)] * MG * prods[(j0, 6)] if i0 else MG * prods[(j0, 6)]
            s = {RS[i][j]: X[i, j] for i in range(3) for j in range(3)}
            s.update({PS[i]: X[i, 3] for i in range(3)})
            left, right = Td.xreplace(s), MG
            if fixed:
                left = Td.xreplace({names[ij]: MF[ij] for ij in names})
                right = linv(prods[(0, i0)]) * MF * linv(prods[(j0, 6)])
            if not approx_equal(left, right):
                continue
            structured = True
            found.setdefault((i0, j0), n)
            for i in range(3):
                for j in range(4):
                    enc = enc_with_consts()
                    prove_equal(c, 'eq%d/rhs%d%d' % (n, i, j), Ts[i, j], prods[(i0, j0)][i, j], 'right side of equation %d of %s (%d,%d)' % (n, name, i, j), enc=enc,
                                numeric=lambda v, i=i, j=j: rep(v, i, j), timeout_ms=30000, validate=(j == 0))
                    enc = enc_with_consts()
                    prove_equal(c, 'eq%d/lhs%d%d' % (n, i, j), left[i, j], right[i, j], 'left side of equation %d of %s (%d,%d)' % (n, name, i, j), enc=enc,
                                numeric=lambda v, i=i, j=j: rep(v, i, j), timeout_ms=30000, validate=(j == 0))
            break
        if not structured:
            # no recognised form: check the equation itself at every pose
            for i in range(3):
                for j in range(4):
                    enc = enc_with_consts()
                    prove_equal(c, 'eq%d/%d%d' % (n, i, j), Td[i, j].xreplace(tdsub), Ts[i, j], 'equation %d of %s (%d,%d)' % (n, name, i, j), enc=enc,
                                numeric=lambda v, i=i, j=j: rep(v, i, j), timeout_ms=30000, validate=(j == 0))
        for k in range(4):
            if Td[3, k] != (1 if k == 3 else 0) or Ts[3, k] != (1 if k == 3 else 0):
                c.violation('eq%d/row4' % n, 'last row of equation %d is %s / %s' % (n, list(Td[3, :]), list(Ts[3, :])))
        # flat list: one equation per entry of the first three rows, plus aux
        kl = me.get_kequation_list()
        c.fn('ikbtbasics/kin_cl.py:matrix_equation.get_kequation_list')
        want = [(me.Td[i, j], me.Ts[i, j]) for i in range(3) for j in range(4)]
        got = [(e.LHS, e.RHS) for e in kl]
        rest = list(got)
        for w in want:
            if w in rest:
                rest.remove(w)
            else:
                c.violation('eq%d/list' % n, 'entry %s = %s missing from the flat equation list' % w)
        if rest and not me.auxeqns:
            c.violation('eq%d/list' % n, 'extra equations %s in the flat list' % (rest,))
    for ij in REQUIRED:
        if ij not in found:
            # the form may hold in a shape not recognised above: only a
            # violation when no other equation is left unrecognised
            c.violation('missing/%d%d' % ij, 'no equation of %s has right side T%d%d (links %d..%d) with the others moved to the desired-pose side' % (name, ij[0], ij[1], ij[0] + 1, ij[1]))
    # aux equations are returned too
    me = kc.matrix_equation(sp.Matrix(TD), sp.Matrix(TD))
    k = kc.kequation(arms.th[0], arms.th[1] + arms.th[2])
    me.auxeqns.append(k)
    if not any(e is k or (e.LHS == k.LHS and e.RHS == k.RHS) for e in me.get_kequation_list()):
        c.violation('aux', 'auxiliary equation not returned with the equation list')
    for x in list(mlist[1].Td)[:4]:
        if sp.sympify(x).free_symbols:
            validate_encoding(c, x)
    c.sample('%s: forms %s; eq1[0,3]: %s = %s' % (name, sorted(found), str(mlist[1].Td[0, 3])[:100], str(mlist[1].Ts[0, 3])[:100]))


def lhs_case(c):
    import ikbtfunctions.helperfunctions as hf
    c.fn('ikbtfunctions/helperfunctions.py:ik_lhs')
    T = sp.Matrix(hf.ik_lhs())
    c.paths += 1
    for i in range(4):
        for j in range(4):
            if T[i, j] != TD[i, j]:
                c.violation('ik_lhs/%d%d' % (i, j), 'desired pose entry (%d,%d) is %s expected %s' % (i, j, T[i, j], TD[i, j]))
    prove_equal(c, 'ik_lhs', (T * sp.Matrix([1, 2, 3, 1]))[0], (TD * sp.Matrix([1, 2, 3, 1]))[0], 'desired pose')


chk = Check('C05',
            'get_mequation_set (through Robot) runs on symbolic arms; with the desired pose replaced by links*M*links for an arbitrary M each '
            'left side is proved equal to M and each right side to the remaining product, for all joint values, parameters and M, which gives the equation at every reachable pose; unrecognised forms are checked directly.',
            dict(tables='synthetic tables and shipped robots', values='all reals', equations='every entry of every matrix equation returned'),
            ['Jacobian computation switched off through the module\'s own flag', 'which product a right side denotes is guessed by evaluation at two points and then decided by the solver'])
names = ['syn:' + k for k in arms.synth()] + arms.all_robots(True)
chk.case('ik_lhs', lhs_case)
for n in names:
    chk.case(n, meq_case, n)
sys.exit(chk.run())
