"""C03: forward kinematics = ordered product of link transforms."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.smt import *
from lib import arms
import numpy as np
patch_sleep()


def build(name):
    if name.startswith('syn:'):
        dh, vv = arms.synth()[name[4:]]
        return sp.Matrix(dh), list(vv), [], {}
    dh, vv, params, pvals, unks = arms.robot(name)
    return dh, vv, list(params), dict(pvals)


def defloat(e):
    from fractions import Fraction
    e = sp.sympify(e)
    rep = {}
    for f in e.atoms(sp.Float):
        q = Fraction(str(f)).limit_denominator(10000)
        if abs(float(f) - q.numerator / q.denominator) < 1e-13:
            rep[f] = sp.Rational(q.numerator, q.denominator)
    return e.xreplace(rep)


def spec_links(dh):
    return [arms.link(*[dh[i, k] for k in range(4)]) for i in range(6)]


def fk_case(c, name):
    import ikbtbasics.kin_cl as kc
    c.fn('ikbtbasics/kin_cl.py:mechanism.forward_kinematics', 'ikbtbasics/pykinsym.py:Link_S')
    dh, vv, params, pvals = build(name)
    L = spec_links(dh)
    kc.JACOBIAN = False        # velocity part is C04's subject
    m = kc.mechanism(sp.Matrix(dh), params, vv)
    m.pvals = pvals
    before = set(params)
    try:
        m.forward_kinematics()
    except Exception as e:
        c.violation('raises', 'forward_kinematics raises %r on %s' % (e, name))
        return
    c.paths += 1
    # constants introduced for general twists
    known = set()
    for x in dh:
        known |= sp.sympify(x).free_symbols
    sub = {k: v for k, v in arms.pvals_to_expr(m.pvals).items() if k not in known}
    T06 = sp.Matrix(m.T_06)
    links = [sp.Matrix(getattr(m, 'T_%d%d' % (i, i + 1))) for i in range(6)]
    used = set().union(*[x.free_symbols for x in list(T06) + [y for t in links for y in t]])
    for s in used - known:
        if s not in set(m.params):
            c.violation('undeclared', 'constant %s of the transforms of %s is not declared as a parameter' % (s, name))
        if s not in sub:
            c.violation('novalue', 'constant %s of the transforms of %s has no stored value' % (s, name))
    # every introduced constant: value is the cosine / sine of a twist it stands for
    twists = [dh[i, 0] for i in range(6)]
    for s, v in sub.items():
        if s in set(m.params) and s not in before:
            if not any(v == sp.cos(t) or v == sp.sin(t) for t in twists):
                c.violation('value', 'introduced constant %s has value %s, not the cosine/sine of a twist angle' % (s, v))
    P = sp.eye(4)
    for t in L:
        P = P * t

    def cmp(tag, got, want):
        for i in range(4):
            for j in range(4):
                g = got[i, j].subs(sub)
                w = want[i, j]
                prove_equal(c, '%s/%d%d' % (tag, i, j), g, w, '%s of %s entry (%d,%d)' % (tag, name, i, j), validate=(i + j == 0), timeout_ms=30000)
    for i in range(6):
        cmp('link%d%d' % (i, i + 1), links[i], L[i])
    cmp('T06', T06, P)
    Ts = m.Ts
    for i in range(6):
        if sp.Matrix(Ts[i]) != links[i]:
            cmp('Ts%d' % i, sp.Matrix(Ts[i]), L[i])
    for x in list(T06)[:4]:
        if x.free_symbols:
            validate_encoding(c, x)
    # numerical evaluation: run with fresh symbols as pose values (final
    # all-numeric test stubbed), result must be the product at those values
    free = sorted(used, key=str)
    poseq = {s: sp.Symbol('q_' + str(s)) for s in free}
    joint = [s for s in free if str(s).startswith('th_')]
    pose = {s: poseq[s] for s in joint}
    par = {s: poseq[s] for s in free if s not in joint}
    real_chk = kc.Num_check
    kc.Num_check = lambda *_a: None
    try:
        N = kc.forward_kinematics_N(m, dict(pose), dict(par))
    finally:
        kc.Num_check = real_chk
    c.fn('ikbtbasics/kin_cl.py:forward_kinematics_N')
    c.paths += 1
    inv = {q: s for s, q in poseq.items()}
    for i in range(4):
        for j in range(4):
            g = defloat(sp.sympify(N[i, j]).subs(inv).subs(sub))
            prove_equal(c, 'FKN/%d%d' % (i, j), g, P[i, j], 'numerical FK of %s entry (%d,%d)' % (name, i, j), validate=False, timeout_ms=30000)
    # concrete run
    rng = __import__('random').Random(7)
    cp = {s: rng.uniform(-2, 2) for s in joint}
    cq = {s: rng.uniform(0.3, 2) for s in free if s not in joint}
    full = dict(cp)
    full.update(cq)
    for s in known:
        full.setdefault(s, rng.uniform(0.3, 2))
    for s in list(cq):
        if s in sub:
            cq[s] = float(neval(sub[s], full))
    try:
        Nn = kc.forward_kinematics_N(m, cp, cq)
    except (SystemExit, Exception) as e:
        c.violation('FKN/raises', 'forward_kinematics_N refuses a fully numeric pose of %s: %r' % (name, e))
        return
    for i in range(4):
        for j in range(4):
            if not close(float(Nn[i, j]), neval(P[i, j], full), 1e-7):
                c.violation('FKN/%d%d' % (i, j), 'numeric FK %s (%d,%d): %s expected %s' % (name, i, j, Nn[i, j], neval(P[i, j], full)))
    c.validated += 1
    c.sample('%s: T06[0,3] = %s' % (name, str(T06[0, 3])[:150]))


chk = Check('C03',
            'mechanism.forward_kinematics runs on symbolic DH tables; each link transform, the overall transform and forward_kinematics_N are '
            'proved entry by entry equal to the ordered product of modified-DH links for all joint and parameter values; twist constants must be declared with the value they stand for.',
            dict(tables='synthetic tables of lib/arms.py plus robots of the shipped table', values='all reals'),
            ['Jacobian computation switched off through the module\'s own JACOBIAN flag', 'Num_check stubbed while the pose is symbolic'])
names = ['syn:' + k for k in arms.synth()] + arms.all_robots(THOROUGH)
for n in names:
    chk.case(n, fk_case, n)
sys.exit(chk.run())
