"""C04: the Jacobian maps joint rates to the end-effector velocity."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.smt import *
from lib import arms
patch_sleep()


def build(name):
    if name.startswith('syn:'):
        dh, vv = arms.synth()[name[4:]]
        return sp.Matrix(dh), list(vv), [], {}
    if name.startswith('vv:'):
        # same table, every joint type vector: joint i moves theta (1) or d (0)
        bits = name[3:]
        vv = [int(b) for b in bits]
        rows = []
        tw = [0, -sp.pi / 2, 0, sp.pi / 2, arms.al, sp.pi / 2]
        for i in range(6):
            rows.append([tw[i], arms.aa[i] if i in (1, 2, 4) else 0, arms.dd[i], arms.th[i] if i != 4 or vv[i] else 0])
        return sp.Matrix(rows), vv, [], {}
    if name.startswith('tw:'):
        # parallel, antiparallel and crossed neighbours in every position
        tw = {'0': 0, 'p': sp.pi, 'n': -sp.pi, 'h': sp.pi / 2, 'm': -sp.pi / 2, 'g': arms.al}
        _, t, v = name.split(':')
        vv = [int(b) for b in v]
        return sp.Matrix([[tw[t[i]], arms.aa[i] if i in (1, 2, 4) else 0, arms.dd[i] if i != 2 or not vv[i] else 0, arms.th[i] if vv[i] else 0] for i in range(6)]), vv, [], {}
    dh, vv, params, pvals, unks = arms.robot(name)
    return dh, vv, list(params), dict(pvals)


def spec(dh, vv):
    """columns of the body Jacobian, from the definition
    d/dq_j of the pose, pulled back to the end-effector frame."""
    L = [arms.link(*[dh[i, k] for k in range(4)]) for i in range(6)]
    cols = []
    for j in range(6):
        T = sp.eye(4)
        for k in range(j + 1, 6):
            T = T * L[k]
        R, P = T[0:3, 0:3], T[0:3, 3]
        zax = sp.Matrix([0, 0, 1])
        if vv[j] == 1:
            v = R.T * zax.cross(P)
            w = R.T * zax
        else:
            v = R.T * zax
            w = sp.zeros(3, 1)
        cols.append(list(v) + list(w))
    return sp.Matrix(6, 6, lambda i, j: cols[j][i])


def lemma_case(c, kind):
    """the closed form = definition, for every rigid T0j = (A,a), Tj6 = (B,b):
    the pose derivative T0j * xi_j * Tj6 equals (R [w]x, R v), R = A B."""
    e1, e2, e3, f1, f2, f3 = sp.symbols('e1:4 f1:4')

    def rot(x, y, z):
        L = arms.link
        return (L(0, 0, 0, x) * L(sp.pi / 2, 0, 0, y) * L(-sp.pi / 2, 0, 0, z))[0:3, 0:3]
    A, B = rot(e1, e2, e3), rot(f1, f2, f3)
    b = sp.Matrix(sp.symbols('b1:4'))
    zax = sp.Matrix([0, 0, 1])
    if kind == 'R':
        v, w = B.T * zax.cross(b), B.T * zax
        Z = sp.Matrix([[0, -1, 0], [1, 0, 0], [0, 0, 0]])
        dR, dp = A * Z * B, A * Z * b
    else:
        v, w = B.T * zax, sp.zeros(3, 1)
        dR, dp = sp.zeros(3, 3), A * zax
    R = A * B
    W = sp.Matrix([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    for i in range(3):
        prove_equal(c, 'lemma/v%d' % i, (R * v)[i], dp[i], 'spec velocity', timeout_ms=60000)
        for k in range(3):
            prove_equal(c, 'lemma/w%d%d' % (i, k), (R * W)[i, k], dR[i, k], 'spec angular velocity', timeout_ms=60000)
    c.paths += 1


def jac_case(c, name):
    import ikbtbasics.kin_cl as kc
    c.fn('ikbtbasics/kin_cl.py:mechanism.forward_kinematics (velocity propagation)', 'ikbtbasics/pykinsym.py:ManipJacobian_S')
    dh, vv, params, pvals = build(name)
    m = kc.mechanism(sp.Matrix(dh), params, vv)
    m.pvals = pvals
    real = kc.sp.trigsimp
    try:
        m.forward_kinematics()
    except Exception as e:
        c.violation('raises', 'forward_kinematics raises %r on %s' % (e, name))
        return
    c.paths += 1
    known = set().union(*[sp.sympify(x).free_symbols for x in dh])
    sub = {k: v for k, v in arms.pvals_to_expr(m.pvals).items() if k not in known}
    J = sp.Matrix(m.J66)
    if J.shape != (6, 6):
        c.violation('shape', 'Jacobian shape %s' % (J.shape,))
        return
    S = spec(dh, vv)
    for i in range(6):
        for j in range(6):
            g, w = sp.sympify(J[i, j]).subs(sub), S[i, j]
            what = 'Jacobian of %s (joint types %s) entry row %d col %d' % (name, vv, i, j)
            prove_equal(c, 'J/%d%d' % (i, j), g, w, what, timeout_ms=30000, validate=(i == j))
    for x in list(J)[:8]:
        if sp.sympify(x).free_symbols:
            validate_encoding(c, x)
    c.sample('%s: J[0,0] = %s' % (name, str(J[0, 0])[:150]))


chk = Check('C04',
            'mechanism.forward_kinematics runs on symbolic DH tables and joint-type vectors; every Jacobian entry is '
            'proved equal, for all joint values, rates and parameters, to the pull-back of the pose derivative; that closed form is itself proved equal to the derivative for arbitrary rigid transforms before and after the joint.',
            dict(tables='synthetic tables, all shipped robots, and one generic table under joint-type vectors (16 quick / 64 thorough)', values='all reals'),
            ['constant rows are treated as joints of the type the joint-type vector says, as the code does'])
names = ['syn:' + k for k in arms.synth()] + arms.all_robots(True)
if THOROUGH:
    names += ['vv:' + format(i, '06b') for i in range(64)]
else:
    names += ['vv:' + s for s in ('111111', '000000', '011111', '101111', '110111', '111011', '111101', '111110', '100000', '010000', '001000', '000100', '000010', '000001', '010101', '101010')]
names += ['tw:' + t for t in ('0phphp:111111', '0hphph:111111', 'hp0hmp:110111', 'nhp0ph:101101', '0p0p0p:111011', 'mpghpg:111111', '0nphnp:111111', 'pphhpp:011110')]
if THOROUGH:
    names += ['tw:%s:%s' % (''.join('p' if j == k else 'h' if (j + k) % 2 else '0' for j in range(6)), v) for k in range(6) for v in ('111111', '110111', '101110')]
for k in 'RP':
    chk.case('lemma:' + k, lemma_case, k)
for n in names:
    chk.case(n, jac_case, n)
sys.exit(chk.run())
