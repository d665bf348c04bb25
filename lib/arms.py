"""DH table families and the specification of link transforms."""
import sympy as sp
import itertools, random

pi = sp.pi
th = sp.symbols('th_1:7')
dd = sp.symbols('d_1:7')
ll = sp.symbols('l_1:7')
aa = sp.symbols('a_1:7')
al = sp.Symbol('al_g')
be = sp.Symbol('be_g')


def link(al, a, d, t):
    ca, sa, ct, st = sp.cos(al), sp.sin(al), sp.cos(t), sp.sin(t)
    return sp.Matrix([[ct, -st, 0, a], [st * ca, ct * ca, -sa, -sa * d], [st * sa, ct * sa, ca, ca * d], [0, 0, 0, 1]])


def synth():
    """name -> (rows, vv): six-row tables mixing joint types and twists"""
    T = {}
    z = [0, 0, 0, 0]
    T['gen6R'] = ([[0, 0, 0, th[0]], [-pi / 2, aa[1], dd[1], th[1]], [0, aa[2], dd[2], th[2]], [pi / 2, aa[3], dd[3], th[3]], [-pi / 2, aa[4], 0, th[4]], [pi / 2, 0, dd[5], th[5]]], [1] * 6)
    T['twist2'] = ([[0, 0, 0, th[0]], [al, aa[1], 0, th[1]], [pi / 2, aa[2], dd[2], th[2]], [be, 0, ll[3], th[3]], z, z], [1, 1, 1, 1, 1, 1])
    T['twistnum'] = ([[sp.Rational(2, 5), aa[0], ll[0], th[0]], [pi / 3, aa[1], 0, th[1]], [-pi / 2, 0, dd[2], 0], [pi / 4, aa[3], ll[2], th[3]], z, z], [1, 1, 0, 1, 1, 1])
    T['twistrep'] = ([[al, 0, 0, th[0]], [-al, aa[1], 0, th[1]], [al, 0, dd[2], th[2]], [pi, 0, 0, th[3]], z, z], [1, 1, 1, 1, 1, 1])
    T['twist6'] = ([[0, 0, ll[0], th[0]], [pi / 2, 0, 0, th[1]], [0, aa[2], 0, th[2]], z, [0, aa[4], 0, th[4]], [al, aa[5], ll[5], th[5]]], [1, 1, 1, 1, 1, 1])
    T['prr'] = ([[-pi / 2, 0, dd[0], 0], [pi / 2, ll[0], ll[1], th[1]], [0, ll[2], 0, th[2]], [pi / 2, 0, ll[3], 0], z, z], [0, 1, 1, 1, 1, 1])
    T['rpr'] = ([[0, 0, ll[0], th[0]], [pi / 2, aa[1], dd[1], 0], [-pi / 2, 0, 0, th[2]], [0, 0, dd[3], pi / 2], z, z], [1, 0, 1, 0, 1, 1])
    T['ppp'] = ([[0, 0, dd[0], 0], [pi / 2, 0, dd[1], pi / 2], [-pi / 2, aa[2], dd[2], 0], z, z, z], [0, 0, 0, 1, 1, 1])
    T['last2p'] = ([[0, 0, 0, th[0]], [pi / 2, 0, 0, th[1]], [-pi / 2, aa[2], 0, th[2]], [pi / 2, 0, ll[3], th[3]], [0, aa[4], dd[4], 0], [pi / 2, aa[5], dd[5], ll[5] * 0]], [1, 1, 1, 1, 0, 0])
    T['planar4'] = ([[0, 0, 0, th[0]], [0, aa[1], 0, th[1]], [0, aa[2], 0, th[2]], [0, aa[3], dd[3], th[3]], z, z], [1] * 6)
    T['flip'] = ([[pi, 0, ll[0], th[0]], [-pi, aa[1], 0, th[1]], [pi, aa[2], ll[1], th[2] + pi / 2], [pi / 2, aa[3], 0, th[3] - pi / 2], [0, 0, ll[4], th[4]], z], [1, 1, 1, 1, 1, 1])
    T['numeric'] = ([[0, 1, 2, th[0]], [pi / 2, sp.Rational(1, 2), 3, th[1]], [-pi / 2, 2, sp.Rational(-1, 3), th[2]], [0, sp.Rational(7, 10), 0, pi / 2], z, [pi / 2, 0, 4, th[5]]], [1] * 6)
    T['mid_p'] = ([[0, 0, ll[0], th[0]], [-pi / 2, 0, ll[1], th[1]], [pi / 2, 0, dd[2], 0], [0, 0, 0, th[3]], [-pi / 2, 0, 0, th[4]], [pi / 2, 0, ll[5], th[5]]], [1, 1, 0, 1, 1, 1])
    return {k: (sp.Matrix(r), list(v)) for k, (r, v) in T.items()}


QUICK_ROBOTS = ['Puma', 'KR16', 'UR5', 'Chair_Helper', 'Wrist', 'Stanford', 'Raven-II', 'Olson13', 'MiniDD', 'Craig417']


def pvals_to_expr(pvals, sp=sp):
    """stored parameter values that are text (np.cos(alpha)) as expressions"""
    out = {}
    for k, v in pvals.items():
        if isinstance(v, str):
            try:
                out[k] = sp.sympify(v.replace('np.', ''))
            except Exception:
                pass
    return out


def robot(name):
    from ikbtfunctions.ik_robots import robot_params
    return robot_params(name)


SLOW = []


def all_robots(thorough=True):
    return QUICK_ROBOTS + ['Pumaoffset', 'Bartell', 'Brad', 'Sims11', 'ArmRobo', 'Arm_3', 'Khat6DOF', 'KawasakiRS05L', 'KawasakiRS007L', 'ICP5p5_A21', 'Wachtveitl', 'Frei13', 'Parkman13', 'Palm13', 'Minder13', 'Mackler13', 'Axtman13', 'Srisuan11', 'JennyGuoSp24', 'DZhang', 'Issue4']
