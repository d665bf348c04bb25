"""Runs the complete unmodified ikSolver script on a given arm, in the current
(scratch) directory."""
import os, sys, shutil, runpy
import sympy as sp
from lib.vf import REPO


def unknowns_of(syms):
    from ikbtbasics.kin_cl import unknown
    out = []
    for i, s in enumerate(syms):
        u = unknown(s)
        u.n = i + 1
        out.append(u)
    return out


def prepare():
    for d in ('CodeGen/Python', 'CodeGen/Cpp', 'LaTex', 'logs'):
        os.makedirs(d, exist_ok=True)
    for f in ('IK_preamble.tex', 'IK_close.tex', 'ik_report_template.tex'):
        p = os.path.join(REPO, 'LaTex', f)
        if os.path.exists(p) and not os.path.exists('LaTex/' + f):
            shutil.copy(p, 'LaTex/' + f)


MODELS = {}


def install():
    """let robot_params also answer for the arms in MODELS, in every module
    which has imported it"""
    import ikbtfunctions.ik_robots as ir
    real = ir.robot_params
    if not getattr(real, 'is_stub', False):
        def robot_params(n):
            if n not in MODELS:
                return real(n)
            dh, vv, params, pvals, joints = MODELS[n]
            return [sp.Matrix(dh), list(vv), list(params), dict(pvals), unknowns_of(joints)]
        robot_params.is_stub = True
        ir.robot_params = robot_params
    for m in list(sys.modules.values()):
        f = getattr(m, '__dict__', {}).get('robot_params')
        if f is not None and f is not ir.robot_params:
            m.robot_params = ir.robot_params


SEEN = []


def record():
    """remember the blackboard of the last tree that was ticked"""
    import b3
    real = b3.BehaviorTree.tick
    if getattr(real, 'is_recorder', False):
        return

    def tick(self, target, blackboard, *a, **k):
        del SEEN[:]
        SEEN.append(blackboard)
        return real(self, target, blackboard, *a, **k)
    tick.is_recorder = True
    b3.BehaviorTree.tick = tick


MADE = {}


def recorded(path, name):
    """run a program; the last mechanism and robot made while it ran"""
    import ikbtbasics.kin_cl as kc
    import ikbtbasics.ik_classes as ic
    for cls in (kc.mechanism, ic.Robot):
        real = cls.__init__
        if not getattr(real, 'is_recorder', False):
            def init(self, *a, _real=real, _key=cls.__name__, **k):
                MADE[_key] = self
                return _real(self, *a, **k)
            init.is_recorder = True
            cls.__init__ = init
    MADE.clear()
    script(path, name)
    return MADE['mechanism'], MADE['Robot']


def script(path, name):
    argv = list(sys.argv)
    sys.argv[:] = [path, name]
    try:
        return runpy.run_path(os.path.join(REPO, path), run_name='__main__')
    finally:
        sys.argv[:] = argv


def solve(name, dh, vv, params, pvals, joints, path='ikSolver.py'):
    """run ikSolver.py; returns the robot and the unknowns it worked on"""
    install()
    record()
    prepare()
    MODELS[name] = (dh, vv, params, pvals, joints)
    return run(path, name)


def solve_listed(name, path='ikSolver.py'):
    """the same for one of the robots the program lists"""
    record()
    prepare()
    return run(path, name)


def run(path, name):
    try:
        g = script(path, name)
    except SystemExit as e:
        R = SEEN[0].get('Robot') if SEEN else None
        if e.code in (None, 0) and R is not None and not R.solutionSet:
            g = {}                 # the orderly end of a run which solved nothing
        else:
            raise
    if not SEEN:
        raise NotImplementedError('%s ticks no behaviour tree' % path)
    return dict(R=SEEN[0].get('Robot'), unks=SEEN[0].get('unknowns'), globals=g)


z4 = [0, 0, 0, 0]
th = sp.symbols('th_1:7')
dd = sp.symbols('d_1:7')
ll = sp.symbols('l_1:7')
aa = sp.symbols('a_1:7')
al = sp.symbols('al_1:7')
pi = sp.pi


def arms():
    """small arms: name -> (dh, vv, params, joints)"""
    A = {}

    def add(name, rows, joints, params, vv=None):
        rows = [list(r) for r in rows] + [z4] * (6 - len(rows))
        vv = [1 if str(r[3]).startswith('th_') or any(str(s).startswith('th_') for s in sp.sympify(r[3]).free_symbols) else (0 if any(str(s).startswith('d_') for s in sp.sympify(r[2]).free_symbols) else 1) for r in rows]
        A[name] = (sp.Matrix(rows), vv, list(params), list(joints))
    add('RR', [[0, 0, 0, th[0]], [pi / 2, 0, ll[0], th[1]]], [th[0], th[1]], [ll[0]])
    add('RP', [[0, 0, 0, th[0]], [pi / 2, 0, dd[1], 0]], [th[0], dd[1]], [])
    add('PR', [[0, 0, dd[0], 0], [pi / 2, ll[0], 0, th[1]]], [dd[0], th[1]], [ll[0]])
    add('PP', [[0, 0, dd[0], 0], [pi / 2, 0, dd[1], 0]], [dd[0], dd[1]], [])
    add('RRR_wrist', [[0, 0, 0, th[0]], [pi / 2, 0, 0, th[1]], [-pi / 2, 0, 0, th[2]]], [th[0], th[1], th[2]], [])
    add('RRP', [[0, 0, 0, th[0]], [pi / 2, 0, 0, th[1]], [-pi / 2, 0, dd[2], 0]], [th[0], th[1], dd[2]], [])
    add('PRR', [[-pi / 2, 0, dd[0], 0], [pi / 2, 0, ll[0], th[1]], [pi / 2, ll[1], 0, th[2]]], [dd[0], th[1], th[2]], [ll[0], ll[1]])
    add('RPR', [[0, 0, ll[0], th[0]], [pi / 2, 0, dd[1], 0], [-pi / 2, 0, 0, th[2]]], [th[0], dd[1], th[2]], [ll[0]])
    add('PPP', [[0, 0, dd[0], 0], [pi / 2, 0, dd[1], pi / 2], [pi / 2, 0, dd[2], 0]], [dd[0], dd[1], dd[2]], [])
    add('PLANAR2', [[0, 0, 0, th[0]], [0, ll[0], 0, th[1]]], [th[0], th[1]], [ll[0]])
    add('PLANAR3', [[0, 0, 0, th[0]], [0, ll[0], 0, th[1]], [0, ll[1], 0, th[2]]], [th[0], th[1], th[2]], [ll[0], ll[1]])
    add('SCARA', [[0, 0, 0, th[0]], [0, ll[0], 0, th[1]], [0, ll[1], 0, th[2]], [0, 0, dd[3], 0]], [th[0], th[1], th[2], dd[3]], [ll[0], ll[1]])
    add('RRR_elbow', [[0, 0, 0, th[0]], [pi / 2, 0, 0, th[1]], [0, ll[0], 0, th[2]]], [th[0], th[1], th[2]], [ll[0]])
    add('TWIST2', [[0, 0, 0, th[0]], [al[0], ll[0], 0, th[1]]], [th[0], th[1]], [al[0], ll[0]])
    add('RRRR', [[0, 0, 0, th[0]], [pi / 2, 0, 0, th[1]], [-pi / 2, 0, ll[0], th[2]], [pi / 2, 0, 0, th[3]]], [th[0], th[1], th[2], th[3]], [ll[0]])
    add('DIFF', [[0, 0, 0, th[0]], [pi / 2, 0, 0, th[1]], [pi, ll[0], 0, th[2]]], [th[0], th[1], th[2]], [ll[0]])
    add('RRP_off', [[0, 0, 0, th[0]], [-pi / 2, ll[0], ll[1], th[1]], [pi / 2, 0, dd[2], 0]], [th[0], th[1], dd[2]], [ll[0], ll[1]])
    add('PRRR', [[0, 0, dd[0], 0], [0, 0, 0, th[1]], [pi / 2, 0, 0, th[2]], [-pi / 2, ll[0], 0, th[3]]], [dd[0], th[1], th[2], th[3]], [ll[0]])
    return A
