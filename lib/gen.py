"""Running generated solver code (Python, C++) on symbolic poses.

The derived symbolic solutions are the oracle; arithmetic is real, and sine,
cosine, atan2, asin, acos and square root are uninterpreted functions, so that
equality of values is decided for every pose and every parameter value."""
import os, re, random, subprocess, math, ctypes, itertools
import numpy as np
import sympy as sp
import mpmath
import z3
from lib.vf import *
from lib import sym as S
from lib.sym import SymR, SymBool, Explorer, snum, patch_math
from lib.smt import Query, neval, close, Unsupported, Enc

RS = [[sp.Symbol('r_%d%d' % (i, j)) for j in (1, 2, 3)] for i in (1, 2, 3)]
PS = list(sp.symbols('Px Py Pz'))
POSE = [[RS[i][0], RS[i][1], RS[i][2], PS[i]] for i in range(3)] + [[0, 0, 0, 1]]


class UF:
    """sympy -> z3 with the transcendental functions uninterpreted"""

    def __init__(self):
        self.cache = {}
        self.defs = []
        self.sym = {}
        self.f = {}
        self.strict = False     # take the divisions met to be defined

    def expected(self, e):
        self.strict = True
        try:
            return self.real(e)
        finally:
            self.strict = False

    def fun(self, n, k):
        if n not in self.f:
            self.f[n] = z3.Function(n, *([z3.RealSort()] * (k + 1)))
        return self.f[n]

    def real(self, e):
        e = sp.sympify(e)
        if e not in self.cache:
            self.cache[e] = self._real(e)
        return self.cache[e]

    def inv(self, b):
        k = ('inv', b)
        if k not in self.cache:
            v = self.real(b)
            i = self.fun('INV', 1)(v)
            self.defs.append(i * v == 1 if self.strict else z3.Implies(v != 0, i * v == 1))
            self.cache[k] = i
        return self.cache[k]

    def root(self, b):
        k = ('sqrt', b)
        if k not in self.cache:
            v = self.real(b)
            t = self.fun('SQRT', 1)(v)
            self.defs.append(z3.Implies(v >= 0, z3.And(t >= 0, t * t == v)))
            self.cache[k] = t
        return self.cache[k]

    def _real(self, e):
        if e.is_Symbol:
            self.sym[e] = z3.Real(str(e))
            return self.sym[e]
        if e is sp.pi:
            v = z3.Real('PI')
            self.defs += [v > z3.Q(314159265, 10 ** 8), v < z3.Q(314159266, 10 ** 8)]
            return v
        if e.is_Rational:
            return z3.Q(int(e.p), int(e.q))
        if e.is_Float:
            q = snum(float(e))
            return self.real(q)
        if e.is_Add:
            return z3.Sum([self.real(a) for a in e.args])
        if e.is_Mul:
            return z3.Product([self.real(a) for a in e.args])
        if e.is_Pow:
            b, x = e.args
            if x.is_Integer or (x.is_Rational and x.q == 2):
                n = int(x.p)
                if n > 0:
                    t = self.root(b) if x.q == 2 else self.real(b)
                else:
                    t = self.inv(sp.sqrt(b) if x.q == 2 else b)
                return z3.Product([t] * abs(n))
            raise Unsupported('power ' + str(e))
        if isinstance(e, (sp.sin, sp.cos, sp.tan, sp.asin, sp.acos, sp.atan)):
            return self.fun(type(e).__name__, 1)(self.real(e.args[0]))
        if isinstance(e, sp.atan2):
            return self.fun('atan2', 2)(self.real(e.args[0]), self.real(e.args[1]))
        if isinstance(e, sp.Abs):
            v = self.real(e.args[0])
            return z3.If(v >= 0, v, -v)
        raise Unsupported('function ' + str(e))


def canon(e):
    """arguments of every function expanded, bottom up"""
    e = sp.sympify(e)
    if not e.args:
        return e
    a = [canon(x) for x in e.args]
    r = e.func(*a)
    return sp.expand(r) if sp.count_ops(r) < 400 else r


class Lin:
    """sympy -> linear real arithmetic: every monomial of the expanded
    expression (function applications included) is a variable.  Weaker than
    UF: what it proves holds, a model may be spurious."""

    def __init__(self):
        self.v = {}
        self.defs = []

    def real(self, e):
        t = z3.RealVal(0)
        for a in sp.Add.make_args(sp.expand(canon(e))):
            co, rest = a.as_coeff_Mul()
            if co.is_Float:
                co = snum(float(co))
            if not co.is_Rational:
                co, rest = sp.S.One, a
            if rest == 1:
                t = t + z3.Q(int(co.p), int(co.q))
                continue
            if rest not in self.v:
                self.v[rest] = z3.Real('m%d' % len(self.v))
                if rest.func is sp.Abs:
                    self.defs.append(self.v[rest] >= 0)
            t = t + z3.Q(int(co.p), int(co.q)) * self.v[rest]
        return t
    expected = real


class Program:
    """a solved arm: the Robot object and what its generated code must give"""

    def __init__(self, R, params, pvals):
        self.R = R
        self.params = list(params)
        self.pvals = dict(pvals)
        env = {}
        for col in range(len(R.FinalEqnMatrix[0])):
            for row in R.FinalEqnMatrix:
                e = row[col]
                env[sp.Symbol(str(e.LHS))] = sp.sympify(e.RHS).xreplace(env)
        self.env = env
        self.rows = [[sp.Symbol(str(x)) for x in r] for r in R.solListMatrix]
        self.checks = []
        for row in R.FinalEqnMatrix:
            for e in row:
                for f in sp.sympify(e.RHS).atoms(sp.asin, sp.acos):
                    a = f.args[0].xreplace(env)
                    if a not in self.checks:
                        self.checks.append(a)

    def orders(self):
        """the joint orders a solution vector may be given in"""
        n = len(self.rows[0])
        base = list(range(n))
        alpha = sorted(base, key=lambda k: str(self.rows[0][k]))
        return [base, alpha] + [list(p) for p in itertools.islice(itertools.permutations(base), 24)]

    def domain(self, enc, out=None):
        """all inverse functions in range, except the one numbered out"""
        h = []
        for i, a in enumerate(self.checks):
            v = enc.expected(a)
            h.append(z3.And(v <= 1, v >= -1) if i != out else z3.Or(v > 1, v < -1))
        return h

    def inputs(self):
        return [s for r in POSE for s in r if isinstance(s, sp.Symbol)] + [p for p in self.params]

    def point(self, rng, sub=None, outside=None):
        """a random concrete input at which the solutions are real (or, with
        outside, check number outside is out of range)"""
        for k in range(400):
            sc = rng.choice([0.3, 1.0, 2.0, 4.0])
            p = {s: mpmath.mpf(round(rng.uniform(-1, 1) * (1 if str(s).startswith('r_') else sc), 3)) for s in self.inputs()}
            for s in self.params:
                p[s] = mpmath.mpf(round(rng.uniform(0.3, 1.7), 3))
            if sub:
                p.update({k: v for k, v in sub.items() if k in p})
            p2 = dict(p)
            try:
                if outside is not None:
                    v = mpmath.mpmathify(neval(self.checks[outside], p2))
                    if isinstance(v, mpmath.mpc) or abs(v) <= 1.01:
                        continue
                    rest = self.checks[:outside]
                    ok = True
                    for a in rest:
                        w = mpmath.mpmathify(neval(a, p2))
                        ok = ok and not isinstance(w, mpmath.mpc) and abs(w) < 0.99
                    if not ok:
                        continue
                    return p2
                for e in self.env.values():
                    v = mpmath.mpmathify(neval(e, p2))
                    if isinstance(v, mpmath.mpc) and abs(mpmath.im(v)) > 1e-20 or mpmath.isnan(v) or abs(v) > 1e6:
                        raise ValueError
            except (ValueError, ZeroDivisionError):
                continue
            return p2
        return None


def synth(forms, names, params, robot='Arm', methods=None):
    """a Robot solved by the real bookkeeping code with the given formulas"""
    from ikbtbasics.kin_cl import unknown
    from ikbtbasics.ik_classes import Robot
    R = Robot()
    R.name = robot
    unks = [unknown(n) for n in names]
    for i, (u, f) in enumerate(zip(unks, forms)):
        u.solutions = [sp.sympify(x) for x in f]
        u.solvemethod = (methods or ['algebra'] * 9)[i]
        u.set_solved(R, unks)
    R.create_solution_set()
    R.make_LHS_versions()
    return R


class Mech:
    def __init__(self, pvals):
        self.pvals = pvals


USER = re.compile(r'^(\s*(?:const\s+)?(?:double\s+)?)(\w+)(\s*=\s*)XXXXX', re.M)


def outdirs():
    for d in ('CodeGen/Python', 'CodeGen/Cpp'):
        os.makedirs(d, exist_ok=True)


def newest(d):
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
    return open(fs[-1]).read()


class ExactNp(S.NpShim):
    """numpy with exact functions of numbers while S.EXACT is set"""

    def __getattr__(self, n):
        return getattr(self._np, n)

    def _f(m):
        def f(self, x, *a, **k):
            if isinstance(x, (int, float)) and S.EXACT is not None:
                x = SymR(snum(x), S.EXACT)
            return getattr(x, m)() if isinstance(x, SymR) else getattr(self._np, m)(x, *a, **k)
        return f
    cos, sin, tan, sqrt = _f('cos'), _f('sin'), _f('tan'), _f('sqrt')
    arcsin, arccos, arctan = _f('arcsin'), _f('arccos'), _f('arctan')


# ------------------------------------------------------------------ Python
def py_source(prog):
    import ikbtfunctions.output_python as op
    outdirs()
    for f in os.listdir('CodeGen/Python'):
        os.unlink('CodeGen/Python/' + f)
    op.output_python_code(prog.R, prog.R.solutionSet)
    fs = os.listdir('CodeGen/Python')
    assert len(fs) == 1, fs
    return open('CodeGen/Python/' + fs[0]).read()


def py_load(src, values):
    """execute the generated module, with the user's numbers filled in"""
    src = USER.sub(lambda m: '%s%s%s_USER[%r]' % (m.group(1), m.group(2), m.group(3), m.group(2)), src)
    ns = {'__name__': 'generated', '_USER': values}
    import sys
    real = sys.modules['numpy']
    if S.EXACT is not None:
        sys.modules['numpy'] = ExactNp(real)
    try:
        exec(compile(src, 'generated.py', 'exec'), ns)
    finally:
        sys.modules['numpy'] = real
    fs = [n for n, f in ns.items() if callable(f) and getattr(getattr(f, '__code__', None), 'co_filename', '') == 'generated.py']
    return ns, fs


def written(lang):
    """the one file a run of ikSolver.py left in CodeGen/<lang>"""
    fs = os.listdir('CodeGen/' + lang)
    return open('CodeGen/%s/%s' % (lang, fs[0])).read() if len(fs) == 1 else None


# --------------------------------------------------------------------- C++
def cpp_source(prog):
    import ikbtfunctions.output_cpp as oc
    outdirs()
    for f in os.listdir('CodeGen/Cpp'):
        os.unlink('CodeGen/Cpp/' + f)
    oc.output_cpp_code(prog.R, prog.R.solutionSet)
    fs = os.listdir('CodeGen/Cpp')
    assert len(fs) == 1, fs
    return open('CodeGen/Cpp/' + fs[0]).read()


def cpp_fill(src, expr):
    return USER.sub(lambda m: '%s%s%s%s' % (m.group(1), m.group(2), m.group(3), expr(m.group(2))), src)


def cpp_ir(src, params):
    """LLVM IR of the generated file, parameters as external variables"""
    names = []

    def ext(n):
        names.append(n)
        return '_user_' + n
    body = cpp_fill(src, ext)
    text = ''.join('extern double _user_%s;\n' % n for n in sorted(set(names))) + body
    open('g.cpp', 'w').write(text)
    r = subprocess.run(['clang++', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off',
                        '-fno-discard-value-names', '-w', 'g.cpp', '-o', 'g.ll'], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[:600]
    return open('g.ll').read(), names


def cpp_run(src, T, params, nrow, ncol):
    body = cpp_fill(src, lambda n: repr(float(params[n])))
    open('h.cpp', 'w').write('#define main generated_main\n' + body)
    r = subprocess.run(['clang++', '-shared', '-fPIC', '-O0', '-w', 'h.cpp', '-o', 'h.so'], capture_output=True, text=True)
    if r.returncode:
        return None
    code = '''
import ctypes, sys, json
L = ctypes.CDLL('./h.so')
import subprocess
T = (ctypes.c_double*16)(*json.loads(sys.argv[1]))
n = %d
S = (ctypes.c_double*n)(*([float('nan')]*n))
f = [l.split()[-1] for l in subprocess.run(['nm', '-D', 'h.so'], capture_output=True, text=True).stdout.splitlines() if '_Z4ikin' in l][0]
rc = getattr(L, f)(T, S)
print(json.dumps([rc, list(S)]))
''' % (nrow * ncol + 64)
    import json, sys
    r = subprocess.run([sys.executable, '-c', code, json.dumps([float(x) for x in T])], capture_output=True, text=True, timeout=60)
    if r.returncode:
        return None
    return json.loads(r.stdout)


# ------------------------------------------------------------- comparison
def mod_free_close(a, b):
    return close(mpmath.mpf(a), mpmath.mpf(b), 1e-6)


def match_rows(prog, got, conc, tries=2):
    """numeric pre-match: which pose and joint order each vector denotes.
    returns (order, [pose index per vector]) or an explanation"""
    rng = random.Random(7)
    pts = [p for p in (prog.point(rng) for _ in range(tries)) if p]
    if not pts:
        return 'no point in the domain'
    exp = [[[mpmath.re(neval(prog.env[s], p)) for s in r] for r in prog.rows] for p in pts]
    val = []
    for p in pts:
        vs = []
        for g in got:
            try:
                vs.append([mpmath.re(neval(x, p)) for x in g])
            except KeyError as e:
                return 'vector contains %s, which is no input' % e
        val.append(vs)
    n = len(prog.rows[0])
    best = (-1, None, None)
    for o in prog.orders():
        used, assign = set(), []
        for i in range(len(got)):
            hit = None
            for r in range(len(prog.rows)):
                if r in used:
                    continue
                if len(got[i]) == n and all(mod_free_close(val[k][i][j], exp[k][r][o[j]]) for k in range(len(pts)) for j in range(n)):
                    hit = r
                    break
            assign.append(hit)
            if hit is not None:
                used.add(hit)
        k = sum(a is not None for a in assign)
        if k > best[0]:
            best = (k, o, assign)
        if k == len(got):
            break
    return best[1], best[2]


def judge_vectors(c, sub, prog, got, what, extra_hyps, replay, enc):
    """every vector is one of the derived poses, each pose once"""
    if len(got) != len(prog.rows):
        m = '%d solution vectors for %d derived poses' % (len(got), len(prog.rows))
        c.violation(sub + '/count', '%s: %s' % (what, m))
        return False
    mr = match_rows(prog, got, None)
    if isinstance(mr, str):
        c.incon(sub, mr)
        return False
    order, assign = mr
    free = [r for r in range(len(prog.rows)) if r not in assign]
    q = Query(c, 20000)
    for i, g in enumerate(got):
        r = assign[i] if assign[i] is not None else free.pop(0)
        if len(g) != len(prog.rows[r]):
            c.violation(sub + '/length', '%s: a solution vector has %d entries for %d solved unknowns' % (what, len(g), len(prog.rows[r])))
            return False
        want = [prog.env[prog.rows[r][order[j]]] for j in range(len(g))]
        ok = None
        for tr, mk in ((lambda e: e, lambda: enc), (lambda e: e, UF), (canon, UF)):
            if ok:
                break
            enc2 = mk()
            try:
                w2 = [enc2.expected(tr(b)) for b in want]
                eqs = [enc2.real(tr(a)) == b for a, b in zip(g, w2)]
            except Unsupported as e:
                c.incon(sub, str(e))
                return False
            h = list(extra_hyps) if enc2 is enc else []
            res, m = q.check(h + enc2.defs + [z3.Not(z3.And(eqs))])
            ok = res == z3.unsat
            if not ok and assign[i] is None:
                break
        if ok:
            continue
        msg = replay(m, r, order)
        if msg:
            c.violation(sub + '/value', '%s: %s' % (what, msg), dict(vector=i, pose=r, got=[str(x)[:200] for x in g], expected=[str(x)[:200] for x in want]))
        else:
            c.incon(sub, '%s: solver %s, not reproduced on concrete numbers: %s vs %s' % (what, res, [str(x)[:60] for x in g], [str(x)[:60] for x in want]))
        return False
    return True


# -------------------------------------------------------------- templates
Px, Py, Pz = PS
l_1, l_2, a_3, al_1, ca1, sa1 = sp.symbols('l_1 l_2 a_3 al_1 ca1 sa1')
r = {(i + 1, j + 1): RS[i][j] for i in range(3) for j in range(3)}


def templates(prev):
    """solution formulas of the kinds the solvers produce; prev = a solved
    unknown's symbol or None"""
    p = prev if prev is not None else al_1
    s, co = sp.sin, sp.cos
    D = Px ** 2 + Py ** 2
    return [
        ('atan2', [sp.atan2(r[2, 3] * co(p) - Py / 2, Px * s(p) - r[1, 3])]),
        ('atan2pi', [sp.atan2(r[1, 3], -r[2, 3]), sp.atan2(r[1, 3], -r[2, 3]) + sp.pi]),
        ('acos', [sp.acos((D - l_1 ** 2 - l_2 ** 2) / (8 * l_1 * l_2)), -sp.acos((D - l_1 ** 2 - l_2 ** 2) / (8 * l_1 * l_2))]),
        ('asin', [sp.asin((Pz * co(p) - l_1) / (6 * l_2)), sp.pi - sp.asin((Pz * co(p) - l_1) / (6 * l_2))]),
        ('linear', [Px * co(p) + 3 * Py * s(p) / 4 - l_1]),
        ('root', [sp.sqrt(4 * D + l_1 ** 2), -sp.sqrt(4 * D + l_1 ** 2)]),
        ('tanhalf', [sp.atan2(l_2, l_1) + sp.atan2(sp.sqrt(l_1 ** 2 + 5 * l_2 ** 2 - r[3, 3] ** 2 * l_2 ** 2), r[3, 3] * l_1),
                     sp.atan2(l_2, l_1) - sp.atan2(sp.sqrt(l_1 ** 2 + 5 * l_2 ** 2 - r[3, 3] ** 2 * l_2 ** 2), r[3, 3] * l_1)]),
        ('sum', [sp.asin(r[3, 1] * ca1 / 2) + sp.atan2(sa1 * Px, Py)]),
        ('ratio', [-(Pz - l_1 ** 2 / 3) / (co(p) * l_2) + r[3, 2] ** 3]),
        ('acosasin', [sp.acos(r[3, 3]) + sp.asin(r[3, 2] / 2), -sp.acos(r[3, 3]) - sp.asin(r[3, 2] / 2) + sp.pi / 2]),
        ('half', [sp.sqrt(2) * Px / 2 - 2 * sp.pi / 3 * r[1, 1]]),
        ('invroot', [l_1 / sp.sqrt(D + l_2 ** 2) - Py ** 2 / l_1 ** 2]),
    ]


METHODS = {'atan2': 'atan2(y,x)', 'atan2pi': 'atan2(y,x)', 'acos': 'arccos', 'asin': 'arcsin', 'linear': 'algebra', 'root': 'x2z2_transform',
           'tanhalf': 'sinANDcos', 'sum': 'simultaneous eqn', 'ratio': 'algebra', 'acosasin': 'arccos', 'half': 'algebra', 'invroot': 'algebra'}
NAMES = list(sp.symbols('th_2 d_3 th_23 th_4 th_1 d_1 th_5'))
PARAMS = [al_1, l_1, l_2, a_3, ca1, sa1]


def build(ts, robot='Arm', names=None, pvals=None, methods=None):
    """program from template indices"""
    names = names or NAMES
    forms, meth, prev = [], [], None
    for k, t in enumerate(ts):
        n, f = templates(prev)[t]
        forms.append(f)
        meth.append(METHODS[n])
        prev = names[k]
    R = synth(forms, names[:len(ts)], PARAMS, robot, methods or meth)
    R.params = list(PARAMS)
    R.Mech = Mech(dict(pvals or {}))
    return Program(R, PARAMS, pvals or {})
