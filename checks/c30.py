"""C30: expression and number helpers."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.sym import *
from lib.smt import prove_equal
import sympy as sp
import math, itertools
import numpy as np
from fractions import Fraction
patch_sleep()

NAMES = ['th_1', 'th_12', 'd_1', 'th_2', 'th_123'] + (['th_3'] if THOROUGH else [])
N = len(NAMES)
Px, l1 = sp.symbols('Px l_1')
FORMS = ['sum', 'tuple', 'matrix', 'product']
FN = ['ikbtfunctions/helperfunctions.py:' + f for f in ('count_unknowns', 'get_unknowns', 'get_deps', 'get_variables', 'find_obj')]


class In:
    def __init__(self, ex=None, values=None):
        self.ex, self.v = ex, values

    def pick(self, name, opts):
        if self.ex is not None:
            return self.ex.pick(name, opts)
        return opts[int(self.v.get(name, 0))]

    def flag(self, name):
        b = z3.Bool(name)
        if self.ex is not None:
            return self.ex.flag(name), b
        v = bool(self.v.get(name, False))
        return v, z3.BoolVal(v)


def term(i, s):
    return [sp.cos(s), s, sp.sin(s + l1), sp.atan2(s, Px), sp.sqrt(s ** 2 + 1) / Px, -2 * s][i % 6]


def observe(w, form):
    import ikbtfunctions.helperfunctions as hf
    from ikbtbasics.kin_cl import unknown
    out = []

    def want(g, sub, what):
        out.append((sub, what, g if z3.is_expr(g) else z3.BoolVal(bool(g))))
    rev = w.pick('order', [0, 1])
    k = w.pick('terms', [0, 2])
    us, occ, slv, zo, zs = [], {}, {}, {}, {}
    for n in NAMES:
        u = unknown(sp.Symbol(n))
        occ[n], zo[n] = w.flag('in_' + n)
        slv[n], zs[n] = w.flag('solved_' + n)
        u.solved = slv[n]
        us.append(u)
    if rev:
        us = us[::-1]
    ts = [term(i + k, sp.Symbol(n)) for i, n in enumerate(NAMES) if occ[n]]
    if form == 'sum':
        e = sp.Add(Px, *ts)
    elif form == 'product':
        e = sp.Mul(Px + l1, *ts)
    elif form == 'tuple':
        e = sp.Tuple(sp.Add(Px, *ts[::2]), sp.Add(l1, *ts[1::2]))
    else:
        e = sp.Matrix([[Px, sp.Add(*ts[::2])], [0, sp.Add(l1, *ts[1::2])]])
    nz = lambda l: z3.Sum([z3.If(x, 1, 0) for x in l])
    unk = {n: z3.And(zo[n], z3.Not(zs[n])) for n in NAMES}
    n = hf.count_unknowns(us, e)
    want(z3.IntVal(int(n)) == nz(unk.values()), 'count_unknowns', 'count_unknowns of %s is %s' % (e, n))

    def members(l, which, sub, what):
        l = list(l)
        want(all(any(x is u for u in us) for x in l) and len({id(x) for x in l}) == len(l), sub, '%s: not a duplicate-free list of the given unknowns: %s' % (what, l))
        for u in us:
            want(z3.BoolVal(any(x is u for x in l)) == which[u.name], sub, '%s gives %s' % (what, l))
    members(hf.get_unknowns(us, e), unk, 'get_unknowns', 'get_unknowns of %s with solved %s' % (e, [u for u in us if u.solved]))
    members(hf.get_variables(us, e), zo, 'get_variables', 'get_variables of %s' % (e,))
    try:
        d = hf.get_deps(us, e)
    except AssertionError:
        d = None
    want(z3.BoolVal(d is None) == (nz(unk.values()) > 0), 'get_deps', 'get_deps of %s: %s with solved %s' % (e, 'refused' if d is None else 'accepted', [u for u in us if u.solved]))
    if d is not None:
        members(d, {n: z3.And(zo[n], zs[n]) for n in NAMES}, 'get_deps', 'get_deps of %s' % (e,))
    for u in us:
        want(hf.find_obj(u.symbol, us) is u, 'find_obj', 'find_obj(%s) gives %s' % (u.symbol, hf.find_obj(u.symbol, us)))
        rest = [x for x in us if x is not u]
        want(hf.find_obj(u.symbol, rest) is None, 'find_obj', 'find_obj(%s) in a list without it gives %s' % (u.symbol, hf.find_obj(u.symbol, rest)))
    want([x.solved for x in us] == [slv[x.name] for x in us], 'pure', 'a helper changed an unknown')
    return out


def list_case(c, form, fixed):
    c.fn(*FN)

    def replay(vals):
        try:
            for sub, what, g in observe(In(values=vals), form):
                if z3.is_false(z3.simplify(g)):
                    return what
        except Exception as e:
            return 'raises %r' % (e,)
        return None
    ex = Explorer(c)

    def body(e):
        for n, v in fixed.items():
            if e.flag(n) != v:
                raise PathAbort()
        return observe(In(e), form)
    k = 0
    for kind, val in ex.run(body):
        if kind != 'ok':
            c.violation('raises', replay(ex.witness()) or 'raises %r' % (val,))
            return
        if not ex.check(z3.And([g for _, _, g in val]), 'all', 'helpers', replay):
            for sub, what, g in val:
                ex.check(g, sub, what, replay)
        if c.violations:
            return
        k += 1
        if k % 50 == 1 and replay(ex.witness()) is None:
            c.validated += 1
    c.sample('%s: %d paths' % (form, k))


def wrap_case(c):
    import ikbtbasics.pykinsym as pk
    c.fn('ikbtbasics/pykinsym.py:wrap_angle_N')
    patch_math()
    P = z(math.pi)

    def replay(vals):
        t = Fraction(vals['t'])
        for d in (0, Fraction(1, 10 ** 15), -Fraction(1, 10 ** 15)):
            x = float(t + d)
            y = pk.wrap_angle_N(x)
            q = (y - x) / (2 * math.pi)
            if -3 * math.pi <= x < 3 * math.pi and (not (-math.pi <= y < math.pi) or abs(q - round(q)) > 1e-9):
                return 'wrap_angle_N(%r) = %r' % (x, y)
        return None
    ex = Explorer(c)
    for kind, val in ex.run(lambda e: pk.wrap_angle_N(e.real('t', -3 * math.pi, 3 * math.pi))):
        if kind != 'ok':
            raise val
        y, t = z(val), z3.Real('t')
        ex.check(z3.And(y >= -P, y < P), 'range', 'wrapped angle outside [-pi, pi)', replay)
        ex.check(z3.Or([y == t + 2 * k * P for k in range(-2, 3)]), 'congruent', 'wrapped angle not congruent', replay)
        m = ex.witness()
        if replay(m) is None:
            c.validated += 1
    c.sample('wrap_angle_N over [-3 pi, 3 pi)')


def approx_case(c, verbose):
    import ikbtbasics.pykinsym as pk
    c.fn('ikbtbasics/pykinsym.py:approx_N')
    patch_math()

    def replay(vals):
        a, b = float(vals['a']), float(vals['b'])
        r, r2 = pk.approx_N(a, b, verbose), pk.approx_N(b, a, verbose)
        want = abs(a - b) < max(0.001 * max(abs(a), abs(b)), 1e-5)
        return None if bool(r) == want and bool(r2) == bool(r) else 'approx_N(%r, %r) = %r, swapped %r; within tolerance: %s' % (a, b, r, r2, want)
    ex = Explorer(c)

    def body(e):
        a, b = e.real('a'), e.real('b')
        return bool(pk.approx_N(a, b, verbose)), bool(pk.approx_N(b, a, verbose))
    for kind, val in ex.run(body):
        if kind != 'ok':
            raise val
        a, b = z3.Real('a'), z3.Real('b')
        ab = lambda x: z3.If(x >= 0, x, -x)
        mx = z3.If(ab(a) >= ab(b), ab(a), ab(b))
        thr = z3.If(z(0.001) * mx >= z(1e-5), z(0.001) * mx, z(1e-5))
        # keep clear of the rounding of the real code when a model is replayed
        ex.check(z3.BoolVal(val[0]) == (ab(a - b) < thr), 'tolerance', 'approx_N against its tolerance', replay)
        ex.check(z3.BoolVal(val[0] == val[1]), 'symmetric', 'approx_N swapped', replay)
        m = ex.witness()
        if replay(m) is None:
            c.validated += 1
    c.sample('approx_N for all real pairs, verbose=%s' % verbose)


def deg_case(c):
    import ikbtbasics.pykinsym as pk
    c.fn('ikbtbasics/pykinsym.py:deg', 'ikbtbasics/pykinsym.py:rad2deg')
    # pi between two rationals, 40 digits
    lo = Fraction(31415926535897932384626433832795028841971, 10 ** 40)
    hi = lo + Fraction(1, 10 ** 40)
    s = z3.Solver()
    pi = z3.Real('pi')
    s.add(pi > z3.Q(lo.numerator, lo.denominator), pi < z3.Q(hi.numerator, hi.denominator))
    for name, got, spec in (('deg', pk.deg, pi / 180), ('rad2deg', pk.rad2deg, 180 / pi)):
        c.queries += 1
        s.push()
        x = z3.Real('x')
        s.add(x == spec)
        if s.check() == z3.sat:
            c.witness += 1
        eps = 4 * sp.Rational(np.spacing(float(got)))
        e = z3.Q(int(eps.p), int(eps.q))
        g = z(float(got))
        s.add(z3.Or(g - x > e, x - g > e))
        c.queries += 1
        if s.check() == z3.sat:
            c.sat += 1
            c.violation(name, '%s = %r is not pi/180 resp. 180/pi to double precision' % (name, got))
        else:
            c.unsat += 1
        s.pop()


SQ = sp.symbols('c_1:7 s_1:7')
th = sp.symbols('th_1:7')
PAIRS = [(1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (1, 3)]


def expand_back(e):
    d = {}
    for i in range(6):
        d[sp.Symbol('c_%d' % (i + 1))] = sp.cos(th[i])
        d[sp.Symbol('s_%d' % (i + 1))] = sp.sin(th[i])
    for i, j in PAIRS:
        d[sp.Symbol('c_%d%d' % (i, j))] = sp.cos(th[i - 1] + th[j - 1])
        d[sp.Symbol('s_%d%d' % (i, j))] = sp.sin(th[i - 1] + th[j - 1])
    return sp.Matrix(e).xreplace(d)


def squeeze_case(c, what, part=0):
    import ikbtbasics.pykinsym as pk
    c.fn('ikbtbasics/pykinsym.py:notation_squeeze')
    if what == 'synthetic':
        l, a, d = sp.symbols('l_1 a_2 d_3')
        es = []
        for i in range(6):
            es += [sp.sin(th[i]), sp.cos(th[i]), l * sp.sin(th[i]) ** 2 + a * sp.cos(th[i]) ** 3, sp.cos(th[i]) * sp.sin(th[(i + 1) % 6]) - d]
        for i in range(6):
            for j in range(i + 1, 6):
                es += [sp.sin(th[i] + th[j]), a * sp.cos(th[i] + th[j]) + sp.cos(th[i]) * sp.sin(th[j]), sp.cos(th[i] - th[j]) + sp.sin(th[i] - th[j])]
        es += [sp.sin(2 * th[0]), sp.cos(3 * th[1]), sp.sin(th[0] + th[1] + th[2]), sp.cos(th[1] + th[2] + th[3]) * sp.sin(th[1] + th[2]), sp.sin(th[2] + sp.pi / 2), sp.sin(th[3] + sp.pi / 4), sp.cos(-th[0]), sp.Integer(3), th[0] * sp.cos(th[0])]
        m = sp.Matrix(es)
    else:
        from lib.arms import synth, robot
        import ikbtbasics.kin_cl as kc
        rows, vv = synth()[what]
        T = sp.eye(4)
        for r in range(6):
            T = T * pk.Link_S(*rows[r, :])
        m = sp.Matrix(T).reshape(16, 1)
    got = pk.notation_squeeze(m)
    c.paths += 1
    if sp.Matrix(got).shape != m.shape:
        c.violation('shape', 'notation_squeeze changes the shape')
        return
    back = expand_back(got)
    for i in range(m.shape[0]):
        prove_equal(c, 'squeeze', back[i, 0], m[i, 0], 'notation_squeeze(%s) = %s' % (str(m[i, 0])[:120], str(got[i, 0])[:120]), validate=(i % 5 == 0))
        if c.violations:
            return
    c.sample('notation_squeeze on %s: %d entries' % (what, m.shape[0]))


chk = Check('C30',
            'the list and count helpers run on unknowns whose presence in the expression and solved state are symbolic; approx_N and wrap_angle_N run on symbolic reals; the constants and the compact '
            'display notation are checked by direct queries. The solver decides every answer against its definition for all values.',
            dict(unknowns='%d with overlapping names (%s), any subset present, any subset solved, both list orders' % (N, ', '.join(NAMES)), expressions='4 forms x 2 term assignments',
                 numbers='all reals for approx_N; [-3 pi, 3 pi) for wrap_angle_N', notation='all link products of two arms and 80 synthetic entries, all values'),
            ['floating point arithmetic is read as real arithmetic; pi is the double nearest to pi in wrap_angle_N'])
for f in FORMS:
    for a in (True, False):
        for b in (True, False):
            chk.case('list/%s/%d%d' % (f, a, b), list_case, f, {'in_th_1': a, 'in_th_12': b})
chk.case('wrap', wrap_case)
chk.case('approx0', approx_case, False)
chk.case('approx1', approx_case, True)
chk.case('deg', deg_case)
chk.case('squeeze/synthetic', squeeze_case, 'synthetic')
for r in (['planar4', 'rpr'] if not THOROUGH else ['planar4', 'rpr', 'twistnum', 'mid_p', 'prr', 'numeric']):
    chk.case('squeeze/' + r, squeeze_case, r)
sys.exit(chk.run())
