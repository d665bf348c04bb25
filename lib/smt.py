"""SymPy expression -> SMT (nonlinear real arithmetic) encoding, and queries.

Angles are encoded by their cosine and sine (c, s) with c^2+s^2 = 1; inverse
functions by their defining relations:
   t = sqrt(e)      t >= 0, t^2 = e
   atan2(y, x)      y = r s, x = r c, r > 0       (defined unless x = y = 0)
   asin(e)          s = e, c >= 0
   acos(e)          c = e, s >= 0
   atan(e)          s = e c, c > 0
so that the formula ranges over every real value of every symbol for which the
expression is defined.  A symbol used both inside and outside a sine/cosine is
encoded twice (angle and real): sound for "no counterexample".
"""
import time, random, math
from fractions import Fraction
import sympy as sp
import mpmath
import z3


class Unsupported(Exception):
    pass


class Enc:
    def __init__(self):
        self.sym = {}       # Symbol -> z3 Real
        self.ang = {}       # angle atom -> (c, s)
        self.cache = {}
        self.defs = []      # definedness / defining relations
        self.n = 0
        self.alias = {}     # angle symbol -> angle expression (definition)
        self.PI = None
        self.raw = {}       # raw symbolic algebra constants, e.g. cos(pi/5)

    def fresh(self, p):
        self.n += 1
        return z3.Real('%s!%d' % (p, self.n))

    def pi(self):
        if self.PI is None:
            self.PI = z3.Real('PI')
            self.defs += [self.PI > z3.Q(314159265, 100000000), self.PI < z3.Q(314159266, 100000000)]
        return self.PI

    # ---------------------------------------------------------------- reals
    def real(self, e):
        e = sp.sympify(e)
        r = self.cache.get(e)
        if r is None:
            r = self._real(e)
            self.cache[e] = r
        return r

    def _real(self, e):
        if e.is_Symbol:
            v = self.sym.get(e)
            if v is None:
                v = z3.Real(str(e))
                self.sym[e] = v
            return v
        if e is sp.pi:
            return self.pi()
        if e.is_Integer:
            return z3.RealVal(int(e))
        if e.is_Rational:
            return z3.Q(int(e.p), int(e.q))
        if e.is_Float:
            f = Fraction(str(e)) if 'e' not in str(e).lower() else Fraction(float(e))
            return z3.Q(f.numerator, f.denominator)
        if e.is_Add:
            r = self.real(e.args[0])
            for a in e.args[1:]:
                r = r + self.real(a)
            return r
        if e.is_Mul:
            r = self.real(e.args[0])
            for a in e.args[1:]:
                r = r * self.real(a)
            return r
        if e.is_Pow:
            b, x = e.args
            if x.is_Integer:
                n = int(x)
                if n < 0:
                    inv = self.inv(b)
                    return self.ipow(inv, -n)
                return self.ipow(self.real(b), n)
            if x.is_Rational and x.q == 2:
                t = self.sqrt(b)
                n = int(x.p)
                if n < 0:
                    inv = self.cache.get(('invsqrt', b))
                    if inv is None:
                        inv = self.fresh('inv')
                        self.defs.append(inv * t == 1)
                        self.cache[('invsqrt', b)] = inv
                    return self.ipow(inv, -n)
                return self.ipow(t, n)
            if x.is_Float and float(x) == 0.5:
                return self.sqrt(b)
            if x.is_Float and float(x) == int(float(x)):
                return self.real(sp.Pow(b, int(float(x)), evaluate=False))
            raise Unsupported('pow ' + str(e))
        if isinstance(e, sp.cos):
            return self.trig(e.args[0])[0]
        if isinstance(e, sp.sin):
            return self.trig(e.args[0])[1]
        if isinstance(e, sp.tan):
            c, s = self.trig(e.args[0])
            inv = self.fresh('inv')
            self.defs.append(inv * c == 1)
            return s * inv
        if isinstance(e, sp.Abs):
            v = self.real(e.args[0])
            return z3.If(v >= 0, v, -v)
        if isinstance(e, sp.sign):
            v = self.real(e.args[0])
            return z3.If(v > 0, z3.RealVal(1), z3.If(v < 0, z3.RealVal(-1), z3.RealVal(0)))
        if isinstance(e, (sp.atan2, sp.asin, sp.acos, sp.atan)):
            v = self.fresh('angval')
            return v
        raise Unsupported('real ' + type(e).__name__ + ' ' + str(e))

    def ipow(self, v, n):
        if n == 0:
            return z3.RealVal(1)
        r = v
        for _ in range(n - 1):
            r = r * v
        return r

    def inv(self, b):
        k = ('inv', b)
        if k not in self.cache:
            if b.is_Number and b.is_Rational:
                self.cache[k] = z3.Q(int(b.q), int(b.p)) if b.p > 0 else z3.Q(-int(b.q), -int(b.p))
            else:
                v = self.real(b)
                i = self.fresh('inv')
                self.defs.append(i * v == 1)
                self.cache[k] = i
        return self.cache[k]

    def sqrt(self, b):
        k = ('sqrt', b)
        if k not in self.cache:
            v = self.real(b)
            t = self.fresh('sqrt')
            self.defs += [t >= 0, t * t == v]
            self.cache[k] = t
        return self.cache[k]

    # --------------------------------------------------------------- angles
    def atom(self, a):
        if a in self.ang:
            return self.ang[a]
        if a.is_Symbol and a in self.alias:
            r = self.trig(self.alias[a])
            self.ang[a] = r
            return r
        nm = str(a) if a.is_Symbol else 'A%d' % (len(self.ang) + 1)
        c, s = z3.Real('c[%s]' % nm), z3.Real('s[%s]' % nm)
        self.defs.append(c * c + s * s == 1)
        self.ang[a] = (c, s)
        if a.is_Symbol:
            pass
        elif isinstance(a, sp.atan2):
            y, x = self.real(a.args[0]), self.real(a.args[1])
            r = self.fresh('r')
            self.defs += [r > 0, r * s == y, r * c == x]
        elif isinstance(a, sp.asin):
            self.defs += [s == self.real(a.args[0]), c >= 0]
        elif isinstance(a, sp.acos):
            self.defs += [c == self.real(a.args[0]), s >= 0]
        elif isinstance(a, sp.atan):
            self.defs += [s == self.real(a.args[0]) * c, c > 0]
        else:
            raise Unsupported('angle atom ' + str(a))
        return (c, s)

    def trig(self, e):
        """(cos, sin) of the angle expression e."""
        e = sp.sympify(e)
        k = ('trig', e)
        if k not in self.cache:
            self.cache[k] = self._trig(e)
        return self.cache[k]

    @staticmethod
    def add(p, q):
        (c1, s1), (c2, s2) = p, q
        return (c1 * c2 - s1 * s2, s1 * c2 + c1 * s2)

    def mult(self, p, n):
        if n < 0:
            c, s = self.mult(p, -n)
            return (c, -s)
        if n == 0:
            return (z3.RealVal(1), z3.RealVal(0))
        r = p
        for _ in range(n - 1):
            r = self.add(r, p)
        return r

    def _trig(self, e):
        if e.is_Add:
            r = None
            for a in e.args:
                t = self.trig(a)
                r = t if r is None else self.add(r, t)
            return r
        co, rest = e.as_coeff_Mul()
        if rest is sp.pi or e == 0:
            q = sp.Rational(co) if co.is_Rational else None
            if q is None:
                raise Unsupported('angle ' + str(e))
            cv, sv = sp.cos(q * sp.pi), sp.sin(q * sp.pi)
            if cv.has(sp.cos) or sv.has(sp.cos) or cv.has(sp.sin) or sv.has(sp.sin):
                return self.atom_const(e)
            return (self.real(cv), self.real(sv))
        if e.is_Number:
            return self.atom_const(e)
        if co.is_Integer:
            if rest.is_Add:
                return self.mult(self.trig(rest), int(co))
            return self.mult(self.atom(rest), int(co))
        if co.is_Float and float(co) == int(float(co)):
            return self.mult(self.atom(rest), int(float(co)))
        # distribute products over sums, e.g. -(a+b)
        x = sp.expand(e)
        if x != e:
            return self.trig(x)
        return self.atom_any(e)

    def atom_const(self, e):
        k = ('cst', e)
        if k not in self.ang:
            c, s = self.fresh('cc'), self.fresh('cs')
            self.defs.append(c * c + s * s == 1)
            cv, sv = sp.cos(e).evalf(20), sp.sin(e).evalf(20)
            for v, w in ((c, cv), (s, sv)):
                f = Fraction(str(w))
                d = Fraction(1, 10 ** 15)
                lo, hi = f - d, f + d
                self.defs += [v > z3.Q(lo.numerator, lo.denominator), v < z3.Q(hi.numerator, hi.denominator)]
            self.ang[k] = (c, s)
        return self.ang[k]

    def atom_any(self, e):
        """an opaque angle such as alpha/2 or a*th: unrelated to others."""
        k = ('any', e)
        if k not in self.ang:
            c, s = self.fresh('oc'), self.fresh('os')
            self.defs.append(c * c + s * s == 1)
            self.ang[k] = (c, s)
        return self.ang[k]

    # ------------------------------------------------------------ model out
    def values(self, model):
        """symbol -> mpmath value, from a model."""
        out = {}
        for a, v in self.sym.items():
            out[a] = zval(model, v)
        for a, cs in self.ang.items():
            if isinstance(a, sp.Symbol):
                if a in self.alias:
                    continue
                out[a] = mpmath.atan2(zval(model, cs[1]), zval(model, cs[0]))
        for a, x in self.alias.items():
            try:
                out[a] = neval(x, out)
            except Exception:
                pass
        return out


def zval(model, v):
    mpmath.mp.dps = 40
    x = model.eval(v, model_completion=True)
    if z3.is_rational_value(x):
        return mpmath.mpf(x.numerator_as_long()) / mpmath.mpf(x.denominator_as_long())
    if z3.is_algebraic_value(x):
        y = x.approx(35)
        return mpmath.mpf(y.numerator_as_long()) / mpmath.mpf(y.denominator_as_long())
    raise Unsupported('model value ' + str(x))


def neval(e, vals):
    """numeric value of a sympy expression (complex allowed), 30 digits.

    Plain recursive evaluation of the expression as written."""
    mpmath.mp.dps = 40
    mp = mpmath
    memo = {}

    def ev(x):
        if x in memo:
            return memo[x]
        r = _ev(x)
        memo[x] = r
        return r

    def _ev(x):
        if x.is_Symbol:
            return mp.mpmathify(vals[x])
        if x is sp.pi:
            return mp.pi
        if x is sp.I:
            return mp.mpc(0, 1)
        if x.is_Rational:
            return mp.mpf(int(x.p)) / int(x.q)
        if x.is_Float:
            return mp.mpf(str(x)) if True else None
        if x.is_Add:
            return mp.fsum([ev(a) for a in x.args])
        if x.is_Mul:
            r = mp.mpf(1)
            for a in x.args:
                r = r * ev(a)
            return r
        if x.is_Pow:
            b, p = ev(x.args[0]), x.args[1]
            if p.is_Integer:
                return b ** int(p)
            if p.is_Rational and p.q == 2:
                return mp.sqrt(b) ** int(p.p)
            return mp.power(b, ev(p))
        f = {sp.sin: mp.sin, sp.cos: mp.cos, sp.tan: mp.tan, sp.asin: mp.asin, sp.acos: mp.acos,
             sp.atan: mp.atan, sp.Abs: mp.fabs, sp.sign: mp.sign}.get(x.func)
        if f:
            return f(ev(x.args[0]))
        if isinstance(x, sp.atan2):
            a, b = ev(x.args[0]), ev(x.args[1])
            a, b = mp.mpmathify(a), mp.mpmathify(b)
            if isinstance(a, mp.mpc) or isinstance(b, mp.mpc):
                if abs(mp.im(a)) < mp.mpf(10) ** -25 and abs(mp.im(b)) < mp.mpf(10) ** -25:
                    a, b = mp.re(a), mp.re(b)
                else:
                    return mp.mpc('nan')
            return mp.atan2(a, b)
        return mp.mpmathify(sp.N(x.subs({k: sp.sympify(str(v)) for k, v in vals.items()}), 30))
    return ev(sp.sympify(e))


class Query:
    """Solver queries with accounting on a Case."""

    def __init__(self, case, timeout_ms=20000):
        self.c = case
        self.timeout = timeout_ms

    def check(self, asserts, timeout=None):
        s = z3.Solver()
        s.set('timeout', int(timeout or self.timeout))
        s.set('random_seed', 1)
        for a in asserts:
            s.add(a)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        if r == z3.unknown and (timeout or self.timeout) >= 3000:
            # second strategy: the nlsat based tactic
            g = z3.Tactic('qfnra-nlsat').solver()
            g.set('timeout', int(timeout or self.timeout))
            for a in asserts:
                g.add(a)
            try:
                r2 = g.check()
            except z3.Z3Exception:
                r2 = z3.unknown
            if r2 != z3.unknown:
                r, s = r2, g
            dt = time.time() - t
        self.c.queries += 1
        self.c.solver_s += dt
        if r == z3.unsat:
            self.c.unsat += 1
        elif r == z3.sat:
            self.c.sat += 1
        else:
            self.c.unknown += 1
        return r, (s.model() if r == z3.sat else None)


PYTH = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (20, 21, 29), (12, 35, 37), (9, 40, 41), (28, 45, 53), (33, 56, 65)]


def rand_fix(enc, rng, keep=0.0):
    """assertions fixing a random subset of symbols/angles at rational points."""
    out = []
    for a, v in enc.sym.items():
        if rng.random() >= keep:
            q = Fraction(rng.randint(-40, 40), 10)
            if q == 0:
                q = Fraction(7, 10)
            out.append(v == z3.Q(q.numerator, q.denominator))
    for a, (c, s) in enc.ang.items():
        if isinstance(a, sp.Symbol) and a not in enc.alias and rng.random() >= keep:
            x, y, z = rng.choice(PYTH)
            if rng.random() < 0.5:
                x, y = y, x
            out += [c == z3.Q(rng.choice([-1, 1]) * x, z), s == z3.Q(rng.choice([-1, 1]) * y, z)]
    return out


def prove(case, sub, enc, hyps, goal, replay, timeout_ms=20000, what='', robust=None, tries=6, witness=True):
    """Discharge  hyps & enc.defs => goal  for all values.

    goal: z3 Bool.  replay(values) -> None if the real code is fine at these
    values, else a string saying what fails (then it is a violation).
    robust: optional stronger negation used to get a clear-cut model.
    Returns 'holds', 'violated', 'inconclusive'.
    """
    q = Query(case, timeout_ms)
    base = list(hyps) + list(enc.defs)
    if witness:
        # reachability twin: hypotheses satisfiable
        ok = False
        rng = random.Random(12345)
        for k in range(3):
            r, m = q.check(base + (rand_fix(enc, rng, [0.3, 0.5, 0.7][k]) if k else []), timeout=min(timeout_ms, 8000))
            if r == z3.sat:
                ok = True
                case.witness += 1
                break
            if r == z3.unsat and k == 0:
                break
        if not ok:
            case.incon(sub, 'no reachability witness (%s): %s' % (r, what))
            return 'inconclusive'
    if hasattr(enc, 'linear'):
        # monomials as free variables: weaker, linear, often enough
        r, m = q.check(enc.linear(base + [z3.Not(goal)]), timeout=2000)
        if r == z3.unsat:
            return 'holds'
    r, m = q.check(base + [z3.Not(goal)])
    if r == z3.unsat:
        return 'holds'
    cands = []
    if r == z3.sat:
        cands.append(m)
    tried = []
    rng = random.Random(99)
    neg = [z3.Not(goal)]
    seq = [None]
    if robust is not None:
        seq = [robust] + [None]
    for st in seq:
        for k in range(tries):
            if cands:
                m = cands.pop()
            else:
                keep = [0.5, 0.25, 0.0, 0.7, 0.35, 0.1][k % 6]
                extra = rand_fix(enc, rng, keep)
                rr, m = q.check(base + ([st] if st is not None else neg) + extra, timeout=min(timeout_ms, 4000))
                if rr != z3.sat:
                    continue
            try:
                vals = enc.values(m)
                res = replay(vals)
            except Unsupported as e:
                res = None
            if res:
                case.violation(sub, '%s: %s' % (what, res), dict(values={str(a): str(b)[:25] for a, b in vals.items()}))
                return 'violated'
            tried.append({str(a): str(b)[:12] for a, b in vals.items()})
    if r == z3.sat:
        case.nonrepro.append('%s/%s: %s; models tried: %s' % (case.key, sub, what, tried[:2]))
        return 'nonrepro'
    case.incon(sub, 'solver unknown: ' + what)
    return 'inconclusive'


def close(a, b, tol=1e-8):
    mpmath.mp.dps = 40
    d = abs(a - b)
    return d <= tol * (1 + abs(a) + abs(b))


class NotPoly(Exception):
    pass


def normal_form(e):
    """The trigonometric polynomial e as a polynomial in c_i, s_i and the
    other symbols, in normal form modulo c_i^2 + s_i^2 = 1 (degree of every
    s_i at most one); sine/cosine of sums expanded by the addition formulas.
    Returns (poly, ring generators description)."""
    from sympy.polys.rings import ring
    from sympy import QQ
    e = sp.sympify(e)
    angs, syms, roots = set(), set(), set()

    def surd(x):
        """primes whose square roots make up the number x = n**(k/2)"""
        return sorted(sp.factorint(x.base.p * x.base.q))

    def is_surd(x):
        return x.is_Pow and x.base.is_Rational and x.base > 0 and x.exp.is_Rational and x.exp.q == 2

    def scan(x):
        if isinstance(x, (sp.sin, sp.cos)):
            for t in sp.Add.make_args(sp.expand(x.args[0])):
                co, rest = t.as_coeff_Mul()
                if rest is sp.pi:
                    cv, sv = sp.cos(t), sp.sin(t)
                    pows = (cv.atoms(sp.Pow) | sv.atoms(sp.Pow))
                    if cv.has(sp.cos) or sv.has(sp.sin) or cv.has(sp.sin) or sv.has(sp.cos) or any(not is_surd(p) for p in pows):
                        angs.add(t)
                    else:
                        for p in pows:
                            roots.update(surd(p))
                    continue
                if t.is_Number and t != 0:
                    angs.add(t)
                    continue
                if not (rest.is_Symbol and co.is_Integer):
                    raise NotPoly(str(x))
                angs.add(rest)
        elif x.is_Symbol:
            syms.add(x)
        elif x.is_Add or x.is_Mul:
            for a in x.args:
                scan(a)
        elif is_surd(x):
            roots.update(surd(x))
        elif x.is_Pow:
            if not (x.exp.is_Integer and x.exp > 0):
                raise NotPoly(str(x))
            scan(x.base)
        elif x.is_Number and not x.is_infinite:
            pass
        else:
            raise NotPoly(str(x))
    scan(e)
    angs, syms = sorted(angs, key=str), sorted(syms, key=str)
    roots = sorted(roots)
    names = ['c[%s]' % a for a in angs] + ['s[%s]' % a for a in angs] + ['sqrt[%d]' % n for n in roots] + [str(x) for x in syms]
    if not names:
        names = ['dummy']
    R, *gens = ring(names, QQ)
    C = dict(zip(angs, gens[:len(angs)]))
    S = dict(zip(angs, gens[len(angs):2 * len(angs)]))
    na, nr = len(angs), len(roots)
    Q2 = dict(zip(roots, gens[2 * na:2 * na + nr]))
    V = dict(zip(syms, gens[2 * na + nr:]))

    def reduce(p):
        for i in range(na):
            if any(m[na + i] > 1 for m in p):
                out = R.zero
                sub = 1 - gens[i] ** 2
                for m, co in p.terms():
                    k = m[na + i]
                    if k > 1:
                        m2 = list(m)
                        m2[na + i] = k % 2
                        out += R({tuple(m2): co}) * sub ** (k // 2)
                    else:
                        out += R({m: co})
                p = out
        for i, n in enumerate(roots):
            j = 2 * na + i
            if any(m[j] > 1 for m in p):
                out = R.zero
                for m, co in p.terms():
                    m2 = list(m)
                    m2[j] = m[j] % 2
                    out += R({tuple(m2): co * n ** (m[j] // 2)})
                p = out
        return p
    memo = {}

    def number(x):
        if x.is_Rational:
            return R(QQ(int(x.p), int(x.q)))
        if x.is_Add:
            return sum((number(a) for a in x.args), R.zero)
        if x.is_Mul:
            r = R.one
            for a in x.args:
                r = reduce(r * number(a))
            return r
        # (p/q)**(k/2)
        p, q, k = int(x.base.p), int(x.base.q), int(x.exp.p)
        if k < 0:
            p, q, k = q, p, -k
        r = R(QQ(1, q))                       # sqrt(p/q) = sqrt(p*q)/q
        for f, m in sp.factorint(p * q).items():
            r = r * Q2[f] ** int(m)
        return reduce(r ** k)

    def trig(a):
        a = sp.expand(a)
        c, s = R.one, R.zero
        for t in sp.Add.make_args(a):
            co, rest = t.as_coeff_Mul()
            if t == 0:
                continue
            if t in C and not t.is_Symbol:
                c2, s2 = C[t], S[t]
                c, s = reduce(c * c2 - s * s2), reduce(s * c2 + c * s2)
                continue
            if rest is sp.pi:
                c2, s2 = number(sp.cos(t)), number(sp.sin(t))
                c, s = reduce(c * c2 - s * s2), reduce(s * c2 + c * s2)
                continue
            n = int(co)
            for _ in range(abs(n)):
                c2, s2 = C[rest], S[rest] if n > 0 else -S[rest]
                c, s = reduce(c * c2 - s * s2), reduce(s * c2 + c * s2)
        return c, s

    def ev(x):
        if x in memo:
            return memo[x]
        if isinstance(x, sp.cos):
            r = trig(x.args[0])[0]
        elif isinstance(x, sp.sin):
            r = trig(x.args[0])[1]
        elif x.is_Symbol:
            r = V[x]
        elif x.is_Rational:
            r = R(QQ(int(x.p), int(x.q)))
        elif x.is_Float:
            f = Fraction(str(x)) if 'e' not in str(x).lower() else Fraction(float(x))
            r = R(QQ(f.numerator, f.denominator))
        elif x.is_Add:
            r = R.zero
            for a in x.args:
                r += ev(a)
        elif x.is_Mul:
            r = R.one
            for a in x.args:
                r = reduce(r * ev(a))
        elif is_surd(x):
            r = number(x)
        else:
            r = R.one
            b = ev(x.base)
            for _ in range(int(x.exp)):
                r = reduce(r * b)
        memo[x] = r
        return r
    return reduce(ev(e)), angs, roots, syms


def normal_z3(enc, e):
    """z3 term of the normal form of e, over enc's variables"""
    p, angs, roots, syms = normal_form(e)
    cs = [enc.atom(a) if a.is_Symbol else enc.trig(a) for a in angs]
    v = [c for c, s in cs] + [s for c, s in cs] + [enc.sqrt(sp.Integer(n)) for n in roots] + [enc.real(x) for x in syms]
    out = z3.RealVal(0)
    for m, co in p.terms():
        t = z3.Q(int(co.numerator), int(co.denominator))
        for i, k in enumerate(m):
            for _ in range(k):
                t = t * v[i]
        out = out + t
    return out


NF_NOTE = 'some equalities are put in normal form modulo c^2+s^2=1 (sympy polynomial ring) before the solver decides them'


def try_normal(enc, e):
    try:
        return normal_z3(enc, e)
    except NotPoly:
        return None


def prove_equal(case, sub, e1, e2, what, enc=None, hyps=(), timeout_ms=20000, validate=True, real_note='', numeric=None):
    """e1 == e2 for all values of all symbols (both sympy expressions).

    Replays a counterexample numerically on the two expressions, which are
    the real code's output and the specification."""
    enc = enc or Enc()
    e1, e2 = sp.sympify(e1), sp.sympify(e2)
    v1, v2 = enc.real(e1), enc.real(e2)

    def replay(vals):
        if numeric:
            return numeric(vals)
        full = dict(vals)
        for s in (e1.free_symbols | e2.free_symbols):
            full.setdefault(s, mpmath.mpf('0.7'))
        a, b = neval(e1, full), neval(e2, full)
        if close(a, b):
            return None
        return 'got %s = %s, expected %s = %s at %s' % (str(e1)[:160], mpmath.nstr(a, 10), str(e2)[:160], mpmath.nstr(b, 10),
                                                       {str(k): mpmath.nstr(v, 8) for k, v in full.items()})
    d = v1 - v2
    # quick attempt on the raw formula, then on the normal form
    q = Query(case, timeout_ms)
    nf = None
    if sp.count_ops(e1) + sp.count_ops(e2) > 100:
        nf = try_normal(enc, e1 - e2)
    if nf is not None:
        case.notes.append(NF_NOTE)
        r, _m = q.check(list(hyps) + list(enc.defs) + [nf != 0], timeout=min(timeout_ms, 2500))
    else:
        r, _m = q.check(list(hyps) + list(enc.defs) + [v1 != v2], timeout=min(timeout_ms, 2500))
    if r == z3.unsat:
        if validate:
            q2, _ = q.check(list(hyps) + list(enc.defs), timeout=4000)
            if q2 == z3.sat:
                case.witness += 1
            elif q2 == z3.unsat:
                case.incon(sub, 'vacuous hypotheses: ' + what)
                return 'inconclusive'
        return 'holds'
    if r == z3.unknown:
        nf2 = nf if nf is not None else try_normal(enc, e1 - e2)
        if nf2 is not None:
            case.notes.append(NF_NOTE)
            d = nf2
            v1, v2 = d, z3.RealVal(0)
    res = prove(case, sub, enc, hyps, v1 == v2, replay, timeout_ms, what, robust=z3.Or(d > z3.Q(1, 100), d < z3.Q(-1, 100)), witness=validate)
    return res


def validate_encoding(case, e, seed=3):
    """Compare the encoding of e with numeric evaluation of e at a rational
    point chosen by the solver; raises on disagreement."""
    enc = Enc()
    v = enc.real(e)
    rng = random.Random(seed)
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(*enc.defs)
    s.add(*rand_fix(enc, rng))
    if s.check() != z3.sat:
        return False
    m = s.model()
    vals = enc.values(m)
    a, b = zval(m, v), neval(e, vals)
    if not close(a, b):
        raise AssertionError('encoding disagrees with evaluation: %s: %s vs %s' % (e, a, b))
    case.validated += 1
    return True
