"""Algebraic encoding: expressions with sines, cosines, square roots and
inverse functions as fractions N/D of polynomials over generators with
monic quadratic relations

   base angle      s^2 = 1 - c^2
   square root     t^2 = P      (t >= 0)
   sign            g^2 = 1      (g*P >= 0, so |P| = g*P)

kept in normal form (every s, t, g to degree at most one).  The generators are
also SMT variables with their defining constraints, so an identity that the
normal form does not already show is decided by the solver."""
from fractions import Fraction
import sympy as sp
from sympy import QQ
from sympy.polys.rings import ring
import z3
from lib.smt import Enc, Unsupported


class Frac:
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n, self.d = n, d


class Alg:
    def __init__(self, *exprs, alias=None, spare=0):
        self.alias = dict(alias or {})
        ang, syms, extra = {}, {}, spare
        seen = set()
        nodes = []
        todo = [sp.sympify(e) for e in exprs] + [sp.sympify(v) for v in self.alias.values()]
        for e in todo:
            for x in sp.preorder_traversal(e):
                if x in seen:
                    continue
                seen.add(x)
                nodes.append(x)
        for x in sorted(nodes, key=str):
            if isinstance(x, (sp.sin, sp.cos, sp.tan)):
                for t in sp.Add.make_args(sp.expand(x.args[0])):
                    self._angles(t, ang)
            elif isinstance(x, (sp.asin, sp.acos, sp.atan, sp.atan2)):
                extra += 4
                ang.setdefault(x, None)
            elif x.is_Pow and x.exp.is_Rational and x.exp.q == 2:
                extra += 3
            elif isinstance(x, sp.Abs):
                extra += 2
            elif x.is_Symbol:
                syms[x] = None
        self.angles = [a for a in sorted(ang, key=str) if a.is_Symbol and a not in self.alias]
        for v in self.alias.values():
            for t in sp.Add.make_args(sp.expand(sp.sympify(v))):
                self._angles(t, ang)
        self.angles = [a for a in sorted(ang, key=str) if a.is_Symbol and a not in self.alias]
        self.syms = sorted(syms, key=str)
        names = []
        for a in self.angles:
            names += ['c[%s]' % a, 's[%s]' % a]
        nb = len(names)
        names += ['%s' % x for x in self.syms]
        ns = len(names)
        # radicals are numbered in creation order; later ones may depend on
        # earlier ones only
        extra += 24
        names += ['q%d' % i for i in range(extra)]
        self.R, *g = ring(names, QQ)
        self.gen = g
        self.free = list(range(ns, len(names)))
        self.C = {a: g[2 * i] for i, a in enumerate(self.angles)}
        self.S = {a: g[2 * i + 1] for i, a in enumerate(self.angles)}
        self.V = {x: g[nb + i] for i, x in enumerate(self.syms)}
        self.rel = {2 * i + 1: 1 - g[2 * i] ** 2 for i in range(len(self.angles))}   # gen index -> value of its square
        self.order = [2 * i + 1 for i in range(len(self.angles))]
        self.z = [z3.Real(n if not n.startswith('q') else 'q!%s' % n[1:]) for n in names]
        self.mons = {}
        self.defs = [self.z[2 * i] ** 2 + self.z[2 * i + 1] ** 2 == 1 for i in range(len(self.angles))]
        self.cache = {}
        self.radc = {}
        self.sgnc = {}
        self.nonzero = []          # denominators
        self.one = Frac(self.R.one, self.R.one)
        self.zero = Frac(self.R.zero, self.R.one)

    def _angles(self, t, ang):
        co, rest = t.as_coeff_Mul()
        if rest is sp.pi or t.is_Number:
            return
        if rest.is_Symbol:
            ang.setdefault(rest, None)
        elif isinstance(rest, (sp.asin, sp.acos, sp.atan, sp.atan2)):
            ang.setdefault(rest, None)
        else:
            raise Unsupported('angle ' + str(t))
        if not co.is_Integer:
            raise Unsupported('angle ' + str(t))

    # ------------------------------------------------------------ normal form
    def reduce(self, p):
        for i in reversed(self.order):
            while True:
                hi = max((m[i] for m in p), default=0)
                if hi < 2:
                    break
                out = self.R.zero
                q = self.rel[i]
                for m, co in p.terms():
                    k = m[i]
                    if k > 1:
                        m2 = list(m)
                        m2[i] = k % 2
                        out += self.R({tuple(m2): co}) * q ** (k // 2)
                    else:
                        out += self.R({m: co})
                p = out
        return p

    def newgen(self):
        if not self.free:
            raise Unsupported('too many radicals')
        return self.free.pop(0)

    def sign(self, p):
        """generator g with g^2 = 1 and g*p >= 0"""
        if p.is_ground:
            return self.R.one if p.LC > 0 else -self.R.one
        key = p.monic()
        lead = p.LC
        if key not in self.sgnc:
            i = self.newgen()
            self.rel[i] = self.R.one
            self.order.append(i)
            zi = self.z[i]
            self.defs += [z3.Or(zi == 1, zi == -1), zi * self.poly(key) >= 0]
            self.sgnc[key] = self.gen[i]
        return self.sgnc[key] if lead > 0 else -self.sgnc[key]

    def absv(self, p):
        return self.reduce(self.sign(p) * p)

    def small(self, *ps):
        """the polynomials over the generators they use"""
        used = sorted({i for p in ps for m in p for i, k in enumerate(m) if k})
        key = ('ring', tuple(used))
        if key not in self.cache:
            self.cache[key] = ring(['x%d' % i for i in used] or ['x'], QQ)[0]
        R = self.cache[key]
        out = [R({(tuple(m[i] for i in used) or (0,)): c for m, c in p.terms()}) for p in ps]
        n = len(self.gen)

        def back(q):
            d = {}
            for m, c in q.terms():
                mm = [0] * n
                for i, k in zip(used, m):
                    mm[i] = k
                d[tuple(mm)] = c
            return self.R(d)
        return out, back

    def sqf(self, p):
        if p.is_ground:
            return p.LC, []
        (q,), back = self.small(p)
        co, fs = q.sqf_list()
        return co, [(back(f), k) for f, k in fs]

    def cancel(self, n, d):
        (a, b), back = self.small(n, d)
        a, b = a.cancel(b)
        return back(a), back(b)

    def root(self, p):
        """non-negative square root of the (reduced) polynomial p"""
        if p == 0:
            return self.R.zero
        key = p
        if key in self.radc:
            return self.radc[key]
        co, fs = self.sqf(p)
        out = self.R.one
        rest = self.R.one
        co = Fraction(int(co.numerator), int(co.denominator))
        for f, k in fs:
            if k // 2:
                out = out * self.absv(f) ** (k // 2)
            if k % 2:
                rest = rest * f
        # (1-c)(1+c) = s^2
        for a in self.angles:
            w = 1 - self.C[a] ** 2
            q, r = divmod(rest, w) if not rest.is_ground else (None, 1)
            if q is not None and r == 0:
                rest = q
                out = out * self.absv(self.S[a])
                break
        if rest.is_ground:
            co = co * Fraction(int(rest.LC.numerator), int(rest.LC.denominator))
            rest = self.R.one
        else:
            # make the leading coefficient of rest +-1
            lc = Fraction(int(rest.LC.numerator), int(rest.LC.denominator))
            co *= abs(lc)
            rest = rest.mul_ground(QQ(1) / QQ(abs(lc).numerator, abs(lc).denominator))
        if co < 0:
            co, rest = -co, -rest
        # numeric factor: co = a^2 * b
        n, d = co.numerator, co.denominator
        a, b = Fraction(1, d), n * d
        f = 2
        sq = 1
        while f * f <= b:
            while b % (f * f) == 0:
                b //= f * f
                sq *= f
            f += 1
        a *= sq
        res = out.mul_ground(QQ(a.numerator, a.denominator))
        for prime, mult in (sp.factorint(b).items() if b > 1 else []):
            res = res * self.rad(self.R(QQ(int(prime))))
        if rest != 1:
            res = res * self.rad(rest)
        res = self.reduce(res)
        self.radc[key] = res
        return res

    def rad(self, p):
        k = ('rad', p)
        if k not in self.radc:
            i = self.newgen()
            self.rel[i] = p
            self.order.append(i)
            self.defs += [self.z[i] >= 0, self.z[i] * self.z[i] == self.poly(p)]
            self.radc[k] = self.gen[i]
        return self.radc[k]

    # --------------------------------------------------------------- fractions
    def frac(self, n, d):
        n = self.reduce(n)
        d = self.reduce(d)
        if n == 0:
            return self.zero
        if d.is_ground:
            return Frac(n.mul_ground(QQ(1) / d.LC), self.R.one)
        n, d = self.cancel(n, d)
        return Frac(n, d)

    def add(self, a, b):
        if a.d == b.d:
            return self.frac(a.n + b.n, a.d)
        return self.frac(a.n * b.d + b.n * a.d, a.d * b.d)

    def mul(self, a, b):
        return self.frac(a.n * b.n, a.d * b.d)

    def neg(self, a):
        return Frac(-a.n, a.d)

    def inv(self, a):
        if a.n == 0:
            raise Unsupported('division by zero')
        if not a.n.is_ground and a.n not in self.nonzero:
            self.nonzero.append(a.n)
            self.defs.append(self.poly(a.n) != 0)
        return self.frac(a.d, a.n)

    def fsqrt(self, a):
        if a.d == 1:
            return Frac(self.root(a.n), self.R.one)
        # sqrt(n/d) = sqrt(n*d)/|d|
        return self.frac(self.root(self.reduce(a.n * a.d)), self.absv(a.d))

    # -------------------------------------------------------------- evaluation
    def real(self, e):
        e = sp.sympify(e)
        if e not in self.cache:
            self.cache[e] = self._real(e)
        return self.cache[e]

    def num(self, q):
        return Frac(self.R(q), self.R.one)

    def _real(self, e):
        if e.is_Symbol:
            return Frac(self.V[e], self.R.one)
        if e.is_Rational:
            return self.num(QQ(int(e.p), int(e.q)))
        if e.is_Float:
            f = Fraction(str(e)) if 'e' not in str(e).lower() else Fraction(float(e))
            return self.num(QQ(f.numerator, f.denominator))
        if e.is_Add:
            r = self.zero
            for a in e.args:
                r = self.add(r, self.real(a))
            return r
        if e.is_Mul:
            r = self.one
            for a in e.args:
                r = self.mul(r, self.real(a))
            return r
        if e.is_Pow:
            b, x = e.args
            if x.is_Integer:
                v = self.real(b)
                n = int(x)
            elif x.is_Rational and x.q == 2:
                v = self.fsqrt(self.real(b))
                n = int(x.p)
            else:
                raise Unsupported('power ' + str(e))
            if n < 0:
                v, n = self.inv(v), -n
            r = self.one
            for _ in range(n):
                r = self.mul(r, v)
            return r
        if isinstance(e, sp.cos):
            return self.trig(e.args[0])[0]
        if isinstance(e, sp.sin):
            return self.trig(e.args[0])[1]
        if isinstance(e, sp.tan):
            c, s = self.trig(e.args[0])
            return self.mul(s, self.inv(c))
        if isinstance(e, sp.Abs):
            v = self.real(e.args[0])
            return self.frac(self.absv(v.n), self.absv(v.d))
        raise Unsupported('real ' + str(e))

    def trig(self, e):
        e = sp.sympify(e)
        k = ('trig', e)
        if k not in self.cache:
            r = (self.one, self.zero)
            for t in sp.Add.make_args(sp.expand(e)):
                r = self.angadd(r, self.term(t))
            self.cache[k] = r
        return self.cache[k]

    def angadd(self, p, q):
        (c1, s1), (c2, s2) = p, q
        return (self.add(self.mul(c1, c2), self.neg(self.mul(s1, s2))), self.add(self.mul(s1, c2), self.mul(c1, s2)))

    def term(self, t):
        co, rest = t.as_coeff_Mul()
        if t == 0:
            return (self.one, self.zero)
        if rest is sp.pi:
            cv, sv = sp.cos(t), sp.sin(t)
            if cv.has(sp.cos) or sv.has(sp.sin):
                raise Unsupported('angle ' + str(t))
            return (self.real(cv), self.real(sv))
        if not co.is_Integer:
            raise Unsupported('angle ' + str(t))
        c, s = self.atom(rest)
        if co < 0:
            s = self.neg(s)
        r = (self.one, self.zero)
        for _ in range(abs(int(co))):
            r = self.angadd(r, (c, s))
        return r

    def atom(self, a):
        k = ('atom', a)
        if k in self.cache:
            return self.cache[k]
        if a.is_Symbol and a in self.alias:
            r = self.trig(self.alias[a])
        elif a.is_Symbol:
            r = (Frac(self.C[a], self.R.one), Frac(self.S[a], self.R.one))
        elif isinstance(a, sp.atan2):
            y, x = self.real(a.args[0]), self.real(a.args[1])
            h = self.fsqrt(self.add(self.mul(x, x), self.mul(y, y)))
            i = self.inv(h)
            r = (self.mul(x, i), self.mul(y, i))
        elif isinstance(a, sp.asin):
            v = self.real(a.args[0])
            r = (self.fsqrt(self.add(self.one, self.neg(self.mul(v, v)))), v)
        elif isinstance(a, sp.acos):
            v = self.real(a.args[0])
            r = (v, self.fsqrt(self.add(self.one, self.neg(self.mul(v, v)))))
        elif isinstance(a, sp.atan):
            v = self.real(a.args[0])
            i = self.inv(self.fsqrt(self.add(self.one, self.mul(v, v))))
            r = (i, self.mul(v, i))
        else:
            raise Unsupported('angle atom ' + str(a))
        self.cache[k] = r
        return r

    # --------------------------------------------------------------------- SMT
    def poly(self, p):
        out = z3.RealVal(0)
        for m, co in p.terms():
            fs = [self.z[i] for i, k in enumerate(m) for _ in range(k)]
            t = z3.Q(int(co.numerator), int(co.denominator))
            if len(fs) == 1:
                t = t * fs[0]
            elif fs:
                mon = z3.Product(fs)
                if m not in self.mons:
                    self.mons[m] = (mon, z3.FreshReal('m'))
                t = t * mon
            out = out + t
        return out

    def linear(self, exprs):
        """exprs with every monomial replaced by a free variable (weaker)"""
        subst = list(self.mons.values())
        return [z3.substitute(e, *subst) if subst else e for e in exprs]

    def is_zero(self, f):
        """z3 condition: the fraction is zero (denominators are non-zero)"""
        return self.poly(self.reduce(f.n)) == 0

    def values(self, model):
        """symbol values of a model (as Enc.values)"""
        from lib.smt import zval
        import mpmath
        out = {}
        for x in self.syms:
            i = self.R.gens.index(self.V[x])
            out[x] = zval(model, self.z[i])
        for k, a in enumerate(self.angles):
            out[a] = mpmath.atan2(zval(model, self.z[2 * k + 1]), zval(model, self.z[2 * k]))
        return out

    # the parts of Enc that prove()/rand_fix use
    @property
    def sym(self):
        return {x: self.z[self.R.gens.index(self.V[x])] for x in self.syms if x not in self.C}

    @property
    def ang(self):
        return {a: (self.z[2 * k], self.z[2 * k + 1]) for k, a in enumerate(self.angles)}
