"""Dynamic symbolic execution of plain Python code.

Explorer re-runs a function once per feasible path.  Branching on a symbolic
condition asks the solver which sides are feasible.  Integers (SymInt) are
mathematical integers, reals (SymR) are sympy expressions encoded by lib.smt.
"""
import sys, time, math, signal
import z3
import sympy as sp

CUR = None      # current Explorer (one per process)


from fractions import Fraction


class PathAbort(BaseException):
    pass


class Limit(Exception):
    pass


class DoesNotEnd(Exception):
    pass


def within(secs, fn, *a):
    """fn(*a), or DoesNotEnd raised inside it after secs seconds"""
    def stop(sig, frame):
        raise DoesNotEnd('still running after %d seconds' % secs)
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return fn(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def raised(c, ex, val, replay):
    """the code under test raised val (or did not end) on this path"""
    m = ex.witness()
    if isinstance(val, DoesNotEnd):
        try:
            msg = within(30, replay, m)
        except DoesNotEnd as e:
            msg = 'raises %r (%s)' % (e, m)
        if msg is None:
            raise Limit(str(val))
        c.violation('ends', msg)
    else:
        c.violation('raises', replay(m) or 'raises %r on a symbolic path' % (val,))


class Explorer:
    def __init__(self, case, max_paths=20000, timeout_ms=10000, max_forks=4000, ends=0):
        self.ends = ends        # seconds after which one path counts as not ending
        self.case = case
        self.max_paths = max_paths
        self.max_forks = max_forks
        self.timeout = timeout_ms
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.inconclusive = False

    # -- path bookkeeping
    def run(self, fn):
        """yields (result_or_exception, path_condition list) per path"""
        global CUR
        work = [[]]
        npaths = 0
        while work:
            prefix = work.pop()
            self.prefix = prefix
            self.trace = []
            self.pc = []
            self.work = work
            self.names = {}
            self.store = {}
            self.solver.push()
            prev, CUR = CUR, self
            try:
                try:
                    out = ('ok', within(self.ends, fn, self) if self.ends else fn(self))
                except PathAbort:
                    out = None
                except Limit:
                    raise
                except Exception as e:
                    if isinstance(e, DoesNotEnd) and not self.ends:
                        raise Limit(str(e))
                    out = ('exc', e)
                except SystemExit as e:
                    out = ('exit', e)
                if out is not None:
                    npaths += 1
                    self.case.paths += 1
                    yield out
            finally:
                CUR = prev
                self.solver.pop()
            if npaths > self.max_paths:
                raise Limit('more than %d paths' % self.max_paths)

    def _chk(self, *a):
        t = time.time()
        r = self.solver.check(*a)
        self.case.solver_s += time.time() - t
        self.case.queries += 1
        if r == z3.sat:
            self.case.sat += 1
        elif r == z3.unsat:
            self.case.unsat += 1
        else:
            self.case.unknown += 1
        return r

    def assume(self, cond):
        self.pc.append(cond)
        self.solver.add(cond)
        if len(self.trace) >= len(self.prefix):
            if self._chk() == z3.unsat:
                raise PathAbort()

    def fork(self, cond):
        """decide a symbolic condition"""
        cond = z3.simplify(cond) if not isinstance(cond, bool) else cond
        if isinstance(cond, bool):
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        if i > self.max_forks:
            raise DoesNotEnd('more than %d decisions on one path' % self.max_forks)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            self.case.forks += 1
            rt = self._chk(cond)
            if rt == z3.unsat:
                d = False
            else:
                rf = self._chk(z3.Not(cond))
                if rf == z3.unsat:
                    d = True
                else:
                    if z3.unknown in (rt, rf):
                        self.inconclusive = True
                    d = True
                    self.work.append(self.trace + [False])
        self.trace.append(d)
        c = cond if d else z3.Not(cond)
        self.pc.append(c)
        self.solver.add(c)
        return d

    # -- nondeterministic inputs
    def real(self, name, lo=None, hi=None):
        """a real number with lo <= x < hi"""
        v = z3.Real(name)
        if name not in self.names:
            self.names[name] = v
            cs = ([v >= z(lo)] if lo is not None else []) + ([v < z(hi)] if hi is not None else [])
            for c in cs:
                self.pc.append(c)
                self.solver.add(c)
        return SymInt(v)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if name not in self.names:
            self.names[name] = v
            cs = []
            if lo is not None:
                cs.append(v >= lo)
            if hi is not None:
                cs.append(v <= hi)
            for c in cs:
                self.pc.append(c)
                self.solver.add(c)
        return SymInt(v)

    def boolvar(self, name):
        v = z3.Bool(name)
        self.names[name] = v
        return v

    def flag(self, name):
        """a Python bool chosen by forking (stable per path)"""
        if ('flag', name) not in self.store:
            self.store[('flag', name)] = self.fork(self.boolvar(name))
        return self.store[('flag', name)]

    def pick(self, name, options):
        """one of the options, by forking on an integer selector"""
        k = ('pick', name)
        if k not in self.store:
            v = self.int(name, 0, len(options) - 1).z
            for i in range(len(options) - 1):
                if self.fork(v == i):
                    self.store[k] = i
                    break
            else:
                self.store[k] = len(options) - 1
        return options[self.store[k]]

    def concretize(self, z):
        """fork over the feasible values of an integer term"""
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        for _ in range(200):
            # prefer already decided value in replayed prefix: deterministic
            # enumeration of candidate values through the solver
            if self._chk() != z3.sat:
                raise PathAbort()
            v = self.solver.model().eval(z, model_completion=True).as_long()
            # deterministic choice: smallest feasible value
            lo = v
            while True:
                r = self._chk(z < lo)
                if r != z3.sat:
                    break
                lo = self.solver.model().eval(z, model_completion=True).as_long()
                if lo < -100000:
                    raise Limit('unbounded concretisation')
            if self.fork(z == lo):
                return lo
        raise Limit('too many values in concretisation')

    # -- final queries on a path
    def check(self, goal, sub, what, replay):
        """goal must hold for all inputs on this path"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        r = self._chk(z3.Not(goal))
        if r == z3.unsat:
            return True
        if r == z3.sat:
            m = self.solver.model()
            vals = self.model_values(m)
            res = replay(vals)
            if res:
                self.case.violation(sub, '%s: %s' % (what, res), dict(values={k: str(v) for k, v in vals.items()}))
            else:
                self.case.nonrepro.append('%s/%s: %s: %s' % (self.case.key, sub, what, vals))
            return False
        self.case.incon(sub, 'solver unknown: ' + what)
        return False

    def witness(self):
        r = self._chk()
        if r == z3.sat:
            self.case.witness += 1
            return self.model_values(self.solver.model())
        return None

    def model_values(self, m):
        out = {}
        for n, v in self.names.items():
            x = m.eval(v, model_completion=True)
            if z3.is_int_value(x):
                out[n] = x.as_long()
            elif z3.is_true(x) or z3.is_false(x):
                out[n] = z3.is_true(x)
            elif z3.is_rational_value(x):
                out[n] = x.as_fraction()
            else:
                out[n] = str(x)
        return out


def z(x):
    if isinstance(x, SymInt):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        from fractions import Fraction
        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator)
    return None


class SymBool:
    __slots__ = ('z',)

    def __init__(self, zz):
        self.z = zz

    def __bool__(self):
        return CUR.fork(self.z)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.z == o.z)
        if o is True or o is False or o == 0 or o == 1:
            return SymBool(self.z if o else z3.Not(self.z))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SymBool'


def _arith(name, rev=False):
    def f(self, o):
        b = z(o)
        if b is None:
            return NotImplemented
        a = self.z
        if rev:
            a, b = b, a
        if name == 'add':
            return SymInt(a + b)
        if name == 'sub':
            return SymInt(a - b)
        if name == 'mul':
            return SymInt(a * b)
        raise AssertionError
    return f


def _cmp(op):
    def f(self, o):
        b = z(o)
        if b is None:
            return NotImplemented
        a = self.z
        return SymBool({'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[op]())
    return f


class SymInt:
    """symbolic integer (or real, for clocks)"""
    __slots__ = ('z',)

    def __init__(self, zz):
        self.z = zz

    __add__ = _arith('add'); __radd__ = _arith('add', True)
    __sub__ = _arith('sub'); __rsub__ = _arith('sub', True)
    __mul__ = _arith('mul'); __rmul__ = _arith('mul', True)
    __lt__ = _cmp('lt'); __le__ = _cmp('le'); __gt__ = _cmp('gt'); __ge__ = _cmp('ge')

    def __neg__(self):
        return SymInt(-self.z)

    def __eq__(self, o):
        b = z(o)
        if b is None:
            return False
        return SymBool(self.z == b)

    def __ne__(self, o):
        b = z(o)
        if b is None:
            return True
        return SymBool(self.z != b)

    def _posdiv(self, b):
        if not bool(SymBool(b > 0)):
            if bool(SymBool(b == 0)):
                raise ZeroDivisionError('integer modulo by zero')
            return False
        return True

    def __floor__(self):
        return SymInt(z3.ToInt(self.z)) if z3.is_real(self.z) else self

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.z)) if z3.is_real(self.z) else self

    def __pos__(self):
        return self

    def floor(self):
        return self.__floor__()

    def __mod__(self, o):
        b = z(o)
        if b is None:
            return NotImplemented
        if z3.is_real(self.z) or z3.is_real(b):
            a, b = [x if z3.is_real(x) else z3.ToReal(x) for x in (self.z, b)]
            if self._posdiv(b):
                return SymInt(a - b * z3.ToReal(z3.ToInt(a / b)))
            return SymInt(-((-a) - (-b) * z3.ToReal(z3.ToInt(a / b))))
        if self._posdiv(b):
            return SymInt(self.z % b)
        return SymInt(-((-self.z) % (-b)))

    def __rmod__(self, o):
        return SymInt(z(o)) % self

    def __floordiv__(self, o):
        b = z(o)
        if b is None:
            return NotImplemented
        if z3.is_real(self.z) or z3.is_real(b):
            a, b = [x if z3.is_real(x) else z3.ToReal(x) for x in (self.z, b)]
            if bool(SymBool(b == 0)):
                raise ZeroDivisionError('division by zero')
            return SymInt(z3.ToInt(a / b))
        if self._posdiv(b):
            return SymInt(self.z / b)
        raise Limit('negative divisor')

    def __rfloordiv__(self, o):
        return SymInt(z(o)) // self

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        if isinstance(o, float):
            return SymInt(z3.ToReal(self.z) / z(o)) if z3.is_int(self.z) else SymInt(self.z / z(o))
        a = z3.ToReal(self.z) if z3.is_int(self.z) else self.z
        b = z(o)
        b = z3.ToReal(b) if z3.is_int(b) else b
        if bool(SymBool(b == 0)):
            raise ZeroDivisionError('division by zero')
        return SymInt(a / b)

    def __rtruediv__(self, o):
        return SymInt(z(o)) / self

    def __abs__(self):
        return SymInt(z3.If(self.z >= 0, self.z, -self.z))

    def __bool__(self):
        return CUR.fork(self.z != 0)

    def __index__(self):
        return CUR.concretize(self.z)

    __int__ = __index__

    def __hash__(self):
        return hash(CUR.concretize(self.z))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return '<sym>'

    def __format__(self, spec):
        return '<sym>'


class SymR:
    """symbolic real number for numeric (numpy style) code, as sympy expr"""
    __array_priority__ = 1000

    def __init__(self, e, enc=None):
        self.e = sp.sympify(e)
        self.enc = enc

    def _b(self, o):
        if isinstance(o, SymR):
            return o.e
        if isinstance(o, (int, float)) or type(o).__module__ == 'numpy':
            v = o.item() if hasattr(o, 'item') else o
            if isinstance(v, SymR):
                return v.e
            return snum(v)
        if isinstance(o, sp.Basic):
            return o
        return None

    def _w(self, e):
        return SymR(e, self.enc)

    def _op(self, o, f):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return self._w(f(self.e, b))

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._op(o, lambda a, b: b + a)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._op(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._op(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._op(o, lambda a, b: b / a)
    def __pow__(self, o): return self._op(o, lambda a, b: a ** b)
    def __rpow__(self, o): return self._op(o, lambda a, b: b ** a)
    def __neg__(self): return self._w(-self.e)
    def __pos__(self): return self
    def conjugate(self): return self
    def cos(self): return self._w(sp.cos(self.e))
    def sin(self): return self._w(sp.sin(self.e))
    def tan(self): return self._w(sp.tan(self.e))
    def sqrt(self): return self._w(sp.sqrt(self.e))
    def arcsin(self): return self._w(sp.asin(self.e))
    def arccos(self): return self._w(sp.acos(self.e))
    def arctan(self): return self._w(sp.atan(self.e))
    def arctan2(self, o): return self._w(sp.atan2(self.e, self._b(o)))
    def hypot(self, o): return self._w(sp.sqrt(self.e ** 2 + self._b(o) ** 2))
    def square(self): return self._w(self.e ** 2)
    def deg2rad(self): return self._w(self.e * sp.pi / 180)
    def rad2deg(self): return self._w(self.e * 180 / sp.pi)
    def sign(self):
        return 1 if bool(self > 0) else (-1 if bool(self < 0) else 0)
    def copysign(self, o):
        neg = bool(o < 0)
        a = abs(self)
        return -a if neg else a

    def _cmp(self, o, f):
        b = self._b(o)
        if b is None:
            return NotImplemented
        if self.enc is None:
            raise Limit('comparison of symbolic reals without an encoder')
        n = len(self.enc.defs)
        c = f(self.enc.real(self.e), self.enc.real(b))
        for d in self.enc.defs[n:]:
            CUR.pc.append(d)
            CUR.solver.add(d)
        return SymBool(c)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b) if self._b(o) is not None else False
    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b) if self._b(o) is not None else True
    def __abs__(self):
        return -self if bool(self < 0) else self
    def __bool__(self): return bool(self != 0)
    __hash__ = None

    def __repr__(self):
        return 'SymR(%s)' % self.e

    def __format__(self, spec):
        return '<sym>'


def snum(v):
    """a Python number as an exact sympy number (pi recognised)"""
    if isinstance(v, int):
        return sp.Integer(v)
    if isinstance(v, float):
        if v == int(v) and abs(v) < 1e15:
            return sp.Integer(int(v))
        q = v / math.pi
        for d in (1, 2, 3, 4, 6, 8, 12, 180):
            if abs(q * d - round(q * d)) < 1e-14 and round(q * d) != 0:
                return sp.Rational(round(q * d), d) * sp.pi
        f = Fraction(v).limit_denominator(1000)
        if f.numerator and float(f) == v:
            return sp.Rational(f.numerator, f.denominator)
        f = Fraction(v * v).limit_denominator(100)
        if f.numerator and abs(math.sqrt(f) - abs(v)) < 4e-16 * abs(v):
            return sp.sqrt(sp.Rational(f.numerator, f.denominator)) * (1 if v > 0 else -1)
        return sp.Rational(repr(v))
    return sp.sympify(v)


_orig = {}
EXACT = None     # when set to an encoder, math functions of numbers stay exact


def patch_math():
    """let math.sin etc. accept SymR"""
    table = dict(cos='cos', sin='sin', tan='tan', sqrt='sqrt', asin='arcsin', acos='arccos', atan='arctan', radians='deg2rad', degrees='rad2deg', fabs='__abs__')
    for n, m in table.items():
        if n in _orig:
            continue
        f = getattr(math, n)
        _orig[n] = f

        def g(x, f=f, m=m):
            if isinstance(x, SymInt) and m == '__abs__':
                return abs(x)
            if EXACT is not None and isinstance(x, (int, float)):
                x = SymR(snum(x), EXACT)
            return getattr(x, m)() if isinstance(x, SymR) else f(x)
        setattr(math, n, g)
    for n, m in dict(atan2='arctan2', hypot='hypot', pow='__pow__', copysign='copysign').items():
        if n in _orig:
            continue
        f2 = getattr(math, n)
        _orig[n] = f2

        def g2(y, x, f2=f2, m=m):
            if EXACT is not None and isinstance(y, (int, float)):
                y = SymR(snum(y), EXACT)
            if isinstance(y, SymR):
                return getattr(y, m)(x)
            if isinstance(x, SymR):
                return getattr(SymR(snum(y), x.enc), m)(x)
            return f2(y, x)
        setattr(math, n, g2)


class NpShim:
    """numpy whose array constructors build object arrays, so that symbolic
    reals can be stored in them"""

    def __init__(self, np):
        self._np = np

    def __getattr__(self, n):
        return getattr(self._np, n)

    def _o(self, f, *a, **k):
        k.pop('dtype', None)
        arr = f(*a, **k)
        return arr.astype(object)

    def zeros(self, *a, **k): return self._o(self._np.zeros, *a, **k)
    def ones(self, *a, **k): return self._o(self._np.ones, *a, **k)
    def eye(self, *a, **k): return self._o(self._np.eye, *a, **k)
    def identity(self, *a, **k): return self._o(self._np.identity, *a, **k)
    def empty(self, *a, **k): return self._o(self._np.zeros, *a, **k)

    def _f1(n, m):
        def f(self, x, *a, **k):
            if isinstance(x, SymR):
                return getattr(x, m)()
            return getattr(self._np, n)(x, *a, **k)
        return f
    cos = _f1('cos', 'cos'); sin = _f1('sin', 'sin'); tan = _f1('tan', 'tan'); sqrt = _f1('sqrt', 'sqrt')
    arcsin = _f1('arcsin', 'arcsin'); arccos = _f1('arccos', 'arccos'); arctan = _f1('arctan', 'arctan')

    def abs(self, x, *a, **k):
        return abs(x) if isinstance(x, SymR) else self._np.abs(x, *a, **k)
    fabs = abs
    absolute = abs

    sign = _f1('sign', 'sign'); square = _f1('square', 'square'); deg2rad = _f1('deg2rad', 'deg2rad'); radians = deg2rad
    rad2deg = _f1('rad2deg', 'rad2deg'); degrees = rad2deg; negative = _f1('negative', '__neg__'); positive = _f1('positive', '__pos__')

    def _f2(n, m):
        def f(self, y, x, *a, **k):
            if isinstance(y, SymR) or isinstance(x, SymR):
                y = y if isinstance(y, SymR) else SymR(snum(y), x.enc)
                return getattr(y, m)(x)
            return getattr(self._np, n)(y, x, *a, **k)
        return f
    arctan2 = _f2('arctan2', 'arctan2'); hypot = _f2('hypot', 'hypot'); power = _f2('power', '__pow__'); float_power = power
    add = _f2('add', '__add__'); subtract = _f2('subtract', '__sub__'); multiply = _f2('multiply', '__mul__')
    divide = _f2('divide', '__truediv__'); true_divide = divide; copysign = _f2('copysign', 'copysign')

    def clip(self, x, lo, hi, *a, **k):
        if isinstance(x, SymR):
            return lo if bool(x < lo) else (hi if bool(x > hi) else x)
        return self._np.clip(x, lo, hi, *a, **k)

    def maximum(self, x, y, *a, **k):
        if isinstance(x, SymR) or isinstance(y, SymR):
            return x if bool(x > y) else y
        return self._np.maximum(x, y, *a, **k)

    def minimum(self, x, y, *a, **k):
        if isinstance(x, SymR) or isinstance(y, SymR):
            return x if bool(x < y) else y
        return self._np.minimum(x, y, *a, **k)


def sym_matrix(m):
    """numpy/sympy matrix with SymR entries -> sympy Matrix"""
    if isinstance(m, sp.MatrixBase):
        return sp.Matrix(m)
    r, c = m.shape
    def g(x):
        if isinstance(x, SymR):
            return x.e
        return snum(x.item() if hasattr(x, 'item') else x)
    return sp.Matrix(r, c, lambda i, j: g(m[i, j]))
