"""Driving the solver leaves of /repo and proving their branches correct."""
import itertools
import sympy as sp
import mpmath
import z3
from lib.vf import *
from lib.sym import Explorer
from lib.smt import Enc, Query, prove, neval, close, Unsupported, validate_encoding
import b3

# parameters and known quantities
Px, Py, Pz, l_1, l_2, l_3, d_1, r_11, r_12, r_13, r_23, r_33, a_2, a_3 = sp.symbols('Px Py Pz l_1 l_2 l_3 d_1 r_11 r_12 r_13 r_23 r_33 a_2 a_3')
th_1, th_2, th_3, th_4, th_5, th_6, th_23, d_3 = sp.symbols('th_1 th_2 th_3 th_4 th_5 th_6 th_23 d_3')
sin, cos = sp.sin, sp.cos


class In:
    """structure choices: solver variables during exploration, or replay"""

    def __init__(self, ex=None, values=None):
        self.ex, self.v = ex, values

    def pick(self, name, opts):
        if self.ex is not None:
            return self.ex.pick(name, opts)
        return opts[int(self.v.get(name, 0))]


def run_leaves(leaves, target, solved, unsolved, eqs1, eqs2, eqs3=(), R=None):
    """tick the real leaves in a real behaviour tree on the given equation
    lists (pairs lhs, rhs); returns status, unknown, robot, kequations"""
    from ikbtbasics.kin_cl import unknown, kequation
    from ikbtbasics.ik_classes import Robot
    R = R or Robot()
    u = unknown(target)
    kn = []
    for s in solved:
        k = unknown(s)
        k.solved = True
        k.nsolutions = 1
        k.solutions = [sp.S.Zero]
        kn.append(k)
    un = [unknown(s) for s in unsolved]
    board = kn[:1] + [u] + kn[1:] + un
    bb = b3.Blackboard()
    bb.set('curr_unk', u)
    bb.set('unknowns', board)
    E1 = [kequation(sp.sympify(a), sp.sympify(b)) for a, b in eqs1]
    E2 = [kequation(sp.sympify(a), sp.sympify(b)) for a, b in eqs2]
    E3 = [kequation(sp.sympify(a), sp.sympify(b)) for a, b in eqs3]
    bb.set('eqns_1u', E1)
    bb.set('eqns_2u', E2)
    bb.set('eqns_3pu', E3)
    bb.set('Robot', R)
    bb.set('Tm', None)
    t = b3.BehaviorTree()
    t.root = b3.Sequence([x() for x in leaves])
    st = t.tick('verif', bb)
    return st, u, R, bb


def domain_conditions(sol):
    """(text, function(enc) -> z3 condition) for every partial operation of
    sol, innermost first"""
    out = []
    seen = set()
    for x in sp.postorder_traversal(sol):
        if x in seen:
            continue
        seen.add(x)
        if x.is_Pow:
            b, p = x.args
            if p.is_Rational and p.q == 2 and not b.is_number:
                out.append(('root of %s' % b, lambda e, b=b, p=p: e.real(b) >= 0 if p > 0 else e.real(b) > 0))
            elif p.is_Integer and p < 0 and not b.is_number:
                out.append(('division by %s' % b, lambda e, b=b: e.real(b) != 0))
        elif isinstance(x, (sp.asin, sp.acos)):
            a = x.args[0]
            out.append(('%s' % x, lambda e, a=a: z3.And(e.real(a) >= -1, e.real(a) <= 1)))
        elif isinstance(x, sp.atan2):
            y, xx = x.args
            out.append(('%s' % x, lambda e, y=y, xx=xx: z3.Or(e.real(y) != 0, e.real(xx) != 0)))
        elif isinstance(x, sp.tan):
            out.append(('%s' % x, lambda e, x=x: e.trig(x.args[0])[0] != 0))
    return out


def fill(vals, *exprs):
    full = dict(vals)
    for e in exprs:
        for s in e.free_symbols:
            full.setdefault(s, mpmath.mpf('0.7'))
    return full


def real_value(e, vals):
    """real value of e or None (undefined / complex)"""
    try:
        v = neval(e, vals)
    except (ZeroDivisionError, ValueError, OverflowError):
        return None
    v = mpmath.mpmathify(v)
    if isinstance(v, mpmath.mpc):
        if abs(mpmath.im(v)) > 1e-9:
            return None
        v = mpmath.re(v)
    if mpmath.isnan(v) or mpmath.isinf(v):
        return None
    return v


def show(vals):
    return {str(k): mpmath.nstr(v, 6) for k, v in vals.items() if not str(k).startswith('c[')}


def prove_angle(c, sub, u, source, branches, nondeg, what, timeout=10000, conditional=None, complete=True, extra_hyps=None, defined=True):
    """branches solve the equations source (each == 0) for the angle u.

    nondeg(enc) -> list of z3 conditions (non-degenerate coefficients).
    conditional: per branch a sign condition function(enc) under which that
    branch is the solution."""
    desc = '%s from %s' % (u, '; '.join('0 = %s' % s for s in source))
    for k, b in enumerate(branches):
        if b.has(u):
            c.violation(sub + 'self', '%s: branch %s contains %s (%s)' % (what, b, u, desc))
            return False
        if b.has(sp.zoo, sp.nan, sp.oo, sp.I):
            c.violation(sub + 'undefined', '%s: branch %s (%s)' % (what, b, desc))
            return False
    ok = True
    extra = extra_hyps or (lambda e: [])
    # 1. every branch satisfies every source equation
    for k, b in enumerate(branches):
        for s in source:
            enc = Enc()
            enc.ang[u] = enc.trig(b)
            if u in s.subs({sin(u): 0, cos(u): 0}).free_symbols:
                raise Unsupported('angle used as a number in ' + str(s))
            val = enc.real(s)
            hy = nondeg(enc) + extra(enc)
            if conditional:
                hy.append(conditional[k](enc))

            def replay(vals, b=b, s=s, k=k):
                full = fill({x: y for x, y in vals.items() if x != u}, b, s)
                full.pop(u, None)
                v = real_value(b, full)
                if v is None:
                    return None
                if conditional and not cond_num(conditional[k], full):
                    return None
                full[u] = v
                r = neval(s, full)
                if abs(r) < 1e-8:
                    return None
                return 'branch %s = %s leaves 0 = %s off by %s at %s' % (b, mpmath.nstr(v, 8), s, mpmath.nstr(r, 6), show(full))
            r = prove(c, sub + 'sound', enc, hy, val == 0, replay, timeout, '%s does not satisfy its equation (%s)' % (what, desc),
                      robust=z3.Or(val > z3.Q(1, 100), val < z3.Q(-1, 100)), witness=(k == 0))
            ok = ok and r == 'holds'
            if r == 'violated':
                return False
    # 2. defined wherever the equations have a solution
    if defined:
        for k, b in enumerate(branches):
            for txt, cond in domain_conditions(b):
                enc = Enc()
                src = [enc.real(s) == 0 for s in source]
                hy = src + nondeg(enc) + extra(enc)
                goal = cond(enc)

                def replay(vals, b=b):
                    full = fill(vals, b, *source)
                    if any(abs(neval(s, full)) > 1e-8 for s in source):
                        return None
                    v = real_value(b, full)
                    return None if v is not None else 'branch %s is not real although %s = %s solves the equation at %s' % (b, u, mpmath.nstr(full[u], 8), show(full))
                r = prove(c, sub + 'defined', enc, hy, goal, replay, timeout, '%s: undefined in reach: %s (%s)' % (what, txt, desc), witness=False)
                ok = ok and r == 'holds'
                if r == 'violated':
                    return False
    # 3. every angle satisfying the equations is one of the branches
    if complete:
        enc = Enc()
        cu, su = enc.atom(u)
        src = [enc.real(s) == 0 for s in source]
        tr = [enc.trig(b) for b in branches]
        hy = src + nondeg(enc) + extra(enc)
        if conditional:
            goal = z3.And([z3.Implies(cd(enc), z3.And(cu == x, su == y)) for cd, (x, y) in zip(conditional, tr)])
            rob = z3.Or([z3.And(cd(enc), cu * x + su * y < z3.Q(9, 10)) for cd, (x, y) in zip(conditional, tr)])
        else:
            goal = z3.Or([z3.And(cu == x, su == y) for x, y in tr])
            rob = z3.And([cu * x + su * y < z3.Q(9, 10) for x, y in tr])

        def replay(vals):
            full = fill(vals, *(list(branches) + list(source)))
            if any(abs(neval(s, full)) > 1e-8 for s in source):
                return None
            got = []
            for k, b in enumerate(branches):
                if conditional and not cond_num(conditional[k], full):
                    continue
                v = real_value(b, full)
                if v is None:
                    continue
                good = abs(mpmath.expj(v) - mpmath.expj(full[u])) < 1e-8
                if good and not conditional:
                    return None
                if not good:
                    got.append((b, mpmath.nstr(v, 8)))
            return '%s = %s solves the equation but the solver returns %s at %s' % (u, mpmath.nstr(full[u], 8), got, show(full)) if got else None
        if c.solver_s >= 0 and c.queries % 7 == 0:
            numeric_check(c, enc, hy, u, source, branches, conditional)
        r = prove(c, sub + 'complete', enc, hy, goal, replay, timeout, '%s misses or misplaces a solution (%s)' % (what, desc), robust=rob)
        ok = ok and r == 'holds'
    return ok


def cond_num(cond, vals):
    """evaluate a sign condition at numeric values"""
    class NE:
        def real(self, e):
            f = mpmath.mpmathify(neval(e, vals))
            from fractions import Fraction
            q = Fraction(str(mpmath.nstr(f, 30)))
            return z3.Q(q.numerator, q.denominator)
    return z3.is_true(z3.simplify(cond(NE())))


def drive(c, mk, judge, limit=4000):
    """explore the symbolic structure choices of mk(w); judge(c, made)"""
    ex = Explorer(c, max_paths=limit)
    n = 0
    for kind, val in ex.run(lambda e: mk(In(e))):
        m = ex.witness()
        if kind != 'ok':
            c.violation('raises', 'raises %r for structure %s' % (val, {k: v for k, v in m.items()}))
            return
        judge(c, val)
        n += 1
        if c.violations:
            return
    return n


def numeric_check(c, enc, hyps, u, source, branches, conditional):
    """the encoding against plain evaluation at a solver-chosen point"""
    import random
    from lib.smt import rand_fix
    q = Query(c, 3000)
    r, m = q.check(list(hyps) + list(enc.defs))
    if r != z3.sat:
        return
    full = fill(enc.values(m), *(list(branches) + list(source)))
    for s in source:
        if abs(neval(s, full)) > 1e-8:
            raise AssertionError('encoding of %s disagrees with evaluation at %s' % (s, show(full)))
    for k, b in enumerate(branches):
        v = real_value(b, full)
        x, y = enc.trig(b)
        from lib.smt import zval
        if v is not None and not (close(zval(m, x), mpmath.cos(v)) and close(zval(m, y), mpmath.sin(v))):
            raise AssertionError('encoding of %s disagrees with evaluation at %s' % (b, show(full)))
    c.validated += 1


# ------------------------------------------------------------------ algebraic
from lib.alg import Alg


def alg_domain(al, sol):
    """(text, z3 condition) per partial operation of sol, innermost first,
    over the algebraic encoding"""
    out = []
    seen = set()

    def P(f):
        return al.poly(al.reduce(f))
    for x in sp.postorder_traversal(sol):
        if x in seen:
            continue
        seen.add(x)
        if x.is_Pow and not x.args[0].is_number:
            b, p = x.args
            if p.is_Rational and p.q == 2:
                v = al.real(b)
                out.append(('root of %s' % b, P(v.n * v.d) >= 0 if p > 0 else P(v.n * v.d) > 0))
            elif p.is_Integer and p < 0:
                out.append(('division by %s' % b, P(al.real(b).n) != 0))
        elif isinstance(x, (sp.asin, sp.acos)):
            v = al.real(x.args[0])
            out.append(('%s' % x, P(v.d * v.d - v.n * v.n) >= 0))
        elif isinstance(x, sp.atan2):
            y, xx = al.real(x.args[0]), al.real(x.args[1])
            w = al.add(al.mul(y, y), al.mul(xx, xx))
            out.append(('%s' % x, P(w.n) != 0))
    return out


def hints(al, E, mult, squares):
    """consequences handed to the solver: multiples of E = 0, squares >= 0"""
    out = []
    for m in mult:
        out.append(al.poly(al.reduce(E * m)) == 0)
    for w in squares:
        out.append(al.poly(al.reduce(w * w)) >= 0)
    return out


def lemmas(c):
    """facts about a line and the unit circle, for all real A, B, C"""
    A, B, C = z3.Reals('A B C')
    P = [z3.Reals('c%d s%d' % (i, i)) for i in range(3)]
    on = [x * x + y * y == 1 for x, y in P] + [A * y + B * x == C for x, y in P] + [z3.Or(A != 0, B != 0)]
    q = Query(c, 60000)

    def eq(i, j):
        return z3.And(P[i][0] == P[j][0], P[i][1] == P[j][1])
    # rotate (A, B) onto the sine axis: x_i = A y - B x etc.
    r1, _ = q.check(on + [z3.Not(eq(0, 1)), z3.Not(eq(2, 0)), z3.Not(eq(2, 1))])
    r2, _ = q.check(on[:2] + on[3:5] + [on[6], A * A + B * B == C * C, z3.Not(eq(0, 1))])
    r3, _ = q.check([on[0], on[3], on[6], A * A + B * B < C * C])
    w, _ = q.check(on + [z3.Not(eq(0, 1))])
    if w == z3.sat:
        c.witness += 1
    for n, r in (('two points', r1), ('tangent', r2), ('reach', r3)):
        if r != z3.unsat:
            c.incon('lemma', 'line/circle lemma %s: %s' % (n, r))


_general = {}


def generalise_line(u, src, ABC, branches):
    """The same branches over three symbols for A, B, C, where the branches see
    A, B and C through themselves and A^2+B^2-C^2 alone; None otherwise.  The
    statement about these is the stronger one: A, B, C are three of its values."""
    g = sp.symbols('alpha_ beta_ gamma_')
    A, B, C = (sp.sympify(x) for x in ABC)
    if all(x.is_Symbol or x.is_number for x in (A, B, C)):
        return None
    if any(x.has(u) for x in (A, B, C)) or not any(sp.expand(src - k * (A * sp.sin(u) + B * sp.cos(u) - C)) == 0 for k in (1, -1)):
        return None
    pats = []
    for e, y in ((A, g[0]), (B, g[1]), (C, g[2])):
        if e.is_number:
            continue
        pats += [(e, y), (-e, -y)]
    y = [z if not e.is_number else e for e, z in zip((A, B, C), g)]
    d = A ** 2 + B ** 2 - C ** 2
    dy = y[0] ** 2 + y[1] ** 2 - y[2] ** 2
    pats += [(d, dy), (-d, -dy), (A ** 2 + B ** 2, y[0] ** 2 + y[1] ** 2)]

    def go(e):
        if e.is_number:
            return e
        for p, z in pats:
            if p.free_symbols == e.free_symbols and sp.expand(p - e) == 0:
                return z
        if e.is_Atom:
            raise LookupError
        return e.func(*[go(x) for x in e.args])
    try:
        out = [go(sp.sympify(b)) for b in branches]
    except LookupError:
        return None
    return y[0] * sp.sin(u) + y[1] * sp.cos(u) - y[2], tuple(y), out


def prove_line(c, sub, u, src, ABC, branches, what, timeout=10000):
    """branches are all solutions u of A sin u + B cos u = C: over symbols for
    A, B, C where that is enough, otherwise over the symbols these are made of"""
    try:
        gen = generalise_line(u, src, ABC, branches)
    except Exception:
        gen = None
    if gen is not None:
        key = (u, gen[0], gen[1], tuple(gen[2]))
        t = _general.get(key)
        if t is None:
            t = Case(c.key, c.tier)
            line_holds(t, sub, u, gen[0], gen[1], gen[2], what, timeout)
            for a in ('queries', 'unsat', 'sat', 'unknown', 'solver_s', 'witness'):
                setattr(c, a, getattr(c, a) + getattr(t, a))
            t = _general[key] = not (t.violations or t.inconclusive or t.nonrepro or t.errors)
        if t:
            return
    line_holds(c, sub, u, src, ABC, branches, what, timeout)


def line_holds(c, sub, u, src, ABC, branches, what, timeout=10000):
    """branches are all solutions u of A sin u + B cos u = C (src = 0 is that
    equation, up to a non-zero factor), for all values with (A, B) != 0"""
    A, B, C = ABC
    desc = '%s from 0 = %s' % (u, src)
    for b in branches:
        if b.has(u):
            c.violation(sub + 'self', '%s: branch %s contains %s (%s)' % (what, b, u, desc))
            return
        if b.has(sp.zoo, sp.nan, sp.oo, sp.I):
            c.violation(sub + 'undefined', '%s: branch %s (%s)' % (what, b, desc))
            return

    def numeric(vals):
        """all true solutions against the branches at a point"""
        full = fill({x: y for x, y in vals.items() if x != u}, A, B, C, src, *branches)
        full.pop(u, None)
        a, b, cc = (mpmath.re(mpmath.mpmathify(neval(e, full))) for e in (A, B, C))
        r = mpmath.sqrt(a * a + b * b)
        if r < 1e-6:
            return None
        got = [real_value(x, full) for x in branches]
        if abs(cc) > r * (1 + mpmath.mpf(10) ** -12):
            return None
        w = min(mpmath.mpf(1), max(mpmath.mpf(-1), cc / r))
        al = mpmath.atan2(a, b)
        true = [al + mpmath.acos(w), al - mpmath.acos(w)]
        for t in true:
            if abs(a * mpmath.sin(t) + b * mpmath.cos(t) - cc) > 1e-15 * (1 + abs(cc)):
                return None
            if not any(g is not None and abs(mpmath.expj(g) - mpmath.expj(t)) < 1e-6 for g in got):
                return '%s = %s solves the equation, branches %s give %s at %s' % (u, mpmath.nstr(t, 8), branches, [mpmath.nstr(g, 8) if g is not None else None for g in got], show(full))
        for g, x in zip(got, branches):
            if g is not None and not any(abs(mpmath.expj(g) - mpmath.expj(t)) < 1e-6 for t in true):
                return 'branch %s = %s does not solve the equation at %s' % (x, mpmath.nstr(g, 8), show(full))
        return None
    # soundness
    for k, b in enumerate(branches):
        al = Alg(src.subs(u, b), A, B)
        v = al.real(src.subs(u, b))
        n = al.reduce(v.n)
        pv = al.poly(n)
        r = prove(c, sub + 'sound', al, [z3.Or(al.poly(al.real(A).n) != 0, al.poly(al.real(B).n) != 0)], pv == 0, numeric, timeout,
                  '%s does not satisfy its equation (%s)' % (what, desc), robust=z3.Or(pv > z3.Q(1, 100), pv < z3.Q(-1, 100)), witness=False)
        if r != 'holds':
            return
    # definedness
    for k, b in enumerate(branches):
        al = Alg(src, A, B, C, b)
        a_, b_, c_ = al.real(A), al.real(B), al.real(C)
        s_, k_ = al.S[u], al.C[u]
        E = al.reduce((a_.n * s_ + b_.n * k_) - c_.n)
        assert a_.d == 1 and b_.d == 1 and c_.d == 1
        hy = [al.poly(E) == 0, z3.Or(al.poly(a_.n) != 0, al.poly(b_.n) != 0), al.poly(al.reduce(a_.n ** 2 + b_.n ** 2)) > 0]
        hi = hints(al, E, [al.R.one, E, c_.n, a_.n, b_.n, s_, k_], [a_.n * k_ - b_.n * s_, a_.n, b_.n])
        doms = alg_domain(al, b)
        for j, (txt, cond) in enumerate(doms):
            r = prove(c, sub + 'defined', al, hy + hi + [d for _, d in doms[:j]], cond, numeric, timeout, '%s: undefined in reach: %s (%s)' % (what, txt, desc), witness=(j == 0 and k == 0))
            if r != 'holds':
                return
    # two different branches wherever there are two solutions
    al = Alg(src, A, B, C, *branches)
    a_, b_, c_ = al.real(A), al.real(B), al.real(C)
    disc = al.reduce(a_.n ** 2 + b_.n ** 2 - c_.n ** 2)
    tr = [al.trig(b) for b in branches]
    same = []
    for i in range(len(tr)):
        for j in range(i):
            d = al.add(al.one, al.neg(al.add(al.mul(tr[i][0], tr[j][0]), al.mul(tr[i][1], tr[j][1]))))
            same.append(al.is_zero(d))
    r2 = al.reduce(a_.n ** 2 + b_.n ** 2)
    hy = [al.poly(al.reduce(x)) > 0 for x in (disc, r2, disc * r2, disc * r2 * r2, disc * r2 ** 3, disc * disc * r2, r2 * r2)]
    prove(c, sub + 'complete', al, hy, z3.Not(z3.And(same)) if same else z3.BoolVal(False), numeric, timeout, '%s misses a solution (%s)' % (what, desc), witness=not same)


def prove_vector(c, sub, u, srcs, branch, nondeg, what, mults, cond=None, timeout=10000, squares=()):
    """branch = atan2(y, x) points in the direction of (cos u, sin u) for
    every u and all values satisfying srcs == 0, nondeg != 0 (list of lists:
    each list means 'not all zero') and cond > 0."""
    desc = '%s from %s' % (u, '; '.join('0 = %s' % s for s in srcs))
    if branch.has(u):
        c.violation(sub + 'self', '%s: solution %s contains %s (%s)' % (what, branch, u, desc))
        return
    if branch.has(sp.zoo, sp.nan, sp.oo, sp.I):
        c.violation(sub + 'undefined', '%s: solution %s (%s)' % (what, branch, desc))
        return

    srcs0, branch0, elim = list(srcs), branch, []
    used = set().union(*[sp.sympify(z).free_symbols for g in nondeg for z in g]) | (sp.sympify(cond).free_symbols if cond is not None else set())
    rest = []
    for e in srcs:
        # an equation linear in a parameter that occurs nowhere as a
        # coefficient: every solution is parametrised by eliminating it
        e = e.subs(elim)
        for v in sorted(e.free_symbols - used - {u}, key=str):
            r = sp.expand(e)
            cf = r.coeff(v, 1)
            if cf.is_Rational and cf != 0 and not sp.expand(r - cf * v).has(v):
                elim = [(x, y.subs(v, -(r - cf * v) / cf)) for x, y in elim] + [(v, sp.expand(-(r - cf * v) / cf))]
                break
        else:
            rest.append(e)
    if elim:
        srcs = [e.subs(elim) for e in rest]
        branch = branch.subs(elim)
        mults = [sp.sympify(m).subs(elim) for m in mults] if srcs else []

    def numeric(vals):
        full = fill({x: y for x, y in vals.items() if not any(x == v for v, _ in elim)}, branch, *[y for _, y in elim])
        for v, y in elim:
            full[v] = mpmath.re(mpmath.mpmathify(neval(y, fill(full, y))))
        return numeric0(full)

    def numeric0(vals):
        srcs, branch = srcs0, branch0
        full = fill(vals, branch, *srcs)
        if any(abs(neval(s, full)) > 1e-8 for s in srcs):
            return None
        if cond is not None and not mpmath.re(neval(cond, full)) > 1e-9:
            return None
        for g in nondeg:
            if all(abs(neval(x, full)) < 1e-6 for x in g):
                return None
        v = real_value(branch, full)
        if v is not None and abs(mpmath.expj(v) - mpmath.expj(full[u])) < 1e-6:
            return None
        return '%s = %s satisfies the equations, the solver says %s = %s at %s' % (u, mpmath.nstr(full[u], 8), branch, mpmath.nstr(v, 8) if v is not None else None, show(full))
    if isinstance(branch, sp.atan2):
        y, x = branch.args
    else:
        y, x = sin(branch), cos(branch)
    al = Alg(*(list(srcs) + [y, x] + list(mults) + [z for g in nondeg for z in g] + ([cond] if cond is not None else [])))
    s, k = al.S[u], al.C[u]
    one = al.R.one
    hy, pos = [], []
    ms = [al.real(m).n for m in mults]
    prods = [one]
    top = {1: 4, 2: 4, 3: 3}.get(len(ms), 2)
    for deg in range(1, top + 1):
        for cmb in itertools.combinations_with_replacement(ms, deg):
            p = one
            for f in cmb:
                p = p * f
            prods.append(p)
    full_m = [p * t for p in prods for t in (one, s, k)]
    hint = []
    for e in srcs:
        E = al.reduce(al.real(e).n)
        hy.append(al.poly(E) == 0)
        hint += [al.poly(al.reduce(E * m)) == 0 for m in full_m]
    for g in nondeg:
        ns = [al.real(z).n for z in g]
        hy.append(z3.Or([al.poly(n) != 0 for n in ns]))
        sq = sum((n * n for n in ns), al.R.zero)
        pos.append(sq)
    if cond is not None:
        cn = al.real(cond)
        pos.append(cn.n * cn.d)
    allp = list(pos) + [a * b for i, a in enumerate(pos) for b in pos[i:]]
    if len(pos) > 2:
        allp.append(pos[0] * pos[1] * pos[2])
    hint += [al.poly(al.reduce(p)) > 0 for p in allp]
    Y, X = al.real(y), al.real(x)
    cross = al.add(al.mul(Y, al.real(sp.cos(u))), al.neg(al.mul(X, al.real(sp.sin(u)))))
    dot = al.add(al.mul(Y, al.real(sp.sin(u))), al.mul(X, al.real(sp.cos(u))))
    for d, txt in alg_domains(al, (y, x)):
        r = prove(c, sub + 'defined', al, hy + hint, d, numeric, timeout, '%s: undefined in reach: %s (%s)' % (what, txt, desc), witness=False)
        if r != 'holds':
            return
    cr, dt = al.poly(al.reduce(cross.n)), al.poly(al.reduce(dot.n * dot.d))
    far = z3.Or(cr > z3.Q(1, 20), cr < z3.Q(-1, 20))
    if not any(x.free_symbols - {u} for x in srcs) or any(x.free_symbols == {u} for x in srcs):
        # numbers only in one equation: the pair may have no solution at all
        if Query(c, 5000).check(hy + list(al.defs))[0] == z3.unsat:
            c.notes.append('pairs without any solution are skipped')
            return
    r = prove(c, sub + 'exact', al, hy + hint, cr == 0, numeric, timeout, '%s is not the angle (%s)' % (what, desc), robust=far)
    if r == 'holds':
        prove(c, sub + 'quadrant', al, hy + hint, dt > 0, numeric, timeout, '%s has the wrong sign (%s)' % (what, desc), witness=False)


def alg_domains(al, exprs):
    out, seen = [], set()
    for e in exprs:
        for t, cnd in alg_domain(al, e):
            if t not in seen:
                seen.add(t)
                out.append((cnd, t))
    return out
