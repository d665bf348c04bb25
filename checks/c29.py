"""C29: solved joint values reproduce the pose end to end."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.gen import *
from lib.alg import Alg, Frac
from lib import pipeline, arms
import contextlib, io
patch_sleep()


class A2(Alg):
    """radicands may be negative: a root then has no value and every formula
    using it counts as not giving the joint value"""

    def __init__(self, *a, **k):
        self.radicand = {}
        super().__init__(*a, **k)

    def rad(self, p):
        k = ('rad', p)
        if k not in self.radc:
            i = self.newgen()
            self.rel[i] = p
            self.order.append(i)
            P = self.poly(p)
            self.defs += [z3.Implies(P >= 0, z3.And(self.z[i] >= 0, self.z[i] * self.z[i] == P))]
            self.radicand[i] = p
            self.radc[k] = self.gen[i]
        return self.radc[k]

    def exists(self, *polys):
        """conditions for every root the polynomials use"""
        todo, seen, out = list(polys), set(), []
        while todo:
            p = todo.pop()
            for m in p:
                for i, k in enumerate(m):
                    if k and i in self.radicand and i not in seen:
                        seen.add(i)
                        out.append(self.poly(self.radicand[i]) >= 0)
                        todo.append(self.radicand[i])
        return out


def fk(dh):
    L = sp.eye(4)
    for i in range(dh.shape[0]):
        L = L * arms.link(*[dh[i, k] for k in range(4)])
    return L


def setup(c, name):
    c.fn('ikSolver.py', 'ikbtbasics/ik_classes.py:Robot', 'ikbtleaves')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if name in pipeline.arms():
                dh, vv, params, joints = pipeline.arms()[name]
                g = pipeline.solve(name, dh, vv, list(params), {}, joints)
            else:
                from ikbtfunctions.ik_robots import robot_params
                dh, vv, params, _, unks = robot_params(name)
                joints, params = [u.symbol for u in unks], list(params)
                c.fn('ikbtfunctions/ik_robots.py:robot_params')
                g = pipeline.solve_listed(name)
    except (Exception, SystemExit) as e:
        c.violation('solve', 'ikSolver.py on arm %s raises %r' % (name, e))
        return None
    R = g['R']
    left = [str(u.symbol) for u in g['unks'] if not u.solved and u.symbol in joints]
    if left or not getattr(R, 'FinalEqnMatrix', None) or not g['globals']:
        c.sample('arm %s: %s not solved' % (name, left))
        return None
    dh = sp.Matrix(dh)
    rest = R.params[len(params):]
    pv = {sp.Symbol(str(k)): v for k, v in R.Mech.pvals.items()}
    consts = {}
    for s in rest:
        t = str(pv.get(sp.Symbol(str(s)), '')).replace('np.', '')
        if t:
            consts[sp.Symbol(str(s))] = sp.sympify(t, locals={str(p): p for p in params})
    return dh, [sp.Symbol(str(j)) for j in joints], list(params), R, consts


def meaning(n, joints):
    """true value of a solved unknown in terms of the joint values"""
    s = sp.Symbol(n)
    if s in joints:
        return s
    m = re.fullmatch(r'th_(\d+)', n)
    if m:
        t = [sp.Symbol('th_' + d) for d in m.group(1)]
        if all(x in joints for x in t):
            return sum(t)
    return None


def arm_case(c, name, part):
    st = setup(c, name)
    if st is None:
        return
    dh, joints, params, R, consts = st
    T = fk(dh)
    pose = {POSE[i][j]: T[i, j] for i in range(3) for j in range(4)}
    pose.update(consts)
    # the formula of every version name
    env = {}
    for row in R.FinalEqnMatrix:
        for e in row:
            env[sp.Symbol(str(e.LHS))] = sp.sympify(e.RHS)
    rows = [[sp.Symbol(str(x)) for x in r] for r in R.solListMatrix]
    cols = [str(n.unknown.name) for n in R.solution_nodes]
    true = [meaning(n, joints) for n in cols]
    if None in true:
        c.incon('unknowns', str(cols))
        return
    val = {v: t for r in rows for v, t in zip(r, true)}
    for f in {'complete': [complete], 'sound': [sound], 'both': [complete, sound]}[part]:
        f(c, name, joints, params, rows, cols, true, env, pose, val, T)


def expand_trig(e):
    return e


def complete(c, name, joints, params, rows, cols, true, env, pose, val, T):
    """for all joint values some row equals them"""
    pts = [{s: mpmath.mpf(3 + 7 * i + 5 * k) / 11 for i, s in enumerate(joints + params)} for k in range(3)]
    loc = [{**pt, **{k: neval(v, pt) for k, v in pose.items()}} for pt in pts]
    for pt, l in zip(pts, loc):
        l.update({k: neval(x, pt) for k, x in val.items()})

    def undefined(e):
        """an atan2 both arguments of which are zero at the true joint values"""
        for x in e.atoms(sp.atan2):
            if all(abs(neval(a, l)) < 1e-20 for a in x.args for l in loc):
                return str(x)
        return None
    conds, texts = [], []
    f = {}
    # expressions with earlier unknowns at their true values
    for r in rows:
        for v in r:
            f[v] = env[v].xreplace({**pose, **val})
    al = A2(*(list(f.values()) + list(true) + [sp.cos(t) for t in joints if str(t)[0] != 'd'] + list(T)), spare=40)
    for r in rows:
        cs = []
        for v, t in zip(r, true):
            u = undefined(env[v])
            if u:
                cs.append(z3.BoolVal(False))
                texts.append('%s = %s is undefined (both arguments of %s are zero)' % (v, env[v], u))
                continue
            try:
                if str(t)[0] == 'd':
                    a = al.real(f[v])
                    d = al.reduce((al.add(a, al.neg(al.real(t)))).n)
                    ps = [d]
                else:
                    C, S_ = al.trig(f[v])
                    C0, S0 = al.trig(t)
                    ps = [al.reduce(al.add(C, al.neg(C0)).n), al.reduce(al.add(S_, al.neg(S0)).n)]
            except Unsupported as e:
                c.incon('encode', '%s: %s' % (v, e))
                return
            cs += al.exists(*ps) + [al.poly(p) == 0 for p in ps if p != 0]
        conds.append(z3.And(cs) if cs else z3.BoolVal(True))
    q = Query(c, 60000)
    hyps = list(al.defs) + [al.ang[p][0] == al.ang[p][0] for p in []]
    goal = z3.Or(conds)
    w, m = q.check(hyps + [goal])
    if w == z3.sat:
        c.witness += 1
    res, m = q.check(hyps + [z3.Not(goal)])
    c.paths += 1
    if res == z3.unsat and w == z3.sat:
        c.sample('arm %s: %d rows, %s' % (name, len(rows), [str(env[v])[:60] for v in rows[0]]))
        return
    pts = []
    if m is not None:
        try:
            pts.append(al.values(m))
        except Exception:
            pass
    bad = replay(name, joints, params, rows, true, env, pose, T, pts)
    if bad:
        c.violation('complete', 'arm %s: %s%s' % (name, bad, '; ' + '; '.join(sorted(set(texts))[:2]) if texts else ''))
    else:
        c.incon('complete', 'arm %s: solver %s/%s' % (name, w, res))


def numeric_rows(rows, env, pose, pt):
    T = {k: neval(v, pt) for k, v in pose.items()}
    out = []
    for r in rows:
        loc = {**pt, **T}
        try:
            # other versions of an unknown may be used: evaluate on demand
            def get(v, depth=0):
                if v not in loc:
                    for s in sorted(env[v].free_symbols, key=str):
                        if s in env:
                            get(s, depth + 1)
                    loc[v] = mpmath.mpmathify(neval(env[v], loc))
                return loc[v]
            out.append([get(v) for v in r])
        except (ValueError, ZeroDivisionError, KeyError):
            out.append(None)
    return out


def angclose(a, b, ang):
    if isinstance(a, mpmath.mpc):
        if abs(a.imag) > 1e-6:
            return False
        a = a.real
    d = a - b
    if ang:
        d = mpmath.atan2(mpmath.sin(d), mpmath.cos(d))
    return abs(d) < 1e-5 * (1 + abs(b))


def generic(rng, joints, params):
    pt = {s: mpmath.mpf(rng.uniform(-3, 3)) for s in joints}
    pt.update({s: mpmath.mpf(rng.uniform(0.3, 1.5)) for s in params})
    return pt


def replay(name, joints, params, rows, true, env, pose, T, pts):
    """joint values which no generated row gives, in a neighbourhood (a single
    singular pose is outside the property)"""
    rng = random.Random(9)

    def missed(pt):
        want = [neval(t, pt) for t in true]
        got = numeric_rows(rows, env, pose, pt)
        if any(g is not None and all(angclose(a, b, str(t)[0] != 'd') for a, b, t in zip(g, want, true)) for g in got):
            return None
        return got
    for k in range(40 + len(pts)):
        if k < 40:
            pt = generic(rng, joints, params)
        else:
            pt = {s: mpmath.mpf(pts[k - 40].get(s, 0.7)) for s in joints + params}
        got = missed(pt)
        if got is None:
            continue
        for t in range(4):
            pt = {s: x + mpmath.mpf(rng.uniform(-1, 1)) / 1000 for s, x in pt.items()}
            got = missed(pt)
            if got is None:
                break
        if got is None:
            continue
        return 'at joint values %s the generated poses are %s' % ({str(s): mpmath.nstr(v, 4) for s, v in pt.items()},
                                                                  [[mpmath.nstr(x, 4) for x in g] if g is not None else 'undefined' for g in got])
    return None


def fingerprint(r, cols, env, pose, joints, params):
    """identifies a generated row by what it computes, not by how it is written"""
    rng = random.Random(1)
    pt = generic(rng, joints, params)
    for k in range(20):
        g = numeric_rows([r], env, pose, pt)[0]
        if g is not None and not any(isinstance(x, mpmath.mpc) and abs(x.imag) > 1e-9 for x in g):
            break
        pt = generic(rng, joints, params)
    else:
        return 'complex'
    out = []
    for n, x in sorted(zip(cols, g)):
        x = mpmath.re(x)
        if n[0] != 'd':
            x = mpmath.atan2(mpmath.sin(x), mpmath.cos(x))
            if abs(abs(x) - mpmath.pi) < 1e-4:
                x = mpmath.pi
        out.append('%s=%s' % (n, mpmath.nstr(x, 4) if abs(x) > 1e-9 else '0.0'))
    return ','.join(out)


def sound(c, name, joints, params, rows, cols, true, env, pose, val, T):
    """every row satisfies the forward kinematics of the pose"""
    full = {}

    def value(v):
        if v not in full:
            e = env[v]
            full[v] = e.xreplace({s: value(s) for s in e.free_symbols if s in env}).xreplace(pose)
        return full[v]
    for k, r in enumerate(rows):
        q = {j: value(r[cols.index(str(j))]) for j in joints}
        al = A2(*(list(q.values()) + list(T) + [sp.cos(j) for j in joints if str(j)[0] != 'd']), spare=60)
        try:
            vals = {}
            for j in joints:
                if str(j)[0] == 'd':
                    vals[j] = al.real(q[j])
                else:
                    vals[j] = al.trig(q[j])
        except Unsupported as e:
            if 'zero' in str(e):
                c.sample('arm %s row %d: %s' % (name, k, e))
                continue
            c.incon('encode', 'arm %s: %s' % (name, e))
            return
        ps = []
        for i in range(3):
            for j in range(4):
                a, b = Eval(al, vals).real(T[i, j]), al.real(T[i, j])
                ps.append(al.reduce(al.add(a, al.neg(b)).n))
        rads = al.exists(*ps)
        qq = Query(c, 60000)
        c.paths += 1
        w, _ = qq.check(al.defs + rads)
        res, m = qq.check(al.defs + rads + [z3.Or([al.poly(p) != 0 for p in ps if p != 0] or [z3.BoolVal(False)])])
        if res == z3.unsat:
            if w == z3.sat:
                c.witness += 1
            continue
        rng = random.Random(4)
        hit = False
        for t in range(41):
            pt = generic(rng, joints, params)
            if t == 40:
                if m is None:
                    break
                mv = al.values(m)
                pt = {s: mpmath.mpf(mv.get(s, 0.7)) for s in pt}
            g = None
            for near in range(4):        # not at a single singular pose
                g = numeric_rows([r], env, pose, pt)[0]
                if g is None or any(isinstance(x, mpmath.mpc) and abs(x.imag) > 1e-9 for x in g):
                    break
                p2 = {**pt, **{j: mpmath.re(g[cols.index(str(j))]) for j in joints}}
                bad = [(i, j) for i in range(3) for j in range(4) if abs(neval(T[i, j], p2) - neval(T[i, j], pt)) > 1e-5]
                if not bad:
                    break
                pt = {s: x + mpmath.mpf(rng.uniform(-1, 1)) / 1000 for s, x in pt.items()}
            else:
                hit = True
                c.violation('sound/' + fingerprint(r, cols, env, pose, joints, params),
                            'arm %s: for the pose of joint values %s the generated pose %s gives another transform (entry %s)' % (
                    name, {str(s): mpmath.nstr(v, 4) for s, v in pt.items()}, {n: mpmath.nstr(x, 4) for n, x in zip(cols, g)}, bad[0]))
                break
        if not hit:
            c.incon('sound/%d' % k, 'arm %s: solver %s' % (name, res))
    c.sample('arm %s: %d rows satisfy the forward kinematics' % (name, len(rows)))


class Eval:
    """T with the joint values replaced by algebraic values"""

    def __init__(self, al, vals):
        self.al, self.v = al, vals

    def trig(self, e):
        al = self.al
        r = (al.one, al.zero)
        for t in sp.Add.make_args(sp.expand(e)):
            co, rest = t.as_coeff_Mul()
            if rest in self.v:
                p = self.v[rest]
                if co < 0:
                    p = (p[0], al.neg(p[1]))
                for _ in range(abs(int(co))):
                    r = al.angadd(r, p)
            else:
                r = al.angadd(r, al.trig(t))
        return r

    def real(self, e):
        al = self.al
        if e.is_Symbol and e in self.v:
            return self.v[e]
        if e.is_Add:
            r = al.zero
            for a in e.args:
                r = al.add(r, self.real(a))
            return r
        if e.is_Mul:
            r = al.one
            for a in e.args:
                r = al.mul(r, self.real(a))
            return r
        if e.is_Pow and e.exp.is_Integer and e.exp > 0:
            r = al.one
            for _ in range(int(e.exp)):
                r = al.mul(r, self.real(e.base))
            return r
        if isinstance(e, sp.cos):
            return self.trig(e.args[0])[0]
        if isinstance(e, sp.sin):
            return self.trig(e.args[0])[1]
        return al.real(e)


ARMS = list(pipeline.arms())
# robots of the program's own list; those whose queries come back unknown are
# left out (DESIGN.md)
QUICK = [(a, 'both') for a in 'Brad Chair_Helper Olson13 Wrist Arm_3 Bartell Sims11 ICP5p5_A21 Minder13 Palm13 Axtman13 Frei13 Srisuan11'.split()] + [('Stanford', 'complete')]
REST = [(a, 'both') for a in 'MiniDD Mackler13 Issue4 ArmRobo Raven-II KawasakiRS05L'.split()] + [(a, 'complete') for a in 'DZhang JennyGuoSp24 UR5 Wachtveitl'.split()]
for x in os.environ.get('C29R', '').split():      # development
    QUICK.append(tuple(x.split(':')))
ch = Check('C29', 'The complete unmodified ikSolver.py solves small arms; the pose entries in its final equations are replaced by the forward kinematics of symbolic joint values, and the solver decides for all joint values and link parameters that some generated solution row equals the joint values (modulo 2 pi), and that every generated row satisfies the forward kinematics.',
           {'arms': '%d arms of two to four moving joints' % len(ARMS)},
           ['generic poses: denominators in the formulas and the arguments of an atan2 are not zero (a formula undefined at every pose is a violation)', 'an arm the solver leaves unsolved is outside the property',
            'the solver run itself is concrete (its input, the arm, has symbolic parameters); the deciding step is the algebraic query'])
for a in ARMS:
    for part in ('complete', 'sound'):
        ch.case(part + '/' + a, arm_case, a, part)
for a, part in QUICK + (REST if THOROUGH else []):
    ch.case('listed/' + a, arm_case, a, part, limit=870)
if __name__ == '__main__':
    sys.exit(ch.run())
