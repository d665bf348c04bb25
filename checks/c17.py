"""C17: generated Python code computes the derived solutions."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.gen import *
import ast, builtins
from types import SimpleNamespace
patch_sleep()

FN = 'ikbtfunctions/output_python.py:output_python_code'
FK = 'ikbtfunctions/output_python.py:output_FK_python_code'


def well_formed(src):
    """parses, and every name used is defined before (None = fine)"""
    try:
        tree = ast.parse(src)
    except SyntaxError as e:
        return 'the generated file does not parse: line %s: %s (%r)' % (e.lineno, e.msg, (e.text or '').strip()[:80])
    have = set(dir(builtins)) | {'XXXXX', '__name__'}
    bad = []
    # function bodies run after the module: they may use any of its names
    allnames = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.col_offset == 0}
    allnames |= {n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}

    def stmt(body, have):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                have.add(s.name)
                stmt(s.body, set(have) | allnames | {a.arg for a in s.args.args})
                continue
            if isinstance(s, ast.ClassDef):
                stmt(s.body, set(have))
                have.add(s.name)
                continue
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                have.update((a.asname or a.name).split('.')[0] for a in s.names)
                continue
            if isinstance(s, (ast.If, ast.While, ast.For, ast.Try, ast.With)):
                for ch in ast.iter_child_nodes(s):
                    if isinstance(ch, ast.expr):
                        use(ch, have)
                if isinstance(s, ast.For):
                    have.update(n.id for n in ast.walk(s.target) if isinstance(n, ast.Name))
                for f in ('body', 'orelse', 'finalbody'):
                    stmt(getattr(s, f, []) or [], have)
                continue
            use(s, have)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    have.add(n.id)

    def use(s, have):
        loc = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)
               and any(isinstance(p, ast.comprehension) for p in ast.walk(s))}
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in have and n.id not in loc:
                bad.append(n.id)
    stmt(tree.body, set(have))
    return 'the generated file uses undefined names %s' % sorted(set(bad)) if bad else None


def symT(enc):
    T = np.empty((4, 4), dtype=object)
    for i in range(4):
        for j in range(4):
            T[i, j] = SymR(POSE[i][j], enc) if i < 3 else float(POSE[i][j])
    return T


def numbers(prog, pt):
    T = np.array([[float(pt[POSE[i][j]]) if i < 3 else float(POSE[i][j]) for j in range(4)] for i in range(4)])
    return T, {str(p): float(pt[p]) for p in prog.params}


def concrete(prog, src, pt):
    ns, fs = py_load(src, numbers(prog, pt)[1])
    try:
        return ns[fs[0]](numbers(prog, pt)[0])
    except Exception as e:
        return repr(e)


def symbolic_pvals(prog):
    """environment in which parameters with stored values have them"""
    sub = {}
    for p in prog.params:
        if p in prog.pvals:
            v = prog.pvals[p]
            t = str(v).replace('np.', '')
            sub[p] = sp.nsimplify(sp.sympify(t, locals={str(x): x for x in prog.params}), rational=True, constants=[sp.pi]).xreplace(sub)
    if sub:
        prog.env = {k: e.xreplace(sub) for k, e in prog.env.items()}
        prog.checks = [a.xreplace(sub) for a in prog.checks]
    return sub


def judge(c, sub, prog, what, checks=True, src=None):
    patch_math()
    try:
        src = src or py_source(prog)
    except Exception as e:
        c.violation(sub + '/generate', '%s: the generator raises %r' % (what, e))
        return
    m = well_formed(src)
    if m:
        c.violation(sub + '/form', '%s: %s' % (what, m))
        return
    symbolic_pvals(prog)
    rng = random.Random(11)

    def run(out, got_judge):
        ex = Explorer(c)

        def go(ex):
            enc = Lin()
            for h in prog.domain(enc, out) + enc.defs:
                ex.pc.append(h)
                ex.solver.add(h)
            S.EXACT = enc
            try:
                ns, fs = py_load(src, {str(p): SymR(p, enc) for p in prog.params})
                if len(fs) != 1:
                    return 'defines', fs, enc
                return 'value', ns[fs[0]](symT(enc)), enc
            finally:
                S.EXACT = None
        for st, o in ex.run(go):
            if ex.witness() is None:
                continue
            if st != 'ok':
                pt = prog.point(rng, outside=out)
                msg = None
                if pt is not None:
                    r0 = concrete(prog, src, pt)
                    msg = r0 if isinstance(r0, str) else None
                if isinstance(o, (S.Limit, Unsupported)) or msg is None:
                    c.incon(sub, '%s: executing the generated function: %r' % (what, o))
                else:
                    c.violation(sub + '/run', '%s: the generated function fails: %s' % (what, msg))
                return False
            k, v, enc = o
            if k == 'defines':
                c.violation(sub + '/function', '%s: the generated module defines %s instead of one function' % (what, v))
                return False
            if not got_judge(v, enc, ex):
                return False
        return True

    def inside(v, enc, ex):
        def replay(m, row, order):
            for k in range(4):
                pt = prog.point(rng)
                if pt is None:
                    return None
                res = concrete(prog, src, pt)
                want = [[float(mpmath.re(neval(prog.env[s], pt))) for s in rr] for rr in prog.rows]
                at = {str(k): mpmath.nstr(x, 6) for k, x in pt.items()}
                if res is False or isinstance(res, str):
                    return 'at %s the generated function returns %s' % (at, res)
                w = [want[row][order[j]] for j in range(len(order))]
                if not any(all(mod_free_close(a, b) for a, b in zip(g, w)) for g in res):
                    return 'at %s no returned vector is the derived solution %s; returned %s' % (at, [round(x, 5) for x in w], [[round(float(y), 5) for y in g] for g in res][:4])
            return None
        if v is False or not isinstance(v, (list, tuple)):
            msg = None
            for _ in range(5):
                pt = prog.point(rng)
                if pt is not None and not isinstance(concrete(prog, src, pt), list):
                    msg = 'returns %r at the reachable pose %s' % (concrete(prog, src, pt), {str(k): mpmath.nstr(x, 6) for k, x in pt.items()})
                    break
            if msg:
                c.violation(sub + '/refuse', '%s: %s' % (what, msg))
            else:
                c.incon(sub, 'returned %r' % (v,))
            return False
        got = [[x.e if isinstance(x, SymR) else snum(float(x)) for x in g] for g in v]
        return judge_vectors(c, sub, prog, got, what, ex.pc, replay, enc)

    if not run(None, inside):
        return
    if not checks:
        return

    for i in range(len(prog.checks)):
        def outside(v, enc, ex, i=i):
            q = Query(c)
            q.check(ex.pc)
            if v is False or v == []:
                return True
            pt = prog.point(rng, outside=i)
            if pt is not None:
                res = concrete(prog, src, pt)
                if res is not False and res != []:
                    c.violation(sub + '/unreachable', '%s: %s is %s at %s, outside [-1, 1], and the function returns %s' % (
                        what, prog.checks[i], mpmath.nstr(neval(prog.checks[i], pt), 5), {str(k): mpmath.nstr(x, 6) for k, x in pt.items()}, str(res)[:200]))
                    return False
            c.incon(sub, 'out of range argument %d' % i)
            return False
        # the checks before it hold, the later ones are arbitrary
        if not run(i, outside):
            return
    c.sample('%s: %d poses of %d unknowns' % (what, len(prog.rows), len(prog.rows[0])))


class ShapeT:
    def __init__(self, ex):
        self.shape = (ex.int('rows', 0, 9), ex.int('cols', 0, 9))

    def __getitem__(self, k):
        return SymR(sp.Symbol('T%s%s' % k), None)


def shape_case(c):
    """exactly the 4x4 targets are accepted"""
    c.fn(FN)
    patch_math()
    prog = build([4, 0])
    src = py_source(prog)
    if well_formed(src):
        c.violation('form', well_formed(src))
        return
    ex = Explorer(c)

    def go(ex):
        enc = Lin()
        ns, fs = py_load(src, {str(p): SymR(p, enc) for p in prog.params})
        return ns[fs[0]](ShapeT(ex))

    def replay(vals):
        a, b = int(vals['rows']), int(vals['cols'])
        ns, fs = py_load(src, {str(p): 0.5 for p in prog.params})
        try:
            r0 = ns[fs[0]](np.zeros((a, b)))
        except SystemExit:
            r0 = 'refused'
        except Exception as e:
            r0 = repr(e)
        want = (a, b) == (4, 4)
        return None if (r0 != 'refused') == want and not isinstance(r0, str) or (r0 == 'refused') == (not want) and r0 == 'refused' else 'a %dx%d target gives %s' % (a, b, r0)
    for st, o in ex.run(go):
        ok = ex.names['rows'] == 4, ex.names['cols'] == 4
        ex.witness()
        if st == 'exit':
            ex.check(z3.Not(z3.And(*ok)), 'shape', 'a 4x4 target is refused', replay)
        elif st == 'ok':
            ex.check(z3.And(*ok), 'shape', 'a target of the wrong shape is accepted', replay)
        else:
            ex.check(z3.BoolVal(False), 'shape', 'a target makes the function fail with %r' % (o,), replay)


def synth_case(c, first, thorough):
    c.fn(FN)
    n = len(templates(None))
    ex = Explorer(c)

    def go(ex):
        ts = [first, ex.pick('second', list(range(n)))]
        if thorough:
            ts.append(ex.pick('third', list(range(n))))
        elif (ts[0] + ts[1]) % 3 == 0:
            ts.append((ts[0] + 5 * ts[1]) % n)
        return ts
    plan = [o for st, o in ex.run(go)]
    for ts in plan:
        k = sum(ts)
        robot = ['Arm', 'My-Arm_2', 'test: Arm 7', '3DOF'][k % 4]
        pv = [{}, {l_1: 0.5, ca1: 'np.cos(al_1)', sa1: 'np.sin(al_1)'}, {l_1: 0.25, l_2: 1.5, a_3: 2, al_1: sp.pi / 6, ca1: 'np.cos(pi/6)', sa1: 'np.sin(pi/6)'}][k % 3]
        names = [NAMES, list(sp.symbols('th_1 th_2 th_3 d_4')), list(sp.symbols('d_1 th_23 th_2 th_3'))][k % 3]
        sub = '-'.join(map(str, ts))
        judge(c, sub, build(ts, robot, names, pv), 'robot %s with solutions %s' % (robot, [templates(None)[t][0] for t in ts]))


def many_case(c):
    """more than 64 poses, more than six solved unknowns"""
    c.fn(FN)
    names = list(sp.symbols('th_1 th_23 th_2 th_3 th_4 th_5 th_6'))
    judge(c, 'wide', build([1, 0, 4, 1, 0, 8, 4], 'Wide', names, {}), 'seven solved unknowns', checks=False)
    if THOROUGH:
        judge(c, 'long', build([1, 5, 1, 5, 1, 5, 1], 'Long', names, {}), '128 poses', checks=False)


def arm_case(c, name):
    from lib import pipeline
    c.fn(FN, 'ikSolver.py')
    try:
        if name in pipeline.arms():
            dh, vv, params, joints = pipeline.arms()[name]
            g = pipeline.solve(name, dh, vv, params, {}, joints)
        else:
            g = pipeline.solve_listed(name)
    except Exception as e:
        c.violation('solve', 'ikSolver.py on arm %s raises %r' % (name, e))
        return
    R = g['R']
    src = written('Python')
    if src is None:
        c.violation('file', 'arm %s: ikSolver.py leaves the Python files %s' % (name, os.listdir('CodeGen/Python')))
        return
    judge(c, 'code', Program(R, R.params, R.Mech.pvals), 'arm %s solved by ikSolver.py' % name, src=src)


def fk_case(c, name, values):
    """the forward kinematics file evaluates the derived transform"""
    from lib import pipeline, arms
    import ikbtbasics.kin_cl as kc
    import ikbtfunctions.output_python as op
    from ikbtbasics.ik_classes import Robot
    c.fn(FK)
    patch_math()
    dh, vv, params, joints = pipeline.arms()[name]
    params = list(params)
    pv = {p: sp.Rational(k + 3, 4) for k, p in enumerate(params)} if values else {}
    plist = list(params)
    m = kc.mechanism(sp.Matrix(dh), plist, list(vv))
    m.pvals = dict(pv)
    m.forward_kinematics()
    R = Robot(m, name)
    unks = pipeline.unknowns_of(joints)
    R.scan_for_equations(unks)
    R.sum_of_angles_transform(unks)
    R.name = name
    R.params = m.params
    R.variables = unks
    outdirs()
    try:
        op.output_FK_python_code(R)
    except Exception as e:
        c.violation('generate', 'arm %s: the generator raises %r' % (name, e))
        return
    judge_fk(c, name, newest('CodeGen/Python'), dh, params, joints, pv, unks, R)


def fkonly_case(c, name):
    """the forward-kinematics program on a listed robot"""
    from lib import pipeline
    import ikbtfunctions.ik_robots as ir
    c.fn(FK, 'fkOnly.py')
    patch_math()
    pipeline.prepare()
    try:
        R = pipeline.recorded('fkOnly.py', name)[1]
    except (Exception, SystemExit) as e:
        c.violation('run', 'fkOnly.py on %s raises %r' % (name, e))
        return
    src = written('Python')
    if src is None:
        c.violation('file', 'fkOnly.py on %s leaves the Python files %s' % (name, os.listdir('CodeGen/Python')))
        return
    dh, vv, params, pv, unks = ir.robot_params(name)
    joints = [u.symbol for u in unks]
    judge_fk(c, name, src, dh, params, joints, pv, [SimpleNamespace(symbol=e) for q in R.kequation_aux_list for e in (q.LHS, q.RHS) if sp.sympify(e).is_Symbol], R)


def judge_fk(c, name, src, dh, params, joints, pv, unks, R):
    from lib import arms
    msg = well_formed(src)
    if msg:
        c.violation('form', 'arm %s: %s' % (name, msg))
        return
    L = sp.eye(4)
    for i in range(6):
        L = L * arms.link(*[dh[i, k] for k in range(4)])
    sub0 = {}
    for p in params:
        if p in pv:
            sub0[p] = sp.nsimplify(sp.sympify(str(pv[p]).replace('np.', ''), locals={str(x): x for x in params}), rational=True).xreplace(sub0)
    L = L.xreplace(sub0)
    # the joint values are dummies to be edited: make them symbolic
    S0 = src
    for j in joints:
        S0, k = re.subn(r'^%s(\s*)=.*$' % j, r'%s\1= _USER["%s"]' % (j, j), S0, flags=re.M)
        if k != 1:
            c.violation('joint', 'arm %s: joint variable %s is assigned %d times' % (name, j, k))
            return

    def go(ex):
        enc = Lin()
        S.EXACT = enc
        try:
            ns, fs = py_load(S0, {**{str(p): SymR(p, enc) for p in params}, **{str(j): SymR(j, enc) for j in joints}})
            A = ns['T06'].A
            soas = {str(u.symbol): ns.get(str(u.symbol)) for u in unks if u.symbol not in joints}
            return [[x.e if isinstance(x, SymR) else snum(x) for x in row] for row in A], soas
        finally:
            S.EXACT = None

    def conc(i, j):
        rng = random.Random(3)
        pt = {s: mpmath.mpf(round(rng.uniform(-2, 2), 3)) for s in list(params) + list(joints)}
        ns, fs = py_load(S0, {str(k): float(v) for k, v in pt.items()})
        a, b = ns['T06'].A[i][j], float(neval(L[i, j], {**pt, **{k: mpmath.mpf(str(float(v))) for k, v in sub0.items()}}))
        return None if abs(a - b) < 1e-6 else 'entry (%d,%d) is %.6g, the chain gives %.6g at %s' % (i, j, a, b, {str(k): str(v)[:6] for k, v in pt.items()})
    from lib.smt import prove_equal
    for st, o in Explorer(c).run(go):
        if st != 'ok':
            try:
                conc(0, 0)
                c.incon('run', repr(o))
            except Exception as e:
                c.violation('run', 'arm %s: executing the generated file: %r' % (name, e))
            return
        A, soas = o
        if len(A) != 4 or any(len(x) != 4 for x in A):
            c.violation('shape', 'arm %s: T06 is not 4x4' % name)
            return
        for i in range(4):
            for j in range(4):
                prove_equal(c, 'T%d%d' % (i, j), A[i][j], L[i, j], 'T06 entry (%d,%d) of the generated file of arm %s' % (i, j, name), numeric=lambda v, i=i, j=j: conc(i, j))
        defs = {e.LHS: e.RHS for e in R.kequation_aux_list}
        defs.update({e.RHS: e.LHS for e in R.kequation_aux_list})
        for n, v in soas.items():
            d = defs.get(sp.Symbol(n))
            if d is None or v is None:
                continue
            def soa(vals, n=n, d=d):
                pt = {s: mpmath.mpf(k + 1) / 3 for k, s in enumerate(list(params) + list(joints))}
                ns, fs = py_load(S0, {str(k): float(x) for k, x in pt.items()})
                a, b = float(ns[n]), float(neval(d, pt))
                return None if abs(a - b) < 1e-9 else 'with %s the file sets %s to %s, defined as %s = %s' % ({str(k): round(float(x), 3) for k, x in pt.items()}, n, a, d, b)
            prove_equal(c, 'soa/' + n, v.e if isinstance(v, SymR) else snum(v), d, 'compound angle %s in the generated file of arm %s' % (n, name), numeric=soa)


ch = Check('C17', 'The real generators write a Python file for solved arms; the file is parsed, its names are resolved in order, and its function is executed on a pose and parameters that are symbolic reals. The solver decides for all values that each returned vector equals one derived pose of the solution set (each pose once, joints in one fixed order), that an inverse sine or cosine argument out of range makes it return False, and that exactly 4x4 targets are accepted. The forward kinematics file is executed on symbolic joints and compared with the chain of link transforms.',
           {'solution formulas': '12 templates of the kinds the solvers produce (atan2, acos, asin, sums, roots, ratios, rational and pi coefficients), two to three unknowns (thorough: all triples), plus arms and listed robots solved by the whole pipeline, judged on the file ikSolver.py wrote; the file fkOnly.py writes for listed robots',
            'robot names': 'plain, with - and _, with prefix "test: ", starting with a digit', 'stored parameter values': 'none, some, all', 'poses': 'up to 32 (thorough 128)'},
           ['sin, cos, atan2, asin, acos, sqrt are uninterpreted functions for the equality of values (equal arguments give equal values); real arithmetic for floating point',
            'XXXXX placeholders are replaced by the parameter values, as the file asks its user to do', 'vectors may list the joints in any order that is the same for every vector'])
for k in range(len(templates(None))):
    ch.case('synth/%d' % k, synth_case, k, THOROUGH)
ch.case('shape', shape_case)
ch.case('many', many_case)
for a in (['RP', 'TWIST2', 'RPR'] if not THOROUGH else ['RR', 'RP', 'PR', 'RRR_wrist', 'RRP', 'PRR', 'RPR', 'PPP', 'PLANAR2', 'PLANAR3', 'SCARA', 'RRR_elbow', 'TWIST2', 'RRRR', 'DIFF', 'RRP_off', 'PRRR']):
    ch.case('arm/' + a, arm_case, a)
# robots the program lists
for a in (['Wrist', 'Brad', 'Olson13', 'Chair_Helper', 'Arm_3', 'Bartell', 'Sims11', 'ICP5p5_A21', 'Minder13', 'Palm13', 'Axtman13', 'Frei13', 'Srisuan11', 'MiniDD', 'Mackler13']) + os.environ.get('C17R', '').split():
    ch.case('listed/' + a, arm_case, a)
for a in (['Wrist', 'Bartell', 'Olson13', 'Chair_Helper', 'JennyGuoSp24', 'MiniDD', 'Axtman13', 'Parkman13', 'Wachtveitl', 'Mackler13', 'Palm13', 'Stanford', 'UR5'] if not THOROUGH else ['ArmRobo', 'Arm_3', 'Axtman13', 'Bartell', 'Brad', 'Chair_Helper', 'Craig417', 'DZhang', 'Frei13', 'ICP5p5_A21', 'Issue4', 'JennyGuoSp24', 'KR16', 'KawasakiRS007L', 'KawasakiRS05L', 'Khat6DOF', 'Mackler13', 'Minder13', 'MiniDD', 'Olson13', 'Palm13', 'Parkman13', 'Puma', 'Pumaoffset', 'Sims11', 'Srisuan11', 'Stanford', 'UR5', 'Wachtveitl', 'Wrist']) + os.environ.get('C17F', '').split():
    ch.case('fkonly/' + a, fkonly_case, a)
for a in (['RP', 'TWIST2', 'PLANAR2', 'RPR', 'SCARA', 'DIFF'] if not THOROUGH else ['RR', 'RP', 'PR', 'RRR_wrist', 'RRP', 'PRR', 'RPR', 'PPP', 'PLANAR2', 'PLANAR3', 'SCARA', 'RRR_elbow', 'TWIST2', 'RRRR', 'DIFF', 'RRP_off', 'PRRR']):
    for v in (False, True):
        ch.case('fk/%s/%s' % (a, 'values' if v else 'free'), fk_case, a, v)
if __name__ == '__main__':
    sys.exit(ch.run())
