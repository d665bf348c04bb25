"""C18: generated C++ code computes the derived solutions."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.gen import *
from lib.llvmir import Module, Machine, Obj, Ptr, Fault
patch_sleep()

FN = 'ikbtfunctions/output_cpp.py:output_cpp_code'


def layout(mod):
    """rows and columns of the caller's solution array, and the solver's name"""
    fs = [n for n in mod.funcs if 'ikin' in n]
    dims = [re.match(r'.*alloca \[(\d+) x \[(\d+) x double\]\]', l) for l in
            [l for b in mod.funcs.get('main', dict(blocks={}))['blocks'].values() for l in b]]
    dims = [(int(m.group(1)), int(m.group(2))) for m in dims if m]
    return fs, (dims[-1] if len(dims) > 1 else None)


def run_ir(mod, fn, dims, names, enc):
    R, C = dims
    M = Machine(mod, enc)
    for n in names:
        o = Obj('_user_' + n, 8)
        o.cells[0] = SymR(sp.Symbol(n), enc)
        M.g['@_user_' + n] = o
    T, L = Obj('T', 128), Obj('solution_list', 8 * R * C)
    for i in range(4):
        for j in range(4):
            T.cells[8 * (4 * i + j)] = SymR(POSE[i][j] if i < 3 else sp.Integer(POSE[i][j]), enc)
    rc = M.call(fn, [Ptr(T), Ptr(L)])
    return rc, L.cells, M.steps


def numbers(prog, pt):
    T = [float(pt[POSE[i][j]]) if i < 3 else float(POSE[i][j]) for i in range(4) for j in range(4)]
    return T, {str(p): float(pt[p]) for p in prog.params}


def judge(c, sub, prog, what, checks=True, src=None):
    patch_math()
    try:
        src = src or cpp_source(prog)
    except Exception as e:
        c.violation(sub + '/generate', '%s: the generator raises %r' % (what, e))
        return
    ir, names = cpp_ir(src, prog.params)
    if ir is None:
        c.violation(sub + '/compile', '%s: the generated file does not compile: %s' % (what, names))
        return
    mod = Module(ir)
    fs, dims = layout(mod)
    if len(fs) != 1:
        c.violation(sub + '/function', '%s: the generated file defines the solvers %s' % (what, fs))
        return
    R, C = dims or (len(prog.rows), len(prog.rows[0]))
    n = len(prog.rows[0])
    rng = random.Random(11)

    def conc(pt):
        T, pv = numbers(prog, pt)
        return cpp_run(src, T, pv, R, C)

    def at(pt):
        return {str(k): mpmath.nstr(x, 6) for k, x in pt.items()}

    def run(out, fn):
        ex = Explorer(c)

        def go(ex):
            enc = Lin()
            for h in prog.domain(enc, out) + enc.defs:
                ex.pc.append(h)
                ex.solver.add(h)
            S.EXACT = enc
            try:
                rc, cells, steps = run_ir(mod, fs[0], (R, C), names, enc)
                return rc, cells, enc
            finally:
                S.EXACT = None
        for st, o in ex.run(go):
            if ex.witness() is None:
                continue
            if st != 'ok':
                if isinstance(o, Fault):
                    # undefined behaviour on a feasible path: shown by the sanitizer
                    pt = prog.point(rng, outside=out)
                    m = sanitize(src, *numbers(prog, pt)) if pt else None
                    if m:
                        c.violation(sub + '/undefined', '%s: the generated function does something undefined: %s (%s)' % (what, o, m))
                        return False
                c.incon(sub, '%s: executing the generated function: %r' % (what, o))
                return False
            if not fn(*o, ex):
                return False
        return True

    def inside(rc, cells, enc, ex):
        def replay(m, row, order):
            for k in range(4):
                pt = prog.point(rng)
                if pt is None:
                    return None
                res = conc(pt)
                if res is None:
                    return None
                want = [[float(mpmath.re(neval(prog.env[s], pt))) for s in rr] for rr in prog.rows]
                if res[0] != 1:
                    return 'at %s the generated function returns %s' % (at(pt), res[0])
                w = [want[row][order[j]] for j in range(len(order))]
                got = [res[1][i * C:i * C + n] for i in range(len(prog.rows))]
                if not any(all(mod_free_close(a, b) for a, b in zip(g, w)) for g in got):
                    return 'at %s no solution in the list is the derived %s; the list holds %s' % (at(pt), [round(x, 5) for x in w], [[round(float(y), 5) for y in g] for g in got][:4])
            return None
        if rc != 1:
            for _ in range(5):
                pt = prog.point(rng)
                res = conc(pt) if pt is not None else None
                if res and res[0] != 1:
                    c.violation(sub + '/refuse', '%s: returns %r at the reachable pose %s' % (what, res[0], at(pt)))
                    return False
            c.incon(sub, 'returned %r' % (rc,))
            return False
        rows = {}
        for off, v in cells.items():
            rows.setdefault(off // (8 * C), {})[(off // 8) % C] = v
        miss = [(i, j) for i in range(len(prog.rows)) for j in range(n) if j not in rows.get(i, {})]
        extra = [(i, j) for i in rows for j in rows[i] if i >= len(prog.rows) or j >= n]
        if miss or extra:
            pt = prog.point(rng)
            res = conc(pt) if pt is not None else None
            if res and any(math.isnan(res[1][i * C + j]) for i, j in miss) or extra:
                c.violation(sub + '/list', '%s: %d derived poses of %d joints, the generated function leaves entries %s unset and sets %s besides' % (what, len(prog.rows), n, miss[:6], extra[:6]))
            else:
                c.incon(sub, 'entries %s' % miss[:6])
            return False
        got = [[(lambda x: x.e if isinstance(x, SymR) else snum(float(x)))(rows[i][j]) for j in range(n)] for i in range(len(prog.rows))]
        return judge_vectors(c, sub, prog, got, what, ex.pc, replay, enc)

    if not run(None, inside) or not checks:
        return
    for i in range(len(prog.checks)):
        def outside(rc, cells, enc, ex, i=i):
            if rc == 0:
                return True
            pt = prog.point(rng, outside=i)
            res = conc(pt) if pt is not None else None
            if res and res[0] != 0:
                c.violation(sub + '/unreachable', '%s: %s is %s at %s, outside [-1, 1], and the function returns %s' % (
                    what, prog.checks[i], mpmath.nstr(neval(prog.checks[i], pt), 5), at(pt), res[0]))
                return False
            c.incon(sub, 'out of range argument %d' % i)
            return False
        if not run(i, outside):
            return
    c.sample('%s: %d poses of %d unknowns' % (what, len(prog.rows), len(prog.rows[0])))


def sanitize(src, T, params):
    """run the generated file under the address and memory sanitizers"""
    body = cpp_fill(src, lambda n: repr(float(params[n])))
    body = re.sub(r'double T\[4\]\[4\] = \{.*?;', 'double T[4][4] = {%s};' % ', '.join('{%s}' % ','.join(repr(float(x)) for x in T[4 * i:4 * i + 4]) for i in range(4)), body, flags=re.S)
    open('s.cpp', 'w').write(body)
    for opt in (['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], ['-fsanitize=memory']):
        r = subprocess.run(['clang++', '-O0', '-w', '-g'] + opt + ['s.cpp', '-o', 's.exe'], capture_output=True, text=True)
        if r.returncode:
            continue
        r = subprocess.run(['./s.exe'], capture_output=True, text=True, timeout=60)
        m = re.search(r'(ERROR|WARNING|runtime error)[^\n]*', r.stderr)
        if r.returncode and m:
            return m.group(0)[:160]
    return None


def synth_case(c, first, thorough):
    c.fn(FN, 'ikbtfunctions/output_cpp.py:cpp_output')
    n = len(templates(None))
    ex = Explorer(c)

    def go(ex):
        ts = [first, ex.pick('second', list(range(n)))]
        if thorough:
            ts.append(ex.pick('third', list(range(n))))
        elif (ts[0] + ts[1]) % 3 == 0:
            ts.append((ts[0] + 5 * ts[1]) % n)
        return ts
    plan = [o for st, o in ex.run(go)]
    for ts in plan:
        k = sum(ts)
        robot = ['Arm', 'My-Arm_2', 'test: Arm 7', '3DOF'][k % 4]
        names = [NAMES, list(sp.symbols('th_1 th_2 th_3 d_4')), list(sp.symbols('d_1 th_23 th_2 th_3'))][k % 3]
        judge(c, '-'.join(map(str, ts)), build(ts, robot, names, {l_1: 0.5} if k % 2 else {}), 'robot %s with solutions %s' % (robot, [templates(None)[t][0] for t in ts]))
        if c.violations:
            return


def many_case(c):
    """more than 64 poses, more than six solved unknowns"""
    c.fn(FN)
    names = list(sp.symbols('th_1 th_23 th_2 th_3 th_4 th_5 th_6'))
    judge(c, 'wide', build([1, 0, 4, 1, 0, 8, 4], 'Wide', names, {}), 'seven solved unknowns', checks=False)
    judge(c, 'four', build([1, 0, 1, 4], 'Four', names, {}), 'four solved unknowns')
    judge(c, 'long', build([1, 5, 1, 5, 1, 5, 1], 'Long', names, {}), '128 poses', checks=False)


def arm_case(c, name):
    from lib import pipeline
    c.fn(FN, 'ikSolver.py')
    try:
        if name in pipeline.arms():
            dh, vv, params, joints = pipeline.arms()[name]
            g = pipeline.solve(name, dh, vv, params, {}, joints)
        else:
            g = pipeline.solve_listed(name)
    except Exception as e:
        c.violation('solve', 'ikSolver.py on arm %s raises %r' % (name, e))
        return
    R = g['R']
    src = written('Cpp')
    if src is None:
        c.violation('file', 'arm %s: ikSolver.py leaves the C++ files %s' % (name, os.listdir('CodeGen/Cpp')))
        return
    judge(c, 'code', Program(R, R.params, {}), 'arm %s solved by ikSolver.py' % name, src=src)


ch = Check('C18', 'The real generator writes a C++ file for solved arms; clang++ translates it (unoptimised) to LLVM IR, and a symbolic machine executes the solver function on a pose and parameters that are symbolic reals, with every memory access checked against its object. The solver decides for all values that each row of the solution list equals one derived pose (each pose once, joints in one fixed order) and that an inverse sine or cosine argument out of range makes it return 0.',
           {'solution formulas': '12 templates of the kinds the solvers produce (powers, rational coefficients, roots, inverse functions, pi), two to three unknowns (thorough: all triples), up to seven unknowns and 128 poses, plus arms and listed robots solved by the whole pipeline, judged on the file ikSolver.py wrote',
            'robot names': 'plain, with - and _, with prefix "test: ", starting with a digit'},
           ['sin, cos, atan2, asin, acos, sqrt are uninterpreted functions for the equality of values; real arithmetic for floating point',
            'XXXXX placeholders are replaced by the parameter values, as the file asks its user to do', 'compilation by the installed clang++ is part of the check, an uncompilable file is a violation',
            'the array given to the solver has the dimensions main() in the generated file declares'])
for k in range(len(templates(None))):
    ch.case('synth/%d' % k, synth_case, k, THOROUGH)
ch.case('many', many_case)
for a in (['RP', 'TWIST2', 'RPR'] if not THOROUGH else ['RR', 'RP', 'PR', 'RRR_wrist', 'RRP', 'PRR', 'RPR', 'PPP', 'PLANAR2', 'PLANAR3', 'SCARA', 'RRR_elbow', 'TWIST2', 'RRRR', 'DIFF', 'RRP_off', 'PRRR']):
    ch.case('arm/' + a, arm_case, a)
# robots the program lists
for a in (['Wrist', 'Brad', 'Olson13', 'Chair_Helper', 'Arm_3', 'Bartell', 'Sims11', 'ICP5p5_A21', 'Minder13', 'Palm13', 'Axtman13', 'Frei13', 'Srisuan11', 'MiniDD', 'Mackler13']) + os.environ.get('C18R', '').split():
    ch.case('listed/' + a, arm_case, a)
if __name__ == '__main__':
    sys.exit(ch.run())
