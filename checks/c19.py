"""C19: LaTeX rendering of equations and reports keeps their meaning."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.gen import *
from lib import latexread as lr
import ast
patch_sleep()

OUT = 'ikbtbasics/kin_cl.py:kequation.LaTexOutput'
EXP = 'ikbtfunctions/helperfunctions.py:theta_expand'
REP = 'ikbtfunctions/output_latex.py:output_latex_solution'
FKR = 'ikbtfunctions/output_latex.py:output_FK_equations'


def canon_syms(e, symbols):
    """the document writes ca1 as ca_1 and the like"""
    m = {}
    for s in symbols:
        m.setdefault(str(s).replace('_', ''), sp.Symbol(str(s)))
    return e.xreplace({s: m[str(s).replace('_', '')] for s in e.free_symbols if str(s).replace('_', '') in m})


def same(c, sub, got, want, what, text):
    """the rendered expression equals the real one for all symbol values"""
    q = Query(c, 10000)
    want = sp.sympify(want)
    for tr, mk in ((lambda e: e, UF), (canon, UF), (canon, Lin)):
        enc = mk()
        try:
            b = enc.expected(tr(want))
            a = enc.real(tr(got))
        except Unsupported as e:
            c.incon(sub, str(e))
            return False
        res, m = q.check(enc.defs + [a != b])
        if res == z3.unsat:
            return True
    rng = random.Random(5)
    sy = sorted(want.free_symbols | got.free_symbols, key=str)
    if got.free_symbols - want.free_symbols:
        c.violation(sub, '%s: rendered as %s, which reads %s' % (what, text, got))
        return False
    for k in range(30):
        pt = {s: mpmath.mpf(round(rng.uniform(0.1, 0.9), 3)) for s in sy}
        try:
            a, b = neval(got, pt), neval(want, pt)
        except (ZeroDivisionError, ValueError):
            continue
        if not close(mpmath.re(a), mpmath.re(b), 1e-7) or not close(mpmath.im(a), mpmath.im(b), 1e-7):
            c.violation(sub, '%s: rendered as %s, which reads %s: %s instead of %s at %s' % (what, text, got, mpmath.nstr(a, 6), mpmath.nstr(b, 6), {str(s): mpmath.nstr(v, 3) for s, v in pt.items()}))
            return False
    c.incon(sub, '%s: solver %s on %s against %s' % (what, res, got, want))
    return False


def equation(c, sub, text, lhs, rhs, what, align=None):
    syms = sp.sympify(lhs).free_symbols | sp.sympify(rhs).free_symbols
    if align is not None and ('&' in text) != align:
        c.violation(sub, '%s: %s alignment mark in %s' % (what, 'no' if align else 'an', text))
        return False
    if re.search(r'(?<![A-Za-z])th_', text):
        c.violation(sub, '%s: an angle name is not rendered as theta in %s' % (what, text))
        return False
    try:
        a, b = lr.read_equation(text, syms)
    except lr.Bad as e:
        c.violation(sub, '%s: %s = %s is rendered as %s: %s' % (what, lhs, rhs, text, e))
        return False
    return same(c, sub, canon_syms(a, syms), lhs, what + ', left side', text) and same(c, sub, canon_syms(b, syms), rhs, what + ', right side', text)


SY = sp.symbols('th_1 th_23 th_234 th_2v1 th_23v12 th_3s2 d_4 d_3v10 l_1 a_3 r_12 Px al_1 ca1 h')
K = sp.Symbol


def atoms():
    t = list(SY)
    return t


def inner(s):
    return [s, -s, s + K('l_2'), s - K('Py') / 2, 2 * s / 3, s ** 2, 1 / s, K('r_21') * s - sp.pi]


LONG = [K('th_' + i) for i in '1 2 3 4 5 6 12 23 34 45 56 123 234 345 456 1v1 23v12 456v8'.split()]


def outer(a, b):
    return [sp.sin(a), sp.cos(a) ** 2 * b, sp.atan2(a, b), sp.atan2(-a, -b) + sp.pi, sp.acos(a / b), -sp.asin(a) - sp.pi / 2, sp.sqrt(a ** 2 + b ** 2), a / sp.sqrt(b ** 2 + 1), (a + b) ** 3 / (a - b),
            -(a + 1) * (b - 2) / 4, sp.tan(a) * sp.sin(b) ** 3, sp.Rational(3, 4) * sp.sqrt(2) * a - b, 1 / sp.cos(a) ** 2 - b, sp.Abs(a) * b, sp.sin(a + b), sp.cos(a) * sp.cos(b) - sp.sin(a) * sp.sin(b),
            sp.atan2(sp.sqrt(a ** 2 - b ** 2), b) - sp.atan2(b, a), sp.acos(a) ** 2, sp.sin(2 * a) ** 2 / b,
            sp.Add(*[K('l_%d' % (i + 1)) * sp.sin(x) * sp.cos(K('th_%d' % (i % 6 + 1))) ** 2 for i, x in enumerate(LONG)]) * sp.cos(a) - b,
            sp.Mul(*[sp.cos(x + K('th_6')) for x in LONG]) / (b + sp.sqrt(a ** 2 + 1))]


def expr_case(c, k):
    from ikbtbasics.kin_cl import kequation
    c.fn(OUT, EXP)
    ex = Explorer(c, max_paths=100000)
    A = atoms()

    def go(ex):
        ia = ex.pick('form', list(range(8)))
        s = ex.pick('symbol', A)
        t = ex.pick('second', A if THOROUGH else [A[2], A[5], A[7], A[13]])
        return ia, s, t
    n = 0
    for st, o in ex.run(go):
        ia, s, t = o
        e = outer(inner(s)[ia], t)[k]
        if e.has(sp.zoo, sp.nan):
            continue
        ex.witness()
        align = bool(n % 2)
        lhs = A[n % len(A)] if n % 3 else (sp.sin(s) - e)
        n += 1
        try:
            text = kequation(lhs, e).LaTexOutput(align) if align or n % 4 else kequation(lhs, e).LaTexOutput()
        except Exception as x:
            c.violation('raises', 'LaTexOutput of %s = %s raises %r' % (lhs, e, x))
            return
        equation(c, 'equation', text, lhs, e, 'equation %s = %s' % (lhs, e), align if align else None)
        if c.violations:
            return
    c.sample('%d equations of form %s' % (n, outer(K('a'), K('b'))[k]))


def sections(text):
    out, pos = {}, list(re.finditer(r'\\section\*?\{((?:[^{}]|\{[^{}]*\})*)\}', text))
    for i, m in enumerate(pos):
        out[m.group(1).strip().rstrip(':').strip()] = text[m.end():pos[i + 1].start() if i + 1 < len(pos) else len(text)]
    return out


def find(secs, *words):
    for k, v in secs.items():
        if all(w in k for w in words):
            return v
    return None


def blocks(text):
    """(heading, method, [equations]) of each subsection"""
    out = []
    parts = re.split(r'\\subsection\{', text)[1:]
    for p in parts:
        d, i = 1, 0
        while d:
            d += {'{': 1, '}': -1}.get(p[i], 0)
            i += 1
        head, rest = p[:i - 1].strip(), p[i:]
        m = re.search(r'Solution Method:\s*(.*)', rest)
        eqs = []
        for env in re.findall(r'\\begin\{(?:align|dmath|equation)\*?\}(.*?)\\end\{(?:align|dmath|equation)\*?\}', rest, re.S):
            eqs += [x.strip() for x in re.split(r'\\\\', env) if x.strip()]
        out.append((head, m.group(1).strip() if m else None, eqs))
    return out


def heading(text, sym):
    try:
        e = lr.read(text.strip().strip('$').strip(), [sym])
    except lr.Bad as x:
        return str(x)
    return None if canon_syms(e, [sym]) == sym else 'reads %s' % e


def need(c, sub, v, what):
    if v is None:
        c.violation(sub, what)
    return v is None


def columns(c, sub, text, M, what):
    """every column of a matrix in the text equals the real one"""
    from ikbtbasics import pykinsym as pk
    pos = 0
    back = {}
    for x in ['1', '2', '3', '4', '5', '6', '12', '23', '34', '45', '56', '13']:
        a = sum(sp.Symbol('th_' + d) for d in x)
        back[sp.Symbol('s_' + x)] = sp.sin(a)
        back[sp.Symbol('c_' + x)] = sp.cos(a)
    mats = re.findall(r'\\begin\{(?:[bp]?matrix|array)\}.*?\\end\{(?:[bp]?matrix|array)\}', text, re.S)
    syms = sp.Matrix(M).free_symbols | set(back)
    cols = []
    try:
        for t in mats:
            cols.append(lr.read_matrix(t, syms)[0])
    except lr.Bad as e:
        c.violation(sub, '%s: %s' % (what, e))
        return
    cols = [x for x in cols if x.shape == (M.shape[0], 1)]
    if len(cols) != M.shape[1]:
        c.violation(sub, '%s: %d columns shown of %d' % (what, len(cols), M.shape[1]))
        return
    for j in range(M.shape[1]):
        for i in range(M.shape[0]):
            g = canon_syms(cols[j][i], syms).xreplace(back)
            if not prove_eq(c, '%s/%d%d' % (sub, i, j), g, sp.sympify(M[i, j]), '%s entry (%d,%d)' % (what, i, j)):
                return


def prove_eq(c, sub, a, b, what):
    from lib.smt import prove_equal
    if prove_equal(c, sub, a, b, '%s: shown %s, is %s' % (what, a, b), validate=False):
        return True
    return False


def stub_mech():
    import ikbtbasics.kin_cl as kc
    th1, th2, l1, d3 = sp.symbols('th_1 th_2 l_1 d_3')

    class M:
        DH = sp.Matrix([[0, 0, 0, th1], [-sp.pi / 2, l1, 0, th2], [sp.pi / 2, 0, d3, 0]])
        T_06 = sp.Matrix(4, 4, lambda i, j: l1 * sp.cos(th1) * sp.sin(th2) + i if (i + j) % 2 else sp.sin(th1 + th2) - j * d3)
        J66 = sp.Matrix(6, 6, lambda i, j: i * l1 - sp.cos(th1) ** 2 * j + d3 * sp.cos(th1 + th2))
        pvals = {}
    return M()


def report(c, sub, R, unks, what, expected=None):
    import ikbtfunctions.output_latex as ol
    from lib import pipeline
    pipeline.prepare()
    try:
        ol.output_latex_solution(R, unks, R.solutionSet)
    except Exception as e:
        c.violation(sub + '/raises', '%s: the report raises %r' % (what, e))
        return
    fs = [f for f in os.listdir('LaTex') if f.startswith('ik_solution_')]
    text = open(max(('LaTex/' + f for f in fs), key=os.path.getmtime)).read()
    for f in fs:
        os.unlink('LaTex/' + f)
    judge_report(c, sub, R, text, what)


def judge_report(c, sub, R, text, what):
    S_ = sections(text)
    nodes = R.solution_nodes
    # the unknowns, in solution order
    s = find(S_, 'Unknown')
    if need(c, sub + '/unknowns', s, what + ': no section lists the unknowns'):
        return
    items = [x.strip() for x in re.findall(r'\\item\s*\{(.*)\}\s*$', s.replace(r'\end{enumerate}', '\n'), re.M)]
    bad = [i for i, n in enumerate(nodes) if i >= len(items) or heading(items[i], n.symbol)]
    if len(items) != len(nodes) or bad:
        c.violation(sub + '/unknowns', '%s: unknowns in solution order are %s, listed %s' % (what, [str(n.symbol) for n in nodes], items))
        return
    used = [n for n in nodes if n.solvemethod != '']
    for title, words, eqs in (('generic', ('Generic',), lambda n: [(K(str(a)), b) for a, b in zip(n.unknown.solutionNames, n.unknown.solutions)]),
                              ('versions', ('all Versions',), lambda n: [(e.LHS, e.RHS) for e in [r[nodes.index(n)] for r in R.FinalEqnMatrix]])):
        s = find(S_, *words)
        if need(c, sub + '/' + title, s, '%s: no section %s' % (what, words)):
            return
        bl = blocks(s)
        if len(bl) != len(used):
            c.violation(sub + '/' + title, '%s: solutions of %d unknowns shown, %s solved' % (what, len(bl), [str(n.symbol) for n in used]))
            return
        for n, (head, meth, got) in zip(used, bl):
            h = heading(head, n.symbol)
            if h or meth != n.unknown.solvemethod.strip():
                c.violation(sub + '/' + title, '%s: heading %r (%s), method %r for unknown %s solved by %r' % (what, head, h, meth, n.symbol, n.unknown.solvemethod))
                return
            want = eqs(n)
            if len(got) != len(want):
                c.violation(sub + '/' + title, '%s: %d equations shown for %s, it has %d: %s' % (what, len(got), n.symbol, len(want), got))
                return
            for t, (l, r) in zip(got, want):
                if not equation(c, '%s/%s/%s' % (sub, title, n.symbol), t, l, r, '%s: %s' % (what, title)):
                    return
    # the solution sets
    s = find(S_, 'Solution Set')
    want = set(tuple(r) for r in R.solListMatrix)
    if s is not None:
        try:
            got = [tuple(str(x) for x in ast.literal_eval(l)) for l in re.findall(r'^\s*(\(.*\))\s*$', s, re.M)]
        except (ValueError, SyntaxError):
            got = None
        if got is None or set(got) != {tuple(map(str, w)) for w in want} or len(got) != len(want):
            c.violation(sub + '/sets', '%s: the solution sets shown are %s, derived %s' % (what, got, want))
            return
    # the solution graph, where it is shown
    s = find(S_, 'Graph', 'Edges')
    if s is not None:
        got = sorted(re.findall(r'\(\s*([^\s()]+)\s*-->\s*([^\s()]+)\s*\)', s))
        want = sorted((str(e.StartNode), str(e.dependsOn)) for e in R.notation_graph_edges)
        if got != want:
            c.violation(sub + '/edges', '%s: the edges shown are %s, the graph has %s' % (what, got, want))
            return
    s = find(S_, 'Kinematic Parameters')
    if need(c, sub + '/table', s, what + ': the DH table is not shown'):
        return
    DH = sp.Matrix(R.Mech.DH)
    try:
        M = lr.read_matrix(s, DH.free_symbols)[0]
    except lr.Bad as e:
        c.violation(sub + '/table', '%s: DH table: %s' % (what, e))
        return
    if M.shape != DH.shape:
        c.violation(sub + '/table', '%s: DH table shown as %s' % (what, M.shape))
        return
    for i in range(DH.shape[0]):
        for j in range(4):
            if not same(c, sub + '/table', canon_syms(M[i, j], DH.free_symbols), DH[i, j], '%s: DH entry (%d,%d)' % (what, i, j), str(M[i, j])):
                return
    for title, M in (('Forward', R.Mech.T_06), ('Jacobian', R.Mech.J66)):
        s = find(S_, title)
        if need(c, sub + '/' + title, s, '%s: no section %s' % (what, title)):
            return
        columns(c, sub + '/' + title, s.split('Column', 1)[-1], sp.Matrix(M), '%s: %s' % (what, title))
        if c.violations:
            return
    c.sample('%s: report of %d unknowns, %d poses' % (what, len(nodes), len(R.solListMatrix)))


def synth_report(c, first):
    from ikbtbasics.kin_cl import unknown
    from ikbtbasics.ik_classes import Robot
    c.fn(REP, OUT, EXP)
    n = len(templates(None))
    ex = Explorer(c)

    def go(ex):
        ts = [first, ex.pick('second', list(range(n)) if THOROUGH else [(first + 2 * k) % n for k in range(4)])]
        if sum(ts) % 2:
            ts.append((3 * first + ts[1] + 1) % n)
        return ts
    for ts in [o for st, o in ex.run(go)]:
        k = sum(ts)
        names = [NAMES, list(sp.symbols('th_1 th_2 th_3 d_4')), list(sp.symbols('d_1 th_23 th_2 th_3')), list(sp.symbols('th_234 th_3 d_2'))][k % 4]
        R = Robot()
        R.name = ['Arm', 'My-Arm_2', 'test: Arm 7'][k % 3]
        R.Mech = stub_mech()
        unks = [unknown(s) for s in names[:len(ts)]]
        prev = None
        for u, t in zip(unks, ts):
            nm, f = templates(prev)[t]
            u.solutions = [sp.sympify(x) for x in f]
            u.solvemethod = METHODS[nm]
            u.set_solved(R, unks)
            prev = u.symbol
        R.create_solution_set()
        report(c, '-'.join(map(str, ts)), R, unks, 'robot %s with solutions %s' % (R.name, [templates(None)[t][0] for t in ts]))
        if c.violations:
            return


def arm_case(c, name):
    from lib import pipeline
    c.fn(REP, OUT, 'ikSolver.py')
    try:
        if name in pipeline.arms():
            dh, vv, params, joints = pipeline.arms()[name]
            g = pipeline.solve(name, dh, vv, params, {}, joints)
        else:
            g = pipeline.solve_listed(name)
    except (Exception, SystemExit) as e:
        c.violation('solve', 'ikSolver.py on arm %s raises %r' % (name, e))
        return
    fs = [f for f in os.listdir('LaTex') if f.startswith('ik_solution_')]
    if len(fs) != 1:
        c.violation('file', 'arm %s: reports %s' % (name, fs))
        return
    judge_report(c, 'report', g['R'], open('LaTex/' + fs[0]).read(), 'arm %s solved by ikSolver.py' % name)


def fk_case(c, name):
    """the forward kinematics report"""
    import ikbtbasics.kin_cl as kc
    import ikbtfunctions.output_latex as ol
    from ikbtbasics.ik_classes import Robot
    from lib import pipeline
    c.fn(FKR)
    dh, vv, params, joints = pipeline.arms()[name]
    kc.JACOBIAN = True
    m = kc.mechanism(sp.Matrix(dh), list(params), list(vv))
    m.pvals = {}
    m.forward_kinematics()
    R = Robot(m, name)
    R.name = name
    pipeline.prepare()
    ol.output_FK_equations(R)
    judge_fk(c, name, m)


def fkonly_case(c, name):
    """the forward-kinematics program on a listed robot"""
    from lib import pipeline
    import ikbtfunctions.ik_robots as ir
    c.fn(FKR, 'fkOnly.py')
    pipeline.prepare()
    try:
        m = pipeline.recorded('fkOnly.py', name)[0]
    except (Exception, SystemExit) as e:
        c.violation('run', 'fkOnly.py on %s raises %r' % (name, e))
        return
    judge_fk(c, name, m, ir.robot_params(name)[0])


def judge_fk(c, name, m, dh=None):
    fs = [f for f in os.listdir('LaTex') if f.startswith('fk_')]
    if len(fs) != 1:
        c.violation('file', 'arm %s: reports %s' % (name, fs))
        return
    S_ = sections(open('LaTex/' + fs[0]).read())
    for title, M in (('Forward Kinematic Eq', m.T_06), ('Jacobian', m.J66)):
        s = find(S_, title)
        if need(c, title, s, 'arm %s: no section %s' % (name, title)):
            return
        columns(c, title, s.split('Column', 1)[-1], sp.Matrix(M), 'arm %s: %s' % (name, title))
        if c.violations:
            return
    s = find(S_, 'Kinematic Parameters') if dh is not None else None
    if s is not None:
        M = lr.read_matrix(s, dh.free_symbols)[0]
        for i in range(dh.shape[0]):
            for j in range(4):
                if M.shape != dh.shape or not same(c, 'table', canon_syms(M[i, j], dh.free_symbols), dh[i, j], 'arm %s: DH entry (%d,%d)' % (name, i, j), str(M[i, j])):
                    if M.shape != dh.shape:
                        c.violation('table', 'arm %s: DH table shown as %s' % (name, M.shape))
                    return
    c.sample('arm %s: transform and Jacobian columns' % name)


ch = Check('C19', 'The real LaTexOutput renders equations built by solver-chosen composition; a reader of LaTeX mathematics (one-token subscripts and exponents unless grouped) parses the text back, and the solver proves for all symbol values that both sides denote the same expressions. Complete reports are generated for solved arms and read back: unknowns in solution order, every generic solution, every version, the solution sets, the DH table, transform and Jacobian columns.',
           {'expressions': '19 shapes of functions, powers, quotients, roots over 8 inner forms and %d symbol names (versions, compound angles, multi-digit)' % len(SY), 'reports': 'two to three unknowns from 12 solution templates, and arms solved by the whole pipeline; listed robots through ikSolver.py and fkOnly.py (16 and 13; thorough all 31)'},
           ['transcendental functions are uninterpreted in the equality queries of expressions', 'ca1 and ca_{1} name the same symbol', 'only the mathematics subset these outputs use is read'])
for k in range(len(outer(K('a'), K('b')))):
    ch.case('expr/%d' % k, expr_case, k)
for k in range(len(templates(None))):
    ch.case('report/%d' % k, synth_report, k)
for a in (['RP', 'TWIST2'] if not THOROUGH else ['RP', 'TWIST2', 'RPR', 'PRR', 'RRR_elbow', 'PLANAR3', 'SCARA', 'DIFF']):
    ch.case('arm/' + a, arm_case, a)
# robots the program lists
for a in (['Brad', 'Chair_Helper', 'Olson13', 'Wrist', 'Arm_3', 'Bartell', 'Sims11', 'ICP5p5_A21', 'Minder13', 'Palm13', 'Axtman13', 'Frei13', 'Srisuan11', 'Stanford', 'MiniDD', 'Mackler13']) + os.environ.get('C19R', '').split():
    ch.case('listed/' + a, arm_case, a)
for a in (['Wrist', 'Bartell', 'Olson13', 'JennyGuoSp24', 'Chair_Helper', 'MiniDD', 'Parkman13', 'Wachtveitl', 'Axtman13', 'Palm13', 'Stanford', 'Puma', 'UR5'] if not THOROUGH else ['ArmRobo', 'Arm_3', 'Axtman13', 'Bartell', 'Brad', 'Chair_Helper', 'Craig417', 'DZhang', 'Frei13', 'ICP5p5_A21', 'Issue4', 'JennyGuoSp24', 'KR16', 'KawasakiRS007L', 'KawasakiRS05L', 'Khat6DOF', 'Mackler13', 'Minder13', 'MiniDD', 'Olson13', 'Palm13', 'Parkman13', 'Puma', 'Pumaoffset', 'Raven-II', 'Sims11', 'Srisuan11', 'Stanford', 'UR5', 'Wachtveitl', 'Wrist']) + os.environ.get('C19F', '').split():
    ch.case('fkonly/' + a, fkonly_case, a)
for a in (['RP', 'PLANAR3'] if not THOROUGH else ['RR', 'RP', 'PLANAR3', 'RPR', 'TWIST2', 'RRR_elbow', 'RRRR', 'DIFF']):
    ch.case('fk/' + a, fk_case, a)
if __name__ == '__main__':
    sys.exit(ch.run())
