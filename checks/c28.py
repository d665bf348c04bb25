"""C28: every listed robot model is usable as documented."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.sym import *
from lib.smt import Enc, Query
import sympy as sp
import io, contextlib, warnings
patch_sleep()

FN = 'ikbtfunctions/ik_robots.py:robot_params'
ODD = 'no such robot \x01'


def listing():
    """the robot names the program prints when asked for an unknown one"""
    from ikbtfunctions.ik_robots import robot_params
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            robot_params(ODD)
        except SystemExit:
            pass
    names = []
    for l in buf.getvalue().splitlines():
        l = l.strip()
        if l and ' ' not in l and l not in names:
            names.append(l)
    return names


class SymStr(str):
    """a string whose value is an SMT string variable"""
    def __new__(cls, zz, cands):
        o = str.__new__(cls, '<symbolic name>')
        o.z, o.cands = zz, cands
        return o

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return self.z is o.z
        if not isinstance(o, str):
            return False
        return SymBool(self.z == z3.StringVal(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        for n in self.cands:
            if CUR.fork(self.z == z3.StringVal(n)):
                return hash(n)
        return hash(ODD)


def accepts(name):
    from ikbtfunctions.ik_robots import robot_params
    try:
        r = robot_params(name)
        return 'accepted' if len(r) == 5 else 'returned %r' % (r,)
    except SystemExit:
        return 'rejected'
    except Exception as e:
        return 'raised %r' % (e,)


def names_case(c):
    from ikbtfunctions.ik_robots import robot_params
    c.fn(FN)
    names = listing()
    zz = z3.String('name')
    ex = Explorer(c)

    def replay(vals):
        n = vals['name']
        if n.startswith('"'):
            n = n[1:-1]
        for cand in [n] + [x for x in (n + 'x',) if n not in names]:
            got = accepts(cand)
            want = 'accepted' if cand in names else 'rejected'
            if got != want:
                return 'robot name %r: %s, should be %s' % (cand, got, want)
        return None

    def body(e):
        e.names['name'] = zz
        try:
            r = robot_params(SymStr(zz, names))
            return 'accepted' if len(r) == 5 else 'other'
        except SystemExit:
            return 'rejected'
    k = 0
    for kind, val in ex.run(body):
        listed = z3.Or([zz == z3.StringVal(n) for n in names])
        if kind != 'ok':
            c.violation('raises', replay(ex.witness()) or 'raises %r' % (val,))
            continue
        ex.check(listed if val == 'accepted' else z3.Not(listed) if val == 'rejected' else False, 'listed', 'a name is %s' % val, replay)
        if ex.witness() is not None:
            c.validated += 1
        k += 1
    if len(names) < 20:
        c.violation('few', 'only %d robots are listed: %s' % (len(names), names))
    c.sample('all strings: %d paths, %d listed names' % (k, len(names)))


def model_case(c, name):
    from ikbtfunctions.ik_robots import robot_params
    import ikbtbasics.kin_cl as kc
    from ikbtbasics.pykinsym import Link_S
    c.fn(FN, 'ikbtbasics/kin_cl.py:mechanism.__init__')
    try:
        dh, vv, params, pvals, unks = robot_params(name)
    except BaseException as e:
        c.violation('raises', 'robot_params(%r) raises %r' % (name, e))
        return
    c.paths += 1

    def bad(cond, sub, what):
        if cond:
            c.violation(sub, '%s: %s' % (name, what))
    bad(tuple(dh.shape) != (6, 4), 'shape', 'DH table has shape %s' % (dh.shape,))
    bad(len(vv) != 6 or any(v not in (0, 1) for v in vv), 'vv', 'joint type vector %s' % (vv,))
    bad([u.n for u in unks] != list(range(1, len(unks) + 1)), 'numbering', 'unknowns %s are numbered %s' % (unks, [u.n for u in unks]))
    bad(len({u.symbol for u in unks}) != len(unks) or not unks or any(u.solved or u.solutions for u in unks), 'unknowns', 'unknowns %s' % (unks,))
    syms = [u.symbol for u in unks]
    bad(len(set(params)) != len(params) or set(params) & set(syms), 'params', 'parameters %s' % (params,))
    # every other symbol is a declared constant
    und = set(dh.free_symbols) - set(params) - set(syms)
    bad(und, 'undeclared', 'undeclared symbols %s in the DH table' % sorted(map(str, und)))
    extra = set(pvals) - set(params)
    bad(extra, 'pvals', 'values are given for undeclared parameters %s' % sorted(map(str, extra)))
    for k, v in pvals.items():
        bad(not (isinstance(v, (int, float)) or (hasattr(v, 'is_number') and v.is_number and v.is_real)), 'pvals', 'value %r of %s is not a number' % (v, k))
    if c.violations:
        return
    # which entries depend on which joint variable, and how, is decided by the solver
    q = Query(c)
    rows = []
    for u in unks:
        dep = []
        x2 = sp.Symbol(u.name + '_b')
        for r in range(6):
            for k in range(4):
                e = sp.sympify(dh[r, k])
                if u.symbol not in e.free_symbols:
                    continue        # structurally independent
                enc = Enc()
                a, b = enc.real(e), enc.real(e.subs(u.symbol, x2))
                res, _ = q.check(enc.defs + [a != b])
                if res == z3.sat:
                    c.witness += 1
                    dep.append((r, k))
                    res2, _ = q.check(enc.defs + [z3.And(a - b != enc.real(u.symbol) - enc.real(x2), a - b != enc.real(x2) - enc.real(u.symbol))])
                    bad(res2 == z3.sat, 'unit', 'entry %s of row %d is not the joint variable plus a constant' % (e, r + 1))
        bad(len(dep) != 1, 'once', 'joint variable %s occurs in the DH entries %s' % (u, dep))
        if len(dep) == 1:
            r, k = dep[0]
            rows.append(r)
            bad(k != (3 if vv[r] == 1 else 2), 'type', 'joint type %s of row %d, but %s is in column %d' % (vv[r], r + 1, u, k + 1))
            # the link transform: rotary joints turn, prismatic joints shift along z
            T, T2 = Link_S(*dh[r, :]), Link_S(*dh[r, :]).subs(u.symbol, x2)
            enc = Enc()
            rot_same = z3.And([enc.real(T[i, j]) == enc.real(T2[i, j]) for i in range(3) for j in range(3)])
            pos_same = z3.And([enc.real(T[i, 3]) == enc.real(T2[i, 3]) for i in range(3)])
            res, _ = q.check(enc.defs + [z3.Not(pos_same if vv[r] == 1 else rot_same)])
            bad(res != z3.unsat, 'motion', 'row %d of type %s moves its link the other way' % (r + 1, vv[r]))
    bad(rows != sorted(rows) or len(set(rows)) != len(rows), 'order', 'joint variables %s are in rows %s' % (unks, [r + 1 for r in rows]))
    if 0 not in rows:
        c.violation('first', '%s: no joint variable in the first row' % name)
    try:
        m = kc.mechanism(dh, params, vv)
        bad(sp.Matrix(m.DH) != sp.Matrix(dh) or list(m.vv) != list(vv) or set(m.params) != set(params), 'mechanism', 'mechanism object differs from the model')
    except BaseException as e:
        c.violation('mechanism', '%s: mechanism() raises %r' % (name, e))
    # a second request is not disturbed by the first
    dh2, vv2, p2, pv2, u2 = robot_params(name)
    bad(dh2 != dh or vv2 != vv or list(p2) != list(params) or pv2 != pvals or [u.name for u in u2] != [u.name for u in unks], 'again', 'a second request gives another model')
    c.validated += 1
    c.sample('%s: %d joints, rows %s, parameters %s' % (name, len(unks), [r + 1 for r in rows], params))


with quiet():
    NAMES = listing()
chk = Check('C28',
            'robot_params runs on a symbolic name (an SMT string): every path accepts exactly the listed names. For every listed model the solver decides on which DH entries each joint variable acts, that it '
            'acts as that variable plus a constant, and that the link it drives turns or shifts as the joint type vector says, for all values.',
            dict(names='all strings; %d listed' % len(NAMES), values='all real values of every symbol'), ['a joint type entry of a row without joint variable is not constrained'])
chk.case('names', names_case)
for n in NAMES:
    chk.case('model/' + n, model_case, n)
sys.exit(chk.run())
