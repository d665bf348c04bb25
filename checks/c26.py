"""C26: equality and hashing of equations, unknowns, nodes and edges agree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.sym import *
from lib.bt import sym_type
import sympy as sp
patch_sleep()


class In:
    def __init__(self, ex=None, values=None):
        self.ex, self.v = ex, values

    def pick(self, name, opts):
        if self.ex is not None:
            return self.ex.pick(name, opts)
        return opts[int(self.v.get(name, 0))]

    def int(self, name, lo=None, hi=None):
        if self.ex is not None:
            return self.ex.int(name, lo, hi)
        return int(self.v.get(name, lo or 0))


class Side(SymInt):
    """a symbolic side whose text is its value"""
    __slots__ = ()

    def __repr__(self):
        return str(self.__index__())
    __str__ = __repr__
    __hash__ = SymInt.__hash__


def truth(b):
    if isinstance(b, SymBool):
        return b.z
    return z3.BoolVal(bool(b))


def relations(objs, same):
    """(sub, what, goal) for a list of objects; same(i,j) is the z3 truth of
    'the items are the same'"""
    out = []
    n = len(objs)
    for i in range(n):
        for j in range(n):
            eq = objs[i] == objs[j]
            ne = objs[i] != objs[j]
            out.append(('eq', 'item %d == item %d' % (i, j), truth(eq) == same(i, j)))
            out.append(('ne', 'item %d != item %d' % (i, j), truth(ne) == z3.Not(same(i, j))))
            out.append(('hash', 'items %d and %d are the same but hash differently' % (i, j), z3.Implies(same(i, j), z3.BoolVal(hash(objs[i]) == hash(objs[j])))))
    for i in range(n):
        try:
            none = (objs[i] == None)         # noqa: E711
        except Exception:
            none = True
        out.append(('none', 'comparison of item %d with None' % i, z3.Not(truth(none))))
    members = set(objs)
    distinct = [z3.Not(z3.Or([same(i, j) for j in range(i)])) if i else z3.BoolVal(True) for i in range(n)]
    out.append(('set', 'number of members of a set of the items', z3.IntVal(len(members)) == z3.Sum([z3.If(d, 1, 0) for d in distinct])))
    out.append(('in', 'membership of the last item in a list of the others', z3.BoolVal(objs[-1] in objs[:-1]) == z3.Or([same(n - 1, j) for j in range(n - 1)])))
    return out


def drive(c, build, sample):
    def replay(vals):
        try:
            for sub, what, g in relations(*build(In(values=vals))):
                if z3.is_false(z3.simplify(g)):
                    return '%s is wrong for %s' % (what, [repr(o) for o in build(In(values=vals))[0]])
        except Exception as e:
            return 'raises %r (%s)' % (e, vals)
        return None

    def body(e):
        return relations(*build(In(e)))
    ex = Explorer(c)
    k = 0
    for kind, val in ex.run(body):
        if kind != 'ok':
            c.violation('raises', replay(ex.witness()) or 'raises %r' % (val,))
            return
        subs = {}
        for sub, what, g in val:
            subs.setdefault(sub, []).append(g)
        for sub, g in subs.items():
            ex.check(z3.And(g), sub, sub, replay)
        if c.violations:
            return
        k += 1
        if k % 10 == 1:
            m = ex.witness()
            if replay(m) is None:
                c.validated += 1
    c.sample('%s: %d paths' % (sample, k))


def keq_value_case(c, n):
    """sides are symbolic integers: every pattern of equal and different sides"""
    from ikbtbasics.kin_cl import kequation
    c.fn('ikbtbasics/kin_cl.py:kequation.__eq__', 'ikbtbasics/kin_cl.py:kequation.__ne__', 'ikbtbasics/kin_cl.py:kequation.__hash__')

    def build(w):
        s = [(w.int('l%d' % i, 0, n - 1), w.int('r%d' % i, 0, n - 1)) for i in range(n)]
        objs = []
        for l, r in s:
            k = kequation(sp.Symbol('u'), sp.Symbol('v'))
            if isinstance(l, SymInt):
                k.LHS, k.RHS = Side(l.z), Side(r.z)
            else:
                k.LHS, k.RHS = l, r
            objs.append(k)
        zz = [(z(l), z(r)) for l, r in s]
        return objs, lambda i, j: z3.And(zz[i][0] == zz[j][0], zz[i][1] == zz[j][1])
    drive(c, build, 'integer sides')


def family():
    x, y, zz = sp.symbols('th_1 th_2 l_1')
    f2 = sp.factor(2 * x + 2 * y)
    neg = sp.Mul(-1, x - y, evaluate=False)
    return [sp.Integer(0), x, y, x + y, x - y, y - x, neg, f2, 2 * x + 2 * y, sp.sin(x), sp.cos(x), sp.sin(x) * zz, -sp.sin(x) * zz, sp.sin(x) ** 2, 1 - sp.cos(x) ** 2,
            sp.Symbol('l_12'), sp.Symbol('l_1') * 2, sp.expand((x + y) ** 2), (x + y) ** 2, sp.Symbol('r_11'), sp.Symbol('Px') - zz, sp.Rational(1, 2) * x, sp.atan2(x, y), sp.atan2(y, x)]


def keq_expr_case(c, part):
    from ikbtbasics.kin_cl import kequation
    c.fn('ikbtbasics/kin_cl.py:kequation.__eq__', 'ikbtbasics/kin_cl.py:kequation.__hash__')
    fam = family()
    n = len(fam)
    mine = fam[part::6]

    def build(w):
        l1 = w.pick('l1', mine)
        l2 = w.pick('l2', fam)
        r = w.pick('side', [0, 1, 2])
        a, b = (l1, fam[3]) if r == 0 else (fam[3], l1) if r == 1 else (l1, l2)
        p, q = (l2, fam[3]) if r == 0 else (fam[3], l2) if r == 1 else (l2, l1)
        objs = [kequation(a, b), kequation(p, q), kequation(a, b)]
        sides = [(a, b), (p, q), (a, b)]
        return objs, lambda i, j: z3.BoolVal(sides[i][0] == sides[j][0] and sides[i][1] == sides[j][1])
    drive(c, build, 'symbolic expressions')


def unk_case(c, kind):
    from ikbtbasics.kin_cl import unknown
    from ikbtbasics.solutionGraphV3 import Node
    c.fn('ikbtbasics/kin_cl.py:unknown.__eq__', 'ikbtbasics/kin_cl.py:unknown.__hash__', 'ikbtbasics/solutionGraphV3.py:Node.__eq__', 'ikbtbasics/solutionGraphV3.py:Node.__hash__')
    names = ['th_1', 'th_2', 'd_1', 'th_12']

    def build(w):
        ns = [w.pick('n%d' % i, names) for i in range(3)]
        objs = [unknown(sp.Symbol(a)) for a in ns]
        for i, o in enumerate(objs):
            # state that must not matter
            o.solved = w.pick('solved%d' % i, [False, True]) if i == 0 else False
            o.n = i
        if kind == 'node':
            objs = [Node(o) for o in objs]
            objs[0].solveorder = 3
        return objs, lambda i, j: z3.BoolVal(ns[i] == ns[j])
    drive(c, build, kind)


def order_case(c):
    """nodes sort by solve order"""
    from ikbtbasics.kin_cl import unknown
    from ikbtbasics.solutionGraphV3 import Node
    c.fn('ikbtbasics/solutionGraphV3.py:Node.__lt__')

    def observe(w):
        ns = []
        for i in range(4):
            n = Node(unknown(sp.Symbol('th_%d' % (i + 1))))
            n.solveorder = w.int('o%d' % i, 0, 9)
            ns.append(n)
        return [n.solveorder for n in sorted(ns)]

    def replay(vals):
        o = observe(In(values=vals))
        return None if o == sorted(o) else 'sorted nodes have solve orders %s' % (o,)
    ex = Explorer(c)
    for kind, val in ex.run(lambda e: observe(In(e))):
        ex.witness()
        if kind != 'ok':
            c.violation('raises', 'sorting nodes raises %r' % (val,))
            return
        ex.check(z3.And([z(a) <= z(b) for a, b in zip(val, val[1:])]), 'order', 'nodes sorted by solve order', replay)


def edge_case(c, part):
    from ikbtbasics.kin_cl import unknown
    from ikbtbasics.solutionGraphV3 import Node, Edge
    c.fn('ikbtbasics/solutionGraphV3.py:Edge.__eq__', 'ikbtbasics/solutionGraphV3.py:Edge.__hash__')
    names = ['th_1', 'th_2', 'd_3']

    def build(w):
        es = []
        for i in range(2):
            es.append((w.pick('s%d' % i, names), w.pick('d%d' % i, names), w.int('m%d' % i, 1, 3)))
        es.append((es[0][1], es[0][0], es[0][2]))          # the reversed edge
        f = (lambda a: Node(unknown(sp.Symbol(a)))) if part else (lambda a: unknown(sp.Symbol(a)))
        objs = [Edge(f(a), f(b), m) for a, b, m in es]

        def same(i, j):
            a, b = es[i], es[j]
            return z3.And(z3.BoolVal(a[0] == b[0] and a[1] == b[1]), z(a[2]) == z(b[2]))
        # the statement compares edges with edges only
        return objs, same

    def drive2():
        def rel(objs, same):
            return [g for g in relations(objs, same) if g[0] != 'none']

        def replay(vals):
            try:
                for sub, what, g in rel(*build(In(values=vals))):
                    if z3.is_false(z3.simplify(g)):
                        return '%s is wrong for %s' % (what, [(repr(o), o.mult) for o in build(In(values=vals))[0]])
            except Exception as e:
                return 'raises %r (%s)' % (e, vals)
            return None
        ex = Explorer(c)
        for kind, val in ex.run(lambda e: rel(*build(In(e)))):
            if kind != 'ok':
                c.violation('raises', replay(ex.witness()) or 'raises %r' % (val,))
                return
            subs = {}
            for sub, what, g in val:
                subs.setdefault(sub, []).append(g)
            for sub, g in subs.items():
                ex.check(z3.And(g), sub, sub, replay)
            if c.violations:
                return
            ex.witness()
    drive2()


chk = Check('C26',
            'the real comparison and hash methods run on equations with symbolic sides (integers standing for arbitrary comparable sides, and a family of expressions chosen symbolically, '
            'unexpanded ones included) and on unknowns, nodes and edges with symbolic identity; the solver decides that ==, !=, hash, set membership and list membership agree with sameness.',
            dict(items='3 per relation (2 edges plus the reverse of one)', sides='integers 0..n-1 for n equations (every pattern of equal and different sides) and %d expressions' % len(family()), edges='3 unknowns, multiplicity 1..3'),
            ['"the same side" for expressions means the same expression (structurally), not mathematical equivalence'])
for n in (2, 3):
    chk.case('equation/values%d' % n, keq_value_case, n)
for p in range(6):
    chk.case('equation/expr%d' % p, keq_expr_case, p)
for k in ('unknown', 'node'):
    chk.case(k, unk_case, k)
chk.case('node/order', order_case)
for p in (0, 1):
    chk.case('edge/%d' % p, edge_case, p)
sys.exit(chk.run())
