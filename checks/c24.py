"""C24: a dumped behaviour tree loads back to the same tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.sym import *
from lib import bt
import b3
import json as _json
patch_sleep()


class MyLeaf(b3.Action):
    def tick(self, tick):
        return b3.SUCCESS


class MyComp(b3.Composite):
    def tick(self, tick):
        st = b3.FAILURE
        for ch in self.children:
            st = ch._execute(tick)
        return st


CUSTOM = {'MyLeaf': MyLeaf, 'MyComp': MyComp}


def shadow(base):
    """a node class of the user's that carries the name of a built-in one"""
    return type(base.__name__, (base,), {'mine': True})


SHADOW = {n: shadow(getattr(b3, n)) for n in ('Priority', 'Failer', 'Inverter')}
LEAVES = ['Succeeder', 'Failer', 'Runner', 'Error', 'Wait', 'MyLeaf']
COMPS = ['Sequence', 'Priority', 'OrNode', 'MemSequence', 'MemPriority', 'MyComp']
DECS = ['Inverter', 'Limiter', 'MaxTime', 'Repeater', 'RepeatUntilFailure', 'RepeatUntilSuccess']


class In:
    def __init__(self, ex=None, values=None):
        self.ex, self.v = ex, values

    def pick(self, name, opts):
        if self.ex is not None:
            return self.ex.pick(name, opts)
        return opts[int(self.v.get(name, 0))]

    def int(self, name, lo, hi):
        if self.ex is not None:
            return self.ex.int(name, lo, hi)
        return int(self.v.get(name, lo))


def kind_of(name):
    return COMPS if name in COMPS else DECS if name in DECS else LEAVES


class Maker:
    def __init__(self, w, kinds, wide, attrs, custom=CUSTOM):
        self.custom = custom
        self.w, self.kinds, self.wide, self.attrs = w, kinds, wide, attrs
        self.n = 0
        self.settings = {}

    def make(self, depth, path):
        w = self.w
        opts = list(self.kinds[min(depth, len(self.kinds) - 1)])
        name = w.pick('kind' + path, opts)
        cls = self.custom.get(name) or getattr(b3, name)
        self.n += 1
        if name in COMPS:
            k = w.pick('n' + path, list(range(self.wide[min(depth, len(self.wide) - 1)] + 1)))
            node = cls([self.make(depth + 1, path + '.%d' % i) for i in range(k)])
        elif name in DECS:
            has = w.pick('has' + path, [True, False])
            child = self.make(depth + 1, path + '.0') if has else None
            node = cls(child) if name == 'Inverter' else cls(child, w.int('set' + path, -3, 9))
        elif name == 'Wait':
            node = cls()
            node.end_time = w.int('set' + path, 0, 9)
        else:
            node = cls()
        node.id = 'id' + path
        if self.attrs:
            a = w.pick('attr' + path, [0, 1, 2])
            if a:
                node.title = 'title%d%s' % (a, path)
                node.description = 'desc%d' % a
                node.properties = {'p': a, 'q': [1, path]}
                node.parameters = {'speed': a}
        return node


def shape(node):
    if node is None or node == []:
        return None
    d = dict(cls=type(node).__name__, mine=getattr(node, 'mine', False), id=node.id, title=node.title, description=node.description, properties=node.properties, parameters=node.parameters, category=node.category)
    if isinstance(node, b3.Composite):
        d['children'] = [shape(x) for x in node.children]
    if isinstance(node, b3.Decorator):
        d['child'] = shape(node.child)
    for k in ('max_loop', 'max_time', 'end_time'):
        if hasattr(node, k):
            d['setting ' + k] = getattr(node, k)
    return d


def diff(a, b, path='root'):
    """list of (what, got, want)"""
    if a is None or b is None or a['cls'] != b['cls']:
        return [(path + ' class', a and a['cls'], b and b['cls'])]
    out = []
    for k in b:
        if k == 'children':
            out.append((path + ' number of children', len(a[k]), len(b[k])))
            for i, (x, y) in enumerate(zip(a[k], b[k])):
                out += diff(x, y, path + '.%d' % i)
        elif k == 'child':
            if b[k] is not None or a[k] is not None:
                out += diff(a[k], b[k], path + '.child')
        else:
            out.append((path + ' ' + k, a.get(k), b[k]))
    return out


def tree_case(c, kinds, wide, attrs, share=False, own=False):
    c.fn('b3/core/behaviortree.py:BehaviorTree.dump', 'b3/core/behaviortree.py:BehaviorTree.load', 'b3/core/composite.py:Composite.__init__', 'b3/core/decorator.py:Decorator.__init__')

    def observe(w):
        t = b3.BehaviorTree()
        custom = dict(CUSTOM, **SHADOW) if own and w.pick('own classes', [True, False]) else CUSTOM
        t.title, t.description, t.properties = 'my tree', 'what it does', {'a': 1}
        mk = Maker(w, kinds, wide, attrs, custom)
        t.root = mk.make(0, '')
        if share and isinstance(t.root, b3.Composite) and t.root.children:
            t.root.children.append(t.root.children[w.pick('shared', list(range(len(t.root.children))))])
        before = shape(t.root)
        data = t.dump()
        out = [('original tree after dump: ' + x, g, v) for x, g, v in diff(shape(t.root), before)]
        t2 = b3.BehaviorTree()
        t2.load(data, custom)
        out += [('tree ' + k, getattr(t2, k), getattr(t, k)) for k in ('title', 'description', 'properties')]
        out += diff(shape(t2.root), before)
        out.append(('nodes in the dump', len(data['nodes']), mk.n))
        return out

    def replay(vals):
        try:
            for what, got, want in observe(In(values=vals)):
                if not (got == want):
                    return 'loaded tree: %s is %s, was %s (tree choices %s)' % (what, got, want, vals)
        except Exception as e:
            return 'raises %r (tree choices %s)' % (e, vals)
        return None
    ex = Explorer(c, ends=60)
    n = 0
    for kind, val in ex.run(lambda e: observe(In(e))):
        if kind != 'ok':
            m = ex.witness()
            raised(c, ex, val, replay)
            return
        goals = []
        for what, got, want in val:
            if isinstance(got, SymInt) or isinstance(want, SymInt):
                zg, zw = z(got), z(want)
                goals.append(z3.BoolVal(False) if zg is None or zw is None else zg == zw)
            else:
                goals.append(z3.BoolVal(bool(got == want)))
        ex.check(z3.And(goals) if goals else z3.BoolVal(True), 'roundtrip', 'loading a dumped tree gives a different tree', replay)
        if c.violations:
            return
        n += 1
        if n % 10 == 1:
            m = ex.witness()
            if replay(m) is None:
                c.validated += 1
    c.sample('%d paths' % n)


def big_case(c, k, deep):
    """many children, deep nesting: the number of children and the depth are
    solver choices"""
    c.fn('b3/core/behaviortree.py:BehaviorTree.dump', 'b3/core/behaviortree.py:BehaviorTree.load')

    def observe(w):
        n = w.pick('n', [1, 4, 9, 12, 17, 33])
        odd = w.pick('odd', [0, n // 2, n - 1])
        t = b3.BehaviorTree()
        made = []

        def node(cls, *a):
            x = cls(*a)
            x.id = 'id%d' % len(made)
            made.append(x)
            return x
        leaf = lambda i: node(b3.Failer if i == odd else b3.Succeeder)
        cls = CUSTOM.get(k) or getattr(b3, k)
        if deep:
            cur = leaf(odd)
            for i in range(n):
                if k in DECS:
                    cur = node(cls, cur) if k == 'Inverter' else node(cls, cur, w.int('set%d' % i, -3, 9))
                else:
                    cur = node(cls, [leaf(-1), cur] if i % 2 else [cur, leaf(-1)])
            t.root = cur
        else:
            t.root = node(cls, [leaf(i) for i in range(n)])
        before = shape(t.root)
        data = t.dump()
        out = [('original tree after dump: ' + x, g, v) for x, g, v in diff(shape(t.root), before)]
        t2 = b3.BehaviorTree()
        t2.load(data, CUSTOM)
        return out + diff(shape(t2.root), before) + [('nodes in the dump', len(data['nodes']), len(made))]

    def replay(vals):
        try:
            for what, got, want in observe(In(values=vals)):
                if not (got == want):
                    return 'loaded tree: %s is %s, was %s (%s, choices %s)' % (what, got, want, k, vals)
        except Exception as e:
            return 'raises %r (%s, choices %s)' % (e, k, vals)
        return None
    ex = Explorer(c, ends=60)
    n = 0
    for kind, val in ex.run(lambda e: observe(In(e))):
        if kind != 'ok':
            raised(c, ex, val, replay)
            return
        goals = []
        for what, got, want in val:
            if isinstance(got, SymInt) or isinstance(want, SymInt):
                zg, zw = z(got), z(want)
                goals.append(z3.BoolVal(False) if zg is None or zw is None else zg == zw)
            else:
                goals.append(z3.BoolVal(bool(got == want)))
        ex.check(z3.And(goals), 'roundtrip', 'loading a dumped tree gives a different tree', replay)
        if c.violations:
            return
        n += 1
        if replay(ex.witness()) is None:
            c.validated += 1
    c.sample('%d paths' % n)


def names_case(c):
    """unknown node names are refused, empty trees survive"""
    c.fn('b3/core/behaviortree.py:BehaviorTree.load')

    def observe(ex, k):
        t = b3.BehaviorTree()
        t.root = MyLeaf()
        if k == 0:
            t.root = None
        data = t.dump()
        t2 = b3.BehaviorTree()
        try:
            t2.load(data, CUSTOM if k == 1 else None)
        except AttributeError:
            return 'refused'
        except Exception as e:
            return repr(e)
        return None if t2.root is None else type(t2.root).__name__
    want = [None, 'MyLeaf', 'refused']
    ex = Explorer(c, ends=60)
    for kind, val in ex.run(lambda e: (e.pick('k', [0, 1, 2]), observe(e, e.pick('k', [0, 1, 2])))):
        ex.witness()
        if kind != 'ok':
            c.violation('raises', 'load/dump raises %r' % (val,))
            continue
        k, got = val
        ex.check(got == want[k], 'names', 'unknown, known and absent root', lambda v: 'case %d: %s, expected %s' % (v['k'], observe(None, v['k']), want[v['k']]) if observe(None, v['k']) != want[v['k']] else None)


chk = Check('C24',
            'tree shapes, node kinds, presence of children, titles, properties and numeric settings are symbolic choices; every feasible tree is built, dumped and loaded by the real code '
            'and the solver decides equality of the loaded and the original tree node by node (settings for all integer values).',
            dict(trees='depth up to 3 (composite/decorator/leaf), up to 3 children at the top and 2 below; up to 33 children, nesting up to 33 deep', settings='loop and time limits as integer variables', kinds='all node classes of b3, two custom ones and custom ones carrying built-in names'),
            ['titles, descriptions and properties non-empty or default (load documents "or default")', 'custom classes are passed to load by name'])
SL = ['Succeeder', 'Failer', 'MyLeaf']
for k in COMPS:
    chk.case('flat/' + k, tree_case, [[k], LEAVES], [3], False)
    chk.case('attrs/' + k, tree_case, [[k], ['Succeeder', 'Inverter'], ['Failer']], [2], True)
    chk.case('deep/' + k, tree_case, [[k], ['Sequence', 'Priority', 'Succeeder', 'Limiter'], ['Failer']], [2, 2], False)
    chk.case('shared/' + k, tree_case, [[k], SL], [2], False, True)
for k in DECS:
    chk.case('deco/' + k, tree_case, [[k], LEAVES + DECS, ['Failer', 'Sequence'], SL], [2], False)
    chk.case('decoattr/' + k, tree_case, [[k], ['Wait', 'Inverter'], ['Succeeder']], [2], True)
    chk.case('decocomp/' + k, tree_case, [[k], COMPS, SL], [3], False)
for k in COMPS:
    chk.case('many/' + k, big_case, k, False)
    chk.case('nested/' + k, big_case, k, True)
for k in DECS:
    chk.case('nested/' + k, big_case, k, True)
chk.case('leaf', tree_case, [LEAVES], [0], True)
chk.case('own', tree_case, [['Sequence', 'Priority'], ['Inverter', 'Failer', 'Succeeder'], ['Failer', 'MyLeaf']], [2], False, False, True)
chk.case('names', names_case)
sys.exit(chk.run())
