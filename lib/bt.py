"""Reference semantics of the b3 behaviour trees and the symbolic harness.

One run ticks the real tree and the reference on the same symbolic inputs:
the status returned by the n-th execution of each leaf, the cost of each
leaf, the loop limits and the clock advance between ticks.  Under lib.sym
these are solver variables and every branch either side takes is decided by
the solver, so one explored path stands for all inputs satisfying its path
condition; at the end of the path the outputs are compared by the solver.
"""
import types
from lib.sym import *
import b3

S, F, R, E_ = 1, 2, 3, 4
COMPOSITES = {'seq': 'Sequence', 'pri': 'Priority', 'or': 'OrNode', 'mseq': 'MemSequence', 'mpri': 'MemPriority'}
DECOS = {'inv': 'Inverter', 'lim': 'Limiter', 'maxt': 'MaxTime', 'rep': 'Repeater', 'ruf': 'RepeatUntilFailure', 'rus': 'RepeatUntilSuccess'}


# A tree shape is a nested tuple: ('leaf', name) | (composite, [shapes]) |
# (decorator, limit_name or None, shape or None) | ('wait', limit_name)
class World:
    """inputs of one run; symbolic (ex given) or concrete (values given)"""

    maxexec = 40

    def __init__(self, ex=None, values=None, loopcap=3, lo=-1, hi=3):
        self.ex, self.values, self.loopcap, self.lo, self.hi = ex, values, loopcap, lo, hi
        self.now = 0
        self.tickno = 0

    def int(self, name, lo, hi):
        if self.ex is not None:
            return self.ex.int(name, lo, hi)
        v = self.values.get(name, lo)
        return int(v) if not hasattr(v, 'denominator') or v.denominator == 1 else v

    def status(self, leaf, n, in_tick):
        """status of the n-th execution of a leaf; from the loopcap-th
        execution within one tree tick on it is RUNNING or ERROR, so that
        unlimited repeaters end"""
        if in_tick >= self.loopcap:
            return self.int('st_%s_%d' % (leaf, n), R, E_)
        return self.int('st_%s_%d' % (leaf, n), S, E_)

    def limit(self, name, lo=None, hi=None):
        return self.int(name, self.lo if lo is None else lo, self.hi if hi is None else hi)

    def advance(self):
        self.tickno += 1
        if self.tickno > 1:
            self.now = self.now + self.int('dt_%d' % self.tickno, 0, 10)


class Steady(World):
    """long runs: a leaf returns `first` until its k-th execution (k a
    solver variable up to `upto`) and `then` (a symbolic status) from then
    on; the leaves of a wide composite return `first` except one per tick,
    which and what it returns being solver variables"""
    maxexec = 400

    def __init__(self, ex=None, values=None, first=S, then=(S, E_), upto=100, wide=None, **opt):
        World.__init__(self, ex, values, **opt)
        self.first, self.then, self.upto, self.wide = first, then, upto, wide

    def status(self, leaf, n, in_tick):
        if self.wide:
            who = self.int('who_%d' % self.tickno, 0, self.wide - 1)
            if who == int(leaf[1:]):
                return self.int('st_%d' % self.tickno, *self.then)
            return self.first
        if self.int('k_%s' % leaf, 0, self.upto) > n:
            return self.first
        return self.int('st_%s' % leaf, *self.then)


class TimeShim:
    def __init__(self, world):
        self.w = world

    def time(self):
        return self.w.now

    monotonic = time
    perf_counter = time

    def sleep(self, *_a):
        pass


def shim_clock(world):
    import b3.decorators.maxtime as m1
    import b3.actions.wait as m2
    for m in (m1, m2):
        if hasattr(m, 'time'):
            m.time = TimeShim(world) if not callable(m.time) or isinstance(m.time, types.ModuleType) else (lambda: world.now)


_type = type


def sym_type(x, *a):
    if a:
        return _type(x, *a)
    return int if isinstance(x, SymInt) else _type(x)


def sym_isinstance(x, t):
    if isinstance(x, SymInt):
        ts = t if isinstance(t, tuple) else (t,)
        return any(u in (int, object) or u is SymInt for u in ts)
    return isinstance(x, t)


def shim_types():
    import b3.core.blackboard as m
    m.type = sym_type
    m.isinstance = sym_isinstance


class Stop(Exception):
    pass


class Built:
    """the real tree for a shape"""

    def __init__(self, shape, world, name='t'):
        self.log = []
        self.world = world
        self.count = {}
        self.intick = {}
        self.nodes = {}
        self.names = {}
        self.tree = b3.BehaviorTree()
        self.tree.id = name
        self.tree.root = self.build(shape, '0')

    def build(self, sh, path):
        k = sh[0]
        if k == 'leaf':
            node = self.leaf(sh[1])
        elif k == 'wait':
            lim = self.world.limit(sh[1], 0, 12)
            node = b3.Wait(0)
            node.end_time = lim
        elif k in COMPOSITES:
            node = getattr(b3, COMPOSITES[k])([self.build(s, '%s.%d' % (path, i)) for i, s in enumerate(sh[1])])
        else:
            child = self.build(sh[2], path + '.0') if sh[2] is not None else None
            cls = getattr(b3, DECOS[k])
            if k == 'inv':
                node = cls(child)
            else:
                node = cls(child, self.world.limit(sh[1], 0, 12) if k == 'maxt' else self.world.limit(sh[1]))
        node.id = 'n' + path
        self.nodes[path] = node
        self.instrument(node, path)
        return node

    def leaf(self, name):
        b = self

        class Leaf(b3.Action):
            def tick(self, tick):
                n = b.count.get(name, 0)
                b.count[name] = n + 1
                k = b.intick.get(name, 0)
                b.intick[name] = k + 1
                if n > b.world.maxexec:
                    raise Stop()
                self.Cost = b.world.int('cost_%s' % name, 0, 100)
                return b.world.status(name, n, k)
        return Leaf()

    def instrument(self, node, path):
        for ev in ('enter', 'open', 'tick', 'close', 'exit'):
            f = getattr(node, ev)

            def g(tick, f=f, ev=ev):
                self.log.append((ev, path))
                return f(tick)
            setattr(node, ev, g)


class Ref:
    """reference semantics, written from the documentation"""

    def __init__(self, shape, world):
        self.shape = shape
        self.world = world
        self.log = []
        self.count = {}
        self.intick = {}
        self.open = {}
        self.mem = {}
        self.ticks = {}
        self.succ = {}
        self.total = 0
        self.cost = {}
        self.nexec = 0
        self.lines = []

    def ex(self, sh, path):
        self.nexec += 1
        self.log.append(('enter', path))
        if not self.open.get(path):
            self.open[path] = True
            self.log.append(('open', path))
            self.on_open(sh, path)
        self.log.append(('tick', path))
        st = self.tick(sh, path)
        self.ticks[path] = self.ticks.get(path, 0) + 1
        self.total = self.total + self.cost.get(path, 0)
        if st == S:
            self.succ[path] = self.succ.get(path, 0) + 1
            self.lines.append('S')
        elif st == F:
            self.lines.append('F')
        if not (st == R):
            self.open[path] = False
            self.log.append(('close', path))
        self.log.append(('exit', path))
        return st

    def on_open(self, sh, path):
        k = sh[0]
        if k in ('mseq', 'mpri'):
            self.mem[path] = 0
        elif k in ('lim', 'rep', 'ruf', 'rus'):
            self.mem[path] = 0
        elif k in ('maxt', 'wait'):
            self.mem[path] = self.world.now

    def tick(self, sh, path):
        k = sh[0]
        if k == 'leaf':
            n = self.count.get(sh[1], 0)
            self.count[sh[1]] = n + 1
            j = self.intick.get(sh[1], 0)
            self.intick[sh[1]] = j + 1
            self.cost[path] = self.world.int('cost_%s' % sh[1], 0, 100)
            if n > self.world.maxexec:
                raise Stop()
            return self.world.status(sh[1], n, j)
        if k == 'wait':
            lim = self.world.limit(sh[1], 0, 12)
            return S if self.world.now - self.mem[path] > lim else R
        if k in COMPOSITES:
            return self.composite(k, sh[1], path)
        return self.deco(k, sh, path)

    def composite(self, k, kids, path):
        c = 0
        if k == 'or':
            any_ok = False
            for i, s in enumerate(kids):
                st = self.ex(s, '%s.%d' % (path, i))
                c = c + self.cost.get('%s.%d' % (path, i), 0)
                if not (st == F):
                    any_ok = True
            self.cost[path] = c
            return S if any_ok else F
        go_on = S if k in ('seq', 'mseq') else F
        start = self.mem.get(path, 0) if k in ('mseq', 'mpri') else 0
        for i in range(start, len(kids)):
            st = self.ex(kids[i], '%s.%d' % (path, i))
            c = c + self.cost.get('%s.%d' % (path, i), 0)
            if not (st == go_on):
                if k in ('mseq', 'mpri') and st == R:
                    self.mem[path] = i
                break
        else:
            st = go_on
        if k in ('seq', 'pri'):
            self.cost[path] = c
        return st

    def deco(self, k, sh, path):
        if sh[2] is None:
            return E_
        cp = path + '.0'
        if k == 'inv':
            st = self.ex(sh[2], cp)
            if st == S:
                return F
            if st == F:
                return S
            return st
        if k == 'maxt':
            late = self.world.now - self.mem[path] > self.world.limit(sh[1], 0, 12)
            st = self.ex(sh[2], cp)
            return F if late else st
        lim = self.world.limit(sh[1])
        if k == 'lim':
            if self.mem[path] < lim:
                st = self.ex(sh[2], cp)
                if st == S or st == F:
                    self.mem[path] += 1
                return st
            return F
        unlimited = bool(lim < 0)
        st = None
        while unlimited or self.mem[path] < lim:
            st = self.ex(sh[2], cp)
            if k == 'rep':
                again = st == S or st == F
            else:
                again = st == (S if k == 'ruf' else F)
            if not again:
                break
            self.mem[path] += 1
        return st          # None: the child did not run, status unspecified


def leaves(n, pre='L'):
    return [('leaf', '%s%d' % (pre, i)) for i in range(n)]


def same(ex, a, b):
    """equality of two outputs as a solver goal / Python bool"""
    if ex is None:
        return (a == b) if not isinstance(a, (SymInt, SymBool)) else bool(a == b)
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        return z(a) == z(b)
    return a == b


def run_pair(shape, nticks, world, log_flag=0):
    """ticks real tree and reference; returns list of comparisons
    (what, got, want) and raises what the real tree raises"""
    shim_clock(world)
    shim_types()
    real = Built(shape, world)
    rec = []

    class File:
        def write(self, s):
            rec.append(s)
    real.tree.log_flag = log_flag
    real.tree.log_file = File()
    ref = Ref(shape, world)
    bb = b3.Blackboard()
    out = []
    for t in range(nticks):
        world.advance()
        real.intick, ref.intick = {}, {}
        n0 = len(real.log), len(ref.log), ref.nexec
        st = real.tree.tick(None, bb)
        want = ref.ex(shape, '0')
        out.append(('events of tick %d' % (t + 1), tuple(real.log[n0[0]:]), tuple(ref.log[n0[1]:])))
        if want is not None:
            out.append(('result of tick %d' % (t + 1), st, want))
        elif st == R:
            out.append(('result of tick %d' % (t + 1), st, 'not RUNNING'))
        out.append(('node count of tick %d' % (t + 1), bb.get('node_count', real.tree.id), ref.nexec - n0[2]))
    return real, ref, bb, out, rec
