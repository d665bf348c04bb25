"""C22: behaviour-tree node life cycle and accounting are exact."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.sym import *
from lib import bt
import b3
patch_sleep()

FN = ['b3/core/basenode.py:BaseNode._execute', 'b3/core/basenode.py:BaseNode._tick', 'b3/core/basenode.py:BaseNode._open', 'b3/core/basenode.py:BaseNode._close',
      'b3/core/basenode.py:BaseNode._enter', 'b3/core/basenode.py:BaseNode._exit', 'b3/core/tick.py:Tick', 'b3/core/behaviortree.py:BehaviorTree.tick',
      'b3/core/blackboard.py:Blackboard.inc', 'b3/composites', 'b3/decorators']


def cycle_case(c, shape, nticks, log_flag=0, **opt):
    c.fn(*FN)

    def observe(world):
        world_paths = {}
        real, ref, bb, out, rec = bt.run_pair(shape, nticks, world, log_flag)
        res = list(out)
        for path, node in sorted(real.nodes.items()):
            res.append(('tick count of %s' % path, node.N_ticks_all, ref.ticks.get(path, 0)))
            res.append(('success count of %s' % path, node.N_success, ref.succ.get(path, 0)))
            res.append(('success count by state of %s' % path, tuple(node.N_suc2), (ref.succ.get(path, 0), 0, 0, 0)))
            if path in ref.cost and not opt.get('nocost'):
                res.append(('cost of %s' % path, node.Cost, ref.cost[path]))
        res.append(('total cost', bb.get('TotalCost'), ref.total))
        # log lines: successes (and failures at level 2) in the order nodes finish
        want = [x for x in ref.lines if x == 'S' or log_flag > 1] if log_flag else []
        res.append(('log', [r[0] for r in rec], want))
        return res

    def replay(vals):
        try:
            for what, got, want in observe(bt.World(values=vals, **opt)):
                if not bt.same(None, got, want):
                    return '%s of tree %s is %s, expected %s (inputs %s)' % (what, shape, got, want, vals)
        except Exception as e:
            return 'tree %s raises %r (inputs %s)' % (shape, e, vals)
        return None
    ex = Explorer(c, ends=60)
    n = 0
    for kind, val in ex.run(lambda e: observe(bt.World(e, **opt))):
        if kind != 'ok':
            m = ex.witness()
            raised(c, ex, val, replay)
            return
        for what, got, want in val:
            ex.check(bt.same(ex, got, want), what.split(' of ')[0], what, replay)
        if len(c.violations) > 2:
            return
        n += 1
        if n % 5 == 1:
            m = ex.witness()
            if replay(m) is None:
                c.validated += 1
            else:
                c.nonrepro.append('path and concrete run disagree: %s' % m)
    c.sample('%s, %d ticks: %d paths' % (shape, nticks, n))


def real_div(x):
    return x


def prob_case(c, mode):
    """success probability and utility from the counters"""
    c.fn('b3/core/basenode.py:BaseNode.prob', 'b3/core/basenode.py:BaseNode.prob_state', 'b3/core/basenode.py:BaseNode.get_Utility',
         'b3/core/basenode.py:BaseNode.get_Utility2', 'b3/core/basenode.py:BaseNode.p_reset')
    import b3.core.basenode as m
    m.float = lambda x: SymInt(z3.ToReal(x.z)) if isinstance(x, SymInt) and z3.is_int(x.z) else x if isinstance(x, SymInt) else float(x)

    def build(w):
        n = b3.Succeeder()
        n.N_ticks = w.int('ticks', 0, 1000)
        n.N_success = w.int('succ', 0, 1000)
        n.Cost = w.int('cost', 0, 1000)
        n.N_tik2 = [w.int('t%d' % i, 0, 50) for i in range(4)]
        n.N_suc2 = [w.int('s%d' % i, 0, 50) for i in range(4)]
        n.Utility_Mode = mode
        return n

    def observe(w):
        n = build(w)
        st = int(w.int('state', 0, 3))
        n.state = st
        p = n.prob()
        want = n.N_success / n.N_ticks if n.N_ticks > 0 else 0.1
        u = n.get_Utility()
        p2 = n.prob_state()
        want2 = [n.N_suc2[i] / n.N_tik2[i] if n.N_tik2[i] > 0 else 0.5 for i in range(4)]
        u2 = n.get_Utility2()
        if mode == 'RATIO':
            wu = want / n.Cost if n.Cost > 0 else want
            wu2 = want2[st] / n.Cost if n.Cost > 0 else want2[st]
        else:
            wu, wu2 = want * -1 * n.Cost, want2[st] * -1 * n.Cost
        return [('success probability', p, want), ('utility', u, wu)] + [('probability in state %d' % i, p2[i], want2[i]) for i in range(4)] + [('utility in state', u2, wu2)]

    def close(a, b):
        a, b = float(a), float(b)
        return abs(a - b) <= 1e-9 * (1 + abs(b))

    def replay(vals):
        try:
            for what, got, want in observe(bt.World(values=vals)):
                if not close(got, want):
                    return '%s is %s, expected %s (counters %s, mode %s)' % (what, got, want, vals, mode)
        except Exception as e:
            return 'raises %r (counters %s)' % (e, vals)
        return None

    def eq(a, b):
        za, zb = z(a), z(b)
        za = z3.ToReal(za) if z3.is_int(za) else za
        zb = z3.ToReal(zb) if z3.is_int(zb) else zb
        return za == zb
    ex = Explorer(c, ends=60)
    n = 0
    for kind, val in ex.run(lambda e: observe(bt.World(e))):
        if kind != 'ok':
            raised(c, ex, val, replay)
            return
        # one query: all equalities on this path
        for what, got, want in val:
            ex.check(eq(got, want), what, what, replay)
        n += 1
        if n % 4 == 1:
            m = ex.witness()
            if replay(m) is None:
                c.validated += 1
    # reset
    nd = build(bt.World(values={k: 7 for k in ('ticks', 'succ', 'cost', 't0', 's0', 's3')}))
    nd.p_reset()
    if nd.N_ticks or nd.N_ticks_all or nd.N_success or any(nd.N_tik2) or any(nd.N_suc2) or len(nd.N_tik2) != 4 or len(nd.N_suc2) != 4:
        c.violation('p_reset', 'p_reset leaves counters %s' % [nd.N_ticks, nd.N_ticks_all, nd.N_success, nd.N_tik2, nd.N_suc2])
    c.sample('mode %s: %d paths' % (mode, n))


chk = Check('C22',
            'instrumented real trees are ticked with symbolic child results and symbolic leaf costs; on every path the complete sequence of enter/open/tick/close/exit events, '
            'the per-node counters, node costs, total cost, node count and log lines are compared with a reference run on the same symbols. The probability and utility formulas are checked for all counter values.',
            dict(ticks='1 to 4', trees='composites with up to 3 children, decorators, one level of nesting', cost='0..100 per leaf', counters='0..1000'),
            ['the success counters are compared in state 0 (state is set by the user of the library)', 'cost of a composite = sum of the costs of the children it ran; memory composites keep no cost'])


def case(key, shape, nticks, log_flag=0, **opt):
    chk.case(key, lambda c: cycle_case(c, shape, nticks, log_flag, **opt))


for k in bt.COMPOSITES:
    case('%s/2' % k, (k, bt.leaves(2)), 2, 0)
    case('%s/3' % k, (k, bt.leaves(3)), 2 if k != 'or' else 1, 1)
    case('%s/1' % k, (k, bt.leaves(1)), 4, 2)
    for b in bt.COMPOSITES:
        case('nest/%s/%s' % (k, b), (k, [(b, bt.leaves(2, 'M')), ('leaf', 'L0')]), 2 if 'or' not in (k, b) else 1, 1)
for d in bt.DECOS:
    lim = None if d == 'inv' else 'lim'
    loop = d in ('rep', 'ruf', 'rus')
    case(d + '/leaf', (d, lim, ('leaf', 'A')), 2 if loop else 3, 2, hi=2, loopcap=2, lo=1 if loop else -1)
    case('seq/' + d, ('seq', [(d, lim, ('leaf', 'A')), ('leaf', 'B')]), 2, 1, hi=2, loopcap=2, lo=1)
for mode in ('RATIO', 'NEG_COST'):
    chk.case('prob/' + mode, prob_case, mode)
sys.exit(chk.run())
