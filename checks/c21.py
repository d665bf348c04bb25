"""C21: behaviour-tree decorators (and the wait action) follow their documented semantics."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.sym import *
from lib import bt
patch_sleep()

FN = ['b3/decorators/%s.py:%s' % (n.lower(), n) for n in bt.DECOS.values()] + ['b3/actions/wait.py:Wait', 'b3/core/basenode.py:BaseNode._execute', 'b3/core/behaviortree.py:BehaviorTree.tick']


def deco_case(c, shape, nticks, World=bt.World, **opt):
    c.fn(*FN)

    def observe(world):
        real, ref, bb, out, rec = bt.run_pair(shape, nticks, world)
        res = []
        for what, got, want in out:
            if what.startswith('events'):
                res.append((what.replace('events', 'nodes run, in order,'), tuple(p for e, p in got if e == 'tick'), tuple(p for e, p in want if e == 'tick')))
            elif what.startswith('result'):
                res.append((what, got, want))
        return res

    def replay(vals):
        try:
            for what, got, want in observe(World(values=vals, **opt)):
                if not bt.same(None, got, want):
                    return '%s of %s is %s, documented %s (inputs %s)' % (what, shape, got, want, vals)
        except Exception as e:
            return '%s raises %r (inputs %s)' % (shape, e, vals)
        return None
    ex = Explorer(c, ends=60)
    n = 0
    for kind, val in ex.run(lambda e: observe(World(e, **opt))):
        if kind != 'ok':
            m = ex.witness()
            raised(c, ex, val, replay)
            return
        for what, got, want in val:
            ex.check(bt.same(ex, got, want), what.split(' of ')[0], what, replay)
        if len(c.violations) > 2:
            return
        n += 1
        if n % 5 == 1:
            m = ex.witness()
            if replay(m) is None:
                c.validated += 1
            else:
                c.nonrepro.append('path and concrete run disagree: %s' % m)
    c.sample('%s, %d ticks: %d paths' % (shape, nticks, n))


chk = Check('C21',
            'decorators are ticked around symbolic children with a symbolic loop or time limit and a symbolic clock; on every path the child runs and the '
            'result of each tick are compared with reference semantics run on the same symbols.',
            dict(limits='loop limit at most -1..5 (negative = unlimited; 0..2 in nested cases), time limit 0..12', clock='advances by 0..10 between ticks, constant within one', ticks='1 to 4',
                 child='leaf, sequence, memory sequence or another decorator; from its second, third or fifth run within one tick on (by case) a leaf returns RUNNING or ERROR, so unlimited repeaters end; long runs: the child changes its answer once, at any of its first 150 runs (unlimited), 30 (limit 0..30) or 20 ticks'),
            ['the clock is replaced by a symbolic one in the modules that read it', 'what a repeater returns when its limit allows no run at all is not specified (only that it returns and is not RUNNING)'])
L = ('leaf', 'A')
LOOP = ('rep', 'ruf', 'rus')


def case(key, shape, nticks, **opt):
    chk.case(key, lambda c: deco_case(c, shape, nticks, **opt))


for d in bt.DECOS:
    lim = None if d == 'inv' else 'lim'
    loop = d in LOOP
    case(d + '/none', (d, lim, None), 2)
    case(d + '/leaf', (d, lim, L), 2 if loop else 4)
    if loop:
        case(d + '/leaf3', (d, lim, L), 3, loopcap=2, hi=2)
        case(d + '/leaf1', (d, lim, L), 1, loopcap=5, hi=5)
    case(d + '/seq', (d, lim, ('seq', bt.leaves(2))), 1 if loop else 2, hi=2, loopcap=2)
    case(d + '/mseq', (d, lim, ('mseq', bt.leaves(2))), 2, hi=1 if loop else 2, loopcap=1 if loop else 2)
    for d2 in bt.DECOS:
        case('%s/%s' % (d, d2), (d, lim, (d2, None if d2 == 'inv' else 'lim2', L)), 2 if not loop else 1 if d2 in LOOP else 2, lo=1 if d2 in LOOP else 0, hi=2, loopcap=2)
    case('pri/%s' % d, ('pri', [(d, lim, L), ('leaf', 'B')]), 2, lo=1 if loop else -1, hi=2 if loop else 3, loopcap=2)
# many runs: the child changes its answer once, at any of its first runs
for d in bt.DECOS:
    lim = None if d == 'inv' else 'lim'
    if d in LOOP:
        for a in ((bt.S, bt.F) if d == 'rep' else (bt.S,) if d == 'ruf' else (bt.F,)):
            st = (bt.R, bt.E_) if d == 'rep' else (bt.R, bt.R)
            case('%s/many/%d' % (d, a), (d, lim, L), 1, World=bt.Steady, first=a, then=st, upto=150, lo=-1, hi=-1)
            case('%s/manylim/%d' % (d, a), (d, lim, L), 1, World=bt.Steady, first=a, then=st, upto=30, lo=0, hi=30)
            case('%s/spread/%d' % (d, a), (d, lim, ('inv', None, L)), 12, World=bt.Steady, first=bt.R, then=(3 - a, 3 - a), upto=12, lo=1, hi=12)
    else:
        for a in (bt.S, bt.F, bt.R)[:3 if d != 'maxt' else 0]:
            case('%s/history/%d' % (d, a), (d, lim, L), 20, World=bt.Steady, first=a, then=(bt.S, bt.S), upto=20, lo=0, hi=3)
case('wait', ('wait', 'w'), 4)
case('seq/wait', ('seq', [L, ('wait', 'w')]), 3)
case('maxt/wait', ('maxt', 'm', ('wait', 'w')), 3)
sys.exit(chk.run())
