"""C20: behaviour-tree composites follow their documented semantics."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.sym import *
from lib import bt
patch_sleep()

FN = ['b3/composites/%s.py:%s.tick' % (f, n) for f, n in
      (('sequence', 'Sequence'), ('priority', 'Priority'), ('ornode', 'OrNode'), ('memsequence', 'MemSequence'), ('mempriority', 'MemPriority'))]
FN += ['b3/composites/memsequence.py:MemSequence.open', 'b3/composites/mempriority.py:MemPriority.open', 'b3/core/basenode.py:BaseNode._execute',
       'b3/core/behaviortree.py:BehaviorTree.tick', 'b3/core/blackboard.py:Blackboard.get', 'b3/core/blackboard.py:Blackboard.set']


def runs(events):
    return tuple(p for e, p in events if e == 'tick')


def shape_case(c, shape, nticks, World=bt.World, **opt):
    c.fn(*FN)

    def observe(world):
        real, ref, bb, out, rec = bt.run_pair(shape, nticks, world)
        res = []
        for what, got, want in out:
            if what.startswith('events'):
                res.append((what.replace('events', 'nodes run, in order,'), runs(got), runs(want)))
            elif what.startswith('result'):
                res.append((what, got, want))
        return res

    def replay(vals):
        try:
            for what, got, want in observe(World(values=vals, **opt)):
                if not bt.same(None, got, want):
                    return '%s of tree %s is %s, documented %s (child results %s)' % (what, shape, got, want, {k: v for k, v in vals.items() if k.startswith('st')})
        except Exception as e:
            return 'tree %s raises %r (child results %s)' % (shape, e, vals)
        return None
    ex = Explorer(c, ends=60)
    n = 0
    for kind, val in ex.run(lambda e: observe(World(e, **opt))):
        if kind != 'ok':
            m = ex.witness()
            raised(c, ex, val, replay)
            return
        ok = True
        for what, got, want in val:
            if not ex.check(bt.same(ex, got, want), what.split(' of ')[0], what, replay):
                ok = False
        if not ok and len(c.violations) > 2:
            return
        n += 1
        if n % 7 == 1:
            m = ex.witness()
            if replay(m) is None:
                c.validated += 1
            else:
                c.nonrepro.append('path and concrete run disagree: %s' % m)
    c.sample('%s, %d ticks: %d paths' % (shape, nticks, n))


chk = Check('C20',
            'the real trees are ticked with symbolic child results (any of SUCCESS, FAILURE, RUNNING, ERROR at every execution of every child); '
            'on every path the children run, their order and the result of each tick are compared with reference semantics run on the same symbols.',
            dict(children='0..%d flat; nested trees with one inner composite; 20 flat (one child per tick, any of them, answering differently)' % (4 if THOROUGH else 3), ticks='1 to 4 (see case names); 12 where each child changes its answer once, at any tick', statuses='all four, chosen independently at every execution'),
            ['leaf actions are harness nodes returning a symbolic status; node ids are fixed names'])
for k in bt.COMPOSITES:
    for n in range(0, 5 if THOROUGH else 4):
        chk.case('%s/%d' % (k, n), shape_case, (k, bt.leaves(n)), (3 if n < 4 else 2) if k != 'or' else 3 if n < 3 else 2)
    chk.case('%s/long' % k, shape_case, (k, bt.leaves(2 if k != 'or' else 1)), 5 if THOROUGH else 4)
    chk.case('%s/wide' % k, shape_case, (k, bt.leaves(6 if k != 'or' else 5)), 1)
for a in bt.COMPOSITES:
    for b in bt.COMPOSITES:
        for pos in (0, 1):
            kids = bt.leaves(1)
            kids.insert(pos, (b, bt.leaves(2, 'M')))
            chk.case('nest/%s/%s/%d' % (a, b, pos), shape_case, (a, kids), 3 if THOROUGH else 2)
for a, b in (('mseq', 'mpri'), ('mpri', 'mseq'), ('mseq', 'mseq'), ('seq', 'mseq'), ('pri', 'mpri'), ('mseq', 'or')):
    chk.case('nest3/%s/%s' % (a, b), shape_case, (a, [('leaf', 'L0'), (b, bt.leaves(2, 'M'))]), 3 if b != 'or' or THOROUGH else 2)
# many children, long histories: at most one child per tick answers differently from the others
GO = dict(seq=bt.S, mseq=bt.S, pri=bt.F, mpri=bt.F)
for k in bt.COMPOSITES:
    go = GO.get(k, bt.F)
    for st, nm in ((bt.R, 'running'), (bt.E_, 'error'))[:1 if k[0] == 'm' else 2]:
        chk.case('many/%s/%s' % (k, nm), lambda c, k=k, go=go, st=st: shape_case(c, (k, bt.leaves(20)), 2 if k[0] == 'm' else 1, bt.Steady, first=go, then=(st, st), wide=20))
    for a, an in ((bt.R, 'running'), (go, 'through')):
        chk.case('history/%s/%s' % (k, an), lambda c, k=k, a=a: shape_case(c, (k, bt.leaves(2)), 12, bt.Steady, first=a, then=(bt.S, bt.F), upto=12))
sys.exit(chk.run())
