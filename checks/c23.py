"""C23: blackboard scopes are isolated and read back what was written."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.sym import *
from lib import bt
import b3
patch_sleep()

TREES = [None, 'T1', 'T2']
NODES = [None, 'N1', 'N2']
KEYS = ['k1', 'k2']
# scopes and keys that are falsy, alike up to case or blanks, or spell a reserved word in another scope
ODD = [(['', 'None', 'T1'], [None, 'n'], ['k1', ' k1']), ([None, 'T1', 't1'], ['', 'None'], ['', 'k']), (['T1', 'T1 '], [None, 'T1', 'node_memory'], ['K', 'k']),
       ([None, 0, 'T1'], [None, 0, 1], [0, '0'])]


class In:
    def __init__(self, ex=None, values=None):
        self.ex, self.v = ex, values

    def pick(self, name, opts):
        if self.ex is not None:
            return self.ex.pick(name, opts)
        return opts[int(self.v.get(name, 0))]

    def int(self, name):
        if self.ex is not None:
            return self.ex.int(name)
        return int(self.v.get(name, 0))


def hist_case(c, n, first, pools=None):
    trees, nodes, keys = pools or (TREES, NODES, KEYS)
    c.fn('b3/core/blackboard.py:Blackboard.set', 'b3/core/blackboard.py:Blackboard.get', 'b3/core/blackboard.py:Blackboard.inc',
         'b3/core/blackboard.py:Blackboard._get_memory', 'b3/core/blackboard.py:Blackboard._get_tree_memory', 'b3/core/blackboard.py:Blackboard._get_node_memory')
    bt.shim_types()

    def scope(t, nd, k):
        return (None, None, k) if t is None else (t, nd, k)

    def observe(w):
        bb = b3.Blackboard()
        model = {}
        out = []

        def read_all(when):
            for t in trees:
                for nd in nodes:
                    for k in keys:
                        out.append(('%s, value of (%s,%s,%s)' % (when, t, nd, k), bb.get(k, t, nd), model.get(scope(t, nd, k))))
        early = w.pick('reads', ['none', 'start', 'always'])
        if early != 'none':
            read_all('before the first write')
        for i in range(n):
            op = first[i] if i < len(first) else w.pick('op%d' % i, ['set', 'inc'])
            t, nd, k = w.pick('tree%d' % i, trees), w.pick('node%d' % i, nodes), w.pick('key%d' % i, keys)
            v = w.int('val%d' % i)
            sc = scope(t, nd, k)
            if op == 'inc' and sc in model:
                bb.inc(k, v, t, nd)
                model[sc] = model[sc] + v
            else:
                bb.set(k, v, t, nd)
                model[sc] = v
            if early == 'always' and i < n - 1:
                read_all('after write %d' % (i + 1))
        # read every scope back
        read_all('at the end')
        out.append(('TotalCost', bb.get('TotalCost'), 0))
        # a second read is the same, and defaults select the global scope
        for k in keys:
            out.append(('global value of %s' % k, bb.get(k), model.get((None, None, k))))
            out.append(('tree value of %s' % k, bb.get(k, 'T1'), model.get(('T1', None, k))))
        bb.set('TotalCost', 5)
        bb.inc('TotalCost', w.int('cost'))
        out.append(('TotalCost after inc', bb.get('TotalCost'), 5 + w.int('cost')))
        return out

    def replay(vals):
        try:
            for what, got, want in observe(In(values=vals)):
                if got != want:
                    return '%s reads %s, expected %s (history %s)' % (what, got, want, vals)
        except BaseException as e:
            return 'raises %r (history %s)' % (e, vals)
        return None
    ex = Explorer(c, ends=60)
    np = 0
    for kind, val in ex.run(lambda e: observe(In(e))):
        if kind != 'ok':
            m = ex.witness()
            raised(c, ex, val, replay)
            return
        goals = []
        for what, got, want in val:
            if isinstance(got, SymInt) or isinstance(want, SymInt):
                if z(got) is None or z(want) is None:
                    goals.append(z3.BoolVal(False))
                else:
                    goals.append(z(got) == z(want))
            else:
                goals.append(z3.BoolVal(got == want))
        ex.check(z3.And(goals), 'readback', 'a read returns something else than the last write in its scope', replay)
        if c.violations:
            return
        np += 1
        if np % 20 == 1:
            m = ex.witness()
            if replay(m) is None:
                c.validated += 1
    c.sample('histories of %d operations: %d paths' % (n, np))


chk = Check('C23',
            'histories of set and inc operations with symbolic scopes, keys and values run on the real Blackboard; then every scope and key is read back and the solver '
            'shows each value equals that of a map keyed by (tree, node, key), for all values and all choices.',
            dict(operations='histories of length 1 to %d' % (4 if THOROUGH else 3), reads='every scope and key at the end; also before the first write and between writes, or not', scopes='global, 2 trees, 2 nodes in each, 2 keys; in histories of 2 also empty, zero and look-alike scopes and keys', values='all integers'),
            ['keys other than the reserved node_memory and open_nodes', 'inc is applied to existing integer entries only'])
chk.case('h1', hist_case, 1, ['set'])
chk.case('h2/set', hist_case, 2, ['set', 'set'])
chk.case('h2/inc', hist_case, 2, ['set', 'inc'])
for j, pools in enumerate(ODD):
    chk.case('odd%d/h2/set' % j, hist_case, 2, ['set', 'set'], pools)
    chk.case('odd%d/h2/inc' % j, hist_case, 2, ['set', 'inc'], pools)
for a in ('set', 'inc'):
    for b in ('set', 'inc'):
        chk.case('h3/%s/%s' % (a, b), hist_case, 3, ['set', a, b])
        if THOROUGH:
            chk.case('h4/%s/%s' % (a, b), hist_case, 4, ['set', a, b, 'inc'], limit=3000)
sys.exit(chk.run())
