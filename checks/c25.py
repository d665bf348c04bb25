"""C25: work assignment is fair, completion is reported truthfully."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.sym import *
import sympy as sp
import b3
patch_sleep()


class In:
    def __init__(self, ex=None, values=None):
        self.ex, self.v = ex, values

    def bool(self, name):
        if self.ex is not None:
            return SymBool(self.ex.boolvar(name))
        return bool(self.v.get(name, False))

    def assume(self, zexpr, conc):
        if self.ex is not None:
            self.ex.assume(zexpr)


NAMES = ['th_1', 'th_12', 'd_3', 'th_123', 'th_4', 'th_456', 'd_12']


class Solved:
    """flag of one unknown over time: unknown i is solved from the moment the
    monotone symbolic history says so"""

    def __init__(self, w, i, nticks):
        self.vals = []
        prev = None
        for t in range(nticks):
            b = w.bool('s%d_%d' % (i, t))
            if isinstance(b, SymBool):
                if prev is not None:
                    b = SymBool(z3.Or(prev.z, b.z))
            else:
                b = bool(b or prev)
            self.vals.append(b)
            prev = b


def pick_case(c, n, nticks, grow):
    from ikbtleaves.assigner_leaf import assigner
    from ikbtbasics.kin_cl import unknown
    c.fn('ikbtleaves/assigner_leaf.py:assigner.tick')

    def observe(w):
        unks = [unknown(sp.Symbol(NAMES[i])) for i in range(n)]
        hist = [Solved(w, i, nticks) for i in range(n)]
        bb = b3.Blackboard()
        tree = b3.BehaviorTree()
        tree.root = assigner()
        have = n - 1 if grow else n
        live = unks[:have]
        bb.set('unknowns', live)
        picks = []
        for t in range(nticks):
            if grow and t == grow:
                live.append(unks[n - 1])
                have = n
            for i in range(n):
                unks[i].solved = hist[i].vals[t]
            st = tree.tick('x', bb)
            cur = bb.get('curr_unk')
            idx = [i for i in range(have) if live[i] is cur]
            picks.append((st, idx[0] if idx else None, have))
        return hist, picks

    def truth(b):
        return b.z if isinstance(b, SymBool) else z3.BoolVal(b)

    def goals(hist, picks):
        out = []
        for t, (st, i, have) in enumerate(picks):
            someleft = z3.Or([z3.Not(truth(hist[j].vals[t])) for j in range(have)])
            if i is None:
                out.append(('pick', 'tick %d: current unknown is not one of the unknowns' % t, z3.BoolVal(False)))
                continue
            out.append(('unsolved', 'tick %d picks unknown %d which is solved although unsolved ones are left' % (t, i + 1), z3.Implies(someleft, z3.Not(truth(hist[i].vals[t])))))
            out.append(('status', 'tick %d reports status %s although unsolved ones are left' % (t, st), z3.Implies(someleft, z3.BoolVal(st == b3.SUCCESS))))
            prev = [u for u in range(t) if picks[u][1] == i]
            if prev:
                p = prev[-1]
                between = {picks[u][1] for u in range(p + 1, t)}
                for j in range(picks[p][2]):
                    if j != i and j not in between:
                        out.append(('fair', 'unknown %d is picked at ticks %d and %d without unsolved unknown %d in between' % (i + 1, p, t, j + 1),
                                    z3.Or(truth(hist[j].vals[t]), truth(hist[i].vals[t]))))
        return out

    def replay(vals):
        try:
            hist, picks = observe(In(values=vals))
        except Exception as e:
            return 'raises %r (%s)' % (e, vals)
        for sub, what, g in goals(hist, picks):
            if z3.is_false(z3.simplify(g)):
                return '%s; picks (status, unknown, list length): %s' % (what, picks)
        return None
    ex = Explorer(c, ends=60)
    k = 0
    for kind, val in ex.run(lambda e: observe(In(e))):
        if kind != 'ok':
            raised(c, ex, val, replay)
            return
        gs = goals(*val)
        bysub = {}
        for sub, what, g in gs:
            bysub.setdefault(sub, []).append(g)
        for sub, g in bysub.items():
            ex.check(z3.And(g), sub, sub, replay)
        if c.violations:
            return
        k += 1
        if k % 10 == 1:
            m = ex.witness()
            if replay(m) is None:
                c.validated += 1
    c.sample('%d unknowns, %d ticks, grow=%s: %d paths' % (n, nticks, grow, k))


def comp_case(c, n):
    from ikbtleaves.comp_detect import comp_det
    from ikbtbasics.kin_cl import unknown
    c.fn('ikbtleaves/comp_detect.py:comp_det.tick')

    def observe(w):
        unks = [unknown(sp.Symbol(NAMES[i])) for i in range(n)]
        flags = [w.bool('s%d' % i) for i in range(n)]
        for u, f in zip(unks, flags):
            u.solved = f
        leaf = comp_det()
        inv = w.bool('inverted')
        leaf.FailAllDone = bool(inv)
        bb = b3.Blackboard()
        bb.set('unknowns', unks)
        tree = b3.BehaviorTree()
        tree.root = leaf
        return tree.tick('x', bb), flags, bool(inv)

    def replay(vals):
        try:
            st, flags, inv = observe(In(values=vals))
        except Exception as e:
            return 'raises %r (%s)' % (e, vals)
        want = b3.SUCCESS if all(flags) != inv else b3.FAILURE
        return None if st == want else 'status %s, expected %s with solved flags %s, FailAllDone=%s' % (st, want, flags, inv)
    ex = Explorer(c, ends=60)
    for kind, val in ex.run(lambda e: observe(In(e))):
        m = ex.witness()
        if kind != 'ok':
            raised(c, ex, val, replay)
            return
        st, flags, inv = val
        alls = z3.And([f.z for f in flags])
        want = z3.If(z3.Xor(alls, z3.BoolVal(inv)), z3.IntVal(b3.SUCCESS), z3.IntVal(b3.FAILURE))
        ex.check(z(st) == want, 'status', 'completion status', replay)
        if replay(m) is None:
            c.validated += 1
        if c.violations:
            return
    c.sample('%d unknowns' % n)


chk = Check('C25',
            'the real assigner and completion detector are ticked with symbolic solved flags (for the assigner: any history in which unknowns become solved one after the other); '
            'the solver shows every pick is unsolved while one is left, that no unsolved unknown is passed over between two picks of the same one, and that completion is reported exactly when all flags are set.',
            dict(unknowns='1..%d (assigner), 1..7 (completion)' % (6 if THOROUGH else 5), ticks='up to 9', growth='one unknown appended during the run (as for sum-of-angle variables)'),
            ['an unknown once solved stays solved', 'what is picked once everything is solved is not specified'])
for n, t in ((1, 4), (2, 7), (3, 7), (4, 7 if not THOROUGH else 9), (5, 7)) + (((6, 9),) if THOROUGH else ()):
    chk.case('assign/%d' % n, pick_case, n, t, 0)
for n, t, g in ((2, 5, 1), (3, 6, 1), (3, 6, 2), (3, 6, 4)):
    chk.case('assign/grow%d/%d' % (n, g), pick_case, n, t, g)
for n in range(1, 8):
    chk.case('complete/%d' % n, comp_case, n)
sys.exit(chk.run())
