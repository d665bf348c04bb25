"""C13: equation transforms only add consequences of existing equations."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.smt import *
from lib.sym import Explorer, PathAbort
from lib.leaves import In
from lib import arms
import b3
patch_sleep()

th_1, th_2, th_3, th_4, th_5, th_6, th_23, th_34, th_12, th_234 = TH = sp.symbols('th_1 th_2 th_3 th_4 th_5 th_6 th_23 th_34 th_12 th_234')
d_1, d_2, d_3, l_1, l_2, a_2, a_3, d_4, Px, Py, Pz = sp.symbols('d_1 d_2 d_3 l_1 l_2 a_2 a_3 d_4 Px Py Pz')
SOA = {th_12: th_1 + th_2, th_23: th_2 + th_3, th_34: th_3 + th_4, th_234: th_2 + th_3 + th_4}
sin, cos = sp.sin, sp.cos
RS = [[sp.Symbol('r_%d%d' % (i, j)) for j in (1, 2, 3)] for i in (1, 2, 3)]
TD = sp.Matrix([RS[i] + [[Px, Py, Pz][i]] for i in range(3)] + [[0, 0, 0, 1]])


def consequences(c, sub, Td, old, new, unknowns_solved, label):
    """Td = old  <=>  Td = new, for all values; no entry gains unknowns"""
    m = {Td[i, j]: old[i, j] for i in range(3) for j in range(4) if sp.sympify(Td[i, j]).is_Symbol}
    # entries of the pose which the arm keeps constant are equations of their own
    const = [(sp.sympify(Td[i, j]), sp.sympify(old[i, j])) for i in range(3) for j in range(4) if not sp.sympify(Td[i, j]).is_Symbol]
    for i in range(4):
        for j in range(4):
            a, b = sp.sympify(old[i, j]), sp.sympify(new[i, j])
            if a == b:
                continue
            text = '%s: entry (%d,%d) %s rewritten to %s' % (label, i, j, a, b)
            bs = b.subs(m, simultaneous=True)
            if not const:
                prove_equal(c, 'sound', bs, a, text, timeout_ms=8000)
            else:
                enc = Enc()

                def apart(vals, a=a, bs=bs, text=text):
                    full = dict(vals)
                    for s in set().union(*[x.free_symbols for x in [a, bs] + [y for e in const for y in e]]):
                        full.setdefault(s, mpmath.mpf('0.7'))
                    if not all(close(neval(x, full), neval(y, full)) for x, y in const):
                        return None
                    return None if close(neval(a, full), neval(bs, full)) else text
                prove(c, 'sound', enc, [enc.real(x) == enc.real(y) for x, y in const], enc.real(bs) == enc.real(a), apart, 8000, what=text, tries=2)
            if c.violations:
                return False
            if c.validated < 3:
                validate_encoding(c, a)
            na = {s for s in a.free_symbols if s in unknowns_solved and not unknowns_solved[s]}
            nb = {s for s in b.free_symbols if s in unknowns_solved and not unknowns_solved[s]}
            if len(nb) > len(na):
                c.violation('more', '%s: entry (%d,%d) %s rewritten to %s, which has more unknowns' % (label, i, j, a, b))
                return False
    # nothing is lost: the new equations imply every rewritten old one
    enc = Enc()
    hyps = [enc.real(Td[i, j]) == enc.real(new[i, j]) for i in range(3) for j in range(4)]
    for i in range(3):
        for j in range(4):
            if old[i, j] != new[i, j]:
                a = sp.sympify(old[i, j])
                # substitute the new equations into the old one as far as they go
                ms = {new[k, l]: Td[k, l] for k in range(3) for l in range(4) if not sp.sympify(new[k, l]).is_number}

                def replay(vals, a=a, i=i, j=j):
                    full = dict(vals)
                    for s in set().union(*[sp.sympify(x).free_symbols for x in list(old) + list(new) + list(Td)]):
                        full.setdefault(s, mpmath.mpf('0.7'))
                    for k in range(3):
                        for l in range(4):
                            if not close(neval(Td[k, l], full), neval(sp.sympify(new[k, l]), full)):
                                return None
                    x, y = neval(a, full), neval(Td[i, j], full)
                    return None if close(x, y) else '%s: the new equations no longer imply %s = %s' % (label, Td[i, j], a)
                prove(c, 'kept', enc, hyps, enc.real(a) == enc.real(Td[i, j]), replay, 6000, what='%s: old equation (%d,%d)' % (label, i, j), tries=2)
                if c.violations:
                    return False
    return True


ENTS = [sin(th_1) * cos(th_2), cos(th_1), d_3 * sin(th_1) * cos(th_2), sin(th_2), -sin(th_2), th_4 + l_1 + d_3, l_1, d_3, sp.S.One, cos(th_1) ** 2, l_1 * cos(th_1) + l_2 * cos(th_1) * cos(th_2), -d_3 * cos(th_1) + l_2 * sin(th_2), cos(th_1) * cos(th_2), sp.S.Zero]
BASE = [sin(th_1) * cos(th_2) + sin(th_5), d_3 * sin(th_2) - l_2 * sin(th_1) * cos(th_2), cos(th_5) * cos(th_1) * cos(th_2) + l_1 * cos(th_1), d_3 + l_1 + th_4 - sin(th_2), sin(th_5) * sin(th_2) * cos(th_1) ** 2, l_2 * cos(th_5) - d_3 * cos(th_1)]
US = [th_1, th_2, d_3, th_4, th_5]


def sub_case(c, i0, nk):
    from ikbtbasics.kin_cl import unknown, matrix_equation, kequation
    from ikbtbasics.ik_classes import Robot
    from ikbtleaves.sub_transform import sub_transform
    c.fn('ikbtleaves/sub_transform.py:sub_transform.tick', 'ikbtbasics/ik_classes.py:Robot.scan_for_equations')
    seen = set()

    def mk(w):
        es = [w.pick('e%d' % k, ENTS) if k else ENTS[i0] for k in range(nk)]
        flags = [bool(w.ex.flag('s_%s' % u)) for u in US[:3]] + [False, False]
        flip = w.pick('flip', [0, 1])
        return es, flags, flip
    ex = Explorer(c, max_paths=20000)
    n = 0
    for kind, (es, flags, flip) in ex.run(lambda e: mk(In(e))):
        ex.witness()
        cells = [(i, j) for i in range(3) for j in range(4)]
        if flip:
            cells.reverse()
        ents = es + BASE
        Ts = sp.zeros(4)
        Ts[3, 3] = 1
        for (i, j), x in zip(cells, ents):
            Ts[i, j] = x
        old = sp.Matrix(Ts)
        R = Robot()
        other = matrix_equation(sp.Matrix(TD), sp.Matrix(Ts.T))
        oc = (sp.Matrix(other.Td), sp.Matrix(other.Ts))
        R.mequation_list = [matrix_equation(sp.Matrix(TD), Ts), other]
        us = [unknown(s) for s in US]
        for u, f in zip(us, flags):
            u.solved = f
        bb = b3.Blackboard()
        bb.set('unknowns', us)
        bb.set('Robot', R)
        t = b3.BehaviorTree()
        t.root = sub_transform()
        try:
            st = t.tick('x', bb)
        except Exception as e:
            c.violation('raises', 'sub_transform on %s raises %r' % (Ts, e))
            return
        c.paths += 0
        m = R.mequation_list[0]
        lab = 'entries %s' % (list(old),)
        if st != b3.SUCCESS or sp.Matrix(m.Td) != TD or len(R.mequation_list) != 2 or (R.mequation_list[1].Td, R.mequation_list[1].Ts) != oc:
            c.violation('other', '%s: the desired pose or another matrix equation changed' % lab)
            return
        key = (tuple(old), tuple(m.Ts))
        if key not in seen:
            seen.add(key)
            if not consequences(c, 'sub', TD, old, m.Ts, dict(zip(US, flags)), lab):
                return
        else:
            ns = {s for s, f in zip(US, flags) if not f}
            for a, b in zip(old, m.Ts):
                if len(sp.sympify(b).free_symbols & ns) > len(sp.sympify(a).free_symbols & ns):
                    c.violation('more', '%s: %s rewritten to %s, which has more unknowns' % (lab, a, b))
                    return
        if sp.Matrix(m.Ts) != old:
            L = [bb.get(k) for k in ('eqns_1u', 'eqns_2u', 'eqns_3pu')]
            if L != list(R.scan_for_equations(us)):
                c.violation('lists', '%s: the equation lists on the board are not those of the changed equations' % lab)
                return
        n += 1
    c.sample('%d structures' % n)


def arm_case(c, name):
    import ikbtbasics.kin_cl as kc
    from ikbtbasics.ik_classes import Robot
    from ikbtleaves.sub_transform import sub_transform
    c.fn('ikbtleaves/sub_transform.py:sub_transform.tick')
    if name.startswith('syn:'):
        dh, vv = arms.synth()[name[4:]]
        params = []
    else:
        dh, vv, params, pv, unks = arms.robot(name)
    kc.JACOBIAN = False
    m = kc.mechanism(sp.Matrix(dh), list(params), list(vv))
    m.pvals = {}
    m.forward_kinematics()
    R = Robot(m, name)
    vs = []
    for s in sorted([s for s in sp.Matrix(dh).free_symbols if str(s)[:2] in ('th', 'd_') and s not in params], key=str):
        u = kc.unknown(s)
        u.n = int(str(s)[-1])
        vs.append(u)
    R.mequation_list = R.mequation_list[:1]
    R.sum_of_angles_transform(vs)
    soa = {e.LHS: e.RHS for e in R.kequation_aux_list}
    old = sp.Matrix(R.mequation_list[0].Ts)
    Td = sp.Matrix(R.mequation_list[0].Td)
    k = 0
    for solved in [()] + [(v,) for v in vs[:2 if not THOROUGH else 6]]:
        R.mequation_list[0].Ts = sp.Matrix(old)
        for v in vs:
            v.solved = v in solved
        bb = b3.Blackboard()
        bb.set('unknowns', vs)
        bb.set('Robot', R)
        t = b3.BehaviorTree()
        t.root = sub_transform()
        t.tick('x', bb)
        c.paths += 1
        new = R.mequation_list[0].Ts
        k += sum(1 for a, b in zip(old, new) if a != b)
        if sp.Matrix(R.mequation_list[0].Td) != Td:
            c.violation('other', '%s: desired pose changed' % name)
            return
        if not consequences(c, 'arm', Td, old, new, {v.symbol: v.solved for v in vs}, name):
            return
    c.sample('%s: %d entries rewritten' % (name, k))


A, B = Px * cos(th_1) + Py * sin(th_1), Px * sin(th_1) - Py * cos(th_1)
PAIRS = [((A, a_3 * cos(th_23) - d_4 * sin(th_23) + a_2 * cos(th_2)), (-Pz, a_3 * sin(th_23) + d_4 * cos(th_23) + a_2 * sin(th_2))),
         ((Pz - l_1, l_2 * sin(th_23) - a_2 * sin(th_2)), (A - a_3, l_2 * cos(th_23) - a_2 * cos(th_2))),
         ((Px, a_2 * cos(th_2) + a_3 * cos(th_2) * cos(th_3)), (Py, a_2 * sin(th_2) + a_3 * sin(th_2) * cos(th_3))),
         ((B, d_3 * cos(th_2)), (Pz, d_3 * sin(th_2))),
         ((Px, l_1 * cos(th_2) + l_2 * cos(th_2 + th_3)), (Py, l_1 * sin(th_2) + l_2 * sin(th_2 + th_3))),
         ((A, a_3 * cos(th_34) + a_2 * cos(th_3)), (Pz, a_3 * sin(th_34) + a_2 * sin(th_3))),
         ((Px * cos(th_2) - Pz * sin(th_2), cos(th_4) * l_1), (Py, sin(th_4) * l_1 * sin(th_3))),
         ((A, a_2 * cos(th_2) + a_3), (Px * sin(th_1) - l_1, a_2 * sin(th_2))),
         ((Px * cos(th_34), a_2 * cos(th_3)), (Pz, a_2 * sin(th_3) * cos(th_34)))]
DIST = [None, (Px, d_3 * cos(th_4) + l_1 * cos(th_2)), (sp.Symbol('r_11'), cos(th_2) * cos(th_3)), (Pz * cos(th_3), sin(th_23) * l_1), (Py, d_3 * th_3 + l_2)]


def x2z2_case(c, ip):
    from ikbtbasics.kin_cl import unknown, kequation
    from ikbtbasics.ik_classes import Robot
    from ikbtleaves.x2y2_transform import x2z2_transform
    c.fn('ikbtleaves/x2y2_transform.py:x2z2_transform.tick')

    def mk(w):
        d = w.pick('dist', DIST)
        pos = w.pick('pos', [0, 1, 2])
        sw = w.pick('swap', [0, 1, 2, 3])
        cur = w.pick('cur', [th_2, th_3, th_1, th_23])
        return d, pos, sw, cur, bool(w.ex.flag('s_th_1')), w.pick('s2', [(), (th_2,), (th_3,), (d_3,), (th_23,)])
    ex = Explorer(c, max_paths=20000)
    n = k = tried = 0
    done = {}
    for kind, (d, pos, sw, cur, s1, s2) in ex.run(lambda e: mk(In(e))):
        if not THOROUGH and (pos + sw + len(s2) + ip) % 5:
            continue
        ex.witness()
        e1, e2 = PAIRS[ip]
        if sw & 1:
            e1 = e1[::-1]
        eqs = [e1, e2] if not sw & 2 else [e2, e1]
        if d:
            eqs.insert(pos, d)
        us = [unknown(s) for s in [th_1, th_2, th_23, th_3, d_3, th_4, th_34]]
        for u in us:
            u.solved = (u.symbol == th_1 and s1) or u.symbol in s2
        by = {u.symbol: u for u in us}
        R = Robot()
        pre = [kequation(th_23, th_2 + th_3), kequation(th_34, th_3 + th_4)]
        R.kequation_aux_list = list(pre)
        E2 = [kequation(a, b) for a, b in eqs]
        bb = b3.Blackboard()
        uset = {u.symbol for u in us if not u.solved}
        nu = [len((sp.sympify(a).free_symbols | sp.sympify(b).free_symbols) & uset) for a, b in eqs]
        lists = [[e for e, q in zip(E2, nu) if q == 1], [e for e, q in zip(E2, nu) if q == 2], [e for e, q in zip(E2, nu) if q > 2]]
        for kk, v in (('unknowns', us), ('Robot', R), ('eqns_1u', lists[0]), ('eqns_2u', lists[1]), ('eqns_3pu', lists[2]), ('curr_unk', by.get(cur))):
            bb.set(kk, v)
        t = b3.BehaviorTree()
        t.root = x2z2_transform()
        lab = 'equations %s, solved %s, current %s' % (E2, [u.symbol for u in us if u.solved], cur)
        try:
            st = t.tick('x', bb)
        except Exception as e:
            c.violation('raises', '%s: x2z2 raises %r' % (lab, e))
            return
        n += 1
        if [(e.LHS, e.RHS) for e in E2] != eqs or R.kequation_aux_list[:2] != pre or len(R.kequation_aux_list) > 3:
            c.violation('other', '%s: existing equations changed: %s, %s' % (lab, E2, R.kequation_aux_list))
            return
        if (st == b3.SUCCESS) != (len(R.kequation_aux_list) == 3):
            c.violation('status', '%s: status %s, new equations %s' % (lab, st, R.kequation_aux_list[2:]))
            return
        if st != b3.SUCCESS:
            continue
        k += 1
        new = R.kequation_aux_list[2]
        uns = {u.symbol for u in us if not u.solved}
        cnt = lambda *es: {s for e in es for s in sp.sympify(e).free_symbols if s in uns}
        diff = new.LHS - new.RHS
        # the pair it came from, found at two numeric points, then proved
        import itertools, random
        hit = None
        for (a, b) in itertools.combinations(eqs, 2):
            full = (a[0] ** 2 + b[0] ** 2 - a[1] ** 2 - b[1] ** 2).subs(SOA)
            dd = diff.subs(SOA)
            same = True
            for seed in (1, 2, 3):
                r = random.Random(seed)
                v = {s: mpmath.mpf(r.uniform(-2, 2)) for s in sorted(full.free_symbols | dd.free_symbols, key=str)}
                if not close(neval(full, v), neval(dd, v)):
                    same = False
                    break
            if same:
                hit = (a, b, full, dd)
                break
        if hit:
            a, b, full, dd = hit
            if (full, dd) not in done:
                done[(full, dd)] = prove_equal(c, 'sound', dd, full, '%s: new equation %s' % (lab, new), timeout_ms=15000)
            old = cnt(*a, *b)
        else:
            # not the sum of squares of a pair: decide it as a consequence of all equations
            enc = Enc()
            hyps = [enc.real(sp.sympify(x[0]).subs(SOA)) == enc.real(sp.sympify(x[1]).subs(SOA)) for x in eqs]
            dd = diff.subs(SOA)

            def replay(vals):
                full = dict(vals)
                for s in dd.free_symbols:
                    full.setdefault(s, mpmath.mpf('0.7'))
                for x in eqs:
                    for s in sp.sympify(x[0] - x[1]).subs(SOA).free_symbols:
                        full.setdefault(s, mpmath.mpf('0.7'))
                    if not close(neval(sp.sympify(x[0] - x[1]).subs(SOA), full), 0, 1e-7):
                        return None
                v = neval(dd, full)
                return None if close(v, 0, 1e-6) else '%s: new equation %s does not hold (difference %s) where the old ones do: %s' % (lab, new, mpmath.nstr(v, 8), {str(p): mpmath.nstr(q, 6) for p, q in full.items()})
            prove(c, 'sound', enc, hyps, enc.real(dd) == 0, replay, 15000, what='%s: new equation %s' % (lab, new), robust=z3.Or(enc.real(dd) > z3.Q(1, 100), enc.real(dd) < z3.Q(-1, 100)))
            old = cnt(*[y for x in eqs for y in x])
        if c.violations:
            return
        if len(cnt(new.LHS, new.RHS)) != 1 or len(old) < 2:
            c.violation('fewer', '%s: the new equation %s has unknowns %s, the pair it came from %s' % (lab, new, cnt(new.LHS, new.RHS), old))
            return
    c.sample('pair %d: %d structures, %d transformed' % (ip, n, k))


if __name__ == '__main__':
    chk = Check('C13',
                'the real sub_transform and x2z2_transform leaves run in a real behaviour tree on solver-chosen equation sets (matrix entries, sides, order, distractors, symbolic solved flags) and on the pose equations of whole arms; '
                'the solver proves for all joint values and parameters that each new equation follows from the old ones (and, for the substitution, conversely).',
                dict(sub_entries='2 of %d chosen, 6 fixed' % len(ENTS), x2z2_pairs=len(PAIRS), distractors=len(DIST)),
                ['compound angles are expanded by their definitions'])
    NK = 2 if not THOROUGH else 3
    for i in range(len(ENTS)):
        chk.case('sub/%d' % i, sub_case, i, NK)
    for i in range(len(PAIRS)):
        chk.case('x2z2/%d' % i, x2z2_case, i)
    for nm in ['syn:planar4', 'syn:rpr', 'syn:mid_p', 'Chair_Helper', 'Wrist'] + (['Puma', 'KR16', 'syn:flip'] if THOROUGH else []):
        chk.case('arm/' + nm, arm_case, nm)
    sys.exit(chk.run())
