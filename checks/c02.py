"""C02: rotation / translation / RPY / inverse library."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.smt import *
from lib.sym import *
import numpy as np

t, r, p, y = sp.symbols('t r p y')
X, Y, Z = sp.symbols('x y1 z')
pi = sp.pi


def rx(a): return sp.Matrix([[1, 0, 0], [0, sp.cos(a), -sp.sin(a)], [0, sp.sin(a), sp.cos(a)]])
def ry(a): return sp.Matrix([[sp.cos(a), 0, sp.sin(a)], [0, 1, 0], [-sp.sin(a), 0, sp.cos(a)]])
def rz(a): return sp.Matrix([[sp.cos(a), -sp.sin(a), 0], [sp.sin(a), sp.cos(a), 0], [0, 0, 1]])


def h4(R, P=(0, 0, 0)):
    T = sp.eye(4)
    T[0:3, 0:3] = R
    for i in range(3):
        T[i, 3] = P[i]
    return T


ANG = [t, -t, t + pi / 2, 2 * t, t + r, sp.S(0), pi / 2, -pi / 2, pi, pi / 6, sp.Rational(3, 10)]
NANG = [t, -t, t + r, t + pi / 2]


def compare(c, name, got, want, replay, enc=None, hyps=()):
    if got.shape != want.shape:
        c.violation(name + '/shape', 'shape %s expected %s' % (got.shape, want.shape))
        return
    for i in range(want.shape[0]):
        for j in range(want.shape[1]):
            prove_equal(c, '%s/%d%d' % (name, i, j), got[i, j], want[i, j], '%s[%d,%d]' % (name, i, j), enc=enc, hyps=hyps,
                        numeric=lambda vals, i=i, j=j: replay(vals, i, j), validate=(i == 0 and j == 0))


def vec_list(v):
    return [v, sp.Matrix(v)]


def sym_case(c, fname):
    import ikbtbasics.pykinsym as pk
    f = getattr(pk, fname)
    c.fn('ikbtbasics/pykinsym.py:' + fname)
    base = {'RotX': rx, 'RotY': ry, 'RotZ': rz}
    jobs = []
    if fname[:4] == 'RotX' or fname[:4] == 'RotY' or fname[:4] == 'RotZ':
        g = base[fname[:4]]
        for a in ANG:
            jobs.append(((a,), h4(g(a)) if '4' in fname else g(a)))
    elif fname.startswith('RPY'):
        trip = [(r, p, y), (r, r, r), (sp.S(0), p, y), (r, sp.S(0), y), (r, p, sp.S(0)), (pi / 2, p, y), (r, pi / 2, y), (r, p, -pi / 2), (-r, p, y + pi / 2), (p, y, r)]
        for q in trip:
            R = rz(q[2]) * ry(q[1]) * rx(q[0])
            jobs.append((q, h4(R) if '4' in fname else R))
    elif fname.startswith('Trans4'):
        for v in [(X, Y, Z), (X, X, X), (sp.S(0), Y, Z), (X, sp.S(0), -Z), (sp.S(1), sp.S(2), sp.S(3)), (Z, X, Y), (X * t, sp.cos(t), Y - Z)]:
            for w in vec_list(list(v)):
                jobs.append(((w,), h4(sp.eye(3), v)))
    for args, want in jobs:
        try:
            got = sp.Matrix(f(*args))
        except Exception as e:
            c.violation(fname + '/raises', '%s%s raises %r' % (fname, args, e))
            return
        c.paths += 1

        def rep(vals, i, j):
            full = dict(vals)
            for s in got.free_symbols | want.free_symbols:
                full.setdefault(s, mpmath.mpf('0.7'))
            a, b = neval(got[i, j], full), neval(want[i, j], full)
            return None if close(a, b) else '%s%s[%d,%d] = %s is %s, expected %s' % (fname, args, i, j, got[i, j], mpmath.nstr(a, 9), mpmath.nstr(b, 9))
        compare(c, fname, got, want, rep)
        for x in got:
            if x.free_symbols:
                validate_encoding(c, x)
                break
    c.sample('%s%s' % (fname, jobs[0][0]))


def nval(e, vals):
    full = {s: vals.get(s, mpmath.mpf('0.7')) for s in e.free_symbols}
    return float(neval(e, full))


def num_case(c, fname):
    import ikbtbasics.pykinsym as pk
    patch_math()
    realnp = pk.np
    c.fn('ikbtbasics/pykinsym.py:' + fname)
    f = getattr(pk, fname)
    base = {'RotX': rx, 'RotY': ry, 'RotZ': rz}
    jobs = []
    if fname[:4] in base:
        g = base[fname[:4]]
        for a in NANG:
            jobs.append(([a], h4(g(a)) if '4' in fname else g(a), None))
    elif fname.startswith('RPY'):
        for q in [(r, p, y), (p, y, r), (sp.S(0), p, y), (r, sp.S(0), -y)]:
            R = rz(q[2]) * ry(q[1]) * rx(q[0])
            jobs.append((list(q), h4(R) if '4' in fname else R, None))
    elif fname.startswith('Trans4'):
        jobs.append(([X, Y, Z], h4(sp.eye(3), (X, Y, Z)), 'vec'))
        jobs.append(([sp.S(0), Y, X], h4(sp.eye(3), (0, Y, X)), 'vec'))
    for args, want, kind in jobs:
        def run(ex):
            enc = Enc()
            pk.np = NpShim(realnp)
            try:
                sa = [SymR(x, enc) for x in args]
                out = f(sa) if kind == 'vec' else f(*sa)
            finally:
                pk.np = realnp
            return enc, sym_matrix(out)

        def real(vals):
            a = [nval(x, vals) for x in args]
            return (f(a) if kind == 'vec' else f(*a)), a
        ex = Explorer(c, max_paths=500)
        for st, val in ex.run(run):
            if st != 'ok':
                try:
                    real({})
                except Exception as e:
                    c.violation(fname + '/raises', '%s raises %r' % (fname, e))
                    return
                raise val
            enc, got = val

            def rep(vals, i, j):
                try:
                    m, a = real(vals)
                    g = float(m[i, j])
                except Exception as e:
                    return '%s raises %r' % (fname, e)
                w = nval(want[i, j], vals)
                return None if close(g, w, 1e-9) else '%s(%s)[%d,%d] = %.12g expected %.12g' % (fname, a, i, j, g, w)
            compare(c, fname, got, want, rep, enc=enc, hyps=list(ex.pc))
        # the real numeric function against the specification at one point
        m, a = real({t: 0.3, r: -1.1, p: 0.8, y: 2.2, X: 1.5, Y: -2.5, Z: 0.25})
        for i in range(want.shape[0]):
            for j in range(want.shape[1]):
                w = nval(want[i, j], {t: 0.3, r: -1.1, p: 0.8, y: 2.2, X: 1.5, Y: -2.5, Z: 0.25})
                if not close(float(m[i, j]), w, 1e-9):
                    c.violation('%s/%d%d' % (fname, i, j), 'concrete run %s%s[%d,%d]=%s expected %s' % (fname, a, i, j, m[i, j], w))
        c.validated += 1
    c.sample('%s%s' % (fname, jobs[0][0]))


def transforms():
    a, b, g = sp.symbols('a b g')
    P = (X, Y, Z)
    full = rz(a) * ry(b) * rx(g)
    out = [('euler', h4(full, P)), ('x', h4(rx(a), P)), ('y', h4(ry(a), (X, 0, Z))), ('z', h4(rz(a), (0, Y, 0))), ('t', h4(sp.eye(3), P)),
           ('const', h4(rz(pi / 2) * rx(pi / 2), (1, 2, 3)))]
    al, th = sp.symbols('al th')
    dh = sp.Matrix([[sp.cos(th), -sp.sin(th), 0, X], [sp.sin(th) * sp.cos(al), sp.cos(th) * sp.cos(al), -sp.sin(al), -sp.sin(al) * Y],
                    [sp.sin(th) * sp.sin(al), sp.cos(th) * sp.sin(al), sp.cos(al), sp.cos(al) * Y], [0, 0, 0, 1]])
    out.append(('dh', dh))
    for al0 in (0, pi / 2, -pi / 2, pi):
        out.append(('dh%s' % al0, dh.subs(al, al0)))
    out.append(('dh2', dh * dh.subs({al: pi / 2, th: sp.Symbol('th2'), X: Z, Y: sp.Symbol('w')})))
    return out


def inv_case(c, fname):
    import ikbtbasics.pykinsym as pk
    patch_math()
    f = getattr(pk, fname)
    c.fn('ikbtbasics/pykinsym.py:' + fname)
    realnp = pk.np
    for nm, T in transforms():
        def run(ex):
            enc = Enc()
            if fname.endswith('_N'):
                pk.np = NpShim(realnp)
                try:
                    M = realnp.matrix([[SymR(T[i, j], enc) for j in range(4)] for i in range(4)], dtype=object)
                    out = f(M)
                finally:
                    pk.np = realnp
                return enc, sym_matrix(out)
            return enc, sp.Matrix(f(sp.Matrix(T)))

        def realrun(vals):
            Tn = realnp.matrix([[nval(T[i, j], vals) for j in range(4)] for i in range(4)])
            if fname.endswith('_N'):
                return Tn, realnp.array(f(Tn), dtype=float)
            I = f(sp.Matrix(T))
            return Tn, realnp.array([[nval(I[i, j], vals) for j in range(4)] for i in range(4)])
        ex = Explorer(c, max_paths=500)
        for st, val in ex.run(run):
            if st != 'ok':
                try:
                    realrun({})
                except Exception as e:
                    c.violation(fname + '/raises', '%s raises %r' % (fname, e))
                    return
                raise val
            enc, I = val
            if I.shape != (4, 4):
                c.violation(fname + '/shape', str(I.shape))
                return
            for side, prod in (('right', T * I), ('left', I * T)):
                def rep(vals, i, j, side=side):
                    Tn, In = realrun(vals)
                    Q = (Tn * realnp.matrix(In)) if side == 'right' else (realnp.matrix(In) * Tn)
                    g, w = float(Q[i, j]), float(i == j)
                    return None if close(g, w, 1e-8) else '%s: %s inverse product [%d,%d] = %g for T=%s' % (fname, side, i, j, g, realnp.array(Tn).round(4).tolist())
                compare(c, '%s/%s' % (fname, side), prod, sp.eye(4), rep, enc=enc, hyps=list(ex.pc))
    c.sample('%s applied to a general rigid transform Rz Ry Rx with any translation' % fname)


chk = Check('C02',
            'Every rotation, RPY, translation builder and transform inverse in the library is executed on symbolic arguments (numerical '
            'variants on symbolic reals through numpy object arrays); each entry is proved equal to the textbook matrix, inverses are proved two-sided.',
            dict(angles='symbolic, negated, doubled, sums of two symbols, shifts by multiples of pi/2 and several constants', values='all reals',
                 transforms='Euler-angle parametrised rotations (all of SO(3)) with arbitrary translation; DH links and a product of two'),
            ['floating point arithmetic of the _N variants is read as real arithmetic',
             'numpy array constructors are replaced by object-array versions while _N variants run symbolically'])
for n in ['RotX_S', 'RotY_S', 'RotZ_S', 'RotX4_S', 'RotY4_S', 'RotZ4_S', 'RPY3_S', 'RPY4_S', 'Trans4_S']:
    chk.case(n, sym_case, n)
for n in ['RotX_N', 'RotY_N', 'RotZ_N', 'RotX4_N', 'RotY4_N', 'RotZ4_N', 'RPY3_N', 'RPY4_N', 'Trans4_N']:
    chk.case(n, num_case, n)
for n in ['H_inv_S', 'H_inv_N']:
    chk.case(n, inv_case, n)
sys.exit(chk.run())
