"""C01: link transforms = modified DH, rigid, symbolic and numerical forms."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vf import *
from lib.smt import *
from lib.sym import *
import numpy as np

AL, A, D, TH = sp.symbols('al a d th', real=False)


def spec(al, a, d, th):
    ca, sa, ct, st = sp.cos(al), sp.sin(al), sp.cos(th), sp.sin(th)
    rx = sp.Matrix([[1, 0, 0, 0], [0, ca, -sa, 0], [0, sa, ca, 0], [0, 0, 0, 1]])
    tx = sp.Matrix([[1, 0, 0, a], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]])
    rz = sp.Matrix([[ct, -st, 0, 0], [st, ct, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]])
    tz = sp.Matrix([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, d], [0, 0, 0, 1]])
    return rx * tx * rz * tz


def variants():
    pi = sp.pi
    als = [AL, 0, pi / 2, -pi / 2, pi, -pi, pi / 4, -pi / 3, sp.Symbol('al_2'), -AL, AL + pi / 2]
    ths = [TH, 0, pi / 2, -pi / 2, pi, TH + pi / 2, TH - pi, -TH, sp.Symbol('th_1') + sp.Symbol('th_2')]
    dads = [(A, D), (0, 0), (A, 0), (0, D), (-A, D + sp.Symbol('l_1')), (sp.Rational(1, 2), sp.Rational(-3, 2)), (sp.Integer(2), -D)]
    out = []
    for al in als:
        for th in ths:
            out.append((al, A, D, th))
    for a, d in dads:
        for al in (AL, 0, pi / 2, -pi / 2):
            for th in (TH, 0, pi / 2):
                out.append((al, a, d, th))
    return [tuple(sp.sympify(x) for x in o) for o in out]


def numeric_replay(fn, row, i, j, want):
    def rep(vals):
        full = {s: vals.get(s, mpmath.mpf('0.7')) for s in set().union(*[x.free_symbols for x in row])}
        args = [float(neval(x, full)) for x in row]
        try:
            got = fn(*args)
            g = float(got[i, j])
        except Exception as e:
            return 'raises %r at %s' % (e, args)
        w = float(neval(want, full))
        return None if close(g, w, 1e-9) else 'entry (%d,%d) is %.12g, expected %.12g at (alpha,a,d,theta)=%s' % (i, j, g, w, args)
    return rep


def sym_case(c, part):
    import ikbtbasics.pykinsym as pk
    c.fn('ikbtbasics/pykinsym.py:Link_S')
    for n, row in enumerate(variants()):
        if n % 4 != part:
            continue
        try:
            T = sp.Matrix(pk.Link_S(*row))
        except Exception as e:
            c.violation('Link_S/raises', 'Link_S%s raises %r' % (row, e))
            continue
        c.paths += 1
        if T.shape != (4, 4):
            c.violation('Link_S/shape', 'shape %s' % (T.shape,))
            continue
        W = spec(*row)
        for i in range(4):
            for j in range(4):
                def rep(vals, i=i, j=j):
                    full = dict(vals)
                    for s in T.free_symbols | W.free_symbols:
                        full.setdefault(s, mpmath.mpf('0.7'))
                    a, b = neval(T[i, j], full), neval(W[i, j], full)
                    return None if close(a, b) else 'Link_S%s entry (%d,%d) = %s evaluates to %s, convention gives %s' % (row, i, j, T[i, j], mpmath.nstr(a, 10), mpmath.nstr(b, 10))
                prove_equal(c, 'Link_S/%d%d' % (i, j), T[i, j], W[i, j], 'Link_S%s[%d,%d]' % (row, i, j), numeric=rep, validate=(i == 0))
        if n % 11 == 0:
            for x in T:
                validate_encoding(c, x)
        # rigidity on the code's own output
        R = T[0:3, 0:3]
        G = R.T * R
        enc = Enc()
        goal = z3.And([enc.real(G[i, j]) == (1 if i == j else 0) for i in range(3) for j in range(i, 3)] +
                      [enc.real(R.det(method='berkowitz')) == 1] +
                      [enc.real(T[3, k]) == (1 if k == 3 else 0) for k in range(4)])

        def rep2(vals):
            full = dict(vals)
            for s in T.free_symbols:
                full.setdefault(s, mpmath.mpf('0.7'))
            M = mpmath.matrix(4, 4)
            for i in range(4):
                for j in range(4):
                    M[i, j] = neval(T[i, j], full)
            Rn = M[0:3, 0:3]
            E = Rn.T * Rn - mpmath.eye(3)
            bad = max(abs(x) for x in E) > 1e-8 or abs(mpmath.det(Rn) - 1) > 1e-8 or any(abs(M[3, k] - (1 if k == 3 else 0)) > 1e-8 for k in range(4))
            return 'Link_S%s is not a rigid motion' % (row,) if bad else None
        prove(c, 'Link_S/rigid', enc, [], goal, rep2, what='rigid motion', witness=(n % 8 == 0))
    c.sample('Link_S over %d (alpha,a,d,theta) forms, every entry for all real values' % len(variants()))


def num_case(c, part):
    import ikbtbasics.pykinsym as pk
    c.fn('ikbtbasics/pykinsym.py:Link_N')
    patch_math()
    realnp = pk.np
    pi = sp.pi
    rows = [(AL, A, D, TH)] + [(al, A, D, th) for al in (AL, sp.S(0), pi / 2, -pi / 2, pi) for th in (TH, sp.S(0), pi / 2)] + \
           [(AL, sp.S(0), D, TH), (AL, A, sp.S(0), TH)]
    real_fn = pk.Link_N
    for row in rows:
        ex = Explorer(c, max_paths=200)

        def run(ex):
            enc = Enc()
            pk.np = NpShim(realnp)
            try:
                out = pk.Link_N(*[SymR(x, enc) for x in row])
            finally:
                pk.np = realnp
            return enc, sym_matrix(out)
        for st, val in ex.run(run):
            if st != 'ok':
                try:
                    real_fn(0.3, 0.4, 0.5, 0.6)
                except Exception as e:
                    c.violation('Link_N/raises', repr(e))
                    return
                raise val
            enc, T = val
            W = spec(*row)
            if T.shape != (4, 4):
                c.violation('Link_N/shape', str(T.shape))
                return
            for i in range(4):
                for j in range(4):
                    prove_equal(c, 'Link_N/%d%d' % (i, j), T[i, j], W[i, j], 'Link_N%s[%d,%d]' % (row, i, j), enc=enc, hyps=list(ex.pc),
                                numeric=numeric_replay(real_fn, row, i, j, W[i, j]), validate=(i == 0))
    c.sample('Link_N executed on symbolic reals, rows such as %s' % (rows[0],))


chk = Check('C01',
            'Link_S and Link_N are executed on symbolic DH rows; every matrix entry is proved equal (unsat of the negation, all reals) to '
            'Rx(alpha)Tx(a)Rz(theta)Tz(d) and the result is proved rigid.',
            dict(rows='all forms of checks/c01.py:variants(): alpha/theta symbolic, negated, shifted by multiples of pi/2, or the constants 0, +-pi/2, pi, pi/4, -pi/3; a, d symbolic or constant',
                 values='all real values of every symbol'),
            ['floating point arithmetic of the numerical form is read as real arithmetic',
             'numpy array constructors are replaced by object-array versions while the numerical form runs symbolically'])
for p in range(4):
    chk.case('sym%d' % p, sym_case, p)
chk.case('num', num_case, 0)
sys.exit(chk.run())
