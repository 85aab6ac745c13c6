"""C16 matrix factorisations represent the matrix they are built from."""
import random
from fractions import Fraction as F
import numpy as np
from ..frame import want, Violation, Undecided
from ..build import Sym, symarr
from ..absint import AbsRaise
from ..ext import SpMat, dense
from ..linalg import Spectrum, mul, obj, inverse
from .c11 import asarr
from .c14 import world


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('abstract interpretation of the factorisation classes on '
                     'matrices given by their factors; every product, solve '
                     'and square root compared with the algebra of those '
                     'factors')
    ctx.explanation = (
        'Matrices are defined by independent unknowns (triangular factors, '
        'eigenvalues and eigenvectors, pivoted indefinite factors), so each '
        'result is an expression of those unknowns and is compared with the '
        'documented one for all values. LAPACK/CHOLMOD routines are '
        'represented by what they compute, including the triangle they read, '
        'ordering and failure on indefinite input.')
    ctx.assumptions = ['numpy/scipy/CHOLMOD routines compute the documented '
                       'factorisations', 'exact arithmetic']
    cholesky(ctx)
    sparse(ctx)
    modified(ctx)
    eigen(ctx)
    general(ctx)
    pseudo(ctx)


def sampled(table=()):
    """comparisons decided at a sample point of the sign region studied"""
    vals = {}
    for k, v in dict(table).items():
        vals[Sym.var(k) if isinstance(k, str) else k] = v

    def value(e):
        e = Sym.of(e)
        known = {str(k): v for k, v in vals.items()}
        for r in range(6):
            at = [x for x in e.all_atoms() if x.fn is None]
            if not at:
                break
            mp = {}
            for x in at:
                n = x.name
                if n not in known:
                    rnd = random.Random(n)
                    v = rnd.uniform(0.6, 2.4)
                    known[n] = v if x.positive or rnd.random() < .6 else -v
                mp[Sym(type(e.N).atom(x))] = known[n]
            e = e.subs(mp)
        return float(e.const()) if e.is_const() else None

    def sign(e):
        s = Sym.of(e).sign()
        if s is not None:
            return s
        v = value(e)
        if v is None or abs(v) < 1e-12:
            return None
        return 1 if v > 0 else -1

    def hook(op, a, b, d):
        return sign(d)
    hook.sign = sign
    return hook


def start(ctx, table=()):
    W = world(ctx)
    h = sampled(table)
    W.it.assume_hook = h
    return W, Spectrum(W, h.sign)


def cmp(got, exp, what):
    if got is None:
        raise Violation('%s: None' % what)
    g = dense(got)
    g = asarr(g)
    e = obj(dense(exp))
    if g.shape != e.shape:
        raise Violation('%s: shape %s instead of %s' % (what, g.shape,
                                                        e.shape))
    for ix in np.ndindex(*e.shape):
        want(g[ix], e[ix], '%s, entry %s' % (what, ix))


def given(W, K, meth, *a, **kw):
    r = W.m(K, meth, *a, **kw)
    if r is None:
        raise Violation('%s returns nothing' % meth)
    return obj(asarr(dense(r)))


def lower(n, name='l'):
    L = np.zeros((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            L[i, j] = Sym.var('%s%d%d' % (name, i, j), i == j)
    return L


def rhs(n, cols, name='b'):
    return symarr(name, n) if cols is None else symarr(name, n, cols)


def sym(A):
    A = obj(A)
    for i in range(len(A)):
        for j in range(i):
            A[j, i] = A[i, j]
    return A


def sides(ctx, name, where, make, C, S, n, extra=True, cols=(None, 1, 2)):
    """the operations every decomposition offers, against C = S S^T"""
    Si = inverse(S)
    for c in cols:
        tag = '%s, %s' % (name, 'vector' if c is None else
                          '%d columns' % c)

        def ob(method, exp, tag=tag, c=c, **kw):
            def f():
                W, K = make()
                b = rhs(n, c)
                cmp(W.m(K, method, b.copy(), **kw), mul(exp, b),
                    '%s: %s' % (name, method))
            ctx.ob('%s: %s%s' % (tag, method, ' transposed' if kw.get(
                'transpose') else ''), f, where)
        ob('dot', C)
        ob('solve', mul(Si.T, Si))
        ob('sqrt_dot', S)
        ob('sqrt_dot', S.T, transpose=True)
        ob('sqrt_solve', Si)
        ob('sqrt_solve', Si.T, transpose=True)


def cholesky(ctx):
    w = ctx.where('spd', 'CholeskyDecomposition.decompose')
    def size(n):
        L = lower(n)
        C = sym(mul(L, L.T))

        def make():
            W, S = start(ctx)
            return W, W.new('spd', 'CholeskyDecomposition', C.copy())
        name = 'dense Cholesky, n=%d' % n
        sides(ctx, name, w, make, C, obj(L), n,
              cols=(None, 2) if n == 3 else (None,))

        def rec():
            W, K = make()
            cmp(W.m(K, 'reconstruct'), C, 'reconstruct')
            want(W.m(K, 'is_degenerate'), False, 'is_degenerate')
            want(W.m(K, 'is_sparse'), False, 'is_sparse')
            want(W.m(K, 'get_size'), n, 'get_size')
            cmp(W.m(K, 'get_matrix'), C, 'get_matrix')
            cmp(W.m(K, 'get_factors'), L, 'get_factors')
        ctx.ob(name + ': reconstruction and queries', rec, w)
    for n in (1, 2, 3):
        size(n)

    def caller():
        W, S = start(ctx)
        L = lower(2)
        C = sym(mul(L, L.T))
        A = C.copy()
        b = rhs(2, None)
        K = W.new('spd', 'CholeskyDecomposition', A)
        for meth in ('solve', 'sqrt_solve', 'sqrt_dot', 'dot'):
            x = b.copy()
            W.m(K, meth, x)
            cmp(x, b, 'right-hand side after ' + meth)
        cmp(A, C, 'matrix after factorisation')
    ctx.ob('dense Cholesky: arguments unchanged', caller, w)


def sparse(ctx):
    w = ctx.where('spd', 'CholeskyDecomposition.decompose')
    def size(n):
        L = lower(n)
        P = [(i + 1) % n for i in range(n)]
        I = np.eye(n).astype(int).astype(object)[P]
        S = mul(I.T, L)
        C = sym(mul(S, S.T))

        for fmt in ('csr', 'csc') if n == 3 else ('csr',):
            def make(fmt=fmt):
                W, R = start(ctx)
                return W, W.new('spd', 'CholeskyDecomposition',
                                SpMat(C.copy(), fmt))
            name = 'CHOLMOD, %s, n=%d' % (fmt, n)
            sides(ctx, name, w, make, C, S, n,
                  cols=(None, 2) if n == 3 and fmt == 'csr' else (None,))

            def rec(make=make):
                W, K = make()
                cmp(W.m(K, 'reconstruct'), C, 'reconstruct')
                want(W.m(K, 'is_degenerate'), False, 'is_degenerate')
                want(W.m(K, 'is_sparse'), True, 'is_sparse')
                want(W.m(K, 'get_size'), n, 'get_size')
            ctx.ob(name + ': reconstruction and queries', rec, w)

            def sp(make=make):
                W, K = make()
                b = rhs(n, 2)
                cmp(W.m(K, 'dot', SpMat(b.copy(), 'csr')), mul(C, b), 'dot')
            ctx.ob(name + ': product with a sparse matrix', sp, w)
    for n in (1, 2, 3):
        size(n)


def modified(ctx):
    """C = lu D0 lu^T with pivoting, 1x1 and 2x2 blocks"""
    w = ctx.where('spd', 'CholeskyDecomposition.modchol_ldlt')
    c, s = F(3, 5), F(4, 5)
    U = np.array([[c, s], [-s, c]], dtype=object)
    nrm = Sym.var('norm', True)
    eps = float(np.finfo(float).eps)
    delta = Sym.of(eps).sqrt() * nrm

    def block(t):
        return sym(mul(U, [[t[0], 0], [0, t[1]]], U.T))
    p, q, r = (Sym.var(x, True) for x in 'pqr')
    # name -> (ordering, blocks [(eigenvalues, modified eigenvalues)])
    cases = {
        'one negative pivot': ([2, 0, 1], [([p], [p]), ([-q], [delta]),
                                           ([r], [r])]),
        'zero pivot': ([1, 2, 0], [([p], [p]), ([q], [q]),
                                   ([Sym.of(0)], [delta])]),
        'indefinite block, then pivot': (
            [2, 0, 1], [([-p, q], [delta, q]), ([r], [r])]),
        'pivot, then indefinite block': (
            [1, 2, 0], [([r], [r]), ([-p, q], [delta, q])]),
        'negative definite block': (
            [1, 2, 0], [([-p, -q], [delta, delta]), ([-r], [delta])]),
        'everything positive but a block': (
            [2, 0, 1], [([p], [p]), ([-r, q], [delta, q])]),
        'only a pivot': ([0], [([-p], [delta])]),
        'only a block': ([1, 0], [([-p, q], [delta, q])]),
        'two blocks': ([2, 0, 3, 1], [([-p, q], [delta, q]),
                                      ([-r, p], [delta, p])]),
    }
    for name, (perm, blocks) in cases.items():
        n = len(perm)
        L = lower(n, 'u')
        D0, D = (obj(np.zeros((n, n), int)) for _ in range(2))
        k = 0
        ones = []
        for t, m in blocks:
            if len(t) == 1:
                L[k, k] = 1
                D0[k, k], D[k, k] = t[0], m[0]
                k += 1
            else:
                L[k, k] = L[k + 1, k + 1] = 1
                L[k + 1, k] = 0
                D0[k:k + 2, k:k + 2] = block(t)
                D[k:k + 2, k:k + 2] = block(m)
                ones.append(t)
                k += 2
        L = obj(L)
        if n == 4:
            L[2, 0], L[3, 1] = Sym.of(2), Sym.of(-1)
        table = {'p': 1.3, 'q': 1.9, 'r': 1.1, 'norm': 3.0}
        if name == 'negative definite block':
            table['p'] = 2.2

        def make(fmt=None, L=L, D0=D0, perm=perm, ones=ones, table=table):
            W, S = start(ctx, table)
            C = S.indefinite(L, D0, perm)
            S.norms.append((C, nrm))
            for t in ones:
                S.spectral(t, U)
            A = C.copy() if fmt is None else SpMat(C.copy(), fmt)
            return W, W.new('spd', 'CholeskyDecomposition', A), C
        lu = obj(np.zeros((n, n), int))
        for i, g in enumerate(perm):
            lu[g] = L[i]
        E = mul(lu, D, lu.T)
        for fmt in (None, 'csc'):
            tag = 'modified Cholesky, %s, %s' % (
                name, 'dense' if fmt is None else 'sparse')
            if fmt and name not in ('one negative pivot',
                                    'pivot, then indefinite block'):
                continue

            def rec(make=make, E=E, fmt=fmt, n=n):
                W, K, C = make(fmt)
                want(W.m(K, 'is_degenerate'), True, 'is_degenerate')
                want(W.m(K, 'is_sparse'), False, 'is_sparse')
                cmp(W.m(K, 'reconstruct'), E, 'reconstructed C + E')
                cmp(W.m(K, 'reconstruct', degenerate=True), C,
                    'reconstructed C')
                f = W.m(K, 'get_factors')
                Lf, Df, P, D0f = [obj(asarr(dense(x))) for x in f]
                cmp(mul(Lf, Df, Lf.T), mul(P, E, P.T),
                    'factors: L D L^T = P (C+E) P^T')
                cmp(mul(Lf, D0f, Lf.T), mul(P, C, P.T),
                    'factors: L D0 L^T = P C P^T')
                for i in range(n):
                    want(Lf[i, i], 1, 'diagonal of L')
                    for j in range(i + 1, n):
                        want(Lf[i, j], 0, 'L lower triangular')
                cmp(W.m(K, 'dot', rhs(n, None)), mul(C, rhs(n, None)),
                    'dot')
            ctx.ob(tag + ': factors and reconstruction', rec, w)

            for cols in ((None, 2) if n == 3 and fmt is None else (None,)):
                def sol(make=make, E=E, fmt=fmt, n=n, cols=cols):
                    W, K, C = make(fmt)
                    b = rhs(n, cols)
                    x = given(W, K, 'solve', b.copy())
                    if x.shape != b.shape:
                        raise Violation('solution of shape %s' % (x.shape,))
                    cmp(mul(E, x), b, 'C + E applied to the solution')
                ctx.ob('%s: solve%s' % (tag, '' if cols is None else
                                        ', 2 columns'), sol, w)

            def root(make=make, E=E, fmt=fmt, n=n):
                W, K, C = make(fmt)
                I = np.eye(n).astype(int).astype(object)
                R = given(W, K, 'sqrt_dot', I.copy())
                cmp(mul(R, R.T), E, 'square root times its transpose')
                cmp(W.m(K, 'sqrt_dot', I.copy(), transpose=True), R.T,
                    'transposed square root')
                b = rhs(n, None)
                cmp(mul(R, given(W, K, 'sqrt_solve', b.copy())), b,
                    'square root applied to the solution')
                cmp(mul(R.T, given(W, K, 'sqrt_solve', b.copy(),
                                   transpose=True)), b,
                    'transposed square root applied to the solution')
            ctx.ob(tag + ': square roots', root, w)

    def bound():
        W, S = start(ctx, {'p': 1.3, 'r': 1.1, 'dl': 0.5, 'q': 0.2})
        L = obj([[1, 0, 0], [Sym.var('u10'), 1, 0],
                 [Sym.var('u20'), Sym.var('u21'), 1]])
        D0 = obj(np.zeros((3, 3), int))
        D0[0, 0], D0[1, 1], D0[2, 2] = p, q, -r
        C = S.indefinite(L, D0, [1, 2, 0])
        S.norms.append((C, nrm))
        K = W.new('spd', 'CholeskyDecomposition', C.copy())
        dl = Sym.var('dl', True)
        f = W.m(K, 'modchol_ldlt', C.copy(), delta=dl)
        want(obj(asarr(f[1])).diagonal().tolist(), [p, dl, dl],
             'pivots with a lower bound')
    ctx.ob('modified Cholesky: given lower bound', bound, w)


def spectra():
    """name -> (d ascending, V orthonormal)"""
    t = Sym.var('t')
    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    d = [Sym.var('d0', True)]
    for i in (1, 2):
        d.append(d[-1] + Sym.var('g%d' % i, True))
    third = F(1, 3)
    V3 = np.array([[1, 2, 2], [2, 1, -2], [2, -2, 1]], dtype=object) * third
    V3[:, 1] = -V3[:, 1]
    return {'n=1': (d[:1], [[1]]),
            'n=2': (d[:2], [[c, -s], [s, c]]),
            'n=3': (d, V3)}


def dia(d):
    D = obj(np.zeros((len(d), len(d)), int))
    for i, x in enumerate(d):
        D[i, i] = Sym.of(x)
    return D


def eigen(ctx):
    w = ctx.where('spd', 'EigenDecomposition.decompose')
    def case(name, d, V):
        n = len(d)
        V = obj(V)
        dd = [Sym.of(x) for x in d][::-1]
        VV = V[:, ::-1]
        C = mul(VV, dia(dd), VV.T)
        R = mul(VV, dia([x.sqrt() for x in dd]))
        Ri = mul(dia([1 / x.sqrt() for x in dd]), VV.T)
        for fmt in (None, 'csr'):
            def make(delta=0, fmt=fmt, d=d, V=V, **kw):
                W, S = start(ctx)
                A = S.spectral(d, V)
                S.norms.append((A, Sym.var('norm', True)))
                A = A.copy() if fmt is None else SpMat(A.copy(), fmt)
                kw = dict(kw, delta=delta) if delta is not False else kw
                return W, W.new('spd', 'EigenDecomposition', A, **kw)
            tag = 'eigendecomposition %s%s' % (name, ', sparse' if fmt
                                               else '')

            def q(make=make, fmt=fmt):
                W, K = make()
                cmp(W.m(K, 'reconstruct'), C, 'reconstruct')
                cmp(W.m(K, 'get_eigenvalues'), dd, 'eigenvalues')
                cmp(W.m(K, 'get_eigenvectors'), VV, 'eigenvectors')
                f = W.m(K, 'get_factors')
                cmp(f[0], dd, 'factors')
                cmp(f[1], VV, 'factors')
                want(W.m(K, 'get_rank'), n, 'rank')
                want(W.m(K, 'size'), n, 'size')
                want(W.m(K, 'get_size'), n, 'get_size')
                want(W.m(K, 'is_degenerate'), False, 'is_degenerate')
                want(W.m(K, 'is_sparse'), fmt is not None, 'is_sparse')
                want(W.m(K, 'has_mass_matrix'), False, 'has_mass_matrix')
                cmp(W.m(K, 'get_range'), VV, 'range')
                want(tuple(asarr(W.m(K, 'get_nullspace')).shape), (n, 0),
                     'shape of the nullspace')
                cmp(W.m(K, 'get_matrix'), C, 'get_matrix')
            ctx.ob(tag + ': factors and queries',
                   q, w)

            def default(make=make, dd=dd, C=C):
                W, K = make(False)
                dl = Sym.of(float(np.finfo(float).eps)).sqrt() * \
                    Sym.var('norm', True)
                want(W.m(K, 'get_eigenvalue_lower_bound'), dl,
                     'default lower bound of the eigenvalues')
            ctx.ob(tag + ': default lower bound', default, w)
            if fmt is None:
                for cols in ((None, 2) if n == 2 else (None,)):
                    t2 = tag + ('' if cols is None else ', 2 columns')
                    for meth, exp, kw in (
                            ('dot', C, {}),
                            ('solve', mul(Ri.T, Ri), {}),
                            ('sqrt_dot', R, {}),
                            ('sqrt_dot', R.T, {'transpose': True}),
                            ('sqrt_solve', Ri, {}),
                            ('sqrt_solve', Ri.T, {'transpose': True})):
                        def g(make=make, meth=meth, exp=exp, kw=kw, n=n,
                              cols=cols):
                            W, K = make()
                            b = rhs(n, cols)
                            cmp(W.m(K, meth, b.copy(), **kw), mul(exp, b),
                                meth)
                        ctx.ob('%s: %s%s' % (t2, meth, ' transposed' if kw
                                             else ''), g, w)
    for name, (d, V) in spectra().items():
        case(name, d, V)

    # small, zero and negative eigenvalues
    def small():
        W, S = start(ctx, {'d0': 0.01, 'g1': 2., 'g2': 1., 'dl': 0.5})
        d, V = spectra()['n=3']
        dl = Sym.var('dl', True)
        A = S.spectral(d, V)
        K = W.new('spd', 'EigenDecomposition', A.copy(), delta=dl)
        exp = [d[2], d[1], dl]
        cmp(W.m(K, 'get_eigenvalues'), exp, 'eigenvalues')
        VV = obj(V)[:, ::-1]
        cmp(W.m(K, 'reconstruct'), mul(VV, dia(exp), VV.T), 'reconstruct')
        want(W.m(K, 'get_eigenvalue_lower_bound'), dl, 'lower bound')
    ctx.ob('eigendecomposition: lower bound', small, w)

    def deficient(neg, table=()):
        W, S = start(ctx, table)
        d, V = spectra()['n=3']
        e = [-Sym.var('e', True) if neg else Sym.of(0), d[0], d[0] + d[1]]
        A = S.spectral(e, V)
        K = W.new('spd', 'EigenDecomposition', A.copy(), delta=0)
        VV = obj(V)[:, ::-1]
        cmp(W.m(K, 'get_eigenvalues'), [e[2], e[1], 0], 'eigenvalues')
        want(W.m(K, 'get_rank'), 2, 'rank')
        want(W.m(K, 'is_degenerate'), True, 'is_degenerate')
        cmp(W.m(K, 'get_nullspace'), VV[:, 2:], 'nullspace')
        cmp(W.m(K, 'get_range'), VV[:, :2], 'range')
        b = rhs(3, None)
        inv = [1 / e[2], 1 / e[1], Sym.of(0)]
        cmp(W.m(K, 'solve', b), mul(VV, dia(inv), VV.T, b),
            'least squares solution')
        s = [e[2].sqrt(), e[1].sqrt(), Sym.of(0)]
        cmp(W.m(K, 'sqrt_dot', b), mul(VV, dia(s), b), 'sqrt_dot')
        si = [1 / s[0], 1 / s[1], Sym.of(0)]
        cmp(W.m(K, 'sqrt_solve', b), mul(dia(si), VV.T, b), 'sqrt_solve')
        cmp(W.m(K, 'sqrt_solve', b, transpose=True), mul(VV, dia(si), b),
            'transposed sqrt_solve')
    def tolerance():
        W, S = start(ctx, {'d0': 1e-3, 'g1': 1., 'g2': 1., 'tol': 1e-1})
        d, V = spectra()['n=3']
        A = S.spectral(d, V)
        K = W.new('spd', 'EigenDecomposition', A.copy(), delta=0)
        VV = obj(V)[:, ::-1]
        t = Sym.var('tol', True)
        inv = [1 / d[2], 1 / d[1], Sym.of(0)]
        b = rhs(3, None)
        cmp(W.m(K, 'solve', b, eps=t), mul(VV, dia(inv), VV.T, b),
            'solve with a cut-off')
        inv = [x.sqrt() for x in inv]
        cmp(W.m(K, 'sqrt_solve', b, eps=t), mul(dia(inv), VV.T, b),
            'sqrt_solve with a cut-off')
        cmp(W.m(K, 'sqrt_solve', b, transpose=True, eps=t),
            mul(VV, dia(inv), b), 'transposed sqrt_solve with a cut-off')
        want(W.m(K, 'get_rank', tol=t), 2, 'rank with a tolerance')
        cmp(W.m(K, 'get_nullspace', tol=t), VV[:, 2:],
            'nullspace with a tolerance')
        cmp(W.m(K, 'get_range', tol=t), VV[:, :2], 'range with a tolerance')
    ctx.ob('eigendecomposition: cut-off tolerances', tolerance, w)
    for neg in (False, True):
        ctx.ob('eigendecomposition: %s eigenvalue' % (
            'negative' if neg else 'zero'), lambda neg=neg: deficient(neg),
            w)
    ctx.ob('eigendecomposition: large negative eigenvalue',
           lambda: deficient(True, {'e': 5., 'd0': 1., 'g1': 1., 'g2': 1.}),
           w)


def general(ctx):
    """C v = d M v with a mass matrix"""
    w = ctx.where('spd', 'EigenDecomposition.decompose')
    for n in (1, 2):
        V = symarr('v', n, n)
        Vi = inverse(V)
        M = sym(mul(Vi.T, Vi))
        d = [Sym.var('d0', True), Sym.var('d0', True) +
             Sym.var('g1', True)][:n]
        dd, VV = d[::-1], obj(V)[:, ::-1]
        Ri = inverse(VV)
        R = mul(VV, dia([x.sqrt() for x in dd]))
        Rinv = mul(dia([1 / x.sqrt() for x in dd]), Ri)
        Cinv = mul(VV, dia([1 / x for x in dd]), VV.T)
        for fmt in (None, 'csr'):
            def make(V=V, M=M, d=d, fmt=fmt):
                W, S = start(ctx)
                A = S.spectral(d, V, M)
                B = M if fmt is None else SpMat(M.copy(), fmt)
                A = A.copy() if fmt is None else SpMat(A.copy(), fmt)
                return W, W.new('spd', 'EigenDecomposition', A, M=B, delta=0)
            tag = 'generalised problem n=%d%s' % (n, '' if fmt is None else
                                                  ', sparse')
            K = mul(VV, dia(dd), VV.T)
            for meth, exp, kw in (
                    ('dot', K, {}),
                    ('solve', Cinv, {}),
                    ('solve', mul(Cinv, M), {'generalized': True}),
                    ('sqrt_dot', R, {}),
                    ('sqrt_dot', R.T, {'transpose': True}),
                    ('sqrt_solve', Rinv, {}),
                    ('sqrt_solve', Rinv.T, {'transpose': True})):
                def g(make=make, meth=meth, exp=exp, kw=kw, n=n):
                    W, K = make()
                    b = rhs(n, None)
                    cmp(W.m(K, meth, b.copy(), **kw), mul(exp, b), meth)
                ctx.ob('%s: %s %s' % (tag, meth, ' '.join(kw)), g, w)

            def q(make=make, K=K, M=M, dd=dd, VV=VV, fmt=fmt):
                W, E = make()
                r = W.m(E, 'reconstruct')
                cmp(r[0], K, 'reconstruct')
                cmp(r[1], M, 'mass matrix')
                cmp(W.m(E, 'get_mass_matrix'), M, 'mass matrix')
                want(W.m(E, 'has_mass_matrix'), True, 'has_mass_matrix')
                cmp(W.m(E, 'get_eigenvalues'), dd, 'eigenvalues')
                cmp(W.m(E, 'get_eigenvectors'), VV, 'eigenvectors')
            ctx.ob(tag + ': factors', q, w)


def pseudo(ctx):
    w = ctx.where('spd', 'diagonal_pseudo_inverse')

    def inv():
        W, S = start(ctx, {'small': 1e-3, 'tol': 1e-2})
        d = obj([Sym.var('d0', True), 0, -Sym.var('d1', True),
                 Sym.var('small', True)])
        f = W.at(W.it.module('spd'), 'diagonal_pseudo_inverse')
        call = W.it.call
        D = call(f, [d.copy()], {})
        cmp(D, dia([1 / d[0], 0, 1 / d[2], 1 / d[3]]), 'pseudo-inverse')
        D = call(f, [d.copy()], {'eps': Sym.var('tol', True)})
        cmp(D, dia([1 / d[0], 0, 1 / d[2], 0]),
            'pseudo-inverse with a tolerance')
    ctx.ob('diagonal pseudo-inverse', inv, w)

    def rank():
        W, S = start(ctx)
        A = W.new('spd', 'SPDMatrix', symarr('A', 3, 3))
        W.m(A, 'set_rank', 2)
        want(W.m(A, 'get_rank'), 2, 'rank')
        want(W.m(A, 'is_degenerate'), True, 'is_degenerate')
        W.m(A, 'set_rank', 3)
        want(W.m(A, 'is_degenerate'), False, 'is_degenerate')
        for bad in (4, -1, 2.0):
            try:
                W.m(A, 'set_rank', bad)
            except AbsRaise as e:
                want(e.etype, 'AssertionError', 'rank %r' % bad)
                continue
            raise Violation('rank %r accepted' % bad)
        try:
            W.new('spd', 'SPDMatrix', symarr('A', 3, 2))
        except AbsRaise as e:
            want(e.etype, 'AssertionError', 'rectangular matrix')
        else:
            raise Violation('rectangular matrix accepted')
    ctx.ob('rank and shape of a matrix', rank, w)
