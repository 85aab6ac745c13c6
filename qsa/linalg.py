"""Matrix factorisations over the expression domain.

Factorisations of dense matrices are exact where they are rational
(triangular and small dense solves, inverses, Cholesky factors up to square
roots of positive expressions).  Spectral and indefinite factorisations are
those of matrices *defined by* their factors: a check registers, say,
A = V diag(d) V^T, and the routine recognises A by its entries.
"""
import ast
import numpy as np
from . import absint
from .absint import Top, Alt, AbsRaise, Native, ExcT, has_top, is_num
from .ext import SpMat, dense
from .sym import Sym

absint.EXC_PARENT.setdefault('LinAlgError', 'ValueError')
absint.EXC_PARENT.setdefault('CholmodNotPositiveDefiniteError',
                             'CholmodError')


def obj(A):
    A = np.asarray(A)
    out = np.empty(A.shape, dtype=object)
    for ix in np.ndindex(*A.shape):
        out[ix] = Sym.of(A[ix])
    return out


def same(A, B):
    A, B = dense(A), dense(B)
    if not isinstance(A, np.ndarray) or not isinstance(B, np.ndarray) or \
            A.shape != B.shape or has_top(A) or has_top(B):
        return False
    return all(Sym.of(x).equals(y) for x, y in zip(A.ravel(), B.ravel()))


def mul(*Ms):
    out = obj(Ms[0])
    for M in Ms[1:]:
        M = obj(M)
        r = np.empty((out.shape[0],) + M.shape[1:], dtype=object)
        for ix in np.ndindex(*r.shape):
            col = M[(slice(None),) + ix[1:]]
            r[ix] = sum((a * b for a, b in zip(out[ix[0]], col)), Sym.of(0))
        out = r
    return out


def inverse(A):
    A = obj(A)
    n = len(A)
    if n == 1:
        return obj([[1 / A[0, 0]]])
    d = det(A)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(A, i, 0), j, 1)
            out[j, i] = det(m) * (-1) ** (i + j) / d
    return out


def det(A):
    n = len(A)
    if n == 1:
        return Sym.of(A[0, 0])
    s = Sym.of(0)
    for j in range(n):
        a = Sym.of(A[0, j])
        if a.is_zero():
            continue
        s = s + a * det(np.delete(np.delete(A, 0, 0), j, 1)) * (-1) ** j
    return s


def root(x):
    """square root written with the root in the numerator only"""
    x = Sym.of(x)
    if x.is_const() or not x.F:
        return x.sqrt()
    N, D = Sym(x.N), Sym(x.D)
    return (N * D).sqrt() / D


class Spectrum(object):
    """positive definiteness and spectra of the registered matrices"""

    def __init__(self, W, sign=None):
        self.W, self.it = W, W.it
        self.eig, self.ldls, self.norms = [], [], []
        self.sign = sign
        it = self.it
        o = it.overrides
        N = {
            'scipy.linalg.cholesky': lambda it, a, k: self.cholesky(
                a[0], k.get('lower', a[1] if len(a) > 1 else False)),
            'numpy.linalg.cholesky': lambda it, a, k: self.cholesky(
                a[0], True),
            'scipy.linalg.cho_factor': lambda it, a, k: (self.cholesky(
                a[0], k.get('lower', a[1] if len(a) > 1 else False)),
                k.get('lower', a[1] if len(a) > 1 else False)),
            'scipy.linalg.cho_solve': self.cho_solve,
            'scipy.linalg.solve_triangular': self.tri,
            'scipy.linalg.solve': self.solve,
            'numpy.linalg.solve': self.solve,
            'scipy.linalg.inv': self.inv,
            'numpy.linalg.inv': self.inv,
            'scipy.linalg.norm': self.norm,
            'numpy.linalg.norm': self.norm,
            'scipy.sparse.linalg.norm': lambda it, a, k: self.norm(
                it, a, dict(k, _sparse=True)),
            'scipy.linalg.eigh': self.eigh,
            'numpy.linalg.eigh': self.eigh,
            'scipy.linalg.ldl': self.ldl,
            'sksparse.cholmod.cholesky': self.cholmod,
        }
        for n, f in N.items():
            o[n] = Native(n, f)
        for n, e in (('numpy.linalg.LinAlgError', 'LinAlgError'),
                     ('scipy.linalg.LinAlgError', 'LinAlgError'),
                     ('sksparse.cholmod.CholmodNotPositiveDefiniteError',
                      'CholmodNotPositiveDefiniteError'),
                     ('sksparse.cholmod.CholmodError', 'CholmodError')):
            o[n] = ExcT(e)

    # ------------------------------------------------------------ helpers
    def known(self, *v):
        for x in v:
            if isinstance(x, (Top, Alt)):
                return False
            if has_top(dense(x) if isinstance(x, SpMat) else x):
                return False
        return True

    def full(self, A):
        if isinstance(A, SpMat):
            raise AbsRaise('ValueError', 'sparse matrix given to a dense '
                           'routine')
        A = A if isinstance(A, np.ndarray) else self.it.arr(A)
        return A

    def square(self, A):
        if A.ndim != 2 or A.shape[0] != A.shape[1]:
            raise AbsRaise('ValueError', 'expected a square matrix')
        return A

    def sg(self, x):
        x = Sym.of(x)
        s = x.sign()
        if s is None and self.sign is not None:
            s = self.sign(x)
        return s

    # ------------------------------------------------------ rational parts
    def chol(self, A):
        """lower factor of the symmetric A, None when a pivot is not
        positive, Top when a sign is not known"""
        A = obj(A)
        n = len(A)
        L = obj(np.zeros((n, n), int))
        for j in range(n):
            p = A[j, j] - sum((L[j, q] * L[j, q] for q in range(j)),
                              Sym.of(0))
            s = self.sg(p)
            if s is None:
                return Top('pivot')
            if s <= 0:
                return None
            r = root(p)
            L[j, j] = r
            for i in range(j + 1, n):
                v = A[i, j] - sum((L[i, q] * L[j, q] for q in range(j)),
                                  Sym.of(0))
                L[i, j] = v * r / p
        return L

    def cholesky(self, A, lower):
        if not self.known(A) or not isinstance(lower, (bool, int)):
            return Top('cholesky')
        A = self.square(self.full(A))
        for E in self.eig:
            if same(A, E['A']) and E.get('M') is None:
                if any(self.sg(x) is None for x in E['d']):
                    return Top('cholesky')
                if any(self.sg(x) <= 0 for x in E['d']):
                    raise AbsRaise('LinAlgError', 'not positive definite')
        for E in self.ldls:
            if same(A, E['A']) and not E['pd']:
                raise AbsRaise('LinAlgError', 'not positive definite')
        # only one triangle is referenced
        T = np.tril(A) if lower else np.triu(A).T
        T = obj(T)
        for i in range(len(T)):
            for j in range(i):
                T[j, i] = T[i, j]
        L = self.chol(T)
        if L is None:
            raise AbsRaise('LinAlgError', 'not positive definite')
        if isinstance(L, Top):
            return L
        return L if lower else L.T.copy()

    def tri(self, it, a, k):
        names = ['a', 'b', 'trans', 'lower', 'unit_diagonal']
        kw = dict(zip(names, a))
        kw.update(k)
        A, b = kw['a'], kw['b']
        trans = kw.get('trans', 0)
        lower, unit = kw.get('lower', False), kw.get('unit_diagonal', False)
        if not self.known(A, b) or isinstance(lower, (Top, Alt)):
            return Top('solve_triangular')
        A, b = self.square(self.full(A)), self.full(b)
        if b.shape[0] != len(A):
            raise AbsRaise('ValueError', 'incompatible dimensions')
        return self.substitute(A, b, trans, lower, unit)

    def substitute(self, A, b, trans, lower, unit):
        A, b = obj(A), obj(b)
        if trans in (1, 2, 'T', 'C'):
            A, lower = A.T, not lower
        n = len(A)
        x = obj(np.zeros(b.shape, int))
        for i in (range(n) if lower else range(n - 1, -1, -1)):
            js = range(i) if lower else range(i + 1, n)
            for c in np.ndindex(*b.shape[1:]):
                v = b[(i,) + c] - sum((A[i, j] * x[(j,) + c] for j in js),
                                      Sym.of(0))
                if not unit:
                    if A[i, i].is_zero():
                        raise AbsRaise('LinAlgError', 'singular matrix')
                    v = v * recip(A[i, i])
                x[(i,) + c] = v
        return x

    def solve(self, it, a, k):
        A, b = a[0], a[1]
        if not self.known(A, b):
            return Top('solve')
        A, b = self.square(self.full(A)), self.full(b)
        if b.shape[0] != len(A):
            raise AbsRaise('ValueError', 'incompatible dimensions')
        if len(A) > 4:
            return Top('solve')
        return mul(inverse(A), b)

    def inv(self, it, a, k):
        if not self.known(a[0]):
            return Top('inv')
        A = self.square(self.full(a[0]))
        return inverse(A) if len(A) <= 4 else Top('inv')

    def cho_solve(self, it, a, k):
        (L, lower), b = a[0], a[1]
        if not self.known(L, b) or isinstance(lower, (Top, Alt)):
            return Top('cho_solve')
        y = self.substitute(L, b, 0 if lower else 1, lower, False)
        return self.substitute(L, y, 1 if lower else 0, lower, False)

    def norm(self, it, a, k):
        A = a[0]
        if not self.known(A):
            return Top('norm')
        order = k.get('ord', a[1] if len(a) > 1 else None)
        d = dense(A)
        d = d if isinstance(d, np.ndarray) else it.arr(d)
        if isinstance(order, (Top, Alt)) or 'axis' in k or len(a) > 2 or \
                not (order in (None, 'fro') or order == 2 and d.ndim == 1):
            return Top('norm')
        if isinstance(A, SpMat) and not k.get('_sparse'):
            raise AbsRaise('ValueError', 'sparse matrix given to norm')
        if d.ndim == 2:
            for B, v in self.norms:
                if same(d, B):
                    return v
        return sum((Sym.of(x) * Sym.of(x) for x in d.ravel()),
                   Sym.of(0)).sqrt()

    # ------------------------------------------------- registered factors
    def spectral(self, d, V, M=None):
        """A with A V = (M) V diag(d), d ascending"""
        V, d = obj(V), obj(d)
        n = len(d)
        D = obj(np.zeros((n, n), int))
        for i in range(n):
            D[i, i] = d[i]
        if M is None:
            A = mul(V, D, V.T)
        else:
            I = inverse(V)
            A = mul(I.T, D, I)
        for i in range(n):
            for j in range(i):
                A[i, j] = A[j, i]
        self.eig.append({'A': A, 'd': d, 'V': V, 'M': M})
        return A

    def eigh(self, it, a, k):
        A = a[0]
        M = k.get('b', a[1] if len(a) > 1 else None)
        if not self.known(A) or not (M is None or self.known(M)):
            return Top('eigh')
        A = self.square(self.full(A))
        if isinstance(M, SpMat):
            raise AbsRaise('ValueError', 'sparse matrix given to eigh')
        if set(k) - {'b', 'lower', 'UPLO', 'check_finite', 'overwrite_a',
                     'overwrite_b', 'driver'} or len(a) > 2:
            return Top('eigh')
        for E in self.eig:
            if same(A, E['A']) and (M is None) == (E['M'] is None) and (
                    M is None or same(M, E['M'])):
                return (E['d'].copy(), E['V'].copy())
        n = len(A)
        if M is None and all(Sym.of(A[i, j]).is_zero() for i in range(n)
                             for j in range(n) if i != j):
            order = []
            for i in range(n):
                q = 0
                while q < len(order):
                    s = self.sg(Sym.of(A[order[q], order[q]]) - A[i, i])
                    if s is None:
                        return Top('eigh')
                    if s > 0:
                        break
                    q += 1
                order.insert(q, i)
            V = obj(np.eye(n).astype(int))[:, order]
            return (obj([A[i, i] for i in order]), V)
        return Top('eigh')

    def indefinite(self, L, D, perm, pd=False):
        """A = lu D lu^T with lu[perm] = L unit lower triangular"""
        n = len(L)
        lu = obj(np.zeros((n, n), int))
        for i, q in enumerate(perm):
            lu[q] = obj(L)[i]
        A = mul(lu, D, lu.T)
        for i in range(n):
            for j in range(i):
                A[i, j] = A[j, i]
        self.ldls.append({'A': A, 'lu': lu, 'D': obj(D), 'pd': pd,
                          'perm': list(perm)})
        return A

    def ldl(self, it, a, k):
        if not self.known(a[0]):
            return Top('ldl')
        A = self.square(self.full(a[0]))
        low = k.get('lower', a[1] if len(a) > 1 else True)
        for E in self.ldls:
            if same(A, E['A']) and low is True:
                D = np.empty(E['D'].shape, dtype=object)
                for ix in np.ndindex(*D.shape):
                    v = E['D'][ix]
                    D[ix] = 0 if v.is_zero() else v
                return (E['lu'].copy(), D, np.array(E['perm']))
        L = self.chol(A) if low is True else None
        if isinstance(L, np.ndarray):
            # positive definite: no pivoting
            n = len(L)
            D = np.zeros((n, n), dtype=object)
            U = np.zeros((n, n), dtype=object)
            for j in range(n):
                D[j, j] = L[j, j] * L[j, j]
                for i in range(j, n):
                    U[i, j] = L[i, j] * L[j, j] / D[j, j]
            return (U, D, np.arange(n))
        return Top('ldl')

    # ------------------------------------------------------------ CHOLMOD
    def cholmod(self, it, a, k):
        A = a[0]
        if not self.known(A):
            return Top('cholmod')
        if not isinstance(A, SpMat):
            raise AbsRaise('TypeError', 'CHOLMOD needs a sparse matrix')
        d = dense(A)
        for E in self.eig:
            if same(d, E['A']) and any(self.sg(x) is not None and
                                       self.sg(x) <= 0 for x in E['d']):
                raise AbsRaise('CholmodNotPositiveDefiniteError')
        for E in self.ldls:
            if same(d, E['A']) and not E['pd']:
                raise AbsRaise('CholmodNotPositiveDefiniteError')
        n = len(d)
        # an ordering that is not its own inverse
        P = [(i + 1) % n for i in range(n)]
        L = self.chol(obj(d)[np.ix_(P, P)])
        if L is None:
            raise AbsRaise('CholmodNotPositiveDefiniteError')
        if isinstance(L, Top):
            return L
        return Factor(self, d, L, P)


def recip(x):
    """1/x with roots in the numerator"""
    x = Sym.of(x)
    if not x.F and len(x.N.t) == 1:
        (m, c), = x.N.t.items()
        if len(m) == 1:
            (at, e), = m
            A = type(x.N).atoms[at]
            if A.fn == 'sqrt' and e == 1:
                return x / (x * x)
    x2 = x * x
    if any(at.fn == 'sqrt' for at in x.atoms()):
        return x / x2
    return 1 / x


class Factor(object):
    """CHOLMOD factor: A[P][:,P] = L L^T"""

    def __init__(self, S, A, L, P):
        self.S, self.A, self.L, self.P = S, A, L, P

    def __deepcopy__(self, memo):
        return self

    def dl(self):
        n = len(self.P)
        D = [self.L[i, i] * self.L[i, i] for i in range(n)]
        U = obj(np.zeros((n, n), int))
        for i in range(n):
            for j in range(i + 1):
                U[i, j] = self.L[i, j] * self.L[j, j] / D[j]
        return D, U

    def absint_call(self, it, a, k):
        return self.apply(it, 'solve_A', a, k)

    def absint_getattr(self, it, n):
        return Native('factor.' + n, lambda it, a, k: self.apply(
            it, n, a, k))

    def apply(self, it, n, a, k):
        S, P, m = self.S, self.P, len(self.P)
        if n == 'P':
            return np.array(P)
        if n == 'L':
            return SpMat(self.L.copy(), 'csc')
        D, U = self.dl()
        if n == 'D':
            return obj(D)
        if n == 'L_D':
            E = obj(np.zeros((m, m), int))
            for i in range(m):
                E[i, i] = D[i]
            return (SpMat(U, 'csc'), SpMat(E, 'csc'))
        if not a:
            return Top('factor.' + n)
        b = a[0]
        if not S.known(b):
            return Top('factor.' + n)
        sp = isinstance(b, SpMat)
        x = dense(b)
        x = obj(x if isinstance(x, np.ndarray) else it.arr(x))
        if x.shape[0] != m:
            raise AbsRaise('CholmodError', 'dimension mismatch')
        inv = np.argsort(P)
        ldlt = k.get('use_LDLt_decomposition', a[1] if len(a) > 1 else True)
        if isinstance(ldlt, (Top, Alt)):
            return Top('factor.' + n)
        if n == 'apply_P':
            r = x[P]
        elif n == 'apply_Pt':
            r = x[inv]
        elif n in ('solve_A', '__call__'):
            y = S.substitute(self.L, x[P], 0, True, False)
            r = S.substitute(self.L, y, 1, True, False)[inv]
        elif n == 'solve_L':
            r = S.substitute(U if ldlt else self.L, x, 0, True, False)
        elif n == 'solve_Lt':
            r = S.substitute(U if ldlt else self.L, x, 1, True, False)
        elif n == 'solve_D':
            r = x.copy()
            for i in range(m):
                r[i] = r[i] / D[i]
        elif n == 'solve_LD':
            r = S.substitute(U, x, 0, True, False)
            for i in range(m):
                r[i] = r[i] / D[i]
        elif n == 'solve_DLt':
            r = x.copy()
            for i in range(m):
                r[i] = r[i] / D[i]
            r = S.substitute(U, r, 1, True, False)
        else:
            return Top('factor.' + n)
        return SpMat(r, 'csc') if sp else r
