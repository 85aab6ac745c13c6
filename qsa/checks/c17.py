"""C17 covariance kernels and Gaussian random fields."""
import math
import random
from fractions import Fraction as F
import numpy as np
from ..frame import want, Violation, Undecided
from ..build import Sym, symarr, linemesh, boxmesh, children, aslist
from ..absint import AbsRaise, Native, Obj, Top, Alt
from ..ext import SpMat, dense
from ..linalg import Spectrum, mul, obj, inverse
from .fe_common import distribute, numeric
from .c11 import asarr
from .c14 import refuses
from .c16 import start, cmp, rhs, sampled


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('abstract interpretation of the kernels, of the '
                     'assembly of covariances and of the sampling and '
                     'conditioning formulas; comparison with the documented '
                     'expressions')
    ctx.explanation = (
        'Kernels are evaluated at unknown points with unknown parameters '
        'and the expressions obtained are compared with the documented '
        'functions; covariances are assembled for unknown kernels; Gaussian '
        'fields are built from matrices given by unknown eigenvalues or '
        'triangular factors, sampled with unknown coefficients and '
        'conditioned on unknown data.')
    ctx.assumptions = ['numpy/scipy routines compute the documented '
                       'functions', 'exact arithmetic']
    kernels(ctx)
    names(ctx)
    assembly(ctx)
    fields(ctx)
    supports(ctx)
    conditions(ctx)


# ------------------------------------------------------- expression identity
class NaN(Exception):
    pass


def evalf(e, env):
    """value of an expression at given arguments"""
    e = Sym.of(e)

    def poly(p):
        s = 0.0
        for m, c in p.t.items():
            v = float(c)
            for uid, k in m:
                v *= atom(type(p).atoms[uid]) ** k
            s += v
        return s

    def atom(a):
        if a.fn is None:
            if a.name == 'NAN':
                raise NaN()
            if a.name not in env:
                r = random.Random(a.name + str(env.get('', 0)))
                v = r.uniform(0.6, 2.1)
                env[a.name] = v if a.positive or r.random() < .5 else -v
            return env[a.name]
        x = [evalf(q, env) for q in a.args]
        if a.fn in ('kv', 'gamma'):
            import scipy.special as sc
            return float(getattr(sc, a.fn)(*x))
        if a.fn == 'pow':
            return float(x[0]) ** float(x[1])
        if a.fn == 'abs':
            return abs(x[0])
        if a.fn in ('min', 'max'):
            return (min if a.fn == 'min' else max)(x)
        return float(getattr(math, a.fn)(*x))
    v = poly(e.N)
    for f, k in e.F:
        v /= poly(f) ** k
    return v


def identical(got, exp, what):
    """identity of expressions: normal form, else values at generic points"""
    if isinstance(got, (Top, Alt)):
        raise Undecided('%s not determined: %r' % (what, got))
    g, e = Sym.of(got), Sym.of(exp)
    try:
        if g.equals(e):
            return
    except Exception:
        pass
    for t in range(4):
        try:
            x, y = evalf(g, {'': t}), evalf(e, {'': t})
        except NaN:
            raise Violation('%s: undefined value' % what)
        if not abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y)):
            raise Violation('%s: source computes %s, required %s' % (
                what, str(g)[:200], str(e)[:200]))


def same(got, exp, what):
    g = asarr(dense(got))
    e = np.asarray(exp, dtype=object)
    if g.shape != e.shape:
        raise Violation('%s: shape %s instead of %s' % (what, g.shape,
                                                        e.shape))
    for ix in np.ndindex(*e.shape):
        identical(g[ix], e[ix], '%s, entry %s' % (what, ix))


# ------------------------------------------------------------------- kernels
def prepare(ctx, table=()):
    W, S = start(ctx, table)
    o = W.it.overrides

    def kv(it, a, k):
        def one(nu, x):
            x, nu = Sym.of(x), Sym.of(nu)
            return Sym.var('NAN') if x.is_zero() else Sym.app(
                'kv', nu, x, positive=True)
        if isinstance(a[0], np.ndarray) or isinstance(a[1], np.ndarray):
            return np.vectorize(one, otypes=[object])(a[0], a[1])
        return one(a[0], a[1])

    def gamma(it, a, k):
        v = Sym.of(a[0])
        return Sym.of(math.gamma(float(v.const()))) if v.is_const() else \
            Sym.app('gamma', v, positive=True)

    def isnan(it, a, k):
        def one(x):
            if isinstance(x, Sym):
                return any(q.name == 'NAN' for q in x.all_atoms())
            return bool(np.isnan(float(x)))
        x = a[0]
        if isinstance(x, (Top, Alt)):
            return Top('isnan')
        if isinstance(x, np.ndarray):
            return np.vectorize(one, otypes=[bool])(x)
        return one(x)
    o['scipy.special.kv'] = Native('kv', kv)
    o['scipy.special.gamma'] = Native('gamma', gamma)
    o['numpy.isnan'] = Native('isnan', isnan)
    o['numpy.linalg.eigvals'] = Native('eigvals', lambda it, a, k: obj(
        [Sym.var('ev0', True), Sym.var('ev1', True)]))
    return W, S


s_, l_, nu_, al_ = (Sym.var(x, True) for x in ('sgm', 'l', 'nu', 'al'))


def formula(name, kw, d2, xy):
    """documented value: d2 squared distance, xy = <x, M y>"""
    sgm = kw.get('sgm', 1)
    d = Sym.of(d2).sqrt()
    if name == 'constant':
        return Sym.of(sgm)
    if name == 'linear':
        return Sym.of(sgm) ** 2 + xy
    if name == 'gaussian':
        l = Sym.of(kw.get('l', 1))
        return (-Sym.of(d2) / (2 * l * l)).exp() * sgm ** 2
    if name == 'exponential':
        l = Sym.of(kw['l'])
        return (-d / l).exp() * sgm ** 2
    if name == 'matern':
        nu, l = kw['nu'], kw['l']
        if d.is_zero():
            return Sym.of(sgm) ** 2
        t = (Sym.of(2) * nu).sqrt() * d / l
        return Sym.of(sgm) ** 2 * Sym.of(2) ** (1 - nu) / Sym.app(
            'gamma', nu, positive=True) * t ** nu * Sym.app(
                'kv', nu, t, positive=True)
    if name == 'rational':
        return (1 / (1 + Sym.of(d2))) ** kw['a']
    raise KeyError(name)


PARAM = {'constant': [{}, {'sgm': s_}],
         'linear': [{}, {'sgm': s_}],
         'gaussian': [{}, {'sgm': s_, 'l': l_}, {'l': l_}],
         'exponential': [{'l': l_}, {'sgm': s_, 'l': l_}],
         'matern': [{'sgm': s_, 'nu': nu_, 'l': l_}],
         'rational': [{'a': al_}]}
FAR = {'gaussian', 'exponential', 'matern', 'rational'}


def metric(dim, M):
    if M is None:
        return None, obj(np.eye(dim).astype(int))
    if dim == 1:
        m = Sym.var('m', True)
        return m, obj([[m]])
    L = obj([[Sym.var('m0', True), 0], [Sym.var('m1'), Sym.var('m2', True)]])
    A = mul(L, L.T)
    return A, A


def kernels(ctx):
    def points(dim, moves):
        """x arbitrary, y displaced by the given moves"""
        X = symarr('x', len(moves), dim)
        Y = X.copy()
        for i, m in enumerate(moves):
            for q in range(dim):
                Y[i, q] = X[i, q] - Sym.of(m[q])
        return X, Y

    # signs of the displacements are enumerated, sizes are unknown
    h, k = Sym.var('h', True), Sym.var('k', True)
    one = [(h,), (-h,), (0,)]
    two = [(h, k), (h, -k), (-h, k), (-h, -k), (h, 0), (0, -k), (0, 0)]

    def free(name, kw, dim, M):
        def f():
            W, S = prepare(ctx)
            fn = W.it.fn('gmrf', name)
            X, Y = points(dim, one if dim == 1 else two)
            m, A = metric(dim, M)
            args = dict(kw)
            if m is not None:
                args['M'] = m
            X0, Y0 = X.copy(), Y.copy()
            if name == 'linear':
                # the product is taken of the points themselves
                X = symarr('x', 3, dim)
                Y = symarr('y', 3, dim)
            r = asarr(W.it.call(fn, [X.copy(), Y.copy()], args))
            exp = []
            for i in range(len(X)):
                d = [X[i, q] - Y[i, q] for q in range(dim)]
                d2 = sum((A[p, q] * d[p] * d[q] for p in range(dim)
                          for q in range(dim)), Sym.of(0))
                xy = sum((A[p, q] * X[i, p] * Y[i, q] for p in range(dim)
                          for q in range(dim)), Sym.of(0))
                exp.append(formula(name, kw, d2, xy))
            if r.size != len(exp):
                raise Violation('%d values for %d pairs of points' % (
                    r.size, len(exp)))
            same(r.ravel(), exp, name)
        return f
    for name in PARAM:
        for n, kw in enumerate(PARAM[name]):
            for dim in (1, 2):
                for M in ((None, 'M') if name != 'constant' else (None,)):
                    ctx.ob('kernel %s, parameters %s, %dd%s' % (
                        name, sorted(kw), dim, '' if M is None else
                        ', weighted'), free(name, kw, dim, M),
                        ctx.where('gmrf', name))

    # periodic domains: displacements are fractions of the unknown period
    w, v = Sym.var('w', True), Sym.var('v', True)
    ts = [F(0), F(2, 5), -F(2, 5), F(1, 2), -F(1, 2), F(3, 5), -F(3, 5),
          F(9, 10), -F(1)]

    def short(t):
        if abs(t) <= F(1, 2):
            return t
        return t - (1 if t > 0 else -1)

    def torus(name, kw, dim, M):
        def f():
            W, S = prepare(ctx)
            fn = W.it.fn('gmrf', name)
            if dim == 1:
                mv = [(t,) for t in ts]
            else:
                mv = [(t, u) for t in ts for u in ts
                      if not (M and F(1, 2) in (abs(t), abs(u)))]
            P = (w, v)[:dim]
            X, Y = points(dim, [[Sym.of(t) * p for t, p in zip(m, P)]
                                for m in mv])
            lo = [Sym.var('lo%d' % q) for q in range(dim)]
            box = []
            for q in range(dim):
                box += [lo[q], lo[q] + P[q]]
            m, A = metric(dim, M)
            args = dict(kw, periodic=True, box=tuple(box))
            if m is not None:
                args['M'] = m
            r = asarr(W.it.call(fn, [X, Y], args)).ravel()
            exp = []
            for mm in mv:
                d = [Sym.of(short(t)) * p for t, p in zip(mm, P)]
                d2 = sum((A[p, q] * d[p] * d[q] for p in range(dim)
                          for q in range(dim)), Sym.of(0))
                exp.append(formula(name, kw, d2, None))
            if r.size != len(exp):
                raise Violation('%d values for %d pairs of points' % (
                    r.size, len(exp)))
            same(r, exp, 'periodic ' + name)
        return f
    for name in sorted(FAR):
        kw = PARAM[name][-1]
        for dim in (1, 2):
            for M in (None, 'M'):
                ctx.ob('periodic kernel %s, %dd%s' % (
                    name, dim, '' if M is None else ', weighted'),
                    torus(name, kw, dim, M), ctx.where('gmrf', 'distance'))

    def plain(dim, M):
        def f():
            W, S = prepare(ctx)
            X, Y = points(dim, one if dim == 1 else two)
            m, A = metric(dim, M)
            args = {} if m is None else {'M': m}
            r = asarr(W.it.call(W.it.fn('gmrf', 'distance'), [X, Y], args))
            exp = []
            for i in range(len(X)):
                d = [X[i, q] - Y[i, q] for q in range(dim)]
                exp.append(sum((A[p, q] * d[p] * d[q] for p in range(dim)
                                for q in range(dim)), Sym.of(0)).sqrt())
            same(r.ravel(), exp, 'distance')
        return f
    for dim in (1, 2):
        for M in (None, 'M'):
            ctx.ob('distance %dd%s' % (dim, '' if M is None else
                                       ', weighted'), plain(dim, M),
                   ctx.where('gmrf', 'distance'))

    def nobox(dim):
        def f():
            W, S = prepare(ctx)
            X = symarr('x', 2, dim)
            refuses(lambda: W.it.call(W.it.fn('gmrf', 'gaussian'),
                                      [X, X.copy()], {'periodic': True}),
                    'periodic kernel without a box')
            refuses(lambda: W.it.call(W.it.fn('gmrf', 'distance'),
                                      [X, symarr('y', 3, dim)], {}),
                    'different numbers of points')
        return f
    for dim in (1, 2):
        ctx.ob('distance %dd refuses bad input' % dim, nobox(dim),
               ctx.where('gmrf', 'distance'))


# ------------------------------------------------------------ the covariance
def spy(W):
    """records what is decomposed"""
    seen = []

    def eigh(it, a, k):
        M = k.get('b', a[1] if len(a) > 1 else None)
        seen.append((a[0], M))
        n = len(dense(a[0]))
        return (obj([Sym.var('e%d' % i, True) for i in range(n)]),
                symarr('v', n, n))
    W.it.overrides['scipy.linalg.eigh'] = Native('eigh', eigh)
    W.it.overrides['numpy.linalg.eigh'] = Native('eigh', eigh)
    W.it.overrides['scipy.linalg.norm'] = Native(
        'norm', lambda it, a, k: Sym.var('nrm', True))
    return seen


def unknown(W, name='c'):
    def f(it, a, k):
        n = len(a[0])
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = kval(name, a[0][i], a[1][i])
        return out
    return Native('covariance function', f)


def kval(name, x, y):
    return Sym.var('%s<%s>' % (name, ';'.join(','.join(
        '%.9g' % (numeric(c) + 0.0) for c in np.atleast_1d(p))
        for p in (x, y))))


def make(W, D, **kw):
    return W.it.call(W.cls('gmrf', 'Covariance'), [D], kw)


def times(A, s):
    A = obj(A)
    for ix in np.ndindex(*A.shape):
        A[ix] = A[ix] * s
    return A


def names(ctx):
    wh = ctx.where('gmrf', 'Covariance.set_kernel')

    def one(name, kw, dim):
        def f():
            W, S = prepare(ctx)
            spy(W)
            M = linemesh(W, 1) if dim == 1 else boxmesh(W, (1, 1))
            E, D = distribute(W, M, 'DQ0', dim)
            K = make(W, D, name=name, parameters=dict(kw))
            h, k = Sym.var('h2', True), Sym.var('k2', True)
            X = symarr('x', 2, dim)
            Y = X.copy()
            Y[0, 0] = Y[0, 0] - h
            if dim == 2:
                Y[0, 1] = Y[0, 1] + k
            r = W.m(W.m(K, 'kernel'), 'eval', (X, Y))
            exp = []
            for i in range(2):
                d2 = sum(((X[i, q] - Y[i, q]) * (X[i, q] - Y[i, q])
                          for q in range(dim)), Sym.of(0))
                xy = sum((X[i, q] * Y[i, q] for q in range(dim)), Sym.of(0))
                exp.append(formula(name, kw, d2, xy))
            same(asarr(r).ravel(), exp, name)
        return f
    for name in PARAM:
        for dim in (1, 2):
            ctx.ob('covariance kernel by name: %s, %dd' % (name, dim),
                   one(name, PARAM[name][-1], dim), wh)

    def unknown_name(name):
        def f():
            W, S = prepare(ctx)
            spy(W)
            M = linemesh(W, 1)
            E, D = distribute(W, M, 'DQ0', 1)
            refuses(lambda: make(W, D, name=name),
                    'covariance kernel %r' % (name,))
        return f
    for n in ('unknown', None):
        ctx.ob('covariance refuses the kernel %s' % n, unknown_name(n), wh)

    def discr():
        W, S = prepare(ctx)
        spy(W)
        M = linemesh(W, 1)
        E, D = distribute(W, M, 'DQ0', 1)
        refuses(lambda: make(W, D, discretization='unknown',
                             name='gaussian'), 'unknown discretization')
    ctx.ob('covariance refuses an unknown discretization', discr,
           ctx.where('gmrf', 'Covariance.assemble'))


def dofs(W, M, et, flag):
    D = W.new('fem', 'DofHandler', M, W.new('fem', 'QuadFE', 1, et))
    W.m(D, 'distribute_dofs', **({} if flag is None else
                                 {'subforest_flag': flag}))
    return D


def assembly(ctx):
    wh = ctx.where('gmrf', 'Covariance.assemble')
    a, h = Sym.var('a'), Sym.var('h', True)

    def grid(W, option):
        """mesh, selector, end points of the cells used (relative)"""
        M = linemesh(W, 2)
        roots = children(W, W.at(M, 'cells'))
        if option == 'plain':
            return M, None, [(F(0), F(1, 2)), (F(1, 2), F(1))]
        W.m(W.at(M, 'cells'), 'record', 0)
        W.m(W.at(M, 'cells'), 'refine', new_label=1)
        quarters = [(F(i, 4), F(i + 1, 4)) for i in range(4)]
        if option == 'coarse':
            return M, 0, [(F(0), F(1, 2)), (F(1, 2), F(1))]
        return M, None if option == 'fine' else 1, quarters

    def oracle(W, D, et, flag, cells):
        """mass matrix, dof positions, integrals of hats and x times hats"""
        kw = {} if flag is None else {'subforest_flag': flag}
        P = asarr(W.m(D, 'get_dof_vertices', **kw))
        n = len(P)
        rel = [F(float(((Sym.of(p[0]) - a) / h).const()))
               .limit_denominator(1000) for p in P]
        mass = obj(np.zeros((n, n), int))
        one = obj(np.zeros(n, int))
        mom = obj(np.zeros(n, int))

        def poly(lo, hi):
            """local functions as coefficient lists in the relative x"""
            if et == 'DQ0':
                return {rel.index((lo + hi) / 2): [F(1)]}
            l = hi - lo
            return {rel.index(lo): [hi / l, -1 / l],
                    rel.index(hi): [-lo / l, 1 / l]}

        def integral(p, lo, hi):
            return sum(c * (hi ** (i + 1) - lo ** (i + 1)) / (i + 1)
                       for i, c in enumerate(p))

        def prod(p, q):
            out = [F(0)] * (len(p) + len(q) - 1)
            for i, x in enumerate(p):
                for j, y in enumerate(q):
                    out[i + j] += x * y
            return out
        for lo, hi in cells:
            L = poly(lo, hi)
            for i, p in L.items():
                one[i] = one[i] + h * integral(p, lo, hi)
                mom[i] = mom[i] + h * (a * integral(p, lo, hi) + h * integral(
                    prod([F(0), F(1)], p), lo, hi))
                for j, q in L.items():
                    mass[i, j] = mass[i, j] + h * integral(
                        prod(p, q), lo, hi)
        return P, mass, one, mom

    def interp(et, option):
        def f():
            W, S = prepare(ctx)
            seen = spy(W)
            M, flag, cells = grid(W, option)
            D = dofs(W, M, et, flag)
            kw = {} if flag is None else {'subforest_flag': flag}
            C = W.new('gmrf', 'Covariance', D, cov_fn=unknown(W), **kw)
            P, mass, one, mom = oracle(W, D, et, flag, cells)
            n = len(P)
            K = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    K[i, j] = kval('c', P[i], P[j])
            check(W, C, seen, mul(mass, K, mass.T), mass, n, flag, D,
                  'interpolation')
        return f

    def check(W, C, seen, exp, mass, n, flag, D, how):
        if len(seen) != 1:
            raise Violation('%d decompositions of the covariance' %
                            len(seen))
        cmp(seen[0][0], exp, 'discretised covariance operator')
        if seen[0][1] is None:
            raise Violation('covariance decomposed without mass matrix')
        cmp(seen[0][1], mass, 'mass matrix')
        cmp(W.m(C, 'get_matrix'), exp, 'stored covariance operator')
        cmp(W.m(C, 'get_mass_matrix'), mass, 'stored mass matrix')
        want(W.m(C, 'get_size'), n, 'size')
        want(W.m(C, 'dim'), 1, 'dimension')
        want(W.m(C, 'discretization'), how, 'discretization')
        if W.m(C, 'dofhandler') is not D:
            raise Violation('dofhandler of the covariance')
        want(W.m(C, 'subforest_flag'), flag, 'subforest flag')
    for et in ('DQ0', 'Q1'):
        for opt in ('plain', 'coarse', 'fine', 'labelled'):
            ctx.ob('interpolated covariance, %s, %s' % (et, opt),
                   interp(et, opt), wh)

    def galerkin(et, option):
        def f():
            W, S = prepare(ctx)
            seen = spy(W)
            M, flag, cells = grid(W, option)
            D = dofs(W, M, et, flag)
            kw = {} if flag is None else {'subforest_flag': flag}
            p, q = Sym.var('p'), Sym.var('q')

            def cov(it, A, k):
                x, y = A[0], A[1]
                out = np.empty(len(x), dtype=object)
                for i in range(len(x)):
                    out[i] = p + q * x[i, 0] * y[i, 0]
                return out
            C = W.new('gmrf', 'Covariance', D, discretization='galerkin',
                      cov_fn=Native('covariance function', cov), **kw)
            P, mass, one, mom = oracle(W, D, et, flag, cells)
            n = len(P)
            B = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    B[i, j] = p * one[i] * one[j] + q * mom[i] * mom[j]
            check(W, C, seen, B, mass, n, flag, D, 'galerkin')
        return f
    for et in ('DQ0', 'Q1'):
        for opt in ('plain', 'coarse', 'labelled'):
            ctx.ob('projected covariance, %s, %s' % (et, opt),
                   galerkin(et, opt), wh)


# ------------------------------------------------------------ Gaussian fields
c_, d_ = F(3, 5), F(4, 5)
ROT2 = obj([[c_, d_], [-d_, c_]])
ROT3 = obj(np.array([[F(2, 3), -F(2, 3), F(1, 3)],
                     [F(1, 3), F(2, 3), F(2, 3)],
                     [F(2, 3), F(1, 3), -F(2, 3)]], dtype=object))


def eigs(n, name='t'):
    """positive unknown eigenvalues in ascending order"""
    out, s = [], Sym.of(0)
    for i in range(n):
        s = s + Sym.var('%s%d' % (name, i), True)
        out.append(s)
    return obj(out)


def diag(d):
    D = obj(np.zeros((len(d), len(d)), int))
    for i in range(len(d)):
        D[i, i] = Sym.of(d[i])
    return D


class Field(object):
    """a field with known covariance C, or precision Q, and factor S"""

    def __init__(self, ctx, kind, n=2, mean=True, cols=1, **kw):
        self.W, self.S = start(ctx)
        W, S = self.W, self.S
        self.n, self.kind = n, kind
        V = ROT2 if n == 2 else ROT3
        t = eigs(n)
        # decompositions list eigenvalues in descending order
        self.d = obj(t[::-1])
        self.V = obj(V[:, ::-1])
        small = Sym.var('nrm', True)
        if kind in ('eig', 'array', 'precision eig'):
            A = S.spectral(t, V)
            S.norms.append((A, small))
            R = mul(self.V, diag([x.sqrt() for x in self.d]))
        else:
            L = obj(np.zeros((n, n), int))
            for i in range(n):
                for j in range(i + 1):
                    L[i, j] = Sym.var('l%d%d' % (i, j), i == j)
            A, R = mul(L, L.T), L
            for i in range(n):
                for j in range(i):
                    A[i, j] = A[j, i]
        self.A, self.R = A, R
        self.mu = symarr('mu', n, cols)
        args = {}
        if mean:
            args['mean'] = self.mu.copy()
        name = 'precision' if 'precision' in kind else 'covariance'
        if kind == 'eig':
            args[name] = W.new('spd', 'EigenDecomposition', A.copy())
        elif kind == 'chol':
            args[name] = W.new('spd', 'CholeskyDecomposition', A.copy())
        elif kind == 'array':
            args[name] = A.copy()
        elif kind == 'precision eig':
            args[name] = W.new('spd', 'EigenDecomposition', A.copy())
        elif kind == 'precision':
            args[name] = A.copy()
        elif kind == 'sparse precision':
            args[name] = SpMat(A.copy(), 'csc')
            P = [(i + 1) % n for i in range(n)]
            I = obj(np.eye(n).astype(int))[P]
            R = mul(I.T, S.chol(obj(A)[np.ix_(P, P)]))
            self.R = R
        self.mode = name
        args.update(kw)
        self.X = W.new('gmrf', 'GaussianField', n, **args)
        # covariance of the field
        self.K = A if name == 'covariance' else inverse(A)

    def m(self, *a, **k):
        return self.W.m(self.X, *a, **k)

    def correlated(self, z):
        if self.mode == 'covariance':
            return mul(self.R, z)
        return mul(inverse(self.R).T, z)


KINDS = ['eig', 'chol', 'array', 'precision', 'precision eig',
         'sparse precision']


def tile(m, k):
    m = obj(m)
    return np.concatenate([m] * k, axis=1)


def fields(ctx):
    G = 'GaussianField.'

    def w(n):
        return ctx.where('gmrf', G + n)

    def smp(kind, n, k, mode=None):
        def f():
            X = Field(ctx, kind, n)
            z = rhs(n, k, 'z')
            r = X.m('sample', z=z.copy(), mode=mode or X.mode)
            same(r, obj(X.correlated(z)) + tile(X.mu, k), 'sample')
            same(X.m('mean'), X.mu, 'mean after sampling')
        return f
    for kind in KINDS:
        for n, k in ((2, 1), (2, 3), (3, 2)):
            ctx.ob('sample, %s, size %d, %d columns' % (kind, n, k),
                   smp(kind, n, k), w('sample'))
        if 'precision' in kind:
            ctx.ob('canonical sample, %s' % kind,
                   smp(kind, 2, 2, 'canonical'), w('sample'))

    def canon(kind):
        def f():
            b = symarr('cm', 2, 1)
            X = Field(ctx, kind, 2, mean=False, canonical_mean=b)
            z = rhs(2, 2, 'z')
            r = X.m('sample', z=z, mode='canonical')
            same(r, obj(X.correlated(z)) + tile(mul(X.K, b), 2),
                 'sample with canonical mean')
            same(X.m('b'), b, 'canonical mean')
        return f
    for kind in KINDS[3:]:
        ctx.ob('sample from canonical parameters, %s' % kind, canon(kind),
               w('sample'))

    def drawn(kind):
        def f():
            X = Field(ctx, kind, 2)
            z = symarr('rnd', 2, 3)
            sizes = []

            def normal(it, a, k):
                sizes.append(k.get('size', a[2] if len(a) > 2 else None))
                return Sym.var('one') if sizes[-1] is None else z.copy()
            X.W.it.overrides['numpy.random.normal'] = Native('normal', normal)
            r = X.m('sample', n_samples=3, mode=X.mode)
            want(len(sizes), 1, 'draws')
            want(tuple(sizes[0]), (2, 3), 'shape of the random numbers')
            same(r, obj(X.correlated(z)) + tile(X.mu, 3), 'sample')
            r = asarr(X.m('iid_gauss', n_samples=3))
            want(r.shape, (2, 3), 'white noise')
            want(tuple(sizes[1]), (2, 3), 'shape of the white noise')
        return f
    for kind in ('eig', 'precision'):
        ctx.ob('sample draws its own coefficients, %s' % kind, drawn(kind),
               w('sample'))

    def column(kind, mode):
        def f():
            X = Field(ctx, kind, 2, cols=2)
            z = rhs(2, 2, 'z')
            for c in (0, 1):
                r = X.m('sample', z=z.copy(), mode=mode, m_col=c)
                same(r, obj(X.correlated(z)) + tile(X.mu[:, c:c + 1], 2),
                     'sample about mean column %d' % c)
        return f
    for kind, mode in (('eig', 'covariance'), ('precision', 'precision'),
                       ('precision', 'canonical')):
        ctx.ob('sample about a column of the mean, %s' % mode,
               column(kind, mode), w('sample'))

    def bad(case):
        def f():
            X = Field(ctx, 'eig', 2)
            Y = Field(ctx, 'precision', 2)
            if case == 'missing':
                refuses(lambda: X.m('sample', mode='precision'),
                        'sampling without precision')
                refuses(lambda: Y.m('sample', mode='covariance'),
                        'sampling without covariance')
                refuses(lambda: Y.m('KL_sample'), 'expansion of nothing')
            if case == 'shape':
                refuses(lambda: X.m('sample', z=rhs(3, 1)), 'wrong size')
                refuses(lambda: X.m('sample', z=rhs(2, None)), 'vector z')
            if case == 'size':
                refuses(lambda: X.W.new('gmrf', 'GaussianField', 0), 'size 0')
                refuses(lambda: X.W.new('gmrf', 'GaussianField', 2,
                                        mean=rhs(3, 1)), 'long mean')
            if case == 'order':
                refuses(lambda: X.m('KL_sample', i_min=1, i_max=0),
                        'empty range')
                refuses(lambda: X.m('KL_sample', i_max=2), 'index 2 of 2')
        return f
    for case in ('missing', 'shape', 'size', 'order'):
        ctx.ob('field refuses: %s' % case, bad(case), w('sample'))

    def mean(kind):
        def f():
            X = Field(ctx, kind, 2, cols=2)
            same(X.m('mean'), X.mu[:, :1], 'mean')
            same(X.m('mean', 1), X.mu[:, 1:], 'second mean')
            same(X.m('mean', 1, 3), tile(X.mu[:, 1:], 3), 'copies')
            same(X.m('mean', n_copies=1), X.mu[:, :1], 'one copy')
            same(X.m('get_mean'), X.mu, 'all means')
            want(X.m('size'), 2, 'size')
            same(X.m('b'), mul(inverse(X.K), X.mu[:, :1]),
                 'canonical mean Q mu')
            Y = Field(ctx, kind, 2, mean=False)
            same(Y.m('mean'), np.zeros((2, 1)), 'default mean')
        return f
    for kind in ('eig', 'chol', 'precision', 'precision eig'):
        ctx.ob('means, %s' % kind, mean(kind), w('mean'))

    def fromcanon(kind):
        def f():
            b = symarr('cm', 2, 1)
            X = Field(ctx, kind, 2, mean=False, canonical_mean=b.copy())
            X.m('compute_mean')
            same(X.m('mean'), mul(X.K, b), 'mean K b')
        return f
    for kind in ('eig', 'chol', 'precision', 'precision eig',
                 'sparse precision'):
        ctx.ob('mean from canonical mean, %s' % kind, fromcanon(kind),
               w('compute_mean'))

    def kl(n, lo, hi, own):
        def f():
            X = Field(ctx, 'eig', n)
            m = (n - 1 if hi is None else hi) - lo + 1
            z = symarr('z', m, 2)
            sizes = []

            def normal(it, a, k):
                sizes.append(tuple(k.get('size')))
                return symarr('z', *sizes[-1])
            X.W.it.overrides['numpy.random.normal'] = Native('normal', normal)
            r = X.m('KL_sample', i_min=lo, i_max=hi,
                    **({'n_samples': 2} if own else {'z': z.copy()}))
            if own:
                want(sizes[0][1], 2, 'samples drawn')
                z = symarr('z', *sizes[0])
                z = z if len(z) == m else z[lo:lo + m]
            e = tile(X.mu, 2)
            for i in range(m):
                c = times(X.V[:, lo + i:lo + i + 1], X.d[lo + i].sqrt())
                e = e + mul(c, z[i:i + 1])
            same(r, e, 'truncated expansion')
        return f
    for n, lo, hi in ((2, 0, None), (2, 0, 0), (2, 1, None), (3, 1, 1),
                      (3, 0, 1), (3, 1, 2)):
        for own in (False, True):
            ctx.ob('expansion, modes %s-%s of %d%s' % (
                lo, hi, n, ', drawn' if own else ''), kl(n, lo, hi, own),
                w('KL_sample'))

    def trunc(n, level):
        def f():
            X = Field(ctx, 'eig', n)
            D = diag([X.d[i] if i < level else 0 for i in range(n)])
            d = [Sym.of(0)] * (n - level) + list(X.d[:level][::-1])
            V = X.V[:, ::-1]
            X.S.spectral(d, V)
            Y = X.m('truncate', level)
            K = nodal(X.W, Y, n)
            same(K, mul(X.V, D, X.V.T), 'truncated covariance')
            same(X.W.m(Y, 'mean'), X.mu, 'mean')
            k = asarr(X.W.m(Y, 'support')).shape
            want(k, (n, level), 'support')
        return f
    for n, level in ((2, 1), (3, 1), (3, 2)):
        ctx.ob('truncation of %d modes to %d' % (n, level), trunc(n, level),
               w('truncate'))


def nodal(W, X, n, kind='covariance'):
    """covariance (precision) of a field in nodal coordinates, from its root
    """
    V = W.m(X, 'support')
    C = W.m(X, kind)
    if C is None:
        raise Violation('no %s' % kind)
    k = n if V is None else asarr(V).shape[1]
    I = np.eye(k).astype(int).astype(object)
    R = obj(asarr(dense(W.m(C, 'sqrt_dot', I))))
    if V is not None:
        R = mul(asarr(V), R)
    return mul(R, R.T)


# ------------------------------------------------------------------- supports
def supports(ctx):
    def w(n):
        return ctx.where('gmrf', 'GaussianField.' + n)

    def given(kind, k):
        def f():
            X = Field(ctx, kind, 3)
            W = X.W
            # reduced matrix: diagonal in the eigenvectors kept
            V = X.V[:, :k]
            A = X.A.copy()
            arg = A if kind in ('array', 'precision') else W.new(
                'spd', 'EigenDecomposition', A)
            Y = W.new('gmrf', 'GaussianField', 3, mean=X.mu.copy(),
                      support=V.copy(), **{X.mode: arg})
            z = rhs(k, 2, 'z')
            r = W.m(Y, 'sample', z=z.copy(), mode=X.mode)
            # distribution: covariance of the linear map z -> sample
            S = np.empty((3, k), dtype=object)
            r = obj(asarr(r)) - tile(X.mu, 2)
            for i in range(3):
                for j in range(k):
                    S[i, j] = r[i, 0].diff(z[j, 0]) if hasattr(
                        z[j, 0], 'diff') else 0
            e = mul(V.T, X.A, V)
            e = e if X.mode == 'covariance' else inverse(e)
            same(mul(S, S.T), mul(V, e, V.T), 'covariance of the samples')
            same(mul(S, z), r, 'samples linear in z')
            b = rhs(3, 1)
            P = mul(V, V.T, b)
            same(W.m(Y, 'project', b.copy()), P, 'projection')
            same(W.m(Y, 'project', b.copy(), 'nullspace'), obj(b) - P,
                 'complement')
            same(W.m(Y, 'support'), V, 'support')
        return f
    def canonical_support(kind, k):
        def f():
            X = Field(ctx, kind, 3)
            V = X.V[:, :k]
            arg = X.A.copy() if kind == 'precision' else X.W.new(
                'spd', 'EigenDecomposition', X.A.copy())
            Y = X.W.new('gmrf', 'GaussianField', 3, mean=X.mu.copy(),
                        support=V.copy(), precision=arg)
            z = rhs(k, 2, 'z')
            one = X.W.m(Y, 'sample', z=z.copy(), mode='precision')
            two = X.W.m(Y, 'sample', z=z.copy(), mode='canonical')
            same(two, obj(asarr(one)), 'canonical and precision samples')
        return f
    for kind in ('precision', 'precision eig'):
        for k in (1, 2):
            ctx.ob('canonical samples stay on the support, %s, %d of 3' % (
                kind, k), canonical_support(kind, k), w('sample'))
    for kind in ('eig', 'array', 'precision', 'precision eig'):
        for k in (1, 2):
            ctx.ob('samples stay on the support, %s, %d of 3' % (kind, k),
                   given(kind, k), w('sample'))

    def refused():
        X = Field(ctx, 'eig', 2)
        for V, what in ((obj([[1], [1]]), 'not normalised'),
                        (obj([[1, c_], [0, d_]]), 'not orthogonal'),
                        (obj([[1], [0], [0]]), 'of the wrong size')):
            refuses(lambda V=V: X.m('set_support', V), 'support ' + what)
    ctx.ob('invalid supports refused', refused, w('set_support'))

    def update(mode, zero):
        def f():
            W, S = start(ctx)
            n = 3
            t = [Sym.of(0) if i < zero else v for i, v in enumerate(eigs(n))]
            A = S.spectral(t, ROT3)
            S.norms.append((A, Sym.var('nrm', True)))
            K = W.new('spd', 'EigenDecomposition', A.copy(), delta=0)
            X = W.new('gmrf', 'GaussianField', n, **{mode: K})
            W.m(X, 'update_support', mode)
            V = obj(asarr(W.m(X, 'support')))
            want(V.shape, (n, n - zero), 'support')
            # spans the range
            R = ROT3[:, zero:]
            same(mul(V, V.T), mul(R, R.T), 'projector onto the support')
            same(nodal(W, X, n, mode), A, 'matrix after the update')
        return f
    for mode in ('covariance', 'precision'):
        for zero in (0, 1, 2):
            ctx.ob('support of a %s with %d zero eigenvalues' % (mode, zero),
                   update(mode, zero), w('update_support'))

    def twice():
        W, S = start(ctx)
        t = eigs(3)
        A = S.spectral([Sym.of(0), t[1], t[2]], ROT3)
        S.norms.append((A, Sym.var('nrm', True)))
        V = ROT3[:, [0, 2]]
        X = W.new('gmrf', 'GaussianField', 3, covariance=A.copy(),
                  support=V.copy())
        W.m(X, 'update_support')
        U = obj(asarr(W.m(X, 'support')))
        want(U.shape, (3, 1), 'support')
        R = ROT3[:, 2:]
        same(mul(U, U.T), mul(R, R.T), 'projector onto the support')
        same(nodal(W, X, 3), times(mul(R, R.T), t[2]), 'covariance')
    ctx.ob('support restricted twice', twice, w('update_support'))


# --------------------------------------------------------------- conditioning
def conditions(ctx):
    wh = ctx.where('gmrf', 'GaussianField.condition')

    def tools(X, A):
        K = X.K
        KAT = mul(K, obj(A).T)
        return K, KAT, mul(obj(A), KAT)

    CON = {
        'row': lambda n: obj([[3, 4] if n == 2 else [3, 4, 0]]),
        'general': lambda n: symarr('A', 1, n),
        'two rows': lambda n: symarr('A', 2, n),
        'points': lambda n: np.array([n - 1]),
        'two points': lambda n: np.array([2, 0]),
    }

    def matrix(A, n):
        if np.ndim(A) == 1:
            M = obj(np.zeros((len(A), n), int))
            for i, j in enumerate(A):
                M[i, int(j)] = Sym.of(1)
            return M
        return obj(A)

    def hard(kind, n, con, k, sparse=False):
        def f():
            X = Field(ctx, kind, n)
            A = CON[con](n)
            M = matrix(A, n)
            e = symarr('e', len(M), 1)
            K, KAT, AKAT = tools(X, M)
            z = rhs(n, k, 'z')
            arg = SpMat(M.copy(), 'csr') if sparse else A.copy()
            r = X.m('condition', arg, e.copy(), z=z.copy(), mode=X.mode)
            Xs = obj(X.correlated(z)) + tile(X.mu, k)
            res = mul(M, Xs) - tile(e, k)
            same(r, Xs - mul(KAT, inverse(AKAT), res),
                 'conditioned sample')
            same(X.m('mean'), X.mu, 'mean of the original field')
        return f
    for kind in KINDS:
        for n, con, k in ((2, 'general', 1), (2, 'points', 2),
                          (2, 'row', 2)):
            ctx.ob('sample conditioned on %s, %s' % (con, kind),
                   hard(kind, n, con, k), wh)
    for kind in ('eig', 'precision eig'):
        ctx.ob('sample conditioned on two points, %s' % kind,
               hard(kind, 3, 'two points', 1), wh)
        ctx.ob('sample conditioned on a sparse matrix, %s' % kind,
               hard(kind, 2, 'row', 2, True), wh)

    def field(kind, n, con):
        def f():
            X = Field(ctx, kind, n)
            if con == 'mode':
                A = X.V[:, :1].T.copy()
            else:
                A = CON[con](n)
            M = matrix(A, n)
            e = symarr('e', len(M), 1)
            K, KAT, AKAT = tools(X, M)
            Kc = K - mul(KAT, inverse(AKAT), KAT.T)
            # its eigenvectors are known when one direction is left
            if n == 2:
                u = [-M[0, 1], M[0, 0]]
                q = (Sym.of(u[0]) ** 2 + Sym.of(u[1]) ** 2)
                r = q.sqrt()
                U = obj([[M[0, 0] / r, u[0] / r], [M[0, 1] / r, u[1] / r]])
                lam = Kc[0, 0] + Kc[1, 1]
                X.S.spectral([Sym.of(0), lam], U)
            elif con == 'mode':
                dd = X.d if X.mode == 'covariance' else [1 / x for x in X.d]
                X.S.spectral([Sym.of(0), dd[1], dd[2]], X.V)
            else:
                U = obj([[1, 0, 0], [0, 0, 1], [0, 1, 0]])
                X.S.spectral([Sym.of(0), Sym.of(0), Kc[1, 1]], U)
            Y = X.m('condition', A.copy(), e.copy(), output='field',
                    mode=X.mode)
            same(X.W.m(Y, 'mean'), X.mu - mul(
                KAT, inverse(AKAT), mul(M, X.mu) - e), 'conditional mean')
            same(nodal(X.W, Y, n), Kc, 'conditional covariance')
            V = obj(asarr(X.W.m(Y, 'support')))
            want(V.shape[1], n - len(M), 'dimension of the support')
            same(mul(M, V), np.zeros((len(M), V.shape[1])),
                 'constraint on the support')
            same(X.m('mean'), X.mu, 'mean of the original field')
        return f
    for kind in ('eig', 'array', 'chol', 'precision', 'precision eig'):
        for n, con in ((2, 'row'), (2, 'points'), (3, 'two points'),
                       (3, 'mode')):
            if con == 'mode' and kind not in ('eig', 'precision eig'):
                continue
            ctx.ob('field conditioned on %s, %s, size %d' % (con, kind, n),
                   field(kind, n, con), wh)

    def massed(out):
        def f():
            """covariance with a mass matrix: V diag(d) V^T with V^T M V = I
            """
            W, S = start(ctx)
            B = obj([[2, 1], [0, 3]])
            V = mul(B, ROT2)
            Bi = inverse(B)
            M = mul(Bi.T, Bi)
            t = eigs(2)
            C = S.spectral(t, V, M)
            S.norms.append((C, Sym.var('nrm', True)))
            K = mul(V, diag(t), V.T)
            X = W.new('gmrf', 'GaussianField', 2, mean=symarr('mu', 2, 1),
                      covariance=W.new('spd', 'EigenDecomposition', C, M))
            A = obj([[3, 4]])
            e = symarr('e', 1, 1)
            KAT = mul(K, A.T)
            AKAT = mul(A, KAT)
            Kc = K - mul(KAT, inverse(AKAT), KAT.T)
            U = obj([[c_, -d_], [d_, c_]])
            S.spectral([Sym.of(0), Kc[0, 0] + Kc[1, 1]], U)
            if out == 'field':
                Y = W.m(X, 'condition', A, e, output='field')
                same(nodal(W, Y, 2), Kc, 'conditional covariance')
            else:
                z = rhs(2, 2, 'z')
                Xs = mul(V[:, ::-1], diag([t[1].sqrt(), t[0].sqrt()]), z) + \
                    tile(symarr('mu', 2, 1), 2)
                r = W.m(X, 'condition', A, e, z=z)
                same(r, Xs - mul(KAT, inverse(AKAT), mul(A, Xs) -
                                 tile(e, 2)), 'conditioned sample')
        return f
    for out in ('field', 'sample'):
        ctx.ob('covariance with mass matrix conditioned: %s' % out,
               massed(out), wh)

    def onsupport(out):
        def f():
            W, S = start(ctx)
            n, k = 3, 2
            t = eigs(3)
            A0 = S.spectral(t, ROT3)
            S.norms.append((A0, Sym.var('nrm', True)))
            V = ROT3[:, 1:]
            mu = symarr('mu', 3, 1)
            X = W.new('gmrf', 'GaussianField', 3, mean=mu.copy(),
                      covariance=A0.copy(), support=V.copy())
            # constrain the last mode and a direction outside the support
            A = obj(3 * ROT3[:, 2:].T + 5 * ROT3[:, :1].T)
            e = symarr('e', 1, 1)
            K = mul(V, diag(t[1:]), V.T)
            KAT = mul(K, A.T)
            AKAT = mul(A, KAT)
            Kc = K - mul(KAT, inverse(AKAT), KAT.T)
            S.spectral([Sym.of(0), Sym.of(0), t[1]],
                       ROT3[:, [0, 2, 1]])
            if out == 'field':
                Y = W.m(X, 'condition', A, e, output='field')
                same(W.m(Y, 'mean'), mu - mul(KAT, inverse(AKAT), mul(A, mu)
                                              - e), 'conditional mean')
                same(nodal(W, Y, 3), Kc, 'conditional covariance')
            else:
                z = rhs(2, 1, 'z')
                r = obj(asarr(W.m(X, 'condition', A, e, z=z)))
                Xs = obj(asarr(W.m(X, 'sample', z=z)))
                same(r, Xs - mul(KAT, inverse(AKAT), mul(A, Xs) - e),
                     'conditioned sample')
                same(mul(A, r), e, 'constraint')
        return f
    for out in ('field', 'sample'):
        ctx.ob('field with support conditioned: %s' % out, onsupport(out),
               wh)

    # noisy data
    def noisy(kind, con, out, scalar):
        def f():
            n = 2
            X = Field(ctx, kind, n)
            A = CON[con](n)
            M = matrix(A, n)
            e = symarr('e', len(M), 1)
            K, KAT, AKAT = tools(X, M)
            nu = Sym.var('noise', True)
            Ko = diag([nu] * len(M))
            z = rhs(n, 2, 'z')
            w2 = symarr('w', len(M), 2)
            X.S.norms.append((Ko, Sym.var('nrm', True)))
            X.W.it.overrides['numpy.random.normal'] = Native(
                'normal', lambda it, a, k: w2.copy())
            Kc = K - mul(KAT, inverse(Ko + AKAT), KAT.T)
            if out == 'field' and X.mode == 'covariance':
                # make its decomposition known through its matrix
                X.S.norms.append((Kc, Sym.var('nrm', True)))
                decomposed = []
                spect = X.W.it.overrides['scipy.linalg.eigh']

                def eigh(it, a, k):
                    decomposed.append(a[0])
                    return (eigs(n, 'u'), symarr('v', n, n))
                X.W.it.overrides['scipy.linalg.eigh'] = Native('eigh', eigh)
            ko = nu if scalar else Ko.copy()
            if out == 'sample':
                r = X.m('condition', A.copy(), e.copy(), Ko=ko, z=z.copy(),
                        mode=X.mode)
                Xs = obj(X.correlated(z)) + tile(X.mu, 2)
                # observations perturbed by noise of covariance Ko
                eo = tile(e, 2) + times(w2, nu.sqrt())
                same(r, Xs - mul(KAT, inverse(Ko + AKAT), mul(M, Xs) - eo),
                     'sample conditioned on noisy data')
                return
            Y = X.m('condition', A.copy(), e.copy(), Ko=ko, output='field',
                    mode=X.mode)
            same(X.W.m(Y, 'mean'), X.mu - mul(
                KAT, inverse(Ko + AKAT), mul(M, X.mu) - e),
                'conditional mean')
            c = X.W.m(Y, 'covariance')
            if c is not None:
                same(X.W.m(c, 'get_matrix'), Kc, 'conditional covariance')
            else:
                q = X.W.m(Y, 'precision')
                if q is None:
                    raise Violation('conditioned field without covariance '
                                    'and precision')
                same(X.W.m(q, 'get_matrix'), X.A + mul(
                    M.T, inverse(Ko), M), 'conditional precision')
        return f
    for kind in ('eig', 'chol', 'precision', 'precision eig',
                 'sparse precision'):
        for con in ('row', 'points'):
            for out in ('sample', 'field'):
                for scalar in (False, True):
                    if scalar and con == 'row':
                        continue
                    ctx.ob('%s conditioned on noisy %s, %s%s' % (
                        out, con, kind, ', scalar variance' if scalar
                        else ''), noisy(kind, con, out, scalar), wh)

    def sparse_noisy(kind, out):
        def f():
            X = Field(ctx, kind, 2)
            M = matrix(CON['row'](2), 2)
            e = symarr('e', 1, 1)
            K, KAT, AKAT = tools(X, M)
            nu = Sym.var('noise', True)
            Ko = obj([[nu]])
            X.S.norms.append((Ko, Sym.var('nrm', True)))
            X.W.it.overrides['numpy.random.normal'] = Native(
                'normal', lambda it, a, k: symarr('w', 1, 2))
            z = rhs(2, 2, 'z')
            kw = {'z': z.copy()} if out == 'sample' else {'output': 'field'}
            if out == 'field':
                Kc = K - mul(KAT, inverse(Ko + AKAT), KAT.T)
                X.S.norms.append((Kc, Sym.var('nrm', True)))
                X.W.it.overrides['scipy.linalg.eigh'] = Native(
                    'eigh', lambda it, a, k: (eigs(2, 'u'),
                                              symarr('v', 2, 2)))
            r = X.m('condition', SpMat(M.copy(), 'csr'), e.copy(), Ko=nu,
                    mode=X.mode, **kw)
            if out == 'sample':
                Xs = obj(X.correlated(z)) + tile(X.mu, 2)
                eo = tile(e, 2) + times(symarr('w', 1, 2), nu.sqrt())
                same(r, Xs - mul(KAT, inverse(Ko + AKAT), mul(M, Xs) - eo),
                     'sample conditioned on noisy data')
            else:
                same(X.W.m(r, 'mean'), X.mu - mul(
                    KAT, inverse(Ko + AKAT), mul(M, X.mu) - e),
                    'conditional mean')
        return f
    for kind in ('eig', 'precision eig'):
        for out in ('sample', 'field'):
            ctx.ob('%s conditioned on a noisy sparse row, %s' % (out, kind),
                   sparse_noisy(kind, out), wh)

    def noisy_support(mode, out):
        # a field confined to a subspace stays there after conditioning
        def f():
            W, S = start(ctx)
            t = eigs(3)
            A0 = S.spectral(t, ROT3)
            V = ROT3[:, 1:]
            mu = symarr('mu', 3, 1)
            nu = Sym.var('noise', True)
            K = mul(V, diag([t[1], t[2]] if mode == 'covariance' else
                            [1 / t[1], 1 / t[2]]), V.T)
            A = obj(3 * ROT3[:, 2:].T + 5 * ROT3[:, :1].T +
                    2 * ROT3[:, 1:2].T)
            e = symarr('e', 1, 1)
            KAT = mul(K, A.T)
            H = mul(A, KAT) + obj([[nu]])
            W.it.overrides['numpy.random.normal'] = Native(
                'normal', lambda it, a, k: symarr('w', 1, 2))
            X = W.new('gmrf', 'GaussianField', 3, mean=mu.copy(),
                      support=V.copy(), **{mode: A0.copy()})
            if out == 'sample':
                z = rhs(2, 2, 'z')
                Xs = obj(asarr(W.m(X, 'sample', z=z.copy(), mode=mode)))
                r = W.m(X, 'condition', A.copy(), e.copy(), Ko=nu,
                        z=z.copy(), mode=mode)
                eo = tile(e, 2) + times(symarr('w', 1, 2), nu.sqrt())
                same(r, Xs - mul(KAT, inverse(H), mul(A, Xs) - eo),
                     'sample conditioned on noisy data')
                return
            Kc = K - mul(KAT, inverse(H), KAT.T)
            if mode == 'covariance':
                S.norms.append((mul(V.T, Kc, V), Sym.var('nrm', True)))
            else:
                Q = mul(V, diag(t[1:]), V.T) + times(mul(mul(mul(
                    V, V.T), A.T), mul(mul(A, V), V.T)), 1 / nu)
                S.norms.append((mul(V.T, Q, V), Sym.var('nrm', True)))
            Y = W.m(X, 'condition', A.copy(), e.copy(), Ko=nu,
                    output='field', mode=mode)
            same(W.m(Y, 'mean'), mu - mul(KAT, inverse(H), mul(A, mu) - e),
                 'conditional mean')
            U = W.m(Y, 'support')
            c = W.m(Y, mode)
            if c is None:
                raise Violation('conditioned field without ' + mode)
            C = obj(asarr(dense(W.m(c, 'get_matrix'))))
            if U is None:
                if len(C) != 3:
                    raise Violation('field of size 3 with a %s of size %d '
                                    'and no support' % (mode, len(C)))
                P = C
            else:
                P = mul(asarr(U), C if mode == 'covariance' else inverse(C),
                        asarr(U).T)
            same(P, Kc, 'conditional covariance')
        return f
    for mode in ('covariance', 'precision'):
        for out in ('sample', 'field'):
            ctx.ob('field with support and noisy data, %s: %s' % (mode, out),
                   noisy_support(mode, out), wh)

    def unknown_output(Ko):
        def f():
            X = Field(ctx, 'eig', 2)
            refuses(lambda: X.m('condition', np.array([0]), rhs(1, 1),
                                Ko=Ko, output='other'), 'unknown output')
            refuses(lambda: X.m('condition', np.array([0]), rhs(1, 1),
                                Ko=Ko, mode='precision'),
                    'conditioning without precision')
        return f
    ctx.ob('conditioning refuses unknown output', unknown_output(0), wh)
    ctx.ob('noisy conditioning refuses unknown output',
           unknown_output(obj([[Sym.var('nu', True)]])), wh)
