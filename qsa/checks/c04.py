"""C04 physical derivatives of shape functions obey the chain rule."""
import numpy as np
from ..frame import want, Violation, Undecided
from ..build import World, Sym, tolist
from .. import sym as symmod
from .c02 import ELEMENTS, degree


def run(ctx):
    ctx.technique = ('abstract interpretation of the reference map and of the '
                     'shape evaluation over cells with symbolic geometry; '
                     'chain-rule identities in rational normal form')
    ctx.explanation = (
        'The Jacobians/Hessians computed by the cell are fed to the shape '
        'evaluation at a symbolic point; the returned first (second) '
        'physical derivatives are required to satisfy the chain rule against '
        'the forward map and the reference polynomials, for every element '
        'family on intervals, rectangles (any starting side), '
        'parallelograms and distorted quadrilaterals.')
    ctx.assumptions = ['non-degenerate cells']
    W = World(ctx)
    r, s = Sym.var('r', True), Sym.var('s', True)
    r2, s2 = Sym.var('r2', True), Sym.var('s2', True)
    symmod.FACTS[:] = [1 - r, 1 - s, 1 - r2, 1 - s2]
    ws = ctx.where('fem', 'QuadFE.shape')
    a, b = Sym.var('a'), Sym.var('b')
    h, k = Sym.var('h', True), Sym.var('k', True)

    def rect():
        return [(a, b), (a + h, b), (a + h, b + k), (a, b + k)]

    def turned(i):
        def f():
            P = rect()
            return P[i:] + P[:i]
        return f

    def par():
        e0, e1 = Sym.var('e0', True), Sym.var('e1', True)
        return [(a, b), (a + e0, b + e1), (a + e0 - h, b + e1 + k),
                (a - h, b + k)]

    def dist(i, c):
        def f():
            P = [[0.25, -0.5], [2.0, 0.5], [2.5, 3.0], [-0.75, 1.5]]
            if i is not None:
                P[i][c] = Sym.var('z')
            return [tuple(p) for p in P]
        return f

    cells = [('rectangle', rect)] + \
        [('rectangle starting at side %d' % i, turned(i)) for i in (1, 2, 3)]
    cells += [('parallelogram', par), ('distorted quadrilateral',
                                       dist(None, 0)),
              ('distorted quadrilateral z', dist(2, 0)),
              ('distorted quadrilateral w', dist(0, 1))]

    def local(E, n, X):
        P1 = W.arr([list(X)])
        return [Sym.of(np.array(W.m(E, 'phi', i, P1),
                                dtype=object).ravel()[0]) for i in range(n)]

    def case1d(etype, xs):
        def f():
            E = W.new('fem', 'QuadFE', 1, etype)
            n = degree(etype) + 1
            I = W.interval(a, a + h)
            pts = W.arr([[x] for x in xs])
            _, mg = W.m(I, 'reference_map', pts, jac_p2r=True, hess_p2r=True)
            p = local(E, n, (r,))
            v, d, d2 = W.m(E, 'shape', pts, cell=I,
                           derivatives=[(0,), (1, 0), (2, 0, 0)],
                           jac_p2r=mg['jac_p2r'], hess_p2r=mg['hess_p2r'])
            for i, x in enumerate(xs):
                q = [c.subs({r: x}) for c in p]
                dq = [c.diff(r).subs({r: x}) for c in p]
                ddq = [c.diff(r).diff(r).subs({r: x}) for c in p]
                want(tolist(v)[i], q, 'values')
                want(tolist(d)[i], [c / h for c in dq], 'first derivatives')
                want(tolist(d2)[i], [c / h / h for c in ddq],
                     'second derivatives')
        return f

    def case2d(etype, verts, xs, loc=None):
        def f():
            E = W.new('fem', 'QuadFE', 2, etype)
            n = (degree(etype) + 1) ** 2
            P = verts()
            C = W.quad(P)
            pts = W.arr([list(x) for x in xs])
            _, mg = W.m(C, 'reference_map', pts, jac_p2r=True, jac_r2p=True,
                        hess_p2r=True)
            p = local(E, n, (r, s))
            sel = loc or list(range(n))
            ders = [(0,), (1, 0), (1, 1), (2, 0, 0), (2, 0, 1), (2, 1, 0),
                    (2, 1, 1)]
            kw = {} if loc is None else {'local_dofs': loc}
            out = W.m(E, 'shape', pts, cell=C, derivatives=ders,
                      jac_p2r=mg['jac_p2r'], hess_p2r=mg['hess_p2r'], **kw)
            out = dict(zip(ders, [tolist(o) for o in out]))
            one = W.m(E, 'shape', pts, cell=C, derivatives=(1, 1),
                      jac_p2r=mg['jac_p2r'], **kw)
            want(tolist(one), out[(1, 1)], 'single request')
            # forward Jacobian from the vertices (independent of the code)
            for i, x in enumerate(xs):
                u, t = x
                dS = [-(1 - t), (1 - t), t, -t]
                dT = [-(1 - u), -u, u, (1 - u)]
                J = [[sum((Sym.of(P[q][c]) * D[q] for q in range(4)),
                          Sym.of(0)) for D in (dS, dT)] for c in range(2)]
                sb = {r: u, s: t}
                for kk, dof in enumerate(sel):
                    want(out[(0,)][i][kk], p[dof].subs(sb), 'value')
                    g = [out[(1, 0)][i][kk], out[(1, 1)][i][kk]]
                    for l, R in enumerate((r, s)):
                        want(Sym.of(g[0]) * J[0][l] + Sym.of(g[1]) * J[1][l],
                             p[dof].diff(R).subs(sb),
                             'J^T grad(dof %d), component %d' % (dof, l))
                    want(out[(2, 0, 1)][i][kk], out[(2, 1, 0)][i][kk],
                         'mixed derivatives')
                    for c in range(2):
                        for l, R in enumerate(x):
                            lhs = Sym.of(g[c]).diff(R)
                            rhs = Sym.of(out[(2, c, 0)][i][kk]) * J[0][l] + \
                                Sym.of(out[(2, c, 1)][i][kk]) * J[1][l]
                            want(rhs, lhs, 'second derivative (%d, .) of dof '
                                 '%d along reference direction %d' % (
                                     c, dof, l))
        return f

    for etype, dim in ELEMENTS:
        if dim == 1:
            ctx.ob('%s on interval, one point' % etype, case1d(etype, [r]),
                   ws)
            ctx.ob('%s on interval, two points' % etype,
                   case1d(etype, [r, r2]), ws)
            continue
        for tag, verts in cells:
            heavy = 'dist' in tag and degree(etype) >= 2
            xs = [(r, s), (r2, s2)]
            n = (degree(etype) + 1) ** 2
            loc = None
            if heavy:
                loc = [0, n - 1] if ctx.tier != 'thorough' else None
            ctx.ob('%s on %s' % (etype, tag), case2d(etype, verts, xs, loc),
                   ws)
