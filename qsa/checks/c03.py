"""C03 reference maps, Jacobians and Hessians are mutually consistent."""
from fractions import Fraction
import numpy as np
from ..frame import want, Violation, Undecided
from ..build import World, Sym, tolist


def run(ctx):
    ctx.technique = ('abstract interpretation of the reference maps over cells '
                     'with symbolic vertices and symbolic points; equality of '
                     'rational normal forms')
    ctx.explanation = (
        'The maps of the interval, edge and quadrilateral classes are '
        'interpreted at symbolic points of cells with symbolic vertices. '
        'Obligations: corner interpolation, linearity/bilinearity, the '
        'reported first and second derivatives are the derivatives of the '
        'map the code itself computes, forward and backward Jacobians are '
        'inverse, reference-to-physical followed by physical-to-reference is '
        'the identity (exactly: intervals, edges, axis-aligned rectangles, '
        'parallelograms and vertical-sided trapezoids).')
    ctx.assumptions = [
        'non-degenerate cells (positive size, non-vanishing Jacobian)',
        'exact arithmetic; the convergence of the iterative inverse on '
        'strongly distorted quadrilaterals is not decided']
    W = World(ctx)
    r, s = Sym.var('r'), Sym.var('s')
    r2, s2 = Sym.var('r2'), Sym.var('s2')

    def unit(name):
        u = Sym.var(name, True)
        return u / (1 + u)

    def pts(v):
        """rows of coordinates"""
        v = tolist(v)
        return [list(p) if isinstance(p, (list, tuple)) else [p] for p in v]

    def mats(v, n, what):
        v = [tolist(m) for m in v]
        if len(v) != n:
            raise Violation('%s: %d entries for %d points' % (what, len(v), n))
        return v

    # ------------------------------------------------------------ interval
    wi = ctx.where('mesh', 'Interval.reference_map')
    a, h = Sym.var('a'), Sym.var('h', True)

    def interval_case(xs, mk, tag):
        def f():
            I = W.interval(a, a + h)
            n = len(xs)
            xt, mg = W.m(I, 'reference_map', mk(xs), jac_r2p=True,
                         jac_p2r=True, hess_r2p=True, hess_p2r=True)
            want(pts(xt), [[a + h * x] for x in xs], 'map')
            want(list(mg['jac_r2p']), [h] * n, 'jac_r2p')
            want(list(mg['jac_p2r']), [1 / h] * n, 'jac_p2r')
            want([Sym.of(v) for v in mg['hess_r2p']], [0] * n, 'hess_r2p')
            want([Sym.of(v) for v in mg['hess_p2r']], [0] * n, 'hess_p2r')
            want(pts(W.m(I, 'reference_map', mk(xs))),
                 [[a + h * x] for x in xs], 'map alone')
            back, mg = W.m(I, 'reference_map', xt, mapsto='reference',
                           jac_r2p=True, jac_p2r=True, hess_p2r=True)
            want(pts(back), [[Sym.of(x)] for x in xs], 'inverse of map')
            want(list(mg['jac_p2r']), [1 / h] * n, 'jac_p2r (inverse)')
            want(list(mg['jac_r2p']), [h] * n, 'jac_r2p (inverse)')
            want([Sym.of(v) for v in mg['hess_p2r']], [0] * n,
                 'hess_p2r (inverse)')
        return f
    vec = lambda xs: W.arr(list(xs))
    col = lambda xs: W.arr([[x] for x in xs])
    for xs, t in (([r], 'one point'), ([r, s], 'two points'),
                  ([r, s, r2], 'three points')):
        ctx.ob('interval, vector of %s' % t, interval_case(xs, vec, t), wi)
        ctx.ob('interval, column of %s' % t, interval_case(xs, col, t), wi)

    # --------------------------------------------------------- half edge
    wh = ctx.where('mesh', 'HalfEdge.reference_map')
    x0, y0, x1, y1 = [Sym.var(n) for n in ('x0', 'y0', 'x1', 'y1')]

    def edge_case(p, q, xs, inverse=True):
        def f():
            e = W.halfedge(p, q)
            d = [Sym.of(q[i]) - Sym.of(p[i]) for i in (0, 1)]
            xt, mg = W.m(e, 'reference_map', W.arr(list(xs)), jac_r2p=True)
            exact = [[p[i] + d[i] * x for i in (0, 1)] for x in xs]
            want(pts(xt), exact, 'map')
            jj = mats(mg['jac_r2p'], len(xs), 'jac_r2p')
            want(jj, [[[d[0]], [d[1]]]] * len(xs), 'jac_r2p')
            if inverse:
                back = W.m(e, 'reference_map', W.arr(exact),
                           mapsto='reference')
                want(pts(back), [[Sym.of(x)] for x in xs], 'inverse of map')
            # derivative of the position along the edge
            xt, mg = W.m(e, 'reference_map', W.arr(list(xs)), jac_r2p=True,
                         jac_p2r=True)
            l2 = d[0] * d[0] + d[1] * d[1]
            jj = mats(mg['jac_p2r'], len(xs), 'jac_p2r')
            want(jj, [[[d[0] / l2, d[1] / l2]]] * len(xs), 'jac_p2r')
        return f
    u, v = unit('u'), unit('v')
    k = Sym.var('k', True)
    for tag, p, q in (('general', (x0, y0), (x1, y1)),
                      ('horizontal', (x0, y0), (x0 + h, y0)),
                      ('vertical', (x0, y0), (x0, y0 + h)),
                      ('downward', (x0, y0), (x0, y0 - h)),
                      ('leftward', (x0, y0), (x0 - h, y0)),
                      ('rising', (x0, y0), (x0 + h, y0 + k)),
                      ('falling', (x0, y0), (x0 + h, y0 - k))):
        ctx.ob('edge %s, one point' % tag, edge_case(p, q, [u]), wh)
        ctx.ob('edge %s, two points' % tag, edge_case(p, q, [u, v]), wh)

    # ------------------------------------------------------ quadrilateral
    wq = ctx.where('mesh', 'QuadCell.reference_map')

    def bil(P, s, t):
        N = [(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t]
        return [sum((P[i][c] * N[i] for i in range(4)), Sym.of(0))
                for c in range(2)]

    def corners(make):
        def f():
            q, P = make()
            ref = [(0., 0.), (1., 0.), (1., 1.), (0., 1.)]
            xt = W.m(q, 'reference_map', W.arr([list(c) for c in ref]))
            want(pts(xt), [list(p) for p in P], 'corners')
            for c, p in zip(ref, P):
                xt = W.m(q, 'reference_map', W.arr([list(c)]))
                want(pts(xt), [list(p)], 'corner')
        return f

    def forward(make, points, second=True):
        def f():
            q, P = make()
            n = len(points)
            xt, mg = W.m(q, 'reference_map', W.arr([list(p) for p in points]),
                         jac_r2p=True, jac_p2r=True, hess_r2p=True,
                         hess_p2r=second)
            xt = pts(xt)
            want(xt, [bil(P, *p) for p in points], 'map')
            J = mats(mg['jac_r2p'], n, 'jac_r2p')
            K = mats(mg['jac_p2r'], n, 'jac_p2r')
            H = mats(mg['hess_r2p'], n, 'hess_r2p')
            G = mats(mg['hess_p2r'], n, 'hess_p2r') if second else None
            for i, p in enumerate(points):
                for c in range(2):
                    for d in range(2):
                        want(J[i][c][d], Sym.of(xt[i][c]).diff(p[d]),
                             'jac_r2p[%d][%d,%d] = d x_%d / d r_%d' % (
                                 i, c, d, c, d))
                        for e in range(2):
                            want(H[i][d][e][c],
                                 Sym.of(xt[i][c]).diff(p[d]).diff(p[e]),
                                 'hess_r2p[%d][%d,%d,%d]' % (i, d, e, c))
                        pr = Sym.of(K[i][c][0]) * J[i][0][d] + \
                            Sym.of(K[i][c][1]) * J[i][1][d]
                        want(pr, 1 if c == d else 0,
                             'jac_p2r * jac_r2p [%d,%d]' % (c, d))
                for kk in range(2 if second else 0):
                    for c in range(2):
                        for d in range(2):
                            ex = Sym.of(0)
                            for l in range(2):
                                ex = ex + Sym.of(K[i][kk][c]).diff(p[l]) * \
                                    K[i][l][d]
                            want(G[i][c][d][kk], ex,
                                 'hess_p2r[%d][%d,%d,%d] = d2 r_%d/dx_%d dx_%d'
                                 % (i, c, d, kk, kk, c, d))
        return f

    def alone(make, points):
        def f():
            q, P = make()
            xt = W.m(q, 'reference_map', W.arr([list(p) for p in points]))
            want(pts(xt), [bil(P, *p) for p in points], 'map')
            for key in ('jac_r2p', 'jac_p2r', 'hess_r2p', 'hess_p2r'):
                kw = {key: True}
                if key == 'hess_p2r':
                    kw['jac_p2r'] = True
                xt, mg = W.m(q, 'reference_map',
                             W.arr([list(p) for p in points]), **kw)
                want(pts(xt), [bil(P, *p) for p in points], 'map')
                if key not in mg:
                    raise Violation('%s requested but not returned' % key)
        return f

    g, rc = W.gquad, W.rect
    A = [Sym.var(n) for n in ('a', 'b', 'e', 'f')]

    def parallelogram():
        a, b = Sym.var('a'), Sym.var('b')
        e = [(Sym.var('e0', True), Sym.var('e1', True)),
             (-Sym.var('f0', True), Sym.var('f1', True))]
        P = [(a, b), (a + e[0][0], b + e[0][1]),
             (a + e[0][0] + e[1][0], b + e[0][1] + e[1][1]),
             (a + e[1][0], b + e[1][1])]
        return W.quad(P), P

    def trapezoid():
        a, h = Sym.var('a'), Sym.var('h', True)
        b = Sym.var('b')
        k, l = Sym.var('k', True), Sym.var('l', True)
        m = Sym.var('m', True)
        P = [(a, b), (a + h, b + m), (a + h, b + m + k), (a, b + l)]
        return W.quad(P), P

    def trapezoid_h():
        a, h = Sym.var('a'), Sym.var('h', True)
        b = Sym.var('b')
        k, l = Sym.var('k', True), Sym.var('l', True)
        m = Sym.var('m', True)
        P = [(a, b), (a + k, b), (a + m + l, b + h), (a + m, b + h)]
        return W.quad(P), P

    def rect_rot():
        """axis-aligned rectangle whose first edge runs upwards"""
        a, b = Sym.var('a'), Sym.var('b')
        h, k = Sym.var('h', True), Sym.var('k', True)
        P = [(a + h, b), (a + h, b + k), (a, b + k), (a, b)]
        return W.quad(P), P

    def rect_rot2():
        a, b = Sym.var('a'), Sym.var('b')
        h, k = Sym.var('h', True), Sym.var('k', True)
        P = [(a + h, b + k), (a, b + k), (a, b), (a + h, b)]
        return W.quad(P), P
    # whole numbers, in arrays of integers
    def whole(entity, back):
        def f():
            if entity == 'interval':
                e = W.interval(2, 6)
                ref = np.array([[0], [1]])
                phys = np.array([[3], [4], [6]])
                ex, rx = [[2], [6]], [[.25], [.5], [1]]
            elif entity == 'edge':
                e = W.halfedge((1, 1), (9, 5))
                ref = np.array([0, 1])
                phys = np.array([[3, 2], [5, 3], [1, 1]])
                ex = [[1, 1], [9, 5]]
                rx = [[.25], [.5], [0]]
            else:
                e = W.quad([(1, 1), (5, 1), (5, 3), (1, 3)])
                ref = np.array([[0, 0], [1, 0], [1, 1], [0, 1]])
                phys = np.array([[2, 2], [4, 3], [5, 1]])
                ex = [[1, 1], [5, 1], [5, 3], [1, 3]]
                rx = [[.25, .5], [.75, 1], [1, 0]]
            if back:
                got = W.m(e, 'reference_map', phys, mapsto='reference')
                want(pts(got), rx, 'inverse of map')
            else:
                want(pts(W.m(e, 'reference_map', ref)), ex, 'map')
        return f
    for entity, we in (('interval', wi), ('edge', wh), ('rectangle', wq)):
        for back in (False, True):
            ctx.ob('%s of whole numbers on an %s' % (
                'inverse' if back else 'image', entity),
                whole(entity, back), we)

    shapes = [('general quadrilateral', g), ('rectangle', rc),
              ('parallelogram', parallelogram), ('trapezoid', trapezoid),
              ('rectangle starting at its right side', rect_rot),
              ('rectangle starting at its top', rect_rot2)]
    def free(i, c):
        """fixed distorted quadrilateral, coordinate c of vertex i symbolic"""
        def make():
            P = [[0.25, -0.5], [2.0, 0.5], [2.5, 3.0], [-0.75, 1.5]]
            P[i][c] = Sym.var('z')
            P = [tuple(p) for p in P]
            return W.quad(P), [tuple(Sym.of(t) for t in p) for p in P]
        return make

    for tag, mk in shapes:
        full = mk is not g
        ctx.ob('corners of %s' % tag, corners(mk), wq)
        ctx.ob('%s, one point' % tag, forward(mk, [(r, s)], full), wq)
        ctx.ob('%s, two points' % tag,
               forward(mk, [(r, s), (r2, s2)], full), wq)
        if full:
            ctx.ob('%s, separate requests' % tag,
                   alone(mk, [(r, s), (r2, s2)]), wq)
    for i in range(4):
        for c in range(2):
            ctx.ob('distorted quadrilateral, free coordinate %d.%d' % (i, c),
                   forward(free(i, c), [(r, s), (r2, s2)]), wq)
    ctx.ob('distorted quadrilateral, separate requests',
           alone(free(0, 0), [(r, s), (r2, s2)]), wq)

    def inverse(make, n):
        def f():
            q, P = make()
            rs = [(unit('u%d' % i), unit('v%d' % i)) for i in range(n)]
            x = [bil(P, *p) for p in rs]
            back, mg = W.m(q, 'reference_map', W.arr(x), mapsto='reference',
                           jac_r2p=True, jac_p2r=True, hess_p2r=True)
            want(pts(back), [list(p) for p in rs], 'inverse of map')
            rr = [(Sym.var('R%d' % i), Sym.var('S%d' % i)) for i in range(n)]
            fw, mf = W.m(q, 'reference_map', W.arr([list(p) for p in rr]),
                         jac_r2p=True, jac_p2r=True, hess_p2r=True)
            for key in ('jac_r2p', 'jac_p2r', 'hess_p2r'):
                for i in range(n):
                    A = np.array(mg[key][i], dtype=object).ravel()
                    B = np.array(mf[key][i], dtype=object).ravel()
                    B = [Sym.of(b).subs({rr[i][0]: rs[i][0],
                                         rr[i][1]: rs[i][1]}) for b in B]
                    want(list(A), B, '%s at the mapped point' % key)
        return f
    for tag, mk in (('rectangle', rc), ('parallelogram', parallelogram),
                    ('trapezoid', trapezoid),
                    ('rectangle starting at its right side', rect_rot),
                    ('rectangle starting at its top', rect_rot2)):
        for n in (1, 2):
            ctx.ob('inverse on %s, %d point(s)' % (tag, n), inverse(mk, n),
                   wq)
