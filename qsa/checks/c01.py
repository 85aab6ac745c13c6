"""C01 quadrature: exactness of the tabulated rules and their mapping."""
import math
import numpy as np
from ..frame import want, Violation, Undecided, cmp_val, alts
from ..build import World, Sym, tolist
from ..absint import AbsRaise, Top, Alt

INTERVAL = {1: 1, 2: 3, 3: 5, 4: 7, 5: 9, 6: 11}
QUAD = {n * n: INTERVAL[n] for n in INTERVAL}
TRIANGLE = {1: 1, 3: 2, 7: 5, 13: 7}


def numbers(v, what):
    a = tolist(v)
    arr = np.array(a, dtype=object)
    try:
        out = np.array([float(x.const()) if isinstance(x, Sym) else float(x)
                        for x in arr.ravel()]).reshape(arr.shape)
    except Exception:
        raise Undecided('%s is not a constant table: %s' % (what, v))
    return out


def rule_tables(w, order, **kw):
    g = w.new('assembler', 'GaussRule', order, **kw)
    x = numbers(w.m(g, 'nodes'), 'nodes')
    wt = numbers(w.m(g, 'weights'), 'weights')
    return g, x, wt.reshape(-1)


def tol_for(order_1d):
    return 2e-9 if order_1d in (6, 13) else 1e-12


def run(ctx):
    ctx.technique = ('constant propagation of the rule tables through '
                     'GaussRule.__init__ plus the moment equations on the '
                     'propagated tables; abstract interpretation of '
                     'mapped_rule over cells with symbolic vertices')
    ctx.explanation = (
        'Each (shape, order) branch of the rule constructor is evaluated by '
        'constant propagation; node count, containment and every moment '
        'equation up to the nominal degree are obligations. mapped_rule is '
        'interpreted on an interval, an edge and a quadrilateral whose '
        'vertices are symbols; node images and weight factors are compared '
        'as polynomials, so the result holds for every cell.')
    ctx.assumptions = [
        'order-6/36 (1-D) and order-13 (triangle) tables carry 10-13 printed '
        'digits: moment equations are required to 2e-9 there and to 1e-12 '
        'elsewhere']
    W = World(ctx)
    where = ctx.where('assembler', 'GaussRule.__init__')

    def interval(n, deg, **kw):
        def f():
            g, x, wt = rule_tables(W, n, **kw)
            x = x.reshape(-1)
            if len(x) != n or len(wt) != n:
                raise Violation('%d nodes / %d weights' % (len(x), len(wt)))
            if x.min() <= 0 or x.max() >= 1:
                raise Violation('nodes outside (0,1): %s' % x)
            for d in range(deg + 1):
                m = float(np.dot(wt, x ** d))
                if abs(m - 1.0 / (d + 1)) > tol_for(n):
                    raise Violation('moment x^%d = %.15g, exact %.15g' % (
                        d, m, 1.0 / (d + 1)))
            want(W.m(g, 'n_nodes'), n, 'n_nodes')
            want(W.m(g, 'dim'), 1, 'dim')
            want(W.m(g, 'shape'), 'interval', 'shape')
        return f

    for n, deg in INTERVAL.items():
        ctx.ob('interval order %d' % n, interval(n, deg, shape='interval'),
               where)

    def quad(n, deg, **kw):
        def f():
            g, x, wt = rule_tables(W, n, **kw)
            if x.shape != (n, 2) or len(wt) != n:
                raise Violation('shapes %s %s' % (x.shape, wt.shape))
            if x.min() <= 0 or x.max() >= 1:
                raise Violation('nodes outside the unit square')
            for i in range(deg + 1):
                for j in range(deg + 1):
                    m = float(np.dot(wt, x[:, 0] ** i * x[:, 1] ** j))
                    e = 1.0 / (i + 1) / (j + 1)
                    if abs(m - e) > tol_for(int(math.isqrt(n))):
                        raise Violation('moment x^%d y^%d = %.15g, exact '
                                        '%.15g' % (i, j, m, e))
            want(W.m(g, 'n_nodes'), n, 'n_nodes')
            want(W.m(g, 'dim'), 2, 'dim')
            want(W.m(g, 'shape'), 'quadrilateral', 'shape')
        return f

    for n, deg in QUAD.items():
        ctx.ob('quadrilateral order %d' % n,
               quad(n, deg, shape='quadrilateral'), where)

    def tri(n, deg):
        def f():
            g, x, wt = rule_tables(W, n, shape='triangle')
            if x.shape != (n, 2) or len(wt) != n:
                raise Violation('shapes %s %s' % (x.shape, wt.shape))
            if x.min() <= 0 or (x.sum(axis=1)).max() >= 1:
                raise Violation('nodes outside the open unit triangle: %s'
                                % x.tolist())
            for i in range(deg + 1):
                for j in range(deg + 1 - i):
                    m = float(np.dot(wt, x[:, 0] ** i * x[:, 1] ** j))
                    e = math.factorial(i) * math.factorial(j) / \
                        math.factorial(i + j + 2)
                    if abs(m - e) > tol_for(n):
                        raise Violation('moment x^%d y^%d = %.15g, exact '
                                        '%.15g' % (i, j, m, e))
        return f

    for n, deg in TRIANGLE.items():
        ctx.ob('triangle order %d' % n, tri(n, deg), where)

    # the element picks the cell shape
    def elem(dim, etype, shape, order, deg):
        def f():
            e = W.new('fem', 'QuadFE', dim, etype)
            (interval if dim == 1 else quad)(order, deg, element=e)()
        return f
    ctx.ob('element Q1 in 1D', elem(1, 'Q1', 'interval', 3, 5), where)
    ctx.ob('element Q2 in 2D', elem(2, 'Q2', 'quadrilateral', 9, 5), where)

    # unsupported orders are refused
    def refused(shape, order):
        def f():
            try:
                W.new('assembler', 'GaussRule', order, shape=shape)
            except AbsRaise:
                return True
            raise Violation('rule of order %d on %s accepted' % (order, shape))
        return f
    for shape, orders in (('interval', (0, 7)), ('quadrilateral', (2, 3, 49)),
                          ('triangle', (2, 4, 12))):
        for o in orders:
            ctx.ob('refuse %s order %d' % (shape, o), refused(shape, o), where)

    # ---------------------------------------------------------- mapping
    wm = ctx.where('assembler', 'GaussRule.mapped_rule')
    a, h = Sym.var('a'), Sym.var('h', True)

    def rows(v):
        v = tolist(v)
        return [list(p) if isinstance(p, (list, tuple)) else [p] for p in v]

    def map_interval(n):
        def f():
            g, x, wt = rule_tables(W, n, shape='interval')
            I = W.interval(a, a + h)
            xg, wg = W.m(g, 'mapped_rule', I)[:2]
            want(rows(xg), [[a + h * float(t)] for t in x.ravel()], 'nodes')
            want(tolist(wg), [h * float(t) for t in wt], 'weights')
        return f

    x0, y0, x1, y1 = [Sym.var(n) for n in ('x0', 'y0', 'x1', 'y1')]

    def map_edge(n):
        def f():
            g, x, wt = rule_tables(W, n, shape='interval')
            e = W.halfedge((x0, y0), (x1, y1))
            xg, wg = W.m(g, 'mapped_rule', e)[:2]
            L = ((x1 - x0) ** 2 + (y1 - y0) ** 2).sqrt()
            want(rows(xg), [[x0 + (x1 - x0) * float(t),
                             y0 + (y1 - y0) * float(t)] for t in x.ravel()],
                 'nodes')
            want(tolist(wg), [L * float(t) for t in wt], 'weights')
        return f

    def bil(P, s, t):
        N = [(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t]
        return [sum((P[i][c] * N[i] for i in range(4)), Sym.of(0))
                for c in range(2)]

    def jdet(P, s, t):
        dS = [-(1 - t), (1 - t), t, -t]
        dT = [-(1 - s), -s, s, (1 - s)]
        g = [[sum((P[i][c] * d[i] for i in range(4)), Sym.of(0))
              for d in (dS, dT)] for c in range(2)]
        return g[0][0] * g[1][1] - g[0][1] * g[1][0]

    def map_quad(n, make):
        def f():
            g, x, wt = rule_tables(W, n, shape='quadrilateral')
            q, P = make()
            P = [tuple(Sym.of(c) for c in p) for p in P]
            xg, wg = W.m(g, 'mapped_rule', q)[:2]
            want(rows(xg), [bil(P, float(s), float(t)) for s, t in x],
                 'nodes')
            want(tolist(wg), [jdet(P, float(s), float(t)) * float(k)
                              for (s, t), k in zip(x, wt)], 'weights')
            tot = Sym.of(0)
            for v in tolist(wg):
                tot = tot + v
            area = Sym.of(0)
            for i in range(4):
                p, r = P[i], P[(i + 1) % 4]
                area = area + (p[0] * r[1] - r[0] * p[1]) * 0.5
            want(tot, area, 'sum of weights = area', 1e-8)
        return f
    for n in (1, 2, 3, 6):
        ctx.ob('map to interval, order %d' % n, map_interval(n), wm)
        ctx.ob('map to edge, order %d' % n, map_edge(n), wm)
    for n in (1, 4, 9):
        ctx.ob('map to general quadrilateral, order %d' % n,
               map_quad(n, W.gquad), wm)
        ctx.ob('map to rectangle, order %d' % n, map_quad(n, W.rect), wm)

    def pair(r, what):
        if isinstance(r, (Top, Alt)):
            raise Undecided('%s: %r' % (what, r))
        if not isinstance(r, tuple) or len(r) != 2:
            raise Violation('%s returns %s instead of (nodes, weights)' % (
                what, 'a tuple of %d' % len(r) if isinstance(r, tuple)
                else type(r).__name__))
        return r

    def map_data(n, shape, make, jac, hess):
        # derivatives of the physical-to-reference map at the nodes
        def f():
            g, x, wt = rule_tables(W, n, shape=shape)
            reg = make()
            kw = {}
            if jac:
                kw['jac_p2r'] = True
            if hess:
                kw['hess_p2r'] = True
            r = W.m(g, 'mapped_rule', reg, **kw)
            if not (jac or hess):
                pair(r, 'mapped_rule')
                return
            if isinstance(r, (Top, Alt)):
                raise Undecided('mapped_rule: %r' % (r,))
            if not isinstance(r, tuple) or len(r) != 3:
                raise Violation('mapped_rule returns no map data')
            mg = r[2]
            ref, md = W.m(reg, 'reference_map', W.m(g, 'nodes'),
                          jac_r2p=True, jac_p2r=True, hess_p2r=True)
            for k, on in (('jac_p2r', jac), ('hess_p2r', hess)):
                if not on:
                    continue
                try:
                    got = mg.get(k) if isinstance(mg, dict) else \
                        W.it.subscript(mg, k)
                except KeyError:
                    raise Violation('mapped_rule: no %s returned' % k)
                if got is None:
                    raise Violation('mapped_rule: no %s returned' % k)
                want(tolist(got), tolist(md[k]), k)
        return f
    for shape, n, make in (
            ('interval', 2, lambda: W.interval(a, a + h)),
            ('quadrilateral', 4, lambda: W.rect()[0])):
        for jac, hess in ((0, 0), (1, 0), (0, 1), (1, 1)):
            ctx.ob('mapped_rule on %s, jac_p2r=%d hess_p2r=%d' % (
                shape, jac, hess), map_data(n, shape, make, jac, hess), wm)

    ws = ctx.where('assembler', 'GaussRule.scale_rule')

    def unit(name):
        u = Sym.var(name, True)
        return u / (1 + u)

    def scale_interval(n):
        def f():
            g, x, wt = rule_tables(W, n, shape='interval')
            p, q = unit('p'), unit('q')
            xs, wsc = pair(W.m(g, 'scale_rule', p, q), 'scale_rule')
            want(rows(xs), [[p + q * float(t)] for t in x.ravel()], 'nodes')
            want(tolist(wsc), [q * float(t) for t in wt], 'weights')
            xe = W.m(g, 'scale_rule', p, q, W.arr([[u0], [u1]]))
            want(rows(xe), [[p + q * u0], [p + q * u1]], 'given points')
        return f

    def scale_quad(n):
        def f():
            g, x, wt = rule_tables(W, n, shape='quadrilateral')
            p, p2, q = unit('p'), unit('p2'), unit('q')
            P = W.arr([[p, p2]])
            xs, wsc = pair(W.m(g, 'scale_rule', P, q), 'scale_rule')
            want(rows(xs), [[p + q * float(s), p2 + q * float(t)]
                            for s, t in x], 'nodes')
            want(tolist(wsc), [q * q * float(t) for t in wt], 'weights')
            xe = W.m(g, 'scale_rule', P, q, W.arr([[u0, u1], [u1, u1]]))
            want(rows(xe), [[p + q * u0, p2 + q * u1],
                            [p + q * u1, p2 + q * u1]], 'given points')
        return f
    u0, u1 = Sym.var('u0'), Sym.var('u1')
    for n in (1, 3):
        ctx.ob('scale to part of an interval, order %d' % n,
               scale_interval(n), ws)
    for n in (1, 4):
        ctx.ob('scale to part of a quadrilateral, order %d' % n,
               scale_quad(n), ws)

    def edge_special(p, q, L, tag):
        def f():
            g, x, wt = rule_tables(W, 3, shape='interval')
            e = W.halfedge(p, q)
            xg, wg = W.m(g, 'mapped_rule', e)[:2]
            want(tolist(wg), [L * float(t) for t in wt], 'weights')
        return f
    ctx.ob('map to horizontal edge', edge_special(
        (x0, y0), (x0 + h, y0), h, 'h'), wm)
    ctx.ob('map to vertical edge', edge_special(
        (x0, y0), (x0, y0 + h), h, 'v'), wm)
    ctx.ob('map to reversed vertical edge', edge_special(
        (x0, y0 + h), (x0, y0), h, 'v'), wm)

    def mismatch(rule, cell):
        def f():
            g = W.new('assembler', 'GaussRule', 4, shape=rule)
            c = W.interval(a, a + h) if cell == 'i' else W.rect()[0]
            try:
                W.m(g, 'mapped_rule', c)
            except AbsRaise:
                return True
            raise Violation('dimension mismatch accepted')
        return f
    ctx.ob('refuse 2D rule on interval', mismatch('quadrilateral', 'i'), wm)
    ctx.ob('refuse 1D rule on quadrilateral', mismatch('interval', 'q'), wm)
