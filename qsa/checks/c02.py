"""C02 shape functions: nodal, complete, with exact reference derivatives."""
import itertools
from fractions import Fraction
import numpy as np
from ..frame import want, Violation, Undecided, cmp_val
from ..build import World, Sym, tolist
from ..absint import AbsRaise
from .. import sym as symmod

ELEMENTS = [(t, d) for t in ('DQ0', 'Q1', 'DQ1', 'Q2', 'DQ2', 'Q3', 'DQ3')
            for d in (1, 2)]


def degree(etype):
    return int(etype[-1])


def nums(v, what):
    a = tolist(v)
    try:
        return np.array([[float(Sym.of(c).const()) for c in
                          (p if isinstance(p, (list, tuple)) else [p])]
                         for p in a])
    except Exception:
        raise Undecided('%s not constant: %s' % (what, a))


def flat(v):
    v = tolist(v)
    out = []

    def rec(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                rec(y)
        else:
            out.append(x)
    rec(v)
    return out


def max_degree(p, var):
    p = Sym.of(p)
    if p.F:
        raise Violation('not a polynomial: %s' % p)
    a = next(iter(var.atoms()))
    return max([dict(m).get(a.uid, 0) for m in p.N.t] or [0])


def run(ctx):
    ctx.technique = ('abstract interpretation of the shape-function tables at '
                     'symbolic reference points (polynomial normal forms) and '
                     'constant propagation of the reference node tables')
    ctx.explanation = (
        'For every element family and dimension the value and derivative '
        'tables are propagated to polynomials in the reference coordinates; '
        'nodality, space, partition of unity and derivative identities are '
        'polynomial identities and hold at every point.')
    W = World(ctx)
    r, s = Sym.var('r', True), Sym.var('s', True)
    r2, s2 = Sym.var('r2', True), Sym.var('s2', True)
    symmod.FACTS[:] = [1 - r, 1 - s, 1 - r2, 1 - s2]

    for etype, dim in ELEMENTS:
        tag = '%s in %dD' % (etype, dim)
        k = degree(etype)
        we = ctx.where('fem', 'QuadFE.__init__')
        try:
            E = W.new('fem', 'QuadFE', dim, etype)
        except AbsRaise as e:
            def f(e=e):
                raise e
            ctx.ob('construct ' + tag, f, we)
            continue
        n = (k + 1) ** dim
        X = (r,) if dim == 1 else (r, s)
        P1 = W.arr([list(X)])
        P2 = W.arr([[r], [r2]] if dim == 1 else [[r, s], [r2, s2]])
        sub = {r: r2, s: s2}

        def table(name, *args):
            """source polynomials of one table, one per local dof"""
            out = []
            for i in range(n):
                v = flat(W.m(E, name, i, P1, *args))
                if len(v) != 1:
                    raise Violation('%s(%d) at one point gives %d values' % (
                        name, i, len(v)))
                out.append(Sym.of(v[0]))
            return out

        def counts():
            want(W.m(E, 'n_dofs'), n, 'n_dofs')
            want(W.m(E, 'polynomial_degree'), k, 'polynomial_degree')
            want(W.m(E, 'dim'), dim, 'dim')
            want(W.m(E, 'element_type'), etype, 'element_type')
            want(W.m(E, 'torn_element'), etype.startswith('DQ'),
                 'torn_element')
            want(W.m(E, 'cell_type'),
                 'interval' if dim == 1 else 'quadrilateral', 'cell_type')
            v, e, c = [W.m(E, 'n_dofs', key)
                       for key in ('vertex', 'edge', 'cell')]
            want((2 * v + e) if dim == 1 else (4 * v + 4 * e + c), n,
                 'vertex/edge/cell dof counts')
        ctx.ob('counts of ' + tag, counts, we)

        def nodes():
            x = nums(W.m(E, 'reference_nodes'), 'reference nodes')
            if x.shape != (n, dim):
                raise Violation('%s nodes' % (x.shape,))
            if k == 0:
                if not np.allclose(x, 0.5):
                    raise Violation('DQ0 node at %s' % x)
            else:
                g = [Fraction(i, k) for i in range(k + 1)]
                exp = set(itertools.product(g, repeat=dim))
                got = [tuple(Fraction(c).limit_denominator(1000) for c in p)
                       for p in x]
                if set(got) != exp or len(set(got)) != n:
                    raise Violation('reference nodes %s' % x.tolist())
        ctx.ob('reference nodes of ' + tag, nodes,
               ctx.where('fem', 'QuadFE.reference_nodes'))

        def nodal():
            x = nums(W.m(E, 'reference_nodes'), 'reference nodes')
            for i in range(n):
                v = flat(W.m(E, 'phi', i, W.arr(x.tolist())))
                for j in range(n):
                    want(v[j], 1 if i == j else 0,
                         'shape function %d at node %d' % (i, j))
        ctx.ob('nodality of ' + tag, nodal, we)

        def space():
            tot = Sym.of(0)
            x = nums(W.m(E, 'reference_nodes'), 'reference nodes')
            mom = [Sym.of(0) for _ in X]
            for i, p in enumerate(table('phi')):
                for v in X:
                    if max_degree(p, v) > k:
                        raise Violation('shape function %d has degree > %d: '
                                        '%s' % (i, k, p))
                tot = tot + p
                for d in range(dim):
                    mom[d] = mom[d] + p * float(x[i, d])
            want(tot, 1, 'sum of shape functions')
            if k >= 1:
                for d in range(dim):
                    want(mom[d], X[d], 'interpolant of coordinate %d' % d)
        ctx.ob('polynomial space of ' + tag, space, we)

        def first():
            p = table('phi')
            for d in range(dim):
                for i, q in enumerate(table('dphi', d)):
                    want(q, p[i].diff(X[d]),
                         'derivative of shape function %d in direction %d'
                         % (i, d))
        ctx.ob('first derivatives of ' + tag, first,
               ctx.where('fem', 'QuadFE.dphi'))

        def second():
            p = table('phi')
            for d in range(dim):
                for e in range(dim):
                    for i, q in enumerate(table('d2phi', (d, e))):
                        want(q, p[i].diff(X[d]).diff(X[e]),
                             'second derivative %d,%d of shape function %d'
                             % (d, e, i))
        ctx.ob('second derivatives of ' + tag, second,
               ctx.where('fem', 'QuadFE.d2phi'))

        # ------------------------------------------ reference-cell arrays
        ders = [(0,), (1, 0), (2, 0, 0)]
        if dim == 2:
            ders += [(1, 1), (2, 0, 1), (2, 1, 0), (2, 1, 1)]

        def expect(der, p):
            for v in der[1:]:
                p = p.diff(X[v])
            return p

        def shape_one(der):
            def f():
                p = table('phi')
                v = W.m(E, 'shape', P2, derivatives=der)
                want(tolist(v), [[expect(der, q) for q in p],
                                 [expect(der, q).subs(sub) for q in p]],
                     'shape(derivatives=%s)' % (der,))
                v = W.m(E, 'shape', P1, derivatives=der)
                want(tolist(v), [[expect(der, q) for q in p]],
                     'shape(derivatives=%s) at one point' % (der,))
                # corners, as whole numbers
                co = list(itertools.product((0, 1), repeat=dim))
                v = W.m(E, 'shape', np.array(co), derivatives=der)
                want(tolist(v), [[expect(der, q).subs(dict(zip(
                    X, map(Sym.of, c)))) for q in p] for c in co],
                     'shape(derivatives=%s) at the corners' % (der,))
                v = W.m(E, 'shape', np.zeros((0, dim), dtype=object),
                        derivatives=der)
                want(list(v.shape), [0, len(p)],
                     'shape(derivatives=%s) at no points' % (der,))
            return f
        ws = ctx.where('fem', 'QuadFE.shape')
        for der in ders:
            ctx.ob('shape array %s of %s' % (der, tag), shape_one(der), ws)

        def shape_list():
            p = table('phi')
            out = W.m(E, 'shape', P2, derivatives=list(ders))
            if len(out) != len(ders):
                raise Violation('%d arrays for %d derivatives' % (
                    len(out), len(ders)))
            for der, v in zip(ders, out):
                want(tolist(v), [[expect(der, q) for q in p],
                                 [expect(der, q).subs(sub) for q in p]],
                     'entry for %s' % (der,))
        ctx.ob('shape list of ' + tag, shape_list, ws)

        def shape_local():
            p = table('phi')
            loc = list(range(n))[::-1][:3]
            for der in ders:
                v = W.m(E, 'shape', P2, derivatives=der, local_dofs=loc)
                want(tolist(v), [[expect(der, p[i]) for i in loc],
                                 [expect(der, p[i]).subs(sub) for i in loc]],
                     'shape with local dofs %s, %s' % (loc, der))
        ctx.ob('shape of selected dofs of ' + tag, shape_local, ws)

    triangles(ctx, W, r, s)


# ------------------------------------------------------------- triangles
TRI_NODES = {
    (1, 'P1'): [(0,), (1,)],
    (1, 'P2'): [(0,), (1,), (Fraction(1, 2),)],
    (1, 'P3'): [(0,), (1,), (Fraction(1, 3),), (Fraction(2, 3),)],
    (2, 'P1'): [(0, 0), (1, 0), (0, 1)],
    (2, 'P2'): [(0, 0), (1, 0), (0, 1), (Fraction(1, 2), 0),
                (Fraction(1, 2), Fraction(1, 2)), (0, Fraction(1, 2))],
}
TRI_NODES[(2, 'Bubble')] = TRI_NODES[(2, 'P2')] + [(Fraction(1, 3),
                                                    Fraction(1, 3))]
TRI_DEGREE = {'P1': 1, 'P2': 2, 'P3': 3, 'Bubble': 3}


def triangles(ctx, W, r, s):
    """simplicial elements: vertices, then edge midpoints, then the centre"""
    we = ctx.where('fem', 'TriFE.__init__')
    for (dim, etype), nodes in TRI_NODES.items():
        tag = 'triangle %s in %dD' % (etype, dim)
        n = len(nodes)
        X = (r,) if dim == 1 else (r, s)
        try:
            E = W.new('fem', 'TriFE', dim, etype)
        except AbsRaise as e:
            def f(e=e):
                raise e
            ctx.ob('construct ' + tag, f, we)
            continue

        def at(name, i, x, *args):
            p = x[0] if dim == 1 else tuple(x)
            v = W.m(E, name, i, p, *args)
            w = flat(v) if isinstance(tolist(v), (list, tuple)) else [v]
            return Sym.of(w[0])

        def counts():
            want(W.m(E, 'n_dofs'), n, 'n_dofs')
            want(W.m(E, 'dim'), dim, 'dim')
            want(W.m(E, 'cell_type'), 'interval' if dim == 1 else 'triangle',
                 'cell_type')
        ctx.ob('counts of ' + tag, counts, we)

        def nodal():
            for i in range(n):
                for j, x in enumerate(nodes):
                    want(at('phi', i, [Sym.of(c) for c in x]),
                         1 if i == j else 0,
                         'shape function %d at node %d' % (i, j))
        ctx.ob('nodality of ' + tag, nodal, ctx.where('fem', 'TriFE.phi'))

        def space():
            tot, mom = Sym.of(0), [Sym.of(0) for _ in X]
            for i in range(n):
                p = at('phi', i, X)
                tot = tot + p
                if p.F or max([sum(dict(m).values()) for m in p.N.t] or [0]) \
                        > TRI_DEGREE[etype]:
                    raise Violation('shape function %d: %s' % (i, p))
                for d in range(dim):
                    mom[d] = mom[d] + p * Sym.of(nodes[i][d])
            want(tot, 1, 'sum of shape functions')
            for d in range(dim):
                want(mom[d], X[d], 'interpolant of coordinate %d' % d)
        ctx.ob('polynomial space of ' + tag, space, we)

        def first():
            for i in range(n):
                p = at('phi', i, X)
                for d in range(dim):
                    want(at('dphi', i, X, d), p.diff(X[d]),
                         'derivative of shape function %d in direction %d'
                         % (i, d))
        ctx.ob('first derivatives of ' + tag, first,
               ctx.where('fem', 'TriFE.dphi'))
