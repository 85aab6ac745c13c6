"""C05 hanging-node constraints make the coarse trace continuous."""
import itertools
from fractions import Fraction
from ..frame import want, Violation, Undecided
from ..build import (World, Sym, glued, star, boxmesh, aslist, children,
                     coords, corners, tolist)
from .fe_common import CONT, TORN, deg, Where, leaves, Points, distribute


def lagrange(nodes, t):
    out = []
    for k, x in enumerate(nodes):
        c = Fraction(1)
        for m, y in enumerate(nodes):
            if m != k:
                c *= (t - y) / (x - y)
        out.append(c)
    return out


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('abstract interpretation of the hanging-node search over '
                     'symbolic geometry; coefficients compared with the '
                     'Lagrange trace of the coarse side')
    ctx.explanation = (
        'For every way a refined cell can meet an unrefined one (side i on '
        'side j, either one refined, several interfaces around one vertex, '
        'submeshes), the constrained numbers must be exactly the fine nodes '
        'on the coarse side that are not coarse nodes, and each must be tied '
        'to the coarse side\'s own degrees of freedom with the values of '
        'their edge polynomials at that node.')
    ctx.assumptions = ['2:1 balanced meshes']
    ws = ctx.where('fem', 'DofHandler.set_hanging_nodes')

    def flagged_leaf(W, c, flag):
        if flag is not None and W.m(c, 'is_marked', flag) is not True:
            return False
        return W.m(c, 'has_children', flag=flag) is not True

    def expected(W, M, D, E, etype, flag=None):
        from .fe_common import all_cells
        k = deg(etype)
        pos = Where(W, E, 2)
        P = Points()
        nodes = [Fraction(m, k) for m in range(k + 1)]
        want_map = {}
        lv = [c for c in all_cells(W, M) if flagged_leaf(W, c, flag)]
        for c in lv:
            cd = dict()
            for g, p in zip(W.m(D, 'get_cell_dofs', c), pos(c)):
                cd[P.id(p)] = int(g)
            Q = corners(W, c)
            for q in range(4):
                a, b = Q[q], Q[(q + 1) % 4]
                line = [P.id([Sym.of(x) + (Sym.of(y) - x) * t
                              for x, y in zip(a, b)]) for t in nodes]
                tw = W.m(W.m(c, 'get_half_edge', q), 'twin')
                if tw is None:
                    continue
                nb = W.m(tw, 'cell')
                if flag is not None and W.m(nb, 'is_marked', flag) is not True:
                    continue
                if W.m(nb, 'has_children', flag=flag) is not True:
                    continue
                sup = [cd[n] for n in line]
                for he in children(W, tw):
                    f = W.m(he, 'cell')
                    fd = dict()
                    for g, p in zip(W.m(D, 'get_cell_dofs', f), pos(f)):
                        fd[P.id(p)] = int(g)
                    for m in range(2 * k + 1):
                        t = Fraction(m, 2 * k)
                        n = P.id([Sym.of(x) + (Sym.of(y) - x) * t
                                  for x, y in zip(a, b)])
                        if n in line or n not in fd:
                            continue
                        want_map[fd[n]] = dict(zip(sup, lagrange(nodes, t)))
        return want_map

    def compare(got, exp):
        if set(int(g) for g in got) != set(exp):
            raise Violation('constrained numbers %s, required %s' % (
                sorted(got), sorted(exp)))
        for g, (sup, co) in got.items():
            row = {}
            if len(sup) != len(co):
                raise Violation('%d supports with %d coefficients' % (
                    len(sup), len(co)))
            for s, c in zip(sup, co):
                row[int(s)] = Sym.of(row.get(int(s), 0)) + Sym.of(c)
            for s in set(row) | set(exp[int(g)]):
                want(row.get(s, 0), Sym.of(exp[int(g)].get(s, 0)),
                     'coefficient of number %d on supporting number %d' % (
                         g, s))

    def record(W, D, exp):
        con = W.at(D, 'constraints')
        n = len(con['constrained_dofs'])
        for key in ('supporting_dofs', 'coefficients', 'affine_terms'):
            if len(con[key]) != n:
                raise Violation('%d entries in %s for %d constraints' % (
                    len(con[key]), key, n))
        compare({d: (s, c) for d, s, c in zip(
            con['constrained_dofs'], con['supporting_dofs'],
            con['coefficients'])}, exp)
        if len(set(con['constrained_dofs'])) != n:
            raise Violation('a number is constrained twice')
        want([Sym.of(a) for a in con['affine_terms']], [0] * n,
             'affine terms')

    def case(build, etype, flag=None, twice=True):
        def f():
            W = World(ctx)
            M = build(W)
            E, D = distribute(W, M, etype, 2)
            exp = expected(W, M, D, E, etype, flag)
            if flag is None:
                W.m(D, 'set_hanging_nodes')
                got = W.m(D, 'get_hanging_nodes')
            else:
                W.m(D, 'set_hanging_nodes', subforest_flag=flag)
                got = W.m(D, 'get_hanging_nodes', subforest_flag=flag)
            compare(got, exp)
            record(W, D, exp)
            if exp:
                want(W.m(D, 'has_hanging_nodes', subforest_flag=flag), True,
                     'has_hanging_nodes')
            if twice:
                # asking again neither loses nor duplicates constraints
                W.m(D, 'set_hanging_nodes', subforest_flag=flag)
                record(W, D, exp)
            ctx.stats['constraints'] = ctx.stats.get('constraints', 0) + \
                len(exp)
        return f

    def lazily(build, etype):
        """get_hanging_nodes without set_hanging_nodes"""
        def f():
            W = World(ctx)
            M = build(W)
            E, D = distribute(W, M, etype, 2)
            exp = expected(W, M, D, E, etype)
            compare(W.m(D, 'get_hanging_nodes'), exp)
            record(W, D, exp)
        return f

    def pair(i, j, kind):
        def b(W):
            M, X, conn = glued(W, i, j)
            A, B = children(W, W.at(M, 'cells'))
            if kind == 'A':
                W.m(A, 'split')
            elif kind == 'B':
                W.m(B, 'split')
            elif kind == 'fine':    # both refined, a child refined further
                W.m(A, 'split')
                W.m(B, 'split')
                W.m(W.m(A, 'get_child', i), 'split')
            return M
        return b

    for i, j in itertools.product(range(4), range(4)):
        for kind in ('A', 'B', 'fine'):
            for etype in CONT:
                ctx.ob('%s side %d on side %d refined %s' % (
                    etype, i, j, kind), case(pair(i, j, kind), etype), ws)

    def around(rots, which):
        def b(W):
            M, X, conn = star(W, rots)
            cs = children(W, W.at(M, 'cells'))
            for q in which:
                W.m(cs[q], 'split')
            if len(which) == 4:
                W.m(W.m(cs[2], 'get_child', conn[2].index(4)), 'split')
            return M
        return b
    for rots in [(0, 0, 0, 0), (1, 3, 2, 0), (2, 1, 0, 3)]:
        for which in [(0,), (1, 3), (0, 2, 3), (0, 1, 2, 3)]:
            for etype in CONT:
                ctx.ob('%s around a vertex, starts %s, refined %s' % (
                    etype, rots, which), case(around(rots, which), etype), ws)
    for etype in CONT:
        ctx.ob('%s queried directly' % etype,
               lazily(around((0, 1, 2, 3), (1, 3)), etype),
               ctx.where('fem', 'DofHandler.get_hanging_nodes'))

    # ----------------------------------------------------------- submeshes
    def sub(i, j, side):
        """both cells refined, the submesh keeps only some of it"""
        def b(W):
            M, X, conn = glued(W, i, j)
            A, B = children(W, W.at(M, 'cells'))
            W.m(A, 'split')
            if side not in ('coarse', 'outside'):
                W.m(B, 'split')
            for c in (A, B):
                if side != 'outside' or c is B:
                    W.m(c, 'mark', 's')
            if side in 'AB':
                for c in children(W, A if side == 'A' else B):
                    W.m(c, 'mark', 's')
            return M
        return b
    for i, j in ((0, 0), (1, 3), (2, 1), (3, 2)):
        for side in ('A', 'B', 'neither', 'coarse', 'outside'):
            for etype in CONT:
                ctx.ob('%s submesh, side %d on side %d, keeps %s' % (
                    etype, i, j, side), case(sub(i, j, side), etype, 's'), ws)

    # --------------------------------------------- no constraints elsewhere
    def none(build, etype):
        def f():
            W = World(ctx)
            M = build(W)
            E, D = distribute(W, M, etype, 2)
            W.m(D, 'set_hanging_nodes')
            want(len(W.at(D, 'constraints')['constrained_dofs']), 0,
                 'number of constraints')
        return f

    def uniform(W):
        M = boxmesh(W, (2, 2))
        W.m(W.at(M, 'cells'), 'refine')
        return M
    for etype in CONT:
        ctx.ob('%s uniform mesh' % etype, none(uniform, etype), ws)
    for etype in TORN:
        ctx.ob('%s refined interface' % etype, none(pair(1, 3, 'A'), etype),
               ws)

    # ------------------------------------------------ element-level tables
    def table(etype):
        def f():
            W = World(ctx)
            E = W.new('fem', 'QuadFE', 2, etype)
            k = deg(etype)
            con = W.m(E, 'constraint_coefficients')
            nodes = [Fraction(m, k) for m in range(k + 1)]
            want(len(con), 2, 'halves')
            for h in (0, 1):
                exp = {}
                for m in range(k + 1):
                    t = Fraction(m + h * k, 2 * k)
                    if t not in nodes:
                        exp[m] = lagrange(nodes, t)
                if set(con[h]) != set(exp):
                    raise Violation('constrained positions %s on half %d, '
                                    'required %s' % (sorted(con[h]), h,
                                                     sorted(exp)))
                for m in exp:
                    want([Sym.of(x) for x in con[h][m]],
                         [Sym.of(x) for x in exp[m]],
                         'coefficients at position %d of half %d' % (m, h))
        return f
    for etype in CONT:
        ctx.ob('%s edge coefficient table' % etype, table(etype),
               ctx.where('fem', 'QuadFE.constraint_coefficients'))
