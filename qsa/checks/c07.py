"""C07 degrees of freedom are shared exactly where nodes coincide."""
import itertools
from ..frame import want, Violation, Undecided
from ..build import (World, Sym, glued, star, boxmesh, linemesh, aslist,
                     children, coords, corners, tolist)
from .fe_common import (CONT, TORN, deg, Where, all_cells, leaves, Points,
                        distribute)


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('abstract interpretation of DOF distribution over meshes '
                     'with symbolic geometry; numbering compared with the '
                     'partition of node positions')
    ctx.explanation = (
        'Numbers are passed on between a cell and its neighbours and '
        'children only, so every local configuration is enumerated (side i '
        'glued to side j, refined on either side, four cells around a vertex '
        'in different rotations, refined corners, periodic pairs, 1D '
        'chains). Node positions are computed from the corner symbols '
        'independently of the code; the numbering must identify exactly the '
        'coinciding nodes of continuous elements and nothing across cells '
        'for discontinuous ones.')
    ctx.assumptions = ['2:1 balanced meshes, non-degenerate cells']
    wd = ctx.where('fem', 'DofHandler.distribute_dofs')

    def dofs_of(W, D, cell):
        d = W.m(D, 'get_cell_dofs', cell)
        if d is None or any(x is None for x in d):
            raise Violation('a cell has unnumbered degrees of freedom: %s'
                            % (d,))
        return [int(x) for x in d]

    def check(W, M, etype, dim, period=None):
        E, D = distribute(W, M, etype, dim)
        pos = Where(W, E, dim)
        n = (deg(etype) + 1) ** dim
        P = Points(period)
        cells = all_cells(W, M)
        lv = leaves(W, M)
        seen = {}
        for c in cells:
            d = dofs_of(W, D, c)
            if len(d) != n:
                raise Violation('%d local degrees of freedom' % len(d))
            if len(set(d)) != n and period is None:
                raise Violation('repeated numbers in one cell: %s' % (d,))
            pts = [P.id(p) for p in pos(c)]
            for q, (g, p) in enumerate(zip(d, pts)):
                if g in seen and seen[g] != p:
                    raise Violation(
                        'number %d is used for nodes at %s and %s' % (
                            g, P.pts[seen[g]], P.pts[p]))
                seen[g] = p
        if sorted(seen) != list(range(len(seen))):
            raise Violation('numbers are not consecutive from 0: %s' % (
                sorted(seen),))
        want(W.m(D, 'n_dofs', all_dofs=True), len(seen), 'total number')
        if etype[0] == 'Q':
            back = {}
            for g, p in seen.items():
                if p in back:
                    raise Violation('the node at %s carries numbers %d and '
                                    '%d' % (P.pts[p], back[p], g))
                back[p] = g
        else:
            owner = {}
            for c in lv:
                for g in dofs_of(W, D, c):
                    if g in owner:
                        raise Violation('two cells share number %d of a '
                                        'discontinuous element' % g)
                    owner[g] = c
            for c in cells:
                if W.m(c, 'has_children') is True:
                    kids = [g for k in children(W, c)
                            for g in dofs_of(W, D, k)]
                    if len(set(kids)) != len(kids):
                        raise Violation('sibling cells share numbers of a '
                                        'discontinuous element')
        # numbers in use on the finest mesh, and their positions
        used = sorted(set(g for c in lv for g in dofs_of(W, D, c)))
        got = sorted(int(x) for x in W.m(D, 'get_region_dofs'))
        want(got, used, 'degrees of freedom of the mesh')
        want(W.m(D, 'n_dofs'), len(used), 'number of degrees of freedom')
        X = W.m(D, 'get_dof_vertices', used)
        X = tolist(X)
        if len(X) != len(used):
            raise Violation('%d positions for %d numbers' % (
                len(X), len(used)))
        for g, x in zip(used, X):
            x = list(x) if isinstance(x, (list, tuple)) else [x]
            if P.id(x) != seen[g]:
                raise Violation('position %s reported for number %d at %s'
                                % (x, g, P.pts[seen[g]]))
        # one number, no numbers named, and the positions as a list
        def at(x):
            x = tolist(x)
            while isinstance(x, (list, tuple)) and len(x) == 1 and \
                    isinstance(x[0], (list, tuple)):
                x = x[0]
            return P.id(list(x) if isinstance(x, (list, tuple)) else [x])
        for g in (used[0], used[-1]):
            if at(W.m(D, 'get_dof_vertices', g)) != seen[g]:
                raise Violation('position reported for the single number %d'
                                % g)
        for X in (W.m(D, 'get_dof_vertices'),
                  W.m(D, 'get_dof_vertices', used, as_array=False),
                  W.m(D, 'get_dof_vertices', as_array=False)):
            X = list(X)
            if len(X) != len(used) or any(
                    at(x) != seen[g] for g, x in zip(used, X)):
                raise Violation('positions of all numbers')
        # numbering again changes nothing
        before = [dofs_of(W, D, c) for c in cells]
        W.m(D, 'distribute_dofs')
        want([dofs_of(W, D, c) for c in cells], before, 'second distribution')
        return E, D

    def entities(W, M, etype, E, D):
        """entity queries return the numbers located on the entity"""
        pos = Where(W, E, 2)
        k = deg(etype)
        dpv = W.m(E, 'n_dofs', 'vertex')
        for c in all_cells(W, M):
            d = dofs_of(W, D, c)
            P = corners(W, c)
            pts = pos(c)

            def num(p):
                for g, q in zip(d, pts):
                    if all(Sym.of(a).equals(b, 1e-9) for a, b in zip(p, q)):
                        return g
                raise Violation('no degree of freedom at %s' % (p,))
            for q in range(4):
                v = W.m(c, 'get_vertex', q)
                gv = W.m(D, 'get_cell_dofs', c, v)
                want(list(gv), [num(P[q])] if dpv else [],
                     'vertex %d of a cell' % q)
                he = W.m(c, 'get_half_edge', q)
                a, b = P[q], P[(q + 1) % 4]
                inner = [num([Sym.of(x) + (Sym.of(y) - x) * m / k
                              for x, y in zip(a, b)])
                         for m in range(1, k)] if dpv else []
                want(list(W.m(D, 'get_cell_dofs', c, he, interior=True)),
                     inner, 'interior of side %d' % q)
                want(sorted(W.m(D, 'get_cell_dofs', c, he)),
                     sorted(inner + ([num(a), num(b)] if dpv else [])),
                     'side %d with its ends' % q)
            ext = set()
            for q in range(4):
                ext |= set(W.m(D, 'get_cell_dofs', c,
                               W.m(c, 'get_half_edge', q)))
            want(sorted(W.m(D, 'get_cell_dofs', c, c, interior=True)),
                 sorted(set(d) - ext), 'cell interior')
            want(sorted(W.m(D, 'get_cell_dofs', c, c)), sorted(d), 'cell')
            want(list(W.m(D, 'get_cell_dofs', c, doftype='local')),
                 list(range(len(d))), 'local numbers')

    # ------------------------------------------------------------- 1D
    def line(n, etype, kind, per):
        def f():
            W = World(ctx)
            M = linemesh(W, n, periodic=per)
            cs = children(W, W.at(M, 'cells'))
            if kind == 'some':
                W.m(cs[0], 'split')
                W.m(W.m(cs[0], 'get_child', 1), 'split')
                W.m(cs[-1], 'split')
            elif kind == 'all':
                W.m(W.at(M, 'cells'), 'refine')
                W.m(W.at(M, 'cells'), 'refine')
            h = Sym.var('h', True)
            check(W, M, etype, 1, [h] if per else None)
        return f
    for etype in CONT + TORN:
        for n in (1, 2, 3):
            for kind in ('none', 'some', 'all'):
                ctx.ob('%s on %d intervals refined: %s' % (etype, n, kind),
                       line(n, etype, kind, False), wd)
        for n in (1, 2, 3):
            for kind in ('none', 'some', 'all'):
                ctx.ob('%s on %d periodic intervals refined: %s' % (
                    etype, n, kind), line(n, etype, kind, True), wd)

    # ------------------------------------------------------------- 2D
    def single(etype, depth):
        def f():
            W = World(ctx)
            X = [[Sym.var('x%d' % n), Sym.var('y%d' % n)] for n in range(4)]
            M = W.new('mesh', 'QuadMesh', x=W.arr(X),
                      connectivity=[[0, 1, 2, 3]])
            for q in range(depth):
                W.m(W.at(M, 'cells'), 'refine')
            E, D = check(W, M, etype, 2)
            entities(W, M, etype, E, D)
        return f
    for etype in CONT + TORN:
        for depth in (0, 1, 2):
            ctx.ob('%s on one cell refined %d times' % (etype, depth),
                   single(etype, depth), wd)

    def pair(i, j, kind, etype):
        def f():
            W = World(ctx)
            M, X, conn = glued(W, i, j)
            A, B = children(W, W.at(M, 'cells'))
            if 'A' in kind:
                W.m(A, 'split')
            if 'B' in kind:
                W.m(B, 'split')
            if kind == 'A2':
                for q in (0, 1, 2, 3):
                    if q not in (i, (i + 1) % 4):
                        W.m(W.m(A, 'get_child', q), 'split')
            E, D = check(W, M, etype, 2)
            if (i, j) in ((0, 1), (3, 3)):
                entities(W, M, etype, E, D)
        return f
    kinds = ['', 'A', 'B', 'AB', 'A2']
    for i, j in itertools.product(range(4), range(4)):
        for kind in kinds:
            for etype in CONT:
                if kind == 'A2' and (i + j) % 2 and ctx.tier != 'thorough':
                    continue
                ctx.ob('%s side %d on side %d refined: %s' % (
                    etype, i, j, kind or 'none'), pair(i, j, kind, etype), wd)
    for etype in TORN:
        for kind in kinds:
            ctx.ob('%s side 1 on side 3 refined: %s' % (
                etype, kind or 'none'), pair(1, 3, kind, etype), wd)

    def around(rots, which, etype):
        def f():
            W = World(ctx)
            M, X, conn = star(W, rots)
            cs = children(W, W.at(M, 'cells'))
            for q in which:
                W.m(cs[q], 'split')
            if len(which) == 4:
                q = 1
                c = W.m(cs[q], 'get_child', conn[q].index(4))
                W.m(c, 'split')
            check(W, M, etype, 2)
        return f
    for rots in [(0, 0, 0, 0), (1, 3, 2, 0), (2, 1, 0, 3)]:
        for which in [(), (0,), (1, 3), (0, 2, 3), (0, 1, 2, 3)]:
            for etype in CONT + ['DQ1']:
                ctx.ob('%s around a vertex, starts %s, refined %s' % (
                    etype, rots, which), around(rots, which, etype), wd)

    def periodic(res, per, refine, etype):
        def f():
            W = World(ctx)
            M = boxmesh(W, res, periodic=per)
            if refine == 'all':
                W.m(W.at(M, 'cells'), 'refine')
            elif refine == 'one':
                W.m(children(W, W.at(M, 'cells'))[0], 'split')
            h, k = Sym.var('h', True), Sym.var('k', True)
            check(W, M, etype, 2, [h if 0 in per else None,
                                   k if 1 in per else None])
        return f
    for etype in CONT + ['DQ0', 'DQ1']:
        for res, per in (((3, 3), {0}), ((3, 3), {1}), ((3, 3), {0, 1})):
            for refine in ('none', 'all'):
                ctx.ob('%s on a %s grid periodic in %s refined: %s' % (
                    etype, res, sorted(per), refine),
                    periodic(res, per, refine, etype), wd)
    # cells that are their own neighbours, or neighbours on both sides
    narrow = [((1, 1), {0, 1}), ((1, 2), {0}), ((1, 2), {0, 1}),
              ((2, 1), {0, 1}), ((2, 1), {1}), ((2, 2), {0, 1})]
    for etype in CONT:
        for res, per in narrow:
            for refine in ('none', 'all', 'one'):
                if refine == 'one' and etype == 'Q1':
                    continue
                ctx.ob('%s on a narrow %s grid periodic in %s refined: %s' % (
                    etype, res, sorted(per), refine),
                    periodic(res, per, refine, etype), wd)
