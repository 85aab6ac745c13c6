"""C06 construction and refinement keep the mesh consistent."""
import itertools
import numpy as np
from ..frame import want, Violation, Undecided
from ..build import (World, Sym, glued, star, boxmesh, linemesh, aslist,
                     children, coords, corners, box2)
from ..absint import Obj


class CtxStats(object):
    """counters that follow the context into worker processes"""
    def __init__(self, ctx):
        self.ctx = ctx

    def get(self, k, d=0):
        return self.ctx.stats.get(k, d)

    def __setitem__(self, k, v):
        self.ctx.stats[k] = v


def ident(W, a, b, what):
    if isinstance(a, Obj) and isinstance(b, Obj) or a is None or b is None:
        if a is not b:
            raise Violation('%s: different objects (%s, %s)' % (
                what, show(W, a), show(W, b)))
        return
    raise Undecided(what)


def show(W, o):
    try:
        if o is None:
            return 'None'
        n = o.cls.name
        if n.endswith('Vertex'):
            return '%s%s' % (n, tuple(coords(W, o)))
        if n.endswith('HalfEdge'):
            return '%s%s->%s' % (n, tuple(coords(W, W.m(o, 'base'))),
                                 tuple(coords(W, W.m(o, 'head'))))
        return n
    except Exception:
        return str(o)


def mid(p, q):
    return [(Sym.of(x) + Sym.of(y)) / 2 for x, y in zip(p, q)]


def check_edge(W, he, stats):
    """invariants of one half-edge"""
    stats['half_edges'] = stats.get('half_edges', 0) + 1
    t = W.m(he, 'twin')
    per = W.m(he, 'is_periodic')
    nm = show(W, he)
    if t is not None:
        ident(W, W.m(t, 'twin'), he, 'twin of twin of %s' % nm)
        if per is False:
            ident(W, W.m(t, 'base'), W.m(he, 'head'), 'twin base of %s' % nm)
            ident(W, W.m(t, 'head'), W.m(he, 'base'), 'twin head of %s' % nm)
        want(W.m(t, 'is_periodic'), per, 'periodicity of the twin of %s' % nm)
    if W.m(he, 'has_children') is True:
        cs = children(W, he)
        if len(cs) != 2:
            raise Violation('%s has %d children' % (nm, len(cs)))
        c0, c1 = cs
        ident(W, W.m(c0, 'base'), W.m(he, 'base'), 'first half of %s' % nm)
        ident(W, W.m(c0, 'head'), W.m(c1, 'base'), 'midpoint of %s' % nm)
        ident(W, W.m(c1, 'head'), W.m(he, 'head'), 'second half of %s' % nm)
        want(coords(W, W.m(c0, 'head')),
             mid(coords(W, W.m(he, 'base')), coords(W, W.m(he, 'head'))),
             'midpoint of %s' % nm)
        for q, c in enumerate(cs):
            check_node(W, c, he, q)
            want(W.m(c, 'is_periodic'), per, 'periodicity of half of %s' % nm)
        if t is not None and W.m(t, 'has_children') is True:
            t0, t1 = children(W, t)
            ident(W, W.m(c0, 'twin'), t1, 'twin of the first half of %s' % nm)
            ident(W, W.m(c1, 'twin'), t0, 'twin of the second half of %s' % nm)
        else:
            ident(W, W.m(c0, 'twin'), None, 'twin of half of %s' % nm)
            ident(W, W.m(c1, 'twin'), None, 'twin of half of %s' % nm)
        for c in cs:
            check_edge(W, c, stats)


def check_node(W, node, parent, pos):
    ident(W, W.m(node, 'get_parent'), parent, 'parent link')
    want(W.m(node, 'get_node_position'), pos, 'position in parent')
    want(W.m(node, 'get_depth'), W.m(parent, 'get_depth') + 1, 'depth')
    want(list(W.m(node, 'get_node_address')),
         list(W.m(parent, 'get_node_address')) + [pos], 'address')
    ident(W, W.m(parent, 'get_child', pos), node, 'child link')


def check_cell(W, cell, stats):
    stats['cells'] = stats.get('cells', 0) + 1
    hes = list(W.m(cell, 'get_half_edges'))
    n = len(hes)
    for q, he in enumerate(hes):
        nx = hes[(q + 1) % n]
        ident(W, W.m(he, 'cell'), cell, 'cell of side %d' % q)
        ident(W, W.m(he, 'next'), nx, 'side following side %d' % q)
        ident(W, W.m(nx, 'previous'), he, 'side preceding side %d' % (
            (q + 1) % n))
        ident(W, W.m(he, 'head'), W.m(nx, 'base'), 'corner %d' % (
            (q + 1) % n))
        ident(W, W.m(cell, 'get_vertex', q), W.m(he, 'base'),
              'vertex %d' % q)
        check_edge(W, he, stats)
    if W.m(cell, 'has_children') is not True:
        return
    P = corners(W, cell)
    cs = children(W, cell)
    if len(cs) != 4:
        raise Violation('%d children' % len(cs))
    cen = [sum((Sym.of(P[v][c]) for v in range(4)), Sym.of(0)) / 4
           for c in range(2)]
    for q, c in enumerate(cs):
        if c is None:
            raise Violation('child %d missing' % q)
        check_node(W, c, cell, q)
        Q = [None] * 4
        Q[q] = P[q]
        Q[(q + 1) % 4] = mid(P[q], P[(q + 1) % 4])
        Q[(q + 2) % 4] = cen
        Q[(q + 3) % 4] = mid(P[q], P[(q - 1) % 4])
        want(corners(W, c), Q, 'corners of child %d' % q)
        ident(W, W.m(c, 'get_vertex', q), W.m(cell, 'get_vertex', q),
              'corner %d' % q)
        che = list(W.m(c, 'get_half_edges'))
        up = W.m(hes[q], 'get_child', 0)
        ident(W, che[q], up, 'outer side %d of child %d' % (q, q))
        dn = W.m(hes[(q - 1) % 4], 'get_child', 1)
        ident(W, che[(q - 1) % 4], dn, 'outer side %d of child %d' % (
            (q - 1) % 4, q))
        # interior sides are shared with the adjacent children
        nb = cs[(q + 1) % 4]
        inner = W.m(che[(q + 1) % 4], 'twin')
        if inner is None:
            raise Violation('interior side of child %d has no twin' % q)
        ident(W, W.m(inner, 'cell'), nb, 'neighbour across interior side '
              'of child %d' % q)
        check_cell(W, c, stats)


def check_mesh(W, M, stats, conforming=True):
    cells = children(W, W.at(M, 'cells'))
    for n, c in enumerate(cells):
        want(W.m(c, 'get_node_position'), n, 'position in the forest')
        check_cell(W, c, stats)
    if not conforming:
        return
    # geometrically opposite half-edges are each other's twin
    sides = {}

    def collect(cell):
        for he in W.m(cell, 'get_half_edges'):
            k = (id(W.m(he, 'base')), id(W.m(he, 'head')))
            if k in sides and sides[k] is not he:
                raise Violation('two half-edges from %s to %s' % (
                    show(W, W.m(he, 'base')), show(W, W.m(he, 'head'))))
            sides[k] = he
        if W.m(cell, 'has_children') is True:
            for c in children(W, cell):
                collect(c)
    for c in cells:
        collect(c)
    for (b, h), he in sides.items():
        o = sides.get((h, b))
        ident(W, W.m(he, 'twin'), o, 'twin of %s' % show(W, he))


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('abstract interpretation of construction and refinement '
                     'over symbolic geometry; heap invariants (links) by '
                     'object identity, geometry by normal forms')
    ctx.explanation = (
        'Splitting a cell only touches the cell, its sides and their twins. '
        'All local configurations are enumerated (side i of one cell glued '
        'to side j of another, every order of splitting the two, twice '
        'nested splits at the interface, four cells around a vertex in every '
        'rotation, periodic pairs) with independent symbols for all vertex '
        'coordinates; after each the links and coordinates of every reachable '
        'cell and half-edge are compared with the invariants.')
    ctx.assumptions = ['mesh cells are given counter-clockwise and are not '
                       'degenerate']
    stats = CtxStats(ctx)
    ws = ctx.where('mesh', 'QuadCell.split')
    wh = ctx.where('mesh', 'HalfEdge.split')
    wd = ctx.where('mesh', 'DCEL.determine_half_edges')

    # ------------------------------------------------------- half-edges
    def edge_case(first):
        def f():
            W = World(ctx)
            p = [Sym.var('p0'), Sym.var('p1')]
            q = [Sym.var('q0'), Sym.var('q1')]
            he = W.halfedge(p, q)
            tw = W.m(he, 'make_twin')
            ident(W, W.m(he, 'twin'), tw, 'make_twin')
            order = [he, tw] if first == 0 else [tw, he]
            W.m(order[0], 'split')
            check_edge(W, order[0], stats)
            W.m(order[1], 'split')
            check_edge(W, he, stats)
            check_edge(W, tw, stats)
            # second generation, alternating side
            W.m(W.m(order[1], 'get_child', 0), 'split')
            W.m(W.m(order[0], 'get_child', 1), 'split')
            W.m(W.m(order[0], 'get_child', 0), 'split')
            check_edge(W, he, stats)
            check_edge(W, tw, stats)
        return f
    for k in (0, 1):
        ctx.ob('half-edge and twin split, order %d' % k, edge_case(k), wh)

    def twin_late():
        W = World(ctx)
        he = W.halfedge([Sym.var('p0'), Sym.var('p1')],
                        [Sym.var('q0'), Sym.var('q1')])
        W.m(he, 'split')
        tw = W.m(he, 'make_twin')
        W.m(tw, 'split')
        check_edge(W, tw, stats)
        check_edge(W, he, stats)
        ch = W.m(W.m(he, 'get_child', 0), 'twin')
        ident(W, ch, W.m(tw, 'get_child', 1), 'twin of first half')
    ctx.ob('twin made after splitting', twin_late, wh)

    def linking():
        W = World(ctx)
        vs = [W.vertex(Sym.var('x%d' % n), Sym.var('y%d' % n))
              for n in range(3)]
        for setter in ('assign_next', 'assign_previous'):
            e0 = W.new('mesh', 'HalfEdge', vs[0], vs[1])
            e1 = W.new('mesh', 'HalfEdge', vs[1], vs[2])
            if setter == 'assign_next':
                W.m(e0, setter, e1)
            else:
                W.m(e1, setter, e0)
            ident(W, W.m(e0, 'next'), e1, setter)
            ident(W, W.m(e1, 'previous'), e0, setter)
    ctx.ob('next/previous are set together', linking,
           ctx.where('mesh', 'HalfEdge.assign_next'))

    # ------------------------------------------------------- intervals
    def intervals(nch):
        def f():
            W = World(ctx)
            a, h = Sym.var('a'), Sym.var('h', True)
            v0, v1 = W.vertex(a), W.vertex(a + h)
            I = W.new('mesh', 'Interval', v0, v1, n_children=nch)
            W.m(I, 'split')
            cs = children(W, I)
            if len(cs) != nch:
                raise Violation('%d children, expected %d' % (len(cs), nch))
            for q, c in enumerate(cs):
                check_node(W, c, I, q)
                want(coords(W, W.m(c, 'base')), [a + h * q / nch],
                     'base of child %d' % q)
                want(coords(W, W.m(c, 'head')), [a + h * (q + 1) / nch],
                     'head of child %d' % q)
            ident(W, W.m(cs[0], 'base'), v0, 'left end')
            ident(W, W.m(cs[-1], 'head'), v1, 'right end')
            for c, d in zip(cs, cs[1:]):
                ident(W, W.m(c, 'head'), W.m(d, 'base'), 'shared vertex')
                ident(W, W.m(c, 'next'), d, 'next interval')
                ident(W, W.m(d, 'previous'), c, 'previous interval')
        return f
    for nch in (2, 3, 4):
        ctx.ob('interval split in %d' % nch, intervals(nch),
               ctx.where('mesh', 'Interval.split'))

    def line(n, kw):
        def f():
            W = World(ctx)
            M = linemesh(W, n, **kw)
            a, h = Sym.var('a'), Sym.var('h', True)
            cs = children(W, W.at(M, 'cells'))
            if len(cs) != n:
                raise Violation('%d cells' % len(cs))
            for q, c in enumerate(cs):
                want(coords(W, W.m(c, 'base')), [a + h * q / n], 'base')
                want(coords(W, W.m(c, 'head')), [a + h * (q + 1) / n], 'head')
            for c, d in zip(cs, cs[1:]):
                ident(W, W.m(c, 'head'), W.m(d, 'base'), 'shared vertex')
                ident(W, W.m(c, 'next'), d, 'next')
                ident(W, W.m(d, 'previous'), c, 'previous')
            per = bool(kw.get('periodic'))
            want(bool(W.m(M, 'is_periodic')), per, 'periodic mesh')
            want(W.m(M, 'dim'), 1, 'dimension')
            for v, c, w in ((W.m(cs[0], 'base'), cs[-1], W.m(cs[-1], 'head')),
                            (W.m(cs[-1], 'head'), cs[0], W.m(cs[0], 'base'))):
                want(W.m(v, 'is_periodic'), per, 'periodic end')
                if per:
                    prs = list(W.m(v, 'get_periodic_pair'))
                    if len(prs) != 1:
                        raise Violation('%d periodic partners' % len(prs))
                    ident(W, prs[0][0], c, 'periodic neighbour')
                    ident(W, prs[0][1], w, 'periodic vertex')
            W.m(W.at(M, 'cells'), 'refine')
            for q, c in enumerate(cs):
                k = children(W, c)
                want(coords(W, W.m(k[0], 'head')),
                     [a + h * (2 * q + 1) / (2 * n)], 'midpoint')
        return f
    for n in (1, 2, 3, 5):
        ctx.ob('1D mesh of %d cells' % n, line(n, {}),
               ctx.where('mesh', 'Mesh1D.__init__'))
        if n > 1:
            ctx.ob('periodic 1D mesh of %d cells' % n,
                   line(n, dict(periodic=True)),
                   ctx.where('mesh', 'Mesh1D.__init__'))

    def points1d():
        W = World(ctx)
        xs = [2.5, -1.0, 0.25, 0.75]
        M = W.new('mesh', 'Mesh1D', x=W.arr(xs))
        cs = children(W, W.at(M, 'cells'))
        want([[coords(W, W.m(c, 'base'))[0], coords(W, W.m(c, 'head'))[0]]
              for c in cs],
             [[-1.0, 0.25], [0.25, 0.75], [0.75, 2.5]], 'intervals')
    ctx.ob('1D mesh from unsorted points', points1d,
           ctx.where('mesh', 'DCEL.grid_from_connectivity'))

    # ------------------------------------------------------- single cell
    def single():
        W = World(ctx)
        C, P = W.gquad()
        W.m(C, 'split')
        check_cell(W, C, stats)
        for q in range(4):
            W.m(W.m(C, 'get_child', q), 'split')
            check_cell(W, C, stats)
        tot = sum((Sym.of(W.m(c, 'area')) for c in children(W, C)), Sym.of(0))
        want(tot, W.m(C, 'area'), 'areas of the children add up')
    ctx.ob('single cell split twice', single, ws)

    def flagged():
        W = World(ctx)
        C, P = W.gquad()
        W.m(C, 'split', flag='f')
        for c in children(W, C):
            want(W.m(c, 'is_marked', 'f'), True, 'child flag')
        want(W.m(C, 'is_marked', 'f'), False, 'parent flag')
    ctx.ob('split marks the children only', flagged, ws)

    def rect_flag():
        W = World(ctx)
        C, P = W.rect()
        want(W.m(C, 'is_rectangle'), True, 'rectangle')
        W.m(C, 'split')
        for c in children(W, C):
            want(W.m(c, 'is_rectangle'), True, 'child of a rectangle')
        D, P = W.gquad()
        want(W.m(D, 'is_rectangle'), False, 'generic quadrilateral')
        W.m(D, 'split')
        for c in children(W, D):
            want(W.m(c, 'is_rectangle'), False, 'child of a generic cell')
    ctx.ob('rectangularity is inherited', rect_flag,
           ctx.where('mesh', 'QuadCell.__init__'))

    # ------------------------------------------------------- glued pairs
    def touching(W, cell, side):
        """the two children of cell with a half on the given side"""
        return [W.m(cell, 'get_child', side),
                W.m(cell, 'get_child', (side + 1) % 4)]

    def pair(i, j, order):
        def f():
            W = World(ctx)
            M, X, conn = glued(W, i, j)
            A, B = children(W, W.at(M, 'cells'))
            want(corners(W, A), [X[v] for v in conn[0]], 'first cell')
            want(corners(W, B), [X[v] for v in conn[1]], 'second cell')
            check_mesh(W, M, stats)
            seq = [A, B] if order == 0 else [B, A]
            sd = [i, j] if order == 0 else [j, i]
            W.m(seq[0], 'split')
            check_mesh(W, M, stats)
            # nested: split one touching child before the neighbour
            W.m(seq[1], 'split')
            check_mesh(W, M, stats)
            t0 = touching(W, seq[0], sd[0])
            t1 = touching(W, seq[1], sd[1])
            for c in (t1[0], t0[1], t0[0], t1[1]):
                W.m(c, 'split')
                check_mesh(W, M, stats)
        return f
    for i, j in itertools.product(range(4), range(4)):
        for order in (0, 1):
            ctx.ob('side %d glued to side %d, order %d' % (i, j, order),
                   pair(i, j, order), ws)

    # ------------------------------------------------------- four cells
    def around(rots, order):
        def f():
            W = World(ctx)
            M, X, conn = star(W, rots)
            check_mesh(W, M, stats)
            cs = children(W, W.at(M, 'cells'))
            for q in order:
                W.m(cs[q], 'split')
                check_mesh(W, M, stats)
            # refine the children meeting at the common vertex
            for q in order:
                P = conn[q].index(4)
                W.m(W.m(cs[q], 'get_child', P), 'split')
            check_mesh(W, M, stats)
            ident(W, W.m(cs[0], 'get_vertex', conn[0].index(4)),
                  W.m(cs[2], 'get_vertex', conn[2].index(4)),
                  'common vertex')
        return f
    rots = [(0, 0, 0, 0), (1, 2, 3, 0), (3, 1, 0, 2), (2, 2, 1, 3)]
    orders = [(0, 1, 2, 3), (2, 0, 3, 1)]
    if ctx.tier == 'thorough':
        orders = list(itertools.permutations(range(4)))
    for r in rots:
        for o in orders:
            ctx.ob('four cells, corner starts %s, split order %s' % (r, o),
                   around(r, o), ws)

    # ------------------------------------------------------- grids
    def directions(W, M, per):
        """the directions in which a mesh says it is periodic"""
        want(W.m(M, 'dim'), 2, 'dimension')
        want(bool(W.m(M, 'is_periodic')), bool(per), 'periodic')
        for q in ({0}, {1}, {0, 1}, set()):
            for z in (q, list(q), tuple(q), list(q)[::-1]):
                want(bool(W.m(M, 'is_periodic', z)), q <= per,
                     'periodic in the directions %s' % sorted(q))

    def grid(nx, ny):
        def f():
            W = World(ctx)
            M = boxmesh(W, (nx, ny))
            a, b = Sym.var('a'), Sym.var('b')
            h, k = Sym.var('h', True), Sym.var('k', True)
            cs = children(W, W.at(M, 'cells'))
            if len(cs) != nx * ny:
                raise Violation('%d cells for a %d x %d grid' % (
                    len(cs), nx, ny))
            for n, c in enumerate(cs):
                ix, iy = n % nx, n // nx
                x0, x1 = a + h * ix / nx, a + h * (ix + 1) / nx
                y0, y1 = b + k * iy / ny, b + k * (iy + 1) / ny
                want(corners(W, c), [[x0, y0], [x1, y0], [x1, y1], [x0, y1]],
                     'cell %d' % n)
            directions(W, M, set())
            want(W.m(M, 'is_rectangular'), True, 'rectangular cells')
            check_mesh(W, M, stats)
            W.m(W.m(W.at(M, 'cells'), 'get_child', 0), 'mark', 'r')
            W.m(W.at(M, 'cells'), 'refine', refinement_flag='r')
            check_mesh(W, M, stats)
            W.m(W.at(M, 'cells'), 'refine')
            check_mesh(W, M, stats)
        return f
    for res in ((1, 1), (2, 1), (1, 3), (2, 2), (3, 2)):
        ctx.ob('%d x %d grid' % res, grid(*res), wd)

    def periodic(res, per):
        def f():
            W = World(ctx)
            M = boxmesh(W, res, periodic=per)
            nx, ny = res
            h, k = Sym.var('h', True), Sym.var('k', True)
            cs = children(W, W.at(M, 'cells'))

            def at(ix, iy):
                return cs[(iy % ny) * nx + ix % nx]
            step = [(0, -1), (1, 0), (0, 1), (-1, 0)]

            def neighbours(level):
                for ix in range(nx):
                    for iy in range(ny):
                        c = at(ix, iy)
                        for q, (dx, dy) in enumerate(step):
                            jx, jy = ix + dx, iy + dy
                            wrapx = not 0 <= jx < nx
                            wrapy = not 0 <= jy < ny
                            he = W.m(c, 'get_half_edge', q)
                            t = W.m(he, 'twin')
                            if (wrapx and 0 not in per) or \
                                    (wrapy and 1 not in per):
                                ident(W, t, None, 'boundary side')
                                continue
                            if t is None:
                                raise Violation('side %d of cell %s is not '
                                                'paired' % (q, (ix, iy)))
                            ident(W, t, W.m(at(jx, jy), 'get_half_edge',
                                            (q + 2) % 4), 'opposite side')
                            want(W.m(he, 'is_periodic'), wrapx or wrapy,
                                 'periodic flag')
                            sh = [0, 0]
                            if wrapx:
                                sh[0] = h if jx < 0 else -h
                            if wrapy:
                                sh[1] = k if jy < 0 else -k
                            want(coords(W, W.m(t, 'head')),
                                 [Sym.of(x) + s for x, s in
                                  zip(coords(W, W.m(he, 'base')), sh)],
                                 'image of the base vertex')
            neighbours(0)
            directions(W, M, per)
            check_mesh(W, M, stats, conforming=False)
            W.m(W.at(M, 'cells'), 'refine')
            neighbours(1)
            directions(W, M, per)
            check_mesh(W, M, stats, conforming=False)
        return f
    for res, per in (((2, 2), {0}), ((2, 3), {1}), ((2, 2), {0, 1}),
                     ((3, 2), {0, 1})):
        ctx.ob('%s grid periodic in %s' % (res, sorted(per)),
               periodic(res, per), ctx.where('mesh', 'DCEL.make_periodic'))

    def mixed():
        W = World(ctx)
        X = [[Sym.var('x%d' % n), Sym.var('y%d' % n)] for n in range(5)]
        M = W.new('mesh', 'Mesh2D', x=W.arr(X),
                  connectivity=[[0, 1, 2, 3], [1, 4, 2]])
        q, t = children(W, W.at(M, 'cells'))
        want(W.m(M, 'is_quadmesh'), False, 'is_quadmesh')
        want(len(W.m(t, 'get_half_edges')), 3, 'triangle')
        for c, cv in ((q, [0, 1, 2, 3]), (t, [1, 4, 2])):
            want(corners(W, c), [X[v] for v in cv], 'corners')
        tw = W.m(W.m(q, 'get_half_edge', 1), 'twin')
        ident(W, tw, W.m(t, 'get_half_edge', 2), 'shared side')
        ident(W, W.m(tw, 'twin'), W.m(q, 'get_half_edge', 1), 'shared side')
        M2, dummy, dummy = glued(W, 0, 0, 'Mesh2D')
        want(W.m(M2, 'is_quadmesh'), True, 'is_quadmesh')
    ctx.ob('mixed triangle/quadrilateral mesh', mixed, wd)

    # ---------------------------------------------------- meshes from files
    def gmsh(cells, npts, names, lines, points, tags, blank=False):
        """text of a gmsh file (format 2.2)"""
        T = ['$MeshFormat', '2.2 0 8', '$EndMeshFormat']
        if names:
            T += ['$PhysicalNames', str(len(names))]
            T += ['%d %d "%s"' % (d, t, n) for d, t, n in names]
            T += ['$EndPhysicalNames']
        T += ['$Nodes', str(npts)]
        T += ['%d @x%d @y%d 0' % (i + 1, i, i) for i in range(npts)]
        T += ['$EndNodes', '$Elements',
              str(len(cells) + len(lines) + len(points))]
        n = 0

        def entry(kind, ents, tag):
            n = len(T)
            T.append(' '.join(str(q) for q in [n, kind, tags] + (
                [tag, 5, 1, 1][:tags]) + [e + 1 for e in ents]))
        for q in points:
            entry(15, [q], 1)
        for k, q in enumerate(lines):
            entry(1, q, 2 + k % 2)
        for c in cells:
            entry(3 if len(c) == 4 else 2, c, 9)
        T += ['$EndElements']
        return [t + '\n' for t in T]

    def imported(cls, cells, npts, **kw):
        def f():
            W = World(ctx)
            text = gmsh(cells, npts, **kw)
            from ..ext import TextFile
            W.it.files['mesh.msh'] = lambda: TextFile(list(text))
            M = W.new('mesh', cls, file_path='mesh.msh')
            X = [[Sym.var('x%d' % n), Sym.var('y%d' % n)]
                 for n in range(npts)]
            R = W.new('mesh', cls, x=W.arr(X), connectivity=[
                list(c) for c in cells])
            got = children(W, W.at(M, 'cells'))
            ref = children(W, W.at(R, 'cells'))
            want(len(got), len(cells), 'number of cells')
            for c, r, vs in zip(got, ref, cells):
                want(corners(W, c), [X[v] for v in vs],
                     'corners of a cell of the file')
                hs = aslist(W, W.m(c, 'get_half_edges'))
                gs = aslist(W, W.m(r, 'get_half_edges'))
                want(len(hs), len(gs), 'number of sides')
                for h, g in zip(hs, gs):
                    t, u = W.m(h, 'twin'), W.m(g, 'twin')
                    if (t is None) != (u is None):
                        raise Violation('a side of a mesh read from a file '
                                        'is %sjoined to its neighbour' % (
                                            'not ' if t is None else ''))
                    if t is not None:
                        k = ref.index(W.m(u, 'cell'))
                        ident(W, W.m(t, 'cell'), got[k],
                              'neighbour across a side')
                        ident(W, W.m(t, 'twin'), h, 'twin of the twin')
            vs = {}
            for c, conn in zip(got, cells):
                for v, n in zip(aslist(W, W.m(c, 'get_vertices')), conn):
                    ident(W, vs.setdefault(n, v), v, 'node %d of the file'
                          % n)
            st = CtxStats(ctx)
            if cls == 'QuadMesh':
                check_mesh(W, M, st)
            D = W.at(M, 'dcel')
            S = W.at(D, 'subregions')
            want([list(S['names']), list(S['tags']), list(S['dim'])],
                 [[n for d, t, n in kw['names']],
                  [t for d, t, n in kw['names']],
                  [d for d, t, n in kw['names']]], 'physical names')
            if kw['tags'] and cells:
                fa = W.at(D, 'faces')['tags']
                want(list(fa.get('phys', [])), [9] * len(cells),
                     'physical tags of the cells')
        return f
    names = [(1, 2, 'left'), (1, 3, 'right'), (2, 9, 'fluid')]
    quads = [[0, 1, 2, 3], [2, 1, 4, 5]]
    turned = [[3, 4, 1, 0], [1, 4, 5, 2], [7, 6, 3, 0]]
    tris = [[0, 1, 2], [2, 1, 3], [0, 2, 4]]
    for cls, cells, npts, kind in (
            ('QuadMesh', quads, 6, 'two quadrilaterals'),
            ('QuadMesh', [[2, 3, 1, 0]], 4, 'one quadrilateral'),
            ('QuadMesh', turned, 8, 'turned quadrilaterals'),
            ('Mesh2D', quads, 6, 'two quadrilaterals'),
            ('Mesh2D', tris, 5, 'triangles')):
        for nm, ln, pt, tg in ((names, [[0, 1], [1, 2]], [], 2),
                               ([], [[0, 1]], [], 2),
                               (names, [], [0], 2),
                               (names, [[0, 1]], [0, 2], 3),
                               (names, [[1, 0]], [], 4)):
            ctx.ob('%s from a file: %s, %d names, %d lines, %d points, '
                   '%d tags' % (cls, kind, len(nm), len(ln), len(pt), tg),
                   imported(cls, cells, npts, names=nm, lines=ln, points=pt,
                            tags=tg),
                   ctx.where('mesh', 'DCEL.grid_from_gmsh'))
