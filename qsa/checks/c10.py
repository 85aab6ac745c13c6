"""C10 neighbour, boundary and region queries match the mesh."""
import itertools
from ..frame import want, Violation, Undecided
from ..absint import Native
from ..build import (World, Sym, glued, star, boxmesh, linemesh, aslist,
                     children, coords, corners, box2)
from .c06 import ident, show
from .fe_common import all_cells, leaves


def ring(W, order=None):
    """eight cells around a hole; numeric 4x4 vertices"""
    X = [[float(i), float(j)] for j in range(4) for i in range(4)]
    cells = []
    for j in range(3):
        for i in range(3):
            if (i, j) != (1, 1):
                v = j * 4 + i
                cells.append([v, v + 1, v + 5, v + 4])
    if order:
        cells = [cells[q] for q in order]
    return W.new('mesh', 'QuadMesh', x=W.arr(X), connectivity=cells)


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('abstract interpretation of the queries over enumerated '
                     'local mesh patterns; results compared with incidence '
                     'computed from object identities')
    ctx.explanation = (
        'Neighbour queries walk from side to side around a vertex; boundary '
        'and region queries enumerate sides and leaves. They are interpreted '
        'on all gluings of two cells, four cells in different rotations, '
        'rings with holes, refined corners and submeshes, and compared with '
        'the incidence relations read off the heap.')
    ctx.assumptions = ['the neighbour of the same level is asked for; the '
                       'walk passes through cells of that level only']
    wn = ctx.where('mesh', 'Cell.get_neighbors')
    wi = ctx.where('mesh', 'Interval.get_neighbor')
    wb = ctx.where('mesh', 'Mesh2D.get_boundary_segments')

    # ----------------------------------------------------- cell neighbours
    def expect_vertex(W, cells, c, v):
        """same-level cells around v, reached across shared sides"""
        d = W.m(c, 'get_depth')
        ring = [x for x in cells if W.m(x, 'get_depth') == d and
                any(u is v for u in W.m(x, 'get_vertices'))]
        hit, todo = [c], [c]
        while todo:
            x = todo.pop()
            for he in W.m(x, 'get_half_edges'):
                if W.m(he, 'base') is v or W.m(he, 'head') is v:
                    t = W.m(he, 'twin')
                    if t is not None:
                        y = W.m(t, 'cell')
                        if not any(y is z for z in hit):
                            hit.append(y)
                            todo.append(y)
        return [x for x in hit if x is not c]

    def neighbours(W, M, flag=None):
        cells = all_cells(W, M)
        kw = {} if flag is None else {'flag': flag}
        for c in cells:
            for he in W.m(c, 'get_half_edges'):
                t = W.m(he, 'twin')
                exp = None if t is None else W.m(t, 'cell')
                if exp is not None and flag is not None and \
                        W.m(exp, 'is_marked', flag) is not True:
                    exp = None
                ident(W, W.m(c, 'get_neighbors', he, **kw), exp,
                      'neighbour across a side')
            for v in W.m(c, 'get_vertices'):
                exp = expect_vertex(W, cells, c, v)
                if flag is not None:
                    exp = [x for x in exp
                           if W.m(x, 'is_marked', flag) is True]
                got = aslist(W, W.m(c, 'get_neighbors', v, **kw))
                if len(got) != len(exp) or \
                        set(map(id, got)) != set(map(id, exp)):
                    raise Violation(
                        'around vertex %s of cell %s: %d neighbours (%d '
                        'different), expected %d' % (
                            show(W, v), W.m(c, 'get_node_address'), len(got),
                            len(set(map(id, got))), len(exp)))
                ctx.stats['neighbour_queries'] = \
                    ctx.stats.get('neighbour_queries', 0) + 1

    def pair(i, j, kind):
        def f():
            W = World(ctx)
            M, X, conn = glued(W, i, j)
            A, B = children(W, W.at(M, 'cells'))
            for k in kind:
                W.m(A if k == 'A' else B, 'split')
            neighbours(W, M)
            W.m(A, 'mark', 'f', recursive=True)
            neighbours(W, M, 'f')
        return f
    for i, j in itertools.product(range(4), range(4)):
        for kind in ('', 'A', 'AB'):
            ctx.ob('side %d on side %d refined %s' % (i, j, kind or 'none'),
                   pair(i, j, kind), wn)

    def around(rots, kind):
        def f():
            W = World(ctx)
            M, X, conn = star(W, rots)
            cs = children(W, W.at(M, 'cells'))
            for q in kind:
                W.m(cs[q], 'split')
            if len(kind) == 4:
                for q in (0, 2, 3, 1):
                    W.m(W.m(cs[q], 'get_child', conn[q].index(4)), 'split')
            neighbours(W, M)
            for q in (0, 2):
                W.m(cs[q], 'mark', 'f', recursive=True)
            neighbours(W, M, 'f')
        return f
    for rots in [(0, 0, 0, 0), (1, 3, 2, 0), (3, 2, 1, 0)]:
        for kind in [(), (1,), (0, 3), (0, 1, 2, 3)]:
            ctx.ob('four cells, starts %s, refined %s' % (rots, kind),
                   around(rots, kind), wn)

    def periodic(res, per, refine):
        """cells at the same place, up to the periods, around each corner"""
        def f():
            W = World(ctx)
            M = boxmesh(W, res, periodic=set(per))
            if refine == 'all':
                W.m(W.at(M, 'cells'), 'refine')

            P = [Sym.var('h', True), Sym.var('k', True)]

            def same(u, v):
                for q, (s, t) in enumerate(zip(coords(W, u), coords(W, v))):
                    d = Sym.of(s) - Sym.of(t)
                    if not any(bool(d - r * P[q] == 0) for r in (
                            (-1, 0, 1) if q in per else (0,))):
                        return False
                return True
            for d in ((0,) if refine == 'none' else (0, 1)):
                level = [c for c in all_cells(W, M)
                         if W.m(c, 'get_depth') == d]
                if not level:
                    raise Undecided('no cells of depth %d' % d)
                for c in level:
                    for v in W.m(c, 'get_vertices'):
                        exp = [x for x in level if x is not c and any(
                            same(u, v)
                            for u in W.m(x, 'get_vertices'))]
                        got = aslist(W, W.m(c, 'get_neighbors', v))
                        if len(got) != len(exp) or \
                                set(map(id, got)) != set(map(id, exp)):
                            raise Violation(
                                'around %s of cell %s: %d neighbours (%d '
                                'different), expected %d' % (
                                    show(W, v), W.m(c, 'get_node_address'),
                                    len(got), len(set(map(id, got))),
                                    len(exp)))
                        ctx.stats['neighbour_queries'] = \
                            ctx.stats.get('neighbour_queries', 0) + 1
        return f
    for res in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2),
                (3, 3)):
        for per in ({0}, {1}, {0, 1}):
            for refine in ('none', 'all'):
                ctx.ob('periodic %s in %s refined %s' % (
                    res, sorted(per), refine), periodic(res, per, refine), wn)

    # ------------------------------------------------- interval neighbours
    def line(n, per, kind):
        def f():
            W = World(ctx)
            M = linemesh(W, n, periodic=per)
            cs = children(W, W.at(M, 'cells'))
            if kind == 'mixed':
                W.m(cs[0], 'split')
                W.m(W.m(cs[0], 'get_child', 1), 'split')
                W.m(cs[-1], 'split') if n > 1 else None
                W.m(W.m(cs[-1], 'get_child', 0), 'split') if n > 1 else None
            elif kind == 'sub':
                for c in cs:
                    W.m(c, 'split')
                    W.m(c, 'mark', 's')
                for c in children(W, cs[0]):
                    W.m(c, 'mark', 's')
            flag = 's' if kind == 'sub' else None
            L = []

            def rec(c):
                kids = [k for k in (children(W, c) if W.m(
                    c, 'has_children') is True else [])
                    if flag is None or W.m(k, 'is_marked', flag) is True]
                if not kids:
                    L.append(c)
                for k in kids:
                    rec(k)
            for c in cs:
                rec(c)
            kw = {'subforest_flag': flag}
            for q, c in enumerate(L):
                left = L[q - 1] if q else L[-1] if per else None
                right = L[q + 1] if q + 1 < len(L) else L[0] if per else None
                ident(W, W.m(c, 'get_neighbor', 0, **kw), left,
                      'left neighbour of interval %d' % q)
                ident(W, W.m(c, 'get_neighbor', 1, **kw), right,
                      'right neighbour of interval %d' % q)
                ident(W, W.m(c, 'get_neighbor', W.m(c, 'base'), **kw), left,
                      'neighbour at the base of interval %d' % q)
                ident(W, W.m(c, 'get_neighbor', W.m(c, 'head'), **kw), right,
                      'neighbour at the head of interval %d' % q)
            if per:
                return
            b = W.m(M, 'get_boundary_cells', **kw)
            ident(W, b[0], L[0], 'left boundary cell')
            ident(W, b[1], L[-1], 'right boundary cell')
            v = W.m(M, 'get_boundary_vertices')
            ident(W, v[0], W.m(cs[0], 'base'), 'left boundary vertex')
            ident(W, v[1], W.m(cs[-1], 'head'), 'right boundary vertex')
            want(list(W.m(M, 'bounding_box')),
                 [Sym.var('a'), Sym.var('a') + Sym.var('h', True)],
                 'bounding box')
        return f
    for n in (1, 2, 3):
        for per in (False, True):
            for kind in ('none', 'mixed', 'sub'):
                if per and n == 1:
                    continue
                ctx.ob('%d intervals periodic=%s %s' % (n, per, kind),
                       line(n, per, kind), wi)

    def levelwise():
        W = World(ctx)
        M = linemesh(W, 3, periodic=True)
        cs = children(W, W.at(M, 'cells'))
        W.m(cs[0], 'split')
        W.m(cs[2], 'split')
        kw = {'mode': 'level-wise'}
        ident(W, W.m(cs[1], 'get_neighbor', 0, **kw), cs[0], 'left')
        ident(W, W.m(cs[1], 'get_neighbor', 1, **kw), cs[2], 'right')
        f, l = children(W, cs[0]), children(W, cs[2])
        ident(W, W.m(f[0], 'get_neighbor', 1, **kw), f[1], 'sibling')
        ident(W, W.m(f[1], 'get_neighbor', 0, **kw), f[0], 'sibling')
        ident(W, W.m(f[0], 'get_neighbor', 0, **kw), l[1],
              'left neighbour across the periodic end')
        ident(W, W.m(l[1], 'get_neighbor', 1, **kw), f[0],
              'right neighbour across the periodic end')
    ctx.ob('level-wise neighbours across a periodic end', levelwise, wi)

    # ------------------------------------------------------------ boundary
    def boundary(build, comps):
        def f():
            W = World(ctx)
            M = build(W)
            check_boundary(W, M, None, comps)
        return f

    def check_boundary(W, M, sub, comps, flag=None):
        lv = [c for c in all_cells(W, M)
              if (sub is None or W.m(c, 'is_marked', sub) is True) and
              W.m(c, 'has_children', flag=sub) is not True]
        exp = []
        for c in lv:
            for he in W.m(c, 'get_half_edges'):
                top = he
                while W.m(top, 'has_parent') is True:
                    top = W.m(top, 'get_parent')
                # interior sides created by a split have a twin
                if W.m(top, 'twin') is None:
                    if flag is None or W.m(he, 'is_marked', flag) is True:
                        exp.append(he)
        kw = {'subforest_flag': sub}
        if flag is not None:
            kw['flag'] = flag
        segs = [aslist(W, s) for s in aslist(
            W, W.m(M, 'get_boundary_segments', **kw))]
        got = [he for s in segs for he in s]
        if len(got) != len(exp) or set(map(id, got)) != set(map(id, exp)):
            raise Violation('%d boundary sides reported (%d different), '
                            'expected %d' % (len(got), len(set(map(id, got))),
                                             len(exp)))
        ctx.stats['boundary_sides'] = \
            ctx.stats.get('boundary_sides', 0) + len(exp)
        if flag is None:
            if len(segs) != comps:
                raise Violation('%d boundary segments, expected %d' % (
                    len(segs), comps))
            for s in segs:
                for p, q in zip(s, s[1:]):
                    ident(W, W.m(p, 'head'), W.m(q, 'base'),
                          'consecutive boundary sides')
                ident(W, W.m(s[-1], 'head'), W.m(s[0], 'base'),
                      'boundary segment closes')
        bv = aslist(W, W.m(M, 'get_boundary_vertices', **kw))
        ev = [W.m(he, 'base') for he in exp]
        if sorted(map(id, bv)) != sorted(map(id, ev)):
            raise Violation('%d boundary vertices, expected %d' % (
                len(bv), len(ev)))

    def grid(res, refine):
        def b(W):
            M = boxmesh(W, res)
            if refine == 'all':
                W.m(W.at(M, 'cells'), 'refine')
            elif refine == 'one':
                c = W.m(W.at(M, 'cells'), 'get_child', 0)
                W.m(c, 'split')
                W.m(W.m(c, 'get_child', 0), 'split')
            return M
        return b
    for res in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3)):
        for refine in ('none', 'one', 'all'):
            ctx.ob('boundary of a %s grid refined %s' % (res, refine),
                   boundary(grid(res, refine), 1), wb)
    for rots in [(0, 0, 0, 0), (1, 3, 2, 0), (3, 2, 1, 0)]:
        ctx.ob('boundary of four cells, starts %s' % (rots,),
               boundary(lambda W, r=rots: star(W, r)[0], 1), wb)
    for order in (None, (3, 0, 5, 7, 1, 2, 6, 4), (7, 6, 5, 4, 3, 2, 1, 0)):
        ctx.ob('boundary of a ring, cell order %s' % (order,),
               boundary(lambda W, o=order: ring(W, o), 2), wb)
    for i, j in itertools.product(range(4), range(4)):
        ctx.ob('boundary, side %d on side %d' % (i, j),
               boundary(lambda W, i=i, j=j: glued(W, i, j)[0], 1), wb)

    def marked_boundary(keep):
        def f():
            W = World(ctx)
            M = boxmesh(W, (2, 2))
            for n, he in enumerate(aslist(W, W.m(W.at(M, 'half_edges'),
                                                 'get_children'))):
                if keep >> n & 1:
                    W.m(he, 'mark', 'g')
            check_boundary(W, M, None, None, 'g')
        return f
    for keep in (0b1001100110011001, 0b0000000011111111, 0xffff,
                 0b1000000000000001, 0):
        ctx.ob('labelled boundary sides %x' % keep, marked_boundary(keep), wb)

    def sub_boundary():
        W = World(ctx)
        M = boxmesh(W, (2, 1))
        W.m(W.at(M, 'cells'), 'refine')
        A, B = children(W, W.at(M, 'cells'))
        for c in (A, B):
            W.m(c, 'mark', 's')
        for c in children(W, A):
            W.m(c, 'mark', 's')
        check_boundary(W, M, 's', 1)
    ctx.ob('boundary of a submesh', sub_boundary, wb)

    # ------------------------------------------------------------- regions
    def fun2(W, kind):
        """region function on the vertices of a unit 3x3-vertex grid"""
        def g(it, a, kw):
            x, y = [float(Sym.of(v).const()) for v in a[:2]]
            return {'left': x < 0.6, 'bottom': y < 0.1,
                    'corner': x > 0.4 and y > 0.4,
                    'none': False}[kind]
        return Native('region', g), lambda p: g(None, p, {})

    def region2(kind, etype, strict, on_b, refine):
        def f():
            W = World(ctx)
            M = W.new('mesh', 'QuadMesh', resolution=(2, 2))
            if refine == 'sub':
                W.m(W.at(M, 'cells'), 'refine')
                cs = children(W, W.at(M, 'cells'))
                for c in cs:
                    W.m(c, 'mark', 's')
                for c in children(W, cs[0]) + children(W, cs[3]):
                    W.m(c, 'mark', 's')
            elif refine == 'one':
                W.m(W.m(W.at(M, 'cells'), 'get_child', 0), 'split')
            sub = 's' if refine == 'sub' else None
            fn, py = fun2(W, kind)
            W.m(M, 'mark_region', 'r', fn, entity_type=etype,
                strict_containment=strict, on_boundary=on_b,
                subforest_flag=sub)
            L = [c for c in all_cells(W, M)
                 if (sub is None or W.m(c, 'is_marked', sub) is True) and
                 W.m(c, 'has_children', flag=sub) is not True]

            def is_b(he):
                while W.m(he, 'has_parent') is True:
                    he = W.m(he, 'get_parent')
                return W.m(he, 'twin') is None
            ents, pairs = [], []
            for c in L:
                hes = list(W.m(c, 'get_half_edges'))
                if on_b:
                    hes = [h for h in hes if is_b(h)]
                if etype == 'cell':
                    if hes:
                        ents.append(c)
                        pairs.append((c, c))
                elif etype == 'half_edge':
                    ents.extend(hes)
                    pairs.extend((h, c) for h in hes)
                else:
                    for h in hes:
                        for v in W.m(h, 'get_vertices'):
                            ents.append(v)
                            pairs.append((v, c))

            def inside(e):
                if etype == 'vertex':
                    return py(coords(W, e))
                q = [py(coords(W, v)) for v in W.m(e, 'get_vertices')]
                return all(q) if strict else any(q)
            exp = set(id(e) for e in ents if inside(e))
            # labels: exactly the entities of the (boundary of the) mesh
            everything = {}
            for c in all_cells(W, M):
                everything[id(c)] = c
                for h in W.m(c, 'get_half_edges'):
                    everything[id(h)] = h
                    for v in W.m(h, 'get_vertices'):
                        everything[id(v)] = v
            marked = set(k for k, e in everything.items()
                         if W.m(e, 'is_marked', 'r') is True)
            if marked != exp:
                raise Violation('mark_region labels %d entities, expected %d'
                                % (len(marked), len(exp)))
            kw = dict(entity_type=etype, on_boundary=on_b,
                      subforest_flag=sub)
            got = aslist(W, W.m(M, 'get_region', flag='r', **kw))
            if len(got) != len(exp) or set(map(id, got)) != exp:
                raise Violation('get_region returns %d entities, expected %d'
                                % (len(got), len(exp)))
            allgot = aslist(W, W.m(M, 'get_region', **kw))
            if set(map(id, allgot)) != set(map(id, ents)):
                raise Violation('get_region without label returns %d '
                                'entities, expected %d' % (
                                    len(allgot), len(set(map(id, ents)))))
            pg = [tuple(map(id, p)) for p in aslist(W, W.m(
                M, 'get_region', flag='r', return_cells=True, **kw))]
            pe = set((id(e), id(c)) for e, c in pairs if id(e) in exp)
            if len(pg) != len(pe) or set(pg) != pe:
                raise Violation('get_region with cells returns %d pairs, '
                                'expected %d' % (len(pg), len(pe)))
            ctx.stats['region_queries'] = \
                ctx.stats.get('region_queries', 0) + 1
        return f
    wr = ctx.where('mesh', 'Mesh2D.mark_region')
    for kind in ('left', 'bottom', 'corner', 'none'):
        for etype in ('vertex', 'half_edge', 'cell'):
            for strict in (True, False):
                if etype == 'vertex' and not strict:
                    continue
                for on_b in (False, True):
                    for refine in ('none', 'one', 'sub'):
                        ctx.ob('region %s %s strict=%s boundary=%s refined '
                               '%s' % (kind, etype, strict, on_b, refine),
                               region2(kind, etype, strict, on_b, refine), wr)

    def fun1(kind):
        def g(it, a, kw):
            x = float(Sym.of(a[0]).const())
            return {'left': x < 0.3, 'inner': 0.2 < x < 0.8,
                    'right': x > 0.7, 'none': False}[kind]
        return Native('region', g), lambda p: g(None, p, {})

    def region1(kind, etype, strict, on_b, refine):
        def f():
            W = World(ctx)
            M = W.new('mesh', 'Mesh1D', resolution=(4,))
            cs = children(W, W.at(M, 'cells'))
            sub = None
            if refine == 'one':
                W.m(cs[0], 'split')
            elif refine == 'sub':
                sub = 's'
                for c in cs:
                    W.m(c, 'split')
                    W.m(c, 'mark', 's')
                for c in children(W, cs[3]):
                    W.m(c, 'mark', 's')
            fn, py = fun1(kind)
            W.m(M, 'mark_region', 'r', fn, entity_type=etype,
                strict_containment=strict, on_boundary=on_b,
                subforest_flag=sub)
            L = [c for c in all_cells(W, M)
                 if (sub is None or W.m(c, 'is_marked', sub) is True) and
                 W.m(c, 'has_children', flag=sub) is not True]
            ends = [W.m(cs[0], 'base'), W.m(cs[-1], 'head')]
            pairs = []
            for c in L:
                vs = list(W.m(c, 'get_vertices'))
                if etype == 'cell':
                    if not on_b or any(v is e for v in vs for e in ends):
                        pairs.append((c, c))
                else:
                    for v in vs:
                        if not on_b or any(v is e for e in ends):
                            pairs.append((v, c))

            def inside(e):
                if etype == 'vertex':
                    return py(coords(W, e))
                q = [py(coords(W, v)) for v in W.m(e, 'get_vertices')]
                return all(q) if strict else any(q)
            exp = set(id(e) for e, c in pairs if inside(e))
            everything = {}
            for c in all_cells(W, M):
                everything[id(c)] = c
                for v in W.m(c, 'get_vertices'):
                    everything[id(v)] = v
            marked = set(k for k, e in everything.items()
                         if W.m(e, 'is_marked', 'r') is True)
            if marked != exp:
                raise Violation('mark_region labels %d entities, expected %d'
                                % (len(marked), len(exp)))
            kw = dict(entity_type=etype, on_boundary=on_b,
                      subforest_flag=sub)
            got = aslist(W, W.m(M, 'get_region', flag='r', **kw))
            if len(got) != len(exp) or set(map(id, got)) != exp:
                raise Violation('get_region returns %d entities, expected %d'
                                % (len(got), len(exp)))
            ents = set(id(e) for e, c in pairs)
            allgot = aslist(W, W.m(M, 'get_region', **kw))
            if set(map(id, allgot)) != ents:
                raise Violation('get_region without label returns %d '
                                'entities, expected %d' % (
                                    len(allgot), len(ents)))
            for e in everything.values():
                W.m(e, 'mark', 'all')
            allgot = aslist(W, W.m(M, 'get_region', flag='all', **kw))
            if set(map(id, allgot)) != ents:
                raise Violation('get_region of a label carried everywhere '
                                'returns %d entities, expected %d' % (
                                    len(allgot), len(ents)))
            pg = [tuple(map(id, p)) for p in aslist(W, W.m(
                M, 'get_region', flag='r', return_cells=True, **kw))]
            pe = set((id(e), id(c)) for e, c in pairs if id(e) in exp)
            if len(pg) != len(pe) or set(pg) != pe:
                raise Violation('get_region with cells returns %d pairs, '
                                'expected %d' % (len(pg), len(pe)))
            ctx.stats['region_queries'] = \
                ctx.stats.get('region_queries', 0) + 1
        return f
    wr1 = ctx.where('mesh', 'Mesh1D.mark_region')
    for kind in ('left', 'inner', 'right', 'none'):
        for etype in ('vertex', 'cell'):
            for strict in (True, False):
                if etype == 'vertex' and not strict:
                    continue
                for on_b in (False, True):
                    for refine in ('none', 'one', 'sub'):
                        ctx.ob('1D region %s %s strict=%s boundary=%s '
                               'refined %s' % (kind, etype, strict, on_b,
                                               refine),
                               region1(kind, etype, strict, on_b, refine),
                               wr1)

    def defaults(dim, etype):
        """without further arguments: the vertices, strictly contained,
        anywhere, of the whole mesh"""
        def f():
            W = World(ctx)
            if dim == 1:
                M = W.new('mesh', 'Mesh1D', resolution=(4,))
                fn, py = fun1('inner')
            else:
                M = W.new('mesh', 'QuadMesh', resolution=(2, 2))
                fn, py = fun2(W, 'left')
            W.m(W.m(W.at(M, 'cells'), 'get_child', 0), 'split')
            kw = {} if etype == 'vertex' else dict(entity_type=etype)
            W.m(M, 'mark_region', 'd', fn, **kw)
            exp, everything = set(), {}
            for c in all_cells(W, M):
                leaf = W.m(c, 'has_children') is not True
                es = list(W.m(c, 'get_vertices'))
                if etype == 'cell':
                    es = [c]
                elif etype == 'half_edge':
                    es = list(W.m(c, 'get_half_edges'))
                for e in es:
                    everything[id(e)] = e
                    vs = [e] if etype == 'vertex' else \
                        W.m(e, 'get_vertices')
                    if leaf and all(py(coords(W, v)) for v in vs):
                        exp.add(id(e))
            got = set(k for k, e in everything.items()
                      if W.m(e, 'is_marked', 'd') is True)
            if got != exp:
                raise Violation('mark_region labels %d entities, expected %d'
                                % (len(got), len(exp)))
            got = aslist(W, W.m(M, 'get_region', 'd', **kw))
            if len(got) != len(exp) or set(map(id, got)) != exp:
                raise Violation('get_region returns %d entities, expected %d'
                                % (len(got), len(exp)))
        return f
    for dim, types in ((1, ('vertex', 'cell')),
                       (2, ('vertex', 'half_edge', 'cell'))):
        for etype in types:
            ctx.ob('%dD region, %s, no other arguments' % (dim, etype),
                   defaults(dim, etype), wr)

    # ------------------------------------------------------------- balance
    def sub_balanced(i, fine, marked):
        """two cells; the first refined `fine` levels towards the second, of
        which `marked` levels belong to the submesh"""
        def f():
            W = World(ctx)
            M, X, conn = glued(W, i, (i + 2) % 4)
            A, B = children(W, W.at(M, 'cells'))
            for c in (A, B):
                W.m(c, 'mark', 's')
            c = A
            for q in range(fine):
                W.m(c, 'split')
                if q < marked:
                    for k in children(W, c):
                        W.m(k, 'mark', 's')
                c = W.m(c, 'get_child', i)
            want(W.m(M, 'is_balanced'), fine < 2, 'is_balanced')
            want(W.m(M, 'is_balanced', subforest_flag='s'), marked < 2,
                 'is_balanced of the submesh')
        return f
    for i in range(4):
        for fine in (1, 2, 3):
            for marked in range(fine + 1):
                ctx.ob('balanced submesh, side %d, %d levels, %d in the '
                       'submesh' % (i, fine, marked),
                       sub_balanced(i, fine, marked),
                       ctx.where('mesh', 'QuadMesh.is_balanced'))

    def balanced(build, exp):
        def f():
            W = World(ctx)
            M = build(W)
            want(W.m(M, 'is_balanced'), exp, 'is_balanced')
            W.m(M, 'balance')
            want(W.m(M, 'is_balanced'), True, 'is_balanced after balance')
            for c in leaves(W, M):
                d = W.m(c, 'get_depth')
                for he in W.m(c, 'get_half_edges'):
                    t = W.m(he, 'twin')
                    if t is None or W.m(t, 'has_children') is not True:
                        continue
                    for k in children(W, t):
                        if W.m(k, 'has_children') is True and W.m(
                                W.m(k, 'cell'), 'has_children') is True:
                            raise Violation('a leaf meets cells two levels '
                                            'finer after balancing')
        return f

    def deep(i, j, levels):
        def b(W):
            M, X, conn = glued(W, i, j)
            A, B = children(W, W.at(M, 'cells'))
            c = A
            for q in range(levels):
                W.m(c, 'split')
                c = W.m(c, 'get_child', i)
            return M
        return b
    for i, j in itertools.product(range(4), range(4)):
        for lv in (1, 2, 3):
            ctx.ob('balance, side %d on side %d, %d levels' % (i, j, lv),
                   balanced(deep(i, j, lv), lv < 2),
                   ctx.where('mesh', 'QuadMesh.balance'))

    # --------------------------------------------- boundary of the edge list
    def dcel_boundary(build, comps):
        def f():
            W = World(ctx)
            M = build(W)
            D = W.at(M, 'dcel')
            H = W.at(D, 'half_edges')
            conn = [[int(v) for v in p] for p in H['connectivity']]
            twin = [int(t) for t in H['twin']]
            exp = [n for n in range(int(H['n'])) if twin[n] == -1]
            segs = [[int(v) for v in aslist(W, s)] for s in aslist(
                W, W.m(D, 'get_boundary_half_edges'))]
            got = [n for s in segs for n in s]
            if sorted(got) != exp:
                raise Violation('boundary half-edges %s, expected %s' % (
                    sorted(got), exp))
            want(len(segs), comps, 'number of boundary components')
            for s in segs:
                for p, q in zip(s, s[1:] + s[:1]):
                    want(conn[q][0], conn[p][1], 'boundary order')
            ctx.stats['boundary_sides'] = \
                ctx.stats.get('boundary_sides', 0) + len(exp)
        return f
    wd = ctx.where('mesh', 'DCEL.get_boundary_half_edges')
    for order in (None, (3, 0, 5, 7, 1, 2, 6, 4), (7, 6, 5, 4, 3, 2, 1, 0)):
        ctx.ob('edge list boundary of a ring, cell order %s' % (order,),
               dcel_boundary(lambda W, o=order: ring(W, o), 2), wd)
    for rots in [(0, 0, 0, 0), (1, 3, 2, 0), (3, 2, 1, 0)]:
        ctx.ob('edge list boundary of four cells, starts %s' % (rots,),
               dcel_boundary(lambda W, r=rots: star(W, r)[0], 1), wd)
    for res in ((1, 1), (2, 1), (3, 2), (3, 3)):
        ctx.ob('edge list boundary of a %s grid' % (res,),
               dcel_boundary(lambda W, r=res: boxmesh(W, r), 1), wd)

    # --------------------------------------------------------------- tears
    def tear(mk, picks, both):
        """picks: (cell, side) of the sides labelled"""
        def f():
            W = World(ctx)
            M = mk(W)
            cells = leaves(W, M)
            every = [(c, h) for c in cells
                     for h in aslist(W, W.m(c, 'get_half_edges'))]
            before = dict((id(h), W.m(c, 'get_neighbors', h))
                          for c, h in every)
            torn = set()
            for n, k in picks:
                h = aslist(W, W.m(cells[n], 'get_half_edges'))[k]
                t = W.m(h, 'twin')
                torn |= {id(h)} | ({id(t)} if t is not None else set())
                W.m(h, 'mark', 'tear')
                if both and t is not None:
                    W.m(t, 'mark', 'tear')
            W.m(M, 'tear_region', 'tear')
            for c, h in every:
                nb = W.m(c, 'get_neighbors', h)
                if id(h) in torn:
                    if W.m(h, 'twin') is not None or nb is not None:
                        raise Violation('a torn side still has a neighbour')
                elif nb is not before[id(h)]:
                    raise Violation('a side that is not torn has another '
                                    'neighbour')
            for c, h in every:
                for q in range(2):
                    v = aslist(W, W.m(h, 'get_vertices'))[q]
                    for d, g in every:
                        if d is c or W.m(g, 'twin') is h or \
                                id(h) not in torn or id(g) not in torn:
                            continue
                        if before[id(h)] is d and before[id(g)] is c and \
                                any(u is v for u in aslist(
                                    W, W.m(g, 'get_vertices'))):
                            raise Violation('the two sides of a tear share '
                                            'a vertex')
        return f
    wt = ctx.where('mesh', 'Mesh2D.tear_region')
    for name, mk, picks in (
            ('two cells', lambda W: boxmesh(W, (2, 1)), [(0, 1)]),
            ('two cells, with a boundary side', lambda W: boxmesh(W, (2, 1)),
             [(0, 1), (0, 0)]),
            ('four cells, one side', lambda W: boxmesh(W, (2, 2)), [(1, 2)]),
            ('four cells, two sides', lambda W: boxmesh(W, (2, 2)),
             [(0, 1), (2, 1)]),
            ('two quadrilaterals', lambda W: glued(W, 1, 2)[0], [(0, 1)])):
        for both in (False, True):
            ctx.ob('tear %s, %s labelled' % (
                name, 'both sides' if both else 'one side'),
                tear(mk, picks, both), wt)
