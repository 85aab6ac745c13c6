"""C08: a submesh behaves like a mesh of its own."""
import itertools
import numpy as np
from fractions import Fraction as F
from ..frame import want, Violation, Undecided
from ..absint import Top, Alt, Native
from ..build import (World, Sym, glued, star, boxmesh, linemesh, aslist,
                     children, coords, corners)
from .fe_common import all_cells, Points, canon
from .c11 import asarr, basis, fun
from .c13 import oracle
from .c14 import rule


# -------------------------------------------------------------- mesh families
def flagless(W, M):
    return [c for c in all_cells(W, M) if W.m(c, 'has_children') is not True]


def line(n, per=False):
    return lambda W: linemesh(W, n, periodic=per)


def box(res, per=()):
    if per:
        return lambda W: boxmesh(W, res, periodic=set(per))
    return lambda W: boxmesh(W, res)


BASES = {
    'one interval': (1, line(1)), 'two intervals': (1, line(2)),
    'three periodic intervals': (1, line(3, True)),
    'one square': (2, box((1, 1))),
    'two squares': (2, box((2, 1))), 'four squares': (2, box((2, 2))),
    'periodic squares': (2, box((2, 2), (0, 1))),
    'glued': (2, lambda W: glued(W, 1, 2)[0]),
    'star': (2, lambda W: star(W, (1, 3, 2, 0))[0]),
}


def leaf_at(W, M, q):
    ls = flagless(W, M)
    return ls[q % len(ls)]


def split(W, M, which):
    """refine leaves of the finest mesh"""
    if which == 'all':
        W.m(W.at(M, 'cells'), 'refine')
    elif which == 'first':
        W.m(leaf_at(W, M, 0), 'split')
    elif which == 'last':
        W.m(leaf_at(W, M, -1), 'split')
    elif which == 'firsts':
        W.m(leaf_at(W, M, 0), 'split')
        W.m(W.at(M, 'cells'), 'refine')
        W.m(leaf_at(W, M, 0), 'split')
    elif which != 'none':
        raise KeyError(which)


def build(W, base, coarse, fine, how):
    """(mesh with submesh, label, reference mesh)"""
    dim, mk = BASES[base]
    M, R = mk(W), mk(W)
    split(W, R, coarse)
    C = W.at(M, 'cells')
    if how == 'record':
        split(W, M, coarse)
        W.m(M, 'record', 's')
        split(W, M, fine)
    elif how == 'twice':
        # an older submesh, then ours, then refinement
        W.m(M, 'record', 'old')
        split(W, M, coarse)
        W.m(M, 'record', 's')
        split(W, M, fine)
        W.m(M, 'record', 'new')
    elif how == 'grown':
        # the submesh of the roots, refined inside a finer mesh
        W.m(M, 'record', 'r')
        split(W, M, 'all')
        split(W, M, fine)
        if coarse == 'none':
            W.m(M, 'record', 'unused')
            return dim, M, 'r', R
        if coarse == 'first':
            W.m(children(W, C)[0], 'mark', 'x')
            W.m(C, 'refine', subforest_flag='r', refinement_flag='x',
                new_label='s')
        else:
            W.m(C, 'refine', subforest_flag='r', new_label='s')
    elif how == 'shrunk':
        # the finest mesh recorded, then coarsened under a new label
        split(W, M, coarse)
        W.m(M, 'record', 'keep')
        W.m(C, 'refine')
        W.m(M, 'record', 'f')
        W.m(C, 'coarsen', subforest_flag='f', new_label='s')
    else:
        raise KeyError(how)
    return dim, M, 's', R


def submesh_leaves(W, M, flag):
    """leaves by definition: labelled cells without labelled children"""
    out = []
    for c in all_cells(W, M):
        if W.m(c, 'is_marked', flag) is not True:
            continue
        kids = children(W, c) if W.m(c, 'has_children') is True else []
        if not any(W.m(k, 'is_marked', flag) is True for k in kids):
            out.append(c)
    return out


class Match(object):
    """cells of the submesh <-> cells of the reference mesh"""

    def __init__(self, W, dim, M, flag, R):
        self.W, self.dim = W, dim
        self.P = Points()
        self.a = submesh_leaves(W, M, flag)
        self.b = flagless(W, R)
        kb = {}
        for c in self.b:
            kb[self.key(c)] = c
        if len(kb) != len(self.b) or len(self.a) != len(self.b):
            raise Violation('the submesh has %d leaves, the mesh it stands '
                            'for %d' % (len(self.a), len(self.b)))
        self.pairs = []
        for c in self.a:
            k = self.key(c)
            if k not in kb:
                raise Violation('a leaf of the submesh is no cell of the '
                                'mesh it stands for')
            self.pairs.append((c, kb[k]))

    def pt(self, v):
        return self.P.id([canon(x) for x in coords(self.W, v)])

    def key(self, c):
        return tuple(self.pt(v) for v in aslist(
            self.W, self.W.m(c, 'get_vertices')))

    def side(self, he):
        return (self.pt(self.W.m(he, 'base')), self.pt(self.W.m(he, 'head')))

    def ent(self, e):
        W = self.W
        n = getattr(e.cls, 'name', '')
        if 'Vertex' in n:
            return ('v', self.pt(e))
        if n in ('HalfEdge', 'RHalfEdge'):
            return ('h',) + self.side(e)
        return ('c',) + self.key(e)


def multiset(m, what, x, y):
    x, y = sorted(map(m, x)), sorted(map(m, y))
    if x != y:
        raise Violation('%s: %d on the submesh, %d on the mesh it stands '
                        'for%s' % (what, len(x), len(y),
                                   '' if len(x) != len(y) else
                                   ' (different ones)'))


# ---------------------------------------------------------------- the aspects
def cells_(W, dim, M, s, R, m):
    C, D = W.at(M, 'cells'), W.at(R, 'cells')
    for mode in ('breadth-first', 'depth-first'):
        multiset(m.key, 'leaves, ' + mode,
                 aslist(W, W.m(C, 'get_leaves', subforest_flag=s, mode=mode)),
                 aslist(W, W.m(D, 'get_leaves', mode=mode)))
        multiset(m.key, 'cells traversed, ' + mode,
                 aslist(W, W.m(C, 'traverse', flag=s, mode=mode)),
                 aslist(W, W.m(D, 'traverse', mode=mode)))
    for c, d in m.pairs:
        want(W.m(c, 'get_depth'), W.m(d, 'get_depth'), 'depth of a leaf')
        want(W.m(c, 'has_children', flag=s), False, 'children in the submesh')
    if dim == 2:
        want(W.m(M, 'is_balanced', subforest_flag=s), W.m(R, 'is_balanced'),
             'balance')


def boundary(W, dim, M, s, R, m):
    if dim == 1:
        multiset(m.key, 'boundary cells',
                 aslist(W, W.m(M, 'get_boundary_cells', subforest_flag=s)),
                 aslist(W, W.m(R, 'get_boundary_cells')))
        return
    x = [aslist(W, q) for q in aslist(W, W.m(
        M, 'get_boundary_segments', subforest_flag=s))]
    y = [aslist(W, q) for q in aslist(W, W.m(R, 'get_boundary_segments'))]
    want(len(x), len(y), 'number of boundary segments')
    multiset(m.side, 'boundary sides', [h for q in x for h in q],
             [h for q in y for h in q])
    multiset(m.pt, 'boundary vertices',
             aslist(W, W.m(M, 'get_boundary_vertices', subforest_flag=s)),
             aslist(W, W.m(R, 'get_boundary_vertices')))


def regions(W, dim, M, s, R, m):
    types = ['vertex', 'cell'] + (['half_edge'] if dim == 2 else [])
    for t in types:
        for onb in (False, True):
            multiset(m.ent, 'region of type %s%s' % (
                t, ' on the boundary' if onb else ''),
                aslist(W, W.m(M, 'get_region', entity_type=t, on_boundary=onb,
                              subforest_flag=s)),
                aslist(W, W.m(R, 'get_region', entity_type=t,
                              on_boundary=onb)))
    # labels on some of the cells, their sides and vertices
    for c, d in m.pairs[::2]:
        for z in (c, d):
            W.m(z, 'mark', 'lab')
            v = aslist(W, W.m(z, 'get_vertices'))
            W.m(v[0], 'mark', 'lab')
            if dim == 2:
                W.m(aslist(W, W.m(z, 'get_half_edges'))[1], 'mark', 'lab')
    for t in types:
        for onb in (False, True):
            multiset(m.ent, 'labelled region of type %s%s' % (
                t, ' on the boundary' if onb else ''),
                aslist(W, W.m(M, 'get_region', flag='lab', entity_type=t,
                              on_boundary=onb, subforest_flag=s)),
                aslist(W, W.m(R, 'get_region', flag='lab', entity_type=t,
                              on_boundary=onb)))


def marked(W, dim, M, s, R, m):
    """regions given by a function of the position"""
    def ind(it, a, k):
        z = a[0] if len(a) == 1 and isinstance(a[0], np.ndarray) else a
        return m.P.id([canon(x) for x in np.ravel(np.array(list(z),
                                                  dtype=object))]) % 3 != 1
    types = ['vertex', 'cell'] + (['half_edge'] if dim == 2 else [])
    for t in types:
        for onb in (False, True):
            for strict in (False, True):
                lab = 'm %s %s %s' % (t, onb, strict)
                kw = dict(entity_type=t, on_boundary=onb,
                          strict_containment=strict)
                W.m(M, 'mark_region', lab, Native('region', ind),
                    subforest_flag=s, **kw)
                W.m(R, 'mark_region', lab, Native('region', ind), **kw)
                what = 'marking a region of type %s%s%s' % (
                    t, ' on the boundary' if onb else '',
                    ', strictly' if strict else '')
                for c, d in m.pairs:
                    for q in [None, 'get_vertices'] + (
                            ['get_half_edges'] if dim == 2 else []):
                        for x, y in zip(
                                [c] if q is None else aslist(W, W.m(c, q)),
                                [d] if q is None else aslist(W, W.m(d, q))):
                            if (W.m(x, 'is_marked', lab) is True) != (
                                    W.m(y, 'is_marked', lab) is True):
                                raise Violation(
                                    what + ': other entities are marked than '
                                    'on the mesh the submesh stands for')
                multiset(m.ent, what, *[aslist(W, W.m(
                    Z, 'get_region', flag=lab, entity_type=t, **k2))
                    for Z, k2 in ((M, {'subforest_flag': s}), (R, {}))])


def neighbours(W, dim, M, s, R, m):
    if dim == 2:
        return
    for c, d in m.pairs:
        for q in (0, 1):
            x = W.m(c, 'get_neighbor', q, subforest_flag=s)
            y = W.m(d, 'get_neighbor', q)
            if (x is None) != (y is None) or x is not None and \
                    m.key(x) != m.key(y):
                raise Violation('neighbour %d of an interval' % q)


def inside(W, m, c, rel):
    """a point at a relative position of a cell"""
    P = [[canon(x) for x in coords(W, v)] for v in aslist(
        W, W.m(c, 'get_vertices'))]
    if m.dim == 1:
        return [P[0][0] + (P[1][0] - P[0][0]) * rel[0]]
    r, t = rel
    w = [(1 - r) * (1 - t), r * (1 - t), r * t, (1 - r) * t]
    return [sum((P[v][i] * w[v] for v in range(4)), Sym.of(0))
            for i in range(2)]


REL = [(F(1, 3), F(2, 7)), (F(5, 7), F(3, 5))]


def located(W, dim, M, s, R, m):
    X = [inside(W, m, c, r[:dim]) for c, d in m.pairs for r in REL]
    got = {}
    for q in aslist(W, W.m(M, 'bin_points', W.arr(X), subforest_flag=s)):
        c, ip = aslist(W, q)
        for j in np.ravel(ip):
            got[int(j)] = m.key(c)
    exp = {}
    for q in aslist(W, W.m(R, 'bin_points', W.arr(X))):
        c, ip = aslist(W, q)
        for j in np.ravel(ip):
            exp[int(j)] = m.key(c)
    want(sorted(got), sorted(exp), 'points binned')
    for j in got:
        if got[j] != exp[j]:
            raise Violation('a point of the submesh is put in another cell')


class Dofs(object):
    """two numberings and the bijection between them"""

    def __init__(self, W, dim, M, s, R, m, et, alone=False):
        self.W, self.m = W, m
        E = W.new('fem', 'QuadFE', dim, et)
        self.D = W.new('fem', 'DofHandler', M, E)
        if not alone:
            W.m(self.D, 'distribute_dofs')
        W.m(self.D, 'distribute_dofs', subforest_flag=s)
        E = W.new('fem', 'QuadFE', dim, et)
        self.S = W.new('fem', 'DofHandler', R, E)
        W.m(self.S, 'distribute_dofs')
        self.to, back = {}, {}
        for c, d in m.pairs:
            x, y = self.cell(self.D, c), self.cell(self.S, d)
            want(len(x), len(y), 'number of local dofs')
            for i, j in zip(x, y):
                if self.to.setdefault(i, j) != j or \
                        back.setdefault(j, i) != i:
                    raise Violation(
                        'dof %d is shared differently on the submesh' % i)
        self.s = s

    def cell(self, D, c):
        d = self.W.m(D, 'get_cell_dofs', c)
        if d is None or any(q is None for q in d):
            raise Violation('a cell has unnumbered dofs')
        return [int(q) for q in d]

    def map(self, ds, what):
        out = []
        for d in ds:
            if int(d) not in self.to:
                raise Violation('%s: dof %d is not on the submesh' % (
                    what, int(d)))
            out.append(self.to[int(d)])
        return out


def numbering(et, alone):
    def f(W, dim, M, s, R, m):
        Q = Dofs(W, dim, M, s, R, m, et, alone)
        types = ['vertex', 'cell'] + (['half_edge'] if dim == 2 else [])
        for t in types:
            for onb in (False, True):
                g = aslist(W, W.m(Q.D, 'get_region_dofs', entity_type=t,
                                  on_boundary=onb, subforest_flag=s))
                e = aslist(W, W.m(Q.S, 'get_region_dofs', entity_type=t,
                                  on_boundary=onb))
                want(sorted(Q.map(g, 'dofs of a region')),
                     sorted(int(q) for q in e), 'dofs of type %s%s' % (
                         t, ' on the boundary' if onb else ''))
        want(W.m(Q.D, 'n_dofs', subforest_flag=s), W.m(Q.S, 'n_dofs'),
             'number of dofs')
        ds = sorted(Q.to)
        x = asarr(W.m(Q.D, 'get_dof_vertices', ds))
        y = asarr(W.m(Q.S, 'get_dof_vertices', [Q.to[d] for d in ds]))
        x, y = x.reshape(len(ds), -1), y.reshape(len(ds), -1)
        per = W.m(M, 'is_periodic') is True
        if not per:
            want(x, y, 'positions of the dofs')
        z = asarr(W.m(Q.D, 'get_dof_vertices', subforest_flag=s))
        want(len(z), len(ds), 'number of positions')
    return f


def hanging(et):
    def f(W, dim, M, s, R, m):
        if W.m(R, 'is_balanced') is not True:
            return
        Q = Dofs(W, dim, M, s, R, m, et)
        W.m(Q.D, 'set_hanging_nodes', subforest_flag=s)
        W.m(Q.S, 'set_hanging_nodes')
        want(W.m(Q.D, 'has_hanging_nodes', subforest_flag=s),
             W.m(Q.S, 'has_hanging_nodes'), 'presence of hanging nodes')
        x = W.m(Q.D, 'get_hanging_nodes', subforest_flag=s)
        y = W.m(Q.S, 'get_hanging_nodes')

        def norm(h, mp):
            out = {}
            for d in h:
                k, c = h[d]
                acc = {}
                for q, w in zip(k, c):
                    q = mp[int(q)]
                    acc[q] = Sym.of(acc.get(q, 0)) + Sym.of(w)
                out[mp[int(d)]] = acc
            return out
        ident = dict((v, v) for v in Q.to.values())
        try:
            x, y = norm(x, Q.to), norm(y, ident)
        except KeyError as e:
            raise Violation('a hanging node involves dof %s, which is not '
                            'on the submesh' % e)
        want(sorted(x), sorted(y), 'hanging nodes')
        for d in x:
            want(sorted(x[d]), sorted(y[d]), 'support of a hanging node')
            for q in x[d]:
                if not Sym.of(x[d][q]).equals(y[d][q], 1e-9):
                    raise Violation('coefficient of a hanging node')
    return f


def assembled(et, et2=None):
    def f(W, dim, M, s, R, m):
        if dim == 2 and W.m(R, 'is_balanced') is not True:
            return
        Q = Dofs(W, dim, M, s, R, m, et)
        T = Dofs(W, dim, M, s, R, m, et2) if et2 else Q
        G = []
        for D, D2, mesh, kw in ((Q.D, T.D, M, {'subforest_flag': s}),
                                (Q.S, T.S, R, {})):
            W.m(D, 'set_hanging_nodes', **kw)
            u = basis(W, D, **kw)
            ux = basis(W, D, derivative='vx', **kw)
            v = basis(W, D2, **kw)

            def F_(n, **k):
                return W.new('assembler', 'Form', W.new(
                    'assembler', 'Kernel', fun(W, n, dim)), **k)
            fs = [F_('m', test=v, trial=u), F_('a', test=v, trial=ux),
                  F_('l', test=v), F_('c')]
            A = W.new('assembler', 'Assembler', fs, mesh, n_gauss=(1, 1),
                      **kw)
            if et2 is None:
                if W.m(mesh, 'is_periodic') is not True and not (
                        et == 'Q1' and len(m.pairs) < 3):
                    W.m(A, 'add_dirichlet', None, 2)
            W.m(A, 'assemble')
            af = aslist(W, W.m(A, 'assembled_forms', i_problem=0))
            G.append((W, A, af, W.m(A, 'get_dirichlet')))
        from .c12 import dense
        (_, A, x, xd), (_, B, y, yd) = G

        def data(form):
            z = W.m(form, 'aggregate_data')
            return aslist(W, z['array'])[0], [
                [int(q) for q in aslist(W, u)] for u in aslist(W, z['udofs'])]

        def perm(a, b, mp):
            """positions of the reference's numbers"""
            a = mp.map(a, 'assembled dofs')
            want(sorted(a), sorted(b), 'assembled dofs')
            return [b.index(q) for q in a]
        (p, a), (q, b) = data(x[2]), data(y[2])
        r, c = perm(a[0], b[0], T), perm(a[1], b[1], Q)
        want(asarr(dense(p)), asarr(dense(q))[np.ix_(r, c)], 'matrix')
        p = asarr(aslist(W, W.m(x[2], 'dirichlet_correction')['array'])[0])
        q = asarr(aslist(W, W.m(y[2], 'dirichlet_correction')['array'])[0])
        want(p.ravel(), q.ravel()[r], 'Dirichlet correction')
        (p, a), (q, b) = data(x[1]), data(y[1])
        r = perm(a[0], b[0], T)
        want(asarr(p).ravel(), asarr(q).ravel()[r], 'vector')
        want(asarr(W.m(x[0], 'aggregate_data')['array']),
             asarr(W.m(y[0], 'aggregate_data')['array']), 'scalar')
        want(sorted(Q.map(xd, 'Dirichlet dofs')), sorted(int(q) for q in yd),
             'Dirichlet dofs')
    return f


def functions(et):
    def f(W, dim, M, s, R, m):
        if W.m(M, 'is_periodic') is True:
            return
        Q = Dofs(W, dim, M, s, R, m, et)
        X = [inside(W, m, c, r[:dim]) for c, d in m.pairs for r in REL[:1]]
        res = []
        for D, kw in ((Q.D, {'subforest_flag': s}), (Q.S, {})):
            B = basis(W, D, **kw)
            g = fun(W, 'g', dim)
            fn = W.new('function', 'Nodal', f=rule(W, 'g'), basis=B)
            out = [asarr(W.m(fn, 'eval', W.arr(X)))]
            if et != 'DQ0':
                out.append(asarr(W.m(fn, 'eval', W.arr(X),
                                     derivative='fx')))
            ip = W.m(g, 'interpolant', D, **kw)
            out.append(asarr(W.m(ip, 'eval', W.arr(X))))
            res.append(out)
        for p, q, what in zip(res[0], res[1], (
                'values', 'derivatives' if et != 'DQ0' else 'interpolant',
                'interpolant')):
            want(p, q, what + ' of a function')
    return f


def geometry(locate):
    def f(*a):
        cells_(*a)
        boundary(*a)
        neighbours(*a)
        if locate:
            located(*a)
        regions(*a)
        marked(*a)
    return f


ASPECTS = [('mesh', geometry(False), ('mesh', 'Forest.get_leaves'), True),
           ('mesh and location', geometry(True),
            ('mesh', 'QuadMesh.bin_points'), False)]
for et in ('Q1', 'Q2', 'DQ1'):
    for alone in ((False, True) if et == 'Q2' else (False,)):
        ASPECTS.append(('numbering %s%s' % (et, ' alone' if alone else ''),
                        numbering(et, alone),
                        ('fem', 'DofHandler.distribute_dofs'), True))
for et in ('Q1', 'Q2'):
    ASPECTS.append(('hanging nodes ' + et, hanging(et),
                    ('fem', 'DofHandler.set_hanging_nodes'), True))
for et, et2 in (('Q1', None), ('Q2', None), ('Q1', 'DQ0')):
    ASPECTS.append(('assembly %s%s' % (et, ' ' + et2 if et2 else ''),
                    assembled(et, et2), ('assembler', 'Assembler.assemble'),
                    False))
for et in ('Q1', 'DQ0', 'Q2'):
    ASPECTS.append(('functions ' + et, functions(et),
                    ('function', 'Nodal.eval'), False))


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('relational abstract interpretation: the operations on '
                     'a submesh and on a mesh built without the further '
                     'refinement are interpreted over the same unknown '
                     'geometry and data and compared')
    ctx.explanation = (
        'A mesh is refined, recorded as a submesh and refined further (or '
        'the submesh is obtained by refining or coarsening under a label); '
        'a second mesh is refined to the same state and no further. Cells, '
        'boundary, regions, neighbours, point location, numbering, hanging '
        'nodes, assembled systems and functions of the two must agree up to '
        'the numbering, for unknown coordinates, kernels and nodal values.')
    ctx.assumptions = ['levels of neighbouring cells differ by at most one '
                       'where degrees of freedom are distributed']

    def one(base, coarse, fine, how, aspect):
        def f():
            W = World(ctx, assume=oracle())
            dim, M, s, R = build(W, base, coarse, fine, how)
            m = Match(W, dim, M, s, R)
            aspect(W, dim, M, s, R, m)
        return f
    small = ['one interval', 'two intervals', 'three periodic intervals',
             'two squares']
    plan = []
    for base in BASES:
        dim = BASES[base][0]
        for how, coarse, fine in [
                ('record', 'none', 'all'), ('record', 'first', 'last'),
                ('record', 'first', 'all'), ('record', 'all', 'first'),
                ('twice', 'first', 'all'), ('grown', 'none', 'none'),
                ('grown', 'first', 'none'), ('grown', 'all', 'first'),
                ('shrunk', 'none', ''), ('shrunk', 'first', '')]:
            plan.append((base, how, coarse, fine))
    for base, how, coarse, fine in plan:
        dim, mk = BASES[base]
        for name, asp, wh, light in ASPECTS:
            if dim == 1 and name.startswith('hanging'):
                continue
            heavy = base in ('glued', 'star', 'four squares',
                             'periodic squares')
            if heavy and not light or not heavy and name == 'mesh':
                continue
            ctx.ob('%s: %s, %s %s then %s' % (name, base, how, coarse, fine),
                   one(base, coarse, fine, how, asp), ctx.where(*wh))
