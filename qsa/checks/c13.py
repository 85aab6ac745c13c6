"""C13 geometric queries: containment, intersection, location, measures."""
import itertools
from fractions import Fraction
import numpy as np
from ..frame import want, Violation, Undecided
from ..absint import Top, Alt, AbsRaise
from ..build import (World, Sym, boxmesh, linemesh, aslist, children, coords,
                     glued)
from .fe_common import canon

F = Fraction
TINY = F(1, 10 ** 6)


def oracle(table=()):
    """signs of the given expressions are assumed; quantities that are not
    zero are large compared with the tolerances used in the code"""
    table = [(Sym.of(p), s) for p, s in table]
    table += [(abs(p), s * s) for p, s in table]

    def base(e):
        s = e.sign()
        if s is not None:
            return s
        for p, s in table:
            q = e / p
            if q.is_const():
                c = q.const()
                return s * ((c > 0) - (c < 0))
            c = q.sign()
            if c is not None:
                return s * c
            for r, t in table:
                c = q * r
                if t and c.is_const():
                    c = c.const()
                    return s * t * ((c > 0) - (c < 0))
        return None

    def hook(op, a, b, d):
        c = None
        for x, y in ((a, b), (b, a)):
            if y.is_const() and 0 < abs(y.const()) < TINY:
                c = base(x) if not x.is_const() else None
                if c is None:
                    return None
                # x compared with a tolerance
                t = y.const()
                s = c if c else (-1 if t > 0 else 1)
                return s if x is a else -s
        return base(d)
    return hook


def booleans(v, n, what):
    if isinstance(v, (Top, Alt)):
        raise Undecided('%s not determined' % what)
    out = []
    for x in np.asarray(v, dtype=object).ravel():
        if isinstance(x, (bool, np.bool_)):
            out.append(bool(x))
        elif isinstance(x, (Top, Alt)):
            raise Undecided('%s not determined' % what)
        else:
            out.append(bool(x))
    if len(out) != n:
        raise Violation('%s: %d answers for %d points' % (what, len(out), n))
    return out


def truth(W, v, what):
    t = W.it.truth(v)
    if t is None:
        raise Undecided('%s not determined' % what)
    return t


def cross(a, b):
    return Sym.of(a[0]) * b[1] - Sym.of(a[1]) * b[0]


def sub(a, b):
    return [Sym.of(x) - y for x, y in zip(a, b)]


def lin(p, *terms):
    out = [Sym.of(x) for x in p]
    for c, v in terms:
        out = [x + Sym.of(c) * y for x, y in zip(out, v)]
    return out


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('abstract interpretation with predicate abstraction: '
                     'orientation signs of symbolic points are enumerated')
    ctx.explanation = (
        'Containment, intersection, point location, relative position and '
        'measures are interpreted for cells, intervals and half-edges with '
        'symbolic corners; the signs of the orientation determinants that '
        'decide each question are enumerated completely, and the answer is '
        'compared with the geometric definition.')
    ctx.assumptions = ['non-zero orientations are large compared with the '
                       'absolute tolerances in the code']
    cells(ctx)
    edges(ctx)
    segments(ctx)
    measures(ctx)
    location(ctx)
    positions(ctx)


# --------------------------------------------------------------- containment
def cells(ctx):
    w = ctx.where('mesh', 'Cell.contains_points')
    P = [(Sym.var('x%d' % i), Sym.var('y%d' % i)) for i in range(4)]
    X = (Sym.var('p'), Sym.var('q'))
    Y = (Sym.var('u'), Sym.var('v'))

    def table(Z, signs):
        return [(cross(sub(P[(i + 1) % 4], P[i]), sub(Z, P[i])), s)
                for i, s in enumerate(signs)]

    def quad(first, kind):
        def f():
            for rest in itertools.product((-1, 0, 1), repeat=3):
                s = (first,) + rest
                W = World(ctx, assume=oracle(
                    table(X, s) + table(Y, (1, 1, 1, 1))))
                c = W.quad(P)
                if kind == 'pair':
                    a = [tuple(X), tuple(Y)]
                elif kind == 'array':
                    a = W.arr([list(X)])
                elif kind == 'vertex':
                    a = W.vertex(*X)
                else:
                    a = tuple(X)
                r = W.m(c, 'contains_points', a)
                exp = all(q >= 0 for q in s)
                n = 2 if kind == 'pair' else 1
                got = booleans(r, n, 'containment')
                if got[0] is not exp or (n == 2 and not got[1]):
                    raise Violation(
                        'point with orientations %s relative to the sides '
                        'is reported as %s' % (s, 'inside' if got[0]
                                               else 'outside'))
        return f
    for kind in ('tuple', 'pair', 'array', 'vertex'):
        for first in (-1, 0, 1):
            ctx.ob('cell contains %s, first side %+d' % (kind, first),
                   quad(first, kind), w)

    wi = ctx.where('mesh', 'Interval.contains_points')

    def interval():
        x, y = Sym.var('x'), Sym.var('y')
        a, h = Sym.var('a'), Sym.var('h', True)
        for s in ((-1, 1), (0, 1), (1, 1), (1, 0), (1, -1)):
            t = [(x - a, s[0]), (a + h - x, s[1]), (y - a, 1),
                 (a + h - y, 1)]
            W = World(ctx, assume=oracle(t))
            c = W.interval(a, a + h)
            got = booleans(W.m(c, 'contains_points', W.arr([x, y])), 2,
                           'containment')
            want(got, [min(s) >= 0, True], 'containment for %s' % (s,))
            got = booleans(W.m(c, 'contains_points', x), 1, 'containment')
            want(got, [min(s) >= 0], 'containment of a number')
    ctx.ob('interval contains', interval, wi)


# ------------------------------------------------------------- points on edges
def dirs(num=False):
    h, k = Sym.var('h', True), Sym.var('k', True)
    if num:
        h, k = Sym.of(3), Sym.of(5)
    z = Sym.of(0)
    return [('right', (h, z)), ('left', (-h, z)), ('up', (z, k)),
            ('down', (z, -k)), ('rising', (h, k)), ('falling', (h, -k)),
            ('rising back', (-h, k)), ('falling back', (-h, -k))]


def edges(ctx):
    w = ctx.where('mesh', 'HalfEdge.contains_points')

    def on(v, num=False):
        def f():
            p = (Sym.var('x'), Sym.var('y'))
            n = Sym.var('n', True)
            if num:
                p, n = (Sym.of(2), Sym.of(-7)), Sym.of(F(1, 9))
            perp = (-v[1], v[0])
            W = World(ctx, assume=oracle())
            e = W.halfedge(p, lin(p, (1, v)))
            pts, exp = [], []
            for t in (F(-1, 2), F(0), F(1, 4), F(1), F(3, 2)):
                for off in (Sym.of(0), n, -n):
                    pts.append(lin(p, (t, v), (off, perp)))
                    exp.append(0 <= t <= 1 and off.is_zero())
            got = booleans(W.m(e, 'contains_points', W.arr(pts)), len(pts),
                           'containment')
            bad = [i for i in range(len(pts)) if got[i] is not exp[i]]
            if bad:
                i = bad[0]
                raise Violation('point %s of the edge from %s in direction '
                                '%s is reported as %s' % (
                                    pts[i], p, v, 'on it' if got[i]
                                    else 'off it'))
            for i in (1, 3, 9):
                want(booleans(W.m(e, 'contains_points', tuple(pts[i])), 1,
                              'containment'), [exp[i]], 'single point')
        return f
    for n, v in dirs():
        ctx.ob('points on a half-edge, %s' % n, on(v), w)
    for n, v in dirs(True):
        ctx.ob('points on a half-edge, %s, constants' % n, on(v, True), w)

    def one():
        a, h = Sym.var('a'), Sym.var('h', True)
        W = World(ctx, assume=oracle())
        for s in (1, -1):
            e = W.new('mesh', 'HalfEdge', W.vertex(a), W.vertex(a + s * h))
            ts = (F(-1, 2), F(0), F(1, 4), F(1), F(3, 2))
            got = booleans(W.m(e, 'contains_points', W.arr(
                [[a + s * t * h] for t in ts])), 5, 'containment')
            want(got, [0 <= t <= 1 for t in ts], 'containment in 1D')
    ctx.ob('points on a one-dimensional half-edge', one, w)

    wn = ctx.where('mesh', 'HalfEdge.unit_normal')

    def normal():
        p = (Sym.var('x'), Sym.var('y'))
        W = World(ctx, assume=oracle())
        h, k = Sym.var('h', True), Sym.var('k', True)
        for n, v in dirs():
            e = W.halfedge(p, lin(p, (1, v)))
            want(list(W.m(e, 'to_vector')), list(v), 'edge vector')
            u = list(W.m(e, 'unit_normal'))
            want(u[0] * u[0] + u[1] * u[1], 1, 'length of the normal')
            want(Sym.of(u[0]) * v[0] + Sym.of(u[1]) * v[1], 0,
                 'normal times edge')
            s = cross(v, u).sign()
            if s is None:
                raise Undecided('side of the normal')
            want(s, -1, 'the normal points to the right (%s)' % n)
            L = Sym.of(W.m(e, 'length'))
            want(L * L, v[0] * v[0] + v[1] * v[1], 'squared length')
            if L.sign() != 1:
                raise Undecided('sign of the length')
    ctx.ob('unit normal and length', normal, wn)


# --------------------------------------------------------------- intersection
def segments(ctx):
    w = ctx.where('mesh', 'HalfEdge.intersects_line_segment')
    A, B, C, D = [(Sym.var('x' + n), Sym.var('y' + n)) for n in 'abcd']
    r, s = sub(B, A), sub(D, C)
    qp = sub(C, A)
    det, tn, un = cross(r, s), cross(qp, s), cross(qp, r)

    def sgn(cls, d):
        """signs of the numerators of t and of 1-t"""
        return {'<0': (-d, d), '0': (0, d), 'in': (d, d), '1': (d, 0),
                '>1': (d, -d)}[cls]
    CL = ('<0', '0', 'in', '1', '>1')

    def general(d):
        def f():
            for ct in CL:
                for cu in CL:
                    t0, t1 = sgn(ct, d)
                    u0, u1 = sgn(cu, d)
                    W = World(ctx, assume=oracle([
                        (det, d), (tn, t0), (det - tn, t1), (un, u0),
                        (det - un, u1)]))
                    e = W.halfedge(A, B)
                    got = truth(W, W.m(e, 'intersects_line_segment',
                                       [tuple(C), tuple(D)]), 'intersection')
                    exp = ct in ('0', 'in', '1') and cu in ('0', 'in', '1')
                    if got is not exp:
                        raise Violation(
                            'segments meeting at parameters %s and %s of '
                            'their lines: %s reported' % (
                                ct, cu, 'intersection' if got else 'none'))
        return f
    for d in (1, -1):
        ctx.ob('crossing segments, orientation %+d' % d, general(d), w)

    def constants(d):
        def f():
            val = {'<0': F(-1, 3), '0': F(0), 'in': F(2, 5), '1': F(1),
                   '>1': F(7, 4)}
            for A0, r0, s0 in (((2, -7), (3, 5), (-4, 6)),
                               ((-3, 4), (0, -5), (2, 7)),
                               ((5, 1), (-6, 2), (3, 0))):
                if d < 0:
                    s0 = tuple(-q for q in s0)
                for ct in CL:
                    for cu in CL:
                        # A + t r = C + u s
                        c = lin(A0, (val[ct], r0), (-val[cu], s0))
                        W = World(ctx, assume=oracle())
                        e = W.halfedge([Sym.of(q) for q in A0],
                                       lin(A0, (1, r0)))
                        got = truth(W, W.m(
                            e, 'intersects_line_segment',
                            [tuple(c), tuple(lin(c, (1, s0)))]),
                            'intersection')
                        exp = ct in ('0', 'in', '1') and \
                            cu in ('0', 'in', '1')
                        if got is not exp:
                            raise Violation(
                                'segments meeting at parameters %s and %s of '
                                'their lines: %s reported' % (
                                    ct, cu, 'intersection' if got
                                    else 'none'))
        return f
    for d in (1, -1):
        ctx.ob('crossing segments, constants, orientation %+d' % d,
               constants(d), w)

    def parallel(v, num=False):
        def f():
            p = (Sym.var('x'), Sym.var('y'))
            n = Sym.var('n', True)
            if num:
                p, n = (Sym.of(2), Sym.of(-7)), Sym.of(F(1, 9))
            perp = (-v[1], v[0])
            for a, b in ((F(-1), F(1, 2)), (F(-1), F(1)), (F(-1, 2), F(1)),
                         (F(-1), F(3)), (F(1, 4), F(1, 2)), (F(1), F(1)),
                         (F(1, 2), F(1)), (F(3, 2), F(1)), (F(2), F(-1)),
                         (F(2), F(-1, 2)), (F(2), F(-4)), (F(-1, 2),
                                                           F(-1))):
                for off in (Sym.of(0), n, -n):
                    W = World(ctx, assume=oracle())
                    e = W.halfedge(p, lin(p, (1, v)))
                    q = lin(p, (a, v), (off, perp))
                    z = lin(q, (b, v))
                    got = truth(W, W.m(e, 'intersects_line_segment',
                                       [tuple(q), tuple(z)]), 'intersection')
                    exp = off.is_zero() and max(a, a + b) >= 0 and \
                        min(a, a + b) <= 1
                    if got is not exp:
                        raise Violation(
                            'parallel segments, parameters %s to %s, offset '
                            '%s: %s' % (a, a + b, off, got))
        return f
    for n, v in dirs():
        ctx.ob('parallel segments, %s' % n, parallel(v), w)
    for n, v in dirs(True):
        ctx.ob('parallel segments, %s, constants' % n, parallel(v, True), w)

    wc = ctx.where('mesh', 'Cell.intersects_line_segment')
    G = [F(-1, 2), F(0), F(1, 3), F(3, 4), F(1), F(4, 3)]
    pts = [(x, y) for x in G for y in G]

    def meets(p, q):
        """does the segment meet the unit square (clipping)"""
        lo, hi = F(0), F(1)
        for i in (0, 1):
            d = q[i] - p[i]
            for c, k in ((-d, p[i]), (d, 1 - p[i])):
                # c t <= k
                if c == 0:
                    if k < 0:
                        return False
                elif c > 0:
                    hi = min(hi, k / c)
                else:
                    lo = max(lo, k / c)
        return lo <= hi

    def cell(first, rot):
        def f():
            o = (Sym.var('x'), Sym.var('y'))
            u = (Sym.var('u0'), Sym.var('u1'))
            v = (Sym.var('v0'), Sym.var('v1'))
            d2 = [(cross(u, v), 1)]
            U = [(0, 0), (1, 0), (1, 1), (0, 1)]
            U = U[rot:] + U[:rot]
            W = World(ctx, assume=oracle(d2 + [(
                u[0] * u[0] + u[1] * u[1], 1), (
                    v[0] * v[0] + v[1] * v[1], 1)]))
            c = W.quad([lin(o, (a, u), (b, v)) for a, b in U])
            for p in pts[first::7]:
                for q in pts:
                    if p == q:
                        continue
                    P, Q = [lin(o, (z[0], u), (z[1], v)) for z in (p, q)]
                    got = truth(W, W.m(c, 'intersects_line_segment', [
                        tuple(P), tuple(Q)]), 'intersection')
                    exp = meets(p, q)
                    if got is not exp:
                        raise Violation(
                            'segment from %s to %s (parallelogram '
                            'coordinates) reported as %s' % (
                                tuple(map(str, p)), tuple(map(str, q)),
                                'meeting' if got else 'missing'))
        return f
    for first in range(7):
        ctx.ob('segments against a parallelogram (%d)' % first,
               cell(first, first % 4), wc)


# ------------------------------------------------------------------- measures
def measures(ctx):
    def area():
        W = World(ctx)
        c, P = W.gquad()
        e = sum((cross(P[i], P[(i + 1) % 4]) for i in range(4)),
                Sym.of(0)) / 2
        want(W.m(c, 'area'), e, 'area')
        c, P = W.rect()
        want(W.m(c, 'area'), Sym.var('h', True) * Sym.var('k', True),
             'area of a rectangle')
    ctx.ob('area', area, ctx.where('mesh', 'Cell.area'))

    def boxes(tag, f, where):
        ctx.ob('bounding box of %s' % tag, f, where)

    def cellbox():
        a, b = Sym.var('a'), Sym.var('b')
        h, k, l, m = [Sym.var(n, True) for n in 'hklm']
        P = [(a, b + l), (a + m, b), (a + m + h, b + l + k),
             (a + m / 2, b + l + k + m)]
        lo = (a, b)
        hi = (a + m + h, b + l + k + m)
        for rot in range(4):
            W = World(ctx, assume=oracle())
            c = W.quad(P[rot:] + P[:rot])
            want(list(W.m(c, 'bounding_box')), [lo[0], hi[0], lo[1], hi[1]],
                 'bounding box')
    boxes('a cell', cellbox, ctx.where('mesh', 'Cell.bounding_box'))

    def meshbox(periodic):
        def f():
            a, b = Sym.var('a'), Sym.var('b')
            h, k = Sym.var('h', True), Sym.var('k', True)
            kw = {'periodic': {0, 1}} if periodic else {}
            W = World(ctx, assume=oracle())
            M = boxmesh(W, (2, 2) if periodic else (2, 1), **kw)
            want([Sym.of(x) for x in W.m(M, 'bounding_box')],
                 [a, a + h, b, b + k], 'bounding box')
            W.m(children(W, W.at(M, 'cells'))[0], 'split')
            want([Sym.of(x) for x in W.m(M, 'bounding_box')],
                 [a, a + h, b, b + k], 'bounding box after refinement')
        return f

    def linebox(periodic):
        def f():
            a, h = Sym.var('a'), Sym.var('h', True)
            kw = {'periodic': True} if periodic else {}
            W = World(ctx, assume=oracle())
            M = linemesh(W, 3, **kw)
            want([Sym.of(x) for x in W.m(M, 'bounding_box')], [a, a + h],
                 'bounding box')
            W.m(children(W, W.at(M, 'cells'))[2], 'split')
            want([Sym.of(x) for x in W.m(M, 'bounding_box')], [a, a + h],
                 'bounding box after refinement')
        return f
    for per in (False, True):
        t = 'a periodic' if per else 'a'
        boxes(t + ' quadrilateral mesh', meshbox(per),
              ctx.where('mesh', 'Mesh2D.bounding_box'))
        boxes(t + ' line mesh', linebox(per),
              ctx.where('mesh', 'Mesh1D.bounding_box'))

    wr = ctx.where('mesh', 'QuadCell.is_rectangle')

    def rectangle():
        a, b = Sym.var('a'), Sym.var('b')
        h, k, l = [Sym.var(n, True) for n in 'hkl']
        R = [(a, b), (a + h, b), (a + h, b + k), (a, b + k)]
        S = [(a, b), (a + h, b), (a + h, b + k), (a, b + k + l)]
        T = [(a, b), (a + h, b), (a + h + l, b + k), (a + l, b + k)]
        # square standing on a corner: perpendicular but not axis-parallel
        Q = [(a, b), (a + h, b + h), (a, b + 2 * h), (a - h, b + h)]
        for P, e in ((R, True), (S, False), (T, False), (Q, False)):
            for rot in range(4):
                W = World(ctx, assume=oracle())
                c = W.quad(P[rot:] + P[:rot])
                want(truth(W, W.m(c, 'is_rectangle'), 'rectangle'), e,
                     'rectangle %s' % (P,))
                W.m(c, 'split')
                want(truth(W, W.m(W.m(c, 'get_child', 1), 'is_rectangle'),
                           'rectangle'), e, 'rectangle (child)')
    ctx.ob('rectangles are recognised', rectangle, wr)


# -------------------------------------------------------------------- location
def param(c, par):
    """root coordinates of a cell's corners, by the recursion of splitting"""
    return par


def grid(W, dim, per=False):
    """mesh refined twice; returns mesh and a list (cell, lo, hi, depth) in
    mesh coordinates"""
    kw = {}
    M = linemesh(W, 2) if dim == 1 else boxmesh(W, (2, 1))
    C = W.at(M, 'cells')
    roots = children(W, C)
    W.m(C, 'record', 'coarse')
    W.m(roots[0], 'split')
    W.m(C, 'record', 'middle')
    W.m(W.m(roots[0], 'get_child', 1), 'split')
    W.m(C, 'record', 'fine')
    return M, roots


def every(W, c):
    out = [c]
    if W.m(c, 'has_children') is True:
        for d in children(W, c):
            out += every(W, d)
    return out


def location(ctx):
    a, b = Sym.var('a'), Sym.var('b')
    h, k = Sym.var('h', True), Sym.var('k', True)
    XS = [F(0), F(1, 16), F(1, 8), F(3, 16), F(1, 4), F(3, 8), F(1, 2),
          F(5, 7), F(1)]
    YS = [F(0), F(1, 5), F(1, 4), F(1, 2), F(7, 8), F(1)]

    def extent(W, c, dim):
        z = [coords(W, v) for v in aslist(W, W.m(c, 'get_vertices'))]
        lo, hi = [], []
        for i, (o, l) in enumerate([(a, h), (b, k)][:dim]):
            q = [((Sym.of(x[i]) - o) / l) for x in z]
            if not all(x.is_const() for x in q):
                raise Undecided('position of a cell')
            q = [x.const() for x in q]
            lo.append(min(q))
            hi.append(max(q))
        return lo, hi

    def inside(box, p):
        return all(l <= x <= u for l, u, x in zip(box[0], box[1], p))

    def member(W, M, c, sf, roots):
        if sf is None:
            return True
        return W.m(c, 'is_marked', sf) is True

    def one(dim, sf, how):
        def f():
            W = World(ctx, assume=oracle())
            M, roots = grid(W, dim)
            cells = [x for r in roots for x in every(W, r)]
            P = [(x,) for x in XS] if dim == 1 else [
                (x, y) for x in XS for y in YS]
            o = [(a, h), (b, k)][:dim]
            root = roots[0]
            if how == 'cell':
                P = [p for p in P if p[0] <= F(1, 2)]
            start = {'mesh': M, 'cell': root}.get(how)
            if how == 'climb':
                # start from a cell below the submesh
                start = W.m(W.m(root, 'get_child', 1), 'get_child', 2 % (
                    2 if dim == 1 else 4))
                bx = extent(W, start, dim)
                P = [p for p in [tuple((l * (3 - j) + u * (1 + j)) / 4
                                       for l, u in zip(*bx))
                                 for j in range(3)]]
            X = [[s + x * l for x, (s, l) in zip(p, o)] for p in P]
            kw = {}
            if sf:
                kw['subforest_flag'] = sf
            idx = None
            if how == 'mesh' and sf == 'fine':
                idx = W.it.mkarr([10 + 2 * j for j in range(len(P))])
                kw['i_points'] = idx
            bins = aslist(W, W.m(start, 'bin_points', W.arr(X), **kw))
            seen = {}
            used = []
            for q in bins:
                c, ip = aslist(W, q)
                if any(c is d for d in used):
                    raise Violation('a cell occurs in two bins')
                used.append(c)
                if not member(W, M, c, sf, roots):
                    raise Violation('bin of a cell outside the submesh')
                kids = children(W, c) if W.m(c, 'has_children') is True \
                    else []
                if how != 'climb' and any(member(W, M, d, sf, roots)
                                          for d in kids):
                    raise Violation('bin of a cell that is not the finest')
                bx = extent(W, c, dim)
                ip = [int(j) for j in np.ravel(ip)]
                if not ip:
                    raise Violation('empty bin')
                for j in ip:
                    if j in seen:
                        raise Violation('point in two bins')
                    seen[j] = 1
                    n = (j - 10) // 2 if idx is not None else j
                    if not inside(bx, P[n]):
                        raise Violation('point %s not in the cell of its '
                                        'bin' % (P[n],))
            exp = sorted(10 + 2 * j if idx is not None else j
                         for j in range(len(P)))
            want(sorted(seen), exp, 'points binned')
            # a single point, and none at all
            kw.pop('i_points', None)
            for j in (0, len(P) - 1):
                bins = aslist(W, W.m(start, 'bin_points', W.arr([X[j]]),
                                     **kw))
                ips = [[int(q) for q in np.ravel(aslist(W, b)[1])]
                       for b in bins]
                want(ips, [[0]], 'bins of a single point')
                if not inside(extent(W, aslist(W, bins[0])[0], dim), P[j]):
                    raise Violation('point %s not in the cell of its bin' %
                                    (P[j],))
            bins = aslist(W, W.m(start, 'bin_points', np.zeros(
                (0, dim), dtype=object), **kw))
            if any(np.ravel(aslist(W, b)[1]).size for b in bins):
                raise Violation('bins for no points')
        return f
    for dim in (1, 2):
        cl = 'Interval' if dim == 1 else 'QuadCell'
        ms = 'Mesh1D' if dim == 1 else 'QuadMesh'
        for sf in (None, 'coarse', 'middle', 'fine'):
            ctx.ob('bins %dd mesh %s' % (dim, sf or 'leaves'),
                   one(dim, sf, 'mesh'),
                   ctx.where('mesh', ms + '.bin_points'))
            ctx.ob('bins %dd cell %s' % (dim, sf or 'leaves'),
                   one(dim, sf, 'cell'),
                   ctx.where('mesh', cl + '.bin_points'))
            if sf in ('coarse', 'middle'):
                ctx.ob('bins %dd cell below submesh %s' % (dim, sf),
                       one(dim, sf, 'climb'),
                       ctx.where('mesh', cl + '.bin_points'))

    def outside(dim):
        def f():
            W = World(ctx, assume=oracle())
            M, roots = grid(W, dim)
            for x in ((F(-1, 3), F(1, 2)), (F(1, 3), F(3, 2))):
                if dim == 1 and 0 <= x[0] <= 1:
                    x = (F(5, 4),)
                X = [[s + q * l for q, (s, l) in zip(
                    x, [(a, h), (b, k)][:dim])],
                    [s + F(1, 3) * l for (s, l) in [(a, h), (b, k)][:dim]]]
                for st in (M, roots[0]):
                    try:
                        W.m(st, 'bin_points', W.arr(X))
                    except AbsRaise:
                        continue
                    raise Violation('a point outside was binned')
        return f
    for dim in (1, 2):
        ctx.ob('points outside are refused, %dd' % dim, outside(dim),
               ctx.where('mesh', ('Mesh1D' if dim == 1 else 'QuadMesh') +
                         '.bin_points'))

    wl = ctx.where('mesh', 'Mesh2D.locate_point')

    def locate(sf):
        def f():
            W = World(ctx, assume=oracle())
            M, roots = grid(W, 2)
            for x in XS:
                for y in YS[1:4]:
                    p = (a + x * h, b + y * k)
                    c = W.m(M, 'locate_point', W.vertex(*p),
                            **({'flag': sf} if sf else {}))
                    if isinstance(c, (Top, Alt)):
                        raise Undecided('cell not determined')
                    if c is None:
                        raise Violation('no cell found for %s' % ((x, y),))
                    if not inside(extent(W, c, 2), (x, y)):
                        raise Violation('the cell does not contain the point')
                    kids = children(W, c) if W.m(c, 'has_children') is True \
                        else []
                    if not member(W, M, c, sf, roots) or any(
                            member(W, M, d, sf, roots) for d in kids):
                        raise Violation('not the smallest cell')
            p = (a - h, b)
            if W.m(M, 'locate_point', W.vertex(*p)) is not None:
                raise Violation('a cell was found for a point outside')
        return f
    for sf in (None, 'coarse', 'middle', 'fine'):
        ctx.ob('locate point, %s' % (sf or 'leaves'), locate(sf), wl)


# ----------------------------------------------------------- relative position
def positions(ctx):
    wq = ctx.where('mesh', 'QuadCell.subcell_position')

    def quad(tree):
        def f():
            W = World(ctx)
            if tree == 'forest':
                M = boxmesh(W, (2, 1))
                c = children(W, W.at(M, 'cells'))[1]
            else:
                c, P = W.gquad()
            W.m(c, 'split')
            d = W.m(c, 'get_child', 2)
            W.m(d, 'split')
            off = [(0, 0), (1, 0), (1, 1), (0, 1)]
            pos, wd = W.m(c, 'subcell_position', c)
            want([Sym.of(x) for x in pos] + [Sym.of(wd)], [0, 0, 1],
                 'position of the cell itself')
            for i in range(4):
                pos, wd = W.m(c, 'subcell_position', W.m(c, 'get_child', i))
                want([Sym.of(x) for x in pos] + [Sym.of(wd)],
                     [F(q, 2) for q in off[i]] + [F(1, 2)], 'child')
                e = W.m(d, 'get_child', i)
                pos, wd = W.m(c, 'subcell_position', e)
                want([Sym.of(x) for x in pos] + [Sym.of(wd)],
                     [F(1, 2) + F(q, 4) for q in off[i]] + [F(1, 4)],
                     'grandchild')
                pos, wd = W.m(d, 'subcell_position', e)
                want([Sym.of(x) for x in pos] + [Sym.of(wd)],
                     [F(q, 2) for q in off[i]] + [F(1, 2)],
                     'child of a child')
            for x, y in ((W.m(c, 'get_child', 0), d), (d, c)):
                try:
                    W.m(x, 'subcell_position', y)
                except AbsRaise:
                    continue
                raise Violation('position of a cell outside')
        return f
    ctx.ob('position in a free cell', quad('free'), wq)
    ctx.ob('position in a cell of a mesh', quad('forest'), wq)

    wi = ctx.where('mesh', 'Interval.subcell_position')

    def interval():
        a, h = Sym.var('a'), Sym.var('h', True)
        W = World(ctx, assume=oracle())
        c = W.interval(a, a + h)
        for lo, hi in ((F(0), F(1)), (F(0), F(1, 3)), (F(1, 4), F(1)),
                       (F(1, 3), F(1, 2))):
            d = W.interval(a + lo * h, a + hi * h)
            pos, wd = W.m(c, 'subcell_position', d)
            want([Sym.of(pos), Sym.of(wd)], [lo, hi - lo], 'position, width')
        for lo, hi in ((F(-1, 2), F(1)), (F(3, 2), F(2))):
            try:
                W.m(c, 'subcell_position', W.interval(a + lo * h, a + hi * h))
            except AbsRaise:
                continue
            raise Violation('position of an interval outside')
    ctx.ob('position in an interval', interval, wi)

    wh = ctx.where('mesh', 'HalfEdge.subcell_position')

    def edge(v):
        def f():
            p = (Sym.var('x'), Sym.var('y'))
            W = World(ctx, assume=oracle())
            e = W.halfedge(p, lin(p, (1, v)))
            for lo, hi in ((F(0), F(1)), (F(0), F(1, 3)), (F(1, 4), F(1)),
                           (F(1, 3), F(1, 2))):
                d = W.halfedge(lin(p, (lo, v)), lin(p, (hi, v)))
                pos, wd = W.m(e, 'subcell_position', d)
                want([Sym.of(pos), Sym.of(wd)], [lo, hi - lo],
                     'position, width')
            for lo, hi in ((F(-1, 2), F(1)), (F(1, 2), F(2))):
                try:
                    W.m(e, 'subcell_position', W.halfedge(
                        lin(p, (lo, v)), lin(p, (hi, v))))
                except AbsRaise:
                    continue
                raise Violation('position of an edge outside')
        return f
    for n, v in dirs():
        ctx.ob('position on a half-edge, %s' % n, edge(v), wh)
