"""C20: plots show the mesh and the function they are given."""
import math
import numpy as np
from fractions import Fraction as F
from ..frame import want, Violation, Undecided
from ..absint import Top, Alt, Native, AbsRaise
from ..build import (World, Sym, glued, star, boxmesh, linemesh, aslist,
                     children, coords, corners)
from ..sym import Poly
from .fe_common import all_cells, Points, canon
from .c11 import asarr, basis, fun
from .c13 import oracle
from .c14 import rule
from .c08 import submesh_leaves, inside


# ------------------------------------------------- a recording drawing surface
def seq(it, v):
    if isinstance(v, np.ndarray):
        return list(v.ravel())
    if isinstance(v, (Top, Alt)):
        raise Undecided('drawn data are not determined: %r' % v)
    if isinstance(v, (Sym, int, float, F)):
        return [v]
    out = []
    for q in it.iterate(v):
        out += seq(it, q)
    return out


def nan(x):
    return isinstance(x, float) and math.isnan(x)


class Drawn(object):
    """a patch, collection or line handed to the axis"""

    def __init__(self, kind, pts, style):
        self.kind, self.pts, self.style = kind, pts, style

    def absint_getattr(self, it, n):
        return Native('drawn.' + n, lambda it, a, k: None)


class Axis(object):
    def __init__(self, three=False):
        self.three = three
        self.items = []
        self.lims = {}
        self.unknown = []
        self.off = False

    def __deepcopy__(self, memo):
        return self

    def absint_getattr(self, it, n):
        if n == 'name':
            return '3d' if self.three else 'rectilinear'
        if n == 'figure':
            return Figure(self)
        return Native('axis.' + n, lambda it, a, k: self.call(it, n, a, k))

    def add(self, kind, pts, style=None, **more):
        self.items.append(dict(kind=kind, pts=pts, style=style or {}, **more))

    # ------------------------------------------------------------- drawing
    def polyline(self, it, X, Y, style, marker):
        if len(X) != len(Y):
            raise AbsRaise('ValueError', 'x and y of different length')
        if marker:
            for x, y in zip(X, Y):
                self.add('point', [(x, y)], style)
            return
        if len(X) == 1:
            self.add('point', [(X[0], Y[0])], style)
        for i in range(len(X) - 1):
            q = [X[i], Y[i], X[i + 1], Y[i + 1]]
            if not any(nan(z) for z in q):
                self.add('seg', [(X[i], Y[i]), (X[i + 1], Y[i + 1])], style)

    def call(self, it, n, a, k):
        a = list(a)
        if n == 'plot':
            if self.three:
                self.unknown.append(n)
                return Top(n)
            fmt = ''
            if a and isinstance(a[-1], str):
                fmt = a.pop()
            if len(a) == 1:
                y = seq(it, a[0])
                a = [list(range(len(y))), y]
            if len(a) != 2:
                self.unknown.append(n)
                return Top(n)
            line = k.get('linestyle', k.get('ls'))
            mark = k.get('marker')
            dots = ('-' not in fmt and fmt.strip('bgrcmykwC0123456789') != ''
                    ) or (mark not in (None, '', 'None') and
                          line in ('', 'None', ' ', None) and not fmt)
            if line not in (None, '', 'None', ' '):
                dots = False
            self.polyline(it, seq(it, a[0]), seq(it, a[1]), k, dots)
            return [Drawn('line', [], k)]
        if n == 'scatter':
            X, Y = seq(it, a[0]), seq(it, a[1])
            self.polyline(it, X, Y, dict(color=k.get('c', k.get('color'))),
                          True)
            return Drawn('points', [], k)
        if n in ('text', 'annotate'):
            if n == 'annotate':
                t = k.get('text', a[0] if a else None)
                xy = seq(it, k['xy'] if 'xy' in k else a[1])
                frm = k.get('xytext', a[2] if len(a) > 2 else None)
                if k.get('arrowprops') is not None and frm is not None:
                    p = k['arrowprops']
                    st = dict(k)
                    if isinstance(p, dict) and 'color' in p:
                        st['color'] = p['color']
                    head, tail = xy, seq(it, frm)
                    s = p.get('arrowstyle', '->') if isinstance(p, dict) \
                        else '->'
                    if isinstance(s, str) and s.startswith('<') and \
                            not s.endswith('>'):
                        head, tail = tail, head
                    self.add('arrow', [tuple(tail), tuple(head)], st)
                    if t:
                        self.add('text', [tuple(tail)], k, text=t)
                else:
                    self.add('text', [tuple(xy)], k, text=t)
            else:
                names = ['x', 'y', 's']
                v = dict(zip(names, a))
                v.update((q, k[q]) for q in names if q in k)
                xy = seq(it, v['x']) + seq(it, v['y'])
                if len(xy) != 2:
                    raise AbsRaise('TypeError', 'position of a text')
                self.add('text', [tuple(xy)], k, text=v['s'])
            return Drawn('text', [], k)
        if n == 'arrow':
            x, y, dx, dy = [Sym.of(q) for q in a[:4]]
            self.add('arrow', [(x, y), (x + dx, y + dy)], k)
            return Drawn('arrow', [], k)
        if n == 'fill':
            self.add('poly', list(zip(seq(it, a[0]), seq(it, a[1]))), k)
            return [Drawn('poly', [], k)]
        if n in ('add_patch', 'add_line', 'add_collection', 'add_artist',
                 'add_collection3d'):
            d = a[0] if a else None
            if not isinstance(d, Drawn):
                self.unknown.append(n)
                return Top(n)
            if n == 'add_collection3d' and isinstance(
                    k.get('zs', a[1] if len(a) > 1 else 0), str):
                raise AbsRaise('TypeError', 'zs must be numbers')
            if d.kind == 'line':
                self.polyline(it, d.pts[0], d.pts[1], d.style, False)
            elif d.kind == 'segs':
                for p in d.pts:
                    for i in range(len(p) - 1):
                        self.add('seg', [p[i], p[i + 1]], d.style)
            elif d.kind == 'polys':
                for p in d.pts:
                    self.add('poly', p, d.style)
            else:
                self.add(d.kind, d.pts, d.style)
            return d
        if n in ('contourf', 'contour', 'pcolormesh', 'tricontourf'):
            a = [q for q in a]
            X, Y, Z = a[:3]
            self.items.append(dict(kind='field', x=X, y=Y, z=Z, style=k,
                                   pts=[]))
            return Drawn('field', [], k)
        if n in ('set_xlim', 'set_ylim', 'set_zlim'):
            v = [q for q in a]
            if len(v) == 1:
                v = list(it.iterate(v[0])) if not isinstance(
                    v[0], (Top, Alt)) else [v[0], v[0]]
            lo = k.get('left', k.get('bottom', v[0] if v else None))
            hi = k.get('right', k.get('top', v[1] if len(v) > 1 else None))
            self.lims[n[4]] = (lo, hi)
            return (lo, hi)
        if n == 'axis':
            if a and a[0] in ('off', False):
                self.off = True
            elif a and a[0] == 'on':
                self.off = False
            return None
        if n == 'set_axis_off':
            self.off = True
            return None
        if n == 'set_axis_on':
            self.off = False
            return None
        if n in ('get_ylim', 'get_xlim', 'get_zlim'):
            return self.lims.get(n[4], (0.0, 1.0))
        if n in ('get_yaxis', 'get_xaxis'):
            return Drawn('axis', [], {})
        if n == 'get_figure':
            return Figure(self)
        if n in ('set_aspect', 'grid', 'set_title', 'set_xlabel',
                 'set_ylabel', 'set_zlabel', 'legend', 'set_xticks',
                 'set_yticks', 'tick_params', 'autoscale', 'margins',
                 'set_zorder', 'relim', 'autoscale_view', 'view_init',
                 'set_facecolor', 'set_xticklabels', 'set_yticklabels'):
            return None
        self.unknown.append(n)
        return Top('axis.' + n)


class Figure(object):
    def __init__(self, axis=None):
        self.axes = [axis] if axis else []

    def absint_getattr(self, it, n):
        def f(it, a, k):
            if n == 'gca':
                if a or k:
                    raise AbsRaise('TypeError', "gca() got an unexpected "
                                   "keyword argument")
                if not self.axes:
                    self.axes.append(Axis())
                return self.axes[-1]
            if n in ('add_subplot', 'add_axes', 'subplots'):
                self.axes.append(Axis(k.get('projection') == '3d'))
                return self.axes[-1]
            return None
        return Native('figure.' + n, f)


class Canvas(object):
    """matplotlib, as far as it decides what is drawn"""

    def __init__(self, it):
        self.figs = []
        self.shown = 0
        o = it.overrides

        def put(n, f):
            o[n] = Native(n, f)

        def pts(it, v):
            if isinstance(v, (Top, Alt)):
                raise Undecided('drawn points are not determined: %r' % v)
            return [tuple(seq(it, p)) for p in it.iterate(v)]

        def figure(it, a, k):
            self.figs.append(Figure())
            return self.figs[-1]

        def subplots(it, a, k):
            g = figure(it, [], {})
            kw = k.get('subplot_kw') or {}
            g.axes.append(Axis(kw.get('projection') == '3d'))
            return (g, g.axes[0])

        def gca(it, a, k):
            if a or k:
                raise AbsRaise('TypeError', 'gca()')
            g = self.figs[-1] if self.figs else figure(it, [], {})
            if not g.axes:
                g.axes.append(Axis())
            return g.axes[-1]

        def axes(it, a, k):
            g = self.figs[-1] if self.figs else figure(it, [], {})
            g.axes.append(Axis(k.get('projection') == '3d'))
            return g.axes[-1]

        def show(it, a, k):
            self.shown += 1

        def poly(it, a, k):
            return Drawn('poly', pts(it, a[0] if a else k['xy']), k)

        def rect(it, a, k):
            x, y = [Sym.of(q) for q in seq(it, a[0])]
            w, h = Sym.of(a[1]), Sym.of(a[2])
            return Drawn('poly', [(x, y), (x + w, y), (x + w, y + h),
                                  (x, y + h)], k)

        def polys(it, a, k):
            return Drawn('polys', [pts(it, p) for p in it.iterate(a[0])], k)

        def segs(it, a, k):
            return Drawn('segs', [pts(it, p) for p in it.iterate(a[0])], k)

        def line(it, a, k):
            return Drawn('line', [seq(it, a[0]), seq(it, a[1])], k)

        def coll(it, a, k):
            ds = list(it.iterate(a[0]))
            return Drawn('polys', [d.pts for d in ds],
                         dict(ds[0].style if ds else {}, **k))
        P = 'matplotlib.pyplot.'
        put(P + 'figure', figure)
        put(P + 'subplots', subplots)
        put(P + 'gca', gca)
        put(P + 'axes', axes)
        put(P + 'subplot', axes)
        put(P + 'show', show)
        for n in ('pause', 'close', 'draw', 'colorbar', 'tight_layout',
                  'ion', 'ioff', 'clf', 'cla', 'sca', 'get_cmap', 'savefig'):
            put(P + n, lambda it, a, k: None)
        for n in (P, 'matplotlib.patches.'):
            put(n + 'Polygon', poly)
            put(n + 'Rectangle', rect)
        for n in (P, 'matplotlib.lines.'):
            put(n + 'Line2D', line)
        put('matplotlib.collections.PolyCollection', polys)
        put('matplotlib.collections.PatchCollection', coll)
        put('matplotlib.collections.LineCollection', segs)
        A = 'mpl_toolkits.mplot3d.art3d.'
        put(A + 'Poly3DCollection', polys)
        put(A + 'Line3DCollection', segs)

        def rgba(it, a, k):
            return ('rgba', a[0], k.get('alpha', a[1] if len(a) > 1
                                        else None))
        put('matplotlib.colors.to_rgba', rgba)


# ------------------------------------------------------------------- expected
class Scene(object):
    def __init__(self, ctx, quick=False):
        self.W = W = World(ctx, assume=oracle(), budget=30000000)
        self.canvas = Canvas(W.it)
        self.plot = W.new('plot', 'Plot', quickview=quick)
        self.P = Points()

    def pt(self, p):
        p = [canon(c) for c in p]
        if len(p) == 1:
            p.append(Sym.of(0))
        return self.P.id(p)

    def ring(self, ids):
        """a closed polygon, whatever its first vertex and direction"""
        ids = list(ids)
        if len(ids) > 1 and ids[0] == ids[-1]:
            ids = ids[:-1]
        n = len(ids)
        r = [tuple(ids[(i + d * j) % n] for j in range(n))
             for i in range(n) for d in (1, -1)]
        return min(r)

    def cell(self, c):
        W = self.W
        return [coords(W, v) for v in aslist(W, W.m(c, 'get_vertices'))]

    def draw(self, what, axis, *a, **k):
        W = self.W
        r = W.m(self.plot, what, *a, axis=axis, **k)
        return r


def style_of(it):
    """what distinguishes the drawings of different regions"""
    s = it['style']
    for n in ('color', 'c', 'fc', 'facecolor', 'edgecolor', 'ec'):
        v = s.get(n) if isinstance(s, dict) else None
        if v is not None:
            if isinstance(v, tuple) and v and v[0] == 'rgba':
                return v[1]
            return v
    return None


def norm(S, it):
    if it['kind'] == 'poly':
        return ('poly', S.ring([S.pt(p) for p in it['pts']]))
    if it['kind'] == 'point':
        return ('point', S.pt(it['pts'][0]))
    if it['kind'] == 'seg':
        return ('seg',) + tuple(sorted(S.pt(p) for p in it['pts']))
    if it['kind'] == 'arrow':
        return ('arrow',) + tuple(S.pt(p) for p in it['pts'])
    if it['kind'] == 'text':
        return ('text', S.pt(it['pts'][0]), it['text'])
    return (it['kind'],)


def same(ax, got, exp, what, once=True):
    if not once:
        got, exp = set(got), set(exp)
    got, exp = sorted(got, key=repr), sorted(exp, key=repr)
    if got == exp:
        return
    if ax.unknown:
        raise Undecided('drawn with %s' % ', '.join(sorted(set(ax.unknown))))
    miss = [q for q in exp if q not in got]
    extra = [q for q in got if q not in exp]
    raise Violation('%s: %d drawn, %d required (%d missing, %d too many)' % (
        what, len(got), len(exp), len(miss), len(extra) or
        len(got) - len(exp)))


# ----------------------------------------------------------------- the meshes
def meshes():
    def sub(W, M):
        W.m(M, 'record', 's')
        ls = submesh_leaves(W, M, 's')
        W.m(ls[0], 'split')
        W.m(ls[-1], 'split')
        return M

    def refined(W, M, k=0):
        c = children(W, W.at(M, 'cells'))
        W.m(c[k], 'split')
        return M
    return [
        ('one interval', 1, lambda W: linemesh(W, 1)),
        ('intervals', 1, lambda W: refined(W, linemesh(W, 3), 1)),
        ('submesh of intervals', 1,
         lambda W: sub(W, refined(W, linemesh(W, 3), 1))),
        ('one square', 2, lambda W: boxmesh(W, (1, 1))),
        ('squares', 2, lambda W: refined(W, boxmesh(W, (2, 1)), 1)),
        ('submesh of squares', 2,
         lambda W: sub(W, refined(W, boxmesh(W, (2, 1)), 1))),
        ('glued', 2, lambda W: refined(W, glued(W, 1, 2)[0])),
        ('periodic', 2, lambda W: boxmesh(W, (2, 2), periodic={0, 1})),
    ]


def flag_of(name):
    return 's' if 'submesh' in name else None


def leaves_of(W, M, flag):
    if flag is None:
        return [c for c in all_cells(W, M)
                if W.m(c, 'has_children') is not True]
    return submesh_leaves(W, M, flag)


def outline(S, dim, cells):
    if dim == 1:
        return [('seg',) + tuple(sorted(S.pt(p) for p in S.cell(c)))
                for c in cells]
    return [('poly', S.ring([S.pt(p) for p in S.cell(c)])) for c in cells]


def frame_of(S, M, dim):
    """the rectangle behind a two-dimensional mesh"""
    if dim == 1:
        return []
    x0, x1, y0, y1 = aslist(S.W, S.W.m(M, 'bounding_box'))
    return [('poly', S.ring([S.pt(p) for p in (
        (x0, y0), (x1, y0), (x1, y1), (x0, y1))]))]


def nofield(items):
    return [i for i in items if i['kind'] not in ('field',)]


def without(got, frame):
    got = list(got)
    for f in frame:
        if f in got:
            got.remove(f)
    return got


def limits(S, ax, M, dim, what, need=''):
    bb = [Sym.of(q) for q in aslist(S.W, S.W.m(M, 'bounding_box'))]
    for q, (lo, hi) in enumerate(zip(bb[::2], bb[1::2])):
        n = 'xyz'[q]
        if n not in ax.lims:
            if n in need and not ax.unknown:
                raise Violation('%s: the limits of the %s axis are not set, '
                                'patches outside the unit interval are not '
                                'seen' % (what, n))
            continue
        a, b = ax.lims[n]
        for v, w in ((lo, a), (b, hi)):
            if isinstance(w, (Top, Alt)) or isinstance(v, (Top, Alt)):
                raise Undecided('limits are not determined')
            s = (Sym.of(v) - Sym.of(w)).sign()
            if s is None:
                raise Undecided('limits of the axis')
            if s < 0:
                raise Violation('%s: the limits of the %s axis cut off part '
                                'of the mesh' % (what, n))


def covers(ax, n, zs, what):
    """the limits of the axis contain the values drawn, whatever the unknown
    values are: min and max are evaluated for several orders of them"""
    if n not in ax.lims:
        if ax.unknown:
            return
        raise Violation('%s: the limits of the %s axis are not set' % (what,
                                                                       n))
    lims = []
    for v in ax.lims[n]:
        if isinstance(v, (Top, Alt)):
            raise Undecided('limits of the %s axis are not determined' % n)
        lims.append(Sym.of(v))
    zs = [Sym.of(z) for z in zs if not nan(z)]
    leaf = {}
    for q in zs + lims:
        todo = list(q.atoms())
        while todo:
            t = todo.pop()
            if t.fn in ('min', 'max', 'abs', 'sqrt'):
                for x in t.args:
                    todo.extend(x.atoms())
            else:
                leaf.setdefault(t.uid, t)
    order = [leaf[k] for k in sorted(leaf)]
    m = len(order)
    for r in range(2 * m if m < 8 else 16):
        k = r // 2 * max(1, m // 8)
        mp = {}
        for i, t in enumerate(order):
            j = (i + k) % m
            mp[Sym(Poly.atom(t))] = F(3 + j + j * j, 7) * (1 if r % 2 else -1) \
                if not t.positive else F(3 + j, 5)
        a, b = [q.subs(mp) for q in lims]
        vs = [q.subs(mp) for q in zs]
        if not all(q.is_const() for q in [a, b] + vs):
            raise Undecided('limits of the %s axis are not determined' % n)
        a, b = a.const(), b.const()
        vs = [q.const() for q in vs]
        if a > min(vs) + F(1, 10**9) or b < max(vs) - F(1, 10**9):
            raise Violation(
                '%s: the %s axis shows %s..%s, the values drawn reach from '
                '%s to %s' % (what, n, float(a), float(b), float(min(vs)),
                              float(max(vs))))


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('abstract interpretation of the plotting functions on '
                     'a recording drawing surface; what is drawn is compared '
                     'with mesh, labels, numbering and function')
    ctx.explanation = (
        'Plot.mesh, cells, vertices, half_edges, edges, dofs, contour, wire '
        'and line are interpreted on meshes with unknown coordinates and '
        'functions with unknown values; matplotlib is replaced by a surface '
        'that records polygons, segments, arrows, points, texts and fields.')
    ctx.assumptions = ['matplotlib draws what it is given']

    # ------------------------------------------------------------- meshes
    def mesh_plain(name, dim, mk, quick):
        def f():
            S = Scene(ctx, quick)
            W = S.W
            M = mk(W)
            ax = None if quick else Axis()
            r = S.draw('mesh', ax, M, subforest_flag=flag_of(name))
            if quick:
                if not S.canvas.figs or not S.canvas.figs[-1].axes:
                    raise Violation('no figure is made')
                if not S.canvas.shown:
                    raise Violation('the figure is not shown')
                ax = S.canvas.figs[-1].axes[-1]
            elif r is not ax:
                raise Violation('the axis is not returned')
            got = without([norm(S, i) for i in ax.items],
                          frame_of(S, M, dim))
            exp = outline(S, dim, leaves_of(W, M, flag_of(name)))
            if dim == 2 and len(exp) == 1 and not got:
                got = exp       # the only cell is the frame itself
            same(ax, got, exp, 'cells of the mesh')
            if name != 'glued':
                limits(S, ax, M, dim, 'mesh', 'xy'[:dim])
            if not ax.off:
                raise Violation('the axis is shown though not asked for')
        return f

    def shown_axis(name, dim, mk):
        def f():
            S = Scene(ctx)
            ax = Axis()
            S.draw('mesh', ax, mk(S.W), show_axis=True)
            if ax.off:
                raise Violation('the axis is hidden')
        return f
    for name, dim, mk in meshes():
        for quick in (False, True):
            ctx.ob('mesh: %s%s' % (name, ', quick view' if quick else ''),
                   mesh_plain(name, dim, mk, quick),
                   ctx.where('plot', 'Plot.mesh'))
    ctx.ob('mesh: shown axis', shown_axis(*meshes()[3]),
           ctx.where('plot', 'Plot.mesh'))

    # ------------------------------------------------------------ regions
    def mark(W, dim, cells, tag, q):
        """label one entity of every type"""
        c = cells[q % len(cells)]
        v = aslist(W, W.m(c, 'get_vertices'))[q % 2]
        W.m(v, 'mark', tag + 'v')
        W.m(c, 'mark', tag + 'c')
        if dim == 2:
            W.m(aslist(W, W.m(c, 'get_half_edges'))[(q + 1) % 4], 'mark',
                tag + 'e')

    def drawn_region(S, dim, kind, M, fl, sub):
        W = S.W
        es = aslist(W, W.m(M, 'get_region', flag=fl,
                           entity_type='half_edge' if kind == 'edge'
                           else kind, subforest_flag=sub))
        if kind == 'vertex':
            return [('point', S.pt(coords(W, e))) for e in es]
        if kind == 'cell':
            return outline(S, dim, es)
        ends = [(S.pt(coords(W, W.m(e, 'base'))),
                 S.pt(coords(W, W.m(e, 'head')))) for e in es]
        if kind == 'half_edge':
            return [('arrow',) + e for e in ends]
        return [('seg',) + tuple(sorted(e)) for e in ends]

    def mesh_regions(name, dim, mk, regs):
        def f():
            S = Scene(ctx)
            W = S.W
            M = mk(W)
            sub = flag_of(name)
            cells = leaves_of(W, M, sub)
            mark(W, dim, cells, 'a', 0)
            mark(W, dim, cells, 'b', 1)
            mark(W, dim, all_cells(W, M), 'b', 0)
            ax = Axis()
            S.draw('mesh', ax, M, regions=list(regs), subforest_flag=sub)
            plain = Axis()
            S.draw('mesh', plain, M, subforest_flag=sub)
            got = [(norm(S, i), style_of(i)) for i in ax.items]
            for i in plain.items:
                k = (norm(S, i), style_of(i))
                if k not in got:
                    raise Violation('the mesh is missing when regions are '
                                    'drawn')
                got.remove(k)
            exp = [drawn_region(S, dim, kind, M, fl, sub)
                   for fl, kind in regs]
            # which colours belong to which region
            cols = {}
            rest = list(got)
            for n, e in enumerate(exp):
                for q in e:
                    hit = [g for g in rest if g[0] == q and
                           cols.get(n, g[1]) == g[1] and
                           g[1] not in [cols[m] for m in cols if m != n]]
                    if not hit:
                        if ax.unknown:
                            raise Undecided('drawn with ' + ', '.join(
                                ax.unknown))
                        raise Violation(
                            'a %s of region %r is not drawn in the colour '
                            'of the region' % (regs[n][1], regs[n][0]))
                    cols[n] = hit[0][1]
                    rest.remove(hit[0])
            both = set()
            for n, (fl, kind) in enumerate(regs):
                both |= set(exp[n])
            extra = [g for g in rest if not (
                g[0][0] == 'seg' and g[0] in both)]
            if extra:
                raise Violation('%d entities are drawn that belong to no '
                                'region, or drawn twice' % len(extra))
        return f
    for name, dim, mk in meshes():
        sets = [[(None, 'vertex')], [(None, 'cell')], [('av', 'vertex')],
                [('ac', 'cell'), ('bv', 'vertex')],
                [('bc', 'cell'), ('av', 'vertex'), ('bv', 'vertex')]]
        if dim == 2:
            sets += [[(None, 'half_edge')], [(None, 'edge')],
                     [('ae', 'edge')], [('be', 'half_edge'), ('ae', 'edge')],
                     [('bv', 'vertex'), ('ac', 'cell'), ('be', 'edge')]]
        for regs in sets:
            ctx.ob('regions: %s, %s' % (name, ' '.join(
                '%s-%s' % (a or 'all', b) for a, b in regs)),
                mesh_regions(name, dim, mk, regs),
                ctx.where('plot', 'Plot.mesh'))

    # ---------------------------------------------- degrees of freedom
    def dofs(name, dim, mk, et, labels, partial=False):
        def f():
            S = Scene(ctx)
            W = S.W
            M = mk(W)
            sub = flag_of(name)
            E = W.new('fem', 'QuadFE', dim, et)
            D = W.new('fem', 'DofHandler', M, E)
            if sub and not partial:
                W.m(D, 'distribute_dofs')
            kw = {'subforest_flag': sub} if sub else {}
            W.m(D, 'distribute_dofs', **kw)
            ax = Axis()
            S.draw('mesh', ax, M, dofhandler=D, dofs=True, doflabels=labels,
                   **kw)
            ref = aslist(W, W.m(E, 'reference_nodes'))
            exp = []
            for c in leaves_of(W, M, sub):
                P = [[canon(x) for x in p] for p in S.cell(c)]
                for r, d in zip(ref, aslist(W, W.m(D, 'get_cell_dofs', c))):
                    r = [Sym.of(q) for q in seq(W.it, r)]
                    if dim == 1:
                        x = [P[0][0] + (P[1][0] - P[0][0]) * r[0]]
                    else:
                        s, t = r
                        w = [(1 - s) * (1 - t), s * (1 - t), s * t,
                             (1 - s) * t]
                        x = [sum((P[v][i] * w[v] for v in range(4)),
                                 Sym.of(0)) for i in range(2)]
                    exp.append(('text', S.pt(x), str(d)) if labels else
                               ('point', S.pt(x)))
            got = [norm(S, i) for i in ax.items
                   if i['kind'] == ('text' if labels else 'point')]
            same(ax, got, exp, 'degrees of freedom', once=False)
        return f
    for name, dim, mk in meshes():
        for et in ('Q1', 'Q2', 'DQ0', 'DQ1') if name != 'periodic' else (
                'Q1', 'DQ1'):
            for labels in (True, False):
                ctx.ob('dofs: %s, %s%s' % (
                    name, et, ', labels' if labels else ''),
                    dofs(name, dim, mk, et, labels),
                    ctx.where('plot', 'Plot.dofs'))
        if flag_of(name):
            ctx.ob('dofs: %s, numbered alone' % name,
                   dofs(name, dim, mk, 'Q2', True, True),
                   ctx.where('plot', 'Plot.dofs'))

    # ----------------------------------------------------------- functions
    def function(S, kind, dim, M, sub, samples=2):
        W = S.W
        if kind == 'explicit':
            return W.new('function', 'Explicit',
                         [rule(W, 'f%d' % i) for i in range(samples)],
                         dim=dim)
        if kind == 'constant':
            return W.new('function', 'Constant',
                         W.arr([Sym.var('c%d' % i)
                                for i in range(samples)]))
        E = W.new('fem', 'QuadFE', dim, kind)
        D = W.new('fem', 'DofHandler', M, E)
        if sub:
            W.m(D, 'distribute_dofs')
        kw = {'subforest_flag': sub} if sub else {}
        W.m(D, 'distribute_dofs', **kw)
        B = basis(W, D, **kw)
        n = W.m(B, 'n_dofs')
        A = np.empty((n, samples), dtype=object)
        for ix in np.ndindex(*A.shape):
            A[ix] = Sym.var('u%d_%d' % ix)
        return W.new('function', 'Nodal', data=A, basis=B)

    def axis_of(S, quick, three, r, ax):
        if not quick:
            if r is not ax:
                raise Violation('the axis is not returned')
            return ax
        if not S.canvas.figs or not S.canvas.figs[-1].axes:
            raise Violation('no figure is made')
        if not S.canvas.shown:
            raise Violation('the figure is not shown')
        ax = S.canvas.figs[-1].axes[-1]
        if ax.three != three:
            raise Violation('the figure has an axis of the wrong kind')
        return ax

    def values(W, fn, X, n, **kw):
        v = asarr(W.m(fn, 'eval', W.arr(X), **kw))
        return [v[i, n] for i in range(len(X))]

    def contour(name, mk, kind, n, deriv, res, quick):
        def f():
            S = Scene(ctx, quick)
            W = S.W
            M = mk(W)
            sub = flag_of(name)
            fn = function(S, kind, 2, M, sub)
            ax = None if quick else Axis()
            kw = {'derivative': deriv} if deriv else {}
            if kind in ('explicit', 'constant'):
                kw['mesh'] = M
            if n:
                kw['n_sample'] = n
            r = S.draw('contour', ax, fn, resolution=res, **kw)
            ax = axis_of(S, quick, False, r, ax)
            fs = [i for i in ax.items if i['kind'] == 'field']
            if len(fs) != 1:
                if ax.unknown:
                    raise Undecided('drawn with ' + ', '.join(ax.unknown))
                raise Violation('%d fields are drawn' % len(fs))
            X, Y, Z = [asarr(fs[0][q]) for q in 'xyz']
            nx, ny = res
            if X.ndim == 1:
                X, Y = np.meshgrid(X, Y)
            want(X.shape, (ny, nx), 'resolution')
            want(Z.shape, X.shape, 'shape of the values')
            x0, x1, y0, y1 = [Sym.of(q) for q in aslist(
                W, W.m(M, 'bounding_box'))]
            gx = [x0 + (x1 - x0) * F(i, nx - 1) for i in range(nx)]
            gy = [y0 + (y1 - y0) * F(j, ny - 1) for j in range(ny)]
            want(X, np.array([gx] * ny, dtype=object), 'x of the grid')
            want(Y, np.array([[y] * nx for y in gy], dtype=object),
                 'y of the grid')
            P = [[x, y] for y in gy for x in gx]
            k = {'derivative': deriv} if deriv and kind not in (
                'explicit', 'constant') else {}
            want(Z.ravel(), np.array(values(W, fn, P, n, **k),
                                     dtype=object), 'drawn values')
            limits(S, ax, M, 2, 'contour')
        return f
    two = dict((m[0], m[2]) for m in meshes() if m[1] == 2)
    for name in ('one square', 'squares', 'submesh of squares'):
        for kind in ('Q1', 'explicit', 'constant', 'DQ0'):
            for n, deriv, res, quick in ((0, None, (3, 4), False),
                                         (1, None, (4, 3), False),
                                         (1, 'fx', (4, 3), False),
                                         (0, 'fy', (2, 4), True)):
                if kind != 'Q1' and deriv:
                    continue
                ctx.ob('contour: %s %s, sample %d%s' % (
                    kind, name, n, ' ' + deriv if deriv else ''),
                    contour(name, two[name], kind, n, deriv, res, quick),
                    ctx.where('plot', 'Plot.contour'))

    def wire(name, mk, kind, n, res, quick):
        def f():
            S = Scene(ctx, quick)
            W = S.W
            M = mk(W)
            sub = flag_of(name)
            fn = function(S, kind, 2, M, sub)
            ax = None if quick else Axis(True)
            kw = {'mesh': M} if kind in ('explicit', 'constant') else {}
            if n:
                kw['n_sample'] = n
            r = S.draw('wire', ax, fn, resolution=res, **kw)
            ax = axis_of(S, quick, True, r, ax)
            limits(S, ax, M, 2, 'wire', 'xy')
            if 'z' not in ax.lims and not ax.unknown:
                raise Violation('wire: the limits of the z axis are not set')
            cells = leaves_of(W, M, sub if not kw.get('mesh') else None)
            ps = [i['pts'] for i in ax.items if i['kind'] == 'poly']
            if len(ps) != len(cells):
                if ax.unknown:
                    raise Undecided('drawn with ' + ', '.join(ax.unknown))
                raise Violation('%d wires for %d cells' % (len(ps),
                                                           len(cells)))
            todo = dict((S.ring([S.pt(p) for p in S.cell(c)]), c)
                        for c in cells)
            for p in ps:
                if any(len(q) != 3 for q in p):
                    raise Violation('a wire is not three-dimensional')
                ids = [S.pt(q[:2]) for q in p]
                key = None
                for k in todo:
                    if set(k) <= set(ids):
                        key = k
                        break
                if key is None:
                    raise Violation('a wire runs around no cell of the mesh')
                c = todo.pop(key)
                P = [[canon(x) for x in q] for q in S.cell(c)]
                exp = []
                for i in range(4):
                    a, b = P[i], P[(i + 1) % 4]
                    for j in range(res):
                        t = F(j, res - 1)
                        exp.append([a[d] + (b[d] - a[d]) * t
                                    for d in range(2)])
                eids = [S.pt(q) for q in exp]
                if set(eids) != set(ids):
                    raise Violation('a wire does not follow the sides of '
                                    'its cell')
                kw2 = {} if kind in ('explicit', 'constant') else {'cell': c}
                vs = dict(zip(eids, values(W, fn, exp, n, **kw2)))
                for q, i in zip(p, ids):
                    want(q[2], vs[i], 'height of a wire')
            covers(ax, 'z', [q[2] for p in ps for q in p], 'wire')
        return f
    for name in ('one square', 'squares', 'submesh of squares'):
        for kind in ('Q1', 'Q2', 'DQ1', 'explicit', 'constant'):
            for n, res, quick in ((0, 3, False), (1, 2, False),
                                  (1, 3, True)):
                ctx.ob('wire: %s %s, sample %d%s' % (
                    kind, name, n, ' quick view' if quick else ''),
                    wire(name, two[name], kind, n, res, quick),
                    ctx.where('plot', 'Plot.wire'))

    def line(name, mk, kind, n, res, quick):
        def f():
            S = Scene(ctx, quick)
            W = S.W
            M = mk(W)
            sub = flag_of(name)
            fn = function(S, kind, 1, M, sub)
            ax = None if quick else Axis()
            kw = {'mesh': M} if kind in ('explicit', 'constant') else {}
            if n:
                kw['i_sample'] = n
            r = S.draw('line', ax, fn, resolution=res,
                       plot_kwargs={'color': 'r'}, **kw)
            ax = axis_of(S, quick, False, r, ax)
            limits(S, ax, M, 1, 'line')
            cells = leaves_of(W, M, sub if not kw.get('mesh') else None)
            exp = []
            for c in cells:
                a, b = [canon(p[0]) for p in S.cell(c)]
                X = [a + (b - a) * F(j, res - 1) for j in range(res)]
                k2 = {} if kind in ('explicit', 'constant') else {'cell': c}
                V = values(W, fn, X, n, **k2)
                for j in range(res - 1):
                    exp.append((X[j], V[j], X[j + 1], V[j + 1]))
            segs = [i for i in ax.items if i['kind'] == 'seg']
            for i in segs:
                if style_of(i) != 'r':
                    raise Violation('the style of the line is ignored')
            got = []
            for i in segs:
                (x, y), (z, w) = i['pts']
                if Sym.of(x).equals(z, 1e-9):
                    if Sym.of(y).equals(w, 1e-9):
                        continue
                    raise Violation('the line is vertical at the end of an '
                                    'interval')
                got.append((x, y, z, w))
            P = Points()

            def key(q):
                return tuple(sorted([P.id([Sym.of(v) for v in q[:2]]),
                                     P.id([Sym.of(v) for v in q[2:]])]))
            same(ax, [key(q) for q in got], [key(q) for q in exp],
                 'pieces of the line')
            if 'y' in ax.lims:
                covers(ax, 'y', [v for q in got for v in (q[1], q[3])],
                       'line')
        return f
    for name, dim, mk in meshes():
        if dim != 1:
            continue
        for kind in ('Q1', 'Q2', 'DQ0', 'DQ1', 'explicit', 'constant'):
            for n, res, quick in ((0, 3, False), (1, 4, False),
                                  (1, 2, True)):
                ctx.ob('line: %s %s, sample %d%s' % (
                    kind, name, n, ' quick view' if quick else ''),
                    line(name, mk, kind, n, res, quick),
                    ctx.where('plot', 'Plot.line'))

    # ------------------------------------------------- several at one axis
    def noaxis():
        S = Scene(ctx)
        M = boxmesh(S.W, (1, 1))
        try:
            S.draw('mesh', None, M)
        except AbsRaise:
            return
        raise Violation('no axis is given and no quick view asked for, but '
                        'something is drawn')
    ctx.ob('mesh: no axis', noaxis, ctx.where('plot', 'Plot.check_axis'))
