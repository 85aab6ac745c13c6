"""Abstract objects built through the repository's own constructors."""
import numpy as np
from .sym import Sym
from .absint import Alt, Top


class World(object):
    """one interpreter plus shorthands"""

    def __init__(self, ctx, generic=True, assume=None, budget=3000000):
        self.ctx = ctx
        self.it = ctx.interp(budget=budget, generic=generic, assume=assume)

    def cls(self, mod, name):
        return self.it.cls(mod, name)

    def new(self, mod, name, *args, **kw):
        return self.it.call(self.it.cls(mod, name), list(args), kw)

    def m(self, obj, name, *args, **kw):
        return self.it.call(self.it.getattr_(obj, name), list(args), kw)

    def at(self, obj, name):
        return self.it.getattr_(obj, name)

    # ------------------------------------------------------------ geometry
    def vertex(self, *xy):
        return self.new('mesh', 'Vertex', tuple(xy) if len(xy) > 1 else xy[0])

    def interval(self, a, b):
        return self.new('mesh', 'Interval', self.vertex(a), self.vertex(b))

    def halfedge(self, p, q):
        return self.new('mesh', 'HalfEdge', self.vertex(*p), self.vertex(*q))

    def quad(self, pts):
        vs = [self.vertex(*p) for p in pts]
        hes = [self.new('mesh', 'HalfEdge', vs[i], vs[(i + 1) % 4])
               for i in range(4)]
        return self.new('mesh', 'QuadCell', hes)

    def gquad(self):
        """generic quadrilateral (four unrelated vertices)"""
        P = [(Sym.var('x%d' % i), Sym.var('y%d' % i)) for i in range(4)]
        return self.quad(P), P

    def rect(self):
        """rectangle with arbitrary position and size, first edge along x"""
        a, b = Sym.var('a'), Sym.var('b')
        h, k = Sym.var('h', True), Sym.var('k', True)
        P = [(a, b), (a + h, b), (a + h, b + k), (a, b + k)]
        return self.quad(P), P

    def arr(self, v):
        return self.it.mkarr(v)


def tolist(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    return v


# ------------------------------------------------------- local mesh patterns
def _pts(names):
    return [[Sym.var('x' + n), Sym.var('y' + n)] for n in names]


def glued(W, i, j, cls='QuadMesh'):
    """two quadrilaterals with generic vertices, side i of the first glued
    to side j of the second; the corners carry independent symbols"""
    X = _pts(['0', '1', '2', '3', '4', '5'])
    A = [0, 1, 2, 3]
    B = [None] * 4
    B[j] = A[(i + 1) % 4]
    B[(j + 1) % 4] = A[i]
    B[(j + 2) % 4] = 4
    B[(j + 3) % 4] = 5
    return W.new('mesh', cls, x=W.arr(X), connectivity=[A, B]), X, (A, B)


def star(W, rots=(0, 0, 0, 0)):
    """four quadrilaterals around one vertex, 3x3 generic vertices, each cell
    listing its corners from a different start"""
    X = _pts([str(n) for n in range(9)])
    cells = [[0, 1, 4, 3], [1, 2, 5, 4], [4, 5, 8, 7], [3, 4, 7, 6]]
    cells = [c[r:] + c[:r] for c, r in zip(cells, rots)]
    return W.new('mesh', 'QuadMesh', x=W.arr(X), connectivity=cells), X, cells


def box2(W):
    a, b = Sym.var('a'), Sym.var('b')
    h, k = Sym.var('h', True), Sym.var('k', True)
    return [a, a + h, b, b + k]


def boxmesh(W, res, **kw):
    return W.new('mesh', 'QuadMesh', box=box2(W), resolution=tuple(res), **kw)


def linemesh(W, n, **kw):
    a, h = Sym.var('a'), Sym.var('h', True)
    return W.new('mesh', 'Mesh1D', box=[a, a + h], resolution=(n,), **kw)


def aslist(W, v):
    """materialise a list / tuple / generator of the analysed program"""
    if isinstance(v, (list, tuple)):
        return list(v)
    return list(W.it.iterate(v))


def children(W, node):
    n = W.m(node, 'n_children')
    return [W.m(node, 'get_child', q) for q in range(n)]


def coords(W, v):
    return list(W.m(v, 'coordinates'))


def corners(W, cell):
    return [coords(W, v) for v in W.m(cell, 'get_vertices')]


def lam(W, src, mod='assembler', **env):
    """a user-supplied function, given as source text and interpreted like
    the analysed program"""
    import ast
    from .absint import Frame
    node = ast.parse(src, mode='eval').body
    fr = Frame(None, W.it.module(mod), None)
    fr.vars.update(env)
    f = W.it.ev(node, fr)
    f.closure = fr
    return f


def symarr(name, *shape):
    """array of independent symbols name_i_j_..."""
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        out[ix] = Sym.var('%s_%s' % (name, '_'.join(map(str, ix))))
    return out
