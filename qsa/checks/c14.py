"""C14 functions return the values that define them."""
import itertools
from fractions import Fraction as F
import numpy as np
from ..frame import want, Violation, Undecided
from ..build import (World, Sym, boxmesh, linemesh, aslist, children, coords,
                     corners, symarr)
from ..absint import Alt, Native, AbsRaise, Top
from .fe_common import distribute, Where, leaves, numeric
from .c11 import asarr, basis
from .c13 import oracle


def world(ctx):
    return World(ctx, assume=oracle(), budget=30000000)


def val(name, j, pts):
    """the unknown standing for a user function at given points"""
    return Sym.var('%s%d<%s>' % (name, j, ';'.join(
        ','.join('%.9g' % (numeric(c) + 0.0) for c in np.atleast_1d(p))
        for p in pts)))

a, b = Sym.var('a'), Sym.var('b')
h, k = Sym.var('h', True), Sym.var('k', True)


def at(*rel):
    """point of the box [a,a+h]x[b,b+k] at a relative position"""
    return [o + l * Sym.of(r) for o, l, r in zip((a, b), (h, k), rel)]


def rule(W, name, flat=True):
    """user function: an unknown of its points, times its parameters"""
    def f(it, args, kw):
        n = len(args[0])
        out = np.empty(n if flat else (n, 1), dtype=object)
        for i in range(n):
            v = val(name, 0, [x[i] for x in args])
            for q in sorted(kw):
                v = v * Sym.of(kw[q]) ** (1 if q == 'p' else 2)
            out[i if flat else (i, 0)] = v
        return out
    return Native('user function ' + name, f)


def rval(name, pts, **kw):
    v = val(name, 0, pts)
    for q in sorted(kw):
        v = v * Sym.of(kw[q]) ** (1 if q == 'p' else 2)
    return v


def refuses(fn, what):
    try:
        fn()
    except AbsRaise:
        return
    raise Violation('%s accepted' % what)


class Local(object):
    """local shape functions of a box cell, written down from the reference
    nodes (independently of the analysed code)"""

    def __init__(self, W, E, et, dim):
        self.dim, self.p = dim, int(et[-1])
        self.nodes = [[F(float(np.atleast_1d(c)[0])).limit_denominator(100)
                       for c in (r if dim == 2 else [r])]
                      for r in np.asarray(W.m(E, 'reference_nodes'),
                                          dtype=object).reshape(-1, dim)
                      .tolist()] if dim == 2 else \
            [[F(float(c)).limit_denominator(100)] for c in
             np.asarray(W.m(E, 'reference_nodes'), dtype=object)
             .ravel().tolist()]
        self.one = [F(i, self.p) for i in range(self.p + 1)] if self.p \
            else [F(1, 2)]

    def poly(self, node, x):
        out = Sym.of(1)
        for m in self.one:
            if m != node:
                out = out * ((x - m) / (node - m))
        return out

    def __call__(self, W, cell, x, der):
        """values of all local functions (derivative der: axes) at x"""
        v = [Sym.var('_t%d' % q) for q in range(self.dim)]
        if self.dim == 1:
            P = [coords(W, W.m(cell, 'base')), coords(W, W.m(cell, 'head'))]
            o, l = [Sym.of(P[0][0])], [Sym.of(P[1][0]) - Sym.of(P[0][0])]
        else:
            P = corners(W, cell)
            o = [Sym.of(c) for c in P[0]]
            l = [Sym.of(P[1][0]) - o[0], Sym.of(P[3][1]) - o[1]]
        out = []
        for nd in self.nodes:
            f = Sym.of(1)
            for q in range(self.dim):
                f = f * self.poly(nd[q], v[q])
            for ax in der:
                f = f.diff(v[ax]) / l[ax]
            for q in range(self.dim):
                f = f.subs({v[q]: (Sym.of(x[q]) - o[q]) / l[q]})
            out.append(f)
        return out


DER = {'f': (), 'fx': (0,), 'fy': (1,), 'fxx': (0, 0), 'fxy': (0, 1),
       'fyx': (1, 0), 'fyy': (1, 1)}


def mesh(W, dim, n=2):
    return linemesh(W, n) if dim == 1 else boxmesh(W, (n, 1))


def owner(W, cells, x):
    """index of a cell (a box) containing a point, by relative position"""
    for c in cells:
        ok = True
        for q, (o, l) in enumerate(zip((a, b), (h, k))):
            if q >= len(x):
                break
            P = corners(W, c) if len(x) == 2 else [
                coords(W, W.m(c, 'base')), coords(W, W.m(c, 'head'))]
            lo = min(float(((Sym.of(p[q]) - o) / l).const()) for p in P)
            hi = max(float(((Sym.of(p[q]) - o) / l).const()) for p in P)
            r = float(((Sym.of(x[q]) - o) / l).const())
            ok = ok and lo - 1e-12 <= r <= hi + 1e-12
        if ok:
            return c
    raise Undecided('no cell for a point')


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('abstract interpretation of the function classes with '
                     'unknown nodal data, unknown user functions and '
                     'parameters; values compared in rational normal form '
                     'with the defining sums')
    ctx.explanation = (
        'Explicit, constant and nodal functions are built and evaluated '
        'with unknown rules, parameters and nodal values on boxes of unknown '
        'position and size; every entry of the result must be the value of '
        'its own rule with its own parameters, respectively the sum of nodal '
        'values times (derivatives of) shape functions written down '
        'independently.')
    ctx.assumptions = ['points are given in cells of box shape at fixed '
                       'relative positions; user functions return one value '
                       'per point']
    explicit(ctx)
    constant(ctx)
    data(ctx)
    points(ctx)
    local(ctx)
    derived(ctx)
    bases(ctx)


# ---------------------------------------------------------------- explicit
def explicit(ctx):
    w = ctx.where('function', 'Explicit.eval')

    def cols(nf, np_, dim, nv, flat):
        def f():
            W = world(ctx)
            fs = [rule(W, 'f%d' % j, flat) for j in range(nf)]
            ps = [{'p': Sym.var('p%d' % j), 'q': Sym.var('q%d' % j)}
                  for j in range(np_)]
            fn = W.new('function', 'Explicit', fs if nf > 1 else fs[0],
                       parameters=(ps if np_ > 1 else ps[0]) if np_ else {},
                       dim=dim, n_variables=nv)
            n = max(nf, np_, 1)
            want(W.m(fn, 'n_samples'), n, 'number of samples')
            X = [symarr('x%d' % v, 3, dim) for v in range(nv)]
            r = asarr(W.m(fn, 'eval', tuple(X) if nv > 1 else X[0]))
            exp = np.empty((3, n), dtype=object)
            for i in range(3):
                for j in range(n):
                    kw = ps[j if np_ > 1 else 0] if np_ else {}
                    exp[i, j] = rval('f%d' % (j if nf > 1 else 0),
                                     [x[i] for x in X], **kw)
            want(r, exp, 'explicit function')
        return f
    for nf, n_p in ((1, 0), (1, 1), (3, 0), (1, 3), (3, 1), (3, 3), (2, 2)):
        for dim in (1, 2):
            for nv in (1, 2):
                for flat in (True, False):
                    ctx.ob('explicit %d rules %d parameters %dd %d variables'
                           '%s' % (nf, n_p, dim, nv,
                                   '' if flat else ' columns'),
                           cols(nf, n_p, dim, nv, flat), w)

    def mismatch():
        W = world(ctx)
        refuses(lambda: W.new(
            'function', 'Explicit', [rule(W, 'f'), rule(W, 'g')],
            parameters=[{}, {}, {}], dim=1), 'two rules, three parameters')
    ctx.ob('explicit refuses unequal lists', mismatch,
           ctx.where('function', 'Explicit.set_rules'))

    def vars_refused(nv):
        def f():
            W = world(ctx)
            fn = W.new('function', 'Explicit', rule(W, 'f'), dim=1,
                       n_variables=2)
            X = tuple(symarr('x%d' % v, 2 + (v if nv == 'len' else 0), 1)
                      for v in range(3 if nv == 'three' else 2))
            refuses(lambda: W.m(fn, 'eval', X if nv != 'single' else X[0]),
                    'wrong variables (%s)' % nv)
        return f
    for nv in ('three', 'single', 'len'):
        ctx.ob('bivariate refuses %s' % nv, vars_refused(nv),
               ctx.where('function', 'Map.parse_x'))

    # point formats
    def formats(dim, fmt):
        def f():
            W = world(ctx)
            fn = W.new('function', 'Explicit', rule(W, 'f'), dim=dim)
            P = [[Sym.var('x%d%d' % (i, c)) for c in range(dim)]
                 for i in range(3)]
            n = 3
            if fmt.startswith('integer'):
                P = [[i + 2 * c for c in range(dim)] for i in range(3)]
            if fmt == 'integer array':
                x = np.array(P)
            elif fmt == 'integers':
                x = [tuple(p) if dim > 1 else p[0] for p in P]
            elif fmt == 'array':
                x = W.arr(P)
            elif fmt == 'tuples':
                x = [tuple(p) if dim > 1 else p[0] for p in P]
            elif fmt == 'lists':
                x = [list(p) for p in P]
            elif fmt == 'vertices':
                x = [W.vertex(*p) for p in P]
            elif fmt == 'vertex':
                x, n = W.vertex(*P[0]), 1
            elif fmt == 'single':
                x, n = (tuple(P[0]) if dim > 1 else P[0][0]), 1
            elif fmt == 'flat':
                x = W.arr([p[0] for p in P])
            r = asarr(W.m(fn, 'eval', x))
            want(r, np.array([[rval('f', [P[i]])] for i in range(n)],
                             dtype=object), 'values for points as %s' % fmt)
        return f
    for dim in (1, 2):
        for fmt in ('array', 'tuples', 'vertices', 'vertex', 'single',
                    'integers', 'integer array') + (
                ('flat',) if dim == 1 else ()):
            ctx.ob('points as %s %dd' % (fmt, dim), formats(dim, fmt),
                   ctx.where('function', 'Map.parse_x'))

    # changing rules
    def change(how, n):
        def f():
            W = world(ctx)
            lf = [rule(W, 'f%d' % j) for j in range(n)]
            lp = [{'p': Sym.var('p%d' % j)} for j in range(n)]
            fn = W.new('function', 'Explicit', lf, parameters=lp, dim=1)
            state = [('f%d' % j, {'p': Sym.var('p%d' % j)})
                     for j in range(n)]
            new = {'p': Sym.var('r')}
            pos = n - 1
            if how == 'rule':
                W.m(fn, 'set_rules', rule(W, 'g'), parameters=new, pos=pos)
                state[pos] = ('g', new)
            elif how == 'parameters':
                W.m(fn, 'set_parameters', new, pos=pos)
                state[pos] = (state[pos][0], new)
            elif how == 'all parameters':
                W.m(fn, 'set_parameters', new)
                state = [(s, new) for s, _ in state]
            elif how == 'add':
                W.m(fn, 'add_rule', rule(W, 'g'), parameters=new)
                state.append(('g', new))
            elif how == 'replace':
                W.m(fn, 'set_rules', [rule(W, 'g'), rule(W, 'm')],
                    parameters=[new, {}])
                state = [('g', new), ('m', {})]
            X = symarr('x', 2, 1)
            want(W.m(fn, 'n_samples'), len(state), 'number of samples')
            want(asarr(W.m(fn, 'eval', X)), np.array(
                [[rval(nm, [x], **p) for nm, p in state] for x in X]),
                'values after changing the rules')
            if len(lf) != n or len(lp) != n or any(
                    set(p) != {'p'} or p['p'] != Sym.var('p%d' % j)
                    for j, p in enumerate(lp)):
                raise Violation("the caller's lists were changed")
        return f
    for how in ('rule', 'parameters', 'all parameters', 'add', 'replace'):
        for n in (1, 2, 3):
            ctx.ob('explicit change %s of %d' % (how, n), change(how, n),
                   ctx.where('function', 'Explicit.set_parameters'
                             if 'param' in how else 'Explicit.add_rule'
                             if how == 'add' else 'Explicit.set_rules'))

    def separate():
        W = world(ctx)
        f1 = W.new('function', 'Explicit', rule(W, 'f'), dim=1)
        f2 = W.new('function', 'Explicit', rule(W, 'f'), dim=1)
        W.m(f1, 'set_parameters', {'p': Sym.var('p')}, pos=0)
        W.m(f1, 'add_rule', rule(W, 'g'))
        W.m(f1, 'set_parameters', {'p': Sym.var('q')}, pos=1)
        f3 = W.new('function', 'Explicit', rule(W, 'f'), dim=1)
        X = symarr('x', 2, 1)
        for q in (f2, f3):
            want(asarr(W.m(q, 'eval', X)), np.array(
                [[rval('f', [x])] for x in X]),
                'a function whose neighbour was changed')
    ctx.ob('explicit functions are independent', separate, w)


# ---------------------------------------------------------------- constant
def constant(ctx):
    w = ctx.where('function', 'Constant.eval')

    def one(n, nv, npts):
        def f():
            W = world(ctx)
            d = [Sym.var('c%d' % j) for j in range(n)]
            c = W.new('function', 'Constant', data=W.arr(d), n_variables=nv)
            X = [symarr('x%d' % v, npts, 2) for v in range(nv)]
            want(W.m(c, 'n_samples'), n, 'number of samples')
            want(asarr(W.m(c, 'eval', tuple(X) if nv > 1 else X[0])),
                 np.array([d] * npts, dtype=object), 'constant function')
            want(W.m(c, 'is_symmetric'), True, 'symmetry')
        return f
    for n in (1, 2, 3):
        for nv in (1, 2):
            for p in (1, 3):
                ctx.ob('constant %d samples %d variables %d points' % (
                    n, nv, p), one(n, nv, p), w)

    def number():
        W = world(ctx)
        c = W.new('function', 'Constant', 3)
        want(asarr(W.m(c, 'eval', symarr('x', 2, 1))),
             np.array([[3], [3]], dtype=object), 'constant number')
        c = W.new('function', 'Constant', 2.5)
        want(asarr(W.m(c, 'eval', symarr('x', 2, 2))),
             np.array([[Sym.of(2.5)]] * 2, dtype=object), 'constant number')
    ctx.ob('constant number', number, w)


# --------------------------------------------------------------- nodal data
def submesh(W, M, dim):
    """label the first root and its children; refine further"""
    C = W.at(M, 'cells')
    roots = children(W, C)
    W.m(roots[0], 'split')
    for c in [roots[0]] + children(W, roots[0]):
        W.m(c, 'mark', 's')
    W.m(W.m(roots[0], 'get_child', 0), 'split')
    if dim == 2:
        return roots
    return roots


def data(ctx):
    w = ctx.where('function', 'Nodal.set_data')

    def sampled(dim, et, nv, ns, sub):
        def f():
            W = world(ctx)
            M = mesh(W, dim)
            if sub:
                submesh(W, M, dim)
            E, D = distribute(W, M, et, dim)
            B = basis(W, D, subforest_flag='s' if sub else None)
            fs = [rule(W, 'f%d' % j) for j in range(ns)]
            fn = W.new('function', 'Nodal', f=fs if ns > 1 else fs[0],
                       basis=B, n_variables=nv)
            dofs = [int(d) for d in aslist(W, W.m(B, 'dofs'))]
            pos = Where(W, E, dim)
            X = {}
            cells = leaves(W, M) if not sub else \
                children(W, children(W, W.at(M, 'cells'))[0])
            for c in cells:
                for g, p in zip(W.m(D, 'get_cell_dofs', c), pos(c)):
                    X[int(g)] = p
            want(sorted(X), sorted(dofs), 'degrees of freedom of the basis')
            n = len(dofs)
            d = asarr(W.m(fn, 'data'))
            if nv == 1:
                exp = np.array([[rval('f%d' % j, [X[g]]) for j in range(ns)]
                                for g in dofs], dtype=object)
            else:
                exp = np.empty((n, n, ns), dtype=object)
                for p, q, j in itertools.product(range(n), range(n),
                                                 range(ns)):
                    exp[p, q, j] = rval('f%d' % j, [X[dofs[p]], X[dofs[q]]])
            if d.shape != exp.shape:
                raise Violation('data of shape %s, required %s' % (
                    d.shape, exp.shape))
            # positions may be written differently: compare entry by entry
            want(d, exp, 'nodal values')
            want(W.m(fn, 'n_samples'), ns, 'number of samples')
        return f
    for dim, et in ((1, 'Q1'), (1, 'Q2'), (1, 'DQ0'), (2, 'Q1'), (2, 'DQ1')):
        for nv in (1, 2):
            if nv == 2 and et == 'DQ1':
                continue
            for ns in (1, 2):
                for sub in (False, True):
                    ctx.ob('nodal data of a function %dd %s %d variables %d '
                           'samples%s' % (dim, et, nv, ns,
                                          ' submesh' if sub else ''),
                           sampled(dim, et, nv, ns, sub), w)

    def given(shape, nv):
        def f():
            W = world(ctx)
            M = mesh(W, 1)
            E, D = distribute(W, M, 'Q1', 1)
            B = basis(W, D)
            d = symarr('d', *shape)
            mk = lambda: W.new('function', 'Nodal', data=d, basis=B,
                               n_variables=nv)
            if shape[0] != 3:
                return refuses(mk, 'data of the wrong size')
            fn = mk()
            g = asarr(W.m(fn, 'data'))
            e = d if d.ndim == nv + 1 else d[:, None]
            want(g, e, 'stored data')
            want(W.m(fn, 'n_samples'), e.shape[-1], 'number of samples')
        return f
    for shape, nv in (((3,), 1), ((3, 1), 1), ((3, 4), 1), ((3, 3, 2), 2),
                      ((3, 3, 1), 2), ((2, 1), 1), ((4, 1), 1)):
        ctx.ob('nodal data %s %d variables' % (shape, nv), given(shape, nv),
               w)

    def modify(sub, mode):
        def f():
            W = world(ctx)
            M = mesh(W, 1)
            if sub:
                submesh(W, M, 1)
            E, D = distribute(W, M, 'Q1', 1)
            B = basis(W, D, subforest_flag='s' if sub else None)
            dofs = [int(q) for q in aslist(W, W.m(B, 'dofs'))]
            n = len(dofs)
            d = symarr('d', n, 3)
            keep = d.copy()
            fn = W.new('function', 'Nodal', data=d, basis=B)
            other = W.new('function', 'Nodal', data=d, basis=B)
            exp = d.copy()
            if mode == 'some':
                sel = [dofs[2], dofs[0]]
                W.m(fn, 'modify_data', symarr('e', 2), i_sample=1, dofs=sel)
                exp[2, 1], exp[0, 1] = symarr('e', 2)
            elif mode == 'column':
                W.m(fn, 'modify_data', symarr('e', n, 1), i_sample=2,
                    dofs=dofs)
                exp[:, 2] = symarr('e', n, 1)[:, 0]
            else:
                W.m(fn, 'modify_data', symarr('e', n))
                exp[:, 0] = symarr('e', n)
            want(asarr(W.m(fn, 'data')), exp, 'modified data')
            # data of whole numbers
            whole = W.new('function', 'Nodal', basis=B,
                          data=np.arange(3 * n).reshape(n, 3))
            W.m(whole, 'modify_data', np.array([F(1, 2), Sym.var('z')],
                                               dtype=object),
                i_sample=1, dofs=[dofs[0], dofs[1]])
            exi = np.arange(3 * n).reshape(n, 3).astype(object)
            exi[0, 1], exi[1, 1] = F(1, 2), Sym.var('z')
            want(asarr(W.m(whole, 'data')), exi, 'modified whole numbers')
            want(d, keep, "the caller's array")
            want(asarr(W.m(other, 'data')), keep,
                 'data of another function')
        return f
    for sub in (False, True):
        for mode in ('some', 'column', 'all'):
            ctx.ob('modify data %s%s' % (mode, ' submesh' if sub else ''),
                   modify(sub, mode),
                   ctx.where('function', 'Nodal.modify_data'))

    def add(nv, n0, n1, sub):
        def f():
            W = world(ctx)
            M = mesh(W, 1)
            if sub:
                submesh(W, M, 1)
            E, D = distribute(W, M, 'Q1', 1)
            B = basis(W, D, subforest_flag='s' if sub else None)
            n = len(aslist(W, W.m(B, 'dofs')))
            sh = (n,) * nv
            d = symarr('d', *(sh + (n0,))) if n0 else None
            e = symarr('e', *(sh + ((n1,) if n1 else ())))
            fn = W.new('function', 'Nodal', data=d, basis=B, n_variables=nv)
            W.m(fn, 'add_samples', e)
            e2 = e if n1 else e[..., None]
            exp = e2 if d is None else np.append(d, e2, axis=-1)
            want(asarr(W.m(fn, 'data')), exp, 'data with added samples')
            want(W.m(fn, 'n_samples'), exp.shape[-1], 'number of samples')
        return f
    for nv in (1, 2):
        for n0, n1 in ((1, 1), (2, 0), (2, 3), (0, 2)):
            for sub in (False, True):
                ctx.ob('add %d samples to %d, %d variables%s' % (
                    n1, n0, nv, ' submesh' if sub else ''),
                    add(nv, n0, n1, sub),
                    ctx.where('function', 'Nodal.add_samples'))


# ------------------------------------------------------- evaluation at points
def nodal(W, dim, et, nv, ns, sub):
    M = mesh(W, dim)
    if sub:
        submesh(W, M, dim)
    E, D = distribute(W, M, et, dim)
    B = basis(W, D, subforest_flag='s' if sub else None)
    n = len(aslist(W, W.m(B, 'dofs')))
    d = symarr('d', *((n,) * nv + (ns,)))
    fn = W.new('function', 'Nodal', data=d, basis=B, n_variables=nv)
    roots = children(W, W.at(M, 'cells'))
    cells = children(W, roots[0]) if sub else leaves(W, M)
    return M, E, D, B, fn, d, cells


def expected(W, L, D, B, d, cells, X, ders, ns, owners=None):
    nv, n = len(X), len(X[0])
    out = np.empty((n, ns), dtype=object)
    for i in range(n):
        rows = []
        for v in range(nv):
            c = owner(W, cells, X[v][i]) if owners is None else owners[v]
            g = [int(q) for q in W.m(D, 'get_cell_dofs', c)]
            ix = [int(q) for q in aslist(W, W.m(B, 'd2i', g))]
            rows.append(list(zip(ix, L(W, c, X[v][i], DER[ders[v]]))))
        for j in range(ns):
            s = Sym.of(0)
            for combo in itertools.product(*rows):
                t = Sym.of(d[tuple(q for q, _ in combo) + (j,)])
                for _, p in combo:
                    t = t * p
                s = s + t
            out[i, j] = s
    return out


REL = {1: [(F(5, 7),), (F(1, 9),), (F(2, 7),), (F(8, 9),)],
       2: [(F(5, 7), F(1, 3)), (F(1, 9), F(3, 5)), (F(2, 7), F(1, 5)),
           (F(4, 5), F(7, 9))]}
# inside the first root cell
SUB = {1: [(F(3, 7),), (F(1, 9),), (F(2, 7),)],
       2: [(F(3, 7), F(1, 3)), (F(1, 9), F(3, 5)), (F(1, 11), F(1, 7))]}


def points(ctx):
    w = ctx.where('function', 'Nodal.eval')

    def one(dim, et, nv, ns, sub, der):
        def f():
            W = world(ctx)
            M, E, D, B, fn, d, cells = nodal(W, dim, et, nv, ns, sub)
            L = Local(W, E, et, dim)
            rel = (SUB if sub else REL)[dim]
            X = [[at(*r) for r in rel[v:] + rel[:v]] for v in range(nv)]
            xx = [W.arr(x) for x in X]
            ders = [der] * nv if not isinstance(der, tuple) else list(der)
            kw = {}
            if der != 'f':
                kw['derivative'] = list(der) if isinstance(der, tuple) \
                    else der
            r = asarr(W.m(fn, 'eval', tuple(xx) if nv > 1 else xx[0], **kw))
            want(r, expected(W, L, D, B, d, cells, X, ders, ns),
                 'values at points')
        return f
    for dim, et in ((1, 'Q1'), (1, 'Q3'), (1, 'DQ0'), (1, 'DQ2'), (2, 'Q1'),
                    (2, 'Q2'), (2, 'DQ1')):
        for ns in (1, 2):
            for sub in (False, True):
                ctx.ob('nodal values %dd %s %d samples%s' % (
                    dim, et, ns, ' submesh' if sub else ''),
                    one(dim, et, 1, ns, sub, 'f'), w)
        for der in ('fx', 'fxx') + (('fy', 'fxy', 'fyx', 'fyy')
                                    if dim == 2 else ()):
            if et in ('DQ0', 'Q1', 'DQ1') and der in ('fxx', 'fyy'):
                continue
            ctx.ob('nodal derivative %s %dd %s' % (der, dim, et),
                   one(dim, et, 1, 2, False, der), w)
    for dim, et in ((1, 'Q1'), (1, 'Q2'), (2, 'Q1')):
        for ns in (1, 2):
            for sub in ((False, True) if dim == 1 else (False,)):
                ctx.ob('bivariate nodal values %dd %s %d samples%s' % (
                    dim, et, ns, ' submesh' if sub else ''),
                    one(dim, et, 2, ns, sub, 'f'), w)
        for der in ('fx', ('f', 'fx'), ('fx', 'f')):
            ctx.ob('bivariate nodal derivative %s %dd %s' % (
                der, dim, et), one(dim, et, 2, 1, False, der), w)

    # with the cell(s) given
    def incell(dim, et, nv, ns, sub, der):
        def f():
            W = world(ctx)
            M, E, D, B, fn, d, cells = nodal(W, dim, et, nv, ns, sub)
            L = Local(W, E, et, dim)
            roots = children(W, W.at(M, 'cells'))
            if sub:
                # a cell below the submesh: its labelled ancestor counts
                small = W.m(W.m(roots[0], 'get_child', 0), 'get_child', 0)
                cs, own = [small] * nv, [W.m(roots[0], 'get_child', 0)] * nv
                rel = [(F(1, 11), F(1, 7)), (F(1, 13), F(1, 9))]
            else:
                cs = [roots[1 - v] for v in range(nv)]
                own = cs
                rel = [(F(3, 5), F(1, 7)), (F(8, 9), F(4, 9))]
            X = []
            for v in range(nv):
                off = F(0) if sub or cs[v] is roots[1] else F(1, 2)
                X.append([at(*[(r[0] - off,) + tuple(r[1:])][0][:dim])
                          for r in rel])
            xx = [W.arr(x) for x in X]
            r = asarr(W.m(fn, 'eval', tuple(xx) if nv > 1 else xx[0],
                          cell=tuple(cs) if nv > 1 else cs[0],
                          derivative=der))
            want(r, expected(W, L, D, B, d, cells, X, [der] * nv, ns, own),
                 'values in given cells')
        return f
    for dim, et in ((1, 'Q1'), (1, 'Q2'), (2, 'Q1'), (2, 'DQ1')):
        for nv in (1, 2):
            for ns in (1, 2):
                for sub in (False, True):
                    if (dim, nv, sub) == (2, 2, True):
                        continue
                    for der in ('f', 'fx'):
                        ctx.ob('nodal values in a cell %dd %s %d variables '
                               '%d samples %s%s' % (
                                   dim, et, nv, ns, der,
                                   ' submesh' if sub else ''),
                               incell(dim, et, nv, ns, sub, der), w)

    def empty():
        W = world(ctx)
        M, E, D, B, fn, d, cells = nodal(W, 1, 'Q1', 1, 1, False)
        x = W.arr([at(F(1, 9))])
        keep = x.copy()
        W.m(fn, 'eval', x)
        want(x, keep, "the caller's points")
        want(asarr(W.m(fn, 'data')), d, 'data after an evaluation')
    ctx.ob('nodal evaluation changes nothing', empty, w)

    def nowhere(kind, dim, ns):
        """no points: an empty table with one column per sample"""
        def f():
            W = world(ctx)
            if kind == 'nodal':
                M, E, D, B, fn, d, cells = nodal(W, dim, 'Q1', 1, ns, False)
            elif kind == 'explicit':
                fn = W.new('function', 'Explicit',
                           [rule(W, 'f'), rule(W, 'g')][:ns], dim=dim)
            else:
                fn = W.new('function', 'Constant', symarr('c', ns))
            r = asarr(W.m(fn, 'eval', np.zeros((0, dim), dtype=object)))
            if r.shape != (0, ns):
                raise Violation('values of shape %s at no points' %
                                (r.shape,))
        return f
    for kind in ('nodal', 'explicit', 'constant'):
        for dim in (1, 2):
            for ns in (1, 2):
                ctx.ob('no points, %s %dd %d samples' % (kind, dim, ns),
                       nowhere(kind, dim, ns), w)


# --------------------------------------- evaluation from given shape functions
def local(ctx):
    w = ctx.where('function', 'Nodal.eval')

    def one(dim, nv, ns, how, sub):
        def f():
            W = world(ctx)
            M, E, D, B, fn, d, cells = nodal(W, dim, 'Q1', nv, ns, sub)
            cs = [cells[-1], cells[0]][:nv]
            nl = W.m(E, 'n_dofs')
            phi = [symarr('u%d' % v, 3, nl) for v in range(nv)]
            keep = [p.copy() for p in phi]
            dl = [[int(q) for q in W.m(D, 'get_cell_dofs', c)] for c in cs]
            if how == 'dofs':
                dofs = [list(q)[::-1] for q in dl]
            else:
                dofs = dl
            kw = dict(phi=phi[0] if nv == 1 else tuple(phi))
            if how == 'cell':
                kw['cell'] = cs[0] if nv == 1 else tuple(cs)
            elif how == 'tuple':
                kw['dofs'] = tuple(dofs)
            else:
                kw['dofs'] = dofs if nv > 1 else dofs[0]
            r = asarr(W.m(fn, 'eval', **kw))
            ix = [[int(q) for q in aslist(W, W.m(B, 'd2i', g))]
                  for g in dofs]
            exp = np.empty((3, ns), dtype=object)
            for g in range(3):
                for j in range(ns):
                    s = Sym.of(0)
                    for c in itertools.product(range(nl), repeat=nv):
                        t = Sym.of(d[tuple(ix[v][c[v]] for v in range(nv)) +
                                     (j,)])
                        for v in range(nv):
                            t = t * phi[v][g, c[v]]
                        s = s + t
                    exp[g, j] = s
            want(r, exp, 'values from shape functions')
            for p, q in zip(phi, keep):
                want(p, q, "the caller's shape functions")
        return f
    for dim in (1, 2):
        for nv in (1, 2):
            for ns in (1, 3):
                for how in ('dofs', 'tuple', 'cell'):
                    for sub in (False, True):
                        ctx.ob('nodal from shape functions %dd %d variables '
                               '%d samples by %s%s' % (
                                   dim, nv, ns, how,
                                   ' submesh' if sub else ''),
                               one(dim, nv, ns, how, sub), w)


# --------------------------------------------------- interpolant, derivative
def derived(ctx):
    def interp(dim, et, kind, sub):
        def f():
            W = world(ctx)
            M = mesh(W, dim)
            if sub == 'coarse':
                coarse = leaves(W, M)
                W.m(M, 'record', 's')
                W.m(coarse[-1], 'mark', 'again')
                W.m(W.at(M, 'cells'), 'refine', refinement_flag='again')
            elif sub:
                submesh(W, M, dim)
            E = W.new('fem', 'QuadFE', dim, et)
            D = W.new('fem', 'DofHandler', M, E)
            flag = 's' if sub else None
            pos = Where(W, E, dim)
            if kind == 'explicit':
                fn = W.new('function', 'Explicit',
                           [rule(W, 'f0'), rule(W, 'f1')], dim=dim)
            else:
                fn = W.new('function', 'Constant',
                           W.arr([Sym.var('c0'), Sym.var('c1')]))
            g = W.m(fn, 'interpolant', D, subforest_flag=flag)
            B = W.m(g, 'basis')
            if W.m(B, 'dofhandler') is not D:
                raise Violation('the interpolant lives on another dofhandler')
            want(W.m(B, 'subforest_flag'), flag, 'submesh of the interpolant')
            dd = asarr(W.m(g, 'data'))
            roots = children(W, W.at(M, 'cells'))
            cells = coarse if sub == 'coarse' else \
                children(W, roots[0]) if sub else leaves(W, M)
            seen = set()
            for c in cells:
                gd = [int(q) for q in W.m(D, 'get_cell_dofs', c)]
                ix = [int(q) for q in aslist(W, W.m(B, 'd2i', gd))]
                for i, p in zip(ix, pos(c)):
                    seen.add(i)
                    for j in range(2):
                        want(dd[i, j], rval('f%d' % j, [p])
                             if kind == 'explicit' else
                             Sym.var('c%d' % j), 'interpolated value')
            want(sorted(seen), list(range(dd.shape[0])), 'interpolated nodes')
        return f
    wi = ctx.where('function', 'Map.interpolant')
    for dim, et in ((1, 'Q1'), (1, 'Q2'), (1, 'DQ1'), (2, 'Q1'), (2, 'DQ0')):
        for kind in ('explicit', 'constant'):
            for sub in (False, True, 'coarse'):
                ctx.ob('interpolant %s %dd %s%s' % (
                    kind, dim, et, ' coarse submesh' if sub == 'coarse' else
                    ' submesh' if sub else ''),
                    interp(dim, et, kind, sub), wi)

    def diff(dim, et, der, ns, sub):
        def f():
            W = world(ctx)
            M, E, D, B, fn, d, cells = nodal(W, dim, et, 1, ns, sub)
            g = W.m(fn, 'differentiate', der)
            Bg = W.m(g, 'basis')
            Dg = W.m(Bg, 'dofhandler')
            Eg = W.at(Dg, 'element')
            want(W.m(Eg, 'element_type'), 'D' + et if et[0] == 'Q' else et,
                 'element of the derivative')
            want(W.m(Bg, 'subforest_flag'), 's' if sub else None,
                 'submesh of the derivative')
            dd = asarr(W.m(g, 'data'))
            L = Local(W, E, et, dim)
            pos = Where(W, Eg, dim)
            seen = set()
            for c in cells:
                gd = [int(q) for q in W.m(Dg, 'get_cell_dofs', c)]
                ix = [int(q) for q in aslist(W, W.m(Bg, 'd2i', gd))]
                X = pos(c)
                e = expected(W, L, D, B, d, cells, [X], [der], ns, [c])
                want(np.array([[dd[i, j] for j in range(ns)] for i in ix],
                              dtype=object), e, 'derivative at the nodes')
                seen |= set(ix)
            want(sorted(seen), list(range(dd.shape[0])), 'nodes')
        return f
    wd = ctx.where('function', 'Nodal.differentiate')
    for dim, et in ((1, 'Q1'), (1, 'Q2'), (1, 'DQ2'), (2, 'Q1'), (2, 'Q2')):
        for der in ('fx', 'fxx') + (('fy', 'fxy') if dim == 2 else ()):
            if et in ('Q1',) and der == 'fxx':
                continue
            for ns, sub in ((1, False), (2, False), (1, True)):
                if et == 'Q2' and dim == 2 and sub:
                    continue
                ctx.ob('differentiate %s %dd %s %d samples%s' % (
                    der, dim, et, ns, ' submesh' if sub else ''),
                    diff(dim, et, der, ns, sub), wd)


# ------------------------------------------------------------------ bases
def bases(ctx):
    def index(dim, et, change):
        def f():
            W = world(ctx)
            M = mesh(W, dim)
            submesh(W, M, dim)
            E, D = distribute(W, M, et, dim)
            first, flag = {'sub': ('s', 's'), 'all': (None, None),
                           'to sub': (None, 's'),
                           'to all': ('s', None)}[change]
            B = basis(W, D, subforest_flag=first)
            if first != flag:
                W.m(B, 'set_subforest_flag', flag)
            want(W.m(B, 'subforest_flag'), flag, 'submesh of the basis')
            roots = children(W, W.at(M, 'cells'))
            cells = leaves(W, M) if flag is None else children(W, roots[0])
            exp = sorted(set(int(g) for c in cells
                             for g in W.m(D, 'get_cell_dofs', c)))
            dofs = [int(q) for q in aslist(W, W.m(B, 'dofs'))]
            want(dofs, exp, 'degrees of freedom of the basis')
            want(W.m(B, 'n_dofs'), len(exp), 'number of them')
            want([int(q) for q in aslist(W, W.m(B, 'd2i', dofs))],
                 list(range(len(exp))), 'index of each')
            want([int(q) for q in aslist(W, W.m(
                B, 'i2d', list(range(len(exp)))))], exp,
                'degree of freedom of each index')
            want(int(W.m(B, 'd2i', exp[-1])), len(exp) - 1, 'last index')
            for c in cells:
                want([int(q) for q in W.m(B, 'dofs', c)],
                     [int(q) for q in W.m(D, 'get_cell_dofs', c)],
                     'degrees of freedom on a cell')
            if flag is not None:
                small = W.m(cells[0], 'get_child', 1)
                want([int(q) for q in W.m(B, 'dofs', small)],
                     [int(q) for q in W.m(D, 'get_cell_dofs', cells[0])],
                     'degrees of freedom below the submesh')
        return f
    for dim, et in ((1, 'Q1'), (1, 'Q3'), (1, 'DQ0'), (2, 'Q1'), (2, 'Q2'),
                    (2, 'DQ1')):
        for change in ('sub', 'all', 'to sub', 'to all'):
            ctx.ob('basis numbering %dd %s %s' % (dim, et, change),
                   index(dim, et, change), ctx.where('fem', 'Basis.d2i'))

    def evalb(dim, et, der, loc, sub):
        def f():
            W = world(ctx)
            M = mesh(W, dim)
            submesh(W, M, dim)
            E, D = distribute(W, M, et, dim)
            B = basis(W, D, derivative=der, subforest_flag='s' if sub
                      else None)
            roots = children(W, W.at(M, 'cells'))
            c = W.m(roots[0], 'get_child', 0)
            own = c
            if sub:
                c = W.m(c, 'get_child', 1)
            L = Local(W, E, et, dim)
            # points of the small cell, and their reference positions
            rel = [(F(1, 3), F(1, 5)), (F(2, 3), F(4, 5))]
            P = [coords(W, W.m(own, 'base')), coords(W, W.m(own, 'head'))] \
                if dim == 1 else corners(W, own)
            lo = [Sym.of(q) for q in P[0]]
            le = [Sym.of(P[1][0]) - lo[0]] + (
                [Sym.of(P[3][1]) - lo[1]] if dim == 2 else [])
            X = [[o + l * Sym.of(r) for o, l, r in zip(lo, le, q)]
                 for q in rel]
            if loc == 'physical':
                r = W.m(B, 'eval', W.arr(X), c, location='physical')
            else:
                r = W.m(B, 'eval', W.arr([list(q[:dim]) for q in rel]), c)
            if der != 'v' and loc != 'physical':
                raise Undecided('derivatives need the map')
            want(asarr(r), np.array([L(W, own, x, ()) for x in X],
                                    dtype=object), 'basis functions')
        return f
    we = ctx.where('fem', 'Basis.eval')
    for dim, et in ((1, 'Q1'), (1, 'Q2'), (2, 'Q1'), (2, 'DQ1')):
        for loc in ('reference', 'physical'):
            for sub in (False, True):
                ctx.ob('basis functions %dd %s %s%s' % (
                    dim, et, loc, ' submesh' if sub else ''),
                    evalb(dim, et, 'v', loc, sub), we)

    def same():
        W = world(ctx)
        M, N = mesh(W, 1), mesh(W, 1)
        submesh(W, M, 1)
        E, D = distribute(W, M, 'Q1', 1)
        D2 = distribute(W, M, 'Q2', 1)[1]
        D3 = distribute(W, N, 'Q1', 1)[1]
        B = basis(W, D)
        Bx = basis(W, D, derivative='vx')
        Bs = basis(W, D, subforest_flag='s')
        B2, B3 = basis(W, D2), basis(W, D3)
        for o, m, q in ((Bx, True, True), (Bs, False, False),
                        (B2, True, False), (B3, False, False),
                        (B, True, True)):
            want(W.m(B, 'same_mesh', o), m, 'same_mesh')
            want(W.m(o, 'same_mesh', B), m, 'same_mesh')
            want(W.m(B, 'same_dofs', o), q, 'same_dofs')
            want(W.m(o, 'same_dofs', B), q, 'same_dofs')
        want(W.m(Bs, 'same_mesh', mesh=M, subforest_flag='s'), True,
             'same_mesh of a submesh')
        want(W.m(Bs, 'same_mesh', mesh=M), False, 'same_mesh of a submesh')
        want(W.m(B, 'same_mesh', mesh=N), False, 'same_mesh')
    ctx.ob('same mesh and degrees of freedom', same,
           ctx.where('fem', 'Basis.same_dofs'))

    def parsed():
        W = world(ctx)
        M = mesh(W, 2, 1)
        E, D = distribute(W, M, 'Q1', 2)
        tab = {'': (0,), 'x': (1, 0), 'y': (1, 1), 'xx': (2, 0, 0),
               'xy': (2, 0, 1), 'yx': (2, 1, 0), 'yy': (2, 1, 1)}
        for first in 'vuf':
            for s, e in tab.items():
                want(tuple(W.m(basis(W, D, derivative=first + s),
                               'derivative')), e,
                     'derivative %s' % (first + s))
        for e in tab.values():
            want(tuple(W.m(basis(W, D, derivative=e), 'derivative')), e,
                 'derivative %s' % (e,))
        for bad in ('xv', 'vz', 'vxyz', 'vzx'):
            refuses(lambda: basis(W, D, derivative=bad), 'derivative ' + bad)
    ctx.ob('derivative names', parsed, ctx.where('fem',
                                                 'parse_derivative_info'))
