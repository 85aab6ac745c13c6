"""C11 local forms are the quadrature of their definition."""
import itertools
import numpy as np
from ..frame import want, Violation, Undecided
from ..build import (World, Sym, boxmesh, linemesh, aslist, children, coords,
                     corners, lam, symarr, glued)
from ..absint import Alt, Native, Obj, Imprecise, Top
from .fe_common import distribute


def fun(W, name, dim, n_variables=1, symmetric=False, samples=1):
    """Explicit function whose value at a point is an unknown of the point"""
    def native(j):
        def f(it, a, k):
            n = len(a[0])
            out = np.empty(n, dtype=object)
            for i in range(n):
                out[i] = val(name, j, [x[i] for x in a])
            return out
        return Native('user function ' + name, f)
    fs = [native(j) for j in range(samples)]
    return W.new('function', 'Explicit', fs if samples > 1 else fs[0],
                 dim=dim, n_variables=n_variables, symmetric=symmetric)


def val(name, j, pts):
    """the unknown standing for sample j of a function at given points"""
    tag = ','.join('(%s)' % ','.join(num(c) for c in np.atleast_1d(p))
                   for p in pts)
    return Sym.var('%s%d<%s>' % (name, j, tag))


def num(c):
    c = Sym.of(c)
    if c.is_const():
        return '%.9g' % (float(c.const()) + 0.0)
    return str(c)


def world(ctx, generic=True):
    return World(ctx, generic=generic, budget=30000000)


def mesh_of(W, dim):
    return linemesh(W, 1) if dim == 1 else boxmesh(W, (1, 1))


def cell_of(W, M):
    return children(W, W.at(M, 'cells'))[0]


def basis(W, D, **kw):
    return W.new('fem', 'Basis', D, **kw)


def pick(d, k, what):
    if not isinstance(d, dict):
        raise Undecided('%s is %r' % (what, d))
    for q in d:
        if q is k:
            return d[q]
    raise Violation('no %s' % what)


def asarr(v):
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, (Top, Alt)):
        raise Undecided('value not determined: %r' % v)
    return np.array(v, dtype=object)


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('abstract interpretation of the quadrature and form '
                     'evaluation code; every result compared in rational '
                     'normal form with the definition of the form')
    ctx.explanation = (
        'Kernels, regions of integration, quadrature data and local '
        'constant, linear, bilinear and integral forms are evaluated on '
        'cells with symbolic geometry and functions, shape functions, '
        'weights and points that are independent unknowns, for every form '
        'type, measure, label pattern and sample count; results must be the '
        'weighted sums that define the form.')
    ctx.assumptions = ['user functions return one value per point']
    kernels(ctx)
    regions(ctx)
    evals(ctx)
    integral(ctx)
    shapes(ctx)
    coarse(ctx)


# ------------------------------------------------------------------- kernels
def kernels(ctx):
    w = ctx.where('assembler', 'Kernel.eval')

    def pts(n, dim):
        return symarr('p', n, dim)

    def plain(dim):
        def f():
            W = world(ctx)
            K = W.new('assembler', 'Kernel', fun(W, 'f', dim))
            x = pts(2, dim)
            want(asarr(W.m(K, 'eval', x)),
                 np.array([[val('f', 0, [x[i]])] for i in range(2)]),
                 'kernel of one function')
        return f
    for d in (1, 2):
        ctx.ob('kernel one function %dd' % d, plain(d), w)

    def combo():
        W = world(ctx)
        fs = [fun(W, n, 1) for n in 'fgh']
        K = W.new('assembler', 'Kernel', fs,
                  F=lam(W, 'lambda a, b, c: a*b - 3*c'))
        x = pts(2, 1)
        want(asarr(W.m(K, 'eval', x)),
             np.array([[val('f', 0, [q]) * val('g', 0, [q]) -
                        val('h', 0, [q]) * 3] for q in x]),
             'kernel of three functions')
    ctx.ob('kernel order of the functions', combo, w)

    def samples(n1, n2):
        def f():
            W = world(ctx)
            fs = [fun(W, 'f', 1, samples=n1), fun(W, 'g', 1, samples=n2)]
            K = W.new('assembler', 'Kernel', fs,
                      F=lam(W, 'lambda a, b: a - 2*b'))
            x = pts(2, 1)
            n = max(n1, n2)
            want(W.m(K, 'n_samples'), n, 'sample count')
            want(asarr(W.m(K, 'eval', x)), np.array(
                [[val('f', j if n1 > 1 else 0, [q]) -
                  val('g', j if n2 > 1 else 0, [q]) * 2
                  for j in range(n)] for q in x]), 'sampled kernel')
        return f
    for n1, n2 in ((1, 2), (2, 1), (2, 2), (3, 1)):
        ctx.ob('kernel samples %d %d' % (n1, n2), samples(n1, n2), w)

    def const_samples():
        W = world(ctx)
        c = W.new('function', 'Constant', np.array(
            [Sym.var('c0'), Sym.var('c1')], dtype=object))
        K = W.new('assembler', 'Kernel', [fun(W, 'f', 2), c],
                  F=lam(W, 'lambda a, b: a + 5*b'))
        x = pts(3, 2)
        want(asarr(W.m(K, 'eval', x)), np.array(
            [[val('f', 0, [q]) + Sym.var('c%d' % j) * 5 for j in range(2)]
             for q in x]), 'kernel with a sampled constant')
    ctx.ob('kernel sampled constant', const_samples, w)

    def widened():
        W = world(ctx)
        fs = [fun(W, 'f', 1, samples=2), fun(W, 'g', 1)]
        K = W.new('assembler', 'Kernel', fs, F=lam(W, 'lambda a, b: 4*b'))
        x = pts(2, 1)
        want(asarr(W.m(K, 'eval', x)), np.array(
            [[val('g', 0, [q]) * 4] * 2 for q in x]),
            'one-sample function in a sampled kernel')
    ctx.ob('kernel widens one sample', widened, w)

    def symm(flags):
        def f():
            W = world(ctx)
            K = W.new('assembler', 'Kernel', [
                fun(W, 'f%d' % n, 1, 2, symmetric=bool(s))
                for n, s in enumerate(flags)], F=lam(W, 'lambda a, b: a*b'))
            want(W.m(K, 'is_symmetric'), all(flags), 'symmetry')
        return f
    for fl in itertools.product((0, 1), repeat=2):
        ctx.ob('kernel symmetry %d%d' % fl, symm(fl),
               ctx.where('assembler', 'Kernel.is_symmetric'))

    # optional arguments of the combining function
    names = ['cell', 'region', 'phi', 'dofs']
    subsets = [s for r in range(5) for s in itertools.permutations(names, r)
               if r in (1, 2, 4) and (r < 4 or s in (
                   tuple(names), tuple(names[::-1])))]

    def forward(sub):
        def f():
            W = world(ctx)
            got = {}

            def rec(it, a, k):
                got.update(k)
                return a[0]
            src = 'lambda f, %s: rec(f, %s)' % (
                ', '.join(sub), ', '.join('%s=%s' % (s, s) for s in sub))
            K = W.new('assembler', 'Kernel', fun(W, 'f', 1),
                      F=lam(W, src, rec=Native('rec', rec)))
            M = mesh_of(W, 1)
            c = cell_of(W, M)
            tok = {'cell': c, 'region': W.m(c, 'base'),
                   'phi': {'tag': 'phi'}, 'dofs': {'tag': 'dofs'}}
            W.m(K, 'eval', pts(2, 1), **tok)
            for s in sub:
                if s not in got:
                    raise Violation('argument %s not passed' % s)
                if got[s] is not tok[s]:
                    raise Violation('argument %s received %r' % (s, got[s]))
            # a second evaluation must not see the first one's arguments
            got.clear()
            W.m(K, 'eval', pts(2, 1))
            for s in sub:
                if got.get(s) is not None:
                    raise Violation('argument %s of an earlier evaluation '
                                    'reused' % s)
        return f
    for s in subsets:
        ctx.ob('kernel forwards ' + ','.join(s), forward(s), w)

    # nodal functions take their own shape functions and dofs
    def nodal(dim, nf):
        def f():
            W = world(ctx)
            M = mesh_of(W, dim)
            bs, fs, phi, dofs = [], [], {}, {}
            for n in range(nf):
                E, D = distribute(W, M, ['Q1', 'Q2', 'DQ1'][n], dim)
                B = basis(W, D, derivative='v' if n != 1 else 'x')
                bs.append(B)
                nd = W.m(B, 'n_dofs')
                fs.append(W.new('function', 'Nodal', data=symarr(
                    'd%d' % n, nd, 1 + n % 2 * 2), basis=B))
                c = cell_of(W, M)
                phi[B] = symarr('phi%d' % n, 2, nd)
                dofs[B] = list(W.m(B, 'dofs', c))[::-1]
            ns = max(W.m(q, 'n_samples') for q in fs)
            F = lam(W, 'lambda %s: %s' % (
                ', '.join('a%d' % n for n in range(nf)),
                ' + '.join('%d*a%d' % (n + 2, n) for n in range(nf))))
            K = W.new('assembler', 'Kernel', fs, F=F)
            x = pts(2, dim)
            r = W.m(K, 'eval', x, phi=phi, cell=cell_of(W, M),
                    region=cell_of(W, M), dofs=dofs)
            exp = np.empty((2, ns), dtype=object)
            for g in range(2):
                for j in range(ns):
                    s = Sym.of(0)
                    for n in range(nf):
                        i = aslist(W, W.m(bs[n], 'd2i', dofs[bs[n]]))
                        data = W.m(fs[n], 'data')
                        for q in range(len(i)):
                            s = s + phi[bs[n]][g, q] * Sym.of(
                                data[int(i[q]), j if data.shape[1] > 1
                                     else 0]) * (n + 2)
                    exp[g, j] = s
            want(asarr(r), exp, 'nodal kernel')
            want(aslist(W, W.m(K, 'basis')) == bs or None, True,
                 'basis of the kernel') if False else None
            got = aslist(W, W.m(K, 'basis'))
            if len(got) != nf or any(a is not b for a, b in zip(got, bs)):
                raise Violation('Kernel.basis does not list the bases of its '
                                'nodal functions')
        return f
    for d in (1, 2):
        for nf in (1, 2, 3):
            ctx.ob('kernel nodal %dd %d functions' % (d, nf), nodal(d, nf), w)

    def derivative(dim, etype, name, form):
        def f():
            W = world(ctx, generic=True)
            M = mesh_of(W, dim)
            c = cell_of(W, M)
            E, D = distribute(W, M, etype, dim)
            B = basis(W, D)
            nd = W.m(B, 'n_dofs')
            fn = W.new('function', 'Nodal', data=symarr('d', nd, 1), basis=B)
            der = {'str': name, 'list': [name]}[form]
            K = W.new('assembler', 'Kernel', [fn], derivatives=der,
                      F=lam(W, 'lambda a: a'))
            X = np.array([[Sym.var('a') + Sym.var('h', True) / 3] + (
                [Sym.var('b') + Sym.var('k', True) / 4] if dim == 2 else [])],
                dtype=object)
            r = W.m(K, 'eval', X, phi={B: symarr('phi', 1, nd)}, cell=c,
                    region=c, dofs={B: list(W.m(B, 'dofs', c))})
            e = W.m(fn, 'eval', X, cell=c, derivative=name)
            want(asarr(r), asarr(e), 'derivative of a kernel function')
        return f
    for dim, etype, name in ((1, 'Q2', 'fx'), (1, 'Q2', 'fxx'),
                             (2, 'Q2', 'fx'), (2, 'Q2', 'fy'),
                             (2, 'Q2', 'fxy')):
        for form in ('str', 'list'):
            ctx.ob('kernel derivative %dd %s %s' % (dim, name, form),
                   derivative(dim, etype, name, form), w)


# ------------------------------------------------------------------- regions
def regions(ctx):
    w = ctx.where('assembler', 'Form.regions')

    def parts(W, cell, dmu, dim):
        if dmu == 'dx':
            return [cell]
        if dmu == 'ds':
            return aslist(W, W.m(cell, 'get_half_edges'))
        return aslist(W, W.m(cell, 'get_vertices'))

    def one(dim, dmu, mask):
        def f():
            W = world(ctx)
            M = mesh_of(W, dim)
            c = cell_of(W, M)
            ps = parts(W, c, dmu, dim)
            flag = None
            if mask is not None:
                flag = 'lab'
                for b, p in zip(mask, ps):
                    W.m(p, 'mark', 'lab' if b else 'other')
            F = W.new('assembler', 'Form', dmu=dmu, flag=flag)
            got = aslist(W, W.m(F, 'regions', c))
            exp = [p for i, p in enumerate(ps) if mask is None or mask[i]]
            if len(got) != len(exp) or \
                    any(not any(g is e for e in exp) for g in got) or \
                    any(not any(g is e for g in got) for e in exp):
                raise Violation('%d regions, required the %d labelled parts'
                                % (len(got), len(exp)))
        return f
    for dim, dmu, n in ((1, 'dx', 1), (1, 'dv', 2), (2, 'dx', 1),
                        (2, 'ds', 4), (2, 'dv', 4)):
        ctx.ob('regions %dd %s unlabelled' % (dim, dmu), one(dim, dmu, None),
               w)
        for mask in itertools.product((0, 1), repeat=n):
            ctx.ob('regions %dd %s %s' % (dim, dmu, ''.join(map(str, mask))),
                   one(dim, dmu, mask), w)


# -------------------------------------------------------- constant ... bilinear
def evals(ctx):
    w = ctx.where('assembler', 'Form.eval')

    def one(kind, dim, dmu, mask, ns, et, er):
        def f():
            W = world(ctx)
            M = mesh_of(W, dim)
            c = cell_of(W, M)
            if dmu == 'dx':
                ps = [c]
            elif dmu == 'ds':
                ps = aslist(W, W.m(c, 'get_half_edges'))
            else:
                ps = aslist(W, W.m(c, 'get_vertices'))
            for b, p in zip(mask, ps):
                if b:
                    W.m(p, 'mark', 'lab')
            on = [p for b, p in zip(mask, ps) if b]
            B = [basis(W, distribute(W, M, e, dim)[1]) for e in (et, er)]
            nd = [W.m(b, 'n_dofs') for b in B]
            K = W.new('assembler', 'Kernel', fun(W, 'f', dim, samples=ns))
            kw = {}
            if kind != 'constant':
                kw['test'] = B[0]
            if kind == 'bilinear':
                kw['trial'] = B[1]
            F = W.new('assembler', 'Form', K, dmu=dmu, flag='lab', **kw)
            want(W.at(F, 'type'), kind, 'form type')
            want(W.m(F, 'dim'), ['constant', 'linear', 'bilinear'].index(
                kind), 'form dimension')
            ng = {'dx': 2, 'ds': 2, 'dv': 1}[dmu]
            xg, wg, phi, dofs = {}, {}, {}, {}
            for q, p in enumerate(on):
                xg[p] = symarr('x%d' % q, ng, dim)
                wg[p] = symarr('w%d' % q, ng) if dmu != 'dv' else 1
                phi[p] = {b: symarr('phi%d%d' % (q, z), ng, nd[z])
                          for z, b in enumerate(B)}
                dofs[p] = {b: list(range(nd[z])) for z, b in enumerate(B)}
            r = asarr(W.m(F, 'eval', c, xg, wg, phi, dofs))
            shape = {'constant': (1, ns), 'linear': (nd[0], ns),
                     'bilinear': (nd[0], nd[1], ns)}[kind]
            exp = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                s = Sym.of(0)
                for p in on:
                    for g in range(ng):
                        t = val('f', ix[-1], [xg[p][g]]) * (
                            wg[p][g] if dmu != 'dv' else 1)
                        if kind != 'constant':
                            t = t * phi[p][B[0]][g, ix[0]]
                        if kind == 'bilinear':
                            t = t * phi[p][B[1]][g, ix[1]]
                        s = s + t
                exp[ix] = s
            want(r, exp, 'local %s form' % kind)
        return f
    for kind in ('constant', 'linear', 'bilinear'):
        for dim, dmu, masks in ((1, 'dx', ['0', '1']),
                                (1, 'dv', ['00', '01', '10', '11']),
                                (2, 'dx', ['0', '1']),
                                (2, 'ds', ['0000', '0100', '1010', '1111']),
                                (2, 'dv', ['0000', '0010', '1001'])):
            for mask in masks:
                for ns in (1, 2):
                    et, er = ('Q1', 'Q1') if kind != 'bilinear' \
                        else ('Q1', 'Q2') if dim == 1 else ('Q1', 'DQ0')
                    ctx.ob('local %s %dd %s %s samples %d' % (
                        kind, dim, dmu, mask, ns),
                        one(kind, dim, dmu, [int(m) for m in mask], ns, et,
                            er), w)

    def kernel_kinds(which):
        def f():
            W = world(ctx)
            M = mesh_of(W, 1)
            c = cell_of(W, M)
            B = basis(W, distribute(W, M, 'Q1', 1)[1])
            xg, wg = {c: symarr('x', 2, 1)}, {c: symarr('w', 2)}
            phi = {c: {B: symarr('phi', 2, 2)}}
            if which == 'none':
                F = W.new('assembler', 'Form', test=B)
                k = [Sym.of(1)] * 2
            elif which == 'number':
                F = W.new('assembler', 'Form', 7, test=B)
                k = [Sym.of(7)] * 2
            else:
                F = W.new('assembler', 'Form', fun(W, 'f', 1), test=B)
                k = [val('f', 0, [q]) for q in xg[c]]
            r = asarr(W.m(F, 'eval', c, xg, wg, phi, {c: {B: [0, 1]}}))
            want(r, np.array([[sum((k[g] * wg[c][g] * phi[c][B][g, i]
                                    for g in range(2)), Sym.of(0))]
                              for i in range(2)]), 'form with a %s kernel'
                 % which)
        return f
    for k in ('none', 'number', 'map'):
        ctx.ob('local kernel given as %s' % k, kernel_kinds(k), w)

    def context(cls):
        def f():
            W = world(ctx)
            M = linemesh(W, 2)
            c, c2 = children(W, W.at(M, 'cells'))
            B = basis(W, distribute(W, M, 'Q1', 1)[1])
            got = []

            def rec(it, a, k):
                got.append(k)
                return a[0]
            k = fun(W, 'f', 1, n_variables=1 if cls == 'Form' else 2)
            K = W.new('assembler', 'Kernel', k, F=lam(
                W, 'lambda f, cell, region, phi, dofs: rec(f, cell=cell, '
                'region=region, phi=phi, dofs=dofs)',
                rec=Native('rec', rec)))
            F = W.new('assembler', cls, K, test=B, trial=B)
            xg, wg = {c: symarr('x', 2, 1)}, {c: symarr('w', 2)}
            phi = {c: {B: symarr('phi', 2, 2)}}
            dofs = {c: {B: [0, 1]}}
            e = {'cell': c, 'region': c, 'phi': phi[c], 'dofs': dofs[c]}
            if cls == 'IPForm':
                x2, w2 = {c2: symarr('y', 2, 1)}, {c2: symarr('v', 2)}
                phi2 = {c2: {B: symarr('psi', 2, 2)}}
                dofs2 = {c2: {B: [1, 2]}}
                W.m(F, 'eval', (c, c2), (xg, x2), (wg, w2), (phi, phi2),
                    (dofs, dofs2))
                e = {'cell': (c, c2), 'region': (c, c2),
                     'phi': (phi[c], phi2[c2]), 'dofs': (dofs[c], dofs2[c2])}
            else:
                W.m(F, 'eval', c, xg, wg, phi, dofs)
            if not got:
                raise Violation('kernel not evaluated')
            for k in e:
                for g in got:
                    a, b = g.get(k), e[k]
                    same = a is b if not isinstance(b, tuple) else (
                        isinstance(a, tuple) and len(a) == 2 and
                        all(p is q for p, q in zip(a, b)))
                    if not same:
                        raise Violation('the kernel receives %s %s' % (
                            k, type(a).__name__))
        return f
    for cls in ('Form', 'IIForm', 'IPForm'):
        ctx.ob('kernel context in %s' % cls, context(cls),
               ctx.where('assembler', cls + '.eval'))

    def bases():
        W = world(ctx)
        M = mesh_of(W, 1)
        B = [basis(W, distribute(W, M, e, 1)[1]) for e in ('Q1', 'Q2', 'Q3')]
        fn = W.new('function', 'Nodal', data=symarr('d', 4, 1), basis=B[2])
        F = W.new('assembler', 'Form', fn, test=B[0], trial=B[1])
        got = aslist(W, W.m(F, 'basis'))
        if len(got) < 3 or any(not any(g is b for g in got) for b in B):
            raise Violation('Form.basis misses a basis')
    ctx.ob('bases of a form', bases, ctx.where('assembler', 'Form.basis'))


# -------------------------------------------------------------- integral forms
def integral(ctx):
    w2 = ctx.where('assembler', 'IIForm.eval')
    w3 = ctx.where('assembler', 'IPForm.eval')

    def setup(W, dim, etypes, dmu, ncell):
        M = linemesh(W, ncell) if dim == 1 else boxmesh(W, (ncell, 1))
        cells = children(W, W.at(M, 'cells'))
        B = [basis(W, distribute(W, M, e, dim)[1]) for e in etypes]
        return M, cells, B

    def marked(W, c, dmu, mask):
        ps = [c] if dmu == 'dx' else aslist(W, W.m(c, 'get_half_edges'))
        for b, p in zip(mask, ps):
            if b == '1':
                W.m(p, 'mark', 'lab')
        return [p for b, p in zip(mask, ps) if b == '1']

    def quad(W, on, B, ng, dim, tag):
        xg, wg, phi, dofs = {}, {}, {}, {}
        for q, p in enumerate(on):
            xg[p] = symarr('%sx%d' % (tag, q), ng, dim)
            wg[p] = symarr('%sw%d' % (tag, q), ng)
            phi[p], dofs[p] = {}, {}
            for z, b in enumerate(B):
                n = W.m(W.at(W.m(b, 'dofhandler'), 'element'), 'n_dofs')
                phi[p][b] = symarr('%sphi%d%d' % (tag, q, z), ng, n)
                dofs[p][b] = list(range(n))
        return xg, wg, phi, dofs

    def interp(dim, etypes, dmu, mask, sub=False):
        def f():
            W = world(ctx)
            M, cells, B = setup(W, dim, etypes, dmu, 2)
            kw = {}
            if sub:
                W.m(W.at(M, 'cells'), 'record', 'coarse')
                W.m(cells[0], 'mark', 'fine')
                W.m(W.at(M, 'cells'), 'refine', refinement_flag='fine')
                D = [W.m(b, 'dofhandler') for b in B]
                D = [distribute(W, M, e, dim)[1] for e in etypes]
                for q in D:
                    W.m(q, 'distribute_dofs', subforest_flag='coarse')
                B = [basis(W, q, subforest_flag='coarse') for q in D]
            c = cells[1]
            on = marked(W, c, dmu, mask)
            k = fun(W, 'k', dim, n_variables=2)
            F = W.new('assembler', 'IIForm', W.new('assembler', 'Kernel', k),
                      test=B[0], trial=B[1], dmu=dmu, flag='lab')
            xg, wg, phi, dofs = quad(W, on, B, 2, dim, '')
            r = asarr(W.m(F, 'eval', c, xg, wg, phi, dofs))
            td = aslist(W, W.m(B[0], 'dofs'))
            V = asarr(W.m(W.m(B[0], 'dofhandler'), 'get_dof_vertices', td))
            nt = W.m(W.at(W.m(B[1], 'dofhandler'), 'element'), 'n_dofs')
            exp = np.empty((len(td), nt), dtype=object)
            for i in range(len(td)):
                for j in range(nt):
                    s = Sym.of(0)
                    for p in on:
                        for g in range(2):
                            s = s + val('k', 0, [V[i], xg[p][g]]) * \
                                wg[p][g] * phi[p][B[1]][g, j]
                    exp[i, j] = s
            want(r, exp, 'interpolated integral form')
        return f
    for dim, ets in ((1, ('Q1', 'Q1')), (1, ('Q2', 'Q1')), (2, ('Q1', 'DQ0'))):
        for dmu, masks in (('dx', ['0', '1']), ('ds', ['0110', '1000'])):
            if dim == 1 and dmu == 'ds':
                continue
            for m in masks:
                ctx.ob('interpolated form %dd %s-%s %s %s' % (
                    dim, ets[0], ets[1], dmu, m), interp(dim, ets, dmu, m),
                    w2)
    ctx.ob('interpolated form on a submesh', interp(1, ('Q1', 'Q1'), 'dx',
                                                    '1', True), w2)

    def proj(dim, etypes, dmu, mi, mj, same):
        def f():
            W = world(ctx)
            M, cells, B = setup(W, dim, etypes, dmu, 2)
            ci, cj = (cells[0], cells[1]) if not same else (cells[0],) * 2
            oi = marked(W, ci, dmu, mi)
            oj = marked(W, cj, dmu, mj) if not same else oi
            k = fun(W, 'k', dim, n_variables=2)
            F = W.new('assembler', 'IPForm', W.new('assembler', 'Kernel', k),
                      test=B[0], trial=B[1], dmu=dmu, flag='lab')
            Q = [quad(W, oi, B, 2, dim, 'i')]
            Q.append(quad(W, oj, B, 2, dim, 'j') if not same else Q[0])
            r = asarr(W.m(F, 'eval', (ci, cj), *[
                tuple(q[n] for q in Q) for n in range(4)]))
            n = [W.m(W.at(W.m(b, 'dofhandler'), 'element'), 'n_dofs')
                 for b in B]
            exp = np.empty(n, dtype=object)
            (xi, wi, pi, di), (xj, wj, pj, dj) = Q
            for a in range(n[0]):
                for b in range(n[1]):
                    s = Sym.of(0)
                    for p in oi:
                        for q in oj:
                            for g in range(2):
                                for h in range(2):
                                    s = s + wi[p][g] * wj[q][h] * \
                                        pi[p][B[0]][g, a] * \
                                        pj[q][B[1]][h, b] * \
                                        val('k', 0, [xi[p][g], xj[q][h]])
                    exp[a, b] = s
            want(r, exp, 'projected integral form')
        return f
    for dim, ets in ((1, ('Q1', 'Q1')), (1, ('Q2', 'Q1')), (2, ('Q1', 'DQ0'))):
        for dmu, masks in (('dx', [('0', '1'), ('1', '1')]),
                           ('ds', [('0110', '1000')])):
            if dim == 1 and dmu == 'ds':
                continue
            for mi, mj in masks:
                for same in (False, True):
                    ctx.ob('projected form %dd %s-%s %s %s %s %s' % (
                        dim, ets[0], ets[1], dmu, mi, mj, 'same cell' if same
                        else 'two cells'), proj(dim, ets, dmu, mi, mj, same),
                        w3)


# -------------------------------------------------------------- quadrature data
REF1 = {1: [0.0, 1.0]}


def lagrange(et, dim):
    """reference nodes of one direction"""
    p = int(et[-1])
    return [i / p for i in range(p + 1)] if p else [0.5]


def rules(W, A, dim):
    if dim == 1:
        r = W.at(A, 'cell_rule')
        return None, r
    return W.at(A, 'edge_rule'), W.at(A, 'cell_rule')


def shapes(ctx):
    w = ctx.where('assembler', 'Assembler.shape_eval')

    def one(dim, geo, dmu, ders, et):
        def f():
            W = world(ctx)
            if dim == 1:
                M = linemesh(W, 1)
            elif geo == 'rect':
                M = boxmesh(W, (1, 1))
            else:
                M, X, conn = glued(W, 1, 3)
            c = cell_of(W, M)
            E, D = distribute(W, M, et, dim)
            B = [basis(W, D, derivative=d) for d in ders]
            F = [W.new('assembler', 'Form', test=b, dmu=dmu) for b in B]
            if not B:
                F = [W.new('assembler', 'Form', dmu=dmu)]
            A = W.new('assembler', 'Assembler', F, M, n_gauss=(2, 4))
            xg, wg, phi, dofs = W.m(A, 'shape_eval', c)
            if dmu == 'dx':
                ps = [c]
            elif dmu == 'ds':
                ps = aslist(W, W.m(c, 'get_half_edges'))
            else:
                ps = aslist(W, W.m(c, 'get_vertices'))
            erule = W.at(A, 'cell_rule' if dim == 1 else 'edge_rule')
            crule = W.at(A, 'cell_rule')
            for n, p in enumerate(ps):
                if dmu == 'dv':
                    if dim == 1:
                        xr = [[float(n)]]
                    else:
                        xr = [[[0., 0.], [1., 0.], [1., 1.], [0., 1.]][n]]
                    ww = None
                elif dmu == 'ds':
                    t = [q if not isinstance(q, (list, np.ndarray)) else q[0]
                         for q in np.asarray(W.m(erule, 'nodes'))]
                    cs = [[0., 0.], [1., 0.], [1., 1.], [0., 1.]]
                    b, h = cs[n], cs[(n + 1) % 4]
                    xr = [[b[z] + q * (h[z] - b[z]) for z in range(2)]
                          for q in t]
                    ww = list(W.m(erule, 'weights'))
                else:
                    xr = [list(np.atleast_1d(q))
                          for q in np.asarray(W.m(crule, 'nodes'))]
                    ww = list(W.m(crule, 'weights'))
                XR = W.arr(xr)
                if dim == 1:
                    x0, x1 = (Sym.of(coords(W, v)[0]) for v in
                              aslist(W, W.m(c, 'get_vertices')))
                    ex = np.array([[x0 + (x1 - x0) * q[0]] for q in xr])
                    J = [x1 - x0] * len(xr)
                else:
                    P = corners(W, c)
                    ex, J = [], []
                    for s, t in xr:
                        N = [(1 - s) * (1 - t), s * (1 - t), s * t,
                             (1 - s) * t]
                        Ns = [-(1 - t), 1 - t, t, -t]
                        Nt = [-(1 - s), -s, s, 1 - s]
                        ex.append([sum((Sym.of(P[v][z]) * N[v]
                                        for v in range(4)), Sym.of(0))
                                   for z in range(2)])
                        d = [[sum((Sym.of(P[v][z]) * q[v] for v in range(4)),
                                  Sym.of(0)) for q in (Ns, Nt)]
                             for z in range(2)]
                        J.append(d[0][0] * d[1][1] - d[0][1] * d[1][0])
                    ex = np.array(ex)
                want(asarr(pick(xg, p, 'points of part %d' % n)), ex, 'quadrature points of part %d' % n)
                if dmu == 'dv':
                    wv = pick(wg, p, 'weight of part %d' % n)
                    want(wv if not isinstance(wv, np.ndarray)
                         else wv.ravel()[0], 1, 'weight of a vertex')
                elif dmu == 'dx':
                    want(asarr(pick(wg, p, 'weights of part %d' % n)), np.array(
                        [Sym.of(a) * j for a, j in zip(ww, J)]),
                        'quadrature weights')
                else:
                    b, h = [coords(W, v) for v in
                            aslist(W, W.m(p, 'get_vertices'))]
                    L2 = sum(((Sym.of(u) - Sym.of(v)) ** 2
                              for u, v in zip(h, b)), Sym.of(0))
                    got = [Sym.of(q) for q in aslist(W, pick(
                        wg, p, 'weights of part %d' % n))]
                    if len(got) != len(ww):
                        raise Violation('number of edge weights')
                    for g, a in zip(got, ww):
                        want(g * g, L2 * a * a, 'edge weight')
                        want(g.sign() != -1 if g.sign() is not None else True,
                             True, 'sign of an edge weight')
                for b_, d in zip(B, ders):
                    _, mg = W.m(c, 'reference_map', XR, jac_p2r=True,
                                hess_p2r=True)
                    Dd = W.m(b_, 'derivative')
                    e = W.m(E, 'shape', XR, derivatives=Dd, cell=c,
                            jac_p2r=mg['jac_p2r'] if Dd[0] else None,
                            hess_p2r=mg['hess_p2r'] if Dd[0] == 2 else None)
                    want(asarr(pick(pick(phi, p, 'shape functions of part %d' %
                                         n), b_, 'shape functions (%s)' % d)),
                         asarr(e),
                         'shape functions (%s) of part %d' % (d, n))
                    want(aslist(W, pick(pick(dofs, p, 'dofs'), b_, 'dofs')),
                         aslist(W, W.m(b_, 'dofs', c)), 'dofs of part %d' % n)
        return f
    sets = {1: [('v',), ('v', 'vx'), ('vx', 'vxx'), ('vxx',), ()],
            2: [('v',), ('vx', 'v'), ('vy', 'vxy'), ('vyy', 'v', 'vx'), ()]}
    for dim, geo, dmus in ((1, 'line', ('dx', 'dv')),
                           (2, 'rect', ('dx', 'ds', 'dv')),
                           (2, 'generic', ('dx', 'ds', 'dv'))):
        for dmu in dmus:
            for ders in sets[dim]:
                if geo == 'generic' and any(len(d) > 2 for d in ders):
                    continue
                for et in (['Q1', 'Q2'] if geo != 'generic' else ['Q1']):
                    ctx.ob('quadrature %dd %s %s %s %s' % (
                        dim, geo, dmu, '+'.join(ders) or 'none', et),
                        one(dim, geo, dmu, ders, et), w)


# ------------------------------------------- bases on a coarser mesh than cells
def coarse(ctx):
    w = ctx.where('assembler', 'Assembler.shape_eval')

    def one(dim, dmu, child, der, et, depth):
        def f():
            W = world(ctx)
            M = mesh_of(W, dim)
            root = cell_of(W, M)
            C = W.at(M, 'cells')
            W.m(C, 'record', 'coarse')
            for q in range(depth):
                W.m(C, 'refine')
            E, D = distribute(W, M, et, dim)
            W.m(D, 'distribute_dofs', subforest_flag='coarse')
            Bc = basis(W, D, derivative=der, subforest_flag='coarse')
            Bf = basis(W, D, derivative=der)
            A = W.new('assembler', 'Assembler',
                      [W.new('assembler', 'Form', test=Bc, trial=Bf,
                             dmu=dmu)], M, n_gauss=(2, 4))
            cell = root
            for q in range(depth):
                cell = W.m(cell, 'get_child', child)
            xg, wg, phi, dofs = W.m(A, 'shape_eval', cell)
            for p in list(xg):
                x = asarr(xg[p])
                for B, c in ((Bc, root), (Bf, cell)):
                    xr, mg = W.m(c, 'reference_map', x, mapsto='reference',
                                 jac_p2r=True, hess_p2r=True)
                    Dd = W.m(B, 'derivative')
                    e = W.m(E, 'shape', asarr(xr), derivatives=Dd, cell=c,
                            jac_p2r=mg['jac_p2r'] if Dd[0] else None,
                            hess_p2r=mg['hess_p2r'] if Dd[0] == 2 else None)
                    want(asarr(pick(pick(phi, p, 'shape functions'), B,
                                    'shape functions')), asarr(e), '%s shape functions' % (
                        'coarse' if B is Bc else 'fine'))
                    want(aslist(W, pick(pick(dofs, p, 'dofs'), B, 'dofs')),
                         aslist(W, W.m(D, 'get_cell_dofs', c)), 'dofs')
        return f
    for dim, dmus, n in ((1, ('dx', 'dv'), 2), (2, ('dx', 'ds', 'dv'), 4)):
        for dmu in dmus:
            for child in range(n):
                for der in ('v', 'vx') + (('vxx',) if dim == 1 else ('vy',)):
                    ctx.ob('coarse basis %dd %s child %d %s' % (
                        dim, dmu, child, der),
                        one(dim, dmu, child, der, 'Q2' if dim == 1 else 'Q1',
                            1), w)
    ctx.ob('coarse basis two levels up', one(1, 'dx', 1, 'vx', 'Q2', 2), w)
