"""C12 global systems are the sum of local forms under the constraints."""
import itertools
import numpy as np
from ..frame import want, Violation, Undecided
from ..build import (World, Sym, boxmesh, linemesh, aslist, children, coords,
                     lam, symarr)
from ..absint import Native, Obj, Top
from ..ext import dense, SpMat
from .fe_common import distribute, all_cells, leaves, canon
from .c11 import fun, val, basis, asarr, pick, world


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('abstract interpretation of assembly, elimination and '
                     'solution recovery with unknown local entries; '
                     'comparison with the algebraic definition')
    ctx.explanation = (
        'Local entries, coefficients of hanging nodes, Dirichlet values and '
        'kernels are independent unknowns; the assembled arrays, degree of '
        'freedom lists, Dirichlet corrections and recovered solutions must '
        'be the sum of the local forms restricted to the free degrees of '
        'freedom, for every kind of problem list, sample count, submesh and '
        'constraint pattern enumerated.')
    ctx.assumptions = ['hanging nodes of 2:1 balanced meshes',
                       'the sparse solver solves the system it is given']
    aggregate(ctx)
    endtoend(ctx)
    dirichlet(ctx)
    recover(ctx)


def keyof(d, k, what):
    if not isinstance(d, dict):
        raise Undecided('%s is %r' % (what, d))
    if k not in d:
        raise Violation('%s has no entry %s' % (what, k))
    return d[k]


def expand(r, hng):
    """a (possibly hanging) dof as combination of dofs that do not hang"""
    if r not in hng:
        return [(r, Sym.of(1))]
    out = []
    for s, c in zip(*hng[r]):
        out += [(q, Sym.of(c) * w) for q, w in expand(s, hng)]
    return out


def oracle(dim, entries, dir_bc, hng, ns):
    """entries: [(dofs..., [value per sample])]"""
    acc, bnd, seen = {}, {}, [set() for q in range(dim)]
    for e in entries:
        dofs, v = e[:-1], e[-1]
        for combo in itertools.product(*[expand(d, hng) for d in dofs]):
            w = Sym.of(1)
            for q, c in combo:
                w = w * c
            idx = tuple(q for q, c in combo)
            if dim and idx[0] in dir_bc:
                continue
            if dim == 2 and idx[1] in dir_bc:
                t = bnd.setdefault(idx[0], [Sym.of(0)] * ns)
                g = dir_bc[idx[1]]
                for j in range(ns):
                    t[j] = t[j] + v[j] * w * g[j if len(g) > 1 else 0]
                continue
            t = acc.setdefault(idx, [Sym.of(0)] * ns)
            for j in range(ns):
                t[j] = t[j] + v[j] * w
            for q in range(dim):
                seen[q].add(idx[q])
    return acc, bnd, [sorted(s) for s in seen]


def compare(W, form, dim, acc, bnd, dofs, ns):
    data = W.m(form, 'aggregate_data')
    array = keyof(data, 'array', 'aggregate data')
    if dim:
        ud = keyof(data, 'udofs', 'aggregate data')
        got = [[int(q) for q in aslist(W, u)] for u in aslist(W, ud)]
        if got != dofs:
            raise Violation('free degrees of freedom %s, required %s' % (
                got, dofs))
    if dim == 0:
        want(asarr(array), np.array(acc.get((), [Sym.of(0)] * ns)),
             'assembled scalar')
        return
    arrs = aslist(W, array)
    want(len(arrs), ns, 'number of samples assembled')
    for j in range(ns):
        shape = tuple(len(d) for d in dofs)
        exp = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            k = tuple(dofs[q][i] for q, i in enumerate(ix))
            exp[ix] = acc.get(k, [Sym.of(0)] * ns)[j]
        want(asarr(dense(arrs[j])), exp, 'assembled %s, sample %d' % (
            'matrix' if dim == 2 else 'vector', j))
    if dim == 2:
        b = aslist(W, keyof(W.m(form, 'dirichlet_correction'), 'array',
                            'Dirichlet correction'))
        want(len(b), ns, 'samples of the Dirichlet correction')
        for j in range(ns):
            want(asarr(b[j]), np.array([bnd.get(d, [Sym.of(0)] * ns)[j]
                                        for d in dofs[0]]),
                 'Dirichlet correction, sample %d' % j)


# ------------------------------------------------- elimination and summation
def aggregate(ctx):
    w = ctx.where('assembler', 'AssembledForm.distribute')

    def form_of(W, dim, B, ns):
        K = W.new('assembler', 'Kernel', fun(W, 'f', 1, samples=ns))
        kw = {}
        if dim:
            kw['test'] = B
        if dim == 2:
            kw['trial'] = B
        return W.new('assembler', 'Form', K, **kw)

    def one(dim, ns, width, dirs, hang, keep, twice=False):
        def f():
            W = world(ctx)
            M = linemesh(W, 3)
            cells = children(W, W.at(M, 'cells'))
            B = basis(W, distribute(W, M, 'Q1', 1)[1])
            A = W.new('assembler', 'AssembledForm', dim)
            W.m(A, 'add_form', form_of(W, dim, B, ns))
            want(W.m(A, 'n_samples'), ns, 'sample count')
            # scattered numbering: neighbouring cells share dofs
            loc = [[7, 2], [2, 11], [11, 4, ][:2]]
            dir_bc = {d: symarr('g%d' % d, 1) for d in dirs}
            hng = {h: (list(s), [Sym.var('c%d_%d' % (h, q)) for q in s])
                   for h, s in hang.items()}
            hin = {h: (list(s), list(c)) for h, (s, c) in hng.items()}
            entries = []
            for rep in range(2 if twice else 1):
                for n, c in enumerate(cells):
                    k = [len(loc[n])] * dim
                    vals = symarr('v%d%d' % (rep, n),
                                  *(k + [width] if dim else [1, width]))
                    args = [list(loc[n]) for q in range(dim)]
                    if dim:
                        W.m(A, 'update_cellwise', c, vals, dofs=args)
                    else:
                        W.m(A, 'update_cellwise', c, vals)
                    for ix in itertools.product(*[range(q) for q in k]):
                        v = vals[ix] if dim else vals[0]
                        entries.append(tuple(loc[n][i] for i in ix) + (
                            [v[j if width > 1 else 0] for j in range(ns)],))
            for c in cells:
                before = W.m(A, 'cellwise_data').get(c)
                kept = None
                if keep:
                    kept = ([list(d) for d in before['dofs']],
                            list(before['vals']))
                W.m(A, 'distribute', c, dir_bc=dict(dir_bc), hng=hin,
                    clear_cellwise_data=not keep)
                after = W.m(A, 'cellwise_data')
                if not keep and c in after:
                    raise Violation('cellwise data not cleared')
                if keep:
                    if c not in after:
                        raise Violation('cellwise data lost')
                    want([list(d) for d in after[c]['dofs']], kept[0],
                         'kept cellwise dofs')
                    want(list(after[c]['vals']), kept[1],
                         'kept cellwise values')
            for h, (s, c) in hng.items():
                want(hin[h][0], s, 'supporting dofs passed by the caller')
                want(list(hin[h][1]), c, 'coefficients passed by the caller')
            W.m(A, 'consolidate')
            acc, bnd, dofs = oracle(dim, entries, dir_bc, hng, ns)
            compare(W, A, dim, acc, bnd, dofs, ns)
        return f
    pats = [((), {}), ((7,), {}), ((4, 7), {}), ((), {11: (2, 4)}),
            ((7,), {11: (2, 4)}), ((4,), {11: (2, 4)}),
            ((7, 4), {2: (7, 11)}), ((), {11: (7, 30)}),
            ((30,), {11: (7, 30)}), ((), {2: (11, 7), 11: (4, 7)})]
    for dim in (0, 1, 2):
        for ns, width in ((1, 1), (2, 2), (2, 1)):
            for dirs, hang in (pats if dim else pats[:1]):
                for keep in (False, True):
                    if ns == 2 and keep:
                        continue
                    ctx.ob('aggregate %d-form samples %d/%d dirichlet %s '
                           'hanging %s%s' % (
                               dim, width, ns, list(dirs), sorted(
                                   hang.items()), ' keep' if keep else ''),
                           one(dim, ns, width, dirs, hang, keep), w)
        ctx.ob('aggregate %d-form several forms per cell' % dim,
               one(dim, 1, 1, (7,) if dim else (),
                   {11: (2, 4)} if dim else {}, False, True), w)

    def bases():
        W = world(ctx)
        M = linemesh(W, 1)
        B = [basis(W, distribute(W, M, e, 1)[1]) for e in ('Q1', 'Q2')]
        A = W.new('assembler', 'AssembledForm', 2)
        W.m(A, 'add_form', W.new('assembler', 'Form', test=B[0], trial=B[1]))
        got = aslist(W, W.m(A, 'basis'))
        if len(got) != 2 or got[0] is not B[0] or got[1] is not B[1]:
            raise Violation('bases of a bilinear form')
        want(aslist(W, W.m(A, 'n_dofs')), [2, 3], 'numbers of dofs')
    ctx.ob('bases of an assembled form', bases,
           ctx.where('assembler', 'AssembledForm.add_form'))


# --------------------------------------------------------------- whole assembly
def localsum(W, A, forms, dim, cells, ns, dir_bc={}, hng={}):
    """sum of the local forms, scattered by the bases"""
    entries = []
    for c in cells:
        xg, wg, phi, dofs = W.m(A, 'shape_eval', c)
        for F in forms:
            name = F.cls.name
            if name == 'IPForm':
                for d in cells:
                    o = W.m(A, 'shape_eval', d)
                    r = asarr(W.m(F, 'eval', (c, d), (xg, o[0]), (wg, o[1]),
                                  (phi, o[2]), (dofs, o[3])))
                    dt = aslist(W, W.m(W.at(F, 'test'), 'dofs', c))
                    dr = aslist(W, W.m(W.at(F, 'trial'), 'dofs', d))
                    for i, p in enumerate(dt):
                        for j, q in enumerate(dr):
                            entries.append((int(p), int(q), [r[i, j]] * ns))
                continue
            r = asarr(W.m(F, 'eval', c, xg, wg, phi, dofs))
            if name == 'IIForm':
                dt = aslist(W, W.m(W.at(F, 'test'), 'dofs'))
                dr = aslist(W, W.m(W.at(F, 'trial'), 'dofs', c))
                for i, p in enumerate(dt):
                    for j, q in enumerate(dr):
                        entries.append((int(p), int(q), [r[i, j]] * ns))
                continue
            D = []
            if dim:
                D.append(aslist(W, W.m(W.at(F, 'test'), 'dofs', c)))
            if dim == 2:
                D.append(aslist(W, W.m(W.at(F, 'trial'), 'dofs', c)))
            m = r.shape[-1]
            if not dim:
                r = r.reshape(-1)
            for ix in itertools.product(*[range(len(d)) for d in D]):
                v = r[ix] if dim else r
                entries.append(tuple(int(D[q][i]) for q, i in enumerate(ix))
                               + ([Sym.of(v[j if m > 1 else 0])
                                   for j in range(ns)],))
    return oracle(dim, entries, dir_bc, hng, ns)


def endtoend(ctx):
    w = ctx.where('assembler', 'Assembler.assemble')

    def problem(W, M, dim, kind):
        """[list of forms per problem], bases"""
        E, D = distribute(W, M, 'Q1', dim)
        u = basis(W, D)
        ux = basis(W, D, derivative='vx')
        E2, D2 = distribute(W, M, 'DQ0', dim)
        p = basis(W, D2)

        def K(n, ns=1, nv=1, sym=False):
            return W.new('assembler', 'Kernel', fun(
                W, n, dim, samples=ns, n_variables=nv, symmetric=sym))

        def F(n, ns=1, cls='Form', nv=1, sym=False, **kw):
            return W.new('assembler', cls, K(n, ns, nv, sym), **kw)
        two = [F('a', test=ux, trial=ux), F('m', test=u, trial=u),
               F('l', test=u)]
        if kind == 'single':
            return F('m', test=u, trial=u)
        if kind == 'forms':
            return two
        if kind == 'all types':
            return [F('c'), F('l', test=u), F('m', test=u, trial=u),
                    F('d'), F('n', test=ux)]
        if kind == 'problems':
            return [[F('m', test=u, trial=u)], [F('l', test=u), F('c')],
                    [F('b', test=p, trial=u)]]
        if kind == 'mixed list':
            return [F('m', test=u, trial=u), [F('l', test=u), F('c')]]
        if kind == 'samples':
            return [F('m', 2, test=u, trial=u), F('a', test=ux, trial=ux),
                    F('l', 2, test=u), F('n', test=u), F('c', 2), F('d')]
        if kind == 'mixed spaces':
            return [F('b', test=p, trial=u), F('q', test=p, trial=ux)]
        if kind == 'labels':
            return [F('m', test=u, trial=u), F('l', test=u, flag='lab'),
                    F('c', flag='lab'),
                    F('e', test=u, dmu='ds' if dim == 2 else 'dv',
                      flag='lab')]
        if kind == 'interpolated':
            return [F('k', cls='IIForm', nv=2, test=u, trial=u)]
        if kind == 'projected':
            return [F('k', cls='IPForm', nv=2, test=u, trial=u)]
        if kind == 'projected mixed':
            return [F('k', cls='IPForm', nv=2, test=p, trial=u),
                    F('b', test=p, trial=u)]
        raise KeyError(kind)

    def one(dim, kind, option):
        def f():
            W = world(ctx)
            M = linemesh(W, 2) if dim == 1 else boxmesh(W, (2, 1))
            roots = children(W, W.at(M, 'cells'))
            sub = {}
            if option == 'refined':
                W.m(roots[0], 'mark', 'r')
                W.m(W.at(M, 'cells'), 'refine', refinement_flag='r')
            if kind == 'labels':
                W.m(roots[1], 'mark', 'lab')
                es = aslist(W, W.m(roots[1], 'get_half_edges')) if dim == 2 \
                    else aslist(W, W.m(roots[1], 'get_vertices'))
                W.m(es[1], 'mark', 'lab')
            P = problem(W, M, dim, kind)
            Pin = P
            copy = list(P) if isinstance(P, list) else P
            probs = [[P]] if not isinstance(P, list) else (
                [P] if all(isinstance(q, Obj) for q in P) else
                [q if isinstance(q, list) else [q] for q in P])
            A = W.new('assembler', 'Assembler', Pin, M, n_gauss=(1, 1))
            if isinstance(P, list):
                if len(P) != len(copy) or any(
                        a is not b for a, b in zip(P, copy)):
                    raise Violation('the list of problems passed by the '
                                    'caller was modified')
            want(W.m(A, 'n_problems'), len(probs), 'number of problems')
            kw = {}
            cells = [c for r in roots for c in leafs(W, r)]
            if option == 'region':
                W.m(roots[1], 'mark', 'reg')
                kw['region_flag'] = 'reg'
                cells = [roots[1]]
            if option == 'keep':
                kw['keep_cellwise_data'] = True
            W.m(A, 'assemble', **kw)
            if option == 'twice':
                W.m(A, 'assemble', **kw)
            for n, forms in enumerate(probs):
                af = aslist(W, W.m(A, 'assembled_forms', i_problem=n))
                for d in range(3):
                    fs = [q for q in forms if W.m(q, 'dim') == d]
                    if not fs:
                        if af[d] is not None:
                            raise Violation('problem %d has a %d-form' % (
                                n, d))
                        continue
                    if af[d] is None:
                        raise Violation('problem %d lost its %d-form' % (
                            n, d))
                    ns = max(W.m(W.at(q, 'kernel'), 'n_samples') for q in fs)
                    acc, bnd, dofs = localsum(W, A, fs, d, cells, ns)
                    compare(W, af[d], d, acc, bnd, dofs, ns)
                    for j in range(ns):
                        if d == 2:
                            g = W.m(A, 'get_matrix', i_problem=n, i_sample=j)
                        elif d == 1:
                            g = W.m(A, 'get_vector', i_problem=n, i_sample=j)
                        else:
                            g = W.m(A, 'get_scalar', i_problem=n, i_sample=j)
                        arr = W.m(af[d], 'aggregate_data')['array']
                        gs = [g]
                        name = ('get_scalar', 'get_vector', 'get_matrix')[d]
                        if n == 0:
                            gs.append(W.m(A, name, i_sample=j))
                        if j == 0:
                            gs.append(W.m(A, name, i_problem=n))
                        if n == j == 0:
                            gs.append(W.m(A, name))
                        e = arr[j]
                        for g in gs:
                            if g is not e:
                                want(asarr(dense(g)) if d else g,
                                     asarr(dense(e)) if d else e,
                                     'array of problem %d sample %d' % (n, j))
                    if d == 1 and ns > 1:
                        g = W.m(A, 'get_vector', i_problem=n,
                                i_sample=[1, 0])
                        arr = W.m(af[d], 'aggregate_data')['array']
                        want(asarr(g), np.array([arr[1], arr[0]]),
                             'selected sample vectors')
                    if d == 2:
                        got = [int(q) for q in aslist(W, W.m(
                            A, 'get_dofs', 'interior', i_problem=n))]
                        want(got, dofs[0], 'interior dofs')
                    if option == 'keep':
                        cd = W.m(af[d], 'cellwise_data')
                        for c in cells:
                            pick(cd, c, 'cellwise data')
                        if not all(len(cd[c]['vals']) for c in cells):
                            raise Violation('kept cellwise data is empty')
                    elif option == 'plain':
                        if len(W.m(af[d], 'cellwise_data')):
                            raise Violation('cellwise data not released')
        return f
    kinds = ['single', 'forms', 'all types', 'problems', 'mixed list',
             'samples', 'mixed spaces', 'labels', 'interpolated',
             'projected', 'projected mixed']
    for dim in (1, 2):
        for k in kinds:
            for opt in ('plain', 'refined', 'twice', 'keep', 'region'):
                if dim == 2 and opt in ('twice', 'keep'):
                    continue
                if k in ('interpolated', 'projected', 'projected mixed') and \
                        (opt == 'region' or dim == 2 and opt == 'refined'):
                    continue
                if opt in ('twice', 'keep', 'region') and k in (
                        'single', 'problems', 'mixed list', 'mixed spaces'):
                    continue
                ctx.ob('assemble %dd %s %s' % (dim, k, opt),
                       one(dim, k, opt), w)

    def symmetric(mixed):
        def f():
            W = world(ctx)
            M = linemesh(W, 3)
            D = distribute(W, M, 'Q1', 1)[1]
            u = basis(W, D)
            v = basis(W, D, derivative='vx') if mixed else u

            def native(it, a, k):
                out = np.empty(len(a[0]), dtype=object)
                for i in range(len(a[0])):
                    p = sorted([(str(Sym.of(q[i][0])), Sym.of(q[i][0]))
                                for q in a])
                    out[i] = val('s', 0, [[p[0][1]], [p[1][1]]])
                return out
            k = W.new('function', 'Explicit', Native('k', native), dim=1,
                      n_variables=2, symmetric=True)
            F = W.new('assembler', 'IPForm', W.new('assembler', 'Kernel', k),
                      test=u, trial=v)
            A = W.new('assembler', 'Assembler', F, M, n_gauss=(1, 1))
            W.m(A, 'assemble')
            cells = children(W, W.at(M, 'cells'))
            acc, bnd, dofs = localsum(W, A, [F], 2, cells, 1)
            compare(W, aslist(W, W.m(A, 'assembled_forms'))[2], 2, acc, bnd,
                    dofs, 1)
        return f
    ctx.ob('assemble symmetric projected form', symmetric(False), w)
    ctx.ob('assemble symmetric kernel, different test and trial',
           symmetric(True), w)

    def submesh(dim, which):
        def f():
            W = world(ctx)
            M = linemesh(W, 2) if dim == 1 else boxmesh(W, (2, 1))
            C = W.at(M, 'cells')
            roots = children(W, C)
            W.m(C, 'record', 'coarse')
            W.m(roots[1], 'mark', 'r')
            W.m(C, 'refine', refinement_flag='r')
            W.m(C, 'record', 'fine')
            E, D = distribute(W, M, 'Q1', dim)
            for s in ('coarse', 'fine'):
                W.m(D, 'distribute_dofs', subforest_flag=s)
            b = {s: basis(W, D, subforest_flag=s)
                 for s in ('coarse', 'fine')}
            t, r = [b[s] for s in which[1:]]
            F = [W.new('assembler', 'Form', W.new(
                'assembler', 'Kernel', fun(W, 'm', dim)), test=t, trial=r),
                W.new('assembler', 'Form', W.new(
                    'assembler', 'Kernel', fun(W, 'l', dim)), test=t)]
            A = W.new('assembler', 'Assembler', F, M,
                      subforest_flag=which[0], n_gauss=(1, 1))
            W.m(A, 'assemble')
            cells = roots if which[0] == 'coarse' else \
                [c for q in roots for c in leafs(W, q)]
            af = aslist(W, W.m(A, 'assembled_forms'))
            for d, fs in ((2, F[:1]), (1, F[1:])):
                acc, bnd, dofs = localsum(W, A, fs, d, cells, 1)
                compare(W, af[d], d, acc, bnd, dofs, 1)
        return f
    for dim in (1, 2):
        for wh in (('coarse', 'coarse', 'coarse'), ('fine', 'fine', 'fine'),
                   ('fine', 'coarse', 'coarse'), ('fine', 'fine', 'coarse'),
                   ('fine', 'coarse', 'fine')):
            ctx.ob('assemble %dd on %s, test %s, trial %s' % ((dim,) + wh),
                   submesh(dim, wh), w)


def leafs(W, c):
    if W.m(c, 'has_children') is True:
        return [x for d in children(W, c) for x in leafs(W, d)]
    return [c]


# ------------------------------------------------------------ Dirichlet values
def dirichlet(ctx):
    w = ctx.where('assembler', 'Assembler.add_dirichlet')

    def setup(W, dim, et, sub=None, refined=False, res=2):
        M = linemesh(W, res) if dim == 1 else boxmesh(W, (2, 1))
        C = W.at(M, 'cells')
        roots = children(W, C)
        if sub:
            W.m(C, 'record', sub)
        if sub or refined:
            W.m(roots[0], 'mark', 'r')
            W.m(C, 'refine', refinement_flag='r')
        E, D = distribute(W, M, et, dim)
        if sub:
            W.m(D, 'distribute_dofs', subforest_flag=sub)
        W.m(D, 'set_dof_vertices')
        kw = {'subforest_flag': sub} if sub else {}
        u = basis(W, D, **kw)
        F = [W.new('assembler', 'Form', W.new(
            'assembler', 'Kernel', fun(W, 'm', dim)), test=u, trial=u),
            W.new('assembler', 'Form', W.new(
                'assembler', 'Kernel', fun(W, 'l', dim)), test=u)]
        A = W.new('assembler', 'Assembler', F, M, n_gauss=(1, 1), **kw)
        return M, roots, D, u, A, E

    def boundary_dofs(W, M, D, u, dim, sub, marker):
        """dofs of marked boundary sides, found through the leaves"""
        cells = []

        def rec(c):
            if sub:
                if W.m(c, 'get_depth') == 0:
                    cells.append(c)
                return
            cells.extend(leafs(W, c))
        for r in children(W, W.at(M, 'cells')):
            rec(r)
        out = set()
        for c in cells:
            if dim == 1:
                for n, v in enumerate(aslist(W, W.m(c, 'get_vertices'))):
                    x = canon(coords(W, v)[0])
                    a, h = Sym.var('a'), Sym.var('h', True)
                    on = x.equals(a) or x.equals(a + h)
                    if on and (marker is None or
                               W.m(v, 'is_marked', marker) is True):
                        dd = aslist(W, W.m(D, 'get_cell_dofs', c))
                        out.add(int(dd[n]))
                continue
            for he in aslist(W, W.m(c, 'get_half_edges')):
                if W.m(he, 'twin') is None and not inner(W, he) and (
                        marker is None or
                        W.m(he, 'is_marked', marker) is True):
                    for q in aslist(W, W.m(D, 'get_cell_dofs', c, he)):
                        out.add(int(q))
        return sorted(out)

    def inner(W, he):
        # twinless half-edges inside the box are halves of hanging sides
        a, h = Sym.var('a'), Sym.var('h', True)
        b, k = Sym.var('b'), Sym.var('k', True)
        p = [coords(W, W.m(he, q)) for q in ('base', 'head')]
        for z, lo, hi in ((0, a, a + h), (1, b, b + k)):
            for e in (lo, hi):
                if all(canon(q[z]).equals(e) for q in p):
                    return False
        return True

    def one(dim, et, how, marker, sub, refined):
        def f():
            W = world(ctx)
            M, roots, D, u, A, E = setup(W, dim, et, sub, refined)
            if marker:
                if dim == 1:
                    v = aslist(W, W.m(roots[1], 'get_vertices'))[1]
                    W.m(v, 'mark', marker)
                else:
                    for r in roots:
                        for c in leafs(W, r) + [r]:
                            he = aslist(W, W.m(c, 'get_half_edges'))[1]
                            W.m(he, 'mark', marker)
            exp = boundary_dofs(W, M, D, u, dim, sub, marker)
            if not exp:
                raise Undecided('no boundary dofs')
            X = asarr(W.m(D, 'get_dof_vertices', exp))
            if how == 'default':
                W.m(A, 'add_dirichlet', marker)
                g = [[Sym.of(0)] for d in exp]
            elif how == 'number':
                W.m(A, 'add_dirichlet', marker, 3.5)
                g = [[Sym.of(3.5)] for d in exp]
            elif how == 'function':
                W.m(A, 'add_dirichlet', marker, fun(W, 'g', dim))
                g = [[val('g', 0, [x])] for x in X]
            elif how == 'samples':
                W.m(A, 'add_dirichlet', marker, fun(W, 'g', dim, samples=2))
                g = [[val('g', j, [x]) for j in range(2)] for x in X]
            elif how == 'nodal':
                n = W.m(u, 'n_dofs')
                data = symarr('d', n, 1)
                fn = W.new('function', 'Nodal', data=data, basis=u)
                W.m(A, 'add_dirichlet', marker, fn)
                ud = [int(q) for q in aslist(W, W.m(u, 'dofs'))]
                g = [[data[sorted(ud).index(d), 0]] for d in exp]
            got = W.m(A, 'get_dirichlet')
            if not isinstance(got, dict):
                raise Undecided('Dirichlet data %r' % (got,))
            if sorted(int(q) for q in got) != exp:
                raise Violation('Dirichlet dofs %s, required %s' % (
                    sorted(int(q) for q in got), exp))
            for d, e in zip(exp, g):
                want(asarr(got[d]).ravel(), np.array(e),
                     'Dirichlet value of dof %d' % d)
            gd = sorted(int(q) for q in aslist(W, W.m(
                A, 'get_dofs', 'dirichlet')))
            want(gd, exp, 'get_dofs(dirichlet)')
            dd, dv = W.m(A, 'get_dirichlet', asdict=False)
            for d, v in zip(aslist(W, dd), asarr(dv)):
                want(v, np.array(g[exp.index(int(d))]),
                     'listed Dirichlet value')
        return f
    for dim in (1, 2):
        for et in (('Q1', 'Q2') if dim == 2 else ('Q1', 'Q2')):
            for how in ('default', 'number', 'function', 'samples', 'nodal'):
                for marker in (None, 'lab'):
                    for sub, ref in ((None, False), (None, True),
                                     ('coarse', False)):
                        if et == 'Q2' and how in ('default', 'samples'):
                            continue
                        ctx.ob('dirichlet %dd %s %s %s%s%s' % (
                            dim, et, how, 'labelled' if marker else 'whole',
                            ' submesh' if sub else '',
                            ' refined' if ref else ''),
                            one(dim, et, how, marker, sub, ref), w)

    def routed():
        W = world(ctx)
        M = linemesh(W, 2)
        D = distribute(W, M, 'Q1', 1)[1]
        u = basis(W, D)
        mk = [[W.new('assembler', 'Form', test=u, trial=u)] for q in range(2)]
        A = W.new('assembler', 'Assembler', mk, M, n_gauss=(1, 1))
        W.m(A, 'add_dirichlet', None, 2, i_problem=1)
        if W.m(A, 'get_dirichlet', i_problem=0):
            raise Violation('condition added to the wrong problem')
        want(len(W.m(A, 'get_dirichlet', i_problem=1)), 2, 'conditions')
    ctx.ob('dirichlet of the second problem', routed, w)


# ------------------------------------------------------- solve and recovery
def recover(ctx):
    w = ctx.where('assembler', 'Assembler.solve')

    def one(dim, et, bc, refined, sub, samples=(0, 0), which=None):
        def f():
            W = world(ctx)
            M = linemesh(W, 3) if dim == 1 else boxmesh(W, (2, 1))
            C = W.at(M, 'cells')
            roots = children(W, C)
            kw = {}
            if sub:
                if sub == 'coarse':
                    W.m(C, 'record', 'coarse')
                W.m(roots[0], 'mark', 'r')
                W.m(C, 'refine', refinement_flag='r')
                if sub == 'middle':
                    W.m(C, 'record', 'middle')
                    W.m(roots[1], 'mark', 's')
                    W.m(C, 'refine', refinement_flag='s')
                kw['subforest_flag'] = sub
            elif refined:
                W.m(roots[0], 'mark', 'r')
                W.m(C, 'refine', refinement_flag='r')
            E, D = distribute(W, M, et, dim)
            if sub:
                W.m(D, 'distribute_dofs', **kw)
            W.m(D, 'set_dof_vertices')
            u = basis(W, D, **kw)
            ns = max(samples) + 1
            F = [W.new('assembler', 'Form', W.new(
                'assembler', 'Kernel', fun(W, 'm', dim, samples=ns)), test=u,
                trial=u),
                W.new('assembler', 'Form', W.new(
                    'assembler', 'Kernel', fun(W, 'l', dim, samples=ns)),
                    test=u)]
            ip = {}
            if which is None:
                A = W.new('assembler', 'Assembler', F, M, n_gauss=(1, 1),
                          **kw)
            else:
                # one of two problems, the other has its own conditions
                G = [W.new('assembler', 'Form', W.new(
                    'assembler', 'Kernel', fun(W, 'm2', dim)), test=u,
                    trial=u),
                    W.new('assembler', 'Form', W.new(
                        'assembler', 'Kernel', fun(W, 'l2', dim)), test=u)]
                A = W.new('assembler', 'Assembler',
                          [F, G] if which == 0 else [G, F], M,
                          n_gauss=(1, 1), **kw)
                ip = {'i_problem': which} if which else {}
                v = aslist(W, W.m(roots[-1], 'get_vertices'))[1]
                W.m(v, 'mark', 'other')
                W.m(A, 'add_dirichlet', 'other', 7, on_bnd=False,
                    i_problem=1 - which)
            if bc == 'inner':
                from .c15 import mark, dirichlet_dofs
                mark(W, M, dim, 'inner', 'lab')
                W.m(A, 'add_dirichlet', 'lab', fun(W, 'g', dim), on_bnd=False,
                    **ip)
                exp = dict(dirichlet_dofs(W, D, u, 'inner', dim))
                got = W.m(A, 'get_dirichlet', **ip)
                want(sorted(int(q) for q in got), sorted(exp),
                     'dofs with values prescribed inside')
                for q in got:
                    want(asarr(got[q]).ravel(), [val('g', 0, [exp[int(q)]])],
                         'value prescribed for dof %s' % (q,))
            elif bc:
                W.m(A, 'add_dirichlet', None, fun(W, 'g', dim), **ip)
            hng = {}
            if refined or sub == 'middle':
                W.m(A, 'add_hanging_nodes', **ip)
                hng = W.m(A, 'get_hanging_nodes', **ip)
                if not hng and dim == 2 and et[0] == 'Q':
                    raise Violation('hanging nodes not found')
                want(sorted(aslist(W, W.m(A, 'get_dofs', 'hanging_nodes', **ip))),
                     sorted(hng), 'hanging dofs')
            W.m(A, 'assemble')
            db = W.m(A, 'get_dirichlet', **ip)
            cells = roots if sub == 'coarse' else \
                roots[1:] + leafs(W, roots[0]) if sub == 'middle' else \
                [c for r in roots for c in leafs(W, r)]
            acc, bnd, dofs = localsum(W, A, F[:1], 2, cells, ns, db, hng)
            lacc, _, ldofs = localsum(W, A, F[1:], 1, cells, ns, db, hng)
            compare(W, aslist(W, W.m(A, 'assembled_forms', **ip))[2], 2, acc, bnd,
                    dofs, ns)
            compare(W, aslist(W, W.m(A, 'assembled_forms', **ip))[1], 1, lacc, {},
                    ldofs, ns)
            im, iv = samples
            W.it.__dict__['solves'] = []
            r = W.m(A, 'solve', i_matrix=im, i_vector=iv, **ip)
            sv = W.it.solves
            if len(sv) != 1:
                raise Violation('%d linear solves' % len(sv))
            Am, bv, x = sv[0]
            bv, x = bv.ravel(), x.ravel()
            free = dofs[0]
            want(len(bv), len(free), 'size of the system')
            # the equations, identified through the unknown they determine
            ud = [int(q) for q in aslist(W, W.m(u, 'dofs'))]
            r = asarr(r).ravel()
            want(len(r), len(ud), 'length of the solution')
            U = {d: Sym.of(r[int(np.ravel(W.m(u, 'd2i', d))[0])])
                 for d in ud}
            pos = {}
            for d in free:
                hit = [q for q in range(len(x)) if U[d].equals(x[q])]
                if len(hit) != 1:
                    raise Violation('value %s returned for the free dof %d' %
                                    (U[d], d))
                pos[d] = hit[0]
            Z = [Sym.of(0)] * ns
            for p in free:
                for q in free:
                    want(Am[pos[p], pos[q]], acc.get((p, q), Z)[im],
                         'matrix of the system')
                want(bv[pos[p]], lacc.get((p,), Z)[iv] - bnd.get(p, Z)[im],
                     'right hand side')
            for d in db:
                if d not in hng:
                    want(U[d], asarr(db[d]).ravel()[0],
                         'Dirichlet value of dof %d' % d)
            for d in hng:
                e = sum((Sym.of(c) * U[int(s)] for s, c in zip(*hng[d])),
                        Sym.of(0))
                want(U[d], e, 'value of the hanging dof %d' % d)
        return f
    for dim, et, bc, ref, sub, smp, *which in (
            (1, 'Q1', True, False, None, (0, 0), 0),
            (1, 'Q1', True, False, None, (0, 0), 1),
            (1, 'Q2', False, False, None, (0, 0), 1),
            (2, 'Q1', True, True, None, (0, 0), 0),
            (2, 'Q1', True, True, None, (0, 0), 1),
            (2, 'Q1', False, False, 'middle', (0, 0), 1),
            (1, 'Q1', True, False, None, (0, 0)),
            (1, 'Q1', False, False, None, (0, 0)),
            (1, 'Q2', True, False, None, (0, 0)),
            (1, 'Q1', True, False, None, (1, 0)),
            (1, 'Q1', True, False, None, (0, 1)),
            (1, 'Q1', True, False, 'coarse', (0, 0)),
            (1, 'Q2', True, False, 'coarse', (0, 0)),
            (2, 'Q1', False, False, None, (0, 0)),
            (2, 'Q2', True, False, None, (0, 0)),
            (2, 'Q1', False, True, None, (0, 0)),
            (2, 'Q1', True, True, None, (0, 0)),
            (2, 'Q2', True, True, None, (0, 0)),
            (2, 'Q1', False, False, 'middle', (0, 0)),
            (2, 'Q1', False, False, 'coarse', (0, 0)),
            (2, 'Q2', True, False, 'coarse', (0, 0)),
            (1, 'Q1', 'inner', False, None, (0, 0)),
            (1, 'Q2', 'inner', False, 'coarse', (0, 0)),
            (2, 'Q1', 'inner', False, None, (0, 0)),
            (2, 'Q2', 'inner', False, 'coarse', (0, 0)),
            (2, 'Q1', 'inner', True, None, (0, 0)),
            (2, 'Q1', 'inner', False, 'middle', (0, 0))):
        ctx.ob('solve %dd %s%s%s%s samples %s' % (
            dim, et, ' dirichlet' + (' inside' if bc == 'inner' else '')
            if bc else '', ' hanging' if ref else '',
            ' on submesh %s' % sub if sub else '', smp) + (
                ', problem %d of two' % which[0] if which else ''),
            one(dim, et, bc, ref, sub, smp, *which), w)
