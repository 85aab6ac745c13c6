"""C15 constrained linear systems are solved as stated."""
import numpy as np
from ..frame import want, Violation, Undecided
from ..build import (Sym, boxmesh, linemesh, aslist, children, symarr)
from ..absint import AbsRaise
from ..ext import SpMat, dense
from .fe_common import distribute
from .c11 import fun, val, basis, asarr
from .c14 import world
from .c12 import leafs


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('abstract interpretation of the constraint elimination '
                     'with an unknown matrix, right-hand sides and boundary '
                     'values; the system handed to the solver and the values '
                     'restored afterwards compared with the algebra of the '
                     'constraints')
    ctx.explanation = (
        'A is an array of independent unknowns over the degrees of freedom '
        'of the basis, the right-hand sides and Dirichlet values too. With '
        'u the returned vector (free entries are the unknowns of the linear '
        'solve) the analysis requires u_k = d_k + sum_s c_ks u_s at every '
        'constrained entry, and at every free entry that the equation given '
        'to the solver is the corresponding entry of C^T (A u - b).')
    ctx.assumptions = ['the sparse solver and the factorisations solve the '
                       'system they are given',
                       'hanging nodes as decided by C05']
    systems(ctx)


def setup(W, dim, et, pattern):
    """mesh, dofhandler, basis, [(flag, submesh basis)]"""
    if dim == 1:
        M = linemesh(W, 3)
        if pattern:
            C = W.at(M, 'cells')
            roots = children(W, C)
            if pattern == 'sub':
                W.m(C, 'record', 'coarse')
            W.m(roots[2 if pattern == 'gap' else 0], 'mark', 'r')
            W.m(C, 'refine', refinement_flag='r')
            if pattern == 'gap':
                W.m(C, 'record', 'middle')
                W.m(roots[0], 'mark', 's')
                W.m(C, 'refine', refinement_flag='s')
    else:
        M = boxmesh(W, (3, 1) if pattern == 'two' else (2, 1))
        C = W.at(M, 'cells')
        roots = children(W, C)
        if pattern == 'sub':
            W.m(C, 'record', 'coarse')
        if pattern:
            W.m(roots[1 if pattern in ('two', 'gap') else 0], 'mark', 'r')
            W.m(C, 'refine', refinement_flag='r')
        if pattern in ('middle', 'gap'):
            W.m(C, 'record', 'middle')
            W.m(roots[1 if pattern == 'middle' else 0], 'mark', 's')
            W.m(C, 'refine', refinement_flag='s')
    E, D = distribute(W, M, et, dim)
    kw = {}
    if pattern in ('sub', 'middle', 'gap'):
        kw['subforest_flag'] = 'coarse' if pattern == 'sub' else 'middle'
        W.m(D, 'distribute_dofs', **kw)
    W.m(D, 'set_dof_vertices')
    u = basis(W, D, **kw)
    return M, D, u, kw


def line(side, dim):
    """the coordinate of an end, or of the first interface inside"""
    a, h = Sym.var('a'), Sym.var('h', True)
    return {'left': a, 'right': a + h,
            'inner': a + h / (3 if dim == 1 else 2)}[side]


def mark(W, M, dim, side, label):
    """label one end of the box, or an interface inside"""
    x0 = line(side, dim)

    def ind(x):
        return Sym.of(x).equals(x0)
    n = 0
    for r in children(W, W.at(M, 'cells')):
        todo = [r]
        while todo:
            c = todo.pop()
            if W.m(c, 'has_children') is True:
                todo += children(W, c)
            if dim == 1:
                for v in aslist(W, W.m(c, 'get_vertices')):
                    if ind(asarr(W.m(v, 'coordinates')).ravel()[0]):
                        W.m(v, 'mark', label)
                        n += 1
            else:
                for he in aslist(W, W.m(c, 'get_half_edges')):
                    if all(ind(asarr(W.m(W.m(he, q), 'coordinates')
                                     ).ravel()[0]) for q in ('base', 'head')):
                        W.m(he, 'mark', label)
                        n += 1
    if not n:
        raise Undecided('nothing marked')


def stray(W, M, dim, flag, label):
    """label what is inside the cells of a submesh"""
    todo = children(W, W.at(M, 'cells'))
    n = 0
    while todo:
        c = todo.pop()
        kids = children(W, c) if W.m(c, 'has_children') is True else []
        todo += kids
        if not kids or W.m(c, 'has_children', flag=flag) is True:
            continue
        vs = aslist(W, W.m(c, 'get_vertices'))
        for k in kids:
            if dim == 1:
                new = [v for v in aslist(W, W.m(k, 'get_vertices'))
                       if not any(v is u for u in vs)]
            else:
                new = [h for h in aslist(W, W.m(k, 'get_half_edges'))
                       if W.m(h, 'has_parent') is not True]
            for e in new:
                W.m(e, 'mark', label)
                n += 1
    if not n:
        raise Undecided('nothing marked')


def dirichlet_dofs(W, D, u, side, dim):
    x0 = line(side, dim)
    ud = [int(q) for q in aslist(W, W.m(u, 'dofs'))]
    X = asarr(W.m(D, 'get_dof_vertices', ud))
    return [(d, x) for d, x in zip(ud, X.reshape(len(ud), -1))
            if Sym.of(x[0]).equals(x0)]


def bvalue(how, x):
    if how == 'zero':
        return Sym.of(0)
    if how == 'number':
        return Sym.of(2.5)
    return val('g', 0, [x])


def give(W, how, dim):
    return {'zero': 0, 'number': 2.5}.get(how) if how != 'function' else \
        fun(W, 'g', dim)


class Model(object):
    """what the solution has to satisfy"""

    def __init__(self, W, D, u, kw, dim):
        self.W, self.D, self.u = W, D, u
        self.dofs = [int(q) for q in aslist(W, W.m(u, 'dofs'))]
        self.n = len(self.dofs)
        self.cons = {}
        if dim == 2:
            hn = W.m(D, 'get_hanging_nodes', **kw)
            if not isinstance(hn, dict):
                raise Undecided('hanging nodes %r' % (hn,))
            for q, (s, c) in hn.items():
                self.cons[int(q)] = ([(int(i), Sym.of(w))
                                      for i, w in zip(s, c)], Sym.of(0))
        self.hanging = sorted(self.cons)

    def dirichlet(self, pairs):
        for d, v in pairs:
            if d not in self.hanging:
                # a hanging node follows its supports, also where values
                # are prescribed
                self.cons[d] = ([], v)

    def expand(self, d, U):
        if d in self.cons:
            s, v = self.cons[d]
            return sum((w * self.expand(q, U) for q, w in s), v)
        return U[d]

    def coef(self, d):
        """dof d as combination of free dofs"""
        if d in self.cons:
            out = {}
            for q, w in self.cons[d][0]:
                for r, c in self.coef(q).items():
                    out[r] = out.get(r, Sym.of(0)) + w * c
            return out
        return {d: Sym.of(1)}

    def check(self, A, b, sol, system, col, what):
        """A, b: the given system; sol: returned column; system: what was
        given to the solver"""
        Am, bv, x = system
        bv = bv.reshape(self.n, -1)
        x = x.reshape(self.n, -1)
        dofs = self.dofs
        U = {d: Sym.of(sol[i]) for i, d in enumerate(dofs)}
        free = [d for d in dofs if d not in self.cons]
        pos = {}
        for d in free:
            hit = [q for q in range(self.n) if U[d].equals(x[q, col])]
            if len(hit) != 1:
                raise Violation('%s: value %s returned for the free dof %d' %
                                (what, U[d], d))
            pos[d] = hit[0]
        for d in self.cons:
            if d in U:
                want(U[d], self.expand(d, U),
                     '%s: value of the constrained dof %d' % (what, d))
        full = [self.expand(d, U) for d in dofs]
        res = [sum((Sym.of(A[i, j]) * full[j] for j in range(self.n)),
                   Sym.of(0)) - Sym.of(b[i, col]) for i in range(self.n)]
        co = [self.coef(d) for d in dofs]
        for d in free:
            lhs = sum((Sym.of(Am[pos[d], q]) * x[q, col]
                       for q in range(self.n)), Sym.of(0)) - \
                Sym.of(bv[pos[d], col])
            rhs = sum((co[i][d] * res[i] for i in range(self.n)
                       if d in co[i]), Sym.of(0))
            want(lhs, rhs, '%s: equation of dof %d' % (what, d))
        used = set(pos.values())
        # a symmetric matrix stays symmetric (the factorisation reads one
        # half of it only)
        for q in range(self.n):
            for p in range(self.n):
                if q in used or p == q or (p not in used and p < q):
                    continue
                u, v = Sym.of(Am[p, q]), Sym.of(Am[q, p])
                if u.equals(v):
                    continue
                rep = {Sym.of(A[i, j]): Sym.of(A[j, i])
                       for i in range(self.n) for j in range(i)}
                u, v = u.subs(rep), v.subs(rep)
                if (u - v).subs({Sym.of(A[i, j]): Sym.of(
                        1. / (1 + i + j) + (i == j)) for i in range(self.n)
                        for j in range(self.n)}).is_zero():
                    continue
                raise Violation('%s: entries %s and %s of the constrained '
                                'matrix' % (what, u, v))
        for q in range(self.n):
            if q in used:
                continue
            if Sym.of(Am[q, q]).is_zero():
                raise Violation('%s: no equation for unknown %d' % (what, q))
            # a positive definite matrix stays positive definite: tried on
            # a small multiple of the identity
            v = Sym.of(Am[q, q]).subs({
                Sym.of(A[i, j]): Sym.of(1e-3 if i == j else 0)
                for i in range(self.n) for j in range(self.n)})
            if v.is_const() and float(v.const()) <= 0:
                raise Violation('%s: equation %s x = .. for the constrained '
                                'unknown %d' % (what, Am[q, q], q))


def systems(ctx):
    w = ctx.where('solver', 'LinearSystem.solve_system')

    def start(dim, et, pattern, bc, n=1, at=True, second=False, fmt='csr', onb=None):
        W = world(ctx)
        M, D, u, kw = setup(W, dim, et, pattern)
        m = Model(W, D, u, kw, dim)
        A = symarr('A', m.n, m.n)
        b = symarr('b', m.n, n)
        for s, how in bc:
            mark(W, M, dim, s, s)
            if onb is True:
                # inside the domain the label has no effect
                mark(W, M, dim, 'inner', s)
            if onb is False and pattern in ('sub', 'middle', 'gap'):
                stray(W, M, dim, kw['subforest_flag'], s)
        S = W.new('solver', 'LinearSystem', u, A=SpMat(A.copy(), fmt),
                  b=b.copy() if at else None)
        for s, how in bc:
            W.m(S, 'add_dirichlet_constraint', s, give(W, how, dim),
                **({} if onb is None else dict(on_boundary=onb)))
            m.dirichlet([(d, bvalue(how, x))
                         for d, x in dirichlet_dofs(W, D, u, s, dim)])
        if pattern in ('hang', 'two', 'middle', 'gap') and dim == 2 and \
                et[0] != 'D' and not m.hanging:
            raise Violation('no hanging nodes')
        W.it.__dict__['solves'] = []
        return W, M, D, u, kw, m, A, b, S

    def solution(W, S):
        return asarr(dense(W.m(S, 'get_solution', as_function=False)))

    def last(W, k, n):
        """the k-th solve; with one right-hand side per call n are merged"""
        sv = W.it.solves
        if len(sv) <= k:
            raise Violation('%d linear solves' % len(sv))
        A0, b0, x0 = sv[k]
        bs, xs = [b0.reshape(len(A0), -1)], [x0.reshape(len(A0), -1)]
        while sum(q.shape[1] for q in bs) < n:
            k += 1
            if len(sv) <= k:
                raise Violation('%d right-hand sides solved' % len(bs))
            bs.append(sv[k][1].reshape(len(A0), -1))
            xs.append(sv[k][2].reshape(len(A0), -1))
        return (A0, np.concatenate(bs, axis=1), np.concatenate(xs, axis=1)), \
            k + 1

    def checkall(W, m, A, b, S, k, what='solution'):
        n = b.shape[1]
        U = solution(W, S)
        if U.shape != b.shape:
            raise Violation('%s of shape %s, required %s' % (
                what, U.shape, b.shape))
        sysm, k = last(W, k, n)
        for c in range(n):
            m.check(A, b, U[:, c], sysm, c, what)
        return k

    def basic(dim, et, pattern, bc, n, factor, chol=True, onb=None):
        def f():
            W, M, D, u, kw, m, A, b, S = start(dim, et, pattern, bc, n,
                                               onb=onb)
            if not chol:
                W.it.module('solver').ns['cholmod_cholesky'] = None
            W.m(S, 'solve_system', factor=factor)
            checkall(W, m, A, b, S, 0)
            fn = W.m(S, 'get_solution')
            X = asarr(W.m(fn, 'data'))
            want(X.reshape(b.shape), solution(W, S), 'data of the solution')
            if W.m(fn, 'basis') is not u:
                raise Violation('solution is not expanded in the basis')
        return f
    Z, N, G = 'zero', 'number', 'function'
    for case in (
            (1, 'Q1', None, (('left', Z), ('right', G)), 1, False),
            (1, 'Q1', None, (('left', N),), 2, False),
            (1, 'Q2', None, (('right', G),), 1, True),
            (1, 'Q2', None, (), 1, False),
            (1, 'Q1', None, (('left', G), ('right', N)), 2, True),
            (1, 'Q1', 'ref', (('left', G),), 1, False),
            (1, 'Q2', 'ref', (('left', G), ('right', N)), 1, False),
            (1, 'Q1', 'sub', (('left', G),), 1, False),
            (1, 'Q2', 'sub', (('right', N),), 1, True),
            (1, 'DQ1', None, (), 1, False),
            (1, 'DQ0', 'ref', (), 1, False),
            (1, 'DQ1', 'ref', (('left', G), ('right', N)), 1, False),
            (1, 'Q3', 'ref', (('left', N), ('right', G)), 2, False),
            (1, 'Q3', 'ref', (('right', G),), 1, True),
            (1, 'Q3', 'sub', (('right', G),), 1, False),
            (1, 'DQ1', 'sub', (('left', G), ('right', N)), 1, True),
            (2, 'Q2', 'middle', (('left', G),), 1, False),
            (1, 'Q1', 'gap', (('left', G), ('right', N)), 1, False),
            (1, 'Q2', 'gap', (('right', G),), 2, True),
            (2, 'Q1', 'gap', (('right', G),), 1, False),
            (2, 'Q2', 'gap', (('left', G), ('right', N)), 1, False),
            (2, 'DQ0', 'hang', (), 1, False),
            (1, 'DQ0', 'sub', (), 1, False),
            (2, 'DQ1', None, (), 1, False),
            (2, 'Q1', None, (('left', G),), 1, False),
            (2, 'Q1', 'hang', (), 1, False),
            (2, 'Q1', 'hang', (('left', G),), 1, False),
            (2, 'Q1', 'hang', (('right', G),), 2, True),
            (2, 'Q1', 'two', (), 1, False),
            (2, 'Q1', 'two', (('right', G), ('left', N)), 1, False),
            (2, 'Q1', 'sub', (('left', G),), 1, False),
            (2, 'Q1', 'middle', (('right', G),), 1, False)):
        d, et, pat, bc, n, fa = case
        ctx.ob('solve %dd %s%s dirichlet %s, %d right-hand sides%s' % (
            d, et, ' ' + pat if pat else '', [s + '=' + q for s, q in bc], n,
            ' factored' if fa else ''), basic(*case), w)
    I = 'inner'
    for case in (
            (1, 'Q1', None, ((I, G),), 1, False),
            (1, 'Q2', 'ref', ((I, N), ('right', G)), 2, True),
            (1, 'Q1', 'sub', ((I, G),), 1, False),
            (1, 'Q2', 'gap', ((I, G),), 1, False),
            (2, 'Q1', None, ((I, G),), 1, False),
            (2, 'Q2', None, ((I, N),), 1, False),
            (2, 'Q1', 'sub', ((I, G), ('left', N)), 1, True),
            (2, 'Q1', 'hang', ((I, G),), 1, False),
            (2, 'Q1', 'middle', ((I, G), ('right', N)), 1, False)):
        ctx.ob('solve with values prescribed inside: %dd %s %s %s' % case[:4],
               basic(*case, onb=False), w)
    for case in (
            (1, 'Q2', None, (('left', G),), 1, False),
            (1, 'Q1', 'sub', (('right', G),), 1, False),
            (2, 'Q1', None, (('left', G),), 1, False),
            (2, 'Q1', 'hang', (('right', N),), 1, False)):
        ctx.ob('solve with labels inside, values prescribed on the boundary '
               'only: %dd %s %s %s' % case[:4], basic(*case, onb=True), w)
    ctx.ob('solve with the fallback factorisation',
           basic(1, 'Q1', None, (('left', N),), 2, True, False), w)

    def again(dim, et, pattern, bc, how):
        def f():
            W, M, D, u, kw, m, A, b, S = start(dim, et, pattern, bc, 1,
                                               at=how != 'late')
            k = 0
            fa = how == 'factor'
            if how != 'late':
                W.m(S, 'solve_system', factor=fa)
                k = checkall(W, m, A, b, S, k, 'first solution')
            b2 = symarr('c', m.n, 2)
            if how == 'matrix':
                A = symarr('B', m.n, m.n)
                b2 = b
                W.m(S, 'set_matrix', SpMat(A.copy(), 'csr'))
                W.m(S, 'set_rhs', b2.copy())
                W.m(S, 'solve_system')
            elif how == 'set':
                W.m(S, 'set_rhs', b2.copy())
                W.m(S, 'solve_system')
            elif how == 'steps':
                W.m(S, 'set_rhs', b2.copy())
                W.m(S, 'constrain_rhs')
                W.m(S, 'invert_matrix')
                W.m(S, 'resolve_constraints')
            elif how == 'invert':
                W.m(S, 'invert_matrix', b2.copy())
                W.m(S, 'resolve_constraints')
            elif how == 'sparse':
                W.m(S, 'solve_system', SpMat(b2.copy(), 'csr'))
            elif how == 'vector':
                b2 = b2[:, :1]
                W.m(S, 'solve_system', b2[:, 0].copy())
            elif how == 'factored vector':
                b2 = b2[:, :1]
                W.m(S, 'set_rhs', b2[:, 0].copy())
                W.m(S, 'solve_system', factor=True)
            else:
                W.m(S, 'solve_system', b2.copy(), factor=fa)
            checkall(W, m, A, b2, S, k, 'next solution')
        return f
    for how in ('late', 'direct', 'factor', 'matrix', 'set', 'steps',
                'invert', 'sparse', 'vector', 'factored vector'):
        ctx.ob('further right-hand side: ' + how, again(
            1, 'Q1', None, (('left', N), ('right', G)), how), w)
    for how in ('direct', 'factor'):
        ctx.ob('further right-hand side with hanging nodes: ' + how, again(
            2, 'Q1', 'hang', (('right', G),), how), w)

    def step_by_step():
        W, M, D, u, kw, m, A, b, S = start(1, 'Q1', None, (('left', N),), 1)
        W.m(S, 'set_constraint_relation')
        W.m(S, 'constrain_matrix')
        W.m(S, 'constrain_rhs')
        W.m(S, 'constrain_rhs')
        W.m(S, 'factor_matrix')
        W.m(S, 'invert_matrix', factor=True)
        W.m(S, 'resolve_constraints')
        checkall(W, m, A, b, S, 0)
    ctx.ob('the steps one by one', step_by_step, w)

    def resolve():
        W, M, D, u, kw, m, A, b, S = start(
            2, 'Q1', 'hang', (('left', G),), 1)
        W.m(S, 'solve_system')
        x = symarr('y', m.n, 1)
        given = x.copy()
        r = asarr(dense(W.m(S, 'resolve_constraints', x)))
        U = {d: x[i, 0] for i, d in enumerate(m.dofs)}
        exp = [[m.expand(d, U)] for d in m.dofs]
        exp = np.array(exp, dtype=object)
        want(r, exp, 'resolved vector')
        U = {d: given[i, 0] for i, d in enumerate(m.dofs)}
        exp = np.array([[m.expand(d, U)] for d in m.dofs], dtype=object)
        want(r, exp, 'resolved vector')
        want(x, given, "the caller's vector")
    ctx.ob('resolve a given vector', resolve,
           ctx.where('solver', 'LinearSystem.resolve_constraints'))

    def shared(order):
        """two systems on one degree of freedom handler"""
        def f():
            W, M, D, u, kw, m, A, b, S = start(
                1, 'Q1', None, (('left', N),), 1)
            mark(W, M, 1, 'right', 'right')
            A2, b2 = symarr('P', m.n, m.n), symarr('q', m.n, 1)
            m2 = Model(W, D, u, kw, 1)
            S2 = W.new('solver', 'LinearSystem', u, A=SpMat(A2.copy(), 'csr'),
                       b=b2.copy())
            if order != 'none':
                W.m(S2, 'add_dirichlet_constraint', 'right', fun(W, 'g', 1))
                m2.dirichlet([(d, bvalue(G, x)) for d, x in dirichlet_dofs(
                    W, D, u, 'right', 1)])
            k = 0
            for T, mm, AA, bb in ((S, m, A, b), (S2, m2, A2, b2)) \
                    if order != 'second' else ((S2, m2, A2, b2),
                                               (S, m, A, b)):
                W.m(T, 'solve_system')
                k = checkall(W, mm, AA, bb, T, k)
        return f
    for o in ('first', 'second', 'none'):
        ctx.ob('two systems on one dofhandler: ' + o, shared(o), w)

    def two_meshes():
        """the system of a submesh after that of the full mesh"""
        W, M, D, u, kw, m, A, b, S = start(
            2, 'Q1', 'middle', (('right', G),), 1)
        full = basis(W, D)
        mf = Model(W, D, full, {}, 2)
        A2, b2 = symarr('P', mf.n, mf.n), symarr('q', mf.n, 1)
        S2 = W.new('solver', 'LinearSystem', full,
                   A=SpMat(A2.copy(), 'csr'), b=b2.copy())
        W.m(S2, 'solve_system')
        k = checkall(W, mf, A2, b2, S2, 0, 'full mesh')
        W.m(S, 'solve_system')
        checkall(W, m, A, b, S, k, 'submesh')
    ctx.ob('systems of a mesh and a submesh', two_meshes, w)

    def twice():
        """the same condition given twice"""
        W, M, D, u, kw, m, A, b, S = start(
            1, 'Q1', None, (('left', N), ('left', G)), 1)
        W.m(S, 'solve_system')
        checkall(W, m, A, b, S, 0)
    ctx.ob('a condition replaced by a later one', twice, w)

    def untouched():
        W, M, D, u, kw, m, A, b, S = start(
            2, 'Q1', 'hang', (('left', G),), 1)
        K, r = SpMat(A.copy(), 'csr'), b.copy()
        S = W.new('solver', 'LinearSystem', u, A=K, b=r)
        W.m(S, 'add_dirichlet_constraint', 'left', 2)
        W.m(S, 'solve_system')
        want(K.d, A, "the caller's matrix")
        want(r, b, "the caller's right-hand side")
    ctx.ob('matrix and vector of the caller are not changed', untouched, w)

    def relation(dim, et, pattern):
        def f():
            W, M, D, u, kw, m, A, b, S = start(
                dim, et, pattern, (('left', G),), 1)
            W.m(S, 'set_constraint_relation')
            C, d = asarr(dense(W.m(S, 'get_C'))), asarr(W.m(S, 'get_d'))
            for i, q in enumerate(m.dofs):
                s, v = m.cons.get(q, ([(q, Sym.of(1))], Sym.of(0)))
                row = {p: c for p, c in s}
                for j, p in enumerate(m.dofs):
                    want(C[i, j], row.get(p, Sym.of(0)), 'C[%d,%d]' % (q, p))
                want(d.ravel()[i], v, 'affine term of dof %d' % q)
        return f
    for c in ((1, 'Q1', None), (1, 'Q1', 'sub'), (2, 'Q1', 'hang'),
              (1, 'Q3', 'sub'), (1, 'DQ1', 'sub'), (1, 'Q1', 'gap'),
              (2, 'Q1', 'middle')):
        ctx.ob('constraint relation %dd %s %s' % c, relation(*c),
               ctx.where('solver', 'LinearSystem.set_constraint_relation'))
