"""C21: the same computation gives the same result."""
import ast
import numpy as np
from fractions import Fraction as F
from ..frame import want, Violation, Undecided
from ..absint import Top, Alt, Native, Obj, Imprecise
from ..build import World, Sym, boxmesh, linemesh, aslist, children, coords
from ..build import symarr
from .fe_common import all_cells, numeric
from .c08 import BASES, build, split, REL
from .c11 import asarr, basis, fun
from .c12 import dense
from .c13 import oracle
from .c14 import rule

POLICIES = (0, 1, 2)


# ------------------------------------------------------------- observations
def fp(p):
    return tuple(round(numeric(c), 6) + 0.0 for c in p)


def pt(W, v):
    return fp(coords(W, v))


def cell_key(W, c):
    return tuple(pt(W, v) for v in aslist(W, W.m(c, 'get_vertices')))


def ent(W, e):
    n = getattr(e.cls, 'name', '')
    if 'Vertex' in n:
        return ('v', pt(W, e))
    if n in ('HalfEdge', 'RHalfEdge'):
        return ('h', pt(W, W.m(e, 'base')), pt(W, W.m(e, 'head')))
    return ('c',) + cell_key(W, e)


def pair_key(W, e):
    if isinstance(e, (tuple, list)):
        return tuple(ent(W, x) for x in e)
    return ent(W, e)


def unordered(xs):
    return ('unordered', sorted(xs, key=repr))


def values(v):
    v = asarr(v)
    return ('array', v.shape, list(v.ravel()))


def same(x, y, what):
    """structural equality of two observations"""
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        if len(x) != len(y):
            raise Violation('%s: %d entries once, %d another time' % (
                what, len(x), len(y)))
        for p, q in zip(x, y):
            same(p, q, what)
        return
    if isinstance(x, (Top, Alt)) or isinstance(y, (Top, Alt)):
        if repr(x) == repr(y):
            return
        raise Undecided('%s: %r / %r' % (what, x, y))
    if isinstance(x, Sym) or isinstance(y, Sym) or (
            isinstance(x, (float, F)) and isinstance(y, (int, float, F))):
        if isinstance(x, str) or isinstance(y, str) or x is None or \
                y is None or not Sym.of(x).equals(Sym.of(y), 1e-9):
            raise Violation('%s: %r once, %r another time' % (what, x, y))
        return
    if x != y:
        raise Violation('%s: %s once, %s another time' % (
            what, str(x)[:60], str(y)[:60]))


# ---------------------------------------------------------------- scenarios
def kinds(dim):
    return ['vertex', 'cell'] + (['half_edge'] if dim == 2 else [])


def mark_some(W, dim, M):
    for c in all_cells(W, M)[::2]:
        W.m(c, 'mark', 'lab')
        W.m(aslist(W, W.m(c, 'get_vertices'))[0], 'mark', 'lab')
        if dim == 2:
            W.m(aslist(W, W.m(c, 'get_half_edges'))[1], 'mark', 'lab')


def geometry(W, dim, M, s):
    out = []
    C = W.at(M, 'cells')
    for q in (s, None):
        out.append(('leaves', [cell_key(W, c) for c in aslist(
            W, W.m(C, 'get_leaves', subforest_flag=q))]))
        out.append(('traversal', [cell_key(W, c) for c in aslist(
            W, W.m(C, 'traverse', flag=q))]))
        if dim == 2:
            out.append(('boundary segments', [
                [ent(W, h) for h in aslist(W, g)] for g in aslist(
                    W, W.m(M, 'get_boundary_segments', subforest_flag=q))]))
            out.append(('boundary vertices', unordered(
                pt(W, v) for v in aslist(W, W.m(
                    M, 'get_boundary_vertices', subforest_flag=q)))))
            out.append(('balanced', W.m(M, 'is_balanced', subforest_flag=q)))
        else:
            out.append(('boundary cells', [cell_key(W, c) for c in aslist(
                W, W.m(M, 'get_boundary_cells', subforest_flag=q))]))
    mark_some(W, dim, M)
    for t in kinds(dim):
        for onb in (False, True):
            for lab in (None, 'lab'):
                for pr in (False, True):
                    out.append(('region of type %s' % t, unordered(
                        pair_key(W, e) for e in aslist(W, W.m(
                            M, 'get_region', flag=lab, entity_type=t,
                            on_boundary=onb, subforest_flag=s,
                            return_cells=pr)))))
    if dim == 2:
        for c in aslist(W, W.m(C, 'get_leaves')):
            for p in aslist(W, W.m(c, 'get_vertices')) + aslist(
                    W, W.m(c, 'get_half_edges')):
                r = W.m(c, 'get_neighbors', p)
                r = [] if r is None else r if isinstance(r, (list, tuple)) \
                    else [r]
                out.append(('neighbours', unordered(
                    cell_key(W, d) for d in r if d is not None)))
    return out


def located(W, dim, M, s):
    out = []
    for q in (s, None):
        ls = aslist(W, W.m(W.at(M, 'cells'), 'get_leaves', subforest_flag=q))
        X = []
        for c in ls:
            P = [coords(W, v) for v in aslist(W, W.m(c, 'get_vertices'))]
            X.append([Sym.of(x) for x in P[0]])
            X.append([sum((Sym.of(p[i]) for p in P), Sym.of(0)) / len(P)
                      for i in range(dim)])
        got = []
        for b in aslist(W, W.m(M, 'bin_points', W.arr(X), subforest_flag=q)):
            c, ip = aslist(W, b)
            got.append((cell_key(W, c), sorted(int(i) for i in np.ravel(ip))))
        out.append(('location of points', unordered(got)))
    return out


def handler(W, dim, M, s, et, first=None):
    E = W.new('fem', 'QuadFE', dim, et)
    D = W.new('fem', 'DofHandler', M, E)
    for q in (first or (None, s)):
        W.m(D, 'distribute_dofs', subforest_flag=q)
    return D


def ints(W, v):
    return [None if d is None else int(d) for d in aslist(W, v)]


def ascending(d):
    if d != sorted(d):
        raise Violation('the dofs of a region are not in ascending order')
    return d


def numbering(et):
    def f(W, dim, M, s):
        D = handler(W, dim, M, s, et)
        out = []
        for c in all_cells(W, M):
            d = W.m(D, 'get_cell_dofs', c)
            out.append(('dofs of %s' % (cell_key(W, c)[0],),
                        None if d is None else ints(W, d)))
        mark_some(W, dim, M)
        for q in (None, s):
            out.append(('number of dofs', W.m(D, 'n_dofs', subforest_flag=q)))
            out.append(('dofs', ascending(ints(W, W.m(
                D, 'get_region_dofs', subforest_flag=q)))))
            for t in kinds(dim):
                for onb in (False, True):
                    for lab in (None, 'lab'):
                        out.append(('dofs of a region', ascending(ints(
                            W, W.m(D, 'get_region_dofs', entity_type=t,
                                   on_boundary=onb, entity_flag=lab,
                                   subforest_flag=q)))))
        n = W.m(D, 'n_dofs')
        W.m(D, 'set_dof_vertices')
        if W.m(M, 'is_periodic') is not True:
            out.append(('positions of dofs', values(
                W.m(D, 'get_dof_vertices', list(range(int(n)))))))
        return out
    return f


def hanging(et):
    def f(W, dim, M, s):
        out = []
        D = handler(W, dim, M, s, et)
        for q in (None, s):
            if W.m(M, 'is_balanced', subforest_flag=q) is not True:
                continue
            W.m(D, 'set_hanging_nodes', subforest_flag=q)
            h = W.m(D, 'get_hanging_nodes', subforest_flag=q)
            out.append(('hanging nodes', [
                (int(d), sorted(((int(k), Sym.of(w)) for k, w in zip(
                    *[aslist(W, z) for z in h[d]])), key=lambda z: z[0]))
                for d in sorted(h)]))
        return out
    return f


def system(et):
    def f(W, dim, M, s):
        if dim == 2 and W.m(M, 'is_balanced', subforest_flag=s) is not True:
            return []
        D = handler(W, dim, M, s, et)
        W.m(D, 'set_hanging_nodes', subforest_flag=s)
        mark_some(W, dim, M)
        u = basis(W, D, subforest_flag=s)
        ux = basis(W, D, derivative='vx', subforest_flag=s)

        def form(n, **k):
            return W.new('assembler', 'Form', W.new(
                'assembler', 'Kernel', fun(W, n, dim)), **k)
        fs = [form('m', test=u, trial=u), form('a', test=u, trial=ux),
              form('l', test=u), form('c'),
              form('r', flag='lab')]
        if dim == 2:
            fs.append(form('n', test=u, trial=u, dmu='ds', flag='lab'))
            fs.append(form('k', test=u, dmu='ds', flag='lab'))
        else:
            fs.append(form('k', test=u, dmu='dv', flag='lab'))
        A = W.new('assembler', 'Assembler', fs, M, n_gauss=(1, 1),
                  subforest_flag=s)
        if W.m(M, 'is_periodic') is not True:
            W.m(A, 'add_dirichlet', 'lab', 2)
        W.m(A, 'assemble')
        out = []
        for form in aslist(W, W.m(A, 'assembled_forms', i_problem=0)):
            z = W.m(form, 'aggregate_data')
            out.append(('assembled dofs', [ints(W, q) for q in aslist(
                W, z['udofs'])] if z['udofs'] is not None else None))
            arr = z['array']
            if isinstance(arr, (list, tuple)) or hasattr(arr, 'absint_iter'):
                for p in aslist(W, arr):
                    out.append(('assembled entries', values(dense(p))))
            else:
                out.append(('assembled entries', values(arr)))
        xd = W.m(A, 'get_dirichlet')
        out.append(('Dirichlet data', [
            (int(d), values(xd[d]) if isinstance(xd[d], np.ndarray) else
             xd[d]) for d in sorted(xd)]))
        return out
    return f


def functions(et):
    def f(W, dim, M, s):
        if W.m(M, 'is_periodic') is True:
            return []
        D = handler(W, dim, M, s, et)
        B = basis(W, D, subforest_flag=s)
        X = []
        for c in aslist(W, W.m(W.at(M, 'cells'), 'get_leaves',
                               subforest_flag=s)):
            P = [coords(W, v) for v in aslist(W, W.m(c, 'get_vertices'))]
            X.append([sum((Sym.of(p[i]) for p in P), Sym.of(0)) / len(P)
                      for i in range(dim)])
        fn = W.new('function', 'Nodal', f=rule(W, 'g'), basis=B)
        return [('nodal values', values(W.m(fn, 'data'))),
                ('values', values(W.m(fn, 'eval', W.arr(X))))]
    return f


def balance(W, dim, M, s):
    """refinement to balance, a submesh and the whole mesh"""
    out = []
    if dim != 2:
        return out
    C = W.at(M, 'cells')
    c = aslist(W, W.m(C, 'get_leaves'))[0]
    for q in (0, 2, 1):
        W.m(c, 'split')
        c = children(W, c)[q]
    W.m(M, 'record', 'deep')
    for q in ('deep', None):
        W.m(M, 'balance', subforest_flag=q)
        out.append(('cells after balancing', [
            cell_key(W, d) for d in aslist(W, W.m(
                C, 'get_leaves', subforest_flag=q))]))
    D = handler(W, dim, M, None, 'Q1', first=(None,))
    out.append(('dofs after balancing', [
        ints(W, W.m(D, 'get_cell_dofs', d)) for d in aslist(
            W, W.m(C, 'get_leaves'))]))
    return out


def questions(W, dim, M, s):
    """named questions about a mesh, each with its own answer"""
    C = W.at(M, 'cells')
    out = []

    def ask(name, f):
        out.append((name, f))

    def place(P, q):
        def f():
            got = []
            for b in aslist(W, W.m(M, 'bin_points', W.arr([P]),
                                   subforest_flag=q)):
                c, ip = aslist(W, b)
                got.append((cell_key(W, c), [int(i) for i in np.ravel(ip)]))
            return got
        return f
    for q in (s, None):
        seen = set()
        for c in aslist(W, W.m(C, 'get_leaves', subforest_flag=q)):
            V = [[Sym.of(x) for x in coords(W, v)]
                 for v in aslist(W, W.m(c, 'get_vertices'))]
            X = [('corner', v) for v in V]
            if dim == 2:
                X += [('side', [(a + b) / 2 for a, b in zip(V[i - 1], V[i])])
                      for i in range(len(V))]
            for k, P in X:
                if fp(P) not in seen:
                    seen.add(fp(P))
                    ask('location of the %s %s' % (k, fp(P)), place(P, q))
        if dim == 2:
            ask('boundary segments', lambda q=q: [
                [ent(W, h) for h in aslist(W, g)] for g in aslist(
                    W, W.m(M, 'get_boundary_segments', subforest_flag=q))])
            ask('boundary vertices', lambda q=q: unordered(
                pt(W, v) for v in aslist(W, W.m(
                    M, 'get_boundary_vertices', subforest_flag=q))))
        for t in kinds(dim):
            for onb in (False, True):
                ask('region of type %s' % t, lambda q=q, t=t, onb=onb:
                    unordered(pair_key(W, e) for e in aslist(W, W.m(
                        M, 'get_region', entity_type=t, on_boundary=onb,
                        subforest_flag=q, return_cells=True))))
        ask('leaves', lambda q=q: [cell_key(W, c) for c in aslist(
            W, W.m(C, 'get_leaves', subforest_flag=q))])
    mark_some(W, dim, M)
    D = handler(W, dim, M, s, 'Q2')
    for q in (s, None):
        ask('number of dofs', lambda q=q: W.m(D, 'n_dofs', subforest_flag=q))
        for t in kinds(dim):
            for onb in (False, True):
                for lab in (None, 'lab'):
                    for inner in (False, True):
                        ask('dofs of a region of type %s' % t,
                            lambda q=q, t=t, onb=onb, lab=lab, inner=inner:
                            ints(W, W.m(D, 'get_region_dofs', entity_type=t,
                                        entity_flag=lab, on_boundary=onb,
                                        interior=inner, subforest_flag=q)))
        if dim == 2:
            ask('boundary sides with a label', lambda q=q: [
                [ent(W, h) for h in aslist(W, g)] for g in aslist(
                    W, W.m(M, 'get_boundary_segments', subforest_flag=q,
                           flag='lab'))])
    for c in aslist(W, W.m(C, 'get_leaves')):
        for e in [c] + aslist(W, W.m(c, 'get_vertices')) + (
                aslist(W, W.m(c, 'get_half_edges')) if dim == 2 else []):
            for inner in (False, True):
                ask('dofs of %s' % (ent(W, e),),
                    lambda c=c, e=e, inner=inner: ints(W, W.m(
                        D, 'get_cell_dofs', c, e, interior=inner)))
        X = [coords(W, v) for v in aslist(W, W.m(c, 'get_vertices'))]
        X = W.arr([[Sym.of(x) for x in P] for P in X])
        for k in (1, 2, 4):
            ask('local positions of %s' % (fp(coords(W, aslist(
                W, W.m(c, 'get_vertices'))[0])),),
                lambda c=c, X=X, k=k: values(W.m(
                    c, 'reference_map', X[:k], mapsto='reference')))
    if W.m(M, 'is_periodic') is not True:
        for et in ('Q1', 'DQ1'):
            D = handler(W, dim, M, s, et)
            fn = W.new('function', 'Nodal', f=rule(W, 'g'),
                       basis=basis(W, D, subforest_flag=s))
            seen = set()
            for c in aslist(W, W.m(C, 'get_leaves', subforest_flag=s)):
                for v in aslist(W, W.m(c, 'get_vertices')):
                    P = [Sym.of(x) for x in coords(W, v)]
                    if fp(P) not in seen:
                        seen.add(fp(P))
                        ask('%s function at %s' % (et, fp(P)),
                            lambda P=P, fn=fn: values(W.m(
                                fn, 'eval', W.arr([P]))))
    return out


def queries(ctx):
    """no answer depends on the questions asked before"""
    def one(base, how, coarse, fine):
        def f():
            def start():
                W = placed(ctx, 0)
                dim, M, s, R = build(W, base, coarse, fine, how)
                return questions(W, dim, M, s)
            Q = start()
            ref = [(n, f()) for n, f in Q]
            compare(ref, [(n, f()) for n, f in Q], 'asked a second time')
            compare(ref[::-1], [(n, f()) for n, f in start()[::-1]],
                    'asked in another order')
        return f
    for base in BASES:
        if base in ('glued', 'star'):
            continue
        for how, coarse, fine in (('record', 'first', 'last'),
                                  ('grown', 'first', 'none')):
            ctx.ob('questions in another order: %s, %s %s %s' % (
                base, how, coarse, fine), one(base, how, coarse, fine),
                ctx.where('mesh', 'QuadMesh.bin_points'))


ASPECTS = [('mesh', geometry, ('mesh', 'Mesh2D.get_region')),
           ('location', located, ('mesh', 'QuadMesh.bin_points')),
           ('balancing', balance, ('mesh', 'QuadMesh.balance'))]
for et in ('Q1', 'Q2', 'DQ1'):
    ASPECTS.append(('numbering ' + et, numbering(et),
                    ('fem', 'DofHandler.distribute_dofs')))
for et in ('Q1', 'Q2'):
    ASPECTS.append(('hanging nodes ' + et, hanging(et),
                    ('fem', 'DofHandler.set_hanging_nodes')))
    ASPECTS.append(('system ' + et, system(et),
                    ('assembler', 'Assembler.assemble')))
for et in ('Q1', 'DQ0'):
    ASPECTS.append(('functions ' + et, functions(et),
                    ('function', 'Nodal.eval')))


def observe(W, base, how, coarse, fine, aspect):
    dim, M, s, R = build(W, base, coarse, fine, how)
    return aspect(W, dim, M, s)


# ------------------------------------------------------ state that is shared
MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear',
       'add', 'discard', 'update', 'setdefault', 'sort', 'reverse', 'fill',
       'appendleft', 'popleft', 'resize', 'put', 'itemset',
       'difference_update', 'intersection_update',
       'symmetric_difference_update'}


def mutable(d):
    """an expression that makes a new mutable object"""
    if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp,
                      ast.SetComp)):
        return True
    if isinstance(d, ast.Call):
        f = d.func
        n = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')
        return n in ('list', 'dict', 'set', 'defaultdict', 'OrderedDict',
                     'deque', 'bytearray', 'Counter', 'array', 'zeros',
                     'ones', 'empty')
    return False


def path_of(e):
    """a, a.b, a[..].b -> ('a', 'b'); None for other expressions"""
    if isinstance(e, ast.Name):
        return (e.id,)
    if isinstance(e, ast.Attribute):
        p = path_of(e.value)
        return p and p + (e.attr,)
    return None


def changes(fn):
    """(path, node, keyed) of every in-place change in a function"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in MUT:
            e = n.func.value
            deep = False
            while isinstance(e, ast.Subscript):
                e, deep = e.value, True
            p = path_of(e)
            if p:
                yield p, n, n.func.attr == 'setdefault' and not deep
        ts = []
        if isinstance(n, ast.Assign):
            ts = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            ts = [n.target]
        elif isinstance(n, ast.Delete):
            ts = n.targets
        for t in ts:
            for u in (t.elts if isinstance(t, (ast.Tuple, ast.List))
                      else [t]):
                if isinstance(u, ast.Subscript):
                    e = u.value
                    while isinstance(e, ast.Subscript):
                        e = e.value
                    p = path_of(e)
                    if p:
                        yield p, n, isinstance(n, ast.Assign)
                elif isinstance(n, ast.AugAssign):
                    p = path_of(u)
                    if p and isinstance(n.value, (
                            ast.List, ast.ListComp, ast.Set, ast.Dict)):
                        yield p, n, False


def stores(fn, p):
    """is the name or attribute given a value of its own in the function"""
    for n in ast.walk(fn):
        ts = []
        if isinstance(n, ast.Assign):
            ts = n.targets
        elif isinstance(n, (ast.AnnAssign, ast.For)):
            ts = [n.target]
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            ts = [n.optional_vars]
        for t in ts:
            for u in ast.walk(t):
                if isinstance(u, (ast.Name, ast.Attribute)) and \
                        isinstance(u.ctx, ast.Store) and path_of(u) == p:
                    return True
    return False


def looked_up(fn, p):
    """the container is consulted before it is filled (a memo)"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and any(
                path_of(c) == p for c in n.comparators) and any(
                isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr == 'get' and path_of(n.func.value) == p:
            return True
        if isinstance(n, ast.ExceptHandler) and 'KeyError' in ast.dump(n):
            return True
    return False


def own(cls, p, prog):
    """does a class (or one of its bases) give the attribute a value when an
    object is made"""
    seen = set()
    todo = [cls]
    while todo:
        c = todo.pop()
        if c is None or c.name in seen:
            continue
        seen.add(c.name)
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.name in (
                    '__init__', '__new__', '__post_init__') and f.args.args \
                    and stores(f, (f.args.args[0].arg, p)):
                return True
        for b in c.bases:
            n = b.id if isinstance(b, ast.Name) else getattr(b, 'attr', None)
            todo.extend(x for x in prog if x.name == n)
    return False


def shared_defaults(ctx, mod, q, cls, fn):
    a = fn.args
    pos = a.posonlyargs + a.args
    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
        (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    ds = [x.arg for x, d in pairs if mutable(d)]
    if not ds:
        return

    def f():
        for p, n, keyed in changes(fn):
            if p[0] in ds and len(p) == 1 and not stores(fn, p) and \
                    not (keyed and looked_up(fn, p)):
                raise Violation(
                    'line %d changes the default value of "%s", which all '
                    'calls share' % (n.lineno, p[0]))
        # a default kept by an object and changed there
        if cls is None or not fn.args.args:
            return
        me = fn.args.args[0].arg
        for n in ast.walk(fn):
            if not (isinstance(n, ast.Assign) and isinstance(
                    n.value, ast.Name) and n.value.id in ds and
                    not stores(fn, (n.value.id,))):
                continue
            for t in n.targets:
                p = path_of(t)
                if p is None or len(p) != 2 or p[0] != me:
                    continue
                for g in cls.body:
                    if not isinstance(g, ast.FunctionDef) or \
                            not g.args.args:
                        continue
                    for r, w, keyed in changes(g):
                        if r == (g.args.args[0].arg, p[1]):
                            raise Violation(
                                'the default value of "%s" is kept in '
                                'attribute %s (line %d) and changed in line '
                                '%d' % (n.value.id, p[1], n.lineno,
                                        w.lineno))
    ctx.ob('defaults of %s.%s' % (mod, q), f, ctx.where(mod, q))


def shared_attributes(ctx, mod, cls, classes):
    attrs = {}
    for st in cls.body:
        if isinstance(st, ast.Assign) and mutable(st.value):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    attrs[t.id] = st
        elif isinstance(st, ast.AnnAssign) and st.value is not None and \
                mutable(st.value) and isinstance(st.target, ast.Name):
            attrs[st.target.id] = st

    def f():
        for c in classes:
            if c is not cls and not any(
                    (b.id if isinstance(b, ast.Name) else
                     getattr(b, 'attr', None)) == cls.name for b in c.bases):
                continue
            for g in c.body:
                if not isinstance(g, ast.FunctionDef) or not g.args.args:
                    continue
                for p, n, keyed in changes(g):
                    if len(p) != 2 or p[1] not in attrs:
                        continue
                    if p[0] == g.args.args[0].arg and own(
                            c, p[1], classes):
                        continue
                    if keyed and looked_up(g, p):
                        continue
                    raise Violation(
                        'line %d changes %s.%s, which all objects of the '
                        'class share' % (n.lineno, cls.name, p[1]))
    ctx.ob('class attributes of %s.%s' % (mod, cls.name), f,
           ctx.where(mod, cls.name))


def chance(ctx, mod, q, fn):
    """random numbers are drawn where the caller asks for them only"""
    a = fn.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    draws = [n for n in ast.walk(fn) if isinstance(n, ast.Call) and (
        'random' in (path_of(n.func) or ())[:-1])]
    if not draws:
        return

    def f():
        if 'n_samples' in names or 'size' in names:
            return
        if any(isinstance(n, ast.Attribute) and n.attr in (
                'seed', 'default_rng', 'RandomState') for n in ast.walk(fn)):
            raise Undecided('own random generator')
        raise Violation('line %d draws random numbers in a computation that '
                        'is not a sampling' % draws[0].lineno)
    ctx.ob('chance in %s.%s' % (mod, q), f, ctx.where(mod, q))


def identity(ctx, mod, q, fn):
    """addresses do not order anything and are not kept"""
    uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and
            n.id in ('id', 'hash') and isinstance(n.ctx, ast.Load)]
    if not uses or mod == 'diagnostics':
        return

    def f():
        for n in ast.walk(fn):
            if isinstance(n, ast.keyword) and n.arg == 'key' and any(
                    u in uses for u in ast.walk(n.value)):
                raise Violation('line %d orders objects by their address' %
                                n.value.lineno)
            if isinstance(n, (ast.Subscript, ast.Call)):
                keyed = n.slice if isinstance(n, ast.Subscript) else None
                base = n.value if isinstance(n, ast.Subscript) else \
                    n.func.value if isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ('add', 'setdefault', 'append') else None
                if base is None or not isinstance(base, ast.Attribute):
                    continue
                inner = [keyed] if keyed is not None else n.args
                if any(u in uses for x in inner for u in ast.walk(x)):
                    raise Violation(
                        'line %d keeps data under the address of an object, '
                        'which another object may get' % n.lineno)
    ctx.ob('addresses in %s.%s' % (mod, q), f, ctx.where(mod, q))


# ------------------------------------------------- objects of the same class
# make(W) -> object(s); disturb(W): work with another object of the class;
# see(W, object) -> what it is and does
def points(W, dim=1, n=3):
    return W.arr([[Sym.var('p%d%d' % (i, j)) for j in range(dim)]
                  for i in range(n)])


def explicit_make(W):
    return W.new('function', 'Explicit', rule(W, 'g'), dim=1)


def explicit_disturb(W):
    f = W.new('function', 'Explicit', rule(W, 'h'), dim=1)
    W.m(f, 'set_parameters', {'q': 3})
    W.m(f, 'add_rule', rule(W, 'k'), {'p': Sym.var('pp')})
    W.m(f, 'add_rule', rule(W, 'k2'))
    W.m(f, 'set_rules', rule(W, 'k3'), {'q': 2}, 0)
    f2 = W.new('function', 'Explicit', [rule(W, 'h'), rule(W, 'k')],
               parameters={'p': 2}, dim=1)
    W.m(f2, 'set_parameters', {'q': 5}, 1)
    W.m(f2, 'eval', points(W))
    # every way of changing a function, used first on one made by default
    for name, args in (('set_rules', (rule(W, 'k3'), {'q': 2}, 0)),
                       ('set_rules', (rule(W, 'k3'), {'q': 4})),
                       ('set_parameters', ({'q': 3}, 0)),
                       ('set_parameters', ({'q': 3},)),
                       ('add_rule', (rule(W, 'k'), {'p': 3}))):
        f = W.new('function', 'Explicit', rule(W, 'h'), dim=1)
        W.m(f, name, *args)
        W.m(f, 'eval', points(W))


def explicit_see(W, f):
    return [('values', values(W.m(f, 'eval', points(W)))),
            ('number of samples', W.m(f, 'n_samples')),
            ('parameters', [sorted(p) for p in aslist(
                W, W.m(f, 'parameters'))])]


def constant_make(W):
    return W.new('function', 'Constant', Sym.var('c'))


def constant_disturb(W):
    f = W.new('function', 'Constant', W.arr([Sym.var('d'), Sym.var('e')]))
    W.m(f, 'set_data', 7)
    W.m(f, 'eval', points(W))


def constant_see(W, f):
    return [('values', values(W.m(f, 'eval', points(W))))]


def line_of(W, n=2):
    M = linemesh(W, n)
    D = handler(W, 1, M, None, 'Q1', first=(None,))
    return M, D, basis(W, D)


def nodal_make(W):
    M, D, B = line_of(W)
    f = W.new('function', 'Nodal', f=rule(W, 'g'), basis=B)
    g = W.new('function', 'Nodal', f=rule(W, 'g2'), basis=B)
    W.shared = M, D, B
    return f, g


def nodal_disturb(W):
    M, D, B = getattr(W, 'shared', None) or line_of(W)
    f = W.new('function', 'Nodal', data=W.arr([[1, 2], [3, 4], [5, 6]]),
              basis=B)
    W.m(f, 'add_samples', W.arr([[7], [8], [9]]))
    W.m(f, 'eval', W.arr([[F(1, 3)]]))
    M2, D2, B2 = line_of(W, 3)
    W.m(W.new('function', 'Nodal', f=rule(W, 'g'), basis=B2), 'data')


def nodal_see(W, fs):
    return [('data', values(W.m(f, 'data'))) for f in fs]


def shape_make(W):
    return [W.new('fem', 'QuadFE', d, e) for d in (1, 2)
            for e in ('Q1', 'Q2')]


def shape_disturb(W):
    for d, der in ((1, [(0,), (1, 0), (2, 0, 0)]), (2, [(1, 1), (0,)])):
        E = W.new('fem', 'QuadFE', d, 'Q3')
        W.m(E, 'shape', points(W, d), derivatives=list(der))
        W.m(E, 'shape', points(W, d, 1), derivatives=der[-1],
            local_dofs=[0, 1])


def shape_see(W, Es):
    out = []
    for E in Es:
        d = W.m(E, 'dim')
        out.append(('shape functions', values(W.m(
            E, 'shape', points(W, d)))))
        out.append(('derivatives', values(W.m(
            E, 'shape', points(W, d), derivatives=(1, 0)))))
        out.append(('nodes', values(W.m(E, 'reference_nodes'))))
    return out


def rule_make(W):
    g = W.new('assembler', 'GaussRule', 3, shape='interval')
    M, D, B = line_of(W)
    return g, children(W, W.at(M, 'cells'))[0]


def rule_disturb(W):
    g = W.new('assembler', 'GaussRule', 4, shape='quadrilateral')
    M = boxmesh(W, (1, 1))
    c = children(W, W.at(M, 'cells'))[0]
    W.m(g, 'mapped_rule', c, jac_p2r=True, hess_p2r=True)
    g = W.new('assembler', 'GaussRule', 3, shape='interval')
    W.m(g, 'mapped_rule', children(W, W.at(linemesh(W, 3), 'cells'))[1],
        jac_p2r=True)


def rule_see(W, gc):
    g, c = gc
    x, w = aslist(W, W.m(g, 'mapped_rule', c))[:2]
    return [('nodes', values(W.m(g, 'nodes'))),
            ('weights', values(W.m(g, 'weights'))),
            ('mapped nodes', values(x)), ('mapped weights', values(w))]


def problem(W, M, D, B):
    def form(n, **k):
        return W.new('assembler', 'Form', W.new(
            'assembler', 'Kernel', fun(W, n, 1)), **k)
    return W.new('assembler', 'Assembler',
                 [form('a', test=B, trial=B), form('l', test=B)], M,
                 n_gauss=(1, 1))


def assembler_make(W):
    M, D, B = line_of(W)
    for v in (0, 1):
        c = children(W, W.at(M, 'cells'))[-v]
        W.m(aslist(W, W.m(c, 'get_vertices'))[v], 'mark', 'lr'[v])
    W.shared = M, D, B
    A = problem(W, M, D, B)
    W.m(A, 'add_dirichlet', 'l', 2)
    return A


def assembler_disturb(W):
    M, D, B = getattr(W, 'shared', None) or line_of(W)
    A = problem(W, M, D, B)
    W.m(A, 'add_dirichlet', None, 5)
    W.m(A, 'assemble')
    M, D, B = line_of(W, 3)
    W.m(problem(W, M, D, B), 'assemble')


def assembler_see(W, A):
    W.m(A, 'assemble')
    out = []
    for f in aslist(W, W.m(A, 'assembled_forms', i_problem=0))[1:]:
        z = W.m(f, 'aggregate_data')
        out.append(('dofs', [ints(W, q) for q in aslist(W, z['udofs'])]))
        for p in aslist(W, z['array']):
            out.append(('entries', values(dense(p))))
    d = W.m(A, 'get_dirichlet')
    out.append(('Dirichlet data', sorted(int(q) for q in d)))
    return out


def solver_make(W):
    A = assembler_make(W)
    M, D, B = W.shared
    S = W.new('solver', 'LinearSystem', B)
    W.m(S, 'add_dirichlet_constraint', 'l', 2)
    return S


def solver_disturb(W):
    M, D, B = getattr(W, 'shared', None) or line_of(W)
    S = W.new('solver', 'LinearSystem', B)
    for s in 'lr':
        W.m(S, 'add_dirichlet_constraint', s, 5)
    W.m(S, 'set_constraint_relation')


def solver_see(W, S):
    W.m(S, 'set_constraint_relation')
    return [('constraint matrix', values(dense(W.m(S, 'get_C')))),
            ('constraint values', values(dense(W.m(S, 'get_d'))))]


def meshes_make(W):
    return [linemesh(W, 2), boxmesh(W, (2, 1))]


def meshes_disturb(W):
    for dim, M in ((1, linemesh(W, 2)), (2, boxmesh(W, (2, 1)))):
        mark_some(W, dim, M)
        C = W.at(M, 'cells')
        W.m(C, 'refine')
        W.m(M, 'record', 's')
        handler(W, dim, M, 's', 'Q2')


def meshes_see(W, Ms):
    out = []
    for dim, M in zip((1, 2), Ms):
        out += [('cells', [(cell_key(W, c), W.m(c, 'is_marked', 'lab'),
                            W.m(c, 'is_marked', 's'))
                           for c in all_cells(W, M)])]
        out.append(('labelled region', [len(aslist(W, W.m(
            M, 'get_region', flag='lab', entity_type=t)))
            for t in kinds(dim)]))
        D = handler(W, dim, M, None, 'Q1', first=(None,))
        out.append(('dofs', [ints(W, W.m(D, 'get_cell_dofs', c))
                             for c in all_cells(W, M)]))
    return out


def dofs_make(W):
    M = boxmesh(W, (2, 1))
    W.m(W.at(M, 'cells'), 'refine')
    D = handler(W, 2, M, None, 'Q1', first=(None,))
    W.shared = M
    return M, D


def dofs_disturb(W):
    M = getattr(W, 'shared', None) or boxmesh(W, (2, 1))
    for et in ('Q2', 'DQ1', 'Q1'):
        D = handler(W, 2, M, None, et, first=(None,))
        W.m(D, 'set_hanging_nodes')
        W.m(D, 'set_dof_vertices')
        basis(W, D)


def dofs_see(W, MD):
    M, D = MD
    W.m(D, 'set_dof_vertices')
    return [('number of dofs', W.m(D, 'n_dofs')),
            ('dofs', [ints(W, W.m(D, 'get_cell_dofs', c))
                      for c in all_cells(W, M)]),
            ('positions', values(W.m(D, 'get_dof_vertices', list(
                range(int(W.m(D, 'n_dofs')))))))]


def cov(W, **kw):
    from .c17 import make
    M, D, B = line_of(W)
    return make(W, D, **kw)


def kernels_make(W):
    return [cov(W, name='gaussian'), cov(W, name='exponential')]


def kernels_disturb(W):
    cov(W, name='gaussian', parameters={'l': 2, 'sgm': 3})
    cov(W, name='matern', parameters={'sgm': 1, 'l': 5,
                                         'nu': 2})
    K = cov(W, name='exponential', parameters={'l': 3})
    X = symarr('x', 2, 1)
    W.m(W.m(K, 'kernel'), 'eval', (X, symarr('y', 2, 1)))


def kernels_see(W, Ks):
    X, Y = symarr('x', 2, 1), symarr('x', 2, 1)
    Y[0, 0] = Y[0, 0] - Sym.var('h2', True)
    return [('kernel values', values(W.m(W.m(K, 'kernel'), 'eval', (X, Y))))
            for K in Ks]


def fields_make(W):
    return W.new('gmrf', 'GaussianField', 2, covariance=lower(W))


def lower(W):
    L = np.array([[Sym.var('a', True), 0], [Sym.var('b'),
                                            Sym.var('c', True)]], object)
    return W.new('spd', 'CholeskyDecomposition', L.dot(L.T))


def fields_disturb(W):
    X = W.new('gmrf', 'GaussianField', 2, mean=symarr('mu', 2, 1),
              precision=lower(W))
    W.m(X, 'sample', z=symarr('z', 2, 1), mode='precision')
    W.m(X, 'set_mean', symarr('m', 2, 3))


def fields_see(W, X):
    return [('mean', values(W.m(X, 'mean'))),
            ('samples', values(W.m(X, 'sample', z=symarr('z', 2, 2)))),
            ('support', W.m(X, 'support')),
            ('precision', W.m(X, 'precision'))]


def gaussian_world(ctx):
    from .c17 import prepare, spy
    Obj.policy = 0
    W, S = prepare(ctx)
    spy(W)
    S.norms = getattr(S, 'norms', [])
    return W


OBJECTS = [
    ('covariances', kernels_make, kernels_disturb, kernels_see,
     ('gmrf', 'Covariance.set_kernel'), gaussian_world),
    ('fields', fields_make, fields_disturb, fields_see,
     ('gmrf', 'GaussianField.sample'), gaussian_world),
    ('explicit functions', explicit_make, explicit_disturb, explicit_see,
     ('function', 'Explicit.set_rules')),
    ('constants', constant_make, constant_disturb, constant_see,
     ('function', 'Constant.set_data')),
    ('nodal functions', nodal_make, nodal_disturb, nodal_see,
     ('function', 'Nodal.set_data')),
    ('elements', shape_make, shape_disturb, shape_see,
     ('fem', 'FiniteElement.shape')),
    ('quadrature rules', rule_make, rule_disturb, rule_see,
     ('assembler', 'GaussRule.mapped_rule')),
    ('assemblers', assembler_make, assembler_disturb, assembler_see,
     ('assembler', 'Assembler.assemble')),
    ('linear systems', solver_make, solver_disturb, solver_see,
     ('solver', 'LinearSystem.set_constraint_relation')),
    ('meshes', meshes_make, meshes_disturb, meshes_see,
     ('mesh', 'Markable.mark')),
    ('dof handlers', dofs_make, dofs_disturb, dofs_see,
     ('fem', 'DofHandler.distribute_dofs')),
]


def objects(ctx):
    def one(make, disturb, see, when, new):
        def f():
            W = new()
            ref = see(W, make(W))
            W = new()
            if when == 'made before':
                x = make(W)
                disturb(W)
                got = see(W, x)
            elif when == 'made after':
                disturb(W)
                got = see(W, make(W))
            else:
                x = make(W)
                see(W, x)
                disturb(W)
                got = see(W, x)
            compare(ref, got, 'after work with other objects')
        return f
    for name, make, disturb, see, wh, *new in OBJECTS:
        world = new[0] if new else (lambda c: placed(c, 0))
        for when in ('made before', 'made after', 'used before'):
            ctx.ob('independent %s, %s' % (name, when),
                   one(make, disturb, see, when,
                       lambda world=world: world(ctx)), ctx.where(*wh))


def compare(a, b, when):
    if len(a) != len(b):
        raise Violation('%s: %d results instead of %d' % (
            when, len(b), len(a)))
    for (n, x), (k, y) in zip(a, b):
        same(x, y, '%s, %s' % (n, when))


def placed(ctx, p):
    Obj.policy = p
    return World(ctx, assume=oracle())


def run(ctx):
    ctx.parallel = True
    ctx.technique = ('relational abstract interpretation: the same '
                     'computation interpreted under different placements of '
                     'objects in memory (orders of iteration over sets) and '
                     'after other computations, the results compared')
    ctx.explanation = (
        'Meshes, numberings, constraints, systems and functions are computed '
        'several times over the same unknown geometry and data: with the '
        'objects placed differently (sets of objects are visited in another '
        'order), and in an interpreter that has computed something else '
        'before. The results must be equal, numbers included; collections '
        'that the library hands out as sets are compared as sets.')
    ctx.assumptions = ['sets of integers are visited in the order python '
                       'gives them, which does not depend on addresses']

    def one(base, how, coarse, fine, aspect):
        def f():
            ref = None
            try:
                for p in POLICIES:
                    W = placed(ctx, p)
                    r = observe(W, base, how, coarse, fine, aspect)
                    if ref is None:
                        ref = r
                    else:
                        compare(ref, r, 'objects placed differently')
                # again, after another computation in the same program
                W = placed(ctx, 0)
                observe(W, OTHER[base], 'record', 'first', 'last', aspect)
                compare(ref, observe(W, base, how, coarse, fine, aspect),
                        'after another computation')
            finally:
                Obj.policy = 0
        return f
    for m in ctx.prog.modules.values():
        classes = [n for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef)]
        for c in classes:
            shared_attributes(ctx, m.name, c, classes)
    every = {}
    for m in ctx.prog.modules.values():
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef):
                every[m.name, c.name] = c
    for q, mod, c, fn in ctx.prog.functions():
        name = q[len(mod) + 1:]
        cls = every.get((mod, c if isinstance(c, str) else
                         getattr(c, 'name', None)))
        shared_defaults(ctx, mod, name, cls, fn)
        chance(ctx, mod, name, fn)
        identity(ctx, mod, name, fn)

    objects(ctx)
    queries(ctx)
    for base in BASES:
        dim = BASES[base][0]
        for how, coarse, fine in (('record', 'first', 'last'),
                                  ('twice', 'first', 'all'),
                                  ('grown', 'first', 'none'),
                                  ('shrunk', 'first', '')):
            if how != 'record' and base in ('glued', 'star'):
                continue
            for name, asp, wh in ASPECTS:
                if dim == 1 and (name.startswith('hanging') or
                                 name == 'balancing'):
                    continue
                if name == 'balancing' and how != 'record':
                    continue
                if base in ('star', 'glued') and name.split()[0] in (
                        'balancing', 'location', 'functions', 'system'):
                    continue
                ctx.ob('%s: %s, %s %s %s' % (name, base, how, coarse, fine),
                       one(base, how, coarse, fine, asp), ctx.where(*wh))


OTHER = {}
for b in BASES:
    OTHER[b] = 'two intervals' if BASES[b][0] == 2 and 0 else (
        'two squares' if b != 'two squares' else 'one square') \
        if BASES[b][0] == 2 else (
        'two intervals' if b != 'two intervals' else 'one interval')
