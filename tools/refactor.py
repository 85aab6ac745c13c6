"""Behaviour-preserving rewrites of a copy of the sources (development aid:
every check has to stay quiet on the result).

  python3-vt tools/refactor.py KIND[,KIND..] SRC_DIR [probability] [seed]

rewrites SRC_DIR/*.py in place.
"""
import ast
import copy
import glob
import os
import random
import sys

RND = random.Random(1)
PROB = 1.0
COUNT = [0]


def hit():
    ok = RND.random() < PROB
    COUNT[0] += ok
    return ok


_n = [0]


def fresh(p):
    _n[0] += 1
    return '%s_%d' % (p, _n[0])


def walk_own(fn):
    """nodes of a function without those of nested scopes"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                              ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
            todo.extend(ast.iter_child_nodes(n))


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (
        ctx is None or isinstance(x.ctx, ctx))}


def pure(n):
    return not any(isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom,
                                  ast.Await, ast.NamedExpr))
                   for x in ast.walk(n))


def has(n, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(ast.Not(), e)


class Blocks(ast.NodeTransformer):
    """transform statement lists"""

    def block(self, body):
        raise NotImplementedError

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        return n


class ForWhile(Blocks):
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse and hit():
                it, ix = fresh('items'), fresh('at')
                new = ast.parse('%s = list(0)\n%s = 0\n'
                                'while %s < len(%s):\n    q = %s[%s]\n'
                                '    %s += 1' % (it, ix, ix, it, it, ix, ix)
                                ).body
                new[0].value.args[0] = s.iter
                new[2].body[0].targets[0] = s.target
                new[2].body += s.body
                out += new
            else:
                out.append(s)
        return out


class GenLoop(Blocks):
    """for over tuple(...) instead"""

    def block(self, body):
        for s in body:
            if isinstance(s, ast.For) and hit():
                s.iter = ast.Call(ast.Name('iter', ast.Load()), [s.iter], [])
        return body


class CompLoop(Blocks):
    def block(self, body):
        out = []
        for s in body:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                    v, ast.ListComp) and hit():
                acc = fresh('acc')
                inner = [ast.Expr(ast.Call(ast.Attribute(
                    ast.Name(acc, ast.Load()), 'append', ast.Load()),
                    [v.elt], []))]
                ren = {}
                for g in v.generators:
                    for x in names(g.target):
                        ren[x] = fresh('e_' + x)
                wrap = inner
                for k, g in enumerate(reversed(v.generators)):
                    for c in reversed(g.ifs):
                        wrap = [ast.If(c, wrap, [])]
                    wrap = [ast.For(g.target, g.iter, wrap, [], lineno=1)]

                # (the outermost iterable is evaluated in the outer scope)
                first = v.generators[0].iter
                hold = ast.Name('__hold__', ast.Load())
                v.generators[0].iter = hold
                wrap[0].iter = hold

                class R(ast.NodeTransformer):
                    def visit_Name(self, n):
                        n.id = ren.get(n.id, n.id)
                        return n
                wrap = [R().visit(w) for w in wrap]
                wrap[0].iter = first
                out.append(ast.parse('%s = []' % acc).body[0])
                out += wrap
                s.value = ast.Name(acc, ast.Load())
                out.append(s)
            else:
                out.append(s)
        return out


class LoopComp(Blocks):
    def block(self, body):
        out = []
        k = 0
        while k < len(body):
            s = body[k]
            t = body[k + 1] if k + 1 < len(body) else None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name) and isinstance(
                        s.value, ast.List) and not s.value.elts and \
                    isinstance(t, ast.For) and not t.orelse and \
                    len(t.body) == 1:
                x = s.targets[0].id
                b, ifs = t.body[0], []
                while isinstance(b, ast.If) and not b.orelse and \
                        len(b.body) == 1:
                    ifs.append(b.test)
                    b = b.body[0]
                c = getattr(b, 'value', None)
                if isinstance(b, ast.Expr) and isinstance(c, ast.Call) and \
                        isinstance(c.func, ast.Attribute) and \
                        c.func.attr == 'append' and isinstance(
                            c.func.value, ast.Name) and \
                        c.func.value.id == x and len(c.args) == 1 and \
                        x not in names(c.args[0]) | names(t.iter) and \
                        not any(x in names(i) for i in ifs) and hit():
                    s.value = ast.ListComp(c.args[0], [
                        ast.comprehension(t.target, t.iter, ifs, 0)])
                    out.append(s)
                    k += 2
                    continue
            out.append(s)
            k += 1
        return out


class InvertIf(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and hit():
            n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if hit():
            n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
        return n


class Guard(ast.NodeTransformer):
    """the last if of a loop becomes a guard"""

    def visit_For(self, n):
        self.generic_visit(n)
        b = n.body[-1]
        if isinstance(b, ast.If) and not b.orelse and hit():
            n.body = n.body[:-1] + [ast.If(neg(b.test), [ast.Continue()], [])
                                    ] + b.body
        return n
    visit_While = visit_For

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        b = n.body[-1]
        if isinstance(b, ast.If) and not b.orelse and not has(
                n, ast.Yield) and hit():
            n.body = n.body[:-1] + [ast.If(neg(b.test), [ast.Return(None)],
                                           [])] + b.body
        return n


class SplitAnd(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(
                n.test.op, ast.And) and hit():
            v = n.test.values
            rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
            return ast.If(v[0], [ast.If(rest, n.body, [])], [])
        return n


class FlatElse(Blocks):
    """else after a return dropped"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Raise, ast.Continue)) \
                    and hit():
                rest, s.orelse = s.orelse, []
                out += [s] + rest
            else:
                out.append(s)
        return out


class Temp(Blocks):
    """values named before they are returned / used as first argument"""

    def block(self, body):
        out = []
        for s in body:
            v = getattr(s, 'value', None)
            if isinstance(s, ast.Return) and v is not None and not isinstance(
                    v, (ast.Name, ast.Constant)) and hit():
                t = fresh('result')
                out.append(ast.parse('%s = 0' % t).body[0])
                out[-1].value = v
                s.value = ast.Name(t, ast.Load())
            elif isinstance(s, (ast.Assign, ast.Expr)) and isinstance(
                    v, ast.Call) and v.args and pure(v.func) and isinstance(
                        v.args[0], (ast.Call, ast.BinOp, ast.ListComp,
                                    ast.Subscript)) and hit():
                t = fresh('arg')
                out.append(ast.parse('%s = 0' % t).body[0])
                out[-1].value = v.args[0]
                v.args[0] = ast.Name(t, ast.Load())
            elif isinstance(s, ast.If) and not isinstance(
                    s.test, ast.Name) and hit():
                t = fresh('cond')
                out.append(ast.parse('%s = 0' % t).body[0])
                out[-1].value = s.test
                s.test = ast.Name(t, ast.Load())
            elif isinstance(s, ast.For) and not isinstance(
                    s.iter, ast.Name) and hit():
                t = fresh('seq')
                out.append(ast.parse('%s = 0' % t).body[0])
                out[-1].value = s.iter
                s.iter = ast.Name(t, ast.Load())
            out.append(s)
        return out


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        if has(ast.Module(n.body, []), ast.FunctionDef, ast.Lambda,
               ast.Global, ast.Nonlocal, ast.ClassDef):
            return n
        par = {a.arg for a in n.args.args + n.args.kwonlyargs +
               n.args.posonlyargs}
        for a in (n.args.vararg, n.args.kwarg):
            if a:
                par.add(a.arg)
        loc = {x for b in n.body for x in names(b, (ast.Store, ast.Del))} \
            - par
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc and not \
                    x.id.startswith('__'):
                x.id = x.id + '_'
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name += '_'
        COUNT[0] += 1
        return n


class AssertRaise(ast.NodeTransformer):
    def visit_Assert(self, n):
        if not hit():
            return n
        msg = [n.msg] if n.msg else []
        return ast.If(neg(n.test), [ast.Raise(ast.Call(ast.Name(
            'AssertionError', ast.Load()), msg, []), None)], [])


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
        ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is,
        ast.IsNot: ast.IsNot}


class FlipCmp(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP and not isinstance(
                n.comparators[0], ast.Constant) and hit():
            return ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()],
                               [n.left])
        return n


class NotCmp(ast.NodeTransformer):
    """a is not None -> not (a is None), a in b -> not a not in b"""
    M = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.In: ast.NotIn,
         ast.Is: ast.IsNot}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and hit():
            return ast.UnaryOp(ast.Not(), ast.Compare(
                n.left, [self.M[type(n.ops[0])]()], n.comparators))
        return n


class IsInst(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and \
                pure(n.args[0]) and hit():
            t = n.args[1]
            if isinstance(t, ast.Tuple):
                return ast.BoolOp(ast.Or(), [ast.Call(
                    ast.Name('isinstance', ast.Load()),
                    [copy.deepcopy(n.args[0]), e], []) for e in t.elts])
            n.args[1] = ast.Tuple([t], ast.Load())
        return n


class Untuple(Blocks):
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Tuple) and isinstance(
                        s.value, ast.Tuple) and all(
                            isinstance(x, ast.Name) for x in
                            s.targets[0].elts) and len(
                                s.value.elts) == len(s.targets[0].elts) and \
                    not names(s.targets[0]) & names(s.value) and hit():
                for a, b in zip(s.targets[0].elts, s.value.elts):
                    out.append(ast.Assign([a], b, lineno=1))
            else:
                out.append(s)
        return out


def simple(s):
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
        s.targets[0], ast.Name) and pure(s.value)


class Swap(Blocks):
    """adjacent independent assignments change places"""

    def block(self, body):
        k = 0
        while k + 1 < len(body):
            a, b = body[k], body[k + 1]
            if simple(a) and simple(b) and a.targets[0].id not in names(b) \
                    and b.targets[0].id not in names(a) and hit():
                body[k], body[k + 1] = b, a
                k += 1
            k += 1
        return body


class Methods(ast.NodeTransformer):
    """undecorated methods in reverse order"""

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        ix = [k for k, s in enumerate(n.body)
              if isinstance(s, ast.FunctionDef) and not s.decorator_list]
        nm = [n.body[k].name for k in ix]
        if len(set(nm)) == len(nm):
            new = [n.body[k] for k in reversed(ix)]
            for k, s in zip(ix, new):
                n.body[k] = s
            COUNT[0] += 1
        return n


class NoDoc(ast.NodeTransformer):
    def visit(self, n):
        self.generic_visit(n)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            n.body = [s for s in n.body if not (
                isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            )] or [ast.Pass()]
        return n


class AugPlain(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(
                n.value, ast.Constant) and hit():
            return ast.Assign([n.target], ast.BinOp(ast.Name(
                n.target.id, ast.Load()), n.op, n.value), lineno=1)
        return n


class IfExpStmt(Blocks):
    def block(self, body):
        out = []
        for s in body:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                    v, ast.IfExp) and hit():
                a, b = copy.deepcopy(s), copy.deepcopy(s)
                a.value, b.value = v.body, v.orelse
                out.append(ast.If(v.test, [a], [b]))
            else:
                out.append(s)
        return out


class StmtIfExp(Blocks):
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and len(s.body) == 1 and \
                    len(s.orelse) == 1:
                a, b = s.body[0], s.orelse[0]
                if type(a) is type(b) and isinstance(
                        a, (ast.Assign, ast.Return)) and a.value is not None \
                        and b.value is not None and (
                            isinstance(a, ast.Return) or [ast.unparse(x) for
                                                          x in a.targets] ==
                            [ast.unparse(x) for x in b.targets]) and hit():
                    a.value = ast.IfExp(s.test, a.value, b.value)
                    out.append(a)
                    continue
            out.append(s)
        return out


class Enum(ast.NodeTransformer):
    """for i in range(len(x)) -> for i, _ in enumerate(x)"""

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and getattr(
                n.iter.func, 'id', '') == 'range' and len(
                    n.iter.args) == 1 and isinstance(
                        n.iter.args[0], ast.Call) and getattr(
                            n.iter.args[0].func, 'id', '') == 'len' and hit():
            n.iter = ast.Call(ast.Name('enumerate', ast.Load()),
                              n.iter.args[0].args, [])
            n.target = ast.Tuple([n.target, ast.Name(fresh('u'),
                                                     ast.Store())],
                                 ast.Store())
        return n


class Indexed(ast.NodeTransformer):
    """for i, x in enumerate(s) -> for i in range(len(s)): x = s[i]"""

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and getattr(
                n.iter.func, 'id', '') == 'enumerate' and isinstance(
                    n.iter.args[0], ast.Name) and isinstance(
                        n.target, ast.Tuple) and len(n.iter.args) == 1 and \
                isinstance(n.target.elts[0], ast.Name) and hit():
            s = n.iter.args[0].id
            h = fresh('held')
            i = n.target.elts[0].id
            a = ast.parse('x = %s[%s]' % (s, i)).body[0]
            a.targets[0] = n.target.elts[1]
            n.target = n.target.elts[0]
            n.iter = ast.parse('range(len(%s))' % s).body[0].value
            n.body = [a] + n.body
        return n


class AnyGen(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if getattr(n.func, 'id', '') in ('any', 'all', 'sum', 'set', 'sorted',
                                         'list', 'tuple', 'max', 'min') and \
                len(n.args) == 1 and hit():
            if isinstance(n.args[0], ast.ListComp):
                n.args[0] = ast.GeneratorExp(n.args[0].elt,
                                             n.args[0].generators)
            elif isinstance(n.args[0], ast.GeneratorExp):
                n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
        return n


class Extract(ast.NodeTransformer):
    """expressions of methods become methods of their own; those of
    functions become functions"""

    def __init__(self, what):
        self.what = what
        self.cls = None
        self.fn = None

    def visit_ClassDef(self, n):
        old, self.cls = self.cls, n
        self.extra = []
        self.generic_visit(n)
        n.body += self.extra
        self.extra = []
        self.cls = old
        return n

    def visit_FunctionDef(self, n):
        if self.fn is not None or n.decorator_list:
            return n
        if self.cls is not None and (not n.args.args or
                                     n.args.args[0].arg != 'self'):
            return n
        if has(ast.Module(n.body, []), ast.Lambda, ast.FunctionDef,
               ast.ClassDef, ast.Global):
            return n
        self.fn = n
        a = n.args
        self.loc = {x.arg for x in a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                self.loc.add(x.arg)
        for b in n.body:
            self.loc |= names(b, ast.Store)
        n.body = [self.visit(b) for b in n.body]
        self.fn = None
        return n

    def out(self, e):
        if has(e, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Starred) or \
                isinstance(e, (ast.Name, ast.Constant)) or any(
                    isinstance(x, ast.Name) and x.id in ('super', 'locals')
                    for x in ast.walk(e)) or not hit():
            return e
        inner = set()
        for x in ast.walk(e):
            if isinstance(x, ast.comprehension):
                inner |= names(x.target)
        use = sorted((names(e) & self.loc) - inner - {'self'})
        if names(e) & self.loc & inner:
            return e
        f = fresh('_part')
        if self.cls is None:
            src = 'def %s(%s):\n    return 0' % (f, ', '.join(use))
            call = '%s(%s)' % (f, ', '.join(use))
        else:
            src = 'def %s(%s):\n    return 0' % (f, ', '.join(['self'] + use))
            call = 'self.%s(%s)' % (f, ', '.join(use))
        d = ast.parse(src).body[0]
        d.body[0].value = e
        if self.cls is None:
            self.mod.append(d)
        else:
            self.extra.append(d)
        return ast.parse(call).body[0].value

    def visit_Module(self, n):
        self.mod = []
        self.generic_visit(n)
        n.body += self.mod
        return n

    def visit_Return(self, n):
        if self.fn is not None and self.what == 'ret' and n.value is not None:
            n.value = self.out(n.value)
        return n

    def visit_Assign(self, n):
        if self.fn is not None and self.what == 'assign':
            n.value = self.out(n.value)
        return n

    def visit_If(self, n):
        if self.fn is not None and self.what == 'test':
            n.test = self.out(n.test)
        self.generic_visit(n)
        return n


class Closure(ast.NodeTransformer):
    """branches and loop bodies become local functions"""

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) for b in n.body]
        return n

    def visit_FunctionDef(self, n):
        if has(ast.Module(n.body, []), ast.FunctionDef, ast.Lambda,
               ast.ClassDef, ast.Global, ast.Yield) or n.decorator_list:
            return n
        cnt = {}
        a = n.args
        for x in a.args + a.kwonlyargs:
            cnt[x.arg] = 1
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    cnt[x.id] = cnt.get(x.id, 0) + 1
        self.fnstores = cnt
        self.body(n)
        return n

    def body(self, n):
        for s in ast.walk(n):
            if isinstance(s, (ast.If, ast.For)):
                b = s.body
                m = ast.Module(b, [])
                if len(b) < 2 or has(m, ast.Return, ast.Break, ast.Continue,
                                     ast.FunctionDef, ast.Delete,
                                     ast.Import, ast.ImportFrom):
                    continue
                if isinstance(s, ast.For) and has(m, ast.For, ast.If) and 0:
                    continue
                st = {}
                comp = set()
                for x in ast.walk(m):
                    if isinstance(x, ast.comprehension):
                        comp |= names(x.target)
                    if isinstance(x, ast.Name) and isinstance(x.ctx,
                                                              ast.Store):
                        st[x.id] = st.get(x.id, 0) + 1
                if set(st) & comp:
                    continue
                if not all(self.fnstores.get(k, 0) > v
                           for k, v in st.items()):
                    # bound only here: local unless used elsewhere
                    continue
                if not hit():
                    continue
                for k, v in st.items():
                    self.fnstores[k] -= v
                f = fresh('_step')
                d = ast.parse('def %s():\n    pass' % f).body[0]
                d.body = ([ast.Nonlocal(sorted(st))] if st else []) + b
                s.body = [d, ast.Expr(ast.Call(ast.Name(f, ast.Load()), [],
                                               []))]


class DType(ast.NodeTransformer):
    """np.zeros(n) -> np.zeros(shape=n, dtype=float)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in (
                'zeros', 'ones', 'empty') and len(n.args) == 1 and not \
                n.keywords and getattr(n.func.value, 'id', '') == 'np' \
                and hit():
            n.keywords = [ast.keyword('shape', n.args[0]),
                          ast.keyword('dtype', ast.Name('float',
                                                        ast.Load()))]
            n.args = []
        return n


class Matmul(ast.NodeTransformer):
    """len(x) == 0 -> not len(x), x == [] ..; [] -> list(); {} -> dict()"""

    def visit_List(self, n):
        self.generic_visit(n)
        if not n.elts and isinstance(n.ctx, ast.Load) and hit():
            return ast.Call(ast.Name('list', ast.Load()), [], [])
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys and hit():
            return ast.Call(ast.Name('dict', ast.Load()), [], [])
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(
                k.value, str) and k.value.isidentifier() and k.value not in (
                    'from', 'in') for k in n.keys) and hit():
            return ast.Call(ast.Name('dict', ast.Load()), [], [
                ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n


class ExtendLoop(Blocks):
    """x.append(v) -> x += [v] where x is a local name; x.extend(y)"""

    def block(self, body):
        out = []
        for s in body:
            v = getattr(s, 'value', None)
            if isinstance(s, ast.Expr) and isinstance(v, ast.Call) and \
                    isinstance(v.func, ast.Attribute) and \
                    v.func.attr == 'append' and len(v.args) == 1 and hit():
                v.func.attr = 'extend'
                v.args = [ast.List([v.args[0]], ast.Load())]
            out.append(s)
        return out


KINDS = {
    'forwhile': ForWhile, 'iter': GenLoop, 'comploop': CompLoop,
    'loopcomp': LoopComp, 'invert': InvertIf, 'guard': Guard,
    'splitand': SplitAnd, 'flat': FlatElse, 'temp': Temp, 'rename': Rename,
    'assert': AssertRaise, 'flip': FlipCmp, 'notcmp': NotCmp,
    'isinst': IsInst, 'untuple': Untuple, 'swap': Swap, 'methods': Methods,
    'nodoc': NoDoc, 'aug': AugPlain, 'ifexp': IfExpStmt, 'stmtif': StmtIfExp,
    'enum': Enum, 'indexed': Indexed, 'anygen': AnyGen,
    'xret': lambda: Extract('ret'), 'xassign': lambda: Extract('assign'),
    'xtest': lambda: Extract('test'), 'closure': Closure, 'dtype': DType,
    'ctor': Matmul, 'extend': ExtendLoop,
}


def main():
    global PROB
    kinds = sys.argv[1].split(',')
    src = sys.argv[2]
    PROB = float(sys.argv[3]) if len(sys.argv) > 3 else 1.0
    RND.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    for f in sorted(glob.glob(os.path.join(src, '*.py'))):
        t = ast.parse(open(f).read())
        for k in kinds:
            COUNT[0] = 0
            t = KINDS[k]().visit(t)
            ast.fix_missing_locations(t)
            print(os.path.basename(f), k, COUNT[0])
        with open(f, 'w') as g:
            g.write(ast.unparse(t) + '\n')


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    main()
