"""Interprocedural effect analysis: which arguments may a call modify?

An abstract value is a pair (top, deep) of sets of atoms.  ``top`` tells what
the value itself may be, ``deep`` what may be reached from it.  An atom is
(root, level): root is the index of a parameter or 'G:<module>.<name>' for a
module-level object; level 0 is the object itself, 1 anything reachable from
it.  Fresh values have no atoms.  A function summary lists the atoms it may
modify and the atoms of its result; summaries are computed to a fixed point
over the whole program.  Methods are dispatched on the class when it is known
(self, constructors) and over all classes defining the name otherwise.
"""
import ast
import copy

from . import resolve
from .resolve import FUNC, COMP, ClassInfo, mangle

EMPTY = frozenset()

# methods of builtin containers, arrays and sparse matrices that modify the
# object they are called on
MUTATORS = {
    'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
    'reverse', 'update', 'add', 'discard', 'setdefault', 'popitem',
    'appendleft', 'popleft', 'extendleft', 'rotate', 'fill', 'resize',
    'put', 'itemset', 'partition', 'setdiag', 'setflags', 'eliminate_zeros',
    'sum_duplicates', 'sort_indices', 'prune', 'difference_update',
    'intersection_update', 'symmetric_difference_update', 'byteswap',
    '__setitem__', '__delitem__', '__setattr__', 'cholesky_inplace',
    'shuffle_inplace'}
LIST_ONLY = {'append', 'extend', 'insert', 'remove', 'pop', 'clear',
             'reverse', 'sort'}
# results that are the object itself (or a view of it)
SAME = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d',
        'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes', 'moveaxis',
        'view', 'ascontiguousarray', 'diagonal', 'expand_dims',
        'broadcast_to'}
SAME_ATTR = {'T', 'flat', 'real', 'imag', 'A1'}
SCALAR_ATTR = {'shape', 'size', 'ndim', 'dtype', 'nnz', '__class__',
               '__name__', '__doc__'}
# results that are new containers of the same elements
SHALLOW = {'list', 'tuple', 'set', 'sorted', 'reversed', 'enumerate', 'zip',
           'frozenset', 'dict', 'iter', 'filter', 'deque'}
SHALLOW_METH = {'items', 'values', 'keys', 'copy', 'union', 'intersection',
                'difference', '__iter__', 'symmetric_difference'}
ELEMENT = {'next', 'min', 'max', 'getattr'}
ELEMENT_METH = {'get', 'pop', 'popleft', 'popitem', 'setdefault',
                '__getitem__', '__next__', 'item'}
# external functions modifying an argument: name -> position
EXT_MUTATE = {'fill_diagonal': 0, 'put': 0, 'copyto': 0, 'place': 0,
              'putmask': 0, 'shuffle': 0, 'heappush': 0, 'heappop': 0,
              'heapify': 0, 'setattr': 0, 'delattr': 0, 'insort': 0,
              'put_along_axis': 0, 'setitem': 0}


class Val(object):
    __slots__ = ('top', 'deep', 'cls', 'arr', 'elem')

    def __init__(self, top=EMPTY, deep=EMPTY, cls=None, arr=None, elem=None):
        self.top = top
        self.deep = deep
        self.cls = cls            # list of ClassInfo when known
        self.arr = arr            # 'list' | 'array' | 'scalar' | 'slice'
        self.elem = elem          # value of the parts, when known

    def key(self):
        return (self.top, self.deep, tuple(c.key for c in self.cls or ()),
                self.arr, self.elem.key() if self.elem is not None else None)

    def join(self, o):
        if self is o:
            return self
        if o is FRESH and self.fresh() and o.fresh():
            pass
        return Val(self.top | o.top, self.deep | o.deep,
                   None if self.cls is None or o.cls is None else
                   self.cls + [c for c in o.cls if c not in self.cls],
                   self.arr if self.arr == o.arr else None,
                   self.joinelem(o))

    def joinelem(self, o):
        """parts of the join; None (= anything reachable) if unknown"""
        if self.elem is not None and o.elem is not None:
            return self.elem.join(o.elem)
        if self.elem is not None and not o.deep and not o.top:
            return self.elem
        if o.elem is not None and not self.deep and not self.top:
            return o.elem
        return None

    def fresh(self):
        return not self.top

    def part(self):
        if self.elem is not None:
            return self.elem
        return Val(self.deep, self.deep)

    def all(self):
        return self.top | self.deep

    def put(self, depth, v):
        """a part at the given depth may now be v"""
        if self.top:              # parts of arguments are not tracked
            return self
        if depth == 0:
            e = v if self.elem is None and not self.deep else (
                self.elem.join(v) if self.elem is not None else None)
        else:
            e = self.elem.put(depth - 1, v) if self.elem is not None \
                else None
            if e is None and not self.deep:
                e = Val(EMPTY, v.all())
        return Val(EMPTY, self.deep | v.all(), self.cls, self.arr,
                   limit(e, 4))

    def subst(self, sub):
        top = deep = EMPTY
        for at in self.top:
            top |= sub(at)
        for at in self.deep:
            deep |= sub(at)
        return Val(top, deep, self.cls, self.arr,
                   self.elem.subst(sub) if self.elem is not None else None)


def limit(v, n):
    if v is None:
        return None
    if n == 0:
        return Val(v.top, v.deep, v.cls, v.arr)
    if v.elem is None:
        return v
    return Val(v.top, v.deep, v.cls, v.arr, limit(v.elem, n - 1))


def owned(v):
    """a field's value as seen from the instance: containers created by the
    instance belong to it (level 0), anything else is reachable (level 1)"""
    if v.top:
        return Val(frozenset([(0, 1)]), frozenset([(0, 1)]), v.cls, v.arr)
    return Val(frozenset([(0, 0)]), frozenset([(0, 1)]), v.cls, v.arr,
               owned(v.elem) if v.elem is not None else None)


def fresh(parts, arr=None):
    """a new container with the given parts"""
    d, e = EMPTY, None
    for x in parts:
        d |= x.all()
        e = x if e is None else e.join(x)
    return Val(EMPTY, d, None, arr, limit(e, 4) if e is not None else None)


FRESH = Val()
SCALAR = Val(arr='scalar')


class Summary(object):
    def __init__(self):
        self.mut = {}             # atom -> (line, text)
        self.ret = None

    def state(self):
        return (frozenset(self.mut),
                self.ret.key() if self.ret is not None else None)


class Effects(object):
    def __init__(self, prog, memo=(), known=None):
        # queries that compute and keep what they return at the first call:
        # what they store in their own object is no effect of their callers
        self.memo = memo
        # functions whose effects are asked for; all others (new helpers)
        # are analysed in the context of each call
        self.known = known
        self.repo = resolve.Repo(prog)
        self.scopes = resolve.function_scopes(self.repo)
        self.by_node = dict((s.node, s) for s in self.scopes)
        self.sum = dict((s.node, Summary()) for s in self.scopes)
        self.borrowed = {}        # field -> {(function, parameter, level)}
        self.calls = 0
        self.stores = 0
        for m in self.repo.modules.values():
            m.mutable = set()
            for st in m.tree.body:
                if isinstance(st, ast.Assign) and isinstance(
                        st.value, (ast.List, ast.Dict, ast.Set, ast.Call,
                                   ast.ListComp, ast.DictComp)):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.mutable.add(t.id)
        self.fields = {}          # field -> value stored in it
        self.run()

    def field(self, f, v):
        v = limit(v, 4)
        old = self.fields.get(f)
        new = v if old is None else limit(old.join(v), 4)
        if old is None or new.key() != old.key():
            self.fields[f] = new
            self.changed = True

    def run(self):
        for rnd in range(30):
            self.changed = False
            self.calls = self.stores = 0
            for s in self.scopes:
                old = self.sum[s.node].state()
                FnAnalysis(self, s).run()
                if self.sum[s.node].state() != old:
                    self.changed = True
            if not self.changed:
                self.rounds = rnd + 1
                return
        self.rounds = rnd + 1


class FnAnalysis(object):
    def __init__(self, eff, scope, caller=None):
        self.eff = eff
        self.repo = eff.repo
        self.s = scope
        self.root = self if caller is None else caller.root
        self.stack = [scope.node] if caller is None else \
            caller.stack + [scope.node]
        self.sum = eff.sum[self.root.s.node]
        self.module = scope.module
        a = scope.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg is not None:
            self.params.append(a.vararg.arg)
        self.params += [x.arg for x in a.kwonlyargs]
        if a.kwarg is not None:
            self.params.append(a.kwarg.arg)
        d = resolve.decorators(scope.node)
        self.is_method = scope.cls is not None and 'staticmethod' not in d
        self.classmethod = 'classmethod' in d

    def run(self):
        env = {}
        for k, p in enumerate(self.params):
            v = Val(frozenset([(k, 0)]), frozenset([(k, 1)]))
            if k == 0 and self.is_method and not self.classmethod:
                v.cls = [self.s.cls]
            env[p] = v
        a = self.s.node.args
        for x in (a.vararg, a.kwarg):
            if x is not None:      # the container itself is fresh
                k = self.params.index(x.arg)
                env[x.arg] = Val(EMPTY, frozenset([(k, 1)]))
        self.ret = None
        self.brk, self.cnt = [], []
        self.conds = {}
        self.closures, self.inside = {}, []
        self.block(self.s.node.body, env)
        if self.ret is not None:
            self.sum.ret = limit(self.ret if self.sum.ret is None else
                                 self.sum.ret.join(self.ret), 4)

    # ------------------------------------------------------------ effects
    def mutate(self, atoms, node, text):
        for at in atoms:
            if at not in self.sum.mut:
                self.sum.mut[at] = (node.lineno, text)

    # --------------------------------------------------------- statements
    @staticmethod
    def joinenv(a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = dict(a)
        for k, v in b.items():
            out[k] = out[k].join(v) if k in out else v
        return out

    def block(self, body, env):
        for st in body:
            if env is None:
                return None
            env = self.stmt(st, env)
        return env

    def stmt(self, s, env):
        self.eff.stores += 1
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s.value)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s.value)
            return env
        if isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                cur = self.name(t.id, env)
                if cur.top and self.inplace(cur, v, s, env):
                    self.mutate(cur.top, s, '%s is changed in place'
                                % ast.unparse(s)[:60])
                    env[t.id] = cur
                else:
                    env[t.id] = Val(EMPTY, cur.deep | v.deep, None, cur.arr)
            else:
                self.assign(t, v, env, s.value)
            return env
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return env
        if isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(s.value, env)
                self.ret = v if self.ret is None else self.ret.join(v)
            return None
        if isinstance(s, ast.Raise):
            for c in ast.iter_child_nodes(s):
                self.ev(c, env)
            return None
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            return self.joinenv(self.block(s.body, self.narrow(
                s.test, dict(env), True)), self.block(
                    s.orelse, self.narrow(s.test, dict(env), False)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            for_ = not isinstance(s, ast.While)
            it = self.ev(s.iter, env) if for_ else None
            cur = dict(env)
            brks = []
            for _ in range(8):
                before = dict((k, v.key()) for k, v in cur.items())
                inner = dict(cur)
                if for_:
                    self.assign(s.target, it.part(), inner, None)
                else:
                    self.ev(s.test, inner)
                self.brk.append([])
                self.cnt.append([])
                out = self.block(s.body, inner)
                for c in self.cnt.pop():
                    out = self.joinenv(out, c)
                brks += self.brk.pop()
                cur = self.joinenv(cur, out)
                if dict((k, v.key()) for k, v in cur.items()) == before:
                    break
            end = self.block(s.orelse, cur) if s.orelse else cur
            if not for_ and isinstance(s.test, ast.Constant) and \
                    s.test.value:
                end = None
            for b in brks:
                end = self.joinenv(end, b)
            return end
        if isinstance(s, ast.Break):
            if self.brk:
                self.brk[-1].append(dict(env))
            return None
        if isinstance(s, ast.Continue):
            if self.cnt:
                self.cnt[-1].append(dict(env))
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, None)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            start = dict(env)
            a = self.block(s.body, dict(env))
            mid = self.joinenv(start, a)
            if s.orelse and a is not None:
                a = self.block(s.orelse, a)
            for h in s.handlers:
                e = dict(mid)
                if h.name:
                    e[h.name] = FRESH
                a = self.joinenv(a, self.block(h.body, e))
            if s.finalbody:
                f = self.block(s.finalbody, a if a is not None else mid)
                return f if a is not None else None
            return a
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    v = self.ev(t.value, env)
                    self.mutate(v.top, s, 'del ' + ast.unparse(t)[:60])
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
            return env
        if isinstance(s, FUNC):
            # executed with the variables it captures
            inner = dict(env)
            a = s.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                inner[x.arg] = FRESH
            for x in (a.vararg, a.kwarg):
                if x is not None:
                    inner[x.arg] = FRESH
            env[s.name] = FRESH
            self.closures[s.name] = s
            if self.only_called(s.name):
                return env             # its body counts where it is called
            self.local(s, inner)
            return env
        if isinstance(s, ast.Match):
            v = self.ev(s.subject, env)
            out = dict(env)
            for c in s.cases:
                e = dict(env)
                for x in ast.walk(c.pattern):
                    for f in ('name', 'rest'):
                        n = getattr(x, f, None)
                        if isinstance(n, str):
                            e[n] = v.join(v.part())
                out = self.joinenv(out, self.block(c.body, e))
            return out
        if isinstance(s, ast.Assert):
            self.ev(s.test, env)
            self.narrow(s.test, env, True)
            return env
        return env

    def only_called(self, name):
        n_load = n_call = 0
        for n in ast.walk(self.s.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(
                    n.ctx, ast.Load):
                n_load += 1
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == name:
                n_call += 1
        return n_load == n_call

    def local(self, fn, inner):
        """run the body of a local function: (its result, end state)"""
        keep, self.ret = self.ret, None
        b, c = self.brk, self.cnt
        self.brk, self.cnt = [], []
        self.inside.append(fn)
        end = self.block(fn.body, inner)
        self.inside.pop()
        self.brk, self.cnt = b, c
        r, self.ret = self.ret, keep
        return r, end

    def call_local(self, fn, args, kws, env):
        inner = dict(env)
        a = fn.args
        pos = a.posonlyargs + a.args
        for x in pos + a.kwonlyargs:
            inner[x.arg] = kws.get(x.arg, FRESH)
        for x, v in zip(pos, args):
            inner[x.arg] = v
        for x in (a.vararg, a.kwarg):
            if x is not None:
                inner[x.arg] = fresh([Val(EMPTY, v.all()) for v in
                                      list(args) + list(kws.values())])
        r, end = self.local(fn, inner)
        if end is not None:
            for n in ast.walk(fn):
                if isinstance(n, ast.Nonlocal):
                    for x in n.names:
                        if x in end:
                            env[x] = end[x] if end is not None else env[x]
        return r if r is not None else FRESH

    def meaning(self, test, env, depth=0):
        """the test a condition stands for: variables that hold one and
        functions that consist of returning one are replaced"""
        if depth > 4:
            return test
        if isinstance(test, ast.Name) and test.id in self.conds:
            t, held = self.conds[test.id]
            if all(x in env and env[x].key() == k for x, k in held):
                return t
        if isinstance(test, ast.Call) and not test.keywords and not any(
                isinstance(a, ast.Starred) for a in test.args):
            f, fn, args = test.func, None, list(test.args)
            if isinstance(f, ast.Attribute) and isinstance(
                    f.value, ast.Name) and self.s.cls is not None and \
                    self.is_method and f.value.id == self.params[0]:
                m = self.s.cls.find_method(f.attr)
                if m is not None and not m.node.decorator_list and len(
                        [c for c in self.s.cls.descendants()
                         if f.attr in c.methods]) <= 1:
                    fn, args = m.node, [f.value] + args
            elif isinstance(f, ast.Name) and f.id in self.closures:
                fn = self.closures[f.id]
            elif isinstance(f, ast.Name) and self.s.owner(f.id) is None and \
                    f.id in self.module.globals:
                k, p = self.repo.deref(self.module.globals[f.id])
                if k == 'func' and isinstance(p, ast.FunctionDef):
                    fn = p
            if fn is not None:
                body = [b for b in fn.body if not (
                    isinstance(b, ast.Expr) and
                    isinstance(b.value, ast.Constant))]
                a = fn.args
                if len(body) == 1 and isinstance(body[0], ast.Return) and \
                        body[0].value is not None and a.vararg is None and \
                        not a.kwonlyargs and len(a.args) == len(args):
                    sub = dict(zip([x.arg for x in a.args], args))

                    class Put(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return sub.get(n.id, n)
                    return self.meaning(Put().visit(copy.deepcopy(
                        body[0].value)), env, depth + 1)
        return test

    def narrow(self, test, env, positive):
        """isinstance / None tests"""
        test = self.meaning(test, env)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, env, not positive)
        if isinstance(test, ast.BoolOp) and isinstance(
                test.op, ast.And) and positive:
            for v in test.values:
                env = self.narrow(v, env, True)
            return env
        if isinstance(test, ast.BoolOp) and isinstance(
                test.op, ast.Or) and not positive:
            for v in test.values:
                env = self.narrow(v, env, False)
            return env
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, ast.Name) and isinstance(
                    test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None and test.left.id in env:
            if isinstance(test.ops[0], ast.Is) and positive or \
                    isinstance(test.ops[0], ast.IsNot) and not positive:
                env[test.left.id] = SCALAR
            return env
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) \
                and test.func.id == 'isinstance' and len(test.args) == 2 and \
                isinstance(test.args[0], ast.Name) and positive:
            n = test.args[0].id
            ts = test.args[1].elts if isinstance(
                test.args[1], ast.Tuple) else [test.args[1]]
            names = set(ast.unparse(t).split('.')[-1] for t in ts)
            if n in env and names <= {'Number', 'Real', 'Integral', 'int',
                                      'float', 'str', 'bool', 'tuple'}:
                env[n] = SCALAR
            elif n in env:
                cs = [self.repo.resolve_static(self.module, t) for t in ts]
                if all(isinstance(c, ClassInfo) for c in cs):
                    v = env[n]
                    env[n] = Val(v.top, v.deep, cs, v.arr)
        return env

    def inplace(self, cur, v, s, env):
        """does ``x op= v`` modify the object x refers to?"""
        if cur.arr == 'scalar' or isinstance(s.value, ast.Constant) and \
                isinstance(s.value.value, str):
            return False
        if cur.cls:
            return any(c.find_method('__iadd__') for c in cur.cls)
        if isinstance(s.value, (ast.Tuple, ast.JoinedStr)):
            return False
        if v.arr in ('list', 'array') or isinstance(
                s.value, (ast.List, ast.ListComp)):
            return True
        return cur.arr in ('list', 'array') or \
            self.arraylike(s.target.id) or (
                isinstance(s.value, ast.Name) and
                self.arraylike(s.value.id))

    def arraylike(self, name):
        """is the variable used as a list or array in this function?"""
        if not hasattr(self, '_arr'):
            self._arr = set()
            for n in ast.walk(self.s.node):
                if isinstance(n, ast.Subscript) and isinstance(
                        n.value, ast.Name):
                    self._arr.add(n.value.id)
                elif isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.attr in (
                            'shape', 'append', 'extend', 'sort', 'T', 'dot',
                            'ravel', 'reshape', 'ndim', 'size', 'fill',
                            'remove', 'pop', 'reverse', 'insert', 'toarray',
                            'tolist'):
                    self._arr.add(n.value.id)
                elif isinstance(n, (ast.For, ast.comprehension)) and \
                        isinstance(n.iter, ast.Name):
                    self._arr.add(n.iter.id)
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id in (
                            'len', 'enumerate', 'zip', 'sorted', 'list',
                            'sum', 'set'):
                    for x in n.args:
                        if isinstance(x, ast.Name):
                            self._arr.add(x.id)
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and (n.func.attr in (
                            'dot', 'solve', 'lstsq', 'cholesky', 'eigh',
                            'outer', 'inner', 'hstack', 'vstack', 'concatenate',
                            'matmul', 'diag', 'norm')):
                    for x in n.args:
                        if isinstance(x, ast.Name):
                            self._arr.add(x.id)
                elif isinstance(n, ast.Assign) and isinstance(
                        n.value, ast.Call) and isinstance(
                            n.value.func, ast.Attribute) and \
                        n.value.func.attr in (
                            'dot', 'solve', 'lstsq', 'toarray', 'outer',
                            'hstack', 'vstack', 'concatenate', 'array',
                            'zeros', 'ones', 'empty', 'identity', 'eye',
                            'matmul', 'diag'):
                    for x in n.targets:
                        if isinstance(x, ast.Name):
                            self._arr.add(x.id)
        return name in self._arr

    def own(self, e, env):
        """is the expression the instance the method is called on?"""
        return isinstance(e, ast.Name) and self.is_method and \
            bool(self.params) and e.id == self.params[0] and \
            (0, 0) in self.name(e.id, env).top

    def assign(self, t, v, env, src):
        if isinstance(t, ast.Name):
            self.conds.pop(t.id, None)
            if isinstance(src, (ast.Compare, ast.BoolOp, ast.UnaryOp,
                                ast.Call)):
                used = set(n.id for n in ast.walk(src)
                           if isinstance(n, ast.Name))
                if t.id not in used:
                    self.conds[t.id] = (src, [(x, env[x].key())
                                              for x in used if x in env])
            if t.id in self.s.globals:
                self.mutate([('G:%s.%s' % (self.module.name, t.id), 0)], t,
                            'global %s is rebound' % t.id)
                return
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and \
                    len(src.elts) == len(t.elts) and not any(
                        isinstance(x, ast.Starred)
                        for x in src.elts + t.elts):
                vals = [self.ev(x, env) for x in src.elts]
                for x, y, e in zip(t.elts, vals, src.elts):
                    self.assign(x, y, env, e)
                return
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    self.assign(x.value, Val(EMPTY, v.deep), env, None)
                else:
                    self.assign(x, v.part(), env, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, None)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.mutate(o.top, t, '%s is assigned' % ast.unparse(t)[:60])
            self.store_in(t.value, o, v, env)
            if self.own(t.value, env):
                f = 'F:' + mangle(self.s.cls.name, t.attr)
                self.eff.field(f, v)
                env[f] = v
                for at in v.top:
                    if isinstance(at[0], int) and at[0] != 0:
                        self.eff.borrowed.setdefault(f, set()).add(
                            (self.root.s.qual, self.root.params[at[0]],
                             at[1]))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.ev(t.slice, env)
            if o.arr != 'slice':
                self.mutate(o.top, t, '%s is assigned'
                            % ast.unparse(t)[:60])
            self.store_in(t.value, o, v, env)

    def store_in(self, expr, o, v, env):
        """a part of o becomes v"""
        base, depth = expr, 0
        while isinstance(base, (ast.Attribute, ast.Subscript)):
            base = base.value
            depth += 1
        if isinstance(base, ast.Name) and base.id in env:
            if depth and self.own(base, env):
                # inside a field of the instance
                chain = expr
                for _ in range(depth - 1):
                    chain = chain.value
                f = 'F:' + mangle(self.s.cls.name, chain.attr) \
                    if isinstance(chain, ast.Attribute) else None
                if f is not None:
                    old = self.eff.fields.get(f)
                    if old is not None:
                        self.eff.field(f, old.put(depth - 1, v))
                    if f in env:
                        env[f] = env[f].put(depth - 1, v)
                return
            env[base.id] = env[base.id].put(depth, v)

    # -------------------------------------------------------- expressions
    def name(self, n, env):
        if n in env:
            return env[n]
        if n in self.s.locals:
            return FRESH
        if n in self.module.mutable:
            g = 'G:%s.%s' % (self.module.name, n)
            return Val(frozenset([(g, 0)]), frozenset([(g, 1)]))
        e = self.module.globals.get(n)
        if e is not None and e[0] == 'from' and \
                e[1][0] in self.repo.modules and \
                e[1][1] in self.repo.modules[e[1][0]].mutable:
            g = 'G:%s.%s' % e[1]
            return Val(frozenset([(g, 0)]), frozenset([(g, 1)]))
        return FRESH

    def ev(self, e, env):
        if e is None:
            return FRESH
        if isinstance(e, ast.Constant):
            return SCALAR
        if isinstance(e, ast.Name):
            return self.name(e.id, env)
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, env)
            if e.attr in SCALAR_ATTR:
                return SCALAR
            if e.attr in SAME_ATTR and not o.cls:
                return o
            if e.attr in ('data', 'indices', 'indptr', 'row', 'col') and \
                    not o.top:
                return FRESH
            p = self.prop(o, e)
            if p is not None:
                return self.apply([p], [o], {}, e, env, None)
            r = o.part()
            if self.own(e.value, env):
                f = 'F:' + mangle(self.s.cls.name, e.attr)
                if f in env:
                    v = env[f]
                    return Val(v.top | {(0, 0)}, v.deep | {(0, 1)}, v.cls,
                               v.arr, v.elem)
                v = self.eff.fields.get(f)
                if v is not None and f not in self.eff.borrowed:
                    v = owned(v)
                    r = Val(v.top | {(f, 0)}, v.deep | {(f, 1)}, v.cls,
                            v.arr, v.elem)
                else:
                    r = Val(r.top | {(f, 0)}, r.deep | {(f, 1)},
                            v.cls if v is not None else None,
                            v.arr if v is not None else None)
            return r
        if isinstance(e, ast.Subscript):
            o = self.ev(e.value, env)
            self.ev(e.slice, env)
            if isinstance(e.slice, ast.Slice):
                if o.arr == 'list':
                    return fresh([o.part()], 'list')
                if o.arr == 'array':
                    return o
                return Val(o.deep, o.deep, None, 'slice')
            if isinstance(e.slice, ast.Tuple) and any(
                    isinstance(x, ast.Slice) for x in e.slice.elts):
                if self.fancy(e.slice, env):
                    return Val(arr='array')
                return Val(o.deep | o.top, o.deep, None, 'array')
            if self.ev(e.slice, env).arr in ('list', 'array') or isinstance(
                    e.slice, (ast.List, ast.ListComp, ast.Compare)):
                return Val(arr='array')        # fancy indexing copies
            return o.part()
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return fresh([self.ev(x.value, env).part() if isinstance(
                x, ast.Starred) else self.ev(x, env) for x in e.elts],
                'list' if isinstance(e, ast.List) else None)
        if isinstance(e, ast.Dict):
            parts = []
            for k, x in zip(e.keys, e.values):
                if k is None:
                    parts.append(self.ev(x, env).part())
                else:
                    self.ev(k, env)
                    parts.append(self.ev(x, env))
            return fresh(parts)
        if isinstance(e, COMP):
            inner = dict(env)
            for g in e.generators:
                self.assign(g.target, self.ev(g.iter, inner).part(), inner,
                            None)
                for i in g.ifs:
                    self.ev(i, inner)
            if isinstance(e, ast.DictComp):
                return fresh([self.ev(e.key, inner),
                              self.ev(e.value, inner)])
            return fresh([self.ev(e.elt, inner)],
                         'list' if isinstance(e, ast.ListComp) else None)
        if isinstance(e, ast.BoolOp):
            out = self.ev(e.values[0], env)
            for x in e.values[1:]:
                out = out.join(self.ev(x, env))
            return out
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return self.ev(e.body, env).join(self.ev(e.orelse, env))
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            kind = 'list' if 'list' in (a.arr, b.arr) else \
                'array' if 'array' in (a.arr, b.arr) else \
                'scalar' if a.arr == b.arr == 'scalar' else None
            # concatenation keeps the elements
            if isinstance(e.op, (ast.Add, ast.Mult)) and kind == 'list':
                return fresh([x.part() for x in (a, b)
                              if x.arr != 'scalar'], 'list')
            return Val(arr=kind)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.Lambda):
            inner = dict(env)
            a = e.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                inner[x.arg] = FRESH
            self.ev(e.body, inner)
            return FRESH
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            v = self.ev(e.value, env)
            w = Val(EMPTY, v.all())
            self.ret = w if self.ret is None else self.ret.join(w)
            return FRESH
        if isinstance(e, ast.Compare):
            for c in [e.left] + e.comparators:
                self.ev(c, env)
            return FRESH
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return FRESH

    def fancy(self, sl, env):
        """an index list among the indices"""
        return any(not isinstance(x, (ast.Slice, ast.Constant)) and (
            self.ev(x, env).arr in ('list', 'array') or isinstance(
                x, (ast.List, ast.ListComp, ast.Compare)))
            for x in sl.elts)

    def prop(self, o, e):
        ms = self.repo.by_method.get(e.attr)
        if not ms or not any(m.property for m in ms):
            return None
        if o.cls:
            for c in o.cls:
                m = c.find_method(e.attr)
                if m is not None and m.property:
                    return m.node
            return None
        return next(m.node for m in ms if m.property)

    # -------------------------------------------------------------- calls
    def call(self, e, env):
        self.eff.calls += 1
        f = e.func
        args = []
        for a in e.args:
            v = self.ev(a, env)
            args.append(v.part() if isinstance(a, ast.Starred) else v)
        kws = dict((k.arg, self.ev(k.value, env)) for k in e.keywords)
        star = any(isinstance(a, ast.Starred) for a in e.args) or \
            None in kws
        everything = EMPTY
        for v in args + list(kws.values()):
            everything |= v.all()
        for k in e.keywords:
            if k.arg == 'out':
                for x in (k.value.elts if isinstance(k.value, ast.Tuple)
                          else [k.value]):
                    self.mutate(self.ev(x, env).top, e,
                                'out=%s' % ast.unparse(x))
            if k.arg in ('overwrite_a', 'overwrite_b') and isinstance(
                    k.value, ast.Constant) and k.value.value is True:
                i = 0 if k.arg == 'overwrite_a' else 1
                if i < len(args):
                    self.mutate(args[i].top, e, '%s=True' % k.arg)
        if isinstance(f, ast.Name):
            return self.call_name(e, f, args, kws, star, everything, env)
        if isinstance(f, ast.Attribute):
            return self.call_attr(e, f, args, kws, star, everything, env)
        self.ev(f, env)
        return Val(EMPTY, everything)

    def call_name(self, e, f, args, kws, star, everything, env):
        if self.s.owner(f.id) is None and f.id in self.module.globals:
            k, p = self.repo.deref(self.module.globals[f.id])
            if k == 'func' and p in self.eff.sum:
                return self.apply([p], args, kws, e, env, None)
            if k == 'class':
                return self.construct(p, args, kws, e, env, everything)
        elif f.id in self.closures and f.id in env and \
                self.closures[f.id] not in self.inside and not star:
            return self.call_local(self.closures[f.id], args, kws, env)
        elif f.id in env:
            return Val(EMPTY, everything | env[f.id].deep)
        if f.id in EXT_MUTATE and args:
            self.mutate(args[EXT_MUTATE[f.id]].top, e,
                        ast.unparse(e)[:60])
        if f.id in SHALLOW:
            parts = [a.part() for a in args]
            if f.id == 'dict':
                parts = [a.part().part() for a in args] + [
                    v for k, v in kws.items() if k]
            if f.id in ('zip', 'enumerate'):
                parts = [fresh(parts)]
            return fresh(parts, 'list' if f.id in ('list', 'sorted')
                         else None)
        if f.id == 'map' and args:
            return Val(EMPTY, everything)
        if f.id in ELEMENT and args:
            return args[0].part().join(
                args[-1] if f.id != 'getattr' else args[0].part())
        if f.id == 'super':
            me = env.get(self.params[0]) if self.params else None
            if me is not None and self.s.cls is not None:
                return Val(me.top, me.deep, self.s.cls.bases or None)
        if f.id in ('len', 'int', 'float', 'str', 'bool', 'abs', 'sum',
                    'isinstance', 'type', 'range', 'round', 'hash', 'id',
                    'print', 'callable', 'hasattr', 'any', 'all', 'repr',
                    'ord', 'chr', 'divmod', 'pow'):
            return SCALAR
        k = self.module.globals.get(f.id)
        if k is not None and self.repo.deref(k)[0] in ('external', 'module'):
            if f.id in ('deepcopy',):
                return FRESH
            if f.id in ('copy',) and args:
                return Val(EMPTY, args[0].deep)
            return FRESH
        return Val(EMPTY, everything)

    def external_root(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        if isinstance(e, ast.Name) and self.s.owner(e.id) is None:
            k = self.module.globals.get(e.id)
            if k is not None and self.repo.deref(k)[0] in (
                    'module', 'external'):
                return True
        return False

    def call_attr(self, e, f, args, kws, star, everything, env):
        attr = f.attr
        if self.external_root(f.value):
            if attr in EXT_MUTATE and args:
                self.mutate(args[EXT_MUTATE[attr]].top, e,
                            ast.unparse(e)[:60])
            if attr == 'at' and args:           # np.add.at
                self.mutate(args[0].top, e, ast.unparse(e)[:60])
            if attr in SAME and args:
                return Val(args[0].top, args[0].deep, None, 'array')
            if attr == 'copy' and args:
                return Val(EMPTY, args[0].deep)
            if attr in ('array', 'array_split', 'split', 'hsplit', 'vsplit',
                        'nditer'):
                keep = [k for k in e.keywords if k.arg == 'copy' and
                        isinstance(k.value, ast.Constant) and
                        not k.value.value]
                if keep and args:
                    return Val(args[0].top, args[0].deep, None, 'array')
                if attr != 'array' and args:
                    return Val(EMPTY, args[0].deep | args[0].top)
                return Val(arr='array')
            if attr in ('deque', 'OrderedDict'):
                return Val(EMPTY, args[0].deep if args else EMPTY)
            return Val(arr='array' if attr in (
                'zeros', 'ones', 'empty', 'arange', 'linspace', 'full',
                'eye', 'unique', 'concatenate', 'hstack', 'vstack', 'argsort',
                'nonzero', 'where', 'cumsum', 'tile', 'repeat',
                'zeros_like', 'ones_like') else None)
        # method of a class named explicitly: Class.m(self, ...)
        if isinstance(f.value, ast.Name) and self.s.owner(f.value.id) is None:
            g = self.module.globals.get(f.value.id)
            if g is not None:
                k, p = self.repo.deref(g)
                if k == 'class':
                    m = p.find_method(attr)
                    if m is not None:
                        if m.classmethod:
                            args = [FRESH] + args
                        return self.apply([m.node], args, kws, e, env,
                                          e.args)
                if k == 'repomodule':
                    g = p.globals.get(attr)
                    if g is not None:
                        k, q = self.repo.deref(g)
                        if k == 'func' and q in self.eff.sum:
                            return self.apply([q], args, kws, e, env, None)
                        if k == 'class':
                            return self.construct(q, args, kws, e, env,
                                                  everything)
        o = self.ev(f.value, env)
        mangled = mangle(self.s.cls.name if self.s.cls else None, attr)
        ms = []
        known = bool(o.cls)
        if known:
            for c in o.cls:
                m = c.find_method(attr)
                if m is None and mangled != attr:
                    m = c.find_method(attr)
                if m is not None:
                    ms.append(m)
                for d in c.descendants():
                    if attr in d.methods and not isinstance(
                            f.value, ast.Call):
                        ms.append(d.methods[attr])
        else:
            ms = list(self.repo.by_method.get(attr, ()))
        out = None
        if ms:
            for m in sorted(set(ms), key=lambda m: (m.cls.key, m.node.lineno)):
                a = args if m.static else [FRESH if m.classmethod else o] \
                    + args
                n = m.node
                if len(args) + (0 if m.static else 1) > len(
                        self.eff.by_node[n].node.args.args) and \
                        n.args.vararg is None and not known:
                    continue          # cannot be this one
                r = self.apply([n], a, kws, e, env, None)
                out = r if out is None else out.join(r)
        if known and out is not None:
            return out
        # methods of builtin containers and arrays
        if attr in MUTATORS:
            if not (o.arr == 'slice' and attr in LIST_ONLY):
                if not known:
                    self.mutate(o.top, e, ast.unparse(e)[:60])
            if attr in ('append', 'insert', 'add', 'appendleft',
                        'setdefault') and args:
                self.store_in(f.value, o, args[-1], env)
            elif attr in ('extend', 'update', 'extendleft'):
                for v in args:
                    self.store_in(f.value, o, v.part(), env)
                for v in kws.values():
                    self.store_in(f.value, o, v, env)
        if attr in SAME:
            r = o
        elif attr in SHALLOW_METH:
            if attr == 'items':
                r = fresh([fresh([o.part()])])
            elif attr == 'copy':
                r = Val(EMPTY, o.deep, o.cls, o.arr, o.elem)
            else:
                r = fresh([o.part()] + [a.part() for a in args])
        elif attr in ELEMENT_METH:
            r = o.part()
            if args:
                r = r.join(args[-1])
        elif attr in ('shuffle',) and args:
            self.mutate(args[0].top, e, ast.unparse(e)[:60])
            r = FRESH
        elif out is not None:
            return out
        else:
            r = FRESH
        return r if out is None else out.join(r)

    def construct(self, c, args, kws, e, env, everything):
        m = c.find_method('__init__')
        if m is not None:
            self.apply([m.node], [FRESH] + args, kws, e, env, None)
        return Val(EMPTY, everything, [c])

    def inlined(self, n):
        known = self.eff.known
        return known is not None and self.eff.by_node[n].qual not in known \
            and n not in self.stack and len(self.stack) < 6 and not any(
                isinstance(x, (ast.Yield, ast.YieldFrom))
                for x in ast.walk(n))

    def inline(self, n, args, kws, env):
        sub = FnAnalysis(self.eff, self.eff.by_node[n], self)
        a = n.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        inner = dict((k, v) for k, v in env.items() if k.startswith('F:'))
        for p in sub.params:
            inner[p] = FRESH
        more = [Val(EMPTY, v.all()) for v in args[len(pos):]]
        for p, v in zip(pos, args):
            inner[p] = v
        other = []
        for k, v in kws.items():
            if k in sub.params:
                inner[k] = v
            elif k is None:
                for p in pos[len(args):]:
                    inner[p] = inner[p].join(v.part())
                other.append(Val(EMPTY, v.all()))
            else:
                other.append(v)
        if a.vararg is not None:
            inner[a.vararg.arg] = fresh(more)
        if a.kwarg is not None:
            inner[a.kwarg.arg] = fresh(other)
        sub.ret = None
        sub.brk, sub.cnt = [], []
        sub.conds, sub.closures, sub.inside = {}, {}, []
        end = sub.block(n.body, inner)
        for k in [k for k in env if k.startswith('F:')]:
            del env[k]
        return sub.ret if sub.ret is not None else FRESH

    def apply(self, nodes, args, kws, e, env, exprs):
        """effects and result of calling function definitions"""
        out = None
        if len(nodes) == 1 and self.inlined(nodes[0]):
            return self.inline(nodes[0], args, kws, env)
        for k in [k for k in env if k.startswith('F:')]:
            del env[k]
        for n in nodes:
            sm = self.eff.sum[n]
            a = n.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            allp = list(pos)
            if a.vararg is not None:
                allp.append(a.vararg.arg)
            allp += [x.arg for x in a.kwonlyargs]
            if a.kwarg is not None:
                allp.append(a.kwarg.arg)
            bound = {}
            for k, v in enumerate(args):
                if k < len(pos):
                    bound[pos[k]] = v
                elif a.vararg is not None:
                    b = bound.get(a.vararg.arg, FRESH)
                    bound[a.vararg.arg] = Val(EMPTY, b.deep | v.all())
            for k, v in kws.items():
                if k in allp:
                    bound[k] = v
                elif k is None:
                    for p in pos:
                        bound.setdefault(p, v.part())
                    if a.kwarg is not None:
                        bound[a.kwarg.arg] = Val(EMPTY, v.all())
                elif a.kwarg is not None:
                    b = bound.get(a.kwarg.arg, FRESH)
                    bound[a.kwarg.arg] = Val(EMPTY, b.deep | v.all())
            name = self.eff.by_node[n].qual

            def sub(at):
                r, lev = at
                if not isinstance(r, int):
                    return frozenset([at])
                v = bound.get(allp[r]) if r < len(allp) else None
                if v is None:
                    return EMPTY
                return v.top if lev == 0 else v.deep
            for at, (line, text) in list(sm.mut.items()):
                if at[0] == 0 and name in self.eff.memo:
                    continue
                self.mutate(sub(at), e, '%s: %s' % (
                    name, text if text.count(':') < 6 else '...'))
            r = sm.ret.subst(sub) if sm.ret is not None else FRESH
            out = r if out is None else out.join(r)
        return out if out is not None else FRESH
