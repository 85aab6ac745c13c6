"""Resolved view of the program: scopes, classes, attributes, signatures.

Everything is computed from the syntax trees of the current sources; nothing
is imported or executed.
"""
import ast
import builtins
import os

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__',
                                 '__builtins__', '__path__', '__package__'}
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
# attributes every object / class / function has
OBJECT_ATTRS = set(dir(object)) | {
    '__dict__', '__name__', '__module__', '__qualname__', '__weakref__',
    '__bases__', '__mro__', '__defaults__', '__code__', '__func__',
    '__self__', '__wrapped__', '__call__', '__iter__', '__next__', '__len__',
    '__getitem__', '__enter__', '__exit__', '__slots__', '__annotations__',
    '__subclasses__', '__closure__', '__globals__', '__kwdefaults__', 'mro'}


class Sig(object):
    """signature of a function definition"""
    def __init__(self, node, drop_first=False):
        a = node.args
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        self.node = node
        self.npos_only = len(a.posonlyargs)
        self.first = pos[0] if pos else None
        nd = len(a.defaults)
        req = pos[:len(pos) - nd]
        if drop_first:
            if pos:
                pos = pos[1:]
                req = req[1:]
        self.pos = pos
        self.required = req
        self.vararg = a.vararg is not None
        self.kwarg = a.kwarg is not None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwonly_required = [x.arg for x, d in zip(
            a.kwonlyargs, a.kw_defaults) if d is None]

    def mismatch(self, call):
        """None if the call fits, else the reason (TypeError when executed)"""
        star = any(isinstance(x, ast.Starred) for x in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        npos = sum(1 for x in call.args if not isinstance(x, ast.Starred))
        if npos > len(self.pos) and not self.vararg:
            return 'takes %d positional arguments, %d given' % (
                len(self.pos), npos)
        given = set(self.pos[:npos])
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg in given and not star:
                return 'multiple values for argument %r' % k.arg
            if k.arg in self.pos or k.arg in self.kwonly:
                given.add(k.arg)
            elif not self.kwarg:
                return 'unexpected keyword argument %r' % k.arg
        if not star and not dstar:
            miss = [x for x in self.required if x not in given]
            miss += [x for x in self.kwonly_required if x not in given]
            if miss:
                return 'missing argument%s %s' % (
                    's' if len(miss) > 1 else '', ', '.join(
                        repr(x) for x in miss))
        return None

    def bind(self, call):
        """{parameter: argument expression}; None if not decidable"""
        if any(isinstance(x, ast.Starred) for x in call.args) or \
                any(k.arg is None for k in call.keywords):
            return None
        out = {}
        for p, x in zip(self.pos, call.args):
            out[p] = x
        for k in call.keywords:
            out[k.arg] = k.value
        return out


def decorators(f):
    out = []
    for d in f.decorator_list:
        if isinstance(d, ast.Call):
            d = d.func
        out.append(ast.unparse(d))
    return out


def mangle(cls, name):
    if name.startswith('__') and not name.endswith('__') and cls:
        return '_' + cls.lstrip('_') + name
    return name


class Method(object):
    def __init__(self, cls, node):
        self.cls = cls
        self.node = node
        self.name = node.name
        d = decorators(node)
        self.static = 'staticmethod' in d
        self.classmethod = 'classmethod' in d
        self.property = 'property' in d or any(
            x.endswith(('.setter', '.getter', '.deleter',
                        'cached_property')) for x in d)
        self.plain = all(x in ('staticmethod', 'classmethod') for x in d)

    def sig(self, bound):
        """signature seen by a caller (bound: through an instance)"""
        drop = (bound and not self.static) or self.classmethod
        return Sig(self.node, drop)


class ClassInfo(object):
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.key = module.name + '.' + node.name
        self.bases = []
        self.external = []          # external base names
        self.subs = []
        self.methods = {}           # name -> Method (last definition)
        self.attrs = set()          # class-level names and self.X stores
        self.class_attrs = {}
        self.dynamic = False
        self.decorated = [ast.unparse(d) for d in node.decorator_list]

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
            todo.extend(c.bases)
        return out

    def descendants(self):
        out, todo = [], list(self.subs)
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo.extend(c.subs)
        return out

    def find_method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def open(self):
        """may have attributes that cannot be seen here"""
        return any(c.external or c.dynamic for c in self.mro())

    def has(self, name, down=True):
        if name in OBJECT_ATTRS:
            return True
        for c in self.mro() + (self.descendants() if down else []):
            if name in c.attrs or name in c.methods:
                return True
        return False


class ModuleInfo(object):
    def __init__(self, name, tree):
        self.name = name
        self.tree = tree
        self.globals = {}       # name -> (kind, payload)
        self.open = False       # external star import
        self.classes = {}


class Repo(object):
    def __init__(self, prog):
        self.prog = prog
        self.modules = {}
        self.classes = []
        for n, m in prog.modules.items():
            self.modules[n] = ModuleInfo(n, m.tree)
        for m in self.modules.values():
            self._globals(m)
        for m in self.modules.values():
            for st in ast.walk(m.tree):
                if isinstance(st, ast.ImportFrom) and st.names[0].name == '*':
                    o = self.modules.get(st.module)
                    if o is None:
                        m.open = True
                    else:
                        for k, v in o.globals.items():
                            m.globals.setdefault(k, v)
        for c in self.classes:
            self._class(c)
        for c in self.classes:
            for b in c.node.bases:
                r = self.resolve_static(c.module, b)
                if isinstance(r, ClassInfo) and r is not c:
                    c.bases.append(r)
                    r.subs.append(c)
                elif not (isinstance(b, ast.Name) and b.id == 'object'):
                    c.external.append(ast.unparse(b))
        self.universe = set()
        for c in self.classes:
            self.universe |= c.attrs | set(c.methods)
        for m in self.modules.values():
            self.universe |= set(m.globals)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.ctx, ast.Store):
                    # a mangled store defines the mangled name only
                    if not (n.attr.startswith('__') and
                            not n.attr.endswith('__')):
                        self.universe.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                        and n.func.id == 'setattr' and len(n.args) > 1 and \
                        isinstance(n.args[1], ast.Constant):
                    self.universe.add(n.args[1].value)
        self.by_method = {}
        for c in self.classes:
            for k, v in c.methods.items():
                self.by_method.setdefault(k, []).append(v)
        # names of attributes that may hold a callable or a value
        self.data_attrs = set()
        for c in self.classes:
            self.data_attrs |= set(a for a in c.attrs if a not in c.methods)

    # ------------------------------------------------------------ modules
    def _globals(self, m):
        def bind(name, kind, payload):
            m.globals[name] = (kind, payload)

        def targets(t):
            for n in ast.walk(t):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    bind(n.id, 'var', None)

        def rec(body):
            for st in body:
                if isinstance(st, FUNC):
                    bind(st.name, 'func', st)
                elif isinstance(st, ast.ClassDef):
                    c = ClassInfo(m, st)
                    self.classes.append(c)
                    m.classes[st.name] = c
                    bind(st.name, 'class', c)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            bind(a.asname, 'module', a.name)
                        else:
                            top = a.name.split('.')[0]
                            bind(top, 'module', top)
                elif isinstance(st, ast.ImportFrom):
                    for a in st.names:
                        if a.name != '*':
                            bind(a.asname or a.name, 'from',
                                 (st.module, a.name))
                else:
                    for f in ast.iter_child_nodes(st):
                        if isinstance(f, ast.expr):
                            targets(f)
                    for fld in ('body', 'orelse', 'finalbody'):
                        rec(getattr(st, fld, []) or [])
                    for h in getattr(st, 'handlers', []) or []:
                        if h.name:
                            bind(h.name, 'var', None)
                        rec(h.body)
                    for it in getattr(st, 'items', []) or []:
                        if it.optional_vars is not None:
                            targets(it.optional_vars)
                # walrus
                for n in ast.walk(st) if not isinstance(
                        st, FUNC + (ast.ClassDef,)) else ():
                    if isinstance(n, ast.NamedExpr):
                        bind(n.target.id, 'var', None)
        rec(m.tree.body)
        for f in ast.walk(m.tree):
            if isinstance(f, ast.Global):
                for n in f.names:
                    if n not in m.globals:
                        bind(n, 'var', None)

    # ------------------------------------------------------------ classes
    def _class(self, c):
        for st in c.node.body:
            self._class_stmt(c, st)
        for m in c.methods.values():
            self._self_stores(c, m.node)

    def _class_stmt(self, c, st):
        if isinstance(st, FUNC):
            c.methods[st.name] = Method(c, st)
            c.attrs.discard(st.name)
            # every definition (property getters etc.) may store attributes
            self._self_stores(c, st)
        elif isinstance(st, ast.ClassDef):
            c.attrs.add(st.name)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                c.attrs.add((a.asname or a.name).split('.')[0])
        else:
            for n in ast.walk(st):
                if isinstance(n, FUNC):
                    c.attrs.add(n.name)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    c.attrs.add(n.id)
                    c.class_attrs[n.id] = st
                    c.methods.pop(n.id, None)

    def _self_stores(self, c, f):
        if not f.args.args and not f.args.posonlyargs:
            return
        me = (f.args.posonlyargs + f.args.args)[0].arg
        if 'staticmethod' in decorators(f):
            return
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                    and n.value.id == me:
                c.attrs.add(mangle(c.name, n.attr))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id == 'setattr':
                if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    c.attrs.add(n.args[1].value)
                else:
                    c.dynamic = True
            elif isinstance(n, ast.Attribute) and n.attr == '__dict__':
                c.dynamic = True
        if f.name in ('__getattr__', '__getattribute__'):
            c.dynamic = True

    # --------------------------------------------------------- resolution
    def deref(self, entry, seen=()):
        """resolve a global binding through repo imports"""
        kind, p = entry
        if kind == 'from':
            mod, name = p
            o = self.modules.get(mod)
            if o is None:
                return ('external', (mod, name))
            e = o.globals.get(name)
            if e is None or (mod, name) in seen:
                return ('missing', p)
            return self.deref(e, seen + ((mod, name),))
        if kind == 'module' and p in self.modules:
            return ('repomodule', self.modules[p])
        return entry

    def resolve_static(self, module, expr):
        """ClassInfo / FunctionDef named by an expression, or None"""
        if isinstance(expr, ast.Name):
            e = module.globals.get(expr.id)
            if e is None:
                return None
            k, p = self.deref(e)
            return p if k in ('class', 'func') else None
        if isinstance(expr, ast.Attribute) and \
                isinstance(expr.value, ast.Name):
            e = module.globals.get(expr.value.id)
            if e is None:
                return None
            k, p = self.deref(e)
            if k == 'repomodule':
                g = p.globals.get(expr.attr)
                if g:
                    k, p = self.deref(g)
                    return p if k in ('class', 'func') else None
        return None


# ------------------------------------------------------------------ scopes
class Scope(object):
    """one function (or lambda / comprehension) scope"""
    def __init__(self, node, parent, module, cls, qual):
        self.node = node
        self.parent = parent
        self.module = module
        self.cls = cls            # enclosing ClassInfo (methods and nested)
        self.qual = qual
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        if node is not None:
            self._collect()

    def _collect(self):
        n = self.node
        if isinstance(n, FUNC + (ast.Lambda,)):
            a = n.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                self.locals.add(x.arg)
            for x in (a.vararg, a.kwarg):
                if x is not None:
                    self.locals.add(x.arg)
        body = n.body if isinstance(n, FUNC) else []
        for st in body:
            self._stmt(st)
        if isinstance(n, COMP):
            for g in n.generators:
                for t in ast.walk(g.target):
                    if isinstance(t, ast.Name):
                        self.locals.add(t.id)
        self.locals -= self.globals | self.nonlocals

    def _stmt(self, n):
        if isinstance(n, FUNC + (ast.ClassDef,)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self._stmt(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Global):
            self.globals |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.locals.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, COMP):
            # comprehension targets are local to it; walrus targets escape
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.locals.add(x.target.id)
            return
        for c in ast.iter_child_nodes(n):
            self._stmt(c)

    def owner(self, name):
        """the scope binding the name; None if global"""
        s = self
        while s is not None:
            if name in s.globals:
                return None
            if name in s.locals:
                return s
            s = s.parent
        return None


def function_scopes(repo):
    """every top-level function and method as a Scope"""
    out = []
    for m in repo.modules.values():
        def rec(node, prefix, cls):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, FUNC):
                    out.append(Scope(ch, None, m, cls, m.name + '.' +
                                     prefix + ch.name))
                elif isinstance(ch, ast.ClassDef):
                    c = m.classes.get(ch.name)
                    rec(ch, prefix + ch.name + '.',
                        c if c is not None and c.node is ch else
                        next((k for k in repo.classes if k.node is ch), None))
                elif isinstance(ch, (ast.If, ast.Try, ast.With)):
                    rec(ch, prefix, cls)
        rec(m.tree, '', None)
    return out
