"""C19: every reference in the library resolves."""
import ast
import json
import os
from ..frame import Violation
from ..loader import AnalysisBroken
from .. import resolve
from ..resolve import (Repo, Scope, ClassInfo, Sig, Method, BUILTINS, FUNC,
                       COMP, OBJECT_ATTRS, function_scopes, mangle)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def external_names():
    with open(os.path.join(HERE, 'external_names.txt')) as f:
        return set(x.strip() for x in f if not x.startswith('#'))


# --------------------------------------------------------------- unbound
class Flow(object):
    """which locals may be bound at each load (union over all paths)

    A load of a local that no path binds raises UnboundLocalError on every
    execution that reaches it.
    """
    def __init__(self, scope, report):
        self.scope = scope
        self.report = report
        n = scope.node
        a = n.args
        st = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
        for x in (a.vararg, a.kwarg):
            if x is not None:
                st.add(x.arg)
        self.breaks = []
        self.conts = []
        self.dead = set()         # unreachable statements
        self.live = set()
        self.falls = self.block(n.body, st) is not None
        self.dead -= self.live

    def load(self, e, st):
        if e is None or st is None:
            return
        if isinstance(e, (ast.Lambda,)):
            return
        if isinstance(e, COMP):
            # the first iterable is evaluated in this scope; inner parts see
            # the comprehension targets as well
            inner = set(st)
            for k, g in enumerate(e.generators):
                self.load(g.iter, inner)
                for t in ast.walk(g.target):
                    if isinstance(t, ast.Name):
                        inner.add(t.id)
                for i in g.ifs:
                    self.load(i, inner)
            if isinstance(e, ast.DictComp):
                self.load(e.key, inner)
                self.load(e.value, inner)
            else:
                self.load(e.elt, inner)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.scope.locals \
                    and e.id not in st:
                self.report(e)
            return
        if isinstance(e, ast.NamedExpr):
            self.load(e.value, st)
            st.add(e.target.id)
            return
        for c in ast.iter_child_nodes(e):
            self.load(c, st)

    def store(self, t, st):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.add(n.id)

    def block(self, body, st):
        for s in body:
            if st is None:
                self.dead.add(s)
                continue
            self.live.add(s)
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, s, st):
        if isinstance(s, FUNC + (ast.ClassDef,)):
            for d in s.decorator_list:
                self.load(d, st)
            if isinstance(s, FUNC):
                for d in s.args.defaults + [x for x in s.args.kw_defaults
                                            if x is not None]:
                    self.load(d, st)
                # what its calls may bind
                for x in ast.walk(s):
                    if isinstance(x, ast.Nonlocal):
                        st |= set(x.names)
            st.add(s.name)
            return st
        if isinstance(s, ast.Assign):
            self.load(s.value, st)
            for t in s.targets:
                self.load(t, st)
                self.store(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            self.load(s.value, st)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.scope.locals and \
                        s.target.id not in st:
                    self.report(s.target)
                st.add(s.target.id)
            else:
                self.load(s.target, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.load(s.value, st)
                self.load(s.target, st)
                self.store(s.target, st)
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.load(c, st)
            return None
        if isinstance(s, ast.Break):
            if self.breaks:
                self.breaks[-1].append(set(st))
            return None
        if isinstance(s, ast.Continue):
            if self.conts:
                self.conts[-1].append(set(st))
            return None
        if isinstance(s, ast.If):
            self.load(s.test, st)
            a = self.block(s.body, set(st))
            b = self.block(s.orelse, set(st))
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                # names bound in the body reach the test and the body again
                pass
            else:
                self.load(s.iter, st)
            bound = set()
            for n in s.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(
                            x.ctx, ast.Store):
                        bound.add(x.id)
                    elif isinstance(x, FUNC + (ast.ClassDef,)):
                        bound.add(x.name)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        for y in x.names:
                            bound.add((y.asname or y.name).split('.')[0])
                    elif isinstance(x, ast.ExceptHandler) and x.name:
                        bound.add(x.name)
            self.breaks.append([])
            self.conts.append([])
            # first iteration: nothing of the body is bound before it
            inner = set(st)
            if isinstance(s, ast.While):
                self.load(s.test, inner)
            else:
                self.store(s.target, inner)
            quiet, self.report = self.report, lambda e: None
            out = self.block(s.body, set(inner))
            for x in self.conts[-1]:
                out = self.join(out, x)
            # later iterations
            again = self.join(set(inner), out)
            self.report = quiet
            self.breaks[-1] = []
            self.conts[-1] = []
            out = self.block(s.body, set(again))
            for x in self.conts[-1]:
                out = self.join(out, x)
            br = self.breaks.pop()
            self.conts.pop()
            end = self.join(set(inner) if isinstance(s, ast.While)
                            else set(st), out)
            if isinstance(s, ast.While) and isinstance(
                    s.test, ast.Constant) and s.test.value:
                end = None
            end = self.block(s.orelse, end) if s.orelse and end is not None \
                else end
            for x in br:
                end = self.join(end, x)
            return end
        if isinstance(s, (ast.Try,)):
            bound = set()
            for n in s.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(
                            x.ctx, ast.Store):
                        bound.add(x.id)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        for y in x.names:
                            bound.add((y.asname or y.name).split('.')[0])
                    elif isinstance(x, FUNC + (ast.ClassDef,)):
                        bound.add(x.name)
            a = self.block(s.body, set(st))
            if s.orelse and a is not None:
                a = self.block(s.orelse, a)
            out = a
            for h in s.handlers:
                hs = set(st) | bound
                self.load(h.type, hs)
                if h.name:
                    hs.add(h.name)
                out = self.join(out, self.block(h.body, hs))
            if s.finalbody:
                if out is None:
                    self.block(s.finalbody, set(st) | bound)
                    return None
                return self.block(s.finalbody, out | bound)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.load(it.context_expr, st)
                if it.optional_vars is not None:
                    self.load(it.optional_vars, st)
                    self.store(it.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                self.load(t, st)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                st.add((a.asname or a.name).split('.')[0])
            return st
        if isinstance(s, ast.Match):
            self.load(s.subject, st)
            out = set(st)
            for c in s.cases:
                cs = set(st)
                for x in ast.walk(c.pattern):
                    for f in ('name', 'rest'):
                        v = getattr(x, f, None)
                        if isinstance(v, str):
                            cs.add(v)
                if c.guard is not None:
                    self.load(c.guard, cs)
                out = self.join(out, self.block(c.body, cs))
            return out
        for c in ast.iter_child_nodes(s):
            self.load(c, st)
        return st


# --------------------------------------------------------------- checker
class Checker(object):
    def __init__(self, prog):
        self.repo = Repo(prog)
        self.ext = external_names()
        with open(os.path.join(HERE, 'external_modules.json')) as f:
            d = json.load(f)
        self.ext_modules = {
            'modules': dict((k, set(v.split()))
                            for k, v in d['modules'].items()),
            'submodules': d['submodules']}
        self.faults = {}          # key -> (where, text)
        self.counts = {'names': 0, 'attributes of self': 0,
                       'attributes of other objects': 0,
                       'calls matched with a signature': 0,
                       'loads of local variables': 0,
                       'imports': 0, 'functions': 0}
        self.functions = {}       # qualname -> (where, n references)

    # ------------------------------------------------------------ report
    def fault(self, scope, rule, ref, node, text):
        mod = scope.module.name
        unit = mod + '.' + scope.cls.name if scope.cls is not None else \
            '.'.join(scope.qual.split('.')[:2])
        if rule == 'attribute':
            # the receiver is only a name for the same object
            ref = ref.rsplit('.', 1)[-1]
        key = '%s/%s/%s' % (unit, rule, ref.replace(' ', ''))
        where = 'src/%s.py:%d %s' % (mod, node.lineno, scope.qual)
        self.faults.setdefault(key, []).append((where, text))

    # ------------------------------------------------------------- walk
    def run(self):
        for m in self.repo.modules.values():
            self.module(m)
        used = self.used()
        for s in function_scopes(self.repo):
            n = s.node.name
            if n.startswith('_') and not n.endswith('__') and n not in used:
                continue               # private and reached from dead code
            self.counts['functions'] += 1
            before = sum(self.counts.values())
            self.scope(s)
            self.functions[s.qual] = (
                'src/%s.py:%d' % (s.module.name, s.node.lineno),
                sum(self.counts.values()) - before)

    def used(self):
        """names that statements which can be reached refer to"""
        dead = set()
        for s in function_scopes(self.repo):
            dead |= Flow(s, lambda e: None).dead
        out = set()

        def rec(n):
            if n in dead:
                return
            if isinstance(n, ast.Name):
                out.add(n.id)
            elif isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                out.add(n.value)
            for c in ast.iter_child_nodes(n):
                rec(c)
        for m in self.repo.modules.values():
            rec(m.tree)
        return out

    def module(self, m):
        top = Scope(None, None, m, None, m.name + '.<module>')
        for name, (kind, p) in m.globals.items():
            if kind == 'from' and p[0] in self.repo.modules:
                self.counts['imports'] += 1
                if self.repo.deref((kind, p))[0] == 'missing' and \
                        not self.repo.modules[p[0]].open:
                    node = next(n for n in ast.walk(m.tree) if isinstance(
                        n, ast.ImportFrom) and n.module == p[0] and any(
                            a.name == p[1] for a in n.names))
                    self.fault(top, 'import', p[0] + '.' + p[1], node,
                               'module %s defines no %s' % p)
            if kind == 'from' and p[0] in self.ext_modules['modules']:
                self.counts['imports'] += 1
                if p[1] not in self.ext_modules['modules'][p[0]] and \
                        not self.sub(p[0] + '.' + p[1]) and \
                        not self.optional(m, p):
                    node = next(n for n in ast.walk(m.tree) if isinstance(
                        n, ast.ImportFrom) and n.module == p[0] and any(
                            a.name == p[1] for a in n.names))
                    self.fault(top, 'import', p[0] + '.' + p[1], node,
                               'module %s has no %s' % p)
        # module-level and class-level expressions
        def rec(node, cls):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, FUNC):
                    for d in ch.args.defaults + [
                            x for x in ch.args.kw_defaults if x is not None] \
                            + ch.decorator_list:
                        self.expr(d, Scope(None, None, m, None, top.qual),
                                  extra=cls)
                elif isinstance(ch, ast.ClassDef):
                    for b in ch.bases + ch.decorator_list:
                        self.expr(b, top)
                    c = next((k for k in self.repo.classes
                              if k.node is ch), None)
                    rec(ch, c)
                elif isinstance(ch, ast.expr):
                    self.expr(ch, top, extra=cls)
                elif not isinstance(ch, (ast.Import, ast.ImportFrom)):
                    rec(ch, cls)
        rec(m.tree, None)

    @staticmethod
    def optional(m, p):
        """imported inside a try statement"""
        return any(isinstance(t, ast.Try) and any(
            isinstance(n, ast.ImportFrom) and n.module == p[0] and any(
                a.name == p[1] for a in n.names)
            for b in t.body for n in ast.walk(b))
            for t in ast.walk(m.tree))

    def scope(self, s):
        self.types = self.local_types(s)

        def rep(e):
            self.fault(s, 'unbound', e.id, e,
                       'local variable %s is read before any assignment'
                       % e.id)
        for n in ast.walk(s.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    n.id in s.locals:
                self.counts['loads of local variables'] += 1
        self.dead = Flow(s, rep).dead
        for st in s.node.body:
            self.visit(st, s)

    def visit(self, n, s):
        if n in self.dead:
            return
        if isinstance(n, FUNC):
            for d in n.args.defaults + [x for x in n.args.kw_defaults
                                        if x is not None] + n.decorator_list:
                self.visit(d, s)
            self.nested(n, n.body, s, s.qual + '.<locals>.' + n.name)
            return
        if isinstance(n, ast.ClassDef):
            for ch in ast.iter_child_nodes(n):
                self.visit(ch, s)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                self.visit(d, s)
            self.nested(n, [n.body], s, s.qual)
            return
        if isinstance(n, COMP):
            self.visit(n.generators[0].iter, s)
            inner = Scope(n, s, s.module, s.cls, s.qual)
            for k, g in enumerate(n.generators):
                if k:
                    self.visit(g.iter, inner)
                self.visit(g.target, inner)
                for i in g.ifs:
                    self.visit(i, inner)
            for f in ('elt', 'key', 'value'):
                if hasattr(n, f):
                    self.visit(getattr(n, f), inner)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            if isinstance(n, ast.ImportFrom) and \
                    n.module in self.repo.modules:
                o = self.repo.modules[n.module]
                for a in n.names:
                    self.counts['imports'] += 1
                    if a.name != '*' and a.name not in o.globals and \
                            not o.open:
                        self.fault(s, 'import', n.module + '.' + a.name, n,
                                   'module %s defines no %s' % (
                                       n.module, a.name))
            return
        if isinstance(n, ast.Name):
            self.name(n, s)
            return
        if isinstance(n, ast.Attribute):
            self.attribute(n, s)
            self.visit(n.value, s)
            return
        if isinstance(n, ast.Call):
            self.call(n, s)
        self.usage(n, s)
        for ch in ast.iter_child_nodes(n):
            self.visit(ch, s)

    def nested(self, n, body, s, qual):
        inner = Scope(n, s, s.module, s.cls, qual)
        if isinstance(n, FUNC):
            def rep(e):
                self.fault(inner, 'unbound', e.id, e, 'local variable %s is '
                           'read before any assignment' % e.id)
            self.dead |= Flow(inner, rep).dead
        keep = self.types
        self.types = dict((k, v) for k, v in keep.items()
                          if k not in inner.locals)
        for st in body:
            self.visit(st, inner)
        self.types = keep

    def expr(self, e, s, extra=None):
        self.types = {}
        for n in ast.walk(e):
            if isinstance(n, (ast.Lambda,) + COMP):
                return
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if extra is not None and (n.id in extra.attrs or
                                          n.id in extra.methods):
                    continue
                self.name(n, s)

    # ------------------------------------------------------------- rules
    def name(self, n, s):
        if not isinstance(n.ctx, ast.Load):
            return
        self.counts['names'] += 1
        if s.owner(n.id) is not None:
            return
        if n.id in s.module.globals or n.id in BUILTINS or s.module.open:
            return
        if n.id == '__class__' and s.cls is not None:
            return
        self.fault(s, 'name', n.id, n, 'name %s is not defined' % n.id)

    def me(self, s):
        """name of the instance parameter of the enclosing method"""
        top = s
        while top.parent is not None:
            top = top.parent
        f = top.node
        if top.cls is None or not isinstance(f, FUNC):
            return None
        ds = resolve.decorators(f)
        if 'staticmethod' in ds or 'classmethod' in ds:
            return None
        a = f.args.posonlyargs + f.args.args
        if not a:
            return None
        name = a[0].arg
        # re-bound somewhere: not the instance any more
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id == name and \
                    isinstance(x.ctx, ast.Store):
                return None
        if s is not top and s.owner(name) is not top:
            return None
        return name

    def receiver(self, e, s):
        """('self', cls) | ('inst', [cls]) | ('class', cls) | ('module', m)
        | None"""
        if isinstance(e, ast.Name):
            if s.cls is not None and e.id == self.me(s):
                return ('self', s.cls)
            own = s.owner(e.id)
            if own is None:
                g = s.module.globals.get(e.id)
                if g is not None:
                    k, p = self.repo.deref(g)
                    if k == 'class':
                        return ('class', p)
                    if k == 'repomodule':
                        return ('module', p)
                    if k in ('module', 'external'):
                        return ('external', None)
                return None
            if e.id in self.types:
                return ('inst', self.types[e.id])
            return None
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id == 'super' and \
                    s.cls is not None and not e.args and \
                    f.id not in s.module.globals:
                return ('super', s.cls)
            c = self.repo.resolve_static(s.module, f) if not (
                isinstance(f, ast.Name) and s.owner(f.id)) else None
            if isinstance(c, ClassInfo):
                return ('inst', [c])
            return None
        return None

    def local_types(self, s):
        """names only ever assigned results of repository constructors"""
        vals = {}
        f = s.node
        params = set()
        a = f.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            params.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x is not None:
                params.add(x.arg)
        simple = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                simple.setdefault(n.targets[0].id, []).append(
                    (n.targets[0], n.value))
        stores = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                stores[n.id] = stores.get(n.id, 0) + 1
            elif isinstance(n, FUNC + (ast.ClassDef,)):
                stores[n.name] = stores.get(n.name, 0) + 9
            elif isinstance(n, ast.ExceptHandler) and n.name:
                stores[n.name] = 9
            elif isinstance(n, ast.arg) and n.arg not in params:
                stores[n.arg] = 9
        for name, lst in simple.items():
            if name in params or stores.get(name, 0) != len(lst):
                continue
            cl = []
            for _, v in lst:
                c = None
                if isinstance(v, ast.Call) and not (isinstance(
                        v.func, ast.Name) and v.func.id in s.locals):
                    c = self.repo.resolve_static(s.module, v.func)
                if not isinstance(c, ClassInfo):
                    cl = None
                    break
                cl.append(c)
            if cl:
                vals[name] = cl
        return vals

    def attribute(self, n, s):
        if not isinstance(n.ctx, ast.Load):
            return
        r = self.receiver(n.value, s)
        attr = mangle(s.cls.name if s.cls is not None else None, n.attr)
        if r is not None and r[0] == 'external' or isinstance(
                n.value, ast.Attribute):
            self.external(n, s)
        if r is not None and r[0] == 'external':
            return
        if r is not None and r[0] == 'self':
            self.counts['attributes of self'] += 1
            c = r[1]
            if c.open() or any(d.external or d.dynamic
                               for d in c.descendants()):
                return
            if self.guarded(n, s):
                return
            if not c.has(attr):
                self.fault(s, 'attribute', 'self.' + n.attr, n,
                           'no class in the hierarchy of %s defines %s'
                           % (c.name, n.attr))
            return
        if r is not None and r[0] == 'super':
            c = r[1]
            self.counts['attributes of other objects'] += 1
            if not c.open() and attr not in OBJECT_ATTRS and not any(
                    attr in b.methods or attr in b.attrs
                    for b in c.mro()[1:]) and not self.mixed(c):
                self.fault(s, 'attribute', 'super().' + n.attr, n,
                           'no ancestor of %s defines %s' % (c.name, n.attr))
            return
        if r is not None and r[0] in ('inst', 'class'):
            self.counts['attributes of other objects'] += 1
            cs = r[1] if r[0] == 'inst' else [r[1]]
            if any(c.open() for c in cs):
                return
            if self.guarded(n, s):
                return
            # instances may carry attributes set from outside the class
            if any(c.has(attr, down=False) for c in cs) or \
                    self.set_elsewhere(attr):
                return
            self.fault(s, 'attribute', ast.unparse(n.value).split('(')[0] +
                       '.' + n.attr, n, '%s has no attribute %s' % (
                           '/'.join(c.name for c in cs), n.attr))
            return
        if r is not None and r[0] == 'module':
            self.counts['attributes of other objects'] += 1
            m = r[1]
            if not m.open and attr not in m.globals and \
                    attr not in OBJECT_ATTRS and not attr.startswith('__'):
                self.fault(s, 'attribute', m.name + '.' + n.attr, n,
                           'module %s defines no %s' % (m.name, n.attr))
            return
        self.counts['attributes of other objects'] += 1
        if attr in self.repo.universe or attr in self.ext or \
                attr in OBJECT_ATTRS:
            return
        if attr.startswith('__') and attr.endswith('__'):
            return
        if self.guarded(n, s) or self.from_external(n.value, s):
            return
        self.fault(s, 'attribute', '?.' + n.attr, n,
                   'nothing defines an attribute or method %s' % n.attr)

    def external_module(self, e, s):
        """name of the external module an expression denotes"""
        if isinstance(e, ast.Name):
            if s.owner(e.id) is not None:
                return None
            g = s.module.globals.get(e.id)
            if g is None:
                return None
            k, p = self.repo.deref(g)
            if k == 'module':
                return p
            if k == 'external':
                return self.sub(p[0] + '.' + p[1])
            return None
        if isinstance(e, ast.Attribute):
            m = self.external_module(e.value, s)
            return self.sub(m + '.' + e.attr) if m else None
        return None

    def sub(self, name):
        ms = self.ext_modules
        return ms['submodules'].get(name) or (
            name if name in ms['modules'] else None)

    def external(self, n, s):
        m = self.external_module(n.value, s)
        if m is None or m not in self.ext_modules['modules']:
            return
        self.counts['names of external modules'] = self.counts.get(
            'names of external modules', 0) + 1
        if n.attr in self.ext_modules['modules'][m] or n.attr in \
                OBJECT_ATTRS or self.guarded(n, s) or \
                self.sub(m + '.' + n.attr):
            return
        self.fault(s, 'attribute', m + '.' + n.attr, n,
                   'module %s has no %s' % (m, n.attr))

    def mixed(self, c):
        # cooperative super() through a descendant with several bases
        return any(len(d.bases) > 1 for d in c.descendants())

    def set_elsewhere(self, attr):
        if not hasattr(self, '_sets'):
            self._sets = set()
            for m in self.repo.modules.values():
                for f in ast.walk(m.tree):
                    if isinstance(f, ast.Attribute) and isinstance(
                            f.ctx, ast.Store) and not (
                            isinstance(f.value, ast.Name) and
                            f.value.id == 'self'):
                        self._sets.add(f.attr)
        return attr in self._sets

    def from_external(self, e, s):
        """rooted in an imported external module"""
        while isinstance(e, (ast.Attribute, ast.Call, ast.Subscript)):
            e = e.func if isinstance(e, ast.Call) else e.value
        if isinstance(e, ast.Name) and s.owner(e.id) is None:
            g = s.module.globals.get(e.id)
            if g is not None and self.repo.deref(g)[0] in (
                    'module', 'external'):
                return True
        return False

    def guarded(self, n, s):
        """hasattr(x, 'attr') or except AttributeError around the access"""
        top = s
        while top.parent is not None:
            top = top.parent
        if top.node is None:
            return False
        for x in ast.walk(top.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                    x.func.id in ('hasattr', 'getattr') and \
                    len(x.args) > 1 and isinstance(x.args[1], ast.Constant) \
                    and x.args[1].value == n.attr:
                return True
            if isinstance(x, ast.Try) and any(
                    n is y for b in x.body for y in ast.walk(b)):
                for h in x.handlers:
                    if h.type is None or any(
                            isinstance(y, ast.Name) and y.id in (
                                'AttributeError', 'Exception',
                                'BaseException')
                            for y in ast.walk(h.type)):
                        return True
        return False

    # ------------------------------------------------------------- calls
    def candidates(self, n, s):
        """(list of (signature, label), exact) for a call; None if unknown"""
        f = n.func
        if isinstance(f, ast.Name):
            if s.owner(f.id) is not None:
                return None
            g = s.module.globals.get(f.id)
            if g is None:
                return None
            k, p = self.repo.deref(g)
            if k == 'func':
                if p.decorator_list:
                    return None
                return [(Sig(p), f.id)]
            if k == 'class':
                return self.constructor(p)
            return None
        if not isinstance(f, ast.Attribute):
            return None
        r = self.receiver(f.value, s)
        attr = mangle(s.cls.name if s.cls is not None else None, f.attr)
        if r is None:
            if attr in self.ext or attr in self.repo.data_attrs or \
                    attr in OBJECT_ATTRS or attr not in self.repo.by_method:
                return None
            if any(attr in m.globals for m in self.repo.modules.values()):
                return None
            return self.method_sigs(self.repo.by_method[attr], None)
        kind = r[0]
        if kind == 'external':
            return None
        if kind == 'module':
            g = r[1].globals.get(f.attr)
            if g is None:
                return None
            k, p = self.repo.deref(g)
            if k == 'func' and not p.decorator_list:
                return [(Sig(p), f.attr)]
            if k == 'class':
                return self.constructor(p)
            return None
        if kind == 'super':
            if self.mixed(r[1]) or r[1].open():
                return None
            for c in r[1].mro()[1:]:
                if attr in c.methods:
                    return self.method_sigs([c.methods[attr]], True)
            return None
        if kind == 'class':
            if r[1].open():
                return None
            m = r[1].find_method(attr)
            if m is None:
                return None
            return self.method_sigs([m], False)
        cs = r[1] if kind == 'inst' else [r[1]]
        ms = []
        for c in cs:
            if c.open():
                return None
            if any(attr in k.attrs and attr not in k.methods
                   for k in c.mro() + c.descendants()):
                return None       # an attribute may hold the callable
            m = c.find_method(attr)
            if m is not None:
                ms.append(m)
            if kind == 'self':
                for d in c.descendants():
                    if attr in d.methods:
                        ms.append(d.methods[attr])
        if not ms:
            return None
        return self.method_sigs(ms, True)

    def constructor(self, c):
        if c.open() or c.decorated:
            return None
        if c.find_method('__new__') is not None:
            return None
        m = c.find_method('__init__')
        if m is None:
            empty = ast.parse('def __init__(self): pass').body[0]
            return [(Sig(empty, True), c.name)]
        return self.method_sigs([m], True)

    def method_sigs(self, ms, bound):
        out = []
        for m in ms:
            if m.property or not m.plain:
                return None
            if bound is None:
                # receiver unknown: instance or class
                out.append((m.sig(True), m.cls.name + '.' + m.name))
                if not m.static and not m.classmethod:
                    continue
            else:
                out.append((m.sig(bound), m.cls.name + '.' + m.name))
        return out

    def call(self, n, s):
        cand = self.candidates(n, s)
        if cand is None:
            return
        self.counts['calls matched with a signature'] += 1
        why = [(sig.mismatch(n), label) for sig, label in cand]
        if all(w for w, _ in why):
            f = n.func
            ref = f.id if isinstance(f, ast.Name) else f.attr
            self.fault(s, 'call', ref, n, '; '.join(
                '%s: %s' % (l, w) for w, l in why[:3]))


    # ------------------------------------------------- values of no use
    def usage(self, n, s):
        """expressions in positions where None or a method cannot be meant"""
        if isinstance(n, ast.Call) and isinstance(
                n.func, (ast.Constant, ast.Tuple, ast.List, ast.Dict,
                         ast.JoinedStr)):
            self.fault(s, 'value', 'call-of-literal', n,
                       'a literal is called')
        if isinstance(n, ast.Raise) and isinstance(
                n.exc, (ast.Constant, ast.Tuple, ast.JoinedStr)):
            self.fault(s, 'value', 'raise-of-literal', n,
                       'a literal is raised')
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and \
                isinstance(n.left, ast.Constant) and \
                isinstance(n.left.value, str):
            self.format(n, s)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and \
                isinstance(n.slice, ast.Constant) and \
                isinstance(n.slice.value, str):
            self.counts['literal keys'] = self.counts.get(
                'literal keys', 0) + 1
            if n.slice.value not in self.strings() and not \
                    self.caught(n, s, ('KeyError', 'LookupError')) and not \
                    self.from_external(n.value, s):
                self.fault(s, 'key', n.slice.value, n,
                           'nothing stores anything under the key %r'
                           % n.slice.value)
        for e, boolean in self.strict(n):
            self.counts['values used'] = self.counts.get(
                'values used', 0) + 1
            if isinstance(e, ast.Call) and not boolean:
                ms = self.targets(e, s)
                if ms and all(self.returns_nothing(m) for m in ms):
                    self.fault(s, 'value', ast.unparse(e.func), e,
                               'the result of %s is used but it returns '
                               'nothing' % ast.unparse(e.func))
            elif isinstance(e, ast.Attribute):
                ms = self.methods_only(e, s)
                if ms:
                    self.fault(s, 'value', ast.unparse(e), e,
                               'method %s is used as a value but not called'
                               % e.attr)

    def strings(self):
        """string constants that occur other than as key of an access"""
        if not hasattr(self, '_strings'):
            self._strings = set()
            for m in self.repo.modules.values():
                skip = set()
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Subscript) and isinstance(
                            n.ctx, ast.Load):
                        skip.add(id(n.slice))
                    elif isinstance(n, ast.Compare):
                        for x in [n.left] + n.comparators:
                            skip.add(id(x))
                    elif isinstance(n, ast.Expr):
                        skip.add(id(n.value))
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Constant) and isinstance(
                            n.value, str) and id(n) not in skip:
                        self._strings.add(n.value)
                    elif isinstance(n, ast.keyword) and n.arg:
                        self._strings.add(n.arg)
        return self._strings

    def caught(self, n, s, names):
        top = s
        while top.parent is not None:
            top = top.parent
        for x in ast.walk(top.node):
            if isinstance(x, ast.Try) and any(
                    n is y for b in x.body for y in ast.walk(b)):
                for h in x.handlers:
                    if h.type is None or any(
                            isinstance(y, ast.Name) and y.id in names + (
                                'Exception', 'BaseException')
                            for y in ast.walk(h.type)):
                        return True
        return False

    def strict(self, n):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            return [(n.test, True)]
        if isinstance(n, ast.Assert):
            return [(n.test, True)]
        if isinstance(n, ast.BoolOp):
            return [(v, True) for v in n.values[:-1]]
        if isinstance(n, ast.UnaryOp):
            return [(n.operand, isinstance(n.op, ast.Not))]
        if isinstance(n, ast.BinOp):
            return [(n.left, False), (n.right, False)]
        if isinstance(n, ast.Subscript):
            return [(n.value, False)]
        if isinstance(n, ast.Attribute):
            return [(n.value, False)] if isinstance(n.value, ast.Call) \
                else []
        if isinstance(n, ast.For):
            return [(n.iter, False)]
        if isinstance(n, ast.comprehension):
            return [(n.iter, False)]
        if isinstance(n, ast.Starred):
            return [(n.value, False)]
        if isinstance(n, ast.Assign) and isinstance(
                n.targets[0], (ast.Tuple, ast.List)):
            return [(n.value, False)]
        if isinstance(n, ast.Compare):
            out = []
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    out += [(left, False), (right, False)]
                elif isinstance(op, (ast.In, ast.NotIn)):
                    out += [(right, False)]
                left = right
            return out
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ('len', 'sorted', 'sum', 'min', 'max', 'set',
                              'enumerate', 'reversed', 'abs', 'float',
                              'int') and len(n.args) >= 1:
            return [(n.args[0], False)]
        return []

    def targets(self, call, s):
        """function definitions the call may reach; None if unknown"""
        f = call.func
        if isinstance(f, ast.Name):
            if s.owner(f.id) is not None:
                return None
            g = s.module.globals.get(f.id)
            if g is None:
                return None
            k, p = self.repo.deref(g)
            return [p] if k == 'func' and not p.decorator_list else None
        if not isinstance(f, ast.Attribute):
            return None
        r = self.receiver(f.value, s)
        attr = mangle(s.cls.name if s.cls is not None else None, f.attr)
        if r is None:
            if attr in self.ext or attr in self.repo.data_attrs or \
                    attr in OBJECT_ATTRS:
                return None
            ms = self.repo.by_method.get(attr)
            if not ms or any(attr in m.globals
                             for m in self.repo.modules.values()):
                return None
        elif r[0] in ('self', 'inst', 'class'):
            cs = r[1] if r[0] == 'inst' else [r[1]]
            ms = []
            for c in cs:
                if c.open() or any(attr in k.attrs for k in
                                   c.mro() + c.descendants()):
                    return None
                m = c.find_method(attr)
                if m is not None:
                    ms.append(m)
                ms += [d.methods[attr] for d in c.descendants()
                       if attr in d.methods]
        else:
            return None
        if not ms or any(m.property or not m.plain for m in ms):
            return None
        return [m.node for m in ms]

    def returns_nothing(self, f):
        real = [x for x in f.body if not (isinstance(x, ast.Expr) and
                                          isinstance(x.value, ast.Constant))]
        if not real or all(isinstance(x, (ast.Pass, ast.Raise))
                           for x in real):
            return False          # abstract
        todo = list(f.body)
        while todo:
            x = todo.pop()
            if isinstance(x, FUNC + (ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return False
            if isinstance(x, ast.Return) and x.value is not None and not (
                    isinstance(x.value, ast.Constant) and
                    x.value.value is None):
                return False
            todo.extend(ast.iter_child_nodes(x))
        return True

    def methods_only(self, e, s):
        r = self.receiver(e.value, s)
        attr = mangle(s.cls.name if s.cls is not None else None, e.attr)
        if r is None:
            if attr in self.ext or attr in self.repo.data_attrs or \
                    attr in OBJECT_ATTRS or self.set_elsewhere(attr) or any(
                        attr in m.globals
                        for m in self.repo.modules.values()):
                return False
            ms = self.repo.by_method.get(attr)
        elif r[0] in ('self', 'inst'):
            cs = r[1] if r[0] == 'inst' else [r[1]]
            ms = []
            for c in cs:
                if c.open() or any(attr in k.attrs for k in
                                   c.mro() + c.descendants()) or \
                        self.set_elsewhere(attr):
                    return False
                m = c.find_method(attr)
                if m is not None:
                    ms.append(m)
        else:
            return False
        return bool(ms) and all(m.plain and not m.property for m in ms)

    def format(self, n, s):
        import re
        spec = re.findall(r'%(\([^)]*\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?'
                          r'[hlL]?([a-zA-Z%])', n.left.value)
        if any(x[0] or x[1] == '*' or x[2] == '*' for x in spec):
            return
        need = sum(1 for x in spec if x[3] != '%')
        r = n.right
        if isinstance(r, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in r.elts):
                return
            have = len(r.elts)
        elif isinstance(r, (ast.Constant, ast.JoinedStr, ast.BinOp)):
            have = 1
        else:
            return
        self.counts['format strings'] = self.counts.get(
            'format strings', 0) + 1
        if need != have:
            self.fault(s, 'format', n.left.value[:40], n,
                       '%d values for %d conversions' % (have, need))


def run(ctx):
    ctx.technique = ('name, attribute and signature resolution over the '
                     'syntax trees with the class hierarchy; forward '
                     'reaching-definitions dataflow for local variables')
    ctx.explanation = (
        'Every name, every attribute of self, of objects whose class is '
        'known and of other objects, every call whose target is known and '
        'every read of a local variable in src/ is resolved against the '
        'definitions in the sources; a reference with no possible '
        'definition, a call no candidate signature accepts and a local read '
        'that no assignment reaches is reported.')
    ctx.assumptions = [
        'attribute names of external libraries come from a committed list '
        'of names; an attribute of an unknown object is accepted if any '
        'repository class or any external object has that name',
        'attributes are not created through setattr with computed names '
        'outside the class concerned']
    ck = Checker(ctx.prog)
    ck.run()
    for q in ck.functions:
        ctx.analysed.add(q)
    for key, lst in sorted(ck.faults.items()):
        # one obligation for each site beyond those already known
        for k, (where, text) in enumerate(lst):
            ctx.record(key, 'violated', where, text)
    bad = set(w.split()[-1] for l in ck.faults.values() for w, _ in l)
    for q, (where, n) in sorted(ck.functions.items()):
        if q not in bad:
            ctx.record('resolved/' + q, 'ok', where + ' ' + q,
                       '%d references' % n)
    ctx.info['references'] = dict(ck.counts)
    for k in ('names', 'attributes of self', 'calls matched with a signature',
              'loads of local variables'):
        if ck.counts[k] < 50:
            raise AnalysisBroken('C19: too few ' + k)
