"""Abstract interpreter for the Python subset used by the repository.

Values are Python constants (constant propagation), normal-form scalars
(`Sym`), matrix words (`mat.Mat`), numpy *object* arrays of those (shape
domain), native containers holding abstract values, abstract objects of the
repository's classes, `Alt` (finite joins) and `Top`.

A condition that the domain cannot decide is not explored as a path: both
branches are interpreted from the same pre-state and their post-states are
joined.  Loops over undetermined iterables are run to a widened fixpoint.
No statement of the repository is ever executed by Python itself.
"""
import ast
import collections
import enum
import itertools
import math
import numbers
import operator
import string
import types
from fractions import Fraction

import numpy as np

from .sym import Sym, NotConst
from .loader import AnalysisBroken, Program

MISSING = object()


class Top(object):
    """unknown value"""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why

    def __deepcopy__(self, memo):
        return self


DIV0 = Top('division by zero')      # nan / inf: never equal to a value


class Rest(object):
    """inside a list: zero or more further elements"""
    def __init__(self, v=None):
        self.v = v if v is not None else Top('rest')

    def __repr__(self):
        return 'Rest'


class Alt(object):
    """one of finitely many values"""
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals

    def __repr__(self):
        return 'Alt%r' % (self.vals,)


class Uninit(object):
    def __repr__(self):
        return 'Uninit'

    def _bad(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __truediv__ = __rtruediv__ = __pow__ = __neg__ = __abs__ = _bad

    def sqrt(self):
        return self
    exp = sqrt

    def __deepcopy__(self, memo):
        return self


UNINIT = Uninit()


class AbsRaise(Exception):
    def __init__(self, etype, msg='', node=None, value=None):
        self.value = value
        Exception.__init__(self, etype, msg)
        self.etype = etype
        self.msg = msg
        self.node = node


class Imprecise(Exception):
    """the domain lost what the obligation needs"""


class Budget(Exception):
    pass


class Endless(BaseException):
    """a loop of the analysed code that definitely does not end"""


class Truncated(Endless):
    """a value that need not be an integer stored into an integer array"""


class Overrun(BaseException):
    """an obligation took more time than the analyser grants it"""


class Func(object):
    def __init__(self, node, module, cls, closure, name, defaults, kwdefaults):
        self.node = node
        self.module = module
        self.cls = cls
        self.closure = closure
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.kind = 'function'
        self.isgen = None
        self.memo = None          # results kept by functools.lru_cache
        self.manager = False      # contextlib.contextmanager
        self._locals = None
        self.attrs = {}

    @property
    def locals(self):
        """names the function binds itself"""
        if self._locals is None:
            self._locals = _bound_names(self.node)
        return self._locals

    @property
    def qualname(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return '<func %s.%s>' % (self.module.name, self.qualname)


class Bound(object):
    def __init__(self, func, obj):
        self.func = func
        self.obj = obj


class Cls(object):
    def __init__(self, name, bases, ns, module):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.enum = None
        self.fields = []
        self.mro = self._mro()

    def _mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro:
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return MISSING

    def is_sub(self, other):
        return other in self.mro

    def native_bases(self):
        return [b for c in self.mro for b in c.bases
                if not isinstance(b, Cls)]

    def __repr__(self):
        return '<class %s>' % self.name


class Obj(object):
    count = 0
    # where objects sit in sets: python derives it from their address, which
    # is arbitrary. 0: order of creation, 1: reversed, others: scattered
    policy = 0

    def __init__(self, cls, name=None, **attrs):
        self.cls = cls
        self.attrs = dict(attrs)
        Obj.count += 1
        n, p = Obj.count, Obj.policy
        self.place = n if p == 0 else -n - 1 if p == 1 else \
            (n * (0x9E3779B1, 0x85EBCA6B, 0xC2B2AE35, 0x27D4EB2F)[p % 4]
             & 0x7fffffff)
        self.name = name or '%s#%d' % (cls.name if cls else 'obj', Obj.count)

    def __repr__(self):
        return '<%s>' % self.name

    def __hash__(self):
        return self.place


class ObjEq(Obj):
    """instance of a class that defines its own equality or hash"""
    def __eq__(self, other):
        if self is other:
            return True
        m = self.cls.lookup('__eq__')
        if m is MISSING or m is None:
            return False
        r = self.it.truth(self.it.call_func(m, [self, other], {}))
        if r is None:
            raise Imprecise('equality of %s unknown' % self.cls.name)
        return r

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        for c in self.cls.mro:
            m = c.ns.get('__hash__', MISSING)
            if m is not MISSING and m is not None:
                h = self.it.call_func(m, [self], {})
                if isinstance(h, Top):
                    raise Imprecise('hash of %s unknown' % self.cls.name)
                return hash(h)
            if '__eq__' in c.ns:
                raise AbsRaise('TypeError', 'unhashable type: %s'
                               % self.cls.name)
        return self.place


class CtxV(object):
    """a context manager: enter(it, body) runs body(value) inside it"""
    def __init__(self, enter):
        self.enter = enter


class ModV(object):
    """repository module"""
    def __init__(self, name):
        self.name = name
        self.ns = {}


class NatMod(object):
    def __init__(self, name, obj=None):
        self.name = name
        self.obj = obj

    def __repr__(self):
        return '<module %s>' % self.name


class PropV(object):
    """property(get, set) used as a function"""
    def __init__(self, get, set=None):
        self.get = get
        self.set = set


class Native(object):
    method = False

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<native %s>' % self.name


class _Unordered(Exception):
    pass


class ExcV(object):
    def __init__(self, etype, args=()):
        self.etype = etype
        self.args = args


class ExcT(object):
    """exception class"""
    def __init__(self, name, bases=()):
        self.name = name
        self.bases = bases

    def __repr__(self):
        return self.name


class Super(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Frame(object):
    def __init__(self, func, module, cls, closure=None):
        self.func = func
        self.module = module
        self.cls = cls
        self.vars = {}
        self.closure = closure
        self.pend = []
        self.globals_ = set()
        self.nonlocals_ = set()
        self.yields = None
        self.on_yield = None
        self.handling = []


class Txn(object):
    __slots__ = ('snap',)

    def __init__(self):
        self.snap = {}


NORMAL, RETURN, BREAK, CONTINUE = 'normal', 'return', 'break', 'continue'

_BIN = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod, ast.Pow: operator.pow,
    ast.MatMult: operator.matmul, ast.BitAnd: operator.and_,
    ast.BitOr: operator.or_, ast.BitXor: operator.xor,
    ast.LShift: operator.lshift, ast.RShift: operator.rshift,
}

_DUNDER = {
    ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
    ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
    ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or',
    ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift'}

_LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort',
             'reverse', 'appendleft', 'popleft', 'extendleft', 'rotate'}
_DICT_MUT = {'update', 'pop', 'popitem', 'clear', 'setdefault',
             'move_to_end'}
_SET_MUT = {'add', 'remove', 'discard', 'pop', 'clear', 'update',
            'intersection_update', 'difference_update',
            'symmetric_difference_update'}

EXC_NAMES = ['Exception', 'BaseException', 'ValueError', 'TypeError',
             'KeyError', 'IndexError', 'AttributeError', 'RuntimeError',
             'NotImplementedError', 'AssertionError', 'ZeroDivisionError',
             'StopIteration', 'ImportError', 'ModuleNotFoundError',
             'ArithmeticError', 'LookupError', 'OverflowError', 'OSError',
             'NameError', 'UnboundLocalError', 'Warning', 'UserWarning',
             'DeprecationWarning', 'FloatingPointError']
EXC_PARENT = {'KeyError': 'LookupError', 'IndexError': 'LookupError',
              'ModuleNotFoundError': 'ImportError',
              'NotImplementedError': 'RuntimeError',
              'ZeroDivisionError': 'ArithmeticError',
              'UnboundLocalError': 'NameError'}


def is_num(x):
    return isinstance(x, (int, float, Fraction, Sym, complex)) or \
        isinstance(x, np.generic)


def is_arr(x):
    return isinstance(x, np.ndarray)


def is_scalar(x):
    return is_num(x)


def norm_native(v):
    """normalise results of native numpy calls"""
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'f':
            return v.astype(object)
        return v
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    if isinstance(v, tuple) and type(v) is tuple:
        w = tuple(norm_native(x) for x in v)
        return v if all(x is y for x, y in zip(v, w)) else w
    if isinstance(v, list):
        # the same list, unless something in it had to be converted
        w = [norm_native(x) for x in v]
        return v if all(x is y for x, y in zip(v, w)) else w
    return v


def foreign(v, depth=4):
    """does a value contain objects that only exist in the analyser?"""
    if isinstance(v, (list, tuple, set, frozenset)):
        return depth > 0 and any(foreign(x, depth - 1) for x in v)
    if isinstance(v, dict):
        return depth > 0 and any(foreign(x, depth - 1) for x in v.values())
    if isinstance(v, np.ndarray):
        return v.dtype == object and any(foreign(x, 0) for x in v.ravel())
    if isinstance(v, (Sym, Top, Alt)):
        return True
    return type(v).__module__.startswith('qsa')


def has_top(v, depth=4):
    if isinstance(v, (Top, Alt, Rest)):
        return True
    if depth == 0:
        return False
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return any(isinstance(x, (Top, Alt, Rest)) for x in v.ravel())
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(has_top(x, depth - 1) for x in v)
    if isinstance(v, dict):
        return any(has_top(x, depth - 1) for x in v.values())
    return False


def has_sym(v, depth=4):
    if isinstance(v, Sym):
        return True
    if depth == 0:
        return False
    if isinstance(v, np.ndarray):
        return v.dtype == object and any(isinstance(x, Sym)
                                         for x in v.ravel())
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(has_sym(x, depth - 1) for x in v)
    return False


def owner(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        return isinstance(a, (Sym, int, float, Fraction)) and \
            isinstance(b, (Sym, int, float, Fraction)) and \
            not isinstance(a, bool) and not isinstance(b, bool) and \
            Sym.of(a).equals(b)
    if type(a) is not type(b):
        if isinstance(a, (int, float, Fraction)) and \
                isinstance(b, (int, float, Fraction)):
            return a == b
        return False
    if isinstance(a, (int, float, str, bool, Fraction, type(None))):
        return a == b
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and all(
            same(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Bound):
        return a.func is b.func and a.obj is b.obj
    eqv = getattr(a, 'absint_same', None)
    if eqv is not None:
        return eqv(b)
    return False


def join(a, b):
    if same(a, b):
        return a
    if isinstance(a, Top):
        return a
    if isinstance(b, Top):
        return b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(join(x, y) for x, y in zip(a, b))
    vals = []
    for v in (a.vals if isinstance(a, Alt) else [a]) + \
             (b.vals if isinstance(b, Alt) else [b]):
        if not any(same(v, w) for w in vals):
            vals.append(v)
    if len(vals) == 1:
        return vals[0]
    if len(vals) > 6:
        return Top('join')
    return Alt(vals)


class Interp(object):
    MAXDEPTH = 120

    def __init__(self, program=None, budget=3000000):
        self.prog = program or Program()
        self.mods = {}
        self.txns = []
        self.depth = 0
        self.steps = 0
        self.budget = budget
        self.hooks = {}
        self.notes = []
        self.assumed = 0
        self.analysed = {}
        self.files = {}
        self.overrides = {}
        self.frames = []
        self.maybe_raise = 0
        self.exc_parent = {}
        self.nmatch = 0
        self.exc = {n: ExcT(n) for n in EXC_NAMES}
        self.builtins = self._builtins()
        self.np = self._numpy()
        self.assume_hook = None
        self.line = None

    # ------------------------------------------------------------------
    # state: transactions and joins
    # ------------------------------------------------------------------
    def touch(self, c):
        if not self.txns:
            return
        if isinstance(c, np.ndarray):
            c = owner(c)
        for t in self.txns:
            if id(c) not in t.snap:
                t.snap[id(c)] = (c, self._copy(c))

    @staticmethod
    def _copy(c):
        if isinstance(c, np.ndarray):
            return c.copy()
        if isinstance(c, dict):
            return dict(c)
        if isinstance(c, set):
            return set(c)
        if isinstance(c, collections.deque):
            return list(c)
        return list(c)

    @staticmethod
    def _restore(c, v):
        if isinstance(c, np.ndarray):
            c[...] = v
        elif isinstance(c, dict):
            c.clear()
            c.update(v)
        elif isinstance(c, set):
            c.clear()
            c.update(v)
        elif isinstance(c, collections.deque):
            c.clear()
            c.extend(v)
        else:
            c[:] = v

    def begin(self):
        t = Txn()
        self.txns.append(t)
        return t

    def capture_undo(self, t):
        """record current contents of touched containers, restore snapshots"""
        after = {}
        for i, (c, old) in list(t.snap.items()):
            after[i] = (c, self._copy(c))
        for i, (c, old) in list(t.snap.items()):
            self.touch(c)
            self._restore(c, old)
        return after

    def merge(self, t, after, dead=False):
        """join the captured state `after` (relative to t) into current"""
        if isinstance(after, _Lazy):
            after = {i: (c, o) for i, (c, o) in t.snap.items()}
        if t in self.txns:
            self.txns.remove(t)
        ids = set(t.snap) | set(after)
        for i in ids:
            c, base = t.snap[i] if i in t.snap else (after[i][0], None)
            if i in after:
                other = after[i][1]
            else:
                other = base
            self.touch(c)
            if dead:
                self._restore(c, other)
            else:
                self._join_into(c, other)

    def _join_into(self, c, other):
        if isinstance(c, np.ndarray):
            if c.dtype == object:
                flat = c.reshape(-1) if c.flags['C_CONTIGUOUS'] else None
                it = np.ndindex(*c.shape)
                for ix in it:
                    c[ix] = join(c[ix], other[ix])
            elif not np.array_equal(c, other):
                raise Imprecise('join of differing integer arrays')
        elif isinstance(c, dict):
            for k in list(set(c) | set(other)):
                a, b = c.get(k, MISSING), other.get(k, MISSING)
                if a is MISSING:
                    c[k] = join(b, MaybeUndef(b)) if False else b
                elif b is MISSING:
                    pass
                else:
                    c[k] = join(a, b)
        elif isinstance(c, set):
            c.update(other)
        elif isinstance(c, collections.deque):
            if list(c) != list(other):
                c.clear()
                c.append(Rest())
        else:
            if len(c) == len(other):
                for i in range(len(c)):
                    c[i] = join(c[i], other[i])
            else:
                n = 0
                while n < min(len(c), len(other)) and same(c[n], other[n]):
                    n += 1
                rest = list(c[n:]) + list(other[n:])
                v = None
                for x in rest:
                    x = x.v if isinstance(x, Rest) else x
                    v = x if v is None else join(v, x)
                c[n:] = [Rest(v)]

    # ------------------------------------------------------------------
    # modules
    # ------------------------------------------------------------------
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if not self.prog.is_repo_module(name):
            raise AnalysisBroken('module %s not found' % name)
        m = ModV(name)
        self.mods[name] = m
        m.ns['__name__'] = name
        fr = Frame(None, m, None)
        fr.vars = m.ns
        self.frames.append(fr)
        try:
            for st in self.prog.modules[name].tree.body:
                self.stmt(st, fr)
        finally:
            self.frames.pop()
        return m

    def cls(self, mod, name):
        v = self.module(mod).ns.get(name)
        if not isinstance(v, Cls):
            # moved to another module?
            for n in self.prog.modules:
                v = self.module(n).ns.get(name)
                if isinstance(v, Cls):
                    return v
            raise AnalysisBroken('class %s.%s not found' % (mod, name))
        return v

    def fn(self, mod, name):
        v = self.module(mod).ns.get(name)
        if not isinstance(v, Func):
            for n in self.prog.modules:
                v = self.module(n).ns.get(name)
                if isinstance(v, Func):
                    return v
            raise AnalysisBroken('function %s.%s not found' % (mod, name))
        return v

    def native_module(self, name):
        if name == 'numpy':
            return self.np
        if name == 'math':
            return NatMod('math', math)
        if name == 'itertools':
            return NatMod('itertools', itertools)
        if name == 'collections':
            return NatMod('collections', collections)
        if name == 'numbers':
            return NatMod('numbers', numbers)
        if name == 'operator':
            return NatMod('operator', operator)
        if name == 'functools':
            import functools
            return NatMod('functools', functools)
        return NatMod(name, None)

    # ------------------------------------------------------------------
    # calls
    # ------------------------------------------------------------------
    def call(self, f, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        args = list(args)
        if isinstance(f, Alt):
            return self.alt_map(lambda g: self.call(g, args, kwargs), f)
        if isinstance(f, Top):
            return Top('call of unknown')
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.obj] + args, kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Native):
            try:
                return f.fn(self, args, kwargs)
            except (TypeError, AttributeError, IndexError, KeyError,
                    ValueError, ZeroDivisionError, OverflowError) as e:
                # the model does not cover these arguments
                self.notes.append('model of %s: %s' % (f.name, e))
                return Top('model of ' + f.name)
        if isinstance(f, ExcT):
            return ExcV(f, args)
        if isinstance(f, Obj):
            m = f.cls.lookup('__call__') if f.cls else MISSING
            if m is not MISSING:
                return self.call_func(m, [f] + args, kwargs)
            return Top('call of object')
        if isinstance(f, NatMod):
            return Top('call of module')
        if hasattr(f, 'absint_call'):
            return f.absint_call(self, args, kwargs)
        if callable(f):
            return self.call_py(f, args, kwargs)
        raise AbsRaise('TypeError', 'not callable: %r' % (f,))

    def call_py(self, f, args, kwargs):
        if has_top(args) or has_top(kwargs):
            return Top('native call on unknown')
        try:
            return norm_native(f(*args, **kwargs))
        except (AbsRaise, Budget, Imprecise, AnalysisBroken):
            raise
        except Exception as e:
            if has_sym(list(args)) or has_sym(list(kwargs.values())) or \
                    foreign([args, kwargs]):
                self.notes.append('native %s on symbolic: %s' % (f, e))
                return Top('native on symbolic')
            raise AbsRaise(type(e).__name__, str(e))

    def alt_map(self, fn, alt):
        """apply fn to each alternative in a forked state, join"""
        res = MISSING
        pend = []
        vals = alt.vals
        for k, v in enumerate(vals):
            last = k == len(vals) - 1
            if last:
                try:
                    r = fn(v)
                    ok = True
                except AbsRaise:
                    ok = False
                    if not pend:
                        raise
                for (t, after, pv) in reversed(pend):
                    self.merge(t, after, dead=not ok)
                    r = join(r, pv) if ok else pv
                    ok = True
                return r
            t = self.begin()
            try:
                r = fn(v)
            except AbsRaise:
                self.capture_undo(t)
                self.txns.remove(t)
                self.maybe_raise += 1
                continue
            after = self.capture_undo(t)
            pend.append((t, after, r))

    def instantiate(self, c, args, kwargs):
        if c.enum is not None:
            for m in c.enum:
                if self.truth(self.cmp1(ast.Eq(), m.attrs['value'],
                                        args[0])) is True or m is args[0]:
                    return m
            raise AbsRaise('ValueError', 'not a valid ' + c.name)
        exc = any(isinstance(b, ExcT) for b in c.native_bases())
        if exc and c.lookup('__init__') is MISSING:
            return ExcV(c, args)
        new = c.lookup('__new__')
        if new is not MISSING:
            o = self.call_func(new, [c] + list(args), kwargs)
            if not (isinstance(o, Obj) and o.cls is not None and
                    o.cls.is_sub(c)):
                return o
        else:
            o = self.blank(c)
        if exc:
            o.attrs['args'] = tuple(args)
        init = c.lookup('__init__')
        if init is not MISSING:
            self.call_func(init, [o] + list(args), kwargs)
        return o

    def blank(self, c):
        if c.lookup('__eq__') is not MISSING or \
                c.lookup('__hash__') is not MISSING:
            o = ObjEq(c)
            o.it = self
            return o
        return Obj(c)

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        for n, v in zip(names, args):
            out[n] = v
        if len(args) > len(names):
            if a.vararg:
                out[a.vararg.arg] = tuple(args[len(names):])
            else:
                raise AbsRaise('TypeError', '%s: too many arguments' %
                               f.qualname)
        elif a.vararg:
            out[a.vararg.arg] = ()
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in out:
                    raise AbsRaise('TypeError', 'multiple values for ' + k)
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise AbsRaise('TypeError', '%s: unexpected keyword %s' %
                               (f.qualname, k))
        if a.kwarg:
            out[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, d in enumerate(f.defaults):
            n = names[len(names) - nd + i]
            if n not in out:
                out[n] = d
        for n, d in zip(kwonly, f.kwdefaults):
            if n not in out and d is not MISSING:
                out[n] = d
        for n in names + kwonly:
            if n not in out:
                raise AbsRaise('TypeError', '%s: missing argument %s' %
                               (f.qualname, n))
        return out

    def call_func(self, f, args, kwargs):
        if not isinstance(f, Func):
            return self.call(f, args, kwargs)
        key = f.module.name + '.' + f.qualname
        h = self.hooks.get(key) or self.hooks.get(f.qualname)
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if f.memo is not None:
            return self.memo_call(f, args, kwargs)
        return self.run_func(f, args, kwargs, key)

    def manager(self, f, args, kwargs, key):
        def enter(it, body):
            n = [0]

            def on_yield(v):
                n[0] += 1
                if n[0] > 1:
                    raise AbsRaise('RuntimeError', "generator didn't stop")
                body(v)
            self.run_func(f, args, kwargs, key, on_yield)
            if not n[0]:
                raise AbsRaise('RuntimeError', "generator didn't yield")
        return CtxV(enter)

    def memo_call(self, f, args, kwargs):
        if has_top(args) or has_top(list(kwargs.values())):
            return Top('memo')
        try:
            k = (tuple((type(x).__name__, x) if isinstance(x, Sym) else x
                       for x in args), tuple(sorted(kwargs.items())))
            hit = k in f.memo
        except TypeError as e:
            raise AbsRaise('TypeError', '%s (line %s)' % (e, self.line))
        if not hit:
            r = self.run_func(f, args, kwargs,
                              f.module.name + '.' + f.qualname)
            self.touch(f.memo)
            f.memo[k] = r
        return f.memo[k]

    def run_func(self, f, args, kwargs, key, on_yield=None):
        self.analysed[key] = self.analysed.get(key, 0) + 1
        if self.depth >= self.MAXDEPTH:
            self.notes.append('depth bound at ' + key)
            return Top('recursion')
        fr = Frame(f, f.module, f.cls, f.closure)
        fr.vars.update(self.bind(f, args, kwargs))
        if isinstance(f.node, ast.Lambda):
            self.depth += 1
            self.frames.append(fr)
            try:
                return self.ev(f.node.body, fr)
            finally:
                self.depth -= 1
                self.frames.pop()
        if f.isgen is None:
            f.isgen = _is_gen(f.node)
        if f.isgen and f.manager and on_yield is None:
            return self.manager(f, args, kwargs, key)
        if f.isgen:
            fr.yields = []
            fr.on_yield = on_yield
        self.depth += 1
        self.frames.append(fr)
        try:
            raised = None
            try:
                kind, val = self.block(f.node.body, fr)
                if kind == NORMAL:
                    val = None
            except AbsRaise as e:
                raised = e
                val = None
            # join pending returns
            pend, fr.pend = fr.pend, []
            for (k, v, t, after) in reversed(pend):
                if k == 'raise':
                    continue
                self.merge(t, after, dead=raised is not None)
                if raised is not None:
                    val = v
                    raised = None
                else:
                    val = join(val, v)
            if raised is not None:
                raise raised
        finally:
            self.depth -= 1
            self.frames.pop()
        if f.isgen:
            g = IterV(fr.yields)
            g.value = val
            return g
        return val

    # ------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------
    def block(self, body, fr):
        for i, st in enumerate(body):
            if isinstance(st, ast.Match):
                self.line = st.lineno
                st = self.s_Match(st, fr)
            if isinstance(st, ast.If):
                r = self.if_(st, body[i + 1:], fr)
                if r is None:
                    continue
                kind, val, consumed = r
                if kind != NORMAL:
                    return kind, val
                if consumed:
                    return NORMAL, None
                continue
            kind, val = self.stmt(st, fr)
            if kind != NORMAL:
                return kind, val
        return NORMAL, None

    def if_(self, st, rest, fr):
        c = self.ev(st.test, fr)
        tv = self.truth(c)
        self.line = getattr(st, 'lineno', None)
        if tv is True:
            k, v = self.block(st.body, fr)
            return (k, v, False)
        if tv is False:
            k, v = self.block(st.orelse, fr)
            return (k, v, False)
        # undecided: both branches from the same pre-state
        r1 = r2 = None
        t = self.begin()
        try:
            self.refine(st.test, True, fr)
            r1 = self.block(st.body, fr)
        except AbsRaise as e:
            e1 = e
        after = self.capture_undo(t)
        if r1 is None:
            # branch 1 certainly raises: assume the other
            self.txns.remove(t)
            self.maybe_raise += 1
            self.refine(st.test, False, fr)
            k, v = self.block(st.orelse, fr)
            return (k, v, False)
        try:
            self.refine(st.test, False, fr)
            r2 = self.block(st.orelse, fr)
        except AbsRaise as e:
            self.maybe_raise += 1
            # only branch 1 survives
            self.capture_undo_discard(t)
            self.merge(t, after, dead=True)
            return (r1[0], r1[1], False)
        if r1[0] == NORMAL and r2[0] == NORMAL:
            self.merge(t, after)
            return (NORMAL, None, False)
        if r1[0] == r2[0] == RETURN:
            self.merge(t, after)
            return (RETURN, join(r1[1], r2[1]), False)
        if r1[0] == r2[0]:
            self.merge(t, after)
            return (r1[0], None, False)
        if r1[0] != NORMAL:
            # branch 1 leaves; the current state is branch 2's
            fr.pend.append((r1[0], r1[1], t, after))
            return (r2[0], r2[1], False)
        # branch 2 leaves, branch 1 continues: swap states
        after2 = {}
        ids = set(t.snap)
        for i in ids:
            c, old = t.snap[i]
            after2[i] = (c, self._copy(c))
        for i in ids:
            c, old = t.snap[i]
            self.touch(c)
            self._restore(c, after[i][1] if i in after else old)
        fr.pend.append((r2[0], r2[1], t, after2))
        return (NORMAL, None, False)

    def capture_undo_discard(self, t):
        for i, (c, old) in list(t.snap.items()):
            self.touch(c)
            self._restore(c, old)

    def refine(self, test, pol, fr):
        """narrow Alt-valued names under `x is None` style tests"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not pol, fr)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and pol or \
                    isinstance(test.op, ast.Or) and not pol:
                for v in test.values:
                    self.refine(v, pol, fr)
            return
        if isinstance(test, ast.Name):
            names = [test]
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, ast.Name):
            names = [test.left]
        elif isinstance(test, ast.Call) and test.args and \
                isinstance(test.args[0], ast.Name) and \
                isinstance(test.func, ast.Name) and \
                test.func.id in ('isinstance', 'callable', 'hasattr'):
            names = [test.args[0]]
        else:
            return
        n = names[0].id
        v = fr.vars.get(n, MISSING)
        if not isinstance(v, Alt):
            return
        keep = []
        for x in v.vals:
            fr.vars[n] = x
            try:
                tv = self.truth(self.ev(test, fr))
            except AbsRaise:
                tv = None
            if tv is None or tv == pol:
                keep.append(x)
        self.touch(fr.vars)
        if len(keep) == 1:
            fr.vars[n] = keep[0]
        elif keep:
            fr.vars[n] = Alt(keep)
        else:
            fr.vars[n] = v

    def stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('step budget')
        self.line = getattr(st, 'lineno', self.line)
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise AnalysisBroken('unsupported statement %s at %s:%s' % (
                type(st).__name__, fr.module.name, st.lineno))
        r = m(st, fr)
        return r if r is not None else (NORMAL, None)

    def s_If(self, st, fr):
        k, v = self.block([st], fr)
        return k, v

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def s_Pass(self, st, fr):
        return

    def s_Global(self, st, fr):
        fr.globals_.update(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals_.update(st.names)

    def s_Import(self, st, fr):
        for a in st.names:
            top = a.name.split('.')[0]
            if self.prog.is_repo_module(a.name):
                v = self.module(a.name)
            else:
                v = self.native_module(a.name if a.asname else top)
            self.setvar(fr, a.asname or top, v)

    def s_ImportFrom(self, st, fr):
        mod = st.module or ''
        base = mod.split('.')[-1]
        if self.prog.is_repo_module(base) and not mod.startswith('scipy'):
            m = self.module(base)
            for a in st.names:
                if a.name == '*':
                    for k, v in m.ns.items():
                        if not k.startswith('_'):
                            self.setvar(fr, k, v)
                    continue
                v = m.ns.get(a.name, MISSING)
                if v is MISSING:
                    raise AbsRaise('ImportError', a.name)
                self.setvar(fr, a.asname or a.name, v)
            return
        m = self.native_module(mod)
        for a in st.names:
            self.setvar(fr, a.asname or a.name,
                        self.getattr_(m, a.name))

    def s_FunctionDef(self, st, fr):
        self.setvar(fr, st.name, self.mkfunc(st, fr, st.name))

    def mkfunc(self, node, fr, name, cls=None):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [MISSING if d is None else self.ev(d, fr)
               for d in a.kw_defaults]
        clo = fr if fr.func is not None or fr.closure is not None else None
        f = Func(node, fr.module, cls or (fr.cls if fr.func else None), clo,
                 name, defaults, kwd)
        v = f
        for d in reversed(getattr(node, 'decorator_list', [])):
            dn = d.id if isinstance(d, ast.Name) else (
                d.attr if isinstance(d, ast.Attribute) else '')
            if dn in ('staticmethod', 'classmethod', 'property'):
                f.kind = dn
            elif dn == 'setter':
                f.kind = 'setter'
            else:
                dv = self.ev(d, fr)
                if isinstance(dv, (Func, Bound, Cls, Native, Obj)):
                    w = self.call(dv, [v])
                    if not isinstance(w, Top):
                        v = w
        return v

    def s_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        ns = {}
        c = Cls(st.name, [b for b in bases if not
                          (isinstance(b, type) and b is object)], ns,
                fr.module)
        cf = Frame(None, fr.module, c)
        cf.vars = ns
        cf.closure = fr if fr.func is not None else None
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                f = self.mkfunc(s, cf, s.name, cls=c)
                if isinstance(f, Func) and f.kind == 'setter':
                    ns['__set__' + s.name] = f
                    continue
                ns[s.name] = f
            else:
                if isinstance(s, ast.AnnAssign) and isinstance(
                        s.target, ast.Name):
                    c.fields.append(s.target.id)
                self.stmt(s, cf)
        for n in list(ns):
            if self.mangle(n, cf) != n and not n.startswith('__set__'):
                ns[self.mangle(n, cf)] = ns.pop(n)
        for b in bases:
            if isinstance(b, (ExcT, Cls)):
                self.exc_parent.setdefault(st.name, b.name)
                break
        if any(isinstance(b, Native) and b.name in (
                'enum.Enum', 'enum.IntEnum') for b in c.native_bases()):
            c.enum = []
            for n, v in list(ns.items()):
                if n.startswith('_') or isinstance(v, (Func, Native)):
                    continue
                m = Obj(c)
                m.attrs.update(name=n, value=v, _value_=v, _name_=n)
                c.enum.append(m)
                ns[n] = m
        v = c
        for d in reversed(st.decorator_list):
            dv = self.ev(d, fr)
            if isinstance(dv, (Func, Bound, Cls, Native, Obj)):
                w = self.call(dv, [v])
                if not isinstance(w, Top):
                    v = w
        self.setvar(fr, st.name, v)

    def s_Return(self, st, fr):
        v = None if st.value is None else self.ev(st.value, fr)
        return RETURN, v

    def s_Break(self, st, fr):
        return BREAK, None

    def s_Continue(self, st, fr):
        return CONTINUE, None

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.getvar(fr, t.id)
            put = lambda v: self.setvar(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            nm = self.mangle(t.attr, fr)
            cur = self.getattr_(o, nm)
            put = lambda v: self.setattr_(o, nm, v)
        else:
            o = self.ev(t.value, fr)
            ix = self.index(t.slice, fr)
            cur = self.getitem(o, ix)
            put = lambda v: self.setitem(o, ix, v)
        r = self.ev(st.value, fr)
        if isinstance(cur, list) and isinstance(st.op, ast.Add):
            self.touch(cur)
            if isinstance(r, Top):
                cur.append(Rest())
            else:
                cur.extend(self.iterate(r))
            put(cur)
            return
        if isinstance(cur, set) and isinstance(r, (set, frozenset)) and \
                isinstance(st.op, (ast.BitOr, ast.Sub, ast.BitAnd,
                                   ast.BitXor)):
            new = _BIN[type(st.op)](cur, r)
            self.touch(cur)
            cur.clear()
            cur.update(new)
            put(cur)
            return
        if isinstance(cur, dict) and isinstance(r, dict) and \
                isinstance(st.op, ast.BitOr):
            self.touch(cur)
            cur.update(r)
            put(cur)
            return
        if isinstance(cur, Obj) and cur.cls is not None:
            m = cur.cls.lookup('__i%s__' % _DUNDER[type(st.op)])
            if m is not MISSING:
                v = self.call_func(m, [cur, r], {})
                if v is not NotImplemented:
                    put(v)
                    return
        if isinstance(cur, np.ndarray) and not isinstance(r, (Top, Alt)):
            v = self.binop(st.op, cur, r)
            if isinstance(v, np.ndarray) and v.shape != cur.shape and \
                    v.dtype != object and cur.dtype != object:
                raise AbsRaise('ValueError', 'in-place operation of shapes '
                               '%s and %s (line %s)' % (
                                   cur.shape, v.shape, self.line))
            if cur.dtype.kind in 'iu' and (
                    isinstance(st.op, ast.Div) or
                    isinstance(v, np.ndarray) and v.dtype == object and any(
                        isinstance(q, (float, Fraction)) or
                        isinstance(q, Sym) and not q.is_const()
                        for q in (r.ravel() if isinstance(r, np.ndarray)
                                  else [r]))):
                raise AbsRaise('TypeError', 'real numbers cannot be put into '
                               'an array of integers in place (line %s)' %
                               self.line)
            if isinstance(v, np.ndarray) and v.shape == cur.shape and \
                    (cur.dtype == object or v.dtype == cur.dtype):
                self.touch(cur)
                cur[...] = v
                put(cur)
                return
            put(v)
            return
        put(self.binop(st.op, cur, r))

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.touch(fr.vars)
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                ix = self.index(t.slice, fr)
                if isinstance(o, (list, dict)) and not isinstance(
                        ix, (Top, Alt)):
                    self.touch(o)
                    try:
                        del o[ix]
                    except Exception as e:
                        raise AbsRaise(type(e).__name__, str(e))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Obj):
                    self.touch(o.attrs)
                    o.attrs.pop(self.mangle(t.attr, fr), None)

    def s_Assert(self, st, fr):
        try:
            tv = self.truth(self.ev(st.test, fr))
        except AbsRaise as e:
            raise
        if tv is False:
            raise AbsRaise('AssertionError', 'assert at %s:%d' % (
                fr.module.name, st.lineno), st, ExcV(
                    self.exc['AssertionError'], () if st.msg is None else
                    (self.ev(st.msg, fr),)))
        self.assumed += 1
        if tv is None:
            self.refine(st.test, True, fr)

    def s_Raise(self, st, fr):
        if st.exc is None:
            for f in reversed(self.frames):
                if f.handling:
                    raise f.handling[-1]
            raise AbsRaise('RuntimeError', 'no active exception', st)
        v = self.ev(st.exc, fr)
        if isinstance(v, Cls):
            v = self.call(v, [])
        n = 'Exception'
        msg = ''
        if isinstance(v, Obj) and v.cls is not None and any(
                isinstance(b, ExcT) for b in v.cls.native_bases()):
            n = v.cls.name
            xs = v.attrs.get('args') or ()
            msg = str(xs[0]) if xs else ''
        elif isinstance(v, ExcV):
            n = v.etype.name
            msg = str(v.args[0]) if v.args else ''
        elif isinstance(v, ExcT):
            n = v.name
            v = ExcV(v, ())
        elif not isinstance(v, (Top, Alt)):
            raise AbsRaise('TypeError',
                           'exceptions must derive from BaseException')
        raise AbsRaise(n, msg, st, v)

    def exc_match(self, etype, names):
        chain = [etype]
        while chain[-1] in EXC_PARENT or chain[-1] in self.exc_parent:
            chain.append(EXC_PARENT.get(chain[-1]) or
                         self.exc_parent[chain[-1]])
        chain += ['Exception', 'BaseException']
        return any(n in chain for n in names)

    def s_Try(self, st, fr):
        before = self.maybe_raise
        try:
            try:
                k, v = self.block(st.body, fr)
            except AbsRaise as e:
                for h in st.handlers:
                    if h.type is None:
                        names = ['BaseException']
                    else:
                        hv = self.ev(h.type, fr)
                        hs = hv if isinstance(hv, tuple) else (hv,)
                        names = [getattr(x, 'name', 'Exception')
                                 for x in hs]
                        if any(isinstance(x, Top) for x in hs):
                            names.append('BaseException')
                    if self.exc_match(e.etype, names):
                        if h.name:
                            self.setvar(fr, h.name, ExcV(
                                ExcT(e.etype), None)
                                if e.value is None else e.value)
                        fr.handling.append(e)
                        try:
                            return self.block(h.body, fr)
                        finally:
                            fr.handling.pop()
                raise
            if k == NORMAL and st.orelse:
                k, v = self.block(st.orelse, fr)
            return k, v
        finally:
            if st.finalbody:
                k, v = self.block(st.finalbody, fr)
                if k != NORMAL:
                    return k, v

    def s_With(self, st, fr):
        return self.with_(st.items, st.body, fr)

    def with_(self, items, body, fr):
        if not items:
            return self.block(body, fr)
        it = items[0]
        res = [NORMAL, None]

        def inside(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            res[:] = self.with_(items[1:], body, fr)
        v = self.ev(it.context_expr, fr)
        if isinstance(v, CtxV):
            v.enter(self, inside)
        elif isinstance(v, Obj) and v.cls is not None and \
                v.cls.lookup('__enter__') is not MISSING:
            w = self.call(self.getattr_(v, '__enter__'), [])
            try:
                inside(w)
            except AbsRaise as e:
                x = self.call(self.getattr_(v, '__exit__'), [
                    ExcT(e.etype), e.value or ExcV(ExcT(e.etype), None),
                    Top('traceback')])
                if self.truth(x) is not True:
                    raise
            else:
                self.call(self.getattr_(v, '__exit__'), [None, None, None])
        else:
            inside(v)
        return tuple(res)

    def s_Match(self, st, fr):
        self.nmatch += 1
        tmp = '.match%d' % self.nmatch
        self.touch(fr.vars)
        fr.vars[tmp] = self.ev(st.subject, fr)
        node = None
        for c in reversed(st.cases):
            test = self.pattern(c.pattern, ast.Name(tmp, ast.Load()))
            if c.guard is not None:
                test = ast.BoolOp(ast.And(), [test, c.guard])
            node = ast.If(test, c.body, [node] if node else [])
            ast.copy_location(node, c.body[0])
            ast.fix_missing_locations(node)
        return node

    def pattern(self, p, v):
        """condition under which the pattern matches (and binds)"""
        def conj(xs):
            xs = [x for x in xs if x is not None]
            return ast.BoolOp(ast.And(), xs) if len(xs) > 1 else xs[0]

        def bind(n, v):
            return ast.BoolOp(ast.Or(), [ast.Compare(
                ast.NamedExpr(ast.Name(n, ast.Store()), v), [ast.Is()],
                [ast.Constant(0.5)]), ast.Constant(True)])

        def call(f, *a):
            return ast.Call(ast.Name(f, ast.Load()), list(a), [])
        if isinstance(p, ast.MatchValue):
            return ast.Compare(v, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(v, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(ast.Or(), [self.pattern(q, v)
                                         for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            return conj([self.pattern(p.pattern, v) if p.pattern is not None
                         else None,
                         bind(p.name, v) if p.name else None,
                         ast.Constant(True)])
        if isinstance(p, ast.MatchSequence):
            n = len(p.patterns)
            star = [i for i, q in enumerate(p.patterns)
                    if isinstance(q, ast.MatchStar)]
            out = [call('isinstance', v, ast.Tuple(
                [ast.Name('list', ast.Load()), ast.Name('tuple', ast.Load())],
                ast.Load())),
                ast.Compare(call('len', v), [ast.GtE() if star else ast.Eq()],
                            [ast.Constant(n - len(star))])]
            for i, q in enumerate(p.patterns):
                if isinstance(q, ast.MatchStar):
                    if q.name:
                        hi = i + 1 - n
                        out.append(bind(q.name, call('list', ast.Subscript(
                            v, ast.Slice(ast.Constant(i), ast.Constant(hi)
                                         if hi else None), ast.Load()))))
                    continue
                j = i - n if star and i > star[0] else i
                out.append(self.pattern(q, ast.Subscript(
                    v, ast.Constant(j), ast.Load())))
            return conj(out)
        if isinstance(p, ast.MatchMapping):
            out = [call('isinstance', v, ast.Name('dict', ast.Load()))]
            for k, q in zip(p.keys, p.patterns):
                out.append(ast.Compare(k, [ast.In()], [v]))
                out.append(self.pattern(q, ast.Subscript(v, k, ast.Load())))
            if p.rest:
                raise AnalysisBroken('match **rest')
            return conj(out)
        if isinstance(p, ast.MatchClass):
            out = [call('isinstance', v, p.cls)]
            native = isinstance(p.cls, ast.Name) and p.cls.id in (
                'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict',
                'set', 'frozenset', 'bytes')
            for i, q in enumerate(p.patterns):
                out.append(self.pattern(q, v if native else call(
                    'getattr', v, ast.Subscript(ast.Attribute(
                        p.cls, '__match_args__', ast.Load()),
                        ast.Constant(i), ast.Load()))))
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                out.append(call('hasattr', v, ast.Constant(n)))
                out.append(self.pattern(q, ast.Attribute(v, n, ast.Load())))
            return conj(out)
        raise AnalysisBroken('unsupported pattern ' + type(p).__name__)

    def loop_join(self, fr, mark, kinds):
        """merge pendings of the given kinds created since mark"""
        raise NotImplementedError

    def s_For(self, st, fr):
        it = self.ev(st.iter, fr)
        items = it.rest() if isinstance(it, IterV) else \
            self.iterate(it, unknown_ok=True)
        if items is None:
            return self.unknown_loop(
                lambda: self.assign(st.target, Top('loop'), fr), st, fr)
        mark = len(fr.pend)
        broke = False
        step = None
        if isinstance(it, IterV):
            items = it.xs
            step = it
        items = list(items) if not isinstance(items, (list, tuple)) \
            else items
        size = len(it) if isinstance(it, (dict, set, collections.deque)) \
            else None
        i = step.pos[0] if step else 0
        while i < len(items) or step is not None and step.err is not None:
            if step is not None:
                i = step.pos[0]
                if i >= len(items):
                    if step.err is not None:
                        if self._has(fr, mark, BREAK):
                            self._merge_pend(fr, mark, BREAK, True)
                            return NORMAL, None
                        raise step.err
                    break
                self.touch(step.pos)
                step.pos[0] = i + 1
            if size is not None and len(it) != size and not self.txns:
                raise AbsRaise('RuntimeError', '%s changed size during '
                               'iteration (line %s)' % (
                                   type(it).__name__, self.line))
            x = items[i]
            i += 1
            if isinstance(x, Rest):
                r = self.unknown_loop(
                    lambda: self.assign(st.target, x.v, fr), st, fr,
                    orelse=False)
                if r[0] != NORMAL:
                    return r
                continue
            cmark = len(fr.pend)
            try:
                self.assign(st.target, x, fr)
                k, v = self.block(st.body, fr)
            except AbsRaise:
                if self._has(fr, cmark, CONTINUE):
                    self._merge_pend(fr, cmark, CONTINUE, True)
                    continue
                if self._has(fr, mark, BREAK):
                    self._merge_pend(fr, mark, BREAK, True)
                    return NORMAL, None
                raise
            dead = k in (BREAK, RETURN)
            if k == BREAK and self._has(fr, cmark, CONTINUE):
                # some state continues: keep the break pending
                t = self._park(fr, (BREAK, None))
                k, dead = CONTINUE, True
            elif k == RETURN and self._has(fr, cmark, CONTINUE):
                t = self._park(fr, (RETURN, v))
                k, dead = CONTINUE, True
            dead = self._merge_pend(fr, cmark, CONTINUE, dead)
            if dead:
                broke = k
                bval = v
                break
        if broke == RETURN:
            if self._has(fr, mark, BREAK):
                self._park(fr, (RETURN, bval))
                self._merge_pend(fr, mark, BREAK, True)
                return NORMAL, None
            return RETURN, bval
        if broke == BREAK:
            self._merge_pend(fr, mark, BREAK, False)
            return NORMAL, None
        # exhausted: else clause
        if st.orelse:
            k, v = self.block(st.orelse, fr)
            if k != NORMAL:
                if self._has(fr, mark, BREAK):
                    self._park(fr, (k, v))
                    self._merge_pend(fr, mark, BREAK, True)
                    return NORMAL, None
                return k, v
        self._merge_pend(fr, mark, BREAK, False)
        return NORMAL, None

    def _has(self, fr, mark, kind):
        return any(p[0] == kind for p in fr.pend[mark:])

    def _park(self, fr, comp):
        """turn the current state into a pending outcome (state kept)"""
        t = Txn()
        # everything touched later is relative to now; the parked state is
        # the present one, so capture nothing: contents = snapshots
        self.txns.append(t)
        fr.pend.append((comp[0], comp[1], t, _Lazy(t)))
        return t

    def _merge_pend(self, fr, mark, kind, dead):
        keep, todo = [], []
        for p in fr.pend[mark:]:
            (todo if p[0] == kind else keep).append(p)
        fr.pend[mark:] = keep
        for (k, v, t, after) in reversed(todo):
            self.merge(t, after, dead=dead)
            dead = False
        return dead

    def s_While(self, st, fr):
        mark = len(fr.pend)
        n = 0
        while True:
            n += 1
            c = self.ev(st.test, fr)
            tv = self.truth(c)
            if tv is False:
                if st.orelse:
                    k, v = self.block(st.orelse, fr)
                    if k != NORMAL:
                        return k, v
                break
            if tv is True and n > 5000 and not self.txns and \
                    not self.maybe_raise and len(fr.pend) == mark:
                raise Endless('the loop at line %s of %s goes on after %d '
                              'rounds' % (st.lineno, fr.module.name, n - 1))
            if tv is None or n > 5000:
                r = self.unknown_loop(lambda: None, st, fr)
                self._merge_pend(fr, mark, BREAK, False)
                return r
            cmark = len(fr.pend)
            try:
                k, v = self.block(st.body, fr)
            except AbsRaise:
                if self._has(fr, cmark, CONTINUE):
                    self._merge_pend(fr, cmark, CONTINUE, True)
                    continue
                if self._has(fr, mark, BREAK):
                    self._merge_pend(fr, mark, BREAK, True)
                    return NORMAL, None
                raise
            if k in (BREAK, RETURN) and self._has(fr, cmark, CONTINUE):
                self._park(fr, (k, v))
                self._merge_pend(fr, cmark, CONTINUE, True)
                continue
            if k == RETURN:
                if self._has(fr, mark, BREAK):
                    self._park(fr, (RETURN, v))
                    self._merge_pend(fr, mark, BREAK, True)
                    return NORMAL, None
                return RETURN, v
            if k == BREAK:
                break
            self._merge_pend(fr, cmark, CONTINUE, False)
        self._merge_pend(fr, mark, BREAK, False)
        return NORMAL, None

    def unknown_loop(self, setup, st, fr, orelse=True):
        """zero or more iterations: widened fixpoint"""
        for rnd in range(3):
            t = self.begin()
            mark = len(fr.pend)
            ok = True
            try:
                setup()
                if isinstance(st, ast.While):
                    self.ev(st.test, fr)
                    self.refine(st.test, True, fr)
                k, v = self.block(st.body, fr)
            except AbsRaise:
                ok = False
                self.maybe_raise += 1
            if not ok:
                self._drop_pend(fr, mark)
                self.capture_undo(t)
                self.txns.remove(t)
                break
            if k == RETURN:
                # merge inner pendings first
                live = self._has(fr, mark, CONTINUE) or \
                    self._has(fr, mark, BREAK)
                if live:
                    self._park(fr, (RETURN, v))
                    d = self._merge_pend(fr, mark, CONTINUE, True)
                    self._merge_pend(fr, mark, BREAK, d)
                else:
                    after = self.capture_undo(t)
                    fr.pend.append((RETURN, v, t, after))
                    break
            else:
                d = self._merge_pend(fr, mark, CONTINUE, False)
                self._merge_pend(fr, mark, BREAK, False)
            # join pre-state with post-state
            changed = self._widen(t, rnd)
            if not changed:
                break
        if orelse and st.orelse:
            return self.block(st.orelse, fr)
        return NORMAL, None

    def _drop_pend(self, fr, mark):
        for p in fr.pend[mark:]:
            if p[2] in self.txns:
                self.txns.remove(p[2])
        del fr.pend[mark:]

    def _widen(self, t, rnd):
        if t in self.txns:
            self.txns.remove(t)
        changed = False
        for i, (c, old) in list(t.snap.items()):
            cur = self._copy(c)
            self.touch(c)
            if isinstance(c, dict):
                for k in list(c):
                    if k in old and not same(old[k], c[k]):
                        changed = True
                        c[k] = join(old[k], c[k]) if rnd < 1 else \
                            Top('widened')
                    elif k not in old:
                        changed = True
                for k in old:
                    if k not in c:
                        c[k] = old[k]
            elif isinstance(c, list):
                if len(c) != len(old) or not all(
                        same(x, y) or isinstance(x, Rest)
                        for x, y in zip(c, old)):
                    changed = True
                    self._join_into(c, old)
            else:
                before = self._copy(c)
                self._join_into(c, old)
                if isinstance(c, np.ndarray):
                    if c.dtype == object:
                        for ix in np.ndindex(*c.shape):
                            if not same(c[ix], old[ix]):
                                changed = True
                                if rnd >= 1:
                                    c[ix] = Top('widened')
                elif isinstance(c, set):
                    changed = changed or len(c) != len(old)
                else:
                    changed = changed or list(c) != list(old)
        return changed

    # ------------------------------------------------------------------
    # names, attributes, items
    # ------------------------------------------------------------------
    def mangle(self, n, fr):
        if n.startswith('__') and not n.endswith('__') and fr.cls:
            return '_%s%s' % (fr.cls.name.lstrip('_'), n)
        return n

    def getvar(self, fr, n):
        f = fr
        first = True
        while f is not None:
            if n in f.vars and not (first and n in f.globals_):
                v = f.vars[n]
                return v
            if isinstance(f.func, Func) and n in f.func.locals:
                raise AbsRaise('UnboundLocalError', "name '%s' is not bound "
                               "(%s:%s)" % (n, fr.module.name, self.line))
            f = f.closure
            first = False
        if n in fr.module.ns:
            return fr.module.ns[n]
        if n in self.builtins:
            return self.builtins[n]
        if n == '__class__' and fr.cls:
            return fr.cls
        raise AbsRaise('NameError', "name '%s' is not defined (%s:%s)" % (
            n, fr.module.name, self.line))

    def setvar(self, fr, n, v):
        if n in fr.globals_:
            self.touch(fr.module.ns)
            fr.module.ns[n] = v
            return
        if n in fr.nonlocals_:
            f = fr.closure
            while f is not None:
                if n in f.vars or isinstance(f.func, Func) and \
                        n in f.func.locals:
                    self.touch(f.vars)
                    f.vars[n] = v
                    return
                f = f.closure
        self.touch(fr.vars)
        fr.vars[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if isinstance(v, Alt):
                parts = []
                for x in v.vals:
                    try:
                        xs = self.iterate(x, unknown_ok=True)
                        if xs is not None and len(list(xs)) == n:
                            parts.append(list(self.iterate(x)))
                    except AbsRaise:
                        pass
                if parts:
                    for i, e in enumerate(t.elts):
                        w = parts[0][i]
                        for p in parts[1:]:
                            w = join(w, p[i])
                        self.assign(e, w, fr)
                    return
                v = Top('unpack')
            items = self.iterate(v, unknown_ok=True)
            if items is None:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e,
                                Top('unpack'), fr)
                return
            items = list(items)
            if star:
                i = star[0]
                m = len(items) - (n - 1)
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, items[i:i + m], fr)
                for e, x in zip(t.elts[i + 1:], items[i + m:]):
                    self.assign(e, x, fr)
                return
            if any(isinstance(x, Rest) for x in items):
                for e in t.elts:
                    self.assign(e, Top('unpack'), fr)
                return
            if len(items) != n:
                raise AbsRaise('ValueError', 'unpack %d into %d (%s:%s)' % (
                    len(items), n, fr.module.name, self.line))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise AnalysisBroken('assign target ' + type(t).__name__)

    def setattr_(self, o, n, v):
        if isinstance(o, Obj):
            if o.cls is not None:
                s = o.cls.lookup('__set__' + n)
                if s is not MISSING:
                    self.call_func(s, [o, v], {})
                    return
                s = o.cls.lookup(n)
                if isinstance(s, PropV) and s.set is not None:
                    self.call(s.set, [o, v])
                    return
                if isinstance(s, PropV) or isinstance(s, Func) and \
                        s.kind == 'property':
                    raise AbsRaise('AttributeError', 'property %s of %s has '
                                   'no setter' % (n, o.cls.name))
                s = o.cls.lookup('__setattr__')
                if s is not MISSING:
                    self.call_func(s, [o, n, v], {})
                    return
            self.touch(o.attrs)
            o.attrs[n] = v
        elif isinstance(o, Cls):
            self.touch(o.ns)
            o.ns[n] = v
        elif isinstance(o, Alt):
            for x in o.vals:
                if isinstance(x, Obj):
                    self.touch(x.attrs)
                    old = x.attrs.get(n, MISSING)
                    x.attrs[n] = v if old is MISSING else join(old, v)
        elif isinstance(o, Top):
            pass
        elif hasattr(o, 'absint_setattr'):
            o.absint_setattr(self, n, v)
        elif isinstance(o, np.ndarray):
            if n == 'shape':
                self.touch(o)
                o.shape = v
        elif isinstance(o, Func):
            self.touch(o.attrs)
            o.attrs[n] = v
        elif isinstance(o, ModV):
            self.touch(o.ns)
            o.ns[n] = v
        elif o is None:
            raise AbsRaise('AttributeError', 'None has no attribute ' + n)

    def getattr_(self, o, n, default=MISSING):
        if isinstance(o, Obj):
            if n in o.attrs:
                return o.attrs[n]
            if o.cls is not None:
                v = o.cls.lookup(n)
                if v is not MISSING:
                    return self.descr(v, o, o.cls)
                if n == '__class__':
                    return o.cls
                ga = o.cls.lookup('__getattr__')
                if ga is not MISSING:
                    return self.call_func(ga, [o, n], {})
            if n == '__dict__':
                return o.attrs
            if default is not MISSING:
                return default
            raise AbsRaise('AttributeError', '%s has no attribute %s' % (
                o.cls.name if o.cls else o, n))
        if isinstance(o, Cls):
            v = o.lookup(n)
            if v is not MISSING:
                if isinstance(v, Func) and v.kind == 'classmethod':
                    return Bound(v, o)
                return v
            if n == '__name__':
                return o.name
            if n == '__init__':
                return Native('init', lambda it, a, k: None)
            if default is not MISSING:
                return default
            raise AbsRaise('AttributeError', '%s has no attribute %s' % (
                o.name, n))
        if isinstance(o, Super):
            mro = o.obj.cls.mro if isinstance(o.obj, Obj) else o.cls.mro
            i = mro.index(o.cls) + 1
            for c in mro[i:]:
                if n in c.ns:
                    return self.descr(c.ns[n], o.obj, c)
            if n == '__init__':
                return Native('init', lambda it, a, k: None)
            raise AbsRaise('AttributeError', n)
        if isinstance(o, ModV):
            if n in o.ns:
                return o.ns[n]
            raise AbsRaise('AttributeError', n)
        if isinstance(o, Top):
            return Top('attr of unknown')
        if isinstance(o, Alt):
            return self.alt_map(lambda x: self.getattr_(x, n, default), o)
        if isinstance(o, NatMod):
            return self.natattr(o, n)
        if isinstance(o, (Func, Bound)):
            f = o.func if isinstance(o, Bound) else o
            if n == '__name__':
                return f.attrs.get('__name__', f.name)
            if n == '__doc__':
                return None
            if n == '__self__' and isinstance(o, Bound):
                return o.obj
            if n == '__func__' and isinstance(o, Bound):
                return f
            if n == '__wrapped__' and f.memo is not None:
                w = Func(f.node, f.module, f.cls, f.closure, f.name,
                         f.defaults, f.kwdefaults)
                return w
            if n in ('cache_clear', 'clear_cache') and f.memo is not None:
                def clr(it, a, k):
                    it.touch(f.memo)
                    f.memo.clear()
                return Native(n, clr)
            if n in f.attrs:
                return f.attrs[n]
            if n.startswith('__'):
                return Top('function attribute')
            if default is not MISSING:
                return default
            raise AbsRaise('AttributeError', 'function has no attribute %s '
                           '(line %s)' % (n, self.line))
        if isinstance(o, Native):
            if n == '__name__':
                return o.name
            if o.name + '.' + n in self.overrides:
                return self.overrides[o.name + '.' + n]
            if n.startswith('__') is False:
                return self.natattr(o, n)
            return Top('native attribute')
        if isinstance(o, ExcV):
            if n == 'args' and o.args is not None:
                return tuple(o.args)
            if n == '__class__':
                return o.etype
            return Top('exc attr')
        if isinstance(o, ExcT) and n == '__name__':
            return o.name
        if hasattr(o, 'absint_getattr'):
            return o.absint_getattr(self, n)
        if isinstance(o, Sym):
            if n in ('shape',):
                return ()
            if n in ('T', 'real'):
                return o
            if n == 'ndim':
                return 0
            if n in ('ravel', 'flatten'):
                return Native(n, lambda it, a, k: it.mkarr([o]))
            if n in ('copy', 'item', 'squeeze'):
                return Native(n, lambda it, a, k: o)
            if n == 'dot':
                return Native(n, lambda it, a, k: it.binop(ast.Mult(), o,
                                                           a[0]))
        if isinstance(o, (int, float)) and not isinstance(o, bool) and \
                n in ('shape', 'ravel', 'dot', 'T', 'ndim', 'copy',
                      'squeeze', 'flatten', 'item'):
            # numpy scalars are represented by python numbers
            return self.getattr_(Sym.of(o), n)
        if isinstance(o, np.ndarray):
            return self.arr_attr(o, n)
        if isinstance(o, (list, dict, set, str, tuple, collections.deque,
                          frozenset)):
            return self.cont_attr(o, n)
        if o is None:
            if default is not MISSING:
                return default
            raise AbsRaise('AttributeError', "'NoneType' object has no "
                           "attribute '%s' (line %s)" % (n, self.line))
        if isinstance(o, type) or callable(o) or is_num(o) or \
                isinstance(o, np.dtype):
            try:
                return getattr(o, n)
            except AttributeError:
                if default is not MISSING:
                    return default
                raise AbsRaise('AttributeError', n)
        if default is not MISSING:
            return default
        return Top('attr %s of %s' % (n, type(o).__name__))

    def descr(self, v, o, c):
        if isinstance(v, Func):
            if v.kind == 'staticmethod':
                return v
            if v.kind == 'classmethod':
                return Bound(v, o.cls if isinstance(o, Obj) else c)
            if v.kind == 'property':
                return self.call_func(v, [o], {})
            if v.kind == 'cached_property':
                r = self.call_func(v, [o], {})
                self.touch(o.attrs)
                o.attrs[v.name] = r
                return r
            return Bound(v, o)
        if isinstance(v, Native) and v.method:
            return Native(v.name, lambda it, a, k: v.fn(it, [o] + a, k))
        if isinstance(v, PropV):
            return self.call(v.get, [o])
        return v

    def natattr(self, o, n):
        full = o.name + '.' + n
        if full in self.overrides:
            return self.overrides[full]
        if o.name.split('.')[0] == 'numpy':
            return self.np_attr(full, o, n)
        if isinstance(o, NatMod) and o.obj is not None:
            v = getattr(o.obj, n, MISSING)
            if v is MISSING:
                raise AbsRaise('AttributeError', full)
            if isinstance(v, types.ModuleType):
                return NatMod(full, v)
            if o.name == 'math' and callable(v):
                return Native(full, lambda it, a, k, v=v, n=n:
                              it.math_fn(n, v, a, k))
            if o.name == 'itertools':
                return Native(full, lambda it, a, k, v=v: list(
                    v(*[it.iterate(x) if not is_num(x) else x for x in a],
                      **k)))
            return v
        return NatMod(full, None) if n[:1].islower() and n in (
            'linalg', 'sparse', 'special', 'cholmod', 'pyplot', 'patches',
            'collections', 'colors') else self._ext(full)

    def _ext(self, full):
        def f(it, a, k):
            it.notes.append('external call ' + full)
            return Top('external ' + full)
        return Native(full, f)

    def math_fn(self, n, v, a, k):
        if len(a) == 1 and isinstance(a[0], Sym):
            if n in ('sqrt', 'exp', 'log', 'sin', 'cos'):
                return getattr(a[0], n)()
            if n == 'fabs':
                return abs(a[0])
            return Sym.app(n, a[0])
        return self.call_py(v, a, k)

    # containers ---------------------------------------------------------
    def cont_attr(self, o, n):
        mut = ((isinstance(o, (list, collections.deque)) and n in _LIST_MUT)
               or (isinstance(o, dict) and n in _DICT_MUT)
               or (isinstance(o, set) and n in _SET_MUT))
        m = getattr(o, n, MISSING)
        if m is MISSING:
            raise AbsRaise('AttributeError', '%s has no attribute %s (line '
                           '%s)' % (type(o).__name__, n, self.line))
        if not callable(m):
            return m

        def f(it, a, k):
            if mut:
                it.touch(o)
            if isinstance(o, (list, collections.deque)):
                if n == 'append':
                    o.append(a[0])
                    return None
                if n in ('extend', 'extendleft'):
                    xs = it.iterate(a[0], unknown_ok=True)
                    if xs is None:
                        o.append(Rest())
                    else:
                        getattr(o, n)(list(xs))
                    return None
                if n == 'pop' and any(isinstance(x, Rest) for x in o):
                    return Top('pop of vague list')
                if n in ('index', 'count', 'remove'):
                    return it.list_search(o, n, a)
                if n == 'sort':
                    srt = it.b_sorted([list(o)], k)
                    if isinstance(srt, Top):
                        o[:] = [Rest()]
                    else:
                        o[:] = srt
                    return None
                if n == 'insert' and isinstance(a[0], int):
                    o.insert(a[0], a[1])
                    return None
                if n == 'copy':
                    return list(o)
            if isinstance(o, dict):
                if n in ('get', 'pop', 'setdefault') and a and \
                        isinstance(a[0], (Top, Alt)):
                    vals = list(o.values()) + list(a[1:2] or [None])
                    r = vals[0]
                    for x in vals[1:]:
                        r = join(r, x)
                    return r
                if n in ('keys', 'values', 'items'):
                    return list(getattr(o, n)()) if n != 'items' else \
                        [tuple(x) for x in o.items()]
                try:
                    return m(*a, **k)
                except Exception as e:
                    raise AbsRaise(type(e).__name__, str(e))
            if isinstance(o, (set, frozenset)):
                aa = []
                for x in a:
                    if n in ('union', 'update', 'intersection',
                             'difference', 'issubset', 'issuperset',
                             'difference_update', 'intersection_update',
                             'isdisjoint', 'symmetric_difference'):
                        xs = it.iterate(x, unknown_ok=True)
                        if xs is None:
                            return Top('set op')
                        x = list(xs)
                    aa.append(x)
                try:
                    return m(*aa, **k)
                except Exception as e:
                    raise AbsRaise(type(e).__name__, str(e))
            if isinstance(o, str):
                if n == 'join':
                    xs = it.iterate(a[0], unknown_ok=True)
                    if xs is None or has_top(list(xs)):
                        return Top('join')
                    a = [list(xs)]
                if n == 'format':
                    return it.str_format(o, a, k)
                return it.call_py(m, a, k)
            try:
                return m(*a, **k)
            except Exception as e:
                raise AbsRaise(type(e).__name__, str(e))
        return Native('%s.%s' % (type(o).__name__, n), f)

    def str_format(self, s, a, k):
        out = []
        auto = 0
        try:
            parts = list(string.Formatter().parse(s))
        except ValueError as e:
            raise AbsRaise('ValueError', str(e))
        for lit, name, spec, conv in parts:
            out.append(lit)
            if name is None:
                continue
            if '{' in (spec or '') or '.' in name or '[' in name:
                return Top('str')
            if name == '':
                name = auto
                auto += 1
            elif name.isdigit():
                name = int(name)
            try:
                v = a[name] if isinstance(name, int) else k[name]
            except (KeyError, IndexError) as e:
                raise AbsRaise(type(e).__name__, str(e))
            if conv:
                v = self.text(v, '__repr__' if conv == 'r' else '__str__')
            v = self.fmt(v, spec)
            if not isinstance(v, str):
                return Top('str')
            out.append(v)
        return ''.join(out)

    def list_search(self, o, n, a):
        unk = False
        cnt = 0
        for i, x in enumerate(o):
            if isinstance(x, Rest):
                unk = True
                continue
            e = self.truth(self.cmp1(ast.Eq(), x, a[0]))
            if e is True:
                if n == 'index' and not unk:
                    return i
                if n == 'remove' and not unk:
                    del o[i]
                    return None
                cnt += 1
            elif e is None:
                unk = True
        if unk:
            if n == 'remove':
                o[:] = [Rest()]
                return None
            return Top(n)
        if n == 'count':
            return cnt
        raise AbsRaise('ValueError', 'not in list')

    def mkarr(self, v):
        try:
            a = self.to_array(v)
        except ValueError as e:
            raise AbsRaise('ValueError', str(e))
        return a

    def to_array(self, v, dtype=None):
        if isinstance(v, np.ndarray):
            return v.copy()
        if isinstance(v, (set, frozenset)):
            v = [v]
        if isinstance(v, (list, tuple)) and any(isinstance(x, Rest)
                                                for x in v):
            return Top('vague array')
        if isinstance(v, (Top, Alt)):
            return Top('array of unknown')

        def shp(x):
            if isinstance(x, np.ndarray):
                return x.shape
            if isinstance(x, (list, tuple)):
                if not x:
                    return (0,)
                s = [shp(y) for y in x]
                if any(t != s[0] for t in s):
                    raise ValueError('inhomogeneous array')
                return (len(x),) + s[0]
            return ()
        s = shp(v)

        def flat(x):
            if isinstance(x, np.ndarray):
                for y in x.ravel():
                    yield y
            elif isinstance(x, (list, tuple)):
                for y in x:
                    for z in flat(y):
                        yield z
            else:
                yield x
        els = list(flat(v))
        if els and all(isinstance(e, (bool, np.bool_)) for e in els):
            return np.array(els, dtype=bool).reshape(s)
        if els and all(isinstance(e, (int, np.integer)) and
                       not isinstance(e, bool) for e in els):
            return np.array(els, dtype=int).reshape(s)
        if els and all(isinstance(e, str) for e in els):
            return np.array(els).reshape(s)
        a = np.empty(len(els), dtype=object)
        for i, e in enumerate(els):
            a[i] = norm_native(e) if isinstance(e, np.generic) else e
        return a.reshape(s)

    def arr_attr(self, o, n):
        if n in ('shape', 'ndim', 'size', 'T'):
            return getattr(o, n)
        if n == 'dtype':
            return float if o.dtype == object else o.dtype
        if n in ('real',):
            return o
        if n == 'flat':
            return o.reshape(-1)

        def f(it, a, k):
            if 'numpy.' + n in it.overrides and n in ('clip', 'compress'):
                return it.call(it.overrides['numpy.' + n],
                               ([a[0], o] + list(a[1:])) if n == 'compress'
                               else [o] + list(a), k)
            if n == 'dot':
                return it.np_dot(o, a[0])
            if n == 'copy':
                return o.copy()
            if n == 'transpose':
                return o.transpose(*a)
            if n == 'tolist':
                return norm_native(o.tolist())
            if n == 'astype':
                t = a[0] if a else k.get('dtype')
                if k.get('copy') is False and (
                        isinstance(t, np.dtype) and t == o.dtype or
                        t in (float, 'float') and o.dtype == object):
                    return o
                return it.np_astype(o, t)
            if n in ('sum', 'mean', 'max', 'min', 'any', 'all', 'prod',
                     'argsort', 'cumsum', 'std', 'argmin', 'argmax',
                     'nonzero', 'dot', 'round'):
                return it.np_call('numpy.' + n, [o] + list(a), k)
            if n in ('fill', 'sort', 'put', 'itemset', 'resize'):
                it.touch(o)
                if n == 'sort' and has_sym(o):
                    ix = it.order(list(o)) if o.ndim == 1 else None
                    if ix is None:
                        it.notes.append('sort of symbolic array')
                        it.smudge(o)
                    else:
                        o[:] = o[ix]
                    return None
            if n in ('ravel', 'reshape', 'flatten', 'squeeze', 'diagonal',
                     'swapaxes', 'repeat', 'take', 'item', 'fill', 'sort',
                     'trace', 'view', 'put', 'astype', 'tobytes', 'copy',
                     'conj', 'conjugate'):
                if n == 'astype':
                    return o
                if has_top(list(a)):
                    return Top('array method')
                try:
                    return norm_native(getattr(o, n)(*a, **k))
                except Exception as e:
                    if foreign([a, k]):
                        return Top('array method ' + n)
                    raise AbsRaise(type(e).__name__, str(e))
            return Top('array method ' + n)
        if not hasattr(o, n):
            raise AbsRaise('AttributeError', 'ndarray has no attribute ' + n)
        return Native('ndarray.' + n, f)

    def np_astype(self, o, t):
        if t in (int, 'int', np.int64) or getattr(t, '__name__', '') == 'int':
            try:
                return np.array([int(x) for x in o.ravel()],
                                dtype=int).reshape(o.shape)
            except Exception:
                return Top('astype')
        if t in (bool, 'bool'):
            tv = [self.truth(x) for x in o.ravel()]
            if None in tv:
                return Top('astype bool')
            return np.array(tv, dtype=bool).reshape(o.shape)
        return o.astype(object)

    # subscripts ---------------------------------------------------------
    def index(self, node, fr):
        if isinstance(node, ast.Slice):
            return slice(*[None if x is None else self.ev(x, fr)
                           for x in (node.lower, node.upper, node.step)])
        if isinstance(node, ast.Tuple):
            out = []
            for e in node.elts:
                if isinstance(e, ast.Starred):
                    out.extend(self.iterate(self.ev(e.value, fr)))
                else:
                    out.append(self.index(e, fr))
            return tuple(out)
        if isinstance(node, ast.Index):  # pragma: no cover
            return self.index(node.value, fr)
        return self.ev(node, fr)

    def fix_index(self, ix):
        if isinstance(ix, tuple):
            return tuple(self.fix_index(i) for i in ix)
        if isinstance(ix, Sym):
            return int(ix.const()) if ix.is_const() else Top('index')
        if isinstance(ix, Fraction):
            return int(ix)
        if isinstance(ix, float) and ix == int(ix):
            return int(ix)
        if isinstance(ix, list):
            return [self.fix_index(i) for i in ix]
        if isinstance(ix, np.ndarray) and ix.dtype == object:
            if ix.size == 0:
                return ix.astype(int)
            if all(isinstance(x, (bool, np.bool_)) for x in ix.ravel()):
                return ix.astype(bool)
            if any(isinstance(x, (Top, Alt)) for x in ix.ravel()):
                return Top('mask')
            try:
                return np.array([int(x) for x in ix.ravel()],
                                dtype=int).reshape(ix.shape)
            except Exception:
                return Top('index')
        if isinstance(ix, slice):
            parts = [self.fix_index(x) for x in (ix.start, ix.stop, ix.step)]
            if any(isinstance(p, Top) for p in parts):
                return Top('slice')
            return slice(*parts)
        return ix

    def getitem(self, o, ix):
        if isinstance(o, Alt):
            return self.alt_map(lambda x: self.getitem(x, ix), o)
        if isinstance(ix, Alt):
            return self.alt_map(lambda i: self.getitem(o, i), ix)
        if isinstance(o, Top):
            return Top('item of unknown')
        if hasattr(o, 'absint_getitem'):
            return o.absint_getitem(self, ix)
        if isinstance(o, dict):
            if isinstance(ix, Top):
                vals = list(o.values())
                if not vals:
                    return Top('dict')
                r = vals[0]
                for x in vals[1:]:
                    r = join(r, x)
                return r
            try:
                if ix in o:
                    return o[ix]
            except TypeError:
                raise AbsRaise('TypeError', 'unhashable key')
            if isinstance(o, DDict) and o.factory is not None:
                v = self.call(o.factory, [])
                self.touch(o)
                o[ix] = v
                return v
            if isinstance(o, collections.Counter):
                return 0
            raise AbsRaise('KeyError', '%r (line %s)' % (ix, self.line))
        if isinstance(o, (list, tuple, str, collections.deque, range)):
            ix = self.fix_index(ix)
            if isinstance(ix, Top) or has_top(ix):
                if isinstance(o, str) or not len(o):
                    return Top('item')
                r = None
                for x in o:
                    x = x.v if isinstance(x, Rest) else x
                    r = x if r is None else join(r, x)
                return r
            if any(isinstance(x, Rest) for x in o):
                if isinstance(ix, int) and ix >= 0:
                    for j, x in enumerate(o):
                        if isinstance(x, Rest):
                            return x.v
                        if j == ix:
                            return x
                return Top('vague list')
            try:
                return o[ix]
            except Exception as e:
                raise AbsRaise(type(e).__name__, '%s (line %s)' % (
                    e, self.line))
        if isinstance(o, np.ndarray):
            ix = self.fix_index(ix)
            if isinstance(ix, Top) or has_top(ix):
                return Top('array item')
            try:
                return norm_native(o[ix])
            except Exception as e:
                raise AbsRaise(type(e).__name__, str(e))
        if isinstance(o, Obj):
            m = o.cls.lookup('__getitem__')
            if m is not MISSING:
                return self.call_func(m, [o, ix], {})
        if isinstance(o, (Cls, type, TypeV)):
            return o
        if o is None or is_num(o) or isinstance(o, (set, frozenset, Func,
                                                    Bound)):
            raise AbsRaise('TypeError', '%s is not subscriptable (line %s)'
                           % (type(o).__name__, self.line))
        return Top('getitem')

    def setitem(self, o, ix, v):
        if isinstance(o, (Top, Alt)):
            if isinstance(o, Alt):
                for x in o.vals:
                    if isinstance(x, dict) and not isinstance(ix, (Top,
                                                                   Alt)):
                        self.touch(x)
                        x[ix] = join(x[ix], v) if ix in x else v
                    elif isinstance(x, (list, np.ndarray)):
                        self.smudge(x)
            return
        if hasattr(o, 'absint_setitem'):
            return o.absint_setitem(self, ix, v)
        if isinstance(o, dict):
            self.touch(o)
            if isinstance(ix, (Top, Alt)):
                ks = ix.vals if isinstance(ix, Alt) else list(o)
                for k in ks:
                    o[k] = join(o[k], v) if k in o else v
                return
            try:
                o[ix] = v
            except TypeError:
                raise AbsRaise('TypeError', 'unhashable')
        elif isinstance(o, list):
            ix = self.fix_index(ix)
            self.touch(o)
            if isinstance(ix, (Top, Alt)) or any(isinstance(x, Rest)
                                                 for x in o):
                for i in range(len(o)):
                    x = o[i]
                    if isinstance(x, Rest):
                        o[i] = Rest(join(x.v, v))
                    else:
                        o[i] = join(x, v)
                return
            try:
                o[ix] = v
            except Exception as e:
                raise AbsRaise(type(e).__name__, str(e))
        elif isinstance(o, np.ndarray):
            if isinstance(ix, np.ndarray) and ix.dtype == object and \
                    ix.shape == o.shape and o.dtype == object and \
                    not isinstance(v, (np.ndarray, list, tuple)) and \
                    any(isinstance(x, (Top, Alt)) for x in ix.ravel()):
                # mask with undecided entries: elementwise join
                self.touch(o)
                for j in np.ndindex(*o.shape):
                    t = self.truth(ix[j])
                    if t is True:
                        o[j] = v
                    elif t is not False:
                        o[j] = join(o[j], v)
                return
            ix = self.fix_index(ix)
            self.touch(o)
            if isinstance(ix, Top) or has_top(ix) or \
                    isinstance(v, (Top, Alt)) and o.dtype != object:
                self.smudge(o)
                return
            if isinstance(v, (list, tuple)):
                v = self.to_array(v)
            try:
                if o.dtype == object and not isinstance(v, np.ndarray):
                    cur = o[ix]
                    if isinstance(cur, np.ndarray):
                        w = np.empty(cur.shape, dtype=object)
                        for j in np.ndindex(*cur.shape):
                            w[j] = v
                        o[ix] = w
                    else:
                        o[ix] = v
                elif o.dtype != object and isinstance(v, np.ndarray) and \
                        v.dtype == object:
                    o[ix] = np.array([float(x) for x in v.ravel()]
                                     ).reshape(v.shape)
                else:
                    o[ix] = v
            except NotConst:
                if o.dtype.kind not in 'iu':
                    raise
                raise Truncated('real numbers are stored in an array of '
                                'integers, and truncated (line %s)' %
                                self.line)
            except (ValueError, IndexError, TypeError) as e:
                raise AbsRaise(type(e).__name__, '%s (line %s)' % (
                    e, self.line))
        elif isinstance(o, Obj):
            m = o.cls.lookup('__setitem__')
            if m is not MISSING:
                self.call_func(m, [o, ix, v], {})
        elif o is None or isinstance(o, tuple):
            raise AbsRaise('TypeError', 'item assignment')

    def smudge(self, o):
        self.touch(o)
        if isinstance(o, list):
            o[:] = [Rest()]
        elif o.dtype == object:
            for j in np.ndindex(*o.shape):
                o[j] = Top('smudged')
        else:
            raise Imprecise('unknown write into integer array')

    def iterate(self, v, unknown_ok=False):
        if isinstance(v, (list, tuple, range)):
            return v
        if isinstance(v, (dict, set, frozenset, collections.deque)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                raise AbsRaise('TypeError', 'iteration over a 0-d array')
            return [norm_native(x) for x in v]
        if isinstance(v, (zip, map, filter, enumerate, reversed)) or \
                isinstance(v, types.GeneratorType):
            return list(v)
        if isinstance(v, Alt):
            outs = []
            for x in v.vals:
                try:
                    xs = self.iterate(x, True)
                except AbsRaise:
                    continue
                if xs is None:
                    outs = None
                    break
                outs.append(list(xs))
            if outs and all(len(x) == len(outs[0]) for x in outs):
                res = outs[0]
                for o in outs[1:]:
                    res = [join(p, q) for p, q in zip(res, o)]
                return res
            if unknown_ok:
                return None
            return [Rest()]
        if hasattr(v, 'absint_iter'):
            return v.absint_iter(self)
        if isinstance(v, Obj):
            m = v.cls.lookup('__iter__')
            if m is not MISSING:
                w = self.call_func(m, [v], {})
                if isinstance(w, Obj) and w.cls is not None and \
                        w.cls.lookup('__next__') is not MISSING:
                    return self.drain(w, '__next__', 'StopIteration')
                return self.iterate(w, unknown_ok)
            if v.cls is not None and v.cls.lookup('__getitem__') \
                    is not MISSING:
                return self.drain(v, '__getitem__', 'IndexError')
            raise AbsRaise('TypeError', 'not iterable')
        if isinstance(v, Cls) and v.enum is not None:
            return list(v.enum)
        if isinstance(v, (Top, Native, NatMod)):
            if unknown_ok:
                return None
            return [Rest()]
        if hasattr(v, 'absint_iter'):
            return v.absint_iter(self)
        if v is None or is_num(v) or isinstance(v, (Func, Bound)):
            raise AbsRaise('TypeError', '%s object is not iterable (line %s)'
                           % (type(v).__name__, self.line))
        try:
            return list(v)
        except Exception:
            if unknown_ok:
                return None
            return [Rest()]

    def drain(self, v, m, end):
        out = []
        while True:
            try:
                out.append(self.call(self.getattr_(v, m), [len(out)]
                                     if m == '__getitem__' else []))
            except AbsRaise as e:
                if e.etype == end:
                    return out
                raise
            if len(out) > 10000:
                return [Rest()]

    # ------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken('unsupported expression %s at %s:%s' % (
                type(e).__name__, fr.module.name, e.lineno))
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.getvar(fr, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr_(self.ev(e.value, fr), self.mangle(e.attr, fr))

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.index(e.slice, fr))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return list(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.ev(v, fr)
                if isinstance(m, dict):
                    d.update(m)
            else:
                kk = self.ev(k, fr)
                vv = self.ev(v, fr)
                d[kk] = vv
        return d

    def e_JoinedStr(self, e, fr):
        out = []
        for x in e.values:
            v = self.ev(x, fr)
            if not isinstance(v, str):
                return Top('fstring')
            out.append(v)
        return ''.join(out)

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr, '<lambda>')

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while f.func is True:
            f = f.closure
        self.assign(e.target, v, f)
        return v

    def e_IfExp(self, e, fr):
        tv = self.truth(self.ev(e.test, fr))
        if tv is True:
            return self.ev(e.body, fr)
        if tv is False:
            return self.ev(e.orelse, fr)
        t = self.begin()
        old = dict(fr.vars)
        try:
            self.refine(e.test, True, fr)
            a = self.ev(e.body, fr)
        except AbsRaise:
            self.capture_undo(t)
            self.txns.remove(t)
            return self.ev(e.orelse, fr)
        after = self.capture_undo(t)
        try:
            self.refine(e.test, False, fr)
            b = self.ev(e.orelse, fr)
        except AbsRaise:
            self.capture_undo_discard(t)
            self.merge(t, after, dead=True)
            return a
        self.merge(t, after)
        return join(a, b)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        unk = False
        last = None
        for x in e.values:
            try:
                v = self.ev(x, fr)
            except AbsRaise:
                if unk:
                    return Top('boolop')
                raise
            last = v
            tv = self.truth(v)
            if tv is None:
                unk = True
                continue
            if isand and tv is False:
                return False if unk else v
            if not isand and tv is True:
                return True if unk else v
        return Top('boolop') if unk else last

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            tv = self.truth(v)
            return Top('not') if tv is None else (not tv)
        if isinstance(v, Top):
            return v
        if isinstance(v, Alt):
            return self.alt_map(lambda x: self.unary(e.op, x), v)
        return self.unary(e.op, v)

    def unary(self, op, v):
        if isinstance(v, Top):
            return v
        if hasattr(v, 'absint_unary'):
            return v.absint_unary(self, op)
        if isinstance(v, Obj):
            m = v.cls.lookup({ast.USub: '__neg__', ast.UAdd: '__pos__',
                              ast.Invert: '__invert__'}.get(
                                  type(op), '?')) if v.cls else MISSING
            if m is not MISSING:
                return self.call_func(m, [v], {})
            return Top('object arithmetic')
        try:
            if isinstance(op, ast.USub):
                if isinstance(v, np.ndarray) and v.dtype == object:
                    out = np.empty(v.shape, dtype=object)
                    for ix in np.ndindex(*v.shape):
                        x = v[ix]
                        out[ix] = x if isinstance(x, (Top, Uninit)) else \
                            Top('neg') if isinstance(x, Alt) else -x
                    return out
                return norm_native(-v)
            if isinstance(op, ast.UAdd):
                return v
            if isinstance(op, ast.Invert):
                if isinstance(v, np.ndarray) and v.dtype == object:
                    return self.to_array([
                        Top('inv') if self.truth(x) is None
                        else not self.truth(x)
                        for x in v.ravel()]).reshape(v.shape)
                return norm_native(~v)
        except TypeError as ex:
            raise AbsRaise('TypeError', str(ex))

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        if isinstance(a, Alt):
            return self.alt_map(lambda x: self.binop(op, x, b), a)
        if isinstance(b, Alt):
            return self.alt_map(lambda x: self.binop(op, a, x), b)
        if hasattr(a, 'absint_binop'):
            r = a.absint_binop(self, op, b, False)
            if r is not NotImplemented:
                return r
        if hasattr(b, 'absint_binop'):
            r = b.absint_binop(self, op, a, True)
            if r is not NotImplemented:
                return r
        if isinstance(a, Top) or isinstance(b, Top):
            if a is DIV0 or b is DIV0:
                return DIV0
            return Top('arith')
        if isinstance(op, ast.Mod) and isinstance(a, str):
            try:
                return a % b
            except Exception:
                return Top('fmt')
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.obj_binop(op, a, b)
        if isinstance(op, ast.MatMult):
            return self.np_dot(a, b)
        f = _BIN[type(op)]
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return self.arr_binop(op, f, a, b)
        if isinstance(a, Fraction) and isinstance(b, float) or \
                isinstance(a, float) and isinstance(b, Fraction):
            pass
        if isinstance(a, Sym) and isinstance(op, (ast.FloorDiv, ast.Mod)):
            if a.is_const():
                a = a.const()
            else:
                return Top('floordiv')
        if isinstance(b, Sym) and isinstance(op, (ast.FloorDiv, ast.Mod)):
            if b.is_const():
                b = b.const()
            else:
                return Top('floordiv')
        try:
            r = f(a, b)
        except ZeroDivisionError as e:
            raise AbsRaise('ZeroDivisionError', str(e))
        except (TypeError, ValueError) as e:
            raise AbsRaise(type(e).__name__, '%s (line %s)' % (e, self.line))
        if isinstance(r, complex) and not isinstance(a, complex) and \
                not isinstance(b, complex):
            pass
        return norm_native(r)

    def obj_binop(self, op, a, b):
        n = _DUNDER[type(op)]
        for x, y, m in ((a, b, '__%s__' % n), (b, a, '__r%s__' % n)):
            f = x.cls.lookup(m) if isinstance(x, Obj) and x.cls else MISSING
            if f is not MISSING:
                r = self.call_func(f, [x, y], {})
                if r is not NotImplemented:
                    return r
        if all(x.cls is not None and not x.cls.native_bases()
               if isinstance(x, Obj) else
               x is None or is_num(x) or isinstance(x, (str, list, tuple,
                                                        dict))
               for x in (a, b)):
            raise AbsRaise('TypeError', 'unsupported operand types for %s '
                           '(line %s)' % (n, self.line))
        return Top('object arithmetic')

    def arr_binop(self, op, f, a, b):
        if isinstance(a, (list, tuple)):
            a = self.to_array(a)
        if isinstance(b, (list, tuple)):
            b = self.to_array(b)
        if isinstance(a, Top) or isinstance(b, Top):
            return Top('arith')
        isobj = any(isinstance(x, (Sym, Fraction)) or
                    isinstance(x, np.ndarray) and x.dtype == object
                    for x in (a, b))
        if isobj or isinstance(op, ast.Div):
            A = np.asarray(a, dtype=object) if isinstance(
                a, np.ndarray) else _box(a)
            B = np.asarray(b, dtype=object) if isinstance(
                b, np.ndarray) else _box(b)
            try:
                A, B = np.broadcast_arrays(A, B)
            except ValueError as e:
                raise AbsRaise('ValueError', str(e))
            out = np.empty(A.shape, dtype=object)
            for ix in np.ndindex(*A.shape):
                out[ix] = self.elem(op, A[ix], B[ix])
            if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and all(
                    isinstance(x, bool) for x in out.ravel()):
                return out.astype(bool)
            return out
        try:
            return norm_native(f(a, b))
        except Exception as e:
            raise AbsRaise(type(e).__name__, str(e))

    def elem(self, op, x, y):
        if isinstance(x, (Top, Alt)) or isinstance(y, (Top, Alt)):
            if isinstance(op, (ast.BitAnd, ast.BitOr)):
                tx, ty = self.truth(x), self.truth(y)
                if isinstance(op, ast.BitAnd):
                    return False if False in (tx, ty) else Top('and')
                return True if True in (tx, ty) else Top('or')
            if isinstance(op, ast.Mult) and (
                    is_num(x) and not isinstance(x, Sym) and x == 0 or
                    is_num(y) and not isinstance(y, Sym) and y == 0):
                return 0
            if x is DIV0 or y is DIV0:
                return DIV0
            return Top('arith')
        if isinstance(x, Uninit) or isinstance(y, Uninit):
            return UNINIT
        if isinstance(op, ast.Div) and is_num(y) and not isinstance(y, Sym) \
                and y == 0:
            return DIV0
        try:
            return norm_native(_BIN[type(op)](x, y))
        except ZeroDivisionError:
            return DIV0
        except TypeError as e:
            if hasattr(x, 'absint_binop') or hasattr(y, 'absint_binop'):
                return self.binop(op, x, y)
            raise AbsRaise('TypeError', str(e))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        unk = False
        for op, rn in zip(e.ops, e.comparators):
            right = self.ev(rn, fr)
            r = self.cmp(op, left, right)
            if len(e.ops) == 1:
                return r
            tv = self.truth(r)
            if tv is False:
                return False
            if tv is None:
                unk = True
            left = right
        return Top('cmp') if unk else True

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            if r is None:
                return Top('is')
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if r is None:
                return Top('in')
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if isinstance(a, (Top, Alt)) or isinstance(b, (Top, Alt)):
                return Top('cmp')
            if a is None or b is None:
                return isinstance(op, ast.NotEq)
            A = np.asarray(a) if isinstance(a, np.ndarray) else (
                self.to_array(a) if isinstance(a, (list, tuple)) else _box(a))
            B = np.asarray(b) if isinstance(b, np.ndarray) else (
                self.to_array(b) if isinstance(b, (list, tuple)) else _box(b))
            try:
                A, B = np.broadcast_arrays(A, B)
            except ValueError:
                return isinstance(op, ast.NotEq)
            out = np.empty(A.shape, dtype=object)
            for ix in np.ndindex(*A.shape):
                out[ix] = self.cmp1(op, norm_native(A[ix]),
                                    norm_native(B[ix]))
            if all(isinstance(x, bool) for x in out.ravel()):
                return out.astype(bool)
            return out
        return self.cmp1(op, a, b)

    def cmp1(self, op, a, b):
        if hasattr(a, 'absint_cmp'):
            return a.absint_cmp(self, op, b)
        if isinstance(a, Alt) or isinstance(b, Alt):
            res = set()
            for x in (a.vals if isinstance(a, Alt) else [a]):
                for y in (b.vals if isinstance(b, Alt) else [b]):
                    r = self.cmp1(op, x, y)
                    res.add(r if isinstance(r, bool) else None)
            return res.pop() if len(res) == 1 and None not in res \
                else Top('cmp')
        if isinstance(a, Top) or isinstance(b, Top):
            return Top('cmp')
        if isinstance(a, Uninit) or isinstance(b, Uninit):
            return Top('cmp')
        if isinstance(a, Sym) or isinstance(b, Sym):
            if not is_num(a) or not is_num(b):
                if isinstance(op, ast.Eq):
                    return False
                if isinstance(op, ast.NotEq):
                    return True
                return Top('cmp')
            d = Sym.of(a) - Sym.of(b)
            if d.is_const():
                c = d.const()
                if abs(c) < 1e-13:
                    # rounding noise, unless compared with a tolerance
                    u, v = Sym.of(a), Sym.of(b)
                    m = sorted((abs(u.const()), abs(v.const()))) \
                        if u.is_const() and v.is_const() else [1, 1]
                    if not (m[0] < 1e-15 <= m[1]):
                        c = 0
                s = (c > 0) - (c < 0)
            else:
                if d.is_zero():
                    s = 0
                else:
                    s = d.sign()
                if s is None and self.assume_hook is not None:
                    s = self.assume_hook(op, Sym.of(a), Sym.of(b), d)
                    if isinstance(s, bool):
                        return s
            if s is None:
                return Top('cmp')
            return {ast.Eq: s == 0, ast.NotEq: s != 0, ast.Lt: s < 0,
                    ast.LtE: s <= 0, ast.Gt: s > 0, ast.GtE: s >= 0}[
                        type(op)]
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
                isinstance(op, (ast.Eq, ast.NotEq)):
            if type(a) is not type(b) or len(a) != len(b):
                return isinstance(op, ast.NotEq)
            unk = False
            for x, y in zip(a, b):
                if isinstance(x, Rest) or isinstance(y, Rest):
                    unk = True
                    continue
                r = self.truth(self.cmp1(ast.Eq(), x, y))
                if r is False:
                    return isinstance(op, ast.NotEq)
                if r is None:
                    unk = True
            return Top('cmp') if unk else isinstance(op, ast.Eq)
        if isinstance(a, Bound) and isinstance(b, Bound):
            eq = a.func is b.func and a.obj is b.obj
            return eq if isinstance(op, ast.Eq) else not eq
        if isinstance(a, Obj) or isinstance(b, Obj):
            dn = {ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.Lt: '__lt__',
                  ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[
                      type(op)]
            if isinstance(a, Obj) and a.cls:
                m = a.cls.lookup(dn)
                if m is not MISSING:
                    r = self.call_func(m, [a, b], {})
                    if r is not NotImplemented:
                        return r
                elif dn == '__ne__':
                    m = a.cls.lookup('__eq__')
                    if m is not MISSING:
                        r = self.call_func(m, [a, b], {})
                        if r is not NotImplemented:
                            r = self.truth(r)
                            return Top('cmp') if r is None else not r
            if isinstance(b, Obj) and b.cls:
                m = b.cls.lookup({'__lt__': '__gt__', '__gt__': '__lt__',
                                  '__le__': '__ge__', '__ge__': '__le__'}
                                 .get(dn, dn))
                if m is not MISSING:
                    r = self.call_func(m, [b, a], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(op, ast.Eq):
                return a is b
            if isinstance(op, ast.NotEq):
                return a is not b
            return Top('cmp objects')
        if isinstance(a, Fraction) and isinstance(b, float) or \
                isinstance(a, float) and isinstance(b, Fraction):
            a, b = float(a), float(b)
        f = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt,
             ast.LtE: operator.le, ast.Gt: operator.gt,
             ast.GtE: operator.ge}[type(op)]
        try:
            return norm_native(f(a, b))
        except TypeError as e:
            raise AbsRaise('TypeError', '%s (line %s)' % (e, self.line))

    def is_(self, a, b):
        if isinstance(a, Alt) or isinstance(b, Alt):
            res = set()
            for x in (a.vals if isinstance(a, Alt) else [a]):
                for y in (b.vals if isinstance(b, Alt) else [b]):
                    res.add(self.is_(x, y))
            return res.pop() if len(res) == 1 else None
        if isinstance(a, Top) or isinstance(b, Top):
            return None
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
            return a is b
        if isinstance(a, (int, float, str, bool)) and \
                isinstance(b, (int, float, str, bool)):
            return a == b and type(a) is type(b)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return a is b

    def contains(self, c, x):
        if isinstance(c, (Top,)):
            return None
        if isinstance(c, Alt):
            rs = {self.contains(y, x) for y in c.vals}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(x, (Top,)):
            return None
        if isinstance(x, Alt):
            rs = {self.contains(c, y) for y in x.vals}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(c, str):
            return x in c if isinstance(x, str) else None
        if isinstance(c, (dict, set, frozenset)):
            try:
                r = x in c
            except TypeError:
                raise AbsRaise('TypeError', 'unhashable')
            return r
        if isinstance(c, Obj):
            m = c.cls.lookup('__contains__')
            if m is not MISSING:
                return self.truth(self.call_func(m, [c, x], {}))
        if hasattr(c, 'absint_contains'):
            return c.absint_contains(self, x)
        unk = False
        for y in self.iterate(c):
            if isinstance(y, Rest):
                unk = True
                continue
            r = y is x or self.truth(self.cmp1(ast.Eq(), y, x))
            if r is True:
                return True
            if r is None:
                unk = True
        return None if unk else False

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Top) or isinstance(v, Uninit):
            return None
        if isinstance(v, Alt):
            rs = {self.truth(x) for x in v.vals}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(v, Sym):
            if v.is_const():
                return v.const() != 0
            s = v.sign()
            return None if s is None else s != 0
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return self.truth(norm_native(v.ravel()[0]))
            if v.size == 0:
                return False
            raise AbsRaise('ValueError', 'truth value of an array')
        if isinstance(v, (list, collections.deque)):
            if any(isinstance(x, Rest) for x in v):
                return True if any(not isinstance(x, Rest) for x in v) \
                    else None
            return len(v) > 0
        if isinstance(v, Obj):
            for n in ('__bool__', '__len__'):
                m = v.cls.lookup(n) if v.cls else MISSING
                if m is not MISSING:
                    return self.truth(self.call_func(m, [v], {}))
            return True
        if isinstance(v, (Func, Bound, Cls, Native, ModV, NatMod, ExcT,
                          ExcV)):
            return True
        if hasattr(v, 'absint_truth'):
            return v.absint_truth(self)
        try:
            return bool(v)
        except Exception:
            return None

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                'super' not in fr.vars:
            if e.args:
                return Super(self.ev(e.args[0], fr), self.ev(e.args[1], fr))
            f = fr
            while not isinstance(f.func, Func) or f.func.cls is None:
                f = f.closure
            first = f.func.node.args.args[0].arg
            return Super(fr.cls, f.vars[first])
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                xs = self.iterate(v, unknown_ok=True)
                if xs is None or any(isinstance(x, Rest) for x in xs):
                    return Top('star-args')
                args.extend(xs)
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, dict):
                    kw.update(v)
                else:
                    return Top('star-kwargs')
            else:
                kw[k.arg] = v
        old = self.line
        self.callnode = e
        r = self.call(f, args, kw)
        self.line = old
        return r

    def comp(self, e, fr, emit):
        cf = Frame(True, fr.module, fr.cls, fr)
        cf.yields = fr.yields
        cf.on_yield = fr.on_yield

        def rec(i):
            if i == len(e.generators):
                emit(cf)
                return True
            g = e.generators[i]
            items = self.iterate(self.ev(g.iter, cf), unknown_ok=True)
            if items is None:
                return None
            ok = True
            for x in items:
                if isinstance(x, Rest):
                    ok = None
                    continue
                self.assign(g.target, x, cf)
                keep = True
                for c in g.ifs:
                    tv = self.truth(self.ev(c, cf))
                    if tv is False:
                        keep = False
                        break
                    if tv is None:
                        keep = None
                        break
                if keep is None:
                    ok = None
                    continue
                if keep and rec(i + 1) is None:
                    ok = None
            return ok
        return rec(0)

    def e_ListComp(self, e, fr):
        out = []
        r = self.comp(e, fr, lambda cf: out.append(self.ev(e.elt, cf)))
        if r is None:
            v = None
            for x in out:
                v = x if v is None else join(v, x)
            return [Rest(v)]
        return out

    def e_GeneratorExp(self, e, fr):
        out = []
        err = None
        try:
            r = self.comp(e, fr, lambda cf: out.append(self.ev(e.elt, cf)))
        except AbsRaise as ex:
            # raised when the consumer gets there
            r, err = True, ex
        if r is None:
            v = None
            for x in out:
                v = x if v is None else join(v, x)
            out = [Rest(v)]
        g = IterV(out)
        g.err = err
        return g

    def e_SetComp(self, e, fr):
        v = self.e_ListComp(e, fr)
        if any(isinstance(x, (Rest, Top, Alt)) for x in v):
            return Top('set')
        try:
            return set(v)
        except TypeError as ex:
            raise AbsRaise('TypeError', '%s (line %s)' % (ex, self.line))

    def e_DictComp(self, e, fr):
        out = {}

        def emit(cf):
            out[self.ev(e.key, cf)] = self.ev(e.value, cf)
        r = self.comp(e, fr, emit)
        return out if r is not None else Top('dict')

    def e_Yield(self, e, fr):
        v = None if e.value is None else self.ev(e.value, fr)
        if fr.on_yield is not None:
            return fr.on_yield(v)
        fr.yields.append(v)
        return None

    def e_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        fr.yields.extend(self.iterate(v))
        return getattr(v, 'value', None) if isinstance(v, IterV) else None

    def e_Starred(self, e, fr):
        raise AnalysisBroken('starred')

    def e_FormattedValue(self, e, fr):
        v = self.ev(e.value, fr)
        spec = '' if e.format_spec is None else self.ev(e.format_spec, fr)
        if not isinstance(spec, str):
            return Top('fstring')
        if e.conversion == ord('r'):
            v = self.text(v, '__repr__')
        elif e.conversion == ord('s'):
            v = self.text(v, '__str__')
        return self.fmt(v, spec)

    def text(self, v, m='__str__'):
        """str(v) or repr(v), where this is known"""
        if isinstance(v, Obj) and v.cls is not None:
            for n in ((m, '__repr__') if m == '__str__' else (m,)):
                f = v.cls.lookup(n)
                if f is not MISSING:
                    return self.call_func(f, [v], {})
            return Top('str')
        if isinstance(v, ExcV):
            if v.args is None or m == '__repr__':
                return Top('str')
            if len(v.args) == 1:
                return self.text(v.args[0], '__repr__' if getattr(
                    v.etype, 'name', '') == 'KeyError' else m)
            return '' if not v.args else Top('str')
        if isinstance(v, (str, bool, int, type(None))) and \
                not isinstance(v, enum.Enum):
            return repr(v) if m == '__repr__' else str(v)
        if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
            xs = [self.text(x, '__repr__') for x in v]
            if not all(isinstance(x, str) for x in xs):
                return Top('str')
            t = ', '.join(xs)
            if isinstance(v, list):
                return '[' + t + ']'
            return '(' + t + (',)' if len(xs) == 1 else ')')
        return Top('str')

    def fmt(self, v, spec=''):
        if isinstance(v, Obj) and v.cls is not None:
            f = v.cls.lookup('__format__')
            if f is not MISSING:
                return self.call_func(f, [v, spec], {})
        if not spec:
            return self.text(v)
        if isinstance(v, Sym) and v.is_const():
            v = float(v.const())
        if isinstance(v, Fraction):
            v = float(v)
        if isinstance(v, (str, int, float, bool)):
            try:
                return format(v, spec)
            except ValueError as e:
                raise AbsRaise('ValueError', str(e))
        return Top('str')

    def e_Slice(self, e, fr):
        return self.index(e, fr)

    # ------------------------------------------------------------------
    # builtins
    # ------------------------------------------------------------------
    def _builtins(self):
        B = {}

        def reg(name):
            def d(fn):
                B[name] = Native(name, lambda it, a, k: fn(a, k))
                return fn
            return d
        for n in EXC_NAMES:
            B[n] = self.exc[n]
        for t in (int, float, str, bool, complex, object, bytes):
            B[t.__name__] = t
        B['True'], B['False'], B['None'] = True, False, None
        B['NotImplemented'] = NotImplemented
        B['__name__'] = 'module'
        import builtins
        for n in dir(builtins):
            v = getattr(builtins, n)
            if n in ('ord', 'chr', 'bin', 'hex', 'oct', 'ascii'):
                B[n] = Native(n, lambda it, a, k, v=v: it.call_py(v, a, k))
            elif callable(v) and n[0].islower() and n not in B and n not in (
                    'property', 'staticmethod', 'classmethod'):
                B[n] = self._ext('builtins.' + n)
        B['Ellipsis'] = Ellipsis
        B['list'] = TypeV('list', list, self)
        B['tuple'] = TypeV('tuple', tuple, self)
        B['dict'] = TypeV('dict', dict, self)
        B['set'] = TypeV('set', set, self)
        B['frozenset'] = TypeV('frozenset', frozenset, self)
        B['int'] = TypeV('int', int, self)
        B['float'] = TypeV('float', float, self)
        B['bool'] = TypeV('bool', bool, self)
        B['str'] = TypeV('str', str, self)
        B['complex'] = TypeV('complex', complex, self)
        B['object'] = object

        @reg('print')
        def _(a, k):
            return None

        @reg('len')
        def _len(a, k):
            v = a[0]
            if isinstance(v, (Top, Alt)):
                if isinstance(v, Alt):
                    ls = {self._len(x) for x in v.vals
                          if self._len(x) is not None}
                    if len(ls) == 1:
                        return ls.pop()
                return Top('len')
            if isinstance(v, Obj):
                m = v.cls.lookup('__len__')
                if m is not MISSING:
                    return self.call_func(m, [v], {})
                raise AbsRaise('TypeError', 'object has no len')
            r = self._len(v)
            return Top('len') if r is None else r

        @reg('range')
        def _(a, k):
            a = [self.fix_index(x) for x in a]
            if has_top(a):
                return Top('range')
            try:
                return range(*a)
            except TypeError as e:
                raise AbsRaise('TypeError', str(e))

        @reg('enumerate')
        def _(a, k):
            xs = self.iterate(a[0], True)
            if xs is None:
                return Top('enumerate')
            s = a[1] if len(a) > 1 else k.get('start', 0)
            return IterV([Rest((Top('i'), x.v)) if isinstance(x, Rest)
                          else (i + s, x) for i, x in enumerate(xs)])

        @reg('zip')
        def _(a, k):
            its = [x for x in a if isinstance(x, IterV)
                   and not isinstance(x, CountV)]
            if len(its) == len(a) > 1 and all(x is its[0] for x in its):
                # chunks of one iterator
                xs = self.iterate(its[0])
                if any(isinstance(x, Rest) for x in xs):
                    return Top('zip')
                n = len(a)
                return IterV([tuple(xs[i:i + n])
                              for i in range(0, len(xs) - n + 1, n)])
            if len({id(x) for x in its}) < len(its):
                return Top('zip')
            cs = [x for x in a if isinstance(x, CountV)]
            if len(cs) == len(a):
                return IterV([]) if not a else Top('zip')
            xs = [x if isinstance(x, CountV) else self.iterate(x, True)
                  for x in a]
            if cs and not any(x is None for x in xs):
                n = min(len(x) for x in xs if not isinstance(x, CountV))
                xs = [x.first(self, n) if isinstance(x, CountV) else x
                      for x in xs]
            if any(x is None for x in xs) or any(
                    isinstance(y, Rest) for x in xs for y in x):
                if any(x is not None and len(list(x)) == 0 for x in xs):
                    return []
                vs = []
                for x in xs:
                    v = None
                    for y in (x or []):
                        y = y.v if isinstance(y, Rest) else y
                        v = y if v is None else join(v, y)
                    vs.append(Top('zip') if v is None else v)
                return IterV([Rest(tuple(vs))])
            if self.truth(k.get('strict', False)) and len(
                    {len(x) for x in xs}) > 1:
                raise AbsRaise('ValueError', 'zip() arguments differ in '
                               'length')
            return IterV(list(zip(*xs)))

        @reg('map')
        def _(a, k):
            xs = self.iterate(a[1], True)
            if xs is None:
                return Top('map')
            if len(a) > 2:
                return IterV([self.call(a[0], list(t)) for t in
                              zip(*[self.iterate(x) for x in a[1:]])])
            return IterV([Rest() if isinstance(x, Rest)
                          else self.call(a[0], [x]) for x in xs])

        @reg('filter')
        def _(a, k):
            out = []
            for x in self.iterate(a[1]):
                tv = self.truth(x if a[0] is None else self.call(a[0], [x]))
                if tv is None:
                    return IterV([Rest()])
                if tv:
                    out.append(x)
            return IterV(out)

        @reg('reversed')
        def _(a, k):
            if isinstance(a[0], Obj) and a[0].cls is not None:
                m = a[0].cls.lookup('__reversed__')
                if m is not MISSING:
                    return self.call_func(m, [a[0]], {})
            if isinstance(a[0], (IterV, set, frozenset)):
                raise AbsRaise('TypeError', 'argument to reversed() must be '
                               'a sequence (line %s)' % self.line)
            xs = self.iterate(a[0], True)
            return Top('reversed') if xs is None else IterV(list(xs)[::-1])

        @reg('sorted')
        def _(a, k):
            return self.b_sorted(a, k)

        @reg('sum')
        def _(a, k):
            xs = self.iterate(a[0], True)
            if xs is None:
                return Top('sum')
            s = a[1] if len(a) > 1 else k.get('start', 0)
            for x in xs:
                if isinstance(x, Rest):
                    return Top('sum')
                s = self.binop(ast.Add(), s, x)
            return s

        def mm(name):
            def f(a, k):
                xs = self.iterate(a[0], True) if len(a) == 1 else a
                if xs is None:
                    return Top(name)
                xs = list(xs)
                if not xs:
                    if 'default' in k:
                        return k['default']
                    raise AbsRaise('ValueError', name + ' of empty')
                if any(isinstance(x, (Rest, Top, Alt)) for x in xs) or \
                        'key' in k:
                    if 'key' in k and not has_top(xs):
                        keys = [self.call(k['key'], [x]) for x in xs]
                        if not has_top(keys) and not has_sym(keys):
                            f_ = min if name == 'min' else max
                            i = f_(range(len(xs)), key=lambda j: keys[j])
                            return xs[i]
                    return Top(name)
                if has_sym(xs):
                    from .sym import minmax
                    return minmax(name, xs)
                try:
                    return (min if name == 'min' else max)(xs)
                except TypeError as e:
                    raise AbsRaise('TypeError', str(e))
            return f
        B['min'] = Native('min', lambda it, a, k: mm('min')(a, k))
        B['max'] = Native('max', lambda it, a, k: mm('max')(a, k))

        def allany(isall):
            def f(a, k):
                g = a[0] if isinstance(a[0], IterV) and a[0].err else None
                xs = g.rest() if g else self.iterate(a[0], True)
                if xs is None:
                    return Top('all')
                unk = False
                for x in xs:
                    tv = None if isinstance(x, Rest) else self.truth(x)
                    if tv is None:
                        unk = True
                    elif tv is not isall:
                        return not isall
                if g:
                    if unk:
                        return Top('all')
                    raise g.err
                return Top('all') if unk else isall
            return f
        B['all'] = Native('all', lambda it, a, k: allany(True)(a, k))
        B['any'] = Native('any', lambda it, a, k: allany(False)(a, k))

        @reg('abs')
        def _(a, k):
            v = a[0]
            if isinstance(v, (Top, Alt)):
                return Top('abs')
            if isinstance(v, np.ndarray) or hasattr(v, 'absint_np'):
                return self.np_call('numpy.abs', a, k)
            if isinstance(v, Obj) and v.cls is not None and \
                    v.cls.lookup('__abs__') is not MISSING:
                return self.call(self.getattr_(v, '__abs__'), [])
            return self.call_py(abs, a, k)

        @reg('round')
        def _(a, k):
            v = a[0]
            if isinstance(v, Sym) and v.is_const():
                v = v.const()
            if isinstance(v, (Top, Alt, Sym)):
                return Top('round')
            if isinstance(v, Fraction):
                v = float(v)
            if isinstance(v, np.ndarray):
                return self.np_call('numpy.round', a, k)
            return self.call_py(round, [v] + list(a[1:]), k)

        @reg('pow')
        def _(a, k):
            return self.binop(ast.Pow(), a[0], a[1])

        @reg('divmod')
        def _(a, k):
            return (self.binop(ast.FloorDiv(), a[0], a[1]),
                    self.binop(ast.Mod(), a[0], a[1]))

        @reg('isinstance')
        def _(a, k):
            return self.b_isinstance(a[0], a[1])

        @reg('issubclass')
        def _(a, k):
            c, d = a
            if isinstance(c, Cls):
                ds = d if isinstance(d, tuple) else (d,)
                return any(isinstance(x, Cls) and c.is_sub(x) or
                           x is object for x in ds)
            if isinstance(c, ExcT):
                ds = d if isinstance(d, tuple) else (d,)
                if all(isinstance(x, (ExcT, Cls)) for x in ds):
                    return self.exc_match(c.name, [x.name for x in ds])
            if isinstance(c, (TypeV, type)):
                ds = d if isinstance(d, tuple) else (d,)
                if all(isinstance(x, (TypeV, type, Cls)) for x in ds):
                    c = getattr(c, 't', c)
                    return issubclass(c, tuple(
                        getattr(x, 't', x) for x in ds
                        if not isinstance(x, Cls)))
            return Top('issubclass')

        @reg('type')
        def _(a, k):
            return self.b_type(a[0])

        @reg('callable')
        def _(a, k):
            v = a[0]
            if isinstance(v, (Top, Alt)):
                return Top('callable')
            if isinstance(v, (Func, Bound, Cls, Native, TypeV)):
                return True
            if isinstance(v, Obj):
                return bool(v.cls and v.cls.lookup('__call__')
                            is not MISSING)
            if hasattr(v, 'absint_call'):
                return True
            return callable(v)

        @reg('hasattr')
        def _(a, k):
            if isinstance(a[0], (Top, Alt)):
                return Top('hasattr')
            try:
                self.getattr_(a[0], a[1])
                return True
            except AbsRaise:
                return False

        @reg('getattr')
        def _(a, k):
            if isinstance(a[1], (Top, Alt)):
                return Top('getattr')
            try:
                return self.getattr_(a[0], a[1])
            except AbsRaise:
                if len(a) > 2:
                    return a[2]
                raise

        @reg('setattr')
        def _(a, k):
            self.setattr_(a[0], a[1], a[2])

        @reg('id')
        def _(a, k):
            return id(a[0])

        @reg('hash')
        def _(a, k):
            if has_top(a):
                return Top('hash')
            try:
                return hash(a[0])
            except TypeError as e:
                raise AbsRaise('TypeError', str(e))

        @reg('iter')
        def _(a, k):
            if isinstance(a[0], IterV):
                return a[0]
            if isinstance(a[0], Obj) and a[0].cls is not None:
                m = a[0].cls.lookup('__iter__')
                if m is not MISSING:
                    return self.call_func(m, [a[0]], {})
            xs = self.iterate(a[0], True)
            return Top('iter') if xs is None else IterV(list(xs))

        @reg('next')
        def _(a, k):
            v = a[0]
            if isinstance(v, IterV):
                return v.next(self, a)
            if hasattr(v, 'absint_next'):
                return v.absint_next(self, a)
            if isinstance(v, Obj) and v.cls is not None and \
                    v.cls.lookup('__next__') is not MISSING:
                try:
                    return self.call(self.getattr_(v, '__next__'), [])
                except AbsRaise as e:
                    if e.etype == 'StopIteration' and len(a) > 1:
                        return a[1]
                    raise
            if isinstance(v, (list, tuple, dict, set, str, range)):
                raise AbsRaise('TypeError', '%s object is not an iterator '
                               '(line %s)' % (type(v).__name__, self.line))
            return Top('next')

        @reg('repr')
        def _(a, k):
            return self.text(a[0], '__repr__')

        @reg('format')
        def _(a, k):
            return self.fmt(a[0], a[1] if len(a) > 1 else '')

        @reg('slice')
        def _(a, k):
            return slice(*a)

        @reg('vars')
        def _(a, k):
            return a[0].attrs if isinstance(a[0], Obj) else Top('vars')

        @reg('input')
        def _(a, k):
            return Top('input')

        @reg('locals')
        def _(a, k):
            return dict(self.frames[-1].vars)

        @reg('open')
        def _(a, k):
            if a and a[0] in self.files:
                return self.files[a[0]]()
            return Top('file')
        return B

    def _len(self, v):
        if isinstance(v, (list, tuple, dict, set, frozenset, str, range,
                          collections.deque)):
            if isinstance(v, (list, collections.deque)) and any(
                    isinstance(x, Rest) for x in v):
                return None
            return len(v)
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                raise AbsRaise('TypeError', 'len() of unsized object')
            return len(v)
        if hasattr(v, 'absint_len'):
            return v.absint_len(self)
        if v is None or is_num(v) or isinstance(v, (Func, Bound)):
            raise AbsRaise('TypeError', 'object of type %s has no len() '
                           '(line %s)' % (type(v).__name__, self.line))
        return None

    def b_sorted(self, a, k):
        xs = self.iterate(a[0], True)
        if xs is None:
            return Top('sorted')
        xs = list(xs)
        if any(isinstance(x, Rest) for x in xs):
            return Top('sorted')
        key = k.get('key')
        rev = bool(k.get('reverse', False))
        keys = xs if key is None else [self.call(key, [x]) for x in xs]
        if has_top(keys):
            return Top('sorted')
        keys = [self.const_key(x) for x in keys]
        if any(x is MISSING for x in keys):
            ix = self.order(xs if key is None else
                            [self.call(key, [x]) for x in xs], rev)
            if ix is None:
                return Top('sorted symbolic')
            return [xs[i] for i in ix]
        try:
            ix = sorted(range(len(xs)), key=lambda i: keys[i], reverse=rev)
        except TypeError:
            return Top('sorted')
        return [xs[i] for i in ix]

    def before(self, x, y):
        """-1, 0, 1 as x is sorted before, like or after y; None if this is
        not determined"""
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
            for p, q in zip(x, y):
                c = self.before(p, q)
                if c != 0:
                    return c
            return (len(x) > len(y)) - (len(x) < len(y))
        if isinstance(x, Obj) or isinstance(y, Obj):
            if x is y:
                return 0
            if isinstance(x, Obj) and x.cls is not None and \
                    x.cls.lookup('__lt__') is not MISSING:
                t = self.truth(self.cmp1(ast.Lt(), x, y))
                if t:
                    return -1
                u = self.truth(self.cmp1(ast.Lt(), y, x))
                if u:
                    return 1
                return 0 if t is False and u is False else None
            raise AbsRaise('TypeError', "'<' not supported between "
                           "instances (line %s)" % self.line)
        t = self.truth(self.cmp(ast.Lt(), x, y))
        if t:
            return -1
        u = self.truth(self.cmp(ast.Gt(), x, y))
        if u:
            return 1
        return 0 if t is False and u is False else None

    def order(self, keys, rev=False):
        """permutation that sorts keys, or None"""
        import functools

        def c(i, j):
            r = self.before(keys[i], keys[j])
            if r is None:
                raise _Unordered()
            return r
        try:
            return sorted(range(len(keys)), key=functools.cmp_to_key(c),
                          reverse=rev)
        except _Unordered:
            return None

    def const_key(self, x):
        if isinstance(x, Sym):
            return x.const() if x.is_const() else MISSING
        if isinstance(x, tuple):
            y = tuple(self.const_key(z) for z in x)
            return MISSING if MISSING in y else y
        if isinstance(x, Obj):
            return MISSING
        return x

    def b_type(self, v):
        if isinstance(v, (Top, Alt)):
            return Top('type')
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, ExcV):
            return v.etype
        if isinstance(v, (Sym, Fraction)):
            return self.builtins['float']
        if isinstance(v, bool):
            return self.builtins['bool']
        for n in ('int', 'float', 'str', 'list', 'tuple', 'dict', 'set',
                  'frozenset', 'complex'):
            if type(v) is self.builtins[n].t:
                return self.builtins[n]
        if isinstance(v, (Func, Bound)):
            return TypeV('function', types.FunctionType, self)
        if v is None:
            return type(None)
        if isinstance(v, np.ndarray):
            return np.ndarray
        if hasattr(v, 'absint_type'):
            return v.absint_type(self)
        return type(v)

    def b_isinstance(self, v, t):
        if isinstance(t, tuple):
            rs = [self.b_isinstance(v, x) for x in t]
            if True in rs:
                return True
            if any(not isinstance(r, bool) for r in rs):
                return Top('isinstance')
            return False
        if isinstance(v, Alt):
            rs = [self.b_isinstance(x, t) for x in v.vals]
            if all(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return Top('isinstance')
        if isinstance(v, Top) or isinstance(t, Top):
            return Top('isinstance')
        if hasattr(v, 'absint_isinstance'):
            return v.absint_isinstance(self, t)
        if isinstance(t, Cls):
            return isinstance(v, Obj) and v.cls is not None and \
                v.cls.is_sub(t)
        if isinstance(t, TypeV):
            if t.t is float and isinstance(v, (Sym, Fraction)):
                return True
            if t.t is types.FunctionType:
                return isinstance(v, (Func, Bound))
            return isinstance(v, t.t)
        if isinstance(t, (Native, NatMod)):
            n = t.name
            if n.startswith('numpy.'):
                n2 = n[6:]
                if n2 == 'ndarray':
                    return isinstance(v, np.ndarray)
                if n2 in ('floating', 'float64', 'number'):
                    return isinstance(v, (Sym, float, Fraction))
                if n2 in ('integer', 'int64', 'int32', 'intp'):
                    return isinstance(v, int) and not isinstance(v, bool)
                if n2 in ('generic', 'bool_'):
                    return False
            if isinstance(v, (int, float, str, list, dict, tuple, set, Obj,
                              np.ndarray, type(None))):
                return False
            return Top('isinstance ' + n)
        if t is np.ndarray:
            return isinstance(v, np.ndarray)
        if isinstance(t, type):
            if isinstance(v, (Sym, Fraction)):
                return issubclass(float, t)
            if isinstance(v, Obj):
                return t is object
            if isinstance(v, (Func, Bound)) and t is types.FunctionType:
                return True
            return isinstance(v, t)
        if t is None or isinstance(t, (np.ndarray, Obj, Sym, list, dict, str,
                                       int, float, set, Fraction)):
            raise AbsRaise('TypeError', 'isinstance() arg 2 must be a type')
        if isinstance(t, ExcT):
            if isinstance(v, ExcV):
                return self.exc_match(v.etype.name, [t.name])
            return isinstance(v, Obj) and v.cls is not None and any(
                isinstance(b, ExcT) and self.exc_match(b.name, [t.name])
                for b in v.cls.native_bases())
        return Top('isinstance')

    # ------------------------------------------------------------------
    # numpy
    # ------------------------------------------------------------------
    def _numpy(self):
        return NatMod('numpy', np)

    _NP_PASS = {'reshape', 'ravel', 'transpose', 'swapaxes', 'moveaxis',
                'concatenate', 'hstack', 'vstack', 'column_stack',
                'row_stack', 'stack', 'tile', 'repeat', 'squeeze',
                'expand_dims', 'append', 'roll', 'flip', 'fliplr', 'flipud',
                'diag', 'ix_', 'meshgrid', 'outer', 'kron', 'delete',
                'insert', 'split', 'atleast_1d', 'atleast_2d', 'broadcast_to',
                'diagonal', 'trace', 'cumsum', 'cumprod', 'tensordot',
                'newaxis', 'ndim', 'shape', 'size', 'unravel_index',
                'ravel_multi_index', 'take', 'indices', 'triu', 'tril',
                'triu_indices', 'tril_indices', 'diff', 'rollaxis', 'copy',
                'setdiff1d', 'intersect1d', 'union1d', 'in1d', 'isin',
                'unique', 'argsort', 'sort', 'nonzero', 'flatnonzero',
                'bincount', 'digitize', 'searchsorted', 'mod', 'remainder',
                'floor', 'ceil', 'rint', 'isnan', 'isinf', 'isfinite',
                'argmax', 'argmin', 'count_nonzero', 'lexsort', 'ndindex',
                'identity', 'setxor1d', 'array_split', 'block', 'rot90',
                'ascontiguousarray', 'nan_to_num', 'einsum', 'cross', 'polyfit',
                'linspace', 'arange', 'logspace', 'round', 'around', 'sign',
                'array_equal', 'isclose', 'allclose', 'hypot', 'interp',
                'result_type', 'promote_types', 'iscomplexobj',
                'apply_along_axis', 'std', 'var', 'median', 'polyval',
                'matmul', 'floor_divide', 'array_equiv', 'fmod', 'trunc',
                'nanmin', 'nanmax', 'pad', 'dstack', 'argpartition',
                'partition', 'matrix_rank'}

    def np_attr(self, full, o, n):
        if o.name == 'numpy':
            if n in ('pi', 'e', 'inf', 'nan', 'newaxis', 'NaN', 'Inf'):
                return getattr(np, n, float(n.lower()) if n in
                               ('NaN', 'Inf') else None)
            if n == 'ndarray':
                return np.ndarray
            if n in ('int', 'float', 'bool', 'int64', 'float64', 'int32',
                     'bool_', 'intp', 'double', 'uint', 'object', 'longlong',
                     'integer', 'floating', 'number', 'generic'):
                base = {'int': int, 'int64': int, 'int32': int, 'intp': int,
                        'uint': int, 'longlong': int,
                        'bool': bool, 'bool_': bool}.get(n, float)
                if n in ('integer', 'floating', 'number', 'generic'):
                    return Native(full, lambda it, a, k: Top('np'))
                return self.builtins[base.__name__]
            if n == 'linalg':
                return NatMod('numpy.linalg', np.linalg)
            if n == 'random':
                return NatMod('numpy.random', None)
            if n in ('mgrid', 'ogrid', 'r_', 'c_', 's_'):
                return NpGrid(n)
            if n == 'finfo':
                return Native(full, lambda it, a, k: _Finfo())
            if n == 'vectorize':
                return Native(full, lambda it, a, k: Native(
                    'vectorized', lambda it2, a2, k2: it2.np_vec(a[0], a2)))
        if o.name == 'numpy.random':
            return self._ext(full)
        if isinstance(o, Native):
            # e.g. np.add.reduce, np.logical_and.reduce
            def red(it, a, k, nm=o.name, meth=n):
                return it.np_ufunc_method(nm, meth, a, k)
            return Native(full, red)
        return Native(full, lambda it, a, k: it.np_call(full, a, k))

    def np_ufunc_method(self, nm, meth, a, k):
        if meth == 'reduce' and nm == 'numpy.logical_and':
            return self.np_call('numpy.all', a, dict(axis=0, **k)
                                if 'axis' not in k and len(a) == 1 else k)
        if meth == 'reduce' and nm == 'numpy.logical_or':
            return self.np_call('numpy.any', a, dict(axis=0, **k)
                                if 'axis' not in k and len(a) == 1 else k)
        if meth == 'reduce' and nm == 'numpy.add':
            return self.np_call('numpy.sum', a, dict(axis=0, **k)
                                if 'axis' not in k and len(a) == 1 else k)
        if meth == 'outer' and nm in ('numpy.multiply',):
            return self.np_call('numpy.outer', a, k)
        if meth == 'at' and nm in ('numpy.add', 'numpy.subtract'):
            arr, ix, val = a[0], self.fix_index(a[1]), a[2]
            if isinstance(arr, np.ndarray) and arr.dtype == object and \
                    not has_top(ix) and not isinstance(ix, Top):
                self.touch(arr)
                pos = np.arange(arr.size).reshape(arr.shape)[ix]
                vals = np.broadcast_to(
                    val if isinstance(val, np.ndarray) else _box(val),
                    pos.shape)
                coords = list(np.ndindex(*arr.shape))
                op = ast.Add() if nm == 'numpy.add' else ast.Sub()
                for p, v in zip(pos.ravel(), vals.ravel()):
                    c = coords[p]
                    arr[c] = self.elem(op, arr[c], v)
                return None
            if isinstance(arr, np.ndarray):
                self.smudge(arr)
            return None
        if meth == 'outer':
            x, y = self.arr(a[0]), self.arr(a[1])
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
                return self.np_call(nm, [
                    x.reshape(x.shape + (1,) * y.ndim), y], k)
        return Top('ufunc method')

    def np_vec(self, f, a):
        arr = a[0]
        if isinstance(arr, np.ndarray):
            out = np.empty(arr.shape, dtype=object)
            for ix in np.ndindex(*arr.shape):
                out[ix] = self.call(f, [norm_native(arr[ix])] + list(a[1:]))
            return out
        return self.call(f, a)

    def np_dot(self, a, b):
        if hasattr(a, 'absint_dot'):
            return a.absint_dot(self, b)
        if hasattr(b, 'absint_rdot'):
            return b.absint_rdot(self, a)
        if isinstance(a, (Top, Alt)) or isinstance(b, (Top, Alt)):
            return Top('dot')
        if is_num(a) or is_num(b):
            return self.binop(ast.Mult(), a, b)
        A = self.to_array(a) if not isinstance(a, np.ndarray) else a
        B = self.to_array(b) if not isinstance(b, np.ndarray) else b
        if isinstance(A, Top) or isinstance(B, Top):
            return Top('dot')
        return self.tensordot(A, B, ([A.ndim - 1],
                                     [max(B.ndim - 2, 0)]))

    def tensordot(self, A, B, axes):
        try:
            if isinstance(axes, int):
                ax = list(range(A.ndim - axes, A.ndim))
                bx = list(range(axes))
            else:
                ax, bx = axes
                ax = [ax] if isinstance(ax, int) else list(ax)
                bx = [bx] if isinstance(bx, int) else list(bx)
            ax = [x % A.ndim for x in ax]
            bx = [x % B.ndim for x in bx]
        except Exception as e:
            raise AbsRaise('ValueError', str(e))
        if [A.shape[i] for i in ax] != [B.shape[i] for i in bx]:
            raise AbsRaise('ValueError', 'shape mismatch %s %s' % (
                A.shape, B.shape))
        fa = [i for i in range(A.ndim) if i not in ax]
        fb = [i for i in range(B.ndim) if i not in bx]
        At = A.transpose(fa + ax)
        Bt = B.transpose(bx + fb)
        n = int(np.prod([A.shape[i] for i in ax])) if ax else 1
        At2 = At.reshape(-1, n) if At.size else At.reshape(
            int(np.prod([A.shape[i] for i in fa])), n)
        Bt2 = Bt.reshape(n, -1) if Bt.size else Bt.reshape(
            n, int(np.prod([B.shape[i] for i in fb])))
        out = np.empty((At2.shape[0], Bt2.shape[1]), dtype=object)
        mul, add = ast.Mult(), ast.Add()
        for i in range(out.shape[0]):
            for j in range(out.shape[1]):
                s = 0
                for q in range(n):
                    s = self.elem(add, s, self.elem(
                        mul, norm_native(At2[i, q]), norm_native(Bt2[q, j])))
                out[i, j] = s
        shape = [A.shape[i] for i in fa] + [B.shape[i] for i in fb]
        if not shape:
            return out[0, 0]
        if A.dtype.kind == 'i' and B.dtype.kind == 'i':
            out = out.astype(int)
        return out.reshape(shape)

    def np_reduce(self, n, A, axis, keepdims=False):
        if isinstance(axis, list):
            axis = tuple(axis)
        if axis is None:
            flat = A.reshape(-1)
            return self.red1(n, flat)
        if isinstance(axis, tuple):
            for ax in sorted([x % A.ndim for x in axis], reverse=True):
                A = self.np_reduce(n, A, ax)
            return A
        try:
            axis = axis % A.ndim
        except ZeroDivisionError:
            raise AbsRaise('ValueError', 'axis')
        M = np.moveaxis(A, axis, -1)
        out = np.empty(M.shape[:-1], dtype=object)
        for ix in np.ndindex(*M.shape[:-1]):
            out[ix] = self.red1(n, M[ix])
        if keepdims:
            out = np.expand_dims(out, axis)
        if out.shape == ():
            return out[()]
        if out.size and all(isinstance(x, bool) for x in out.ravel()):
            return out.astype(bool)
        if out.size and all(isinstance(x, int) for x in out.ravel()):
            return out.astype(int)
        return out

    def red1(self, n, xs):
        xs = [norm_native(x) for x in xs]
        if n in ('all', 'any'):
            unk = False
            for x in xs:
                tv = self.truth(x)
                if tv is None:
                    unk = True
                elif tv is (n == 'any'):
                    return n == 'any'
            return Top(n) if unk else n == 'all'
        if n in ('sum', 'mean'):
            s = 0
            for x in xs:
                s = self.elem(ast.Add(), s, x)
            if n == 'mean':
                s = self.elem(ast.Div(), s, len(xs))
            return s
        if n == 'prod':
            s = 1
            for x in xs:
                s = self.elem(ast.Mult(), s, x)
            return s
        if n in ('min', 'max', 'amin', 'amax', 'nanmin', 'nanmax'):
            if not xs:
                raise AbsRaise('ValueError', 'zero-size array to reduction')
            if any(isinstance(x, (Top, Alt)) for x in xs):
                return Top(n)
            bad = [x for x in xs if isinstance(x, float) and x != x]
            if bad and n.startswith('nan') and len(bad) < len(xs):
                xs = [x for x in xs if not (isinstance(x, float) and x != x)]
            elif bad:
                return float('nan')
            from .sym import minmax
            m = 'min' if 'min' in n else 'max'
            if has_sym(xs):
                return minmax(m, xs)
            return (min if m == 'min' else max)(xs)
        raise AnalysisBroken('reduction ' + n)

    def elementwise(self, f, A):
        if isinstance(A, (list, tuple)):
            A = self.to_array(A)
        if isinstance(A, (Top, Alt)):
            return Top('ufunc')
        if isinstance(A, np.ndarray):
            out = np.empty(A.shape, dtype=object)
            for ix in np.ndindex(*A.shape):
                x = norm_native(A[ix])
                out[ix] = Top('ufunc') if isinstance(
                    x, (Top, Alt)) else (x if isinstance(x, Uninit) else f(x))
            if out.size and all(isinstance(x, bool) for x in out.ravel()):
                return out.astype(bool)
            return out
        return f(A)

    UFUNC1 = frozenset((
        'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'abs', 'absolute', 'fabs',
        'negative', 'positive', 'square', 'floor', 'ceil', 'rint', 'sign',
        'reciprocal', 'logical_not', 'invert', 'isnan', 'isfinite', 'log1p',
        'expm1', 'cbrt', 'tanh', 'sinh', 'cosh', 'arctan', 'arcsin',
        'arccos', 'conj', 'conjugate', 'exp2', 'log2', 'log10'))
    UFUNC2 = frozenset((
        'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power',
        'float_power', 'mod', 'remainder', 'floor_divide', 'maximum',
        'minimum', 'fmax', 'fmin', 'less', 'greater', 'less_equal',
        'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
        'logical_xor', 'bitwise_and', 'bitwise_or', 'matmul', 'dot', 'outer',
        'hypot', 'arctan2'))

    def np_out(self, full, a, k, out):
        """a call that writes its result into an array"""
        k = {q: v for q, v in k.items() if q != 'out'}
        where = k.pop('where', None)
        if isinstance(out, tuple) and len(out) == 1:
            out = out[0]
        r = self.np_call(full, a, k)
        if not isinstance(out, np.ndarray):
            return out if not isinstance(out, (Top, Alt)) else r
        if where is None or where is True:
            self.setitem(out, Ellipsis, r)
        else:
            where = self.arr(where) if isinstance(where, (list, tuple)) \
                else where
            if isinstance(where, np.ndarray) and isinstance(r, np.ndarray) \
                    and not has_top(list(where.ravel())) and all(
                        isinstance(w, (bool, np.bool_))
                        for w in where.ravel()):
                w = np.broadcast_to(where.astype(bool), out.shape)
                r = np.broadcast_to(r, out.shape)
                self.touch(out)
                for ix in np.ndindex(*out.shape):
                    if w[ix]:
                        out[ix] = r[ix]
            else:
                self.smudge(out)
        return out

    def np_call(self, full, a, k):
        out = k.get('out')
        if out is None:
            n = full[6:]
            if n in self.UFUNC1 and len(a) == 2:
                out, a = a[1], a[:1]
            elif n in self.UFUNC2 and len(a) == 3:
                out, a = a[2], a[:2]
        if out is not None:
            return self.np_out(full, a, k, out)
        if 'out' in k:
            k = {q: v for q, v in k.items() if q != 'out'}
        if full in self.overrides:
            v = self.overrides[full]
            return self.call(v, a, k)
        n = full[6:]
        a = [x.t if isinstance(x, TypeV) else x for x in a]
        k = {q: x.t if isinstance(x, TypeV) else x for q, x in k.items()}
        for x in list(a) + list(k.values()):
            if hasattr(x, 'absint_np'):
                r = x.absint_np(self, n, a, k)
                if r is not NotImplemented:
                    return r
            elif isinstance(x, (list, tuple)):
                for y in x:
                    if hasattr(y, 'absint_np'):
                        r = y.absint_np(self, n, a, k)
                        if r is not NotImplemented:
                            return r
        if n in ('any', 'all') and a and isinstance(a[0], IterV):
            return a[0]
        a = [self.degen(x) for x in a]
        k = {q: self.degen(x) for q, x in k.items()}
        if n in ('array', 'asarray', 'asanyarray', 'asfarray',
                 'ascontiguousarray', 'atleast_1d', 'atleast_2d'):
            v = a[0]
            if isinstance(v, Top) or isinstance(v, Alt):
                return Top('array')
            dt = k.get('dtype', a[1] if len(a) > 1 and n in (
                'array', 'asarray') else None)
            if n != 'array' and isinstance(v, np.ndarray):
                r = v
            else:
                if isinstance(v, range):
                    v = list(v)
                r = self.mkarr(v) if isinstance(v, (list, tuple,
                                                    np.ndarray)) \
                    else (_box(v) if not has_top([v]) else Top('array'))
            if isinstance(r, np.ndarray):
                if n == 'atleast_1d' and r.ndim == 0:
                    r = r.reshape(1)
                if n == 'atleast_2d' and r.ndim < 2:
                    r = r.reshape(1, -1)
                if dt is not None:
                    r2 = self.np_astype(r, getattr(dt, 't', dt))
                    if isinstance(r2, Top) or not same(r, r2) or \
                            r2.dtype != r.dtype:
                        r = r2
                elif r.dtype.kind == 'f':
                    r = r.astype(object)
                if k.get('ndmin') and r.ndim < k['ndmin']:
                    r = r.reshape((1,) * (k['ndmin'] - r.ndim) + r.shape)
            return r
        if n in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like',
                 'empty_like', 'full_like'):
            shape = a[0] if a else k.get('shape')
            if n.endswith('_like'):
                if isinstance(shape, (list, tuple)):
                    shape = self.to_array(shape)
                if not isinstance(shape, np.ndarray):
                    if is_num(shape):
                        shape = ()
                    else:
                        return Top(n)
                else:
                    intlike = shape.dtype.kind in 'ib'
                    if intlike and 'dtype' not in k:
                        k = dict(k, dtype=shape.dtype)
                    shape = shape.shape
            shape = self.fix_index(shape)
            if isinstance(shape, Top) or has_top(shape):
                return Top(n)
            dt = k.get('dtype')
            pos = 2 if n.startswith('full') else 1
            if dt is None and len(a) > pos:
                dt = a[pos]
            dt = getattr(dt, 't', dt)
            if n.startswith('zeros'):
                fill = 0
            elif n.startswith('ones'):
                fill = 1
            elif n.startswith('full'):
                fill = a[1] if len(a) > 1 else k['fill_value']
            else:
                fill = UNINIT
            if dt in (int, 'int') or isinstance(dt, np.dtype) and \
                    dt.kind == 'i':
                if fill is UNINIT:
                    fill = 0
                return np.full(shape, fill, dtype=int)
            if dt in (bool, 'bool') or isinstance(dt, np.dtype) and \
                    dt.kind == 'b':
                if fill is UNINIT:
                    fill = 0
                fill = bool(fill)
            if n.startswith('full') and dt is None:
                if type(fill) is bool:
                    return np.full(shape, fill, dtype=bool)
                if type(fill) is int:
                    return np.full(shape, fill, dtype=int)
            out = np.empty(shape, dtype=object)
            for ix in np.ndindex(*out.shape):
                out[ix] = fill
            return out
        if n in ('eye', 'identity'):
            if has_top(a):
                return Top(n)
            return np.eye(*[int(x) for x in a]).astype(int).astype(object)
        if n in ('sum', 'mean', 'prod', 'all', 'any', 'min', 'max', 'amin',
                 'amax', 'nanmin', 'nanmax', 'alltrue', 'sometrue'):
            v = a[0]
            n = {'alltrue': 'all', 'sometrue': 'any'}.get(n, n)
            if isinstance(v, (Top, Alt)):
                return Top(n)
            if isinstance(v, (list, tuple)):
                v = self.mkarr(v)
                if isinstance(v, Top):
                    return v
            if not isinstance(v, np.ndarray):
                if n in ('all', 'any'):
                    tv = self.truth(v)
                    return Top(n) if tv is None else tv
                return v
            ax = k.get('axis', a[1] if len(a) > 1 else None)
            return self.np_reduce(n, v, ax, k.get('keepdims', False))
        if n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'abs', 'absolute',
                 'fabs', 'square', 'negative', 'sinh', 'cosh', 'tanh',
                 'arctan', 'arcsin', 'arccos', 'log10', 'log2', 'conj',
                 'conjugate', 'real', 'reciprocal', 'positive'):
            def f(x):
                if n in ('abs', 'absolute', 'fabs'):
                    return abs(x)
                if n in ('conj', 'conjugate', 'real', 'positive'):
                    return x
                if n == 'square':
                    return x * x
                if n == 'negative':
                    return -x
                if n == 'reciprocal':
                    return 1 / x
                if isinstance(x, Sym):
                    if n in ('sqrt', 'exp', 'log', 'sin', 'cos'):
                        return getattr(x, n)()
                    return Sym.app(n, x)
                with np.errstate(all='ignore'):
                    return norm_native(getattr(np, n)(float(x)))
            return self.elementwise(f, a[0])
        if n in ('add', 'subtract', 'multiply', 'divide', 'true_divide',
                 'power', 'logical_and', 'logical_or', 'logical_not',
                 'maximum', 'minimum', 'logical_xor', 'less', 'greater',
                 'less_equal', 'greater_equal', 'equal', 'not_equal',
                 'mod', 'remainder', 'fmin', 'fmax', 'float_power'):
            return self.np_bin(n, a, k)
        if n in ('dot', 'matmul'):
            return self.np_dot(a[0], a[1])
        if n == 'inner':
            return self.np_dot(a[0], a[1].T if isinstance(
                a[1], np.ndarray) else a[1])
        if n == 'vdot':
            return self.np_dot(a[0].ravel(), a[1].ravel())
        if n == 'tensordot':
            if has_top(a):
                return Top(n)
            axes = k.get('axes', a[2] if len(a) > 2 else 2)
            return self.tensordot(self.arr(a[0]), self.arr(a[1]), axes)
        if n == 'outer':
            if has_top(a):
                return Top(n)
            x, y = self.arr(a[0]).ravel(), self.arr(a[1]).ravel()
            return self.arr_binop(ast.Mult(), operator.mul, x[:, None],
                                  y[None, :])
        if n == 'cross' and not k and len(a) == 2:
            if has_top(a):
                return Top(n)
            x, y = self.arr(a[0]), self.arr(a[1])
            if x.shape == y.shape == (2,) or x.shape == y.shape == (3,):
                def mul(i, j):
                    return self.binop(
                        ast.Sub(), self.binop(ast.Mult(), x[i], y[j]),
                        self.binop(ast.Mult(), x[j], y[i]))
                if len(x) == 2:
                    return mul(0, 1)
                return self.to_array([mul(1, 2), mul(2, 0), mul(0, 1)])
            return Top(n)
        if n == 'einsum':
            return self.einsum(a, k)
        if n in ('where',):
            return self.np_where(a, k)
        if n in ('isnan', 'isinf'):
            return self.elementwise(
                lambda x: (False if isinstance(x, Sym) and
                           not x.is_const() else bool(getattr(np, n)(
                               float(x)))), a[0])
        if n == 'isfinite':
            return self.elementwise(
                lambda x: (True if isinstance(x, Sym) and
                           not x.is_const() else bool(np.isfinite(
                               float(x)))), a[0])
        if n in ('isclose', 'allclose', 'array_equal', 'array_equiv'):
            if has_top(a):
                return Top(n)
            x, y = self.arr(a[0]), self.arr(a[1])
            try:
                x, y = np.broadcast_arrays(x, y)
            except ValueError:
                if n.startswith('array'):
                    return False
                raise AbsRaise('ValueError', 'broadcast')
            if n == 'array_equal' and self.arr(a[0]).shape != \
                    self.arr(a[1]).shape:
                return False
            out = np.empty(x.shape, dtype=object)
            for ix in np.ndindex(*x.shape):
                out[ix] = self.close(norm_native(x[ix]), norm_native(y[ix]))
            if n != 'isclose':
                return self.red1('all', out.ravel())
            if all(isinstance(z, bool) for z in out.ravel()):
                return out.astype(bool) if out.shape else bool(out[()])
            return out if out.shape else out[()]
        if n in ('linalg.norm',):
            v = self.arr(a[0])
            if isinstance(v, Top):
                return v
            if has_top(v):
                return Top('norm')
            order = k.get('ord', a[1] if len(a) > 1 else None)
            if order not in (None, 2, 'fro'):
                return Top('norm')
            if order == 2 and v.ndim != 1 and 'axis' not in k:
                return Top('norm')
            ax = k.get('axis', a[2] if len(a) > 2 else None)
            sq = self.elementwise(lambda x: x * x, v)
            s = self.np_reduce('sum', sq, ax)
            return self.elementwise(lambda x: Sym.of(x).sqrt(), s) if \
                isinstance(s, np.ndarray) else _c(Sym.of(s).sqrt())
        if n == 'linalg.det':
            v = self.arr(a[0])
            if isinstance(v, Top) or has_top(v):
                return Top('det')
            return self.det(v)
        if n == 'linalg.inv':
            v = self.arr(a[0])
            if isinstance(v, Top) or has_top(v) or v.shape[0] > 4:
                return Top('inv')
            return self.inv(v)
        if n == 'linalg.solve':
            A, b = self.arr(a[0]), self.arr(a[1])
            if isinstance(A, Top) or isinstance(b, Top) or has_top(A) or \
                    has_top(b) or A.shape[0] > 4:
                return Top('solve')
            return self.np_dot(self.inv(A), b)
        if n == 'linspace':
            if has_top(a):
                return Top(n)
            num = k.get('num', a[2] if len(a) > 2 else 50)
            if has_sym(a[:2]):
                x0, x1 = Sym.of(a[0]), Sym.of(a[1])
                return self.to_array([x0 + (x1 - x0) * Fraction(i, num - 1)
                                      for i in range(num)])
            return norm_native(np.linspace(*[
                float(x) if not isinstance(x, int) else x for x in a], **k))
        if n in ('unique', 'sort', 'argsort'):
            if has_top(a) or (has_sym(a[0]) and not self._allconst(a[0])):
                v = self.arr(a[0])
                if n != 'unique':
                    k = {x: y for x, y in k.items()
                         if x not in ('kind', 'stable')}
                if len(a) == 1 and not k and isinstance(v, np.ndarray) and \
                        not has_top(v) and (v.ndim == 1 or n == 'unique'):
                    v = v.ravel()
                    ix = self.order(list(v))
                    if ix is not None and n == 'unique':
                        ix = [i for m, i in enumerate(ix) if m == 0 or
                              self.before(v[ix[m - 1]], v[i]) != 0]
                    if ix is not None:
                        return np.array(ix, dtype=int) if n == 'argsort' \
                            else v[ix]
                self.notes.append(n + ' of symbolic array')
                return Top(n)
            v = self.arr(a[0])
            if v.dtype == object and v.size and all(
                    is_num(x) for x in v.ravel()):
                v = np.array([float(x) for x in v.ravel()]).reshape(v.shape)
            return self.call_py(getattr(np, n), [v] + a[1:], k)
        if n == 'bincount':
            w = k.get('weights', a[1] if len(a) > 1 else None)
            ix = self.fix_index(self.arr(a[0]))
            if isinstance(ix, Top) or isinstance(w, (Top, Alt)):
                return Top(n)
            ix = np.asarray(ix).astype(int).ravel()
            m = max(int(k.get('minlength', a[2] if len(a) > 2 else 0)),
                    int(ix.max()) + 1 if ix.size else 0)
            if w is None:
                return np.bincount(ix, minlength=m)
            w = self.arr(w).ravel()
            if len(w) != len(ix):
                raise AbsRaise('ValueError', 'bincount')
            out = np.empty(m, dtype=object)
            out[:] = 0.0
            for i, x in zip(ix, w):
                out[i] = self.binop(ast.Add(), out[i], x)
            return norm_native(out) if not has_top(list(out)) and \
                not has_sym(list(out)) else out
        if n in ('nonzero', 'flatnonzero', 'argwhere', 'count_nonzero'):
            v = self.arr(a[0])
            if isinstance(v, Top):
                return v
            if v.dtype == object:
                tv = [self.truth(x) for x in v.ravel()]
                if None in tv:
                    return Top(n)
                v = np.array(tv, dtype=bool).reshape(v.shape)
            return self.call_py(getattr(np, n), [v] + a[1:], k)
        if n == 'sign':
            def f(x):
                if isinstance(x, Sym) and not x.is_const():
                    s = x.sign()
                    return Top('sign') if s is None else s
                x = float(x)
                return (x > 0) - (x < 0)
            return self.elementwise(f, a[0])
        if n in ('floor', 'ceil', 'rint', 'round', 'around', 'trunc'):
            def f(x):
                if isinstance(x, Sym):
                    if not x.is_const():
                        return Sym.app(n, x)
                    x = x.const()
                return norm_native(getattr(np, n if n != 'around'
                                           else 'round')(float(x), *dec))
            dec = [int(x) for x in a[1:2]] + [int(x) for q, x in k.items()
                                              if q == 'decimals']
            return self.elementwise(f, a[0])
        if n in ('result_type', 'promote_types') and not has_top(a, 3):
            ts = []
            for q in a:
                q = getattr(q, 't', q)
                if isinstance(q, np.ndarray):
                    q = float if q.dtype == object else q.dtype
                elif isinstance(q, (Sym, Fraction)):
                    q = float
                if q in (float, 'float') if isinstance(q, (type, str)) \
                        else isinstance(q, float):
                    return float
                ts.append(q)
            try:
                t = np.result_type(*ts)
            except TypeError:
                return Top(n)
            return float if t.kind == 'f' else t
        if n in ('fill_diagonal', 'put', 'copyto', 'place', 'putmask'):
            if isinstance(a[0], np.ndarray):
                self.touch(a[0])
                if n == 'fill_diagonal' and not has_top(a):
                    for i in range(min(a[0].shape)):
                        a[0][i, i] = a[1]
                elif n == 'copyto' and not has_top(a) and 'where' not in k:
                    self.setitem(a[0], Ellipsis, a[1])
                elif n == 'put' and not k and not has_top(a, 3):
                    ix = [int(q) for q in np.ravel(np.array(
                        self.fix_index(a[1])))]
                    vs = list(np.ravel(self.arr(a[2]))) if isinstance(
                        a[2], (list, tuple, np.ndarray)) else [a[2]]
                    cs = list(np.ndindex(*a[0].shape))
                    for j, q in enumerate(ix):
                        a[0][cs[q]] = vs[j % len(vs)]
                else:
                    self.smudge(a[0])
            return None
        if n in self._NP_PASS:
            if has_top(a, 3):
                if n in ('concatenate', 'hstack', 'vstack', 'append',
                         'column_stack', 'reshape', 'ravel', 'transpose',
                         'tile', 'repeat', 'swapaxes', 'stack', 'squeeze',
                         'expand_dims', 'roll', 'flip', 'diag', 'moveaxis',
                         'take'):
                    if any(isinstance(x, (Top, Alt)) for x in a) or any(
                            isinstance(x, (list, tuple)) and any(
                                isinstance(y, (Top, Alt, Rest)) and not
                                isinstance(y, np.ndarray) for y in x)
                            for x in a):
                        return Top(n)
                    # array elements unknown: the shape operation is exact
                else:
                    return Top(n)
            f = getattr(np, n, None)
            if f is None:
                raise AbsRaise('AttributeError', full)
            aa = []
            for x in a:
                if isinstance(x, (list, tuple)) and n in (
                        'concatenate', 'hstack', 'vstack', 'stack',
                        'column_stack', 'row_stack', 'block'):
                    aa.append([self.arr(y) for y in x])
                else:
                    aa.append(x)
            if n in ('tile', 'diag', 'repeat', 'roll', 'append', 'kron',
                     'delete', 'insert', 'flip', 'fliplr', 'flipud',
                     'triu', 'tril', 'diff', 'trace', 'diagonal'):
                aa = [self.arr(aa[0])] + aa[1:]
                if n in ('append', 'insert') and len(aa) > 1:
                    aa[-1] = self.arr(aa[-1])
            try:
                if n == 'ix_':
                    aa = [self.fix_index(self.arr(x)) for x in aa]
                    if any(isinstance(x, Top) for x in aa):
                        return Top(n)
                return norm_native(f(*aa, **k))
            except (AbsRaise, Budget, Imprecise, AnalysisBroken):
                raise
            except Exception as e:
                if has_sym(a) or foreign([a, k]):
                    self.notes.append('%s on symbolic: %s' % (full, e))
                    return Top(n)
                raise AbsRaise(type(e).__name__, '%s (line %s)' % (
                    e, self.line))
        self.notes.append('numpy function %s not modelled' % full)
        return Top(full)

    def degen(self, x):
        """generators/ranges become lists for numpy"""
        if isinstance(x, range):
            return list(x)
        if isinstance(x, IterV):
            return x.absint_iter(self)
        return x

    def _allconst(self, v):
        v = self.arr(v)
        return all(not isinstance(x, Sym) or x.is_const()
                   for x in v.ravel())

    def arr(self, v):
        if isinstance(v, np.ndarray):
            return v
        if isinstance(v, (list, tuple)):
            return self.mkarr(v)
        if isinstance(v, range):
            return np.array(list(v), dtype=int)
        if isinstance(v, (Top, Alt)):
            return Top('array')
        return _box(v)

    def close(self, x, y):
        if isinstance(x, (Top, Alt)) or isinstance(y, (Top, Alt)):
            return Top('close')
        if isinstance(x, Sym) or isinstance(y, Sym):
            d = Sym.of(x) - Sym.of(y)
            if d.is_zero():
                return True
            if d.is_const():
                return abs(float(d.const())) < 1e-8
            if self.assume_hook is not None:
                s = self.assume_hook(ast.Eq(), Sym.of(x), Sym.of(y), d)
                if isinstance(s, bool):
                    return s
                if s is not None:
                    return s == 0
            return Top('close')
        if isinstance(x, Obj) or isinstance(y, Obj):
            return x is y
        try:
            return bool(np.isclose(float(x), float(y)))
        except Exception:
            return Top('close')

    def np_bin(self, n, a, k):
        if has_top(a):
            for x in a:
                if isinstance(x, (Top, Alt)) :
                    if n.startswith('logical'):
                        break
                    return Top(n)
        ops = {'add': ast.Add(), 'subtract': ast.Sub(),
               'multiply': ast.Mult(), 'divide': ast.Div(),
               'true_divide': ast.Div(), 'power': ast.Pow(),
               'float_power': ast.Pow(), 'mod': ast.Mod(),
               'remainder': ast.Mod()}
        cmps = {'less': ast.Lt(), 'greater': ast.Gt(),
                'less_equal': ast.LtE(), 'greater_equal': ast.GtE(),
                'equal': ast.Eq(), 'not_equal': ast.NotEq()}
        if n in ops:
            r = self.binop(ops[n], *[self.arr(x) if isinstance(
                x, (list, tuple)) else x for x in a[:2]])
            return r
        if n in cmps:
            return self.cmp(cmps[n], a[0], a[1])
        if n == 'logical_not':
            def f(x):
                tv = self.truth(x)
                return Top('not') if tv is None else not tv
            v = a[0]
            if isinstance(v, Top):
                return v
            if isinstance(v, (list, tuple)):
                v = self.arr(v)
                if isinstance(v, Top):
                    return v
            if isinstance(v, np.ndarray):
                out = np.empty(v.shape, dtype=object)
                for ix in np.ndindex(*v.shape):
                    out[ix] = f(norm_native(v[ix]))
                return out.astype(bool) if all(
                    isinstance(x, bool) for x in out.ravel()) else out
            return f(v)
        xs = [self.arr(x) if isinstance(x, (list, tuple, np.ndarray))
              else _box(x) for x in a[:2]]
        try:
            A, B = np.broadcast_arrays(*xs)
        except ValueError as e:
            raise AbsRaise('ValueError', str(e))
        out = np.empty(A.shape, dtype=object)
        for ix in np.ndindex(*A.shape):
            x, y = norm_native(A[ix]), norm_native(B[ix])
            if n in ('logical_and', 'logical_or', 'logical_xor'):
                tx, ty = self.truth(x), self.truth(y)
                if n == 'logical_and':
                    r = False if False in (tx, ty) else (
                        Top('and') if None in (tx, ty) else True)
                elif n == 'logical_or':
                    r = True if True in (tx, ty) else (
                        Top('or') if None in (tx, ty) else False)
                else:
                    r = Top('xor') if None in (tx, ty) else tx != ty
            else:
                if isinstance(x, (Top, Alt)) or isinstance(y, (Top, Alt)):
                    r = Top(n)
                else:
                    r = self.red1('max' if 'max' in n else 'min', [x, y])
            out[ix] = r
        if out.shape == ():
            return out[()]
        if all(isinstance(x, bool) for x in out.ravel()):
            return out.astype(bool)
        return out

    def np_where(self, a, k):
        if len(a) == 1:
            return self.np_call('numpy.nonzero', a, k)
        if any(isinstance(x, (Top, Alt)) for x in a):
            return Top('where')
        try:
            C, X, Y = np.broadcast_arrays(*[
                self.arr(x) if isinstance(x, (list, tuple, np.ndarray))
                else _box(x) for x in a])
        except ValueError as e:
            raise AbsRaise('ValueError', str(e))
        out = np.empty(C.shape, dtype=object)
        for ix in np.ndindex(*C.shape):
            tv = self.truth(norm_native(C[ix]))
            x, y = norm_native(X[ix]), norm_native(Y[ix])
            out[ix] = x if tv is True else y if tv is False else join(x, y)
        if out.size and all(type(x) is int for x in out.ravel()):
            return out.astype(int)
        return out if out.shape else out[()]

    def det(self, A):
        n = A.shape[0]
        if n == 1:
            return A[0, 0]
        s = 0
        for j in range(n):
            minor = np.delete(np.delete(A, 0, 0), j, 1)
            s = s + (-1) ** j * A[0, j] * self.det(minor)
        return s

    def inv(self, A):
        n = A.shape[0]
        d = self.det(A)
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                minor = np.delete(np.delete(A, j, 0), i, 1)
                c = self.det(minor) if n > 1 else 1
                out[i, j] = Sym.of((-1) ** (i + j) * c) / d
        return out

    def einsum(self, a, k):
        if has_top(a) or not isinstance(a[0], str) or '.' in a[0]:
            return Top('einsum')
        spec = a[0].replace(' ', '')
        ops = [self.arr(x) for x in a[1:]]
        if '->' in spec:
            ins, outs = spec.split('->')
        else:
            ins = spec
            outs = ''.join(sorted(c for c in set(ins.replace(',', ''))
                                  if ins.count(c) == 1))
        ins = ins.split(',')
        dims = {}
        for s, o in zip(ins, ops):
            if len(s) != o.ndim:
                raise AbsRaise('ValueError', 'einsum')
            for c, d in zip(s, o.shape):
                if dims.setdefault(c, d) != d:
                    raise AbsRaise('ValueError', 'einsum shape')
        summed = [c for c in dims if c not in outs]
        out = np.empty([dims[c] for c in outs], dtype=object)
        for ox in np.ndindex(*out.shape):
            env = dict(zip(outs, ox))
            s = 0
            for sx in np.ndindex(*[dims[c] for c in summed]):
                env.update(zip(summed, sx))
                t = 1
                for sp, o in zip(ins, ops):
                    t = self.elem(ast.Mult(), t, norm_native(
                        o[tuple(env[c] for c in sp)]))
                s = self.elem(ast.Add(), s, t)
            out[ox] = s
        return out if out.shape else out[()]


class _Lazy(dict):
    """captured state equal to the transaction's snapshots"""
    def __init__(self, t):
        dict.__init__(self)
        self.t = t


class MaybeUndef(object):
    def __init__(self, v):
        self.v = v


class _Finfo(object):
    eps = float(np.finfo(float).eps)
    tiny = float(np.finfo(float).tiny)
    max = float(np.finfo(float).max)

    def absint_getattr(self, it, n):
        return getattr(self, n)


class IterV(object):
    """iterator over known items"""
    err = None         # raised behind the last item

    def __init__(self, xs):
        self.xs = xs
        self.pos = [0]

    def rest(self):
        return self.xs[self.pos[0]:]

    def __iter__(self):
        return iter(self.rest())

    def next(self, it, a):
        it.touch(self.pos)
        if self.pos[0] < len(self.xs):
            x = self.xs[self.pos[0]]
            if isinstance(x, Rest):
                return x.v
            self.pos[0] += 1
            return x
        if self.err is not None:
            raise self.err
        if len(a) > 1:
            return a[1]
        raise AbsRaise('StopIteration', '')

    def absint_iter(self, it):
        if self.err is not None:
            raise self.err
        r = self.rest()
        it.touch(self.pos)
        self.pos[0] = len(self.xs)
        return r

    def absint_len(self, it):
        raise AbsRaise('TypeError', 'object of type iterator has no len() '
                       '(line %s)' % it.line)

    def absint_getitem(self, it, ix):
        raise AbsRaise('TypeError', 'iterator is not subscriptable (line %s)'
                       % it.line)

    def absint_truth(self, it):
        return True

    def absint_contains(self, it, x):
        return it.contains(self.absint_iter(it), x)

    def absint_getattr(self, it, n):
        if n == '__next__':
            return Native(n, lambda it, a, k: self.next(it, [self]))
        if n == '__iter__':
            return Native(n, lambda it, a, k: self)
        return Top('iter attr')


class CountV(IterV):
    """itertools.count"""
    def __init__(self, start=0, step=1):
        self.start = start
        self.step = step
        self.pos = [0]

    def get(self, j):
        return self.start + j * self.step

    def next(self, it, a):
        it.touch(self.pos)
        self.pos[0] += 1
        return self.get(self.pos[0] - 1)

    def first(self, it, n):
        j = self.pos[0]
        it.touch(self.pos)
        self.pos[0] += n
        return [self.get(j + i) for i in range(n)]

    def rest(self):
        return None

    def absint_iter(self, it):
        return None


class DDict(dict):
    """collections.defaultdict"""
    factory = None


class NpGrid(object):
    def __init__(self, n):
        self.n = n

    def absint_getattr(self, it, n):
        return Top('grid')

    def absint_getitem(self, it, ix):
        ix = it.fix_index(ix)
        if isinstance(ix, Top) or has_top(ix):
            return Top(self.n)
        try:
            return norm_native(getattr(np, self.n)[ix])
        except Exception as e:
            raise AbsRaise(type(e).__name__, str(e))


class TypeV(object):
    """builtin type usable as constructor, in isinstance and `type(x) is`"""
    _cache = {}

    def __new__(cls, name, t, it):
        key = name
        if key in cls._cache:
            return cls._cache[key]
        o = object.__new__(cls)
        cls._cache[key] = o
        return o

    def __init__(self, name, t, it):
        self.name = name
        self.t = t

    def __repr__(self):
        return '<type %s>' % self.name

    def absint_getattr(self, it, n):
        if n == '__name__':
            return self.name
        if n == 'fromkeys':
            return Native('fromkeys', lambda it, a, k: {
                x: (a[1] if len(a) > 1 else None)
                for x in it.iterate(a[0])})
        m = getattr(self.t, n, None)
        return m if m is not None else Top('type attr')

    def absint_call(self, it, a, k):
        t = self.t
        if t in (list, tuple, set, frozenset):
            if not a:
                return t()
            v = a[0]
            xs = it.iterate(v, unknown_ok=True)
            if xs is None:
                return [Rest()] if t in (list, tuple) else Top('set')
            if t in (set, frozenset) and any(
                    isinstance(x, (Rest, Top, Alt)) for x in xs):
                return Top('set')
            if t is tuple and any(isinstance(x, Rest) for x in xs):
                return list(xs)
            try:
                return t(xs)
            except TypeError as e:
                raise AbsRaise('TypeError', str(e))
        if t is dict:
            d = {}
            if a:
                if isinstance(a[0], dict):
                    d.update(a[0])
                else:
                    xs = it.iterate(a[0], unknown_ok=True)
                    if xs is None or any(isinstance(x, Rest) for x in xs):
                        return Top('dict')
                    for x in xs:
                        kk, vv = it.iterate(x)
                        d[kk] = vv
            d.update(k)
            return d
        if not a:
            return t()
        v = a[0]
        if isinstance(v, (Top, Alt)):
            return Top(self.name)
        if t is bool:
            tv = it.truth(v)
            return Top('bool') if tv is None else tv
        if isinstance(v, Sym):
            if t is float:
                return v
            if v.is_const():
                return t(v.const())
            return Top(self.name)
        if isinstance(v, np.ndarray) and v.size == 1:
            return self.absint_call(it, [norm_native(v.ravel()[0])], k)
        if t is float and isinstance(v, str) and v.strip().startswith('@'):
            return Sym.var(v.strip()[1:])
        if t is str:
            if isinstance(v, (Obj, ExcV)):
                return it.text(v)
            if isinstance(v, (Func, Bound, Cls)):
                return Top('str')
            return str(v)
        return it.call_py(t, a, k)


def _box(v):
    a = np.empty((), dtype=object)
    a[()] = v
    return a


def _c(s):
    return s.const() if isinstance(s, Sym) and s.is_const() else s


def _bound_names(node):
    """names bound in the body of a function (not in nested scopes)"""
    if isinstance(node, ast.Lambda):
        return frozenset()
    out, free = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.add(x.arg)
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
            todo.extend(x.decorator_list)
            continue
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            todo.extend(y.target for y in ast.walk(x)
                        if isinstance(y, ast.NamedExpr))
            continue
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            free.update(x.names)
        if isinstance(x, ast.Name) and isinstance(x.ctx,
                                                  (ast.Store, ast.Del)):
            out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for y in x.names:
                out.add((y.asname or y.name).split('.')[0])
        if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
        if isinstance(x, ast.MatchMapping) and x.rest:
            out.add(x.rest)
        todo.extend(ast.iter_child_nodes(x))
    return frozenset(out - free)


def _is_gen(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False
