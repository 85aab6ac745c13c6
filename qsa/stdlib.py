"""Models of the parts of the standard library (and of a few numpy and
scipy.sparse functions) that code may use in place of plain loops:
functools, itertools, collections, copy, contextlib, bisect, heapq,
dataclasses, enum, inspect."""
import ast
import itertools
import types

import numpy as np

from .absint import (Alt, AbsRaise, Bound, Cls, CountV, CtxV, DDict, Func,
                     Imprecise, IterV, MISSING, ModV, NatMod, Native, Obj,
                     PropV, Rest, Top, TypeV, has_top, is_num, norm_native)
from .ext import SpMat, dense
from .sym import Sym


def _items(it, v, what):
    """the items of an iterable, all known"""
    xs = it.iterate(v, True)
    if xs is None or any(isinstance(x, Rest) for x in xs):
        return None
    return list(xs)


# functools --------------------------------------------------------------
def _reduce(it, a, k):
    xs = _items(it, a[1], 'reduce')
    if xs is None:
        return Top('reduce')
    if len(a) > 2:
        r = a[2]
    elif xs:
        r, xs = xs[0], xs[1:]
    else:
        raise AbsRaise('TypeError', 'reduce() of empty iterable')
    for x in xs:
        r = it.call(a[0], [r, x])
    return r


def _partial(it, a, k):
    f, pre, kw = a[0], list(a[1:]), dict(k)
    return Native('partial', lambda it, a2, k2: it.call(
        f, pre + list(a2), dict(kw, **k2)))


def _memo(it, a, k):
    if a and isinstance(a[0], Func):
        f = a[0]
        f.memo = {}
        return f
    return Native('lru_cache', _memo)


def _cached_property(it, a, k):
    if isinstance(a[0], Func):
        a[0].kind = 'cached_property'
    return a[0]


def _same(it, a, k):
    return a[0] if a else Top('decorator')


def _wraps(it, a, k):
    def f(it, b, q):
        if isinstance(b[0], Func) and isinstance(a[0], Func):
            b[0].attrs['__name__'] = a[0].name
        return b[0]
    return Native('wraps', f)


def _total_ordering(it, a, k):
    c = a[0]
    lt, eq = c.lookup('__lt__'), c.lookup('__eq__')
    if lt is MISSING:
        return c

    def neg(it, x):
        t = it.truth(x)
        return Top('cmp') if t is None else not t

    def m(f):
        n = Native('ordering', f)
        n.method = True
        return n
    for n, f in (
            ('__gt__', lambda it, a, k: it.cmp1(ast.Lt(), a[1], a[0])),
            ('__ge__', lambda it, a, k: neg(it, it.cmp1(ast.Lt(), *a))),
            ('__le__', lambda it, a, k: neg(it, it.cmp1(ast.Lt(), a[1],
                                                        a[0])))):
        if c.lookup(n) is MISSING:
            c.ns[n] = m(f)
    return c


def _cmp_to_key(it, a, k):
    raise Imprecise('cmp_to_key')


# itertools --------------------------------------------------------------
def _chain(it, a, k):
    return _chain_it(it, [a], k)


def _chain_it(it, a, k):
    out = []
    xs = it.iterate(a[0], True)
    if xs is None:
        return Top('chain')
    for x in xs:
        if isinstance(x, Rest):
            out.append(Rest())
            continue
        ys = it.iterate(x, True)
        if ys is None:
            out.append(Rest())
        else:
            out.extend(ys)
    return IterV(out)


def _while(take):
    def f(it, a, k):
        xs = _items(it, a[1], 'takewhile')
        if xs is None:
            return Top('takewhile')
        for i, x in enumerate(xs):
            t = it.truth(it.call(a[0], [x]))
            if t is None:
                return Top('takewhile')
            if not t:
                return IterV(xs[:i] if take else xs[i:])
        return IterV(xs if take else [])
    return f


def _filterfalse(it, a, k):
    out = []
    for x in it.iterate(a[1]):
        t = it.truth(x if a[0] is None else it.call(a[0], [x]))
        if t is None or isinstance(x, Rest):
            return Top('filterfalse')
        if not t:
            out.append(x)
    return IterV(out)


def _groupby(it, a, k):
    xs = _items(it, a[0], 'groupby')
    key = k.get('key', a[1] if len(a) > 1 else None)
    if xs is None:
        return Top('groupby')
    out = []
    for x in xs:
        q = x if key is None else it.call(key, [x])
        if out:
            t = it.truth(it.cmp(ast.Eq(), out[-1][0], q))
            if t is None:
                return Top('groupby')
            if t:
                out[-1][1].append(x)
                continue
        out.append((q, [x]))
    return IterV([(q, IterV(ys)) for q, ys in out])


def _starmap(it, a, k):
    xs = _items(it, a[1], 'starmap')
    if xs is None:
        return Top('starmap')
    return IterV([it.call(a[0], list(it.iterate(x))) for x in xs])


def _accumulate(it, a, k):
    xs = _items(it, a[0], 'accumulate')
    if xs is None:
        return Top('accumulate')
    f = a[1] if len(a) > 1 else k.get('func')
    out = []
    if k.get('initial') is not None:
        out.append(k['initial'])
    for x in xs:
        if not out:
            out.append(x)
        elif f is None:
            out.append(it.binop(ast.Add(), out[-1], x))
        else:
            out.append(it.call(f, [out[-1], x]))
    return IterV(out)


def _pairwise(it, a, k):
    xs = _items(it, a[0], 'pairwise')
    return Top('pairwise') if xs is None else IterV(list(zip(xs, xs[1:])))


def _count(it, a, k):
    return CountV(a[0] if a else k.get('start', 0),
                  a[1] if len(a) > 1 else k.get('step', 1))


def _islice(it, a, k):
    g = a[0]
    ix = [None if x is None else it.fix_index(x) for x in a[1:]]
    if has_top(ix):
        return Top('islice')
    if isinstance(g, CountV):
        if len(ix) == 1:
            return IterV(g.first(it, ix[0]))
        xs = g.first(it, ix[1])
        return IterV(xs[slice(*ix)])
    if isinstance(g, IterV):
        stop = ix[0] if len(ix) == 1 else ix[1]
        xs = g.rest()
        if any(isinstance(x, Rest) for x in xs):
            return Top('islice')
        n = len(xs) if stop is None else min(stop, len(xs))
        if g.err is not None and (stop is None or stop > len(xs)):
            raise g.err
        it.touch(g.pos)
        g.pos[0] += n
        return IterV(xs[slice(*ix)])
    xs = _items(it, g, 'islice')
    return Top('islice') if xs is None else IterV(xs[slice(*ix)])


def _tee(it, a, k):
    xs = _items(it, a[0], 'tee')
    n = a[1] if len(a) > 1 else k.get('n', 2)
    return Top('tee') if xs is None else tuple(IterV(list(xs))
                                               for _ in range(n))


def _comb(name):
    fn = getattr(itertools, name)

    def f(it, a, k):
        seqs = [a[0]] if name != 'product' and name != 'zip_longest' else a
        rest = a[1:] if name not in ('product', 'zip_longest') else []
        xs = [_items(it, x, name) for x in seqs]
        if any(x is None for x in xs) or has_top(rest):
            return Top(name)
        return IterV(list(fn(*(xs + [it.fix_index(r) for r in rest]), **k)))
    return f


def _repeat(it, a, k):
    n = a[1] if len(a) > 1 else k.get('times')
    if n is None:
        raise Imprecise('unbounded repeat')
    n = it.fix_index(n)
    return Top('repeat') if isinstance(n, Top) else IterV([a[0]] * n)


def _compress(it, a, k):
    xs, ss = _items(it, a[0], 'compress'), _items(it, a[1], 'compress')
    if xs is None or ss is None:
        return Top('compress')
    out = []
    for x, s in zip(xs, ss):
        t = it.truth(s)
        if t is None:
            return Top('compress')
        if t:
            out.append(x)
    return IterV(out)


# collections ------------------------------------------------------------
def _defaultdict(it, a, k):
    d = DDict()
    d.factory = a[0] if a else None
    if len(a) > 1:
        it.call(it.getattr_(d, 'update'), [a[1]])
    d.update(k)
    return d


def _counter(it, a, k):
    import collections
    xs = _items(it, a[0], 'Counter') if a else []
    if xs is None or has_top(xs):
        return Top('Counter')
    try:
        return collections.Counter(a[0] if isinstance(a[0], dict) else xs) \
            if a else collections.Counter()
    except TypeError as e:
        raise AbsRaise('TypeError', str(e))


def _deque(it, a, k):
    import collections
    xs = it.iterate(a[0], True) if a else []
    if xs is None:
        xs = [Rest()]
    ml = a[1] if len(a) > 1 else k.get('maxlen')
    return collections.deque(xs, ml)


def _odict(it, a, k):
    return it.call(it.builtins['dict'], a, k)


# copy -------------------------------------------------------------------
def _copy(it, a, k):
    v = a[0]
    if isinstance(v, Obj):
        if v.cls is not None and v.cls.lookup('__copy__') is not MISSING:
            return it.call(it.getattr_(v, '__copy__'), [])
        o = it.blank(v.cls)
        o.attrs.update(v.attrs)
        return o
    if isinstance(v, DDict):
        d = DDict(v)
        d.factory = v.factory
        return d
    if isinstance(v, (list, dict, set)) or hasattr(v, 'popleft'):
        return v.copy()
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, SpMat):
        return SpMat(v.d.copy(), v.fmt)
    if isinstance(v, (Top, Alt)):
        return Top('copy')
    if isinstance(v, (str, tuple, frozenset, Func, Bound, Cls, TypeV,
                      type(None))) or is_num(v):
        return v
    if hasattr(v, 'absint_copy'):
        return v.absint_copy(it)
    return Top('copy')


def _deepcopy(it, a, k):
    seen = {}

    def dc(v):
        if id(v) in seen:
            return seen[id(v)][1]
        if isinstance(v, Obj):
            o = it.blank(v.cls)
            seen[id(v)] = v, o
            for n, x in v.attrs.items():
                o.attrs[n] = dc(x)
            return o
        if isinstance(v, DDict):
            d = DDict()
            d.factory = v.factory
            seen[id(v)] = v, d
            for n, x in v.items():
                d[dc(n)] = dc(x)
            return d
        if isinstance(v, dict):
            d = type(v)()
            seen[id(v)] = v, d
            for n, x in v.items():
                d[dc(n)] = dc(x)
            return d
        if isinstance(v, list):
            d = []
            seen[id(v)] = v, d
            d.extend(dc(x) for x in v)
            return d
        if isinstance(v, Rest):
            return Rest(dc(v.v))
        if type(v) is tuple:
            return tuple(dc(x) for x in v)
        if isinstance(v, (set, frozenset)):
            return type(v)(dc(x) for x in v)
        if isinstance(v, np.ndarray):
            d = v.copy()
            seen[id(v)] = v, d
            if d.dtype == object:
                for ix in np.ndindex(*d.shape):
                    if isinstance(d[ix], (Obj, list, dict)):
                        d[ix] = dc(d[ix])
            return d
        if isinstance(v, Bound):
            return Bound(v.func, dc(v.obj))
        return _copy(it, [v], {})
    return dc(a[0])


# contextlib -------------------------------------------------------------
def _contextmanager(it, a, k):
    if isinstance(a[0], Func):
        a[0].manager = True
    return a[0]


def _suppress(it, a, k):
    names = [getattr(x, 'name', 'Exception') for x in a]

    def enter(it, body):
        try:
            body(None)
        except AbsRaise as e:
            if not it.exc_match(e.etype, names):
                raise
    return CtxV(enter)


def _nullcontext(it, a, k):
    return CtxV(lambda it, body: body(a[0] if a else None))


def _plain(it, a, k):
    """a context manager of the environment (warnings, errstate, ...)"""
    return CtxV(lambda it, body: body(Top('context')))


# bisect, heapq ----------------------------------------------------------
def _less(it, x, y):
    c = it.before(x, y)
    if c is None:
        raise Imprecise('order unknown')
    return c < 0


def _bisect(right):
    def f(it, a, k):
        xs, x = a[0], a[1]
        if isinstance(xs, np.ndarray):
            xs = [norm_native(q) for q in xs]
        if not isinstance(xs, (list, tuple)) or has_top(list(xs)) or \
                isinstance(x, (Top, Alt)):
            return Top('bisect')
        lo = it.fix_index(a[2] if len(a) > 2 else k.get('lo', 0))
        hi = a[3] if len(a) > 3 else k.get('hi')
        hi = len(xs) if hi is None else it.fix_index(hi)
        key = k.get('key')
        try:
            while lo < hi:
                m = (lo + hi) // 2
                y = xs[m] if key is None else it.call(key, [xs[m]])
                if (not _less(it, x, y)) if right else _less(it, y, x):
                    lo = m + 1
                else:
                    hi = m
        except Imprecise:
            return Top('bisect')
        return lo
    return f


def _insort(right):
    def f(it, a, k):
        j = _bisect(right)(it, a, k)
        if isinstance(j, Top):
            it.smudge(a[0])
        else:
            it.touch(a[0])
            a[0].insert(j, a[1])
    return f


class _Key(object):
    def __init__(self, it, v):
        self.it = it
        self.v = v

    def __lt__(self, o):
        return _less(self.it, self.v, o.v)


def _heap(name):
    import heapq
    fn = getattr(heapq, name)

    def f(it, a, k):
        h = a[0]
        if not isinstance(h, list) or has_top(h) or has_top(a[1:]):
            if isinstance(h, list):
                it.smudge(h)
            return Top(name)
        w = [_Key(it, x) for x in h]
        try:
            r = fn(w, *[_Key(it, x) for x in a[1:]])
        except Imprecise:
            it.smudge(h)
            return Top(name)
        except IndexError as e:
            raise AbsRaise('IndexError', str(e))
        it.touch(h)
        h[:] = [x.v for x in w]
        return r.v if isinstance(r, _Key) else r
    return f


def _nbest(rev):
    def f(it, a, k):
        n = it.fix_index(a[0])
        r = it.b_sorted([a[1]], dict(k, reverse=rev))
        return r if isinstance(r, Top) else r[:n]
    return f


# dataclasses ------------------------------------------------------------
class _Field(object):
    def __init__(self, k):
        self.k = k


def _dataclass(it, a, k):
    if not a or not isinstance(a[0], Cls):
        return Native('dataclass', lambda it, b, q: _dataclass(it, b, k))
    c = a[0]
    names = []
    for b in reversed(c.mro):
        for n in b.fields:
            if n not in names:
                names.append(n)
    defaults = {n: c.lookup(n) for n in names
                if c.lookup(n) is not MISSING}

    def method(n, f):
        m = Native(n, f)
        m.method = True
        if n not in c.ns:
            c.ns[n] = m

    def init(it, args, kw):
        o, args = args[0], list(args[1:])
        if len(args) > len(names) or any(q not in names for q in kw):
            raise AbsRaise('TypeError', c.name + ' got unexpected arguments')
        for i, n in enumerate(names):
            d = defaults.get(n, MISSING)
            if i < len(args):
                v = args[i]
            elif n in kw:
                v = kw[n]
            elif isinstance(d, _Field) and 'default_factory' in d.k:
                v = it.call(d.k['default_factory'], [])
            elif isinstance(d, _Field) and 'default' in d.k:
                v = d.k['default']
            elif d is not MISSING and not isinstance(d, _Field):
                v = d
            else:
                raise AbsRaise('TypeError', '%s missing argument %s' % (
                    c.name, n))
            it.touch(o.attrs)
            o.attrs[n] = v
        p = c.lookup('__post_init__')
        if p is not MISSING:
            it.call(p, [o])

    def tup(o):
        return tuple(o.attrs[n] for n in names)

    def eq(it, args, kw):
        x, y = args
        if not isinstance(y, Obj) or y.cls is not x.cls:
            return NotImplemented
        return it.cmp1(ast.Eq(), tup(x), tup(y))
    method('__init__', init)
    if it.truth(k.get('eq', True)):
        method('__eq__', eq)
        if it.truth(k.get('frozen', False)):
            method('__hash__', lambda it, b, q: hash(tup(b[0])))
    if it.truth(k.get('order', False)):
        for n, op in (('__lt__', ast.Lt), ('__le__', ast.LtE),
                      ('__gt__', ast.Gt), ('__ge__', ast.GtE)):
            def cmpf(it, b, q, op=op):
                r = it.before(tup(b[0]), tup(b[1]))
                return Top('cmp') if r is None else it.cmp1(op(), r, 0)
            method(n, cmpf)
    if '__match_args__' not in c.ns:
        c.ns['__match_args__'] = tuple(names)
    return c


def _field(it, a, k):
    return _Field(k)


def _replace(it, a, k):
    o = _copy(it, a, {})
    if isinstance(o, Obj):
        o.attrs.update(k)
    return o


# inspect ----------------------------------------------------------------
def _isfunction(it, a, k):
    v = a[0]
    return Top('isfunction') if isinstance(v, (Top, Alt)) \
        else isinstance(v, Func)


def _isclass(it, a, k):
    v = a[0]
    return Top('isclass') if isinstance(v, (Top, Alt)) \
        else isinstance(v, (Cls, TypeV, type))


def _ismethod(it, a, k):
    v = a[0]
    return Top('ismethod') if isinstance(v, (Top, Alt)) \
        else isinstance(v, Bound)


# sparse -----------------------------------------------------------------
def _blocks(it, rows):
    """dense blocks of a block matrix; None for zero blocks"""
    out = []
    for r in rows:
        q = []
        for b in r:
            if b is None:
                q.append(None)
                continue
            if isinstance(b, (Top, Alt)):
                return None
            d = dense(b)
            d = d if isinstance(d, np.ndarray) else it.arr(d)
            if not isinstance(d, np.ndarray):
                return None
            q.append(np.atleast_2d(d))
        out.append(q)
    return out


def _bmat(it, rows, k):
    rows = _blocks(it, rows)
    if rows is None:
        return Top('bmat')
    nr, nc = len(rows), max(len(r) for r in rows)
    hs, ws = [None] * nr, [None] * nc
    for i, r in enumerate(rows):
        for j, b in enumerate(r):
            if b is None:
                continue
            if hs[i] not in (None, b.shape[0]) or \
                    ws[j] not in (None, b.shape[1]):
                raise AbsRaise('ValueError', 'incompatible block dimensions')
            hs[i], ws[j] = b.shape
    if None in hs or None in ws:
        raise AbsRaise('ValueError', 'blocks of unknown dimension')
    out = np.empty((sum(hs), sum(ws)), dtype=object)
    out[...] = 0
    for i, r in enumerate(rows):
        for j, b in enumerate(r):
            if b is not None:
                p, q = sum(hs[:i]), sum(ws[:j])
                out[p:p + hs[i], q:q + ws[j]] = b
    return SpMat(out, k.get('format') or 'coo')


def _sp_hstack(it, a, k):
    return _bmat(it, [list(it.iterate(a[0]))], k)


def _sp_vstack(it, a, k):
    return _bmat(it, [[b] for b in it.iterate(a[0])], k)


def _sp_bmat(it, a, k):
    if isinstance(a[0], np.ndarray):
        return _bmat(it, [list(r) for r in a[0]], k)
    return _bmat(it, [list(it.iterate(r)) for r in it.iterate(a[0])], k)


def _sp_diag(it, a, k):
    bs = list(it.iterate(a[0]))
    return _bmat(it, [[b if i == j else None for j in range(len(bs))]
                      for i, b in enumerate(bs)], k)


def _sp_kron(it, a, k):
    bs = _blocks(it, [[a[0], a[1]]])
    if bs is None:
        return Top('kron')
    return SpMat(np.kron(*bs[0]), k.get('format') or 'coo')


def _spdiags(it, a, k):
    data, offs = it.arr(a[0]), it.fix_index(a[1])
    sh = a[2:4] if len(a) > 3 else [k.get('m'), k.get('n')]
    if isinstance(sh[0], tuple):
        sh = sh[0]
    sh = [it.fix_index(x) for x in sh]
    if isinstance(data, Top) or has_top([offs, sh]):
        return Top('spdiags')
    data = np.atleast_2d(data)
    out = np.empty(tuple(sh), dtype=object)
    out[...] = 0
    for r, o in enumerate(np.atleast_1d(offs)):
        for j in range(min(data.shape[1], sh[1])):
            if 0 <= j - o < sh[0]:
                out[j - o, j] = norm_native(data[r, j])
    return SpMat(out, 'dia')


# numpy ------------------------------------------------------------------
def _np_array(it, v):
    if isinstance(v, (Top, Alt)):
        return None
    r = it.arr(v)
    return r if isinstance(r, np.ndarray) else None


def _clip(it, a, k):
    v = a[0]
    lo = a[1] if len(a) > 1 else k.get('a_min', k.get('min'))
    hi = a[2] if len(a) > 2 else k.get('a_max', k.get('max'))
    r = v
    if lo is not None:
        r = it.np_call('numpy.maximum', [r, lo], {})
    if hi is not None:
        r = it.np_call('numpy.minimum', [r, hi], {})
    return r


def _fromiter(it, a, k):
    xs = _items(it, a[0], 'fromiter')
    if xs is None:
        return Top('fromiter')
    return it.np_call('numpy.array', [xs], {
        'dtype': k.get('dtype', a[1] if len(a) > 1 else None)})


def _isscalar(it, a, k):
    v = a[0]
    if isinstance(v, (Top, Alt)):
        return Top('isscalar')
    return is_num(v) or isinstance(v, str)


def _ndenumerate(it, a, k):
    v = _np_array(it, a[0])
    if v is None:
        return Top('ndenumerate')
    return IterV([(ix, norm_native(v[ix])) for ix in np.ndindex(*v.shape)])


def _nditer(it, a, k):
    v = _np_array(it, a[0])
    if v is None:
        return Top('nditer')
    flags = k.get('op_flags', a[2] if len(a) > 2 else None)
    if flags is not None and 'write' in str(flags):
        if isinstance(a[0], np.ndarray):
            it.touch(a[0])
            v = a[0]
        return IterV([v[ix + (Ellipsis,)] for ix in np.ndindex(*v.shape)])
    return IterV([norm_native(v[ix]) for ix in np.ndindex(*v.shape)])


def _multi_dot(it, a, k):
    xs = list(it.iterate(a[0]))
    r = xs[0]
    for x in xs[1:]:
        r = it.np_dot(r, x)
    return r


def _splits(axis):
    def f(it, a, k):
        v = _np_array(it, a[0])
        n = it.fix_index(a[1])
        if v is None or has_top([n]):
            return Top('split')
        try:
            return np.split(v, n, axis=axis if v.ndim > 1 else 0)
        except Exception as e:
            raise AbsRaise(type(e).__name__, str(e))
    return f


def _np_compress(it, a, k):
    c, v = _np_array(it, a[0]), _np_array(it, a[1])
    if c is None or v is None:
        return Top('compress')
    ts = [it.truth(norm_native(x)) for x in c.ravel()]
    if None in ts:
        return Top('compress')
    return np.compress(ts, v, axis=k.get('axis',
                                         a[2] if len(a) > 2 else None))


def _apply_along_axis(it, a, k):
    f, ax, v = a[0], a[1], _np_array(it, a[2])
    if v is None:
        return Top('apply_along_axis')
    w = np.moveaxis(v, ax, -1)
    res = [it.call(f, [w[ix].copy()] + list(a[3:]), k)
           for ix in np.ndindex(*w.shape[:-1])]
    if has_top(res):
        return Top('apply_along_axis')
    r = it.mkarr(res)
    if isinstance(r, Top):
        return r
    r = r.reshape(w.shape[:-1] + r.shape[1:])
    return r if r.ndim == w.ndim - 1 else np.moveaxis(r, -1, ax)


def _arctan2(it, a, k):
    import math
    x, y = a

    def f(p, q):
        p, q = Sym.of(p), Sym.of(q)
        if p.is_const() and q.is_const():
            return math.atan2(float(p.const()), float(q.const()))
        return Top('arctan2')
    if is_num(x) and is_num(y):
        return f(x, y)
    x, y = _np_array(it, x), _np_array(it, y)
    if x is None or y is None:
        return Top('arctan2')
    x, y = np.broadcast_arrays(x, y)
    out = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(*x.shape):
        out[ix] = f(norm_native(x[ix]), norm_native(y[ix]))
    return out


def _issubdtype(it, a, k):
    t, u = a
    t = getattr(t, 't', t)
    kind = t.kind if isinstance(t, np.dtype) else {
        float: 'f', int: 'i', bool: 'b'}.get(t)
    n = getattr(u, 'name', None)
    ok = {'numpy.floating': 'f', 'numpy.integer': 'i', 'numpy.number': 'if',
          'float': 'f', 'int': 'i', 'bool': 'b', 'numpy.bool_': 'b',
          'numpy.inexact': 'f', 'numpy.signedinteger': 'i'}.get(n)
    if kind is None or ok is None:
        return Top('issubdtype')
    return kind in ok


def _nan_to_num(it, a, k):
    v = _np_array(it, a[0])
    if v is None:
        return Top('nan_to_num')
    out = v.copy()
    for ix in np.ndindex(*out.shape):
        x = out[ix]
        if isinstance(x, float) and x != x:
            out[ix] = k.get('nan', 0)
    return out


TABLE = {
    'numpy.issubdtype': _issubdtype, 'numpy.nan_to_num': _nan_to_num,
    'functools.reduce': _reduce, 'functools.partial': _partial,
    'functools.lru_cache': _memo, 'functools.cache': _memo,
    'functools.cached_property': _cached_property,
    'functools.wraps': _wraps, 'functools.update_wrapper': _same,
    'functools.total_ordering': _total_ordering,
    'functools.cmp_to_key': _cmp_to_key,
    'itertools.chain': _chain, 'itertools.takewhile': _while(True),
    'itertools.chain.from_iterable': _chain_it,
    'itertools.dropwhile': _while(False),
    'itertools.filterfalse': _filterfalse, 'itertools.groupby': _groupby,
    'itertools.starmap': _starmap, 'itertools.accumulate': _accumulate,
    'itertools.pairwise': _pairwise, 'itertools.count': _count,
    'itertools.islice': _islice, 'itertools.tee': _tee,
    'itertools.product': _comb('product'),
    'itertools.combinations': _comb('combinations'),
    'itertools.permutations': _comb('permutations'),
    'itertools.combinations_with_replacement':
        _comb('combinations_with_replacement'),
    'itertools.zip_longest': _comb('zip_longest'),
    'itertools.repeat': _repeat, 'itertools.compress': _compress,
    'collections.defaultdict': _defaultdict, 'collections.Counter': _counter,
    'collections.deque': _deque, 'collections.OrderedDict': _odict,
    'copy.copy': _copy, 'copy.deepcopy': _deepcopy, 'copy.replace': _replace,
    'contextlib.contextmanager': _contextmanager,
    'contextlib.suppress': _suppress,
    'contextlib.nullcontext': _nullcontext,
    'numpy.errstate': _plain, 'warnings.catch_warnings': _plain,
    'numpy.printoptions': _plain,
    'bisect.bisect': _bisect(True), 'bisect.bisect_right': _bisect(True),
    'bisect.bisect_left': _bisect(False),
    'bisect.insort': _insort(True), 'bisect.insort_right': _insort(True),
    'bisect.insort_left': _insort(False),
    'heapq.heappush': _heap('heappush'), 'heapq.heappop': _heap('heappop'),
    'heapq.heapify': _heap('heapify'),
    'heapq.heappushpop': _heap('heappushpop'),
    'heapq.nsmallest': _nbest(False), 'heapq.nlargest': _nbest(True),
    'dataclasses.dataclass': _dataclass, 'dataclasses.field': _field,
    'dataclasses.replace': _replace,
    'inspect.isfunction': _isfunction, 'inspect.isclass': _isclass,
    'inspect.ismethod': _ismethod,
    'scipy.sparse.hstack': _sp_hstack, 'scipy.sparse.vstack': _sp_vstack,
    'scipy.sparse.bmat': _sp_bmat, 'scipy.sparse.block_array': _sp_bmat,
    'scipy.sparse.block_diag': _sp_diag, 'scipy.sparse.kron': _sp_kron,
    'scipy.sparse.spdiags': _spdiags,
    'numpy.clip': _clip, 'numpy.fromiter': _fromiter,
    'numpy.isscalar': _isscalar, 'numpy.ndenumerate': _ndenumerate,
    'numpy.nditer': _nditer, 'numpy.linalg.multi_dot': _multi_dot,
    'numpy.hsplit': _splits(1), 'numpy.vsplit': _splits(0),
    'numpy.compress': _np_compress,
    'numpy.apply_along_axis': _apply_along_axis,
    'numpy.arctan2': _arctan2,
}


def install(it):
    for n, f in TABLE.items():
        it.overrides.setdefault(n, Native(n, f))
    B = it.builtins

    def prop(it, a, k):
        return PropV(a[0] if a else k.get('fget'),
                     a[1] if len(a) > 1 else k.get('fset'))
    B.setdefault('property', Native('property', prop))

    def kind(name):
        def f(it, a, k):
            v = a[0]
            if isinstance(v, Func):
                g = Func(v.node, v.module, v.cls, v.closure, v.name,
                         v.defaults, v.kwdefaults)
                g.kind = name
                return g
            return v
        return Native(name, f)
    B.setdefault('staticmethod', kind('staticmethod'))
    B.setdefault('classmethod', kind('classmethod'))
