"""Models of the library functions the repository calls outside numpy:
sparse matrices (kept dense, entries in the value domain), linear solves,
call signatures, timers."""
import ast
import numpy as np
from .absint import (AbsRaise, Native, Top, Alt, Func, Bound, has_top, is_num,
                     norm_native, MISSING)
from .sym import Sym

SPARSE = ('csc', 'csr', 'coo', 'dia', 'lil', 'dok', 'bsr')


def _zeros(shape):
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = 0
    return out


def _obj(a):
    return a if a.dtype == object else a.astype(object)


class SpMat(object):
    """scipy.sparse matrix (fmt in SPARSE) or numpy.matrix (fmt 'matrix')"""

    def __init__(self, d, fmt='csr'):
        self.d = _obj(d)
        self.fmt = fmt

    def __repr__(self):
        return '<%s matrix %s>' % (self.fmt, self.d.shape)

    def __deepcopy__(self, memo):
        return self

    # ---------------------------------------------------------- attributes
    def absint_getattr(self, it, n):
        d = self.d
        if n == 'shape':
            return d.shape
        if n == 'ndim':
            return 2
        if n == 'T':
            return SpMat(d.T, self.fmt)
        if n in ('A', 'A1') and self.fmt == 'matrix':
            return d.ravel() if n == 'A1' else d
        if n == 'A':
            return d.copy()
        if n == 'dtype':
            return Top('dtype')
        if n == 'nnz':
            return sum(1 for x in d.ravel()
                       if not (is_num(x) and not isinstance(x, Sym) and
                               x == 0))
        if n in ('data', 'indices', 'indptr', 'row', 'col'):
            return Top(n)

        def f(it, a, k):
            return self.method(it, n, a, k)
        return Native('matrix.' + n, f)

    def absint_setattr(self, it, n, v):
        it.touch(self.d)
        it.smudge(self.d)

    def method(self, it, n, a, k):
        d = self.d
        if n in ['to' + f for f in SPARSE] + ['asformat']:
            return SpMat(d, a[0] if n == 'asformat' else n[2:])
        if n == 'toarray':
            return d.copy()
        if n == 'todense':
            return SpMat(d.copy(), 'matrix')
        if n in ('transpose', 'conj', 'conjugate', 'getH'):
            return SpMat(d.T if n in ('transpose', 'getH') else d, self.fmt)
        if n == 'copy':
            return SpMat(d.copy(), self.fmt)
        if n in ('dot', '__matmul__', '__mul__', '_mul_vector'):
            return self.matmul(it, a[0], False)
        if n == 'multiply':
            o = a[0].d if isinstance(a[0], SpMat) else a[0]
            return SpMat(it.binop(ast.Mult(), d, o), self.fmt)
        if n == 'power':
            return SpMat(it.binop(ast.Pow(), d, a[0]), self.fmt)
        if n in ('diagonal',):
            return np.diagonal(d).copy()
        if n == 'setdiag':
            it.touch(d)
            for i in range(min(d.shape)):
                d[i, i] = a[0][i] if isinstance(a[0], (
                    list, tuple, np.ndarray)) else a[0]
            return None
        if n in ('eliminate_zeros', 'sum_duplicates', 'sort_indices',
                 'prune'):
            return None
        if n in ('sum', 'mean'):
            r = it.np_call('numpy.' + n, [d] + list(a), k)
            if isinstance(r, np.ndarray):
                ax = k.get('axis', a[0] if a else None)
                return SpMat(r.reshape((1, -1) if ax in (0, -2) else
                                       (-1, 1)), 'matrix')
            return r
        if n in ('getrow', 'getcol'):
            i = it.fix_index(a[0])
            if isinstance(i, Top):
                return i
            if isinstance(i, (int, np.integer)) and \
                    not -d.shape[n != 'getrow'] <= i < d.shape[n != 'getrow']:
                raise AbsRaise('IndexError', 'matrix.%s: %d is out of the '
                               'shape %s' % (n, i, d.shape))
            return SpMat(d[[i], :] if n == 'getrow' else d[:, [i]], self.fmt)
        if n == 'reshape':
            sh = a[0] if isinstance(a[0], tuple) else tuple(a)
            return SpMat(d.reshape(sh), self.fmt)
        if n in ('ravel', 'flatten') and self.fmt == 'matrix':
            return SpMat(d.reshape(1, -1), 'matrix')
        if n == 'tolist':
            return d.tolist()
        if n == 'astype':
            return SpMat(d, self.fmt)
        if n == 'trace':
            return it.np_call('numpy.trace', [d], {})
        if n == 'nonzero':
            return it.np_call('numpy.nonzero', [d], {})
        if n == 'getnnz':
            return self.absint_getattr(it, 'nnz')
        if n == 'squeeze':
            return self
        if n == 'item':
            return norm_native(d.ravel()[0])
        if n in ('max', 'min') and not a and not k:
            return it.np_call('numpy.' + n, [d], {})
        if n in ('__abs__', 'absolute'):
            return SpMat(it.np_call('numpy.abs', [d], {}), self.fmt)
        it.notes.append('matrix.%s not modelled' % n)
        return Top('matrix.' + n)

    # ---------------------------------------------------------- arithmetic
    def matmul(self, it, o, swap):
        if isinstance(o, (Top, Alt)):
            return Top('matmul')
        if is_num(o):
            return SpMat(it.binop(ast.Mult(), self.d, o), self.fmt)
        od = o.d if isinstance(o, SpMat) else it.arr(o)
        if isinstance(od, Top):
            return od
        x, y = (od, self.d) if swap else (self.d, od)
        r = it.np_dot(x, y)
        if isinstance(o, SpMat):
            fmt = self.fmt
            if 'matrix' in (self.fmt, o.fmt):
                fmt = 'matrix'
            return SpMat(r, fmt) if isinstance(r, np.ndarray) else r
        if self.fmt == 'matrix' and isinstance(r, np.ndarray):
            return SpMat(r.reshape((1, -1)) if r.ndim == 1 else r, 'matrix')
        return r

    def absint_dot(self, it, b):
        return self.matmul(it, b, False)

    def absint_rdot(self, it, a):
        return self.matmul(it, a, True)

    def absint_binop(self, it, op, o, swap):
        if isinstance(op, (ast.Mult, ast.MatMult)):
            return self.matmul(it, o, swap)
        if isinstance(op, (ast.Add, ast.Sub)):
            if isinstance(o, (Top, Alt)):
                return Top('arith')
            if is_num(o):
                if self.fmt != 'matrix' and not (not isinstance(o, Sym) and
                                                 o == 0):
                    raise AbsRaise('NotImplementedError',
                                   'adding a nonzero scalar to a sparse '
                                   'matrix is not supported')
                od = o
            else:
                od = o.d if isinstance(o, SpMat) else it.arr(o)
                if isinstance(od, Top):
                    return od
            x, y = (od, self.d) if swap else (self.d, od)
            fmt = self.fmt if isinstance(o, SpMat) and \
                o.fmt != 'matrix' or is_num(o) else 'matrix'
            if fmt != 'matrix' and isinstance(o, SpMat) and \
                    o.d.shape != self.d.shape:
                raise AbsRaise('ValueError', 'inconsistent shapes')
            r = it.binop(op, x, y)
            return SpMat(r, fmt) if isinstance(r, np.ndarray) else r
        if isinstance(op, ast.Div) and not swap:
            od = o.d if isinstance(o, SpMat) else o
            return SpMat(it.binop(op, self.d, od), self.fmt)
        if isinstance(op, ast.Pow) and isinstance(o, int) and not swap:
            r = self
            for q in range(o - 1):
                r = r.matmul(it, self, False)
            return r
        return NotImplemented

    def absint_unary(self, it, op):
        if isinstance(op, ast.USub):
            return SpMat(it.unary(op, self.d), self.fmt)
        return self

    def absint_cmp(self, it, op, b):
        return Top('matrix comparison')

    def absint_truth(self, it):
        return None

    def absint_len(self, it):
        if self.fmt == 'matrix':
            return self.d.shape[0]
        raise AbsRaise('TypeError', 'sparse matrix length is ambiguous')

    def absint_type(self, it):
        return Native('scipy.sparse.%s_matrix' % self.fmt, None)

    def absint_isinstance(self, it, t):
        n = getattr(t, 'name', '')
        if t is np.ndarray or n == 'numpy.ndarray':
            return self.fmt == 'matrix'
        if n.startswith('scipy.sparse'):
            if n.endswith('%s_matrix' % self.fmt):
                return True
            if n.endswith('spmatrix') or n.endswith('sparse.base'):
                return self.fmt != 'matrix'
        return False

    def absint_getitem(self, it, ix):
        ix = it.fix_index(ix)
        if isinstance(ix, Top) or has_top(ix):
            return Top('matrix item')
        try:
            if not isinstance(ix, tuple):
                ix = (ix, slice(None))
            if any(x is None for x in ix):
                raise IndexError('newaxis on a sparse matrix')
            sc = [isinstance(x, (int, np.integer)) for x in ix]
            if all(sc):
                return norm_native(self.d[ix])
            ix = tuple(slice(x, x + 1 or None) if s else x
                       for x, s in zip(ix, sc))
            r = self.d[ix]
        except IndexError as e:
            raise AbsRaise('IndexError', str(e))
        if r.ndim == 1:
            r = r.reshape(1, -1)
        return SpMat(r.copy(), self.fmt)

    def absint_setitem(self, it, ix, v):
        if isinstance(v, SpMat):
            v = v.d
        it.setitem(self.d, ix, v)

    def absint_iter(self, it):
        return [SpMat(self.d[[i], :], self.fmt)
                for i in range(self.d.shape[0])]

    def absint_np(self, it, n, a, k):
        if n in ('array', 'asarray', 'asanyarray', 'atleast_2d') and \
                a and a[0] is self:
            return self.d.copy() if self.fmt == 'matrix' else Top('array')
        if n in ('squeeze', 'ravel') and self.fmt == 'matrix':
            return SpMat(self.d.reshape(1, -1), 'matrix')
        if n in ('dot', 'matmul'):
            return NotImplemented
        if n == 'linalg.inv' or n == 'linalg.solve':
            return NotImplemented
        if n in ('shape',):
            return self.d.shape
        if self.fmt == 'matrix':
            b = [x.d if isinstance(x, SpMat) else x for x in a]
            r = it.np_call('numpy.' + n, b, k)
            return SpMat(r, 'matrix') if isinstance(r, np.ndarray) and \
                r.ndim == 2 else r
        if n in ('sum', 'mean'):
            return self.method(it, n, list(a[1:]), k)
        if n in ('abs', 'absolute', 'fabs'):
            return SpMat(it.np_call('numpy.abs', [self.d], {}), self.fmt)
        if n in ('max', 'min', 'amax', 'amin') and len(a) == 1 and not k:
            return self.method(it, n[-3:], [], k)
        it.notes.append('numpy.%s of a sparse matrix' % n)
        return Top('numpy of sparse')

    def absint_same(self, o):
        return isinstance(o, SpMat) and self is o


def dense(v):
    """plain object array of a matrix of the analysed program"""
    if isinstance(v, SpMat):
        return v.d
    return v


def _shape(it, a, k, pos=1):
    sh = k.get('shape', a[pos] if len(a) > pos else None)
    if sh is None:
        return None
    sh = it.fix_index(sh)
    return sh if isinstance(sh, Top) else tuple(int(x) for x in sh)


def _make(fmt):
    def f(it, a, k):
        v = a[0] if a else k.get('arg1')
        if isinstance(v, (Top, Alt)):
            return Top('sparse')
        if isinstance(v, SpMat):
            return SpMat(v.d.copy(), fmt)
        if fmt == 'dia' and isinstance(v, tuple):
            data, off = v
            sh = _shape(it, a, k)
            data = it.arr(data)
            offs = it.fix_index(off)
            if sh is None:
                raise AbsRaise('ValueError', 'expected a shape argument')
            if has_top([sh, offs]) or isinstance(data, Top):
                return Top('sparse')
            offs = [int(x) for x in np.atleast_1d(offs)]
            data = data.reshape(len(offs), -1)
            out = _zeros(sh)
            for r, o in enumerate(offs):
                for j in range(data.shape[1]):
                    if 0 <= j - o < sh[0] and j < sh[1]:
                        out[j - o, j] = norm_native(data[r, j])
            return SpMat(out, fmt)
        if isinstance(v, tuple) and len(v) == 2 and is_num(v[0]):
            return SpMat(_zeros(tuple(int(x) for x in v)), fmt)
        if isinstance(v, tuple) and len(v) == 2:
            data, ij = v
            if isinstance(ij, (Top, Alt)):
                return Top('sparse')
            rows, cols = it.iterate(ij)
            rows, cols = it.fix_index(it.arr(rows)), it.fix_index(
                it.arr(cols))
            data = it.arr(data)
            if any(isinstance(x, Top) or (not isinstance(x, np.ndarray))
                   for x in (rows, cols, data)):
                return Top('sparse')
            data = data.ravel()
            if not (len(rows) == len(cols) == len(data)):
                raise AbsRaise('ValueError', 'row, column, and data array '
                                             'must all be the same length')
            sh = _shape(it, a, k)
            if isinstance(sh, Top):
                return sh
            if sh is None:
                if not len(rows):
                    raise AbsRaise('ValueError', 'cannot infer dimensions')
                sh = (int(max(rows)) + 1, int(max(cols)) + 1)
            out = _zeros(sh)
            for r, c, x in zip(rows, cols, data):
                r, c = int(r), int(c)
                if not (0 <= r < sh[0] and 0 <= c < sh[1]):
                    raise AbsRaise('ValueError', 'index exceeds matrix '
                                                 'dimensions')
                out[r, c] = it.elem(ast.Add(), out[r, c], norm_native(x))
            return SpMat(out, fmt)
        v = it.arr(v)
        if isinstance(v, Top):
            return v
        if v.ndim < 2:
            v = v.reshape(1, -1)
        return SpMat(v.copy(), fmt)
    return f


def _diags(it, a, k):
    data = a[0]
    offs = k.get('offsets', a[1] if len(a) > 1 else 0)
    if isinstance(data, (list, tuple)) and data and not is_num(data[0]):
        rows = [it.arr(x) for x in data]
        if any(isinstance(x, Top) for x in rows):
            return Top('diags')
    else:
        v = it.arr(data)
        if isinstance(v, Top):
            return Top('diags')
        rows = [v] if v.ndim == 1 else list(v)
    if has_top([offs]):
        return Top('diags')
    offs = [int(x) for x in np.atleast_1d(it.fix_index(offs))]
    sh = k.get('shape', a[2] if len(a) > 2 else None)
    n = len(rows[0]) + abs(offs[0])
    sh = tuple(int(x) for x in sh) if sh is not None else (n, n)
    out = _zeros(sh)
    for r, o in zip(rows, offs):
        i, j = (0, o) if o >= 0 else (-o, 0)
        for q in range(min(sh[0] - i, sh[1] - j)):
            out[i + q, j + q] = norm_native(r[q] if len(r) > 1 else r[0])
    return SpMat(out, k.get('format') or 'dia')


def _eye(it, a, k):
    n = int(a[0])
    m = int(a[1]) if len(a) > 1 and a[1] is not None else n
    return SpMat(np.eye(n, m).astype(int).astype(object),
                 k.get('format') or 'dia')


def _solve(it, a, k):
    """solution of a linear system: exact for small ones, otherwise fresh
    unknowns recorded together with the system they solve"""
    A, b = a[0], a[1]
    if isinstance(A, (Top, Alt)) or isinstance(b, (Top, Alt)):
        return Top('solve')
    Ad, bd = dense(A), dense(b)
    Ad = Ad if isinstance(Ad, np.ndarray) else it.arr(Ad)
    bd = bd if isinstance(bd, np.ndarray) else it.arr(bd)
    if Ad.ndim != 2 or Ad.shape[0] != Ad.shape[1]:
        raise AbsRaise('ValueError', 'matrix must be square')
    if bd.shape[0] != Ad.shape[0]:
        raise AbsRaise('ValueError', 'incompatible dimensions %s %s' % (
            Ad.shape, bd.shape))
    if has_top(Ad) or has_top(bd):
        return Top('solve')
    log = it.__dict__.setdefault('solves', [])
    x = np.empty(bd.shape, dtype=object)
    for ix in np.ndindex(*x.shape):
        x[ix] = Sym.var('sol%d_%s' % (len(log), '_'.join(map(str, ix))))
    log.append((Ad.copy(), bd.copy(), x.copy()))
    if isinstance(b, SpMat) and b.fmt != 'matrix' and bd.shape[1] > 1:
        return SpMat(x, 'csc')
    if isinstance(b, SpMat):
        return x.ravel()
    if x.ndim == 2 and x.shape[1] == 1 and k.get('_sparse'):
        return x.ravel()
    return x


class Solver(object):
    """factorisation of a matrix, used only to solve with it"""

    def __init__(self, A, kind):
        self.A, self.kind = A, kind

    def __deepcopy__(self, memo):
        return self

    def absint_call(self, it, a, k):
        if self.kind == 'splu':
            raise AbsRaise('TypeError', 'SuperLU object is not callable')
        if self.kind == 'factorized' and isinstance(a[0], SpMat):
            raise AbsRaise('TypeError', 'factorized expects a dense vector')
        return _solve(it, [self.A, a[0]], k)

    def absint_getattr(self, it, n):
        if n in ('solve_A', '__call__') and self.kind == 'cholmod' or \
                n == 'solve' and self.kind == 'splu':
            return Native('factor.' + n, lambda it, a, k: _solve(
                it, [self.A, a[0]], k))
        return Top('factor.' + n)


def _solver(kind):
    def f(it, a, k):
        if isinstance(a[0], (Top, Alt)):
            return Top('factor')
        return Solver(a[0], kind)
    return f


# ------------------------------------------------------------- signatures
class Param(object):
    def __init__(self, name, kind):
        self.name, self.kind = name, kind

    def absint_getattr(self, it, n):
        return {'name': self.name, 'kind': self.kind}.get(n, Top(n))

    def __deepcopy__(self, memo):
        return self


class Signature(object):
    def __init__(self, params):
        self.params = params

    def __deepcopy__(self, memo):
        return self

    def absint_getattr(self, it, n):
        if n == 'parameters':
            return {p.name: p for p in self.params}
        if n in ('bind_partial', 'bind'):
            def f(it, a, k):
                args = {}
                pos = list(a)
                left = dict(k)
                for p in self.params:
                    if p.kind == 'var':
                        if pos:
                            args[p.name] = tuple(pos)
                            pos = []
                        continue
                    if p.kind == 'varkw':
                        if left:
                            args[p.name] = left
                        continue
                    left.pop(p.name, None)
                    if pos and p.kind == 'pos':
                        args[p.name] = pos.pop(0)
                    elif p.name in k:
                        args[p.name] = k[p.name]
                if not any(p.kind in ('var', 'varkw') for p in self.params):
                    names = {p.name for p in self.params}
                    for q in k:
                        if isinstance(q, str) and q not in names:
                            raise AbsRaise('TypeError', 'got an unexpected '
                                           'keyword argument %r' % q)
                    if pos:
                        raise AbsRaise('TypeError',
                                       'too many positional arguments')
                return BoundArgs(self, args)
            return Native('signature.' + n, f)
        return Top('signature.' + n)


class BoundArgs(object):
    def __init__(self, sig, args):
        self.sig, self.args = sig, args

    def absint_getattr(self, it, n):
        if n == 'arguments':
            return self.args
        if n == 'signature':
            return self.sig
        pos, kw, started = [], {}, False
        for p in self.sig.params:
            if p.kind == 'var':
                if not started:
                    pos.extend(self.args.get(p.name, ()))
                started = True
                continue
            if p.kind == 'varkw':
                kw.update(self.args.get(p.name, {}))
                continue
            if p.name not in self.args or p.kind == 'kw':
                started = True
            if p.name in self.args:
                if started:
                    kw[p.name] = self.args[p.name]
                else:
                    pos.append(self.args[p.name])
        if n == 'args':
            return tuple(pos)
        if n == 'kwargs':
            return kw
        return Top('bound.' + n)


def _signature(it, a, k):
    f = a[0]
    if isinstance(f, Bound):
        f, skip = f.func, 1
    else:
        skip = 0
    if not isinstance(f, Func):
        return Top('signature')
    A = f.node.args
    ps = [Param(x.arg, 'pos') for x in A.posonlyargs + A.args][skip:]
    if A.vararg:
        ps.append(Param(A.vararg.arg, 'var'))
    ps += [Param(x.arg, 'kw') for x in A.kwonlyargs]
    if A.kwarg:
        ps.append(Param(A.kwarg.arg, 'varkw'))
    return Signature(ps)


def _issparse(it, a, k):
    if isinstance(a[0], (Top, Alt)):
        return Top('issparse')
    return isinstance(a[0], SpMat) and a[0].fmt != 'matrix'


class TextFile(object):
    """an open text file; a word '@name' is the numeral of an unknown"""

    def __init__(self, lines):
        self.lines = lines
        self.pos = 0

    def absint_next(self, it, a):
        if self.pos >= len(self.lines):
            if len(a) > 1:
                return a[1]
            raise AbsRaise('StopIteration', '')
        self.pos += 1
        return self.lines[self.pos - 1]

    def absint_iter(self, it):
        out = self.lines[self.pos:]
        self.pos = len(self.lines)
        return out

    def absint_getattr(self, it, n):
        def f(it, a, k):
            if n in ('readline', '__next__'):
                return self.absint_next(it, [self] + (
                    [''] if n == 'readline' else []))
            if n == 'readlines':
                return self.absint_iter(it)
            if n == 'read':
                return ''.join(self.absint_iter(it))
            if n == '__enter__':
                return self
            if n == 'seek':
                if a[0] == 0:
                    self.pos = 0
                    return 0
                return Top('seek')
            if n in ('close', '__exit__'):
                return None
            return Top('file.' + n)
        if n == 'closed':
            return False
        return Native('file.' + n, f)


def install(it):
    o = it.overrides

    def put(name, f):
        o.setdefault(name, Native(name, f))
    for f in SPARSE:
        put('scipy.sparse.%s_matrix' % f, _make(f))
        put('scipy.sparse.%s_array' % f, _make(f))
    put('scipy.sparse.diags', _diags)
    put('scipy.sparse.eye', _eye)
    put('scipy.sparse.identity', _eye)
    put('scipy.sparse.issparse', _issparse)
    put('scipy.sparse.isspmatrix', _issparse)
    put('scipy.sparse.linalg.spsolve',
        lambda it, a, k: _solve(it, a, {'_sparse': True}))
    put('scipy.linalg.solve', _solve)
    put('scipy.sparse.linalg.factorized', _solver('factorized'))
    put('scipy.sparse.linalg.splu', _solver('splu'))
    put('sksparse.cholmod.cholesky', _solver('cholmod'))
    put('inspect.signature', _signature)
    for t in ('time', 'perf_counter', 'process_time', 'monotonic'):
        put('time.' + t, lambda it, a, k: 0.0)
