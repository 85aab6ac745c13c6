"""Scalar value domain: multivariate rational functions in normal form.

A `Sym` is N/D, two polynomials over *atoms*.  An atom is either an unknown
input (`var`) or an uninterpreted function of canonical arguments (sqrt, exp,
abs, ...).  Two values are equal when N1*D2 - N2*D1 is the zero polynomial.
Nothing here branches on values, searches, or calls a solver: it is the
normal-form (value-numbering) domain of the abstract interpreter.
"""
from fractions import Fraction
import math
import numbers

TOL = 1e-9


class Atom(object):
    __slots__ = ('name', 'fn', 'args', 'uid', 'positive')
    _vars = {}
    _fns = {}
    _count = 0

    def __init__(self, name, fn=None, args=(), positive=False):
        self.name = name
        self.fn = fn
        self.args = args
        self.positive = positive
        Atom._count += 1
        self.uid = Atom._count

    def __repr__(self):
        return self.name

    def __deepcopy__(self, memo):
        return self

    @classmethod
    def var(cls, name, positive=False):
        a = cls._vars.get(name)
        if a is None:
            a = cls._vars[name] = cls(name, positive=positive)
        if positive:
            a.positive = True
        return a

    @classmethod
    def app(cls, fn, args, positive=False):
        bucket = cls._fns.setdefault((fn, len(args)), [])
        for a in bucket:
            if all(_arg_eq(p, q) for p, q in zip(a.args, args)):
                return a
        a = cls('%s(%s)' % (fn, ', '.join(map(str, args))), fn, tuple(args),
                positive)
        bucket.append(a)
        return a


def _arg_eq(p, q):
    if isinstance(p, Sym) and isinstance(q, Sym):
        return p.equals(q)
    return type(p) is type(q) and p == q


def _num(c):
    if isinstance(c, bool):
        return int(c)
    if isinstance(c, (int, Fraction)):
        return c
    if isinstance(c, numbers.Integral):
        return int(c)
    return float(c)


class Poly(object):
    """dict: monomial (sorted tuple of (atom uid, exponent)) -> coefficient"""
    __slots__ = ('t',)
    atoms = {}

    def __init__(self, t=None):
        self.t = t or {}

    @staticmethod
    def const(c):
        c = _num(c)
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def atom(a):
        Poly.atoms[a.uid] = a
        return Poly({((a.uid, 1),): 1})

    def add(self, o, s=1):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + s * c
            if v == 0 or (isinstance(v, float) and
                          abs(v) <= 1e-14 * (abs(c) + abs(t.get(m, 0)))):
                t.pop(m, None)
            else:
                t[m] = v
        return Poly(t)

    def mul(self, o):
        t = {}
        extra = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                if not m1:
                    m, red = m2, None
                elif not m2:
                    m, red = m1, None
                else:
                    d = dict(m1)
                    for a, e in m2:
                        d[a] = d.get(a, 0) + e
                    m, red = _reduce(d)
                c = c1 * c2
                if red is not None:
                    extra.append((m, c, red))
                    continue
                v = t.get(m, 0) + c
                if v == 0:
                    t.pop(m, None)
                else:
                    t[m] = v
        p = Poly(t)
        for m, c, red in extra:
            p = p.add(Poly({m: c}).mul(red))
        return p

    def is_zero(self, tol=TOL):
        if not self.t:
            return True
        return all(abs(c) <= tol for c in self.t.values())

    def is_const(self):
        return all(m == () for m in self.t)

    def scale(self):
        return max([abs(float(c)) for c in self.t.values()] or [0.0])

    def __str__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: (len(kv[0]),
                                                           str(kv[0]))):
            f = '*'.join(Poly.atoms[a].name + ('' if e == 1 else '^%d' % e)
                         for a, e in m)
            if isinstance(c, float):
                cs = '%.6g' % c
            else:
                cs = str(c)
            if not f:
                out.append(cs)
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append('-' + f)
            else:
                out.append(cs + '*' + f)
        return ' + '.join(out).replace('+ -', '- ')


def _reduce(d):
    """apply sqrt(e)^2 = e and abs(e)^2 = e^2; returns (monomial, Poly|None)"""
    red = None
    for a in list(d):
        e = d[a]
        at = Poly.atoms[a]
        if at.fn in ('sqrt', 'abs') and e >= 2:
            arg = at.args[0]
            if arg.F:
                continue
            k = e // 2
            r = e % 2
            if r:
                d[a] = r
            else:
                del d[a]
            base = arg.poly()
            if at.fn == 'abs':
                base = base.mul(base)
            for _ in range(k):
                red = base if red is None else red.mul(base)
    return tuple(sorted(d.items())), red


class NotConst(Exception):
    pass


class Sym(object):
    __slots__ = ('N', 'F', '_D')
    __array_priority__ = 1000

    def __init__(self, N, D=None, F=None):
        """N / product of factors; D: one denominator polynomial"""
        facs = list(F) if F else []
        if D is not None:
            N, more = _factor(N, D)
            facs += more
        if facs:
            N, facs = _normalise(N, facs)
        self.N = N
        self.F = tuple(facs)
        self._D = None

    @property
    def D(self):
        if self._D is None:
            d = Poly.const(1)
            for f, e in self.F:
                for _ in range(e):
                    d = d.mul(f)
            self._D = d
        return self._D

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- construction
    @staticmethod
    def var(name, positive=False):
        return Sym(Poly.atom(Atom.var(name, positive)))

    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, numbers.Real) or isinstance(x, Fraction):
            return Sym(Poly.const(x))
        if hasattr(x, 'item') and getattr(x, 'shape', None) == ():
            return Sym.of(x.item())
        raise TypeError('not a scalar: %r' % (x,))

    @staticmethod
    def app(fn, *args, positive=False):
        return Sym(Poly.atom(Atom.app(fn, args, positive)))

    def poly(self):
        assert not self.F
        return self.N

    # -- queries
    def is_const(self):
        return not self.F and self.N.is_const()

    def const(self):
        if not self.is_const():
            raise NotConst(str(self))
        n = self.N.t.get((), 0)
        if isinstance(n, Fraction) and n.denominator == 1:
            return int(n)
        return n

    def equals(self, o, tol=TOL):
        try:
            o = Sym.of(o)
        except TypeError:
            return False
        l, r, _ = _common(self, o)
        diff = l.add(r, -1)
        sc = max(1.0, l.scale())
        return diff.is_zero(tol * sc)

    def is_zero(self):
        return self.N.is_zero()

    def atoms(self):
        s = set()
        for p in [self.N] + [f for f, e in self.F]:
            for m in p.t:
                for a, _ in m:
                    at = Poly.atoms[a]
                    s.add(at)
        return s

    def all_atoms(self):
        s = set()
        todo = list(self.atoms())
        while todo:
            a = todo.pop()
            if a in s:
                continue
            s.add(a)
            for x in a.args:
                if isinstance(x, Sym):
                    todo.extend(x.atoms())
        return s

    def sign(self):
        """+1/-1/0 when decided by constants and positivity marks, else None"""
        if self.N.is_zero(1e-15):
            return 0
        s = _poly_sign(self.N)
        if s is None:
            s = _fact_sign(self.N)
        if s is None:
            return None
        for f, e in self.F:
            if e % 2 == 0:
                continue
            d = _poly_sign(f)
            if d is None:
                d = _fact_sign(f)
            if d is None:
                return None
            s *= d
        return s

    # -- calculus and substitution (polynomial only)
    def diff(self, v):
        v = v.uid if isinstance(v, Atom) else _single_atom(v).uid
        dN = _pdiff(self.N, v)
        if not self.F:
            return Sym(dN)
        # (N / prod f^e)' = (N' prod f - N sum e f' prod_{g != f} g)
        #                   / prod f^(e+1)
        fs = [f for f, e in self.F]
        P = Poly.const(1)
        for f in fs:
            P = P.mul(f)
        num = dN.mul(P)
        for i, (f, e) in enumerate(self.F):
            df = _pdiff(f, v)
            if not df.t:
                continue
            q = df.mul(Poly.const(e))
            for k, g in enumerate(fs):
                if k != i:
                    q = q.mul(g)
            num = num.add(self.N.mul(q), -1)
        return Sym(num, F=[(f, e + 1) for f, e in self.F])

    def subs(self, mapping):
        """mapping: {Sym var: value}"""
        mp = {_single_atom(k).uid: Sym.of(v) for k, v in mapping.items()}
        out = _psubs(self.N, mp)
        for f, e in self.F:
            out = out / _psubs(f, mp) ** e
        return out

    # -- arithmetic
    def _bin(self, o, f):
        try:
            o = Sym.of(o)
        except TypeError:
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        def f(a, b):
            if not a.F and not b.F:
                return Sym(a.N.add(b.N))
            l, r, F = _common(a, b)
            return Sym(l.add(r), F=F)
        return self._bin(o, f)
    __radd__ = __add__

    def __neg__(self):
        return Sym(Poly({m: -c for m, c in self.N.t.items()}), F=self.F)

    def __pos__(self):
        return self

    def __sub__(self, o):
        def f(a, b):
            if not a.F and not b.F:
                return Sym(a.N.add(b.N, -1))
            l, r, F = _common(a, b)
            return Sym(l.add(r, -1), F=F)
        return self._bin(o, f)

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: Sym(
            a.N.mul(b.N), F=a.F + b.F))
    __rmul__ = __mul__

    def __truediv__(self, o):
        def f(a, b):
            if b.N.is_zero(0):
                raise ZeroDivisionError('abstract division by zero')
            return Sym(a.N.mul(b.D) if b.F else a.N, b.N, a.F)
        return self._bin(o, f)

    def __rtruediv__(self, o):
        try:
            return Sym.of(o) / self
        except TypeError:
            return NotImplemented

    def __pow__(self, e):
        if isinstance(e, Sym) and e.is_const():
            e = e.const()
        if isinstance(e, float) and e == int(e):
            e = int(e)
        if isinstance(e, numbers.Integral):
            e = int(e)
            base = self if e >= 0 else Sym(self.D, self.N)
            out = Sym(Poly.const(1))
            for _ in range(abs(e)):
                out = out * base
            return out
        if e == 0.5:
            return self.sqrt()
        e = Sym.of(e)
        if self.is_const() and self.const() == 1:
            return Sym.of(1)
        base = self
        if base.N.is_const() and base.F:
            base, e = Sym(base.D, base.N), -e
        return Sym.app('pow', base, e, positive=True)

    def __rpow__(self, o):
        return Sym.of(o).__pow__(self)

    def __abs__(self):
        if self.is_const():
            return Sym.of(abs(self.const()))
        s = self.sign()
        if s in (0, 1):
            return self
        if s == -1:
            return -self
        x = self
        # canonical sign: leading coefficient positive
        lead = min(x.N.t, key=lambda m: (len(m), m))
        if x.N.t[lead] < 0:
            x = -x
        if x.F and Sym(x.D).sign() == 1:
            return abs(Sym(x.N)) / Sym(x.D)
        # monic scaling
        c = x.N.t[min(x.N.t, key=lambda m: (len(m), m))]
        if c != 1:
            c = Fraction(c) if isinstance(c, int) else c
            x = x / c
            return Sym.app('abs', x, positive=False) * c
        return Sym.app('abs', x)

    def sqrt(self):
        if self.is_const():
            c = self.const()
            if c >= 0:
                r = math.sqrt(c)
                return Sym.of(int(r) if r == int(r) else r)
        # positive denominators leave the root
        if self.F and all((_poly_sign(f) or _fact_sign(f)) == 1
                          for f, e in self.F):
            out = Sym(self.N).sqrt()
            for f, e in self.F:
                if e // 2:
                    out = out / Sym(f) ** (e // 2)
                if e % 2:
                    out = out / Sym(f).sqrt()
            return out
        # sqrt of a single positive monomial with even powers
        if len(self.N.t) == 1 and len(self.D.t) == 1:
            r = _msqrt(self.N), _msqrt(self.D)
            if None not in r:
                return Sym(*r)
        # rational squares leave the root
        c = self.N.t[min(self.N.t, key=lambda m: (len(m), m))]
        if isinstance(c, (int, Fraction)) and abs(c) != 1:
            c = abs(Fraction(c))
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                r = Fraction(a, b)
                return Sym.app('sqrt', self / c, positive=True) * r
        return Sym.app('sqrt', self, positive=True)

    def exp(self):
        if self.is_zero():
            return Sym.of(1)
        return Sym.app('exp', self, positive=True)

    def log(self):
        return Sym.app('log', self)

    def sin(self):
        return Sym.app('sin', self)

    def cos(self):
        return Sym.app('cos', self)

    def conjugate(self):
        return self

    # structural equality only: undecided -> False (see absint for 3-valued)
    def __eq__(self, o):
        return self.equals(o)

    def __ne__(self, o):
        return not self.equals(o)

    def __hash__(self):
        return hash('Sym')

    def __float__(self):
        return float(self.const())

    def __int__(self):
        return int(self.const())

    def __str__(self):
        if not self.F:
            return str(self.N)
        return '(%s)/(%s)' % (self.N, '*'.join(
            '(%s)%s' % (f, '' if e == 1 else '^%d' % e)
            for f, e in self.F))
    __repr__ = __str__


def _isc(x):
    return isinstance(x, (int, Fraction))


def _div_c(v, c):
    if isinstance(v, int) and isinstance(c, int):
        if v % c == 0:
            return v // c
        return Fraction(v, c)
    return v / c


def _factor(N, D):
    """N / D  ->  (scaled N, [(canonical factor, exponent)])"""
    if not D.t:
        raise ZeroDivisionError('abstract division by zero')
    if D.is_const():
        c = D.t[()]
        if c == 1:
            return N, []
        return Poly({m: _div_c(v, c) for m, v in N.t.items()}), []
    facs = []
    common = None
    for m in D.t:
        d = dict(m)
        common = d if common is None else {
            a: min(e, d[a]) for a, e in common.items() if a in d}
        if not common:
            break
    if common:
        t = {}
        for m, c in D.t.items():
            d = dict(m)
            for a, e in common.items():
                d[a] -= e
                if d[a] == 0:
                    del d[a]
            t[tuple(sorted(d.items()))] = c
        D = Poly(t)
        for a, e in common.items():
            facs.append((Poly.atom(Poly.atoms[a]), e))
    lead = max(D.t, key=lambda m: (len(m), m))
    c = D.t[lead]
    if c != 1:
        D = Poly({m: _div_c(v, c) for m, v in D.t.items()})
        N = Poly({m: _div_c(v, c) for m, v in N.t.items()})
    if not D.is_const():
        facs.append((D, 1))
    return N, facs


def _same_poly(p, q):
    if len(p.t) != len(q.t):
        return False
    for m, c in p.t.items():
        d = q.t.get(m)
        if d is None:
            return False
        if c != d and abs(c - d) > 1e-12 * (abs(c) + abs(d)):
            return False
    return True


def _merge_facs(facs):
    out = []
    for f, e in facs:
        for i, (g, k) in enumerate(out):
            if _same_poly(f, g):
                out[i] = (g, k + e)
                break
        else:
            out.append((f, e))
    return out


def _normalise(N, facs):
    if not N.t:
        return N, []
    facs = _merge_facs(facs)
    # sqrt(e)^2 = e, abs(e)^2 = e^2 in the denominator
    again = False
    more = []
    for f, e in facs:
        if e >= 2 and len(f.t) == 1:
            (m, c), = f.t.items()
            if len(m) == 1 and m[0][1] == 1:
                at = Poly.atoms[m[0][0]]
                if at.fn in ('sqrt', 'abs') and not at.args[0].F:
                    k = e // 2 * (1 if at.fn == 'sqrt' else 2)
                    base = at.args[0].N
                    for _ in range(k):
                        N, fs = _factor(N, base)
                        more += fs
                    if e % 2:
                        more.append((f, 1))
                    again = True
                    continue
        more.append((f, e))
    if again:
        facs = _merge_facs(more)
    out = []
    for f, e in facs:
        while e > 0:
            q = pdiv(N, f)
            if q is None:
                break
            N = q
            e -= 1
        if e:
            out.append((f, e))
    return N, out


def _common(a, b):
    """numerators of a and b over their common denominator"""
    if not a.F and not b.F:
        return a.N, b.N, ()
    F = [list(x) for x in a.F]
    ea = [0] * len(F)
    eb = [e for f, e in a.F]
    for f, e in b.F:
        for i, (g, k) in enumerate(F):
            if i < len(a.F) and _same_poly(f, g):
                m = max(k, e)
                ea[i] = m - k
                eb[i] = m - e
                F[i][1] = m
                break
        else:
            F.append([f, e])
            ea.append(e)
            eb.append(0)
    l, r = a.N, b.N
    for (f, _), x, y in zip(F, ea, eb):
        for _k in range(x):
            l = l.mul(f)
        for _k in range(y):
            r = r.mul(f)
    return l, r, [(f, e) for f, e in F]


def pdiv(N, D, limit=4000):
    """exact quotient N / D or None"""
    if not N.t or len(N.t) > limit:
        return None
    if len(D.t) == 1:
        (dm, dc), = D.t.items()
        dd = dict(dm)
        t = {}
        for m, c in N.t.items():
            d = dict(m)
            for a, e in dd.items():
                k = d.get(a, 0) - e
                if k < 0:
                    return None
                if k:
                    d[a] = k
                else:
                    d.pop(a, None)
            t[tuple(sorted(d.items()))] = _div_c(c, dc)
        return Poly(t)
    if len(N.t) < len(D.t) and len(N.t) < 2:
        return None
    vs = sorted({a for m in D.t for a, _ in m} |
                {a for m in N.t for a, _ in m})
    pos = {a: i for i, a in enumerate(vs)}

    def dense(m):
        v = [0] * len(vs)
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)
    n = {dense(m): c for m, c in N.t.items()}
    d = {dense(m): c for m, c in D.t.items()}
    for i in range(len(vs)):
        if max(m[i] for m in d) > max(m[i] for m in n):
            return None
    ld, sd = max(d), min(d)
    ln, sn = max(n), min(n)
    if any(x < y for x, y in zip(ln, ld)) or \
            any(x < y for x, y in zip(sn, sd)):
        return None
    scale = max(abs(c) for c in n.values())
    q = {}
    steps = 0
    items = list(d.items())
    while n:
        ln = max(n)
        if any(x < y for x, y in zip(ln, ld)):
            return None
        c = _div_c(n[ln], d[ld])
        m = tuple(x - y for x, y in zip(ln, ld))
        q[m] = c
        for dm, dc in items:
            k = tuple(x + y for x, y in zip(m, dm))
            v = n.get(k, 0) - c * dc
            if v == 0 or k == ln or isinstance(v, float) and \
                    abs(v) <= 1e-12 * scale:
                n.pop(k, None)
            else:
                n[k] = v
        steps += 1
        if steps > limit or len(n) > 4 * limit:
            return None
    return Poly({tuple((vs[i], e) for i, e in enumerate(m) if e): c
                 for m, c in q.items()})


FACTS = []       # Sym polynomials known to be positive


def _fact_sign(p):
    for f in FACTS:
        g = f.N
        if len(g.t) != len(p.t) or set(g.t) != set(p.t):
            continue
        m = next(iter(g.t))
        c = p.t[m] / g.t[m]
        if all(abs(p.t[k] - c * g.t[k]) <= 1e-12 * abs(p.t[k])
               for k in p.t):
            return 1 if c > 0 else -1
    return None


def _poly_sign(p):
    if not p.t:
        return 0
    signs = set()
    for m, c in p.t.items():
        for a, e in m:
            if e % 2 and not Poly.atoms[a].positive:
                return None
        signs.add(1 if c > 0 else -1)
    # even powers of unsigned atoms are >= 0 only: strictness needs a strict
    # term; treat as undecided unless every atom is positive
    for m, c in p.t.items():
        for a, e in m:
            if not Poly.atoms[a].positive:
                return None
    return signs.pop() if len(signs) == 1 else None


def _msqrt(p):
    (m, c), = p.t.items()
    if c < 0:
        return None
    r = math.sqrt(c)
    if r == int(r):
        r = int(r)
    elif isinstance(c, Fraction):
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            r = Fraction(a, b)
    out = []
    for a, e in m:
        if e % 2 or not Poly.atoms[a].positive:
            return None
        out.append((a, e // 2))
    return Poly({tuple(out): r})


def _single_atom(v):
    (m, c), = v.N.t.items()
    (a, e), = m
    assert e == 1 and c == 1
    return Poly.atoms[a]


def _pdiff(p, uid):
    t = Poly()
    for m, c in p.t.items():
        d = dict(m)
        if uid in d:
            e = d[uid]
            if e == 1:
                del d[uid]
            else:
                d[uid] = e - 1
            t = t.add(Poly({tuple(sorted(d.items())): c * e}))
        for a, e in m:
            at = Poly.atoms[a]
            if at.fn is not None and any(
                    isinstance(x, Sym) and any(y.uid == uid
                                               for y in x.all_atoms())
                    for x in at.args):
                raise NotImplementedError('diff through ' + at.name)
    return t


def _psubs(p, mp):
    out = Sym(Poly())
    for m, c in p.t.items():
        term = Sym(Poly.const(c))
        for a, e in m:
            if a in mp:
                b = mp[a]
            else:
                at = Poly.atoms[a]
                if at.fn is None:
                    b = Sym(Poly.atom(at))
                else:
                    args = [_subs_arg(x, mp) for x in at.args]
                    b = apply_fn(at.fn, args, at)
            term = term * b ** e
        out = out + term
    return out


def _subs_arg(x, mp):
    if isinstance(x, Sym):
        out = _psubs(x.N, mp)
        for f, e in x.F:
            out = out / _psubs(f, mp) ** e
        return out
    return x


def apply_fn(fn, args, at=None):
    if fn == 'sqrt':
        return args[0].sqrt()
    if fn == 'abs':
        return abs(args[0])
    if fn == 'exp':
        return args[0].exp()
    if fn == 'pow':
        return args[0] ** args[1]
    if fn in ('min', 'max'):
        return minmax(fn, args)
    return Sym.app(fn, *args, positive=bool(at and at.positive))


def minmax(fn, args):
    """order-insensitive n-ary min/max"""
    flat = []
    for a in args:
        a = Sym.of(a)
        at = a.atoms()
        if len(at) == 1:
            x = next(iter(at))
            if x.fn == fn and a.equals(Sym(Poly.atom(x))):
                flat.extend(x.args)
                continue
        flat.append(a)
    uniq = []
    for a in flat:
        if not any(a.equals(b) for b in uniq):
            uniq.append(a)
    # drop decided ones
    keep = list(uniq)
    for a in uniq:
        for b in uniq:
            if a is b or a not in keep or b not in keep:
                continue
            s = (a - b).sign()
            if s is None:
                continue
            drop = a if ((s > 0) == (fn == 'min')) else b
            if len(keep) > 1:
                keep = [k for k in keep if k is not drop]
    if len(keep) == 1:
        return keep[0]
    # interned regardless of argument order
    bucket = Atom._fns.setdefault((fn, len(keep)), [])
    for at in bucket:
        rest = list(keep)
        for p in at.args:
            for q in rest:
                if p.equals(q):
                    rest.remove(q)
                    break
            else:
                break
        else:
            if not rest:
                return Sym(Poly.atom(at))
    return Sym.app(fn, *keep)
