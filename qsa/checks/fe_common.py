"""shared by the checks on degrees of freedom"""
import itertools
from ..frame import Violation, Undecided, want
from ..build import (World, Sym, glued, star, boxmesh, linemesh, aslist,
                     children, coords, corners, tolist)
from ..sym import Sym

CONT = ['Q1', 'Q2', 'Q3']
TORN = ['DQ0', 'DQ1', 'DQ2', 'DQ3']


def deg(etype):
    return int(etype[-1])


def key(p):
    return tuple(str(canon(c)) for c in p)


def canon(c):
    return Sym.of(c)


class Where(object):
    """physical positions of the local degrees of freedom, computed from the
    corners of the cell and the element's reference nodes"""

    def __init__(self, W, E, dim):
        self.W, self.E, self.dim = W, E, dim
        self.ref = tolist(W.m(E, 'reference_nodes'))

    def __call__(self, cell):
        W = self.W
        if self.dim == 1:
            x0 = Sym.of(coords(W, W.m(cell, 'base'))[0])
            x1 = Sym.of(coords(W, W.m(cell, 'head'))[0])
            return [[x0 + (x1 - x0) * frac(r[0])] for r in self.ref]
        P = corners(W, cell)
        out = []
        for r in self.ref:
            s, t = frac(r[0]), frac(r[1])
            w = [(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t]
            out.append([sum((Sym.of(P[v][c]) * w[v] for v in range(4)),
                            Sym.of(0)) for c in range(2)])
        return out


def frac(x):
    from fractions import Fraction
    if isinstance(x, Sym):
        x = x.const() if x.is_const() else x
    f = Fraction(float(x)).limit_denominator(1000)
    if abs(float(f) - float(x)) < 1e-9:
        return Sym.of(f)
    return Sym.of(x)


def all_cells(W, M):
    out = []

    def rec(c):
        out.append(c)
        if W.m(c, 'has_children') is True:
            for d in children(W, c):
                rec(d)
    for c in children(W, W.at(M, 'cells')):
        rec(c)
    return out


def leaves(W, M):
    return [c for c in all_cells(W, M) if W.m(c, 'has_children') is not True]


def numeric(c, cache={}):
    """fingerprint: value at fixed pseudo-random arguments"""
    c = Sym.of(c)
    if c.is_const():
        return float(c.const())
    m = {}
    for a in c.all_atoms():
        if a.fn is None:
            if a.name not in cache:
                import random
                cache[a.name] = random.Random(a.name).uniform(0.5, 1.5)
            m[Sym.var(a.name, a.positive)] = cache[a.name]
    return float(c.subs(m).const())


class Points(object):
    """classes of coinciding points (fingerprint buckets, exact test)"""

    def __init__(self, period=None):
        self.pts = []
        self.buckets = {}
        self.period = period

    def finger(self, p):
        out = []
        for n, c in enumerate(p):
            v = numeric(c)
            if self.period and self.period[n] is not None:
                a = numeric(Sym.var('ab'[n] if len(p) > 1 else 'a'))
                L = numeric(self.period[n])
                v = (v - a) % L
                if abs(v - L) < 1e-7:
                    v = 0.0
            out.append(round(v, 6) + 0.0)
        return tuple(out)

    def id(self, p):
        f = self.finger(p)
        for n in self.buckets.get(f, ()):
            if self.same(p, self.pts[n]):
                return n
        self.pts.append([Sym.of(c) for c in p])
        self.buckets.setdefault(f, []).append(len(self.pts) - 1)
        return len(self.pts) - 1

    def same(self, p, q):
        shifts = [[0]] * len(p)
        if self.period:
            shifts = [[0, s, -s] if s is not None else [0]
                      for s in self.period]
        return all(any((Sym.of(a) + s).equals(b, 1e-9) for s in sh)
                   for a, b, sh in zip(p, q, shifts))


def distribute(W, M, etype, dim):
    E = W.new('fem', 'QuadFE', dim, etype)
    D = W.new('fem', 'DofHandler', M, E)
    W.m(D, 'distribute_dofs')
    return E, D
