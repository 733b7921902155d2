"""Concrete meaning of the terms used in the contracts (float64 / integer arrays).

The same contract terms that the verifier compares symbolically are evaluated
here on concrete inputs: to turn a failed obligation into a concrete difference
and to evaluate contracts at run time against the built code.
"""
from fractions import Fraction
from math import factorial
import numpy as np
from .expr import P, Fm, Atom


class NoValue(Exception):
    pass


# ---------------------------------------------------------------- Bardell basis (independent definition)
def dfact(n):
    r = 1
    while n > 1:
        r *= n
        n -= 2
    return r


def bardell_poly(i):
    """coefficients (lowest first) of basis function i without the edge flag"""
    F = Fraction
    if i == 0:
        return [F(1, 2), F(-3, 4), F(0), F(1, 4)]
    if i == 1:
        return [F(1, 8), F(-1, 8), F(-1, 8), F(1, 8)]
    if i == 2:
        return [F(1, 2), F(3, 4), F(0), F(-1, 4)]
    if i == 3:
        return [F(-1, 8), F(-1, 8), F(1, 8), F(1, 8)]
    r = i + 1
    c = [F(0)] * (i + 1)
    for n in range(r // 2 + 1):
        p = r - 2 * n - 1
        if p < 0:
            continue
        c[p] += F((-1) ** n * dfact(2 * r - 2 * n - 7), 2 ** n * factorial(n) * factorial(p))
    return c


def pder(c, k):
    for _ in range(k):
        c = [c[n] * n for n in range(1, len(c))] or [Fraction(0)]
    return c


def pmul(a, b):
    r = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                if y:
                    r[i + j] += x * y
    return r


def pint(c):
    """integral over [-1, 1]"""
    return sum((2 * x / (n + 1) for n, x in enumerate(c) if n % 2 == 0), Fraction(0))


NB = 30
POLY = [bardell_poly(i) for i in range(NB)]
_dp = {}


def dpoly(i, p):
    k = (i, p)
    if k not in _dp:
        _dp[k] = pder(POLY[i], p)
    return _dp[k]


_gram = {}


def gram_exact(p, i, q, k):
    key = (p, i, q, k)
    if key not in _gram:
        _gram[key] = pint(pmul(dpoly(i, p), dpoly(k, q)))
    return _gram[key]


_gt = {}


def gram_table(p, q, nb):
    key = (p, q)
    t = _gt.get(key)
    if t is None or t.shape[0] < nb:
        t = np.array([[float(gram_exact(p, i, q, k)) for k in range(nb)] for i in range(nb)])
        _gt[key] = t
    return t


def flagval(i, fl):
    i, fl = np.broadcast_arrays(i, 0)[0], fl
    r = np.where(i == 0, fl[0], np.where(i == 1, fl[1], np.where(i == 2, fl[2], np.where(i == 3, fl[3], 1.0))))
    return r


def sc(x):
    return int(np.asarray(x).reshape(-1)[0])


def f_II(p, i, a1, a2, a3, a4, q, k, b1, b2, b3, b4):
    i = np.asarray(i, dtype=int)
    k = np.asarray(k, dtype=int)
    nb = int(max(i.max(), k.max())) + 1
    t = gram_table(sc(p), sc(q), nb)
    return t[i, k] * flagval(i, (a1, a2, a3, a4)) * flagval(k, (b1, b2, b3, b4))


def f_BF(p, i, x, a1, a2, a3, a4):
    i = np.asarray(i, dtype=int)
    x = np.asarray(x, dtype=float)
    i, x = np.broadcast_arrays(i, x)
    out = np.zeros(i.shape)
    for v in np.unique(i):
        c = [float(z) for z in dpoly(int(v), sc(p))]
        msk = i == v
        out[msk] = np.polynomial.polynomial.polyval(x[msk], c)
    return out * flagval(i, (a1, a2, a3, a4))


_lg = {}


def leg(n):
    if n not in _lg:
        _lg[n] = np.polynomial.legendre.leggauss(n)
    return _lg[n]


def f_GX(n, k):
    return leg(sc(n))[0][np.asarray(k, dtype=int)]


def f_GW(n, k):
    return leg(sc(n))[1][np.asarray(k, dtype=int)]


def f_max(*a):
    r = a[0]
    for x in a[1:]:
        r = np.maximum(r, x)
    return r


def f_min(*a):
    r = a[0]
    for x in a[1:]:
        r = np.minimum(r, x)
    return r


FUNCS = {'II': f_II, 'BF': f_BF, 'GX': f_GX, 'GW': f_GW, 'sqrt': np.sqrt, 'abs': np.abs, 'sin': np.sin, 'cos': np.cos,
         'pow': lambda a, b: np.power(np.asarray(a, dtype=float), b), 'max': f_max, 'min': f_min,
         'mod': lambda a, b: np.mod(a, b), 'floordiv': lambda a, b: np.floor_divide(a, b),
         'cdiv': lambda a, b: np.trunc(np.asarray(a) / b).astype(int), 'trunc': lambda a: np.trunc(a).astype(int),
         'exactdiv': lambda a, b: np.asarray(a) // b, 'deg2rad': np.deg2rad, 'tan': np.tan}


class Eval:
    """env: dict symbol name -> number / array ; lookup(name) may supply missing symbols; funcs: extra functions"""

    def __init__(self, env, funcs=None, lookup=None):
        self.env = dict(env)
        self.funcs = dict(FUNCS)
        if funcs:
            self.funcs.update(funcs)
        self.lookup = lookup
        self.memo = {}

    def p(self, p):
        tot = 0
        for m, c in p.t.items():
            t = int(c) if c.denominator == 1 else float(c)
            for a, e in m:
                v = self.atom(a)
                if e == 1:
                    t = t * v
                elif e > 1:
                    t = t * v ** e
                else:
                    t = t / (np.asarray(v, dtype=float) ** (-e))
            tot = tot + t
        return tot

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        k, d = a.kind, a.data
        if k == 'sym':
            if d in self.env:
                r = self.env[d]
            elif self.lookup is not None:
                r = self.lookup(d, a)
                self.env[d] = r
            else:
                raise NoValue('symbol ' + d)
        elif k == 'app':
            f = self.funcs.get(d[0])
            if f is None:
                raise NoValue('function ' + d[0])
            r = f(*[self.arg(x) for x in d[1]])
        elif k == 'ind':
            r = np.where(self.f(d), 1, 0)
        elif k == 'inv':
            r = 1.0 / np.asarray(self.p(d), dtype=float)
        elif k == 'sum':
            r = self.sum(list(d[0]), d[1])
        self.memo[a] = r
        return r

    def arg(self, x):
        if isinstance(x, P):
            return self.p(x)
        if isinstance(x, Fm):
            return self.f(x)
        return x

    def sum(self, binders, mono):
        tot = 0
        if not binders:
            t = 1
            for a, e in mono:
                v = self.atom(a)
                t = t * (v ** e if e >= 0 else 1.0 / np.asarray(v, dtype=float) ** (-e))
            return t
        # choose a binder whose bounds do not depend on the others
        bs = set(b for b, _, _ in binders)
        for n, (b, lo, hi) in enumerate(binders):
            if not ((lo.free | hi.free) & bs):
                break
        else:
            raise NoValue('cyclic bounds')
        rest = binders[:n] + binders[n + 1:]
        l, h = self.p(lo), self.p(hi)
        l, h = int(np.max(l)) if np.ndim(l) == 0 else l, h
        if np.ndim(l) or np.ndim(h):
            l2, h2 = int(np.min(l)), int(np.max(h))
            for v in range(l2, h2):
                ev = self.child({b.data: v})
                tot = tot + np.where((np.asarray(l) <= v) & (v < np.asarray(h)), ev.sum(rest, mono), 0)
            return tot
        for v in range(int(l), int(h)):
            ev = self.child({b.data: v})
            tot = tot + ev.sum(rest, mono)
        return tot

    def child(self, upd):
        ev = Eval.__new__(Eval)
        ev.env = dict(self.env)
        ev.env.update(upd)
        ev.funcs = self.funcs
        ev.lookup = self.lookup
        bad = set(upd)
        ev.memo = {a: v for a, v in self.memo.items() if not any(s.data in bad for s in a.free)}
        return ev

    def f(self, f):
        k, d = f.kind, f.data
        if k == 'true':
            return True
        if k == 'ge':
            return np.asarray(self.p(d)) >= 0
        if k == 'eq':
            return np.asarray(self.p(d)) == 0
        if k == 'not':
            return np.logical_not(self.f(d))
        if k == 'and':
            r = True
            for x in d:
                r = np.logical_and(r, self.f(x))
            return r
        raise NoValue('predicate %s' % (d,))
