"""Exact term algebra of the verifier.

A value is a Laurent polynomial `P` with rational coefficients over hash-consed
atoms.  Atoms are symbols, applications of uninterpreted (or normalised)
functions, finite sums over integer ranges (alpha-canonical), indicator
functions of formulas, and reciprocals of non-monomial polynomials.  Two values
are provably equal when their normal forms coincide; no floating point is used
anywhere in this file.
"""
from fractions import Fraction
from itertools import permutations
import sys
sys.setrecursionlimit(20000)

F0 = Fraction(0)
F1 = Fraction(1)


class Atom:
    __slots__ = ('kind', 'data', 'id', '_free', '_key', 'is_int', 'depth', 'nonneg')
    table = {}
    counter = 0

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    @property
    def key(self):
        if self._key is None:
            k, d = self.kind, self.data
            if k == 'sym':
                s = d
            elif k == 'app':
                s = d[0] + '(' + ','.join(argkey(x) for x in d[1]) + ')'
            elif k == 'sum':
                s = 'SUM{' + ','.join('%s:%s..%s' % (b.key, lo.key, hi.key) for b, lo, hi in d[0]) + '}[' + monokey(d[1]) + ']'
            elif k == 'ind':
                s = '[' + d.key + ']'
            elif k == 'inv':
                s = '1/(' + d.key + ')'
            else:
                raise AssertionError(k)
            self._key = s
        return self._key

    @property
    def free(self):
        if self._free is None:
            k, d = self.kind, self.data
            if k == 'sym':
                r = frozenset([self])
            elif k == 'app':
                r = frozenset()
                for x in d[1]:
                    if isinstance(x, (P, Fm)):
                        r |= x.free
            elif k == 'sum':
                r = frozenset()
                for a, e in d[1]:
                    r |= a.free
                bs = frozenset(b for b, lo, hi in d[0])
                r -= bs
                for b, lo, hi in d[0]:
                    r |= (lo.free | hi.free) - bs
            else:
                r = d.free
            self._free = r
        return self._free

    def __repr__(self):
        return self.key


def argkey(x):
    return x.key if isinstance(x, (P, Fm)) else repr(x)


def monokey(m):
    return '*'.join(sorted(a.key + ('' if e == 1 else '^%d' % e) for a, e in m)) or '1'


def _mk(kind, data, is_int=False, depth=0, nonneg=False):
    k = (kind, data)
    a = Atom.table.get(k)
    if a is None:
        a = Atom()
        a.kind = kind
        a.data = data
        a._free = None
        a._key = None
        a.is_int = is_int
        a.depth = depth
        a.nonneg = nonneg
        Atom.counter += 1
        a.id = Atom.counter
        Atom.table[k] = a
    return a


class P:
    """Immutable Laurent polynomial: dict monomial -> Fraction."""
    __slots__ = ('t', '_h', '_free', '_key', '_depth')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._free = None
        self._key = None
        self._depth = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    @property
    def free(self):
        if self._free is None:
            r = set()
            seen = set()
            for m in self.t:
                for a, e in m:
                    if a.id not in seen:
                        seen.add(a.id)
                        r |= a.free
            self._free = frozenset(r)
        return self._free

    @property
    def depth(self):
        if self._depth is None:
            self._depth = max([a.depth for m in self.t for a, e in m] or [0])
        return self._depth

    @property
    def key(self):
        if self._key is None:
            ts = []
            for m, c in self.t.items():
                ts.append((monokey(m), c))
            ts.sort(key=lambda x: (x[0], x[1]))
            self._key = ' + '.join(('%s*%s' % (c, k)) if k != '1' else str(c) for k, c in ts) or '0'
        return self._key

    def __repr__(self):
        return self.key

    # -- predicates
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), F0)

    def is_zero(self):
        return not self.t

    def is_int(self):
        return all(c.denominator == 1 and all(a.is_int and e >= 0 for a, e in m) for m, c in self.t.items())

    def as_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    # -- arithmetic
    def __add__(self, o):
        if getattr(o, 'is_tree', False):
            return NotImplemented
        o = lift(o)
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return P(r)
    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if getattr(o, 'is_tree', False):
            return NotImplemented
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        if getattr(o, 'is_tree', False):
            return NotImplemented
        o = lift(o)
        if not self.t or not o.t:
            return ZERO
        if len(self.t) == 1 and () in self.t:
            c0 = self.t[()]
            return o if c0 == 1 else P({m: c * c0 for m, c in o.t.items()})
        if len(o.t) == 1 and () in o.t:
            c0 = o.t[()]
            return self if c0 == 1 else P({m: c * c0 for m, c in self.t.items()})
        if len(self.t) * len(o.t) > MAXTERMS[0]:
            raise TooBig('polynomial too large')
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                c = c1 * c2
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v = v + c
                    if v:
                        r[m] = v
                    else:
                        del r[m]
        return fix_inv(P(r))
    __rmul__ = __mul__

    def inverse(self):
        if not self.t:
            raise ZeroDivisionError('division by zero polynomial')
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if any(a.kind == 'ind' for a, e in m):
                pass
            else:
                return fix_inv(P({tuple((a, -e) for a, e in m): 1 / c}))
        # factor out the content and the monomial gcd
        it = iter(self.t.items())
        mins = None
        for m, c in self.t.items():
            d = {a: e for a, e in m if a.kind != 'ind'}
            if mins is None:
                mins = d
            else:
                mins = {a: min(e, d.get(a, 0)) for a, e in mins.items()} | {a: min(0, e) for a, e in d.items() if a not in mins}
        mins = {a: e for a, e in mins.items() if e}
        lead = min(self.t.items(), key=lambda x: monokey(x[0]))[1]
        gm = tuple(sorted((a, -e) for a, e in mins.items()))
        body = P({mmul(m, gm): c / lead for m, c in self.t.items()})
        if len(body.t) == 1:
            return P({gm: 1 / lead}) * body.inverse()
        inv = _mk('inv', body, depth=body.depth)
        return P({mmul(gm, ((inv, 1),)): 1 / lead})

    def __truediv__(self, o):
        if getattr(o, 'is_tree', False):
            return NotImplemented
        o = lift(o)
        if o.is_const():
            if not o.t:
                raise ZeroDivisionError('division by zero')
            return self * (1 / o.const())
        return self * o.inverse()

    def __rtruediv__(self, o):
        return lift(o) / self

    def __pow__(self, n):
        if isinstance(n, P):
            if not n.is_const():
                return app('pow', self, n)
            n = n.const()
        n = Fraction(n)
        if n.denominator != 1:
            return app('pow', self, const(n))
        n = int(n)
        if n < 0:
            return (self ** (-n)).inverse()
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s


MAXTERMS = [4000000]


class TooBig(Exception):
    pass


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    r = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a is b:
            if a.kind == 'ind':
                r.append((a, 1))
            else:
                g = e + f
                if g:
                    r.append((a, g))
            i += 1
            j += 1
        elif a.id < b.id:
            r.append((a, e))
            i += 1
        else:
            r.append((b, f))
            j += 1
    if i < n1:
        r.extend(m1[i:])
    if j < n2:
        r.extend(m2[j:])
    return tuple(r)


def fix_inv(p):
    """inv atoms with negative powers are expanded back to their polynomial."""
    bad = False
    for m in p.t:
        for a, e in m:
            if a.kind == 'inv' and e < 0:
                bad = True
    if not bad:
        return p
    r = ZERO
    for m, c in p.t.items():
        good = tuple((a, e) for a, e in m if not (a.kind == 'inv' and e < 0))
        q = P({good: c})
        for a, e in m:
            if a.kind == 'inv' and e < 0:
                q = q * (a.data ** (-e))
        r = r + q
    return r


def const(c):
    c = Fraction(c)
    return P({(): c}) if c else ZERO


ZERO = P({})
ONE = P({(): F1})


def lift(x):
    if isinstance(x, P):
        return x
    if TREE[0]:
        from .tree import T
        return T(x)
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return const(Fraction(repr(x)))
    if isinstance(x, Atom):
        return P({((x, 1),): F1})
    if isinstance(x, Fm):
        return ind(x)
    raise TypeError('cannot lift %r' % (x,))


TREE = [False]      # contracts are being evaluated: build unexpanded terms (tree.py)


def sym(name, is_int=False):
    if TREE[0]:
        from .tree import Tree
        return Tree('sym', name)
    return P({((_mk('sym', name, is_int=is_int), 1),): F1})


def symatom(name, is_int=False):
    return _mk('sym', name, is_int=is_int)


_fresh = [0]


def fresh(prefix, is_int=False):
    _fresh[0] += 1
    return sym('%s~%d' % (prefix, _fresh[0]), is_int)


# function name -> normaliser(args) -> P   (or None for the generic application)
NORMALISERS = {}
INT_FUNCS = set()


def app(fn, *args):
    args = tuple(args)
    if TREE[0]:
        from .tree import Tree
        return Tree('app', fn, args)
    nz = NORMALISERS.get(fn)
    if nz is not None:
        r = nz(args)
        if isinstance(r, P):
            return r
        if r is not None:
            args = r
    return rawapp(fn, args)


def rawapp(fn, args):
    d = 0
    for x in args:
        if isinstance(x, (P, Fm)):
            d = max(d, x.depth)
    return P({((_mk('app', (fn, args), is_int=fn in INT_FUNCS, depth=d), 1),): F1})


# ---------------------------------------------------------------- formulas
class Fm:
    """Quantifier free formula. kinds: 'ge' (P>=0), 'eq' (P==0), 'not', 'and', 'or', 'pred' (uninterpreted)"""
    __slots__ = ('kind', 'data', '_key', '_free')
    table = {}

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    @property
    def key(self):
        if self._key is None:
            k, d = self.kind, self.data
            if k == 'true':
                s = 'true'
            elif k == 'ge':
                s = d.key + ' >= 0'
            elif k == 'eq':
                s = d.key + ' == 0'
            elif k == 'not':
                s = '!(' + d.key + ')'
            elif k == 'pred':
                s = d[0] + '(' + ','.join(argkey(x) for x in d[1]) + ')'
            else:
                s = '(' + (' %s ' % k).join(sorted(x.key for x in d)) + ')'
            self._key = s
        return self._key

    @property
    def free(self):
        if self._free is None:
            k, d = self.kind, self.data
            if k == 'true':
                r = frozenset()
            elif k in ('ge', 'eq', 'not'):
                r = d.free
            elif k == 'pred':
                r = frozenset()
                for x in d[1]:
                    if isinstance(x, (P, Fm)):
                        r |= x.free
            else:
                r = frozenset()
                for x in d:
                    r |= x.free
            self._free = r
        return self._free

    @property
    def depth(self):
        k, d = self.kind, self.data
        if k == 'true':
            return 0
        if k in ('ge', 'eq', 'not'):
            return d.depth
        if k == 'pred':
            return max([x.depth for x in d[1] if isinstance(x, (P, Fm))] or [0])
        return max([x.depth for x in d] or [0])

    def __repr__(self):
        return self.key


def _fm(kind, data):
    k = (kind, data)
    f = Fm.table.get(k)
    if f is None:
        f = Fm()
        f.kind = kind
        f.data = data
        f._key = None
        f._free = None
        Fm.table[k] = f
    return f


TRUE = _fm('true', ())
FALSE = _fm('not', TRUE)


def f_not(f):
    if TREE[0]:
        from .tree import Tree
        return Tree('not', f)
    if f.kind == 'not':
        return f.data
    return _fm('not', f)


def f_and(*fs):
    if TREE[0]:
        from .tree import Tree
        fs = [f for f in fs if f is not TRUE]
        return Tree('and', *fs) if fs else Tree('eq', Tree('num', 0), Tree('num', 0))
    s = []
    for f in fs:
        if f is TRUE:
            continue
        if f is FALSE:
            return FALSE
        for g in (f.data if f.kind == 'and' else (f,)):
            if g not in s:
                s.append(g)
    for g in s:
        if f_not(g) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return _fm('and', tuple(sorted(s, key=lambda x: x.key)))


def f_or(*fs):
    return f_not(f_and(*[f_not(f) for f in fs]))


def _content(p):
    from math import gcd
    num = 0
    den = 1
    for c in p.t.values():
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    return Fraction(num, den)


def f_ge0(p):
    """p >= 0"""
    if p.is_const():
        return TRUE if p.const() >= 0 else FALSE
    c = _content(p)
    if p.is_int() or True:
        # integer tightening: a*q + k >= 0 with integer q  <=>  q + floor(k/a) >= 0
        k = p.const()
        rest = p - const(k)
        if rest.is_int() and k.denominator == 1:
            cr = _content(rest)
            import math
            return _fm('ge', rest * (1 / cr) + const(math.floor(k / cr)))
    return _fm('ge', p * (1 / c))


def f_le(a, b):
    if TREE[0]:
        from .tree import Tree, T
        return Tree('le', T(a), T(b))
    return f_ge0(b - a)


def f_lt(a, b):
    if TREE[0]:
        from .tree import Tree, T
        return Tree('lt', T(a), T(b))
    d = b - a
    if d.is_int():
        return f_ge0(d - 1)
    return f_not(f_ge0(-d))


def f_eq(a, b):
    if TREE[0]:
        from .tree import Tree, T
        return Tree('eq', T(a), T(b))
    d = a - b
    if d.is_const():
        return TRUE if d.is_zero() else FALSE
    c = _content(d)
    lead = min(d.t.items(), key=lambda x: monokey(x[0]))[1]
    if lead < 0:
        c = -c
    d = d * (1 / c)
    if d.is_int() is False and all(a_.is_int and e >= 0 for m in d.t for a_, e in m):
        return FALSE if any(c.denominator != 1 and m == () for m, c in d.t.items()) and all(c.denominator == 1 for m, c in d.t.items() if m != ()) else _fm('eq', d)
    return _fm('eq', d)


def f_pred(name, *args):
    return _fm('pred', (name, tuple(args)))


def ind(f):
    if getattr(f, 'is_tree', False):
        from .tree import Tree
        return Tree('ind', f)
    if f is TRUE:
        return ONE
    if f is FALSE:
        return ZERO
    if f.kind == 'not':
        return ONE - ind(f.data)
    if f.kind == 'and':
        r = ONE
        for g in f.data:
            r = r * ind(g)
        return r
    return P({((_mk('ind', f, is_int=True, depth=f.depth, nonneg=True), 1),): F1})


# ---------------------------------------------------------------- sums
def mk_sum(b, lo, hi, p):
    """sum over integer b in [lo, hi) of p  (b is a symbol Atom)"""
    if TREE[0]:
        from .tree import Tree
        return ZERO if p.is_zero() else Tree('sum', b, lo, hi, p)
    if not p.t:
        return ZERO
    r = ZERO
    n = hi - lo
    if n.is_zero():
        return ZERO
    acc = {}
    for m, c in p.t.items():
        ins = []
        outs = []
        for a, e in m:
            (ins if b in a.free else outs).append((a, e))
        if not ins:
            q = P({tuple(outs): c}) * n
        else:
            # indicator of equality b == t eliminates the binder
            el = None
            for a, e in ins:
                if a.kind == 'ind' and a.data.kind == 'eq' and e == 1:
                    t = solve_for(a.data.data, b)
                    if t is not None:
                        el = (a, t)
                        break
            if el is not None:
                a, t = el
                rest = P({tuple(x for x in m if x[0] is not a): c})
                q = subst(rest, {b: t}) * ind(f_and(f_le(lo, t), f_lt(t, hi)))
            else:
                q = P({tuple(outs): c}) * _sum_mono([(b, lo, hi)], ins)
        for m2, c2 in q.t.items():
            v = acc.get(m2)
            if v is None:
                acc[m2] = c2
            else:
                v += c2
                if v:
                    acc[m2] = v
                else:
                    del acc[m2]
    return P(acc)


def solve_for(p, b):
    """p == 0 linear in b with constant coefficient: return b's value."""
    coef = None
    rest = ZERO
    for m, c in p.t.items():
        if any(b in a.free for a, e in m):
            if m == ((b, 1),):
                coef = c
            else:
                return None
        else:
            rest = rest + P({m: c})
    if coef is None:
        return None
    t = rest * (-1 / coef)
    if not t.is_int():
        return None
    return t


def _sum_mono(binders, ins):
    """product of atoms (all mention the binder) summed; flattening nested sums."""
    factors = []
    binders = list(binders)
    bset = set(x[0] for x in binders)
    for a, e in ins:
        if a.kind == 'sum' and e == 1:
            # rename inner binders apart, then merge
            sub = {}
            nb = []
            for (b2, lo2, hi2) in a.data[0]:
                f = fresh('s', True).as_atom()
                sub[b2] = lift(f)
                nb.append((f, lo2, hi2))
            nb = [(f, subst(lo2, sub), subst(hi2, sub)) for f, lo2, hi2 in nb]
            inner = P({a.data[1]: F1})
            q = subst(inner, sub)
            if len(q.t) == 1:
                (m2, c2), = q.t.items()
                assert c2 == 1
                binders.extend(nb)
                factors.extend(m2)
                continue
        factors.append((a, e))
    # re-multiply factors (equal atoms may have appeared)
    mm = ()
    for a, e in sorted(factors, key=lambda x: x[0].id):
        mm = mmul(mm, ((a, e),))
    return _canon_sum(binders, mm)


def _canon_sum(binders, mono):
    # connected components over shared binders
    bl = [x[0] for x in binders]
    comp = {b: i for i, b in enumerate(bl)}

    def union(x, y):
        cx, cy = comp[x], comp[y]
        if cx != cy:
            for k in comp:
                if comp[k] == cy:
                    comp[k] = cx
    fb = {}
    for a, e in mono:
        us = [b for b in bl if b in a.free]
        fb[a] = us
        for u in us[1:]:
            union(us[0], u)
    for b, lo, hi in binders:
        for o in bl:
            if o is not b and (o in lo.free or o in hi.free):
                union(b, o)
    res = ONE
    done = set()
    for b in bl:
        cid = comp[b]
        if cid in done:
            continue
        done.add(cid)
        bs = [x for x in binders if comp[x[0]] == cid]
        ms = tuple((a, e) for a, e in mono if fb[a] and comp[fb[a][0]] == cid)
        if not ms:
            t = ONE
            for (_, lo, hi) in bs:
                t = t * (hi - lo)
            res = res * t
        else:
            res = res * _canon_comp(bs, ms)
    free = tuple((a, e) for a, e in mono if not fb[a])
    if free:
        res = res * P({free: F1})
    return res


def _canon_comp(bs, ms):
    depth = 1 + max([a.depth for a, e in ms] + [max(lo.depth, hi.depth) for _, lo, hi in bs])
    # group binders by bound keys (bounds may mention other binders: use generic key then)
    bset = set(b for b, _, _ in bs)

    def gkey(x):
        b, lo, hi = x
        k = (lo.key if not (lo.free & bset) else '?') + '..' + (hi.key if not (hi.free & bset) else '?')
        # signature: occurrences in factors by function name
        sig = []
        for a, e in ms:
            if b in a.free:
                nm = a.data[0] if a.kind == 'app' else a.kind
                pos = ''
                if a.kind == 'app':
                    pos = ','.join(str(i) for i, y in enumerate(a.data[1]) if isinstance(y, P) and b in y.free)
                sig.append('%s@%s^%d' % (nm, pos, e))
        return (k, tuple(sorted(sig)))
    groups = {}
    for x in bs:
        groups.setdefault(gkey(x), []).append(x)
    orders = [[]]
    for k in sorted(groups):
        g = groups[k]
        if len(g) > 5:
            raise TooBig('too many binders')
        orders = [o + list(pm) for o in orders for pm in permutations(g)]
    best = None
    for o in orders:
        sub = {}
        for i, (b, lo, hi) in enumerate(o):
            sub[b] = lift(symatom('$%d_%d' % (depth, i), True))
        nb = tuple((sub[b].as_atom(), subst(lo, sub), subst(hi, sub)) for b, lo, hi in o)
        q = subst(P({ms: F1}), sub)
        if len(q.t) != 1:
            raise TooBig('sum body not monomial after renaming')
        (m2, c2), = q.t.items()
        k = (tuple((x[0].key, x[1].key, x[2].key) for x in nb), monokey(m2)) if len(orders) > 1 else None
        if best is None or k < best[0]:
            best = (k, nb, m2, c2)
    _, nb, m2, c2 = best
    isint = all(a.is_int and e > 0 for a, e in m2)
    a = _mk('sum', (nb, m2), is_int=isint, depth=depth)
    return P({((a, 1),): c2})


# ---------------------------------------------------------------- substitution
def subst(x, s, memo=None):
    if not s:
        return x
    if memo is None:
        memo = {}
    if isinstance(x, P):
        keys = s.keys()
        if not (x.free & keys):
            return x
        r = {}
        rest = ZERO
        for m, c in x.t.items():
            hit = False
            for a, e in m:
                if not a.free.isdisjoint(keys):
                    hit = True
                    break
            if not hit:
                v = r.get(m)
                r[m] = c if v is None else v + c
            else:
                keep = []
                q = None
                for a, e in m:
                    if a.free.isdisjoint(keys):
                        keep.append((a, e))
                    else:
                        t = subst_atom(a, s, memo)
                        if e < 0:
                            t = t ** (-e)
                            t = t.inverse()
                        elif e > 1:
                            t = t ** e
                        q = t if q is None else q * t
                q = P({tuple(keep): c}) * q
                for m2, c2 in q.t.items():
                    v = r.get(m2)
                    r[m2] = c2 if v is None else v + c2
        return P({m: c for m, c in r.items() if c})
    if isinstance(x, Fm):
        return subst_fm(x, s, memo)
    if isinstance(x, tuple):
        return tuple(subst(y, s, memo) for y in x)
    if isinstance(x, list):
        return [subst(y, s, memo) for y in x]
    return x


def subst_atom(a, s, memo):
    r = memo.get(a)
    if r is not None:
        return r
    k, d = a.kind, a.data
    if k == 'sym':
        r = s.get(a)
        if r is None:
            r = lift(a)
    elif k == 'app':
        r = app(d[0], *[subst(y, s, memo) for y in d[1]])
    elif k == 'ind':
        r = ind(subst_fm(d, s, memo))
    elif k == 'inv':
        r = subst(d, s, memo).inverse()
    elif k == 'sum':
        bs = [b for b, _, _ in d[0]]
        s2 = {v: t for v, t in s.items() if v not in bs}
        ren = {}
        # rename binders apart to avoid capture
        nb = []
        for b, lo, hi in d[0]:
            f = fresh('s', True).as_atom()
            ren[b] = lift(f)
            nb.append(f)
        full = dict(s2)
        full.update(ren)
        body = subst(P({d[1]: F1}), full, {})
        r = body
        bl = [(nb[i], subst(lo, full, {}), subst(hi, full, {})) for i, (b, lo, hi) in enumerate(d[0])]
        for b, lo, hi in reversed(bl):
            r = mk_sum(b, lo, hi, r)
    else:
        raise AssertionError(k)
    memo[a] = r
    return r


def subst_fm(f, s, memo=None):
    if memo is None:
        memo = {}
    if f.free.isdisjoint(s.keys()):
        return f
    k, d = f.kind, f.data
    if k == 'ge':
        return f_ge0(subst(d, s, memo))
    if k == 'eq':
        return f_eq(subst(d, s, memo), ZERO)
    if k == 'not':
        return f_not(subst_fm(d, s, memo))
    if k == 'and':
        return f_and(*[subst_fm(x, s, memo) for x in d])
    if k == 'pred':
        return f_pred(d[0], *[subst(x, s, memo) for x in d[1]])
    raise AssertionError(k)


def map_atoms(p, fn):
    """rewrite every top-level atom a of p by fn(a) (a P or None to keep)."""
    r = ZERO
    for m, c in p.t.items():
        q = P({(): c})
        keep = []
        for a, e in m:
            t = fn(a)
            if t is None:
                keep.append((a, e))
            else:
                q = q * (t ** e)
        r = r + q * P({tuple(keep): F1})
    return r


def diff(p, a):
    """derivative with respect to a symbol atom occurring only polynomially at top level."""
    r = ZERO
    for m, c in p.t.items():
        for idx, (b, e) in enumerate(m):
            if b is a:
                nm = list(m)
                if e == 1:
                    nm.pop(idx)
                else:
                    nm[idx] = (b, e - 1)
                r = r + P({tuple(nm): c * e})
            elif a in b.free:
                raise ValueError('derivative through %r' % b)
    return r
