"""Unexpanded terms, for evaluating contracts on concrete inputs.

With expr.TREE set, the constructors used by the contracts build these trees instead of normal forms; they are
evaluated with numpy arrays whose axes are labelled by the bound variables.
"""
from fractions import Fraction
import numpy as np


class Lab:
    """array with named axes"""
    __slots__ = ('v', 'ax')

    def __init__(self, v, ax):
        self.v, self.ax = v, ax


def lab(x):
    return x if isinstance(x, Lab) else Lab(np.asarray(x), ())


def align(xs):
    xs = [lab(x) for x in xs]
    ax = []
    for x in xs:
        for a in x.ax:
            if a not in ax:
                ax.append(a)
    out = []
    for x in xs:
        if x.ax == tuple(ax):
            out.append(x.v)
            continue
        order = [x.ax.index(a) for a in ax if a in x.ax]
        v = np.transpose(x.v, order) if x.ax else x.v
        idx = tuple(slice(None) if a in x.ax else None for a in ax)
        out.append(v[idx] if x.ax or ax else v)
    return out, tuple(ax)


def ap(fn, *xs):
    vs, ax = align(xs)
    r = np.asarray(fn(*vs))
    shp = np.broadcast_shapes(*[v.shape for v in vs]) if vs else ()
    if r.shape != shp:
        r = np.broadcast_to(r, shp)
    return Lab(r, ax)


class Tree:
    """kind: num sym app add mul div pow sum ind le lt eq and not"""
    __slots__ = ('kind', 'a')
    is_tree = True

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __add__(self, o):
        o = T(o)
        if o.is_zero():
            return self
        if self.is_zero():
            return o
        return Tree('add', self, o)
    __radd__ = __add__

    def __neg__(self):
        return Tree('mul', num(-1), self)

    def __sub__(self, o):
        return self + (-T(o))

    def __rsub__(self, o):
        return T(o) + (-self)

    def __mul__(self, o):
        o = T(o)
        if o.is_zero() or self.is_zero():
            return num(0)
        if o.is_one():
            return self
        if self.is_one():
            return o
        return Tree('mul', self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Tree('div', self, T(o))

    def __rtruediv__(self, o):
        return Tree('div', T(o), self)

    def __pow__(self, n):
        return Tree('pow', self, T(n))

    def is_zero(self):
        return self.kind == 'num' and self.a[0] == 0

    def is_one(self):
        return self.kind == 'num' and self.a[0] == 1

    def is_const(self):
        return self.kind == 'num'

    def const(self):
        return self.a[0]

    def as_atom(self):
        return self

    @property
    def data(self):
        return self.a[0]

    def __repr__(self):
        return '%s%r' % (self.kind, self.a)


def num(c):
    return Tree('num', c)


def T(x):
    if isinstance(x, Tree):
        return x
    if isinstance(x, (int, float, Fraction, np.integer, np.floating)):
        return num(x)
    if hasattr(x, 't') and hasattr(x, 'as_atom'):      # P
        if x.is_const():
            return num(x.const())
        return Tree('P', x)
    raise TypeError('cannot use %r in a contract term' % (x,))


class TEval:
    """env: symbol -> number or Lab"""

    def __init__(self, env, funcs):
        self.env, self.funcs = dict(env), funcs
        self.memo = {}
        self.ranges = {}

    def __call__(self, t):
        return self.ev(T(t))

    def scalar(self, t):
        r = self.ev(T(t))
        if r.ax:
            raise ValueError('bound depends on an index')
        return r.v.reshape(-1)[0]

    def ev(self, t):
        r = self.memo.get(id(t))
        if r is None:
            r = (self.ev2(t), t)
            self.memo[id(t)] = r
        return r[0]

    def ev2(self, t):
        k, a = t.kind, t.a
        if k == 'num':
            c = a[0]
            return lab(int(c) if isinstance(c, Fraction) and c.denominator == 1 else float(c) if isinstance(c, Fraction) else c)
        if k == 'sym':
            if a[0] in self.ranges:
                lo, hi = self.ranges[a[0]]
                return Lab(np.arange(lo, hi), (a[0],))
            return lab(self.env[a[0]])
        if k == 'P':
            from . import numeval
            return lab(numeval.Eval({n: v for n, v in self.env.items() if not isinstance(v, Lab)}, self.funcs).p(a[0]))
        if k == 'add':
            return ap(np.add, self.ev(a[0]), self.ev(a[1]))
        if k == 'mul':
            return ap(np.multiply, self.ev(a[0]), self.ev(a[1]))
        if k == 'div':
            return ap(lambda x, y: np.asarray(x, dtype=float) / y, self.ev(a[0]), self.ev(a[1]))
        if k == 'pow':
            return ap(lambda x, y: np.power(np.asarray(x, dtype=float), y), self.ev(a[0]), self.ev(a[1]))
        if k == 'app':
            f = self.funcs.get(a[0])
            if f is None:
                from . import numeval
                f = numeval.FUNCS.get(a[0])
            if f is None:
                raise KeyError(a[0])
            args = []
            names = []
            for x in a[1]:
                args.append(self.ev(T(x)))
            return ap(f, *args)
        if k == 'sum':
            b, lo, hi, body = a
            n = b.a[0]
            l, h = int(self.scalar(lo)), int(self.scalar(hi))
            self.ranges[n] = (l, h)
            v = self.ev(body)
            if n not in v.ax:
                return ap(np.multiply, v, lab(max(h - l, 0)))
            i = v.ax.index(n)
            return Lab(v.v.sum(axis=i), v.ax[:i] + v.ax[i + 1:])
        if k in ('le', 'lt', 'eq'):
            f = {'le': np.less_equal, 'lt': np.less, 'eq': np.equal}[k]
            return ap(f, self.ev(a[0]), self.ev(a[1]))
        if k == 'and':
            return ap(lambda *x: np.logical_and.reduce(np.broadcast_arrays(*x)) if len(x) > 1 else x[0], *[self.ev(x) for x in a])
        if k == 'not':
            return ap(np.logical_not, self.ev(a[0]))
        if k == 'ind':
            return ap(lambda x: np.where(x, 1, 0), self.ev(a[0]))
        raise KeyError(k)
