"""Contracts of functions: one description used by the verifier (symbolic) and by the run-time evaluation (concrete).

A Contract names a function of the repository, its inputs (with preconditions), and what its result must be, as terms
over the inputs.  prove() generates and discharges the obligations from the current source; run() evaluates the same
terms on concrete inputs against the built code.
"""
import random
from fractions import Fraction
import numpy as np
from .expr import *
from . import kern as K
from . import numeval
from . import expr as E
from . import tree as TR


# ------------------------------------------------------------------ inputs
class Arg:
    def symbolic(self, ex):
        raise NotImplementedError

    def facts(self):
        return []

    def sample(self, env, rng):
        pass

    def concrete(self, env):
        raise NotImplementedError


def get(env, name):
    return env[name]


class Int(Arg):
    def __init__(self, name, lo=0, value=None):
        self.name, self.lo, self.value = name, lo, value

    def symbolic(self, ex):
        return sym(self.name, True) if self.value is None else const(self.value)

    def facts(self):
        return [f_le(const(self.lo), sym(self.name, True))] if self.value is None else []

    def sample(self, env, rng):
        if self.value is None and self.name not in env:
            env[self.name] = rng.randint(max(self.lo, 1), self.lo + 4)

    def concrete(self, env):
        return int(env[self.name]) if self.value is None else self.value


class Size(Arg):
    """size of the global matrix: at least what is needed"""
    def __init__(self, need, name='size'):
        self.name, self.need = name, need

    def symbolic(self, ex):
        return sym(self.name, True)

    def facts(self):
        s = sym(self.name, True)
        return [f_le(n, s) for n in self.need]

    def sample(self, env, rng):
        pass

    def late(self, env, rng):
        ev = evaluator(env)
        need = max(int(ev.p(n)) for n in self.need)
        if self.name not in env or env[self.name] < need:
            env[self.name] = need + rng.choice([0, 0, 1, 3])

    def concrete(self, env):
        return int(env[self.name])


class Base(Arg):
    """first row/column: a multiple of the number of degrees of freedom"""
    def __init__(self, name, dof=3):
        self.name, self.dof = name, dof

    @property
    def term(self):
        return self.dof * sym(self.name, True)

    def symbolic(self, ex):
        return self.term

    def facts(self):
        return [f_le(ZERO, sym(self.name, True))]

    def sample(self, env, rng):
        if self.name not in env:
            env[self.name] = rng.choice([0, 0, 1, 2, 5])

    def concrete(self, env):
        return self.dof * int(env[self.name])


class SameBase(Base):
    def sample(self, env, rng):
        Base.sample(self, env, rng)


class Real(Arg):
    def __init__(self, name, lo=-2.0, hi=2.0):
        self.name, self.lo, self.hi = name, lo, hi

    def symbolic(self, ex):
        return sym(self.name)

    def sample(self, env, rng):
        if self.name not in env:
            env[self.name] = rng.uniform(self.lo, self.hi)

    def concrete(self, env):
        return float(env[self.name])


class Lit(Arg):
    """a literal argument (None, int...)"""
    def __init__(self, value):
        self.value = value

    def symbolic(self, ex):
        return lift(self.value) if isinstance(self.value, (int, float)) and not isinstance(self.value, bool) else self.value

    def concrete(self, env):
        return self.value


def sample_abd(env, name, rng):
    s6 = None
    for i in range(6):
        for j in range(6):
            p, q = K.abd_index(i, j)
            key = '%s[%d,%d]' % (name, p, q)
            if key not in env:
                env[key] = rng.uniform(-1, 1) + (4.0 if p == q else 0.0)


def abd_matrix(env, name):
    return np.array([[float(env['%s[%d,%d]' % ((name,) + K.abd_index(i, j))]) for j in range(6)] for i in range(6)])


class ABD(Arg):
    def __init__(self, name='Finput'):
        self.name = name

    def symbolic(self, ex):
        return K.finput(self.name)

    def term(self, p=None, q=None):
        return lambda s, t: sym('%s[%d,%d]' % ((self.name,) + K.abd_index(s, t)))

    def sample(self, env, rng):
        sample_abd(env, self.name, rng)

    def concrete(self, env):
        return abd_matrix(env, self.name)


class ABD4(Arg):
    """one symmetric constitutive matrix per integration point"""
    def __init__(self, name, nx, ny):
        self.name, self.nx, self.ny = name, nx, ny

    def symbolic(self, ex):
        return K.finput4(self.name, self.nx, self.ny)

    def term(self, p, q):
        def t(s, t_):
            i, j = K.abd_index(s, t_)
            return app(self.name + '@', p, q, const(i), const(j))
        return t

    def late(self, env, rng):
        ev = evaluator(env)
        nx, ny = int(ev.p(self.nx)), int(ev.p(self.ny))
        key = self.name + '@'
        old = env.get(key)
        if old is not None and np.shape(old) == (nx, ny, 6, 6):
            return
        z = np.zeros((nx, ny, 6, 6))
        for p in range(nx):
            for q in range(ny):
                e = {}
                sample_abd(e, 'F', rng)
                z[p, q] = abd_matrix(e, 'F')
        env[key] = z.tolist()

    def concrete(self, env):
        return np.ascontiguousarray(np.array(env[self.name + '@'], dtype=float))


class Vec(Arg):
    """a 1-D float vector of given length (term); zero padding is the caller's business"""
    def __init__(self, name, n, scale=0.3):
        self.name, self.n, self.scale = name, n, scale

    def symbolic(self, ex):
        from . import sym as S
        return S.Arr(self.name, (self.n,), lambda ix: app(self.name + '@', *ix))

    def at(self, i):
        return app(self.name + '@', i)

    def late(self, env, rng):
        ev = evaluator(env)
        n = int(ev.p(self.n))
        old = env.get(self.name + '@')
        if old is None or len(old) != n:
            env[self.name + '@'] = [rng.uniform(-1, 1) * self.scale for _ in range(n)]

    def concrete(self, env):
        return np.array(env[self.name + '@'], dtype=float)


class Tab(Arg):
    """n-D float array given by terms for its shape"""
    def __init__(self, name, shape, lo=0.2, hi=1.5):
        self.name, self.shape, self.lo, self.hi = name, shape, lo, hi

    def symbolic(self, ex):
        from . import sym as S
        return S.Arr(self.name, tuple(self.shape), lambda ix: app(self.name + '@', *ix))

    def at(self, *i):
        return app(self.name + '@', *i)

    def late(self, env, rng):
        ev = evaluator(env)
        shp = tuple(int(ev.p(s)) for s in self.shape)
        old = env.get(self.name + '@')
        if old is None or np.shape(old) != shp:
            z = np.zeros(shp)
            for ix in np.ndindex(*shp):
                z[ix] = rng.uniform(self.lo, self.hi)
            env[self.name + '@'] = z.tolist()

    def concrete(self, env):
        return np.ascontiguousarray(np.array(env[self.name + '@'], dtype=float))


class FakeShell:
    """attribute bag accepted by the kernels (they only check the class name)"""


class Shell(FakeShell):
    pass


class ShellArg(Arg):
    def __init__(self, label, curved=False, over=None, extra=(), mmin=1):
        self.label, self.curved, self.over, self.extra, self.mmin = label, curved, dict(over or {}), tuple(extra), mmin
        self.dec = {}

    def symbolic(self, ex):
        over = {}
        for k, v in self.over.items():
            over[k] = v.symlist() if hasattr(v, 'symlist') else v.symbolic(ex) if isinstance(v, Arg) else v
        return K.shell_obj(self.label, over=over)

    def a(self, name):
        if name in self.over:
            return self.over[name]
        return K.sh_attr(self.label, name)

    def flags(self):
        out = {}
        for ax in 'xy':
            for d in range(3):
                out[ax, d] = K.flags(self.label, ax, 'uvw'[d])
        return out

    def facts(self):
        return [f_le(const(self.mmin), self.a('m')), f_le(self.a('m'), const(30)),
                f_le(const(self.mmin), self.a('n')), f_le(self.a('n'), const(30))]

    def names(self):
        r = ['a', 'b', 'm', 'n'] + (['r'] if self.curved else []) + list(self.extra)
        return [x for x in r if x not in self.over] + K.BC

    def sample(self, env, rng):
        L = self.label
        real01 = rng.random() < 0.4
        for nm in K.BC:
            k = '%s.%s' % (L, nm)
            if k not in env:
                env[k] = float(rng.choice([0, 1, 1])) if not real01 else rng.choice([0.0, 1.0, round(rng.uniform(0.2, 1.6), 3)])
        for nm, lo, hi in (('a', 0.6, 2.2), ('b', 0.6, 2.2), ('r', 0.7, 4.0)):
            k = '%s.%s' % (L, nm)
            if k not in env and nm not in self.over:
                env[k] = rng.uniform(lo, hi)
            elif k in env and abs(float(env[k])) < 1e-3:
                env[k] = rng.uniform(lo, hi)
        for nm in ('m', 'n'):
            k = '%s.%s' % (L, nm)
            if nm not in self.over and (k not in env or not (self.mmin <= int(env[k]) <= 30)):
                env[k] = rng.choice([2, 3, 4, 5, 6, 6, 8]) if self.mmin <= 2 else rng.randint(self.mmin, max(8, self.mmin))
        for nm in self.extra:
            k = '%s.%s' % (L, nm)
            if nm in self.over:
                continue
            if nm in ('x1', 'x2', 'y1', 'y2'):
                continue
            if k not in env:
                env[k] = rng.uniform(0.3, 1.5)
        for lo, hi, ln in (('x1', 'x2', 'a'), ('y1', 'y2', 'b')):
            if lo in self.extra and lo not in self.over:
                l = float(env['%s.%s' % (L, ln)]) if ln not in self.over else 1.0
                f = sorted([rng.uniform(0.0, 0.45), rng.uniform(0.55, 1.0)])
                if '%s.%s' % (L, lo) not in env:
                    env['%s.%s' % (L, lo)] = f[0] * l
                if '%s.%s' % (L, hi) not in env:
                    env['%s.%s' % (L, hi)] = f[1] * l
        if 'lam' in self.extra:
            sample_abd(env, L + '.lam.ABD', rng)

    def late(self, env, rng):
        for nm, v in self.over.items():
            if hasattr(v, 'late'):
                v.late(env, rng)
            elif hasattr(v, 'sample'):
                v.sample(env, rng)

    def concrete(self, env):
        o = Shell()
        L = self.label
        for k, v in env.items():
            if isinstance(k, str) and k.startswith(L + '.') and '@' not in k and '[' not in k and '.lam' not in k:
                nm = k[len(L) + 1:]
                setattr(o, nm, int(v) if nm in K.INTATTR else float(v))
        for nm, v in self.over.items():
            if isinstance(v, P):
                v = v.const()
                v = int(v) if v.denominator == 1 else float(v)
            elif hasattr(v, 'concrete'):
                v = v.concrete(env)
            setattr(o, nm, v)
        lam = FakeShell()
        if (L + '.lam.ABD[0,0]') in env:
            lam.ABD = abd_matrix(env, L + '.lam.ABD')
        o.lam = lam
        return o


# ------------------------------------------------------------------ evaluation environment
def envfuncs(env):
    fs = {}
    for k, v in env.items():
        if isinstance(k, str) and k.endswith('@'):
            arr = np.array(v, dtype=float)

            def f(*ix, arr=arr):
                return arr[tuple(np.asarray(i, dtype=int) for i in ix)]
            fs[k] = f
    return fs


def evaluator(env):
    return numeval.Eval({k: v for k, v in env.items() if not k.endswith('@')}, envfuncs(env))


class tree_terms:
    """contract terms are built unexpanded (for evaluation)"""
    def __enter__(self):
        E.TREE[0] = True

    def __exit__(self, *a):
        E.TREE[0] = False


class TermEval:
    def __init__(self, env):
        self.e = TR.TEval({k: v for k, v in env.items() if not k.endswith('@')}, envfuncs(env))

    def int(self, t):
        return int(self.e.scalar(t))

    def num(self, t):
        return float(self.e.scalar(t))

    def index(self, name, n):
        self.e.ranges[name] = (0, n)
        return sym(name, True)

    def grid(self, t, axes, shape):
        """value of t as an array over the axes"""
        r = self.e(t)
        v, ax = TR.align([TR.Lab(np.zeros(shape), tuple(axes)), r])
        return np.broadcast_to(np.asarray(v[1], dtype=float), shape)


class Mis(Exception):
    def __init__(self, what, **kw):
        Exception.__init__(self, what)
        self.what, self.kw = what, kw


def compare(what, got, exp, scale=None, tol=1e-9):
    got = np.asarray(got, dtype=float)
    exp = np.asarray(exp, dtype=float)
    exp = np.broadcast_to(exp, got.shape) if exp.shape != got.shape and exp.size == 1 else exp
    if got.shape != exp.shape:
        raise Mis('%s: shape %s instead of %s' % (what, got.shape, exp.shape))
    if got.size == 0:
        return
    sc = max(float(np.max(np.abs(exp))), float(scale or 0.0), 1e-30)
    bad = ~(np.abs(got - exp) <= tol * sc)
    if bad.any():
        ix = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Mis('%s: element %s is %r, contract %r' % (what, list(ix), float(got[ix]), float(exp[ix])), index=list(ix),
                  got=float(got[ix]), expected=float(exp[ix]), differing=int(bad.sum()), total=int(bad.size))


def call(fn, *a, **kw):
    """calls the code under contract: an exception there is a departure (the precondition holds)"""
    import traceback
    try:
        return fn(*a, **kw)
    except Mis:
        raise
    except Exception as e:
        raise Mis('raises %s: %s' % (type(e).__name__, str(e)[:300]), trace=traceback.format_exc(limit=-3))
