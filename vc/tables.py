"""Contracts of the C++ basis functions, integrals and quadrature rules (panels/core/src)."""
from fractions import Fraction
import numpy as np
from .expr import *
from .contracts import *
from . import kern as K
from . import numeval
from .kernels import Contract

SRC = 'panels.core.src.'
TOL = 2e-14         # relative, per coefficient: constants are written with 15 significant digits
ATOL2 = 1e-13
ALLP = ('P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P15')

TRUSTED_T = ['verifier: vc/ (C front end, symbolic execution, exact rational polynomials)',
             'the C++ compiler and libm pow() preserve the meaning of the source']
ASSUME_T = ['machine arithmetic: the constants are compared as the exact rationals they are written as; rounding of the evaluation is not modelled']


def coef_diff(code, spec, tol):
    """None when every coefficient agrees to tol, else a description"""
    d = code - spec
    for m, c in d.t.items():
        a, b = abs(code.t.get(m, Fraction(0))), abs(spec.t.get(m, Fraction(0)))
        if abs(c) > Fraction(tol) * max(a, b):
            return 'coefficient of %s is %.17g, contract %.17g' % (
                P({m: Fraction(1)}).key, float(code.t.get(m, 0)), float(spec.t.get(m, 0)))
    return None


def plain(p):
    return isinstance(p, P) and all(a.kind == 'sym' for m in p.t for a, e in m)


class Table(Contract):
    flags = ['t1', 'r1', 't2', 'r2']
    samples = 60

    def trusted(self):
        return TRUSTED_T

    def assumptions(self):
        return ASSUME_T

    def where(self):
        return self.module.replace('.', '/') + '.cpp:' + self.func

    def args(self, v):
        return []

    def numeric_check(self, rep, name, code, spec, names, hint):
        """code is not a plain polynomial: compare at points (refutes, never proves)"""
        import random
        rng = random.Random(1)
        for _ in range(6):
            env = {n: rng.uniform(-1, 1) for n in names}
            ev = numeval.Eval(env, {})
            try:
                a, b = float(ev.p(code)), float(ev.p(spec))
            except Exception as e:
                rep.undecided(name, 'not a polynomial of the inputs: %s' % (str(e)[:120]))
                return
            if abs(a - b) > 1e-9 * max(1, abs(b)):
                rep.ok(name, False, 'code gives %r, contract %r at %s' % (a, b, env), hint=dict(hint, **env))
                return
        rep.undecided(name, 'not reduced to a polynomial (agrees at sampled points)')

    def compare(self, rep, name, code, spec, tol, names, hint):
        if plain(code):
            d = coef_diff(code, spec, tol)
            rep.ok(name, d is None, d or '', backend='exact rational polynomial identity', hint=hint)
        elif isinstance(code, P):
            self.numeric_check(rep, name, code, spec, names, hint)
        else:
            rep.undecided(name, 'result %r' % (code,))


def fsyms(suffix=''):
    return [sym(x + suffix) for x in Table.flags]


def basis_term(p, i, xi, fl):
    c = numeval.dpoly(i, p)
    r = ZERO
    for k, x in enumerate(c):
        if x:
            r = r + const(x) * xi**k
    return r * (fl[i] if i < 4 else ONE)


class Basis(Table):
    """f, fp, fpp(i, xi, flags) for every i < 30"""
    module = SRC + 'bardell_functions'
    props = ('P01',) + ALLP

    def __init__(self, p, vec):
        self.p, self.vec = p, vec
        self.func = ('vec_' if vec else '') + ['f', 'fp', 'fpp'][p]
        self.name = 'bardell.' + self.func

    def prove(self, rep, loader, variant):
        from . import sym as S
        mod = loader.find(self.module)
        xi, fl = sym('xi'), fsyms()
        names = ['xi'] + self.flags
        if not self.vec:
            for i in range(numeval.NB):
                ex = S.Executor(loader)
                r = ex.call_function(S.Func(mod.funcs[self.func]), [const(i), xi] + fl, {})
                rep.covers(ex)
                self.compare(rep, '%s(%d)' % (self.func, i), r, basis_term(self.p, i, xi, fl), TOL, names, {'i': i})
            return
        arr = S.Arr('out', (const(numeval.NB),), lambda ix: app('unset', *ix))
        ex = S.Executor(loader)
        ex.call_function(S.Func(mod.funcs[self.func]), [S.Ptr(arr, ZERO), xi] + fl, {})
        rep.covers(ex)
        for i in range(numeval.NB):
            r = ex.arr_get(arr, (const(i),), None)
            self.compare(rep, '%s[%d]' % (self.func, i), r, basis_term(self.p, i, xi, fl), TOL, names, {'i': i})
        for o in ex.obligs:
            rep.valid(self.func + ': ' + o[0], o[1], o[2])
        for e in ex.events:
            ok = all(x.is_const() and 0 <= x.const() < numeval.NB for x in e.idx) if e.arr is arr else True
            if not ok:
                rep.undecided('%s: line %s stays inside the 30 values' % (self.func, e.line), repr(e.idx))

    def sample(self, v, rng, env):
        env.setdefault('i', rng.randrange(numeval.NB))
        env.setdefault('xi', rng.choice([-1.0, 1.0, 0.0] + [rng.uniform(-1, 1)] * 4))
        for n in self.flags:
            env.setdefault(n, rng.choice([0.0, 1.0, rng.uniform(0.2, 1.6)]))
        return env

    def run(self, v, env, getfunc):
        fl = [float(env[n]) for n in self.flags]
        fn = getfunc('panels.bardell', 'calc_' + self.func)
        pts = [float(env['xi'])] + [-1 + k / 15. for k in range(31)]
        for x in pts:
            idx = range(numeval.NB)
            got = [call(fn, i, x, *fl) for i in idx] if not self.vec else list(call(fn, x, *fl))
            if len(got) != numeval.NB:
                raise Mis('%s returns %d values' % (self.func, len(got)))
            for i in idx:
                c = numeval.dpoly(i, self.p)
                X = Fraction(x)
                f = fl[i] if i < 4 else 1.0
                exp = float(sum((z * X**k for k, z in enumerate(c)), Fraction(0))) * f
                # the monomial form loses digits near the ends: tolerance follows the size of its terms
                size = float(sum(abs(z) * abs(X)**k for k, z in enumerate(c))) * abs(f)
                if not abs(got[i] - exp) <= 1e-13 * size + 1e-300:
                    raise Mis('%s(%d) at xi=%r, flags %s is %r, contract %r' % (self.func, i, x, fl, got[i], exp))


class Integral(Table):
    """integral over [-1, 1] of the product of derivatives p and q of two basis functions, for all pairs"""
    module = SRC + 'bardell'
    props = ('P02',) + ALLP

    def __init__(self, func):
        self.func = func
        self.name = 'bardell.' + func
        self.p, self.q = K.INTEG[func]

    def prove(self, rep, loader, variant):
        from . import sym as S
        mod = loader.find(self.module)
        A, B = fsyms('_i'), fsyms('_j')
        names = [x + s for s in ('_i', '_j') for x in self.flags]
        for i in range(numeval.NB):
            ob = []
            for j in range(numeval.NB):
                ex = S.Executor(loader)
                r = ex.call_function(S.Func(mod.funcs[self.func]), [const(i), const(j)] + A + B, {})
                if j == 0:
                    rep.covers(ex)
                c = numeval.gram_exact(self.p, i, self.q, j)
                spec = const(c) * (A[i] if i < 4 else ONE) * (B[j] if j < 4 else ONE)
                self.compare(rep, '%s(%d,%d)' % (self.func, i, j), r, spec, TOL, names, {'i': i, 'j': j})

    def sample(self, v, rng, env):
        env.setdefault('i', rng.randrange(numeval.NB))
        env.setdefault('j', rng.randrange(numeval.NB))
        for s in ('_i', '_j'):
            for n in self.flags:
                env.setdefault(n + s, rng.choice([0.0, 1.0, rng.uniform(0.2, 1.6)]))
        return env

    def run(self, v, env, getfunc):
        fn = getfunc('panels.bardell', 'calc_' + self.func)
        a = [float(env[n + '_i']) for n in self.flags]
        b = [float(env[n + '_j']) for n in self.flags]
        for (fa, fb) in ((a, b), ([1.0] * 4, [1.0] * 4)):
            for i in range(numeval.NB):
                for j in range(numeval.NB):
                    exp = float(numeval.gram_exact(self.p, i, self.q, j)) * (fa[i] if i < 4 else 1) * (fb[j] if j < 4 else 1)
                    got = call(fn, i, j, *(fa + fb))
                    if not abs(got - exp) <= 1e-13 * abs(exp):
                        raise Mis('%s(%d, %d) with flags %s, %s is %r, contract %r' % (self.func, i, j, fa, fb, got, exp))


# ------------------------------------------------------------------------------------------- quadrature
SC = 10**60


def fix(x):
    """exact rational to 60 digits fixed point"""
    x = Fraction(x)
    return (x.numerator * SC) // x.denominator


def legendre_fix(n, x):
    """[P_0 .. P_n](x) in fixed point"""
    p = [SC, x]
    for k in range(1, n):
        p.append(((2 * k + 1) * x * p[k] // SC - k * p[k - 1]) // (k + 1))
    return p[:n + 1]


class Rule(Table):
    """leggauss_quad(n): the Gauss-Legendre rule of n points, n = 1..64"""
    module = SRC + 'legendre_gauss_quadrature'
    func = 'leggauss_quad'
    name = 'leggauss_quad'
    props = ('P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P10')
    NMAX = 64
    samples = 2

    def check_rule(self, n, xs, ws, tol):
        """description of the first departure or None; xs, ws exact rationals"""
        for k in range(n):
            if not -1 < xs[k] < 1:
                return 'node %d is outside (-1, 1)' % k
            if not ws[k] > 0:
                return 'weight %d is not positive' % k
            if k and not xs[k] > xs[k - 1]:
                return 'nodes %d and %d are not increasing' % (k - 1, k)
        F = [fix(x) for x in xs]
        W = [fix(w) for w in ws]
        L = [legendre_fix(2 * n - 1, x) for x in F]
        T = fix(Fraction(tol))
        for k in range(n):
            p = L[k]
            # distance to the root of P_n by Newton; P_n' from P_n and P_{n-1}
            dp = n * (F[k] * p[n] // SC - p[n - 1]) * SC // (F[k] * F[k] // SC - SC)
            if dp == 0 or abs(p[n] * SC // dp) > T:
                return 'node %d is not a root of the Legendre polynomial (off by %.3g)' % (k, p[n] / float(dp) if dp else 9)
        for d in range(2 * n):
            s = sum(W[k] * L[k][d] // SC for k in range(n))
            if d == 0:
                s -= 2 * SC
            if abs(s) > T:
                return 'the Legendre polynomial of degree %d is integrated with error %.3g' % (d, s / SC)
        return None

    def prove(self, rep, loader, variant):
        from . import sym as S
        mod = loader.find(self.module)
        for n in range(1, self.NMAX + 1):
            ex = S.Executor(loader)
            X = S.Arr('points', (const(n),), lambda ix: app('unset', *ix))
            W = S.Arr('weights', (const(n),), lambda ix: app('unset', *ix))
            ex.call_function(S.Func(mod.funcs[self.func]), [const(n), S.Ptr(X, ZERO), S.Ptr(W, ZERO)], {})
            rep.covers(ex)
            xs = [ex.arr_get(X, (const(k),), None) for k in range(n)]
            ws = [ex.arr_get(W, (const(k),), None) for k in range(n)]
            bad = [('node', k) for k in range(n) if not xs[k].is_const()] + [('weight', k) for k in range(n) if not ws[k].is_const()]
            nm = 'rule with %d points' % n
            unset = [b for b, p in zip(bad, [p for p in xs + ws if not p.is_const()]) if 'unset' in p.key]
            if unset:
                rep.ok(nm + ' sets all nodes and weights', False, '%s %d is not set' % unset[0], hint={'n': n})
                continue
            if bad:
                rep.undecided(nm, '%s %d is not a constant' % bad[0])
                continue
            d = self.check_rule(n, [p.const() for p in xs], [p.const() for p in ws], 4e-16)
            rep.ok(nm, d is None, d or '', backend='exact integer arithmetic (60 digits)', hint={'n': n})
            out = [e for e in ex.events if e.arr in (X, W) and not all(i.is_const() and 0 <= i.const() < n for i in e.idx)]
            rep.ok(nm + ' writes inside its buffers', not out, 'line %s' % (out[0].line if out else ''))

    def sample(self, v, rng, env):
        env.setdefault('n', rng.randint(1, self.NMAX))
        return env

    def run(self, v, env, getfunc):
        fn = getfunc('panels.legendre_gauss_quadrature', 'get_points_weights')
        ns = [int(env['n'])] + list(range(1, self.NMAX + 1))
        for n in ns:
            x, w = np.zeros(n), np.zeros(n)
            call(fn, n, x, w)
            d = self.check_rule(n, [Fraction(float(z)) for z in x], [Fraction(float(z)) for z in w], 3e-15)
            if d:
                raise Mis('rule with %d points: %s' % (n, d))


class Wrapper(Table):
    """the Python-callable wrappers return what the C++ function returns"""
    module = 'panels.bardell'
    props = ('P01', 'P02')

    def __init__(self, func):
        self.func = func
        self.name = 'bardell.pyx.' + func
        base = func[5:]
        self.props = ('P02',) if base in K.INTEG else ('P01',)
        self.base = base

    def where(self):
        return 'panels/bardell.pyx:' + self.func

    def prove(self, rep, loader, variant):
        from . import sym as S
        mod = loader.find(self.module)
        ex = S.Executor(loader)
        K.setup(ex)
        xi = sym('xi')
        i, j = sym('i', True), sym('j', True)
        A, B = fsyms('_i'), fsyms('_j')
        if self.base in K.INTEG:
            r = ex.call_function(S.Func(mod.funcs[self.func]), [i, j] + A + B, {})
            p, q = K.INTEG[self.base]
            rep.eq(self.func, r, K.II(p, i, tuple(A), q, j, tuple(B)))
        elif not self.base.startswith('vec'):
            r = ex.call_function(S.Func(mod.funcs[self.func]), [i, xi] + A, {})
            rep.eq(self.func, r, K.BF(['f', 'fp', 'fpp'].index(self.base), i, xi, tuple(A)))
        else:
            r = ex.call_function(S.Func(mod.funcs[self.func]), [xi] + A, {})
            k = sym('k', True)
            hy = [f_le(ZERO, k), f_lt(k, const(30))]
            if not isinstance(r, S.Arr):
                rep.undecided(self.func, 'result %r' % (r,))
                return
            ex.pc += hy
            rep.eq(self.func, ex.arr_get(r, (k,), None), K.BF(['f', 'fp', 'fpp'].index(self.base[4:]), k, xi, tuple(A)), hyps=hy)
            rep.eq(self.func + ' length', r.shape[0], const(30))
        rep.covers(ex)
        for o in ex.obligs:
            rep.valid(self.func + ': ' + o[0], o[1], o[2])

    def _inner(self):
        return Integral(self.base) if self.base in K.INTEG else Basis(['f', 'fp', 'fpp'].index(self.base.replace('vec_', '')), self.base.startswith('vec'))

    def sample(self, v, rng, env):
        return self._inner().sample(v, rng, env)

    def run(self, v, env, getfunc):
        self._inner().run(v, env, getfunc)


class RuleWrapper(Rule):
    module = 'panels.legendre_gauss_quadrature'
    func = 'get_points_weights'
    name = 'get_points_weights'
    props = ('P03',)

    def where(self):
        return 'panels/legendre_gauss_quadrature.pyx:get_points_weights'

    def prove(self, rep, loader, variant):
        from . import sym as S
        mod = loader.find(self.module)
        n, k = sym('n', True), sym('k', True)
        hy = [f_le(ZERO, k), f_lt(k, n), f_le(ONE, n), f_le(n, const(64))]
        ex = S.Executor(loader, facts=hy)
        K.setup(ex)
        X = S.Arr('points', (n,), lambda ix: app('unset', *ix))
        W = S.Arr('weights', (n,), lambda ix: app('unset', *ix))
        ex.call_function(S.Func(mod.funcs[self.func]), [n, X, W], {})
        rep.covers(ex)
        rep.eq('points', ex.arr_get(X, (k,), None), app('GX', n, k), hyps=hy)
        rep.eq('weights', ex.arr_get(W, (k,), None), app('GW', n, k), hyps=hy)
        for o in ex.obligs:
            rep.valid(self.func + ': ' + o[0], o[1] + hy, o[2])


def all_contracts():
    r = [Basis(p, vec) for p in range(3) for vec in (False, True)]
    r += [Integral(f) for f in K.INTEG]
    r += [Rule(), RuleWrapper()]
    r += [Wrapper('calc_' + x) for x in ('f', 'fp', 'fpp', 'vec_f', 'vec_fp', 'vec_fpp')]
    r += [Wrapper('calc_' + x) for x in K.INTEG]
    return r
