"""Contracts of the shell kernels (panels/models/*.pyx)."""
import itertools
import numpy as np
from .expr import *
from .contracts import *
from . import kern as K
from . import spec_shell as SS
from . import numeval

UVW = 'uvw'

TRUSTED = [
    'verifier: vc/ (symbolic execution of the parsed source, normal forms) and z3 4.8 for guards and bounds',
    "the Cython parser (Cython.Compiler) used to read the .pyx sources, Python's ast for .py, vc/cfront.py for C++",
    'numpy/scipy.sparse/libc functions by their contracts in vc/builtins.py and vc/kern.py (coo_matrix, zeros, malloc, ...)',
    'C compiler and Cython code generation preserve the semantics of the source',
]
ASSUMPTIONS = [
    'machine arithmetic: doubles are treated as real numbers, C ints as integers (coefficients are compared to 1e-11 relative)',
    'basis functions, integrals and Gauss rules by their contracts (P01, P02, P03 decide those)',
    'constitutive matrices are symmetric with the ABD structure of a laminate',
]


class Contract:
    """base: name, properties, target function, variants"""
    name = ''
    props = ()
    module = ''         # dotted module of the target
    func = ''
    upper_only = True
    deviations = ()     # named alternatives of the contract: how a known defect departs from it
    dev = None
    runnable = True     # has a run-time evaluation
    always_run = False
    samples = 40
    cost = 1
    asan = False

    def trusted(self):
        return TRUSTED

    def assumptions(self):
        return ASSUMPTIONS

    def where(self):
        return self.module.replace('.', '/') + '.pyx:' + self.func

    def variants(self):
        return [{}]

    def args(self, v):
        raise NotImplementedError

    def facts(self, v):
        r = []
        for a in self.args(v):
            r += a.facts()
        return r


# --------------------------------------------------------------------------------------------- result kinds
class SparseContract(Contract):
    """the returned coo matrix holds spec(d1,d2,i,j,k,l) at (base1+3(jm1+i)+d1, base2+3(lm2+k)+d2)"""
    kind = 'sparse'

    def layout(self, v):
        """dict(dims1, dims2, base1, base2, size)"""
        raise NotImplementedError

    def spec(self, v):
        raise NotImplementedError

    def prove(self, rep, loader, variant):
        from . import sym as S, check as C
        from .ir import Unsupported
        mod = loader.find(self.module)
        facts = self.facts(variant)
        lay = self.layout(variant)

        def make(dec):
            ex = S.Executor(loader, facts=facts, decisions=dec)
            K.setup(ex)
            self.setup(ex, variant)
            try:
                ex.result = ex.call_function(S.Func(mod.funcs[self.func]), [a.symbolic(ex) for a in self.args(variant)], {})
            except S.PathRaise as e:
                ex.result = e
            return ex
        exs = S.explore(make)
        sp = self.spec(variant)
        for n, ex in enumerate(exs):
            rep.covers(ex)
            hy = facts + ex.pc
            nm = self.name + vname(variant) + ('' if len(exs) == 1 else ' path %d' % n)
            if isinstance(ex.result, S.PathRaise):
                rep.ok(nm + ': no error for valid inputs', False, 'raises %s when %s' % (ex.result, [f.key for f in ex.pc]))
                continue
            if not isinstance(ex.result, S.Obj) or 'v' not in ex.result.attrs:
                rep.undecided(nm + ': result', 'unrecognised result %r' % (ex.result,))
                continue
            C.spec_sparse(rep, nm, ex.result, sp, lay['dims1'], lay['dims2'], lay['base1'], lay['base2'], lay['size'],
                          hy, upper_only=lay.get('upper', True))
            for o in ex.obligs:
                rep.valid(nm + ': ' + o[0], o[1] + facts, o[2])

    def setup(self, ex, variant):
        pass

    # ---- concrete
    def sample(self, variant, rng, env):
        args = self.args(variant)
        for a in args:
            a.sample(env, rng)
        for a in sorted(args, key=lambda x: not isinstance(x, Size)):
            if hasattr(a, 'late'):
                a.late(env, rng)
        return env

    def run(self, variant, env, getfunc):
        args = self.args(variant)
        fn = getfunc(self.module, self.func)
        res = call(fn, *[a.concrete(env) for a in args])
        self.check_result(variant, env, res)

    def expected(self, variant, env):
        with tree_terms():
            lay = self.layout(variant)
            ev = TermEval(env)
            m1, n1 = ev.int(lay['dims1'][0]), ev.int(lay['dims1'][1])
            m2, n2 = ev.int(lay['dims2'][0]), ev.int(lay['dims2'][1])
            b1, b2, size = ev.int(lay['base1']), ev.int(lay['base2']), ev.int(lay['size'])
            i, j, k, l = [ev.index('X_' + x, n) for x, n in zip('ijkl', (m1, n1, m2, n2))]
            exp = np.zeros((size, size))
            sp = self.spec(variant)
            I, J, Kk, Ll = np.meshgrid(np.arange(m1), np.arange(n1), np.arange(m2), np.arange(n2), indexing='ij')
            for d1 in range(3):
                for d2 in range(3):
                    t = sp(d1, d2, i, j, k, l)
                    if t.is_zero():
                        continue
                    exp[b1 + 3 * (J * m1 + I) + d1, b2 + 3 * (Ll * m2 + Kk) + d2] = ev.grid(t, ('X_i', 'X_j', 'X_k', 'X_l'), I.shape)
            return exp

    def check_result(self, variant, env, res):
        lay = self.layout(variant)
        exp = self.expected(variant, env)
        if tuple(res.shape) != exp.shape:
            raise Mis('matrix has shape %s, contract %s' % (res.shape, exp.shape))
        got = res.toarray()
        if lay.get('upper', True):
            got, exp = np.triu(got), np.triu(exp)
        compare(self.func + ' matrix', got, exp)


def vname(v):
    if not v:
        return ''
    return '[' + ','.join('%s=%s' % (k, v[k]) for k in sorted(v)) + ']'


class VectorContract(SparseContract):
    """the returned vector holds spec(d, i, j) at base + 3(jm+i)+d and zero elsewhere"""
    kind = 'vector'

    def prove(self, rep, loader, variant):
        from . import sym as S, check as C
        mod = loader.find(self.module)
        facts = self.facts(variant)
        lay = self.layout(variant)

        def make(dec):
            ex = S.Executor(loader, facts=facts, decisions=dec)
            K.setup(ex)
            self.setup(ex, variant)
            try:
                ex.result = ex.call_function(S.Func(mod.funcs[self.func]), [a.symbolic(ex) for a in self.args(variant)], {})
            except S.PathRaise as e:
                ex.result = e
            return ex
        exs = S.explore(make)
        sp = self.spec(variant)
        for n, ex in enumerate(exs):
            rep.covers(ex)
            hy = facts + ex.pc
            nm = self.name + vname(variant) + ('' if len(exs) == 1 else ' path %d' % n)
            if isinstance(ex.result, S.PathRaise):
                rep.ok(nm + ': no error for valid inputs', False, 'raises %s when %s' % (ex.result, [f.key for f in ex.pc]))
                continue
            C.spec_vector(rep, nm, ex, ex.result, sp, lay['dims'], lay['base'], lay['size'], hy)
            for o in ex.obligs:
                rep.valid(nm + ': ' + o[0], o[1] + facts, o[2])

    def expected(self, variant, env):
        with tree_terms():
            lay = self.layout(variant)
            ev = TermEval(env)
            m, n = ev.int(lay['dims'][0]), ev.int(lay['dims'][1])
            b, size = ev.int(lay['base']), ev.int(lay['size'])
            i, j = ev.index('X_i', m), ev.index('X_j', n)
            I, J = np.meshgrid(np.arange(m), np.arange(n), indexing='ij')
            exp = np.zeros(size)
            sp = self.spec(variant)
            for d in range(3):
                t = sp(d, i, j)
                if t.is_zero():
                    continue
                exp[b + 3 * (J * m + I) + d] = ev.grid(t, ('X_i', 'X_j'), I.shape)
            return exp

    def check_result(self, variant, env, res):
        exp = self.expected(variant, env)
        compare(self.func + ' vector', np.asarray(res, dtype=float), exp)


# --------------------------------------------------------------------------------------------- shells
MODELS = ('plate', 'cylshell')


class ShellKernel(SparseContract):
    def __init__(self, model):
        self.model = model
        self.module = 'panels.models.%s_clpt_donnell_bardell%s' % (model, self.suffix)
        self.name = '%s%s.%s' % (model, self.suffix, self.func)
        self.curved = model == 'cylshell'
    suffix = ''
    extra = ()
    domain = False

    def shell(self, v):
        over = {}
        extra = list(self.extra)
        if self.domain:
            for ax in 'xy':
                if v.get(ax, 'whole') == 'whole':
                    over[ax + '1'], over[ax + '2'] = const(-1), const(1)
                else:
                    extra += [ax + '1', ax + '2']
        return ShellArg('s', curved=self.curved, over=over, extra=extra)

    def facts(self, v):
        r = SparseContract.facts(self, v)
        if self.domain:
            s = self.shell(v)
            for ax, ln in (('x', 'a'), ('y', 'b')):
                if v.get(ax, 'whole') != 'whole':
                    r += [f_le(ZERO, s.a(ax + '1')), f_lt(s.a(ax + '1'), s.a(ax + '2')), f_le(s.a(ax + '2'), s.a(ln))]
        return r

    def layout(self, v):
        s = self.shell(v)
        dims = (s.a('m'), s.a('n'))
        return dict(dims1=dims, dims2=dims, base1=Base('R0').term, base2=Base('C0').term, size=sym('size', True))

    def tail(self, v):
        s = self.shell(v)
        mn = 3 * s.a('m') * s.a('n')
        return [Size([Base('R0').term + mn, Base('C0').term + mn]), Base('R0'), Base('C0')]

    def kin(self, v, wxi=None, weta=None):
        s = self.shell(v)
        return SS.Kin(s.a('a'), s.a('b'), r=s.a('r') if self.curved else None, wxi=wxi, weta=weta)


def quadrature(s, v, nx, ny):
    """(binder p, binder q, xi, eta, area weight) of the Gauss rule over the (sub)domain"""
    p, q = fresh('p', True), fresh('q', True)
    a, b = s.a('a'), s.a('b')

    def axis(ax, ln, n, pt):
        g, w = app('GX', n, pt), app('GW', n, pt)
        if v.get(ax, 'whole') == 'whole':
            return g, w * ln / 2
        z1, z2 = 2 * s.a(ax + '1') / ln - 1, 2 * s.a(ax + '2') / ln - 1
        return (g + 1) / 2 * (z2 - z1) + z1, w * (s.a(ax + '2') - s.a(ax + '1')) / 2
    xi, wx = axis('x', a, nx, p)
    eta, wy = axis('y', b, ny, q)
    return p, q, xi, eta, wx * wy


def over_points(p, q, nx, ny, term):
    return mk_sum(p.as_atom(), ZERO, nx, mk_sum(q.as_atom(), ZERO, ny, term))


def ritz(s, at, base, d, px, py, xi, eta):
    """sum over the terms of c * d^px/dxi d^py/deta of the field d"""
    i, j = fresh('i', True), fresh('j', True)
    fl = s.flags()
    m, n = s.a('m'), s.a('n')
    t = at(base + 3 * (j * m + i) + d) * BFs(fl, d, px, py, i, j, xi, eta)
    return mk_sum(i.as_atom(), ZERO, m, mk_sum(j.as_atom(), ZERO, n, t))


def BFs(fl, d, px, py, i, j, xi, eta):
    return K.BF(px, i, xi, fl['x', d]) * K.BF(py, j, eta, fl['y', d])


class Fk0(ShellKernel):
    func = 'fk0'
    props = ('P04',)
    extra = ('lam',)

    def args(self, v):
        return [self.shell(v)] + self.tail(v)

    def spec(self, v):
        s = self.shell(v)
        F = lambda p, q: sym('s.lam.ABD[%d,%d]' % K.abd_index(p, q))
        return SS.stiffness_int(self.kin(v), F, s.flags(), s.a('a') * s.a('b') / 4)


class FkG0(ShellKernel):
    func = 'fkG0'
    props = ('P05',)

    def args(self, v):
        return [Real('Nxx'), Real('Nyy'), Real('Nxy'), self.shell(v)] + self.tail(v)

    def spec(self, v):
        s = self.shell(v)
        fl = s.flags()
        a, b = s.a('a'), s.a('b')
        Nxx, Nyy, Nxy = sym('Nxx'), sym('Nyy'), sym('Nxy')

        def f(d1, d2, i, j, k, l):
            if (d1, d2) != (2, 2):
                return ZERO
            I = lambda p, q: SS.prod_int(fl, 2, p, i, j, fl, 2, q, k, l)
            X, Y = (1, 0), (0, 1)
            return a * b / 4 * (Nxx * 4 / a**2 * I(X, X) + Nyy * 4 / b**2 * I(Y, Y) + Nxy * 4 / (a * b) * (I(X, Y) + I(Y, X)))
        return f


class FkM(ShellKernel):
    """mass matrix, analytic: thickness is the sum of the ply thicknesses, density s.rho"""
    func = 'fkM'
    props = ('P06',)

    def shell(self, v):
        s = ShellKernel.shell(self, v)
        s.extra = s.extra + ('rho',)
        s.over = dict(s.over)
        s.over['plyts'] = PLYTS
        return s

    def args(self, v):
        return [self.shell(v), Real('d', -0.7, 0.7)] + self.tail(v)

    def thickness(self):
        return sum((sym('plyt%d' % i) for i in range(3)), ZERO)

    def spec(self, v):
        s = self.shell(v)
        return mass_int(s, self.thickness(), s.a('rho'), sym('d'))


class Plyts:
    """three plies of arbitrary thickness (the kernel only sums them)"""
    def concrete(self, env):
        return [float(env.setdefault('plyt%d' % i, 0.1 + 0.07 * i)) for i in range(3)]

    def symlist(self):
        return [sym('plyt%d' % i) for i in range(3)]

    def sample(self, env, rng):
        for i in range(3):
            env.setdefault('plyt%d' % i, rng.uniform(0.05, 0.3))


PLYTS = Plyts()


def mass_int(s, h, rho, d):
    fl = s.flags()
    a, b = s.a('a'), s.a('b')

    def disp(dd):
        # displacement components of a unit Ritz term of field dd: {component: [(coef, px, py, power of z)]}
        r = {dd: [(ONE, 0, 0, 0)]}
        if dd == 2:
            r[0] = [(-2 / a, 1, 0, 1)]
            r[1] = [(-2 / b, 0, 1, 1)]
        return r
    # integrals of z^k over the thickness [d - h/2, d + h/2]
    mom = [h, h * d, h * (d * d + h * h / 12)]

    def f(d1, d2, i, j, k, l):
        r = ZERO
        A, B = disp(d1), disp(d2)
        for comp in A:
            for (c1, px, py, z1) in A[comp]:
                for (c2, qx, qy, z2) in B.get(comp, []):
                    r = r + rho * mom[z1 + z2] * c1 * c2 * SS.prod_int(fl, d1, (px, py), i, j, fl, d2, (qx, qy), k, l)
        return r * a * b / 4
    return f


def mass_pt(s, h, rho, d, xi, eta):
    fl = s.flags()
    a, b = s.a('a'), s.a('b')
    mom = [h, h * d, h * (d * d + h * h / 12)]

    def disp(dd):
        r = {dd: [(ONE, 0, 0, 0)]}
        if dd == 2:
            r[0] = [(-2 / a, 1, 0, 1)]
            r[1] = [(-2 / b, 0, 1, 1)]
        return r

    def f(d1, d2, i, j, k, l):
        r = ZERO
        A, B = disp(d1), disp(d2)
        for comp in A:
            for (c1, px, py, z1) in A[comp]:
                for (c2, qx, qy, z2) in B.get(comp, []):
                    r = r + rho * mom[z1 + z2] * c1 * c2 * BFs(fl, d1, px, py, i, j, xi, eta) * BFs(fl, d2, qx, qy, k, l, xi, eta)
        return r
    return f


class FkAx(ShellKernel):
    func = 'fkAx'
    props = ('P07',)

    def args(self, v):
        return [Real('beta'), Real('gamma'), self.shell(v)] + self.tail(v)

    def spec(self, v):
        s = self.shell(v)
        fl = s.flags()
        a, b = s.a('a'), s.a('b')

        def f(d1, d2, i, j, k, l):
            if (d1, d2) != (2, 2):
                return ZERO
            I = lambda p, q: SS.prod_int(fl, 2, p, i, j, fl, 2, q, k, l)
            # gamma is the pre-curvature coefficient of the piston theory: a plate has none
            g = ZERO if self.model == 'plate' else sym('gamma') * I((0, 0), (0, 0))
            return -(a * b / 4) * (sym('beta') * 2 / a * I((1, 0), (0, 0)) + g)
        return f


class FkAy(ShellKernel):
    func = 'fkAy'
    props = ('P07',)

    def args(self, v):
        return [Real('beta'), self.shell(v)] + self.tail(v)

    def spec(self, v):
        s = self.shell(v)
        fl = s.flags()
        a, b = s.a('a'), s.a('b')

        def f(d1, d2, i, j, k, l):
            if (d1, d2) != (2, 2):
                return ZERO
            return -(a * b / 4) * sym('beta') * 2 / b * SS.prod_int(fl, 2, (0, 1), i, j, fl, 2, (0, 0), k, l)
        return f


class FcA(ShellKernel):
    func = 'fcA'
    props = ('P07',)

    def args(self, v):
        return [Real('aeromu'), self.shell(v)] + self.tail(v)

    def spec(self, v):
        s = self.shell(v)
        fl = s.flags()

        def f(d1, d2, i, j, k, l):
            if (d1, d2) != (2, 2):
                return ZERO
            return -(s.a('a') * s.a('b') / 4) * sym('aeromu') * SS.prod_int(fl, 2, (0, 0), i, j, fl, 2, (0, 0), k, l)
        return f


DOM = [dict(x=x, y=y) for x in ('whole', 'part') for y in ('whole', 'part')]


class NumKernel(ShellKernel):
    suffix = '_num'
    domain = True

    @property
    def nx(self):
        return sym('nx', True)

    @property
    def ny(self):
        return sym('ny', True)

    def points(self):
        return [Int('nx', 1), Int('ny', 1)]

    def facts(self, v):
        return ShellKernel.facts(self, v) + [f_le(self.nx, const(64)), f_le(self.ny, const(64))]

    def cs(self, v):
        return Vec('cs', sym('size', True))

    def lam(self, v):
        return ABD('Finput') if v['F'] == 'one' else ABD4('Finput', self.nx, self.ny)


class FkC_num(NumKernel):
    func = 'fkC_num'
    cost = 5
    props = ('P04', 'P08')

    def variants(self):
        return [dict(d, F=f, nl=nl) for nl in (0, 1) for f in ('one', 'each') for d in DOM]

    def args(self, v):
        return [self.cs(v), self.lam(v), self.shell(v)] + self.tail(v) + self.points() + [Int('NLgeom', value=v['nl'])]

    def order(self, args):
        return args

    def spec(self, v):
        s = self.shell(v)
        p, q, xi, eta, w = quadrature(s, v, self.nx, self.ny)
        wxi = weta = None
        if v['nl']:
            at = self.cs(v).at
            wxi = ritz(s, at, Base('C0').term, 2, 1, 0, xi, eta)
            weta = ritz(s, at, Base('C0').term, 2, 0, 1, xi, eta)
        kin = self.kin(v, wxi, weta)
        pt = SS.stiffness_pt(kin, self.lam(v).term(p, q), s.flags(), w, xi, eta)
        return lambda *a: over_points(p, q, self.nx, self.ny, pt(*a))


class FkG_num(NumKernel):
    func = 'fkG_num'
    cost = 4
    props = ('P05', 'P08')

    def variants(self):
        return [dict(d, F=f, nl=nl) for nl in (0, 1) for f in ('one', 'each') for d in DOM]

    def args(self, v):
        return ([self.cs(v), self.lam(v), self.shell(v)] + self.tail(v) + self.points() + [Int('NLgeom', value=v['nl'])]
                + [Real('Nxx0'), Real('Nyy0'), Real('Nxy0')])

    def spec(self, v):
        s = self.shell(v)
        p, q, xi, eta, w = quadrature(s, v, self.nx, self.ny)
        N = forces(self, v, s, p, q, xi, eta, v['nl'])
        N = [N[0] + sym('Nxx0'), N[1] + sym('Nyy0'), N[2] + sym('Nxy0')]
        fl = s.flags()
        a, b = s.a('a'), s.a('b')

        def f(d1, d2, i, j, k, l):
            if (d1, d2) != (2, 2):
                return ZERO
            x1, y1 = 2 / a * BFs(fl, 2, 1, 0, i, j, xi, eta), 2 / b * BFs(fl, 2, 0, 1, i, j, xi, eta)
            x2, y2 = 2 / a * BFs(fl, 2, 1, 0, k, l, xi, eta), 2 / b * BFs(fl, 2, 0, 1, k, l, xi, eta)
            return over_points(p, q, self.nx, self.ny, w * (N[0] * x1 * x2 + N[1] * y1 * y2 + N[2] * (x1 * y2 + y1 * x2)))
        return f


def strains(con, v, s, xi, eta, nl, at, base):
    """Donnell strains of the Ritz field; nl: 0, 1 or a term multiplying the non-linear part"""
    a, b = s.a('a'), s.a('b')
    R = lambda d, px, py: ritz(s, at, base, d, px, py, xi, eta)
    A, Bb = 2 / a, 2 / b
    wx, wy = A * R(2, 1, 0), Bb * R(2, 0, 1)
    e = [A * R(0, 1, 0), Bb * R(1, 0, 1), Bb * R(0, 0, 1) + A * R(1, 1, 0),
         -A * A * R(2, 2, 0), -Bb * Bb * R(2, 0, 2), -2 * A * Bb * R(2, 1, 1)]
    if con.curved:
        e[1] = e[1] + R(2, 0, 0) / s.a('r')
    if not (isinstance(nl, int) and nl == 0):
        nl = lift(nl)
        e[0] = e[0] + nl * wx * wx / 2
        e[1] = e[1] + nl * wy * wy / 2
        e[2] = e[2] + nl * wx * wy * (2 if con.dev == 'shear2' else 1)
    return e


def forces(con, v, s, p, q, xi, eta, nl):
    e = strains(con, v, s, xi, eta, nl, con.cs(v).at, Base('C0').term)
    F = con.lam(v).term(p, q)
    return [sum((F(i, j) * e[j] for j in range(6)), ZERO) for i in range(6)]


class FkM_num(NumKernel):
    func = 'fkM_num'
    props = ('P06',)

    def variants(self):
        return [dict(d, hrho=f) for f in ('one', 'each') for d in DOM]

    def hr(self, v):
        return Tab('hrho', (const(2),) if v['hrho'] == 'one' else (self.nx, self.ny, const(2)))

    def args(self, v):
        return [self.shell(v), Real('d', -0.7, 0.7), self.hr(v)] + self.tail(v) + self.points()

    def spec(self, v):
        s = self.shell(v)
        p, q, xi, eta, w = quadrature(s, v, self.nx, self.ny)
        if v['hrho'] == 'one':
            h, rho = self.hr(v).at(ZERO), self.hr(v).at(ONE)
        else:
            h, rho = self.hr(v).at(p, q, ZERO), self.hr(v).at(p, q, ONE)
        pt = mass_pt(s, h, rho, sym('d'), xi, eta)
        return lambda *a: over_points(p, q, self.nx, self.ny, w * pt(*a))


class FkAx_num(NumKernel):
    """the aerodynamic matrix is not symmetric: all its entries"""
    func = 'fkAx_num'
    props = ('P07',)
    extra = ('beta', 'gamma')

    def layout(self, v):
        return dict(NumKernel.layout(self, v), upper=False)

    def variants(self):
        return [dict(d) for d in DOM]

    def args(self, v):
        return [self.shell(v)] + self.tail(v) + self.points()

    def spec(self, v):
        s = self.shell(v)
        fl = s.flags()
        p, q, xi, eta, w = quadrature(s, v, self.nx, self.ny)

        def f(d1, d2, i, j, k, l):
            if (d1, d2) != (2, 2):
                return ZERO
            S = lambda px, py, i, j: BFs(fl, 2, px, py, i, j, xi, eta)
            return over_points(p, q, self.nx, self.ny, -w * (s.a('beta') * 2 / s.a('a') * S(1, 0, i, j) * S(0, 0, k, l)
                               + s.a('gamma') * S(0, 0, i, j) * S(0, 0, k, l)))
        return f


class FkAy_num(FkAx_num):
    func = 'fkAy_num'

    def spec(self, v):
        s = self.shell(v)
        fl = s.flags()
        p, q, xi, eta, w = quadrature(s, v, self.nx, self.ny)

        def f(d1, d2, i, j, k, l):
            if (d1, d2) != (2, 2):
                return ZERO
            S = lambda px, py, i, j: BFs(fl, 2, px, py, i, j, xi, eta)
            return over_points(p, q, self.nx, self.ny, -w * s.a('beta') * 2 / s.a('b') * S(0, 1, i, j) * S(0, 0, k, l))
        return f


class CalcFint(NumKernel, VectorContract):
    func = 'calc_fint'
    cost = 8
    props = ('P08',)
    deviations = ('shear2',)
    prove = VectorContract.prove
    expected = VectorContract.expected
    check_result = VectorContract.check_result

    def variants(self):
        return [dict(d, F=f) for f in ('one', 'each') for d in DOM]

    def args(self, v):
        s = self.shell(v)
        return [self.cs(v), self.lam(v), s, Size([Base('C0').term + 3 * s.a('m') * s.a('n')]), Base('C0')] + self.points()

    def layout(self, v):
        s = self.shell(v)
        return dict(dims=(s.a('m'), s.a('n')), base=Base('C0').term, size=sym('size', True))

    def spec(self, v):
        s = self.shell(v)
        fl = s.flags()
        p, q, xi, eta, w = quadrature(s, v, self.nx, self.ny)
        at = self.cs(v).at
        N = forces(self, v, s, p, q, xi, eta, 1)
        kin = self.kin(v, ritz(s, at, Base('C0').term, 2, 1, 0, xi, eta), ritz(s, at, Base('C0').term, 2, 0, 1, xi, eta))

        def f(d, i, j):
            r = ZERO
            for st in range(6):
                for (c, px, py) in kin.terms(st, d):
                    r = r + N[st] * c * BFs(fl, d, px, py, i, j, xi, eta)
            return over_points(p, q, self.nx, self.ny, w * r)
        return f


def all_contracts():
    r = []
    for mdl in MODELS:
        for cls in (Fk0, FkG0, FkM, FkAx, FkAy, FcA, FkC_num, FkG_num, FkM_num, FkAx_num, FkAy_num, CalcFint):
            r.append(cls(mdl))
    return r
