"""P09: recovered fields.  fuvw, fstrain (compiled), Shell.uvw, strain, stress."""
import numpy as np
from .expr import *
from .contracts import *
from . import kern as K
from . import sym as S
from . import check as C
from .kernels import Contract, BFs, TRUSTED
from .pylayer import PyContract, kernel_term, total
from .pshell import Panel, FIELD
from .pmeth import spread


class Field(Contract):
    """element t of every returned array is the field at (xs[t], ys[t]), for every number of points and cores"""
    props = ('P09',)
    module = FIELD
    samples = 30
    names = ()

    def shell(self, v):
        over = {}
        if self.func == 'fstrain' and v['r'] == 'plate':
            over['r'] = const(0)
        return ShellArg('s', curved=self.func == 'fstrain' and v['r'] != 'plate', over=over)

    def variants(self):
        # pad points complete the last row of the table of points
        return [dict(pad=p, r=r) for p in (0, 1) for r in (('plate', 'curved') if self.func == 'fstrain' else ('any',))]

    def spec(self, v, at, x, y):
        """list of terms; at(i): i-th coefficient"""
        raise NotImplementedError

    def sums(self, v, at, x, y):
        s = self.shell(v)
        fl = s.flags()
        a, b, m, n = s.a('a'), s.a('b'), s.a('m'), s.a('n')
        xi, eta = 2 * x / a - 1, 2 * y / b - 1

        def f(d, px, py):
            i, j = fresh('i', True), fresh('j', True)
            t = at(3 * (j * m + i) + d) * BFs(fl, d, px, py, i, j, xi, eta)
            return (2 / a) ** px * (2 / b) ** py * mk_sum(j.as_atom(), ZERO, n, mk_sum(i.as_atom(), ZERO, m, t))
        return f

    def prove(self, rep, loader, v):
        mod = loader.find(self.module)
        s = self.shell(v)
        nc, sc, pad = sym('ncores', True), sym('percore', True), sym('pad', True)
        # callers pass a vector covering the panel (an obligation at every call)
        facts = s.facts() + [f_le(ONE, nc), f_le(ONE, sc), f_le(3 * s.a('m') * s.a('n'), sym('csize', True))]
        size = nc * sc
        if v['pad']:
            facts += [f_lt(ZERO, pad), f_lt(pad, nc)]
            size = size - pad
        if v['r'] == 'curved':
            facts.append(f_not(f_eq(s.a('r'), ZERO)))
        nm = self.name + '[%s]' % ','.join('%s=%s' % x for x in v.items())
        extra = [sym('NLgeom', True)] if self.func == 'fstrain' else []

        def make(dec):
            ex = S.Executor(loader, facts=facts, decisions=dec)
            K.setup(ex)
            c = S.Arr('c', (sym('csize', True),), lambda ix: app('c@', *ix))
            xs, ys = [S.Arr(k, (size,), lambda ix, k=k: app(k + '@', *ix)) for k in ('xs', 'ys')]
            try:
                ex.result = ex.call_function(S.Func(mod.funcs[self.func]), [c, s.symbolic(ex), xs, ys, nc] + extra, {})
            except S.PathRaise as e:
                ex.result = e
            return ex
        for ex in S.explore(make):
            rep.covers(ex)
            if isinstance(ex.result, S.PathRaise):
                rep.ok(nm + ': no error for valid inputs', False, repr(ex.result))
                continue
            I, J = sym('X_i', True), sym('X_j', True)
            hy = facts + ex.pc + [f_le(ZERO, I), f_lt(I, nc), f_le(ZERO, J), f_lt(J, sc)]
            ex.facts = ex.facts + hy[-4:]
            t = I * sc + J
            sp = self.spec(v, lambda i: app('c@', i), app('xs@', t), app('ys@', t))
            if not isinstance(ex.result, tuple) or len(ex.result) != len(sp):
                rep.ok(nm + ': number of arrays', False, repr(ex.result))
                continue
            for what, got, e in zip(self.names, ex.result, sp):
                rep.eq('%s: %s has one value for each point' % (nm, what), got.shape[0] if len(got.shape) == 1 else app('rank2'), size, hy)
                rep.eq('%s: %s' % (nm, what), ex.getitem(got, [t]), e, hy)
            for o in ex.obligs:
                rep.valid(nm + ': ' + o[0], o[1] + hy, o[2])

    def sample(self, v, rng, env):
        self.shell(v).sample(env, rng)
        nc = env.setdefault('ncores', rng.randint(2 if v['pad'] else 1, 6))
        sc = env.setdefault('percore', rng.randint(1, 4))
        env['ncores'], env['percore'] = nc, sc = max(2 if v['pad'] else 1, min(int(nc), 8)), max(1, min(int(sc), 6))
        pad = env.setdefault('pad', rng.randint(1, max(nc - 1, 1)))
        size = nc * sc - (max(1, min(int(pad), nc - 1)) if v['pad'] else 0)
        env['_size'] = size
        env.setdefault('NLgeom', rng.randint(0, 1))
        L = 3 * int(env['s.m']) * int(env['s.n']) + 2
        for k, n, lo, hi in (('c@', L, -0.3, 0.3), ('xs@', size, 0.05, 0.55), ('ys@', size, 0.05, 0.55)):
            if k not in env or len(env[k]) != n:
                env[k] = [rng.uniform(lo, hi) for _ in range(n)]
        return env

    def run(self, v, env, getfunc):
        fn = getfunc(self.module, self.func)
        env = dict(env)
        size = env.pop('_size')
        o = self.shell(v).concrete(env)
        extra = [int(env['NLgeom'])] if self.func == 'fstrain' else []
        got = call(fn, np.array(env['c@'], dtype=float), o, np.array(env['xs@'], dtype=float), np.array(env['ys@'], dtype=float), int(env['ncores']), *extra)
        with tree_terms():
            ev = TermEval(env)
            t = ev.index('X_t', size)
            sp = self.spec(v, lambda i: app('c@', i), app('xs@', t), app('ys@', t))
            if len(got) != len(sp):
                raise Mis('%d arrays instead of %d' % (len(got), len(sp)))
            for what, g, e in zip(self.names, got, sp):
                compare(what, np.asarray(g), ev.grid(e, ('X_t',), (size,)))


class Fuvw(Field):
    func = 'fuvw'
    name = 'field.fuvw'
    names = ('u', 'v', 'w', 'phix', 'phiy')

    def spec(self, v, at, x, y):
        f = self.sums(v, at, x, y)
        return [f(0, 0, 0), f(1, 0, 0), f(2, 0, 0), -f(2, 1, 0), -f(2, 0, 1)]


class Fstrain(Field):
    func = 'fstrain'
    name = 'field.fstrain'
    names = ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')

    def spec(self, v, at, x, y):
        f = self.sums(v, at, x, y)
        NL = sym('NLgeom', True)
        wx, wy = f(2, 1, 0), f(2, 0, 1)
        half = const(Fraction(1, 2))
        eyy = f(1, 0, 1) + half * NL * wy * wy
        if v['r'] == 'curved':
            eyy = eyy + f(2, 0, 0) / self.shell(v).a('r')
        return [f(0, 1, 0) + half * NL * wx * wx, eyy, f(0, 0, 1) + f(1, 1, 0) + NL * wx * wy,
                -f(2, 2, 0), -f(2, 0, 2), -2 * f(2, 1, 1)]


# ------------------------------------------------------------------ python layer
UVW = ('u', 'v', 'w', 'phix', 'phiy')
STRAIN = ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')
STRESS = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')


def field_contract(loader, fn):
    """the fields do not depend on the number of cores, and only on the coefficients of the panel"""
    def f(ex, bound):
        b = dict(bound)
        sh = b['s']
        nc = ex.num(b['num_cores'])
        ex.obligs.append(('%s gets at least one core' % fn, ex.hyps(), f_le(ONE, nc)))
        b['num_cores'] = ONE
        c = b['c']
        if isinstance(c, (S.Arr, S.View)):
            N = 3 * ex.num(ex.getattr(sh, 'm')) * ex.num(ex.getattr(sh, 'n'))
            ex.obligs.append(('%s gets a vector covering the panel' % fn, ex.hyps(), f_le(N, c.shape[0])))
            b['c'] = S.Arr('c', (N,), lambda ix, c=c: total(ex, c, ix))
        return kernel_term(ex, loader.find(FIELD), fn, b)
    return f


def field_contracts(ex):
    return {FIELD + '.' + fn: field_contract(ex.loader, fn) for fn in ('fuvw', 'fstrain')}


class FieldMethod(PyContract):
    props = ('P09',)
    module = 'panels.shell'
    samples = 32
    how = ''

    def contracts(self, ex):
        return field_contracts(ex)

    def cases(self, v):
        return spread(dict(curved=(0, 1), points=('given', 'scalars', 'default', 'grid', 'only x'), hist=(0, 1)),
                      dict(NL=(None, True, False), ABD=('own', 'given'), c=('array', 'long'), cores=(0, 1)))

    def scenario(self, I, v, c):
        p = Panel(I, 'p', bool(c['curved']))
        I.method(p.o, '_rebuild')
        nc = I.attr(p.o, 'out_num_cores')
        if c['cores']:
            nc = I.int('cores', 1, 5)
            I.set(p.o, out_num_cores=nc)
        cv = I.arr('c', (p.N3 + (I.int('over', 1) if c['c'] == 'long' else 0),))
        if c['hist']:
            # fields calculated before, elsewhere
            xo, yo = I.nd('xold', other=True), I.nd('yold')
            I.method(p.o, 'uvw', I.arr('cold', (p.N3,)), xs=yo, ys=yo)
            I.method(p.o, 'stress', I.arr('cold', (p.N3,)), xs=yo, ys=yo)
        kw = {}
        nx, ny = 300, 300
        if c['points'] == 'grid':
            nx, ny = I.int('gx', 2, 5), I.int('gy', 2, 5)
            kw = dict(gridx=nx, gridy=ny)
        if c['points'] == 'given':
            x, y = I.nd('xs'), I.nd('ys', like='xs')
            kw = dict(xs=x, ys=y)
        elif c['points'] == 'scalars':
            x, y = I.pos('px', 0.1, 0.4), I.pos('py', 0.1, 0.4)
            kw = dict(xs=x, ys=y)
            x, y = I.one(x), I.one(y)
        else:
            if c['points'] == 'only x':
                kw = dict(xs=I.nd('xs'))
            x, y = I.meshgrid(I.linspace(0, p.d['a'], nx), I.linspace(0, p.d['b'], ny))
        sh = I.shape(x)
        back = lambda z: I.reshape(z, sh)
        if self.how != 'uvw' and c['NL'] is not None:
            kw['NLgeom'] = c['NL']
        ABD = I.attr(p.lam(), 'ABD')
        if self.how == 'stress' and c['ABD'] == 'given':
            ABD = kw['ABD'] = I.sym6('F')
        mesh, fields = I.method(p.o, self.how, cv, **kw)
        I.same('Xs', I.key(mesh, 'Xs'), back(I.ravel(x)))
        I.same('Ys', I.key(mesh, 'Ys'), back(I.ravel(y)))
        X, Y = I.ravel(x), I.ravel(y)
        if self.how == 'uvw':
            exp = dict(zip(UVW, I.items(I.kernel(FIELD, 'fuvw', cv, p.ref(), X, Y, nc), 5)))
        else:
            NL = 1 if c['NL'] is None else int(c['NL'])
            e = I.items(I.kernel(FIELD, 'fstrain', cv, p.ref(), X, Y, nc, NL), 6)
            exp = dict(zip(STRAIN, e))
            exp = {k: back(z) for k, z in exp.items()}
            if self.how == 'stress':
                st = {}
                for i, k in enumerate(STRESS):
                    r = 0
                    for j, q in enumerate(STRAIN):
                        r = r + exp[q] * I.at(ABD, i, j)
                    st[k] = r
                exp.update(st)
        for k, z in exp.items():
            I.same(k, I.key(fields, k), back(z) if self.how == 'uvw' else z)
            I.same('fields[%s]' % k, I.key(I.attr(p.o, 'fields'), k), back(z) if self.how == 'uvw' else z)


class Uvw(FieldMethod):
    how = 'uvw'
    name = 'Shell.uvw'
    func = 'Shell.uvw, _default_field'


class Strain(FieldMethod):
    how = 'strain'
    name = 'Shell.strain'
    func = 'Shell.strain, _default_field'


class Stress(FieldMethod):
    how = 'stress'
    name = 'Shell.stress'
    func = 'Shell.stress, strain, _default_field'


class FieldRejects(PyContract):
    props = ('P09',)
    module = 'panels.shell'
    name = 'fields reject points that do not match'
    func = 'Shell.uvw, strain, stress, _default_field'

    def contracts(self, ex):
        return field_contracts(ex)

    def cases(self, v):
        return [dict(how=h) for h in ('uvw', 'strain', 'stress', 'ABD')]

    def scenario(self, I, v, c):
        p = Panel(I, 'p')
        I.method(p.o, '_rebuild')
        if c['how'] == 'ABD':
            x, y = I.nd('xs'), I.nd('ys', like='xs')
            I.set(p.o, ABD=None)
            I.raises('stresses need a laminate', 'ValueError', lambda: I.method(p.o, 'stress', I.arr('c', (p.N3,)), xs=x, ys=y))
            return
        x, y = I.nd('xs'), I.nd('ys', other=True)
        I.assume(I.neg(I.same_shape(x, y)))
        I.raises('points of different shapes', 'ValueError', lambda: I.method(p.o, c['how'], I.arr('c', (p.N3,)), xs=x, ys=y))


def all_contracts():
    return [Fuvw(), Fstrain(), Uvw(), Strain(), Stress(), FieldRejects()]
