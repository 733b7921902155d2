"""Contracts of the stiffener kernels."""
from .expr import *
from .contracts import *
from . import kern as K
from . import spec_shell as SS
from .kernels import SparseContract
from .conns import PenaltyContract
from .kern import II, BF


class Attr(Arg):
    """an attribute of a shell passed on its own"""
    def __init__(self, shell, name):
        self.shell, self.name = shell, name

    def symbolic(self, ex):
        return self.shell.a(self.name)

    def concrete(self, env):
        v = env['%s.%s' % (self.shell.label, self.name)]
        return int(v) if self.name in K.INTATTR else float(v)


class FlatMixin:
    """the kernel takes the attributes of the shells one by one"""
    def hidden(self, v):
        raise NotImplementedError

    def facts(self, v):
        r = SparseContract.facts(self, v)
        for s in self.hidden(v):
            r += s.facts()
        return r

    def sample(self, v, rng, env):
        for s in self.hidden(v):
            s.sample(env, rng)
        return SparseContract.sample(self, v, rng, env)


def bc(s, fields):
    return [Attr(s, '%s%s%s%s' % (ax, e, d, r)) for ax in 'xy' for d in fields for e in '12' for r in ('', 'r')]


class BladeFlange(FlatMixin, SparseContract):
    """1D flange attached to the skin along y = ys"""
    props = ('P15',)
    module = 'panels.stiffener.models.bladestiff1d_clt_donnell_bardell'

    def __init__(self):
        self.name = 'bladestiff1d.' + self.func

    def hidden(self, v):
        return [self.shell()]

    def shell(self):
        return ShellArg('bay')

    def layout(self, v):
        s = self.shell()
        dims = (s.a('m'), s.a('n'))
        return dict(dims1=dims, dims2=dims, base1=Base('R0').term, base2=Base('C0').term, size=sym('size', True))

    def tail(self):
        s = self.shell()
        mn = 3 * s.a('m') * s.a('n')
        return [Size([Base('R0').term + mn, Base('C0').term + mn]), Base('R0'), Base('C0')]

    def quad(self, terms, sym2):
        """second variation of 1/2 int sum sym2[p, q] e_p e_q dx, e_p = sum of (coef, field, px, py) on the line y = ys"""
        s = self.shell()
        fl = s.flags()
        eta = 2 * sym('ys') / s.a('b') - 1

        def f(d1, d2, i, j, k, l):
            r = ZERO
            for (p, q), cc in sym2.items():
                for (c1, e1, px, py) in terms[p]:
                    for (c2, e2, qx, qy) in terms[q]:
                        if (e1, e2) == (d1, d2):
                            r = r + (cc * c1 * c2 * II(px, i, fl['x', d1], qx, k, fl['x', d2])
                                     * BF(py, j, eta, fl['y', d1]) * BF(qy, l, eta, fl['y', d2]))
            return r * s.a('a') / 2
        return f


class FkCf(BladeFlange):
    func = 'fkCf'

    def args(self, v):
        s = self.shell()
        return ([Real('ys', 0.1, 1.0), Attr(s, 'a'), Attr(s, 'b'), Real('bf', 0.2, 1), Real('df', 0.1, 1), Real('E1', 0.5, 3),
                 Real('F1', 0.5, 3), Real('S1', 0.1, 1), Real('Jxx', 0.1, 2), Attr(s, 'm'), Attr(s, 'n')] + bc(s, 'uw') + self.tail())

    def spec(self, v):
        s = self.shell()
        A, B = 2 / s.a('a'), 2 / s.a('b')
        E1, F1, S1, J, df, bf = [sym(x) for x in ('E1', 'F1', 'S1', 'Jxx', 'df', 'bf')]
        # axial strain at the centroid of the flange (at z = -df), curvature and twist of the line
        terms = {'e': [(A, 0, 1, 0), (df * A * A, 2, 2, 0)], 'k': [(A * A, 2, 2, 0)], 't': [(A * B, 2, 1, 1)]}
        return self.quad(terms, {('e', 'e'): bf * E1, ('k', 'k'): bf * F1, ('t', 't'): bf * J,
                                 ('e', 't'): -bf * S1, ('t', 'e'): -bf * S1})


class FkGf(BladeFlange):
    func = 'fkGf'

    def args(self, v):
        s = self.shell()
        return ([Real('ys', 0.1, 1.0), Real('Fx'), Attr(s, 'a'), Attr(s, 'b'), Real('bf', 0.2, 1), Attr(s, 'm'), Attr(s, 'n')]
                + bc(s, 'w') + self.tail())

    def spec(self, v):
        s = self.shell()
        return self.quad({'s': [(2 / s.a('a'), 2, 1, 0)]}, {('s', 's'): sym('Fx')})


class FkMf(BladeFlange):
    func = 'fkMf'

    def args(self, v):
        s = self.shell()
        return ([Real('ys', 0.1, 1.0), Real('rho', 0.5, 2), Real('h', 0.1, 0.6), Real('hb', 0.0, 0.5), Real('hf', 0.1, 0.5),
                 Attr(s, 'a'), Attr(s, 'b'), Real('bf', 0.2, 1), FlangeArm(), Attr(s, 'm'), Attr(s, 'n')] + bc(s, 'uvw') + self.tail())

    def spec(self, v):
        s = self.shell()
        A, B = 2 / s.a('a'), 2 / s.a('b')
        h, hb, bf = sym('h'), sym('hb'), sym('bf')
        z0 = h / 2 + hb
        # the flange spans heights -(h/2 + hb + bf) to -(h/2 + hb): moments of (-z)
        mom = [bf, bf * (z0 + bf / 2), bf * (z0 * z0 + z0 * bf + bf * bf / 3)]
        disp = {0: {0: [(ONE, 0, 0, 0)], 1: [(A, 2, 1, 0)]}, 1: {0: [(ONE, 1, 0, 0)], 1: [(B, 2, 0, 1)]}, 2: {0: [(ONE, 2, 0, 0)]}}
        terms, cf = {}, {}
        for comp, pw in disp.items():
            for p, t in pw.items():
                terms[comp, p] = t
                for q in pw:
                    cf[(comp, p), (comp, q)] = sym('rho') * sym('hf') * mom[p + q]
        return self.quad(terms, cf)


class FlangeArm(Arg):
    """df: distance of the flange centroid to the skin mid-surface (BladeStiff1D: dbf)"""
    def symbolic(self, ex):
        return sym('bf') / 2 + sym('hb') + sym('h') / 2

    def concrete(self, env):
        return float(env['bf']) / 2 + float(env['hb']) + float(env['h']) / 2


class Blade2D(FlatMixin, PenaltyContract):
    """flange (2D) attached to the skin along y = ys by its edge y = 0"""
    props = ('P15',)
    module = 'panels.stiffener.models.bladestiff2d_clt_donnell_bardell'

    def __init__(self, block):
        self.func = 'fkC' + block
        self.name = 'bladestiff2d.' + self.func
        self.block = block
        self.P, self.Q = {'ss': (1, 1), 'sf': (1, 2), 'ff': (2, 2)}[block]

    def hidden(self, v):
        return [self.shell(n) for n in sorted({self.P, self.Q})] + ([BFlange()] if self.block != 'ss' else []) \
            + ([BayLen()] if self.block == 'ff' else [])

    def shell(self, n):
        return ShellArg('bay') if n == 1 else ShellArg('fl')

    def args(self, v):
        bay, fl = self.shell(1), self.shell(2)
        r = [Real('kt', 0.5, 3), Real('kr', 0.5, 3)]
        if self.block == 'ss':
            r += [Real('ys', 0.1, 1), Attr(bay, 'a'), Attr(bay, 'b'), Attr(bay, 'm'), Attr(bay, 'n')] + bc(bay, 'uvw')
        elif self.block == 'sf':
            r += [Real('ys', 0.1, 1), Attr(bay, 'a'), Attr(bay, 'b'), Real('bf', 0.2, 1), Attr(bay, 'm'), Attr(bay, 'n'),
                  Attr(fl, 'm'), Attr(fl, 'n')] + bc(bay, 'uvw') + bc(fl, 'uvw')
        else:
            r += [Attr(bay, 'a'), Real('bf', 0.2, 1), Attr(fl, 'm'), Attr(fl, 'n')] + bc(fl, 'uvw')
        return r + self.tail()

    def at(self, n):
        return {'x': None, 'y': 2 * sym('ys') / self.shell(1).a('b') - 1 if n == 1 else -ONE}

    def jac(self):
        return self.shell(1).a('a') / 2

    def jumps(self):
        kt, kr = sym('kt'), sym('kr')
        return [(kr, {1: [(2 / self.shell(1).a('b'), 2, 0, 1)], 2: [(-2 / sym('bf'), 2, 0, 1)]}),
                (kt, {1: [(ONE, 0, 0, 0)], 2: [(-ONE, 0, 0, 0)]}),
                (kt, {1: [(ONE, 1, 0, 0)], 2: [(-ONE, 2, 0, 0)]}),
                (kt, {1: [(ONE, 2, 0, 0)], 2: [(ONE, 1, 0, 0)]})]


class BFlange(Arg):
    def sample(self, env, rng):
        env.setdefault('bf', rng.uniform(0.2, 1.0))


class BayLen(Arg):
    def sample(self, env, rng):
        env.setdefault('bay.a', rng.uniform(0.6, 2.0))


def all_contracts():
    return [FkCf(), FkGf(), FkMf()] + [Blade2D(b) for b in ('ss', 'sf', 'ff')]
