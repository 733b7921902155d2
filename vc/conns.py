"""Contracts of the penalty matrices: connections between panels and prescribed displacements.

Every matrix is stated through the jump it penalises: U = 1/2 sum_c k_c * integral of (J_c)^2, with J_c a linear
function of the displacement fields.  The block of panels (P, Q) holds k_c * integral of J_c(unit p) J_c(unit q).
"""
from .expr import *
from .contracts import *
from . import kern as K
from . import spec_shell as SS
from .kernels import SparseContract, BFs
from .kern import II, BF


class Later(Base):
    """first column of a block that comes after another one"""
    def __init__(self, name, start):
        Base.__init__(self, name)
        self.start = start

    @property
    def term(self):
        return self.start + 3 * sym(self.name, True)

    def concrete(self, env):
        return int(evaluator(env).p(self.term))


class PenaltyContract(SparseContract):
    """subclasses give: panels (labels of the row and of the column panel), jumps, domain"""
    pre = 'panels.multidomain.connections.'

    def jumps(self):
        """list of (stiffness, {panel number: [(coef, field, order in xi, order in eta)]})"""
        raise NotImplementedError

    def at(self, n):
        """{'x': xi or None (integrated), 'y': eta or None} on panel n"""
        raise NotImplementedError

    def jac(self):
        raise NotImplementedError

    P = Q = 1

    def shell(self, n):
        raise NotImplementedError

    def col(self):
        if self.P == self.Q:
            return Base('C0')
        s = self.shell(self.P)
        return Later('gap', Base('R0').term + 3 * s.a('m') * s.a('n'))

    def layout(self, v):
        s, t = self.shell(self.P), self.shell(self.Q)
        return dict(dims1=(s.a('m'), s.a('n')), dims2=(t.a('m'), t.a('n')), base1=Base('R0').term, base2=self.col().term,
                    size=sym('size', True), upper=self.P == self.Q)

    def tail(self):
        s, t = self.shell(self.P), self.shell(self.Q)
        return [Size([Base('R0').term + 3 * s.a('m') * s.a('n'), self.col().term + 3 * t.a('m') * t.a('n')]),
                Base('R0'), self.col()]

    def spec(self, v):
        s, t = self.shell(self.P), self.shell(self.Q)
        fs, ft = s.flags(), t.flags()
        ps, pt = self.at(self.P), self.at(self.Q)

        def f(d1, d2, i, j, k, l):
            r = ZERO
            for kc, J in self.jumps():
                for (c1, e1, px, py) in J.get(self.P, []):
                    for (c2, e2, qx, qy) in J.get(self.Q, []):
                        if (e1, e2) != (d1, d2):
                            continue
                        if ps['x'] is None:
                            X = II(px, i, fs['x', d1], qx, k, ft['x', d2])
                        else:
                            X = BF(px, i, ps['x'], fs['x', d1]) * BF(qx, k, pt['x'], ft['x', d2])
                        if ps['y'] is None:
                            Y = II(py, j, fs['y', d1], qy, l, ft['y', d2])
                        else:
                            Y = BF(py, j, ps['y'], fs['y', d1]) * BF(qy, l, pt['y'], ft['y', d2])
                        r = r + kc * c1 * c2 * X * Y
            return r * self.jac()
        return f


class Connection(PenaltyContract):
    """kind: SSxcte, SSycte, BFxcte, BFycte, SB;  block: 11, 12, 22"""
    props = ('P11',)

    def __init__(self, kind, block):
        self.kind, self.block = kind, block
        self.P, self.Q = int(block[0]), int(block[1])
        self.module = self.pre + 'kC' + kind
        self.func = 'fkC%s%s' % (kind, block)
        self.name = self.func
        self.line = kind[2] if kind != 'SB' else None       # axis held constant

    def shell(self, n):
        if n == 1:
            return ShellArg('p1')
        # the connected line (or area) is the same for both panels
        over = {}
        s1 = ShellArg('p1')
        if self.line in (None, 'y'):
            over['a'] = s1.a('a')
        if self.line in (None, 'x'):
            over['b'] = s1.a('b')
        return SharedShell('p2', over)

    def args(self, v):
        r = [Real('kt', 0.5, 3)]
        both = self.block != '11'
        if self.kind == 'SB':
            if self.block != '22':
                r += [Real('dsb', -0.9, 0.9)]
            r += [self.shell(1)] + ([self.shell(2)] if both else [])
        else:
            c = self.line + 'cte'
            r += [Real('kr', 0.5, 3), self.shell(1)] + ([self.shell(2)] if both else [])
            if self.block in ('11', '12'):
                r += [Real(c + '1', 0.1, 2)]
            if both:
                r += [Real(c + '2', 0.1, 2)]
        return r + self.tail()

    def at(self, n):
        s = self.shell(n)
        p = {'x': None, 'y': None}
        if self.line:
            p[self.line] = 2 * sym('%scte%d' % (self.line, n)) / s.a('a' if self.line == 'x' else 'b') - 1
        return p

    def jac(self):
        a, b = self.shell(1).a('a'), self.shell(1).a('b')
        return {'x': b / 2, 'y': a / 2, None: a * b / 4}[self.line]

    def jumps(self):
        kt, kr, dsb = sym('kt'), sym('kr'), sym('dsb')
        one = lambda d: [(ONE, d, 0, 0)]
        neg = lambda d: [(-ONE, d, 0, 0)]
        if self.kind == 'SB':
            a, b = self.shell(1).a('a'), self.shell(1).a('b')
            # in-plane displacement of panel 1 at the mid-surface of panel 2: lever arm times the slope
            return [(kt, {1: one(0) + [(dsb * 2 / a, 2, 1, 0)], 2: neg(0)}),
                    (kt, {1: one(1) + [(dsb * 2 / b, 2, 0, 1)], 2: neg(1)}),
                    (kt, {1: one(2), 2: neg(2)})]
        if self.line == 'x':
            rot = lambda n: [((1 if n == 1 else -1) * 2 / self.shell(n).a('a'), 2, 1, 0)]
        else:
            rot = lambda n: [((1 if n == 1 else -1) * 2 / self.shell(n).a('b'), 2, 0, 1)]
        r = [(kr, {1: rot(1), 2: rot(2)})]
        if self.kind[:2] == 'SS':
            return r + [(kt, {1: one(d), 2: neg(d)}) for d in range(3)]
        # flange perpendicular to the base: the displacement normal to the line and the deflection change roles
        e = 0 if self.line == 'x' else 1            # in-plane component normal to the line
        t = 1 - e
        return r + [(kt, {1: one(t), 2: neg(t)}), (kt, {1: one(e), 2: neg(2)}), (kt, {1: one(2), 2: one(e)})]


class SharedShell(ShellArg):
    """some attributes are those of another shell"""
    def __init__(self, label, shared):
        ShellArg.__init__(self, label)
        self.shared = shared

    def symbolic(self, ex):
        return K.shell_obj(self.label, over=dict(self.shared))

    def a(self, name):
        return self.shared[name] if name in self.shared else ShellArg.a(self, name)

    def concrete(self, env):
        env = dict(env)
        ev = evaluator(env)
        for k, t in self.shared.items():
            env['%s.%s' % (self.label, k)] = ev.p(t)
        return ShellArg.concrete(self, env)

    def sample(self, env, rng):
        ShellArg.sample(self, env, rng)
        for k, t in self.shared.items():
            env['%s.%s' % (self.label, k)] = 1.0      # replaced in concrete()


class Prescribed(PenaltyContract):
    """penalty of a displacement prescribed at a point or along a line"""
    props = ('P12',)
    module = PenaltyContract.pre + 'kCpd'

    def __init__(self, func, held):
        self.func = self.name = func
        self.held = held            # axes held constant

    def shell(self, n=1):
        return ShellArg('p')

    def args(self, v):
        return ([Real('ku', 0, 3), Real('kv', 0, 3), Real('kw', 0, 3), self.shell()]
                + [Real(ax + 'p', 0.1, 2) for ax in self.held] + self.tail())

    def at(self, n):
        s = self.shell()
        return {'x': 2 * sym('xp') / s.a('a') - 1 if 'x' in self.held else None,
                'y': 2 * sym('yp') / s.a('b') - 1 if 'y' in self.held else None}

    def jac(self):
        s = self.shell()
        return {'xy': ONE, 'x': s.a('b') / 2, 'y': s.a('a') / 2}[self.held]

    def jumps(self):
        return [(sym('k' + 'uvw'[d]), {1: [(ONE, d, 0, 0)]}) for d in range(3)]


def all_contracts():
    r = [Connection(k, b) for k in ('SSxcte', 'SSycte', 'BFxcte', 'BFycte', 'SB') for b in ('11', '12', '22')]
    r += [Prescribed('fkCpd', 'xy'), Prescribed('fkCld_xcte', 'x'), Prescribed('fkCld_ycte', 'y')]
    return r
