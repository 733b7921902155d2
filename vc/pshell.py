"""Contracts of the panel object (panels/shell.py) and of the functions on top of it."""
from .expr import *
from .pylayer import PyContract, SymFn
from . import sym as S
from . import kern as K

FLAGS = K.BC
PLATE = 'plate_clpt_donnell_bardell'
CYL = 'cylshell_clpt_donnell_bardell'
MOD = 'panels.models.'
FIELD = MOD + 'clpt_bardell_field'


class Panel:
    """definition of a panel and the object built from it"""

    def __init__(self, I, label, curved=False, ply='one', offset=True, hist=False, model=None, sub=False, over=()):
        self.I, self.label = I, label
        L = label + '.'
        d = self.d = {}
        d['a'] = I.pos(L + 'a')
        d['b'] = I.pos(L + 'b')
        d['r'] = I.pos(L + 'r', 1.5, 5.0) if curved else None
        d['m'] = I.int(L + 'm', 2, 5)
        d['n'] = I.int(L + 'n', 2, 5)
        self.stack = I.seq(L + 'stack', lambda i: I.el(L + 'angle', i) * 90, lo=1)
        self.ply = ply
        self.rho = I.pos(L + 'rho')
        self.offset = I.real(L + 'offset', -0.1, 0.1) if offset else 0.
        self.plyt = I.pos(L + 'plyt', 0.05, 0.2)
        self.prop = tuple(I.pos(L + k, lo, hi) for k, lo, hi in (('E1', 8., 12.), ('E2', 1., 2.), ('nu', 0.2, 0.35), ('G12', 0.5, 1.), ('G13', 0.5, 1.), ('G23', 0.5, 1.)))
        if ply == 'one':
            self.plyts = I.rep_like(self.plyt, self.stack)
            self.props = I.rep_like(self.prop, self.stack)
            self.rhos = I.rep_like(self.rho, self.stack)
            kw = dict(plyt=self.plyt, laminaprop=self.prop, rho=self.rho)
        else:
            n = I.length(self.stack)
            self.plyts = I.seqn(n, lambda i: 0.05 + 0.1 * I.el(L + 'plyts', i))
            self.props = I.seqn(n, lambda i: (8. + I.el(L + 'E1s', i),) + tuple(self.prop[1:]))
            self.rhos = I.seqn(n, lambda i: 1. + I.el(L + 'rhos', i))
            kw = dict(plyts=self.plyts, laminaprops=self.props, rhos=self.rhos)
        d['offset'] = self.offset
        for f in FLAGS:
            d[f] = I.real(L + f, 0., 1.)
        self.nx = I.int(L + 'nx', 2, 6)
        self.ny = I.int(L + 'ny', 2, 6)
        if sub:
            d['x1'] = I.pos(L + 'x1', 0.1, 0.2)
            d['x2'] = I.pos(L + 'x2', 0.3, 0.5)
            d['y1'] = I.pos(L + 'y1', 0.1, 0.2)
            d['y2'] = I.pos(L + 'y2', 0.3, 0.5)
        else:
            d['x1'], d['x2'], d['y1'], d['y2'] = -1, 1, -1, 1
        self.model = CYL if curved else PLATE
        self.curved = curved
        self.o = I.new('panels.shell', 'Shell', a=d['a'], b=d['b'], r=d['r'], stack=self.stack, offset=self.offset, m=d['m'], n=d['n'], **kw)
        I.set(self.o, nx=self.nx, ny=self.ny, x1=d['x1'], x2=d['x2'], y1=d['y1'], y2=d['y2'], **{f: d[f] for f in FLAGS})
        if model:
            I.set(self.o, model=self.model)
        self.NX = I.max(self.nx, d['m'])
        self.NY = I.max(self.ny, d['n'])
        self.N3 = 3 * d['m'] * d['n']
        if hist:
            self.history()

    def lam(self):
        return self.I.laminate(stack=self.stack, plyts=self.plyts, laminaprops=self.props, rhos=self.rhos, offset=self.offset)

    def history(self):
        """whatever was computed before: caches hold unrelated values"""
        I, L = self.I, self.label + '.old.'
        I.set(self.o, lam=I.laminate(stack=self.stack, plyts=self.plyts, laminaprops=self.props, rhos=self.rhos, offset=I.real(L + 'offset')),
              ABD=I.sym6(L + 'ABD'), size=I.int(L + 'size', 1), model=self.model)

    def ref(self, **kw):
        """what the kernels may read: exactly the definition"""
        d = dict(self.d)
        if d['r'] is None:
            d['r'] = 0.
        d.update(lam=self.lam(), nx=self.NX, ny=self.NY, stack=self.stack, plyts=self.plyts, laminaprops=self.props, rhos=self.rhos, rho=self.rho, **kw)
        return self.I.bag(**d)
