"""P18: stiffened bays (panels/stiffpanelbay/stiffpanelbay.py, panels/stiffener/bladestiff1d.py, bladestiff2d.py).

Every scenario builds a bay through its own methods, with its twins: panels with the properties the bay must use.  What a
panel contributes is what the method of its twin returns, what a flange contributes are the kernels of the stiffeners.
"""
from .expr import *
from .pylayer import PyContract
from .pshell import FLAGS, PLATE, CYL, FIELD
from .pmeth import spread
from .pload import load_contracts, point_entries, point_term
from .pfield import field_contracts, UVW

BAY = 'panels.stiffpanelbay.stiffpanelbay'
PEN = 'panels.multidomain.connections.penalties'
ST1 = 'panels.stiffener.models.bladestiff1d_clt_donnell_bardell'
ST2 = 'panels.stiffener.models.bladestiff2d_clt_donnell_bardell'
FLANGE = dict(x1u=0., x1ur=0., x2u=0., x2ur=0., x1v=0., x1vr=0., x2v=0., x2vr=0., x1w=0., x1wr=1., x2w=0., x2wr=1.,
              y1u=1., y1ur=0., y2u=1., y2ur=0., y1v=1., y1vr=0., y2v=1., y2vr=0., y1w=1., y1wr=1., y2w=1., y2wr=1.)


def flag_names(fields):
    """order used by the kernels of the stiffeners"""
    return ['%s%s%s%s' % (ax, e, f, r) for ax in 'xy' for f in fields for e in '12' for r in ('', 'r')]


class Lam:
    """a laminate definition: stacking sequence, thickness and properties of the plies"""

    def __init__(self, I, L, ply='one', n=None):
        self.I = I
        self.ply = ply
        self.one_t = I.pos(L + 'plyt', 0.05, 0.2)
        self.one_p = (I.pos(L + 'E1', 8., 12.), I.pos(L + 'E2', 1., 2.), I.pos(L + 'nu', 0.2, 0.35), I.pos(L + 'G12', 0.5, 1.), I.pos(L + 'G13', 0.5, 1.),
                      I.pos(L + 'G23', 0.5, 1.))
        ang = lambda i: I.el(L + 'angle', i) * 90
        self.stack = I.seq(L + 'stack', ang, lo=1) if n is None else I.lst(*[ang(i) for i in range(n)])
        t = lambda i: 0.05 + 0.1 * I.el(L + 'plyts', i)
        p = lambda i: (8. + I.el(L + 'E1s', i),) + tuple(self.one_p[1:])
        if n is None:
            self.many_t, self.many_p = I.seqn(I.length(self.stack), t), I.seqn(I.length(self.stack), p)
        else:
            self.many_t, self.many_p = I.lst(*[t(i) for i in range(n)]), I.lst(*[p(i) for i in range(n)])
        one = ply == 'one'
        self.plyts = I.rep_like(self.one_t, self.stack) if one else self.many_t
        self.props = I.rep_like(self.one_p, self.stack) if one else self.many_p
        self.h = I.total(self.plyts, lambda x: x)

    def kw(self, pre):
        """arguments of add_bladestiff*"""
        if self.ply == 'one':
            return {pre + 'stack': self.stack, pre + 'plyt': self.one_t, pre + 'laminaprop': self.one_p}
        return {pre + 'stack': self.stack, pre + 'plyts': self.many_t, pre + 'laminaprops': self.many_p}

    def shell_kw(self):
        return dict(stack=self.stack, plyts=self.plyts, laminaprops=self.props)


class Bay:
    def __init__(self, I, strips=2, curved=False, ply='one', named=True, load=False, own=False, edge=False):
        """own: the second panel is given properties of its own"""
        self.I, self.curved = I, curved
        self.a = I.pos('a', 1., 2.)
        self.b = I.pos('b', 1., 2.)
        self.r = I.pos('r', 2., 5.) if curved else None
        self.m, self.n = I.int('m', 2, 4), I.int('n', 2, 4)
        self.rho = I.pos('rho')
        self.lam = Lam(I, 'bay.', ply)
        self.model = CYL if curved else PLATE
        self.fl = {f: I.real('bay.' + f, 0., 1.) for f in FLAGS}
        self.o = I.new(BAY, 'StiffPanelBay')
        I.set(self.o, a=self.a, b=self.b, r=self.r, m=self.m, n=self.n, rho=self.rho, stack=self.lam.stack, **self.fl)
        if ply == 'one':
            I.set(self.o, plyt=self.lam.one_t, laminaprop=self.lam.one_p)
        else:
            I.set(self.o, plyts=self.lam.many_t, laminaprops=self.lam.many_p)
        if named:
            I.set(self.o, model=self.model)
        cuts = [I.pos('cut0', 0.2, 0.4), I.pos('cut1', 0.5, 0.8)][:strips - 1]
        e = [I.dec('0.0001')] + cuts + [self.b * I.dec('0.9999')]
        for x, y in zip(e[:-1], e[1:]):
            I.assume(I.lt(x, y))
        # np.isclose has an absolute tolerance
        I.assume(I.lt(I.dec('0.001'), self.b))
        self.cuts = [0.] + cuts + [self.b]
        self.p, self.t, self.lams = [], [], []
        for k in range(strips):
            kw, use, rho = {}, self.lam, self.rho
            if own and k == 1:
                use = Lam(I, 'own.', own)
                rho = I.pos('own.rho')
                kw = dict(use.kw(''), rho=rho)
            N = {}
            if load:
                N = {f: I.real('%s%d' % (f, k)) for f in ('Nxx', 'Nyy', 'Nxy')}
                I.assume(I.ne(N['Nxx'], 0))
            y1, y2 = self.cuts[k], self.cuts[k + 1]
            self.p.append(I.method(self.o, 'add_panel', y1, y2, **dict(kw, **N)))
            self.lams.append(use)
            self.t.append(I.new('panels.shell', 'Shell', a=self.a, b=self.b, r=self.r, m=self.m, n=self.n, rho=rho, y1=y1, y2=y2, model=self.model,
                                **dict(use.shell_kw(), **dict(self.fl, **N))))
        self.st = []
        self.N3 = 3 * self.m * self.n
        self.place()

    def at(self, where):
        """position of a stiffener: boundary k of the strips"""
        k = {'first': 0, 'last': len(self.cuts) - 1}.get(where, where)
        i, j = (k - 1 if k else k), (k if k < len(self.p) else k - 1)
        return self.cuts[k], i, j

    def add(self, kind, where, parts='bf', ply=('one', 'one'), rho=True, Fx=False, **more):
        s = Stiff(self, len(self.st), kind, where, parts, ply, rho, Fx, **more)
        self.st.append(s)
        self.place()
        return s

    def place(self):
        z = self.N3
        for s in self.st:
            s.off = z
            if s.kind == 2 and s.fl is not None:
                z = z + 3 * s.mf * s.nf
        self.size = z

    def total(self, f, g):
        """f(twin of a panel), g(stiffener): in the order of the bay"""
        I, r = self.I, 0
        self.place()
        for t in self.t:
            r = I.add(r, f(t))
        for s in self.st:
            x = g(s)
            if x is not None:
                r = I.add(r, x)
        return r


class Stiff:
    def __init__(self, bay, k, kind, where, parts, ply, rho, Fx, bstate=False):
        I = self.I = bay.I
        L = 's%d.' % k
        self.bay, self.kind = bay, kind
        self.ys, i, j = bay.at(where)
        self.i, self.j = i, j
        self.rho = I.pos(L + 'rho') if rho else bay.rho
        self.base = Lam(I, L + 'b', ply[0]) if 'b' in parts else None
        self.fl = Lam(I, L + 'f', ply[1], n=2 if kind == 1 else None) if 'f' in parts else None
        kw = dict(rho=self.rho) if rho else {}
        if self.base:
            self.bb = I.pos(L + 'bb', 0.05, 0.15)
            kw.update(self.base.kw('b'), bb=self.bb)
        if self.fl:
            self.bf = I.pos(L + 'bf', 0.1, 0.3)
            kw.update(self.fl.kw('f'), bf=self.bf)
        if kind == 2:
            self.mf, self.nf = I.int(L + 'mf', 2, 3), I.int(L + 'nf', 2, 3)
            kw.update(mf=self.mf, nf=self.nf)
        self.Fx = 0.
        if Fx:
            self.Fx = I.real(L + 'Fx')
            if kind == 1:
                kw.update(Fx=self.Fx)
        self.o = I.method(bay.o, 'add_bladestiff%dd' % kind, self.ys, **kw)
        if Fx and kind == 2 and self.fl:
            I.set(I.attr(self.o, 'flange'), Nxx=self.Fx)
        self.h = (bay.lams[i].h + bay.lams[j].h) / 2
        self.hb = self.base.h if self.base else 0.
        if self.base:
            self.tb = I.new('panels.shell', 'Shell', a=bay.a, b=bay.b, r=bay.r, m=bay.m, n=bay.n, rho=self.rho, offset=-(self.h + self.hb) / 2,
                            y1=self.ys - self.bb / 2, y2=self.ys + self.bb / 2, **dict(self.base.shell_kw(), **bay.fl))
        if self.fl and kind == 2:
            self.tf = I.new('panels.shell', 'Shell', a=bay.a, b=self.bf, m=self.mf, n=self.nf, rho=self.rho, model=PLATE, **dict(self.fl.shell_kw(), **FLANGE))
            if Fx:
                I.set(self.tf, Nxx=self.Fx)
        if self.fl and kind == 1:
            self.hf = self.fl.h
            self.df = self.bf / 2 + self.hb + self.h / 2
            lam = I.laminate(stack=self.fl.stack, plyts=self.fl.plyts, laminaprops=self.fl.props)
            E1 = 0
            for p in I.attr(lam, 'plies'):
                E1 = E1 + I.attr(p, 'h') * (I.attr(p, 'q11L') - I.attr(p, 'q12L') ** 2 / I.attr(p, 'q22L'))
            self.E1 = E1
            self.F1 = self.bf ** 2 / 12 * E1
            self.Jxx = self.hf * self.bf ** 3 / 12 + self.bf * self.hf ** 3 / 12

    # matrices; z: size of the matrix, o: first degree of freedom of the flange
    def add2(self, x, y):
        return y if x is None else self.I.add(x, y)

    def kC(self, z, o, r=0):
        """o: place of the flange (2D); r: place of the skin (1D)"""
        I, bay, K = self.I, self.bay, None
        if self.base:
            K = I.method(self.tb, 'calc_kC', size=z, row0=r, col0=r, finalize=False)
        if self.fl and self.kind == 1:
            fl = [bay.fl[k] for k in flag_names('uw')]
            K = self.add2(K, I.kernel(ST1, 'fkCf', self.ys, bay.a, bay.b, self.bf, self.df, self.E1, self.F1, I.attr(self.o, 'S1'), self.Jxx, bay.m, bay.n, *fl,
                                      size=z, row0=r, col0=r))
        if self.fl and self.kind == 2:
            K = self.add2(K, I.method(self.tf, 'calc_kC', size=z, row0=o, col0=o, finalize=False))
            t = self.tb if self.base else bay.t[self.i]
            I.method(t, '_rebuild')
            kt, kr = I.call(PEN, 'calc_kt_kr', t, self.tf, 'ycte')
            sk, ff = [bay.fl[k] for k in flag_names('uvw')], [FLANGE[k] for k in flag_names('uvw')]
            K = I.add(K, I.kernel(ST2, 'fkCss', kt, kr, self.ys, bay.a, bay.b, bay.m, bay.n, *sk, z, 0, 0))
            K = I.add(K, I.kernel(ST2, 'fkCsf', kt, kr, self.ys, bay.a, bay.b, self.bf, bay.m, bay.n, self.mf, self.nf, *sk, *ff, z, 0, o))
            K = I.add(K, I.kernel(ST2, 'fkCff', kt, kr, bay.a, self.bf, self.mf, self.nf, *ff, z, o, o))
        return K

    def kG(self, z, o, r=0, **kw):
        I, bay = self.I, self.bay
        if not self.fl:
            return None
        if self.kind == 1:
            fl = [bay.fl[k] for k in flag_names('w')]
            return I.kernel(ST1, 'fkGf', self.ys, self.Fx, bay.a, bay.b, self.bf, bay.m, bay.n, *fl, z, r, r)
        return I.method(self.tf, 'calc_kG', size=z, row0=o, col0=o, finalize=False, **kw)

    def kM(self, z, o, r=0):
        I, bay, K = self.I, self.bay, None
        if self.base:
            K = I.method(self.tb, 'calc_kM', size=z, row0=r, col0=r, finalize=False)
        if self.fl and self.kind == 1:
            fl = [bay.fl[k] for k in flag_names('uvw')]
            K = self.add2(K, I.kernel(ST1, 'fkMf', self.ys, self.rho, self.h, self.hb, self.hf, bay.a, bay.b, self.bf, self.df, bay.m, bay.n, *fl,
                                      size=z, row0=r, col0=r))
        if self.fl and self.kind == 2:
            K = self.add2(K, I.method(self.tf, 'calc_kM', size=z, row0=o, col0=o, finalize=False))
        return K


class BayContract(PyContract):
    props = ('P18',)
    module = BAY
    samples = 24

    def contracts(self, ex):
        d = load_contracts(ex)
        d.update(field_contracts(ex))
        return d


class AddPanel(BayContract):
    name = 'StiffPanelBay.add_panel'
    func = 'StiffPanelBay.add_panel'
    GIVEN = ((), ('stack',), ('plyt',), ('plyts',), ('laminaprop',), ('laminaprops',), ('rho',), ('model',), ('stack', 'plyt', 'laminaprop'),
             ('stack', 'plyts', 'laminaprops', 'rho'), ('plyt', 'laminaprop', 'model'), ('kwargs',))
    samples = 36

    def cases(self, v):
        return spread(dict(curved=(0, 1), ply=('one', 'many'), given=self.GIVEN), dict(named=(1, 0, 1), second=(0, 1)))

    def scenario(self, I, v, c):
        B = Bay(I, 1, curved=bool(c['curved']), ply=c['ply'], named=bool(c['named']))
        g = c['given']
        if c['second']:
            I.method(B.o, 'calc_kM')
        own = Lam(I, 'own.', 'one')
        y1, y2 = I.pos('y1', 0.1, 0.3), I.pos('y2', 0.4, 0.9)
        kw = {}
        exp = dict(stack=B.lam.stack, plyts=B.lam.plyts, laminaprops=B.lam.props, rho=B.rho, model=B.model)
        n = None
        if 'stack' in g:
            # as many plies as the lists of the bay
            st = own.stack if c['ply'] == 'one' or 'plyt' in g else I.seqn(I.length(B.lam.stack), lambda i: 90 * I.el('own.angle', i))
            kw['stack'] = exp['stack'] = st
        st = exp['stack']
        if c['ply'] == 'one':
            exp['plyts'], exp['laminaprops'] = I.rep_like(B.lam.one_t, st), I.rep_like(B.lam.one_p, st)
        if 'plyt' in g:
            kw['plyt'] = own.one_t
            exp['plyts'] = I.rep_like(own.one_t, st)
        if 'plyts' in g:
            kw['plyts'] = exp['plyts'] = I.seqn(I.length(st), lambda i: 0.05 + 0.1 * I.el('own.plyts', i))
        if 'laminaprop' in g:
            kw['laminaprop'] = own.one_p
            exp['laminaprops'] = I.rep_like(own.one_p, st)
        if 'laminaprops' in g:
            kw['laminaprops'] = exp['laminaprops'] = I.seqn(I.length(st), lambda i: (8. + I.el('own.E1s', i),) + tuple(own.one_p[1:]))
        if 'rho' in g:
            kw['rho'] = exp['rho'] = I.pos('own.rho')
        if 'model' in g:
            kw['model'] = exp['model'] = CYL
        if 'kwargs' in g:
            kw.update(Nxx=I.real('Nxx'), offset=I.real('offset'), x1w=I.real('x1w'), y2vr=I.real('y2vr'), nx=I.int('nx', 8))
        p = I.method(B.o, 'add_panel', y1, y2, **kw)
        I.same('number of panels', I.int_of(len(I.attr(B.o, 'panels'))), I.int_of(2))
        I.same('the panel is the last of the bay', I.attr(B.o, 'panels')[1], p)
        I.same('the first panel stays the first', I.attr(B.o, 'panels')[0], B.p[0])
        I.method(p, '_rebuild')
        for k, x in dict(a=B.a, b=B.b, r=B.r, m=B.m, n=B.n, y1=y1, y2=y2, x1=-1, x2=1, offset=0., Nxx=0., Nyy=0., Nxy=0., **B.fl).items():
            I.same(k, I.attr(p, k), kw.get(k, x))
        for k, x in exp.items():
            I.same(k, I.attr(p, k), x)
        I.same('laminate', I.attr(p, 'lam'), I.laminate(stack=exp['stack'], plyts=exp['plyts'], laminaprops=exp['laminaprops'],
                                                       rhos=I.rep_like(exp['rho'], st), offset=kw.get('offset', 0.)))
        # the bay keeps its own
        for k, x in dict(stack=B.lam.stack, rho=B.rho, a=B.a, b=B.b, m=B.m, n=B.n).items():
            I.same('bay %s' % k, I.attr(B.o, k), x)


class AddRejects(BayContract):
    name = 'stiffeners are rejected'
    func = 'StiffPanelBay.add_bladestiff1d, add_bladestiff2d'

    def cases(self, v):
        return spread(dict(kind=(1, 2), what=('nothing', 'bplyts', 'blaminaprops', 'fplyts', 'flaminaprops', 'panels', 'position')), dict())

    def scenario(self, I, v, c):
        w = c['what']
        B = Bay(I, 2)
        b, f = Lam(I, 'b'), Lam(I, 'f', n=2)
        kw = dict(b.kw('b'), bb=I.pos('bb'), bf=I.pos('bf'), **f.kw('f'))
        ys = B.cuts[1]
        if w == 'nothing':
            kw = {}
        elif w == 'panels':
            B = Bay(I, 0)
            ys = 0.
        elif w == 'position':
            ys = I.pos('ys', 0.41, 0.45)
            I.assume(I.lt(B.cuts[1], ys))
            I.assume(I.lt(ys, B.b * I.dec('0.9999')))
            I.assume(I.lt(I.dec('0.0001'), ys))
        else:
            del kw[w[:-1]]
        I.raises('rejected', 'RuntimeError' if w in ('panels', 'position') else 'ValueError', lambda: I.method(B.o, 'add_bladestiff%dd' % c['kind'], ys, **kw))
        for q in ('stiffeners', 'bladestiff1ds', 'bladestiff2ds'):
            I.same('%s is still empty' % q, I.int_of(len(I.attr(B.o, q))), I.int_of(0))


class AddStiff(BayContract):
    name = 'StiffPanelBay.add_bladestiff1d, add_bladestiff2d'
    func = 'StiffPanelBay.add_bladestiff1d, add_bladestiff2d'

    def cases(self, v):
        return spread(dict(kind=(1, 2), where=('first', 1, 2, 'last'), rho=(0, 1)), dict(parts=('bf', 'b', 'f'), ply=(('one', 'many'), ('many', 'one')), own=(0, 'one', 'many')))

    def scenario(self, I, v, c):
        B = Bay(I, 3, own=c['own'])
        o = B.add(3 - c['kind'], 1)
        s = B.add(c['kind'], c['where'], c['parts'], c['ply'], c['rho'])
        I.same('stiffeners', I.int_of(len(I.attr(B.o, 'stiffeners'))), I.int_of(2))
        I.same('first stiffener', I.attr(B.o, 'stiffeners')[0], o.o)
        I.same('second stiffener', I.attr(B.o, 'stiffeners')[1], s.o)
        for k, x in ((1, o if c['kind'] == 2 else s), (2, s if c['kind'] == 2 else o)):
            q = I.attr(B.o, 'bladestiff%dds' % k)
            I.same('number of bladestiff%dds' % k, I.int_of(len(q)), I.int_of(1))
            I.same('bladestiff%dds' % k, q[0], x.o)
        I.same('panel1', I.attr(s.o, 'panel1'), B.p[s.i])
        I.same('panel2', I.attr(s.o, 'panel2'), B.p[s.j])
        I.same('ys', I.attr(s.o, 'ys'), s.ys)
        I.same('rho', I.attr(s.o, 'rho'), s.rho)


class StiffMatrix(BayContract):
    module = 'panels.stiffener'
    kind = 0
    how = ''

    def where(self):
        return 'panels/stiffener/bladestiff%dd.py:BladeStiff%dD.%s' % (self.kind, self.kind, self.how)

    def cases(self, v):
        return spread(dict(parts=('bf', 'b', 'f'), curved=(0, 1), finalize=(True, False), where=('first', 1, 'last')),
                      dict(place=(0, 1), own=(0, 'one', 'many'), ply=(('one', 'many'), ('many', 'one'), ('one', 'one')), rho=(0, 1), Fx=(1, 0), hist=(0, 1),
                           bply=('one', 'many')))

    def scenario(self, I, v, c):
        B = Bay(I, 2, curved=bool(c['curved']), own=c['own'], ply=c['bply'])
        s = B.add(self.kind, c['where'], c['parts'], c['ply'], c['rho'], bool(c['Fx']))
        for p in B.p:
            I.method(p, '_rebuild')
        if c['hist']:
            I.method(s.o, 'calc_kM' if self.how != 'calc_kM' else 'calc_kC', size=B.size, row0=B.N3 if self.kind == 2 else 0, col0=B.N3 if self.kind == 2 else 0, finalize=False)
        if self.kind == 1:
            # over the skin, wherever it is
            o = I.int('row0', 0) if c['place'] else 0
            z = B.N3 + o + I.int('more', 0)
            kw = dict(row0=o, col0=o) if c['place'] else {}
            spec = getattr(s, self.how[5:])(z, o, o)
        else:
            o = B.N3 + (I.int('row0', 0) if c['place'] else 0)
            z = o + 12 + (3 * s.mf * s.nf if s.fl else 0)
            kw = dict(row0=o, col0=o)
            spec = getattr(s, self.how[5:])(z, o)
        fin = c['finalize'] and spec is not None
        I.method(s.o, self.how, size=z, finalize=fin, **kw)
        K = I.attr(s.o, self.how[5:])
        I.same(self.how, K, 0. if spec is None else I.S(spec) if fin else spec)


def stiff(kind_, how_):
    class M(StiffMatrix):
        kind, how = kind_, how_
        name = 'BladeStiff%dD.%s' % (kind_, how_)
        func = name
    M.__name__ = 'Stiff%d_%s' % (kind_, how_)
    return M()


class StiffState(BayContract):
    name = 'stiffeners in a state c'
    func = 'BladeStiff1D.calc_kG, BladeStiff2D.calc_kG'

    def cases(self, v):
        return spread(dict(kind=(1, 2), finalize=(True, False)), dict())

    def scenario(self, I, v, c):
        B = Bay(I, 2)
        s = B.add(c['kind'], 1, Fx=True)
        cv = I.arr('c', (B.size,))
        if c['kind'] == 1:
            I.raises('no geometric stiffness in a state', 'NotImplementedError', lambda: I.method(s.o, 'calc_kG', size=B.size, c=cv))
            return
        for NL in (None, True):
            kw = {} if NL is None else dict(NLgeom=NL)
            I.method(s.o, 'calc_kG', size=B.size, row0=B.N3, col0=B.N3, c=cv, finalize=c['finalize'], **kw)
            spec = s.kG(B.size, B.N3, c=cv, **kw)
            I.same('kG, NLgeom=%s' % NL, I.attr(s.o, 'kG'), I.S(spec) if c['finalize'] else spec)


class BayMatrix(BayContract):
    how = ''
    STIFF = ((), ((1, 1, 'bf'),), ((2, 1, 'bf'),), ((2, 1, 'b'),), ((2, 2, 'f'), (2, 1, 'bf')), ((2, 'first', 'bf'), (1, 1, 'f'), (2, 2, 'bf')),
             ((1, 2, 'bf'), (2, 1, 'b'), (1, 1, 'b'), (2, 'last', 'f')),
             ((2, 2, 'f'), (2, 'first', 'f'), (2, 1, 'bf'), (2, 'last', 'f')), ((2, 1, 'f'), (2, 2, 'b'), (2, 'last', 'bf'), (1, 1, 'bf'), (2, 'first', 'f')))

    def cases(self, v):
        free = dict(strips=(1, 2, 3), stiff=tuple(range(len(self.STIFF))))
        if self.how == 'calc_kG':
            free['c'] = (0, 1)
        out = spread(free, dict(curved=(0, 1), named=(1, 0, 1), bply=('one', 'many'), own=('one', 'many', 0), hist=(0, 1), Fx=(1, 0, 1),
                                ply=(('one', 'many'), ('many', 'one'), ('one', 'one')), late=(0, 0, 1)))
        keep = []
        for c in out:
            st = self.STIFF[c['stiff']]
            if any(isinstance(w, int) and w >= c['strips'] for k, w, p in st):
                continue
            if c.get('c') and any(k == 1 for k, w, p in st):
                continue
            keep.append(c)
        return keep

    def scenario(self, I, v, c):
        B = Bay(I, c['strips'], curved=bool(c['curved']), ply=c['bply'], own=c['own'], named=bool(c['named']), load=self.how == 'calc_kG')
        st = self.STIFF[c['stiff']]
        if c['late']:
            # panels that were used before stiffeners are added
            I.method(B.o, 'calc_kC')
        for k, w, parts in st:
            B.add(k, w, parts, c['ply'], rho=k == 2, Fx=bool(c['Fx']))
        if c['hist']:
            for h in ('calc_kC', 'calc_kG', 'calc_kM'):
                I.method(B.o, h)
        kw = {}
        if c.get('c'):
            kw['c'] = I.arr('c', (B.size,))
        for n in (1, 2) if c['hist'] else (1,):
            K = I.method(B.o, self.how, **kw)
            z = B.size
            q = self.how[5:]
            spec = B.total(lambda t: I.method(t, self.how, size=z, row0=0, col0=0, finalize=False, **kw),
                           lambda s: getattr(s, q)(z, s.off, **(kw if s.kind == 2 and q == 'kG' else {})))
            spec = I.S(spec)
            I.same(self.how, K, spec)
            I.same(q, I.attr(B.o, q), spec)
        I.same('size', I.method(B.o, 'get_size'), z)
        I.same('attribute size', I.attr(B.o, 'size'), z)


def bay(how_):
    class M(BayMatrix):
        how = how_
        name = 'StiffPanelBay.' + how_
        func = 'StiffPanelBay.%s, get_size' % how_
    M.__name__ = 'Bay_' + how_
    return M()


AERO = ('rho_air', 'V', 'speed_sound')


class BayAero(BayContract):
    name = 'StiffPanelBay.calc_kA'
    func = 'StiffPanelBay.calc_kA'

    def cases(self, v):
        return spread(dict(strips=(1, 2, 3), by=('Mach', 'sonic', 'beta', 'beta gamma'), flow=('x', 'y')), dict(curved=(0, 1, 1, 0), hist=(0, 1, 0), stiff=(0, 1, 2)))

    def air(self, I, c, B):
        d = dict(flow=c.get('flow', 'x'))
        if c['by'].startswith('beta'):
            d['beta'] = I.pos('beta')
            if 'gamma' in c['by']:
                d['gamma'] = I.pos('gamma')
        else:
            d['Mach'] = 1 if c['by'] == 'sonic' else 1 + I.pos('Mach-1')
            for k in AERO:
                d[k] = I.pos(k)
        return d

    def scenario(self, I, v, c):
        B = Bay(I, c['strips'], curved=bool(c['curved']))
        for k in range(c['stiff']):
            B.add(2 - k, 'first', 'bf')
        if c['hist']:
            I.set(B.o, **dict(flow='y', Mach=2 + I.pos('Mold'), rho_air=I.pos('rold'), V=I.pos('Vold'), speed_sound=I.pos('sold')))
            I.method(B.o, 'calc_kA')
            I.set(B.o, Mach=None)
        d = self.air(I, c, B)
        I.set(B.o, **d)
        K = I.method(B.o, 'calc_kA')
        spec = 0
        for t in B.t:
            I.set(t, **d)
            spec = I.add(spec, I.method(t, 'calc_kA', size=B.size, finalize=False))
        I.same('kA', K, spec)
        I.same('attribute kA', I.attr(B.o, 'kA'), spec)
        # the panels still fit together
        I.same('kM afterwards', I.method(B.o, 'calc_kM'), I.S(B.total(lambda t: I.method(t, 'calc_kM', size=B.size, finalize=False), lambda s: s.kM(B.size, s.off))))


class BayDamping(BayAero):
    name = 'StiffPanelBay.calc_cA'
    func = 'StiffPanelBay.calc_cA'

    def cases(self, v):
        return spread(dict(strips=(1, 2), by=('Mach', 'sonic', 'beta', 'beta aeromu'), curved=(0, 1)), dict(stiff=(0, 1, 2)))

    def scenario(self, I, v, c):
        B = Bay(I, c['strips'], curved=bool(c['curved']))
        for k in range(c['stiff']):
            B.add(2 - k, 'first', 'bf')
        d = self.air(I, c, B)
        if c['by'].startswith('beta'):
            mu = 0.
            if 'aeromu' in c['by']:
                mu = d['aeromu'] = I.pos('aeromu')
        else:
            M = d['Mach'] if c['by'] != 'sonic' else I.dec('1.0001')
            beta = d['rho_air'] * d['V'] ** 2 / I.sqrt(M ** 2 - 1)
            mu = beta / (M * d['speed_sound']) * (M ** 2 - 2) / (M ** 2 - 1)
        I.set(B.o, **d)
        K = I.method(B.o, 'calc_cA')
        # the closed form covers the whole skin
        spec = I.S(I.method(B.t[0], 'calc_cA', mu, size=B.size, finalize=False))
        I.same('cA', K, spec)
        I.same('attribute cA', I.attr(B.o, 'cA'), spec)


class AeroRejects(BayContract):
    name = 'stiffened bays reject subsonic flow'
    func = 'StiffPanelBay.calc_kA, calc_cA'

    def cases(self, v):
        return spread(dict(how=('calc_kA', 'calc_cA'), curved=(0, 1)), dict())

    def scenario(self, I, v, c):
        B = Bay(I, 2, curved=bool(c['curved']))
        M = I.pos('Mach', 0.1, 0.9)
        I.assume(I.lt(M, 1))
        I.set(B.o, Mach=M, rho_air=I.pos('rho_air'), V=I.pos('V'), speed_sound=I.pos('s'))
        I.raises('rejected', 'ValueError', lambda: I.method(B.o, c['how']))


class BayFext(BayContract):
    name = 'StiffPanelBay.calc_fext'
    func = 'StiffPanelBay.calc_fext'

    def cases(self, v):
        return spread(dict(strips=(1, 2), stiff=tuple(range(6)), curved=(0, 1)), dict(hist=(0, 1)))

    def scenario(self, I, v, c):
        B = Bay(I, max(c['strips'], 3 if c['stiff'] in (4, 5) else 2), curved=bool(c['curved']))
        I.assume(I.le(B.m, 30))
        I.assume(I.le(B.n, 30))
        for k, w, parts in BayMatrix.STIFF[c['stiff']]:
            s = B.add(k, w, parts)
            if k == 2:
                I.assume(I.le(s.mf, 30))
                I.assume(I.le(s.nf, 30))
        I.method(B.o, 'calc_kC')
        F = I.segs(point_entries(I, 'skin'))
        I.set(B.o, forces_skin=F)
        if c['hist']:
            I.method(B.o, 'calc_fext')
        parts = [(B.N3, F, B.t[0])]
        for k, s in enumerate(B.st):
            if s.kind == 2:
                Fs = I.segs(point_entries(I, 'flange%d' % k))
                I.set(s.o, forces_flange=Fs)
                if s.fl:
                    parts.append((3 * s.mf * s.nf, Fs, s.tf))
        f = I.method(B.o, 'calc_fext')
        off, spec = 0, lambda i: 0.
        def block(off, n, Fs, t, rest):
            G = I.field_g(t)
            def at(i):
                inside = I.both(I.le(off, i), I.lt(i, off + n))
                return I.when(inside, lambda: I.total(Fs, point_term(I, None, G, i - off))) + rest(i)
            return at
        for n, Fs, t in parts:
            spec = block(off, n, Fs, t, spec)
            off = off + n
        I.same('fext', f, I.vec(off, spec))


class BayVectorsChecked(BayContract):
    name = 'stiffened bays check displacement vectors'
    props = ('P18', 'P16')
    func = 'StiffPanelBay.uvw_skin, uvw_stiffener'

    def cases(self, v):
        return [dict(what=w, by=d) for w in ('skin', 0) for d in ('short', 'long', 'empty')]

    def scenario(self, I, v, c):
        B = Bay(I, 2)
        for k, w, parts in BayMatrix.STIFF[2]:
            B.add(k, w, parts)
        I.method(B.o, 'calc_kC')
        size = {'short': lambda: B.size - 1, 'long': lambda: B.size + I.int('over', 1), 'empty': lambda: 0}[c['by']]()
        cv = I.arr('c', (size,))
        args = (cv,) if c['what'] == 'skin' else (cv, 0)
        I.raises('rejected', 'ValueError', lambda: I.method(B.o, 'uvw_skin' if c['what'] == 'skin' else 'uvw_stiffener', *args))


class BayFields(BayContract):
    name = 'StiffPanelBay.uvw_skin, uvw_stiffener'
    func = 'StiffPanelBay.uvw_skin, uvw_stiffener'

    def cases(self, v):
        return spread(dict(what=('skin', 0, 1, 2), stiff=(2, 4, 5, 6), grid=('own', 'grid', 'points')), dict(curved=(0, 1), cores=(0, 1), hist=(0, 1)))

    def scenario(self, I, v, c):
        B = Bay(I, 3, curved=bool(c['curved']))
        for k, w, parts in BayMatrix.STIFF[c['stiff']]:
            B.add(k, w, parts)
        I.method(B.o, 'calc_kC')
        cv = I.arr('c', (B.size,))
        nc = I.attr(B.o, 'out_num_cores')
        if c['cores']:
            nc = I.int('cores', 1, 5)
            I.set(B.o, out_num_cores=nc)
        w = c['what']
        kw, gx, gy = {}, 300, 300
        if c['grid'] == 'points':
            kw = dict(xs=I.arr('xs', (I.int('np', 1),)))
            kw['ys'] = I.arr('ys', (I.int('np', 1),))
        elif c['grid'] == 'grid':
            gx, gy = I.int('gx', 2, 5), I.int('gy', 2, 5)
            kw = dict(gridx=gx, gridy=gy)
        if c['hist']:
            I.method(B.o, 'uvw_skin', I.arr('cold', (B.size,)), **kw)
        if w == 'skin':
            off, n, t, wid = 0, B.N3, B.t[0], B.b
            run = lambda x: I.method(B.o, 'uvw_skin', x, **kw)
        else:
            if w >= len(B.st):
                w = len(B.st) - 1
            s = B.st[w]
            run = lambda x: I.method(B.o, 'uvw_stiffener', x, w, **kw)
            if s.kind == 1:
                I.raises('no degrees of freedom of its own', 'RuntimeError', lambda: run(cv))
                return
            I.raises('base of the stiffener', 'RuntimeError', lambda: I.method(B.o, 'uvw_stiffener', cv, w, region='Base'))
            if not s.fl:
                return
            off, n, t, wid = s.off, 3 * s.mf * s.nf, s.tf, s.bf
        I.raises('vector of another size', 'ValueError', lambda: run(I.arr('cbad', (B.size + I.int('over', 1),))))
        res = run(cv)
        if c['grid'] == 'points':
            X, Y, back = kw['xs'], kw['ys'], lambda z: z
            sh = I.shape(X)
        else:
            x, y = I.meshgrid(I.linspace(0, B.a, gx), I.linspace(0, wid, gy))
            X, Y, sh = I.ravel(x), I.ravel(y), I.shape(x)
        ck = I.vec(n, lambda i: I.at(cv, off + i))
        exp = I.items(I.kernel(FIELD, 'fuvw', ck, t, X, Y, nc), 5)
        for k, (nm, z) in enumerate(zip(UVW, exp)):
            z = I.reshape(z, sh)
            I.same(nm, res[k], z)
            I.same('attribute ' + nm, I.attr(B.o, nm), z)


def all_contracts():
    return [AddPanel(), AddRejects(), AddStiff()] + [stiff(k, h) for k in (1, 2) for h in ('calc_kC', 'calc_kG', 'calc_kM')] + [StiffState()] + \
        [bay(h) for h in ('calc_kC', 'calc_kG', 'calc_kM')] + [BayAero(), BayDamping(), AeroRejects(), BayFext(), BayVectorsChecked(), BayFields()]
