"""P17: every matrix method of the panel object returns the documented kernel matrix for exactly the options given."""
import itertools
from .pylayer import PyContract
from .pshell import Panel, PLATE, CYL, MOD

LOADS = ('Nxx', 'Nyy', 'Nxy')


def spread(free, cyc):
    """all combinations of `free`, the options of `cyc` dealt out in turn"""
    out = []
    for n, combo in enumerate(itertools.product(*free.values())):
        c = dict(zip(free, combo))
        for j, (k, vals) in enumerate(cyc.items()):
            c[k] = vals[(n // (1 + j) + n * (j + 1)) % len(vals)]
        out.append(c)
    return out


class MethodContract(PyContract):
    props = ('P17',)
    module = 'panels.shell'
    samples = 32

    def panel(self, I, c, fields=LOADS):
        p = Panel(I, 'p', bool(c['curved']), ply=c.get('ply', 'one'), hist=bool(c.get('hist')), sub=bool(c.get('sub')), model=bool(c.get('model')))
        if c.get('ortho'):
            I.set(p.o, force_orthotropic_laminate=True)
        p.num = MOD + p.model + '_num'
        p.ana = MOD + p.model
        return p

    def placement(self, I, c, p):
        """size, row0, col0 arguments and their values"""
        k = c['size']
        if k == 'none':
            return {}, p.N3, 0, 0
        if k == 'int':
            r0, c0 = I.int('row0', 0), I.int('col0', 0)
            z = r0 + c0 + p.N3 + I.int('more', 0)
            return dict(size=z, row0=r0, col0=c0), z, r0, c0
        return dict(size=k, row0=1, col0=2), p.N3 + int(k), 1, 2

    def points(self, I, c, p):
        if c['points'] == 'own':
            return {}, p.NX, p.NY
        if c['points'] == 'nx':
            n = I.int('nx', 3, 6)
            return dict(nx=n), n, p.NY
        n, m = I.int('nx', 3, 6), I.int('ny', 3, 6)
        return dict(nx=n, ny=m), n, m

    def lam_ABD(self, I, c, p):
        ABD = I.attr(p.lam(), 'ABD')
        if c.get('ortho'):
            # laminate without the coupling of normal and shear terms
            zero = {(0, 2), (1, 2), (0, 5), (1, 5), (3, 2), (4, 2), (3, 5), (4, 5)}
            return I.grid6(lambda i, j: 0 if (i, j) in zero or (j, i) in zero else I.at(ABD, i, j))
        return ABD

    def loads(self, I, c, p, sfx=''):
        if not c['loads']:
            return (0., 0., 0.)
        N = tuple(I.real(k + sfx) for k in LOADS)
        if c['loads'] == 'one':
            N = (0., 0., N[2])
        I.assume(I.some(*[I.ne(x, 0) for x in N]))
        I.set(p.o, **{k + sfx: x for k, x in zip(LOADS, N)})
        return N


class CalcKC(MethodContract):
    name = 'Shell.calc_kC'
    props = ('P17', 'P04')
    func = 'Shell.calc_kC'

    def cases(self, v):
        return spread(dict(curved=(0, 1), c=(0, 1), cte=(0, 1), loads=(0, 'all', 'one'), ABD=(0, 1), NL=(False, True)),
                      dict(size=('none', 'int', '+3'), points=('own', 'both', 'nx'), finalize=(True, False), ply=('one', 'many'),
                           sub=(0, 0, 0, 1), hist=(0, 1), ortho=(0, 0, 0, 0, 1), model=(0, 1)))

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        kw, size, r0, c0 = self.placement(I, c, p)
        kp, nx, ny = self.points(I, c, p)
        N = self.loads(I, c, p, '_cte')
        zeros = I.zeros(size)
        cv = zeros
        if c['c']:
            cv = kw['c'] = I.arr('c', (size,))
        cc = zeros
        if c['cte']:
            cc = kw['c_cte'] = I.arr('ccte', (size,))
        ABD = self.lam_ABD(I, c, p)
        if c['ABD']:
            ABD = kw['ABDnxny'] = I.arr('ABDnxny', (nx, ny, 6, 6), 2.)
        K = I.method(p.o, 'calc_kC', finalize=c['finalize'], NLgeom=c['NL'], **dict(kw, **kp))
        ref = p.ref()
        num = c['c'] or c['ABD'] or c['NL'] or c.get('sub') or c.get('ortho')
        S = I.kernel(p.num, 'fkC_num', cv, ABD, ref, size, r0, c0, nx, ny, int(c['NL'])) if num else I.kernel(p.ana, 'fk0', ref, size, r0, c0)
        if c['cte'] or c['loads']:
            if c['cte'] or c['NL'] or c.get('sub'):
                S = S + I.kernel(p.num, 'fkG_num', cc, ABD, ref, size, r0, c0, nx, ny, int(c['NL']), *N)
            else:
                S = S + I.kernel(p.ana, 'fkG0', *(N + (ref, size, r0, c0)))
        if c['finalize']:
            S = I.S(S)
        I.same('kC', K, S)
        I.same("matrices['kC']", I.key(I.attr(p.o, 'matrices'), 'kC'), S)
        I.same('r', I.attr(p.o, 'r'), p.d['r'] if c['curved'] else 0.)


class CalcKG(MethodContract):
    name = 'Shell.calc_kG'
    props = ('P17', 'P05')
    func = 'Shell.calc_kG'

    def cases(self, v):
        return spread(dict(curved=(0, 1), c=(0, 1), loads=(0, 'all', 'one'), ABD=(0, 1), NL=(False, True)),
                      dict(size=('none', 'int', '+3'), points=('own', 'both', 'nx'), finalize=(True, False), ply=('one', 'many'),
                           sub=(0, 0, 0, 1), hist=(0, 1), ortho=(0, 0, 0, 0, 1), model=(0, 1)))

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        kw, size, r0, c0 = self.placement(I, c, p)
        kp, nx, ny = self.points(I, c, p)
        N = self.loads(I, c, p)
        cv = I.zeros(size)
        if c['c']:
            cv = kw['c'] = I.arr('c', (size,))
        ABD = self.lam_ABD(I, c, p)
        if c['ABD']:
            ABD = kw['ABDnxny'] = I.arr('ABDnxny', (nx, ny, 6, 6), 2.)
        K = I.method(p.o, 'calc_kG', finalize=c['finalize'], NLgeom=c['NL'], **dict(kw, **kp))
        ref = p.ref()
        if c['c'] or c['NL'] or c.get('sub'):
            S = I.kernel(p.num, 'fkG_num', cv, ABD, ref, size, r0, c0, nx, ny, int(c['NL']), *N)
        else:
            S = I.kernel(p.ana, 'fkG0', *(N + (ref, size, r0, c0)))
        if c['finalize']:
            S = I.S(S)
        I.same('kG', K, S)
        I.same("matrices['kG']", I.key(I.attr(p.o, 'matrices'), 'kG'), S)


class CalcKT(MethodContract):
    name = 'Shell.calc_kT'
    props = ('P17', 'P08')
    func = 'Shell.calc_kT'

    def cases(self, v):
        return spread(dict(curved=(0, 1), c=(0, 1), loads=(0, 'all'), ABD=(0, 1)),
                      dict(size=('none', 'int', '+3'), points=('own', 'both', 'nx'), finalize=(True, False), ply=('one', 'many'),
                           sub=(0, 0, 1), hist=(0, 1), ortho=(0, 0, 0, 0, 1)))

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        kw, size, r0, c0 = self.placement(I, c, p)
        kp, nx, ny = self.points(I, c, p)
        N = self.loads(I, c, p)
        N0 = self.loads(I, c, p, '_cte')
        zeros = I.zeros(size)
        cv = zeros
        if c['c']:
            cv = kw['c'] = I.arr('c', (size,))
        ABD = self.lam_ABD(I, c, p)
        if c['ABD']:
            ABD = kw['ABDnxny'] = I.arr('ABDnxny', (nx, ny, 6, 6), 2.)
        K = I.method(p.o, 'calc_kT', finalize=c['finalize'], **dict(kw, **kp))
        ref = p.ref()
        S = I.kernel(p.num, 'fkC_num', cv, ABD, ref, size, r0, c0, nx, ny, 1)
        if c['loads']:
            S = S + I.kernel(p.num, 'fkG_num', zeros, ABD, ref, size, r0, c0, nx, ny, 1, *N0)
        S = S + I.kernel(p.num, 'fkG_num', cv, ABD, ref, size, r0, c0, nx, ny, 1, *N)
        if c['finalize']:
            S = I.S(S)
        I.same('kT', K, S)
        I.same("matrices['kT']", I.key(I.attr(p.o, 'matrices'), 'kT'), S)


class CalcKM(MethodContract):
    name = 'Shell.calc_kM'
    props = ('P17', 'P06')
    func = 'Shell.calc_kM'

    def cases(self, v):
        return spread(dict(curved=(0, 1), h=(0, 1), rho=(0, 1), sub=(0, 1), ply=('one', 'many')),
                      dict(size=('none', 'int', '+3'), points=('own', 'both', 'nx'), finalize=(True, False), hist=(0, 1)))

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        kw, size, r0, c0 = self.placement(I, c, p)
        kp, nx, ny = self.points(I, c, p)
        many = c['ply'] == 'many'
        if c['points'] != 'own' and not (c['h'] and c['rho'] or c['sub'] or many):
            kp, nx, ny = {}, p.NX, p.NY
        lam = p.lam()
        h = lambda i, j: I.attr(lam, 'h')
        rho = lambda i, j: I.attr(lam, 'intrho') / I.attr(lam, 'h')
        if c['h']:
            ha = kw['h_nxny'] = I.arr('h', (nx, ny))
            h = lambda i, j: I.at(ha, i, j)
        if c['rho']:
            ra = kw['rho_nxny'] = I.arr('rho', (nx, ny))
            rho = lambda i, j: I.at(ra, i, j)
        K = I.method(p.o, 'calc_kM', finalize=c['finalize'], **dict(kw, **kp))
        ref = p.ref()
        if c['h'] or c['rho'] or c['sub'] or many:
            # densities that vary, over the panel or over the plies
            hr = I.grid((nx, ny, 2), lambda i, j, k: I.pick(k, h(i, j), rho(i, j)))
            S = I.kernel(p.num, 'fkM_num', ref, p.offset, hr, size, r0, c0, nx, ny)
        else:
            S = I.kernel(p.ana, 'fkM', ref, p.offset, size, r0, c0)
        if c['finalize']:
            S = I.S(S)
        I.same('kM', K, S)
        I.same("matrices['kM']", I.key(I.attr(p.o, 'matrices'), 'kM'), S)


class CalcKA(MethodContract):
    name = 'Shell.calc_kA'
    props = ('P17', 'P07')
    func = 'Shell.calc_kA'

    def cases(self, v):
        return spread(dict(curved=(0, 1), flow=('x', 'y', 'X', 'Y'), given=('beta', 'both', 'Mach', 'sonic'), hist=(0, 1)),
                      dict(size=('none', 'int', '+3'), finalize=(True, False), ply=('one', 'many'), sub=(0, 0, 1)))

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        kw, size, r0, c0 = self.placement(I, c, p)
        if c['hist'] and c['given'] != 'beta':
            # an earlier call with another flow
            I.set(p.o, V=I.pos('V0'), rho_air=I.pos('rho_air0'), Mach=1.5 + I.pos('Mach0'))
            I.method(p.o, 'calc_kA')
        I.set(p.o, flow=c['flow'])
        beta, gamma = I.real('beta'), 0.
        if c['given'] in ('beta', 'both'):
            I.set(p.o, beta=beta)
            if c['given'] == 'both':
                gamma = I.real('gamma')
                I.set(p.o, gamma=gamma)
        else:
            V, ra = I.pos('V'), I.pos('rho_air')
            M = 1.01 + I.pos('Mach') if c['given'] == 'Mach' else 1
            I.set(p.o, V=V, rho_air=ra, Mach=M)
            if c['given'] == 'sonic':
                M = I.dec('1.0001')
            root = I.sqrt(M ** 2 - 1)
            beta = ra * V ** 2 / root
            if c['curved']:
                gamma = beta / (2 * p.d['r'] * root)
        K = I.method(p.o, 'calc_kA', finalize=c['finalize'], **kw)
        S = I.kernel(p.num, 'fkA%s_num' % c['flow'].lower(), p.ref(beta=beta, gamma=gamma), size, r0, c0, p.NX, p.NY)
        I.same('kA', K, S)
        I.same("matrices['kA']", I.key(I.attr(p.o, 'matrices'), 'kA'), S)


class KARejects(MethodContract):
    name = 'Shell.calc_kA rejects'
    func = 'Shell.calc_kA'

    def cases(self, v):
        return [dict(curved=0, what='flow'), dict(curved=1, what='flow'), dict(curved=0, what='Mach'), dict(curved=0, what='subsonic')]

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        if c['what'] == 'flow':
            I.set(p.o, beta=I.real('beta'), flow='z')
        elif c['what'] == 'subsonic':
            M = I.pos('Mach', 0.1, 0.9)
            I.assume(I.lt(M, 1))
            I.set(p.o, V=I.pos('V'), rho_air=I.pos('rho_air'), Mach=M)
        I.raises('an undefined flow is rejected', 'ValueError', lambda: I.method(p.o, 'calc_kA'))


class CalcCA(MethodContract):
    name = 'Shell.calc_cA'
    props = ('P17', 'P07')
    func = 'Shell.calc_cA'

    def cases(self, v):
        return spread(dict(curved=(0, 1), size=('none', 'int'), finalize=(True, False), hist=(0, 1)), dict(ply=('one', 'many')))

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        kw, size, r0, c0 = self.placement(I, c, p)
        kw.pop('row0', None)
        kw.pop('col0', None)
        mu = I.real('aeromu')
        K = I.method(p.o, 'calc_cA', mu, finalize=c['finalize'], **kw)
        S = I.imag * I.kernel(p.ana, 'fcA', mu, p.ref(), size, 0, 0)
        if c['finalize']:
            S = I.S(S)
        I.same('cA', K, S)
        I.same("matrices['cA']", I.key(I.attr(p.o, 'matrices'), 'cA'), S)


class CalcFint(MethodContract):
    name = 'Shell.calc_fint'
    props = ('P17', 'P08')
    func = 'Shell.calc_fint'

    def cases(self, v):
        return spread(dict(curved=(0, 1), ABD=(0, 1), hist=(0, 1), size=('none', 'int', '+3')),
                      dict(points=('own', 'both', 'nx'), ply=('one', 'many'), sub=(0, 0, 1), ortho=(0, 0, 0, 1)))

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        kw, size, r0, c0 = self.placement(I, c, p)
        kw.pop('row0', None)
        kp, nx, ny = self.points(I, c, p)
        cv = I.arr('c', (size,))
        ABD = self.lam_ABD(I, c, p)
        if c['ABD']:
            ABD = kw['ABDnxny'] = I.arr('ABDnxny', (nx, ny, 6, 6), 2.)
        f = I.method(p.o, 'calc_fint', cv, **dict(kw, **kp))
        I.same('fint', f, I.kernel(p.num, 'calc_fint', cv, ABD, p.ref(), size, c0, nx, ny))


class CheckC(MethodContract):
    name = 'displacement vectors are checked'
    props = ('P17', 'P16')
    func = 'check_c, Shell.calc_kC, Shell.calc_kG'

    def cases(self, v):
        return [dict(curved=k, what=w, at=a) for k in (0, 1) for w in ('list', '2d', 'short', 'long') for a in ('kC', 'kC c_cte', 'kG')]

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        N = p.N3
        bad = {'list': lambda: [0., 1., 2.], '2d': lambda: I.arr('c', (1, N)), 'short': lambda: I.arr('c', (N - 1,)),
               'long': lambda: I.arr('c', (N + I.int('over', 1),))}[c['what']]()
        kw = {'c_cte' if 'cte' in c['at'] else 'c': bad}
        I.raises('rejected', 'TypeError' if c['what'] == 'list' else 'ValueError', lambda: I.method(p.o, 'calc_' + c['at'][:2], **kw))


class Rebuild(MethodContract):
    name = 'Shell._rebuild'
    func = 'Shell._rebuild, get_size, _get_lam_ABD'

    def cases(self, v):
        return spread(dict(curved=(0, 1), ply=('one', 'many'), hist=(0, 1), ortho=(0, 1)), dict(model=(0, 1)))

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        I.method(p.o, '_rebuild')
        for k in (0, 1):
            I.same('model', I.attr(p.o, 'model'), p.model)
            I.same('size', I.attr(p.o, 'size'), p.N3)
            I.same('nx, ny', (I.attr(p.o, 'nx'), I.attr(p.o, 'ny')), (p.NX, p.NY))
            I.same('lam', I.attr(p.o, 'lam'), p.lam())
            I.same('ABD', I.attr(p.o, 'ABD'), self.lam_ABD(I, c, p))
            I.same('get_size', I.method(p.o, 'get_size'), p.N3)
            I.method(p.o, '_rebuild')           # and again


class RebuildRejects(MethodContract):
    name = 'Shell._rebuild rejects'
    func = 'Shell._rebuild'

    def cases(self, v):
        return [dict(curved=k, what=w) for k in (0, 1) for w in ('model', 'stack', 'laminaprop', 'plyt')]

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        I.set(p.o, **{c['what']: 'nonsense' if c['what'] == 'model' else None})
        I.raises('incomplete definitions are rejected', 'ValueError', lambda: I.method(p.o, '_rebuild'))


def all_contracts():
    return [CalcKC(), CalcKG(), CalcKT(), CalcKM(), CalcKA(), KARejects(), CalcCA(), CalcFint(), CheckC(), Rebuild(), RebuildRejects()]
