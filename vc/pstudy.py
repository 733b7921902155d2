"""P22: the ready-made studies (panels/multidomain/cylinder*.py, tstiff2d_1stiff_*.py).

The contract of a study names the structure it stands for: the panels that tile it, their edges, what joins them and what
loads them.  What the study hands to the solvers of structsolve has to be the matrices and vectors of that structure.
The solvers are outside of the repository: recorded, any solution.
"""
import inspect
import sys
import numpy as np
from .expr import *
from . import sym as S
from . import builtins as B
from .pylayer import PyContract, dense
from .pmeth import spread
from .passy import conn_matrix, Assy
from .pload import load_contracts

MDS = 'panels.multidomain.'
SIG = {'lb': ('K', 'KG', 'tol', 'sparse_solver', 'silent', 'num_eigvalues', 'num_eigvalues_print'), 'freq': ('K', 'M', 'tol', 'sparse_solver', 'silent', 'sort', 'num_eigvalues'),
       'static': ('K', 'fext', 'silent')}
SIGA = ('calc_fext', 'calc_fint', 'calc_kC', 'calc_kG')


class Solvers:
    """lb, freq, static and Analysis of structsolve: what they were given, and the (arbitrary) solution"""

    def __init__(self, I, size):
        self.I, self.size, self.got = I, size, []
        self.c = I.arr('c', (size,))
        self.val, self.vec = I.arr('eigvals', (3,)), I.arr('eigvecs', (3, 3))
        self.incs = [1.]

    def answer(self, name, args, kw):
        self.got.append((name, dict(zip(SIG[name], args), **kw)))
        if name == 'static':
            return self.I.lst(*self.incs), self.I.lst(self.c)
        return self.val, self.vec

    def run(self, module, func, **kw):
        return self.sym_run(module, func, kw) if self.I.sym else self.num_run(module, func, kw)

    def sym_run(self, module, func, kw):
        e = self.I.ex.externs
        for nm in SIG:
            f = lambda ex, a, k, line, nm=nm: self.answer(nm, a, k)
            for mod in ('structsolve.', 'structsolve.%s.' % nm, 'structsolve.linear_buckling.', 'structsolve.static.', 'structsolve.freq.'):
                e[mod + nm] = f

        def analysis(ex, a, k, line):
            d = dict(zip(SIGA, a), **k)

            def static(ex, a, k, line):
                self.got.append(('Analysis', dict(zip(('NLgeom', 'silent'), a), **k), d))
                return self.I.lst(*self.incs), self.I.lst(self.c)
            o = S.Obj('Analysis', dict(d, NL_method='NR', static=S.Builtin('static', static)))
            return o
        e['structsolve.Analysis'] = e['structsolve.analysis.Analysis'] = analysis
        return self.I.call(module, func, **kw)

    def num_run(self, module, func, kw):
        import structsolve
        me = self
        self.I.getfunc(module, func)
        orig = {getattr(structsolve, nm): (lambda *a, nm=nm, **k: me.answer(nm, a, k)) for nm in SIG}

        class Analysis:
            NL_method = 'NR'

            def __init__(self, *a, **k):
                self.d = dict(zip(SIGA, a), **k)

            def static(self, NLgeom=False, silent=False):
                me.got.append(('Analysis', dict(NLgeom=NLgeom), self.d))
                return me.incs, [me.c]
        orig[structsolve.Analysis] = Analysis
        undo = []
        for m in [x for n, x in sys.modules.items() if n.split('.')[0] in ('panels', 'structsolve') and x is not None]:
            for nm, v in list(vars(m).items()):
                if callable(v) and getattr(v, '__hash__', None) and (inspect.isfunction(v) or inspect.isclass(v)) and v in orig:
                    undo.append((m, nm, v))
                    setattr(m, nm, orig[v])
        try:
            return self.I.getfunc(module, func)(**kw)
        finally:
            for m, nm, v in undo:
                setattr(m, nm, v)


def constant(I, x):
    """the load x everywhere along an edge"""
    if I.sym:
        return S.Builtin('load', lambda ex, a, kw, line: x)
    return lambda t: x


class Ply:
    def __init__(self, I, label):
        self.plyt = I.pos(label + 'plyt', 0.05, 0.2)
        self.prop = tuple(I.pos(label + k, lo, hi) for k, lo, hi in (('E1', 8., 12.), ('E2', 1., 2.), ('nu', 0.2, 0.35), ('G12', 0.5, 1.), ('G13', 0.5, 1.), ('G23', 0.5, 1.)))

    def stack(self, I, label):
        return I.seq(label + 'stack', lambda i: I.el(label + 'angle', i) * 90, lo=1)


class Structure:
    """panels by their definition, outside of any assembly"""

    def __init__(self, I):
        self.I, self.t, self.th, self.off, self.geo = I, [], [], [0], []

    def panel(self, ply, stack, flags, x0, y0, **kw):
        I = self.I
        o = I.new('panels.shell', 'Shell', plyt=ply.plyt, laminaprop=ply.prop, stack=stack, **kw)
        I.set(o, **{f: 1. for f in ALLF})
        I.set(o, **flags)
        self.t.append(o)
        self.geo.append((x0, y0, kw['a'], kw['b']))
        self.th.append(lambda: I.total(I.rep_like(ply.plyt, stack), lambda h: h))
        self.off.append(self.off[-1] + 3 * kw['m'] * kw['n'])
        return len(self.t) - 1

    @property
    def size(self):
        return self.off[-1]

    def own(self, k, how, **kw):
        return self.I.method(self.t[k], how, size=self.size, row0=self.off[k], col0=self.off[k], finalize=False, **kw)

    def sum(self, f):
        r = 0
        for k in range(len(self.t)):
            r = self.I.add(r, f(k))
        return r

    def K(self, conn):
        return self.I.S(self.sum(lambda k: self.own(k, 'calc_kC'))) + self.I.S(conn_matrix(self.I, list(zip(self.t, self.th)), self.off, self.size, conn))

    def KG(self, **kw):
        return self.I.S(self.sum(lambda k: self.own(k, 'calc_kG', **kw)))

    def KM(self):
        return self.I.S(self.sum(lambda k: self.own(k, 'calc_kM')))

    def KT(self, conn, c):
        return self.I.S(self.sum(lambda k: self.I.add(self.own(k, 'calc_kC', c=c, NLgeom=True), self.own(k, 'calc_kG', c=c, NLgeom=True)))) \
            + self.I.S(conn_matrix(self.I, list(zip(self.t, self.th)), self.off, self.size, conn))

    def fext(self):
        return self.sum(lambda k: self.I.method(self.t[k], 'calc_fext', size=self.size, col0=self.off[k]))

    def fint(self, conn, c):
        I = self.I
        Kc = I.S(conn_matrix(I, list(zip(self.t, self.th)), self.off, self.size, conn))
        return I.add(self.sum(lambda k: I.method(self.t[k], 'calc_fint', c, size=self.size, col0=self.off[k])), I.matvec(Kc, c))

    def check(self, assy, groups):
        """the panels of the assembly stand where they belong"""
        I = self.I
        ps = I.attr(assy, 'panels')
        I.same('number of panels', I.int_of(len(ps)), I.int_of(len(self.t)))
        for k, (p, g) in enumerate(zip(ps, self.geo)):
            for nm, x in zip(('x0', 'y0', 'a', 'b'), g):
                I.same('%s of panel %d' % (nm, k), I.attr(p, nm), x)
            I.same('group of panel %d' % k, I.attr(p, 'group'), groups[k])


ALLF = [e + k + r for e in ('x1', 'x2', 'y1', 'y2') for k in 'uvw' for r in ('', 'r')]


class StudyContract(PyContract):
    props = ('P22',)
    samples = 24

    def contracts(self, ex):
        return load_contracts(ex)

    def assumptions(self):
        return PyContract.assumptions(self) + ['structsolve.lb, freq, static and Analysis.static: any solution, no effect on their arguments; what is proved is what they are given']


# ------------------------------------------------------------------ cylinders
class Cylinder(StudyContract):
    blades = False
    how = ''

    @property
    def base(self):
        return 'cylinder_blade_stiffened' if self.blades else 'cylinder'

    @property
    def module(self):
        return MDS + self.base

    @property
    def func(self):
        return 'create_cylinder_blade_stiffened' if self.blades and self.how == 'create' else 'create_cylinder_assy' if self.how == 'create' else \
            'cylinder_spla' if self.how == 'spla' else self.base + '_compression_' + {'cte': 'lb_Nxx_cte', 'static': 'lb_Nxx_from_static'}[self.how]

    @property
    def name(self):
        return self.func

    def cases(self, v):
        return [dict(np=k, neig=e, default=d) for k, e, d in ((2, 0, 0), (3, 1, 0), (4, 0, 1))]

    def structure(self, I, v, c):
        n = c['np']
        ply = Ply(I, '')
        m_, n_ = (I.int('m', 2, 4), I.int('n', 2, 4)) if not c['default'] else (8, 8)
        if I.sym and c['default']:
            m_, n_ = const(8), const(8)
        if self.how in ('static', 'spla'):
            I.assume(I.le(m_, 30))
            I.assume(I.le(n_, 30))
        H, r = I.pos('H'), I.pos('r', 1.5, 5.)
        stack = ply.stack(I, 'skin')
        T = Structure(I)
        pi = self.pi(I)
        w = 2 * pi * r / n
        flags = {e + k: 0. for e in ('x1', 'x2') for k in 'uvw'}
        if self.how in ('cte', 'static', 'spla'):
            flags['x2u'] = 1.
        for k in range(n):
            T.panel(ply, stack, flags, 0, k * w, a=H, b=w, r=r, m=m_, n=n_)
        conn = []
        for k in range(n):
            q = (k + 1) % n
            conn.append(dict(p1=k, p2=q, func='SSycte', ycte1=w, ycte2=0.))
        kw = dict(height=H, r=r, stack=stack, plyt=ply.plyt, laminaprop=ply.prop, npanels=n)
        if not c['default']:
            kw.update(m=m_, n=n_)
        groups = ['skin'] * n
        if self.blades:
            sb = [ply.stack(I, 'blade%d' % k) for k in range(n)]
            wb = [I.pos('wb%d' % k) for k in range(n)]
            for k in range(n):
                j = T.panel(ply, sb[k], flags, 0, k * w, a=H, b=wb[k], m=m_, n=n_)
                conn.append(dict(p1=k, p2=j, func='BFycte', ycte1=0., ycte2=0.))
                groups.append('blade_%02d' % k)
            kw.update(stack_blades=I.lst(*sb), width_blades=I.lst(*wb))
        return T, conn, kw, groups

    def pi(self, I):
        if I.sym:
            I.ex.facts.append(f_lt(const(3), S.PI))
            return S.PI
        return np.pi

    def loads(self, I, T, n):
        N = [I.real('N%d' % k) for k in range(len(T.t))]
        for x in N:
            I.assume(I.ne(x, 0))
        if self.blades:
            return N, dict(Nxxs_skin=I.lst(*N[:n]), Nxxs_blade=I.lst(*N[n:]))
        return N, dict(Nxxs=I.lst(*N))

    def scenario(self, I, v, c):
        n = c['np']
        T, conn, kw, groups = self.structure(I, v, c)
        sol = Solvers(I, T.size)
        if self.how == 'create':
            assy, cn = sol.run(self.module, self.func, **kw)
            T.check(assy, groups)
            I.same('kC', I.method(assy, 'calc_kC', cn), T.K(conn))
            return
        if self.how == 'spla':
            return self.spla(I, T, conn, kw, groups, sol)
        N, lk = self.loads(I, T, n)
        kw.update(lk)
        if c['neig']:
            kw['num_eigvalues'] = I.int('neig', 5, 40)
        out = sol.run(self.module, self.func, **kw)
        T.check(out[0], groups)
        K = T.K(conn)
        if self.how == 'cte':
            I.same('solvers', [g[0] for g in sol.got], ['lb'])
            for t, x in zip(T.t, N):
                I.set(t, Nxx=x)
            KG = T.KG()
        else:
            I.same('solvers', [g[0] for g in sol.got], ['static', 'lb'])
            for t, x, g in zip(T.t, N, T.geo):
                I.method(t, 'add_distr_load_fixed_x', g[2], constant(I, x), None, None)
            st = sol.got[0][1]
            I.same('K of the static analysis', st['K'], K)
            I.same('fext of the static analysis', st['fext'], T.fext())
            I.same('c', out[1], sol.c)
            KG = T.KG(c=sol.c)
        lb = sol.got[-1][1]
        I.same('K of the buckling analysis', lb['K'], K)
        I.same('KG of the buckling analysis', lb['KG'], KG)
        if c['neig']:
            I.same('number of eigenvalues', lb['num_eigvalues'], kw['num_eigvalues'])
        I.same('eigenvalues', out[-2], sol.val)
        I.same('eigenvectors', out[-1], sol.vec)

    def spla(self, I, T, conn, kw, groups, sol):
        N, P = I.real('N'), I.real('SPLA')
        out = sol.run(self.module, self.func, Nxx=N, SPLA=P, **kw)
        T.check(out[0], groups)
        I.same('solvers', [g[0] for g in sol.got], ['Analysis'])
        nl, an = sol.got[0][1:]
        I.true('non-linear', nl.get('NLgeom') is True)
        for t, g in zip(T.t, T.geo):
            I.method(t, 'add_distr_load_fixed_x', g[2], constant(I, N), None, None)
        g = T.geo[0]
        I.method(T.t[0], 'add_point_load', g[2] / 2, g[3] / 2, 0., 0., -P, cte=True)
        call = lambda f, *a, **k: I.ex.call(f, [I.wrap(x) for x in a], k) if I.sym else f(*a, **k)
        I.same('external force', call(an['calc_fext'], silent=True), T.fext())
        I.same('linear stiffness', call(an['calc_kC'], silent=True), T.K(conn))
        cv = I.arr('c2', (T.size,))
        I.same('internal force', call(an['calc_fint'], c=cv, silent=True), T.fint(conn, cv))
        I.same('tangent stiffness', I.add(call(an['calc_kC'], c=cv, NLgeom=True, silent=True), call(an['calc_kG'], c=cv, NLgeom=True, silent=True)), T.KT(conn, cv))
        I.same('increments', out[1], I.lst(*sol.incs))
        I.same('solutions', out[2][0], sol.c)


class CylinderRejects(Cylinder):
    def cases(self, v):
        return [dict(what=w, np=3, default=0) for w in ('one panel', 'short', 'long')] + ([dict(what=w, np=3, default=0) for w in ('stacks', 'widths', 'blade loads')] if self.blades else [])

    @property
    def name(self):
        return self.func + ' rejects'

    def scenario(self, I, v, c):
        T, conn, kw, groups = self.structure(I, v, c)
        sol = Solvers(I, T.size)
        N = [I.real('N%d' % k) for k in range(8)]
        w = c['what']
        k = {'short': 2, 'long': 4}.get(w, 3)
        if self.blades:
            kw.update(Nxxs_skin=I.lst(*N[:k]), Nxxs_blade=I.lst(*N[:2 if w == 'blade loads' else 3]))
            if w == 'stacks':
                kw['stack_blades'] = I.lst(*list(kw['stack_blades'])[:2])
            if w == 'widths':
                kw['width_blades'] = I.lst(*list(kw['width_blades'])[:2])
        else:
            kw.update(Nxxs=I.lst(*N[:k]))
        if w == 'one panel':
            kw['npanels'] = 1
        I.raises('rejected', 'ValueError', lambda: sol.run(self.module, self.func, **kw))


def cylinder(blades_, how_, base=Cylinder):
    class F(base):
        blades, how = blades_, how_
    F.__name__ = 'F_%s_%d_%s' % (base.__name__, blades_, how_)
    return F()


# ------------------------------------------------------------------ panels with one T stiffener
class TStiff(StudyContract):
    how = ''

    @property
    def module(self):
        return MDS + 'tstiff2d_1stiff_' + self.how

    @property
    def func(self):
        return 'tstiff2d_1stiff_' + self.how

    @property
    def name(self):
        return self.func

    def cases(self, v):
        free = dict(defect=(0, 1), r=(0, 1))
        if self.how != 'freq':
            free['static'] = (0, 1)
        if self.how == 'compression':
            free['nx'] = (0, 1)
        return spread(free, dict(terms=(0, 1, 2), flow=('x', 'y', None)))[v['part']::v['parts']]

    def variants(self):
        return [dict(part=k, parts=4) for k in range(4)]

    def scenario(self, I, v, c):
        ply = Ply(I, '')
        rho = I.pos('rho')
        stk = {g: ply.stack(I, g) for g in ('skin', 'base', 'flange')}
        a, b = I.pos('a', 2., 3.), I.pos('b', 2., 3.)
        bb, bf, ys = I.pos('bb', 0.2, 0.4), I.pos('bf', 0.2, 0.4), I.pos('ys', 0.7, 1.2)
        da = I.pos('defect_a', 0.2, 0.6) if c['defect'] else 0.
        r = I.pos('r', 4., 9.) if c['r'] else None
        I.assume(I.lt(da, 1) if c['defect'] else True) if c['defect'] else None
        m, n = (8, 8) if c['terms'] == 2 else (I.int('m', 2, 3), I.int('n', 2, 3))
        if I.sym and c['terms'] == 2:
            m, n = const(8), const(8)
        mn = {'skin': (m, n), 'base': (m, n), 'flange': (m, n)}
        kw = dict(a=a, b=b, ys=ys, bb=bb, bf=bf, defect_a=da, rho=rho, plyt=ply.plyt, laminaprop=ply.prop, stack_skin=stk['skin'], stack_base=stk['base'],
                  stack_flange=stk['flange'], r=r)
        if c['terms'] != 2:
            kw.update(m=m, n=n)
        if c['terms'] == 1:
            mn.update(base=(I.int('mb', 2, 3), I.int('nb', 2, 3)), flange=(I.int('mf', 2, 3), I.int('nf', 2, 3)))
            kw.update(mb=mn['base'][0], nb=mn['base'][1], mf=mn['flange'][0], nf=mn['flange'][1])
        if not (I.sym and c['terms'] == 2):
            for x in [x for g in mn for x in mn[g]]:
                I.assume(I.le(x, 30))
        NX = {g: None for g in mn}
        if self.how == 'compression':
            # as many points as terms, unless told
            NX = dict(mn)
            if c['nx']:
                NX = {g: (I.int('nx_' + g, 2, 5), I.int('ny_' + g, 2, 5)) for g in mn}
                for g, s in (('skin', ''), ('base', 'b'), ('flange', 'f')):
                    kw['nx' + s], kw['ny' + s] = NX[g]
        static = self.how != 'freq' and c['static']
        N = {g: I.real('N_' + g) for g in mn}
        for x in N.values():
            I.assume(I.ne(x, 0))
        if self.how != 'freq':
            kw.update(Nxx_skin=N['skin'], Nxx_base=N['base'], Nxx_flange=N['flange'], run_static_case=bool(static))
        aero = {}
        if self.how == 'flutter':
            aero = dict(V=I.pos('V'), rho_air=I.pos('rho_air'), Mach=I.pos('Mach', 1.3, 3.), speed_sound=I.pos('ss'))
            I.assume(I.lt(1, aero['Mach']))
            kw.update(air_speed=aero['V'], rho_air=aero['rho_air'], Mach=aero['Mach'], speed_sound=aero['speed_sound'])
            if c['flow']:
                kw['flow'] = c['flow']
            aero['flow'] = c['flow'] or 'x'
        # the structure
        d = da * a if c['defect'] else I.dec('0.33') * a
        h = (a - d) / 2
        X = [(0., h), (h, d), (h + d, h)]                 # along x: origin and length
        Y = [(0., ys - bb / 2), (ys - bb / 2, bb), (ys + bb / 2, b - ys - bb / 2)]
        T = Structure(I)
        at, groups = {}, []

        def panel(g, i, x, y, flags, **more):
            pk = dict(a=x[1], b=y[1], m=mn[g][0], n=mn[g][1], rho=rho, **more)
            if NX[g] is not None:
                pk.update(nx=NX[g][0], ny=NX[g][1])
            k = T.panel(ply, stk[g], flags, x[0], y[0], **pk)
            groups.append(g)
            at[i] = k
            if self.how != 'freq' and not static:
                I.set(T.t[k], Nxx=N[g])

        def ends(i):
            f = {}
            if i == 2:
                f.update(x2u=0., x2v=0., x2w=0.)
            if i == 0:
                f.update(x1v=0., x1w=0.)
                if self.how == 'compression' and not static:
                    f['x1u'] = 0.
            return f
        for i in (2, 1, 0):
            for j in (2, 1, 0):
                f = ends(i)
                if j == 2:
                    f.update(y2v=0., y2w=0.)
                if j == 0:
                    f.update(y1v=0., y1w=0.)
                panel('skin', ('s', i, j), X[i], Y[j], f, r=r, **aero)
        for i in (2, 1, 0):
            panel('base', ('b', i), X[i], Y[1], {}, r=r)
            panel('flange', ('f', i), X[i], (0., bf), ends(i))
        conn = []
        SX = lambda up, low: conn.append(dict(p1=at[up], p2=at[low], func='SSxcte', xcte1=0., xcte2=T.geo[at[low]][2]))
        for i in range(3):
            for j in range(3):
                if i < 2:
                    SX(('s', i + 1, j), ('s', i, j))
                if j < 2:
                    conn.append(dict(p1=at['s', i, j + 1], p2=at['s', i, j], func='SSycte', ycte1=0., ycte2=Y[j][1]))
        for i in range(3):
            if not (i == 1 and c['defect']):
                conn.append(dict(p1=at['s', i, 1], p2=at['b', i], func='SB'))
            conn.append(dict(p1=at['b', i], p2=at['f', i], func='BFycte', ycte1=bb / 2, ycte2=0.))
            if i < 2:
                SX(('b', i + 1), ('b', i))
                SX(('f', i + 1), ('f', i))
        # the study
        sol = Solvers(I, T.size)
        out = sol.run(self.module, self.func, **kw)
        T.check(out[0], groups)
        I.same('solvers', [g[0] for g in sol.got], (['static'] if static else []) + ['lb' if self.how == 'compression' else 'freq'])
        K = T.K(conn)
        last = sol.got[-1][1]
        if static:
            for k, g in enumerate(groups):
                if k in (at['s', 0, 0], at['s', 0, 1], at['s', 0, 2], at['b', 0], at['f', 0]):
                    I.method(T.t[k], 'add_distr_load_fixed_x', 0., constant(I, N[g]), None, None)
            st = sol.got[0][1]
            I.same('K of the static analysis', st['K'], K)
            f = T.fext()
            # the load acts on the edge x=0: compression for negative N is a force along +x
            I.same('fext of the static analysis', I.neg_arr(st['fext']), f)
            I.same('c', out[1], sol.c)
        if self.how == 'freq':
            I.same('K', last['K'], K)
            I.same('M', last['M'], T.KM())
        else:
            KG = T.KG(c=sol.c) if static else T.KG()
            if self.how == 'compression':
                I.same('K', last['K'], K)
                I.same('KG', last['KG'], KG)
            else:
                KA = 0
                for k, g in enumerate(groups):
                    if g == 'skin':
                        KA = I.add(KA, T.own(k, 'calc_kA'))
                I.same('K with initial stresses and aerodynamics', last['K'], K + KG + KA)
                I.same('M', last['M'], T.KM())
        I.same('eigenvalues', out[-2], sol.val)
        I.same('eigenvectors', out[-1], sol.vec)


def tstiff(how_):
    class F(TStiff):
        how = how_
    F.__name__ = 'TStiff_' + how_
    return F()


def all_contracts():
    r = [cylinder(b, h) for b in (False, True) for h in ('create', 'cte', 'static')] + [cylinder(False, 'spla')]
    r += [cylinder(b, h, CylinderRejects) for b in (False, True) for h in ('cte', 'static')]
    return r + [tstiff(h) for h in ('compression', 'freq', 'flutter')]
