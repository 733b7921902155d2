"""P10: consistent load vectors.  fg and cfg (compiled), shell_fext, calc_fext, the add_... methods, point constraints."""
import numpy as np
from .expr import *
from .contracts import *
from . import contracts as CT
from . import kern as K
from . import sym as S
from . import check as C
from .kernels import Contract, BFs, TRUSTED
from .ir import Unsupported
from .pylayer import PyContract, flatten, read_set, MAT
from .pshell import Panel, FIELD
from .pmeth import spread

QUAD = 'panels.legendre_gauss_quadrature'


# ------------------------------------------------------------------ compiled: shape functions at a point
class Fg(Contract):
    """g[r, 3(jm+i)+d] holds the shape functions of u, v, w and of the rotations -w,x and -w,y; other entries keep their value"""
    name = 'field.fg'
    props = ('P10',)
    module = FIELD
    func = 'fg'
    samples = 30

    def shell(self):
        return ShellArg('s')

    def args(self, v):
        return [self.shell()]

    def spec(self, r, d, i, j):
        """None: the entry keeps its value"""
        s = self.shell()
        fl = s.flags()
        a, b = s.a('a'), s.a('b')
        xi, eta = 2 * sym('x') / a - 1, 2 * sym('y') / b - 1
        if r < 3:
            return BFs(fl, d, 0, 0, i, j, xi, eta) if d == r else None
        if d != 2:
            return None
        return -(2 / a) * BFs(fl, 2, 1, 0, i, j, xi, eta) if r == 3 else -(2 / b) * BFs(fl, 2, 0, 1, i, j, xi, eta)

    def variants(self):
        return [dict(cls='Shell'), dict(cls='other')]

    def prove(self, rep, loader, v):
        mod = loader.find(self.module)
        s = self.shell()
        facts = s.facts()
        nm = self.name + '[%s]' % v['cls']
        m, n = s.a('m'), s.a('n')

        def make(dec):
            ex = S.Executor(loader, facts=facts, decisions=dec)
            K.setup(ex)
            ex.g = S.Arr('g', (const(5), 3 * m * n), lambda ix: app('g0@', *ix))
            o = K.shell_obj('s', cls=v['cls'])
            try:
                ex.result = ex.call_function(S.Func(mod.funcs[self.func]), [ex.g, sym('x'), sym('y'), o], {})
            except S.PathRaise as e:
                ex.result = e
            return ex
        for ex in S.explore(make):
            rep.covers(ex)
            hy = facts + ex.pc
            if v['cls'] != 'Shell':
                rep.ok(nm + ': other objects are rejected', isinstance(ex.result, S.PathRaise) and ex.result.exc.startswith('ValueError'), repr(ex.result))
                continue
            if isinstance(ex.result, S.PathRaise):
                rep.ok(nm + ': no error for valid inputs', False, repr(ex.result))
                continue
            i, j = symatom('X_i', True), symatom('X_j', True)
            iP, jP = lift(i), lift(j)
            base_h = list(hy) + [f_le(ZERO, iP), f_lt(iP, m), f_le(ZERO, jP), f_lt(jP, n)]
            got = {}
            bad = False
            for e in ex.g.log:
                row = e.idx[0]
                dr = C.decomp(e.idx[1], ZERO, m, n, e.binders) if row.is_const() else None
                if dr is None or e.op != 'set' or dr[0] is dr[2]:
                    rep.undecided('%s: position of line %s' % (nm, e.line), 'index %s, %s' % (e.idx[0], e.idx[1]))
                    bad = True
                    break
                bi, (si, ci), bj, (sj, cj), d = dr
                sub = {bi: (iP - ci) * si, bj: (jP - cj) * sj}
                g = subst_fm(e.guard, sub)
                others = []
                for b, lo, hi in e.binders:
                    if b in sub:
                        g = f_and(g, f_le(subst(lo, sub), sub[b]), f_lt(sub[b], subst(hi, sub)))
                    else:
                        others.append((b, lo, hi))
                r0 = int(row.const())
                rep.ok('%s: row of line %s inside g' % (nm, e.line), 0 <= r0 < 5, 'row %d' % r0)
                g = C.drop_implied(g, base_h, others)
                if g is not TRUE or others:
                    rep.undecided('%s: line %s writes every term' % (nm, e.line), 'written under %s' % (g,))
                    bad = True
                    break
                got[r0, d] = subst(e.val, sub)
            if bad:
                continue
            for r in range(5):
                for d in range(3):
                    sp = self.spec(r, d, iP, jP)
                    what = '%s: g[%d] of the %s terms' % (nm, r, 'uvw'[d])
                    if sp is None:
                        rep.ok(what + ' is not written', (r, d) not in got, 'written')
                    elif (r, d) not in got:
                        rep.ok(what, False, 'not written')
                    else:
                        rep.eq(what, got[r, d], sp, base_h)
            for o in ex.obligs:
                rep.valid(nm + ': ' + o[0], o[1] + facts, o[2])

    def sample(self, v, rng, env):
        self.shell().sample(env, rng)
        for k in 'xy':
            env.setdefault(k, rng.uniform(0., 1.))
        return env

    def run(self, v, env, getfunc):
        fn = getfunc(self.module, self.func)
        o = self.shell().concrete(env)
        m, n = o.m, o.n
        if v['cls'] != 'Shell':
            try:
                fn(np.zeros((5, 3 * m * n)), 0.1, 0.1, FakeShell())
            except ValueError:
                return
            raise Mis('accepts an object that is not a panel')
        g = np.full((5, 3 * m * n), 7.25)
        call(fn, g, float(env['x']), float(env['y']), o)
        with tree_terms():
            ev = TermEval(env)
            i, j = ev.index('X_i', m), ev.index('X_j', n)
            I, J = np.meshgrid(np.arange(m), np.arange(n), indexing='ij')
            exp = np.full(g.shape, 7.25)
            for r in range(5):
                for d in range(3):
                    sp = self.spec(r, d, i, j)
                    if sp is not None:
                        exp[r, 3 * (J * m + I) + d] = ev.grid(sp, ('X_i', 'X_j'), I.shape)
        compare('fg', g, exp)


# ------------------------------------------------------------------ callee contracts for the python layer
def fg_contract(loader):
    def f(ex, bound):
        g, x, y, o = bound['g'], bound['x'], bound['y'], bound['s']
        mod = loader.find(FIELD)
        if o.clsname != 'Shell':
            raise S.PathRaise('ValueError: A Shell object must be passed')
        if not isinstance(g, S.Arr) or not (isinstance(g.init, P) and g.init.is_zero()) or g.cells or any(getattr(e, 'src', None) != 'fg' for e in g.log):
            raise Unsupported('fg fills an array that held something else')
        rs = read_set(mod, 'fg', 's', loader)
        reads = flatten(ex, o, rs if rs is not None else set(o.attrs))
        N = 3 * ex.num(ex.getattr(o, 'm')) * ex.num(ex.getattr(o, 'n'))
        ex.obligs.append(('fg writes inside its array', ex.hyps(), f_and(f_le(const(5), g.shape[0]), f_le(N, g.shape[1]))))
        k, j = fresh('k', True), fresh('j', True)
        e = S.Event()
        e.arr, e.idx, e.op = g, (k, j), 'set'
        e.val = app('field.fg', k, j, ex.num(x), ex.num(y), *reads)
        e.guard = ex.guard()
        e.binders = tuple((c.binder, c.lo, c.hi) for c in ex.loops) + ((k.as_atom(), ZERO, const(5)), (j.as_atom(), ZERO, N))
        e.loops = len(ex.loops)
        e.line = None
        e.src = 'fg'
        ex.push_event(e)
    return f


def gpw_contract(ex, bound):
    n = bound['num_points'] if 'num_points' in bound else bound[next(iter(bound))]
    arrs = [v for v in bound.values() if isinstance(v, (S.Arr, S.View))]
    for tgt, fn in zip(arrs, ('GX', 'GW')):
        b = fresh('k', True)
        e = S.Event()
        e.arr, e.idx, e.op = tgt, (b,), 'set'
        e.val = app(fn, n, b)
        e.guard = ex.guard()
        e.binders = tuple((c.binder, c.lo, c.hi) for c in ex.loops) + ((b.as_atom(), ZERO, n),)
        e.loops = len(ex.loops)
        e.line = None
        ex.push_event(e)
        ex.obligs.append(('the rule fits its array', ex.hyps(), f_and(f_le(n, tgt.shape[0]), f_le(n, const(64)))))


def load_contracts(ex):
    return {FIELD + '.fg': fg_contract(ex.loader), QUAD + '.get_points_weights': gpw_contract}


# ------------------------------------------------------------------ python layer
class LoadContract(PyContract):
    props = ('P10',)
    module = 'panels.shell'

    def contracts(self, ex):
        return load_contracts(ex)

    def panel(self, I, c, label='p'):
        p = Panel(I, label, bool(c.get('curved')), hist=bool(c.get('hist')), ply=c.get('ply', 'one'))
        I.assume(I.le(p.d['m'], 30))
        I.assume(I.le(p.d['n'], 30))
        return p


def point_entries(I, nm):
    return I.seq(nm, lambda i: [I.el(nm + '.x', i), I.el(nm + '.y', i)] + [I.el(nm + '.f' + k, i) for k in 'xyz'])


def line_entries(I, nm, axis, kinds):
    """loads along a line of constant x or y; kinds: which of the three functions are given"""
    def e(i):
        at = I.el(nm + '.at', i)
        return [at if axis == 'x' else None, at if axis == 'y' else None] + [I.elfn(nm + '.f' + k, i) if g else None for k, g in zip('uvw', kinds)]
    return I.seq(nm, e)


KINDS = [(1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1)]


def point_term(I, p, G, j):
    """work of the load entry on the j-th coefficient"""
    def f(e):
        x, y, fx, fy, fz = e
        g = G(x, y)
        return fx * g(0, j) + fy * g(1, j) + fz * g(2, j)
    return f


def line_term(I, p, G, j):
    def f(e):
        x, y = e[0], e[1]
        L, n = (p.d['b'], p.d['n']) if y is None else (p.d['a'], p.d['m'])
        gx, gw = I.rule(n)

        def at(q):
            z = (gx(q) + 1) * L / 2
            g = G(x, z) if y is None else G(z, y)
            t = 0
            for k, fn in enumerate(e[2:]):
                if fn is not None:
                    t = t + I.apply(fn, z) * g(k, j)
            return gw(q) * (L / 2) * t
        return I.sum(0, n, at)
    return f


class CalcFext(LoadContract):
    name = 'Shell.calc_fext'
    func = 'Shell.calc_fext, shell_fext'
    samples = 40

    def cases(self, v):
        return spread(dict(curved=(0, 1), what=('points', 'loads x', 'loads y', 'pds', 'pds x', 'pds y', 'all', 'none')),
                      dict(size=('none', 'int', '+3'), hist=(0, 1), ply=('one', 'many'), kinds=tuple(range(len(KINDS))), inc=(0, 1)))

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        w = c['what']
        kw = {}
        inc = 1.
        if c['inc']:
            inc = kw['inc'] = I.real('inc')
        N, col0 = p.N3, 0
        if c['size'] == 'none':
            size = N
        elif c['size'] == 'int':
            col0 = I.int('col0', 0)
            size = col0 + N + I.int('more', 0)
            kw.update(size=size, col0=col0)
        else:
            size = N + 3
            col0 = 2
            kw.update(size='+3', col0=2)
        ent = {}
        both = w == 'all'
        if both or w == 'points':
            ent['point_loads'], ent['point_loads_inc'] = [point_entries(I, 'P')], [point_entries(I, 'Pi')]
        if both or w == 'pds':
            ent['point_pds'], ent['point_pds_inc'] = [point_entries(I, 'D')], [point_entries(I, 'Di')]
        k1, k2 = KINDS[c['kinds']], KINDS[(c['kinds'] + 3) % 7]
        for what, nm in (('loads', 'distr_loads'), ('pds', 'distr_pds')):
            if both:
                ent[nm] = [line_entries(I, nm + 'x', 'x', k1), line_entries(I, nm + 'y', 'y', k2)]
                ent[nm + '_inc'] = [line_entries(I, nm + 'xi', 'y', k1)]
            elif w[:-2] == what:
                ax = w[-1]
                ent[nm] = [line_entries(I, nm + '1', ax, k1), line_entries(I, nm + '2', ax, k2)]
                ent[nm + '_inc'] = [line_entries(I, nm + '3', ax, k2)]
        ent = {k: I.segs(*x) for k, x in ent.items()}
        I.set(p.o, **ent)
        f = I.method(p.o, 'calc_fext', **kw)
        G = I.field_g(p.ref())

        def spec(i):
            j = i - col0

            def body():
                r = 0
                for nm, seq in ent.items():
                    term = (point_term if nm.startswith('point') else line_term)(I, p, G, j)
                    t = I.total(seq, term)
                    r = r + (t * inc if nm.endswith('_inc') else t)
                return r
            return I.when(I.both(I.le(col0, i), I.lt(i, col0 + N)), body)
        I.same('fext', f, I.vec(size, spec))


class Adds(LoadContract):
    """the add_... methods record the loads that calc_fext integrates"""
    name = 'Shell.add_point_load, add_distr_load, add_point_pd, add_distr_pd'
    func = 'Shell.add_point_load, add_distr_load_fixed_x, add_distr_load_fixed_y, add_point_pd, add_distr_pd_fixed_x, add_distr_pd_fixed_y'
    LISTS = ('point_loads', 'distr_loads', 'point_pds', 'distr_pds')

    def cases(self, v):
        r = [dict(what=w, cte=k) for w in ('point load', 'point pd') for k in (True, False, None)]
        r += [dict(what=w, axis=a, kinds=k, cte=(True, False, None)[(n + (a == 'y')) % 3])
              for w in ('load', 'pd') for a in 'xy' for n, k in enumerate(KINDS)]
        return r

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        o = p.o
        kw = {} if c['cte'] is None else dict(cte=c['cte'])
        exp = {k + s: [] for k in self.LISTS for s in ('', '_inc')}
        sfx = '_inc' if c['cte'] is False else ''
        for rep in '12':
            X, Y = I.real('x' + rep), I.real('y' + rep)
            if c['what'] == 'point load':
                f = [I.real('f%s%s' % (k, rep)) for k in 'xyz']
                I.method(o, 'add_point_load', X, Y, *f, **kw)
                exp['point_loads' + sfx].append([X, Y] + f)
            elif c['what'] == 'point pd':
                k, d = [I.real('k%s%s' % (q, rep)) for q in 'uvw'], [I.real('d%s%s' % (q, rep)) for q in 'uvw']
                I.method(o, 'add_point_pd', X, Y, k[0], d[0], k[1], d[1], k[2], d[2], **kw)
                exp['point_pds' + sfx].append([X, Y] + [s * t for s, t in zip(k, d)])
            else:
                fns = [I.fn('f%s%s' % (k, rep)) if g else None for k, g in zip('uvw', c['kinds'])]
                ks = [1, 1, 1]
                if c['what'] == 'load':
                    a = {q: f for q, f in zip(('funcx', 'funcy', 'funcz'), fns) if f is not None}
                    nm = 'distr_loads'
                else:
                    ks = [I.pos('k%s%s' % (k, rep)) for k in 'uvw']
                    a = {q: f for q, f in zip(('funcu', 'funcv', 'funcw'), fns) if f is not None}
                    a.update({q: k for q, k, f in zip(('ku', 'kv', 'kw'), ks, fns) if f is not None})
                    nm = 'distr_pds'
                I.method(o, 'add_distr_%s_fixed_%s' % (c['what'], c['axis']), X, **dict(a, **kw))
                exp[nm + sfx].append([X if c['axis'] == 'x' else None, None if c['axis'] == 'x' else X] + [(f, k) if f is not None else None for f, k in zip(fns, ks)])
        z = I.real('z')
        for nm, es in exp.items():
            got = I.attr(o, nm)
            I.true('%s: %d entries' % (nm, len(es)), len(got) == len(es), 'has %d' % len(got))
            for g, e in zip(got, es):
                I.same(nm + ' position', (g[0], g[1]), (e[0], e[1]))
                for k in range(3):
                    a, b = g[2 + k], e[2 + k]
                    if isinstance(b, tuple):
                        I.true(nm + ': function given', a is not None)
                        a, b = I.apply(a, z), I.apply(b[0], z) * b[1]
                    I.same('%s value %d' % (nm, k), a, b)


class AddRejects(LoadContract):
    name = 'incomplete loads are rejected'
    func = 'Shell.add_distr_load_fixed_x, add_distr_load_fixed_y, add_distr_pd_fixed_x, add_distr_pd_fixed_y, shell_fext'

    def cases(self, v):
        r = [dict(what='load', axis=a) for a in 'xy']
        r += [dict(what='pd', axis=a, given=g) for a in 'xy' for g in ('', 'ku', 'funcu', 'kv', 'funcv', 'kw', 'funcw', 'ku funcv', 'kv funcv kw', 'ku funcu funcw')]
        r += [dict(what=nm, both=b) for nm in ('distr_loads', 'distr_pds', 'distr_loads_inc', 'distr_pds_inc') for b in (0, 1)]
        return r

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        if 'both' in c:
            e = [I.real('x') if c['both'] else None, I.real('y') if c['both'] else None, I.fn('f'), None, None]
            I.set(p.o, **{c['what']: [e]})
            I.raises('a line needs exactly one fixed coordinate', 'ValueError', lambda: I.method(p.o, 'calc_fext'))
            return
        kw = {k: (I.pos(k) if k.startswith('k') else I.fn(k)) for k in c.get('given', '').split()}
        I.raises('incomplete', 'ValueError', lambda: I.method(p.o, 'add_distr_%s_fixed_%s' % (c['what'], c['axis']), I.real('at'), **kw))


class PointConstraint(LoadContract):
    """k times the outer product of the constrained rows of g"""
    name = 'Shell.calc_stiffness_point_constraint'
    func = 'Shell.calc_stiffness_point_constraint'
    DOF = ('u', 'v', 'w', 'phix', 'phiy')

    def cases(self, v):
        import itertools
        r = [dict(curved=k % 2, on=on, k=(k // 2) % 2) for k, on in enumerate(itertools.product((0, 1), repeat=5))]
        return r + [dict(curved=k, on='default', k=0) for k in (0, 1)]

    def scenario(self, I, v, c):
        p = self.panel(I, c)
        I.method(p.o, '_rebuild')
        kw = {}
        ks = [1000000, 100000]
        if c['k']:
            ks = [I.real('kuvw'), I.real('kphi')]
            kw = dict(kuvw=ks[0], kphi=ks[1])
        on = (1, 1, 1, 0, 0) if c['on'] == 'default' else c['on']
        if c['on'] != 'default':
            kw.update({d: bool(x) for d, x in zip(self.DOF, on)})
        x, y = I.pos('x'), I.pos('y')
        Kp = I.method(p.o, 'calc_stiffness_point_constraint', x, y, **kw)
        g = I.field_g(p.ref())(x, y)
        if not any(on):
            I.same('shape', tuple(I.shape(Kp)), (p.N3, p.N3))

        def el(i, j):
            r = 0
            for q in range(5):
                if on[q]:
                    r = r + ks[q > 2] * g(q, i) * g(q, j)
            return r
        I.same('stiffness', Kp, I.grid((p.N3, p.N3), el))


def all_contracts():
    return [Fg(), CalcFext(), Adds(), AddRejects(), PointConstraint()]
