"""P13, P19: assemblies of panels (panels/multidomain/multidomain.py).

The contract of every method is stated with twins of the panels (same definition, no assembly): what a panel
contributes is what its own method returns for its own block.
"""
import numpy as np
from .expr import *
from .pylayer import PyContract
from .pshell import Panel, FIELD
from .pmeth import spread
from .pload import load_contracts, point_entries
from .pfield import field_contracts, UVW, STRAIN, STRESS

MD = 'panels.multidomain.multidomain'
CONN = 'panels.multidomain.connections.'
PEN = CONN + 'penalties'


class Assy:
    """panels in an assembly, and their twins outside of it"""

    def __init__(self, I, kinds, conn=None, ply=('one', 'many'), groups=None):
        self.I = I
        self.p, self.t = [], []
        for k, kind in enumerate(kinds):
            for into in (self.p, self.t):
                into.append(Panel(I, 'p%d' % k, kind == 'c', ply=ply[k % len(ply)]))
            if groups:
                I.set(self.p[-1].o, group=groups[k])
        self.off = [0]
        for t in self.t:
            self.off.append(self.off[-1] + t.N3)
        self.size = self.off[-1]
        # an object of each pair: panels of the assembly stand before their twins
        kw = {} if conn is None else dict(conn=self.named(conn))
        self.o = I.new(MD, 'MultiDomain', I.lst(*[p.o for p in self.p]), **kw)

    def named(self, conn):
        """the list of dictionaries a user writes"""
        return self.I.lst(*[self.I.dct(p1=self.p[x['p1']].o, p2=self.p[x['p2']].o, **{k: v for k, v in x.items() if k not in ('p1', 'p2')}) for x in conn])

    def sum(self, f):
        r = 0
        for k, t in enumerate(self.t):
            r = self.I.add(r, f(t, self.off[k]))
        return r

    def conn(self, conn):
        """upper triangle of the stiffness of the connections"""
        return conn_matrix(self.I, [(t.o, lambda t=t: self.I.total(t.plyts, lambda h: h)) for t in self.t], self.off, self.size, conn)


def conn_matrix(I, panels, off, size, conn):
    """upper triangle of the stiffness of connections between panels: (object, thickness) each, at rows off"""
    r = 0
    for x in conn:
        i, j, fn = x['p1'], x['p2'], x['func']
        pos = [(x.get('xcte1'), x.get('ycte1')), (x.get('xcte2'), x.get('ycte2'))]
        if i > j:
            i, j = j, i
            pos = pos[::-1]
        (A, hA), (B, hB) = panels[i], panels[j]
        oA, oB = off[i], off[j]
        z = size
        if fn in ('SB', 'SB_TSL'):
            if fn == 'SB':
                kt, kr = I.call(PEN, 'calc_kt_kr', A, B, 'bot-top')
            else:
                I.method(A, '_rebuild')
                I.method(B, '_rebuild')
                kt = I.call(PEN, 'calc_kw_tsl', A, B, x['tsl_type'])
            d = (hA() + hB()) / 2
            m = CONN + 'kCSB'
            r = r + I.kernel(m, 'fkCSB11', kt, d, A, z, oA, oA) + I.kernel(m, 'fkCSB12', kt, d, A, B, z, oA, oB) \
                + I.kernel(m, 'fkCSB22', kt, A, B, z, oB, oB)
            continue
        ax = fn[2:]
        w = 0 if ax == 'xcte' else 1
        a, b = pos[0][w], pos[1][w]
        kt, kr = I.call(PEN, 'calc_kt_kr', A, B, ax)
        m, f = CONN + 'kC' + fn, 'fkC' + fn
        r = r + I.kernel(m, f + '11', kt, kr, A, a, z, oA, oA) + I.kernel(m, f + '12', kt, kr, A, B, a, b, z, oA, oB) \
            + I.kernel(m, f + '22', kt, kr, A, B, b, z, oB, oB)
    return r


KINDS = {'f': 'f', 'fc': 'fc', 'cf': 'cf', 'ffc': 'ffc', 'cfcf': 'cfcf'}
FUNCS = ('SSxcte', 'SSycte', 'BFxcte', 'BFycte', 'SB', 'SB_TSL')


def entry(I, fn, p1, p2, sfx=''):
    d = dict(p1=p1, p2=p2, func=fn)
    if fn[2:] in ('xcte', 'ycte'):
        for k in '12':
            d[fn[2:] + k] = I.pos(fn + sfx + k, 0.1, 0.4)
    if fn == 'SB_TSL':
        d['tsl_type'] = 'linear'
    return d


class AssyContract(PyContract):
    props = ('P13',)
    module = MD
    samples = 24

    def contracts(self, ex):
        d = load_contracts(ex)
        d.update(field_contracts(ex))
        return d


class Blocks(AssyContract):
    name = 'MultiDomain: blocks'
    func = 'MultiDomain.__init__, get_size'

    def cases(self, v):
        return [dict(kinds=k) for k in KINDS]

    def scenario(self, I, v, c):
        A = Assy(I, c['kinds'])
        for k, p in enumerate(A.p):
            for nm, x in (('row_start', A.off[k]), ('col_start', A.off[k]), ('row_end', A.off[k + 1]), ('col_end', A.off[k + 1])):
                I.same('%s of panel %d' % (nm, k), I.attr(p.o, nm), x)
        I.same('size', I.method(A.o, 'get_size'), A.size)


class Conn(AssyContract):
    name = 'MultiDomain.get_kC_conn'
    func = 'MultiDomain.get_kC_conn'
    samples = 48

    def cases(self, v):
        return spread(dict(func=FUNCS, swap=(0, 1), where=('given', 'own')),
                      dict(kinds=('ffc', 'cff', 'fcf'), pair=((0, 1), (0, 2), (1, 2)), hist=('none', 'same', 'other', 'raw', 'kC'), finalize=(True, True, False)))

    def scenario(self, I, v, c):
        i, j = c['pair']
        if c['swap']:
            i, j = j, i
        e = entry(I, c['func'], i, j)
        own = c['where'] == 'own'
        A = Assy(I, c['kinds'], [e] if own else None, ply=('many',))
        if c['func'] == 'SB_TSL':
            I.assume(I.eq(A.p[i].d['a'], A.p[j].d['a']))
            I.assume(I.eq(A.p[i].d['b'], A.p[j].d['b']))
            for p in A.p:
                I.method(p.o, '_rebuild')
        conn = None if own else A.named([e])
        kw = {} if own else dict(conn=conn)
        spec = A.conn([e])
        if c['hist'] == 'same':
            I.method(A.o, 'get_kC_conn', **kw)
        elif c['hist'] == 'raw':
            I.method(A.o, 'get_kC_conn', finalize=not c['finalize'], **kw)
        elif c['hist'] == 'other':
            I.method(A.o, 'get_kC_conn', conn=A.named([entry(I, 'SSxcte', 2, 0, 'o'), entry(I, 'BFycte', 0, 1, 'o')]))
        elif c['hist'] == 'kC':
            I.method(A.o, 'calc_kC', **kw)
        for n in (1, 2):
            K = I.method(A.o, 'get_kC_conn', finalize=c['finalize'], **kw)
            I.same('kC_conn, call %d' % n, K, I.S(spec) if c['finalize'] else spec)
        if not own:
            I.same('number of keys', I.int_of(len(conn[0])), I.int_of(len(e)))
            for k, x in e.items():
                I.same('connection given: %s' % k, conn[0][k], A.p[x].o if k in ('p1', 'p2') else x)
            # without connections given again: those of the last call
            I.same('kC_conn, call 3', I.method(A.o, 'get_kC_conn', finalize=c['finalize']), I.S(spec) if c['finalize'] else spec)


class Conns(AssyContract):
    name = 'MultiDomain.get_kC_conn: sum over the connections'
    func = 'MultiDomain.get_kC_conn'

    def cases(self, v):
        return [dict(kinds=k, n=n) for k in ('fcf', 'cff') for n in range(6)] + [dict(kinds='fc', n='none')]

    def scenario(self, I, v, c):
        if c['n'] == 'none':
            A = Assy(I, c['kinds'])
            I.method(A.o, 'get_kC_conn', conn=A.named([entry(I, 'SSxcte', 0, 1)]))
            I.same('kC_conn', I.method(A.o, 'get_kC_conn', conn=A.named([])), I.zeros(A.size, A.size))
            return
        k = c['n']
        es = [entry(I, FUNCS[k % 5], 0, 1, 'a'), entry(I, FUNCS[(k + 1) % 5], 2, 0, 'b'), entry(I, FUNCS[(k + 2) % 5], 2, 1, 'c'),
              entry(I, FUNCS[k % 5], 1, 0, 'd')]
        A = Assy(I, c['kinds'], es, ply=('many',))
        spec = I.S(A.conn(es))
        I.same('kC_conn', I.method(A.o, 'get_kC_conn'), spec)
        I.same('kC_conn again', I.method(A.o, 'get_kC_conn'), spec)


class ConnRejects(AssyContract):
    name = 'MultiDomain.get_kC_conn rejects'
    func = 'MultiDomain.get_kC_conn'

    def cases(self, v):
        return [dict(what=w) for w in ('func', 'self', 'self later', 'none')]

    def scenario(self, I, v, c):
        A = Assy(I, 'fc')
        w = c['what']
        if w == 'none':
            I.raises('no connections', 'RuntimeError', lambda: I.method(A.o, 'get_kC_conn'))
        elif w == 'func':
            e = entry(I, 'SSxcte', 0, 1)
            I.raises('unknown kind', 'ValueError', lambda: I.method(A.o, 'get_kC_conn', conn=A.named([dict(e, func='SSzcte')])))
        else:
            e = [entry(I, 'SSxcte', 0, 1)] if w == 'self later' else []
            e += [entry(I, 'SSxcte', 1, 1, 's')]
            I.raises('a panel and itself', 'ValueError', lambda: I.method(A.o, 'get_kC_conn', conn=A.named(e)))


class AssyMatrix(AssyContract):
    how = ''
    conns = False

    def cases(self, v):
        free = dict(kinds=('f', 'fc', 'cff'), finalize=(True, False))
        if self.how in ('calc_kC', 'calc_kG', 'calc_kT'):
            free['c'] = (0, 1)
        cyc = dict(hist=(0, 1), loads=(0, 1, 1), given=(0, 1))
        if self.how in ('calc_kC', 'calc_kG'):
            free['NL'] = (None, True, False)
        return spread(free, cyc)

    def scenario(self, I, v, c):
        n = len(c['kinds'])
        es = [entry(I, 'SSycte', 1, 0), entry(I, 'BFxcte', 0, n - 1)][:n - 1] if self.conns else []
        given = c['given'] and self.conns and self.how == 'calc_kC'
        A = Assy(I, c['kinds'], None if given else es if self.conns else None)
        kw = dict(conn=A.named(es)) if given else {}
        tw = {}
        if c['hist']:
            I.method(A.o, 'calc_kM')
            if self.conns:
                I.method(A.o, 'get_kC_conn', conn=A.named([entry(I, 'SSxcte', 0, n - 1, 'o')] if n > 1 else []))
        if c['loads'] and self.how in ('calc_kC', 'calc_kG', 'calc_kT'):
            for k, (p, t) in enumerate(zip(A.p, A.t)):
                N = I.real('Nxx%d' % k)
                N2 = I.real('Nxy_cte%d' % k)
                I.assume(I.ne(N, 0))
                I.assume(I.ne(N2, 0))
                for q in (p, t):
                    I.set(q.o, Nxx=N, Nxy_cte=N2)
        if c.get('c'):
            tw['c'] = kw['c'] = I.arr('c', (A.size,))
        if c.get('NL') is not None:
            tw['NLgeom'] = kw['NLgeom'] = c['NL']
        K = I.method(A.o, self.how, finalize=c['finalize'], **kw)
        raw = A.sum(lambda t, o: self.own(I, t, size=A.size, row0=o, col0=o, finalize=False, **tw))
        if c['finalize']:
            raw = I.S(raw)
        if es:
            # the stiffness of the connections comes symmetric
            raw = raw + I.S(A.conn(es))
        I.same(self.how, K, raw)
        I.same(self.how[5:], I.attr(A.o, self.how[5:]), raw)

    def own(self, I, t, **kw):
        return I.method(t.o, self.how, **kw)


class AssyKC(AssyMatrix):
    name = 'MultiDomain.calc_kC'
    func = 'MultiDomain.calc_kC'
    how, conns = 'calc_kC', True


class AssyKG(AssyMatrix):
    name = 'MultiDomain.calc_kG'
    func = 'MultiDomain.calc_kG'
    how = 'calc_kG'


class AssyKM(AssyMatrix):
    name = 'MultiDomain.calc_kM'
    func = 'MultiDomain.calc_kM'
    how = 'calc_kM'


class AssyKT(AssyMatrix):
    name = 'MultiDomain.calc_kT'
    func = 'MultiDomain.calc_kT'
    how, conns = 'calc_kT', True


class AssyFint(AssyContract):
    name = 'MultiDomain.calc_fint'
    func = 'MultiDomain.calc_fint'

    def cases(self, v):
        return spread(dict(kinds=('fc', 'cff', 'fcf'), hist=(0, 1)), dict(inc=(0, 1)))

    def scenario(self, I, v, c):
        n = len(c['kinds'])
        es = [entry(I, 'SSycte', 1, 0), entry(I, 'BFxcte', 0, n - 1)][:n - 1]
        A = Assy(I, c['kinds'], es)
        cv = I.arr('c', (A.size,))
        if c['hist']:
            I.method(A.o, 'calc_fint', I.arr('cold', (A.size,)))
        kw = dict(inc=I.real('inc')) if c['inc'] else {}
        f = I.method(A.o, 'calc_fint', cv, **kw)
        spec = I.add(A.sum(lambda t, o: I.method(t.o, 'calc_fint', cv, size=A.size, col0=o)), I.matvec(I.S(A.conn(es)), cv))
        I.same('fint', f, spec)
        I.same('attribute fint', I.attr(A.o, 'fint'), spec)


class AssyFext(AssyContract):
    name = 'MultiDomain.calc_fext'
    func = 'MultiDomain.calc_fext'

    def cases(self, v):
        return spread(dict(kinds=('f', 'fc', 'cff'), inc=(0, 1)), dict(hist=(0, 1)))

    def scenario(self, I, v, c):
        A = Assy(I, c['kinds'])
        for k, (p, t) in enumerate(zip(A.p, A.t)):
            for q in (p, t):
                I.assume(I.le(q.d['m'], 30))
                I.assume(I.le(q.d['n'], 30))
                I.set(q.o, point_loads=I.segs(point_entries(I, 'P%d' % k)), point_loads_inc=I.segs(point_entries(I, 'Q%d' % k)))
        if c['hist']:
            I.method(A.o, 'calc_fext')
        kw = dict(inc=I.real('inc')) if c['inc'] else {}
        f = I.method(A.o, 'calc_fext', **kw)
        spec = A.sum(lambda t, o: I.method(t.o, 'calc_fext', size=A.size, col0=o, **kw))
        I.same('fext', f, spec)
        I.same('attribute fext', I.attr(A.o, 'fext'), spec)


class VectorsChecked(AssyContract):
    name = 'assemblies check displacement vectors'
    props = ('P13', 'P16')
    func = 'MultiDomain.calc_kC, calc_kG'

    def cases(self, v):
        return [dict(what=w, at=a) for w in ('list', '2d', 'short', 'long') for a in ('kC', 'kG')]

    def scenario(self, I, v, c):
        A = Assy(I, 'fc', [entry(I, 'SSycte', 1, 0)])
        N = A.size
        bad = {'list': lambda: [0., 1., 2.], '2d': lambda: I.arr('c', (1, N)), 'short': lambda: I.arr('c', (N - 1,)),
               'long': lambda: I.arr('c', (N + I.int('over', 1),))}[c['what']]()
        I.raises('rejected', 'TypeError' if c['what'] == 'list' else 'ValueError', lambda: I.method(A.o, 'calc_' + c['at'], c=bad))


# ------------------------------------------------------------------ P19
class AssyField(AssyContract):
    props = ('P19',)
    how = ''
    gauss = False

    def cases(self, v):
        free = dict(kinds=('fc', 'cff', 'ffcf'), groups=(0, 1, 2))
        if self.gauss:
            free['points'] = ('both', 'x', 'y')
        else:
            free['grid'] = (0, 1)
        cyc = dict(cores=(0, 1), hist=(0, 1))
        if self.how != 'uvw':
            cyc['NL'] = (None, True, False)
        return spread(free, cyc)

    def scenario(self, I, v, c):
        n = len(c['kinds'])
        groups = [('g', 'g', 'g', 'g'), ('g', 'o', 'g', 'o'), ('o', 'g', 'o', 'g')][c['groups']][:n]
        es = [entry(I, 'SSycte', k, k + 1, str(k)) for k in range(n - 1)]
        A = Assy(I, c['kinds'], es, groups=groups)
        for q in A.p + A.t:
            I.method(q.o, 'calc_kC')        # the constants come from a solution
        nc = I.attr(A.o, 'out_num_cores')
        if c['cores']:
            nc = I.int('cores', 1, 5)
            I.set(A.o, out_num_cores=nc)
        cv = I.arr('c', (A.size,))
        kw = {}
        gx, gy = 50, 50
        meth = self.how
        xg = yg = None
        if self.gauss:
            meth += '_gauss_points'
            xg, yg = I.nd('xg'), I.nd('yg')
            kw = dict(x_gauss=None, y_gauss=None)
            if c['points'] != 'y':
                kw['x_gauss'] = xg
            if c['points'] != 'x':
                kw['y_gauss'] = yg
        elif c['grid']:
            gx, gy = I.int('gx', 2, 5), I.int('gy', 2, 5)
            kw = dict(gridx=gx, gridy=gy)
        if c.get('NL') is not None:
            kw['NLterms'] = c['NL']
        NL = 1 if c.get('NL') is None else int(c['NL'])
        if c['hist']:
            I.method(A.o, meth, I.arr('cold', (A.size,)), 'o', **kw)
        res = I.method(A.o, meth, cv, 'g', **kw)
        own = [k for k in range(n) if groups[k] == 'g']
        names = {'uvw': UVW, 'strain': STRAIN, 'stress': STRESS}[self.how]
        for nm in ('x', 'y') + names:
            I.same('number of panels in %s' % nm, I.int_of(len(I.key(res, nm))), I.int_of(len(own)))
        for at, k in enumerate(own):
            t = A.t[k]
            lx = xg if self.gauss and c['points'] != 'y' else I.linspace(0, t.d['a'], gx)
            ly = yg if self.gauss and c['points'] != 'x' else I.linspace(0, t.d['b'], gy)
            x, y = I.meshgrid(lx, ly)
            sh = I.shape(x)
            back = lambda z: I.reshape(z, sh)
            off = A.off[k]
            ck = I.vec(t.N3, lambda i: I.at(cv, off + i))
            X, Y = I.ravel(x), I.ravel(y)
            I.same('x of panel %d' % k, I.key(res, 'x')[at], back(X))
            I.same('y of panel %d' % k, I.key(res, 'y')[at], back(Y))
            if self.how == 'uvw':
                exp = dict(zip(UVW, I.items(I.kernel(FIELD, 'fuvw', ck, t.ref(), X, Y, nc), 5)))
            else:
                exp = dict(zip(STRAIN, I.items(I.kernel(FIELD, 'fstrain', ck, t.ref(), X, Y, nc, NL), 6)))
            exp = {q: back(z) for q, z in exp.items()}
            if self.how == 'stress':
                ABD = I.attr(t.lam(), 'ABD')
                st = {}
                for i, q in enumerate(STRESS):
                    r = 0
                    for j, e in enumerate(STRAIN):
                        r = r + exp[e] * I.at(ABD, i, j)
                    st[q] = r
                exp = st
            for q, z in exp.items():
                I.same('%s of panel %d' % (q, k), I.key(res, q)[at], z)


def fieldclass(how_, gauss_):
    nm = how_ + ('_gauss_points' if gauss_ else '')

    class F(AssyField):
        how, gauss = how_, gauss_
        name = 'MultiDomain.' + nm
        func = 'MultiDomain.' + nm + (', default_field' if not gauss_ else '')
    F.__name__ = 'Assy_' + nm
    return F()


class FieldNeeds(AssyContract):
    props = ('P19',)
    name = 'assembly fields reject incomplete input'
    func = 'MultiDomain.uvw_gauss_points, strain_gauss_points, stress_gauss_points, stress'

    def cases(self, v):
        return [dict(how=h) for h in ('uvw_gauss_points', 'strain_gauss_points', 'stress_gauss_points', 'stress')]

    def scenario(self, I, v, c):
        A = Assy(I, 'fc', [entry(I, 'SSycte', 0, 1)], groups='gg')
        for q in A.p:
            I.method(q.o, 'calc_kC')
        cv = I.arr('c', (A.size,))
        if c['how'] == 'stress':
            I.set(A.p[1].o, ABD=None)
            I.raises('no laminate', 'ValueError', lambda: I.method(A.o, 'stress', cv, 'g'))
        else:
            I.raises('no points', 'ValueError', lambda: I.method(A.o, c['how'], cv, 'g', None, None))


def all_contracts():
    return [Blocks(), Conn(), Conns(), ConnRejects(), AssyKC(), AssyKG(), AssyKM(), AssyKT(), AssyFint(), AssyFext(), VectorsChecked()] + \
        [fieldclass(h, g) for h in ('uvw', 'strain', 'stress') for g in (False, True)] + [FieldNeeds()]
