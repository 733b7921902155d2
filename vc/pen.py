"""Penalty constants (panels/multidomain/connections/penalties.py)."""
from .expr import *
from .pylayer import PyContract
from .pshell import Panel

PEN = 'panels.multidomain.connections.penalties'


def series(I, x1, x2, h1, h2):
    """stiffness in series over the mean thickness: 2*x1*x2/(x1+x2) / ((h1+h2)/2)"""
    return 4 * x1 * x2 / ((x1 + x2) * (h1 + h2))


class KtKr(PyContract):
    name = 'calc_kt_kr'
    props = ('P14',)
    module = PEN
    func = 'calc_kt_kr'
    KINDS = {'xcte': (0, 0), 'ycte': (1, 1), 'bot-top': (0, 0), 'xcte-ycte': (0, 1), 'ycte-xcte': (1, 0)}

    def cases(self, v):
        r = [dict(kind=k, spell=s, curved=c) for k in self.KINDS for s, c in (('', 0), ('upper', 1))]
        r += [dict(kind=k, spell='title', curved=0) for k in self.KINDS]
        r += [dict(kind='nonsense', spell='', curved=0), dict(kind='x', spell='', curved=0), dict(kind='', spell='', curved=0)]
        return r

    def scenario(self, I, v, c):
        p = Panel(I, 'p', bool(c['curved']), hist=bool(c['curved']))
        q = Panel(I, 'q', bool(c['curved']), ply='many')
        k = c['kind']
        k = {'': k, 'upper': k.upper(), 'title': k.title()}[c['spell']]
        if c['kind'] not in self.KINDS:
            I.raises('unknown connection kinds are rejected', 'ValueError', lambda: I.call(PEN, 'calc_kt_kr', p.o, q.o, k))
            return
        kt, kr = I.call(PEN, 'calc_kt_kr', p.o, q.o, k)
        i, j = self.KINDS[c['kind']]
        l1, l2 = p.lam(), q.lam()
        h1, h2 = I.attr(l1, 'h'), I.attr(l2, 'h')
        A = series(I, I.at(I.attr(l1, 'A'), i, i), I.at(I.attr(l2, 'A'), j, j), h1, h2)
        if c['kind'] == 'bot-top':
            # faces in contact over the area: per unit of the shortest edge of the first panel
            I.same('kt', kt, A / I.min(p.d['a'], p.d['b']))
            I.same('kr', kr, None)
            return
        I.same('kt', kt, A)
        I.same('kr', kr, series(I, I.at(I.attr(l1, 'D'), i, i), I.at(I.attr(l2, 'D'), j, j), h1, h2))


class KtKrSymmetry(PyContract):
    """the penalties of a connection do not depend on which panel is named first"""
    name = 'calc_kt_kr symmetric'
    props = ('P14',)
    module = PEN
    func = 'calc_kt_kr'

    def cases(self, v):
        return [dict(kind='xcte', back='xcte'), dict(kind='ycte', back='ycte'), dict(kind='xcte-ycte', back='ycte-xcte'),
                dict(kind='ycte-xcte', back='xcte-ycte')]

    def scenario(self, I, v, c):
        p, q = Panel(I, 'p'), Panel(I, 'q')
        a = I.call(PEN, 'calc_kt_kr', p.o, q.o, c['kind'])
        b = I.call(PEN, 'calc_kt_kr', q.o, p.o, c['back'])
        I.same('kt', a[0], b[0])
        I.same('kr', a[1], b[1])


class PdPenalties(PyContract):
    name = 'penalties of prescribed displacements'
    props = ('P14',)
    module = PEN
    func = 'calc_ku_kv_kw_point_pd, calc_ku_kv_kw_line_pd_xcte, calc_ku_kv_kw_line_pd_ycte'

    def cases(self, v):
        return [dict(fn=f) for f in ('point_pd', 'line_pd_xcte', 'line_pd_ycte')]

    def scenario(self, I, v, c):
        p = Panel(I, 'p', ply='many')
        I.method(p.o, '_rebuild')
        A = I.attr(p.lam(), 'A')
        A11, A22 = I.at(A, 0, 0), I.at(A, 1, 1)
        L = {'point_pd': 1, 'line_pd_xcte': p.d['b'], 'line_pd_ycte': p.d['a']}[c['fn']]
        k = I.call(PEN, 'calc_ku_kv_kw_' + c['fn'], p.o)
        I.same('ku, kv, kw', tuple(k), (A11 / L, A22 / L, A11 / L))


class KwTsl(PyContract):
    name = 'calc_kw_tsl'
    props = ('P14',)
    module = PEN
    func = 'calc_kw_tsl'

    def cases(self, v):
        return [dict(kind='linear', dims='same'), dict(kind='linear', dims='a'), dict(kind='linear', dims='b'), dict(kind='other', dims='same')]

    def scenario(self, I, v, c):
        p, q = Panel(I, 'p'), Panel(I, 'q')
        a, b = p.d['a'], p.d['b']
        I.set(q.o, a=a * 2 if c['dims'] == 'a' else a, b=b * 2 if c['dims'] == 'b' else b)
        f = lambda: I.call(PEN, 'calc_kw_tsl', p.o, q.o, c['kind'])
        if c['dims'] != 'same' or c['kind'] != 'linear':
            I.raises('mismatched panels and unknown laws are rejected', 'ValueError', f)
            return
        I.same('kw', f(), 10000 / (a * b))


def all_contracts():
    return [KtKr(), KtKrSymmetry(), PdPenalties(), KwTsl()]
