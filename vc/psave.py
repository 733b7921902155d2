"""P21: a saved panel or bay is restored unchanged.

Contract of pickle (trusted): load returns a copy of the object graph that dump was given, made of the attributes of
every object, or of what __getstate__ returns and __setstate__ restores where a class defines them; functions that
are not importable are refused."""
import copy
import os
import shutil
import tempfile
from .expr import *
from .ir import ClassDef, Unsupported
from . import sym as S
from . import builtins as B
from .pylayer import PyContract, SymFn
from .pshell import Panel
from .pmeth import spread
from .pload import load_contracts, point_entries
from .pfield import field_contracts
from .pbay import Bay, BAY, BayMatrix


class File:
    def __init__(self, path, mode):
        self.path, self.mode, self.pos = path, mode, 0


class Pickled:
    def __init__(self, v):
        self.v = v


def x_open(ex, a, kw, line):
    path = a[0]
    mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
    if not isinstance(path, str) or not isinstance(mode, str):
        raise Unsupported('open of %r' % (path,), line)
    if ex.loops or ex.guards:
        raise Unsupported('files in a symbolic loop', line)
    files = ex.__dict__.setdefault('files', {})
    if 'w' in mode:
        files[path] = []
    elif 'a' in mode:
        files.setdefault(path, [])
    elif path not in files:
        raise S.PathRaise('FileNotFoundError: %s' % path, line)
    return File(path, mode)


def f_method(ex, f, name, a, line):
    files = ex.files
    if name == 'write':
        if not ('w' in f.mode or 'a' in f.mode or '+' in f.mode):
            raise S.PathRaise('UnsupportedOperation', line)
        files[f.path].append(a[0])
        return None
    if name == 'read':
        r = files[f.path][f.pos:]
        f.pos = len(files[f.path])
        if len(r) != 1:
            raise Unsupported('a file of %d pieces' % len(r), line)
        return r[0]
    if name in ('close', 'flush'):
        return None
    if name == '__enter__':
        return f
    raise Unsupported('method %s of a file' % name, line)


def clone(ex, v, memo, dumping, line):
    if v is None or isinstance(v, (str, bool, bytes, P, Fm, S.SymSeq, S.ClassRef, S.Builtin, S.Extern, int, float)):
        return v
    if id(v) in memo:
        return memo[id(v)][0]

    def keep(n):
        memo[id(v)] = (n, v)
        return n
    go = lambda x: clone(ex, x, memo, dumping, line)
    if isinstance(v, SymFn):
        return v
    if isinstance(v, S.Func):
        if v.env is None and v.selfobj is None:
            return v
        raise S.PathRaise('PicklingError: a local function', line)
    if isinstance(v, S.Obj):
        n = keep(copy.copy(v))
        n.attrs = {}
        S.Obj.seq += 1
        n.seq = S.Obj.seq
        state = v.attrs
        if isinstance(v.cls, ClassDef):
            for m in ('__reduce__', '__reduce_ex__', '__getnewargs__'):
                if ex.find_method(v.cls, m):
                    raise Unsupported('%s of %s' % (m, v.clsname), line)
            if dumping and ex.find_method(v.cls, '__getstate__'):
                state = ex.call_method(v, '__getstate__', [], {}, line)
            if not dumping and ex.find_method(v.cls, '__setstate__'):
                ex.call_method(n, '__setstate__', [go(v.attrs.get('#state', v.attrs))], {}, line)
                return n
        if not isinstance(state, dict):
            n.attrs['#state'] = go(state)
        else:
            for k, x in state.items():
                n.attrs[k] = go(x)
        return n
    if isinstance(v, S.SegList):
        n = keep(copy.copy(v))
        n.segs = [('conc', [go(x) for x in s[1]]) if s[0] == 'conc' else s for s in v.segs]
        return n
    if isinstance(v, list):
        n = keep(type(v)())
        n.extend(go(x) for x in v)
        return n
    if isinstance(v, tuple):
        return tuple(go(x) for x in v)
    if isinstance(v, dict):
        n = keep({})
        for k, x in v.items():
            n[k] = go(x)
        return n
    if isinstance(v, S.Arr):
        n = keep(copy.copy(v))
        n.log = list(v.log)
        n.cells = None if v.cells is None else dict(v.cells)
        n.meta = dict(v.meta)
        S.Obj.seq += 1
        n.seq = S.Obj.seq
        return n
    if isinstance(v, S.View):
        return keep(S.View(go(v.arr), v.shape))
    raise Unsupported('pickle of %r' % (v,), line)


def x_dumps(ex, a, kw, line):
    return Pickled(clone(ex, a[0], {}, True, line))


def x_dump(ex, a, kw, line):
    f_method(ex, a[1], 'write', [x_dumps(ex, a, kw, line)], line)


def x_loads(ex, a, kw, line):
    if not isinstance(a[0], Pickled):
        raise S.PathRaise('UnpicklingError', line)
    return clone(ex, a[0].v, {}, False, line)


def x_load(ex, a, kw, line):
    f = a[0]
    items = ex.files[f.path]
    if f.pos >= len(items):
        raise S.PathRaise('EOFError', line)
    f.pos += 1
    return x_loads(ex, [items[f.pos - 1]], {}, line)


B.BUILTINS['open'] = S.Builtin('open', x_open)


def pickle_contracts(ex):
    ex.files = {}
    ex.externs.update({'pickle.dump': x_dump, 'pickle.load': x_load, 'pickle.dumps': x_dumps, 'pickle.loads': x_loads})
    ex.file_method = f_method


def scratch(I, fn):
    """fn(directory) with a directory that holds the files"""
    if I.sym:
        return fn('d/')
    d = tempfile.mkdtemp(prefix='panels-save-')
    try:
        return fn(d + os.sep)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class SaveContract(PyContract):
    props = ('P21',)
    samples = 24

    def contracts(self, ex):
        pickle_contracts(ex)
        d = load_contracts(ex)
        d.update(field_contracts(ex))
        return d

    def trusted(self):
        return PyContract.trusted(self) + ['pickle.load returns a copy of the objects given to pickle.dump (attributes, or __getstate__ / __setstate__); the file system keeps what is written']

    def assumptions(self):
        return PyContract.assumptions(self) + ['names of saved objects do not themselves end with the extension; functions given as loads can be pickled (module-level functions)']


NAMES = ('p', 'wing.Shell1', 'a.StiffPanelBay.b', 'x.y')


class ShellRestored(SaveContract):
    name = 'Shell.save, load'
    module = 'panels.shell'
    func = 'load, Shell.save, Shell._clear_matrices'
    OPS = ('kC', 'kG', 'kM', 'kA', 'cA', 'fext', 'fint', 'uvw', 'strain', 'stress', 'size', 'kC state', 'kG state')

    def cases(self, v):
        return spread(dict(curved=(0, 1), op=self.OPS, hist=('none', 'kC', 'all', 'saved', 'changed')),
                      dict(ply=('one', 'many'), name=(0, 1, 2, 3), ext=(0, 1), sub=(0, 0, 1), ortho=(0, 0, 1), model=(0, 1)))

    def do(self, I, c, o, op, P):
        m = lambda name, *a, **kw: I.method(o, name, *a, **kw)
        cv = I.arr('c', (P.N3,))
        pts = lambda: dict(xs=I.arr('xs', (I.int('np', 1),)), ys=I.arr('ys', (I.int('np', 1),)))
        if op in ('kC', 'kG', 'kM', 'kA'):
            return m('calc_' + op)
        if op == 'cA':
            return m('calc_cA', aeromu=I.real('aeromu'))
        if op in ('kC state', 'kG state'):
            return m('calc_' + op[:2], c=cv, NLgeom=True)
        if op == 'fext':
            return m('calc_fext', inc=I.real('inc'))
        if op == 'fint':
            return m('calc_fint', cv)
        if op == 'uvw':
            mesh, f = m('uvw', cv, **pts())
            return tuple(I.key(mesh, k) for k in ('Xs', 'Ys')) + tuple(I.key(f, k) for k in ('u', 'v', 'w', 'phix', 'phiy'))
        if op in ('strain', 'stress'):
            mesh, f = m(op, cv, **pts())
            keys = ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy') if op == 'strain' else ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')
            return tuple(I.key(mesh, k) for k in ('Xs', 'Ys')) + tuple(I.key(f, k) for k in keys)
        if op == 'size':
            return m('get_size')

    def make(self, I, c, k):
        p = Panel(I, 'p', bool(c['curved']), ply=c['ply'], sub=bool(c['sub']), model=bool(c['model']))
        kw = dict(Nxx=I.real('Nxx'), Nyy=I.real('Nyy'), Nxy=I.real('Nxy'), beta=I.pos('beta'), gamma=I.real('gamma'),
                  Nxx_cte=I.real('Nxxc'), Nyy_cte=I.real('Nyyc'), Nxy_cte=I.real('Nxyc'),
                  point_loads=I.segs(point_entries(I, 'P')), point_loads_inc=I.segs(point_entries(I, 'Q')))
        if c['ortho']:
            kw['force_orthotropic_laminate'] = True
        I.set(p.o, **kw)
        return p

    def history(self, I, c, p):
        h = c['hist']
        # the displacement fields take their model from a rebuilt panel
        if c['op'] in ('uvw', 'strain', 'stress', 'size', 'fext', 'fint') or h == 'kC':
            self.do(I, c, p.o, 'kC', p)
        if h == 'all':
            for op in ('kM', 'kG', 'uvw', 'fext'):
                self.do(I, c, p.o, op, p)

    def scenario(self, I, v, c):
        p, t = self.make(I, c, 0), self.make(I, c, 1)
        self.history(I, c, p)
        self.history(I, c, t)

        def go(d):
            name = d + NAMES[c['name']]
            I.set(p.o, name=name)
            if c['hist'] in ('saved', 'changed'):
                if c['hist'] == 'changed':
                    I.set(p.o, a=I.pos('olda'), Nxx=I.real('oldN'))
                I.method(p.o, 'save')
                I.set(p.o, a=p.d['a'], Nxx=I.real('Nxx'))
            I.method(p.o, 'save')
            return I.call('panels.shell', 'load', name + ('.Shell' if c['ext'] else ''))
        q = scratch(I, go)
        spec = self.do(I, c, t.o, c['op'], t)
        I.same('name', I.attr(q, 'name'), I.attr(p.o, 'name'))
        I.same('restored panel: ' + c['op'], self.do(I, c, q, c['op'], t), spec)
        I.same('saved panel: ' + c['op'], self.do(I, c, p.o, c['op'], t), spec)


class BayRestored(SaveContract):
    name = 'StiffPanelBay.save, load'
    module = BAY
    func = 'load, StiffPanelBay.save, StiffPanelBay._clear_matrices'
    cost = 5

    def variants(self):
        return [dict(op=op, curved=k) for op in ('kC', 'kG', 'kM', 'fext', 'skin', 'size') for k in (0, 1)]

    def cases(self, v):
        return spread(dict(curved=(v['curved'],), op=(v['op'],), hist=('none', 'kC', 'all', 'saved')),
                      dict(stiff=(1, 2, 4, 5, 6, 0), name=(0, 1, 2, 3), ext=(0, 1)))

    def do(self, I, o, op, b):
        if op in ('kC', 'kG', 'kM'):
            return I.method(o, 'calc_' + op)
        if op == 'fext':
            return I.method(o, 'calc_fext')
        if op == 'skin':
            return I.method(o, 'uvw_skin', I.arr('c', (b.size,)), xs=I.arr('xs', (I.int('np', 1),)), ys=I.arr('ys', (I.int('np', 1),)))
        return I.method(o, 'get_size')

    def make(self, I, c):
        b = Bay(I, 2, curved=bool(c['curved']))
        for k, w, parts in BayMatrix.STIFF[c['stiff']]:
            b.add(k, w if w in ('first', 'last') else 1, parts)
        I.set(b.o, forces_skin=I.segs(point_entries(I, 'skin')))
        return b

    def scenario(self, I, v, c):
        b, t = self.make(I, c), self.make(I, c)
        for x in (b, t):
            if c['hist'] == 'kC' or c['op'] in ('skin', 'fext', 'size'):
                self.do(I, x.o, 'kC', x)
            if c['hist'] == 'all':
                for op in ('kM', 'kG', 'kC', 'skin'):
                    self.do(I, x.o, op, x)

        def go(d):
            name = d + NAMES[c['name']]
            I.set(b.o, name=name)
            if c['hist'] == 'saved':
                I.method(b.o, 'save')
            I.method(b.o, 'save')
            return I.call(BAY, 'load', name + ('.StiffPanelBay' if c['ext'] else ''))
        q = scratch(I, go)
        spec = self.do(I, t.o, c['op'], t)
        I.same('restored bay: ' + c['op'], self.do(I, q, c['op'], t), spec)
        I.same('saved bay: ' + c['op'], self.do(I, b.o, c['op'], t), spec)


class Missing(SaveContract):
    name = 'load of a name never saved'
    module = 'panels.shell'
    func = 'load'

    def cases(self, v):
        return [dict(what=w, ext=e) for w in ('shell', 'bay') for e in (0, 1)]

    def scenario(self, I, v, c):
        mod, ext = ('panels.shell', '.Shell') if c['what'] == 'shell' else (BAY, '.StiffPanelBay')
        I.raises('rejected', 'FileNotFoundError', lambda: scratch(I, lambda d: I.call(mod, 'load', d + 'none' + (ext if c['ext'] else ''))))


def all_contracts():
    return [ShellRestored(), BayRestored(), Missing()]
