"""Models of python builtins, numpy, scipy and libc used by the verified code."""
from fractions import Fraction
from .expr import (P, Fm, ZERO, ONE, TRUE, FALSE, const, lift, sym, symatom, fresh, app, ind, mk_sum, subst, f_and, f_or,
                   f_not, f_eq, f_ge0, f_le, f_lt, f_pred)
from .ir import N, Unsupported
from . import sym as S


def _t(x):
    return x if isinstance(x, tuple) else (tuple(x) if isinstance(x, list) else (x,))


def install(ex):
    ex.builtins = dict(BUILTINS)
    ex.externs = dict(EXTERNS)
    ex.extern_prefix = {}


# ------------------------------------------------------------------ python builtins
def b_range(ex, a, kw, line):
    a = [ex.num(x, line) for x in a]
    if len(a) == 1:
        return S.Range(ZERO, a[0], ONE)
    if len(a) == 2:
        return S.Range(a[0], a[1], ONE)
    return S.Range(*a)


def b_len(ex, a, kw, line):
    v = a[0]
    if isinstance(v, S.SegList) or (isinstance(v, S.SList) and v.lifted()):
        return S.seg_len(v)
    if isinstance(v, (list, tuple, dict, str)):
        return const(len(v))
    if isinstance(v, S.SymSeq):
        return v.n
    if isinstance(v, (S.Arr, S.View)):
        return v.shape[0]
    if isinstance(v, P):
        return app('len', v)
    raise Unsupported('len of %r' % (v,), line)


def b_float(ex, a, kw, line):
    v = a[0]
    if isinstance(v, str):
        try:
            return const(Fraction(v))
        except Exception:
            raise Unsupported('float(%r)' % v, line)
    if v is None:
        raise S.PathRaise('TypeError: float(None)', line)
    return ex.num(v, line)


def b_int(ex, a, kw, line):
    if isinstance(a[0], str):
        try:
            return const(int(a[0]))
        except ValueError:
            raise S.PathRaise('ValueError: invalid literal for int()', line)
    return ex.coerce(ex.num(a[0], line), 'int', line)


def b_abs(ex, a, kw, line):
    v = ex.num(a[0], line)
    if v.is_const():
        return const(abs(v.const()))
    return app('abs', v)


def b_minmax(name):
    def f(ex, a, kw, line):
        xs = list(a[0]) if len(a) == 1 and isinstance(a[0], (list, tuple)) else list(a)
        if len(a) == 1 and isinstance(a[0], P):
            return app(name + '_of', a[0])
        xs = [ex.num(x, line) for x in xs]
        if all(x.is_const() for x in xs):
            return const((min if name == 'min' else max)(x.const() for x in xs))
        flat = []
        for x in xs:
            at = x.as_atom()
            flat += list(at.data[1]) if at is not None and at.kind == 'app' and at.data[0] == name else [x]
        u = sorted(set(flat), key=lambda p: p.key)
        if len(u) == 1:
            return u[0]
        return app(name, *u)
    return f


def b_sum(ex, a, kw, line):
    v = a[0]
    start = a[1] if len(a) > 1 else ZERO
    if isinstance(v, (list, tuple)) and not (isinstance(v, S.SList) and v.lifted()):
        r = start
        for x in v:
            r = ex.binop('+', r, x, line)
        return r
    if isinstance(v, S.SymSeq):
        i = fresh('s', True)
        return ex.num(start) + mk_sum(i.as_atom(), ZERO, v.n, ex.num(v.getter(i), line))
    g = S.segments(v)
    if g is not None:
        r = start
        for x in g:
            r = b_sum(ex, [x[1], r], {}, line) if x[0] == 'conc' else ex.binop('+', r, b_sum(ex, [S.SymSeq(x[1], x[2])], {}, line), line)
        return r
    raise Unsupported('sum of %r' % (v,), line)


def b_enumerate(ex, a, kw, line):
    v = a[0]
    st = a[1] if len(a) > 1 else kw.get('start', ZERO)
    k = ex.iterate(v, line)
    if k[0] == 'conc':
        return [(st + i, x) for i, x in enumerate(k[1])]
    if k[0] == 'segs':
        out, off = [], st
        for g in k[1]:
            if g[0] == 'conc':
                out.append(('conc', [(off + i, x) for i, x in enumerate(g[1])]))
                off = off + len(g[1])
            else:
                out.append(('sym', g[1], lambda i, g=g, off=off: (off + i, g[2](i))))
                off = off + g[1]
        return S.SegList(out)
    _, lo, hi, g = k
    return S.SymSeq(hi - lo, lambda i: (st + i, g(lo + i)))


def b_zip(ex, a, kw, line):
    ks = [ex.iterate(v, line) for v in a]
    if all(k[0] == 'conc' for k in ks):
        return [tuple(x) for x in zip(*[k[1] for k in ks])]
    if all(k[0] == 'sym' for k in ks):
        n = ks[0][2] - ks[0][1]
        if all((k[2] - k[1]) == n for k in ks):
            return S.SymSeq(n, lambda i: tuple(k[3](k[1] + i) for k in ks))
    raise Unsupported('zip of sequences of different kinds', line)


def b_list(ex, a, kw, line):
    if not a:
        return []
    if isinstance(a[0], S.SymSeq):
        return a[0]
    k = ex.iterate(a[0], line)
    if k[0] == 'conc':
        return S.SList(k[1])
    if k[0] == 'segs':
        return S.SegList(S.segments(a[0]))
    _, lo, hi, g = k
    return S.SymSeq(hi - lo, lambda i: g(lo + i))


def b_map(ex, a, kw, line):
    ks = b_zip(ex, list(a[1:]), {}, line)
    f = lambda t: ex.call(a[0], list(t), {}, line)
    if isinstance(ks, list):
        return S.SList([f(t) for t in ks])
    return S.SymSeq(ks.n, lambda i: f(ks.getter(i)))


def x_chain(ex, a, kw, line):
    out = []
    for v in a:
        k = ex.iterate(v, line)
        if k[0] == 'segs':
            out += S.segments(v)
        elif k[0] == 'conc':
            out.append(('conc', list(k[1])))
        else:
            out.append(('sym', k[2] - k[1], lambda i, k=k: k[3](k[1] + i)))
    if all(g[0] == 'conc' for g in out):
        return S.SList([x for g in out for x in g[1]])
    return S.SegList(out)


def x_product(ex, a, kw, line):
    ks = [ex.iterate(v, line) for v in a]
    rep = kw.get('repeat')
    if rep is not None:
        ks = ks * int(rep.const())
    if any(k[0] != 'conc' for k in ks):
        raise Unsupported('product of symbolic sequences', line)
    import itertools
    return [tuple(x) for x in itertools.product(*[k[1] for k in ks])]


def x_combinations(ex, a, kw, line):
    k = ex.iterate(a[0], line)
    if k[0] != 'conc':
        raise Unsupported('combinations of a symbolic sequence', line)
    import itertools
    return [tuple(x) for x in itertools.combinations(k[1], int(a[1].const()))]


def x_partial(ex, a, kw, line):
    f, first = a[0], list(a[1:])
    return S.Builtin('partial', lambda ex, b, kb, ln: ex.call(f, first + list(b), dict(kw, **kb), ln))


def b_tuple(ex, a, kw, line):
    r = b_list(ex, a, kw, line)
    return tuple(r) if isinstance(r, (list, tuple)) and not (isinstance(r, S.SList) and r.lifted()) else r


def b_dict(ex, a, kw, line):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for k, v in a[0]:
                d[k] = v
    d.update(kw)
    return d


def is_nd(v):
    a = v.as_atom()
    return a is not None and a.kind == 'sym' and str(a.data).endswith('#nd')


def b_isinstance(ex, a, kw, line):
    v, c = a
    cs = list(c) if isinstance(c, tuple) else [c]
    r = False
    for c in cs:
        nm = c.name if isinstance(c, (S.Builtin, S.Extern)) else (c.cls.name if isinstance(c, S.ClassRef) else None)
        if nm is None:
            raise Unsupported('isinstance', line)
        if isinstance(v, S.Obj):
            r = r or v.clsname == nm
        elif isinstance(v, str):
            r = r or nm == 'str'
        elif isinstance(v, bool):
            r = r or nm in ('bool', 'int')
        elif isinstance(v, (S.Arr, S.View)) or (isinstance(v, P) and is_nd(v)):
            r = r or nm == 'numpy.ndarray'
        elif isinstance(v, P):
            if nm in ('int', 'float', 'numbers.Number'):
                r = r or (nm != 'int') or v.is_int()
        elif isinstance(v, list):
            r = r or nm == 'list'
        elif isinstance(v, tuple):
            r = r or nm == 'tuple'
        elif isinstance(v, dict):
            r = r or nm == 'dict'
        elif v is None:
            pass
        else:
            raise Unsupported('isinstance of %r' % (v,), line)
    return r


def b_hasattr(ex, a, kw, line):
    try:
        ex.getattr(a[0], a[1], line)
        return True
    except S.PathRaise:
        return False


def b_getattr(ex, a, kw, line):
    if not isinstance(a[1], str):
        raise Unsupported('getattr with a computed name', line)
    try:
        return ex.getattr(a[0], a[1], line)
    except S.PathRaise:
        if len(a) > 2:
            return a[2]
        raise


def b_setattr(ex, a, kw, line):
    if not isinstance(a[1], str):
        raise Unsupported('setattr with a computed name', line)
    ex.set_attr(a[0], a[1], a[2], line)


def b_noop(ex, a, kw, line):
    return None


def b_str(ex, a, kw, line):
    if a and isinstance(a[0], str):
        return a[0]
    return S.Opaque('string')


def b_any(ex, a, kw, line):
    k = ex.iterate(a[0], line)
    if k[0] != 'conc':
        raise Unsupported('any over symbolic sequence', line)
    fs = []
    for v in k[1]:
        c = ex.cond(v, line)
        if c is True:
            return True
        if isinstance(c, Fm):
            fs.append(c)
    return f_or(*fs) if fs else False


def b_all(ex, a, kw, line):
    k = ex.iterate(a[0], line)
    if k[0] != 'conc':
        raise Unsupported('all over symbolic sequence', line)
    fs = []
    for v in k[1]:
        c = ex.cond(v, line)
        if c is False:
            return False
        if isinstance(c, Fm):
            fs.append(c)
    return f_and(*fs) if fs else True


def b_bool(ex, a, kw, line):
    return ex.cond(a[0], line)


def b_sorted(ex, a, kw, line):
    k = ex.iterate(a[0], line)
    if k[0] != 'conc':
        raise Unsupported('sorted of symbolic sequence', line)
    xs = k[1]
    if 'key' in kw:
        raise Unsupported('sorted with key', line)
    if all(isinstance(x, str) for x in xs):
        return sorted(xs)
    if all(isinstance(x, P) and x.is_const() for x in xs):
        return sorted(xs, key=lambda p: p.const())
    raise Unsupported('sorted of symbolic values', line)


def b_reversed(ex, a, kw, line):
    v = a[0]
    if isinstance(v, S.Range) and v.step == ONE:
        return S.Range(v.hi - 1, v.lo - 1, const(-1))
    k = ex.iterate(v, line)
    if k[0] == 'conc':
        return list(reversed(k[1]))
    _, lo, hi, g = k
    return S.SymSeq(hi - lo, lambda i: g(hi - 1 - i))


def b_type(ex, a, kw, line):
    v = a[0]
    if isinstance(v, S.Obj) and not isinstance(v.cls, str):
        return S.ClassRef(v.cls)
    return S.Opaque('type')


def b_pow(ex, a, kw, line):
    return ex.num(a[0], line) ** ex.num(a[1], line)


BUILTINS = {k: S.Builtin(k, v) for k, v in dict(
    range=b_range, len=b_len, float=b_float, int=b_int, abs=b_abs, min=b_minmax('min'), max=b_minmax('max'), sum=b_sum,
    enumerate=b_enumerate, zip=b_zip, list=b_list, tuple=b_tuple, dict=b_dict, isinstance=b_isinstance, hasattr=b_hasattr,
    getattr=b_getattr, setattr=b_setattr, print=b_noop, str=b_str, any=b_any, all=b_all, bool=b_bool, sorted=b_sorted,
    reversed=b_reversed, map=b_map, type=b_type, pow=b_pow, repr=b_str, set=b_list).items()}
BUILTINS.update({'True': True, 'False': False, 'None': None, 'long': S.Extern('numpy.int64'), 'object': S.Extern('object'),
                 '__file__': 'file'})
for _e in ('ValueError', 'TypeError', 'RuntimeError', 'NotImplementedError', 'KeyError', 'Exception', 'AttributeError',
           'IndexError', 'ImportError', 'ZeroDivisionError', 'AssertionError', 'DeprecationWarning', 'UserWarning'):
    BUILTINS[_e] = S.Builtin(_e, lambda ex, a, kw, line: S.Opaque('exception'))


# ------------------------------------------------------------------ numpy / C library
def dtype_of(kw, a=None, pos=None, default='double'):
    d = kw.get('dtype')
    if d is None and pos is not None and a is not None and len(a) > pos:
        d = a[pos]
    if d is None:
        return default
    if isinstance(d, S.Extern) and ('int' in d.name or 'long' in d.name):
        return 'long'
    if isinstance(d, S.Builtin) and d.name in ('int', 'bool'):
        return 'long'
    return 'double'


def shape_term(o):
    """shape of an array of unknown rank"""
    at = o.as_atom()
    if at is not None and at.kind == 'app' and at.data[0] == 'meshgrid':
        return app('shape_of', app('meshgrid', at.data[1][0], at.data[1][1], ZERO))
    if at is not None and at.kind == 'app' and at.data[0] == 'atleast_1d':
        return app('shape_one')
    if at is not None and at.kind == 'sym' and '~' in str(at.data):
        return app('shape_of', sym(at.data.split('~')[1]))
    return app('shape_of', o)


def shape_of(ex, s, line):
    if isinstance(s, (tuple, list)):
        return tuple(ex.num(x, line) for x in s)
    return (ex.num(s, line),)


def np_fill(value):
    def f(ex, a, kw, line):
        sh = kw.get('shape', a[0] if a else None)
        if isinstance(sh, P) and not sh.is_int() and sh.as_atom() is not None and sh.as_atom().kind == 'app' and sh.as_atom().data[0] == 'shape_of':
            return value if value is not None else app('empty', sh)
        sh = shape_of(ex, sh, line)
        dt = dtype_of(kw, a, 1)
        arr = S.Arr('array@%s' % line, sh, value, dt)
        if all(x.is_const() for x in sh):
            tot = 1
            for x in sh:
                tot *= int(x.const())
            if tot <= 400:
                arr.cells = {}
        return arr
    return f


def np_full(ex, a, kw, line):
    sh = shape_of(ex, a[0], line)
    return S.Arr('array@%s' % line, sh, ex.num(a[1] if len(a) > 1 else kw['fill_value'], line), dtype_of(kw, a, 2))


def np_like(value):
    def f(ex, a, kw, line):
        v = a[0]
        if isinstance(v, (S.Arr, S.View)):
            return S.Arr('array@%s' % line, tuple(v.shape), value, dtype_of(kw))
        if isinstance(v, P):
            return app('full_like', v, value if value is not None else ZERO)
        raise Unsupported('zeros_like', line)
    return f


def np_identity(ex, a, kw, line):
    v = a[0]
    if v is None:
        return None
    return v


def np_asarray(ex, a, kw, line):
    v = a[0]
    if isinstance(v, (list, tuple)):
        if v and all(isinstance(x, P) for x in v):
            arr = S.Arr('array@%s' % line, (const(len(v)),), ZERO, dtype_of(kw), cells=True)
            for i, x in enumerate(v):
                arr.cells[(const(i),)] = x
            return arr
        if v and all(isinstance(x, (list, tuple)) and all(isinstance(y, P) for y in x) for x in v):
            arr = S.Arr('array@%s' % line, (const(len(v)), const(len(v[0]))), ZERO, dtype_of(kw), cells=True)
            for i, x in enumerate(v):
                for j, y in enumerate(x):
                    arr.cells[(const(i), const(j))] = y
            return arr
        raise Unsupported('array of %r' % (v,), line)
    if v is None:
        return S.Opaque('array(nan)')
    return v


def np_hstack(ex, a, kw, line):
    v = a[0]
    if isinstance(v, (tuple, list)) and len(v) == 2 and all(isinstance(x, (S.Arr, S.View)) and len(x.shape) == 1 for x in v):
        x, y = v
        n = x.shape[0]
        tot = n + y.shape[0]

        def init(idx, x=x):
            # elements beyond n are padding: unspecified by the contract, only index < n is claimed
            return ex.arr_get(x, idx, line) if isinstance(x, S.Arr) else None
        arr = S.Arr('hstack@%s' % line, (tot,), init)
        arr.meta['pad_of'] = (x, n)
        return arr
    raise Unsupported('hstack', line)


def np_reshape(ex, a, kw, line):
    v = a[0]
    sh = kw.get('newshape', kw.get('shape', a[1] if len(a) > 1 else None))
    return reshape(ex, v, _t(sh) if not isinstance(sh, P) else (sh,), line)


def reshape(ex, v, sh, line):
    if isinstance(v, P):
        return app('reshape', v, *[x for x in sh])
    if not isinstance(v, (S.Arr, S.View)):
        raise Unsupported('reshape of %r' % (v,), line)
    tot = ONE
    for x in v.shape:
        tot = tot * x
    sh = [ex.num(x, line) for x in sh]
    out = []
    for i, x in enumerate(sh):
        if x.is_const() and x.const() == -1:
            r = tot
            for j, y in enumerate(sh):
                if j != i:
                    r = r / y
            if not r.is_int():
                d = ONE
                for j, y in enumerate(sh):
                    if j != i:
                        d = d * y
                r = app('exactdiv', tot, d)
            out.append(r)
        else:
            out.append(x)
    base = v.arr if isinstance(v, S.View) else v
    return S.View(base, tuple(out))


def np_ravel(ex, a, kw, line):
    v = a[0]
    if isinstance(v, P):
        return app('ravel', v)
    tot = ONE
    for x in v.shape:
        tot = tot * x
    if isinstance(v, S.Arr) and len(v.shape) == 1:
        return v
    return S.View(v.arr if isinstance(v, S.View) else v, (tot,))


def row_view(ex, o, ix, line):
    """o[i] of a 2-D array"""
    if isinstance(o, S.Arr) and o.cells is not None and all(i.is_const() for i in ix) and len(o.shape) - len(ix) == 1 and o.shape[-1].is_const():
        n = int(o.shape[-1].const())
        arr = S.Arr(o.name + '_row', (const(n),), ZERO, o.dtype, cells=True)
        for j in range(n):
            arr.cells[(const(j),)] = ex.arr_get(o, tuple(ix) + (const(j),), line)
        return arr
    if isinstance(o, (S.Arr, S.View)) and len(o.shape) - len(ix) == 1:
        sh = o.shape

        def init(idx, o=o, ix=tuple(ix)):
            arr, full = ex.resolve_index(o, ix + tuple(idx), line)
            return ex.arr_get(arr, full, line)
        return S.Arr('row', (sh[-1],), init)
    raise Unsupported('partial indexing', line)


def slice_array(ex, o, idx, line):
    if isinstance(o, (S.Arr, S.View)) and len(o.shape) == 1 and len(idx) == 1 and isinstance(idx[0], slice):
        sl = idx[0]
        if sl.step is not None:
            raise Unsupported('strided slice', line)
        lo = sl.start if sl.start is not None else ZERO
        hi = sl.stop if sl.stop is not None else o.shape[0]
        base = o

        def init(i, base=base, lo=lo):
            arr, full = ex.resolve_index(base, (lo + i[0],), line)
            return ex.arr_get(arr, full, line)
        if isinstance(base, S.Arr) and base.cells is not None and lo.is_const() and hi.is_const() and hi.const() >= 0:
            arr = S.Arr('slice', (hi - lo,), ZERO, base.dtype, cells=True)
            for k in range(int(hi.const() - lo.const())):
                arr.cells[(const(k),)] = ex.arr_get(base, (lo + k,), line)
            return arr
        r = S.Arr('slice', (hi - lo,), init)
        r.meta['slice_of'] = (o, lo, hi)
        return r
    if isinstance(o, P):
        return opaque_index(ex, o, idx, line)
    if isinstance(o, (S.Arr, S.View)) and len(o.shape) == 2 and len(idx) == 2:
        # general 2-D slicing with full slices / constant indices
        free = []
        for n, s in enumerate(idx):
            if isinstance(s, slice):
                lo = s.start if s.start is not None else ZERO
                hi = s.stop if s.stop is not None else o.shape[n]
                if s.step is not None:
                    raise Unsupported('strided slice', line)
                if hi.is_const() and hi.const() < 0:
                    hi = o.shape[n] + hi
                free.append((n, lo, hi))
        shape = tuple(hi - lo for n, lo, hi in free)

        def get(ix, o=o):
            full = []
            k = 0
            for n, s in enumerate(idx):
                if isinstance(s, slice):
                    full.append(free[k][1] + ix[k])
                    k += 1
                else:
                    full.append(ex.num(s))
            arr, f = ex.resolve_index(o, tuple(full), line)
            return ex.arr_get(arr, f, line)
        if all(x.is_const() for x in shape):
            arr = S.Arr('slice', shape, ZERO, cells=True)
            import itertools
            for t in itertools.product(*[range(int(x.const())) for x in shape]):
                arr.cells[tuple(const(i) for i in t)] = get(tuple(const(i) for i in t))
            return arr
        return S.Arr('slice', shape, get)
    raise Unsupported('slicing', line)


def opaque_index(ex, o, idx, line):
    if isinstance(o, P):
        args = []
        for i in idx:
            if isinstance(i, slice):
                for x in (i.start, i.stop, i.step):
                    args.append('none' if x is None else x)
                args.append(':')
            elif isinstance(i, (P, str)):
                args.append(i)
            elif i is None:
                args.append('newaxis')
            elif isinstance(i, Fm):
                args.append(i)
            else:
                raise Unsupported('index %r' % (i,), line)
        return app('getitem', o, *args)
    if isinstance(o, S.Opaque):
        return S.Opaque(o.why)
    raise Unsupported('indexing of %r' % (o,), line)


def attribute(ex, o, name, line):
    if isinstance(o, S.Opaque):
        return S.Opaque(o.why)
    if isinstance(o, P):
        if name == 'shape':
            return shape_term(o)
        if name in ('T', 'size', 'ndim'):
            return app('attr_' + name, o)
    if isinstance(o, dict):
        return None
    if isinstance(o, S.Builtin):
        return S.Opaque('attribute of builtin')
    if isinstance(o, S.Func):
        return S.Opaque('attribute of function')
    return None


def method(ex, o, name, args, kw, line):
    if isinstance(o, list):
        if isinstance(o, S.SList) and o.lifted() and name not in ('append', 'extend', 'copy'):
            raise Unsupported('list built in a symbolic loop', line)
        if name == 'append':
            if ex.loops or ex.guards or (isinstance(o, S.SList) and o.lifted()):
                h = getattr(ex, 'list_append', None)
                if h is not None and h(o, args[0], line):
                    return None
                raise Unsupported('list append in a symbolic loop', line)
            o.append(args[0])
            return None
        if name == 'extend':
            if ex.loops or ex.guards:
                raise Unsupported('list extend in a symbolic loop', line)
            k = ex.iterate(args[0], line)
            if k[0] == 'conc' and not (isinstance(o, S.SList) and o.lifted()):
                o.extend(k[1])
                return None
            if not isinstance(o, S.SList):
                raise Unsupported('extend of this kind of list', line)
            g = [('conc', list(k[1]))] if k[0] == 'conc' else S.segments(args[0])
            if g is None:
                g = [('sym', k[2] - k[1], lambda i: k[3](k[1] + i))]
            was = o.segs
            now = S.segments(o)
            ex.journal.append(lambda: setattr(o, 'segs', was))
            o.segs = now + g
            return None
        if name == 'index':
            for i, x in enumerate(o):
                if ex.compare('==', x, args[0], line) is True:
                    return const(i)
            raise Unsupported('list.index', line)
        if name == 'copy':
            return b_list(ex, [o], {}, line)
        if name == 'sort':
            if all(isinstance(x, str) for x in o):
                o.sort()
                return None
    if isinstance(o, dict):
        if name == 'get':
            k = args[0]
            if isinstance(k, P) and not k.is_const():
                raise Unsupported('symbolic key', line)
            return o.get(k, args[1] if len(args) > 1 else None)
        if name == 'items':
            return [(k, v) for k, v in o.items()]
        if name == 'keys':
            return list(o.keys())
        if name == 'values':
            return list(o.values())
        if name == 'copy':
            return dict(o)
        if name == 'update':
            if ex.loops or ex.guards:
                raise Unsupported('dict update in a symbolic loop', line)
            if args:
                o.update(args[0])
            o.update(kw)
            return None
        if name == 'pop':
            if ex.loops or ex.guards:
                raise Unsupported('dict pop in a symbolic loop', line)
            return o.pop(args[0], *args[1:])
        if name == 'setdefault':
            return o.setdefault(args[0], args[1] if len(args) > 1 else None)
    if isinstance(o, str):
        if name in ('lower', 'upper', 'strip'):
            return getattr(o, name)()
        if name in ('startswith', 'endswith'):
            return getattr(o, name)(args[0])
        if name == 'replace':
            return o.replace(args[0], args[1])
        if name == 'split':
            return o.split(*[a for a in args])
        if name == 'join':
            return S.Opaque('string')
        if name == 'format':
            return S.braces(o, args) if not kw else S.Opaque('formatted string')
        if name == 'find':
            return const(o.find(args[0]))
    if isinstance(o, S.Opaque):
        return S.Opaque(o.why)
    if isinstance(o, (S.Arr, S.View)):
        if name == 'reshape':
            return reshape(ex, o, _t(args[0]) if len(args) == 1 and isinstance(args[0], (tuple, list)) else args, line)
        if name == 'ravel' or name == 'flatten':
            return np_ravel(ex, [o], {}, line)
        if name == 'copy' or name == 'astype':
            return copy_array(ex, o, line)
    if isinstance(o, P):
        return app('m_' + name, o, *[x for x in args if isinstance(x, (P, str))])
    raise Unsupported('method %s of %r' % (name, o), line)


def copy_array(ex, o, line):
    if isinstance(o, S.Arr) and o.cells is not None and not o.log:
        n = S.Arr(o.name + '_copy', o.shape, o.init, o.dtype, cells=True)
        n.cells.update(o.cells)
        return n
    if isinstance(o, S.Arr) and not o.log:
        return S.Arr(o.name + '_copy', o.shape, o.init, o.dtype)
    raise Unsupported('copy of a written array', line)


def np_newdtype(ex, a, kw, line):
    return S.Opaque('dtype')


def c_malloc(ex, a, kw, line):
    arr = S.Arr('malloc@%s' % line, (ex.num(a[0], line) / 8,), None, 'double')      # bytes / sizeof(double)
    arr.meta.update(malloc=line, depth=len(ex.loops))
    return arr


def c_free(ex, a, kw, line):
    if not ex.BOUNDS:
        return None
    p = a[0]
    arr = p.arr if isinstance(p, S.Ptr) else p
    if not isinstance(arr, S.Arr):
        raise Unsupported('free of %r' % (p,), line)
    if ex.loops and arr.meta.get('depth') != len(ex.loops):
        raise Unsupported('free inside a loop of memory allocated outside of it', line)
    if isinstance(p, S.Ptr):
        ex.obligs.append(('line %s frees the start of %s' % (line, arr.name), ex.hyps(), f_eq(p.off, ZERO)))
    ex.obligs.append(('line %s frees memory obtained from malloc' % line, ex.hyps(), TRUE if 'malloc' in arr.meta else FALSE))
    ex.alive(arr, line)
    was = arr.meta.get('freed', FALSE)
    ex.journal.append(lambda: arr.meta.__setitem__('freed', was))
    arr.meta['freed'] = f_or(was, ex.guard())
    return None


def c_noop(ex, a, kw, line):
    return None


def np_unary(name):
    def f(ex, a, kw, line):
        v = a[0]
        if isinstance(v, P):
            if name == 'sqrt' and v.is_const():
                import math
                c = v.const()
                if c >= 0:
                    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if n * n == c.numerator and d * d == c.denominator:
                        return const(Fraction(n, d))
            if name == 'abs':
                return b_abs(ex, a, kw, line)
            return app(name, v)
        return ext_unary(ex, name, v, line)
    return f


def ext_unary(ex, name, v, line):
    raise Unsupported('%s of %r' % (name, v), line)


def np_isclose(ex, a, kw, line):
    return f_pred('isclose', *[x for x in a if isinstance(x, P)])


EXTERNS = {
    'itertools.chain': x_chain, 'itertools.product': x_product, 'itertools.combinations': x_combinations, 'functools.partial': x_partial,
    'numpy.zeros': np_fill(ZERO), 'numpy.ones': np_fill(ONE), 'numpy.empty': np_fill(None), 'numpy.full': np_full,
    'numpy.zeros_like': np_like(ZERO), 'numpy.ones_like': np_like(ONE), 'numpy.empty_like': np_like(None),
    'numpy.asarray': np_asarray, 'numpy.ascontiguousarray': np_asarray, 'numpy.array': np_asarray,
    'numpy.atleast_1d': np_asarray,
    'numpy.hstack': np_hstack, 'numpy.reshape': np_reshape, 'numpy.ravel': np_ravel,
    'numpy.sqrt': np_unary('sqrt'), 'numpy.sin': np_unary('sin'), 'numpy.cos': np_unary('cos'), 'numpy.tan': np_unary('tan'),
    'numpy.abs': np_unary('abs'), 'numpy.float64': b_float, 'numpy.deg2rad': np_unary('deg2rad'),
    'math.sqrt': np_unary('sqrt'), 'math.sin': np_unary('sin'), 'math.cos': np_unary('cos'), 'math.pow': b_pow,
    'libc.stdlib.malloc': c_malloc, 'libc.stdlib.free': c_free,
    'cython.parallel.prange': lambda ex, a, kw, line: b_range(ex, a, {}, line),
    'gc.collect': c_noop, 'warnings.warn': c_noop,
}
BUILTINS['pow'] = S.Builtin('pow', b_pow)
