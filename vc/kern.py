"""Environment (assumed contracts of dependencies + contracts of callees) for the Cython kernels."""
from .expr import *
from . import expr as E
from . import sym as S
from .ir import Unsupported, FuncDef
from . import builtins as B

# contracts of the basis / integral / quadrature functions, proved separately on the C++ sources:
#   II(p,i,flagsA,q,k,flagsB): integral over [-1,1] of d^p f_i d^q f_k     (unordered pair of factors)
#   BF(p,i,x,flags): p-th derivative of basis function i at x
#   GX(n,k), GW(n,k): k-th node/weight of the n point Gauss-Legendre rule
INTEG = {'integral_ff': (0, 0), 'integral_ffp': (0, 1), 'integral_ffpp': (0, 2), 'integral_fpfp': (1, 1),
         'integral_fpfpp': (1, 2), 'integral_fppfpp': (2, 2)}


def _nII(a):
    # a = (p, i, f1..f4, q, k, g1..g4)
    h = (a[0],) + a[1:6]
    g = (a[6],) + a[7:12]
    kh = (h[0], tuple(x.key for x in h[1:]))
    kg = (g[0], tuple(x.key for x in g[1:]))
    if kg < kh:
        return g + h
    return None


NORMALISERS['II'] = _nII


def II(p, i, fi, q, k, fk):
    return app('II', p, i, *fi, q, k, *fk)


def BF(p, i, x, fl):
    return app('BF', p, i, x, *fl)


def x_integral(name):
    p, q = INTEG[name]

    def f(ex, a, kw, line):
        a = [ex.num(x, line) for x in a]
        if len(a) != 10:
            raise Unsupported('arity of ' + name, line)
        return II(p, a[0], tuple(a[2:6]), q, a[1], tuple(a[6:10]))
    return f


def x_bf(p):
    def f(ex, a, kw, line):
        a = [ex.num(x, line) for x in a]
        if len(a) != 6:
            raise Unsupported('arity', line)
        return BF(p, a[0], a[1], tuple(a[2:6]))
    return f


def x_vec(p):
    """vec_f(double *f, double xi, x1t, x1r, x2t, x2r): fills f[0..NMAX)"""
    def f(ex, a, kw, line):
        tgt = a[0]
        r = [ex.num(x, line) for x in a[1:]]
        arr, off = (tgt.arr, tgt.off) if isinstance(tgt, S.Ptr) else (tgt, ZERO)
        b = fresh('k', True)
        e = S.Event()
        e.arr = arr
        e.idx = (off + b,)
        e.val = BF(p, b, r[0], tuple(r[1:5]))
        e.op = 'set'
        e.guard = ex.guard()
        e.binders = tuple((c.binder, c.lo, c.hi) for c in ex.loops) + ((b.as_atom(), ZERO, const(30)),)
        e.loops = len(ex.loops)
        e.line = line
        ex.push_event(e)
        # the callee writes 30 doubles: the buffer must be that large
        if ex.BOUNDS:
            ex.alive(arr, line)
            if off is not ZERO:
                ex.obligs.append(('the buffer of vec_%s starts inside its array' % ['f', 'fp', 'fpp'][p], ex.hyps(), f_le(ZERO, off)))
        if arr.shape is not None and arr.shape[0] is not None:
            ex.obligs.append(('vec_%s writes 30 doubles inside its buffer' % ['f', 'fp', 'fpp'][p], ex.hyps(),
                              f_le(off + 30, capacity(arr))))
        return None
    return f


def capacity(arr):
    return arr.shape[0]


def x_leggauss(ex, a, kw, line):
    """leggauss_quad(int n, double *points, double *weights)"""
    n = ex.num(a[0], line)
    for tgt, fn in ((a[1], 'GX'), (a[2], 'GW')):
        arr, off = (tgt.arr, tgt.off) if isinstance(tgt, S.Ptr) else (tgt, ZERO)
        b = fresh('k', True)
        e = S.Event()
        e.arr = arr
        e.idx = (off + b,)
        e.val = app(fn, n, b)
        e.op = 'set'
        e.guard = ex.guard()
        e.binders = tuple((c.binder, c.lo, c.hi) for c in ex.loops) + ((b.as_atom(), ZERO, n),)
        e.loops = len(ex.loops)
        e.line = line
        ex.push_event(e)
        if ex.BOUNDS:
            ex.alive(arr, line)
            if off is not ZERO:
                ex.obligs.append(('the buffer of leggauss_quad starts inside its array', ex.hyps(), f_le(ZERO, off)))
        if arr.shape is not None and arr.shape[0] is not None:
            ex.obligs.append(('leggauss_quad writes n values inside its buffer', ex.hyps(), f_le(off + n, arr.shape[0])))
        if fn == 'GX':
            ex.quad_calls = getattr(ex, 'quad_calls', []) + [n]
    return None


def x_sizeof(ex, a, kw, line):
    return const(8)


def x_coo(ex, a, kw, line):
    o = S.Obj('coo_matrix')
    t = a[0]
    if isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], tuple):
        o.attrs.update(v=t[0], r=t[1][0], c=t[1][1])
    else:
        raise Unsupported('coo_matrix argument', line)
    o.attrs['shape'] = kw.get('shape', a[1] if len(a) > 1 else None)
    o.attrs['_line'] = line
    return o


def setup(ex):
    for nm in INTEG:
        ex.externs['c.' + nm] = x_integral(nm)
    for p, nm in enumerate(('f', 'fp', 'fpp')):
        ex.externs['c.' + nm] = x_bf(p)
        ex.externs['c.vec_' + nm] = x_vec(p)
    ex.externs['c.leggauss_quad'] = x_leggauss
    ex.externs['scipy.sparse.coo_matrix'] = x_coo
    ex.externs['scipy.sparse.csr_matrix'] = x_coo
    return ex


BC = ['%s%d%s%s' % (ax, e, d, r) for ax in 'xy' for e in (1, 2) for d in 'uvw' for r in ('', 'r')]
INTATTR = {'m', 'n', 'nx', 'ny', 'size', 'row_start', 'col_start', 'num_cores'}


def flags(obj, ax, d):
    """(t1, r1, t2, r2) of displacement d along axis ax"""
    return tuple(sh_attr(obj, '%s%d%s%s' % (ax, e, d, r)) for e in (1, 2) for r in ('', 'r'))


def sh_attr(prefix, name):
    return sym('%s.%s' % (prefix, name), name in INTATTR)


def abd(prefix):
    """symmetric 6x6 constitutive matrix of a laminate"""
    arr = S.Arr(prefix, (const(6), const(6)), ZERO, 'double', cells=True)
    for i in range(6):
        for j in range(6):
            arr.cells[(const(i), const(j))] = sym('%s[%d,%d]' % ((prefix,) + abd_index(i, j)))
    return arr


def abd_index(i, j):
    """representative of entry (i, j): A, B and D are symmetric and B appears twice"""
    i, j = min(i, j), max(i, j)
    if i < 3 <= j:
        p, q = min(i, j - 3), max(i, j - 3)
        return p, q + 3
    return i, j


def finput(name):
    """6x6 constitutive matrix passed as an argument"""
    return abd(name)


def finput4(name, nx, ny):
    """one constitutive matrix for each integration point"""
    def init(ix):
        p, q, i, j = ix
        if i.is_const() and j.is_const():
            a, b = abd_index(int(i.const()), int(j.const()))
            return app(name + '@', p, q, const(a), const(b))
        return app(name + '@', p, q, i, j)
    return S.Arr(name, (nx, ny, const(6), const(6)), init)


def shell_obj(label, cls='Shell', over=None):
    over = over or {}

    def lazy(name):
        if name in over:
            return over[name]
        if name.startswith('_') or name in ('lam',):
            return None
        return sh_attr(label, name)
    o = S.Obj(cls, {}, lazy, label)
    lam = S.Obj('Laminate', {}, lambda nm: abd(label + '.lam.ABD') if nm == 'ABD' else (sym('%s.lam.%s' % (label, nm)) if not nm.startswith('_') else None), label + '.lam')
    o.attrs['lam'] = lam
    return o
