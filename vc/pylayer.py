"""Contracts of the Python layer: scenarios evaluated symbolically (all inputs) and on the built code.

A scenario calls a function of the repository on arbitrary inputs and states its result in terms of the contracts of
the functions below it (compiled kernels are uninterpreted terms over everything they read from their arguments).  Sym
runs it with the symbolic executor on the parsed source and generates obligations; Num runs the same text on concrete
inputs with the built package.
"""
import importlib
import random
from fractions import Fraction
import numpy as np
from .expr import *
from . import expr as E
from . import sym as S
from . import builtins as B
from . import check as C
from .ir import N, ClassDef, Unsupported, walk
from .contracts import Mis
from .kernels import Contract, TRUSTED
from . import kern as K
from . import smt

X = [sym('X_%d' % k, True) for k in range(6)]
OUTPUTS = {'fg', 'get_points_weights'}          # kernels writing into their arguments have contracts of their own

# atoms standing for matrices: structsolve's symmetrisation is linear and idempotent on them
MAT = {'S'}


def short_mod(m):
    return m.replace('panels.', '').replace('models.', '').replace('multidomain.connections.', 'conn.')


# ------------------------------------------------------------------ what a kernel reads
def read_set(mod, func, param, loader, seen=None):
    """attribute names read from parameter `param` of mod.func; None when it escapes"""
    cache = loader.__dict__.setdefault('_readsets', {})
    key = (mod.name, func, param)
    if key in cache:
        return cache[key]
    seen = seen or set()
    if key in seen:
        return set()
    seen = seen | {key}
    fd = mod.funcs.get(func)
    if fd is None:
        return None
    r = set()
    consumed = set()
    for n in walk(fd.body):
        if n.k == 'attr' and n.obj.k == 'name' and n.obj.id == param:
            r.add(n.attr)
            consumed.add(id(n.obj))
        if n.k == 'call':
            args = [(None, a) for a in n.args] + [(k, a) for k, a in n.kwargs]
            for pos, (kw, a) in enumerate(args):
                if a.k == 'name' and a.id == param:
                    nm = n.func.id if n.func.k == 'name' else None
                    if nm in mod.funcs:
                        g = mod.funcs[nm]
                        pn = kw or g.params[pos][0]
                        s = read_set(mod, nm, pn, loader, seen)
                        if s is None:
                            cache[key] = None
                            return None
                        r |= s
                        consumed.add(id(a))
                    elif nm in ('isinstance', 'hasattr', 'getattr', 'print'):
                        if nm in ('hasattr', 'getattr') and len(n.args) > 1 and n.args[1].k == 'const':
                            r.add(n.args[1].value)
                        consumed.add(id(a))
        if n.k == 'cmp' and any(x.k == 'const' and x.value is None for x in n.xs):
            for x in n.xs:
                consumed.add(id(x))
    for n in walk(fd.body):
        if n.k == 'name' and n.id == param and id(n) not in consumed:
            cache[key] = None
            return None
    r.discard('__class__')
    cache[key] = r
    return r


def flatten(ex, v, attrs=None, depth=0):
    """terms identifying the value v"""
    if depth > 6:
        raise Unsupported('deep structure passed to a kernel')
    if isinstance(v, P):
        return [v]
    if v is None:
        return ['none']
    if v is Ellipsis:
        return ['ellipsis']
    if isinstance(v, bool):
        return [const(int(v))]
    if isinstance(v, Fm):
        return [ind(v)]
    if isinstance(v, str):
        return ['str:' + v]
    if isinstance(v, (S.Arr, S.View)):
        return flat_arr(ex, v)
    if isinstance(v, S.Ptr):
        return flat_arr(ex, v.arr) + [v.off]
    if isinstance(v, (list, tuple)):
        r = ['[%d' % len(v)]
        for x in v:
            r += flatten(ex, x, None, depth + 1)
        return r
    if isinstance(v, S.SymSeq):
        return [v.n, 'each'] + flatten(ex, v.getter(X[5 - depth]), None, depth + 1)
    if isinstance(v, S.Builtin):
        return ['fn:' + v.name]
    if isinstance(v, SymFn):
        return ['fn:' + v.name] + list(v.ix)
    if isinstance(v, S.Obj):
        if 'ident' in v.__dict__:
            return list(v.ident)
        if attrs is None:
            raise Unsupported('object %r passed whole' % (v,))
        r = []
        for nm in sorted(attrs):
            r.append('.' + nm)
            if nm == '_shellname':
                continue
            try:
                x = ex.getattr(v, nm)
            except S.PathRaise:
                if nm.startswith('__'):
                    continue
                raise
            r += flatten(ex, x, None, depth + 1)
        return r
    if isinstance(v, Poison_):
        raise Unsupported(v.why)
    raise Unsupported('value %r passed to a kernel' % (v,))


Poison_ = S.Poison


def flat_arr(ex, v):
    sh = v.shape
    if sh is None or any(s is None for s in sh):
        raise Unsupported('array of unknown shape passed to a kernel')
    r = ['arr%d' % len(sh)] + list(sh)
    dims = []
    tot = 1
    for n, s in enumerate(sh):
        if s.is_const() and s.const() <= 8:
            dims.append([const(i) for i in range(int(s.const()))])
            tot *= int(s.const())
        else:
            dims.append([X[n]])
    if tot > 64:
        raise Unsupported('array too large to list')

    hy = [f for k, d in enumerate(dims) if d == [X[k]] for f in (f_le(ZERO, X[k]), f_lt(X[k], sh[k]))]

    def rec(n, ix):
        if n == len(dims):
            ex.extra, was = ex.extra + hy, ex.extra
            x = total(ex, v, tuple(ix))
            ex.extra = was
            r.append(x if isinstance(x, P) else lift(x))
            return
        for d in dims[n]:
            rec(n + 1, ix + [d])
    rec(0, [])
    return r


def total(ex, v, idx):
    """element idx of an array, whatever was written to it (idx: terms, assumed within the shape)"""
    if isinstance(v, S.View):
        return total(ex, v.arr, (ex.flat(v.shape, idx),))
    if isinstance(v, S.Ptr):
        return total(ex, v.arr, (v.off + idx[0],))
    arr = v
    active = set(c.binder for c in ex.loops)
    org = getattr(arr, 'origin', arr)
    if arr.cells is not None and not arr.log:
        if all(i.is_const() for i in idx) or not arr.cells:
            return ex.arr_get(arr, idx, None) if (all(i.is_const() for i in idx)) else init_of(ex, arr, idx)
        r = init_of(ex, arr, idx) if arr.init is not None else ZERO
        for k, val in arr.cells.items():
            g = ind(f_and(*[f_eq(i, j) for i, j in zip(idx, k)]))
            r = r + g * (val - (init_of(ex, arr, idx) if arr.init is not None else ZERO))
        return r

    def rec(n):
        if n < 0:
            if ex.loops and org.seq < ex.loops[-1].seq:
                ex.pending_reads.append((org, idx, None))
            return init_of(ex, arr, idx)
        e = arr.log[n]
        inner = any(b in active for b, lo, hi in e.binders)
        eidx, tidx = e.idx, idx
        if len(eidx) != len(tidx):
            eidx, tidx = (ex.flat(arr.shape, eidx),), (ex.flat(arr.shape, tidx),)
        bs = [b for b, lo, hi in e.binders if b not in active]
        sub = ex.match_index(eidx, bs, tidx)
        g = TRUE
        if sub is None:
            if any(b in x.free for b in bs for x in eidx):
                raise Unsupported('cannot resolve %s%s against the write [%s] of line %s' % (arr.name, idx, eidx, e.line))
            g = f_and(*[f_eq(i, j) for i, j in zip(eidx, tidx)])
            if g is FALSE:
                if inner and not all((i - j).is_const() for i, j in zip(eidx, tidx) if i != j):
                    raise Unsupported('loop-carried dependency through %s' % arr.name)
                return rec(n - 1)
            sub = {}
        for (b, lo, hi) in e.binders:
            if b in sub:
                lo2, hi2 = subst(lo, sub), subst(hi, sub)
                g = f_and(g, f_le(lo2, sub[b]), f_lt(sub[b], hi2))
        g = f_and(g, subst_fm(e.guard, sub))
        val = subst(e.val, sub)
        free_b = [(b, lo, hi) for b, lo, hi in e.binders if b not in sub and b not in active]
        if inner and e.op == 'add':
            raise Unsupported('read of %s while it is accumulated' % arr.name)
        if e.op == 'add':
            t = val * ind(g)
            for (b, lo, hi) in reversed(free_b):
                t = mk_sum(b, subst(lo, sub), subst(hi, sub), t)
            return rec(n - 1) + t
        if free_b:
            for b, lo, hi in free_b:
                if b in val.free or b in g.free or not ex.known_nonempty(subst(lo, sub), subst(hi, sub)):
                    raise Unsupported('value of the last iteration in %s' % arr.name)
        gg = simplify_fm(ex, g)
        if gg is TRUE:
            if ex.loops:
                ex.pending_reads.append((org, idx, e))
            return val
        if inner:
            raise Unsupported('read of %s, written under a condition in the same loop' % arr.name)
        i = ind(gg)
        return i * val + (ONE - i) * rec(n - 1)
    return rec(len(arr.log) - 1)


def simplify_fm(ex, g):
    if g is TRUE or g is FALSE:
        return g
    hy = ex.hyps() + ex.extra
    parts = [x for x in (g.data if g.kind == 'and' else (g,)) if x not in hy]
    out = []
    for x in parts:
        key = (x, len(hy), tuple(hy[-4:]))
        if key not in ex.known:
            ex.known[key] = smt.valid(hy, x, 400) == 'valid'
        if not ex.known[key]:
            out.append(x)
    return f_and(*out)


def init_of(ex, arr, idx):
    if arr.init is None:
        raise Unsupported('read of uninitialised %s' % arr.name)
    if isinstance(arr.init, P):
        return arr.init
    r = arr.init(idx)
    return r


# ------------------------------------------------------------------ kernels as terms
class KernelContracts(dict):
    """explicit contracts, and the uninterpreted term for every other compiled function"""
    def __init__(self, loader, d=()):
        dict.__init__(self, d)
        self.loader = loader

    def pyx(self, qn):
        parts = qn.split('.')
        for k in (1, 2):
            if len(parts) > k:
                m = self.loader.mods.get('.'.join(parts[:-k]))
                if m is not None:
                    return m if m.lang == 'pyx' and k == 1 else None
        return None

    def __contains__(self, qn):
        return dict.__contains__(self, qn) or self.pyx(qn) is not None

    def __getitem__(self, qn):
        if dict.__contains__(self, qn):
            return dict.__getitem__(self, qn)
        m = self.pyx(qn)
        fn = qn.split('.')[-1]
        if fn in OUTPUTS:
            raise Unsupported('%s has no contract here' % qn)

        def cb(ex, bound):
            fd = m.funcs[fn]
            body = [x for x in fd.body if not (x.k == 'expr' and x.value.k == 'const')]
            if body and body[-1].k == 'return' and body[-1].value is not None and body[-1].value.k == 'call' and all(x.k in ('import', 'cimport', 'pass') for x in body[:-1]):
                # a kernel that only calls another one
                return ex.inline(fd, [bound[p[0]] for p in fd.params], {}, None, None)
            return kernel_term(ex, m, fn, bound)
        return cb


def kernel_term(ex, m, fn, bound):
    fd = m.funcs[fn]
    args = []
    for (p, ty, d) in fd.params:
        v = bound[p]
        at = None
        if isinstance(v, S.Obj) and 'ident' not in v.__dict__:
            at = read_set(m, fn, p, ex.loader)
            if at is None:
                at = set(v.attrs)
        if v is None and ty and ty.startswith('mv'):
            raise S.PathRaise('TypeError: None passed for the array %s of %s' % (p, fn))
        if isinstance(v, S.Opaque):
            raise S.PathRaise('TypeError: %s passed for %s of %s' % (v.why, p, fn))
        args.append('%s=' % p)
        args += flatten(ex, v, at)
    kernel_pre(ex, m, fn, bound)
    name = short_mod(m.name) + '.' + fn
    MAT.add(name)
    r = app(name, *args)
    n = {len(x.value.xs) if x.value.k == 'tuple' else None for x in walk(fd.body) if x.k == 'return' and x.value is not None}
    if len(n) == 1 and None not in n:
        ex.arity[name] = n.pop()
    return app('mv', r) if returns_view(fd) else r


def returns_view(fd):
    """the function returns a memoryview, which knows no arithmetic"""
    rets = [n for n in walk(fd.body) if n.k == 'return' and n.value is not None]
    return bool(rets) and any(n.value.k == 'name' and (fd.decls.get(n.value.id) or '').startswith('mv') for n in rets)


def unview(v):
    at = v.as_atom() if isinstance(v, P) else None
    return at.data[1][0] if at is not None and at.kind == 'app' and at.data[0] == 'mv' else v


def kernel_pre(ex, m, fn, bound):
    """preconditions of the kernels that callers are responsible for"""
    c = bound.get('c', bound.get('cs'))
    sh = bound.get('shell')
    if isinstance(c, (S.Arr, S.View)) and isinstance(sh, S.Obj):
        try:
            need = 3 * ex.num(ex.getattr(sh, 'm')) * ex.num(ex.getattr(sh, 'n')) + (bound['col0'] if isinstance(bound.get('col0'), P) else ZERO)
        except S.PathRaise:
            return
        ex.obligs.append(('%s gets a vector covering the panel block' % fn, ex.hyps(), f_le(need, c.shape[0])))


# ------------------------------------------------------------------ linear operators on matrices
def is_mat(a):
    return a.kind == 'app' and a.data[0] in MAT


def op_linear(name, p, *args):
    """distributes the operator over a combination of matrices"""
    r = ZERO
    for m, c in p.t.items():
        hit = [(a, e) for a, e in m if is_mat(a) or (a.kind == 'sum' and sum_mat(a))]
        if len(hit) != 1 or hit[0][1] != 1:
            if not hit:
                raise Unsupported('%s of a value that is no matrix: %s' % (name, P({m: c})))
            raise Unsupported('%s of a product of matrices' % name)
        a = hit[0][0]
        rest = P({tuple(x for x in m if x[0] is not a): c})
        if a.kind == 'sum':
            bs, mono = a.data
            inner = op_linear(name, P({mono: E.F1}), *args)
            t = inner
            for (b, lo, hi) in reversed(bs):
                t = mk_sum(b, lo, hi, t)
        elif name == 'S' and a.data[0] == 'S':
            t = lift(a)
        else:
            t = app(name, lift(a), *args)
        r = r + rest * t
    return r


def sum_mat(a):
    bs, mono = a.data
    return any(is_mat(x) or (x.kind == 'sum' and sum_mat(x)) for x, e in mono)


def x_symmetric(ex, a, kw, line):
    v = a[0]
    if isinstance(v, S.Arr) and len(v.shape) == 2 and lift_arr(ex, v) is not None:
        return v
    if isinstance(v, P):
        return op_linear('S', v)
    raise Unsupported('finalize_symmetric_matrix of %r' % (v,), line)


# ------------------------------------------------------------------ laminates
LAM_ARGS = ['stack', 'plyts', 'laminaprops', 'rhos', 'offset', 'plyt', 'laminaprop', 'rho']


def laminate_ident(ex, args, kw):
    d = dict(kw)
    names = ['stack', 'plyt', 'laminaprop', 'rho', 'plyts', 'laminaprops', 'rhos', 'offset', 'calc_scf']
    for n, x in zip(names, args):
        d[n] = x
    d = {k: v for k, v in d.items() if v is not None}
    if 'offset' in d and isinstance(d['offset'], P) and d['offset'].is_zero():
        del d['offset']
    r = []
    # one ply value repeated is the same as the list of equal values
    st = d.get('stack')
    for one, many in (('plyt', 'plyts'), ('laminaprop', 'laminaprops'), ('rho', 'rhos')):
        if one in d and many not in d:
            x = d.pop(one)
            d[many] = S.SymSeq(st.n, lambda i, x=x: x) if isinstance(st, S.SymSeq) else [x] * len(st)
        elif one in d:
            del d[one]
    for k in sorted(d):
        r.append(k + '=')
        r += flatten(ex, d[k])
    return tuple(r)


def make_laminate(ident, ex=None, raw=None):
    o = S.Obj('Laminate')
    o.ident = ('laminate',) + tuple(ident)

    def mat(nm, n, i0, j0):
        arr = S.Arr('lam.' + nm, (const(n), const(n)), lambda ix: app('lam.ABD', *(o.ident + (ix[0] + i0, ix[1] + j0))), cells=True)
        return arr

    def lazy(nm):
        if nm == 'ABD':
            return mat('ABD', 6, 0, 0)
        if nm == 'A':
            return mat('A', 3, 0, 0)
        if nm == 'B':
            return mat('B', 3, 0, 3)
        if nm == 'D':
            return mat('D', 3, 3, 3)
        if nm in ('h', 'intrho'):
            return app('lam.' + nm, *o.ident)
        if nm in ('offset',):
            return app('lam.' + nm, *o.ident)
        return None
    o.lazy = lazy
    if raw is not None and isinstance(raw.get('stack'), list):
        def plies():
            r = []
            for k, ang in enumerate(raw['stack']):
                prop = flatten(ex, raw['laminaprops'][k])
                p = S.Obj('Lamina')
                p.attrs['h'] = raw['plyts'][k]
                for q in ('11', '12', '16', '22', '26', '66'):
                    p.attrs['q%sL' % q] = app('ply.q' + q, ang, *prop)
                r.append(p)
            return S.SList(r)
        o.attrs['plies'] = plies()
    return o


def x_laminated_plate(ex, a, kw, line):
    return make_laminate(laminate_ident(ex, a, kw), ex, dict(kw, **({'stack': a[0]} if a else {})))


# ------------------------------------------------------------------ numpy on symbolic arrays
def bc(ex, v, nd, idx):
    """element of v broadcast to an index of rank nd"""
    if isinstance(v, P):
        return v
    sh = v.shape
    ix = idx[nd - len(sh):]
    ix = tuple(ZERO if s.is_const() and s.const() == 1 else i for s, i in zip(sh, ix))
    return total(ex, v, ix)


def snapshot(ex, v):
    """a value independent of later writes to v"""
    if isinstance(v, S.View):
        return S.View(snapshot(ex, v.arr), v.shape)
    if isinstance(v, S.Arr):
        n = S.Arr(v.name, v.shape, v.init, v.dtype)
        n.log = list(v.log)
        n.cells = dict(v.cells) if v.cells is not None else None
        n.seq = v.seq
        n.origin = getattr(v, 'origin', v)
        return n
    return v


def ew(ex, f, vs, line, name='ew'):
    """elementwise operation with broadcasting"""
    arrs = [v for v in vs if isinstance(v, (S.Arr, S.View))]
    nd = max(len(a.shape) for a in arrs)
    shape = []
    for k in range(nd):
        cand = []
        for a in arrs:
            j = k - (nd - len(a.shape))
            if j >= 0 and not (a.shape[j].is_const() and a.shape[j].const() == 1):
                cand.append(a.shape[j])
        s = cand[0] if cand else ONE
        for t in cand[1:]:
            if t != s:
                d = ex.decide(f_eq(s, t), line)
                if d is not True:
                    raise S.PathRaise('ValueError: operands could not be broadcast together', line)
        shape.append(s)
    if all(s.is_const() for s in shape) and np.prod([int(s.const()) for s in shape]) <= 64:
        r = S.Arr(name, tuple(shape), ZERO, cells=True)
        for t in np.ndindex(*[int(s.const()) for s in shape]):
            ix = tuple(const(int(i)) for i in t)
            r.cells[ix] = f(*[bc(ex, v, nd, ix) for v in vs])
        return r
    vs = [snapshot(ex, v) for v in vs]
    return S.Arr(name, tuple(shape), lambda ix: f(*[bc(ex, v, nd, ix) for v in vs]))


def ext_binop(ex):
    base = ex.ext_binop

    def f(op, a, b, line):
        av, bv = isinstance(a, (S.Arr, S.View)), isinstance(b, (S.Arr, S.View))
        if op == 'neg' and av:
            return ew(ex, lambda x: -x, [a], line)
        if op == '+' and isinstance(a, P) and isinstance(b, tuple) and is_shape(a):
            return ShapeCat(a, b)
        if (av or isinstance(a, P)) and (bv or isinstance(b, P)) and (av or bv):
            if op == '*' and isinstance(a, P) and has_mat(a) and len(b.shape) == 1:
                return np_dot(ex, [a, b], {}, line)         # a sparse matrix times a vector
            if op == '@':
                return np_dot(ex, [a, b], {}, line)
            # an array and a term standing for an array of the same shape, or a scalar
            for x, y in ((a, b), (b, a)):
                if isinstance(x, P) and has_mat(x):
                    y2 = lift_arr(ex, y)
                    if y2 is not None:
                        return ex.binop(op, x if a is x else y2, y2 if a is x else x, line)
            return ew(ex, lambda x, y: ex.binop(op, x, y, line), [a, b], line)
        if isinstance(a, list) and bv and op in '+-*/':
            return f(op, B.np_asarray(ex, [a], {}, line), b, line)
        if isinstance(b, list) and av and op in '+-*/':
            return f(op, a, B.np_asarray(ex, [b], {}, line), line)
        return base(op, a, b, line)
    ex.ext_binop = f


def is_shape(p):
    at = p.as_atom()
    return at is not None and at.kind == 'app' and at.data[0] in ('shape_of', 'shape_one')


class ShapeCat:
    """shape of unknown rank followed by known extents"""
    def __init__(self, base, tail):
        self.base, self.tail = base, tail


class Stack(S.Obj):
    """array of unknown rank with a known last extent: one value for each index of the last axis"""
    def __init__(self, base, n, fill):
        S.Obj.__init__(self, 'Stack')
        self.base, self.n, self.fill = base, n, fill
        self.vals = {}
        self.read = False

    def at(self, idx, line):
        if not (len(idx) == 2 and idx[0] is Ellipsis and isinstance(idx[1], P) and idx[1].is_const()):
            raise Unsupported('index of an array of unknown rank', line)
        k = int(idx[1].const())
        if k < 0:
            k += self.n
        if not 0 <= k < self.n:
            raise S.PathRaise('IndexError', line)
        return k


def np_fill_any(ex, name, fill):
    base = ex.externs[name]

    def f(ex, a, kw, line):
        if a and isinstance(a[0], ShapeCat):
            t = a[0].tail
            if len(t) != 1 or not (isinstance(t[0], P) and t[0].is_const()):
                raise Unsupported('shape', line)
            return Stack(a[0].base, int(t[0].const()), fill)
        return base(ex, a, kw, line)
    return f


def has_mat(p):
    return any(is_mat(a) or (a.kind == 'sum' and sum_mat(a)) for a in p.atoms())


def lift_arr(ex, y):
    """an all-zero array added to a matrix term"""
    if isinstance(y, S.Arr) and isinstance(y.init, P) and y.init.is_zero() and not y.log and not y.cells:
        return ZERO
    return None


def np_dot(ex, a, kw, line):
    x, y = a[0], a[1]
    if isinstance(x, P) and has_mat(x) and isinstance(y, (S.Arr, S.View)):
        return op_linear('matvec', x, *flatten(ex, y))
    if not (isinstance(x, (S.Arr, S.View)) and isinstance(y, (S.Arr, S.View))):
        raise Unsupported('dot', line)
    x, y = snapshot(ex, x), snapshot(ex, y)
    n = x.shape[-1]
    k0 = 0 if len(y.shape) == 1 else len(y.shape) - 2
    if n != y.shape[k0]:
        raise S.PathRaise('ValueError: shapes not aligned', line)
    sh = x.shape[:-1] + tuple(s for k, s in enumerate(y.shape) if k != k0)

    def at(ix):
        px, py = ix[:len(x.shape) - 1], list(ix[len(x.shape) - 1:])
        def term(k):
            yi = list(py)
            yi.insert(k0, k)
            return total(ex, x, tuple(px) + (k,)) * total(ex, y, tuple(yi))
        if n.is_const():
            r = ZERO
            for k in range(int(n.const())):
                r = r + term(const(k))
            return r
        b = fresh('d', True)
        return mk_sum(b.as_atom(), ZERO, n, term(b))
    if not sh:
        return at(())
    return S.Arr('dot', sh, at)


def np_outer(ex, a, kw, line):
    x, y = snapshot(ex, a[0]), snapshot(ex, a[1])
    return S.Arr('outer', (x.shape[0], y.shape[0]), lambda ix: total(ex, x, (ix[0],)) * total(ex, y, (ix[1],)))


def slice_store(ex):
    def f(o, idx, v, line):
        if isinstance(o, S.View) or not isinstance(o, S.Arr) or o.shape is None:
            return False
        idx = [i for i in idx]
        if len(idx) == 1 and isinstance(idx[0], tuple):
            idx = list(idx[0])
        while len(idx) < len(o.shape):
            idx.append(slice(None, None, None))
        bnds = []
        eidx = []
        vix = []
        for n, s in enumerate(idx):
            if isinstance(s, slice):
                if s.step is not None:
                    raise Unsupported('strided store', line)
                lo = s.start if s.start is not None else ZERO
                hi = s.stop if s.stop is not None else o.shape[n]
                b = fresh('s', True)
                bnds.append((b.as_atom(), ZERO, hi - lo))
                eidx.append(lo + b)
                vix.append(b)
            else:
                eidx.append(ex.num(s, line))
        if isinstance(v, (S.Arr, S.View)):
            val = bc(ex, snapshot(ex, v), len(vix), tuple(vix))
        else:
            val = ex.num(v, line)
        if o.cells:
            raise Unsupported('slice store into a listed array', line)
        e = S.Event()
        e.arr, e.idx, e.val, e.op = o, tuple(eidx), val, 'set'
        e.guard = ex.guard()
        e.binders = tuple((c.binder, c.lo, c.hi) for c in ex.loops) + tuple(bnds)
        e.loops = len(ex.loops)
        e.line = line
        ex.push_event(e)
        return True
    return f


def inplace(ex, o, r):
    """o takes the values of r (o and every other name of it), outside loops"""
    r = snapshot(ex, r)
    for k in range(len(o.shape)):
        if r.shape[k] != o.shape[k] and ex.decide(f_eq(r.shape[k], o.shape[k])) is not True:
            raise S.PathRaise('ValueError: non-broadcastable output operand')
    old = (o.init, o.log, o.cells)

    def undo():
        o.init, o.log, o.cells = old
    ex.journal.append(undo)
    o.init, o.log, o.cells = (lambda idx: total(ex, r, tuple(idx))), [], None


def slice_aug(ex, o, sl, op, v, line):
    """o[lo:hi] += v"""
    lo = sl.start if sl.start is not None else ZERO
    hi = sl.stop if sl.stop is not None else o.shape[0]
    if isinstance(v, (S.Arr, S.View)) and len(v.shape) == 1:
        n = v.shape[0]
        if n != hi - lo and ex.decide(f_eq(n, hi - lo), line) is not True:
            raise S.PathRaise('ValueError: could not broadcast', line)
        ex.obligs.append(('slice of line %s lies inside the array' % line, ex.hyps(), f_and(f_le(ZERO, lo), f_le(hi, o.shape[0]))))
    b = fresh('s', True)
    ex.extra, was = ex.extra + [f_le(ZERO, b), f_lt(b, hi - lo)], ex.extra
    val = bc(ex, v, 1, (b,)) if not isinstance(v, P) else v
    ex.extra = was
    e = S.Event()
    e.arr, e.idx, e.val, e.op = o, (lo + b,), (val if op == '+' else -val), 'add'
    e.guard = ex.guard()
    e.binders = tuple((c.binder, c.lo, c.hi) for c in ex.loops) + ((b.as_atom(), ZERO, hi - lo),)
    e.loops = len(ex.loops)
    e.line = line
    ex.push_event(e)


def np_shape(ex, v):
    if isinstance(v, (S.Arr, S.View)):
        return tuple(v.shape)
    return None


def np_false(ex, a, kw, line):
    return False


def np_any(ex, a, kw, line):
    if isinstance(a[0], (bool, Fm)):
        return a[0]
    return B.b_any(ex, a, kw, line)


def np_concatenate(ex, a, kw, line):
    vs = a[0]
    ax = kw.get('axis', a[1] if len(a) > 1 else ZERO)
    if not all(isinstance(v, (S.Arr, S.View)) for v in vs):
        raise Unsupported('concatenate', line)
    flat = []
    for v in vs:
        p = v.meta.get('parts') if isinstance(v, S.Arr) else None
        flat += p[1] if p and p[0] is v.init and not v.log else [snapshot(ex, v)]
    vs = flat
    nd = len(vs[0].shape)
    ax = int(ax.const()) % nd
    if not all(v.shape[ax].is_const() for v in vs):
        if nd != 1:
            raise Unsupported('concatenate along a symbolic dimension', line)
        ends = [ZERO]
        for v in vs:
            ends.append(ends[-1] + v.shape[0])

        def part(ix):
            r = ZERO
            for k, v in enumerate(vs):      # 0 <= ix < size
                g = f_and(f_le(ends[k], ix[0]) if k else TRUE, f_lt(ix[0], ends[k + 1]) if k < len(vs) - 1 else TRUE)
                r = r + ind(g) * total(ex, v, (ix[0] - ends[k],))
            return r
        r = S.Arr('concat', (ends[-1],), part)
        r.meta['parts'] = (part, vs)
        return r
    offs = []
    tot = 0
    for v in vs:
        offs.append(tot)
        tot += int(v.shape[ax].const())
    for v in vs[1:]:
        for k in range(nd):
            if k != ax and v.shape[k] != vs[0].shape[k] and ex.decide(f_eq(v.shape[k], vs[0].shape[k]), line) is not True:
                raise S.PathRaise('ValueError: all the input array dimensions must match', line)

    def at(ix):
        r = ZERO
        for v, o in zip(vs, offs):
            for k in range(int(v.shape[ax].const())):
                if ix[ax].is_const():
                    if ix[ax].const() == o + k:
                        return total(ex, v, ix[:ax] + (const(k),) + ix[ax + 1:])
                    continue
                r = r + ind(f_eq(ix[ax], const(o + k))) * total(ex, v, ix[:ax] + (const(k),) + ix[ax + 1:])
        return r
    sh = list(vs[0].shape)
    sh[ax] = const(tot)
    return S.Arr('concat', tuple(sh), at)


def expand_index(ex, o, idx, line):
    """o[..., None] and friends on a symbolic array"""
    nd = len(o.shape)
    given = sum(1 for i in idx if i is not None and i is not Ellipsis)
    out = []
    for i in idx:
        if i is Ellipsis:
            out += [slice(None, None, None)] * (nd - given)
        else:
            out.append(i)
    k = sum(1 for i in out if i is not None)
    out += [slice(None, None, None)] * (nd - k)
    o = snapshot(ex, o)
    shape, plan = [], []
    d = 0
    for i in out:
        if i is None:
            shape.append(ONE)
            plan.append(('new',))
        elif isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('strided slice', line)
            lo = i.start if i.start is not None else ZERO
            hi = i.stop if i.stop is not None else o.shape[d]
            shape.append(hi - lo)
            plan.append(('slice', lo))
            d += 1
        else:
            plan.append(('at', ex.num(i, line)))
            d += 1

    def at(ix):
        full = []
        k = 0
        for p in plan:
            if p[0] == 'new':
                k += 1
            elif p[0] == 'slice':
                full.append(p[1] + ix[k])
                k += 1
            else:
                full.append(p[1])
        return total(ex, o, tuple(full))
    if not shape:
        return at(())
    if all(s.is_const() for s in shape) and np.prod([int(s.const()) for s in shape]) <= 64:
        r = S.Arr('slice', tuple(shape), ZERO, cells=True)
        for t in np.ndindex(*[int(s.const()) for s in shape]):
            ix = tuple(const(int(i)) for i in t)
            r.cells[ix] = at(ix)
        return r
    return S.Arr('slice', tuple(shape), at)


def x_csr(ex, a, kw, line):
    v = a[0]
    if isinstance(v, P):
        return v
    if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, P) for x in v):
        return S.Arr('csr', v, ZERO)
    if isinstance(v, (S.Arr, S.View)):
        return v
    raise Unsupported('csr_matrix of %r' % (v,), line)


def np_isclose(ex, a, kw, line):
    x, y = a
    rtol, atol = kw.get('rtol', const(Fraction(1, 10 ** 5))), kw.get('atol', const(Fraction(1, 10 ** 8)))
    if not (isinstance(x, P) and isinstance(y, P)):
        raise Unsupported('isclose', line)
    if y.is_const():
        m = const(abs(y.const()))
    else:
        d = ex.decide(f_le(ZERO, y))
        if d is None:
            return f_pred('isclose', x, y)
        m = y if d else ZERO - y
    tol = atol + rtol * m
    return f_and(f_le(x - y, tol), f_le(y - x, tol))


class PyExecutor(S.Executor):
    def __init__(self, loader, contracts, decisions):
        S.Executor.__init__(self, loader, contracts, (), decisions)
        self.extra = []
        self.known = {}
        self.arity = {}
        self.facts = self.facts + [f_le(ONE, sym('ncpu', True))]
        e = self.externs
        e['composites.laminated_plate'] = x_laminated_plate
        e['structsolve.sparseutils.finalize_symmetric_matrix'] = x_symmetric
        e['structsolve.sparseutils.make_symmetric'] = x_symmetric
        e['scipy.sparse.csr_matrix'] = x_csr
        e['scipy.sparse.coo_matrix'] = x_csr
        e['multiprocessing.cpu_count'] = lambda ex, a, kw, line: sym('ncpu', True)
        e['numpy.isnan'] = np_false
        e['numpy.isclose'] = np_isclose
        e['numpy.isinf'] = np_false
        e['numpy.any'] = np_any
        e['numpy.outer'] = np_outer
        e['numpy.dot'] = np_dot
        e['numpy.concatenate'] = np_concatenate
        e['numpy.linspace'] = lambda ex, a, kw, line: app('linspace', *a)
        e['numpy.meshgrid'] = self.meshgrid
        e['numpy.atleast_1d'] = self.atleast
        e['numpy.int64'] = B.b_int
        self.contracts.setdefault('panels.logger.msg', lambda ex, b: None)
        self.contracts.setdefault('panels.logger.warn', lambda ex, b: None)
        for nm in ('numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.atleast_1d', 'numpy.ravel', 'numpy.reshape'):
            e[nm] = lambda ex, a, kw, line, f=e[nm]: f(ex, [unview(a[0])] + list(a[1:]), kw, line)
        for nm, x in (('numpy.zeros', ZERO), ('numpy.ones', ONE), ('numpy.empty', None)):
            e[nm] = np_fill_any(self, nm, x)
        ext_binop(self)
        self.slice_store = slice_store(self)

    def meshgrid(self, ex, a, kw, line):
        return (app('meshgrid', a[0], a[1], ZERO), app('meshgrid', a[0], a[1], ONE))

    def atleast(self, ex, a, kw, line):
        v = a[0]
        if isinstance(v, P):
            at = v.as_atom()
            if at is not None and at.kind == 'app' and at.data[0] == 'meshgrid':
                return v
            if at is not None and at.kind == 'sym' and at.data.endswith('#nd'):
                return v
            return app('atleast_1d', v)
        return v

    def x_aug(self, s):
        t = s.target
        if t.k == 'index' and s.op in ('+', '-') and len(t.idx) == 1 and t.idx[0].k == 'slice':
            o = self.ev(t.obj)
            if isinstance(o, S.Arr) and o.shape is not None and len(o.shape) == 1:
                v = self.ev(s.value)
                slice_aug(self, o, self.ev_index(t.idx[0]), s.op, v, s.line)
                return None
        if t.k in ('name', 'attr'):
            o = self.ev(t)
            if isinstance(o, (S.Arr, S.View)) and o.shape is not None:
                # numpy changes the array in place
                v = self.ev(s.value)
                if s.op in ('+', '-') and isinstance(o, S.Arr) and len(o.shape) == 1 and isinstance(v, (S.Arr, S.View)) and len(v.shape) == 1:
                    slice_aug(self, o, slice(None, None), s.op, v, s.line)
                    return None
                if self.loops or self.guards:
                    raise Unsupported('%s= on an array' % s.op, s.line)
                r = self.binop(s.op, o, v, s.line)
                if not (isinstance(o, S.Arr) and isinstance(r, (S.Arr, S.View)) and len(r.shape) == len(o.shape)):
                    self.assign(t, r, s.line)
                    return None
                inplace(self, o, r)
                return None
        return S.Executor.x_aug(self, s)

    def call(self, fn, args, kw, line=None):
        if isinstance(fn, SymFn):
            return fn.ap(*args)
        return S.Executor.call(self, fn, args, kw, line)

    def cond(self, v, line=None):
        if isinstance(v, S.SegList):
            n = S.seg_len(v)
            return f_lt(ZERO, n)
        if isinstance(v, (S.Builtin, SymFn, S.Func)):
            return True
        return S.Executor.cond(self, v, line)

    def set_item(self, o, idx, v, line):
        if isinstance(o, Stack):
            ix = [self.ev_index(i) for i in idx]
            k = o.at(ix, line)
            if o.read or self.loops or self.guards or not isinstance(v, P):
                raise Unsupported('store into an array of unknown rank', line)
            old = dict(o.vals)
            self.journal.append(lambda: (o.vals.clear(), o.vals.update(old)))
            o.vals[k] = v
            return None
        return S.Executor.set_item(self, o, idx, v, line)

    def binop(self, op, a, b, line):
        for x, y in ((a, b), (b, a)):
            if unview(x) is not x:
                if not isinstance(y, (S.Arr, S.View)):
                    raise S.PathRaise('TypeError: unsupported operand type for %s: memoryview' % op, line)
                a, b = unview(a), unview(b)
        return S.Executor.binop(self, op, a, b, line)

    def iterate(self, v, line):
        at = v.as_atom() if isinstance(v, P) else None
        if at is not None and at.kind == 'app' and at.data[0] in self.arity:
            return ('conc', [app('item', v, const(i)) for i in range(self.arity[at.data[0]])])
        return S.Executor.iterate(self, v, line)

    def getitem(self, o, idx, line=None):
        if isinstance(o, P) and len(idx) == 1 and isinstance(idx[0], P) and idx[0].is_const():
            at = o.as_atom()
            if at is not None and at.kind == 'app' and at.data[0] in self.arity:
                n, k = self.arity[at.data[0]], int(idx[0].const())
                if not -n <= k < n:
                    raise S.PathRaise('IndexError', line)
                return app('item', o, const(k % n))
        if isinstance(o, Stack):
            k = o.at(idx, line)
            o.read = True
            if k not in o.vals and o.fill is None:
                raise Unsupported('read of an unset value', line)
            return o.vals.get(k, o.fill)
        if isinstance(o, (S.Arr, S.View)) and any(i is None or i is Ellipsis for i in idx):
            return expand_index(self, o, idx, line)
        if isinstance(o, (S.Arr, S.View)) and o.shape is not None:
            ix = list(idx[0]) if len(idx) == 1 and isinstance(idx[0], tuple) else list(idx)
            if any(isinstance(i, slice) for i in ix) and not (len(o.shape) == 1):
                return expand_index(self, o, ix, line)
            if all(isinstance(i, P) for i in ix) and len(ix) < len(o.shape):
                return expand_index(self, o, ix, line)
            if all(isinstance(i, P) for i in ix) and not self.loops and isinstance(o, S.Arr) and o.log:
                return total(self, o, tuple(ix))
        return S.Executor.getitem(self, o, idx, line)

    def ext_attr(self, o, name, line):
        if isinstance(o, P):
            if name in ('data', 'T', 'real', 'imag', 'ndim', 'size'):
                return app('attr_' + name, o)
        return S.Executor.ext_attr(self, o, name, line)

    def set_attr(self, o, name, v, line):
        if isinstance(o, S.Obj) and isinstance(o.cls, ClassDef):
            sl = slots(o.cls)
            if sl is not None and name not in sl:
                raise S.PathRaise('AttributeError: %s has no attribute %s' % (o.cls.name, name), line)
        return S.Executor.set_attr(self, o, name, v, line)

    def call_method(self, o, name, args, kw, line):
        if isinstance(o, (S.Arr, S.View)):
            if name == 'dot':
                return np_dot(self, [o] + args, kw, line)
            if name == 'ravel' or name == 'flatten':
                return ravel(self, o)
            if name == 'copy':
                return snapshot(self, o)
        if isinstance(o, P):
            if name in ('ravel', 'flatten'):
                return app('ravel', o)
            if name == 'reshape':
                a = args[0] if len(args) == 1 else tuple(args)
                return reshape_term(self, o, a)
            if name in ('tocsr', 'tocsc', 'tocoo', 'copy', 'toarray') and has_mat(o):
                return o
            if name == 'dot':
                return np_dot(self, [o] + args, kw, line)
        if isinstance(o, S.Obj) and 'ident' in o.__dict__ and name == 'calc_equivalent_properties' and not args and not kw:
            # sets attributes of the laminate that nothing here reads
            return None
        return S.Executor.call_method(self, o, name, args, kw, line)


def ravel(ex, o):
    if len(o.shape) == 1:
        return snapshot(ex, o)
    big = [s for s in o.shape if not (s.is_const() and s.const() == 1)]
    if len(big) == 1:
        o2 = snapshot(ex, o)

        def at(ix):
            full = tuple(ZERO if s.is_const() and s.const() == 1 else ix[0] for s in o2.shape)
            return total(ex, o2, full)
        return S.Arr('ravel', (big[0],), at)
    return S.View(snapshot(ex, o), (tot_of(o.shape),))


def tot_of(sh):
    r = ONE
    for s in sh:
        r = r * s
    return r


def reshape_term(ex, o, shape):
    if isinstance(shape, P):
        return app('reshape', o, shape)
    if isinstance(shape, (tuple, list)):
        if len(shape) == 1 and isinstance(shape[0], P):
            return app('reshape', o, shape[0])
        return app('reshape', o, *flatten(ex, tuple(shape)))
    raise Unsupported('reshape')


def slots(cls):
    s = cls.__dict__.get('_slots', 0)
    if s != 0:
        return s
    r = None
    for a in cls.assigns:
        if a.k == 'assign' and a.targets[0].k == 'name' and a.targets[0].id == '__slots__' and a.value.k in ('list', 'tuple'):
            r = {x.value for x in a.value.xs if x.k == 'const'}
    if r is not None and cls.bases and any(b.k == 'name' and b.id != 'object' for b in cls.bases):
        r = None
    cls._slots = r
    return r


# ------------------------------------------------------------------ user functions, symbolic lists
class SymFn:
    """a function supplied by the user: uninterpreted"""
    def __init__(self, name, ix=()):
        self.name, self.ix = name, tuple(ix)

    def ap(self, *args):
        return app('fn.' + self.name, *(self.ix + tuple(args)))


def substv(v, s):
    if isinstance(v, P):
        return subst(v, s)
    if isinstance(v, Fm):
        return subst_fm(v, s)
    if isinstance(v, list):
        return S.SList([substv(x, s) for x in v])
    if isinstance(v, tuple):
        return tuple(substv(x, s) for x in v)
    if isinstance(v, SymFn):
        return SymFn(v.name, [subst(x, s) for x in v.ix])
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, S.Func):
        # closures over loop values
        env = {k: (substv(x, s) if isinstance(x, (P, SymFn, list, tuple)) else x) for k, x in (v.env or {}).items() if k != '__parent__'}
        f = S.Func(v.fd, env, v.selfobj, v.cls)
        if v.defaults is not None:
            f.defaults = {k: (substv(x, s) if isinstance(x, (P, SymFn, list, tuple)) else x) for k, x in v.defaults.items()}
        return f
    raise Unsupported('value %r kept from a symbolic loop' % (v,))


def freev(v):
    if isinstance(v, (P, Fm)):
        return set(v.free)
    if isinstance(v, (list, tuple)):
        r = set()
        for x in v:
            r |= freev(x)
        return r
    if isinstance(v, SymFn):
        r = set()
        for x in v.ix:
            r |= x.free
        return r
    return set()


def list_append(ex):
    def f(o, value, line):
        if not isinstance(o, S.SList):
            return False
        if not ex.loops:
            if ex.guards:
                return False
            o.segs.append(('conc', [value]))
            ex.journal.append(lambda: o.segs.pop())
            return True
        if ex.guards or len(ex.loops) != 1:
            return False
        c = ex.loops[-1]
        if freev(value) & (ex.hatoms | c.hset):
            return False
        was = o.segs
        if was is None:
            items = list(o)
            o.segs = [('conc', items)] if items else []
        if o.segs and o.segs[-1][0] == 'sym' and o.segs[-1][-1] is c:
            o.segs = was
            return False
        lo = c.lo
        b = c.binder
        o.segs.append(('sym', c.hi - c.lo, lambda i: substv(value, {b: lo + i}), c))

        def undo():
            o.segs.pop()
            if was is None:
                o.segs = None
        ex.journal.append(undo)
        return True
    return f


# ------------------------------------------------------------------ drivers
class Skip(Exception):
    """inputs outside the precondition"""


class Sym:
    sym = True

    def __init__(self, ex, rep, case):
        self.ex, self.rep, self.case = ex, rep, case
        self.hint = {}
        self.ranges = {}

    # inputs
    def real(self, name, lo=None, hi=None):
        t = sym(name)
        self.ranges[name] = (t, -1.5 if lo is None else lo, 1.5 if hi is None else hi)
        return t

    def pos(self, name, lo=0.5, hi=2.5):
        t = sym(name)
        self.ranges[name] = (t, lo, hi)
        self.ex.facts.append(f_lt(ZERO, t))
        return t

    def int(self, name, lo=0, hi=None):
        t = sym(name, True)
        self.ranges[name] = (t, lo, lo + 3 if hi is None else hi)
        self.ex.facts.append(f_le(const(lo), t))
        return t

    def term(self, name):
        return sym(name)

    def arr(self, name, shape, scale=0.3):
        sh = tuple(x if isinstance(x, P) else const(x) for x in (shape if isinstance(shape, tuple) else (shape,)))
        a = S.Arr(name, sh, lambda ix: app(name + '@', *ix))
        if all(x.is_const() for x in sh):
            a.cells = {}
        return a

    def nd(self, name, other=False, like=None):
        """an array of any shape, or of the shape of another one"""
        return sym((name + '~' + like if like else name) + '#nd')

    def fn(self, name):
        return SymFn(name)

    def seq(self, name, elem, lo=0):
        n = sym(name + '.n', True)
        self.ex.facts.append(f_le(const(lo), n))
        return S.SymSeq(n, elem)

    def el(self, name, i):
        return app(name + '@', i)

    def elfn(self, name, i):
        return SymFn(name, (i,))

    def length(self, seq):
        return seq.n if isinstance(seq, S.SymSeq) else const(len(seq))

    def seqn(self, n, elem):
        return S.SymSeq(n, lambda i: self.wrap(elem(i)))

    def rep_like(self, x, seq):
        return S.SymSeq(seq.n, lambda i: x) if isinstance(seq, S.SymSeq) else [x] * len(seq)

    def segs(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, S.SymSeq):
                out.append(('sym', p.n, p.getter))
            elif p:
                out.append(('conc', list(p)))
        return S.SegList(out)

    def total(self, seq, f):
        """sum of f over the elements of a sequence"""
        r = ZERO
        for s in (seq.segs if isinstance(seq, S.SegList) else [('sym', seq.n, seq.getter)] if isinstance(seq, S.SymSeq) else [('conc', list(seq))]):
            if s[0] == 'conc':
                for x in s[1]:
                    r = r + f(x)
            else:
                b = fresh('t', True)
                r = r + mk_sum(b.as_atom(), ZERO, s[1], f(s[2](b)))
        return r

    def sum(self, lo, hi, f):
        b = fresh('t', True)
        return mk_sum(b.as_atom(), lift(lo), lift(hi), f(b))

    def assume(self, f):
        if f is FALSE:
            raise Unsupported('contradictory assumption')
        self.ex.facts.append(f)

    def lt(self, a, b):
        return f_lt(lift(a), lift(b))

    def le(self, a, b):
        return f_le(lift(a), lift(b))

    def eq(self, a, b):
        return f_eq(lift(a), lift(b))

    def ne(self, a, b):
        return f_not(f_eq(lift(a), lift(b)))

    def decide(self, f):
        d = self.ex.decide(f)
        if d is None:
            raise Unsupported('undecided condition')
        return d

    def min(self, *a):
        return B.b_minmax('min')(self.ex, list(a), {}, None)

    def max(self, *a):
        return B.b_minmax('max')(self.ex, list(a), {}, None)

    def apply(self, f, *a):
        return lift(self.ex.call(f, [lift(x) for x in a], {}))

    def when(self, f, thunk):
        f = TRUE if f is True else FALSE if f is False else f
        return ind(f) * lift(thunk())

    def rule(self, n):
        """nodes and weights of the Gauss rule with n points"""
        return lambda k: app('GX', lift(n), lift(k)), lambda k: app('GW', lift(n), lift(k))

    def field_g(self, o):
        """shape functions of a panel at a point: (row, coefficient) -> value"""
        ex = self.ex
        mod = ex.loader.find('panels.models.clpt_bardell_field')
        rs = read_set(mod, 'fg', 's', ex.loader)
        reads = flatten(ex, o, rs if rs is not None else set(o.attrs))
        return lambda x, y: lambda k, j: app('field.fg', lift(k), lift(j), lift(x), lift(y), *reads)

    @property
    def imag(self):
        return sym('J!')

    # calls
    def wrap(self, v):
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return lift(v)
        if isinstance(v, list) and not isinstance(v, S.SList):
            return S.SList([self.wrap(x) for x in v])
        if isinstance(v, tuple):
            return tuple(self.wrap(x) for x in v)
        return v

    def module(self, m):
        mod = self.ex.loader.find(m)
        if mod is None:
            raise S.PathRaise('ImportError: %s' % m)
        g = self.ex.modglobals(mod)
        return mod, g

    def call(self, module, func, *a, **kw):
        mod, g = self.module(module)
        if func not in g:
            raise S.PathRaise('AttributeError: module %s has no %s' % (module, func))
        return self.ex.call(g[func], [self.wrap(x) for x in a], {k: self.wrap(x) for k, x in kw.items()})

    def new(self, module, cls, *a, **kw):
        return self.call(module, cls, *a, **kw)

    def method(self, o, name, *a, **kw):
        return self.ex.call_method(o, name, [self.wrap(x) for x in a], {k: self.wrap(x) for k, x in kw.items()}, None)

    def attr(self, o, *names):
        for n in names:
            o = self.ex.getattr(o, n)
        return o

    def set(self, o, **kw):
        for k, v in kw.items():
            self.ex.set_attr(o, k, self.wrap(v), None)

    def lst(self, *xs):
        return S.SList([self.wrap(x) for x in xs])

    def dct(self, **kw):
        return {k: self.wrap(v) for k, v in kw.items()}

    def int_of(self, n):
        return lift(n)

    def add(self, a, b):
        return self.ex.binop('+', self.wrap(a), self.wrap(b), None)

    def matvec(self, K, c):
        return op_linear('matvec', K, *flatten(self.ex, c))

    def bag(self, **kw):
        """an object with just these attributes (accepted by the kernels)"""
        return S.Obj('Shell', {k: self.wrap(v) for k, v in kw.items()})

    def laminate(self, **kw):
        d = {k: self.wrap(v) for k, v in kw.items()}
        return make_laminate(laminate_ident(self.ex, [], d), self.ex, d)

    def kernel(self, module, func, *a, **kw):
        """the term a compiled function stands for"""
        return unview(self.call(module, func, *a, **kw))

    def S(self, K):
        return op_linear('S', K)

    def at(self, a, *ix):
        ix = tuple(lift(i) for i in ix)
        if isinstance(a, (list, tuple)):
            return a[int(ix[0].const())]
        if isinstance(a, S.SymSeq):
            return a.getter(ix[0])
        if isinstance(a, P):
            return app('item', a, *ix)
        return total(self.ex, a, ix)

    def items(self, a, n):
        return [app('item', a, const(k)) for k in range(n)]

    def reshape(self, a, shape):
        return reshape_term(self.ex, a, shape)

    def shape(self, a):
        return B.shape_term(a) if isinstance(a, P) else tuple(a.shape)

    def one(self, x):
        return app('atleast_1d', x)

    def same_shape(self, x, y):
        return f_eq(self.shape(x), self.shape(y))

    def ravel(self, a):
        return app('ravel', a)

    def linspace(self, a, b, n):
        return app('linspace', lift(a), lift(b), lift(n))

    def meshgrid(self, x, y):
        return (app('meshgrid', x, y, ZERO), app('meshgrid', x, y, ONE))

    def neg_arr(self, a):
        return self.ex.binop("*", const(-1), a, None)

    def zeros(self, *shape):
        sh = tuple(lift(x) for x in shape)
        return S.Arr('zeros', sh, ZERO)

    def full(self, shape, x):
        return S.Arr('full', tuple(lift(s) for s in shape), lift(x))

    def vec(self, n, f):
        """array of n elements f(i)"""
        return S.Arr('vec', (lift(n),), lambda ix: lift(f(ix[0])))

    def grid(self, shape, f):
        sh = tuple(lift(s) for s in shape)
        return S.Arr('grid', sh, lambda ix: lift(f(*ix)), cells=all(x.is_const() for x in sh))

    def sym6(self, name):
        """constitutive matrix"""
        a = S.Arr(name, (const(6), const(6)), lambda ix: app(name + '@', *ix), cells=True)
        return a

    def where(self, f, x, y=0):
        if f is True:
            f = TRUE
        if f is False:
            f = FALSE
        return ind(f) * lift(x) + (ONE - ind(f)) * lift(y)

    def both(self, *f):
        return f_and(*f)

    def some(self, *f):
        return f_or(*f)

    def neg(self, f):
        return f_not(f)

    def key(self, d, k):
        return d[k]

    def pick(self, k, *xs):
        if k.is_const():
            return xs[int(k.const())]
        r = ZERO
        for n, x in enumerate(xs):
            r = r + ind(f_eq(k, const(n))) * x
        return r

    def grid6(self, f):
        a = S.Arr('grid6', (const(6), const(6)), ZERO, cells=True)
        for i in range(6):
            for j in range(6):
                a.cells[(const(i), const(j))] = lift(f(i, j))
        return a

    def dec(self, s):
        return const(Fraction(s))

    def sqrt(self, x):
        return self.ex.binop('**', lift(x), const(Fraction(1, 2)), None)

    # obligations
    def hyps(self):
        return self.ex.facts + self.ex.pc

    def same(self, name, code, spec):
        code, spec = unview(self.wrap(code)), unview(self.wrap(spec))
        rep, ex = self.rep, self.ex
        if isinstance(code, S.Poison):
            raise Unsupported(code.why)
        if isinstance(code, bool) and isinstance(spec, (P,)):
            code = const(int(code))
        if isinstance(code, (Fm, bool)) and isinstance(spec, (Fm, bool)):
            fa = code if isinstance(code, Fm) else (TRUE if code else FALSE)
            fb = spec if isinstance(spec, Fm) else (TRUE if spec else FALSE)
            return rep.valid(name, self.hyps(), f_or(f_and(fa, fb), f_and(f_not(fa), f_not(fb))))
        ca, sa = isinstance(code, (S.Arr, S.View)), isinstance(spec, (S.Arr, S.View))
        if ca and sa:
            if len(code.shape) != len(spec.shape):
                return rep.ok(name, False, 'rank %d instead of %d' % (len(code.shape), len(spec.shape)), hint=self.hint)
            for k, (s, t) in enumerate(zip(code.shape, spec.shape)):
                self.eq_term(name + ': extent %d' % k, s, t, [])
            dims = []
            for n, s in enumerate(code.shape):
                if s.is_const() and s.const() <= 6:
                    dims.append(range(int(s.const())))
                else:
                    dims.append([None])
            import itertools
            okall = True
            for combo in itertools.product(*dims):
                ix, hy = [], []
                for n, k in enumerate(combo):
                    if k is None:
                        ix.append(X[n])
                        hy += [f_le(ZERO, X[n]), f_lt(X[n], code.shape[n])]
                    else:
                        ix.append(const(k))
                ex.extra = hy
                u, w = total(ex, code, tuple(ix)), total(ex, spec, tuple(ix))
                ex.extra = []
                okall = self.eq_term(name + ('' if all(k is None for k in combo) else ' %s' % (list(combo),)), u, w, hy) and okall
            return okall
        if isinstance(code, (list, tuple)) and isinstance(spec, (list, tuple)):
            if len(code) != len(spec):
                return rep.ok(name, False, 'length %d instead of %d' % (len(code), len(spec)), hint=self.hint)
            return all([self.same(name + '[%d]' % k, x, y) for k, (x, y) in enumerate(zip(code, spec))])
        if isinstance(code, S.SymSeq) and isinstance(spec, S.SymSeq):
            self.eq_term(name + ': length', code.n, spec.n, [])
            return self.same(name + ' element', code.getter(X[4]), spec.getter(X[4]))
        if isinstance(code, S.Obj) and isinstance(spec, S.Obj):
            if 'ident' in code.__dict__ and 'ident' in spec.__dict__:
                return self.eq_term(name, app('ident', *code.ident), app('ident', *spec.ident), [])
            return rep.ok(name, code is spec, 'another object: %r instead of %r' % (code, spec), hint=self.hint)
        if isinstance(code, SymFn) and isinstance(spec, SymFn):
            return rep.ok(name, code.name == spec.name and code.ix == spec.ix, 'another function', hint=self.hint)
        if isinstance(code, P) and isinstance(spec, P):
            return self.eq_term(name, code, spec, [])
        if code is None or spec is None or isinstance(code, str) or isinstance(spec, str) or type(code) != type(spec):
            return rep.ok(name, code is spec or (isinstance(code, str) and code == spec), 'code: %r contract: %r' % (code, spec), hint=self.hint)
        raise Unsupported('comparison of %r and %r' % (code, spec))

    def eq_term(self, name, code, spec, hy):
        n = len(self.rep.obs)
        r = self.rep.eq(name, code, spec, self.hyps() + hy)
        for o in self.rep.obs[n:]:
            o.hint = dict(o.hint or {}, **self.hint)
        return r

    def true(self, name, f, detail=''):
        if isinstance(f, Fm):
            n = len(self.rep.obs)
            r = self.rep.valid(name, self.hyps(), f)
            for o in self.rep.obs[n:]:
                o.hint = dict(o.hint or {}, **self.hint)
            return r
        return self.rep.ok(name, bool(f), detail, hint=self.hint)

    def raises(self, name, exc, fn):
        try:
            r = fn()
        except S.PathRaise as e:
            got = e.exc.split(':')[0]
            return self.rep.ok(name, exc is None or got in (exc if isinstance(exc, tuple) else (exc,)), 'raises %s instead of %s' % (e, exc), hint=self.hint)
        return self.rep.ok(name, False, 'returns %r instead of raising %s' % (r, exc), hint=self.hint)


def plain(x):
    return np.asarray(x) if 'memoryview' in type(x).__name__ else x


def dense(x):
    if x is None:
        return None
    if hasattr(x, 'toarray'):
        return x.toarray()
    return np.asarray(x)


class Num:
    sym = False

    def __init__(self, getfunc, env, case):
        self.getfunc, self.env, self.case = getfunc, env, case
        self.rng = random.Random(env['_seed'])
        self.drawn = {}

    def real(self, name, lo=-1.5, hi=1.5):
        return self.draw(name, lambda: self.rng.uniform(lo if lo is not None else -1.5, hi if hi is not None else 1.5))

    def pos(self, name, lo=0.5, hi=2.5):
        return self.draw(name, lambda: self.rng.uniform(lo, hi))

    def draw(self, name, f):
        if name not in self.drawn:
            v = f()
            # the point of a failed obligation, where there is one
            h = self.env.get(name)
            if isinstance(h, (int, float)) and isinstance(v, (int, float)) and not isinstance(h, bool) and abs(h) < 1e6 and not (isinstance(v, int) and h > 12):
                v = type(v)(h)
            self.drawn[name] = v
        return self.drawn[name]

    def int(self, name, lo=0, hi=None):
        return self.draw(name, lambda: self.rng.randint(lo, hi if hi is not None else lo + 3))

    def arr(self, name, shape, scale=0.3):
        r = np.random.RandomState(self.rng.randrange(10 ** 9))
        return self.draw(name, lambda: r.uniform(-scale, scale, size=shape))

    def nd(self, name, other=False, like=None):
        r = np.random.RandomState(self.rng.randrange(10 ** 9))
        sh = self.draw('#ndshape', lambda: self.rng.choice([(5,), (3, 4), (1, 1), (2, 2, 3), (7, 1)]))
        if other:
            sh = self.rng.choice([s for s in ((5,), (4, 3), (1,), (3, 2, 2), (1, 7), (20,)) if s != sh])
        return self.draw(name, lambda: r.uniform(0.05, 0.45, size=sh))

    def fn(self, name):
        c = self.draw('fn ' + name, lambda: [self.rng.uniform(-1, 1) for _ in range(3)])
        return lambda x: c[0] + c[1] * x + c[2] * x * x

    def seq(self, name, elem, lo=0):
        n = self.draw(name + '.n', lambda: self.rng.randint(lo, lo + 3))
        return [elem(i) for i in range(n)]

    def el(self, name, i):
        return self.draw('%s@%d' % (name, i), lambda: self.rng.uniform(0.1, 0.9))

    def elfn(self, name, i):
        return self.fn('%s@%d' % (name, i))

    def length(self, seq):
        return len(seq)

    def seqn(self, n, elem):
        return [elem(i) for i in range(n)]

    def rep_like(self, x, seq):
        return [x] * len(seq)

    def segs(self, *parts):
        return [x for p in parts for x in p]

    def total(self, seq, f):
        r = 0
        for x in seq:
            r = r + f(x)
        return r

    def sum(self, lo, hi, f):
        r = 0
        for k in range(lo, hi):
            r = r + f(k)
        return r

    def assume(self, f):
        if not f:
            raise Skip()

    def lt(self, a, b):
        return a < b

    def le(self, a, b):
        return a <= b

    def eq(self, a, b):
        return a == b

    def ne(self, a, b):
        return a != b

    def decide(self, f):
        return bool(f)

    def min(self, *a):
        return min(a)

    def max(self, *a):
        return max(a)

    def apply(self, f, *a):
        return f(*a)

    def when(self, f, thunk):
        return thunk() if f else 0.

    def rule(self, n):
        x, w = np.zeros(n), np.zeros(n)
        self.getfunc('panels.legendre_gauss_quadrature', 'get_points_weights')(n, x, w)
        return lambda k: x[k], lambda k: w[k]

    def field_g(self, o):
        fg = self.getfunc('panels.models.clpt_bardell_field', 'fg')
        cache = {}

        def at(x, y):
            if (x, y) not in cache:
                g = np.zeros((5, 3 * o.m * o.n))
                fg(g, x, y, o)
                cache[x, y] = g
            g = cache[x, y]
            return lambda k, j: g[k, j]
        return at

    imag = 1j

    def call(self, module, func, *a, **kw):
        return self.getfunc(module, func)(*a, **kw)

    def new(self, module, cls, *a, **kw):
        return self.getfunc(module, cls)(*a, **kw)

    def method(self, o, name, *a, **kw):
        return getattr(o, name)(*a, **kw)

    def attr(self, o, *names):
        for n in names:
            o = getattr(o, n)
        return o

    def set(self, o, **kw):
        for k, v in kw.items():
            setattr(o, k, v)

    def lst(self, *xs):
        return list(xs)

    def dct(self, **kw):
        return dict(kw)

    def int_of(self, n):
        return n

    def add(self, a, b):
        return a + b

    def matvec(self, K, c):
        return K @ c

    def bag(self, **kw):
        from .contracts import Shell
        o = Shell()
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def laminate(self, **kw):
        from composites import laminated_plate
        return laminated_plate(**kw)

    def kernel(self, module, func, *a, **kw):
        return self.call(module, func, *a, **kw)

    def S(self, K):
        from structsolve.sparseutils import finalize_symmetric_matrix
        return finalize_symmetric_matrix(K)

    def at(self, a, *ix):
        return a[ix] if isinstance(a, np.ndarray) else a[ix[0]]

    def items(self, a, n):
        return list(a)

    def reshape(self, a, shape):
        return np.reshape(a, shape)

    def shape(self, a):
        return np.shape(a)

    def ravel(self, a):
        return np.ravel(a)

    def one(self, x):
        return np.atleast_1d(np.asarray(x, dtype=float))

    def same_shape(self, x, y):
        return np.shape(x) == np.shape(y)

    def linspace(self, a, b, n):
        return np.linspace(a, b, n)

    def meshgrid(self, x, y):
        return np.meshgrid(x, y)

    def neg_arr(self, a):
        return -a

    def zeros(self, *shape):
        return np.zeros(shape)

    def full(self, shape, x):
        return np.full(shape, x, dtype=float)

    def vec(self, n, f):
        return np.array([f(i) for i in range(n)], dtype=float)

    def grid(self, shape, f):
        r = np.zeros(shape)
        for ix in np.ndindex(*shape):
            r[ix] = f(*ix)
        return r

    def sym6(self, name):
        r = np.random.RandomState(self.rng.randrange(10 ** 9))

        def f():
            A, Bm, D = [r.uniform(-0.3, 0.3, size=(3, 3)) for _ in range(3)]
            A, Bm, D = A + A.T + 4 * np.eye(3), Bm + Bm.T, D + D.T + 2 * np.eye(3)
            return np.block([[A, Bm], [Bm, D]])
        return self.draw(name, f)

    def where(self, f, x, y=0):
        return x if f else y

    def both(self, *f):
        return all(f)

    def some(self, *f):
        return any(f)

    def neg(self, f):
        return not f

    def key(self, d, k):
        return d[k]

    def pick(self, k, *xs):
        return xs[k]

    def grid6(self, f):
        return np.array([[f(i, j) for j in range(6)] for i in range(6)], dtype=float)

    def dec(self, s):
        return float(s)

    def sqrt(self, x):
        return x ** 0.5

    def same(self, name, code, spec):
        code, spec = plain(code), plain(spec)
        if isinstance(spec, (list, tuple)) and isinstance(code, (list, tuple)):
            if len(code) != len(spec):
                raise Mis('%s: length %d instead of %d' % (name, len(code), len(spec)))
            for k, (x, y) in enumerate(zip(code, spec)):
                self.same('%s[%d]' % (name, k), x, y)
            return
        if spec is None or code is None or isinstance(spec, str) or isinstance(code, str):
            if not (code is spec or (isinstance(code, str) and isinstance(spec, str) and code == spec)):
                raise Mis('%s: %r instead of %r' % (name, code, spec))
            return
        if callable(spec) and callable(code):
            for x in (0.1, 0.7, 1.3):
                self.same(name, code(x), spec(x))
            return
        if not isinstance(spec, (np.ndarray, np.generic, int, float, complex)) and not hasattr(spec, 'toarray'):
            if hasattr(spec, 'intrho') and hasattr(code, 'intrho'):
                self.same(name + '.ABD', code.ABD, spec.ABD)
                self.same(name + '.intrho', code.intrho, spec.intrho)
                return
            if code is not spec:
                raise Mis('%s: another object' % name)
            return
        a, b = dense(code), dense(spec)
        a, b = np.asarray(a), np.asarray(b)
        if b.ndim == 0 and float(abs(b)) == 0.0 and a.ndim:
            b = np.zeros(a.shape)
        if a.ndim == 0 and float(abs(a)) == 0.0 and b.ndim:
            a = np.zeros(b.shape)
        if a.shape != b.shape:
            raise Mis('%s: shape %s instead of %s' % (name, a.shape, b.shape))
        if a.size == 0:
            return
        sc = max(float(np.max(np.abs(b))), 1e-30)
        bad = ~(np.abs(a - b) <= 1e-9 * sc)
        if bad.any():
            ix = tuple(int(x) for x in np.argwhere(np.atleast_1d(bad))[0])
            raise Mis('%s: element %s is %r, contract %r' % (name, list(ix), complex(np.atleast_1d(a)[ix]), complex(np.atleast_1d(b)[ix])),
                      differing=int(bad.sum()), total=int(bad.size))

    def true(self, name, f, detail=''):
        if not bool(f):
            raise Mis('%s: does not hold. %s' % (name, detail))

    def raises(self, name, exc, fn):
        try:
            r = fn()
        except Exception as e:
            excs = exc if isinstance(exc, tuple) else (exc,)
            if exc is not None and type(e).__name__ not in excs:
                raise Mis('%s: raises %s: %s instead of %s' % (name, type(e).__name__, str(e)[:200], exc))
            return
        raise Mis('%s: returns instead of raising %s' % (name, exc))


def witness(ex, I):
    """values of the inputs the conditions of the path depend on, within their usual ranges where the path allows it"""
    on = set().union(*[f.free for f in ex.pc]) if ex.pc else set()
    rng = random.Random(7)
    base = [f for f in ex.facts + ex.pc if not C.has_apps([f])]
    names = [k for k, (t, lo, hi) in I.ranges.items() if t.as_atom() in on][:12]

    def num(t, v):
        return [f_le(t, const(v)), f_le(const(v), t)] if isinstance(v, int) else [f_eq(t, const(Fraction(v)))]
    if not names:
        return {}, True
    for extra in ([f for k in names for t, lo, hi in (I.ranges[k],) for f in (f_le(const(Fraction(lo)), t), f_le(t, const(Fraction(hi))))], []):
        st, m = smt.check(base + extra, 1500)
        if st == 'sat':
            base = base + extra
            break
    else:
        return {}, True
    pins, out = [], {}
    for k in names:
        t, lo, hi = I.ranges[k]
        for n in range(3):
            v = rng.randint(lo, hi) if t.is_int() else round(rng.uniform(lo, hi) / 10 ** n, 4)
            if smt.check(base + pins + num(t, v), 1000)[0] == 'sat':
                pins += num(t, v)
                out[k] = v
                break
    for k in names:
        if k not in out:
            st, m = smt.check(base + pins, 1500)
            a = I.ranges[k][0].as_atom()
            if st != 'sat' or a not in m:
                continue
            v = m[a]
            try:
                out[k] = v.as_long() if a.is_int else float(v.as_fraction())
            except Exception:
                continue
            pins += num(I.ranges[k][0], out[k])
    return out, bool(extra)


class PyContract(Contract):
    """subclasses: name, props, module, func, cases(v), scenario(I, v, case)"""
    samples = 24
    extra_contracts = ()
    maxpaths = 400
    always_run = True

    def where(self):
        return self.module.replace('.', '/') + '.py:' + self.func

    def cases(self, v):
        return [{}]

    def assumptions(self):
        return ['machine arithmetic: doubles are treated as real numbers, C ints as integers',
                'compiled kernels by their contracts (uninterpreted terms over everything they read; P04-P08, P11, P12, P15 decide those)',
                'structsolve.finalize_symmetric_matrix is linear and idempotent; composites.laminated_plate is a function of its arguments; no matrix holds NaN or infinity',
                'lists of loads and plies are arbitrary in length; the numbers of panels, connections and stiffeners are enumerated; the objects in them are distinct']

    def trusted(self):
        return TRUSTED + ['dynamic Python semantics of the subset interpreted by vc/sym.py (attributes, lists, dicts, closures; no metaclasses, no monkey patching)']

    def contracts(self, ex):
        return {}

    def prove(self, rep, loader, v):
        for n, case in enumerate(self.cases(v)):
            def make(dec, case=case, n=n):
                kc = KernelContracts(loader)
                ex = PyExecutor(loader, kc, dec)
                kc.update(self.contracts(ex))
                ex.list_append = list_append(ex)
                I = Sym(ex, rep, case)
                I.hint = {'_case': n}
                ex.I = I
                rep.func = self.func
                k0 = len(rep.obs)
                try:
                    self.scenario(I, v, case)
                except S.PathRaise as e:
                    rep.ok('no exception' + self.tag(case), False, 'raises %s' % e, hint=dict(I.hint))
                for nm, hy, goal in ex.obligs:
                    m0 = len(rep.obs)
                    rep.valid(nm, hy, goal)
                    for o in rep.obs[m0:]:
                        o.hint = dict(o.hint or {}, **I.hint)
                for (nm, g, line) in ex.raises:
                    rep.valid('%s of line %s is not reached' % (nm, line), ex.facts + ex.pc, f_not(g))
                bad = [o for o in rep.obs[k0:] if o.status != 'proved']
                if bad:
                    w, inside = witness(ex, I)
                    for o in bad:
                        # what is merely undecided is evaluated within the usual ranges only
                        o.hint = dict(o.hint or {}, _fix=w) if o.status == 'refuted' else dict(I.hint, _fix=w if inside else {})
                for o in rep.obs[k0:]:
                    o.name = o.name + self.tag(case)
                rep.covers(ex)
                return ex
            S.explore(make, self.maxpaths)

    def tag(self, case):
        return (' {' + ', '.join('%s=%s' % (k, x) for k, x in case.items()) + '}') if case else ''

    # run-time evaluation
    def sample(self, v, rng, env):
        env = dict(env)
        cs = self.cases(v)
        self._count = getattr(self, '_count', 0) + 1
        if '_case' not in env:
            env['_case'] = self._count % len(cs)
        env['_seed'] = int(env.get('_seed', rng.randrange(10 ** 9)))
        return env

    def run(self, v, env, getfunc):
        cs = self.cases(v)
        case = cs[int(env['_case']) % len(cs)]
        for att in range(50):
            e = dict(env)
            e['_seed'] = env['_seed'] + 1000003 * att
            I = Num(getfunc, e, case)
            try:
                try:
                    self.scenario(I, v, case)
                    return
                except (Mis, Skip):
                    raise
                except Exception as ex:
                    import traceback
                    raise Mis('raises %s: %s' % (type(ex).__name__, str(ex)[:300]), trace=traceback.format_exc(limit=-4), case=case)
            except Skip:
                continue
            except Mis as m:
                m.kw.setdefault('case', case)
                m.kw.setdefault('drawn', {k: (x if not isinstance(x, np.ndarray) else x.tolist()) for k, x in I.drawn.items() if not isinstance(x, np.ndarray) or x.size < 40})
                raise
