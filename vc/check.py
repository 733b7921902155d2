"""Obligations: comparison of what the code computes with its contract."""
import hashlib
import itertools
import random
import time
from fractions import Fraction
import numpy as np
from .expr import *
from . import expr as E
from . import smt
from . import sym as S
from . import numeval
from .ir import Unsupported

TOL = Fraction(1, 10 ** 11)
SAMPLE_TIME = 12.0


class Ob:
    def __init__(self, name, status, backend, detail='', hint=None, func=''):
        self.name, self.status, self.backend, self.detail, self.hint, self.func = name, status, backend, detail, hint, func

    def js(self):
        return {'name': self.name, 'status': self.status, 'backend': self.backend, 'detail': self.detail[:2000],
                'hint': self.hint, 'function': self.func}


class Report:
    def __init__(self):
        self.obs = []
        self.functions = set()
        self.unsupported = []
        self.func = ''
        self.notes = []
        self.t0 = time.time()

    def add(self, name, status, backend, detail='', hint=None):
        o = Ob(name, status, backend, detail, hint, self.func)
        self.obs.append(o)
        return status == 'proved'

    def ok(self, name, cond, detail='', backend='symbolic execution', hint=None):
        return self.add(name, 'proved' if cond else 'refuted', backend, '' if cond else detail, hint)

    def undecided(self, name, detail, backend='symbolic execution'):
        return self.add(name, 'undecided', backend, detail)

    def covers(self, ex):
        self.functions |= ex.functions_executed

    # -- equality of terms
    def eq(self, name, code, spec, hyps=(), strip=True):
        if not isinstance(code, P) or not isinstance(spec, P):
            same = (code is spec) or (type(code) == type(spec) and code == spec)
            if same:
                return self.add(name, 'proved', 'normal form')
            return self.add(name, 'refuted', 'normal form', 'code: %r  contract: %r' % (code, spec))
        if close(code, spec):
            return self.add(name, 'proved', 'normal form')
        code2, spec2 = simplify(code, hyps), simplify(spec, hyps)
        if close(code2, spec2):
            return self.add(name, 'proved', 'normal form + z3')
        if many_inds(code2 - spec2):
            code2, spec2 = reduce_inds(code2, hyps), reduce_inds(spec2, hyps)
            if close(code2, spec2):
                return self.add(name, 'proved', 'normal form + z3')
        r = sample_difference(code2, spec2, hyps)
        if r is None:
            return self.add(name, 'undecided', 'normal form', 'normal forms differ, no differing point found: ' + short(code2 - spec2))
        pt, a, b = r
        return self.add(name, 'refuted', 'normal form', 'code gives %r, contract %r at %s; difference: %s' % (a, b, show(pt), short(code2 - spec2)), hint=pt)

    def valid(self, name, hyps, goal, timeout=4000):
        if goal is TRUE:
            return self.add(name, 'proved', 'z3')
        h = [x for x in hyps if x is not TRUE]
        r, m = smt.check(h + [f_not(goal)], timeout)
        if r == 'unsat':
            return self.add(name, 'proved', 'z3')
        if r == 'sat':
            pt = {}
            for a, v in m.items():
                if a.kind == 'sym':
                    pt[a.data] = str(v)
            st = 'refuted' if all(a.kind == 'sym' for f in h + [goal] for a in f.free) and not has_apps(h + [goal]) else 'undecided'
            return self.add(name, st, 'z3', 'counterexample %s for %s' % (pt, goal.key[:400]), hint=pt)
        return self.add(name, 'undecided', 'z3', 'unknown: %s' % goal.key[:400])


def has_apps(fs):
    def atoms(f):
        k, d = f.kind, f.data
        if k in ('ge', 'eq'):
            return d.atoms()
        if k == 'not':
            return atoms(d)
        if k == 'and':
            return set().union(*[atoms(x) for x in d])
        return set()
    return any(a.kind != 'sym' for f in fs for a in atoms(f))


def show(pt):
    return '{' + ', '.join('%s=%s' % (k, (('%.6g' % v) if isinstance(v, float) else v)) for k, v in sorted(pt.items(), key=str)[:60]) + '}'


def short(p):
    s = p.key
    return s if len(s) < 900 else s[:900] + ' ...'


def close(p, q):
    if p == q:
        return True
    d = p - q
    if not d.t:
        return True
    scale = None
    for m, c in d.t.items():
        a = abs(p.t.get(m, E.F0))
        b = abs(q.t.get(m, E.F0))
        big = max(a, b)
        if abs(c) > TOL * big:
            return False
    return True


def simplify(p, hyps):
    """replace indicator atoms decided by the hypotheses"""
    hyps = [h for h in hyps if h is not TRUE]

    def fn(a):
        if a.kind != 'ind':
            return None
        f = a.data
        if f in hyps:
            return ONE
        if f_not(f) in hyps:
            return ZERO
        if smt.check(hyps + [f_not(f)], 1500)[0] == 'unsat':
            return ONE
        if smt.check(hyps + [f], 1500)[0] == 'unsat':
            return ZERO
        return None
    memo = {}

    def fn2(a):
        if a not in memo:
            memo[a] = fn(a)
        return memo[a]
    if any(a.kind == 'ind' for a in p.atoms()):
        p = E.map_atoms(p, fn2)
    # equalities  symbol == term
    for h in hyps:
        if h.kind == 'eq':
            for a in sorted(h.data.free, key=lambda x: x.id):
                t = solve_lin(h.data, a)
                if t is not None:
                    p = subst(p, {a: t})
                    break
    return p


def many_inds(p):
    return any(sum(1 for a, e in m if a.kind == 'ind') > 1 for m in p.t)


def reduce_inds(p, hyps):
    """products of indicators: those that cannot hold together go, implied ones are left out"""
    hyps = [h for h in hyps if h is not TRUE]
    memo = {}

    def red(fs):
        if fs not in memo:
            keep = list(fs)
            if smt.check(hyps + keep, 1500)[0] == 'unsat':
                memo[fs] = None
            else:
                for f in fs:
                    rest = [g for g in keep if g is not f]
                    if smt.check(hyps + rest + [f_not(f)], 1500)[0] == 'unsat':
                        keep = rest
                memo[fs] = keep
        return memo[fs]
    r = ZERO
    for m, c in p.t.items():
        fs = tuple(sorted((a.data for a, e in m if a.kind == 'ind'), key=lambda f: f.key))
        rest = P({tuple(x for x in m if x[0].kind != 'ind'): c})
        k = red(fs) if len(fs) > 1 else fs
        if k is None:
            continue
        for f in k:
            rest = rest * ind(f)
        r = r + rest
    return r


def solve_lin(p, a):
    coef, rest = None, ZERO
    for m, c in p.t.items():
        if any(a in x.free for x, e in m):
            if m == ((a, 1),):
                coef = c
            else:
                return None
        else:
            rest = rest + P({m: c})
    return None if coef is None else rest * (-1 / coef)


def hrand(name, args):
    h = hashlib.sha256((name + '|' + '|'.join('%.9g' % float(np.asarray(a).reshape(-1)[0]) if not isinstance(a, str) else a for a in args)).encode()).digest()
    return 0.3 + int.from_bytes(h[:6], 'big') / 2.0 ** 48 * 2.0


class Funcs(dict):
    def get(self, k, d=None):
        if k in self:
            return self[k]
        return lambda *a: hrand(k, a)


def apps_in(p, out=None):
    out = set() if out is None else out
    for a in p.atoms():
        if a.kind == 'app':
            out.add(a)
            for x in a.data[1]:
                if isinstance(x, P):
                    apps_in(x, out)
    return out


def inds_in(p, out=None):
    out = [] if out is None else out
    for a in p.atoms():
        if a.kind == 'ind':
            if a not in out:
                out.append(a)
        elif a.kind == 'sum':
            inds_in(P({a.data[1]: E.F1}), out)
        elif a.kind == 'inv':
            inds_in(a.data, out)
    return out


SIZES = ('m', 'n', 'nx', 'ny', 'num_cores')


def sample_env(free, hyps, rng, tries=400):
    free = sorted(free, key=lambda a: a.id)
    hs = [h for h in hyps if h is not TRUE]
    hfree = set()
    for h in hs:
        hfree |= h.free
    model = {}
    if hs:
        extra = []
        for a in sorted(hfree | set(x for x in free if x.is_int), key=lambda x: x.id):
            if a.is_int and a.data.split('.')[-1] in SIZES:
                extra.append(f_le(const(rng.choice([1, 2, 2, 3])), lift(a)))
                extra.append(f_le(lift(a), const(6)))
        r, m = smt.check(hs + extra, 2000)
        if r != 'sat':
            r, m = smt.check(hs, 2000)
        if r == 'sat':
            for a, v in m.items():
                if a.kind == 'sym':
                    try:
                        f = Fraction(str(v).replace('?', '')) if '/' in str(v) or '.' not in str(v) else Fraction(str(v).rstrip('?'))
                        model[a.data] = int(f) if a.is_int else float(f)
                    except Exception:
                        pass
    for t in range(tries):
        env = {}
        for a in free:
            nm = a.data
            if a.is_int:
                if nm.split('.')[-1] in SIZES:
                    env[nm] = rng.randint(2, 4)
                else:
                    env[nm] = rng.randint(0, 4)
            else:
                env[nm] = rng.uniform(0.4, 2.2)
                if a in hfree and rng.random() < (0.0 if t == 0 else 0.4):
                    env[nm] = -env[nm]
        if t % 4 == 2 or (t == 0 and not model):
            pass
        elif t % 2 == 1 or t > 50:
            keep = {a.data for a in hfree}
            for k, v in model.items():
                if k in keep and (t % 4 == 1 and t > 8 or t > 50 or rng.random() < 0.7):
                    env[k] = v
        elif t == 12:
            for k, v in model.items():
                env[k] = v
        try:
            ev = numeval.Eval(env)
            ev.funcs = Funcs(ev.funcs)
            if all(bool(np.all(ev.f(h))) for h in hs):
                return env
        except Exception:
            continue
    return None


def sample_difference(code, spec, hyps, n=14):
    """concrete point where code and contract differ under the real meaning of the terms"""
    free = set(code.free) | set(spec.free)
    for h in hyps:
        free |= h.free
    if any(a.is_int and a.data.startswith('H_') for a in free):
        return None
    rng = random.Random(12345)
    bad = 0
    t0 = time.time()
    # steer towards both sides of every condition the two terms depend on
    conds = []
    for p in (code, spec):
        for a in inds_in(p):
            conds += [f for f in (a.data, f_not(a.data)) if f not in conds]
    cases = [[]] * 3 + [[f] for f in conds[:24]] + [[]] * n
    for extra in cases:
        if time.time() - t0 > SAMPLE_TIME:
            return None
        if any(a not in free for f in extra for a in f.free):
            continue
        env = sample_env(free, list(hyps) + extra, rng, tries=400 if not extra else 60)
        if env is None and extra:
            continue
        if env is None:
            bad += 1
            if bad > 3:
                return None
            continue
        try:
            ev = numeval.Eval(env)
            ev.funcs = Funcs(ev.funcs)
            a = float(np.asarray(ev.p(code)).reshape(-1)[0])
            b = float(np.asarray(ev.p(spec)).reshape(-1)[0])
        except Exception as e:
            bad += 1
            if bad > 3:
                return None
            continue
        sc = magnitude(ev, code) + magnitude(ev, spec)
        if not (abs(a - b) <= 1e-7 * sc + 1e-14):
            return env, a, b
    return None


def magnitude(ev, p):
    s = 0.0
    for m, c in p.t.items():
        try:
            s += abs(float(np.asarray(ev.p(P({m: c}))).reshape(-1)[0]))
        except Exception:
            pass
    return s


# ------------------------------------------------------------------ sparse results
class Mismatch(Exception):
    pass


def rename_match(eidx, ebind, tidx, tbind):
    """substitution of ebind binders (terms over tbind) making eidx == tidx syntactically"""
    if eidx == tidx:
        return {}
    eb = [b for b, _, _ in ebind if any(b in x.free for x in eidx)]
    tb = [b for b, _, _ in tbind if any(b in x.free for x in tidx)]
    if set(eb) == set(tb) or len(eb) != len(tb) or len(eb) > 6:
        return None
    for pm in itertools.permutations(tb):
        sub = {b: lift(t) for b, t in zip(eb, pm)}
        if tuple(subst(x, sub) for x in eidx) == tuple(tidx):
            return sub
    return None


def index_value(arr, ve, rep, what):
    """value stored in integer array arr at the index of event ve (row / column numbers of the slot)"""
    cands = []
    for re_ in arr.log:
        if re_.op != 'set':
            raise Mismatch('%s modified by +=' % what)
        if len(re_.idx) != len(ve.idx):
            continue
        sub = {} if re_.idx == ve.idx else rename_match(re_.idx, re_.binders, ve.idx, ve.binders)
        if sub is None:
            continue
        cands.append((re_, sub))
    if not cands:
        return None
    vals = []
    vb = set(b for b, _, _ in ve.binders)
    for re_, sub in cands:
        used = set(b for b, _, _ in re_.binders if any(b in x.free for x in re_.idx))
        free_b = [(b, lo, hi) for b, lo, hi in re_.binders if b not in used]
        g = subst_fm(re_.guard, sub)
        v = subst(re_.val, sub)
        wit = {}
        for b, lo, hi in free_b:
            if b in v.free:
                raise Mismatch('%s of a slot depends on %s' % (what, b))
            w = None
            for f in (g.data if g.kind == 'and' else (g,)):
                if f.kind == 'eq' and b in f.free:
                    w = E.solve_for(f.data, b)
            wit[b] = w if w is not None else lo
        g2 = subst_fm(g, wit)
        vals.append((v, g2))
    v0 = vals[0][0]
    if any(v != v0 for v, _ in vals):
        raise Mismatch('%s of a slot is written with different values' % what)
    return v0, f_or(*[g for _, g in vals])


def spec_binders(prefix='X'):
    return [symatom('%s_%s' % (prefix, k), True) for k in 'ijkl']


def unify_pair(expr, base, m, I, J, binders):
    """expr == base + 3*(J*m + I) + d : substitution {code binder: term over I, J} and d"""
    rest = expr - base
    d = rest.const()
    if d.denominator != 1:
        return None
    r = rest - const(d)
    # r = 3*m*J' + 3*I' with J', I' affine in one binder each (unit coefficient)
    bs = [b for b, _, _ in binders if b in r.free]
    if len(bs) != 2:
        return None
    for bi, bj in (bs, bs[::-1]):
        for si in (1, -1):
            for sj in (1, -1):
                # I' = si*bi + ci ; J' = sj*bj + cj
                rem = r - 3 * (sj * lift(bj) * m + si * lift(bi))
                if bi in rem.free or bj in rem.free:
                    continue
                return bi, bj, si, sj, rem, d
    return None


def decomp(expr, base, m, n, binders, dmax=3):
    """expr = base + 3*(J*m+I) + d, 0<=d<3.  Returns (bi, I as term of bi, bj, J as term of bj, d)"""
    u = unify_pair(expr, base, m, None, None, binders)
    if u is None:
        return None
    bi, bj, si, sj, rem, d = u
    rng = {b: (lo, hi) for b, lo, hi in binders}
    # distribute rem (+ d multiples of 3) over I and J so that the ranges come out as [0,m) and [0,n)
    d = int(d)
    ci = ZERO
    cj = ZERO
    if si == -1:
        ci = rng[bi][1] - 1
        rem = rem - 3 * ci
        # constants may have been hidden in d
        rem = rem + const(d)
        d = int(rem.const())
        rem = rem - const(d)
    if sj == -1:
        cj = rng[bj][1] - 1
        rem = rem - 3 * cj * m + const(d)
        d = int(rem.const())
        rem = rem - const(d)
    if si == 1 and not rng[bi][0].is_zero():
        ci = -rng[bi][0]
        rem = rem - 3 * ci + const(d)
        d = int(rem.const())
        rem = rem - const(d)
    if sj == 1 and not rng[bj][0].is_zero():
        cj = -rng[bj][0]
        rem = rem - 3 * cj * m + const(d)
        d = int(rem.const())
        rem = rem - const(d)
    if not rem.is_zero() or not (0 <= d < dmax):
        return None
    return bi, (si, ci), bj, (sj, cj), d


def spec_sparse(rep, name, coo, spec, dims1, dims2, base1, base2, size, facts, symmetric=True, upper_only=True,
                dofs=3, skip_lower_blocks=False):
    """coo: result Obj; spec(d1, d2, i, j, k, l) -> P (terms over atoms i..l)
    dims = (m, n); base = first row / column; entries with row > col are outside the contract when upper_only."""
    v, r, c = coo.attrs.get('v'), coo.attrs.get('r'), coo.attrs.get('c')
    if not isinstance(v, S.Arr) or not isinstance(r, S.Arr) or not isinstance(c, S.Arr):
        rep.undecided(name + ': triplets', 'values, rows and columns are not plain arrays')
        return
    shp = coo.attrs.get('shape')
    rep.ok(name + ': matrix has shape (size, size)', isinstance(shp, tuple) and len(shp) == 2 and all(isinstance(x, P) and x == size for x in shp),
           'shape is %r' % (shp,))
    m1, n1 = dims1
    m2, n2 = dims2
    i, j, k, l = spec_binders()
    iP, jP, kP, lP = lift(i), lift(j), lift(k), lift(l)
    ranges = [f_le(ZERO, iP), f_lt(iP, m1), f_le(ZERO, jP), f_lt(jP, n1), f_le(ZERO, kP), f_lt(kP, m2), f_le(ZERO, lP), f_lt(lP, n2)]
    base_h = list(facts) + ranges
    got = {}
    if not v.log:
        rep.ok(name + ': entries are produced', False, 'no entry is written')
        return
    if not (isinstance(v.init, P) and v.init.is_zero() and isinstance(r.init, P)):
        rep.ok(name + ': accumulation starts from zero', False, 'values start from %r' % (v.init,))
        return
    slots = []
    setslots = {}
    for e in v.log:
        if e.op == 'set':
            setslots.setdefault(tuple(x.key for x in e.idx), []).append(e)
    for e in v.log:
        try:
            rr = index_value(r, e, rep, 'row')
            cc = index_value(c, e, rep, 'column')
        except Mismatch as x:
            rep.add(name + ': slot numbering', 'undecided', 'symbolic execution', str(x))
            return
        if rr is None or cc is None:
            rep.add(name + ': every value slot has a row and a column', 'undecided', 'symbolic execution', 'line %s writes a value whose row/column is not set at the same slot' % e.line)
            return
        R, gR = rr
        C, gC = cc
        dr = decomp(R, base1, m1, n1, e.binders)
        dc = decomp(C, base2, m2, n2, e.binders)
        if dr is None or dc is None:
            rep.add(name + ': row/column of line %s' % e.line, 'undecided', 'symbolic execution', 'row %s col %s' % (R, C))
            return
        bi, (si, ci), bj, (sj, cj), d1 = dr
        bk, (sk, ck), bl, (sl, cl), d2 = dc
        if len({bi, bj, bk, bl}) != 4:
            rep.add(name + ': row/column of line %s' % e.line, 'undecided', 'symbolic execution', 'shared binders')
            return
        sub = {}
        for b, s, cst, tgt in ((bi, si, ci, iP), (bj, sj, cj, jP), (bk, sk, ck, kP), (bl, sl, cl, lP)):
            # tgt = s*b + cst  ->  b = s*(tgt - cst)
            sub[b] = (tgt - cst) * s
        g = subst_fm(e.guard, sub)
        val = subst(e.val, sub)
        for b, lo, hi in e.binders:
            if b in sub:
                inside = f_and(f_le(subst(lo, sub), sub[b]), f_lt(sub[b], subst(hi, sub)))
                g = f_and(g, inside)
        upper = []
        if upper_only:
            upper = [f_le(base1 + 3 * (jP * m1 + iP) + d1, base2 + 3 * (lP * m2 + kP) + d2)]
        others = [(b, lo, hi) for b, lo, hi in e.binders if b not in sub]
        hy = base_h + upper
        # rows/cols must be set whenever the value is
        ig = index_guard_ok(hy + g_list(g), [subst_fm(gR, sub), subst_fm(gC, sub)], others)
        if not ig:
            rep.add(name + ': rows and columns set for line %s' % e.line, 'undecided', 'z3', 'guards %s / %s' % (gR, gC))
        val = val * ind(drop_implied(g, hy, others))
        for b, lo, hi in reversed(others):
            val = mk_sum(b, subst(lo, sub), subst(hi, sub), val)
        got.setdefault((d1, d2), []).append(val)
        slots.append((e, sub, d1, d2))
    for d1 in range(dofs):
        for d2 in range(dofs):
            sp = spec(d1, d2, iP, jP, kP, lP)
            tot = ZERO
            for x in got.get((d1, d2), []):
                tot = tot + x
            if sp.is_zero() and tot.is_zero():
                continue
            upper = []
            if upper_only:
                upper = [f_le(base1 + 3 * (jP * m1 + iP) + d1, base2 + 3 * (lP * m2 + kP) + d2)]
            rep.eq('%s: entry (%s,%s)' % (name, 'uvw'[d1], 'uvw'[d2]), tot, sp, base_h + upper)
    slot_discipline(rep, name, slots, v, r, c, facts)


def spec_vector(rep, name, ex, vec, spec, dims, base, size, facts, dofs=3):
    """vec: result array, 0 initially; element base + 3(jm+i) + d must be spec(d, i, j); nothing else is written"""
    if not isinstance(vec, S.Arr):
        rep.undecided(name + ': result', 'not an array: %r' % (vec,))
        return
    vec = ex.resolve(vec) if hasattr(ex, 'resolve') else vec
    if not (vec.shape is not None and len(vec.shape) == 1):
        rep.undecided(name + ': result', 'shape %r' % (vec.shape,))
        return
    rep.ok(name + ': vector has size elements', vec.shape[0] == size, 'length %s' % (vec.shape[0],))
    if not (isinstance(vec.init, P) and vec.init.is_zero()):
        rep.undecided(name + ': vector starts from zero', 'init %r' % (vec.init,))
        return
    m, n = dims
    i, j = symatom('X_i', True), symatom('X_j', True)
    iP, jP = lift(i), lift(j)
    base_h = list(facts) + [f_le(ZERO, iP), f_lt(iP, m), f_le(ZERO, jP), f_lt(jP, n)]
    got = {}
    for e in vec.log:
        dr = decomp(e.idx[0], base, m, n, e.binders)
        if dr is None:
            rep.add(name + ': position of line %s' % e.line, 'undecided', 'symbolic execution', 'index %s' % e.idx[0])
            return
        bi, (si, ci), bj, (sj, cj), d = dr
        sub = {bi: (iP - ci) * si, bj: (jP - cj) * sj}
        if bi is bj:
            rep.undecided(name + ': position of line %s' % e.line, 'shared binders')
            return
        g = subst_fm(e.guard, sub)
        val = subst(e.val, sub)
        for b, lo, hi in e.binders:
            if b in sub:
                g = f_and(g, f_le(subst(lo, sub), sub[b]), f_lt(sub[b], subst(hi, sub)))
        others = [(b, lo, hi) for b, lo, hi in e.binders if b not in sub]
        val = val * ind(drop_implied(g, base_h, others))
        for b, lo, hi in reversed(others):
            val = mk_sum(b, subst(lo, sub), subst(hi, sub), val)
        if e.op == 'set':
            if others or d in got:
                rep.undecided(name + ': position of line %s' % e.line, 'overwritten elements')
                return
        got[d] = got.get(d, ZERO) + val
    for d in range(dofs):
        rep.eq('%s: element of %s' % (name, 'uvw'[d] if dofs == 3 else d), got.get(d, ZERO), spec(d, iP, jP), base_h)


def g_list(g):
    return list(g.data) if g.kind == 'and' else [g]


def drop_implied(g, hy, others):
    keep = []
    ob = set(b for b, _, _ in others)
    for f in g_list(g):
        if f is TRUE:
            continue
        h = list(hy)
        for b, lo, hi in others:
            h += [f_le(lo, lift(b)), f_lt(lift(b), hi)]
        if f in h:
            continue
        if smt.check(h + [f_not(f)], 2000)[0] == 'unsat':
            continue
        keep.append(f)
    return f_and(*keep)


def index_guard_ok(hy, goals, others):
    h = list(hy)
    for b, lo, hi in others:
        h += [f_le(lo, lift(b)), f_lt(lift(b), hi)]
    for g in goals:
        if g is TRUE:
            continue
        gl = [x for x in g_list(g)]
        if all(x in h for x in gl):
            continue
        if smt.check(h + [f_not(g)], 2000)[0] != 'unsat':
            return False
    return True


# -- slot numbering: slots of distinct iterations are distinct and inside the buffers
def peel(p):
    """rewrite sum atoms whose upper bound is X+1 (X containing a plain binder) as the sum up to X plus the last term"""
    def fn(a):
        if a.kind != 'sum':
            return None
        bs = a.data[0]
        for n, (b, lo, hi) in enumerate(bs):
            if hi.const() >= 1 and not hi.is_const() and len(hi.t) == 2 and hi.const() == 1:
                x = hi - 1
                at = x.as_atom()
                if at is None or at.kind != 'sym' or '~' not in at.data:
                    continue
                if any(b in l2.free or b in h2.free for b2, l2, h2 in bs if b2 is not b):
                    continue
                # rebuild
                ren = {b2: fresh('s', True) for b2, _, _ in bs}
                body = subst(P({a.data[1]: E.F1}), ren)
                low = body
                last = subst(body, {ren[b].as_atom(): x})
                for b2, l2, h2 in reversed(bs):
                    low = mk_sum(ren[b2].as_atom(), subst(l2, ren), subst(h2, ren) if b2 is not b else x, low)
                    if b2 is not b:
                        last = mk_sum(ren[b2].as_atom(), subst(l2, ren), subst(h2, ren), last)
                return low + last
        return None
    for _ in range(4):
        q = E.map_atoms(p, fn)
        if q == p:
            return p
        p = q
    return p


def slot_discipline(rep, name, slots, v, r, c, facts):
    """the slot index is an exclusive prefix count of the written iterations; offsets are distinct constants"""
    if not slots:
        return
    base = None
    offs = {}
    e0, sub0 = slots[0][0], slots[0][1]
    bind0 = e0.binders
    base = e0.idx[0]
    for e, sub, d1, d2 in slots:
        ren = {}
        if e.binders != bind0:
            if len(e.binders) == len(bind0):
                ren = {b: lift(b0) for (b, _, _), (b0, _, _) in zip(e.binders, bind0)}
            else:
                rep.undecided(name + ': slots', 'entries written by different loop nests')
                return
        o = subst(e.idx[0], ren) - base
        if not o.is_const():
            rep.undecided(name + ': slots', 'slot offsets are not constant: %s' % o)
            return
        offs.setdefault(o.const(), set()).add((d1, d2))
        g = subst_fm(e.guard, ren)
    lo = min(offs)
    hi = max(offs)
    if any(len(s) > 1 for s in offs.values()):
        rep.ok(name + ': each slot holds one entry', False, 'two different entries share a slot')
        return
    start = base + const(lo)
    width = hi - lo + 1
    # loops the index depends on, outermost first
    deps = [(b, l, h) for b, l, h in bind0 if b in start.free]
    okk = True
    detail = ''
    g0 = e0.guard
    deps = order_loops(start, deps)
    inner = start
    for pos in range(len(deps) - 1, -1, -1):
        b, l, h = deps[pos]
        # value at the start of the inner loops
        at0 = start
        for b2, l2, h2 in deps[pos + 1:]:
            at0 = subst(at0, {b2: l2})
        end = at_end(start, deps[pos + 1:])
        nxt = peel(subst(at0, {b: lift(b) + 1}))
        if pos == len(deps) - 1:
            step = nxt - at0
            gi = ind(g0)
            alt = step - const(width)
            if not (step == const(width) or nonneg_step(step, width, g0)):
                okk, detail = False, 'consecutive slots differ by %s, %d slots are used' % (step, width)
                break
        else:
            if nxt != peel(end) and not (nxt - peel(end)).is_const():
                okk, detail = False, 'slot numbering is not contiguous over %s: %s' % (b, nxt - peel(end))
                break
            if (nxt - peel(end)).const() < 0:
                okk, detail = False, 'slots are reused over %s' % b
                break
    if okk:
        rep.add(name + ': distinct entries use distinct slots', 'proved', 'normal form (prefix count lemma)')
    else:
        rep.add(name + ': distinct entries use distinct slots', 'undecided', 'normal form (prefix count lemma)', detail)
        return
    first = start
    for b, l, h in deps:
        first = subst(first, {b: l})
    rep.ok(name + ': first slot is inside the buffers', first.is_const() and first.const() >= 0, 'first slot %s' % first, 'normal form (prefix count lemma)')
    tot = ONE
    for b, l, h in deps:
        tot = tot * (h - l)
    need = first + tot * const(width)
    for nm, arr in (('values', v), ('rows', r), ('columns', c)):
        if arr.shape is None or arr.shape[0] is None:
            continue
        g = f_le(need, arr.shape[0])
        pos = [f_le(ONE, a_) for a_ in set(x for b, l, h in deps for x in (h - l,))]
        if g is TRUE or (arr.shape[0] - need).is_zero():
            rep.add(name + ': %s buffer is large enough' % nm, 'proved', 'normal form (prefix count lemma)')
        else:
            rep.valid(name + ': %s buffer is large enough' % nm, list(facts) + pos, g)


def nonneg_step(step, width, g):
    """step is width * [guard] (or at least that)"""
    gi = ind(g_no_eq(g))
    if step == gi * width or step == ind(g) * width:
        return True
    return False


def g_no_eq(g):
    return f_and(*[f for f in g_list(g) if f.kind != 'eq'])


def at_end(start, inner):
    p = start
    for n, (b, l, h) in enumerate(inner):
        pass
    if not inner:
        return p
    # exclusive prefix at "one past the last iteration" of the outermost inner loop: set its binder to its end and
    # the deeper ones to their start
    b, l, h = inner[0]
    q = p
    for b2, l2, h2 in inner[1:]:
        q = subst(q, {b2: l2})
    return subst(q, {b: h})


def order_loops(start, deps):
    return list(deps)
