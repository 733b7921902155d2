"""P16: every access of the compiled code stays inside its array, every triplet inside the matrix, nothing is read unset.

The functions are executed symbolically under the preconditions of their own contracts; the executor then emits two
obligations for every element access (index >= 0, index < size)."""
from .expr import *
from .contracts import *
from . import check as C
from . import sym as S
from .bounds import Prover
from . import kernels, conns, stiff, pfield, pload, tables, numeval
from .kernels import Contract


class Captured(Exception):
    pass


def capture(con, loader, variant):
    """the executors of the function of a contract, before anything is compared"""
    got = []
    was, S.Executor.BOUNDS = S.explore, True

    def explore(make):
        got.append(was(make))
        raise Captured()
    S.explore = explore
    try:
        con.prove(C.Report(), loader, variant)
    except Captured:
        pass
    finally:
        S.explore, S.Executor.BOUNDS = was, False
    return got[0]


class Mem(Contract):
    props = ('P16',)
    asan = True

    def __init__(self, con):
        self.con = con
        self.name = 'memory of ' + con.name
        self.module, self.func = con.module, con.func
        self.samples = 8
        self.cost = con.cost

    def where(self):
        return self.con.where()

    def variants(self):
        return self.con.variants()

    def args(self, v):
        return self.con.args(v)

    def trusted(self):
        return self.con.trusted()

    def assumptions(self):
        return self.con.assumptions()

    def prove(self, rep, loader, v):
        for n, ex in enumerate(capture(self.con, loader, v)):
            rep.covers(ex)
            if isinstance(ex.result, S.PathRaise):
                rep.ok('%s: path %d ends in an exception' % (self.func, n), True, backend='symbolic execution')
            seen = set()
            for nm, hy, goal in ex.obligs + list(self.extra(ex)):
                hy = [h for h in list(hy) + ex.facts + ex.pc if h is not TRUE]
                k = (goal.key, frozenset(h.key for h in hy))
                if k in seen:
                    continue
                seen.add(k)
                self.discharge(rep, '%s: %s' % (self.func, nm), hy, goal)

    def discharge(self, rep, nm, hy, goal):
        if goal is TRUE or Prover(hy).holds(goal):
            return rep.ok(nm, True, backend='interval elimination on the index polynomial')
        return rep.valid(nm, hy, goal)

    def extra(self, ex):
        """positions of the triplets; accumulation into unset memory"""
        o = ex.result
        if isinstance(o, S.Obj) and 'v' in o.attrs and o.attrs.get('shape') is not None:
            for what, size in zip('rc', o.attrs['shape']):
                arr = o.attrs[what]
                for e in arr.log:
                    hy = [e.guard] + [f for b, lo, hi in e.binders for f in (f_le(lo, lift(b)), f_lt(lift(b), hi))]
                    nm = '%s of the triplet of line %s' % ({'r': 'row', 'c': 'column'}[what], e.line)
                    yield nm + ' is at least 0', hy, f_le(ZERO, e.val)
                    yield nm + ' is inside the matrix', hy, f_lt(e.val, size)
        for e in ex.events:
            if e.op == 'add' and e.arr.init is None and not any(x.op == 'set' and x.idx == e.idx for x in e.arr.log):
                yield 'line %s adds to a value that has been set' % e.line, [], FALSE

    # ---- concrete: the code built with the address sanitizer
    def sample(self, v, rng, env):
        env = dict(env)
        sizes = [(1, 1), (30, 1), (1, 30), (2, 7), (30, 2)]
        k = self.turn = getattr(self, 'turn', -1) + 1
        if k < len(sizes):
            for p in self.prefixes(v):
                for a, x in zip('mn', sizes[k]):
                    env.setdefault('%s.%s' % (p, a), x)
        return self.con.sample(v, rng, env)

    def prefixes(self, v):
        return ('s', 's1', 's2', 'p', 'p1', 'p2')

    def run(self, v, env, getfunc):
        try:
            self.con.run(v, env, getfunc)
        except Mis as e:
            if 'nan' in e.what.lower():
                raise


class TableMem(Mem):
    """the C++ tables write every element of the buffer they are given and nothing else"""
    def __init__(self, con):
        Mem.__init__(self, con)
        self.flags = con.flags
        self.samples = 4

    def sample(self, v, rng, env):
        return self.con.sample(v, rng, env)

    def cases(self):
        if isinstance(self.con, tables.Basis):
            yield numeval.NB, [sym('xi')] + tables.fsyms(), 1
        else:
            for n in range(1, self.con.NMAX + 1):
                yield n, [], 2

    def prove(self, rep, loader, v):
        fd = loader.find(self.module).funcs[self.func]
        for n, rest, bufs in self.cases():
            arrs = [S.Arr('buffer %d' % k, (const(n),), lambda ix: app('unset', *ix)) for k in range(bufs)]
            ex = S.Executor(loader)
            ptrs = [S.Ptr(a, ZERO) for a in arrs]
            ex.call_function(S.Func(fd), ptrs + rest if bufs == 1 else [const(n)] + ptrs, {})
            rep.covers(ex)
            nm = '%s with %d values' % (self.func, n)
            for a in arrs:
                out = [e for e in ex.events if e.arr is a and all(i.is_const() for i in e.idx) and not 0 <= e.idx[0].const() < n]
                rep.ok('%s: no element outside of %s is written' % (nm, a.name), not out, 'line %s writes element %s' % (
                    (out[0].line, out[0].idx[0]) if out else ('', '')), backend='symbolic execution')
                vals = [ex.arr_get(a, (const(k),), None) for k in range(n)]
                unset = [k for k in range(n) if 'unset' in vals[k].key]
                rep.ok('%s: every element of %s is set' % (nm, a.name), not unset, 'elements %s are not set' % unset[:5], backend='symbolic execution')
                for e in ex.events:
                    if e.arr is a and not all(i.is_const() for i in e.idx):
                        hy = [e.guard] + ex.facts + [f for b, lo, hi in e.binders for f in (f_le(lo, lift(b)), f_lt(lift(b), hi))]
                        self.discharge(rep, '%s: line %s writes at or after the start of %s' % (nm, e.line, a.name), hy, f_le(ZERO, e.idx[0]))
                        self.discharge(rep, '%s: line %s writes before the end of %s' % (nm, e.line, a.name), hy, f_lt(e.idx[0], const(n)))
            for o in ex.obligs:
                self.discharge(rep, nm + ': ' + o[0], list(o[1]), o[2])


class WrapperMem(Mem):
    """the Python-callable wrappers hand the tables buffers that are large enough"""
    def __init__(self, con):
        Mem.__init__(self, con)
        self.flags = con.flags
        self.samples = 4

    def sample(self, v, rng, env):
        return self.con.sample(v, rng, env)

    def prove(self, rep, loader, v):
        got = []
        was, made = S.Executor.BOUNDS, S.Executor.__init__

        def init(ex, *a, **k):
            made(ex, *a, **k)
            got.append(ex)
        S.Executor.BOUNDS, S.Executor.__init__ = True, init
        try:
            self.con.prove(C.Report(), loader, v)
        finally:
            S.Executor.BOUNDS, S.Executor.__init__ = was, made
        for ex in got:
            rep.covers(ex)
            rep.ok(self.func + ': the wrapper was executed', True, backend='symbolic execution')
            for nm, hy, goal in ex.obligs:
                self.discharge(rep, '%s: %s' % (self.func, nm), list(hy) + ex.facts, goal)


def all_contracts():
    r = [TableMem(c) for c in tables.all_contracts() if type(c) is tables.Rule or type(c) is tables.Basis and c.vec]
    r += [WrapperMem(c) for c in tables.all_contracts() if type(c) is tables.RuleWrapper or type(c) is tables.Wrapper and 'vec' in c.func]
    for mod in (kernels, conns, stiff):
        r += [Mem(c) for c in mod.all_contracts()]
    r += [Mem(c) for c in (pload.Fg(), pfield.Fuvw(), pfield.Fstrain())]
    return r
