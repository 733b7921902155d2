"""SMT back end (z3): guards, bounds, feasibility of paths."""
import time
try:
    import z3
except ImportError:          # run-time evaluation only
    z3 = None
from .expr import P, Fm, Atom

STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}


class Enc:
    def __init__(self):
        self.vars = {}
        self.side = []

    def atom(self, a):
        v = self.vars.get(a)
        if v is None:
            nm = 'a%d' % a.id
            if a.kind == 'inv':
                v = z3.Real(nm)
                self.vars[a] = v
                self.side.append(v * self.p(a.data, real=True) == 1)
                return v
            if a.kind == 'ind':
                v = z3.If(self.f(a.data), z3.IntVal(1), z3.IntVal(0))
                self.vars[a] = v
                return v
            v = z3.Int(nm) if a.is_int else z3.Real(nm)
            self.vars[a] = v
        return v

    def p(self, p, real=False):
        if not real and p.is_int():
            tot = z3.IntVal(0)
            for m, c in p.t.items():
                t = z3.IntVal(int(c))
                for a, e in m:
                    x = self.atom(a)
                    for _ in range(e):
                        t = t * x
                tot = tot + t
            return tot
        # clear negative powers is the caller's business; use division
        tot = z3.RealVal(0)
        for m, c in p.t.items():
            t = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
            for a, e in m:
                x = self.atom(a)
                if z3.is_int(x):
                    x = z3.ToReal(x)
                for _ in range(abs(e)):
                    t = t * x if e > 0 else t / x
            tot = tot + t
        return tot

    def f(self, f):
        k, d = f.kind, f.data
        if k == 'true':
            return z3.BoolVal(True)
        if k == 'ge':
            return self.p(d) >= 0
        if k == 'eq':
            return self.p(d) == 0
        if k == 'not':
            return z3.Not(self.f(d))
        if k == 'and':
            return z3.And(*[self.f(x) for x in d])
        if k == 'pred':
            return z3.Bool('p_%s' % f.key)
        raise AssertionError(k)


def check(fs, timeout=3000):
    """satisfiability of the conjunction: 'sat' / 'unsat' / 'unknown', model dict"""
    t0 = time.time()
    e = Enc()
    zs = [e.f(f) for f in fs]
    s = z3.Solver()
    s.set('timeout', timeout)
    for z in zs:
        s.add(z)
    for z in e.side:
        s.add(z)
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    if r == z3.sat:
        m = s.model()
        return 'sat', {a: m.eval(v, model_completion=True) for a, v in e.vars.items()}
    if r == z3.unsat:
        return 'unsat', None
    STATS['unknown'] += 1
    return 'unknown', None


def valid(hyps, goal, timeout=3000):
    from .expr import f_not
    if goal.kind == 'true':
        return 'valid'
    r, m = check(list(hyps) + [f_not(goal)], timeout)
    return {'unsat': 'valid', 'sat': 'invalid', 'unknown': 'unknown'}[r]
