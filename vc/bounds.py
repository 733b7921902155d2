"""Non-negativity of the index polynomials of array accesses.

The slot counters of the kernels are nested sums of 0/1 guards over the iterations done so far: they are bounded below
by dropping the sums and above by replacing the guards by 1; what is left is a polynomial in the loop variables and sizes,
which are eliminated one by one through their own bounds (each occurs linearly), innermost first.
"""
from .expr import *
from . import expr as E

DEPTH = 9


def linear(p, v):
    """p = C v + D, or None when p is not linear in the atom v"""
    c = d = ZERO
    for m, k in p.t.items():
        hit = [(a, e) for a, e in m if v in a.free]
        if not hit:
            d = d + P({m: k})
        elif len(hit) == 1 and hit[0] == (v, 1):
            c = c + P({tuple(x for x in m if x[0] is not v): k})
        else:
            return None
    return c, d


class Prover:
    def __init__(self, hyps):
        self.low, self.high, self.other = {}, {}, []       # atom: [P]
        self.memo = {}
        for f in hyps:
            self.take(f)

    def take(self, f):
        if f.kind == 'and':
            for x in f.data:
                self.take(x)
        elif f.kind == 'ge':
            self.fact(f.data)
        elif f.kind == 'eq':
            self.fact(f.data)
            self.fact(-f.data)
        elif f.kind == 'not' and f.data.kind == 'ge':
            self.fact(-f.data.data - 1)

    def fact(self, p):
        """p >= 0"""
        if not p.is_int():
            return
        self.other.append(p)
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ('sym', 'app') and abs(c) == 1:
                v = m[0][0]
                lc = linear(p, v)
                if lc is None or not lc[0].is_const():
                    continue
                if c == 1:
                    self.low.setdefault(v, []).append(-lc[1])
                else:
                    self.high.setdefault(v, []).append(lc[1])

    # -- sums and guards
    def relax(self, p, up):
        """polynomial without sums and guards bounding p from above (up) or below"""
        r = ZERO
        for m, c in p.t.items():
            bad = [(a, e) for a, e in m if a.kind in ('sum', 'ind')]
            plain = P({tuple(x for x in m if x not in bad): c})
            if not bad:
                r = r + plain
                continue
            if not plain.is_const() and not self.nonneg(P({tuple(x for x in m if x not in bad): E.F1})):
                return None
            pos = c > 0
            if pos != up:
                if not all(self.sum_nonneg(a) for a, e in bad):
                    return None
                continue                    # at least zero
            for a, e in bad:
                if a.kind == 'ind':
                    continue
                u = self.sum_upper(a)
                if u is None:
                    return None
                plain = plain * u ** e
            r = r + plain
        return r

    def sum_nonneg(self, a):
        if a.kind == 'ind':
            return True
        bs, mono = a.data
        q = Prover(())
        q.low, q.high, q.other, q.memo = dict(self.low), dict(self.high), self.other, {}
        for b, lo, hi in bs:
            q.low[b], q.high[b] = [lo], [hi - 1]
        return all(x.kind in ('ind', 'sum') or q.nonneg(P({((x, e),): E.F1})) for x, e in mono)

    def sum_upper(self, a):
        bs, mono = a.data
        if any(x.kind != 'ind' for x, e in mono):
            return None
        names = set(b for b, _, _ in bs)
        r = ONE
        for b, lo, hi in bs:
            if (lo.free | hi.free) & names:
                return None
            if not self.nonneg(hi - lo):
                return None
            r = r * (hi - lo)
        return r

    # -- elimination
    def nonneg(self, p, depth=DEPTH):
        if p.is_const():
            return p.const() >= 0
        k = p.key
        if self.memo.get(k) == 'yes':
            return True
        if self.memo.get(k, -1) >= depth:
            return False
        r = self._nonneg(p, depth)
        self.memo[k] = 'yes' if r else depth
        return r

    def _nonneg(self, p, depth):
        if any(a.kind in ('sum', 'ind') for m in p.t for a, e in m):
            p = self.relax(p, False)
            if p is None:
                return False
            return self.nonneg(p, depth)
        if self.shifted(p):
            return True
        if depth <= 0:
            return False
        atoms = sorted(p.free, key=lambda a: -a.id)
        for v in atoms:
            lc = linear(p, v)
            if lc is None:
                continue
            c, d = lc
            for table, sg in ((self.low, 1), (self.high, -1)):
                for bnd in table.get(v, ()):
                    if v in bnd.free or not self.sign(c * sg, depth - 1):
                        continue
                    if self.nonneg(c * bnd + d, depth - 1):
                        return True
        return False

    def sign(self, c, depth):
        if c.is_const():
            return c.const() >= 0
        return self.nonneg(c, depth)

    def shifted(self, p):
        """every variable written as its constant lower bound plus something non-negative: no negative coefficient"""
        sub = {}
        for a in p.free:
            lows = [b.const() for b in self.low.get(a, ()) if b.is_const()]
            if not lows:
                # a bound by another bounded variable
                if self.low.get(a) and any(self.constlow(b) for b in self.low[a]):
                    continue
                return False
            sub[a] = lift(a) + max(lows)
        q = subst(p, sub) if sub else p
        return all(c >= 0 for c in q.t.values()) and all(e > 0 for m in q.t for a, e in m)

    def constlow(self, b):
        """b is plainly non-negative"""
        for a in b.free:
            lows = [x.const() for x in self.low.get(a, ()) if x.is_const()]
            if not lows or max(lows) < 0:
                return False
        return all(c >= 0 for c in b.t.values())

    def holds(self, f):
        if f.kind == 'true':
            return True
        if f.kind == 'and':
            return all(self.holds(x) for x in f.data)
        if f.kind == 'ge':
            return self.nonneg(f.data)
        return False
