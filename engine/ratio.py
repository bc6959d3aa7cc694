"""Equality of rational expressions over exact reals: both sides are brought to a quotient of polynomials over their
leaves (inputs, applications of functions; sin and cos of one angle reduced by sin^2 + cos^2 = 1), and the solver is
asked for leaves with non-zero denominators at which the cross-multiplied difference is not zero."""

import time
from fractions import Fraction

import z3

from . import sym as S

LIMIT = 6000  # monomials


class TooBig(Exception):
    pass


class Ring:
    def __init__(self):
        self.atoms = {}  # key -> index
        self.keys = []
        self.memo = {}

    def atom(self, key):
        k = self.atoms.get(key)
        if k is None:
            k = self.atoms[key] = len(self.keys)
            self.keys.append(key)
        return k

    # ---- polynomials: {((atom, exp), ...): Fraction}
    def add(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        if len(r) > LIMIT:
            raise TooBig
        return r

    def mul(self, a, b):
        if len(a) * len(b) > 40 * LIMIT:
            raise TooBig
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                p = self.mono(m, n)
                r[p] = r.get(p, 0) + c * d
        r = {m: c for m, c in r.items() if c}
        return self.trig(r)

    def mono(self, m, n):
        if not m:
            return n
        if not n:
            return m
        e = dict(m)
        for a, k in n:
            e[a] = e.get(a, 0) + k
        return tuple(sorted(e.items()))

    def trig(self, p):
        """cos(t)^2 -> 1 - sin(t)^2"""
        while True:
            hit = None
            for m in p:
                for a, k in m:
                    if k >= 2 and self.keys[a][0] == "Cos":
                        hit = (m, a, k)
                        break
                if hit:
                    break
            if not hit:
                return p
            m, a, k = hit
            c = p.pop(m)
            rest = tuple(x for x in m if x[0] != a) + (((a, k - 2),) if k > 2 else ())
            rest = tuple(sorted(rest))
            s = self.atom(("Sin", self.keys[a][1]))
            p = self.add(p, {rest: c})
            p = self.add(p, {self.mono(rest, ((s, 2),)): -c})

    # ---- quotients
    def ratio(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._ratio(t)
        return r

    ONE = {(): Fraction(1)}

    def leaf(self, key):
        return {((self.atom(key), 1),): Fraction(1)}, self.ONE

    def _ratio(self, t):
        t = S.res(t)
        v = S.cval(t)
        if v is not None:
            if v != v or v in (float("inf"), float("-inf")):
                raise TooBig
            return ({(): Fraction(v)} if v else {}), self.ONE
        op = t.op
        if op in ("add", "sub", "mul", "div"):
            a, b = self.ratio(t.args[0]), self.ratio(t.args[1])
            return self.arith(op, a, b)
        if op == "neg":
            n, d = self.ratio(t.args[0])
            return {m: -c for m, c in n.items()}, d
        if op == "lin":
            c0, ks = t.val
            r = ({(): Fraction(c0)} if c0 else {}), self.ONE
            for k, a in zip(ks, t.args):
                n, d = self.ratio(a)
                r = self.arith("add", r, ({m: c * Fraction(k) for m, c in n.items()}, d))
            return r
        if op == "uf" and t.val == "Power":
            e = S.cval(t.args[1])
            if e is not None and e == int(e) and 0 < e <= 6:
                r = a = self.ratio(t.args[0])
                for _ in range(int(e) - 1):
                    r = self.arith("mul", r, a)
                return r
        if op == "uf" and t.val in ("Sin", "Cos"):
            n, d = self.ratio(t.args[0])
            key, flip = self.angle(n, d)
            r = self.leaf((t.val, key))
            return ({m: -c for m, c in r[0].items()}, r[1]) if flip and t.val == "Sin" else r
        if op == "v":
            return self.leaf(("v", t))
        return self.leaf((op, t.val, tuple(self.canon(a) if a.sort == "N" else ("b", a) for a in t.args)))

    def canon(self, t):
        n, d = self.ratio(t)
        return self.freeze(n, d)

    def freeze(self, n, d):
        if d == self.ONE:
            return frozenset(n.items())
        k = d[min(d)]
        return frozenset((m, c / k) for m, c in n.items()), frozenset((m, c / k) for m, c in d.items())

    def angle(self, n, d):
        if n and n[min(n)] < 0:
            return self.freeze({m: -c for m, c in n.items()}, d), True
        return self.freeze(n, d), False

    def arith(self, op, a, b):
        (n, d), (p, q) = a, b
        if op == "mul":
            return self.mul(n, p), d if q == self.ONE else q if d == self.ONE else self.mul(d, q)
        if op == "div":
            return self.arith("mul", a, (q, p))
        k = 1 if op == "add" else -1
        if d == q:
            return self.add(n, p, k), d
        return self.add(self.mul(n, q), self.mul(p, d), k), self.mul(d, q)

    def z3(self, p):
        out = z3.RealVal(0)
        for m, c in p.items():
            x = z3.RealVal(str(c))
            for a, k in m:
                for _ in range(k):
                    x = x * z3.Real(f"r{a}")
            out = out + x
        return out


def equal(a, b, stats=None):
    """True when the solver finds no leaves at which a and b differ (over exact reals, denominators non-zero)."""
    ring = Ring()
    try:
        (n, d), (p, q) = ring.ratio(a), ring.ratio(b)
        diff = ring.add(ring.mul(n, q), ring.mul(p, d), -1)
    except TooBig:
        return False
    if len(diff) > 60:
        return False
    s = z3.Solver()
    s.set("timeout", 500)
    t0 = time.perf_counter()
    s.add(ring.z3(diff) != 0)
    r = s.check()
    if stats is not None:
        stats.queries += 1
        stats.solver_s += time.perf_counter() - t0
    return r == z3.unsat
