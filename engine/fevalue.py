"""Random programs over nested records and arrays: aliases, copies, writes through either, and comparisons."""

import random

from . import femodel as M
from .fe import Prog

HEAD = """class P(Record):
    x: int
    y: int

    def bump(self, d):
        self.x += d
        return self

    def __add__(self, o):
        return P(self.x + o.x, self.y + o.y)

    def __mul__(self, k):
        return P(self.x * k, self.y * k)

    @property
    def both(self):
        return self.x + 2 * self.y

    @both.setter
    def both(self, v):
        self.x = v
        self.y = -v


class Q(Record):
    p: P
    a: Array[int, 2]

    def inner(self):
        return self.p


class T(Record):
    q: Q
    n: int
    ps: Array[P, 2]


def clear(v):
    v.x = 0
    return v.y


def take(q, k):
    q.a[0] = k
    q = +q
    q.a[1] = k
    return q


def pick(t):
    return t.q.p


def fresh(p):
    return +p


"""

FIELDS = {
    "P": [("x", "int"), ("y", "int")],
    "Q": [("p", "P"), ("a", "A2")],
    "T": [("q", "Q"), ("n", "int"), ("ps", "AP2")],
    "Pair": [("first", "P"), ("second", "int")],
    "Box": [("value", "P")],
}
ELEM = {"A2": ("int", 2), "AP2": ("P", 2), "AQ2": ("Q", 2), "AA2": ("A2", 2), "A3": ("int", 3), "AP3": ("P", 3), "APR2": ("Pair", 2)}
TYPES = ["APR2", "P", "Q", "T", "A2", "AP2", "AQ2", "AA2", "A3", "AP3", "Pair", "Box", "P", "Q", "AP2"]
ANN = {
    "P": "P", "Q": "Q", "T": "T", "int": "int", "A2": "Array[int, 2]", "AP2": "Array[P, 2]", "AQ2": "Array[Q, 2]",
    "AA2": "Array[Array[int, 2], 2]", "A3": "Array[int, 3]", "AP3": "Array[P, 3]", "Pair": "Pair[P, int]",
    "Box": "Box[P]", "APR2": "Array[Pair[P, int], 2]",
}  # fmt: skip


class Val:
    def __init__(self, seed):
        self.r = random.Random(seed * 41 + 13)
        self.lines = []
        self.ind = 1
        self.uid = 0
        self.rt = ["a", "b", "c"]
        self.vars = []  # (name, type)

    def w(self, s):
        self.lines.append("    " * self.ind + s)

    def name(self):
        self.uid += 1
        return f"v{self.uid}"

    def num(self):
        r = self.r
        z = r.random()
        if z < 0.45:
            return r.choice(self.rt)
        if z < 0.6:
            return str(r.choice([0, 1, 2, -1, 5]))
        if z < 0.85:
            p = self.path("int")
            if p:
                return p
        return f"({r.choice(self.rt)} {r.choice('+-*')} {r.choice([1, 2, 3])})"

    def index(self, n):
        r = self.r
        z = r.random()
        if z < 0.45:
            return str(r.randrange(n)) if r.random() < 0.8 else str(-r.randint(1, n))
        return r.choice(["c", "c", "1 - c", "b % 2"])

    def path(self, t, of=None):
        """An access path of type t from some variable."""
        r = self.r
        if not self.vars:
            return None
        for _ in range(12):
            n, s = r.choice(of or self.vars)
            for _ in range(4):
                if s == t and r.random() < 0.75:
                    break
                if s in FIELDS:
                    f, u = r.choice(FIELDS[s])
                    n, s = f"{n}.{f}", u
                elif s in ELEM:
                    u, k = ELEM[s]
                    n, s = f"{n}[{self.index(k)}]", u
                else:
                    break
            if s == t:
                return n
        return None

    def value(self, t, ref=True, depth=2):
        """An expression of type t; ref: it may denote existing storage."""
        r = self.r
        if t == "int":
            return self.num()
        z = r.random()
        if self.vars and z < 0.45:
            p = self.path(t)
            if p:
                return p if ref and r.random() < 0.6 else r.choice([f"+{p}", f"copy({p})"])
        if self.vars and z < 0.6 and t == "P":
            p, q = self.path("P"), self.path("P")
            if p and q:
                return r.choice([f"({p} + {q})", f"({p} * {self.num()})", f"fresh({p})"])
        if z < 0.66 and ref and t == "P" and self.vars:
            p, q = self.path("Q"), self.path("T")
            if p and r.random() < 0.5:
                return f"{p}.inner()"
            if q:
                return f"pick({q})"
        if z < 0.7 and t == "Q" and self.vars:
            p = self.path("Q")
            if p:
                return f"take({p}, {self.num()})"
        if z < 0.78:
            return r.choice([f"+{ANN[t]}", f"zeros({ANN[t]})"])
        if t in FIELDS:
            return f"{ANN[t]}({', '.join(self.value(u, ref) for _, u in FIELDS[t])})"
        u, k = ELEM[t]
        return f"Array({', '.join(self.value(u, True) for _ in range(k))})"

    def stmt(self, depth=1):
        r = self.r
        z = r.randrange(20)
        any_t = r.choice([s for _, s in self.vars])
        if z <= 3:
            p = self.path("int")
            if p:
                self.w(f"{p} {r.choice(['=', '+=', '-='])} {self.num()}")
        elif z <= 6:
            # composite stored into a field or an element: a copy
            t = r.choice(["P", "P", "A2", "Q", "AP2"])
            p = self.path(t)
            if p and ("." in p or "[" in p):
                self.w(f"{p} = {self.value(t, False) if r.random() < 0.4 else self.path(t) or self.value(t, False)}")
        elif z <= 8:
            t = r.choice(["P", "Q", "A2", "AP2", any_t])
            p = self.path(t)
            if p and p.split(".")[0].split("[")[0] not in self.frozen:
                v = self.value(t, False) if r.random() < 0.4 else self.path(t) or self.value(t, False)
                self.w(f"{p} @= {v}")
        elif z <= 11 and depth:
            t = r.choice(TYPES)
            n = self.name()
            self.w(f"{n} = {self.value(t)}")
            self.vars.append((n, t))
        elif z == 12:
            t = r.choice(["P", "P", "A2", "Q"])
            p, q = self.path(t), self.path(t)
            if p and q:
                self.w(f"swap({p}, {q})")
        elif z == 13:
            t = r.choice(["P", "Q", "A2", "T", any_t])
            p = self.path(t)
            if p:
                self.w(f"log(1 if {p} {r.choice(['==', '!='])} {self.value(t)} else 0)")
        elif z == 14:
            p = self.path("P")
            if p:
                self.w(r.choice([f"log(clear({p}))", f"{p}.bump({self.num()})", f"log({p}.both)", f"{p}.both = {self.num()}", f"log({p}.bump(1).x)"]))
        elif z == 15:
            p, q = self.path("P"), self.path("P")
            if p and q:
                self.w(f"{p} {r.choice(['+= ' + q, '*= ' + self.num(), '+= ' + q])}")
        elif z == 16 and depth:
            p = self.path(r.choice(["AP2", "AP3", "AQ2"]))
            if p:
                e = self.name()
                t = "Q" if any(s == "AQ2" for n, s in self.vars if p == n) else None
                t = t or "P"
                self.w(f"for {e} in {p}:")
                self.w(f"    log({e}{'.x' if t == 'P' else '.p.x'})")
                self.w(f"    {e}{'.x' if t == 'P' else '.p.x'} {r.choice(['+=', '='])} {self.num()}")
        elif z == 17 and depth:
            self.w(f"if {r.choice(self.rt)} {r.choice(['<', '>', '=='])} {r.choice([0, 1])}:")
            self.block()
            if r.random() < 0.5:
                self.w("else:")
                self.block()
        elif z == 18 and depth:
            i = self.name()
            self.w(f"for {i} in range({r.choice(['2', '2', 'c + 1'])}):")
            self.rt.append(i)
            self.block()
            self.rt.pop()
        else:
            p = self.path("int")
            if p:
                self.w(f"log({p})")

    frozen = ()

    def block(self):
        self.ind += 1
        n = len(self.lines)
        nv = len(self.vars)
        for _ in range(self.r.choice([1, 1, 2])):
            self.stmt(0)
        if len(self.lines) == n:
            self.w("pass")
        del self.vars[nv:]
        self.ind -= 1

    def dump(self, n, t):
        if t == "int":
            self.w(f"log({n})")
        elif t in FIELDS:
            for f, u in FIELDS[t]:
                self.dump(f"{n}.{f}", u)
        else:
            u, k = ELEM[t]
            for i in range(k):
                self.dump(f"{n}[{i}]", u)

    def program(self):
        r = self.r
        for k, v in enumerate("abc"):
            self.w(f"{v} = inp({k})")
        for _ in range(r.choice([1, 2, 2])):
            t = r.choice(TYPES)
            n = self.name()
            self.w(f"{n} = {self.value(t)}")
            self.vars.append((n, t))
        for _ in range(r.choice([4, 6, 8, 10])):
            self.stmt()
        for n, t in self.vars:
            self.dump(n, t)
        src = HEAD + "def main():\n" + "\n".join(self.lines) + "\n"
        return Prog(src, [(-4, 4, False), (-3, 3, True), (0, 1, True)], real=M.real_ns, oracle=M.oracle_ns)


def values(seed):
    return Val(seed).program()
