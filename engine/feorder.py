"""Random programs made to expose evaluation order: every subexpression logs when it is evaluated."""

import random

from . import femodel as M
from .fe import Prog

HEAD = """class P(Record):
    x: int
    y: int

    def add(self, d, e=2, *rest, k=1):
        s = self.x + d * 2 + e * 3 + k * 5
        for v in rest:
            s = s * 2 + v
        return s

    def set(self, d):
        self.x = d
        return self

    @property
    def z(self):
        log(900)
        return self.x * 2 + self.y

    @z.setter
    def z(self, v):
        log(901)
        self.x = v

    def __add__(self, o):
        log(902)
        return P(self.x + o.x, self.y + o.y)

    def __sub__(self, k):
        log(903)
        return P(self.x - k, self.y)

    def __rsub__(self, k):
        log(904)
        return P(k - self.x, self.y)

    def __lt__(self, o):
        log(905)
        return self.x < o.x


class S(Record):
    v: int

    def __lt__(self, k):
        log(906)
        return self.v < k

    def __le__(self, k):
        log(907)
        return self.v <= k

    def __gt__(self, k):
        log(908)
        return self.v > k

    def __ge__(self, k):
        log(909)
        return self.v >= k

    def __sub__(self, k):
        log(910)
        return self.v - k

    def __rsub__(self, k):
        log(911)
        return k - self.v

    def __rmul__(self, k):
        log(912)
        return k * self.v + 1

    def __mod__(self, k):
        log(913)
        return self.v % 3 + k

    def __rmod__(self, k):
        log(914)
        return k - 2 * self.v

    def __neg__(self):
        log(915)
        return S(-self.v)

    def __pos__(self):
        log(916)
        return self.v

    def __contains__(self, k):
        log(917)
        return self.v == k

    def __getitem__(self, k):
        log(918)
        return self.v + k

    def __abs__(self):
        log(920)
        return abs(self.v)

    def __call__(self, k, m=1):
        log(921)
        return self.v * k + m


def tr(k, v):
    log(k)
    return v


def pos(a, b=7, /, c=3, *, d=2, e=11):
    return a + b * 2 + c * 3 + d * 5 + e * 7


def var(a, *r, k=4):
    s = a + k
    for v in r:
        s = s * 2 + v
    return s


def kws(a, b=2, **kw):
    return a + b * 2 + kw["u"] * 3


def void(a):
    log(a + 300)


def pair(a, b):
    return (a, b)


"""


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed * 13 + 11)
        self.lines = []
        self.ind = 1
        self.k = 100
        self.uid = 0
        self.nums = []
        self.recs = []
        self.arrs = []
        self.locs = []  # nested functions: (name, call maker)

    def w(self, s):
        self.lines.append("    " * self.ind + s)

    def name(self, p):
        self.uid += 1
        return f"{p}{self.uid}"

    def t(self, e):
        self.k += 1
        return f"tr({self.k}, {e})"

    def atom(self):
        r = self.r
        z = r.random()
        if z < 0.6:
            return r.choice(self.nums)
        if z < 0.75:
            return str(r.choice([0, 1, 2, 3, -1]))
        if z < 0.9 and self.recs:
            return f"{r.choice(self.recs)}.{r.choice('xy')}"
        return f"{r.choice(self.arrs)}[{r.randrange(3)}]"

    def num(self, d=1):
        r = self.r
        if d <= 0:
            return self.t(self.atom()) if r.random() < 0.7 else self.atom()
        z = r.random()
        n = lambda: self.num(d - 1)  # noqa: E731
        if z < 0.12:
            return self.t(n())
        if z < 0.28:
            return f"({n()} {r.choice('+-*')} {n()})"
        if z < 0.36:
            return f"({n()} if {self.cond(d - 1)} else {n()})"
        if z < 0.44:
            return f"({r.choice(self.nums)} := {n()})"
        if z < 0.52:
            return f"{self.arr()}[{self.idx()}]"
        if z < 0.58:
            return f"{self.rec(d - 1)}.{r.choice('xyz')}"
        if z < 0.66:
            return f"{self.rec(d - 1)}.add({self.args(r.choice([1, 2, 3, 4]), d - 1, ['k'])})"
        if z < 0.9:
            return self.call(d)
        if z < 0.93:
            return f"pair({n()}, {n()})[{r.randrange(2)}]"
        if z < 0.97:
            v = self.srec(d - 1)
            return r.choice([f"({v} - {n()})", f"({n()} - {v})", f"({n()} * {v})", f"({v} % {n()})", f"({n()} % {v})", f"{v}[{n()}]", f"(-{v}).v", f"abs({v})", f"{v}.v"])
        return f"{r.choice(['min', 'max'])}({n()}, {n()}{', ' + n() if r.random() < 0.5 else ''})"

    def idx(self):
        return f"tr({self.r.randint(200, 260)}, {self.r.randrange(3)})" if self.r.random() < 0.6 else f"int({self.num(0)}) % 3"

    def args(self, n, d, kws=(), star=True):
        r = self.r
        out = []
        k = 0
        while k < n:
            if star and n - k >= 2 and r.random() < 0.2:
                out.append(f"*pair({self.num(d)}, {self.num(d)})")
                k += 2
            else:
                out.append(self.num(d))
                k += 1
        names = [q for q in kws if r.random() < 0.5]
        r.shuffle(names)
        out += [f"{q}={self.num(d)}" for q in names]
        return ", ".join(out)

    def call(self, d):
        r = self.r
        d -= 1
        z = r.random()
        if z < 0.25:
            n = r.choice([1, 2, 2, 3])
            return f"pos({self.args(n, d, ['d', 'e'] + (['c'] if n < 3 else []))})"
        if z < 0.45:
            return f"var({self.args(r.choice([1, 2, 3, 4]), d, ['k'])})"
        if z < 0.55:
            n = r.choice([1, 2])
            ks = ["u"] + (["b"] if n < 2 and r.random() < 0.5 else [])
            r.shuffle(ks)
            return f"kws({self.args(n, d, star=False)}, {', '.join(f'{q}={self.num(d)}' for q in ks)})"
        if z < 0.65:
            return f"(lambda p, q={self.num(d)}: {r.choice(['p + q * 2', 'p - ' + r.choice(self.nums)])})({self.num(d)})"
        if self.locs:
            return r.choice(self.locs)(d)
        return f"var({self.num(d)})"

    def rec(self, d):
        r = self.r
        z = r.random()
        if d <= 0 or z < 0.5:
            return r.choice(self.recs)
        if z < 0.65:
            return f"P({self.num(d - 1)}, {self.num(d - 1)})" if r.random() < 0.5 else f"P(y={self.num(d - 1)}, x={self.num(d - 1)})"
        if z < 0.75:
            return f"{r.choice(self.recs)}.set({self.num(d - 1)})"
        if z < 0.85:
            return f"({self.rec(d - 1)} + {self.rec(d - 1)})"
        return r.choice([f"({self.rec(d - 1)} - {self.num(d - 1)})", f"({self.num(d - 1)} - {self.rec(d - 1)})"])

    def cond(self, d=1):
        r = self.r
        z = r.random()
        if z < 0.55 or d <= 0:
            s = self.num(max(d - 1, 0))
            for _ in range(r.choice([1, 1, 2, 3])):
                s += f" {r.choice(['<', '<=', '>', '>=', '==', '!='])} {self.num(max(d, 0))}"
            return f"({s})"
        if z < 0.75:
            return f"({self.cond(d - 1)} {r.choice(['and', 'or'])} {self.cond(d - 1)})"
        if z < 0.83:
            return f"(not {self.cond(d - 1)})"
        if z < 0.92:
            return f"({self.num(d - 1)} {r.choice(['in', 'not in'])} ({self.num(d - 1)}, {self.num(d - 1)}))"
        if z < 0.96:
            return f"({self.rec(d - 1)} {r.choice('<>')} {self.rec(d - 1)})"
        v = self.srec(d - 1)
        op = r.choice(["<", "<=", ">", ">="])
        return r.choice([f"({v} {op} {self.num(d - 1)})", f"({self.num(d - 1)} {op} {v})", f"({self.num(0)} {r.choice(['in', 'not in'])} {v})", f"({self.num(0)} {op} {v} {r.choice(['<', '>='])} {self.num(0)})"])

    def srec(self, d):
        r = self.r
        return r.choice(["s", self.t("s"), f"S({self.num(max(d, 0))})"])

    def arr(self):
        r = self.r
        v = r.choice(self.arrs)
        return self.t(v) if r.random() < 0.4 else v

    def target(self):
        r = self.r
        z = r.random()
        if z < 0.3:
            return r.choice(self.nums)
        if z < 0.65:
            return f"{self.arr()}[{self.idx()}]"
        v = r.choice(self.recs)
        return f"{self.t(v) if r.random() < 0.4 else v}.{r.choice('xyz')}"

    def stmt(self, d):
        r = self.r
        z = r.random()
        if z < 0.14:
            self.w(f"log({self.num(2)})")
        elif z < 0.26:
            self.w(f"{self.target()} = {self.num(2)}")
        elif z < 0.36:
            self.w(f"{' = '.join(self.target() for _ in range(r.choice([2, 3])))} = {self.num(1)}")
        elif z < 0.46:
            n = r.choice([2, 2, 3])
            self.w(f"{', '.join(self.target() for _ in range(n))} = {', '.join(self.num(1) for _ in range(n))}")
        elif z < 0.5:
            self.w(f"{self.target()}, ({self.target()}, {self.target()}) = {self.num(1)}, pair({self.num(1)}, {self.num(1)})")
        elif z < 0.62:
            if r.random() < 0.15:
                self.w(f"{self.target()} {r.choice(['-=', '*=', '%='])} {self.srec(1)}")
            else:
                self.w(f"{self.target()} {r.choice(['+=', '-=', '*='])} {self.num(1)}")
        elif z < 0.66:
            self.w(f"void({self.num(1)})")
        elif z < 0.70:
            v = r.choice(self.recs)
            self.w(f"{v} {r.choice(['@= ' + self.rec(1), '= ' + v, '+= ' + self.rec(1), '-= ' + self.num(1)])}")
        elif z < 0.78 and d > 0:
            self.nested(d)
        elif z < 0.88 and d > 0:
            self.w(f"if {self.cond(2)}:")
            self.body(d - 1)
            if r.random() < 0.4:
                self.w(f"elif {self.cond(1)}:")
                self.body(d - 1)
            if r.random() < 0.5:
                self.w("else:")
                self.body(d - 1)
        elif z < 0.93 and d > 0:
            i = self.name("i")
            self.w(r.choice([f"for {i} in ({self.num(1)}, {self.num(1)}):", f"for {i} in range({r.choice(['2', self.t('2'), self.t('n')])}):", f"for {i}, {self.name('i')} in (pair({self.num(0)}, {self.num(0)}), (1, {self.num(1)})):"]))
            self.body(d - 1)
        elif z < 0.97 and d > 0:
            self.w(f"match {r.choice([self.num(1), self.rec(1), f'({self.num(1)}, {self.num(1)})'])}:")
            m = self.name("m")
            self.ind += 1
            s = self.lines[-1]
            if s.strip().startswith("match ("):
                ps = r.choice([f"(1, {m})", f"({m}, 2)", f"({m}, _)"])
            else:
                ps = r.choice([f"P({m}, 2)", f"P(x={m})", f"P(1, y={m})", f"{m}"])
            if ps == m:
                self.w(f"case {self.r.randint(0, 2)}:")
                self.w("    log(77)")
                self.w("case _:")
                self.w("    log(78)")
            else:
                self.w(f"case {ps}{' if ' + self.cond(1) if r.random() < 0.6 else ''}:")
                self.w(f"    log({m})")
            self.ind -= 1
        else:
            self.w(f"assert_true({self.t('1')} == 1)" if 0 else f"{self.num(2)}")

    def body(self, d):
        self.ind += 1
        for _ in range(self.r.choice([1, 1, 2])):
            self.stmt(d)
        self.ind -= 1

    def nested(self, d):
        """A nested function with every kind of parameter; its defaults are evaluated when it is defined."""
        r = self.r
        f = self.name("f")
        ps, names = [], []
        po, pk, ko = r.choice([0, 0, 1, 2]), r.choice([0, 1, 2]), r.choice([0, 0, 1, 2])
        va = r.random() < 0.3
        seen = 0
        need = 0
        for k in range(po + pk):
            v = self.name("p")
            names.append(v)
            seen = seen or r.random() < 0.4
            need += 0 if seen else 1
            ps.append(f"{v}={self.num(1)}" if seen else v)
            if po and k == po - 1:
                ps.append("/")
        if va:
            rv = self.name("r")
            ps.append("*" + rv)
        elif ko:
            ps.append("*")
        kon, kneed = [], []
        for _ in range(ko):
            v = self.name("k")
            kon.append(v)
            if r.random() < 0.5:
                ps.append(f"{v}={self.num(1)}")
            else:
                kneed.append(v)
                ps.append(v)
        self.w(f"def {f}({', '.join(ps)}):")
        self.ind += 1
        s = " + ".join([f"{v} * {k + 2}" for k, v in enumerate(names + kon)] + [r.choice(self.nums)])
        l = self.name("l")
        self.w(f"{l} = {s}")
        if va:
            q = self.name("v")
            self.w(f"for {q} in {rv}:")
            self.w(f"    {l} = {l} * 2 + {q}")
        if r.random() < 0.4:
            self.w(f"if {l} > {self.num(0)}:")
            self.w(f"    return {l} - {r.choice(self.nums)}")
        self.w(f"return {l}")
        self.ind -= 1

        def call(d):
            n = r.randint(need, len(names))
            extra = 0
            if va and n == len(names):
                extra = r.choice([0, 1, 2])
            late = [v for v in names[max(n, po):] if r.random() < 0.3]
            if r.random() < 0.3 and not extra and n > po:
                late = [names[n - 1], *late]
                n -= 1
            # keyword for required ones that are skipped positionally
            ks = late + kneed + [k for k in kon if k not in kneed and r.random() < 0.5]
            r.shuffle(ks)
            a = self.args(n + extra, d)
            return f"{f}({', '.join(([a] if a else []) + [f'{k}={self.num(d)}' for k in ks])})"

        self.w(f"{r.choice(self.nums)} = {self.num(1)}")
        self.w(f"log({call(1)})")
        self.w(f"{r.choice(self.nums)} += {self.num(0)}")
        self.w(f"log({call(0)})")
        if self.ind == 1:
            self.locs.append(call)

    def program(self):
        r = self.r
        for k, v in enumerate("abn"):
            self.w(f"{v} = inp({k})")
        self.nums = ["a", "b"]
        self.w("x = 3")
        self.nums.append("x")
        self.w("p = P(a, 2)")
        self.w("q = P(5, b)")
        self.w("s = S(b)")
        self.recs = ["p", "q"]
        self.w("u = Array(a, b, 7)")
        self.w("w = Array(1, 2, 3)")
        self.arrs = ["u", "w"]
        for _ in range(r.choice([3, 4, 5])):
            self.stmt(2)
        for v in self.nums + ["p.x", "p.y", "q.x", "q.y"] + [f"u[{k}]" for k in range(3)] + [f"w[{k}]" for k in range(3)]:
            self.w(f"log({v})")
        src = HEAD + "def main():\n" + "\n".join(self.lines) + "\n"
        return Prog(src, [(-2, 4, True), (-2, 4, True), (0, 2, True)], real=M.real_ns, oracle=M.oracle_ns)


def order(seed):
    return Gen(seed).program()
