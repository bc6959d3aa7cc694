"""Random programs over ranges, iterators, generators and their consumers (same source on Python's own iteration
protocol and on the compiled iterators)."""

import random

from . import femodel as M
from . import pysym
from . import sym as S
from .fe import Prog
from .pysym import N


class MRange(M.PSeq):
    """Python's range with run-time bounds, as the sequence of the values it denotes (compared by content)."""

    def __init__(self, *a):
        for x in a:
            if isinstance(x, N):
                pysym.PATH.assume(S.intlike(x.t), "range argument is an integer")
            elif isinstance(x, float) and x != int(x):
                raise S.Cut("range of a fraction")
        self.start, self.stop, self.step = (0, a[0], 1) if len(a) == 1 else (*a, 1) if len(a) == 2 else a
        if isinstance(self.step, N):
            self.step = M.conc(self.step, -6, 7)
            if self.step is None:
                raise S.Cut("large step")
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")
        self.up = bool(self.step > 0)
        self.cache = []
        self.done = False

    def grow(self):
        if self.done:
            return False
        v = self.start + len(self.cache) * self.step
        if (v < self.stop) if self.up else (v > self.stop):
            if len(self.cache) >= 24:
                raise S.Cut("oracle loop bound")
            self.cache.append(v)
            return True
        self.done = True
        return False

    def all(self):
        while self.grow():
            pass
        return self.cache

    def size(self):
        return len(self.all())

    def get(self, k):
        return self.all()[k]

    def items(self):
        return list(self.all())

    def __iter__(self):
        k = 0
        while k < len(self.cache) or self.grow():
            yield self.cache[k]
            k += 1


def p_map(f, *its):
    for a in zip(*its):
        yield f(*a)


def oracle_ns():
    return {**M.oracle_ns(), "range": MRange, "map": p_map}


class Iter:
    def __init__(self, seed):
        self.r = random.Random(seed * 29 + 5)
        self.lines = []
        self.ind = 1
        self.uid = 0
        self.rt = ["a", "b", "c"]
        self.seqs = []  # array-like variables with int elements
        self.gens = []  # generator function names: (name, element shape)
        self.key = 100
        self.fuel = 0

    def w(self, s):
        self.lines.append("    " * self.ind + s)

    def name(self, p):
        self.uid += 1
        return f"{p}{self.uid}"

    def small(self):
        r = self.r
        return r.choice(self.rt) if r.random() < 0.6 else str(r.choice([0, 1, 2, 3, -1]))

    def tr(self, e):
        if self.r.random() < 0.35:
            self.key += 1
            return f"tr({self.key}, {e})"
        return e

    def cond(self, vs):
        r = self.r
        v = r.choice(vs) if vs else r.choice(self.rt)
        return self.trb(f"{v} {r.choice(['<', '>', '!=', '=='])} {self.small()}" if r.random() < 0.75 else f"{v} % 2 {r.choice(['==', '!='])} {r.choice(['0', '1'])}")

    def trb(self, e):
        return self.tr(e)

    def expr(self, vs):
        r = self.r
        v = r.choice(vs) if vs else self.small()
        z = r.random()
        if z < 0.35:
            e = v
        elif z < 0.7:
            e = f"{v} {r.choice('+-*')} {r.choice([*vs, self.small()])}"
        else:
            e = f"{v} * {r.choice([2, 3, -1])}"
        return self.tr(e)

    def rng(self):
        r = self.r
        z = r.choice([0, 1, 2, 3, 4, 6, 7, 8] if "p" in self.rt else range(9))
        s = self.small
        if z <= 1:
            return f"range({s()})"
        if z <= 3:
            return f"range({s()}, {s()})"
        if z == 4:
            return f"range({s()}, {s()}, -1)"
        if z == 5:
            return f"range({s()}, {s()}, {r.choice(['2', '-2', '3', 'c', '-c', 'b'])})"
        if z == 6:
            return f"range({r.choice([2, 3])})"
        if z == 7:
            return f"range({r.choice([3, 4])}, {r.choice([-1, 0])}, {r.choice([-1, -2])})"
        return f"range({r.choice([-1, 0])}, {r.choice([2, 3, 4])}, {r.choice([1, 2])})"

    def like(self):
        """An array-like with int elements."""
        if self.seqs and self.r.random() < 0.5:
            return self.r.choice(self.seqs)
        return self.rng()

    def shape(self, d):
        """Target text and names for an element of the given shape ('i' or a tuple of shapes)."""
        names = []

        def go(s, top):
            if s == "i":
                n = self.name("e")
                names.append(n)
                return n
            t = ", ".join(go(x, False) for x in s)
            return t if top else f"({t})"

        return go(d, True), names

    def source(self, depth, vs=(), shape=None):
        """(expression, element shape); evaluated once."""
        r = self.r
        vs = list(vs)
        self.fuel -= 1
        z = r.randrange(13) if depth > 0 and self.fuel > 0 else r.choice([0, 1, 2, 12])
        if z <= 1:
            return self.like(), "i"
        if z == 2:
            return f"reversed({self.like()})", "i"
        if z <= 4:
            return self.genexpr(depth, vs)
        if z == 5:
            e, s = self.source(depth - 1, vs)
            if s != "i":
                return e, s
            x = self.name("q")
            return f"map(lambda {x}: {self.expr([x])}, {e})", "i"
        if z == 6:
            e, s = self.source(depth - 1, vs)
            e2, s2 = self.source(depth - 1, vs)
            if s != "i" or s2 != "i":
                return e, s
            x, y = self.name("q"), self.name("q")
            return f"map(lambda {x}, {y}: {self.expr([x, y])}, {e}, {e2})", "i"
        if z == 7:
            e, s = self.source(depth - 1, vs)
            if s != "i":
                return e, s
            x = self.name("q")
            return f"filter(lambda {x}: {self.cond([x])}, {e})", "i"
        if z == 8:
            k = r.choice([2, 2, 3])
            es = [self.source(depth - 1, vs) for _ in range(k)]
            return f"zip({', '.join(e for e, _ in es)})", tuple(s for _, s in es)
        if z == 9:
            e, s = self.source(depth - 1, vs)
            st = r.choice(["", "", f", {self.small()}", f", start={self.small()}"])
            return f"enumerate({e}{st})", ("i", s)
        if z == 10:
            e, s = self.source(depth - 1, vs)
            return f"iter({e})", s
        if self.gens:
            n, s = r.choice(self.gens)
            return f"{n}({self.small()}, {self.small()})", s
        return self.like(), "i"

    def genexpr(self, depth, vs):
        r = self.r
        names = []
        parts = []
        for k in range(r.choice([1, 1, 1, 2])):
            if k and r.random() < 0.5:
                e, s = f"range({r.choice(names)})", "i"
            else:
                e, s = self.source(depth - 1 if k == 0 else 0, vs)
            t, ns = self.shape(s)
            names += ns
            parts.append(f"for {t} in {e}")
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                parts.append(f"if {self.cond(names)}")
        shape = "i" if r.random() < 0.8 else ("i", "i")
        el = self.expr(names) if shape == "i" else f"({self.expr(names)}, {self.expr(names)})"
        return f"({el} {' '.join(parts)})", shape

    def generator(self):
        r = self.r
        n = self.name("g")
        save, self.lines, self.ind, rt = self.lines, [], 1, self.rt
        self.rt = ["p", "q"]
        shape = "i" if r.random() < 0.8 else ("i", "i")

        once = []

        def emit(vs):
            if shape != "i" and once:
                return self.w(f"log({self.expr(vs)})")
            once.append(1)
            self.w(f"yield {self.expr(vs)}" if shape == "i" else f"yield {self.expr(vs)}, {self.expr(vs)}")

        def block(depth, vs, loops):
            for n in range(r.choice([1, 2])):
                z = r.randrange(9)
                if z <= 2 or depth == 0:
                    emit(vs)
                elif z == 3:
                    self.w(f"if {self.cond(vs)}:")
                    self.ind += 1
                    block(depth - 1, vs, loops)
                    self.ind -= 1
                    if r.random() < 0.5:
                        self.w("else:")
                        self.ind += 1
                        block(depth - 1, vs, loops)
                        self.ind -= 1
                elif z == 4:
                    v = self.name("k")
                    self.w(f"{v} = 0")
                    self.w(f"while {v} < {self.small()}:")
                    self.ind += 1
                    block(depth - 1, [*vs, v], True)
                    self.w(f"{v} += 1")
                    self.ind -= 1
                elif z == 5:
                    v = self.name("k")
                    self.w(f"for {v} in {self.rng()}:")
                    self.ind += 1
                    if r.random() < 0.4:
                        self.w(f"if {self.cond([v])}:")
                        self.w(f"    {r.choice(['continue', 'break', 'return'])}")
                    block(depth - 1, [*vs, v], True)
                    self.ind -= 1
                elif z == 6:
                    self.w(f"p {r.choice(['+=', '-='])} {r.choice([1, 2])}")
                elif z == 7:
                    self.w(f"log({self.expr(vs)})")
                elif shape == "i":
                    gens, self.gens = self.gens, [g for g in self.gens if g[1] == "i"]
                    seqs, self.seqs = self.seqs, []
                    self.w(f"yield from {self.source(0)[0]}")
                    self.gens, self.seqs = gens, seqs
                else:
                    emit(vs)

        block(2, ["p", "q"], False)
        if not any("yield" in x for x in self.lines):
            emit(["p", "q"])
        body = self.lines
        self.lines, self.rt = save, rt
        self.ind = 1
        self.head += [f"def {n}(p, q):", *body, ""]
        self.gens.append((n, shape))

    def consume(self):
        r = self.r
        self.fuel = 5
        e, s = self.source(r.choice([1, 2, 2, 3]))
        z = r.randrange(12)
        if z >= 5 and s != "i" or z <= 4:
            t, ns = self.shape(s)
            if r.random() < 0.3:
                it = self.name("it")
                self.w(f"{it} = {e}" if not e.startswith(("range", "reversed", "u", "v")) else f"{it} = iter({e})")
                if r.random() < 0.6:
                    x = self.name("x")
                    self.w(f"{x} = next({it})")
                    self.flat(x, s)
                    if r.random() < 0.3:
                        y = self.name("x")
                        self.w(f"{y} = next({it})")
                        self.flat(x, s)
                        self.flat(y, s)
                e = it
            self.w(f"for {t} in {e}:")
            self.ind += 1
            if r.random() < 0.45:
                self.w(f"if {self.cond(ns)}:")
                if r.random() < 0.4:
                    self.w(f"    log({self.expr(ns)})")
                self.w(f"    {r.choice(['continue', 'break', 'break'])}")
            for n in ns:
                self.w(f"log({n})")
            if r.random() < 0.3:
                self.w(f"{self.acc} += {self.expr(ns)}")
            if r.random() < 0.25:
                free = [v for v in "abc" if v not in e.replace("abs", "") and not e.startswith("it")]
                if free:
                    self.w(f"{r.choice(free)} {r.choice(['+=', '-='])} 1")
            self.ind -= 1
            if r.random() < 0.3:
                self.w("else:")
                self.w(f"    log({self.key})")
        elif z == 5:
            st = r.choice(["", f", {self.small()}", f", start={self.small()}"])
            self.w(f"log(sum({e}{st}))")
        elif z == 6:
            self.w(f"log({r.choice(['any', 'all'])}({e}))")
        elif z <= 8:
            k = r.choice(["", "", ", key=lambda m: -m", ", key=lambda m: m % 3"])
            d = r.choice(["", f", default={self.small()}", f", default={self.small()}"])
            self.w(f"log({r.choice(['max', 'min'])}({e}{k}{d}))")
        elif z == 9:
            self.w(f"log(next({e}))" if not e.startswith(("range", "reversed", "u", "v")) else f"log(next(iter({e})))")
        elif z == 10:
            x = self.name("q")
            self.w(f"log({r.choice(['any', 'all'])}({self.cond([x])} for {x} in {e}))")
        else:
            x = self.name("q")
            self.w(f"log(sum({self.tr(x)} for {x} in {e}))")

    def flat(self, x, s):
        if s == "i":
            self.w(f"log({x})")
        else:
            for k, y in enumerate(s):
                self.flat(f"{x}[{k}]", y)

    def program(self):
        r = self.r
        self.head = ["def tr(k, v):", "    log(k)", "    return v", ""]
        for _ in range(r.choice([0, 1, 1, 2])):
            self.generator()
        for k, v in enumerate("abc"):
            self.w(f"{v} = inp({k})")
        self.acc = "acc"
        self.w("acc = 0")
        for _ in range(r.choice([0, 1, 2])):
            n = self.name(r.choice("uv"))
            if n[0] == "u":
                self.w(f"{n} = Array({', '.join(self.small() for _ in range(r.choice([1, 2, 3])))})")
            else:
                self.w(f"{n} = VarArray[int, 4].new()")
                for _ in range(r.choice([1, 2])):
                    self.w(f"{n}.append({self.small()})")
                if r.random() < 0.5:
                    self.w("if a > 0:")
                    self.w(f"    {n}.append({self.small()})")
            self.seqs.append(n)
        for _ in range(r.choice([1, 1, 2])):
            self.consume()
        self.w("log(acc)")
        for v in "abc":
            self.w(f"log({v})")
        src = "\n".join(self.head) + "\ndef main():\n" + "\n".join(self.lines) + "\n"
        inputs = [(-2, 3, True), (-1, 3, True), (1, 2, True)]
        return Prog(src, inputs, real=M.real_ns, oracle=oracle_ns)


def iters(seed):
    return Iter(seed).program()


def ranges(seed):
    """Range queries on run-time bounds."""
    r = random.Random(seed * 31 + 7)
    w = []
    rt = ["a", "b", "c"]

    def arg(k):
        z = r.random()
        if z < 0.7:
            return r.choice(rt)
        if k == 2:
            return str(r.choice([1, -1, 2, -2, 3, -3]))
        return str(r.choice([0, 1, -1, 2, 5, -4]))

    def rng():
        n = r.choice([1, 2, 3, 3, 3])
        return f"range({', '.join(arg(k) for k in range(n))})"

    for k, v in enumerate("abcd"):
        w.append(f"{v} = inp({k})")
    if r.random() < 0.4:
        x = r.choice(["a", "b", "0", "1"])
        steps = r.choice([("1", "2"), ("1", "c"), ("c", "d"), ("2", "-1"), ("c", "-c"), ("2", "3"), ("-1", "-2")])
        w.append(f"u = range({x}, {r.choice(['a', 'b', 'c', '2'])}, {steps[0]})")
        w.append(f"v = range({r.choice([x, x, x, 'a', '0'])}, {r.choice(['a', 'b', 'c', 'd', '3'])}, {steps[1]})")
        w.append(f"log(1 if u {r.choice(['==', '!='])} v else 0)")
    else:
        w.append(f"u = {rng()}")
        w.append(f"v = {rng()}")
    for _ in range(r.choice([2, 3, 4])):
        x = r.choice(["u", "u", "v"])
        z = r.randrange(12)
        y = r.choice([x, x, f"reversed({x})"])
        p = r.choice(["d", "d", "a", "b", "0", "1", "-1"])
        if z == 0:
            w.append(f"log(len({y}))")
        elif z <= 2:
            w.append(f"log({y}[{p}])")
        elif z <= 5:
            w.append(f"log(1 if {p} {r.choice(['in', 'in', 'not in'])} {x} else 0)")
        elif z == 6:
            w.append(f"log(1 if u {r.choice(['==', '!='])} v else 0)")
        elif z == 7:
            w.append(f"log({y}.{r.choice(['count', 'index', 'last_index'])}({p}))")
        elif z == 8:
            w += [f"for e in {y}:", "    log(e)"]
        elif z == 9:
            w += [f"for i, e in enumerate({y}, {p}):", "    log(i)", "    log(e)"]
        elif z == 10:
            w.append(f"log(sum({y}))")
        else:
            w.append(f"log({r.choice(['max', 'min'])}({y}, default=99))")
    src = "def main():\n" + "\n".join("    " + x for x in w) + "\n"
    b = r.choice([2, 3, 3, 5])
    inputs = [(-b, b, True), (-b, b, True), (-3, 3, True), (-5, 5, r.random() < 0.7)]
    return Prog(src, inputs, real=M.real_ns, oracle=oracle_ns, checks="TERMINATE" if r.random() < 0.5 else None)
