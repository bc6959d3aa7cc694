"""Random arithmetic programs: the same operation on compile-time constants, run-time values and mixtures of both."""

import random

from .fe import Prog

KINT = [0, 1, 2, 3, -1, -2, 4, 5, -3, 7]
KFRAC = ["0.5", "1.5", "-0.5", "2.25", "-2.5", "0.75"]


class Arith:
    def __init__(self, seed):
        self.r = random.Random(seed * 13 + 5)
        self.lines = []
        self.rt = []  # run-time variables
        self.ct = []  # names bound once to a constant
        self.tag = 0
        self.ind = 1
        self.uid = 0

    def w(self, s):
        self.lines.append("    " * self.ind + s)

    def const(self):
        r = self.r
        if self.ct and r.random() < 0.3:
            return r.choice(self.ct)
        if r.random() < 0.72:
            v = str(r.choice(KINT))
        elif r.random() < 0.85:
            v = r.choice(KFRAC)
        else:
            v = r.choice(["True", "False", "10", "100", "-7", "2.0000001", "0.99999994", "-1.0000001"])
        return f"({v})" if v.startswith("-") else v

    def atom(self):
        return self.r.choice(self.rt) if self.r.random() < 0.62 else self.const()

    def exactdiv(self):
        """A divisor whose quotients floor exactly."""
        return self.r.choice(["2", "3", "-2", "-3", "4", "0.5", "(-0.5)", "1", "(-1)", "5", *self.rt[:2], *self.ints])

    def num(self, d=2):
        r = self.r
        if d <= 0 or r.random() < 0.18:
            return self.atom()
        e = lambda: self.num(d - 1)  # noqa: E731
        z = r.random()
        if z < 0.30:
            return f"({e()} {r.choice('+-*+-')} {e()})"
        if z < 0.40:
            return f"({e()} / {e() if r.random() < 0.5 else self.exactdiv()})"
        if z < 0.49:
            return f"({self.intexpr(d - 1)} // {self.exactdiv()})"
        if z < 0.58:
            return f"({e()} % {self.exactdiv()})"
        if z < 0.64:
            return r.choice(
                [
                    lambda: f"({e()} ** {r.choice(['2', '2', '3', '1', '0', '(-1)'])})",
                    lambda: f"({r.choice(['2', '1', '3', '0'])} ** {self.intexpr(0)})",
                    lambda: f"({self.atom()} ** {self.const()})",
                ]
            )()
        if z < 0.69:
            return f"({r.choice(['-', '-', '+'])}{e()})"
        if z < 0.75:
            return f"{r.choice(['abs', 'int', 'float', 'round', 'math.floor', 'math.ceil', 'math.trunc'])}({e()})"
        if z < 0.83:
            n = r.choice([2, 2, 3])
            key = r.choice(["", "", "", ", key=lambda q: -q", ", key=lambda q: q * q", ", key=lambda q: q % 2", ", key=abs"])
            if key.endswith("abs"):
                key = ""
            xs = ", ".join(e() for _ in range(n))
            return f"{r.choice(['min', 'max'])}({'(' + xs + ')' if r.random() < 0.2 else xs}{key})"
        if z < 0.88:
            return f"({e()} if {self.cond(d - 1)} else {e()})"
        if z < 0.93:
            return self.cmp(d - 1)
        if z < 0.97:
            return f"sum(({e()}, {e()}){r.choice(['', '', f', {self.atom()}', f', start={self.atom()}'])})".replace(", start=", ", ")
        return f"{r.choice(['math.sin', 'math.cos', 'math.degrees', 'math.radians', 'math.atan'])}({self.atom()})"

    ints = ()

    def intexpr(self, d):
        r = self.r
        if d <= 0 or not self.ints:
            return r.choice([*self.ints, str(r.choice([1, 2, 3, 5, 7]))])
        return f"({self.intexpr(d - 1)} {r.choice('+-*')} {self.intexpr(d - 1)})"

    def tup(self, d, k):
        return f"({', '.join(self.num(d) for _ in range(k))},)"

    def cmp(self, d):
        r = self.r
        if r.random() < 0.08:
            a, b = self.tup(0, r.choice([1, 2, 2, 3])), self.tup(0, r.choice([1, 2, 2, 3]))
            if r.random() < 0.5:
                # equal leading elements
                x = self.atom()
                a, b = f"({x}, {a[1:]}", f"({x}, {b[1:]}"
            return f"({a} {r.choice(['<', '<=', '>', '>=', '==', '!='])} {b})"
        s = self.num(d)
        for _ in range(r.choice([1, 1, 2, 3])):
            s += f" {r.choice(['<', '<=', '>', '>=', '==', '!='])} {self.num(d)}"
        return f"({s})"

    def cond(self, d):
        r = self.r
        z = r.random()
        if d <= 0 or z < 0.5:
            return self.cmp(0)
        if z < 0.7:
            return f"({self.cond(d - 1)} {r.choice(['and', 'or'])} {self.cond(d - 1)})"
        if z < 0.85:
            return f"(not {self.cond(d - 1)})"
        if z < 0.93:
            return f"bool({self.num(0)})"
        return f"({self.num(0)} {r.choice(['in', 'not in'])} ({self.atom()}, {self.atom()}))"

    def stmt(self):
        r = self.r
        z = r.random()
        self.uid += 1
        if z < 0.35:
            return self.w(f"log({self.num(r.choice([1, 1, 2, 2, 3]))})")
        if z < 0.5:
            v = f"v{self.uid}"
            self.w(f"{v} = {self.num(2)}")
            self.rt.append(v)
            return None
        if z < 0.62:
            v = f"k{self.uid}"
            self.w(f"{v} = {self.const()}")
            self.ct.append(v)
            return None
        if z < 0.84:
            v = r.choice([x for x in self.rt if x not in self.ints] or self.rt)
            op = r.choice(["+=", "-=", "*=", "/=", "%=", "+=", "-=", "*="])
            rhs = self.exactdiv() if op in ("/=", "%=") else self.num(1)
            self.w(f"{v} {op} {rhs}")
            return self.w(f"log({v})")
        if z < 0.88:
            i = r.choice(self.ints or ["7"])
            v = f"v{self.uid}"
            self.w(f"{v} = {i}")
            self.w(f"{v} {r.choice(['//=', '**='])} {r.choice(['2', '3', '1'])}")
            self.rt.append(v)
            return self.w(f"log({v})")
        if z < 0.94:
            return self.w(f"log(1 if {self.cond(2)} else 0)")
        return self.w(f"log({self.cmp(1)})")

    def program(self):
        r = self.r
        self.lines.append("def main():")
        inputs = []
        self.ints = []
        for k in range(r.choice([2, 3])):
            v = "abc"[k]
            self.w(f"{v} = {'inp' if r.random() < 0.75 else 'rd'}({k})" if False else f"{v} = inp({k})")
            integer = r.random() < 0.6
            inputs.append((-4, 4, integer))
            self.rt.append(v)
            if integer:
                self.ints.append(v)
        self.ints = tuple(self.ints)
        for _ in range(r.choice([3, 4, 5])):
            self.stmt()
        for v in self.rt:
            self.w(f"log({v})")
        return Prog("\n".join(self.lines) + "\n", inputs)


def arith(seed):
    return Arith(seed).program()
