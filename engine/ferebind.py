"""Random programs in which names are bound again inside loops and branches: numbers, records, tuples and nested functions.

The compiler may refuse such a program (a non-numeric name with more than one active definition); when it accepts
one, the program means what it means in Python.
"""

import random

from . import femodel as M
from .fe import Prog

HEAD = """class P(Record):
    x: int
    y: int


"""


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed * 77 + 5)
        self.lines = []
        self.ind = 1
        self.uid = 0
        self.kinds = {}
        self.loops = 0
        self.budget = 9

    def w(self, s):
        self.lines.append("    " * self.ind + s)

    def name(self, p):
        self.uid += 1
        return f"{p}{self.uid}"

    def of(self, kind):
        return [k for k, v in self.kinds.items() if v == kind]

    def num(self, d=1):
        r = self.r
        z = r.random()
        if d and z < 0.25:
            return f"({self.num(0)} {r.choice(['+', '-', '*'])} {self.num(0)})"
        if z < 0.5 and self.of("num"):
            return r.choice(self.of("num"))
        if z < 0.8:
            return r.choice(["a", "b", "1", "2", "3", "5"])
        return self.read(r.choice(list(self.kinds)))

    def read(self, v):
        k = self.kinds[v]
        return {"num": v, "rec": f"{v}.{self.r.choice('xy')}", "tup": f"{v}[{self.r.randrange(2)}]", "fn": f"{v}()"}[k]

    def cond(self):
        r = self.r
        return f"{self.num(0)} {r.choice(['<', '>', '==', '!=', '<='])} {self.num(0)}"

    def bind(self, v, cap=True):
        r = self.r
        k = self.kinds[v]
        z = r.random()
        if k == "num":
            if z < 0.35:
                self.w(f"{v} = {self.num()}")
            elif z < 0.5:
                self.w(f"{v} += {self.num()}")
            elif z < 0.6:
                self.w(f"log(({v} := {self.num()}))")
            elif z < 0.7 and len(self.of("num")) > 1:
                o = r.choice([n for n in self.of("num") if n != v])
                self.w(f"{v}, {o} = {o}, {self.num()}")
            else:
                self.capture(v)
        elif k == "rec":
            if z < 0.5:
                self.w(f"{v} = P({self.num()}, {self.num()})")
            elif z < 0.62:
                self.w(f"{v} = {r.choice(self.of('rec'))}")
            elif z < 0.7:
                self.w(f"{v}.x = {self.num()}")
            elif z < 0.8:
                self.w(f"{v} @= P({self.num()}, {r.choice(['1', 'a', 'b'])})")
            elif z < 0.9:
                self.w(f"match P({self.num()}, {self.num()}):")
                self.w(f"    case {r.choice([f'P() as {v}', f'P(x={r.randint(0, 3)}) as {v}', v])}:")
                self.w(f"        {r.choice(['pass', f'log({v}.y)'])}")
            else:
                self.w(f"{v} = +{r.choice(self.of('rec'))}")
        elif k == "tup":
            self.w(f"{v} = {r.choice([f'({self.num()}, {self.num()})', r.choice(self.of('tup'))])}")
        else:
            self.w(f"def {v}():")
            self.w(f"    return {r.choice(['1', '2', 'a', '7'])}")

    def capture(self, v):
        r = self.r
        self.w(f"match {self.num()}:")
        if r.random() < 0.5:
            self.w(f"    case {r.randint(-1, 3)}:")
            self.w(f"        {r.choice(['pass', f'log({v})'])}")
        self.w("    case " + r.choice([f"{v}:", f"Num() as {v}:", f"({r.randint(0, 2)} | {r.randint(3, 5)}) as {v}:", f"{v} if {self.cond()}:", f"Num({v}):"]))
        self.w(f"        {r.choice(['pass', f'log({v})', f'{v} += 1'])}")

    def block(self, d):
        self.ind += 1
        n = len(self.lines)
        for _ in range(self.r.choice([1, 1, 2, 3])):
            self.stmt(d)
        if len(self.lines) == n:
            self.w("pass")
        self.ind -= 1

    def stmt(self, d):
        r = self.r
        self.budget -= 1
        z = r.random()
        if z < 0.22 or (z < 0.3 and not self.loops):
            self.w(f"log({self.read(r.choice(list(self.kinds)))})")
        elif z < 0.3:
            self.w(f"if {self.cond()}:")
            if r.random() < 0.4:
                self.ind += 1
                self.bind(r.choice(list(self.kinds)))
                self.ind -= 1
            self.w(f"    {r.choice(['break', 'continue'])}")
        elif z < 0.58 or d <= 0 or self.budget < 0:
            self.bind(r.choice(list(self.kinds)))
        elif z < 0.68:
            self.w(f"if {self.cond()}:")
            self.block(d - 1)
            if r.random() < 0.5:
                self.w("else:")
                self.block(d - 1)
        else:
            self.loop(d)

    def loop(self, d):
        r = self.r
        self.loops += 1
        y = r.random()
        c = self.name("c")
        if y < 0.35:
            self.w(f"{c} = 0")
            self.w(r.choice([f"while {c} < {r.choice([2, 3])}:", f"while {c} < n:", f"while {c} < 3 and {self.cond()}:"]))
            self.w(f"    {c} += 1")
        elif y < 0.45:
            self.w(f"{c} = 0")
            self.w("while True:")
            self.w(f"    {c} += 1")
            self.w(f"    if {c} > {r.choice(['n', '2'])}:")
            self.w("        break")
        elif y < 0.8:
            t = r.choice(self.of("num")) if self.of("num") and r.random() < 0.3 else c
            self.w(f"for {t} in range({r.choice(['n', '2', '3'])}):")
        else:
            v = r.choice([None, None, *self.of("rec")])
            if v:
                self.w(f"for {v} in (P({self.num()}, 1), P(2, {self.num()})):")
            else:
                self.w(f"for {c} in ({self.num()}, {self.num()}):")
        self.block(d - 1)
        self.loops -= 1
        if r.random() < 0.15 and not 0.35 <= y < 0.45:
            self.w("else:")
            self.block(0)

    def program(self):
        r = self.r
        self.w("a = inp(0)")
        self.w("b = inp(1)")
        self.w("n = inp(2)")
        for k in r.choice([["num", "rec"], ["num", "num", "rec"], ["rec", "rec"], ["num", "tup"], ["num", "fn"], ["num", "num"], ["num", "rec", "fn"], ["num", "num", "num"]]):
            v = self.name(k[0])
            if k == "num":
                self.w(f"{v} = {r.choice(['0', '1', 'a', 'b'])}")
            elif k == "rec":
                self.w(f"{v} = {r.choice(self.of('rec') * 1 + ['P(1, 2)', 'P(a, 3)'])}")
            elif k == "tup":
                self.w(f"{v} = {r.choice(['(1, 2)', '(a, b)'])}")
            else:
                self.w(f"def {v}():")
                self.w("    return 4")
            self.kinds[v] = k
        d = r.choice([1, 2, 2, 3])
        for _ in range(r.choice([0, 1])):
            self.stmt(d)
        self.loop(d)
        for _ in range(r.choice([0, 1, 2])):
            self.stmt(d)
        # most names are read at the end
        for v in self.kinds:
            if r.random() < 0.7:
                self.w(f"log({self.read(v)})")
        src = HEAD + "def main():\n" + "\n".join(self.lines) + "\n"
        p = Prog(src, [(-1, 4, True), (-1, 4, True), (0, 3, True)], real=M.real_ns, oracle=M.oracle_ns)
        if set(self.kinds.values()) != {"num"}:
            p.refusable = "conflicting definitions"
        return p


def rebinds(seed):
    return Gen(seed).program()
