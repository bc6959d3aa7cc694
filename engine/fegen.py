"""Random programs in the supported Python subset for the frontend checks (seeded; control flow and scoping)."""

import random

from .fe import Prog


class Gen:
    def __init__(self, seed, tier="quick", nvars=4, stmts=7, depth=2, feats=None):
        self.r = random.Random(seed)
        self.lines = []
        self.ind = 0
        self.uid = 0
        self.vars = []
        self.helpers = []  # (name, nparams, ndefaults)
        self.gens = []  # (name, nparams)
        self.budget = stmts
        self.depth = depth
        self.loops = 0  # loop nesting at this point
        self.infn = 0
        self.feats = feats
        self.locals = 0
        self.trace = True

    def w(self, s):
        self.lines.append("    " * self.ind + s)

    def name(self, p="u"):
        self.uid += 1
        return f"{p}{self.uid}"

    # expressions ------------------------------------------------------------
    def atom(self):
        r = self.r.random()
        if r < 0.68:
            return self.r.choice(self.vars)
        if r < 0.95:
            return str(self.r.choice([0, 1, 2, 3, 4, 1, 2, -1]))
        return self.r.choice(["0.5", "-2", "7"])

    def num(self, d=2, pure=False):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            return self.atom()
        z = r.random()
        e = lambda: self.num(d - 1, pure)  # noqa: E731
        if z < 0.36:
            return f"({e()} {r.choice(['+', '-', '+', '-', '*'])} {e()})"
        if z < 0.42:
            return f"({e()} {r.choice(['%', '//'])} {r.choice([2, 3, -2])})"
        if z < 0.47:
            return f"(-{e()})"
        if z < 0.52:
            return f"{r.choice(['min', 'max'])}({e()}, {e()})"
        if z < 0.56:
            return f"abs({e()})"
        if z < 0.68:
            return f"({e()} if {self.cond(d - 1, pure)} else {e()})"
        if z < 0.76 and not pure:
            return f"tr({r.randint(100, 199)}, {e()})"
        if z < 0.82 and not pure and self.assignable():
            return f"({r.choice(self.assignable())} := {e()})"
        if z < 0.94 and not pure and self.helpers:
            return self.call(d)
        if z < 0.97:
            return f"(lambda p, q={self.atom()}: {r.choice(['p + q', 'p - q', 'q * p', 'p if p > q else q'])})({e()})"
        return self.atom()

    def assignable(self):
        return [v for v in self.vars if v not in self.frozen]

    frozen = ()

    def call(self, d):
        n, params, nd = self.r.choice(self.helpers)
        k = self.r.randint(len(params) - nd, len(params))
        args = [self.num(d - 1) for _ in range(k)]
        if k and self.r.random() < 0.25:
            j = self.r.randrange(k)
            kw = [f"{p}={a}" for p, a in zip(params[j:k], args[j:])]
            self.r.shuffle(kw)
            args = args[:j] + kw
        return f"{n}({', '.join(args)})"

    def cmp(self, d, pure=False):
        r = self.r
        n = r.choice([1, 1, 1, 1, 2, 3])
        s = self.num(d, pure)
        for _ in range(n):
            s += f" {r.choice(['<', '<=', '>', '>=', '==', '!='])} {self.num(d, pure)}"
        return f"({s})"

    def cond(self, d=1, pure=False):
        r = self.r
        z = r.random()
        if d <= 0 or z < 0.5:
            return self.cmp(max(0, d - 1), pure)
        if z < 0.64:
            return f"({self.cond(d - 1, pure)} and {self.cond(d - 1, pure)})"
        if z < 0.78:
            return f"({self.cond(d - 1, pure)} or {self.cond(d - 1, pure)})"
        if z < 0.83:
            return f"({self.cond(d - 1, pure)} {r.choice(['and', 'or'])} {self.cond(0, pure)} {r.choice(['and', 'or'])} {self.cond(0, pure)})"
        if z < 0.90:
            return f"(not {self.cond(d - 1, pure)})"
        if z < 0.94:
            return f"({self.num(d - 1, pure)} {r.choice(['in', 'not in'])} ({self.atom()}, {self.atom()}, {r.randint(0, 3)}))"
        if z < 0.97 and not pure:
            return f"tr({r.randint(200, 299)}, {self.cmp(0)})"
        return self.r.choice(["True", "False", f"bool({self.atom()})"])

    def truthy(self):
        return self.num(1) if self.r.random() < 0.12 else self.cond(2)

    # statements -------------------------------------------------------------
    def block(self, depth, n=None):
        self.ind += 1
        m = len(self.lines)
        for _ in range(n or self.r.choice([1, 1, 2, 2, 3])):
            self.stmt(depth)
        if len(self.lines) == m:
            self.w("pass")
        self.ind -= 1

    def assign(self):
        r = self.r
        a = self.assignable()
        if not a:
            return self.w(f"log({self.num(1)})")
        z = r.random()
        v = r.choice(a)
        if z < 0.5:
            self.w(f"{v} = {self.num(2)}")
        elif z < 0.8:
            self.w(f"{v} {r.choice(['+=', '-=', '+=', '*='])} {self.num(1)}")
        elif z < 0.9 and len(a) >= 2:
            p = r.sample(a, 2)
            src = r.choice([f"{p[1]}, {p[0]}", f"{self.num(1)}, {self.num(1)}", f"(({p[1]}), {self.num(1)})"])
            self.w(f"{p[0]}, {p[1]} = {src}")
        elif z < 0.96 and len(a) >= 2:
            p = r.sample(a, 2)
            self.w(f"{p[0]} = {p[1]} = {self.num(1)}")
        else:
            self.w(f"{v}: int = {self.num(1)}")

    def stmt(self, depth):
        r = self.r
        self.budget -= 1
        z = r.random()
        if depth <= 0 or self.budget < 0 or z < 0.30:
            y = r.random()
            if self.loops and y < 0.16:
                c = r.choice(["break", "continue"])
                if r.random() < 0.8:
                    self.w(f"if {self.cond(1)}:")
                    self.ind += 1
                    if r.random() < 0.4:
                        self.assign()
                    self.w(c)
                    self.ind -= 1
                else:
                    self.w(c)
                return
            if self.infn and y < 0.28:
                self.w(f"if {self.cond(1)}:")
                self.ind += 1
                self.w(f"return {self.ret()}")
                self.ind -= 1
                return
            if y < 0.5:
                return self.w(f"log({self.num(2)})")
            return self.assign()
        if z < 0.46:
            self.w(f"if {self.truthy()}:")
            self.block(depth - 1)
            while r.random() < 0.3:
                self.w(f"elif {self.truthy()}:")
                self.block(depth - 1)
            if r.random() < 0.55:
                self.w("else:")
                self.block(depth - 1)
            return
        if z < 0.60:
            return self.loop_while(depth)
        if z < 0.72:
            return self.loop_for(depth)
        if z < 0.86:
            return self.match(depth)
        if z < 0.92:
            return self.nested(depth)
        if z < 0.96 and self.gens and not self.ingen:
            return self.loop_gen(depth)
        return self.assign()

    ingen = False

    def ret(self):
        return "" if self.ingen else self.num(1)

    def orelse(self, depth):
        if self.r.random() < 0.4:
            self.w("else:")
            self.loops, k = 0, self.loops
            # break/continue in the else clause would concern the outer loop
            self.loops = self.outer_loops
            self.block(depth - 1, 1)
            self.loops = k

    outer_loops = 0

    def inside(self, f):
        k, o = self.loops, self.outer_loops
        self.outer_loops = k
        self.loops = k + 1
        f()
        self.loops = k
        return o

    def loop_while(self, depth):
        r = self.r
        c = self.name("c")
        self.w(f"{c} = 0")
        n = r.choice([1, 2, 2, 3])
        z = r.random()
        if z < 0.5:
            self.w(f"while {c} < {n} and {self.cond(1)}:" if r.random() < 0.5 else f"while {self.cond(1)} and {c} < {n}:")
        elif z < 0.75:
            self.w(f"while {c} < {r.choice([n, 'min(' + r.choice(self.vars) + ', 3)'])}:")
        elif z < 0.88:
            self.w("while True:")
        else:
            self.w(f"while ({c} := {c} + 1) < {n + 1}:")
        fr = self.frozen
        self.frozen = (*fr, c)

        def go():
            self.ind += 1
            if 0.75 <= z < 0.88:
                self.w(f"if {c} >= {n}:")
                self.w("    break")
            if z < 0.88:
                self.w(f"{c} += 1")
            self.vars.append(c)
            self.ind -= 1
            self.block(depth - 1)
            self.vars.remove(c)

        o = self.inside(go)
        if not 0.75 <= z < 0.88:
            self.orelse_(depth, o)
        self.outer_loops = o
        self.frozen = fr

    def orelse_(self, depth, o):
        if self.r.random() < 0.4:
            self.w("else:")
            self.outer_loops = o
            self.block(depth - 1, 1)

    def loop_for(self, depth):
        r = self.r
        a = self.assignable()
        tgt = r.choice(a) if a and r.random() < 0.3 else self.name("i")
        new = tgt not in self.vars
        z = r.random()
        if z < 0.35:
            it = f"range({r.choice(['3', '2', f'min({r.choice(self.vars)}, 3)'])})"
        elif z < 0.55:
            lo, st = r.choice([0, 1, 2, -1]), r.choice([1, 1, 2, -1])
            k = r.choice([1, 2, 3])
            hi = lo + k * st
            it = f"range({lo}, {hi if r.random() < 0.6 else ('min' if st > 0 else 'max') + '(' + r.choice(self.vars) + ', ' + str(hi) + ')'}, {st})"
        elif z < 0.85:
            it = f"({', '.join(self.num(1) for _ in range(r.choice([1, 2, 3])))},)"
        elif z < 0.93:
            it = f"enumerate(({self.num(1)}, {self.num(1)}))"
            tgt = f"{self.name('i')}, {self.name('i')}"
        else:
            it = f"zip((1, {self.atom()}), ({self.num(1)}, {self.atom()}, 5))"
            tgt = f"{self.name('i')}, {self.name('i')}"
        self.w(f"for {tgt} in {it}:")

        def go():
            names = [t.strip() for t in tgt.split(",")]
            added = [t for t in names if t not in self.vars]
            self.vars += added
            self.block(depth - 1)
            for t in added:
                self.vars.remove(t)

        o = self.inside(go)
        self.orelse_(depth, o)
        self.outer_loops = o

    def loop_gen(self, depth):
        n, k = self.r.choice(self.gens)
        tgt = self.name("i")
        self.w(f"for {tgt} in {n}({', '.join(self.num(1) for _ in range(k))}):")

        def go():
            self.vars.append(tgt)
            self.block(depth - 1)
            self.vars.remove(tgt)

        o = self.inside(go)
        self.orelse_(depth, o)
        self.outer_loops = o

    def pat(self, d=1):
        r = self.r
        z = r.random()
        if z < 0.5:
            return str(r.randint(-1, 4))
        if z < 0.75:
            return " | ".join(str(x) for x in r.sample(range(-1, 6), r.choice([2, 3])))
        return "_"

    def match(self, depth):
        r = self.r
        z = r.random()
        if z < 0.55:
            self.w(f"match {self.num(1)}:")
            caps = lambda: [None, self.name("m")][r.random() < 0.3]  # noqa: E731
            for k in range(r.choice([1, 2, 3])):
                p = self.pat()
                if p == "_":
                    p = "0"
                cap = caps()
                if cap and self.assignable() and r.random() < 0.35:
                    cap = r.choice(self.assignable())
                if cap:
                    p = r.choice([f"({p}) as {cap}", cap, f"Num({cap})", f"Num() as {cap}"])
                irrefutable = cap and (p == cap or p.startswith("Num"))
                added = [cap] if cap and cap not in self.vars else []
                self.vars += added
                guard = f" if {self.cond(1)}" if irrefutable or r.random() < 0.3 else ""
                self.w(f"    case {p}{guard}:")
                self.ind += 1
                self.block(depth - 1)
                self.ind -= 1
                for c in added:
                    self.vars.remove(c)
            if r.random() < 0.6:
                self.w("    case _:")
                self.ind += 1
                self.block(depth - 1)
                self.ind -= 1
        else:
            n = r.choice([2, 2, 3])
            self.w(f"match ({', '.join(self.num(1) for _ in range(n))}):")
            for k in range(r.choice([1, 2, 3])):
                ps, caps = [], []
                for _ in range(n if r.random() < 0.85 else r.choice([2, 3])):
                    y = r.random()
                    if y < 0.3:
                        c = self.name("m")
                        caps.append(c)
                        ps.append(c)
                    elif y < 0.4:
                        c = self.name("m")
                        caps.append(c)
                        ps.append(f"({r.randint(0, 2)} | {r.randint(3, 4)}) as {c}")
                    else:
                        ps.append(self.pat())
                if all(not p[0].isdigit() and p[0] not in "-(" for p in ps):
                    ps[0] = "1"
                    caps = [c for c in caps if c in " ".join(ps).replace("(", " ").split()]
                p = f"({', '.join(ps)})"
                if r.random() < 0.15 and not caps:
                    p += f" | ({', '.join(['2'] * n)})"
                self.vars += caps
                guard = f" if {self.cond(1)}" if r.random() < 0.25 else ""
                self.w(f"    case {p}{guard}:")
                self.ind += 1
                self.block(depth - 1)
                self.ind -= 1
                for c in caps:
                    self.vars.remove(c)
            if r.random() < 0.6:
                self.w("    case _:")
                self.ind += 1
                self.block(depth - 1)
                self.ind -= 1

    def nested(self, depth):
        """A nested function reading variables of the enclosing one."""
        r = self.r
        f = self.name("fn")
        ps = [self.name("p") for _ in range(r.choice([0, 1, 2]))]
        nd = r.randint(0, len(ps))
        sig = [p if k < len(ps) - nd else f"{p}={self.atom()}" for k, p in enumerate(ps)]
        self.w(f"def {f}({', '.join(sig)}):")
        save = self.vars, self.frozen, self.loops, self.infn, self.ingen, self.budget, self.outer_loops
        fr = list(self.vars)
        self.vars = self.vars + ps
        self.frozen = tuple(fr)
        self.loops, self.infn, self.ingen, self.outer_loops = 0, 1, False, 0
        self.budget = 2
        self.ind += 1
        loc = self.name("l")
        self.w(f"{loc} = {self.num(1, pure=True)}")
        self.vars.append(loc)
        for _ in range(r.choice([0, 1, 2])):
            self.stmt(min(depth - 1, 1))
        self.w(f"return {self.num(1)}")
        self.ind -= 1
        self.vars, self.frozen, self.loops, self.infn, self.ingen, self.budget, self.outer_loops = save
        self.helpers.append((f, ps, nd))
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < 0.5:
                self.assign()
            self.w(f"log({self.call(2)})")
        self.helpers.pop()

    def function(self, gen=False):
        r = self.r
        f = self.name("g" if gen else "f")
        ps = [self.name("p") for _ in range(r.choice([1, 2, 2]))]
        nd = r.choice([0, 0, 1]) if not gen else 0
        sig = [p if k < len(ps) - nd else f"{p}={r.randint(0, 3)}" for k, p in enumerate(ps)]
        self.w(f"def {f}({', '.join(sig)}):")
        save = self.vars, self.budget
        self.vars = list(ps)
        self.infn, self.ingen = 1, gen
        self.budget = r.choice([2, 3, 4])
        self.ind += 1
        loc = self.name("l")
        self.w(f"{loc} = {self.num(1)}")
        self.vars.append(loc)
        if gen:
            self.genbody()
        else:
            for _ in range(r.choice([1, 2, 3])):
                self.stmt(self.depth - 1)
            self.w(f"return {self.num(2)}")
        self.ind -= 1
        self.infn, self.ingen = 0, False
        self.vars, self.budget = save
        self.w("")
        if gen:
            self.gens.append((f, len(ps)))
        else:
            self.helpers.append((f, ps, nd))

    def genbody(self):
        r = self.r
        for _ in range(r.choice([1, 2, 3])):
            z = r.random()
            if z < 0.35:
                self.w(f"yield {self.num(1)}")
            elif z < 0.6:
                i = self.name("i")
                self.w(f"for {i} in range({r.choice(['2', 'min(' + self.vars[0] + ', 2)'])}):")
                self.vars.append(i)
                self.ind += 1
                if r.random() < 0.4:
                    self.assign()
                if r.random() < 0.4:
                    self.w(f"if {self.cond(1)}:")
                    self.w(f"    {r.choice(['continue', 'break', 'return', 'pass'])}")
                self.w(f"yield {self.num(1)}")
                if r.random() < 0.4:
                    self.assign()
                self.ind -= 1
                self.vars.remove(i)
            elif z < 0.75:
                self.w(f"if {self.cond(1)}:")
                self.w(f"    yield {self.num(1)}")
                if r.random() < 0.5:
                    self.w("else:")
                    self.w(f"    {r.choice(['return', 'yield ' + self.num(1), 'pass'])}")
            elif z < 0.85:
                self.w(f"yield from ({self.num(1)}, {self.num(1)})")
            elif z < 0.93:
                self.w(f"yield from range({r.choice(['2', 'min(' + self.vars[0] + ', 2)'])})")
            else:
                self.assign()
        self.w(f"yield {self.num(1)}") if r.random() < 0.5 else None
        if not any("yield" in l for l in self.lines[-12:]):
            self.w(f"yield {self.num(1)}")

    def program(self):
        r = self.r
        self.w("def tr(k, v):")
        self.w("    log(k)")
        self.w("    return v")
        self.w("")
        self.vars = ["tr"]
        n_h = r.choice([0, 1, 1, 2])
        for _ in range(n_h):
            self.vars = []
            self.function()
        if r.random() < 0.3:
            self.vars = []
            self.function(gen=True)
        self.w("def main():")
        self.ind = 1
        self.vars = []
        inputs = []
        for k in range(r.choice([2, 3])):
            v = "abcd"[k]
            self.w(f"{v} = inp({k})")
            inputs.append((-2, 4, r.random() < 0.8))
            self.vars.append(v)
        for v in ("x", "y")[: r.choice([1, 2])]:
            self.w(f"{v} = {r.choice(['0', '1', self.atom()])}")
            self.vars.append(v)
        for _ in range(r.choice([3, 4, 5])):
            self.stmt(self.depth)
        for v in self.vars:
            self.w(f"log({v})")
        return Prog("\n".join(self.lines) + "\n", inputs)


def control(seed, tier="quick"):
    r = random.Random(seed * 31 + 7)
    return Gen(seed, depth=r.choice([1, 2, 2, 3]), stmts=r.choice([6, 8, 10])).program()
