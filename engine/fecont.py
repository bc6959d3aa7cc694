"""Random container programs: sequences of operations with run-time values and indices (the same source runs on the
models of engine.femodel and on the compiled containers)."""

import random

from . import femodel as M
from .fe import Prog

HEAD = """class P(Record):
    x: int
    y: int

    def __lt__(self, o):
        return self.x < o.x

    def __gt__(self, o):
        return self.x > o.x


class Q(Record):
    p: P
    a: Array[int, 2]


"""


class Cont:
    def __init__(self, seed):
        self.r = random.Random(seed * 17 + 3)
        self.lines = []
        self.ind = 1
        self.uid = 0
        self.rt = []  # scalars
        self.objs = []  # (name, kind, elem, cap)

    def w(self, s):
        self.lines.append("    " * self.ind + s)

    def name(self, p):
        self.uid += 1
        return f"{p}{self.uid}"

    def small(self):
        """Values and keys: inputs and small constants, likely to collide."""
        r = self.r
        z = r.random()
        if z < 0.62:
            return r.choice(self.rt)
        if z < 0.9:
            return str(r.choice([0, 1, 2, 3]))
        return f"({r.choice(self.rt)} {r.choice('+-')} {r.choice([1, 2])})"

    def idx(self, cap):
        r = self.r
        if r.random() < 0.6:
            return r.choice(self.rt)
        return str(r.choice([0, 1, -1, 0, 1, 2, -2, cap - 1]))

    def val(self, elem):
        if elem == "int":
            return self.small()
        if elem == "Q":
            return f"Q(P({self.small()}, {self.small()}), Array({self.small()}, {self.small()}))"
        return f"{elem}({self.small()}, {self.small()})"

    def elemval(self, o):
        """A value for element type of o; sometimes an element of an existing container (aliasing)."""
        n, kind, elem, cap = o
        same = [x for x in self.objs if x[1] in ("var", "arr") and x[2] == elem]
        if same and self.r.random() < 0.22:
            x = self.r.choice(same)
            return f"{x[0]}[{self.idx(x[3])}]"
        return self.val(elem)

    def logval(self, e, elem):
        if elem == "int":
            self.w(f"log({e})")
        else:
            t = self.name("t")
            self.w(f"{t} = {e}")
            self.dumpval(t, elem)

    def dumpval(self, t, elem):
        f = {
            "P": ["x", "y"], "Pair": ["first", "second"], "Q": ["p.x", "p.y", "a[0]", "a[1]"], "int": [""],
        }[elem]  # fmt: skip
        for x in f:
            self.w(f"log({t}.{x})" if x else f"log({t})")

    def typ(self, elem):
        return "Pair[int, int]" if elem == "Pair" else elem

    def new(self):
        r = self.r
        kind = r.choices(["var", "arr", "set", "map", "frozen"], [6, 3, 2, 3, 1])[0]
        elem = r.choice(["int", "int", "int", "P", "Pair", "Q"])
        cap = r.choice([2, 3, 3, 4])
        n = self.name(kind[0])
        if kind == "var":
            self.w(f"{n} = VarArray[{self.typ(elem)}, {cap}].new()")
            for _ in range(r.choice([0, 1, 2, cap - 1, cap])):
                self.w(f"{n}.append({self.val(elem)})")
        elif kind == "arr":
            if r.random() < 0.25:
                self.w(f"{n} = +Array[{self.typ(elem)}, {cap}]")
            else:
                self.w(f"{n} = Array({', '.join(self.val(elem) for _ in range(cap))})")
        elif kind == "set":
            elem = r.choice(["int", "int", "P", "Pair"])
            self.w(f"{n} = ArraySet[{self.typ(elem)}, {cap}].new()")
            for _ in range(r.choice([0, 1, 2])):
                self.w(f"{n}.add({self.val(elem)})")
        elif kind == "map":
            key = r.choice(["int", "int", "int", "P"])
            elem = (key, elem)
            self.w(f"{n} = ArrayMap[{self.typ(key)}, {self.typ(elem[1])}, {cap}].new()")
            for _ in range(r.choice([0, 1, 2])):
                self.w(f"{n}[{self.val(key)}] = {self.val(elem[1])}")
        else:
            m = r.choice([1, 2, 3, 4, 5])
            vals = [self.small() if r.random() < 0.5 else str(r.choice([0, 1, 2, 3, 7])) for _ in range(m)]
            if r.random() < 0.3:
                vals = [str(x) for x in r.sample(range(-20, 40), 17)]
            self.w(f"{n} = FrozenNumSet.of({', '.join(vals)})")
            elem, cap = "int", len(vals)
        o = (n, kind, elem, cap)
        self.objs.append(o)
        return o

    def key(self, elem):
        if elem == "int":
            return self.r.choice(["", "", "key=lambda q: -q", "key=lambda q: q % 2", "key=lambda q: q * q"])
        if elem == "P":
            return self.r.choice(["", "key=lambda q: q.x", "key=lambda q: -q.y", "key=lambda q: q.x + q.y"])
        if elem == "Pair":
            return self.r.choice(["", "key=lambda q: q.second", "key=lambda q: -q.first"])
        return "key=lambda q: q.p.x"

    def op_seq(self, o):
        """Operations every array-like has."""
        r = self.r
        n, kind, elem, cap = o
        ints = elem == "int"
        z = r.randrange(21)
        v = n if r.random() < 0.8 else f"reversed({n})"
        if z == 0:
            self.logval(f"{v}[{self.idx(cap)}]", elem)
        elif z == 1:
            self.w(f"{v}[{self.idx(cap)}] = {self.elemval(o)}")
        elif z == 2 and ints:
            self.w(f"{n}[{self.idx(cap)}] {r.choice(['+=', '-=', '*='])} {self.small()}")
        elif z == 3:
            self.w(f"log({v}.index({self.val(elem)}{r.choice(['', '', f', {self.idx(cap)}', f', {self.idx(cap)}, {self.idx(cap)}'])}))")
        elif z == 4:
            self.w(f"log({v}.{r.choice(['count', 'last_index'])}({self.val(elem)}))")
        elif z == 5:
            self.w(f"log({v}.index_of_{r.choice(['max', 'min'])}({self.key(elem)}))") if elem != "Q" else None
        elif z == 6:
            self.w(f"log(1 if {self.val(elem)} {r.choice(['in', 'not in'])} {v} else 0)")
        elif z == 7:
            k = ", ".join(x for x in [self.key(elem), r.choice(["", "", "reverse=True"])] if x)
            if elem != "Q" or "key" in k:
                self.w(f"{v}.sort({k})")
        elif z == 8:
            self.w(f"{v}.reverse()")
        elif z == 9:
            self.w(f"{v}.swap{r.choice(['', '', '_unchecked'])}({self.idx(cap)}, {self.idx(cap)})")
        elif z == 10:
            t = self.name("e")
            self.w(f"for {t} in {v}:")
            self.ind += 1
            if r.random() < 0.3:
                self.w(f"if {self.cond(t, elem)}:")
                self.w(f"    {r.choice(['continue', 'break'])}")
            if not ints and r.random() < 0.4:
                self.w(f"{t}.{self.field(elem)} += 1")
            self.dumpval(t, elem)
            self.ind -= 1
        elif z == 11:
            i, t = self.name("i"), self.name("e")
            self.w(f"for {i}, {t} in enumerate({v}{r.choice(['', '', ', 3'])}):")
            self.ind += 1
            self.w(f"log({i})")
            self.dumpval(t, elem)
            self.ind -= 1
        elif z == 12:
            self.w(f"log(len({v}))")
        elif z == 13 and ints:
            self.w(f"log({r.choice(['sum', 'any', 'all'])}({v}))")
        elif z == 14 and ints:
            d = r.choice(["", f", default={self.small()}"])
            k = self.key(elem)
            self.w(f"log({r.choice(['max', 'min'])}({v}{d}{', ' + k if k else ''}))")
        elif z == 15:
            others = [x for x in self.objs if x[1] in ("var", "arr") and x[2] == elem and (x[1] == "var" or kind == "var" or x[3] == cap)]
            if others:
                x = r.choice(others)[0]
                self.w(f"log(1 if {n} {r.choice(['==', '!='])} {x if r.random() < 0.7 else f'reversed({x})' if kind == 'var' else x} else 0)")
        elif z == 16 and not ints:
            t = self.name("e")
            self.w(f"{t} = {n}[{self.idx(cap)}]")
            self.w(f"{t}.{self.field(elem)} = {self.small()}")
            self.aliases.append((t, elem))
        elif z == 17 and not ints:
            self.w(f"{n}[{self.idx(cap)}].{self.field(elem)} {r.choice(['=', '+='])} {self.small()}")
        elif z == 18 and not ints:
            self.w(f"{n}[{self.idx(cap)}] @= {self.val(elem)}")
        elif z == 19 and not ints:
            self.w(f"swap({n}[{self.idx(cap)}], {n}[{self.idx(cap)}])")
        elif z == 20 and ints:
            self.w(f"log(sum(q * q for q in {v} if q {r.choice(['>', '!=', '<='])} {self.small()}))")

    aliases = ()

    def field(self, elem):
        return self.r.choice({"P": ["x", "y"], "Pair": ["first", "second"], "Q": ["p.x", "p.y", "a[0]", "a[1]"]}[elem])

    def cond(self, t, elem):
        x = t if elem == "int" else f"{t}.{self.field(elem)}"
        return f"{x} {self.r.choice(['<', '==', '>', '!='])} {self.small()}"

    def op_var(self, o):
        r = self.r
        n, kind, elem, cap = o
        z = r.randrange(14)
        if z <= 2:
            self.w(f"{n}.append({self.elemval(o)})")
        elif z <= 4:
            self.w(f"{n}.insert({self.idx(cap)}, {self.elemval(o)})")
        elif z == 5:
            self.logval(f"{n}.pop({r.choice(['', self.idx(cap), self.idx(cap)])})", elem)
        elif z == 6:
            self.w(f"del {n}[{self.idx(cap)}]")
        elif z == 7:
            self.w(f"log({n}.remove({self.elemval(o)}))")
        elif z == 8:
            self.w(f"{n}.clear()") if r.random() < 0.4 else self.w(f"log({n}.is_full())")
        elif z == 9:
            self.w(f"log({n}.set_add({self.elemval(o)}))")
        elif z == 10:
            self.w(f"log({n}.set_remove({self.elemval(o)}))")
        elif z == 11:
            xs = [x[0] for x in self.objs if x[1] in ("var", "arr") and x[2] == elem]
            x = r.choice(xs)
            x = x if r.random() < 0.7 else f"reversed({x})"
            if r.random() < 0.3 and elem == "int" and r.random() < 0.6:
                x = f"Array({self.small()}, {self.small()})"
            self.w(f"{n}.extend({x})" if r.random() < 0.6 else f"{n} += {x}")
        elif z == 12:
            self.w(f"if len({n}) < {cap}:")
            self.w(f"    {n}.append_unchecked({self.val(elem)})")
        else:
            m = self.name("v")
            self.w(f"{m} = {r.choice(['+', 'copy('])}{n}".replace("copy(" + n, f"copy({n})"))
            self.objs.append((m, kind, elem, cap))

    def op_set(self, o):
        r = self.r
        n, kind, elem, cap = o
        z = r.randrange(7)
        if z <= 1:
            self.w(f"log({n}.add({self.val(elem)}))")
        elif z <= 3:
            self.w(f"log({n}.remove({self.val(elem)}))")
        elif z == 4:
            self.w(f"log(1 if {self.val(elem)} in {n} else 0)")
        elif z == 5:
            self.w(f"log(len({n}))")
        elif elem == "int":
            self.w(f"log(sum({n}))")
            self.w(f"log(sum(q * q for q in {n}))")
        else:
            self.w(f"{n}.clear()")

    def op_map(self, o):
        r = self.r
        n, kind, (key, elem), cap = o
        z = r.randrange(10)
        if z <= 2:
            self.w(f"{n}[{self.val(key)}] = {self.val(elem)}")
        elif z == 3:
            k = self.name("k")
            self.w(f"{k} = {self.val(key)}")
            self.w(f"if {k} in {n}:")
            self.ind += 1
            self.logval(f"{n}.pop({k})", elem)
            self.ind -= 1
        elif z == 4:
            k = self.name("k")
            self.w(f"{k} = {self.val(key)}")
            self.w(f"if {k} in {n}:")
            self.w(f"    del {n}[{k}]")
        elif z == 5:
            self.logval(f"{n}[{self.val(key)}]", elem)
        elif z == 6:
            if elem == "int":
                self.w(f"{n}[{self.val(key)}] += {self.small()}")
            else:
                self.w(f"{n}[{self.val(key)}].{self.field(elem)} += {self.small()}")
        elif z == 7:
            self.w(f"log(len({n}))") if r.random() < 0.5 else self.w(f"log({n}.is_full())")
        elif z == 8:
            # order-free digest
            t = self.name("d")
            k, v = self.name("k"), self.name("e")
            it = r.choice([f"for {k} in {n}", f"for {k} in {n}.keys()", f"for {k}, {v} in {n}.items()", f"for {v} in {n}.values()"])
            self.w(f"{t} = 0")
            self.w(it + ":")
            terms = []
            if k in it:
                terms.append(k if key == "int" else f"{k}.x * 3 - {k}.y")
            if v in it:
                terms.append(v if elem == "int" else f"{v}.{self.field(elem)}")
            self.w(f"    {t} += ({terms[0]})" + (f" * ({terms[1]})" if len(terms) > 1 else ""))
            self.w(f"log({t})")
        else:
            self.w(f"log(1 if {self.val(key)} {r.choice(['in', 'not in'])} {n} else 0)")

    def op_frozen(self, o):
        r = self.r
        n = o[0]
        z = r.randrange(4)
        if z <= 1:
            self.w(f"log(1 if {self.small()} {r.choice(['in', 'not in'])} {n} else 0)")
        elif z == 2:
            self.w(f"log(len({n}))")
        else:
            t = self.name("e")
            self.w(f"for {t} in {n}:")
            self.w(f"    log({t})")

    def op(self):
        r = self.r
        o = r.choice(self.objs)
        kind = o[1]
        if kind == "var":
            (self.op_var if r.random() < 0.55 else self.op_seq)(o)
        elif kind == "arr":
            self.op_seq(o)
        else:
            getattr(self, "op_" + kind)(o)

    def stmt(self):
        r = self.r
        z = r.random()
        m = len(self.lines)
        na, no = len(self.aliases), len(self.objs)
        if z < 0.14:
            self.w(f"if {r.choice(self.rt)} {r.choice(['<', '>', '=='])} {r.choice([0, 1, 2])}:")
        elif z < 0.24:
            i = self.name("i")
            self.w(f"for {i} in range({r.choice(['2', '2', 'min(' + r.choice(self.rt) + ', 2)'])}):")
            self.rt.append(i)
        else:
            self.op()
            return
        self.ind += 1
        k = len(self.lines)
        self.op()
        if r.random() < 0.3:
            self.op()
        if len(self.lines) == k:
            self.w("pass")
        self.ind -= 1
        if 0.14 <= z < 0.24:
            self.rt.remove(i)
        del self.aliases[na:]
        del self.objs[no:]

    def dump(self):
        for t, elem in self.aliases:
            self.dumpval(t, elem)
        for n, kind, elem, cap in self.objs:
            if kind in ("var", "arr"):
                self.w(f"log(len({n}))")
                t = self.name("e")
                self.w(f"for {t} in {n}:")
                self.ind += 1
                self.dumpval(t, elem)
                self.ind -= 1
            elif kind == "set":
                self.w(f"log(len({n}))")
                if elem == "int":
                    self.w(f"log(sum(q * q + q for q in {n}))")
            elif kind == "map":
                self.w(f"log(len({n}))")
                k = "q" if elem[0] == "int" else "q.x - 3 * q.y"
                v = "u" if elem[1] == "int" else f"u.{self.field(elem[1])}"
                self.w(f"log(sum(({k}) * ({v}) + {v} for q, u in {n}.items()))")

    def program(self):
        r = self.r
        self.aliases = []
        inputs = []
        for k in range(3):
            v = "abc"[k]
            self.w(f"{v} = inp({k})")
            inputs.append(((-2, 3), (0, 2), (-1, 2))[k] + (True,))
            self.rt.append(v)
        for _ in range(r.choice([1, 1, 2])):
            self.new()
        for _ in range(r.choice([3, 4, 5, 6])):
            self.stmt()
        self.dump()
        src = HEAD + "def main():\n" + "\n".join(self.lines) + "\n"
        return Prog(src, inputs, real=M.real_ns, oracle=M.oracle_ns, checks="TERMINATE" if r.random() < 0.5 else None)


def containers(seed):
    return Cont(seed).program()


def queries(seed):
    """Searches and comparisons with run-time bounds far outside the array."""
    r = random.Random(seed * 19 + 1)
    g = Cont(seed)
    g.aliases = []
    inputs = [(-6, 6, True), (-6, 6, True), (0, 2, True)]
    g.lines = ["    a = inp(0)", "    b = inp(1)", "    c = inp(2)"]
    n = r.choice([1, 2, 3, 4])
    vals = lambda m: [r.choice(["0", "1", "2", "c", "c", "2 - c"]) for _ in range(m)]  # noqa: E731
    kind = r.choice(["arr", "var", "arr"])
    make = lambda nm, k, m: (  # noqa: E731
        g.w(f"{nm} = Array({', '.join(vals(m))})")
        if k == "arr"
        else [g.w(f"{nm} = VarArray[int, {m + r.choice([0, 1, 2])}].new()"), *[g.w(f"{nm}.append({v})") for v in vals(m)]]
    )
    make("u", kind, n)
    k2 = r.choice(["arr", "var"])
    make("v", k2, r.choice([n, n, max(1, n - 1), n + 1]))
    for _ in range(r.choice([2, 3, 4])):
        x = r.choice(["u", "u", "v", "reversed(u)"])
        z = r.randrange(5)
        if z <= 1:
            args = r.choice(["a", "a, b", "0, a", "b", "a, None" if 0 else "a", "-2, b", "a, -1"])
            g.w(f"log({x}.index({r.choice(['0', '1', 'c', '5'])}, {args}))")
        elif z == 2:
            g.w(f"log(1 if u {r.choice(['==', '!='])} v else 0)")
        elif z == 3:
            g.w(f"log(1 if {x} {r.choice(['==', '!='])} reversed({r.choice(['u', 'v'])}) else 0)" if not (x.startswith("r")) else "log(len(reversed(u)))")
        else:
            g.w(f"log({x}.{r.choice(['last_index', 'count'])}(c))")
    src = HEAD + "def main():\n" + "\n".join(g.lines) + "\n"
    return Prog(src, inputs, real=M.real_ns, oracle=M.oracle_ns)


def bigsort(seed):
    """Sorting 14 to 19 elements (past the switch of algorithm), a few of them run-time values."""
    r = random.Random(seed * 23 + 9)
    n = r.choice([14, 15, 15, 16, 17, 18, 19])
    vals = [str(r.randint(-3, 9)) for _ in range(n)]
    for v in "abc"[: r.choice([1, 2, 3])]:
        vals[r.randrange(n)] = v
    if r.random() < 0.2:
        vals.sort(key=lambda s: int(s) if s not in "abc" else 0, reverse=r.random() < 0.5)
    out = ["    a = inp(0)", "    b = inp(1)", "    c = inp(2)"]
    if r.random() < 0.7:
        out.append(f"    v = Array({', '.join(vals)})")
    else:
        out.append(f"    v = VarArray[int, {n + 1}].new()")
        out += [f"    v.append({x})" for x in vals]
    k = r.choice(["", "", "", "key=lambda q: q % 3", "key=lambda q: -q"])
    arg = ", ".join(x for x in (k, r.choice(["", "reverse=True"])) if x)
    out.append(f"    {r.choice(['v', 'v', 'v', 'reversed(v)'])}.sort({arg})")
    out += ["    for x in v:", "        log(x)"]
    src = HEAD + "def main():\n" + "\n".join(out) + "\n"
    return Prog(src, [(-3, 9, True), (-1, 12, False), (2, 5, True)], real=M.real_ns, oracle=M.oracle_ns)
