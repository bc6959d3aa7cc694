"""Reference interpreter = node semantics: the real interpret.py executed symbolically on proxies, jointly with the
engine's own executor of the same node trees; values, memory, logs, draws and rejections must agree."""

import math
import os
import random

from checks.lawbase import LawCheck
from engine import pysym, runner, spec
from engine import sym as S
from engine.irsem import ConcretePath, Machine, NodeRun, Stop
from engine.pysym import N, cpow, fmod_t, odd, term, wrap

ROWS = (20, 21)
COLS = 5
_env = {}


class Fault(Exception):
    pass


class Rand:
    """Stands for the random module: every draw is a fresh input."""

    def __init__(self, L):
        self.L = L
        self.calls = []

    def value(self, k, lo, hi, integer):
        key = f"draw{k}"
        if self.L.concrete is not None:
            v = self.L.concrete.get(key, lo)
            v = float(round(v)) if integer else v
            return min(max(v, lo), hi - 1 if integer else hi) if lo <= hi else lo
        return self.L.var(key, integer=integer)

    def uniform(self, lo, hi):
        k = len(self.calls)
        v = self.value(k, lo, hi, False)
        self.calls.append(("Random", lo, hi, v))
        return v

    def randrange(self, lo, hi):
        if not lo < hi:
            raise ValueError("empty range for randrange()")
        k = len(self.calls)
        v = self.value(k, lo, hi, True)
        self.calls.append(("RandomInteger", lo, hi, v))
        return v

    def randint(self, lo, hi):
        return self.randrange(lo, hi + 1)

    def __getattr__(self, n):
        raise pysym.Unsupported(f"random.{n}")


def env():
    if not _env:
        import sonolus
        import sonolus.backend.interpret as real
        from sonolus.backend import node, ops

        path = os.path.join(os.path.dirname(sonolus.__file__), "backend/interpret.py")
        _env["sym"] = pysym.load(path, "sym_interpret")
        _env["real"] = real
        _env["ease"] = pysym.load(os.path.join(runner.VERIF, "engine/easespec.py"), "sym_ease").EASE_FLOAT
        _env["ops"] = ops.Op
        _env["F"] = lambda op, *a: node.FunctionNode(ops.Op(op), tuple(a))
        _env["names"] = [o.value for o in ops.Op]
    return _env


# ------------------------------------------------------------------ the reference, with rejections as forks


def _div(m, a, b):
    m.need(S.not_(S.eq(b, S.ZERO)), "division by zero")
    return S.div(a, b)


def _mod(m, a, b):
    """floored remainder: the sign of the divisor"""
    m.need(S.not_(S.eq(b, S.ZERO)), "modulo by zero")
    return pysym.pymod(a, b)


def _rem(m, a, b):
    """truncated remainder: the sign of the dividend"""
    m.need(S.not_(S.eq(b, S.ZERO)), "remainder by zero")
    r = fmod_t(S.fabs(a), S.fabs(b))
    return S.ite(S.lt(a, S.ZERO), S.neg(r), r)


def _pow(m, a, b):
    p = m.path.branch
    if p(S.eq(b, S.ZERO)):
        return S.ONE
    if p(S.eq(a, S.ZERO)):
        m.need(S.lt(S.ZERO, b), "0 ** negative")
        return S.ZERO
    if p(S.lt(a, S.ZERO)):
        m.need(S.eq(S.rounder("floor", b), b), "negative ** fraction")
        v = cpow(S.neg(a), b)
        return S.neg(v) if p(odd(b)) else v
    return cpow(a, b)


def _left(f):
    def g(m, *a):
        if not a:
            return S.ZERO
        r = a[0]
        for x in a[1:]:
            r = f(m, r, x)
        return r

    return g


def _ease(name):
    def g(m, x):
        f = env()["ease"][name]
        return term(f(wrap(x)))

    return g


EXACT = {
    "Divide": _left(_div),
    "Mod": _left(_mod),
    "Rem": _left(_rem),
    "Power": _left(_pow),
    "Frac": lambda m, x: pysym.pymod(x, S.ONE),
    "Degree": lambda m, x: S.mul(x, S.const(180.0 / math.pi)),
    "Radian": lambda m, x: S.mul(x, S.const(math.pi / 180.0)),
}


class Ref(Machine):
    def __init__(self, L, path, init):
        super().__init__(path, True, init=init, draws=lambda m, op, a: L.ref_draw(m, op, a))

    def need(self, cond, why):
        cond = S.res(cond)
        if cond is S.TRUE:
            return
        if not self.path.branch(cond):
            raise Fault(why)

    def shifted(self, off, i, stride):
        off, i, stride = (self.int_ok(x, "operand") for x in (off, i, stride))
        return S.lin(S.add(off, S.mul(i, stride)))

    def address(self, b, i):
        b = self.int_ok(b, "block")
        i = self.int_ok(i, "index")
        self.need(S.and_(S.le(S.ZERO, i), S.le(i, S.const(65535))), "index range")
        return b, i

    def memory_op(self, op, a):
        if op == "Copy":
            a = [self.int_ok(x, "operand") for x in a]
            self.need(S.le(S.ZERO, a[4]), "count")
            a[4] = S.const(conc(a[4]))
        return super().memory_op(op, a)

    def read_raw(self, b, i, upto=None):
        b, i = S.const(conc(b)), S.const(conc(i))
        for wb, wi, wv in reversed(self.log):
            if conc(wb) == S.cval(b) and conc(wi) == S.cval(i):
                return wv
        return self.init(b, i)

    def pure(self, op, args):
        args = tuple(S.res(x) for x in args)
        if op in EXACT:
            return EXACT[op](self, *args)
        if op.startswith("Ease"):
            return _ease(op)(self, *args)
        if op in ("Sinh", "Cosh"):
            self.path.assume(S.le(S.fabs(args[0]), S.const(pysym.HYP)), "bound")
        return super().pure(op, args)


def conc(t):
    """A concrete integer for the term, forking over its (small) domain."""
    v = S.cval(S.norm(t))
    return int(v) if v is not None else pysym.concretise(wrap(S.norm(t)))


class RefRun(NodeRun):
    def has_effect(self, n):
        return True

    def switch_eq(self, t, k):
        return S.eq(t, k)

    def index(self, v, n):
        v = S.norm(v)
        c = S.cval(v)
        if c is not None:
            return int(c)
        v = S.rounder("trunc", v)
        for k in range(n):
            if self.m.path.branch(S.eq(v, S.const(k))):
                return k
        return -1

    def run(self, n):
        if isinstance(n, N):
            return term(n)
        self.m.steps += 1
        if self.m.steps > STEPS:
            raise S.Cut("step bound")
        return super().run(n)


STEPS = 300


class NodeLaw(pysym.Law):
    def __init__(self, build, **kw):
        super().__init__(self.compare, theory="c", **kw)
        self.build = build

    def ref_draw(self, m, op, args):
        k = len(m.draws)
        if k < len(self.rand.calls):
            return term(self.rand.calls[k][3])
        if self.concrete is not None:
            return args[0]
        return S.var(f"draw{k}")

    def compare(self, L):
        e = env()
        mem = {}
        node = self.build(self, mem)
        self.rand = Rand(self)
        mod = e["sym"] if self.concrete is None else e["real"]
        base = mod.Interpreter
        count = [0]

        class Interp(base):
            def run(self, n):
                count[0] += 1
                if count[0] > STEPS:
                    raise S.Cut("step bound")
                return base.run(self, n)

        it = Interp()
        for (b, i), v in mem.items():
            row = it.blocks.setdefault(b, [])
            row += [-1.0] * (i + 1 - len(row))
            row[i] = v
        save, mod.random = mod.random, self.rand
        a = ra = None
        try:
            try:
                ra = it.run(node)
                if isinstance(ra, complex):
                    a = "rejected"
            except mod.BreakException as x:
                a, ra = "break", (x.n, x.value)
            except (ZeroDivisionError, ValueError, OverflowError, AssertionError, TypeError, pysym.ComplexResult) as x:
                a, ra = "rejected", f"{type(x).__name__}: {x}"
        finally:
            mod.random = save
        path = pysym.PATH if self.concrete is None else ConcretePath()

        def init(b, i):
            v = mem.get((S.cval(b), S.cval(i)), -1.0)
            return term(v)

        m = Ref(self, path, init)
        keep, pysym.PATH = pysym.PATH, path
        b = rb = None
        try:
            try:
                rb = RefRun(m).run(node)
            except Fault as x:
                b, rb = "rejected", str(x)
            except Stop as x:
                b, rb = "break", (x.n, x.value)
            except (ZeroDivisionError, ValueError, OverflowError) as x:
                b, rb = "rejected", f"{type(x).__name__}"
        finally:
            pysym.PATH = keep
        if a != b:
            L.fail(f"{node_text(node)}: interpreter {a or 'returns'} ({ra}), specification {b or 'returns'} ({rb})")
        if a == "rejected":
            return
        if a == "break":
            L.same("break depth", ra[0], num(rb[0]))
            L.same("break value", ra[1], num(rb[1]))
        else:
            L.same("value of " + node_text(node), ra, num(rb))
        logs = [x for op, x, _ in m.events if op == "DebugLog"]
        if len(logs) != len(it.log):
            L.fail(f"{node_text(node)}: {len(it.log)} logged values instead of {len(logs)}")
        for k, (x, y) in enumerate(zip(it.log, logs)):
            L.same(f"log {k}", x, num(y[0]))
        if len(m.draws) != len(self.rand.calls):
            L.fail(f"{node_text(node)}: {len(self.rand.calls)} draws instead of {len(m.draws)}")
        for k, (x, y) in enumerate(zip(self.rand.calls, m.draws)):
            L.check(f"draw {k} kind", x[0] == y[0])
            L.same(f"draw {k} low", x[1], num(y[1][0]))
            L.same(f"draw {k} high", x[2], num(y[1][1]))
        final = {(conc(wb), conc(wi)): wv for wb, wi, wv in m.log}
        cells = set(final) | set(mem) | {(b, i) for b, row in it.blocks.items() for i in range(len(row)) if i < 16 or row[i] != -1.0}
        for c in sorted(cells):
            row = it.blocks.get(c[0], [])
            x = row[c[1]] if c[1] < len(row) else -1.0
            y = final[c] if c in final else term(mem.get(c, -1.0))
            L.same(f"memory {c[0]}[{c[1]}] after {node_text(node)}", x, num(y))


def num(t):
    return wrap(S.norm(t))


def node_text(n):
    if isinstance(n, tuple):
        return f"{n.func.value}({', '.join(map(node_text, n.args))})"
    return repr(n)


# ------------------------------------------------------------------ single operations

ARITY = {
    "Clamp": (3,), "Lerp": (3,), "LerpClamped": (3,), "Unlerp": (3,), "UnlerpClamped": (3,), "Remap": (5,),
    "RemapClamped": (5,), "Judge": (8,), "JudgeSimple": (5,), "Arctan2": (2,), "Max": (2,), "Min": (2,), "Equal": (2,),
    "NotEqual": (2,), "Less": (2,), "LessOr": (2,), "Greater": (2,), "GreaterOr": (2,), "Random": (2,),
    "Add": (0, 1, 2, 3), "Subtract": (0, 1, 2, 3), "Multiply": (0, 1, 2, 3), "Divide": (0, 1, 2, 3), "Mod": (0, 1, 2, 3),
    "Rem": (0, 1, 2, 3), "Power": (0, 1, 2, 3), "And": (0, 1, 2, 3), "Or": (0, 1, 2, 3), "If": (3,),
    "Switch": (1, 3, 5), "SwitchWithDefault": (2, 4, 6), "SwitchInteger": (1, 2, 4), "SwitchIntegerWithDefault": (2, 3, 5),
    "Execute": (0, 1, 3), "Execute0": (0, 1, 3), "DebugLog": (1,), "DebugPause": (0,),
}  # fmt: skip
UNARY = (
    "Abs Negate Not Floor Ceil Trunc Round Frac Sign Sin Cos Tan Sinh Cosh Tanh Arctan Arcsin Arccos Log Degree Radian"
).split()
MEMORY = ["Get", "Set", "IncrementPost", "IncrementPre", "DecrementPost", "DecrementPre"] + [
    "Set" + x for x in ("Add", "Subtract", "Multiply", "Divide", "Mod", "Rem", "Power")
]


def memory_vars(L, mem, n=COLS):
    for r in ROWS:
        for i in range(n):
            mem[r, i] = L.var(f"m{r}_{i}")


def address_var(L, name, kind):
    if kind == "block":
        return L.pick(name, (20.0, 21.0, 20.5))
    return L.pick(name, (0.0, 1.0, 2.0, 3.0, -1.0, 0.5, -0.5, 65535.0, 65536.0))


def one_memory(op, kind, variant):
    """Operands: which of them are symbolic (the others are small constants)."""

    def build(L, mem):
        e = env()
        memory_vars(L, mem)
        r = random.Random(f"{op}{kind}{variant}")
        if kind == "Pointed":
            mem[20, 1] = address_var(L, "pb", "block") if variant % 2 else 21.0
            mem[20, 2] = address_var(L, "pi", "index")
            a = [20.0, 1.0, address_var(L, "off", "index") if variant < 2 else 1.0]
            if variant == 3:
                a[1] = address_var(L, "ix", "index")
                for i, v in enumerate((21.0, 1.0, 20.0, 2.0, 21.0)):
                    mem[20, i] = v
        elif kind == "Shifted":
            a = [20.0, 1.0, 1.0, 2.0]
            for k in ((1,), (2,), (3,), (0, 2))[variant]:
                a[k] = address_var(L, f"a{k}", "index" if k else "block")
            if variant == 3:
                a[1] = r.choice((0.0, 0.5))
        else:
            a = [address_var(L, "b", "block") if variant % 2 else 20.0, address_var(L, "i", "index") if variant < 3 else 1.0]
        if op.startswith("Set"):
            a.append(L.var("v"))
        return e["F"](op + kind, *a)

    return build


def one_copy(variant):
    def build(L, mem):
        memory_vars(L, mem, 4)
        a = [20.0, 0.0, 20.0, 1.0, 2.0]
        if variant == 0:
            a[1], a[3] = L.pick("s", (0.0, 1.0, 2.0, 0.5, -1.0)), L.pick("d", (0.0, 1.0, 2.0, 1.5, -1.0))
        elif variant == 1:
            a[0], a[2] = L.pick("sb", (20.0, 21.0, 0.5)), L.pick("db", (20.0, 21.0, 0.5))
        elif variant == 2:
            a[4] = L.pick("n", (0.0, 1.0, 2.0, 3.0, -1.0, 0.5))
        else:
            a[1], a[4] = L.pick("s", (0.0, 1.0, 2.0, 0.5)), L.pick("n", (0.0, 1.0, 2.0, 3.0, 4.0))
        return env()["F"]("Copy", *a)

    return build


def one_value(op, n):
    def build(L, mem):
        return env()["F"](op, *[L.var(f"x{i}") for i in range(n)])

    return build


def one_randint(L, mem):
    return env()["F"]("RandomInteger", L.var("x0"), L.var("x1"))


def unsupported(op):
    """Operations the interpreter does not support must be refused, not given a value."""
    return op


# ------------------------------------------------------------------ random trees


class Trees:
    def __init__(self, seed, L, mem):
        self.r = random.Random(seed)
        self.L = L
        self.mem = mem
        self.k = 0
        self.nvar = 0
        self.F = env()["F"]
        for b in ROWS:
            for i in range(3):
                mem[b, i] = L.var(f"m{b}_{i}", -3, 3, integer=True)
        mem[20, 3] = L.var("cnt", 0, 2, integer=True)
        mem[21, 3] = L.var("cnt2", 0, 2, integer=True)
        mem[20, 4], mem[20, 5] = 21.0, L.pick("ptr", (0.0, 1.0))

    def leaf(self):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            return float(r.choice((0, 1, 2, 3, -1, 5)))
        if k == 1 and self.nvar < 4:
            self.nvar += 1
            return self.L.var(f"v{self.nvar}", -4, 4)
        if k == 2:
            return self.F("GetPointed", 20.0, 4.0, float(r.randrange(2)))
        if k == 3:
            return self.F("GetShifted", float(r.choice(ROWS)), 0.0, 1.0, float(r.randrange(3)))
        return self.F("Get", float(r.choice(ROWS)), float(r.randrange(3)))

    def tap(self, x):
        """An observable evaluation of x."""
        self.k += 1
        k = self.r.randrange(6)
        if k == 0:
            return self.F("Execute", self.F("DebugLog", float(self.k)), x)
        if k == 1:
            return self.F("Execute", self.F("IncrementPost", 21.0, 2.0), x)
        if k == 2:
            return self.F("Set", 21.0, float(self.r.randrange(3)), x)
        if k == 3:
            return self.F("SetAdd", float(self.r.choice(ROWS)), float(self.r.randrange(3)), x)
        if k == 4 and self.r.random() < 0.5:
            return self.F("Add", x, self.F("RandomInteger", 0.0, 3.0))
        return self.F("Execute", self.F("DebugLog", x), x) if not isinstance(x, tuple) else self.F("Execute", self.F("DebugLog", float(self.k)), x)

    def at(self, v):
        """A constant operand whose evaluation is observable."""
        self.k += 1
        k = self.r.randrange(4)
        if k == 0:
            return self.F("Execute", self.F("DebugLog", float(self.k)), v)
        if k == 1:
            return self.F("Execute", self.F("IncrementPost", 21.0, 2.0), v)
        return v

    def expr(self, d):
        r = self.r
        if d <= 0:
            x = self.leaf()
            return self.tap(x) if r.random() < 0.35 else x
        op = r.choice(
            ("Add", "Subtract", "Multiply", "Less", "Equal", "Max", "Min", "Not", "Negate", "And", "Or", "If", "If", "Switch",
             "SwitchWithDefault", "SwitchInteger", "SwitchIntegerWithDefault", "Execute", "Execute0", "Floor", "Block", "JumpLoop",
             "Clamp", "Lerp", "Divide", "SetMultiplyShifted", "IncrementPre", "DecrementPost", "Set", "SetPointed", "Copy", "While",
             "DoWhile", "Greater", "NotEqual", "Abs", "Sign", "SetSubtractPointed", "IncrementPrePointed", "DecrementPreShifted")
        )  # fmt: skip
        e = lambda: self.expr(d - 1 - r.randrange(2))  # noqa: E731
        F = self.F
        c = lambda *v: float(r.choice(v))  # noqa: E731
        if op in ("Not", "Negate", "Floor", "Abs", "Sign"):
            return F(op, e())
        if op in ("And", "Or", "Execute", "Execute0"):
            return F(op, *[e() for _ in range(r.randrange(1, 4))])
        if op in ("If", "Clamp", "Lerp"):
            return F(op, e(), e(), e())
        if op in ("Switch", "SwitchWithDefault"):
            a = [e()]
            for _ in range(r.randrange(1, 4)):
                a += [self.tap(c(0, 1, 2, -1, 0.5)) if r.random() < 0.5 else e(), e()]
            return F(op, *a, *([e()] if op == "SwitchWithDefault" else []))
        if op in ("SwitchInteger", "SwitchIntegerWithDefault"):
            a = [e(), *[e() for _ in range(r.randrange(1, 4))]]
            return F(op, *a, *([e()] if op == "SwitchIntegerWithDefault" else []))
        if op == "Block":
            body = F("Execute", e(), F("If", e(), F("Break", c(1, 1, 2, 0), e()), e()), e())
            return F("Block", F("Block", body) if r.random() < 0.4 else body)
        if op == "JumpLoop":
            n = r.randrange(2, 5)
            arms = []
            for k in range(n - 1):
                # only forwards, or backwards while a counter lasts
                t = c(*range(k + 1, n + 1), k + 1.75)
                if r.random() < 0.3:
                    t = F("If", F("Greater", F("DecrementPost", 20.0, 3.0), 0.0), c(*range(n)), t)
                elif r.random() < 0.4:
                    t = F("If", e(), t, c(*range(k + 1, n + 1), -1))
                arms.append(F("Execute", e(), t))
            return F("JumpLoop", *arms, e())
        if op in ("While", "DoWhile"):
            if r.random() < 0.5:
                test = F("Greater", F("DecrementPre", 20.0, 3.0), 0.0)
            else:
                test = F("Greater", F("DecrementPost", 21.0, 3.0), 0.0)
            if r.random() < 0.3:
                test = F("And", test, e())
            body = e()
            return F(op, test, body) if op == "While" else F(op, body, test)
        addr = lambda: (c(*ROWS), c(0, 1, 2))  # noqa: E731
        if op in ("IncrementPre", "DecrementPost"):
            return F(op, *addr())
        if op == "Set":
            return F(op, self.at(c(*ROWS)), self.at(c(0, 1, 2)), e())
        if op == "SetMultiplyShifted":
            return F(op, self.at(c(*ROWS)), self.at(c(0, 1)), self.at(c(0, 1)), self.at(c(1, 2)), e())
        if op == "DecrementPreShifted":
            return F(op, self.at(c(*ROWS)), self.at(c(0, 1)), self.at(c(0, 1)), self.at(c(1, 2)))
        if op in ("SetPointed", "SetSubtractPointed"):
            return F(op, self.at(20.0), self.at(4.0), self.at(c(0, 1)), e())
        if op == "IncrementPrePointed":
            return F(op, self.at(20.0), self.at(4.0), self.at(c(0, 1)))
        if op == "Copy":
            return F(op, self.at(c(*ROWS)), self.at(c(0, 1)), self.at(c(*ROWS)), self.at(c(0, 1)), self.at(c(1, 2)))
        return F(op, e(), e())


def tree(seed):
    def build(L, mem):
        t = Trees(seed, L, mem)
        return env()["F"]("Block", t.expr(2 + t.r.randrange(3)))

    return build


class Check(LawCheck):
    prop = "C09"
    functions = ("sonolus/backend/interpret.py:Interpreter (all operations), _EASE_FUNCS, _rem, _sign, _judge",)
    assumptions = (
        "operands and memory are finite doubles; libm functions, pow and fmod are the same function on both sides",
        "overflow to infinity (OverflowError) is outside the bounds; |x| <= 710 for sinh and cosh",
    )
    n_trees = {"quick": 400, "thorough": 12000}

    def jobs(self, tier, seed):
        e = env()
        out = []
        ops = set(e["names"])
        for op in UNARY:
            out.append((tier, "op", op, 1))
        for op, ns in ARITY.items():
            out += [(tier, "op", op, n) for n in ns]
        out += [(tier, "op", op, 1) for op in sorted(ops) if op.startswith("Ease")]
        for op in MEMORY:
            for kind in ("", "Pointed", "Shifted"):
                out += [(tier, "mem", op, kind, v) for v in range(4)]
        out += [(tier, "copy", v) for v in range(4)] + [(tier, "randint",)]
        out.append((tier, "refuse"))
        out += [(tier, "tree", seed * 1000003 + k) for k in range(self.n_trees[tier])]
        return out

    def law(self, spec):
        kind = spec[1]
        b = {
            "op": lambda: one_value(*spec[2:]),
            "mem": lambda: one_memory(*spec[2:]),
            "copy": lambda: one_copy(*spec[2:]),
            "randint": lambda: one_randint,
            "tree": lambda: tree(spec[2]),
        }[kind]()
        kw = {}
        if kind == "op" and spec[2].startswith("Ease"):
            kw = dict(tol=1e-9, levels=("zr", "zxi", "zx"))
        return NodeLaw(b, max_paths=(60 if kind == "tree" else 200) * (1 if spec[0] == "quick" else 10), zx_ms=3000, zf_ms=6000, **kw)

    def seconds(self, spec):
        return {"quick": 8, "thorough": 40}[spec[0]] if spec[1] == "tree" else super().seconds(spec)

    def work(self, spec):
        if spec[1] == "refuse":
            return self.refuse(spec)
        return super().work(spec)

    def refuse(self, sp):
        """Operations without an interpreter meaning must be refused on every operand count."""
        out = runner.Out()
        e = env()
        known = set(UNARY) | set(ARITY) | {"RandomInteger", "Copy", "Block", "Break", "JumpLoop", "While", "DoWhile"}
        known |= {m + k for m in MEMORY for k in ("", "Pointed", "Shifted")}
        for op in e["names"]:
            if op in known or op.startswith("Ease"):
                continue
            for n in range(9):
                try:
                    e["real"].Interpreter().run(e["F"](op, *[1.0] * n))
                except NotImplementedError:
                    continue
                except Exception:  # noqa: BLE001
                    pass
                out.finding(f"refuse:{op}", f"{op} has no interpreter semantics but is not refused")
                break
        out.counts["refused"] += 1
        return out

    def key(self, spec):
        return ":".join(map(str, spec[1:]))

    def bounds(self, tier):
        return {
            "operations": "every operation the interpreter supports, each on symbolic operands",
            "addresses": "blocks 20, 21 and a fractional one; index 0..3, -1, 65535, 65536 and fractions (one path per choice)",
            "trees": self.n_trees[tier],
            "paths_per_law": "60 (trees), 200 (operations)" + ("" if tier == "quick" else " times 10"),
            "steps": STEPS,
        }


CHECK = Check()
