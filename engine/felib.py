"""Programs calling the numeric library (easing, interpolation, intervals, judgment windows, buckets, number packing):
the compiled program and the library called directly by Python against the documented formulas."""

import math
import random

from . import fe, femodel as M, pysym
from . import sym as S
from .easespec import EASE_FLOAT
from .irsem import Machine, NodeRun, Obligation
from .pysym import N, term, wrap

BUCKETS = 2003  # memory block of the judgment windows


# ------------------------------------------------------------------ documented formulas


def clamp(x, a, b):
    return max(a, min(b, x))


def lerp(a, b, x):
    return a + (b - a) * x


def lerp_clamped(a, b, x):
    return a + (b - a) * clamp(x, 0, 1)


def unlerp(a, b, x):
    return (x - a) / (b - a)


def unlerp_clamped(a, b, x):
    return clamp((x - a) / (b - a), 0, 1)


def remap(a, b, c, d, x):
    return c + (d - c) * ((x - a) / (b - a))


def remap_clamped(a, b, c, d, x):
    return c + (d - c) * clamp((x - a) / (b - a), 0, 1)


def points(xp, fp):
    xs, fs = list(xp), list(fp)
    if len(xs) != len(fs) or len(xs) < 2 or any(not a < b for a, b in zip(xs, xs[1:])):
        raise S.Cut("points")
    return xs, fs


def interp(xp, fp, x):
    xs, fs = points(xp, fp)
    k = 1
    while k < len(xs) - 1 and xs[k] < x:
        k += 1
    return remap(xs[k - 1], xs[k], fs[k - 1], fs[k], x)


def interp_clamped(xp, fp, x):
    xs, fs = points(xp, fp)
    if x <= xs[0]:
        return fs[0]
    if x >= xs[-1]:
        return fs[-1]
    return interp(xp, fp, x)


class PInterval(M.PRecord):
    start: int
    end: int

    @classmethod
    def zero(cls):
        return cls(0, 0)

    length = property(lambda s: s.end - s.start)
    is_empty = property(lambda s: s.start > s.end)
    mid = property(lambda s: (s.start + s.end) / 2)
    tuple = property(lambda s: (s.start, s.end))

    def __contains__(self, o):
        """every number in o (or o itself) is in the interval; start and end stand for the bounds, empty or not"""
        lo, hi = (o.start, o.end) if isinstance(o, PInterval) else (o, o)
        return bool(lo >= self.start) and bool(hi <= self.end)

    def each(self, f):
        return PInterval(f(self.start), f(self.end))

    def __add__(self, o):
        return self.each(lambda v: v + o)

    def __sub__(self, o):
        return self.each(lambda v: v - o)

    def __mul__(self, o):
        return self.each(lambda v: v * o)

    def __truediv__(self, o):
        return self.each(lambda v: v / o)

    def __floordiv__(self, o):
        return self.each(lambda v: v // o)

    def __and__(self, o):
        return PInterval(o.start if o.start > self.start else self.start, o.end if o.end < self.end else self.end)

    def shrink(self, v):
        return PInterval(self.start + v, self.end - v)

    def expand(self, v):
        return self.shrink(-v)

    def lerp(self, x):
        return lerp(self.start, self.end, x)

    def lerp_clamped(self, x):
        return lerp_clamped(self.start, self.end, x)

    def unlerp(self, x):
        return unlerp(self.start, self.end, x)

    def unlerp_clamped(self, x):
        return unlerp_clamped(self.start, self.end, x)

    def clamp(self, x):
        return clamp(x, self.start, self.end)


class PWindow(M.PRecord):
    perfect: PInterval
    great: PInterval
    good: PInterval

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        for n, _ in self._f:
            object.__setattr__(self, n, self.__dict__[n].copy())

    def each(self, f):
        return PWindow(f(self.perfect), f(self.great), f(self.good))

    def __mul__(self, o):
        return self.each(lambda v: v * o)

    def __add__(self, o):
        return self.each(lambda v: v + o)

    start = property(lambda s: s.good.start)
    end = property(lambda s: s.good.end)

    def update(self, perfect=None, great=None, good=None):
        for n, v in (("perfect", perfect), ("great", great), ("good", good)):
            if v is not None:
                setattr(self, n, v)

    def judge(self, actual, target):
        d = actual - target
        for k, w in enumerate((self.perfect, self.great, self.good), 1):
            if d in w:
                return k
        return 0


class PVec(M.PRecord):
    x: int
    y: int

    def __add__(self, o):
        return PVec(self.x + o.x, self.y + o.y)

    def __sub__(self, o):
        return PVec(self.x - o.x, self.y - o.y)

    def __mul__(self, k):
        return PVec(self.x * k, self.y * k)


class PBuckets:
    """The judgment windows in the level's bucket memory; reset for every run."""

    def __init__(self, n):
        z = lambda: PInterval(0, 0)  # noqa: E731
        self.w = [PWindow(z(), z(), z()) for _ in range(n)]

    def of(self, k):
        return self.w[int(k)]


class PBucket:
    store = None

    def __init__(self, id):
        self.id = id

    @property
    def window(self):
        k = M.conc(self.id, 0, len(PBucket.store.w))
        if k is None:
            raise S.Cut("bucket")
        return PBucket.store.w[k]

    @window.setter
    def window(self, v):
        self.window.copy_from(v)


def quantize_to_step(value, start, stop, step):
    if not stop > start or not step > 0:
        raise S.Cut("quantize range")
    n = (stop - start) / step
    total = max(1, pysym.pmath.ceil(n))
    k = pysym.p_round((value - start) / step)
    return clamp(k, 0, total - 1), total


class Key:
    """Compares the way make_comparable_float promises: lexicographically by the packed values."""

    def __init__(self, *pairs):
        self.v = [a for a, _ in pairs]
        for a, m in pairs:
            if not (a >= 0 and a < m):
                raise S.Cut("value out of range")

    def cmp(self, o):
        for a, b in zip(self.v, o.v):
            if a < b:
                return -1
            if a > b:
                return 1
        return 0

    def __lt__(self, o):
        return self.cmp(o) < 0

    def __gt__(self, o):
        return self.cmp(o) > 0

    def __le__(self, o):
        return self.cmp(o) <= 0

    def __ge__(self, o):
        return self.cmp(o) >= 0

    def __eq__(self, o):
        return self.cmp(o) == 0

    def __ne__(self, o):
        return self.cmp(o) != 0

    __hash__ = None


def snake(op):
    out = ""
    for c in op:
        out += "_" + c.lower() if c.isupper() and out else c.lower()
    return out


EASES = {snake(op): op for op in EASE_FLOAT}


def ease(op):
    f = EASE_FLOAT[op]

    def g(x):
        return wrap(S.uf(op, (term(x),), f)) if isinstance(x, N) else f(float(x))

    return g


def smoothstep(x):
    x = clamp(x, 0, 1)
    return x * x * (3 - 2 * x)


def smootherstep(x):
    x = clamp(x, 0, 1)
    return x * x * x * (x * (x * 6 - 15) + 10)


def oracle_ns():
    ns = M.oracle_ns()
    ns.pop("max"), ns.pop("min")
    ns.update({n: ease(op) for n, op in EASES.items()})
    PBucket.store = PBuckets(4)
    ns.update(
        Interval=PInterval, JudgmentWindow=PWindow, Vec2=PVec, Bucket=PBucket, clamp=clamp, lerp=lerp, lerp_clamped=lerp_clamped,
        unlerp=unlerp, unlerp_clamped=unlerp_clamped, remap=remap, remap_clamped=remap_clamped, interp=interp,
        interp_clamped=interp_clamped, quantize_to_step=quantize_to_step, make_comparable_float=Key,
        linstep=lambda x: clamp(x, 0, 1), smoothstep=smoothstep, smootherstep=smootherstep,
        step_start=lambda x: 1.0 if x >= 0 else 0.0, step_end=lambda x: 1.0 if x >= 1 else 0.0,
    )  # fmt: skip
    return ns


_real = {}


def real_ns():
    if not _real:
        from sonolus.script import easing
        from sonolus.script.array import Array
        from sonolus.script.bucket import Bucket, JudgmentWindow
        from sonolus.script.interval import (
            Interval, clamp, interp, interp_clamped, lerp, lerp_clamped, remap, remap_clamped, unlerp, unlerp_clamped,
        )  # fmt: skip
        from sonolus.script.containers import VarArray
        from sonolus.script.numtools import make_comparable_float, quantize_to_step
        from sonolus.script.vec import Vec2

        _real.update({k: v for k, v in locals().items() if k != "easing"})
        for n in [*EASES, "linstep", "smoothstep", "smootherstep", "step_start", "step_end"]:
            _real[n] = getattr(easing, n)
    return dict(_real)


# ------------------------------------------------------------------ the law: compiled and called directly


class Direct(fe.Oracle):
    """Python executing the program with the real library, outside compilation."""

    def run(self, vals):
        p = self.prog
        save = p.oracle
        p.oracle = {**p.real(), "float": float, "int": int, "Num": fe.env()["Num"]}
        pysym.KEEP_FLOAT = True
        try:
            with fe.runner.under_test():
                return super().run(vals)
        finally:
            p.oracle = save
            pysym.KEEP_FLOAT = False


def body(prog, comp, levels, tol):
    base = fe.body(prog, comp, [l for l in levels if l != "direct"], tol)
    if "direct" not in levels or "Bucket(" in prog.src or "ease_" in prog.src:
        return base
    oracle, direct = fe.Oracle(prog), Direct(prog)

    def go(L):
        base(L)
        vals = [L.var(f"x{k}", lo, hi, integer=i) for k, (lo, hi, i) in enumerate(prog.inputs)]
        if L.concrete is not None:
            vals = [fe.CF(v) for v in vals]
        try:
            want = oracle.run(vals)
        except fe.ORACLE_ERRORS as e:
            raise S.Cut(f"oracle {type(e).__name__}") from None
        try:
            got = direct.run(vals)
        except (S.Cut, S.Undefined, pysym.Unsupported):
            raise
        except Exception as e:  # noqa: BLE001
            L.check(f"direct: raises {type(e).__name__}: {e}", False)
            return
        if len(got) != len(want):
            L.check(f"direct: {len(got)} values logged instead of {len(want)}", False)
            return
        for k, (a, b) in enumerate(zip(want, got)):
            L.same(f"direct: log {k} on {vals if L.concrete is not None else ''}", fe.number(a), fe.number(b))

    return go


LEVELS = ("cfg", "standard", "direct")


def make_law(prog, comp, seed=0, max_paths=32, levels=LEVELS, tol=1e-9, **kw):
    kw.setdefault("zx_ms", 1500)
    kw.setdefault("zf_ms", 1500)
    law = fe.FeLaw(body(prog, comp, levels, tol), max_paths=max_paths, seed=seed, tol=tol, **kw)
    law.levels = ("zr", "zx")
    return law


# ------------------------------------------------------------------ programs


class Lib:
    def __init__(self, seed):
        self.r = random.Random(seed * 53 + 29)
        self.lines = []
        self.uid = 0

    def w(self, s):
        self.lines.append(s)

    def name(self, p):
        self.uid += 1
        return f"{p}{self.uid}"

    def num(self, d=1):
        r = self.r
        z = r.random()
        if d and z < 0.15:
            return f"({self.num(0)} {r.choice('+-*')} {self.num(0)})"
        if z < 0.65:
            return r.choice("abc")
        if z < 0.8:
            return f"({r.choice(['0', '1', '2', '3', '-1', '-2', '8'])})"
        return f"({r.choice(['0.5', '1.5', '-0.5', '2.25', '0.25', '-2.5', '0.75'])})"

    def interval(self, d=1):
        r = self.r
        z = r.random()
        if d and z < 0.5:
            e = lambda: self.interval(d - 1)  # noqa: E731
            k = r.randrange(8)
            if k < 3:
                return f"({e()} {'+-*'[k]} {self.num()})"
            if k == 3:
                return f"({e()} / {r.choice(['2', '4', '(-2)', 'c', '0.5'])})"
            if k == 4:
                return f"({e()} // {r.choice(['2', '3', '(-2)', '4'])})"
            if k == 5:
                return f"({e()} & {e()})"
            return f"{e()}.{r.choice(['shrink', 'expand'])}({self.num()})"
        if d and z < 0.55:
            return "Interval.zero()"
        if r.random() < 0.3:
            return f"Interval(start={self.num()}, end={self.num()})"
        return f"Interval({self.num()}, {self.num()})"

    def logiv(self, i):
        n = self.name("i")
        self.w(f"{n} = {i}")
        for _ in range(self.r.choice([1, 2, 3])):
            self.w(f"log({self.ivprop(n)})")

    def ivprop(self, n):
        r = self.r
        k = r.randrange(12)
        if k < 4:
            return n + r.choice([".start", ".end", ".length", ".mid", ".is_empty", ".tuple[0]", ".tuple[1]"])
        if k < 6:
            return f"1 if {self.num()} {r.choice(['in', 'in', 'not in'])} {n} else 0"
        if k == 6:
            return f"1 if {self.interval(0)} {r.choice(['in', 'not in'])} {n} else 0"
        f = r.choice(["lerp", "lerp_clamped", "unlerp", "unlerp_clamped", "clamp"])
        return f"{n}.{f}({self.num()})"

    def fn(self):
        r = self.r
        n = self.num
        k = r.randrange(10)
        if k < 3:
            return f"{r.choice(list(EASES))}({n()})"
        if k == 3:
            return f"{r.choice(['linstep', 'smoothstep', 'smootherstep', 'step_start', 'step_end'])}({n()})"
        if k == 4:
            return f"clamp({n()}, {n()}, {n()})"
        if k == 5:
            return f"{r.choice(['lerp', 'lerp_clamped'])}({n()}, {n()}, {n()})"
        if k == 6:
            return f"{r.choice(['unlerp', 'unlerp_clamped'])}({n()}, {n()}, {n()})"
        return f"{r.choice(['remap', 'remap_clamped'])}({n()}, {n()}, {n()}, {n()}, {n()})"

    def generic(self):
        r = self.r
        f = r.choice(["lerp", "lerp_clamped"])
        v = self.name("v")
        self.w(f"{v} = {f}(Vec2({self.num()}, {self.num()}), Vec2({self.num()}, {self.num()}), {self.num()})")
        self.w(f"log({v}.x)")
        self.w(f"log({v}.y)")

    def interp(self):
        r = self.r
        n = r.choice([2, 3, 3, 4])
        f = r.choice(["interp", "interp_clamped"])
        if r.random() < 0.6:
            xs = sorted(r.sample([-4, -3, -1, 0, 0.5, 1, 2, 2.5, 4, 6], n))
            xs = [f"{x}" for x in xs]
            if r.random() < 0.4:
                xs[r.randrange(n)] = r.choice("abc")
        else:
            xs = ["a", "a + c", "a + c + 1", "a + c + 3"][:n]
        ys = [self.num() for _ in range(n)]

        def seq(v):
            z = r.random()
            if z < 0.5:
                return f"({', '.join(v)})"
            if z < 0.85:
                return f"Array({', '.join('1.0 * ' + x for x in v)})"
            m = self.name("s")
            self.w(f"{m} = VarArray[float, 5].new()")
            for x in v:
                self.w(f"{m}.append({x})")
            return m

        p, q = seq(xs), seq(ys)
        if "(" not in p and q[0] == "(":
            q = f"Array({', '.join('1.0 * ' + x for x in ys)})"  # a tuple cannot be indexed at run time
        self.w(f"log({f}({p}, {q}, {self.num()}))")

    def window(self):
        r = self.r
        w = self.name("w")
        if r.random() < 0.5:
            iv = [f"Interval({a}, {b})" for a, b in r.sample([("-0.5", "0.5"), ("-1", "1"), ("-2", "2"), ("a", "b"), ("-1", "c"), ("a", "3"), ("-3", "2.5")], 3)]
        else:
            iv = [self.interval(0) for _ in range(3)]
        mk = f"JudgmentWindow({', '.join(iv)})" if r.random() < 0.7 else f"JudgmentWindow(good={iv[2]}, perfect={iv[0]}, great={iv[1]})"
        if r.random() < 0.45:
            k = self.bucket()
            self.w(f"{k}.window = {mk}")
            if r.random() < 0.5:
                k2 = self.bucket()
                self.w(f"{k2}.window = {r.choice([mk, f'{k}.window * {self.num()}', f'{k}.window + {self.num()}'])}")
            w = f"{k}.window"
        else:
            self.w(f"{w} = {mk}")
        for _ in range(r.choice([0, 0, 1, 2])):
            z = r.randrange(4)
            if z == 0:
                self.w(f"{w}.update({r.choice(['perfect', 'great', 'good'])}={self.interval(1)})")
            elif z == 1:
                self.w(f"{w} {r.choice('*+')}= {self.num()}")
            elif z == 2:
                self.w(f"{w}.{r.choice(['perfect', 'great', 'good'])}.{r.choice(['start', 'end'])} = {self.num()}")
            else:
                w2 = self.name("w")
                self.w(f"{w2} = {w} {r.choice('*+')} {self.num()}")
                w = w2
        for _ in range(r.choice([1, 2])):
            self.w(
                "log("
                + r.choice(
                    [
                        f"{w}.judge({self.num()}, {self.num()})",
                        f"{w}.judge({self.num()}, {self.num()})",
                        f"{w}.{r.choice(['perfect', 'great', 'good'])}.{r.choice(['start', 'end', 'mid'])}",
                        f"{w}.{r.choice(['start', 'end'])}",
                    ]
                )
                + ")"
            )

    def bucket(self):
        if self.r.random() < 0.35:
            return f"Bucket({self.r.choice(['k', 'k', 'c - 1'])})"
        return f"Bucket({self.r.choice('0123')})"

    def quantize(self):
        r = self.r
        lo = r.choice(["-2", "0", "-4", "a"])
        hi = r.choice(["4", "8", "a + 5", "5.5"]) if lo != "a" else r.choice(["a + 4", "a + 7"])
        st = r.choice(["0.5", "1", "2", "0.25", "0.3", "1.5", "c", "10"])
        q = self.name("q")
        self.w(f"{q} = quantize_to_step({self.num()}, {lo}, {hi}, {st})")
        self.w(f"log({q}[0])")
        self.w(f"log({q}[1])")

    def packed(self):
        r = self.r
        n = r.choice([1, 2, 2, 3])
        ms = [r.choice([5, 7, 16, 100, 1000, 300, 40000, 65536, 70000, 2**20, 2**24, 2**26]) for _ in range(n)]
        while math.prod(ms) >= 2**31:
            ms[r.randrange(n)] = r.choice([3, 8, 60])
        mt = [f"{m} + 0 * k" if r.random() < 0.2 else str(m) for m in ms]
        lit = [r.choice([None, None, None, 0, m - 1, m // 2]) for m in ms]

        def tup(vs):
            return f"make_comparable_float({', '.join(f'({v if l is None else l}, {m})' for v, l, m in zip(vs, lit, mt))})"

        x, y = r.choice(["abc", "pqs", "aqc"]), r.choice(["pqs", "abc", "xyz"])
        self.w(f"log(1 if {tup(x)} {r.choice(['<', '>', '<=', '>=', '==', '!='])} {tup(y)} else 0)")
        return ms

    def main(self):
        r = self.r
        self.w("a = inp(0)"), self.w("b = inp(1)"), self.w("c = inp(2)"), self.w("k = inp(3)")
        for _ in range(r.choice([1, 1, 2])):
            z = r.random()
            if z < 0.28:
                self.w(f"log({self.fn()})")
            elif z < 0.5:
                self.logiv(self.interval(r.choice([0, 1, 2])))
            elif z < 0.58:
                self.generic()
            elif z < 0.74:
                self.interp()
            elif z < 0.9:
                self.window()
            else:
                self.quantize()
        return "def main():\n" + "\n".join("    " + x for x in self.lines) + "\n"


def numlib(seed):
    g = Lib(seed)
    src = g.main()
    whole = g.r.random() < 0.4
    return fe.Prog(src, [(-4, 5, whole), (-4, 5, whole), (1, 3, True), (0, 3, True)], real=real_ns, oracle=oracle_ns, mem={BUCKETS: [0.0] * 24}, callback="preprocess")


def packing(seed):
    g = Lib(seed)
    g.w("a = inp(0)"), g.w("b = inp(1)"), g.w("c = inp(2)"), g.w("p = inp(3)"), g.w("q = inp(4)"), g.w("s = inp(5)"), g.w("k = inp(6)")
    g.w("x = a + 1"), g.w("y = b - 1"), g.w("z = c")
    g.packed()
    src = "def main():\n" + "\n".join("    " + x for x in g.lines) + "\n"
    return fe.Prog(src, [(0, 2**26, True)] * 6 + [(0, 3, True)], real=real_ns, oracle=oracle_ns)
