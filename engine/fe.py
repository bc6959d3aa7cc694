"""Programs for the Python frontend: the same source text is executed by Python itself on solver proxies (the oracle)
and compiled by the real frontend, whose control-flow graph (and, optionally, emitted node tree) is executed
symbolically on the same inputs; the logged values must agree on every path."""

import ast
import atexit
import math
import os
import random
import shutil
import tempfile
import types

from . import pysym, runner
from . import sym as S
from .irsem import CfgRun, Machine, NodeRun, Obligation
from .pysym import B, N, term, wrap, wrapb

IN, OUT, ROM = 20, 21, 3000
DONE = 424242.0
_dir = None
_count = [0]


def scratch():
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        d = tempfile.mkdtemp(prefix="sonolus-fe-")
        _dir = (os.getpid(), d)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)

        atexit.register(clean)
        import multiprocessing.util as mu

        mu.Finalize(None, clean, exitpriority=10)
    return _dir[1]


class Prog:
    """src defines `main()`; it reads inputs with inp(k) and reports values with log(v)."""

    def __init__(self, src, inputs, real=None, oracle=None, label="", checks=None, mem=None, callback=""):
        self.callback = callback
        self.mem = mem or {}  # block -> initial contents (numbers, or ("in", k) for the k-th input)
        self.checks = checks  # run-time checks mode of the compiled program (None: the check's default)
        self.refusable = None  # text of a documented refusal that is not a violation for this program
        self.src = src
        self.inputs = inputs  # list of (lo, hi, integer)
        self.real = real or {}
        self.oracle = oracle or {}
        self.label = label


# ------------------------------------------------------------------ compiled side

_env = {}


def env():
    if not _env:
        from sonolus.backend.mode import Mode
        from sonolus.backend.place import BlockPlace
        from sonolus.build.compile import callback_to_cfg
        from sonolus.script.debug import debug_log
        from sonolus.script.internal.context import ModeContextState, ProjectContextState, RuntimeChecks
        from sonolus.script.internal.error import CompilationError
        from sonolus.script.internal.meta_fn import meta_fn
        from sonolus.script.internal.visitor import clear_frontend_caches, compile_and_call
        from sonolus.script.num import Num

        @meta_fn
        def inp(k):
            return Num._from_place_(BlockPlace(IN, k._as_py_() if hasattr(k, "_as_py_") else k))._get_()

        @meta_fn
        def rd(b, k):
            """A number that stays in memory (not copied)."""
            return Num._from_place_(BlockPlace(b._as_py_(), k._as_py_()))

        _env.update(locals())
    return _env


class Rejected(Exception):
    pass


class Compiled:
    def __init__(self, prog, checks="NONE"):
        checks = prog.checks or checks
        e = env()
        _count[0] += 1
        self.path = os.path.join(scratch(), f"p{_count[0]}.py")
        with open(self.path, "w") as f:
            f.write(prog.src)
        ns = {"__name__": f"feprog{_count[0]}", "inp": e["inp"], "rd": e["rd"], "log": e["debug_log"], "Num": e["Num"], "math": math, "random": random}
        ns.update(prog.real() if callable(prog.real) else prog.real)
        exec(compile(prog.src, self.path, "exec"), ns)
        main = ns["main"]

        def callback():
            r = e["compile_and_call"](main)
            e["debug_log"](DONE)
            return r

        callback = meta(callback)
        e["clear_frontend_caches"]()
        self.project = e["ProjectContextState"](runtime_checks=e["RuntimeChecks"][checks])
        self.mode = e["ModeContextState"](e["Mode"].PLAY)
        try:
            with runner.under_test():
                self.entry = e["callback_to_cfg"](self.project, self.mode, callback, prog.callback)
        except e["CompilationError"] as x:
            c = x
            while isinstance(c, e["CompilationError"]) and c.__cause__ is not None:
                c = c.__cause__
            raise Rejected(f"{type(c).__name__}: {c}") from None
        finally:
            os.remove(self.path)
        self.rom = list(self.project.rom.values)
        self.mem = prog.mem
        self.callback = prog.callback
        self._trees = {}

    def tree(self, level="standard"):
        t = self._trees.get(level)
        if t is None:
            from sonolus.backend.optimize import FAST_PASSES, MINIMAL_PASSES, STANDARD_PASSES, OptimizerConfig, optimize_and_finalize

            lv = {"minimal": MINIMAL_PASSES, "fast": FAST_PASSES, "standard": STANDARD_PASSES}[level]
            with runner.under_test():
                cfg = OptimizerConfig(env()["Mode"].PLAY, self.callback) if self.callback else OptimizerConfig(None, None)
                t = optimize_and_finalize(self.entry, lv, cfg)
            self._trees[level] = t
        return t

    def run_real(self, vals, level, draws=None):
        """The log of the real interpreter on concrete inputs."""
        from sonolus.backend import interpret

        it = limited(interpret.Interpreter)()
        for k, v in enumerate(vals):
            it.set(IN, k, float(v))
        for k, v in enumerate(self.rom):
            it.set(ROM, k, v)
        for b, cells in self.mem.items():
            for k, v in enumerate(cells):
                it.set(b, k, float(vals[v[1]] if isinstance(v, tuple) else v))
        save = interpret.random
        if draws is not None:
            interpret.random = draws
        try:
            r = it.run(self.tree(level))
        finally:
            interpret.random = save
        return list(it.log), r


def meta(fn):
    """meta_fn without its source lookup (the function lives in this file)."""
    fn._meta_fn_ = True
    return fn


STEPS, VISITS = 12000, 1000


def limited(base, n=400_000):
    """The interpreter, giving up on programs that do not end."""

    class Limited(base):
        left = n

        def run(self, node):
            self.left -= 1
            if self.left < 0:
                raise TimeoutError(f"it does not end within {n} evaluations")
            return super().run(node)

    return Limited


class FeRun(CfgRun):
    """The frontend's output must never read an unwritten temporary, leave a temporary array, or run on when the source
    (bounded by far fewer steps) has finished."""

    def over(self):
        return Obligation("steps", f"the program goes on after {self.m.steps} steps")

    def temp_index(self, b, i):
        c = S.cval(i)
        if c is None:
            i = S.lin(i)
            for k in range(b.size) if b.size <= 64 else (0, b.size - 1, 1, b.size // 2):
                if self.m.path.branch(S.eq(i, S.const(k))):
                    return k
            raise Obligation("fault", f"index of temporary array {b.name} out of range")
        if c != int(c) or not 0 <= c < b.size:
            raise Obligation("fault", f"index {c} of temporary array {b.name} out of range")
        return int(c)

    def load(self, place):
        try:
            return super().load(place)
        except S.Cut as e:
            if "unwritten" in str(e):
                raise Obligation("fault", f"read of an unwritten temporary {place}") from None
            raise


# ------------------------------------------------------------------ oracle side


class CF(float):
    """Concrete number of the oracle: // is the floor of the (rounded) quotient, as the runtime computes it."""

    def __floordiv__(self, o):
        if not isinstance(o, (int, float)):
            return NotImplemented
        return CF(math.floor(float(self) / o))

    def __rfloordiv__(self, o):
        return CF(math.floor(o / float(self)))

    def __divmod__(self, o):
        return self // o, self % o

    real = property(lambda s: s)


def _cf(n):
    def f(self, *a):
        r = getattr(float, n)(self, *a)
        return CF(r) if type(r) is float else r

    setattr(CF, n, f)


for _n in "add radd sub rsub mul rmul truediv rtruediv mod rmod pow rpow neg pos abs".split():
    _cf(f"__{_n}__")


def p_range(*a):
    if all(type(x) in (int, bool) for x in a):
        return range(*a)
    for x in a:
        if isinstance(x, N):
            pysym.PATH.assume(S.intlike(x.t), "range argument is an integer")
        elif isinstance(x, float) and x != int(x):
            raise S.Cut("range of a fraction")
    return SymRange(*a)


class SymRange:
    def __init__(self, *a):
        self.start, self.stop, self.step = (0, a[0], 1) if len(a) == 1 else (*a, 1) if len(a) == 2 else a
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i = self.start
        up = bool(self.step > 0)
        n = 0
        while (i < self.stop) if up else (i > self.stop):
            yield i
            i = i + self.step
            n += 1
            if n > 24:
                raise S.Cut("oracle loop bound")

    def __len__(self):
        return sum(1 for _ in self)

    def __getitem__(self, k):
        items = list(self)
        return items[int(k)]

    def __contains__(self, x):
        return any(x == y for y in self)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __eq__(self, o):
        a, b = list(self), list(o)
        return len(a) == len(b) and all(x == y for x, y in zip(a, b))

    __hash__ = None


def p_len(x):
    return len(x)


def p_divmod(a, b):
    return a // b, a % b


def p_enumerate(xs, start=0):
    for k, x in enumerate(xs):
        yield start + k, x


class Budget(ast.NodeTransformer):
    """Every loop of the oracle's copy counts down a budget, so a non-terminating path is cut."""

    def visit_While(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.parse("_tick()").body[0])
        return n


class NumMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, float, N, B))


class PNum(float, metaclass=NumMeta):
    """Num in the oracle: any number, also as a class pattern."""


class Terminated(Exception):
    """The oracle ends the callback here."""

    always = False


ORACLE_ERRORS = (ZeroDivisionError, ValueError, OverflowError, IndexError, KeyError, pysym.ComplexResult)


class Oracle:
    def __init__(self, prog):
        tree = pysym.SetIn().visit(ast.parse(prog.src))
        tree = Budget().visit(tree)
        ast.fix_missing_locations(tree)
        self.code = compile(tree, "<oracle>", "exec")
        self.prog = prog

    def run(self, vals, draw=None):
        """Events of Python executing the program on the given inputs (proxies or numbers)."""
        rec = []
        ticks = [0]

        def log(v):
            rec.append(v)
            return 0

        def tick():
            ticks[0] += 1
            if ticks[0] > 80:
                raise S.Cut("oracle loop bound")

        concrete = not any(isinstance(v, N) for v in vals)
        ns = {
            "__name__": "oracle", "inp": lambda k: vals[k], "rd": lambda b, k: vals[k], "log": log, "_tick": tick, "range": p_range, "int": pysym.Int,
            "float": pysym.Float, "round": pysym.p_round, "bool": pysym.p_bool, "math": pysym.pmath, "divmod": p_divmod, "enumerate": p_enumerate, "Num": PNum,
            "random": draw,
        }  # fmt: skip
        ns.update(self.prog.oracle() if callable(self.prog.oracle) else self.prog.oracle)
        try:
            exec(self.code, ns)
            ns["main"]()
        except Terminated as e:
            # Without run-time checks what follows a failed check is undefined; error() always ends the callback.
            if self.prog.checks in (None, "NONE") and not e.always:
                raise S.Cut("failed check") from None
            return rec
        except AssertionError:
            if self.prog.checks in (None, "NONE"):
                raise S.Cut("failed assertion") from None
            return rec
        rec.append(DONE)
        return rec


# ------------------------------------------------------------------ the law


class Missing(Exception):
    pass


def body(prog, comp, levels=("cfg",), tol=0.0, draw_world=None):
    oracle = Oracle(prog)

    def go(L):
        sym = L.concrete is None
        vals = [L.var(f"x{k}", lo, hi, integer=i) for k, (lo, hi, i) in enumerate(prog.inputs)]
        if not sym:
            vals = [CF(v) for v in vals]
        try:
            want = oracle.run(vals)
        except ORACLE_ERRORS as e:
            raise S.Cut(f"oracle {type(e).__name__}") from None
        except RecursionError:
            raise S.Cut("oracle recursion") from None
        except TypeError as e:
            if "complex" in str(e):
                raise S.Cut("oracle ComplexResult") from None
            raise
        if not sym:
            for lv in ("minimal", *[l for l in levels if l not in ("cfg", "minimal")]):
                try:
                    got, _ = comp.run_real(vals, lv)
                except Exception as e:  # noqa: BLE001
                    raise pysym.Failed(f"{lv}: Python logs {show(want)} but the compiled program fails: {type(e).__name__}: {e}") from None
                got = got[: len(want) + 5]
                ok = len(got) == len(want) and all(pysym.close(number(a), b, tol) for a, b in zip(want, got))
                if not ok:
                    raise pysym.Failed(f"{lv}: on {[float(v) for v in vals]} Python logs {show(want)} but the compiled program logs {show(got)}")
            return
        ins = [term(v) for v in vals]

        def init(b, i):
            cb, ci = S.cval(b), S.cval(i)
            if cb == IN and ci is not None and 0 <= ci < len(ins):
                return ins[int(ci)]
            if cb == ROM and ci is not None and 0 <= ci < len(comp.rom):
                return S.const(comp.rom[int(ci)])
            if cb in prog.mem and ci is not None and 0 <= ci < len(prog.mem[cb]):
                v = prog.mem[cb][int(ci)]
                return ins[v[1]] if isinstance(v, tuple) else S.const(v)
            if cb == 10000 and lv != "cfg":
                # An optimized program may read a temporary whose value does not matter.
                return S.var(f"unset{S.show(i)}")
            if cb is not None and cb != IN and cb != ROM:
                raise Obligation("fault", f"read of unwritten memory {cb}[{S.show(i)}]")
            raise S.Cut("symbolic read of inputs")

        for lv in levels:
            m = Machine(pysym.PATH, False, init=init)
            try:
                if lv == "cfg":
                    FeRun(m, max_steps=STEPS, max_visits=VISITS).run(comp.entry)
                else:
                    NodeRun(m, 40000).main(comp.tree(lv))
            except Obligation as e:
                L.check(f"{lv}: {e.kind} {e.detail}", wrapb(S.not_(e.cond)) if e.cond is not None else False)
                continue
            except S.Undefined as e:
                L.check(f"{lv}: undefined {e}", False)
                continue
            got = [a[0] for op, a, _ in m.events if op == "DebugLog"]
            if len(got) != len(want):
                L.check(f"{lv}: {len(got)} values logged instead of {len(want)}", False)
                continue
            for k, (a, b) in enumerate(zip(want, got)):
                L.same(f"{lv}: log {k}", number(a), wrap(b))

    return go


def number(v):
    if isinstance(v, (B, N)):
        return v
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, (int, float)):
        return float(v)
    raise pysym.Unsupported(f"log of {type(v).__name__}")


def show(l):
    return "[" + ", ".join(f"{float(number(v)):g}" for v in l[:40]) + "]"


class FeLaw(pysym.Law):
    tolerated = ()


def make_law(prog, comp, seed=0, max_paths=32, levels=("cfg",), tol=0.0, **kw):
    kw.setdefault("zx_ms", 1500)
    kw.setdefault("zf_ms", 1500)
    return FeLaw(body(prog, comp, levels, tol), max_paths=max_paths, seed=seed, tol=tol, **kw)
