"""Constant folding = runtime: fold kernels (from kernels.pyx) against the interpreter (from interpret.py), both
executed symbolically on the same operands; plus translation validation of constant-heavy programs."""

import itertools
import math
import os

from checks.lawbase import LawCheck
from checks.tvbase import TVCheck
from engine import pysym, pyxk, runner
from engine import sym as S

SPECIALS = {"n": math.nan, "i": math.inf, "j": -math.inf, "z": -0.0}
FIXED = {
    "Judge": (8,), "JudgeSimple": (5,), "Remap": (5,), "RemapClamped": (5,), "Clamp": (3,), "Lerp": (3,),
    "LerpClamped": (3,), "Unlerp": (3,), "UnlerpClamped": (3,), "If": (3,), "And": (0, 1, 2, 3, 4), "Or": (0, 1, 2, 3, 4),
    "Switch": (1, 3, 5, 7), "SwitchWithDefault": (2, 4, 6), "SwitchInteger": (1, 2, 3, 5), "SwitchIntegerWithDefault": (2, 3, 4, 6),
}  # fmt: skip

_env = {}


def env():
    if not _env:
        import sonolus
        from sonolus.backend import ops

        root = os.path.dirname(sonolus.__file__)
        consts = {f"OP_{op.value}": i for i, op in enumerate(ops.Op)}
        consts.update(FOLD_OK=0, FOLD_NOT_CONSTANT=1)
        _env["ids"] = {op.value: i for i, op in enumerate(ops.Op)}
        try:
            _env["k"] = pyxk.load(os.path.join(root, "backend/_opt/kernels.pyx"), consts)
            _env["kerr"] = None
        except Exception as e:  # noqa: BLE001
            _env["k"], _env["kerr"] = None, f"{type(e).__name__}: {e}"
        _env["it"] = pysym.load(os.path.join(root, "backend/interpret.py"), "sym_interpret")
        _env["ops"] = ops.Op
    return _env


RUNTIME_ERRORS = (ZeroDivisionError, ValueError, OverflowError, pysym.ComplexResult, AssertionError)


class FoldLaw(pysym.Law):
    def __init__(self, op, mask, **kw):
        super().__init__(self.fold_body, theory="c", **kw)
        self.op, self.mask = op, mask
        self.folded = 0

    def args(self):
        return [self.var(f"x{i}") if c == "s" else SPECIALS[c] for i, c in enumerate(self.mask)]

    def fold_body(self, L):
        e = env()
        from sonolus.backend.node import FunctionNode

        a = self.args()
        out = [None]
        st = e["k"]["fold_op"](e["ids"][self.op], a, len(a), out)
        if st != 0:
            return
        L.folded += 1
        try:
            r = e["it"].Interpreter().run(FunctionNode(e["ops"][self.op], tuple(a)))
        except RUNTIME_ERRORS as x:
            L.fail(f"{self.op} folds where the runtime raises {type(x).__name__}")
        L.same(self.op, out[0], r)

    def replay(self, vals):
        from sonolus.backend._opt import kernels
        from sonolus.backend.interpret import Interpreter
        from sonolus.backend.node import FunctionNode

        a = [vals.get(f"x{i}", 0.0) if c == "s" else SPECIALS[c] for i, c in enumerate(self.mask)]
        k = kernels.fold(self.op, a)
        if k is None:
            return None
        call = f"{self.op}({', '.join(map(repr, a))})"
        try:
            r = Interpreter().run(FunctionNode(env()["ops"][self.op], tuple(a)))
        except Exception as x:  # noqa: BLE001
            return f"{call} folds to {k!r} but the runtime raises {type(x).__name__}"
        if isinstance(r, complex):
            return f"{call} folds to {k!r} but the runtime yields a complex number"
        if not pysym.close(k, r):
            return f"{call} folds to {k!r} but evaluates to {float(r)!r}"
        return None

    def nearby(self, path):
        """The solver has no exact model of fmod/pow/libm: try the concrete points near the path's region."""
        import random

        r = random.Random(str((self.op, self.mask)))
        pts = [0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, -2.0, 3.0, -3.0, 7.0, -7.5, 2.5, 0.25, 100.25, 1e-3]
        for _ in range(300):
            vals = {f"x{i}": r.choice(pts) for i in range(len(self.mask))}
            why = self.replay(vals)
            if why:
                return pysym.Hit(why, vals)
        return None


class Check(TVCheck, LawCheck):
    level = "translation_validation"
    hang = 120
    quick_s = 45.0

    def masks(self, op, tier):
        ns = FIXED.get(op)
        if ns is None:
            un = (
                "Not Negate Abs Sign Ceil Floor Trunc Round Frac Sin Cos Tan Sinh Cosh Tanh Arcsin Arccos Arctan Log Degree Radian"
            ).split()
            ns = (1,) if op in un or op.startswith("Ease") else (2,)
        for n in ns:
            if n <= 2:
                yield from ("".join(m) for m in itertools.product("snijz", repeat=n))
            else:
                yield "s" * n
                for k in range(n):
                    for c in "nijz":
                        yield "s" * k + c + "s" * (n - k - 1)

    def jobs(self, tier, seed):
        from sonolus.backend._opt import kernels

        e = env()
        ids = set(kernels.foldable_op_ids())
        names = [n for n, i in e["ids"].items() if i in ids]
        names.sort(key=lambda n: n != "Round")  # the slowest first
        out = [(tier, "table")]
        out += [(tier, "fold", n) for n in names]
        return out + super().jobs(tier, seed)

    def work(self, spec):
        if spec[1] == "table":
            return self.table(spec)
        if spec[1] != "fold":
            return TVCheck.work(self, spec)
        tier, _, op = spec
        out = runner.Out()
        e = env()
        if e["k"] is None:
            out.inconclusive.append("kernels.pyx is outside the translated subset: " + e["kerr"])
            return out
        import time

        t = time.time() + (self.quick_s if tier == "quick" else 8 * self.quick_s)
        folded = 0
        for m in self.masks(op, tier):
            law = FoldLaw(op, m, max_paths=96 if tier == "quick" else 400, deadline=t, timeout_ms=2000, zx_ms=1000 if tier == "quick" else 8000, zf_ms=15000 if len(m) == 1 else 3000)
            law.run()
            folded += law.folded
            self.account(out, (tier, "fold", op, m), law)
            if law.finding:
                break
        out.counts["fold_paths"] += folded
        out.functions |= {"kernels.pyx:fold_op", "kernels.pyx:_fold_ease", "interpret.py:Interpreter.run"}
        return out

    def table(self, spec):
        """Only operations without effects that are functions of their operands may be folded."""
        from engine import spec as sp
        from sonolus.backend._opt import kernels

        out = runner.Out()
        e = env()
        names = {i: n for n, i in e["ids"].items()}
        for i in kernels.foldable_op_ids():
            n = names[i]
            if n in sp.EFFECTS or n in sp.IMPURE_READS:
                out.finding(f"table:{n}", f"{n} is marked foldable although it has an effect or is not a function of its operands")
        out.counts["table"] += 1
        return out

    def describe(self, spec):
        return f"{spec[2]}({','.join(spec[3])})" if spec[1] == "fold" else TVCheck.describe(self, spec)

    def key(self, spec):
        return ":".join(map(str, spec[1:]))

    def bounds(self, tier):
        return {
            **TVCheck.bounds(self, tier),
            "kernels": "every foldable operation; operands any finite double (symbolic) or nan/inf/-inf/-0.0; And/Or up to 4, Switch* up to 7 operands",
            "outside": "|x| > 710 for sinh/cosh, powers that overflow; libm calls are one uninterpreted function on both sides",
        }

    def coverage(self, agg, tier):
        c = TVCheck.coverage(self, agg, tier)
        c["fold_paths"] = agg.counts["fold_paths"]
        c["laws"] = agg.counts["laws"]
        return c


CHECK = Check("C02", {"constfold": 3}, quick=250, thorough=8000)
