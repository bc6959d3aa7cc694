import os
import time

from checks.febase import FeCheck
from engine import fe, felib, pysym, runner
from engine import sym as S

_ns = {}


def easing():
    if not _ns:
        import sonolus

        path = os.path.join(os.path.dirname(sonolus.__file__), "script/easing.py")
        _ns["sym"] = pysym.load(path, "sym_easing")
        _ns["real"] = __import__("sonolus.script.easing", fromlist=["x"])
        _ns["spec"] = pysym.load(os.path.join(runner.VERIF, "engine/easespec.py"), "sym_ease").EASE_FLOAT
    return _ns


def ease_body(name):
    def go(L):
        e = easing()
        x = L.var("x", -3, 4)
        f = getattr(e["sym"] if L.concrete is None else e["real"], name)
        try:
            want = e["spec"][felib.EASES[name]](x)
            got = f(x)
        except ValueError:
            if L.concrete is None:
                raise S.Cut("square root of a power whose sign is open") from None
            raise pysym.Failed(f"{name}({x}) is undefined") from None
        L.same(f"{name}({x if L.concrete is not None else ''})", got, want)

    return go


def ease_prog(name):
    """The compiled easing is the operation of that name (inside the unit interval, where the easings differ)."""
    src = f"def main():\n    log({name}(inp(0)))\n    log({name}(inp(1)))\n"
    return fe.Prog(src, [(0.05, 0.45, False), (0.55, 0.95, False)], real=felib.real_ns, oracle=felib.oracle_ns)


class Check(FeCheck):
    prop = "C19"
    families = {"numlib": (felib.numlib, 2400, 40000), "packing": (felib.packing, 120, 1500)}
    max_paths = (48, 200)
    levels = felib.LEVELS
    assumptions = FeCheck.assumptions + (
        "values are compared over exact reals; a difference only counts when the replay on doubles shows it beyond 1e-9",
        "an easing operation of the engine is the documented formula (its interpreter implementation is decided in C09); "
        "the Python bodies are compared with the formula by the easing laws, powers being products",
        "make_comparable_float is observed through comparisons of its results; 2 ** exponent is taken exponent by exponent",
    )
    functions = FeCheck.functions + (
        "sonolus/script/interval.py, easing.py, bucket.py, numtools.py (compiled from the current source, and executed "
        "directly outside compilation on symbolic numbers)",
    )

    def jobs(self, tier, seed):
        return [(tier, k, n) for k in ("ease", "easeop") for n in felib.EASES] + super().jobs(tier, seed)

    def work(self, spec):
        if spec[1] == "easeop":
            out = runner.Out()
            prog = ease_prog(spec[2])
            law = felib.make_law(prog, fe.Compiled(prog), levels=("cfg",))
            law.run()
            self.account(out, spec, law)
            return out
        if spec[1] == "ease":
            out = runner.Out()
            law = pysym.Law(ease_body(spec[2]), max_paths=64, tol=1e-9, zx_ms=6000, levels=("zr", "zx"))
            law.deadline = time.time() + self.seconds(spec) * 2
            law.run()
            self.account(out, spec, law)
            return out
        return super().work(spec)

    def make_law(self, prog, comp, **kw):
        return felib.make_law(prog, comp, **kw)


CHECK = Check()
