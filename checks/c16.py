import time

from checks.febase import FeCheck
from engine import fe, ferand, pysym, runner


class Check(FeCheck):
    prop = "C16"
    families = {"outcomes": (ferand.outcomes, 800, 12000)}
    max_paths = (32, 160)
    levels = ferand.LEVELS
    assumptions = FeCheck.assumptions[:2] + (
        "integer draws are enumerated by their number of outcomes along each path (at most 24 per draw, 40 behaviours "
        "per path); bounds, steps and elements stay symbolic",
        "the wide laws keep one draw symbolic too; a continuous draw is lo + (hi - lo) * u with u in [0, 1]",
    )
    functions = FeCheck.functions + ("sonolus/script/internal/random.py (compiled from its current source)",)

    def jobs(self, tier, seed):
        wide = [(tier, "wide", k, c) for k, w in enumerate(ferand.WIDE) for c in w[2]]
        return wide + super().jobs(tier, seed)

    def work(self, spec):
        if spec[1] == "wide":
            out = runner.Out()
            law = pysym.Law(ferand.wide_body(*spec[2:]), max_paths=64, tol=1e-9, zx_ms=12000, zf_ms=3000)
            law.deadline = time.time() + self.seconds(spec) * 2
            law.run()
            self.account(out, spec, law)
            return out
        return super().work(spec)

    def make_law(self, prog, comp, **kw):
        kw.pop("levels", None)
        return ferand.make_law(prog, comp, levels=self.levels, **kw)


CHECK = Check()
