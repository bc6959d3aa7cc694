"""Checks of the Python frontend: a generated program is compiled by the real frontend; the compiled program, executed
symbolically, must log what Python executing the same source logs, on every path (engine.fe)."""

import time

from checks.lawbase import LawCheck
from engine import fe, runner


class FeCheck(LawCheck):
    level = "translation_validation"
    assumptions = (
        "inputs are numbers in the stated range, integral where declared so; sums and products are compared over "
        "exact reals and, for the queries that stay open, IEEE doubles; every reported difference is replayed on the "
        "real interpreter against Python executing the same source",
        "paths on which Python itself raises, or loops more than the bound, are outside the claim",
        "floor division is the floor of the rounded quotient (the runtime has no other)",
    )
    functions = (
        "sonolus/script/internal/visitor.py, context.py, builtin_impls.py (the real frontend compiles every program; "
        "its control-flow graph is executed symbolically)",
    )
    families = {}  # name -> (maker(seed) -> fe.Prog, quick n, thorough n)
    max_paths = (24, 96)
    quick_s = 8.0
    levels = ("cfg",)
    checks_level = "NONE"
    law_kw = {}

    def jobs(self, tier, seed):
        out = []
        lists = [
            [(tier, f, seed * 100003 + k) for k in range(v[1] if tier == "quick" else v[2])] for f, v in self.families.items()
        ]
        while any(lists):
            for x in lists:
                if x:
                    out.append(x.pop(0))
        return out

    def work(self, spec):
        out = runner.Out()
        tier, fam, seed = spec
        prog = self.families[fam][0](seed)
        try:
            comp = self.compiled(prog)
        except fe.Rejected as e:
            if prog.refusable and prog.refusable in str(e):
                out.counts["refused"] += 1
                return out
            out.finding(self.key(spec), f"{fam} {seed}: a supported program is rejected: {e}", job=spec, program=prog.src)
            return out
        law = self.make_law(
            prog, comp, seed=seed, max_paths=self.max_paths[tier != "quick"], levels=self.levels, **self.law_kw
        )
        law.deadline = time.time() + self.seconds(spec)
        law.run()
        self.account(out, spec, law)
        for f in out.findings:
            f["replay"]["program"] = prog.src
        if out.samples and len(prog.src) < 900:
            out.samples[0]["program"] = prog.src
        else:
            out.samples = []
        return out

    def compiled(self, prog):
        return fe.Compiled(prog, checks=self.checks_level)

    def make_law(self, prog, comp, **kw):
        return fe.make_law(prog, comp, **kw)

    def bounds(self, tier):
        return {
            "programs": {f: v[1] if tier == "quick" else v[2] for f, v in self.families.items()},
            "paths_per_program": self.max_paths[tier != "quick"],
            "loop_iterations": "oracle: 80 per program, 24 per range; compiled: 1000 visits per block, 12000 steps (more is reported as not ending, if the real interpreter does not end in 400000 evaluations either)",
            "seconds_per_program": self.seconds((tier,)),
            "levels": self.levels,
        }

    def coverage(self, agg, tier):
        c = super().coverage(agg, tier)
        c["programs"] = c.pop("laws")
        return c
