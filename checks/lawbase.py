"""Checks made of laws: bodies of real code executed symbolically (engine.pysym.Law), one job per law."""

import time

from engine import runner


class LawCheck:
    level = "model_checking"
    hang = 120
    assumptions = ()
    functions = ()
    prop = None
    quick_s = 20.0
    budgets = (300, 5400)

    def budget(self, tier):
        return self.budgets[tier != "quick"]

    def law(self, spec, tier):
        """-> (Law, label)"""
        raise NotImplementedError

    def seconds(self, spec):
        return self.quick_s if spec[0] == "quick" else self.quick_s * 6

    def work(self, spec):
        out = runner.Out()
        law = self.law(spec)
        law.deadline = time.time() + self.seconds(spec)
        law.run()
        self.account(out, spec, law)
        return out

    def account(self, out, spec, law):
        for k, v in law.stats.asdict().items():
            out.counts[k if k != "solver_s" else "solver_ms"] += int(v * 1000) if k == "solver_s" else v
        out.counts["laws"] += 1
        out.counts["compared"] += law.compared
        out.counts["incomplete"] += not law.exhausted
        out.counts["vacuous"] += not law.compared
        if law.finding is not None:
            out.finding(self.key(spec), f"{self.describe(spec)}: {law.finding.why}", job=spec, inputs=law.finding.vals)
        for i in law.inconclusive[:2]:
            out.inconclusive.append(f"{self.describe(spec)}: {i}")
        for u in law.unsupported[:1]:
            out.inconclusive.append(f"{self.describe(spec)}: unsupported {u}")
        if law.compared and not law.finding:
            out.samples.append({"law": self.describe(spec), "paths": law.compared})

    def key(self, spec):
        return ":".join(map(str, spec[1:]))

    def describe(self, spec):
        return " ".join(map(str, spec[1:]))

    def bounds(self, tier):
        return {"jobs": "all listed", "seconds_per_law": self.quick_s if tier == "quick" else self.quick_s * 6}

    def coverage(self, agg, tier):
        c = agg.counts
        return {
            "laws": c["laws"],
            "disagreements_checked": c["obligations"],
            "paths_compared": c["compared"],
            "solver_queries": c["queries"],
            "solver_s": round(c["solver_ms"] / 1000, 2),
            "laws_with_truncated_path_sets": c["incomplete"],
            "vacuous_laws": c["vacuous"],
        }
