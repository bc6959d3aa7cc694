from checks.tvbase import TVCheck
from engine import runner


class Check(TVCheck):
    """Switch families, plus the one listed input on which jump-table renumbering rounds (see known_findings.jsonl)."""

    always_report_known = False
    PROBES = {
        # key: (case values, tested value)
        "jump-table-rounding cases=(-2,-1,0,5) x=-0x1.fffffffffffffp-1": ((-2, -1, 0, 5), -0.9999999999999999),
    }

    def jobs(self, tier, seed):
        return [("probe", k) for k in self.PROBES] + super().jobs(tier, seed)

    def work(self, spec):
        if spec[0] != "probe":
            return super().work(spec)
        from sonolus.backend.interpret import Interpreter
        from sonolus.backend.ir import IRConst, IRGet, IRSet
        from sonolus.backend.optimize import (
            FAST_PASSES, MINIMAL_PASSES, STANDARD_PASSES, OptimizerConfig, optimize_and_finalize,
        )
        from sonolus.backend.optimize.flow import BasicBlock
        from sonolus.backend.place import BlockPlace

        out = runner.Out()
        cases, x = self.PROBES[spec[1]]
        head = BasicBlock()
        head.test = IRGet(BlockPlace(20, 0, 0))
        for k in (*cases, None):
            b = BasicBlock()
            b.statements.append(IRSet(BlockPlace(20, 1, 0), IRConst(k if k is not None else 99)))
            head.connect_to(b, k)
        want = float(x) if x in cases else 99
        for name, lv in (("minimal", MINIMAL_PASSES), ("fast", FAST_PASSES), ("standard", STANDARD_PASSES)):
            node = optimize_and_finalize(head, lv, OptimizerConfig(None, None))
            it = Interpreter()
            it.set(20, 0, x)
            it.run(node)
            got = it.get(20, 1)
            if got != want:
                out.finding(spec[1], f"{name}: switch over {cases} on {x!r} takes case {got}, the program takes {want}")
        out.counts["probes"] += 1
        return out


CHECK = Check("C05", {"switches": 6, "switch_chains": 3, "chain_joins": 3, "switch_loops": 2}, quick=1200, thorough=30000, max_paths=24)
