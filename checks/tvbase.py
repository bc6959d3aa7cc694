"""Translation validation of the optimizer and emitter over program families."""

import time

from engine import runner


LEVELS = ("minimal", "fast", "standard")
FUNCS = [
    "sonolus.backend.optimize.optimize_and_finalize (real compiled passes, run per program)",
    "engine node semantics of the emitted tree (symbolic)",
    "source IR semantics of the control-flow graph (symbolic)",
]


class TVCheck:
    level = "translation_validation"
    hang = 60
    assumptions = (
        "memory cells, draws and native results are finite numbers; arithmetic that both programs perform in the "
        "same order is treated as the same function; rewrites are compared over exact reals and IEEE doubles, and "
        "every reported difference is replayed concretely against sonolus.backend.interpret",
        "documented rewrites are honoured: x*0 = 0, x+0 = x, 0-x = -x, -0.0 = 0.0, boolean short-circuit folds of "
        "constants, reads of never-written temporaries are undefined",
        "paths on which the source program itself faults, or exceeds the step bound, are outside the claim",
    )

    def __init__(self, prop, families, quick, thorough, max_paths=16, per_program=6.0, kinds=None, budget=(240, 5400)):
        self.prop = prop
        self.families = families  # name -> weight
        self.n = {"quick": quick, "thorough": thorough}
        self.max_paths = {"quick": max_paths, "thorough": max_paths * 2}
        self.per_program = {"quick": per_program, "thorough": per_program * 3}
        self.kinds = kinds
        self._budget = {"quick": budget[0], "thorough": budget[1]}
        self.functions = FUNCS
        self.extra = None

    def budget(self, tier):
        return self._budget[tier]

    def bounds(self, tier):
        return {
            "programs": self.n[tier],
            "levels": LEVELS,
            "paths_per_program": self.max_paths[tier],
            "source_steps": 400,
            "visits_per_block": 6,
            "seconds_per_program_and_level": self.per_program[tier],
        }

    def jobs(self, tier, seed):
        tot = sum(self.families.values())
        out = []
        for fam, w in self.families.items():
            n = max(1, round(self.n[tier] * w / tot))
            out += [(tier, fam, seed * 100003 + k) for k in range(n)]
        # interleave the families
        order = {}
        for j in out:
            order.setdefault(j[1], []).append(j)
        mixed = []
        while any(order.values()):
            for v in order.values():
                if v:
                    mixed.append(v.pop(0))
        return mixed

    def work(self, spec):
        from engine import families

        tier, fam, seed = spec
        pr = families.FAMILIES[fam](seed)
        return self.validate(pr, spec, tier, seed)

    def validate(self, pr, spec, tier, seed, levels=LEVELS, label=None):
        from engine import tv
        from sonolus.backend.node import format_engine_node
        from sonolus.backend.optimize import (
            FAST_PASSES,
            MINIMAL_PASSES,
            STANDARD_PASSES,
            OptimizerConfig,
            optimize_and_finalize,
        )
        from sonolus.backend.optimize.flow import cfg_to_text

        lv = {"minimal": MINIMAL_PASSES, "fast": FAST_PASSES, "standard": STANDARD_PASSES}
        out = runner.Out()
        text = cfg_to_text(pr.entry)
        for name in levels:
            try:
                with runner.under_test():
                    node = optimize_and_finalize(pr.entry, lv[name], OptimizerConfig(pr.mode, pr.callback))
            except Exception as e:  # noqa: BLE001
                self.compile_error(out, pr, spec, name, e, text)
                continue
            findings, stats, info = tv.check(
                pr.entry,
                node,
                tv.Opts(
                    seed=seed,
                    max_paths=self.max_paths[tier],
                    deadline=time.time() + self.per_program[tier],
                    readonly=pr.readonly,
                    check_event_memory=True,
                ),
            )
            info.pop("cuts", None)
            out.counts["programs"] += 1
            for k, v in stats.asdict().items():
                out.counts[k if k != "solver_s" else "solver_ms"] += int(v * 1000) if k == "solver_s" else v
            for k in ("compared", "draws", "effects", "writes"):
                out.counts[k] += info.get(k, 0)
            out.counts["vacuous"] += not info.get("compared", 0)
            for f in findings:
                if isinstance(f, tv.Finding):
                    if self.kinds and not self.kinds(f):
                        out.counts["other_kind"] += 1
                        continue
                    out.finding(
                        f"{label or spec[1:]}:{name}",
                        f"{name}: {f.kind} {f.detail}",
                        job=spec,
                        level=name,
                        mode=str(pr.mode),
                        callback=pr.callback,
                        program=text,
                        emitted=format_engine_node(node),
                        **f.replay,
                    )
                else:
                    out.inconclusive.append(f"{name} {f.kind} {str(f.detail)[:120]}")
        if len(text) < 900 and out.counts["compared"]:
            out.samples.append({"job": spec, "program": text, "paths": out.counts["compared"]})
        return out

    def compile_error(self, out, pr, spec, level, e, text):
        if isinstance(e, ValueError) and "nfinite loop" in str(e):
            out.skipped.append("the program is an unconditional infinite loop")
            return
        if "Temporary memory limit exceeded" in str(e) and getattr(pr, "may_reject", False):
            out.counts["rejected"] += 1
            return
        out.finding(
            f"{spec[1:]}:{level}:compile",
            f"{level}: the compiler rejects a valid program: {type(e).__name__}: {e}",
            job=spec,
            level=level,
            program=text,
        )

    def coverage(self, agg, tier):
        c = agg.counts
        return {
            "programs": c["programs"],
            "disagreements_checked": c["obligations"],
            "paths_compared": c["compared"],
            "solver_queries": c["queries"],
            "solver_s": round(c["solver_ms"] / 1000, 2),
            "vacuous_programs": c["vacuous"],
        }
