"""Emission = control-flow graph: allocated graphs (exported after optimization, or with temporaries placed by hand)
against the node tree emitted for them, and the fused pipeline against emitting the exported graph."""

import time

from checks.tvbase import LEVELS, TVCheck
from engine import runner


def place_temps(entry):
    """A copy of the graph with every temporary at a fixed slot of block 10000."""
    from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet
    from sonolus.backend.optimize.flow import BasicBlock, traverse_cfg_preorder
    from sonolus.backend.place import BlockPlace, TempBlock

    base = {}
    top = [0]

    def place(p):
        b, i = p.block, p.index
        off = p.offset
        if isinstance(b, TempBlock):
            if b.name not in base:
                base[b.name] = top[0]
                top[0] += b.size
            off += base[b.name]
            b = 10000
        elif isinstance(b, BlockPlace):
            b = place(b)
        elif not isinstance(b, int):
            b = ir(b)
        if isinstance(i, BlockPlace):
            i = place(i)
        elif not isinstance(i, (int, float)):
            i = ir(i)
        return BlockPlace(b, i, off)

    def ir(e):
        if isinstance(e, IRGet):
            return IRGet(place(e.place))
        if isinstance(e, IRSet):
            return IRSet(place(e.place), ir(e.value))
        if isinstance(e, BlockPlace):
            return place(e)
        if isinstance(e, (IRInstr, IRPureInstr)):
            return type(e)(e.op, [ir(a) for a in e.args])
        return e

    blocks = list(traverse_cfg_preorder(entry))
    new = {id(b): BasicBlock() for b in blocks}
    for b in blocks:
        n = new[id(b)]
        n.statements.extend(ir(s) for s in b.statements)
        n.test = ir(b.test)
        for e in b.outgoing:
            n.connect_to(new[id(e.dst)], e.cond)
    return new[id(entry)]


class Check(TVCheck):
    always_report_known = False
    PROBES = {"shifted-fractional-factor index=2*0.5": (2.0, 0.5)}

    def jobs(self, tier, seed):
        return [("probe", k) for k in self.PROBES] + super().jobs(tier, seed)

    def work(self, spec):
        return self.probe(spec) if spec[0] == "probe" else super().work(spec)

    def probe(self, spec):
        """Get(block, i * s) with an integral product of fractional factors."""
        from sonolus.backend.interpret import Interpreter
        from sonolus.backend.ir import IRGet, IRPureInstr, IRSet
        from sonolus.backend.ops import Op
        from sonolus.backend.optimize import cfg_to_engine_node
        from sonolus.backend.optimize.flow import BasicBlock
        from sonolus.backend.place import BlockPlace

        out = runner.Out()
        i, s = self.PROBES[spec[1]]
        b = BasicBlock()
        get = lambda k: IRGet(BlockPlace(20, k, 0))  # noqa: E731
        b.statements.append(IRSet(BlockPlace(21, 0, 0), IRGet(BlockPlace(22, IRPureInstr(Op.Multiply, [get(0), get(1)]), 0))))
        it = Interpreter()
        it.set(20, 0, i)
        it.set(20, 1, s)
        it.set(22, int(i * s), 7.0)
        try:
            it.run(cfg_to_engine_node(b))
            if it.get(21, 0) != 7.0:
                out.finding(spec[1] + " value", f"reads {it.get(21, 0)} instead of 7.0")
        except AssertionError as e:
            out.finding(spec[1], f"block[i * s] with i={i}, s={s}: the emitted GetShifted is rejected ({e}) although the address is an integer")
        out.counts["probes"] += 1
        return out

    def validate(self, pr, spec, tier, seed, levels=LEVELS, label=None):
        from engine import tv
        from sonolus.backend.node import format_engine_node
        from sonolus.backend.optimize import (
            FAST_PASSES, MINIMAL_PASSES, STANDARD_PASSES, OptimizerConfig, cfg_to_engine_node, optimize_and_finalize, run_passes,
        )  # fmt: skip
        from sonolus.backend.optimize.flow import cfg_to_text

        lv = {"minimal": MINIMAL_PASSES, "fast": FAST_PASSES, "standard": STANDARD_PASSES}
        out = runner.Out()
        cases = []
        name = "unoptimized"
        try:
            placed = place_temps(pr.entry)
            with runner.under_test():
                cases.append((name, placed, [("emitted", cfg_to_engine_node(placed))]))
            # one level per program, rotating
            name = LEVELS[seed % 3]
            cfg = OptimizerConfig(pr.mode, pr.callback)
            with runner.under_test():
                exported = run_passes(pr.entry, lv[name], cfg)
                nodes = [("emitted from the exported graph", cfg_to_engine_node(exported))]
                fused = optimize_and_finalize(pr.entry, lv[name], cfg)
            if fused != nodes[0][1]:
                nodes.append(("emitted directly", fused))
            out.counts["identical"] += fused == nodes[0][1]
            cases.append((name, exported, nodes))
        except Exception as e:  # noqa: BLE001
            self.compile_error(out, pr, spec, name, e, cfg_to_text(pr.entry))
        for name, graph, nodes in cases:
            text = cfg_to_text(graph)
            for how, node in nodes:
                findings, stats, info = tv.check(
                    graph,
                    node,
                    tv.Opts(
                        seed=seed,
                        max_paths=self.max_paths[tier],
                        deadline=time.time() + self.per_program[tier],
                        check_event_memory=True,
                    ),
                )
                out.counts["programs"] += 1
                for k, v in stats.asdict().items():
                    out.counts[k if k != "solver_s" else "solver_ms"] += int(v * 1000) if k == "solver_s" else v
                out.counts["compared"] += info.get("compared", 0)
                out.counts["vacuous"] += not info.get("compared", 0)
                for f in findings:
                    if isinstance(f, tv.Finding):
                        out.finding(
                            f"{spec[1:]}:{name}:{how}",
                            f"{name}, {how}: {f.kind} {f.detail}",
                            job=spec,
                            level=name,
                            mode=str(pr.mode),
                            callback=pr.callback,
                            program=text,
                            emitted=format_engine_node(node),
                            **f.replay,
                        )
                    else:
                        out.inconclusive.append(f"{name} {f.kind} {str(f.detail)[:120]}")
            if len(text) < 900 and out.counts["compared"]:
                out.samples.append({"job": spec, "level": name, "program": text, "paths": out.counts["compared"]})
        return out

    def coverage(self, agg, tier):
        c = super().coverage(agg, tier)
        c["direct_and_exported_trees_identical"] = agg.counts["identical"]
        return c


CHECK = Check(
    "C07",
    {
        "switches": 3, "switch_chains": 2, "arrays": 2, "mix": 3, "algebra": 2, "branches": 2, "loop_shapes": 1, "deferred": 2,
        "alias_shapes": 1, "swaps": 1, "constfold": 1,
    },
    quick=800,
    thorough=20000,
)
CHECK.functions = [
    "sonolus.backend.optimize.cfg_to_engine_node, run_passes, optimize_and_finalize (real compiled code, run per program)",
    "engine node semantics of the emitted tree (symbolic)",
    "IR semantics of the allocated control-flow graph (symbolic)",
]
