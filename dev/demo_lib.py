"""Helpers for demonstrations: build a control-flow graph, optimize it, run it on the interpreter."""
import os
import sys

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from sonolus.backend.interpret import Interpreter  # noqa: E402
from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet  # noqa: E402
from sonolus.backend.mode import Mode  # noqa: E402
from sonolus.backend.ops import Op  # noqa: E402
from sonolus.backend.optimize import (  # noqa: E402
    FAST_PASSES,
    MINIMAL_PASSES,
    STANDARD_PASSES,
    OptimizerConfig,
    cfg_to_engine_node,
    optimize_and_finalize,
    run_passes,
)
from sonolus.backend.optimize.flow import BasicBlock, cfg_to_text  # noqa: E402
from sonolus.backend.place import BlockPlace, TempBlock  # noqa: E402

LEVELS = {"minimal": MINIMAL_PASSES, "fast": FAST_PASSES, "standard": STANDARD_PASSES}


def C(v):
    return IRConst(v)


def P(op, *a):
    return IRPureInstr(getattr(Op, op), [C(x) if isinstance(x, (int, float)) else x for x in a])


def I(op, *a):  # noqa: E743
    return IRInstr(getattr(Op, op), [C(x) if isinstance(x, (int, float)) else x for x in a])


def G(block, index=0, offset=0):
    return IRGet(BlockPlace(block, index, offset))


def S(block, value, index=0, offset=0):
    return IRSet(BlockPlace(block, index, offset), C(value) if isinstance(value, (int, float)) else value)


def T(name, size=1):
    return TempBlock(name, size)


def block(*stmts, test=None):
    b = BasicBlock()
    b.statements.extend(stmts)
    if test is not None:
        b.test = test
    return b


def run(entry, memory=None, levels=None, mode=None, callback=None, blocks=(), size=64):
    """{level: (result, {(block, index): value}, log)} on the given initial memory."""
    out = {}
    for name, level in LEVELS.items():
        if levels and name not in levels:
            continue
        node = optimize_and_finalize(entry, level, OptimizerConfig(mode, callback))
        it = Interpreter()
        for (b, i), v in (memory or {}).items():
            it.set(b, i, v)
        try:
            r = it.run(node)
        except Exception as e:  # noqa: BLE001
            out[name] = ("error", f"{type(e).__name__}: {e}", None)
            continue
        mem = {(b, i): it.get(b, i) for b in blocks for i in range(size)}
        out[name] = (r, mem, list(it.log))
    return out


def finish(bad):
    for b in bad:
        print(b)
    print("FAIL" if bad else "ok")
    sys.exit(1 if bad else 0)
