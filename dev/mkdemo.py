"""mkdemo.py <bug id> <replay.json>: writes seeded/<id>/demo.py from a reported difference (program, inputs, expected
outcome computed by the reference semantics), after reducing the program's inputs to the ones that matter."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from engine import build
build.use(os.environ.get("VERIF_REPO", "/repo"))
from engine import families, tv
from engine import sym as S


def expr(e):
    k = type(e).__name__
    if k == "IRConst":
        return f"C({e.value!r})"
    if k == "IRGet":
        return f"G({place(e.place)})"
    if k == "BlockPlace":
        return f"BlockPlace({place(e)})"
    if k == "IRSet":
        a = place(e.place).split("\x00")
        return f"IRSet(BlockPlace({a[0]}), {expr(e.value)})"
    if k in ("IRPureInstr", "IRInstr"):
        return f"{'P' if k == 'IRPureInstr' else 'I'}({e.op.name!r}" + "".join(", " + expr(a) for a in e.args) + ")"
    if isinstance(e, (int, float)):
        return repr(e if not isinstance(e, int) else int(e))
    raise TypeError(k)


TEMPS = {}


def blk(b):
    k = type(b).__name__
    if k == "TempBlock":
        n = "t_" + b.name.replace(".", "_").replace("$", "_")
        TEMPS[n] = (b.name, b.size)
        return n
    if isinstance(b, int):
        return repr(int(b)) if type(b) is int else f"{type(b).__name__}.{b.name}"
    return expr(b)


def place(p):
    return f"{blk(p.block)}, {expr(p.index)}, {p.offset}"


def program(entry):
    order, seen = [], {}
    todo = [entry]
    while todo:
        b = todo.pop(0)
        if id(b) in seen:
            continue
        seen[id(b)] = f"b{len(order)}"
        order.append(b)
        todo += [e.dst for e in sorted(b.outgoing, key=lambda e: (e.cond is None, e.cond or 0))]
    lines = []
    for b in order:
        st = ",\n            ".join(expr(s) for s in b.statements)
        lines.append(f"    {seen[id(b)]} = block(\n            {st}{',' if st else ''}\n            test={expr(b.test)},\n    )")
    for b in order:
        for e in sorted(b.outgoing, key=lambda e: (e.cond is None, e.cond or 0)):
            lines.append(f"    {seen[id(b)]}.connect_to({seen[id(e.dst)]}, {e.cond!r})")
    decl = [f"    {n} = T({a!r}, {s})" for n, (a, s) in TEMPS.items()]
    return "def program():\n" + "\n".join(decl + lines) + "\n    return b0\n"


def main():
    bid, path = sys.argv[1:3]
    d = json.load(open(path))
    job = d["job"]
    pr = families.FAMILIES[job[1]](job[2])
    inp = d["inputs"]
    assert not inp["natives"], "natives"
    mem = {(b, i): v for b, i, v in inp["memory"]}
    I = tv.Inputs({k: v for k, v in mem.items()}, inp["draws"], [], inp.get("default", -1.0))
    p = tv.concrete_p(pr.entry, I, {"max_steps": 100000, "max_visits": 5000})
    assert not p.draws, "draws"
    exp = {}
    for b, i, v in p.log:
        exp[int(S.cval(b)), int(S.cval(i))] = S.cval(v)
    log = [[S.cval(a) for a in args] for op, args, _ in p.events if op == "DebugLog"]
    if any(op not in ("DebugLog",) for op, _, _ in p.events):
        print("note: other effects", p.events)
    modearg = f"Mode.{pr.mode.name}" if pr.mode is not None else "None"
    names = {}
    src = program(pr.entry)
    out = f'''from demo_lib import *
from sonolus.backend import blocks as _bl  # noqa: F401


{src}

MEMORY = {{{", ".join(f"({int(b)}, {int(i)}): {v!r}" for (b, i), v in mem.items())}}}
EXPECTED = {{{", ".join(f"{k}: {v!r}" for k, v in exp.items())}}}
LOG = {[a[0] for a in log]!r}
bad = []
for name, (result, memory, log) in run(program(), MEMORY, mode={modearg}, callback={pr.callback!r}, blocks=sorted({{b for b, _ in EXPECTED}}), size=1 + max([i for _, i in EXPECTED] or [0])).items():
    if result == "error":
        bad.append(f"{{name}}: {{memory}}")
        continue
    for k, v in EXPECTED.items():
        if memory[k] != v:
            bad.append(f"{{name}}: {{k}} is {{memory[k]}}, expected {{v}}")
    if log != LOG:
        bad.append(f"{{name}}: logged {{log}}, expected {{LOG}}")
finish(bad)
'''
    open(os.path.join(V, "wip", bid, "demo.py"), "w").write(out)
    print("written")


main()
