"""Translation validation: source CFG (P) against emitted node tree (Q).

Both are executed symbolically on the same initial memory, draws and natives; on
every joint path one query asks for an input making any observable differ.
A satisfiable query is a candidate: its model is replayed concretely, with P run by
the reference executor on constants and Q run by the *real* Interpreter.
"""
import itertools
import random
import sys
import time

import z3

from . import spec
from . import sym as S
from .irsem import (
    TEMP,
    CfgRun,
    ConcretePath,
    Machine,
    NodeRun,
    Obligation,
    Stop,
    native_default,
)

sys.setrecursionlimit(20000)


class Finding:
    stop = True

    def __init__(self, kind, detail, replay):
        self.kind = kind
        self.detail = detail
        self.replay = replay

    def __repr__(self):
        return f"Finding({self.kind}: {self.detail})"


class Inconclusive:
    stop = False

    def __init__(self, kind, detail):
        self.kind = kind
        self.detail = detail

    def __repr__(self):
        return f"Inconclusive({self.kind}: {self.detail})"


# ------------------------------------------------------------ concretisation


class Inputs:
    """Concrete initial memory, draw values and natives from a model."""

    def __init__(self, mem=None, draws=None, natives=None, default=-1.0):
        self.mem = mem or {}
        self.draws = draws or []  # per P draw, in P order
        self.natives_map = natives or {}
        self.default = default

    def init(self, b, i):
        return S.const(self.mem.get((S.cval(b), S.cval(i)), self.default))

    def natives(self, name, vals):
        v = self.natives_map.get((name, vals))
        return native_default(name, vals) if v is None else v

    def describe(self):
        return {
            "memory": [[b, i, v] for (b, i), v in sorted(self.mem.items(), key=str)],
            "draws": self.draws,
            "natives": [[n, list(a), v] for (n, a), v in self.natives_map.items()],
            "default": self.default,
        }


def inputs_from_model(terms, lower, model, draws):
    mem, natives = {}, {}
    seen, st = set(), list(terms)

    def val(t):
        return S.z3_num(model.eval(lower(t), model_completion=True))

    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        st.extend(t.args)
        if t.op == "uf" and t.val == "mem":
            mem[tuple(_snap(val(a)) for a in t.args)] = val(t)
        elif t.op == "uf" and (t.val.startswith("native.") or t.val.startswith("effect.")):
            natives[t.val, tuple(val(a) for a in t.args)] = val(t)
    return Inputs(mem, [val(v) for _, _, v in draws], natives)


def _snap(v):
    return float(round(v)) if abs(v) < 1e12 else v


# ------------------------------------------------------------ concrete replay


class DrawMismatch(Exception):
    pass


def concrete_p(entry, inp, limits):
    """(final memory, events, result, draws used) of the reference run on constants."""
    pos = [0]

    def draw(m, op, args):
        k = pos[0]
        pos[0] += 1
        v = inp.draws[k] if k < len(inp.draws) else None
        lo, hi = S.cval(args[0]), S.cval(args[1])
        if op == "RandomInteger":
            v = float(round(v)) if v is not None else lo
            if not lo <= v < hi:
                v = lo
        else:
            if v is None or not min(lo, hi) <= v <= max(lo, hi):
                v = lo
        return S.const(v)

    m = Machine(ConcretePath(), True, init=inp.init, draws=draw, natives=inp.natives)
    CfgRun(m, **limits).run(entry)
    return m


def concrete_q(node, inp, p, dropped=frozenset(), max_steps=200000):
    """Run the real interpreter; returns a dict like summarise()."""
    from sonolus.backend.interpret import Interpreter
    from sonolus.backend.node import FunctionNode
    from sonolus.backend.ops import Op

    steps = [0]
    pos = [0]
    events = []
    pdraws = [
        (op, tuple(S.cval(a) for a in args), S.cval(v))
        for (op, args, v), s in zip(p.draws, p.draw_sites)
        if s not in dropped
    ]

    class Run(Interpreter):
        def __init__(self):
            super().__init__()
            self.over = {}
            self.touched = {}

        def get(self, block, index):
            block = self.ensure_int(block)
            index = self.ensure_int(index)
            assert index >= 0, "Index must be non-negative"
            assert index <= 65535, "Index is too large"
            assert block != TEMP or index < 4096, "temporary out of range"
            k = (float(block), float(index))
            if k in self.over:
                return self.over[k]
            if block == 3000 and index in (0, 1, 2):
                return (float("nan"), float("inf"), float("-inf"))[index]
            return S.cval(inp.init(S.const(block), S.const(index)))

        def set(self, block, index, value):
            block = self.ensure_int(block)
            index = self.ensure_int(index)
            assert index >= 0, "Index must be non-negative"
            assert index <= 65535, "Index is too large"
            assert block != TEMP or index < 4096, "temporary out of range"
            self.over[float(block), float(index)] = value
            return value

        def run(self, node):
            steps[0] += 1
            if steps[0] > max_steps:
                raise TimeoutError("step limit")
            if isinstance(node, FunctionNode):
                op = node.func.value
                if op in ("Random", "RandomInteger"):
                    args = tuple(float(self.run(a)) for a in node.args)
                    while pos[0] < len(pdraws):
                        d = pdraws[pos[0]]
                        pos[0] += 1
                        if d[0] == op and d[1] == args:
                            return d[2]
                    raise DrawMismatch(f"{op}{args} not drawn by the source")
                if op == "DebugLog" or op == "DebugPause":
                    args = tuple(float(self.run(a)) for a in node.args)
                    events.append((op, args))
                    return 0.0
                known = (
                    op in spec.VALUE_OPS
                    or op.startswith("Ease")
                    or op in _CORE
                    or op.startswith(("Set", "Get", "Increment", "Decrement"))
                )
                if not known:
                    args = tuple(float(self.run(a)) for a in node.args)
                    if op in spec.EFFECTS:
                        n = float(len(events))
                        events.append((op, args))
                        return inp.natives("effect." + op, (n, *args))
                    return inp.natives("native." + op, args)
            return super().run(node)

    it = Run()
    try:
        r = it.run(node)
    except RecursionError:
        raise
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        return {"error": f"{type(e).__name__}: {e}"}
    return {"mem": it.over, "events": events, "result": r}


_CORE = {
    "Execute", "Execute0", "If", "Switch", "SwitchWithDefault", "SwitchInteger",
    "SwitchIntegerWithDefault", "While", "DoWhile", "And", "Or", "JumpLoop", "Block",
    "Break", "Copy",
}


def same(a, b):
    a, b = float(a), float(b)
    return a == b or (a != a and b != b)


def compare_concrete(p, q, inp):
    """None if equal, else a description."""
    if "error" in q:
        return f"the source runs to completion but the emitted program fails: {q['error']}"
    pm = {}
    for b, i, v in p.log:
        pm[S.cval(b), S.cval(i)] = S.cval(v)
    pe = [(op, tuple(S.cval(a) for a in args)) for op, args, _ in p.events]
    qe = q["events"]
    if len(pe) != len(qe):
        return f"effects differ: expected {pe} got {qe}"
    for x, y in zip(pe, qe):
        if x[0] != y[0] or len(x[1]) != len(y[1]) or not all(map(same, x[1], y[1])):
            return f"effect differs: expected {x} got {y}"
    for k in sorted(set(pm) | set(q["mem"])):
        if k[0] == TEMP:
            continue
        b = S.cval(inp.init(S.const(k[0]), S.const(k[1])))
        x = pm.get(k, b)
        y = q["mem"].get(k, b)
        if not same(x, y):
            return f"memory {int(k[0])}[{int(k[1])}]: expected {x} got {y}"
    x = S.cval(p.result)
    if not same(x, q["result"]):
        return f"result: expected {x} got {q['result']}"
    return None


# ------------------------------------------------------------ joint check


class Opts:
    def __init__(self, **kw):
        self.max_paths = 48
        self.timeout_ms = 3000
        self.fp_timeout_ms = 1200
        self.p_steps = 400
        self.p_visits = 5
        self.q_steps = 6000
        self.deadline = None
        self.seed = 0
        self.check_event_memory = True
        self.debug = False
        self.readonly = frozenset()
        self.__dict__.update(kw)

    def limits(self):
        return {"max_steps": self.p_steps, "max_visits": self.p_visits}


def used_vars(p):
    obs = [v for _, _, v in p.log] + [x for b, i, _ in p.log for x in (b, i)]
    obs += [a for _, args, _ in p.events for a in args]
    obs += [p.result]
    return S.support([S.res(o) for o in obs] + [c for c in p.path.pc if c not in p.path.aux])


def observables(p, q, event_memory=True):
    """List of (label, bool term that must hold)."""
    out = []

    def same_term(a, b):
        return S.eq(S.norm(a), S.norm(b))

    addrs = {}
    for m in (p, q):
        for b, i, _ in m.log:
            b, i = S.lin(S.norm(b)), S.lin(S.norm(i))
            if S.cval(b) != TEMP:
                addrs[b, i] = None
    for n, (x, y) in enumerate(zip(p.events, q.events)):
        if x[0] != y[0] or len(x[1]) != len(y[1]):
            return [("effects", S.FALSE)]
        for a, b in zip(x[1], y[1]):
            out.append((f"argument of effect {n} {x[0]}", same_term(a, b)))
        if event_memory:
            for b, i in addrs:
                out.append(
                    (f"memory at effect {n}", same_term(p.read_raw(b, i, x[2]), q.read_raw(b, i, y[2])))
                )
    if len(p.events) != len(q.events):
        return [("effects", S.FALSE)]
    for b, i in addrs:
        out.append((f"memory {b}[{i}]", same_term(p.read_raw(b, i), q.read_raw(b, i))))
    out.append(("result", same_term(p.result, q.result)))
    return out


def alignments(p, used=None):
    """Sets of draw sites the optimizer may have deleted: none, all the unused ones, other subsets of those."""
    yield frozenset()
    if used is None:
        dead = list(dict.fromkeys(p.draw_sites))
    else:
        live = {s for (_, _, v), s in zip(p.draws, p.draw_sites) if v in used}
        dead = [s for s in dict.fromkeys(p.draw_sites) if s not in live]
    if not dead:
        return
    for n in range(len(dead), 0, -1):
        for c in itertools.islice(itertools.combinations(dead, n), 16):
            yield frozenset(c)


def check(entry, node, opts, stats=None, label="", on_p=None):
    """Returns (findings, stats, info)."""
    S.reset()
    rng = random.Random(opts.seed)
    ex = S.Explorer(
        max_paths=opts.max_paths, timeout_ms=opts.timeout_ms, rng=rng, deadline=opts.deadline
    )
    info = {"p_paths": 0, "compared": 0, "inconclusive": 0, "draws": 0, "effects": 0, "writes": 0, "max_log": 0}

    def body(path):
        def pdraw(m, op, args):
            v = path.fresh_var("draw")
            lo, hi = args
            if op == "RandomInteger":
                path.assume(S.and_(S.intlike(v), S.le(lo, v), S.le(v, S.sub(hi, S.ONE)), S.lt(v, hi)), aux=True)
            else:
                path.assume(
                    S.or_(S.and_(S.le(lo, v), S.le(v, hi)), S.and_(S.le(hi, v), S.le(v, lo))), aux=True
                )
            return v

        p = Machine(path, True, draws=pdraw)
        p.readonly = opts.readonly
        CfgRun(p, **opts.limits()).run(entry)
        path.ensure_feasible()
        info["p_paths"] += 1
        if on_p:
            on_p(p)
        state = {"pos": 0, "dropped": ()}
        used = used_vars(p) if p.draws else ()

        def qdraw(m, op, args):
            while state["pos"] < len(p.draws):
                pop, pargs, v = p.draws[state["pos"]]
                state["pos"] += 1
                if p.draw_sites[state["pos"] - 1] in state["dropped"]:
                    continue
                if pop == op and len(pargs) == len(args):
                    c = S.and_(*[S.eq(S.norm(a), S.norm(b)) for a, b in zip(args, pargs)])
                    if path.implied(c) is True:
                        return S.res(v)
                if v in used:
                    raise Obligation("draw", f"draw {op}{args} does not match the source's {pop}{pargs}")
            raise Obligation("draw", f"extra draw {op}{args}")

        def attempt(dropped):
            """(viol, kind, what) of the emitted program when the draws of the given sites were deleted."""
            state["pos"], state["dropped"] = 0, dropped
            q = Machine(path, False, draws=qdraw)
            try:
                NodeRun(q, opts.q_steps).main(node)
                obs = observables(p, q, opts.check_event_memory)
                ex.stats.obligations += len(obs)
                bad = [(l, c) for l, c in obs if path.lookup(c) is not True]
                if not bad:
                    return None
                return S.not_(S.and_(*[c for _, c in bad])), "observable", [l for l, _ in bad]
            except S.Undefined as e:
                return S.and_(*q.guards), "fault", [str(e)]
            except S.Cut as e:
                if str(e) != "infeasible":
                    info["q_cut"] = info.get("q_cut", 0) + 1
                    raise S.Cut("Q " + str(e)) from None
                raise
            except Obligation as e:
                return (e.cond if e.cond is not None else S.TRUE), e.kind, [e.detail]

        info["draws"] += len(p.draws)
        info["effects"] += len(p.events)
        info["writes"] += len(p.log)
        first = None
        for dropped in alignments(p, used):
            r = attempt(dropped)
            if r is None or path.lookup(r[0]) is False:
                info["compared"] += 1
                return None
            first = first or r
        info["compared"] += 1
        viol, kind, what = first
        return decide(ex, path, p, viol, kind, what, entry, node, opts, info)

    out = ex.explore(body)
    if stats is not None:
        stats.add(ex.stats)
    info["exhausted"] = int(ex.exhausted)
    info["cuts"] = ex.reasons
    return out, ex.stats, info


def decide(ex, path, p, viol, kind, what, entry, node, opts, info):
    """Discharge or confirm the candidate `viol` on this path."""
    if viol is S.FALSE:
        return None
    terms = [*path.pc, viol]
    for _, args, v in p.draws:
        terms.append(v)
    for b, i, v in p.log:
        terms += [b, i, v]
    terms.append(p.result)

    def attempt(lower, model):
        inp = inputs_from_model(terms, lower, model, p.draws)
        return replay(entry, node, inp, opts)

    # level R
    zv = S.zr(viol)
    r = ex.check(zv)
    if r == z3.unsat:
        return None
    if r == z3.sat:
        d = attempt(S.zr, ex.last_model)
        if d:
            return Finding(kind, f"{what[:3]}: {d[0]}", d[1])
    if opts.debug:
        print("R-sat", kind, what[:3], S.show(S.norm(viol), 12))
    # exact-real arithmetic with small integers, then IEEE doubles
    ex.stats.lvl2 += 1
    for lower, hints, tmo in ((S.zx, True, 700), (S.zx, False, 700), (S.zf, False, opts.fp_timeout_ms)):
        s = z3.Solver()
        s.set("timeout", tmo)
        for c in path.pc:
            s.add(lower(c))
        s.add(lower(viol))
        if hints:
            for x in S.support_apps(terms):
                zx = S.zx(x)
                s.add(z3.IsInt(zx), zx >= -64, zx <= 64)
        if lower is S.zf:
            for x in S.support_apps(terms):
                s.add(z3.Not(z3.fpIsNaN(S.zf(x))), z3.Not(z3.fpIsInf(S.zf(x))))
        t0 = time.perf_counter()
        r = s.check()
        ex.stats.solver_s += time.perf_counter() - t0
        ex.stats.queries += 1
        if r == z3.sat:
            d = attempt(lower, s.model())
            if d:
                return Finding(kind, f"{what[:3]}: {d[0]}", d[1])
        elif r == z3.unsat and lower is S.zf:
            return None
    info["inconclusive"] += 1
    ex.stats.lvl2_unknown += 1
    out = Inconclusive(kind, what[:3])
    out.stop = info["inconclusive"] >= 2
    return out


def replay(entry, node, inp, opts):
    """Concrete replay; returns (description, data) when the difference is real."""
    try:
        p = concrete_p(entry, inp, {"max_steps": 100000, "max_visits": 5000})
    except (S.Undefined, S.Cut):
        return None
    except (OverflowError, ValueError, ZeroDivisionError):
        return None
    d = None
    for dropped in alignments(p):
        d2 = compare_concrete(p, concrete_q(node, inp, p, dropped), inp)
        if d2 is None:
            return None
        d = d or d2
    return d, {"inputs": inp.describe(), "difference": d}
