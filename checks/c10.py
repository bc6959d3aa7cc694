"""Packed node lists decode to the trees that were added: the real OutputNodeGenerator executed with symbolic leaf
values (every equality pattern among them is a path), and translation validation of packed engine data."""

import os
import random
import time
from types import SimpleNamespace

from checks.lawbase import LawCheck
from engine import pysym, runner, tv
from engine import sym as S
from engine.pysym import N

_env = {}


class Leaf(N):
    """A symbolic number usable as a dict key: one hash for all, equality decided by the path."""

    __slots__ = ()

    def __hash__(self):
        return 17

    def __eq__(self, o):
        if not isinstance(o, (int, float)):
            return NotImplemented
        return N.__eq__(self, o)

    def __ne__(self, o):
        if not isinstance(o, (int, float)):
            return NotImplemented
        return N.__ne__(self, o)


class Const(float):
    """A constant leaf, hashed like the symbolic ones so that they can meet in a dict."""

    def __hash__(self):
        return 17

    def __eq__(self, o):
        return float.__eq__(self, o) if not isinstance(o, N) else o.__eq__(self)


def leaf(L, name):
    v = L.var(name)
    if isinstance(v, N):
        x = float.__new__(Leaf, 0.0)
        x.t = v.t
        return x
    return v


def env():
    if not _env:
        import sonolus
        from sonolus.backend import node, ops

        path = os.path.join(os.path.dirname(sonolus.__file__), "build/node.py")
        _env["sym"] = pysym.load(path, "sym_build_node")
        _env["node"], _env["ops"] = node.FunctionNode, ops.Op
    return _env


OPS = ("Add", "Get", "Set", "Execute", "Multiply", "SwitchWithDefault", "If")


def shape(rng, tier):
    """A list of constructions: ("leaf", var) | ("fn", op, args) with args naming earlier constructions."""
    nvars = rng.randint(2, 4)
    items = []
    roots = []
    for k in range(rng.randint(4, 9 if tier == "quick" else 13)):
        r = rng.random()
        if r < 0.4 or not items:
            items.append(("leaf", rng.randrange(nvars)))
        elif r < 0.45:
            items.append(("const", rng.choice((0, 1, 1.0, 0.0, 2, -1))))
        elif r < 0.62 and any(i[0] == "fn" and i[2] for i in items):
            # a near copy of an earlier tree: operands permuted, changed, dropped or added, or another operation
            _, op, args = rng.choice([i for i in items if i[0] == "fn" and i[2]])
            args = list(args)
            c = rng.randrange(5)
            if c == 0:
                rng.shuffle(args)
            elif c == 1:
                args[rng.randrange(len(args))] = (rng.randrange(len(items)), False)
            elif c == 2:
                args.pop(rng.randrange(len(args)))
            elif c == 3:
                args.append(rng.choice(args))
            else:
                op = rng.choice(OPS)
            items.append(("fn", op, tuple(args)))
        else:
            n = rng.choice((0, 1, 1, 2, 2, 2, 3))
            args = []
            for _ in range(n):
                # a second copy of an earlier construction is a distinct but structurally equal object
                args.append((rng.randrange(len(items)), rng.random() < 0.5))
            items.append(("fn", rng.choice(OPS[:3]) if rng.random() < 0.7 else rng.choice(OPS), tuple(args)))
        if rng.random() < 0.4:
            roots.append(k)
    roots.append(len(items) - 1)
    roots += rng.sample(roots, min(len(roots), 2))
    return nvars, items, roots


class Tree:
    """Own representation: (op, children) or a leaf, compared structurally without the code under test."""

    def __init__(self, op, kids, val=None):
        self.op, self.kids, self.val = op, kids, val


def same_tree(a, b):
    if (a.op is None) != (b.op is None):
        return False
    if a.op is None:
        return bool(a.val == b.val)
    return a.op == b.op and len(a.kids) == len(b.kids) and all(same_tree(x, y) for x, y in zip(a.kids, b.kids))


def pack(seed, tier):
    def body(L):
        e = env()
        rng = random.Random(seed)
        nvars, items, roots = shape(rng, tier)
        sym = L.concrete is None
        vs = [leaf(L, f"x{k}") for k in range(nvars)]
        gen = (e["sym"] if sym else __import__("sonolus.build.node", fromlist=["x"])).OutputNodeGenerator()
        trees, objs = [], []

        def build(k):
            it = items[k]
            if it[0] == "leaf":
                return vs[it[1]], Tree(None, (), vs[it[1]])
            if it[0] == "const":
                c = Const(it[1]) if sym else it[1]
                return c, Tree(None, (), c)
            kids, obs = [], []
            for j, fresh in it[2]:
                o, t = build(j) if fresh else (objs[j], trees[j])
                obs.append(o)
                kids.append(t)
            op = e["ops"](it[1])
            return e["node"](op, tuple(obs)), Tree(op.value, tuple(kids))

        for k in range(len(items)):
            o, t = build(k)
            objs.append(o)
            trees.append(t)
        added = []
        snap = []

        def decode(i, top, tree, label):
            if not (type(i) is int and 0 <= i < top):
                L.fail(f"{label}: index {i!r} is not an entry before {top}")
            n = nodes[i]
            if tree.op is None:
                if set(n) != {"value"}:
                    L.fail(f"{label}: entry {i} is {n} instead of a value")
                L.same(f"{label} value", n["value"], tree.val)
                return
            if set(n) != {"func", "args"} or n["func"] != tree.op or len(n["args"]) != len(tree.kids):
                L.fail(f"{label}: entry {i} is {n} instead of {tree.op} with {len(tree.kids)} operands")
            for a, t in zip(n["args"], tree.kids):
                decode(a, i, t, label)

        for step, k in enumerate(roots):
            i = gen.add(objs[k])
            nodes = gen.get()
            L.check(f"add {step} leaves earlier entries alone", len(nodes) >= len(snap) and all(a is b and frozen(a) == f for a, (b, f) in zip(nodes, snap)))
            snap = [(n, frozen(n)) for n in nodes]
            added.append((k, i))
            for kk, ii in added:
                decode(ii, len(nodes), trees[kk], f"tree {kk} at {ii} after add {step}")
        # equal subtrees share one entry: as many entries as distinct subtrees
        distinct = []

        def walk(t):
            for d in distinct:
                if same_tree(d, t):
                    return
            distinct.append(t)
            for x in t.kids:
                walk(x)

        for k, _ in added:
            walk(trees[k])
        L.check(f"{len(nodes)} entries for {len(distinct)} distinct subtrees", len(nodes) == len(distinct))
        for a in range(len(added)):
            for b in range(a):
                eq = same_tree(trees[added[a][0]], trees[added[b][0]])
                L.check("equal trees get the same index, different trees different ones", (added[a][1] == added[b][1]) == eq)

    return body


def frozen(n):
    return ("v", id(n["value"])) if "value" in n else (n["func"], tuple(n["args"]))


def plain_decode(nodes, i, e, seen=None):
    n = nodes[i]
    if "value" in n:
        return n["value"]
    args = []
    for a in n["args"]:
        if not 0 <= a < i:
            raise ValueError(f"entry {i} refers to {a}")
        args.append(plain_decode(nodes, a, e))
    return e["node"](e["ops"](n["func"]), tuple(args))


FAMS = ("mix", "branches", "switches", "arrays", "loops", "temps")


class Check(LawCheck):
    prop = "C10"
    functions = (
        "sonolus/build/node.py:OutputNodeGenerator.add, get",
        "sonolus/backend/_opt/driver.pyx:compile_mode (run on real callbacks; its packed output is decoded and validated)",
    )
    assumptions = (
        "leaves are finite numbers; 0.0 and -0.0 are one value",
        "engine data checked through compile_mode is validated against the source control-flow graphs as in C01",
    )
    n = {"quick": (500, 60), "thorough": (12000, 900)}

    def jobs(self, tier, seed):
        p, d = self.n[tier]
        return [(tier, "drive", seed * 7919 + k) for k in range(d)] + [(tier, "pack", seed * 1000003 + k) for k in range(p)]

    def law(self, spec):
        return pysym.Law(pack(spec[2], spec[0]), max_paths=40 if spec[0] == "quick" else 400, zx_ms=1500, zf_ms=2000)

    def seconds(self, spec):
        return 6 if spec[0] == "quick" else 40

    def work(self, spec):
        return self.drive(spec) if spec[1] == "drive" else super().work(spec)

    def drive(self, spec):
        """Several callbacks packed into one node list by the real driver; every index must still mean its source."""
        from engine import families
        from sonolus.backend._opt import driver
        from sonolus.backend.optimize import STANDARD_PASSES

        e = env()
        rng = random.Random(spec[2])
        out = runner.Out()
        progs, names = {}, []
        for k in range(rng.randint(2, 4)):
            pr = families.FAMILIES[rng.choice(FAMS)](spec[2] * 11 + k)
            if pr.readonly:
                pr = families.FAMILIES["arrays"](spec[2] * 11 + k)
            name = f"cb{k}"
            progs[name] = pr
            names.append(name)
        if rng.random() < 0.5:
            progs["again"] = progs[names[0]]
            names.insert(rng.randrange(1, len(names) + 1), "again")
        cbs = [(SimpleNamespace(name=n), n) for n in names]
        try:
            with runner.under_test():
                data = driver.compile_mode(None, None, None, cbs, lambda p, m, cb, name, a: progs[name].entry, STANDARD_PASSES)
        except Exception as x:  # noqa: BLE001
            if "nfinite loop" in str(x) or "Temporary memory" in str(x):
                out.skipped.append("a callback is rejected")
                return out
            out.finding(f"drive:{spec[2]}", f"packing valid callbacks fails: {type(x).__name__}: {x}", job=spec)
            return out
        nodes = data["nodes"]
        if "again" in data and data["again"] != data[names[0] if names[0] != "again" else names[1]]:
            out.finding(f"drive:{spec[2]}:share", "the same callback twice got two different indices", job=spec)
        for name in names:
            try:
                tree = plain_decode(nodes, data[name], e)
            except Exception as x:  # noqa: BLE001
                out.finding(f"drive:{spec[2]}:{name}", f"{name}: the packed list does not decode: {type(x).__name__}: {x}", job=spec)
                continue
            findings, stats, info = tv.check(
                progs[name].entry,
                tree,
                tv.Opts(seed=spec[2], max_paths=10 if spec[0] == "quick" else 30, deadline=time.time() + (4 if spec[0] == "quick" else 20)),
            )
            for k, v in stats.asdict().items():
                out.counts[k if k != "solver_s" else "solver_ms"] += int(v * 1000) if k == "solver_s" else v
            out.counts["compared"] += info.get("compared", 0)
            out.counts["packed_callbacks"] += 1
            for f in findings:
                if isinstance(f, tv.Finding):
                    out.finding(f"drive:{spec[2]}:{name}", f"callback {name} of {len(names)} decoded from the packed list: {f.kind} {f.detail}", job=spec, **f.replay)
                else:
                    out.inconclusive.append(f"{f.kind} {str(f.detail)[:100]}")
        return out

    def bounds(self, tier):
        p, d = self.n[tier]
        return {
            "tree_sets": p,
            "constructions_per_set": 9 if tier == "quick" else 13,
            "symbolic_leaves": "2-4 per set, every equality pattern",
            "paths_per_set": 40 if tier == "quick" else 400,
            "packed_engines": d,
        }

    def coverage(self, agg, tier):
        return {**super().coverage(agg, tier), "packed_callbacks": agg.counts["packed_callbacks"]}


CHECK = Check()
