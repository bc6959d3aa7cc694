"""Sorting linked lists of entities: `sort_linked_entities` compiled in a callback and executed with symbolic keys.

A program has entities of an archetype (and a subclass) linked through reference fields, and a callback that sorts the
list, possibly several times by different keys, or two lists in turn, and walks over each result. The compiled callback
is executed on entity memory whose keys are symbolic; on every path each list it leaves must be the stably sorted
permutation of the list it found, correctly ended (and linked back), and nothing else may have changed.
"""

import os
import random
import sys
import types

from . import fe, pysym, runner
from . import sym as S
from .fe import FeRun, Prog
from .felayout import blk, probe, real_ns
from .irsem import Machine, Obligation
from .pysym import bterm, term, wrap, wrapb

HEAD = """from __future__ import annotations


class P(Record):
    x: int
    y: float

"""
KEYS = ("k", "m", "p.x", "p.y")


class Link:
    def __init__(self, seed):
        self.r = random.Random(seed * 2713 + 9)

    # the program -----------------------------------------------------------
    def program(self, shape=None):
        r = self.r
        self.mode = r.choice(["PLAY", "PLAY", "WATCH"])
        self.cb = r.choice(["update_sequential", "preprocess"]) if self.mode == "PLAY" else "update_sequential"
        base = {"PLAY": "PlayArchetype", "WATCH": "WatchArchetype"}[self.mode]
        self.double = r.random() < 0.5
        st = lambda: "shared_memory" if self.cb != "preprocess" or r.random() < 0.5 else "imported"
        fields = [("k", r.choice(["int", "float", "Num"])), ("m", "float"), ("p", "P")]
        links = [("nxt", "EntityRef[Node]")]
        if self.double or r.random() < 0.4:
            links.append(("prv", "EntityRef[Node]"))
        if r.random() < 0.4:
            fields.append(("z", "float"))
        al = fields + links
        r.shuffle(al)
        L = ["class Node(%s):" % base]
        for n, t in al:
            s = r.choice(["shared_memory", "imported"]) if (n, t) in fields else st()
            L.append(f"    {n}: {t} = {s}()")
        self.leafs = [l for n, t in al for l in ((n + ".index",) if "Ref" in t else (n + ".x", n + ".y") if t == "P" else (n,))]
        L += ["    def probe(self):"] + [f"        log(self.{l})" for l in self.leafs] + [""]
        L += ["    def weight(self):", "        return self.m - self.p.x", ""]
        L += ["class Sub(Node):", "    extra: float = shared_memory()", ""]
        # the lists
        if shape is None:
            shape = [r.choice([0, 1, 2, 3, 3, 4, 4])] + ([r.choice([0, 1, 2, 3])] if r.random() < 0.3 else [])
        self.total = sum(shape) + r.choice([0, 1, 2])
        ids = r.sample(range(1, self.total + r.choice([1, 1, 4])), self.total)
        self.ids, self.lists, k = ids, [], 0
        for n in shape:
            self.lists.append(ids[k : k + n])
            k += n
        self.ends = [r.choice([0, 0, -1]) for _ in shape]
        self.kinds = {i: r.choice(["Node", "Node", "Sub"]) for i in ids}
        L += [f"class Main({base}):"]
        self.heads = []
        for j, _ in enumerate(shape):
            self.heads.append(f"h{j}")
            L.append(f"    h{j}: EntityRef[Node] = shared_memory()")
        L += ["    def probe(self):"] + [f"        log(self.{h}.index)" for h in self.heads] + [""]
        L += [f"    def {self.cb}(self):"]
        self.sorts, last, cur = [], {}, {}
        steps = [j for j in range(len(shape))]
        if shape[0] <= 3 and r.random() < 0.35:
            steps.append(0)
        if r.random() < 0.2:
            r.shuffle(steps)
        for k, j in enumerate(steps):
            src = cur.get(j, f"self.h{j}")
            if src.startswith("self") and r.random() < 0.2:
                src = f"EntityRef[Node](self.h{j}.index)"
            key = r.choice(
                ["e.k", "e.k", "e.k", "-e.k", "e.p.x", "e.p.y", "e.k + e.m", "abs(e.k)", "(e.k if e.m > 0 else e.p.x)", "e.weight()"]
                if shape[j] <= 3
                else ["e.k", "e.k", "e.k", "-e.k", "e.k + e.m", "e.p.y", "e.weight()"]
            )
            args = [f"get_value=lambda e: {key}", "get_next_ref=lambda e: e.nxt"]
            if self.double and r.random() < 0.85:
                args.append("get_prev_ref=lambda e: e.prv")
            r.shuffle(args)
            if r.random() < 0.5 or not args[-1].startswith("get_"):
                L.append(f"        r{k} = sort_linked_entities({src}, {', '.join(args)})")
            else:
                L += ["        def key(e):", f"            return {key}"]
                args = [a if "get_value" not in a else "get_value=key" for a in args]
                L.append(f"        r{k} = sort_linked_entities({src}, {', '.join(args)})")
            L += [f"        w{k} = +r{k}", f"        while w{k}.index > 0:", f"            log(w{k}.index)", f"            w{k}.index = w{k}.get().nxt.index", "        log(-1)"]
            if k and r.random() < 0.3:
                L.append("        log(-2)")
                self.sorts.append(None)
            cur[j] = f"r{k}"
            self.sorts.append((j, key, any("prev" in a for a in args)))
            if L[-1].endswith("log(-2)"):
                self.sorts[-2:] = [self.sorts[-1], None]
            if r.random() < 0.2:
                L.append(f"        self.h{j} @= r{k}" if False else f"        self.h{j} = r{k}")
                last[j] = True
                cur[j] = r.choice([f"r{k}", f"self.h{j}"])
        self.moved = last
        self.free = None
        return self.prog(L)

    def prog(self, lines):
        p = Prog(HEAD + "\n".join(lines) + "\n", [])
        p.link = self
        return p

    # which keys are symbolic --------------------------------------------------
    def setting(self, n):
        """For long lists: all keys fixed but a few."""
        r = self.r
        self.free = set(r.sample(self.ids, min(n, len(self.ids))))
        self.fixed = {}
        hi = r.choice([3, 6, 20])
        for i in self.ids:
            for l in KEYS:
                self.fixed[i, l] = float(r.randrange(-hi, hi))
        for l in KEYS:  # a few presorted shapes
            z = r.random()
            if z < 0.3:
                xs = sorted((self.fixed[i, l] for i in self.ids), reverse=z < 0.15)
                self.fixed.update({(i, l): x for i, x in zip(self.ids, xs)})


class Compiled(fe.Compiled):
    def __init__(self, prog, checks="NONE"):
        from sonolus.script.containers import sort_linked_entities

        e = fe.env()
        self.prog, link = prog, prog.link
        fe._count[0] += 1
        path = os.path.join(fe.scratch(), f"p{fe._count[0]}.py")
        with open(path, "w") as f:
            f.write(prog.src)
        mod = types.ModuleType(f"felink{fe._count[0]}")
        ns = mod.__dict__
        ns.update(log=e["debug_log"], Num=e["Num"], **real_ns(), sort_linked_entities=sort_linked_entities)
        sys.modules[mod.__name__] = mod  # self-references are resolved in the module
        self._trees = {}
        try:
            with runner.under_test():
                exec(compile(prog.src, path, "exec"), ns)
                archs = [ns["Node"], ns["Sub"], ns["Main"]]
                random.Random(len(prog.src)).shuffle(archs)
                self.ids = {a.__name__: k for k, a in enumerate(archs)}
                e["clear_frontend_caches"]()
                self.project = e["ProjectContextState"](runtime_checks=e["RuntimeChecks"][prog.checks or checks])
                self.mode = e["ModeContextState"](e["Mode"][link.mode], archs)
                name = {"preprocess": "preprocess", "update_sequential": "updateSequential"}[link.cb]
                self.cfgs = {
                    k: e["callback_to_cfg"](self.project, self.mode, ns[c].__dict__[f], n, archetype=ns[c])
                    for k, c, f, n in [("main", "Main", link.cb, name), ("self", "Main", "probe", "preprocess"), ("node", "Node", "probe", "preprocess")]
                }
        except e["CompilationError"] as x:
            c = x
            while isinstance(c, e["CompilationError"]) and c.__cause__ is not None:
                c = c.__cause__
            raise fe.Rejected(f"{type(c).__name__}: {c}") from None
        except (TypeError, ValueError) as x:
            raise fe.Rejected(f"{type(x).__name__}: {x}") from None
        finally:
            os.remove(path)
            sys.modules.pop(mod.__name__, None)
        self.entry, self.callback = self.cfgs["main"], name
        self.rom = list(self.project.rom.values)

    def run_real(self, cells, level):
        from sonolus.backend import interpret
        from sonolus.backend.ops import Op

        log, written = [], set()

        class I(interpret.Interpreter):
            def run(self, node):
                if getattr(node, "func", None) == Op.DebugLog:
                    log.append(float(self.run(node.args[0])))
                    return 0.0
                return super().run(node)

            def set(self, block, index, value):
                written.add((int(block), int(index)))
                return super().set(block, index, value)

        it = fe.limited(I)()
        for (b, i), v in cells.items():
            it.set(b, i, float(v))
        for k, v in enumerate(self.rom):
            it.set(fe.ROM, k, v)
        written.clear()
        it.run(self.tree(level))
        return log, it, written


class Obj:
    """An entity for the key functions: e.k, e.p.x, ..."""

    def __init__(self, vals):
        for l, v in vals.items():
            o = self
            *path, f = l.split(".")
            for a in path:
                if not hasattr(o, a):
                    setattr(o, a, Obj({}))
                o = getattr(o, a)
            setattr(o, f, v)

    def weight(self):
        return self.m - self.p.x


ARRAY = {"EntityData": "EntityDataArray", "EntitySharedMemory": "EntitySharedMemoryArray"}


def body(prog, comp):
    link = prog.link
    ids = {v["id"]: k for k, v in fe_blocks(link.mode).items()}
    problems = []
    places, _ = probe(comp.cfgs["node"], comp.rom)
    if len(places) != len(link.leafs) or None in places or len({*places}) != len(places):
        problems.append(f"fields of Node are read from {places}")
    else:
        places = [(blk(link, ARRAY[ids[b]]), i) for b, i in places]
    heads, _ = probe(comp.cfgs["self"], comp.rom)
    if len(heads) != len(link.heads) or None in heads:
        problems.append(f"fields of Main are read from {heads}")
    at = dict(zip(link.leafs, places))

    def cellof(i, l):
        b, k = at[l]
        return b, 32 * i + k

    def go(L):
        sym = L.concrete is None
        for p in problems:
            L.check(p, False)
        if problems:
            return
        cell, nodes = {}, {}
        for i in link.ids:
            vals = {}
            for l in link.leafs:
                if l.endswith(".index"):
                    v = float(link.r0.get((i, l), 0))
                elif link.free is not None and i not in link.free and l in KEYS:
                    v = link.fixed[i, l]
                else:
                    v = L.var(f"e{i}_{l}", -8 if link.free is None else -22, 8 if link.free is None else 22)
                vals[l] = v
                cell[cellof(i, l)] = v
            nodes[i] = Obj(vals)
        for j, h in enumerate(heads):
            cell[h] = float(link.lists[j][0] if link.lists[j] else link.ends[j])
        info, infoa = blk(link, "EntityInfo"), blk(link, "EntityInfoArray")
        me = max(link.ids, default=0) + 1
        for k, v in enumerate((me, comp.ids["Main"], 1)):
            cell[info, k] = cell[infoa, 3 * me + k] = float(v)
        for i in link.ids:
            for k, v in enumerate((i, comp.ids[link.kinds[i]], 1)):
                cell[infoa, 3 * i + k] = float(v)
        if sym:
            known = {p: term(v) for p, v in cell.items()}

            def init(b, i):
                cb, ci = S.cval(b), S.cval(i)
                if ci is not None and (cb, ci) in known:
                    return known[cb, ci]
                if cb == fe.ROM and ci is not None and 0 <= ci < len(comp.rom):
                    return S.const(comp.rom[int(ci)])
                raise Obligation("fault", f"read outside the declared storage: block {cb} index {ci}")

            m = Machine(pysym.PATH, False, init=init)
            try:
                FeRun(m, max_steps=40000, max_visits=4000).run(comp.entry)
            except Obligation as e:
                L.check(f"{e.kind} {e.detail}", wrapb(S.not_(e.cond)) if e.cond is not None else False)
                return
            except S.Undefined as e:
                L.check(f"undefined {e}", False)
                return
            log = [S.cval(S.lin(S.norm(S.res(a[0])))) for _, a, _ in m.events]
            if None in log:
                L.check("the walk logs a computed index", False)
                return
            written = set()
            for b, i, _ in m.log:
                cb, ci = S.cval(S.norm(b)), S.cval(S.lin(S.norm(i)))
                written.add((cb, ci))
            read = lambda p: S.cval(S.lin(S.norm(m.read_raw(S.const(p[0]), S.const(p[1])))))
            raw = lambda p: wrap(m.read_raw(S.const(p[0]), S.const(p[1])))
        else:
            try:
                log, it, written = comp.run_real(cell, "minimal")
            except Exception as x:  # noqa: BLE001
                raise pysym.Failed(f"minimal: the compiled callback fails: {type(x).__name__}: {x}") from None
            read = raw = lambda p: it.get(*p)
        # each walk
        walks, w = [], []
        for v in log:
            if v == -1:
                walks.append(w)
                w = []
            elif v == -2:
                pass
            else:
                w.append(int(v) if v == int(v) else v)
        todo = [s for s in link.sorts if s is not None]
        if len(walks) != len(todo) or w:
            L.check(f"{len(walks)} walks of {len(todo)} end", False)
            return
        now = [list(x) for x in link.lists]
        back = set()
        for k, ((j, key, prev), w) in enumerate(zip(todo, walks)):
            old = now[j]
            if sorted(w) != sorted(old):
                L.check(f"sort {k}: the nodes {old} become {w}", False)
                return
            val = {i: eval(f"lambda e: {key}", {"abs": pysym_abs})(nodes[i]) for i in w}
            for a, b in zip(w, w[1:]):
                x, y = val[a], val[b]
                before = old.index(a) < old.index(b)
                if sym:
                    c = bterm(x <= y) if before else bterm(x < y)
                    L.check(f"sort {k} of {old} gives {w}: {a} before {b}", wrapb(c))
                else:
                    L.check(f"sort {k} of {old} gives {w}: node {a} with key {x:g} comes before node {b} with key {y:g}", x <= y if before else x < y)
            now[j] = w
            if prev:
                back.add(j)
            else:
                back.discard(j)
        # the memory it leaves
        expect = dict(cell)
        for j, w in enumerate(now):
            if j not in {t[0] for t in todo}:
                continue
            for a, b in zip(w, w[1:] + [None]):
                v = read(cellof(a, "nxt.index"))
                ok = v == b if b is not None else v is not None and v <= 0
                L.check(f"the node after {a} of {w} is {v}", ok)
                expect.pop(cellof(a, "nxt.index"))
            if j in back:
                for a, b in zip([None] + w, w):
                    v = read(cellof(b, "prv.index"))
                    ok = v == a if a is not None else v is not None and v <= 0
                    L.check(f"the node before {b} of {w} is {v}", ok)
            if any(t[0] == j and t[2] for t in todo):
                for b in w:
                    expect.pop(cellof(b, "prv.index"), None)
            h = heads[j]
            if j in link.moved:
                expect.pop(h)
        for p, v in expect.items():
            L.same(f"final value of slot {p}", v, raw(p))
        for b, i in written:
            if b in (10000, fe.ROM, None) and b != fe.ROM:
                continue
            L.check(f"slot {(b, i)} outside the declared storage is written", (b, i) in cell)

    return go


def pysym_abs(x):
    return -x if x < 0 else x


def fe_blocks(mode):
    from .felayout import BLOCKS

    return BLOCKS[mode]


def make_law(prog, comp, seed=0, max_paths=200, levels=("cfg",), **kw):
    kw.setdefault("zx_ms", 1500)
    kw.setdefault("zf_ms", 1500)
    return fe.FeLaw(body(prog, comp), max_paths=max_paths, seed=seed, **kw)


def fill(link):
    """The links before the sorts."""
    r = link.r
    link.r0 = {}
    for i in link.ids:
        link.r0[i, "nxt.index"] = r.choice([0, -1, *link.ids])
        link.r0[i, "prv.index"] = r.choice([0, -1, *link.ids])
    for w, end in zip(link.lists, link.ends):
        for a, b in zip(w, w[1:] + [end]):
            link.r0[a, "nxt.index"] = b


def entities(seed):
    """Short lists: every key is symbolic."""
    l = Link(seed)
    p = l.program()
    fill(l)
    return p


def longer(seed):
    """One list of 5 to 20 nodes, all keys fixed but those of two (three) nodes."""
    l = Link(seed + 7_000_000)
    p = l.program([l.r.choice([5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20])])
    fill(l)
    l.setting(2)
    return p


def all5(seed):
    """Lists of five (or six) nodes with every key symbolic."""
    l = Link(seed + 9_000_000)
    p = l.program([l.r.choice([5, 5, 5, 6])])
    fill(l)
    return p
