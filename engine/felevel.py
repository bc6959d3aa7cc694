"""Level data: entities built in Python, packaged by the real code, and delivered field by field to compiled callbacks;
compared with the values and references the program gave."""

import ast
import os
import random
import re

import z3

from . import fe, femodel as M, pysym, runner
from . import sym as S
from .felayout import Decl, Places, blk, decl, parts, probe
from .fevalue import ANN, ELEM, FIELDS
from .pysym import N

HEAD = """class P(Record):
    x: int
    y: int


class Q(Record):
    p: P
    a: Array[int, 2]


"""
REFS = """class RP(Record):
    r: EntityRef[Base]
    v: int


class RQ(Record):
    a: Array[EntityRef[Base], 2]
    p: P


class R1(Record):
    r: EntityRef[Any]


"""
FIELDS = dict(FIELDS, RP=[("r", "RB"), ("v", "int")], RQ=[("a", "AR2"), ("p", "P")], R1=[("r", "RAny")])
ELEM = dict(ELEM, AR2=("RB", 2), ARP2=("RP", 2), AY2=("RAny", 2))
ANN = dict(
    ANN, RB="EntityRef[Base]", RAny="EntityRef[Any]", RP="RP", RQ="RQ", R1="R1", AR2="Array[EntityRef[Base], 2]", ARP2="Array[RP, 2]",
    AY2="Array[EntityRef[Any], 2]", bool="bool", float="float",
)  # fmt: skip
PLAIN = ["int", "int", "float", "bool", "P", "Q", "A2", "AP2", "AA2", "Pair", "Box"]
WITHREF = ["RB", "RB", "RAny", "RP", "RQ", "R1", "AR2", "ARP2", "AY2"]
NUMS = ("int", "float", "bool")


def leaves(expr, t):
    if t in NUMS:
        return [expr]
    if t in ("RB", "RAny"):
        return [expr + ".index"]
    if t in FIELDS:
        return [x for f, u in FIELDS[t] for x in leaves(f"{expr}.{f}", u)]
    u, n = ELEM[t]
    return [x for i in range(n) for x in leaves(f"{expr}[{i}]", u)]


def size(t):
    return len(leaves("", t))


# ------------------------------------------------------------------ models


class Ent:
    """An entity of the level being built: named values."""

    def __init_subclass__(cls, **k):
        fields = {}
        for c in reversed(cls.__mro__):
            for n, t in c.__dict__.get("__annotations__", {}).items():
                d = c.__dict__.get(n)
                if isinstance(d, Slot):
                    fields[n] = d
                elif isinstance(d, Decl):
                    fields[n] = Slot(n, d.kind, t)
        for n, f in fields.items():
            setattr(cls, n, f)
        cls._fields = {n: f for n, f in fields.items() if f.kind == "imported"}

    def __init__(self, *a, **k):
        vals = dict(zip(self._fields, a), **k)
        self._v = {n: M.stored(vals[n]) if n in vals else M.zero(f.t) for n, f in self._fields.items()}

    def ref(self):
        return Ref(self)


class Slot:
    def __init__(self, name, kind, t):
        self.name, self.kind, self.t = name, kind, t

    def __get__(self, o, owner):
        return self if o is None else o._v[self.name]

    def __set__(self, o, v):
        old = o._v[self.name]
        if isinstance(old, M.PVal):
            old.copy_from(v)
        else:
            o._v[self.name] = v


class Ref(M.PVal):
    def __init__(self, to):
        self.to = to

    def copy(self):
        return Ref(self.to)

    def copy_from(self, o):
        self.to = o.to

    def get(self):
        return self.to

    def __eq__(self, o):
        # Outside a callback, a reference to an entity of the level has no index yet: it holds -1.
        x, y = self.to, o.to
        if isinstance(x, Ent) and isinstance(y, Ent):
            return x is y
        return (-1 if isinstance(x, Ent) else x) == (-1 if isinstance(y, Ent) else y)

    __hash__ = None


class RefType:
    def __call__(self, index):
        return Ref(index)

    def zero(self):
        return Ref(0)

    __pos__ = zero


class PEntityRef:
    def __class_getitem__(cls, a):
        return RefType()


class Level:
    def __init__(self, offset, entities):
        self.offset = offset
        self.entities = []

        def flat(e):
            if isinstance(e, list):
                for x in e:
                    flat(x)
            else:
                self.entities.append(e)

        flat(entities)


def values(v):
    """Leaf values in order: numbers and references."""
    if isinstance(v, Ref):
        return [v]
    if isinstance(v, M.PRecord):
        return [x for n, _ in v._f for x in values(v.__dict__[n])]
    if isinstance(v, M.PSeq):
        return [x for k in range(v.size()) for x in values(v.get(k))]
    return [v]


def oracle_ns():
    ns = M.oracle_ns()
    ns.update(
        PlayArchetype=type("PlayArchetype", (Ent,), {}), imported=decl("imported"), entity_memory=decl("memory"), shared_memory=decl("shared"),
        exported=decl("exported"), EntityRef=PEntityRef, Any=None, LevelData=Level,
    )  # fmt: skip
    return ns


def real_ns():
    from typing import Any

    from sonolus.script.archetype import EntityRef, PlayArchetype, entity_memory, exported, imported, shared_memory
    from sonolus.script.level import LevelData

    return M.real_ns() | dict(locals())


# ------------------------------------------------------------------ generator


class Lev:
    def __init__(self, seed):
        self.r = random.Random(seed * 67 + 11)
        self.lines = []
        self.uid = 0
        self.classes = {}  # name -> [(field, type)] imported, in order
        self.named = {}  # (class, field) -> data name
        self.title = {}
        self.ents = []  # (var, class)
        self.vars = []  # (var, type)

    def w(self, s, k=0):
        self.lines.append("    " * k + s)

    def cls(self, name, base, types, n):
        r = self.r
        self.w(f"class {name}({base}):")
        fields = list(self.classes.get(base, []))
        self.title[name] = name
        if r.random() < 0.4:
            self.title[name] = r.choice([f"#X{name}", f"a {name}", f"{name}_1", "1_" + name, f"音{name}"])
            self.w(f"name = {self.title[name]!r}", 1)
        room = 32 - sum(size(t) for _, t in fields)
        own = []
        for _ in range(n):
            f = f"f{self.uid}"
            self.uid += 1
            z = r.random()
            if z < 0.15:
                self.w(f"{f}: {ANN[r.choice(PLAIN)]} = {r.choice(['entity_memory', 'shared_memory', 'exported'])}()", 1)
                continue
            t = r.choice(types)
            if size(t) > room:
                continue
            room -= size(t)
            arg = ""
            if r.random() < 0.3:
                self.named[f] = r.choice([f"#{f.upper()}", f"n {f}", f"{f}.x", f"x{f}"])
                arg = f"name={self.named[f]!r}"
            self.w(f"{f}: {ANN[t]} = imported({arg})", 1)
            own.append((f, t))
        self.classes[name] = fields + own
        self.w("def preprocess(self):", 1)
        ls = [l for f, t in self.classes[name] for l in leaves(f"self.{f}", t)]
        for l in ls:
            self.w(f"log({l})", 2)
        self.w("log(0)", 2)
        self.w("")

    def num(self):
        r = self.r
        return r.choice(["a", "b", "c", "d", "(a + b)", "(-c)", "(b * 2)", "1", "0", "(-3)", "2.5", "(a - 1)"])

    def boolean(self):
        return self.r.choice(["a > b", "True", "False", "c == 1", "not (b > 0)"])

    def isbase(self, c):
        return c == "Base" or self.bases[c] == "Base"

    def ref(self, t, bare=True):
        r = self.r
        es = [v for v, c in self.ents if t == "RAny" or self.isbase(c)]
        z = r.random()
        have = self.paths(t)
        if have and z < 0.2:
            x = r.choice(have)
            return r.choice(([x] if bare else []) + [f"+{x}", f"copy({x})"])
        if z < 0.28 or not es:
            return f"{ANN[t]}({r.choice(['0', '3', '-1', '7'])})"
        if z < 0.4 and len(es) > 1:
            x, y = r.sample(es, 2)
            return f"({x}.ref() if {r.choice('abc')} > {r.choice(['0', '1', 'd'])} else {y}.ref())"
        return f"{r.choice(es)}.ref()"

    def value(self, t, bare=True):
        r = self.r
        if t == "bool":
            return f"(True if {self.boolean()} else False)"
        if t in NUMS:
            return self.num()
        if t in ("RB", "RAny"):
            return self.ref(t, bare)
        have = self.paths(t)
        if have and r.random() < 0.3:
            return r.choice(["+{}", "copy({})"]).format(r.choice(have))
        if t in FIELDS:
            args = [self.value(u, False) for _, u in FIELDS[t]]
            ctor = {"Pair": "Pair[P, int]", "Box": "Box[P]"}.get(t, t)
            return f"{ctor}({', '.join(args)})"
        u, n = ELEM[t]
        return f"{ANN[t]}({', '.join(self.value(u, False) for _ in range(n))})"

    def paths(self, t, write=False):
        """Expressions of type t inside the entities (and local variables)."""
        out = []

        def go(e, u):
            if u == t:
                out.append(e)
            if u in FIELDS:
                for f, x in FIELDS[u]:
                    go(f"{e}.{f}", x)
            elif u in ELEM:
                x, n = ELEM[u]
                for i in range(n):
                    go(f"{e}[{i}]", x)

        for v, c in self.ents:
            for f, u in self.classes[c]:
                go(f"{v}.{f}", u)
        for v, u in self.vars:
            if not (write and u == t):
                go(v, u)
        return out

    def types(self):
        return sorted({t for v, c in self.ents for _, t in self.classes[c]} | {"int", "RB", "RAny", "P"})

    def stmt(self, k):
        r = self.r
        z = r.randrange(10)
        t = r.choice(self.types())
        if z <= 5:
            ps = self.paths(t, True)
            if ps:
                self.w(f"{r.choice(ps)} = {self.value(t)}", k)
                return
        if z == 6 and t not in NUMS:
            ps = self.paths(t)
            v = f"v{len(self.lines)}"
            self.w(f"{v} = {r.choice(ps) if ps and r.random() < 0.4 else self.value(t)}", k)
            if k == 1:
                self.vars.append((v, t))
            return
        if z == 7:
            ps = self.paths("int", True)
            if ps:
                self.w(f"{r.choice(ps)} = {self.num()}", k)
                return
        if z == 8 and k == 1:
            self.w(f"if {r.choice(['a > b', 'c == 0', 'd > 1'])}:", k)
            self.stmt(k + 1)
            return
        if z >= 8:
            t = r.choice(["int", "RB", "RB", "RAny"])
            ps = self.paths(t)
            if ps:
                p, q = r.choice(ps), r.choice(ps)
                op = r.choice(["==", "!="])
                self.w(f"log({p})" if t == "int" else f"log(1 if {p} {op} {q} else 0)", k)
                return
        v, c = r.choice(self.ents)
        ps = self.paths("RB")
        if ps and self.classes["Base"] and self.classes["Base"][0][1] == "int" and r.random() < 0.5:
            p = r.choice(ps)
            e = r.choice([v for v, c in self.ents if self.isbase(c)] or [None])
            if e:
                self.w(f"{p} = {e}.ref()", k)
                self.w(f"log({p}.get().{self.classes['Base'][0][0]})", k)
                return
        self.w("pass", k)

    def program(self):
        r = self.r
        self.lines = []
        self.bases = {"Base": "PlayArchetype"}
        self.cls("Base", "PlayArchetype", PLAIN, r.choice([1, 2, 3]))
        self.lines.append(REFS)
        for i in range(r.choice([1, 2, 2])):
            c = f"K{i}"
            self.bases[c] = r.choice(["PlayArchetype", "Base"])
            self.cls(c, self.bases[c], PLAIN + WITHREF + WITHREF, r.choice([2, 3, 4]))
        self.w("def main():")
        for k, v in enumerate("abcd"):
            self.w(f"{v} = inp({k})", 1)
        names = list(self.classes)
        for i in range(r.choice([2, 3, 4])):
            c = names[i] if i < len(names) else r.choice(names)
            fs = self.classes[c]
            pos = [self.value(t) for _, t in fs[: r.choice([0, 0, 1, 2])]]
            kw = [f"{f}={self.value(t)}" for f, t in fs[len(pos) :] if r.random() < 0.8]
            r.shuffle(kw)
            self.w(f"e{i} = {c}({', '.join(pos + kw)})", 1)
            self.ents.append((f"e{i}", c))
        for _ in range(r.choice([2, 4, 6, 8])):
            self.stmt(1)
        order = [v for v, _ in self.ents]
        r.shuffle(order)
        if len(order) > 2 and r.random() < 0.5:
            k = r.randrange(1, len(order))
            order = [*order[:k], "[" + ", ".join(order[k:]) + "]"]
        self.w(f"return LevelData({self.num()}, [{', '.join(order)}])", 1)
        p = fe.Prog(HEAD + "\n".join(self.lines) + "\n", [(-4, 4, False)] * 4)
        p.lev = self
        return p


# ------------------------------------------------------------------ the real side


class Compiled:
    def __init__(self, prog, checks="NONE"):
        e = fe.env()
        lev = self.lev = prog.lev
        fe._count[0] += 1
        path = os.path.join(fe.scratch(), f"p{fe._count[0]}.py")
        with open(path, "w") as f:
            f.write(prog.src)
        self.ns = ns = {"__name__": f"feprog{fe._count[0]}", "log": e["debug_log"], **real_ns()}
        self.cfgs = {}
        try:
            with runner.under_test():
                from sonolus.backend.optimize import MINIMAL_PASSES
                from sonolus.build.compile import compile_mode

                exec(compile(prog.src, path, "exec"), ns)
                archs = [ns[c] for c in lev.classes]
                e["clear_frontend_caches"]()
                self.project = e["ProjectContextState"](runtime_checks=e["RuntimeChecks"]["NONE"])
                self.data = compile_mode(e["Mode"].PLAY, self.project, archs, None, level=MINIMAL_PASSES)
                mode = e["ModeContextState"](e["Mode"].PLAY, archs)
                for c in lev.classes:
                    self.cfgs[c] = e["callback_to_cfg"](self.project, mode, ns[c].__dict__["preprocess"], "preprocess", archetype=ns[c])
        except e["CompilationError"] as x:
            c = x
            while isinstance(c, e["CompilationError"]) and c.__cause__ is not None:
                c = c.__cause__
            raise fe.Rejected(f"{type(c).__name__}: {c}") from None
        finally:
            os.remove(path)
        self.rom = list(self.project.rom.values)


def build(L, ns, code, vals, rec, extra):
    ns = dict(ns)
    ns.update(inp=lambda k: vals[k], log=lambda v: rec.append(v), **extra)
    exec(code, ns)
    return ns["main"]()


def body(prog, comp):
    lev = prog.lev
    tree = pysym.SetIn().visit(ast.parse(prog.src))
    ast.fix_missing_locations(tree)
    code = compile(tree, "<oracle>", "exec")
    main = [n for n in ast.parse(prog.src).body if isinstance(n, ast.FunctionDef)][-1]
    real_code = compile(ast.fix_missing_locations(pysym.SetIn().visit(ast.Module([main], []))), "<level>", "exec")
    problems = []
    slots, imports, defs = {}, {}, {}
    byname = {a["name"]: a for a in comp.data["archetypes"]}
    for c, fs in lev.classes.items():
        places, _ = probe(comp.cfgs[c], comp.rom)
        ls = [l for f, t in fs for l in leaves(f, t)]
        places = places[:-1]
        if len(places) != len(ls) or any(p is None or p[0] != blk(LAY, "EntityData") for p in places) or len({*places}) != len(ls):
            problems.append(f"{c}: its {len(ls)} leaves are read from {places}")
            continue
        slots[c] = [p[1] for p in places]
        a = comp.data["archetypes"][list(lev.classes).index(c)]
        if a["name"] != lev.title[c]:
            problems.append(f"{c} is called {a['name']!r} in the engine")
        imports[c] = {i["name"]: i["index"] for i in a["imports"]}
        if len(imports[c]) != len(a["imports"]) or len({*imports[c].values()}) != len(a["imports"]):
            problems.append(f"{c}: imports clash: {a['imports']}")

    def go(L):
        from sonolus.build.level import build_level_data, package_level_data
        from sonolus.script.level import parse_external_level_data

        sym = L.concrete is None
        for p in problems:
            L.check(p, False)
        if problems:
            return
        vals = [L.var(f"x{k}", lo, hi, integer=i) for k, (lo, hi, i) in enumerate(prog.inputs)]
        if not sym:
            vals = [fe.CF(v) for v in vals]
        want_log, got_log = [], []
        want = build(L, {"__name__": "oracle", "int": pysym.Int, "float": pysym.Float, "bool": pysym.p_bool, **oracle_ns()}, code, vals, want_log, {})
        pysym.KEEP_FLOAT = True
        try:
            with runner.under_test():
                got = build(L, comp.ns, real_code, vals if sym else [float(v) for v in vals], got_log, {})
                data = build_level_data(got)
                if sym:
                    back = parse_external_level_data(data)
                else:
                    back = parse_external_level_data(package_level_data(got))
        finally:
            pysym.KEEP_FLOAT = False
        if len(want_log) != len(got_log):
            L.check(f"{len(got_log)} values read back instead of {len(want_log)}", False)
            return
        for k, (x, y) in enumerate(zip(want_log, got_log)):
            L.same(f"value {k} read back from the entities", fe.number(x), fe.number(y))
        L.same("offset", fe.number(want.offset), fe.number(data["bgmOffset"]))
        L.same("offset read back", fe.number(want.offset), fe.number(back.bgm_offset))
        es = data["entities"]
        names = [e["name"] for e in es]
        L.check("one entry per entity", len(es) == len(want.entities) == len(back.entities))
        if len(es) != len(want.entities) or len(back.entities) != len(es):
            return
        L.check(f"entity names are distinct: {names}", len(set(names)) == len(names))
        where = {id(e): k for k, e in enumerate(want.entities)}
        for k, (e, w) in enumerate(zip(es, want.entities)):
            c = type(w).__name__
            L.check(f"entity {k} is a {lev.title[c]!r}, not {e['archetype']!r}", e["archetype"] == lev.title[c] == back.entities[k].archetype)
            keys = [d["name"] for d in e["data"]]
            L.check(f"entity {k}: fields {keys} written once each", len(set(keys)) == len(keys))
            if [x for x in keys if x not in imports[c]]:
                L.check(f"entity {k} writes {keys}, which its archetype does not import as {list(imports[c])}", False)
                return
            cell = {imports[c][d["name"]]: d for d in e["data"]}
            ls = [l for f, t in lev.classes[c] for l in leaves(f, t)]
            exp = [v for f, t in lev.classes[c] for v in values(w._v[f])]
            for f, t in lev.classes[c]:
                if t in NUMS and lev.named.get(f, f) not in keys:
                    L.check(f"entity {k}: field {f} is not written as {lev.named.get(f, f)!r} (but {keys})", False)
            for l, s, v in zip(ls, slots[c], exp):
                d = cell.get(s)
                if d is None:
                    L.check(f"entity {k}: no value arrives in {l}", False)
                    continue
                again = back.entities[k].data.get(d["name"])
                if isinstance(v, Ref) and isinstance(v.to, Ent):
                    i = where[id(v.to)]
                    L.check(f"entity {k}: {l} is {d} instead of a reference to {names[i]!r}", d.get("ref") == names[i] and "value" not in d)
                    L.check(f"entity {k}: {l} reads back as {again!r} instead of {i}", not isinstance(again, N) and again == i)
                    continue
                v = v.to if isinstance(v, Ref) else v
                if "value" not in d or not isinstance(d["value"], (int, float)) or isinstance(again, (bool, type(None))):
                    L.check(f"entity {k}: {l} is {d} (read back as {again!r}) instead of a number", False)
                    continue
                L.same(f"entity {k}: {l}", fe.number(v), fe.number(d["value"]))
                L.same(f"entity {k}: {l} read back", fe.number(v), fe.number(again))

    return go


class LAY:
    mode = "PLAY"


def make_law(prog, comp, seed=0, max_paths=32, levels=("cfg",), **kw):
    kw.setdefault("zx_ms", 1500)
    kw.setdefault("zf_ms", 1500)
    law = fe.FeLaw(body(prog, comp), max_paths=max_paths, seed=seed, **kw)
    law.tolerated = (M.Terminate,)
    return law


def level(seed):
    return Lev(seed).program()


# ------------------------------------------------------------------ names and references as strings


def names_law(n):
    """Names of n entities of archetypes with arbitrary names: a solver over strings finds no two that coincide."""

    def run():
        with runner.under_test():
            from sonolus.build.level import build_level_data
            from sonolus.script.archetype import PlayArchetype
            from sonolus.script.level import LevelData

            def make(titles):
                es = [type(f"C{k}", (PlayArchetype,), {"name": t, "__module__": "gen"})() for k, t in enumerate(titles)]
                return [e["name"] for e in build_level_data(LevelData(0, es))["entities"]]

            marks = [f"\u27e6{k}\u27e7" for k in range(n)]
            out = make(marks)
        zs = []
        for t in out:
            bits = [z3.StringVal(b) if k % 2 == 0 else z3.String(f"n{b}") for k, b in enumerate(re.split("\u27e6(\\d+)\u27e7", t)) if b]
            zs.append(bits[0] if len(bits) == 1 else z3.Concat(*bits) if bits else z3.StringVal(""))
        queries = unknown = 0
        for j in range(len(zs)):
            for i in range(j):
                s = z3.Solver()
                s.set("timeout", 5000)
                names = [z3.String(f"n{k}") for k in range(n)]
                s.add(zs[i] == zs[j], names[i] != names[j], *[z3.InRe(v, z3.Plus(z3.Range(" ", "~"))) for v in names])
                queries += 1
                r = s.check()
                if r == z3.sat:
                    m = s.model()
                    ts = [m.eval(v, model_completion=True).as_string() or "x" for v in names]
                    for k, t in enumerate(ts):
                        ts[k] = t if k in (i, j) else f"{t}?{k}"
                    with runner.under_test():
                        got = make(ts)
                    if got[i] == got[j]:
                        return queries, unknown, f"entities {i} and {j} of archetypes {ts[i]!r} and {ts[j]!r} are both called {got[i]!r}"
                unknown += r == z3.unknown
        return queries, unknown, None

    return run


def parse_body(seed):
    """Reading external level data: symbolic entity names and references, arbitrary values."""
    from checks.c11 import World, eqv
    from sonolus.script import level as mod

    r = random.Random(seed * 29 + 5)
    n = r.choice([1, 2, 2, 3])
    shape = []
    for _ in range(n):
        fields = [r.choice(["value", "ref", "ref"]) for _ in range(r.choice([0, 1, 2]))] if r.random() < 0.9 else None
        shape.append((r.random() < 0.85, fields))
    form = r.choice(["dict", "json", "gzip"])

    def go(L):
        W = World(L)
        names, raw, want = [], [], []
        for k, (named, fields) in enumerate(shape):
            e = {"archetype": W.str(f"arch{k}")}
            if named:
                e["name"] = W.str(f"name{k}")
                for o in names:
                    if o is not None:
                        L.assume(not o == e["name"])
            names.append(e.get("name"))
            raw.append(e)
        for k, (named, fields) in enumerate(shape):
            d = []
            if fields is not None:
                raw[k]["data"] = [] 
            for j, f in enumerate(fields or []):
                key = W.str(f"key{k}_{j}")
                for o, _ in d:
                    L.assume(not o == key)
                if f == "value":
                    v = L.var(f"v{k}_{j}", -4, 4)
                    raw[k]["data"].append({"name": key, "value": v})
                    d.append((key, v))
                    continue
                ref = W.str(f"ref{k}_{j}")
                to = next((i for i, o in enumerate(names) if o is not None and o == ref), None)
                L.assume(to is not None)
                raw[k]["data"].append({"name": key, "ref": ref})
                d.append((key, to))
            want.append(d)
        off = L.var("offset", -4, 4)
        doc = {"bgmOffset": off, "entities": raw}
        save = mod.json, mod.gzip
        if W.sym:

            class Json:
                loads = staticmethod(lambda s: doc if s == "<doc>" else 1 / 0)

            class Gzip:
                decompress = staticmethod(lambda b: b"<doc>" if b == b"<gz>" else 1 / 0)

            mod.json, mod.gzip = Json, Gzip
            arg = {"dict": doc, "json": "<doc>", "gzip": b"<gz>"}[form]
        else:
            import gzip
            import json

            arg = {"dict": lambda: doc, "json": lambda: json.dumps(doc), "gzip": lambda: gzip.compress(json.dumps(doc).encode())}[form]()
        try:
            with runner.under_test():
                got = mod.parse_external_level_data(arg)
        finally:
            mod.json, mod.gzip = save
        L.same("offset", off, got.bgm_offset)
        if len(got.entities) != n:
            L.check(f"{len(got.entities)} entities instead of {n}", False)
            return
        for k, (g, w) in enumerate(zip(got.entities, want)):
            L.check(f"entity {k}: archetype", eqv(g.archetype, raw[k]["archetype"]))
            if len(g.data) != len(w):
                L.check(f"entity {k}: {len(g.data)} fields instead of {len(w)}", False)
                return
            for key, v in w:
                if isinstance(v, float):
                    x = g.data.get(key)
                    if not isinstance(x, float) and not isinstance(x, int):
                        L.check(f"entity {k}: field {key} is {x!r}", False)
                        continue
                    L.same(f"entity {k}: field {key}", v, x)
                else:
                    x = g.data.get(key)
                    L.check(f"entity {k}: reference {key} is {x!r} instead of {v}", not isinstance(x, (N, str, type(None))) and x == v)

    return go
