"""Archetype fields and globals: every declared leaf value lives in its own slot of its block.

A generated program declares archetypes (with inheritance and mixins), level memory and level data, and one callback
that reads and writes them, other entities' data, exports and spawns.  A probe callback, run symbolically, tells where
each leaf is read from; slots must be distinct and inside the block the declaration names.  The callback is then
executed symbolically from an arbitrary initial content of all slots and must leave in every slot what Python, running
the same source on models that keep every field separately, has in that field; nothing else may be read or written."""

import ast
import json
import os
import random

from . import fe, femodel as M, pysym, runner
from . import sym as S
from .fe import FeRun, Prog, number
from .fevalue import ANN, ELEM, FIELDS, HEAD, Val
from .irsem import ConcretePath, Machine, Obligation
from .pysym import term, wrap, wrapb

BLOCKS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "blocks_table.json")))
SIZES = {"EntityMemory": 64, "EntityData": 32, "EntitySharedMemory": 32}
SELF = 7
NENT = 3
SIZE = {"int": 1, "P": 2, "Q": 4, "T": 9, "A2": 2, "A3": 3, "AP2": 4, "AP3": 6, "AA2": 4, "Pair": 3, "APR2": 6, "Ref": 1, "Box": 2}
FTYPES = ["int", "int", "int", "P", "P", "Q", "A2", "A3", "AP2", "AA2", "Pair", "APR2", "T", "Ref", "Ref", "Box"]
ANN2 = dict(ANN, Ref="EntityRef[Other]")


def leaves(expr, t):
    """(leaf expression, leaf type) in declaration order."""
    if t in ("int", "Ref"):
        return [(expr + (".index" if t == "Ref" else ""), t)]
    if t in FIELDS:
        return [x for f, u in FIELDS[t] for x in leaves(f"{expr}.{f}", u)]
    u, n = ELEM[t]
    return [x for i in range(n) for x in leaves(f"{expr}[{i}]", u)]


# ------------------------------------------------------------------ models


class Decl:
    def __init__(self, kind):
        self.kind = kind


def decl(kind):
    def f(**k):
        return Decl(kind)

    f.kind = kind
    return f


class PAnnotated:
    def __class_getitem__(cls, a):
        return (a[0], a[1])


def zero(t):
    return M.zero(t)


class Field:
    def __init__(self, name, kind, t):
        self.name, self.kind, self.t = name, kind, t

    def __get__(self, o, owner):
        if o is None:
            return self
        if self.kind == "exported":
            return Export(o, self.name, self.t)
        return o.store(self.kind)[self.name]

    def __set__(self, o, v):
        if self.kind == "exported":
            for path, x in parts("", v):
                o.world.events.append(("ExportValue", self.name + path, x))
            return
        s = o.store(self.kind)
        if isinstance(s[self.name], M.PVal):
            s[self.name].copy_from(v)
        else:
            s[self.name] = v


def parts(path, v):
    if isinstance(v, M.PRecord):
        return [x for n, _ in v._f for x in parts(f"{path}.{n}", v.__dict__[n])]
    if isinstance(v, M.PSeq):
        return [x for k in range(v.size()) for x in parts(f"{path}[{k}]", v.get(k))]
    return [(path, v)]


class Export:
    """Write-only view of an exported field."""

    def __init__(self, o, path, t):
        object.__setattr__(self, "_a", (o, path, t))

    def __setattr__(self, n, v):
        o, path, t = self._a
        for p, x in parts(f"{path}.{n}", v):
            o.world.events.append(("ExportValue", p, x))

    def __getattr__(self, n):
        o, path, t = self._a
        return Export(o, f"{path}.{n}", None)

    def __setitem__(self, i, v):
        o, path, t = self._a
        for p, x in parts(f"{path}[{i if t is None else M.position(i, t.n)}]", v):
            o.world.events.append(("ExportValue", p, x))

    def __getitem__(self, i):
        o, path, t = self._a
        return Export(o, f"{path}[{i}]", None)


class PArch:
    world = None

    def __init_subclass__(cls, **k):
        fields = {}
        for c in reversed(cls.__mro__):
            for n, t in c.__dict__.get("__annotations__", {}).items():
                d = c.__dict__.get(n)
                if isinstance(d, Field):
                    fields[n] = d
                    continue
                if isinstance(t, tuple):
                    t, d = t
                fields[n] = Field(n, d.kind, t)
        for n, f in fields.items():
            setattr(cls, n, f)
        cls._fields = fields

    def __init__(self, index, private):
        self._index = index
        self._s = {k: {} for k in ("imported", "shared", "memory")}
        for f in self._fields.values():
            if f.kind == "exported" or f.kind == "memory" and not private:
                continue
            self._s[f.kind][f.name] = zero(f.t)

    def store(self, kind):
        return self._s[kind]

    @property
    def index(self):
        return self._index

    def ref(self):
        return PRef(self._index, type(self))

    @classmethod
    def at(cls, i, check=True):
        return cls.world.entity(cls, i)

    @classmethod
    def spawn(cls, **k):
        vals = []
        for f in cls._fields.values():
            if f.kind == "memory":
                vals += [(f.name + p, x) for p, x in parts("", k[f.name] if f.name in k else zero(f.t))]
        cls.world.events.append(("Spawn", cls.__name__, [(p, x) for p, x in vals]))


class PRef(M.PRecord):
    index: int

    def __init__(self, index, of):
        object.__setattr__(self, "index", index)
        object.__setattr__(self, "of", of)

    @classmethod
    def zero(cls):
        raise NotImplementedError

    def copy(self):
        return PRef(self.index, self.of)

    def copy_from(self, o):
        object.__setattr__(self, "index", o.index)

    def get(self, check=True):
        return self.of.at(self.index)


class RefType:
    def __init__(self, of):
        self.of = of

    def __call__(self, index):
        return PRef(index, self.of)

    def zero(self):
        return PRef(0, self.of)

    __pos__ = zero


class PEntityRef:
    def __class_getitem__(cls, a):
        return RefType(a)


class Global:
    def __init__(self, types):
        object.__setattr__(self, "_t", types)
        object.__setattr__(self, "_v", {n: zero(t) for n, t in types.items()})

    def __getattr__(self, n):
        return self._v[n]

    def __setattr__(self, n, v):
        if isinstance(self._v[n], M.PVal):
            self._v[n].copy_from(v)
        else:
            self._v[n] = v


def p_global(x):
    if isinstance(x, type) and not issubclass(x, M.PVal):
        return Global(dict(x.__annotations__))
    return M.zero(x)


class World:
    def __init__(self, rec):
        self.events = rec
        self.entities = {}

    def entity(self, cls, i):
        k = M.conc(i, 0, NENT)
        if k is None:
            raise S.Cut("entity index")
        if k not in self.entities:
            self.entities[k] = cls(k, False)
        return self.entities[k]


def oracle_ns(world):
    ns = M.oracle_ns()
    arch = type("PArch", (PArch,), {"world": world})
    del arch._fields
    ns.update(
        PlayArchetype=arch, WatchArchetype=arch, imported=decl("imported"), entity_data=decl("imported"),
        exported=decl("exported"), entity_memory=decl("memory"), shared_memory=decl("shared"), Annotated=PAnnotated,
        level_memory=p_global, level_data=p_global, EntityRef=PEntityRef, callback=lambda **k: lambda f: f,
    )  # fmt: skip
    return ns


def real_ns():
    from typing import Annotated

    from sonolus.script.archetype import (
        EntityRef, PlayArchetype, WatchArchetype, callback, entity_data, entity_memory, exported, imported, shared_memory,
    )  # fmt: skip
    from sonolus.script.globals import level_data, level_memory

    return M.real_ns() | {k: v for k, v in locals().items()}


# ------------------------------------------------------------------ generator


class Lay(Val):
    def __init__(self, seed):
        super().__init__(seed * 7 + 3)
        r = self.r
        self.mode = r.choice(["PLAY", "PLAY", "PLAY", "WATCH"])
        self.cb = r.choice(["preprocess", "preprocess", "update_sequential", "update_sequential", "update_parallel", "terminate"])
        self.ro = set()
        self.roots = []  # (expr, type, writable)
        self.aliases = {}
        self.groups = {}  # leaf -> (block name, entity or None)
        self.exp = []
        self.ref_ok = []
        self.loops = []
        self.decls = []

    def can(self, kind):
        return {
            "imported": self.cb == "preprocess", "shared": self.cb in ("preprocess", "update_sequential"), "memory": True,
            "level_memory": self.cb in ("preprocess", "update_sequential"), "level_data": self.cb == "preprocess",
        }[kind]  # fmt: skip

    def fields(self, prefix, kinds, used, n):
        """Field declarations of one class; used: kind -> size so far."""
        r = self.r
        out = []
        names = list(range(n))
        r.shuffle(names)
        for k in names:
            kind = r.choice(kinds)
            t = r.choice(FTYPES)
            if kind == "exported" and t == "Ref":
                t = "int"
            if prefix != "" and kind == "memory" and t == "Ref":
                t = "P"
            limit = {"memory": 64, "imported": 32, "shared": 32, "exported": 32}[kind]
            if used.get(kind, 0) + SIZE[t] > limit:
                t = "int"
            if used.get(kind, 0) + SIZE[t] > limit:
                continue
            used[kind] = used.get(kind, 0) + SIZE[t]
            out.append((f"{prefix}{k}", kind, t))
        return out

    SPEC = {"imported": "imported", "exported": "exported", "memory": "entity_memory", "shared": "shared_memory"}

    def declare(self, cls, bases, fields):
        r = self.r
        lines = [f"class {cls}({bases}):" if bases else f"class {cls}:"]
        for n, kind, t in fields:
            s = self.SPEC[kind]
            if kind == "imported" and r.random() < 0.3:
                s = "entity_data"
            if bases != "" and r.random() < 0.15:
                lines.append(f"    {n}: Annotated[{ANN2[t]}, {s}{'()' if s == 'entity_data' else r.choice(['', '()'])}]")
            else:
                a = ""
                if kind in ("imported", "exported") and s != "entity_data" and r.random() < 0.3:
                    a = f'name="#{n}"'
                lines.append(f"    {n}: {ANN2[t]} = {s}({a})")
        if len(lines) == 1:
            lines.append("    pass")
        return lines

    def program(self):
        r = self.r
        base = "PlayArchetype" if self.mode == "PLAY" else "WatchArchetype"
        kinds = ["imported", "memory", "memory", "shared"]
        ofields = self.fields("o", kinds, {}, r.choice([1, 2, 3, 5]))
        # Other's own references would be read through another entity: keep them out
        ofields = [(n, k, "P" if t == "Ref" else t) for n, k, t in ofields]
        exp = ["exported"] if self.mode == "PLAY" else []
        used = {}
        shape = r.choice(["plain", "base", "base", "mixin", "mixbase"])
        parts_ = []
        if shape in ("base", "mixbase"):
            parts_.append(("Base", base, self.fields("b", kinds + exp, used, r.choice([1, 2, 3]))))
        if shape in ("mixin", "mixbase"):
            parts_.append(("Mix", "", self.fields("m", kinds + exp, used, r.choice([1, 2]))))
        n_self = r.choice([2, 3, 4, 6])
        if r.random() < 0.15:
            n_self = 14
        own = self.fields("f", kinds + exp, used, n_self)
        supers = {"plain": base, "base": "Base", "mixin": f"Mix, {base}", "mixbase": "Mix, Base"}[shape]
        top = []
        top += self.declare("Other", base, ofields)
        for c, b, fs in parts_:
            top += self.declare(c, b, fs)
        sp = []
        if self.mode == "PLAY":
            sp = [("memory", n, t) for n, k, t in self.fields("s", ["memory"], {}, r.choice([0, 1, 3]))]
            top += self.declare("Sp", base, [(n, k, t) for k, n, t in sp])
        mine = [f for _, _, fs in parts_ for f in fs] + own
        self.sp = [(n, t) for _, n, t in sp]
        self.ofields = ofields
        main = self.declare("Main", supers, own)
        # globals
        gl = []
        for g in range(r.choice([0, 1, 2, 3])):
            kind = r.choice(["level_memory", "level_data"])
            blk = "LevelMemory" if kind == "level_memory" else "LevelData"
            w = self.can(kind)
            if r.random() < 0.6:
                fs = [(f"g{k}", r.choice([t for t in FTYPES if t != "Ref"])) for k in range(r.choice([1, 2, 3]))]
                gl += [f"@{kind}", f"class G{g}:"] + [f"    {n}: {ANN2[t]}" for n, t in fs]
                for n, t in fs:
                    self.root(f"G{g}.{n}", t, w, blk)
            else:
                t = r.choice([t for t in FTYPES if t not in ("Ref", "int")])
                gl.append(f"G{g} = {kind}({ANN2[t]})")
                self.root(f"G{g}", t, w, blk)
        for n, kind, t in mine:
            if kind == "exported":
                self.exp.append((n, t))
                continue
            blk = {"imported": "EntityData", "memory": "EntityMemory", "shared": "EntitySharedMemory"}[kind]
            self.root(f"self.{n}", t, self.can(kind), blk)
        r.shuffle(self.roots)
        for k, v in enumerate("abc"):
            self.w(f"{v} = inp({k})")
        self.vars = [(e, t) for e, t, _ in self.roots if t != "Ref"]
        for _ in range(r.choice([4, 6, 8, 10])):
            self.stmt()
        body = ["    def " + self.cb + "(self):"] + ["    " + l for l in self.lines]
        probe = [f"        log({l})" for l, _, _ in self.leafs()]
        probe = ["    def probe(self):"] + (probe or ["        pass"])
        probe_other = ["    def probe(self):"] + (
            [f"        log({l})" for n, k, t in ofields if k != "memory" for l, _ in leaves(f"self.{n}", t)] or ["        pass"]
        )
        probe_exp = ["    def probe_exp(self):"]
        for n, t in self.exp:
            for l, _ in leaves(f"self.{n}", t):
                probe_exp.append(f"        {l} = {len(probe_exp)}")
        probe_exp.append("        pass")
        probe_sp = ["    def probe(self):"] + ([f"        log({l})" for n, t in self.sp for l, _ in leaves(f"self.{n}", t)] or ["        pass"])
        # insert methods
        def put(cls, lines):
            i = next(k for k, l in enumerate(top) if l.startswith(f"class {cls}"))
            j = next((k for k in range(i + 1, len(top)) if not top[k].startswith("    ")), len(top))
            top[j:j] = lines
            if top[i + 1] == "    pass":
                del top[i + 1]

        put("Other", probe_other)
        if self.mode == "PLAY":
            put("Sp", probe_sp)
        if main[1] == "    pass":
            del main[1]
        src = HEAD + "\n".join([*top, *gl, *main, *body, *probe, *probe_exp]) + "\n"
        prog = Prog(src, [(-4, 4, False), (-3, 3, True), (0, 1, True)])
        prog.lay = self
        prog.checks = r.choice(["NONE", "NONE", "TERMINATE"])
        return prog

    def root(self, e, t, w, blk):
        self.roots.append((e, t, w))
        if not w:
            self.ro.add(e)
        self.groups[e] = blk

    def leafs(self):
        return [(l, lt, self.groups[e]) for e, t, _ in self.roots for l, lt in leaves(e, t)]

    # -------------------------------------------------------------- statements

    def writable(self, e):
        import re

        for x in self.ro:
            if re.search(r"(?<![\w.])" + re.escape(x) + r"(?!\w)", e):
                return False
        return True

    def wpath(self, t):
        for _ in range(10):
            p = self.path(t)
            if p and self.writable(p) and ("." in p or "[" in p):
                return p
        return None

    def value(self, t, ref=True, depth=2):
        for _ in range(6):
            v = super().value(t, ref, depth)
            if "take(" not in v or self.writable(v):
                return v
        return f"zeros({ANN2[t]})"

    def where(self):
        r = self.r
        z = r.random()
        refs = [e for e, t, _ in self.roots if t == "Ref"]
        if refs and z < 0.35:
            return f"{r.choice(refs)}.index"
        loops = self.loops
        if loops and z < 0.6:
            return r.choice(loops)
        return r.choice(["c", "c + 1", "0", "1", "2", "2 - c"])

    def entity(self):
        r = self.r
        refs = [e for e, t, _ in self.roots if t == "Ref"]
        if refs and r.random() < 0.35:
            return f"{r.choice(refs)}.get()"
        return r.choice([f"Other.at({self.where()})", f"Other.at({self.where()})", f"EntityRef[Other]({self.where()}).get()"])

    def stmt(self, depth=1):
        r = self.r
        z = r.randrange(24)
        if not self.vars and z not in (8, 9, 14, 15):
            return
        if z <= 3:
            p = self.wpath("int")
            if p:
                self.w(f"{p} {r.choice(['=', '+=', '-='])} {self.num()}")
        elif z <= 6:
            t = r.choice(["P", "P", "A2", "Q", "AP2", "Pair", "A3", r.choice(self.vars)[1]])
            p = self.wpath(t)
            if p and t != "int":
                v = self.value(t, False) if r.random() < 0.4 else self.path(t) or self.value(t, False)
                self.w(f"{p} {r.choice(['=', '=', '@='])} {v}")
        elif z == 7 and depth:
            t = r.choice([r.choice(self.vars)[1], "P", "int"])
            n = self.name()
            v = self.value(t)
            if t == "int":
                v = self.path("int") or v
            self.w(f"{n} = {v}")
            if t == "int":
                self.rt.append(n)
            else:
                self.vars.append((n, t))
                if not self.writable(v):
                    self.ro.add(n)
        elif z <= 11 and self.ofields:
            # another entity
            acc = [(n, k, t) for n, k, t in self.ofields if k != "memory"]
            if not acc:
                return
            if depth and r.random() < 0.6:
                e = self.name()
                self.w(f"{e} = {self.entity()}")
                for n, k, t in acc:
                    self.vars.append((f"{e}.{n}", t))
                    if not self.can(k):
                        self.ro.add(f"{e}.{n}")
            else:
                n, k, t = r.choice(acc)
                l, _ = r.choice(leaves(n, t))
                if self.can(k) and r.random() < 0.6:
                    self.w(f"{self.entity()}.{l} {r.choice(['=', '+='])} {self.num()}")
                else:
                    self.w(f"log({self.entity()}.{l})")
        elif z == 12 and self.exp:
            n, t = r.choice(self.exp)
            if t == "int" or r.random() < 0.5:
                self.w(f"self.{n} = {self.value(t, False)}")
            else:
                l, _ = r.choice(leaves(f"self.{n}", t))
                if t in ("A2", "A3") and r.random() < 0.6:
                    l = f"self.{n}[c]"
                self.w(f"{l} = {self.num()}")
        elif z == 13 and self.mode == "PLAY":
            a = [f"{n}={self.value(t)}" for n, t in self.sp if r.random() < 0.75]
            self.w(f"Sp.spawn({', '.join(a)})")
        elif z in (14, 15):
            refs = [(e, w) for e, t, w in self.roots if t == "Ref"]
            if refs:
                e, w = r.choice(refs)
                if w:
                    self.w(
                        f"{e} = "
                        + r.choice([f"EntityRef[Other]({self.where()})", r.choice(refs)[0], f"Other.at({self.where()}).ref()"])
                    )
        elif z == 16 and depth:
            self.w(f"if {r.choice('ab')} {r.choice(['<', '>', '=='])} {r.choice([0, 1])}:")
            self.block()
            if r.random() < 0.5:
                self.w("else:")
                self.block()
        elif z == 17 and depth:
            i = self.name()
            self.w(f"for {i} in range({r.choice(['2', '3', 'c + 1'])}):")
            self.rt.append(i)
            self.loops.append(i)
            self.block(self.r.choice([1, 2]))
            self.rt.pop()
            self.loops.pop()
        elif z == 18:
            t = r.choice(["P", "Q", "A2"])
            p, q = self.wpath(t), self.wpath(t)
            if p and q:
                self.w(f"swap({p}, {q})")
        elif z == 19:
            self.w("log(self.index)")
        elif z in (22, 23):
            # a value read before something else writes the place it came from
            p = self.wpath("int")
            if p and depth:
                f = self.name()
                self.w(f"def {f}(v):")
                self.w(f"    {p} {r.choice(['=', '+='])} {self.num()}")
                if r.random() < 0.4:
                    self.stmt_in(1)
                self.w(f"    return {r.choice(['v', p, 'v + ' + p])}")
                q = p if r.random() < 0.75 else self.path("int") or p
                self.w(
                    r.choice(
                        [
                            f"log({q} + {f}({self.num()}))",
                            f"log({f}({q}))",
                            f"log({f}({q}) - {q})",
                            f"log(max({q}, {f}(b)))",
                            f"log({q} * 3 + {f}({q}))",
                            f"{p} = {q} + {f}({q})",
                            f"log({q} if {q} < {f}({q}) else {q} - 1)",
                        ]
                    )
                )
        else:
            p = self.path("int")
            if p:
                self.w(f"log({p})")

    def stmt_in(self, n):
        self.ind += 1
        k = len(self.vars), len(self.rt)
        for _ in range(n):
            self.stmt(0)
        del self.vars[k[0] :], self.rt[k[1] :]
        self.ind -= 1

    def block(self, n=1):
        self.ind += 1
        k = len(self.lines)
        nv = len(self.vars)
        for _ in range(n):
            self.stmt(0)
        if len(self.lines) == k:
            self.w("pass")
        del self.vars[nv:]
        self.ind -= 1


# ------------------------------------------------------------------ compiled side


class Compiled(fe.Compiled):
    def __init__(self, prog, checks="NONE"):
        checks = prog.checks or checks
        e = fe.env()
        self.prog = prog
        lay = prog.lay
        fe._count[0] += 1
        self.path = os.path.join(fe.scratch(), f"p{fe._count[0]}.py")
        with open(self.path, "w") as f:
            f.write(prog.src)
        ns = {"__name__": f"feprog{fe._count[0]}", "inp": e["inp"], "log": e["debug_log"], "Num": e["Num"]}
        ns.update(real_ns())
        self._trees = {}
        try:
            with runner.under_test():
                exec(compile(prog.src, self.path, "exec"), ns)
                archs = [ns["Other"], ns["Main"]] + ([ns["Sp"]] if lay.mode == "PLAY" else [])
                random.Random(len(prog.src)).shuffle(archs)
                self.ids = {a.__name__: k for k, a in enumerate(archs)}
                e["clear_frontend_caches"]()
                self.project = e["ProjectContextState"](runtime_checks=e["RuntimeChecks"][checks])
                self.mode = e["ModeContextState"](e["Mode"][lay.mode], archs)
                names = {"preprocess": "preprocess", "update_sequential": "updateSequential", "update_parallel": "updateParallel", "terminate": "terminate"}

                def comp(cls, fn, name):
                    return e["callback_to_cfg"](self.project, self.mode, ns[cls].__dict__[fn], name, archetype=ns[cls])

                todo = [("main", "Main", lay.cb, names[lay.cb]), ("self", "Main", "probe", "preprocess"), ("other", "Other", "probe", "preprocess"), ("exp", "Main", "probe_exp", "preprocess")]
                if lay.mode == "PLAY":
                    todo.append(("sp", "Sp", "probe", "preprocess"))
                random.Random(len(prog.src) + 1).shuffle(todo)
                self.cfgs = {k: comp(*a) for k, *a in todo}
        except e["CompilationError"] as x:
            c = x
            while isinstance(c, e["CompilationError"]) and c.__cause__ is not None:
                c = c.__cause__
            raise fe.Rejected(f"{type(c).__name__}: {c}") from None
        except (TypeError, ValueError) as x:
            raise fe.Rejected(f"{type(x).__name__}: {x}") from None
        finally:
            os.remove(self.path)
        self.entry, self.callback = self.cfgs["main"], ""
        self.rom = list(self.project.rom.values)

    def run_real(self, cells, level):
        from sonolus.backend import interpret
        from sonolus.backend.ops import Op

        events = []

        class I(interpret.Interpreter):
            def run(self, node):
                f = getattr(node, "func", None)
                if f in (Op.ExportValue, Op.Spawn, Op.DebugLog):
                    a = [self.run(x) for x in node.args]
                    events.append((f.name, a))
                    return 0.0
                return super().run(node)

            def set(self, block, index, value):
                written.add((int(block), int(index)))
                return super().set(block, index, value)

        written = set()
        it = fe.limited(I)()
        for (b, i), v in cells.items():
            it.set(b, i, float(v))
        for k, v in enumerate(self.rom):
            it.set(fe.ROM, k, v)
        written.clear()
        it.run(self.tree(level))
        return events, it, written


def blk(lay, name):
    return BLOCKS[lay.mode][name]["id"]


class Places(Exception):
    pass


def probe(cfg, rom):
    """What each logged leaf reads: the (block, index) it comes from, by running on named cells."""
    cells = {}

    def init(b, i):
        cb, ci = S.cval(b), S.cval(i)
        if cb is None or ci is None:
            raise Places("the probe reads a computed address")
        if cb == fe.ROM and 0 <= ci < len(rom):
            return S.const(rom[int(ci)])
        return cells.setdefault((int(cb), int(ci)), S.var(f"cell{int(cb)}_{int(ci)}"))

    m = Machine(ConcretePath(), False, init=init)
    FeRun(m, max_steps=fe.STEPS, max_visits=fe.VISITS).run(cfg)
    back = {v: k for k, v in cells.items()}
    return [back.get(S.res(a[0])) for op, a, _ in m.events if op == "DebugLog"], m


def body(prog, comp, tol=0.0):
    lay = prog.lay
    tree = pysym.SetIn().visit(ast.parse(prog.src))
    tree = fe.Budget().visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, "<oracle>", "exec")
    leafs = lay.leafs()
    ol = [(l, k) for n, k, t in lay.ofields if k != "memory" for l, _ in leaves(n, t)]
    total = {}
    for e, t, _ in lay.roots:
        total[lay.groups[e]] = total.get(lay.groups[e], 0) + SIZE[t]
    problems = []
    places, _ = probe(comp.cfgs["self"], comp.rom)
    if len(places) != len(leafs):
        problems.append(f"the probe logs {len(places)} of {len(leafs)} leaves")
    seen = {}
    for (l, _, g), p in zip(leafs, places):
        limit = min(total[g], SIZES.get(g, total[g]))
        if p is None or p[0] != blk(lay, g) or not 0 <= p[1] < limit:
            problems.append(f"{l} is read from {p}, outside its {limit} slots of {g}")
        elif p in seen:
            problems.append(f"{l} and {seen[p]} share slot {p}")
        seen[p] = l
    oplaces, _ = probe(comp.cfgs["other"], comp.rom)
    seen = {}
    for (l, k), p in zip(ol, oplaces):
        g = {"imported": "EntityData", "shared": "EntitySharedMemory"}[k]
        if p is None or p[0] != blk(lay, g) or not 0 <= p[1] < 32 or p in seen:
            problems.append(f"Other.{l} is read from {p}")
        seen[p] = l
    slot_sp = []
    if lay.mode == "PLAY":
        sl = [l for n, t in lay.sp for l, _ in leaves(n, t)]
        splaces, _ = probe(comp.cfgs["sp"], comp.rom)
        if any(p is None or p[0] != blk(lay, "EntityMemory") for p in splaces) or len({*splaces}) != len(sl):
            problems.append(f"memory of Sp is read from {splaces}")
        slot_sp = {l: p[1] for l, p in zip(sl, splaces) if p}
    _, m = probe(comp.cfgs["exp"], comp.rom)
    el = [l for n, t in lay.exp for l, _ in leaves(n, t)]
    exps = {}
    for op, a, _ in m.events:
        if op == "ExportValue":
            exps[el[int(S.cval(a[1])) - 1]] = int(S.cval(a[0]))
    if len(set(exps.values())) != len(el) or any(not 0 <= k < len(el) for k in exps.values()):
        problems.append(f"exported values use the indices {exps}")
    aname = {"EntityData": "EntityDataArray", "EntitySharedMemory": "EntitySharedMemoryArray"}
    # every cell the callback may touch
    cells = [(p, lt) for (l, lt, g), p in zip(leafs, places) if p]
    obj = []
    for e in range(NENT):
        for (l, k), p in zip(ol, oplaces):
            if p:
                g = {"imported": "EntityData", "shared": "EntitySharedMemory"}[k]
                obj.append(((blk(lay, aname[g]), 32 * e + p[1]), e, l))

    def go(L):
        sym = L.concrete is None
        for p in problems:
            L.check(p, False)
            L.fail(p) if not sym else None
        if problems:
            return
        vals = [L.var(f"x{k}", lo, hi, integer=i) for k, (lo, hi, i) in enumerate(prog.inputs)]
        cell = {}
        for p, lt in cells:
            cell[p] = L.var(f"m{p[0]}_{p[1]}", 0, NENT - 1, integer=True) if lt == "Ref" else L.var(f"m{p[0]}_{p[1]}", -4, 4)
        for p, e, l in obj:
            cell[p] = L.var(f"m{p[0]}_{p[1]}", -4, 4)
        if not sym:
            vals = [fe.CF(v) for v in vals]
            cell = {p: fe.CF(v) for p, v in cell.items()}
        # oracle
        rec = []
        world = World(rec)
        ticks = [0]

        def tick():
            ticks[0] += 1
            if ticks[0] > 80:
                raise S.Cut("oracle loop bound")

        ns = {
            "__name__": "oracle", "inp": lambda k: vals[k], "log": lambda v: rec.append(("DebugLog", v)), "_tick": tick, "range": fe.p_range,
            "int": pysym.Int, "float": pysym.Float, "Num": fe.PNum,
        }  # fmt: skip
        ns.update(oracle_ns(world))
        try:
            exec(code, ns)
            me = ns["Main"](SELF, True)
            for e in range(NENT):
                world.entities[e] = ns["Other"](e, False)
            ns["self"] = me
            for (l, lt, g), p in zip(leafs, places):
                put(ns, l, cell[p])
            for p, e, l in obj:
                ns["_e"] = world.entities[e]
                put(ns, f"_e.{l}", cell[p])
            del rec[:]
            getattr(me, lay.cb)()
            final = {p: get(ns, l) for (l, lt, g), p in zip(leafs, places)}
            for p, e, l in obj:
                ns["_e"] = world.entities[e]
                final[p] = get(ns, f"_e.{l}")
        except fe.ORACLE_ERRORS as x:
            raise S.Cut(f"oracle {type(x).__name__}") from None
        except M.Terminate:
            raise S.Cut("failed check") from None
        want = []
        for ev in rec:
            if ev[0] == "DebugLog":
                want.append(("DebugLog", [ev[1]]))
            elif ev[0] == "ExportValue":
                want.append(("ExportValue", [exps[ev[1]], ev[2]]))
            else:
                args = [None] * len(ev[2])
                for l, v in ev[2]:
                    args[slot_sp[l]] = v
                want.append(("Spawn", [comp.ids[ev[1]], *args]))
        info, infoa = blk(lay, "EntityInfo"), blk(lay, "EntityInfoArray")
        fixed = {(info, 0): SELF, (info, 1): comp.ids["Main"], (info, 2): 1}
        for e in range(NENT):
            fixed[(infoa, 3 * e)] = e
            fixed[(infoa, 3 * e + 1)] = comp.ids["Other"]
            fixed[(infoa, 3 * e + 2)] = 1
        if not sym:
            full = {**cell, **fixed, **{(fe.IN, k): v for k, v in enumerate(vals)}}
            for lv in ("minimal",):
                try:
                    got, it, written = comp.run_real(full, lv)
                except Exception as x:  # noqa: BLE001
                    raise pysym.Failed(f"{lv}: the compiled callback fails: {type(x).__name__}: {x}") from None
                if len(got) != len(want) or any(
                    a[0] != b[0] or len(a[1]) != len(b[1]) or not all(pysym.close(number(x), y, tol) for x, y in zip(a[1], b[1]))
                    for a, b in zip(want, got)
                ):
                    raise pysym.Failed(f"{lv}: Python does {showev(want)} but the compiled callback does {showev(got)}")
                for p, v in final.items():
                    if not pysym.close(number(v), it.get(*p), tol):
                        raise pysym.Failed(f"{lv}: slot {p} holds {it.get(*p)} instead of {float(number(v))}")
                allowed = set(full)
                for b, i in written:
                    if b not in (fe.ROM, 10000) and (b, i) not in allowed:
                        raise pysym.Failed(f"{lv}: slot {(b, i)} outside the declared storage is written")
            return
        ins = [term(v) for v in vals]
        known = {p: term(v) for p, v in cell.items()}
        known.update({p: S.const(v) for p, v in fixed.items()})

        def init(b, i):
            cb, ci = S.cval(b), S.cval(i)
            if cb is None:
                raise Obligation("fault", "computed block")
            if ci is None:
                for (kb, ki), v in known.items():
                    if kb == cb and pysym.PATH.branch(S.eq(i, S.const(ki))):
                        return v
                raise Obligation("fault", f"read outside the declared storage: block {cb}")
            if cb == fe.IN and 0 <= ci < len(ins):
                return ins[int(ci)]
            if cb == fe.ROM and 0 <= ci < len(comp.rom):
                return S.const(comp.rom[int(ci)])
            if (cb, ci) in known:
                return known[(cb, ci)]
            raise Obligation("fault", f"read outside the declared storage: block {cb:g} index {ci:g}")

        m = Machine(pysym.PATH, False, init=init)
        try:
            FeRun(m, max_steps=fe.STEPS, max_visits=fe.VISITS).run(comp.entry)
        except Obligation as e:
            L.check(f"{e.kind} {e.detail}", wrapb(S.not_(e.cond)) if e.cond is not None else False)
            return
        except S.Undefined as e:
            L.check(f"undefined {e}", False)
            return
        got = [(op, a) for op, a, _ in m.events]
        if [(o, len(a)) for o, a in want] != [(o, len(a)) for o, a in got]:
            L.check(f"effects {[o for o, _ in got]} instead of {[o for o, _ in want]}", False)
            return
        for k, ((o, a), (_, b)) in enumerate(zip(want, got)):
            for j, (x, y) in enumerate(zip(a, b)):
                L.same(f"{o} {k} argument {j}", number(x), wrap(y))
        for b, i, v in m.log:
            cb, ci = S.cval(S.norm(b)), S.cval(S.lin(S.norm(i)))
            ok = cb is not None and (ci is None or (cb, ci) in known)
            if ok and ci is None:
                c = S.or_(*[S.eq(i, S.const(ki)) for kb, ki in known if kb == cb]) if cb is not None else S.FALSE
                L.check(f"write outside the declared storage: block {cb}", wrapb(c))
            else:
                L.check(f"write outside the declared storage: block {cb} index {ci}", ok)
        for p, v in final.items():
            L.same(f"final value of slot {p}", number(v), wrap(m.read_raw(S.const(p[0]), S.const(p[1]))))

    return go


def put(ns, l, v):
    ns["_v"] = v
    exec(f"{l} = _v", ns)


def get(ns, l):
    return eval(l, ns)


def showev(l):
    return "[" + ", ".join(f"{o}({', '.join(f'{float(number(x)):g}' for x in a)})" for o, a in l[:20]) + "]"


def make_law(prog, comp, seed=0, max_paths=32, levels=("cfg",), **kw):
    kw.setdefault("zx_ms", 1500)
    kw.setdefault("zf_ms", 1500)
    return fe.FeLaw(body(prog, comp), max_paths=max_paths, seed=seed, **kw)


def layout(seed):
    return Lay(seed).program()
