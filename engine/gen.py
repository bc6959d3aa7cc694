"""Random and hand-shaped control-flow-graph programs (the optimizer's input language).

A program is a structured statement tree built with a seeded rng and lowered to the
real BasicBlock/IR data types; nothing here mirrors the code under test's algorithms.
"""
import json
import os
import random

from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet
from sonolus.backend.mode import Mode
from sonolus.backend.ops import Op
from sonolus.backend.optimize.flow import BasicBlock
from sonolus.backend.place import BlockPlace, TempBlock

_TABLE = json.load(open(os.path.join(os.path.dirname(__file__), "blocks_table.json")))

SMALL = (0, 1, 2, 3, -1, 4, 5)
ODD = (0.5, -2, 7, 10, 1.5, -0.5, 0.1, 100, -3, 2.5, 0.25, 255, 256, 1000, -7, 16)
BOUNDARY = (
    2**24, 2**24 - 1, 2**24 + 1, -(2**24), 2**31, 2**31 - 1, -(2**31), 2**53, 1e10, -1e10, 1e-9, 65535,
    4096, 1e300, -1e300, 0.1 + 0.2, 3.141592653589793, 2**32, 16777217.5, 1 / 3,
)


def C(v):
    return IRConst(v)


def P(op, *args):
    return IRPureInstr(getattr(Op, op), list(args))


def I(op, *args):  # noqa: E743
    return IRInstr(getattr(Op, op), list(args))


def G(block, index=0, offset=0):
    return IRGet(BlockPlace(block, index, offset))


def ST(block, value, index=0, offset=0):
    return IRSet(BlockPlace(block, index, offset), value)


class Program:
    def __init__(self, entry, mode=None, callback=None, readonly=(), label=""):
        self.entry = entry
        self.mode = mode
        self.callback = callback
        self.readonly = frozenset(readonly)
        self.label = label


# ---------------------------------------------------------------- builder


class Builder:
    """Lowers structured code to BasicBlocks."""

    def __init__(self):
        self.entry = BasicBlock()
        self.cur = self.entry
        self.loops = []  # (continue target, break target)

    def emit(self, stmt):
        if self.cur is not None:
            self.cur.statements.append(stmt)

    def goto(self, blk):
        if self.cur is not None:
            self.cur.connect_to(blk, None)
        self.cur = None

    def branch(self, test, cases):
        """cases: list of (cond, block)."""
        if self.cur is not None:
            self.cur.test = test
            for c, b in cases:
                self.cur.connect_to(b, c)
        self.cur = None

    def at(self, blk):
        self.cur = blk


class Gen:
    def __init__(self, seed, **profile):
        self.r = random.Random(seed)
        p = {
            "stmts": 10,
            "depth": 3,
            "temps": 4,
            "arrays": 1,
            "array_size": 3,
            "w": {
                "temp": 5, "arr": 1, "mem": 4, "rmw": 2, "effect": 1, "draw": 0.3, "if": 2,
                "switch": 0.5, "loop": 1, "ret": 0.15, "brk": 0.5,
            },
            "expr_depth": 3,
            "ops": None,
            "modes": 0.5,
            "blocks": 3,
            "indices": 4,
            "dyn": 0.25,
            "ptr": 0.08,
            "bigconst": 0.06,
            "faulty": 0.1,
            "native": 0.05,
            "select": 0.08,
            "inf": 0.0,
        }
        for k, v in profile.items():
            if k == "w":
                p["w"] = {**p["w"], **v}
            else:
                p[k] = v
        self.p = p
        r = self.r
        self.temps = [TempBlock(f"t{i}") for i in range(p["temps"])]
        self.arrays = [TempBlock(f"a{i}", r.randint(2, p["array_size"])) for i in range(p["arrays"])]
        self.defined = set()
        self.nloop = 0
        self.uniq = 0
        self.pick_mode()

    # memory layout ---------------------------------------------------------
    def pick_mode(self):
        r = self.r
        if r.random() < self.p["modes"]:
            name = r.choice(["PLAY", "PLAY", "WATCH", "PREVIEW", "TUTORIAL"])
            table = {k: v for k, v in _TABLE[name].items() if v["id"] not in (3000, 10000)}
            cbs = sorted({c for v in table.values() for c in v["r"]} | {c for v in table.values() for c in v["w"]})
            cb = r.choice(cbs)
            self.mode, self.callback = Mode[name], cb
            rw = [v["id"] for v in table.values() if cb in v["w"]]
            ro = [v["id"] for v in table.values() if cb not in v["w"] and cb in v["r"]]
            r.shuffle(rw)
            r.shuffle(ro)
            self.rw = rw[: self.p["blocks"]]
            self.ro = ro[: max(1, self.p["blocks"] - 1)]
            if not self.rw:
                self.mode = self.callback = None
        else:
            self.mode = self.callback = None
        if self.mode is None:
            self.rw = [20, 21, 4001][: self.p["blocks"]]
            self.ro = []
        if self.mode is not None and r.random() < 0.3:
            blocks = {int(b): b for b in self.mode.blocks}
            self.asblock = lambda b: blocks.get(b, b)
        else:
            self.asblock = lambda b: b

    # expressions -----------------------------------------------------------
    def const(self):
        r = self.r
        x = r.random()
        if x < self.p["bigconst"]:
            return C(r.choice(BOUNDARY))
        if self.p["inf"] and x > 1 - self.p["inf"]:
            return C(r.choice([float("inf"), float("-inf")]))
        return C(r.choice(SMALL) if r.random() < 0.7 else r.choice(ODD))

    def scalar(self):
        c = [t for t in self.temps if t.name in self.defined]
        return self.r.choice(c) if c else None

    def index(self):
        """(index value, offset) for a memory place."""
        r = self.r
        n = self.p["indices"]
        if r.random() >= self.p["dyn"]:
            return r.randrange(n), r.choice([0, 0, 0, 1])
        k = r.random()
        t = self.scalar()
        off = r.choice([0, 0, 1, 2])
        if t is not None and k < 0.45:
            return BlockPlace(t, 0), off
        if k < 0.8:
            return self.memplace(False), off
        if t is not None and k < 0.9:
            return P("Add", G(t), C(r.randrange(n))), off
        return P("Add", P("Multiply", IRGet(self.memplace(False)), C(r.choice([1, 2, 3]))), C(r.randrange(n))), off

    def memplace(self, write, dyn=True):
        r = self.r
        pool = self.rw if write or not self.ro or r.random() < 0.7 else self.ro
        if dyn and r.random() < self.p["ptr"]:
            b = self.memplace(False, False)  # pointer read from memory
            if r.random() < 0.4 and self.scalar() is not None:
                b = BlockPlace(self.scalar(), 0)
            i, off = self.index()
            return BlockPlace(b, i, off)
        b = self.asblock(r.choice(pool))
        if dyn:
            i, off = self.index()
        else:
            i, off = r.randrange(self.p["indices"]), 0
        return BlockPlace(b, i, off)

    def arrplace(self):
        r = self.r
        a = r.choice(self.arrays)
        if r.random() < 0.5 or self.scalar() is None:
            return BlockPlace(a, r.randrange(a.size))
        k = r.random()
        if k < 0.5:
            return BlockPlace(a, BlockPlace(self.scalar(), 0))
        if k < 0.8:
            return BlockPlace(a, self.memplace(False, False))
        return BlockPlace(a, P("Mod", P("Floor", P("Abs", G(self.scalar()))), C(a.size)))

    TOTAL2 = (
        "Add", "Subtract", "Multiply", "Min", "Max", "Equal", "NotEqual", "Less", "LessOr", "Greater",
        "GreaterOr", "And", "Or", "Add", "Subtract", "Multiply",
    )
    TOTAL1 = ("Negate", "Not", "Abs", "Floor", "Ceil", "Round", "Trunc", "Frac", "Sign", "Sin", "Cos", "Arctan",
              "Degree", "Radian", "EaseInOutQuad", "EaseOutInExpo", "EaseInSine")
    FAULTY = ("Divide", "Mod", "Rem", "Power", "Log", "Unlerp", "Remap", "Arcsin", "UnlerpClamped")

    def expr(self, d=None):
        r = self.r
        p = self.p
        if d is None:
            d = r.randint(0, p["expr_depth"])
        if d <= 0:
            k = r.random()
            if k < 0.3:
                return self.const()
            if k < 0.65 and self.defined:
                t = self.scalar()
                if t is not None:
                    return G(t)
            if k < 0.75 and self.arrays and any(a.name in self.defined for a in self.arrays):
                a = self.arrplace()
                if a.block.name in self.defined:
                    return IRGet(a)
            return IRGet(self.memplace(False))
        k = r.random()
        e = lambda: self.expr(d - 1 - r.randint(0, 1))  # noqa: E731
        if k < p["select"]:
            j = r.random()
            if j < 0.5:
                return P("If", e(), self.const(), self.const())
            n = r.randint(1, 4)
            keys = r.sample([-1, 0, 1, 2, 3, 4, 5, 0.5, 10], n)
            parts = [x for kk in keys for x in (C(kk), self.const())]
            if j < 0.7:
                return P("Switch", e(), *parts)
            if j < 0.9:
                return P("SwitchWithDefault", e(), *parts, self.const())
            if j < 0.95:
                return P("SwitchInteger", e(), *[self.const() for _ in range(n)])
            return P("SwitchIntegerWithDefault", e(), *[self.const() for _ in range(n + 1)])
        k -= p["select"]
        if k < p["native"]:
            return P(r.choice(["BeatToTime", "TimeToScaledTime", "BeatToBPM"]), e())
        k -= p["native"]
        if k < p["faulty"]:
            op = r.choice(p.get("faulty_ops") or self.FAULTY)
            n = {"Log": 1, "Arcsin": 1, "Unlerp": 3, "UnlerpClamped": 3, "Remap": 5, "RemapClamped": 5}.get(op, 2)
            args = [e() for _ in range(n)]
            if op == "Power" and r.random() < 0.7:
                args[1] = C(r.choice([2, 3, 0.5, -1, 1, 0, 4]))
            if op in ("Divide", "Mod", "Rem") and r.random() < 0.4:
                args[1] = self.const()
            return P(op, *args)
        ops = p["ops"]
        if ops:
            op = r.choice(ops)
        else:
            op = r.choice(self.TOTAL2) if r.random() < 0.75 else r.choice(self.TOTAL1)
        if op in self.TOTAL1:
            return P(op, e())
        if op == "Clamp" or op == "Lerp":
            return P(op, e(), e(), e())
        if op in ("Add", "Multiply") and r.random() < 0.15:
            return P(op, *[e() for _ in range(r.randint(3, 4))])
        if op in ("And", "Or") and r.random() < 0.2:
            return P(op, e(), e(), e())
        return P(op, e(), e())

    def cond(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            return P(r.choice(["Less", "LessOr", "Greater", "GreaterOr", "Equal", "NotEqual"]), self.expr(1), self.expr(1))
        if k < 0.7:
            return P("Not", self.expr(1))
        if k < 0.85:
            return P(r.choice(["And", "Or"]), self.cond1(), self.cond1())
        return self.expr(1)

    def cond1(self):
        return P(self.r.choice(["Less", "LessOr", "Equal", "NotEqual"]), self.expr(0), self.expr(0))

    # statements ------------------------------------------------------------
    def stmts(self, b, n, depth):
        for _ in range(n):
            if b.cur is None:
                return
            self.stmt(b, depth)

    def newtemp(self):
        self.uniq += 1
        return TempBlock(f"u{self.uniq}")

    def stmt(self, b, depth):
        r = self.r
        w = dict(self.p["w"])
        if depth <= 0:
            w["if"] = w["switch"] = w["loop"] = 0
        if not b.loops:
            w["brk"] = 0
        if not self.arrays:
            w["arr"] = 0
        kind = r.choices(list(w), list(w.values()))[0]
        getattr(self, "s_" + kind)(b, depth)

    def s_temp(self, b, depth):
        r = self.r
        if r.random() < 0.12 and len(self.defined) >= 2 and self.scalar() is not None:
            # swap / rotate
            x, y = self.scalar(), self.scalar()
            t = self.newtemp()
            b.emit(ST(t, G(x)))
            b.emit(ST(x, G(y)))
            b.emit(ST(y, G(t)))
            return
        t = r.choice(self.temps)
        b.emit(ST(t, self.expr()))
        self.defined.add(t.name)

    def s_arr(self, b, depth):
        r = self.r
        a = r.choice(self.arrays)
        if a.name not in self.defined:
            for i in range(a.size):
                b.emit(ST(a, self.expr(1), i))
            self.defined.add(a.name)
        else:
            b.emit(IRSet(self.arrplace_of(a), self.expr()))

    def arrplace_of(self, a):
        old = self.arrays
        self.arrays = [a]
        try:
            return self.arrplace()
        finally:
            self.arrays = old

    def s_mem(self, b, depth):
        b.emit(IRSet(self.memplace(True), self.expr()))

    def s_rmw(self, b, depth):
        r = self.r
        ops = ("Add", "Subtract", "Multiply", "Add") + (("Divide", "Mod", "Rem", "Power") if r.random() < 0.3 else ())
        t = self.scalar()
        if r.random() < 0.35 and t is not None:
            pl = BlockPlace(t, 0)
        else:
            pl = self.memplace(True)
        pl2 = pl if r.random() < 0.9 else self.memplace(True)
        x, y = IRGet(pl), self.expr(1)
        op = r.choice(ops)
        if r.random() < 0.2:
            x, y = y, x
        b.emit(IRSet(pl2, P(op, x, y)))

    def s_effect(self, b, depth):
        r = self.r
        k = r.random()
        if k < 0.6:
            b.emit(I("DebugLog", self.expr()))
        elif k < 0.8:
            b.emit(I("Play", self.expr(1), self.expr(1)))
        else:
            t = r.choice(self.temps)
            b.emit(ST(t, I("SpawnParticleEffect", self.expr(1), self.expr(1))))
            self.defined.add(t.name)

    def s_draw(self, b, depth):
        r = self.r
        self.uniq += 1
        u = self.uniq
        if r.random() < 0.5:
            d = I("Random", C(u), C(u + 10 * u + 1))
        else:
            d = I("RandomInteger", C(u), C(2 * u + 3))
        if r.random() < 0.7:
            t = r.choice(self.temps)
            b.emit(ST(t, d))
            self.defined.add(t.name)
        elif r.random() < 0.7:
            b.emit(IRSet(self.memplace(True, False), P("Add", d, self.expr(0))))
        else:
            b.emit(I("DebugLog", d))

    def scoped(self, f):
        """Run f; definitions made inside survive with probability (read may be undefined on some path)."""
        before = set(self.defined)
        f()
        new = self.defined - before
        self.defined = before | {x for x in new if self.r.random() < 0.3}

    def both(self, f, g):
        before = set(self.defined)
        f()
        d1 = self.defined
        self.defined = set(before)
        g()
        d2 = self.defined
        self.defined = before | (d1 & d2)

    def s_if(self, b, depth):
        r = self.r
        t, e, j = BasicBlock(), BasicBlock(), BasicBlock()
        c = self.cond()
        has_else = r.random() < 0.6
        n = r.randint(1, 3)
        b.branch(c, [(None, t), (0, e if has_else else j)])

        def then():
            b.at(t)
            self.stmts(b, n, depth - 1)
            b.goto(j)

        def els():
            if has_else:
                b.at(e)
                self.stmts(b, r.randint(1, 3), depth - 1)
                b.goto(j)

        self.both(then, els)
        b.at(j)

    CASESETS = (
        (0, 1, 2), (0, 1, 2, 3), (1, 2, 3), (5, 6, 7, 8), (0, 2, 4, 6), (-1, 0, 1), (-3, -2, -1), (0, 10, 20),
        (0.5, 1.5), (1, 100), (0, 1, 3), (2**24, 2**24 + 1), (1.5, 2, 7), (0,), (3,), (0, 1), (1, 0.25),
        (-0.5, 0.5, 1.5), (1000, 1001, 1002), (0, 1, 2, 4, 5), (3, 6, 9), (1e10, 1e10 + 1), (-4, -2, 0, 2),
    )

    def s_switch(self, b, depth):
        r = self.r
        cases = list(r.choice(self.p.get("casesets") or self.CASESETS))
        default = r.random() < 0.7
        test = self.expr(r.randint(0, 1))
        j = BasicBlock()
        targets = []
        for c in cases:
            if targets and r.random() < 0.25:
                targets.append((c, r.choice(targets)[1]))
            else:
                targets.append((c, BasicBlock()))
        edges = list(targets)
        if default:
            edges.append((None, j if r.random() < 0.3 else BasicBlock()))
        r.shuffle(edges)
        if not any(c is None for c, _ in edges) and r.random() < 0.3:
            pass
        b.branch(test, edges)
        done = {id(j)}
        before = set(self.defined)
        for _, blk in edges:
            if id(blk) in done:
                continue
            done.add(id(blk))
            b.at(blk)
            self.defined = set(before)
            self.stmts(b, r.randint(0, 2), depth - 1)
            if r.random() < 0.2 and len(edges) > 1:  # fall through into another case
                o = [x for _, x in edges if id(x) not in done and x is not j]
                if o:
                    b.goto(r.choice(o))
                    continue
            b.goto(j)
        self.defined = before
        b.at(j)

    def s_loop(self, b, depth):
        r = self.r
        head, body, latch, exit_ = BasicBlock(), BasicBlock(), BasicBlock(), BasicBlock()
        self.nloop += 1
        style = r.random()
        before = set(self.defined)
        counted = style < 0.75
        i = TempBlock(f"i{self.nloop}")
        if counted:
            start = C(r.choice([0, 0, 1, -1, 3]))
            step = r.choice([1, 1, 1, 2, -1])
            lim = C(r.choice([2, 3, 1, 0])) if r.random() < 0.5 else IRGet(self.memplace(False, False))
            cmpop = r.choice(["Less", "Less", "LessOr", "NotEqual"]) if step > 0 else r.choice(["Greater", "GreaterOr"])
            b.emit(ST(i, start))
            self.temps.append(i)
            self.defined.add(i.name)
            if r.random() < 0.5 and not isinstance(lim, IRConst):
                tl = self.newtemp()
                b.emit(ST(tl, lim))
                lim = G(tl)
        rotated = r.random() < 0.25
        if rotated:
            b.goto(body)
        else:
            b.goto(head)
        b.at(head)
        if r.random() < 0.3:
            self.stmts(b, 1, 0)
        test = P(cmpop, G(i), lim) if counted else self.cond()
        if r.random() < 0.8:
            b.branch(test, [(None, body), (0, exit_)])
        else:
            b.branch(P("Not", test), [(None, exit_), (0, body)])
        b.loops.append((latch, exit_))
        b.at(body)
        inner = set(self.defined)
        self.stmts(b, r.randint(1, 4), depth - 1)
        b.goto(latch)
        self.defined = inner
        b.at(latch)
        if counted:
            b.emit(ST(i, P("Add", G(i), C(step)) if step > 0 or r.random() < 0.5 else P("Subtract", G(i), C(-step))))
        b.goto(head)
        b.loops.pop()
        self.defined = before | ({i.name} if counted else set())
        b.at(exit_)

    def s_brk(self, b, depth):
        cont, brk = b.loops[self.r.randrange(len(b.loops))] if self.r.random() < 0.3 else b.loops[-1]
        tgt = brk if self.r.random() < 0.6 else cont
        nxt = BasicBlock()
        if self.r.random() < 0.5:
            b.branch(self.cond(), [(None, tgt), (0, nxt)])
        else:
            b.branch(self.cond(), [(0, tgt), (None, nxt)])
        b.at(nxt)

    def s_ret(self, b, depth):
        b.emit(I("Break", C(1), self.expr(1)))
        b.cur.test = C(0)
        b.cur = None

    # whole program ---------------------------------------------------------
    def program(self, label=""):
        r = self.r
        b = Builder()
        for t in self.temps[:]:
            if r.random() < 0.6:
                b.emit(ST(t, self.expr(1)))
                self.defined.add(t.name)
        self.stmts(b, self.p["stmts"], self.p["depth"])
        if b.cur is not None:
            for t in self.temps:
                if t.name in self.defined and r.random() < 0.5:
                    b.emit(IRSet(BlockPlace(self.asblock(r.choice(self.rw)), 8 + r.randrange(6)), G(t)))
            if r.random() < 0.5:
                b.emit(I("Break", C(1), self.expr(1)))
        return Program(b.entry, self.mode, self.callback, self.ro, label)
