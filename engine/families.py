"""Program families for translation validation, one generator per property theme.

Every function takes a seed and returns a Program; the program text depends only on the seed.
"""

import random

from sonolus.backend.ir import IRGet, IRSet
from sonolus.backend.mode import Mode
from sonolus.backend.optimize.flow import BasicBlock
from sonolus.backend.place import BlockPlace, TempBlock

from .gen import BOUNDARY, C, G, Builder, Gen, I, P, Program, ST

FAMILIES = {}


def family(f):
    FAMILIES[f.__name__] = f
    return f


@family
def mix(seed):
    r = random.Random(seed * 7919 + 1)
    return Gen(
        seed,
        stmts=r.choice([5, 8, 10, 12]),
        depth=r.choice([2, 3, 3]),
        modes=0.5,
        arrays=r.choice([0, 1, 1, 2]),
        dyn=r.choice([0.1, 0.25, 0.4]),
        faulty=r.choice([0.0, 0.1, 0.2]),
    ).program()


ALG_OPS = (
    "Add", "Subtract", "Multiply", "Min", "Max", "Equal", "NotEqual", "Less", "LessOr", "Greater", "GreaterOr",
    "And", "Or", "Not", "Negate", "Abs", "Floor", "Ceil", "Round", "Trunc", "Frac", "Sign", "Clamp", "Lerp",
)


@family
def algebra(seed):
    """Straight-line expressions over symbolic memory and (often boundary) constants."""
    r = random.Random(seed * 31 + 7)
    g = Gen(
        seed,
        stmts=r.choice([3, 5, 7]),
        depth=0,
        temps=3,
        arrays=0,
        expr_depth=r.choice([3, 4, 5]),
        ops=r.choice([ALG_OPS, ALG_OPS[:12], ALG_OPS[5:16], ("And", "Or", "Not", "Equal", "Less", "LessOr", "Negate")]),
        bigconst=r.choice([0.02, 0.2]),
        select=r.choice([0.02, 0.2]),
        faulty=r.choice([0, 0.1, 0.35]),
        faulty_ops=r.choice(
            [("Divide", "Mod", "Rem", "Power"), ("Divide",), ("Power",), ("Mod", "Rem"), ("Remap", "Unlerp", "UnlerpClamped", "RemapClamped"), ("Log", "Arcsin", "Divide")]
        )
        if True
        else None,
        dyn=0.05,
        ptr=0.0,
        native=0.03,
        w={"effect": 0.3, "rmw": 2, "temp": 4, "mem": 5, "draw": 0.05},
    )
    return g.program()


@family
def branches(seed):
    r = random.Random(seed * 17 + 3)
    return Gen(
        seed,
        stmts=r.choice([4, 6]),
        depth=r.choice([3, 4]),
        temps=3,
        arrays=0,
        expr_depth=2,
        bigconst=r.choice([0, 0.1]),
        w={"if": 6, "loop": 0.3, "switch": 0.6, "temp": 5, "mem": 2, "effect": 0.6},
        faulty=r.choice([0, 0.05]),
    ).program()


@family
def hazards(seed):
    """Faulting operations, effects and draws under conditions and in loops."""
    r = random.Random(seed * 13 + 5)
    return Gen(
        seed,
        stmts=r.choice([5, 7, 9]),
        depth=3,
        temps=4,
        arrays=r.choice([0, 1]),
        expr_depth=2,
        faulty=r.choice([0.3, 0.5]),
        faulty_ops=r.choice([("Divide", "Mod", "Rem"), ("Divide", "Power", "Log", "Arcsin"), ("Divide", "Unlerp", "Remap", "Rem")]),
        w={"if": 4, "loop": 2, "effect": r.choice([1, 3]), "draw": r.choice([0.5, 2]), "temp": 6, "ret": 0.4, "brk": 1},
        dyn=r.choice([0.1, 0.4]),
        ptr=0.05,
    ).program()


@family
def hazard_loops(seed):
    """A loop with a symbolic (possibly zero) trip count whose body evaluates a faulting operation, guarded or
    not, that a pass may want to move."""
    r = random.Random(seed * 1009 + 17)
    g = Gen(seed, temps=4, arrays=1, modes=0.4, expr_depth=1, ptr=0.0, dyn=0.3, faulty=0, native=0.1)
    b = Builder()
    ts = g.temps
    mem = lambda: IRGet(g.memplace(False, False))  # noqa: E731
    for t in ts[:2]:
        b.emit(ST(t, mem() if r.random() < 0.8 else C(r.choice([0, 1, 2]))))
        g.defined.add(t.name)
    a0 = g.arrays[0]
    for k in range(a0.size):
        b.emit(ST(a0, mem() if r.random() < 0.5 else C(k), k))
    g.defined.add(a0.name)

    def risky():
        op = r.choice(["Divide", "Mod", "Rem", "Log", "Power", "Arcsin", "arr", "dynmem", "Unlerp", "Divide"])
        x = G(ts[0]) if r.random() < 0.5 else mem()
        y = G(ts[1]) if r.random() < 0.7 else mem()
        if op in ("Log", "Arcsin"):
            return P(op, y)
        if op == "Power":
            return P(op, x, y if r.random() < 0.5 else C(r.choice([-1, 0.5])))
        if op == "Unlerp":
            return P(op, x, y, g.const())
        if op == "arr":
            return IRGet(BlockPlace(a0, BlockPlace(ts[1], 0)))
        if op == "dynmem":
            return IRGet(BlockPlace(g.asblock(r.choice(g.rw + g.ro)), BlockPlace(ts[1], 0), r.choice([0, 1])))
        return P(op, x, y)

    i = TempBlock("i")
    b.emit(ST(i, C(0)))
    head, body, latch, out = BasicBlock(), BasicBlock(), BasicBlock(), BasicBlock()
    rot = r.random() < 0.3
    b.goto(body if rot else head)
    b.at(head)
    if r.random() < 0.35:  # a header too large to be copied into its predecessors
        sk = TempBlock("hsk")
        for k in range(r.choice([1, 2, 4, 7, 13])):
            b.emit(ST(g.rw[-1], P("Add", G(i), C(k)), 20 + k) if r.random() < 0.7 else ST(sk, P("Add", G(i), C(k))))
    lim = mem() if r.random() < 0.7 else C(r.choice([0, 1, 2, 3]))
    b.branch(P("Less", G(i), lim), [(None, body), (0, out)])
    b.at(body)
    for _ in range(r.randint(1, 3)):
        k = r.random()
        if k < 0.45:
            t, e, j = BasicBlock(), BasicBlock(), BasicBlock()
            c = r.choice([
                P("NotEqual", G(ts[1]), C(0)), P("Less", C(0), G(ts[1])), P("Less", mem(), G(i)), P("Equal", G(i), C(1)),
                mem(), P("LessOr", G(ts[1]), C(1)),
            ])
            b.branch(c, [(None, t), (0, e)])
            b.at(t)
            x = risky()
            b.emit(ST(ts[2], x) if r.random() < 0.6 else ST(g.rw[0], x, 7))
            if r.random() < 0.3:
                b.emit(I("DebugLog", risky()))
            b.goto(j)
            b.at(e)
            if r.random() < 0.5:
                b.emit(ST(ts[2], C(0)))
            b.goto(j)
            b.at(j)
            if r.random() < 0.5:
                b.emit(ST(g.rw[0], G(ts[2]), 6)) if e.statements else None
        elif k < 0.6:
            b.emit(ST(ts[3], risky()))
            b.emit(ST(g.rw[0], P("Add", G(ts[3]), G(i)), 5))
        elif k < 0.7:
            b.emit(ST(ts[3], risky()))  # unused
        elif k < 0.8:
            b.emit(ST(ts[3], I("Random", C(1), C(2))))
            if r.random() < 0.6:
                b.emit(ST(g.rw[0], G(ts[3]), 4))
        elif k < 0.9:
            b.emit(I("DebugLog", G(i)))
        else:
            n = BasicBlock()
            b.branch(P("Equal", G(ts[1]), C(0)), [(None, out if r.random() < 0.7 else latch), (0, n)])
            b.at(n)
        if r.random() < 0.15:
            b.emit(ST(ts[1], P("Subtract", G(ts[1]), C(1))))
    b.goto(latch)
    b.at(latch)
    b.emit(ST(i, P("Add", G(i), C(1))))
    b.goto(head)
    b.at(out)
    b.emit(ST(g.rw[0], G(i), 3))
    if r.random() < 0.5:
        b.emit(ST(g.rw[0], G(ts[0]), 2))
    return Program(b.entry, g.mode, g.callback, g.ro)


@family
def alias(seed):
    r = random.Random(seed * 23 + 11)
    return Gen(
        seed,
        stmts=r.choice([5, 7, 9]),
        depth=r.choice([1, 2, 2]),
        temps=3,
        arrays=r.choice([0, 0, 1]),
        expr_depth=r.choice([1, 2]),
        blocks=r.choice([1, 2, 3]),
        indices=r.choice([2, 3]),
        dyn=r.choice([0.4, 0.7]),
        ptr=r.choice([0.0, 0.1, 0.3]),
        modes=r.choice([0.3, 1.0]),
        faulty=0.0,
        native=0.0,
        bigconst=0.0,
        w={"mem": 8, "rmw": 4, "temp": 5, "if": 1.5, "loop": 1, "effect": 0.5, "draw": 0.1, "switch": 0.2},
    ).program()


@family
def alias_shapes(seed):
    """Read, possibly aliasing write, read again: load/store forwarding, reordering and hoisting candidates."""
    r = random.Random(seed * 4099 + 29)
    g = Gen(seed, temps=4, arrays=r.choice([0, 1]), modes=r.choice([0.4, 1.0]), blocks=3, ptr=0.0, dyn=0)
    blocks = g.rw[:2] + g.ro[:1]
    b = Builder()
    ts = g.temps
    for k, t in enumerate(ts[:2]):
        b.emit(ST(t, IRGet(BlockPlace(r.choice(blocks), k))))

    def place(write):
        pool = g.rw if write else blocks
        blk = r.choice(pool)
        k = r.random()
        if k < 0.2:
            return BlockPlace(blk, r.randrange(3), r.choice([0, 0, 1]))
        if k < 0.5:
            return BlockPlace(blk, BlockPlace(r.choice(ts[:2]), 0), r.choice([0, 0, 1, 2]))
        if k < 0.65:
            return BlockPlace(blk, P("Add", P("Multiply", G(r.choice(ts[:2])), C(r.choice([2, 3]))), C(r.randrange(3))), r.choice([0, 1]))
        if k < 0.75:
            return BlockPlace(blk, P(r.choice(["Add", "Subtract"]), G(ts[0]), G(ts[1])))
        if k < 0.9:
            return BlockPlace(BlockPlace(blk, r.randrange(2)), r.choice([0, 1, BlockPlace(blk, 1)]), r.choice([0, 1]))
        return BlockPlace(BlockPlace(ts[0], 0), r.choice([0, 1]))

    places = [place(False) for _ in range(3)]
    wplaces = [place(True) for _ in range(2)]
    n = 0

    def act():
        nonlocal n
        k = r.random()
        if k < 0.35:
            b.emit(ST(ts[r.choice([2, 3])], IRGet(r.choice(places + wplaces))))
        elif k < 0.6:
            b.emit(IRSet(r.choice(wplaces), r.choice([C(r.choice([0, 1, 5])), G(ts[0]), G(ts[r.choice([2, 3])]) if n else C(3)])))
        elif k < 0.72:
            w = r.choice(wplaces)
            b.emit(IRSet(w, P(r.choice(["Add", "Subtract", "Multiply"]), IRGet(w), IRGet(r.choice(places + wplaces)))))
        elif k < 0.8:
            b.emit(I("DebugLog", IRGet(r.choice(places))))
        elif k < 0.9:
            b.emit(IRSet(BlockPlace(g.rw[0], 9), P("Add", IRGet(r.choice(places)), IRGet(r.choice(wplaces)))))
        else:
            b.emit(ST(r.choice(ts[:2]), P("Add", G(r.choice(ts[:2])), C(r.choice([1, -1])))))

    b.emit(ST(ts[2], IRGet(places[0])))
    b.emit(ST(ts[3], IRGet(places[1])))
    n = 1
    shape = r.random()
    if shape < 0.4:
        for _ in range(r.randint(3, 6)):
            act()
    elif shape < 0.75:
        i = TempBlock("i")
        head, body, out = BasicBlock(), BasicBlock(), BasicBlock()
        b.emit(ST(i, C(0)))
        b.goto(head)
        b.at(head)
        b.branch(P("Less", G(i), C(r.choice([1, 2])) if r.random() < 0.6 else IRGet(r.choice(places))), [(None, body), (0, out)])
        b.at(body)
        for _ in range(r.randint(2, 4)):
            act()
        b.emit(ST(i, P("Add", G(i), C(1))))
        b.goto(head)
        b.at(out)
    else:
        x, y, j = BasicBlock(), BasicBlock(), BasicBlock()
        b.branch(P("Less", G(ts[2]), C(r.choice([0, 1]))), [(None, x), (0, y)])
        for blk in (x, y):
            b.at(blk)
            for _ in range(r.randint(1, 2)):
                act()
            b.goto(j)
        b.at(j)
        for _ in range(r.randint(1, 3)):
            act()
    b.emit(IRSet(BlockPlace(g.rw[0], 10), G(ts[2])))
    b.emit(IRSet(BlockPlace(g.rw[0], 11), G(ts[3])))
    b.emit(IRSet(BlockPlace(g.rw[0], 12), IRGet(r.choice(places))))
    return Program(b.entry, g.mode, g.callback, g.ro)


@family
def deferred(seed):
    """A value computed early and used once, late, with something in between that may change what it read or must
    not be reordered with it: every combination of definition, interference and use (tree forming, read-modify-write
    fusion, test placement)."""
    r = random.Random(seed * 8191 + 11)
    g = Gen(seed, temps=5, arrays=1, modes=r.choice([0.0, 0.4, 1.0]), blocks=3, ptr=0.0, dyn=0)
    b = Builder()
    rw = g.rw
    x, y, k, k2, u = g.temps[:5]
    arr = g.arrays[0]
    b.emit(ST(k, IRGet(BlockPlace(rw[0], 7))))
    b.emit(ST(k2, IRGet(BlockPlace(rw[0], 8))))
    for n in range(arr.size):
        b.emit(ST(arr, IRGet(BlockPlace(rw[0], n)), n))

    def base_place(pool):
        q = r.random()
        blk = r.choice(pool)
        if q < 0.35:
            return BlockPlace(blk, r.randrange(2), r.choice([0, 1]))
        if q < 0.65:
            return BlockPlace(blk, BlockPlace(r.choice([k, k2]), 0), r.choice([0, 0, 1]))
        if q < 0.8:
            return BlockPlace(blk, P(r.choice(["Add", "Multiply"]), G(k), r.choice([C(2), G(k2)])), r.choice([0, 1]))
        if q < 0.9:
            return BlockPlace(arr, BlockPlace(k, 0), 0)
        return BlockPlace(arr, r.randrange(arr.size), 0)

    def near(pl):
        """The same place or one that may or may not alias it."""
        q = r.random()
        if q < 0.4:
            return pl
        if q < 0.75:
            if pl.block is arr and isinstance(pl.index, int):
                return BlockPlace(arr, (pl.index + 1) % arr.size, 0)
            return BlockPlace(pl.block, pl.index, pl.offset + (r.choice([1, 1, -1, 2]) if pl.block is not arr else 0))
        if pl.block is arr:
            return BlockPlace(arr, BlockPlace(k2, 0), 0)
        return base_place([pl.block] if pl.block in rw else rw)

    src = base_place(rw + g.ro[:1])
    dst = near(src) if src.block in rw or src.block is arr else base_place(rw)
    if dst.block is arr and dst.offset:
        dst = BlockPlace(arr, dst.index, 0)

    def defn():
        q = r.random()
        if q < 0.5:
            return IRGet(src)
        if q < 0.75:
            return P(r.choice(["Add", "Subtract", "Multiply", "Less", "Equal", "Min"]), IRGet(src), r.choice([C(1), C(2), G(y), IRGet(near(src))]))
        if q < 0.85:
            return P(r.choice(["Not", "Negate", "Abs"]), IRGet(src))
        if q < 0.93:
            return I("Random", C(0), C(1))
        return P("Divide", IRGet(src), G(y))

    def between():
        q = r.random()
        if q < 0.45:
            b.emit(IRSet(dst, r.choice([C(5), G(y), P("Add", G(y), C(1)), P("Negate", IRGet(dst))])))
        elif q < 0.6:
            b.emit(IRSet(near(dst), r.choice([C(3), G(k), IRGet(near(src)) if r.random() < 0.5 else C(1)])))
        elif q < 0.7:
            b.emit(I("DebugLog", r.choice([G(y), C(1), IRGet(near(src))])))
        elif q < 0.78:
            b.emit(ST(r.choice([k, k2]), P("Add", G(k), C(1))))
        elif q < 0.86:
            b.emit(ST(y, P("Add", G(y), G(k))))
        elif q < 0.92:
            b.emit(ST(y, I("Random", C(0), C(1))))
        else:
            nx = BasicBlock()
            b.goto(nx)
            b.at(nx)

    def use():
        q = r.random()
        v = G(x) if r.random() < 0.7 else P(r.choice(["Add", "Subtract", "Multiply", "Less", "Divide"]), *r.sample([G(x), r.choice([G(y), C(2), IRGet(near(dst))])], 2))
        if q < 0.3:
            b.emit(IRSet(dst, v))
        elif q < 0.45:
            b.emit(IRSet(near(dst), v))
        elif q < 0.55:
            b.emit(I("DebugLog", v))
        elif q < 0.65:
            b.emit(IRSet(dst, P(r.choice(["Add", "Subtract", "Multiply", "Divide", "Mod", "Rem", "Power"]), *((IRGet(near(dst)), v) if r.random() < 0.6 else (v, IRGet(near(dst)))))))
        elif q < 0.72:
            b.emit(ST(u, v))
        else:
            a, c, j = BasicBlock(), BasicBlock(), BasicBlock()
            cases = [(None, a), (0, c)] if r.random() < 0.6 else [(r.choice([1, 2, 0.5]), a), (None, c)]
            b.branch(v, cases)
            b.at(a)
            b.emit(IRSet(BlockPlace(rw[0], 13), C(1)))
            if r.random() < 0.3:
                b.emit(IRSet(BlockPlace(rw[0], 12), IRGet(near(dst))))
            b.goto(j)
            b.at(c)
            if r.random() < 0.6:
                b.emit(IRSet(BlockPlace(rw[0], 13), C(2)))
            b.goto(j)
            b.at(j)

    b.emit(ST(y, IRGet(near(src)) if r.random() < 0.6 else C(r.choice([1, 2, 3]))))
    b.emit(ST(u, C(0)))
    for _ in range(r.choice([1, 1, 2])):
        b.emit(ST(x, defn()))
        for _ in range(r.choice([0, 1, 1, 2])):
            between()
        use()
    b.emit(IRSet(BlockPlace(rw[0], 10), G(y)))
    b.emit(IRSet(BlockPlace(rw[0], 11), G(u)))
    if r.random() < 0.5:
        b.emit(IRSet(BlockPlace(rw[0], 14), G(x)))
    return Program(b.entry, g.mode, g.callback, g.ro)


FOLD1 = (
    "Not Negate Abs Sign Ceil Floor Trunc Round Frac Sin Cos Tan Sinh Cosh Tanh Arcsin Arccos Arctan Log Degree Radian"
).split() + [f"Ease{d}{k}" for d in ("In", "Out", "InOut", "OutIn") for k in ("Back", "Circ", "Cubic", "Elastic", "Expo", "Quad", "Quart", "Quint", "Sine")]
FOLD2 = "Add Subtract Multiply Divide Mod Rem Power Max Min Arctan2 Equal NotEqual Greater GreaterOr Less LessOr And Or".split()
FOLDN = {"Clamp": 3, "Lerp": 3, "LerpClamped": 3, "Unlerp": 3, "UnlerpClamped": 3, "If": 3, "Remap": 5, "RemapClamped": 5,
         "Judge": 8, "JudgeSimple": 5, "And": 3, "Or": 3, "Switch": 5, "SwitchWithDefault": 4, "SwitchInteger": 4,
         "SwitchIntegerWithDefault": 4}
CPOOL = (0, 1, 2, 3, -1, -2, 0.5, -0.5, 1.5, 2.5, -2.5, -7, 7, 10, 0.25, 0.1, 0.75, 100, -1.5, 3.7, 1e-3, 1e10, 3.5, 2**53, 0.49999999999999994)


@family
def constfold(seed):
    """Constants through every foldable operation, through temporaries, joins, loops and branches on them, with the
    occasional unknown operand (short-circuit and absorbing folds)."""
    r = random.Random(seed * 6151 + 3)
    g = Gen(seed, temps=4, arrays=0, dyn=0.0, ptr=0, modes=0.2)
    b = Builder()
    ts = g.temps
    out = [0]

    def k():
        return C(r.choice(BOUNDARY) if r.random() < 0.04 else r.choice(CPOOL))

    def leaf(unknown):
        q = r.random()
        if q < unknown:
            return IRGet(BlockPlace(g.rw[0], r.randrange(3)))
        if q < 0.5 and defined:
            return G(r.choice(defined))
        return k()

    def e(unknown=0.06, d=1):
        q = r.random()
        sub = lambda: e(unknown, d - 1) if d and r.random() < 0.4 else leaf(unknown)  # noqa: E731
        if q < 0.35:
            return P(r.choice(FOLD1), sub())
        if q < 0.75:
            op = r.choice(FOLD2)
            return P(op, sub(), sub())
        op = r.choice(list(FOLDN))
        a = [sub() for _ in range(FOLDN[op])]
        if op.startswith("Switch"):
            a[0] = r.choice([C(r.choice([0, 1, 2, 0.5, -1, 3])), leaf(unknown)])
            if not op.startswith("SwitchInteger"):
                for j in range(1, len(a) - (1 if op.endswith("Default") else 0), 2):
                    a[j] = C(r.choice([0, 1, 2, 0.5, -1]))
        return P(op, *a)

    def store(v):
        b.emit(IRSet(BlockPlace(g.rw[0], 4 + out[0]), v))
        out[0] += 1

    defined = []
    for t in ts[:2]:
        b.emit(ST(t, k()))
        defined.append(t)
    for _ in range(r.randint(2, 4)):
        q = r.random()
        if q < 0.45:
            store(e())
        elif q < 0.6:
            t = r.choice(ts)
            b.emit(ST(t, e()))
            if t not in defined:
                defined.append(t)
        elif q < 0.8:
            x, y, j = BasicBlock(), BasicBlock(), BasicBlock()
            t = r.choice(ts)
            test = r.choice([e(0.1), IRGet(BlockPlace(g.rw[0], 1)), G(r.choice(defined)), k()])
            cases = [(None, x), (0, y)] if r.random() < 0.6 else [(r.choice([1, 2, 0.5]), y), (None, x)]
            b.branch(test, cases)
            same = k()
            for blk in (x, y):
                b.at(blk)
                b.emit(ST(t, same if r.random() < 0.5 else e(0.05)))
                if r.random() < 0.3:
                    store(k())
                b.goto(j)
            b.at(j)
            if t not in defined:
                defined.append(t)
            store(G(t))
        else:
            i, t = TempBlock(f"i{out[0]}_{r.randrange(99)}"), r.choice(defined)
            h, body, nx = BasicBlock(), BasicBlock(), BasicBlock()
            b.emit(ST(i, C(0)))
            b.goto(h)
            b.at(h)
            b.branch(P("Less", G(i), C(r.choice([0, 1, 2, 3]))), [(None, body), (0, nx)])
            b.at(body)
            b.emit(ST(t, r.choice([e(0), k(), P(r.choice(["Add", "Multiply", "Max"]), G(t), k()), G(t)])))
            b.emit(ST(i, P("Add", G(i), C(1))))
            b.goto(h)
            b.at(nx)
            store(G(t))
    store(e(0.3))
    return Program(b.entry, g.mode, g.callback, g.ro)


CASESETS = (
    (0, 1, 2), (0, 1, 2, 3), (1, 2, 3), (5, 6, 7, 8), (0, 2, 4, 6), (-1, 0, 1), (-3, -2, -1), (0, 10, 20),
    (0.5, 1.5), (1, 100), (0, 1, 3), (2**24, 2**24 + 1), (1.5, 2, 7), (0,), (3,), (0, 1), (1, 0.25), (2, 0), (7, 7.5),
    (-0.5, 0.5, 1.5), (1000, 1001, 1002), (0, 1, 2, 4, 5), (3, 6, 9), (1e10, 1e10 + 1), (-4, -2, 0, 2),
    (0, 1, 2, 3, 4, 5, 6, 7), (2, 3, 4, 6), (1, 3, 5, 7), (10, 12, 14, 16, 18), (0, 3, 6, 9, 12), (-6, -3, 0, 3),
    (2**24 - 2, 2**24 - 1, 2**24), (2**24 - 1, 2**24, 2**24 + 1, 2**24 + 2), (-(2**24) - 1, -(2**24), -(2**24) + 1),
    (-1, 1), (0.5, 1, 1.5, 2), (0.25, 0.5, 0.75), (0, 0.5, 1), (100, 200, 300, 400), (-5, 5), (0, 2), (4, 5, 7, 8, 10),
    (0, 2**24), (-(2**23), 2**23), (0, 4, 8, 12, 13), (1, 2, 4, 8), (0, 1, 2, 3, 5, 8), (6, 4, 2, 0), (3, 2, 1, 0),
    (0.1, 0.2, 0.3), (1e-9, 0), (65535, 65536, 65537), (2**31, 2**31 + 1, 2**31 + 2), (2**53, 2**53 + 2, 2**53 + 4),
    (16777217, 16777219, 16777221), (1.1, 2.1, 3.1), (0, -1, -2, -3), (20, 30, 40, 50, 60), (5, 10, 15, 20, 25, 26),
)


@family
def switches(seed):
    """One multi-way branch on a fully symbolic test; every target leaves a distinct mark."""
    r = random.Random(seed * 6007 + 41)
    b = Builder()
    mode = r.random() < 0.3
    g = Gen(seed, modes=1.0 if mode else 0.0, temps=2, arrays=0)
    out = g.rw[0]
    t = TempBlock("t")
    cases = list(CASESETS[seed % len(CASESETS)] if r.random() < 0.8 else sorted(r.sample(range(-3, 12), r.randint(2, 7))))
    if r.random() < 0.15:
        cases = [c + r.choice([100, -50, 0.5, 2**24 - 3]) for c in cases]
    x = G(out, 0)
    k = r.random()
    test = (
        x if k < 0.45
        else P("Add", x, C(r.choice([1, -1, 3, 0.5]))) if k < 0.55
        else P("Multiply", x, C(r.choice([2, 0.5, -1]))) if k < 0.62
        else P("Subtract", C(r.choice([0, 5])), x) if k < 0.68
        else P("Floor", x) if k < 0.74
        else P("Min", x, C(r.choice([1, 5, 100]))) if k < 0.8
        else P("Mod", P("Floor", x), C(r.choice([3, 4]))) if k < 0.86
        else P("Less", x, C(2)) if k < 0.9
        else P("Not", x) if k < 0.94
        else G(t)
    )
    b.emit(ST(t, x))
    j = BasicBlock()
    edges, seen = [], []
    for c in cases:
        if seen and r.random() < 0.2:
            blk = r.choice(seen)
        elif r.random() < 0.06:
            blk = j
        else:
            blk = BasicBlock()
            seen.append(blk)
        edges.append((c, blk))
    d = r.random()
    dblk = None
    if d < 0.55:
        dblk = BasicBlock()
    elif d < 0.7:
        dblk = j
    elif d < 0.8 and seen:
        dblk = r.choice(seen)
    if dblk is not None:
        edges.append((None, dblk))
    r.shuffle(edges)
    style = r.random()
    b.branch(test, edges)
    blks = []
    for _, blk in edges:
        if blk is not j and all(blk is not z for z in blks):
            blks.append(blk)
    for n, blk in enumerate(blks):
        b.at(blk)
        if style < 0.45:  # pure constant selection
            b.emit(ST(t, C(10 + 7 * n if r.random() < 0.7 else r.choice([0, 1, 2, 10 + n]))))
        elif style < 0.6:  # affine in the case number
            b.emit(ST(t, C(3 * n + 1)))
        elif style < 0.85:
            b.emit(ST(out, C(10 + n), 1))
            if r.random() < 0.3:
                b.emit(I("DebugLog", G(out, 0)))
        else:
            b.emit(ST(t, P("Add", G(t), C(n + 1))))
            if r.random() < 0.5:
                b.emit(ST(out, G(t), 2))
        if r.random() < 0.1:
            b.emit(I("Break", C(1), C(n)))
            b.cur = None
        elif r.random() < 0.1 and n + 1 < len(blks):
            b.goto(blks[n + 1])
        else:
            b.goto(j)
    b.at(j)
    b.emit(ST(out, G(t), 3))
    if r.random() < 0.3:
        b.branch(G(out, 4), [(cases[0], BasicBlock()), (None, (j2 := BasicBlock()))])
        b.at(j2)
        b.emit(ST(out, C(1), 5))
    return Program(b.entry, g.mode, g.callback, g.ro)


@family
def switch_chains(seed):
    """If-chains comparing one value with constants (rewritten to switches), nested and in loops."""
    r = random.Random(seed * 911 + 5)
    b = Builder()
    out = 20
    x = TempBlock("x")
    b.emit(ST(x, G(out, 0)))
    j = BasicBlock()
    n = r.randint(2, 6)
    cs = r.choice([list(range(n)), list(range(3, 3 + n)), [2 * k for k in range(n)], r.sample(range(-4, 9), n), [k + 0.5 for k in range(n)]])
    if r.random() < 0.25:
        cs.append(cs[0])
    for k, c in enumerate(cs):
        hit, nxt = BasicBlock(), BasicBlock()
        if r.random() < 0.1:
            t = P("Less", G(x), C(c))
        elif r.random() < 0.5:
            t = P("Equal", G(x), C(c))
        else:
            t = P("Equal", C(c), G(x))
        if r.random() < 0.2:
            b.branch(P("NotEqual", G(x), C(c)), [(None, nxt), (0, hit)])
        elif r.random() < 0.7:
            b.branch(t, [(None, hit), (0, nxt)])
        else:
            b.branch(G(x), [(c, hit), (None, nxt)])
        b.at(hit)
        b.emit(ST(out, C(k + 1), 1))
        if r.random() < 0.15:
            b.emit(ST(x, C(r.choice(cs))))
            b.goto(nxt)
        else:
            b.goto(j)
        b.at(nxt)
        if r.random() < 0.1:
            b.emit(I("DebugLog", C(k)))
    b.emit(ST(out, C(99), 2))
    b.goto(j)
    b.at(j)
    b.emit(ST(out, G(x), 3))
    return Program(b.entry)


@family
def chain_joins(seed):
    """Equality chains whose links share targets, set variables on the way, and are entered or rejoined in the middle."""
    r = random.Random(seed * 1327 + 8)
    b = Builder()
    out = 20
    x, y = TempBlock("x"), TempBlock("y")
    b.emit(ST(x, G(out, 0)))
    b.emit(ST(y, C(-7)))
    n = r.randint(2, 5)
    cs = r.choice([list(range(n)), list(range(1, n + 1)), r.sample(range(-3, 7), n), [2 * k + 1 for k in range(n)], [k + 0.5 for k in range(n)]])
    if r.random() < 0.2:
        cs[-1] = cs[0]
    links = [BasicBlock() for _ in range(n)]
    pool = [BasicBlock() for _ in range(r.choice([1, 2, 3]))]
    end = BasicBlock()
    if r.random() < 0.6:
        side = BasicBlock()
        b.branch(G(out, 5), [(0, side), (None, links[0])])
        b.at(side)
        if r.random() < 0.6:
            b.emit(ST(out, C(70), 2))
        if r.random() < 0.3:
            b.emit(ST(y, C(-9)))
        b.goto(links[r.randrange(1, n)] if n > 1 else links[0])
    else:
        b.goto(links[0])
    for k, c in enumerate(cs):
        b.at(links[k])
        if r.random() < 0.35:
            b.emit(ST(y, C(r.choice([0, 1, 2, k + 10]))))
        if r.random() < 0.08:
            b.emit(I("DebugLog", C(k)))
        nxt = links[k + 1] if k + 1 < n else r.choice([end, *pool])
        if r.random() < 0.25:
            hit = BasicBlock()
        else:
            hit = r.choice(pool)
        z = r.random()
        if z < 0.6:
            t = P("Equal", G(x), C(c)) if r.random() < 0.6 else P("Equal", C(c), G(x))
            b.branch(t, [(None, hit), (0, nxt)])
        elif z < 0.75:
            b.branch(P("NotEqual", G(x), C(c)), [(0, hit), (None, nxt)])
        else:
            b.branch(G(x), [(c, hit), (None, nxt)])
        if hit not in pool:
            b.at(hit)
            if r.random() < 0.5:
                b.emit(ST(out, C(k + 1), 1))
            if r.random() < 0.3:
                b.emit(ST(y, C(30 + k)))
            b.goto(links[r.randrange(k + 1, n)] if k + 1 < n and r.random() < 0.5 else r.choice([end, *pool]))
    for k, q in enumerate(pool):
        b.at(q)
        b.emit(ST(out, P("Add", G(y), C(100 * (k + 1))), 3 + 3 * k))
        if r.random() < 0.3:
            b.emit(ST(y, C(50 + k)))
        b.goto(end)
    b.at(end)
    b.emit(ST(out, G(y), 4))
    b.emit(ST(out, G(x), 7))
    return Program(b.entry)


@family
def switch_loops(seed):
    r = random.Random(seed * 57 + 19)
    return Gen(
        seed,
        stmts=r.choice([3, 5]),
        depth=2,
        temps=3,
        arrays=0,
        expr_depth=1,
        casesets=CASESETS[:36],
        w={"switch": 6, "if": 1, "loop": 1.5, "temp": 4, "mem": 3, "effect": 0.5, "brk": 1},
        faulty=0,
        select=0.15,
    ).program()


@family
def temps(seed):
    r = random.Random(seed * 71 + 2)
    return Gen(
        seed,
        stmts=r.choice([10, 14, 18]),
        depth=2,
        temps=r.choice([6, 9, 12]),
        arrays=r.choice([1, 2, 3, 4]),
        array_size=r.choice([2, 3, 4]),
        expr_depth=r.choice([1, 2]),
        w={"temp": 8, "arr": 6, "mem": 3, "rmw": 1, "if": 2, "loop": 1.2, "effect": 0.7, "draw": 0.2, "switch": 0.2},
        faulty=0,
        bigconst=0,
        modes=0.2,
        native=0,
    ).program()


@family
def swaps(seed):
    """Parallel-copy shapes: swaps and rotations of temporaries in loops, conditional copies, lost-copy cases."""
    r = random.Random(seed * 379 + 13)
    b = Builder()
    n = r.randint(2, 5)
    ts = [TempBlock(f"v{k}") for k in range(n)]
    for k, t in enumerate(ts):
        b.emit(ST(t, G(20, k)))
    i = TempBlock("i")
    tmp = TempBlock("tmp")
    b.emit(ST(i, C(0)))
    head, body, out = BasicBlock(), BasicBlock(), BasicBlock()
    rot = r.random() < 0.4
    b.goto(body if rot else head)
    b.at(head)
    lim = C(r.choice([1, 2, 3])) if r.random() < 0.5 else G(20, 9)
    b.branch(P("Less", G(i), lim), [(None, body), (0, out)])
    b.at(body)
    if r.random() < 0.3:
        b.emit(ST(21, G(r.choice(ts)), G(i).place if False else BlockPlace(i, 0)))

    def perm():
        k = r.random()
        if k < 0.4:
            x, y = r.sample(ts, 2)
            b.emit(ST(tmp, G(x)))
            b.emit(ST(x, G(y)))
            b.emit(ST(y, G(tmp)))
        elif k < 0.7:
            p = ts[:]
            r.shuffle(p)
            b.emit(ST(tmp, G(p[0])))
            for x, y in zip(p, p[1:]):
                b.emit(ST(x, G(y)))
            b.emit(ST(p[-1], G(tmp)))
        elif k < 0.85:
            x, y = r.sample(ts, 2)
            b.emit(ST(x, G(y)))
        else:
            x, y = r.choice(ts), r.choice(ts)
            b.emit(ST(x, P("Add", G(x), G(y))))

    if r.random() < 0.4:
        x, y, j = BasicBlock(), BasicBlock(), BasicBlock()
        b.branch(P("Less", G(r.choice(ts)), G(r.choice(ts))), [(None, x), (0, y if r.random() < 0.5 else j)])
        for blk in (x, y):
            b.at(blk)
            perm()
            b.goto(j)
        b.at(j)
    else:
        for _ in range(r.randint(1, 3)):
            perm()
    if r.random() < 0.3:
        b.emit(ST(21, G(r.choice(ts)), BlockPlace(i, 0), 4))
    b.emit(ST(i, P("Add", G(i), C(1))))
    if r.random() < 0.3:
        n2 = BasicBlock()
        b.branch(P("Equal", G(r.choice(ts)), C(3)), [(None, out), (0, n2)])
        b.at(n2)
    b.goto(head)
    b.at(out)
    for k, t in enumerate(ts):
        b.emit(ST(22, G(t), k))
    b.emit(ST(22, G(i), 8))
    return Program(b.entry)


@family
def bigtemps(seed):
    """A few temporary arrays filling, or overfilling, the temporary area; disjoint and overlapping lifetimes.
    Only their first and last elements are used."""
    r = random.Random(seed * 83 + 5)
    b = Builder()
    n = r.randint(2, 4)
    total = r.choice([4096, 4096, 4095, 4090, 4097, 4100, 4160, 4400, 5000, 7000])
    cuts = sorted(r.randrange(1, total) for _ in range(n - 1)) if r.random() < 0.6 else [total // n * k for k in range(1, n)]
    sizes = [y - x for x, y in zip([0, *cuts], [*cuts, total]) if 0 < y - x <= 4096]
    arrs = [TempBlock(f"a{k}", z) for k, z in enumerate(sizes)]
    sc = [TempBlock(f"s{k}") for k in range(r.randint(0, 3))]
    for k, s in enumerate(sc):
        b.emit(ST(s, G(21, k)))

    def ends(a):
        return sorted({0, a.size - 1})

    def fill(a):
        for e in ends(a):
            b.emit(ST(a, G(20, 2 * arrs.index(a) + (e > 0)), e))
        if r.random() < 0.8:  # a computed index keeps the array in memory
            b.emit(IRSet(BlockPlace(a, P("Multiply", P("Less", G(22, arrs.index(a)), C(1)), C(a.size - 1))), C(7)))

    def dump(a):
        k = arrs.index(a)
        for e in ends(a):
            b.emit(ST(23, G(a, e), 4 * k + (e > 0)))
        b.emit(ST(23, IRGet(BlockPlace(a, P("Multiply", P("Less", G(22, 8 + k), C(1)), C(a.size - 1)))), 4 * k + 2))

    live = []
    todo = arrs[:]
    r.shuffle(todo)
    while todo or live:
        if todo and (not live or r.random() < 0.6):
            a = todo.pop()
            fill(a)
            live.append(a)
            if r.random() < 0.3:
                x, j = BasicBlock(), BasicBlock()
                b.branch(G(24, len(live)), [(None, x), (0, j)])
                b.at(x)
                fill(r.choice(live))
                b.goto(j)
                b.at(j)
        else:
            a = live.pop(r.randrange(len(live)))
            dump(a)
            if r.random() < 0.15:
                fill(a)
                dump(a)
    for k, s in enumerate(sc):
        b.emit(ST(25, G(s), k))
    p = Program(b.entry)
    p.may_reject = sum(sizes) + len(sc) > 4064
    return p


@family
def arrays(seed):
    """Temporary arrays with constant and computed indices, live across branches and loops."""
    r = random.Random(seed * 53 + 23)
    b = Builder()
    arrs = [TempBlock(f"a{k}", r.choice([2, 3, 4])) for k in range(r.randint(2, 4))]
    sc = [TempBlock(f"s{k}") for k in range(r.randint(2, 6))]
    for a in arrs:
        for k in range(a.size):
            if r.random() < 0.9:
                b.emit(ST(a, G(20, 10 * arrs.index(a) + k) if r.random() < 0.7 else C(k), k))
    for k, s in enumerate(sc):
        b.emit(ST(s, G(21, k)))

    def idx(a):
        k = r.random()
        if k < 0.4:
            return r.randrange(a.size)
        if k < 0.8:
            return BlockPlace(r.choice(sc), 0)
        return P("Subtract", C(a.size - 1), G(r.choice(sc)))

    def act():
        a, a2 = r.choice(arrs), r.choice(arrs)
        k = r.random()
        if k < 0.35:
            b.emit(IRSet(BlockPlace(a, idx(a)), r.choice([IRGet(BlockPlace(a2, idx(a2))), G(r.choice(sc)), P("Add", G(r.choice(sc)), C(1))])))
        elif k < 0.6:
            b.emit(ST(r.choice(sc), IRGet(BlockPlace(a, idx(a)))))
        elif k < 0.75:
            b.emit(ST(20, IRGet(BlockPlace(a, idx(a))), 50 + r.randrange(4)))
        elif k < 0.9:
            for q in range(min(a.size, a2.size)):
                b.emit(ST(a, G(a2, q), q))
        else:
            s = r.choice(sc)
            b.emit(ST(s, P("Min", P("Add", G(s), C(1)), C(1))))

    for _ in range(r.randint(2, 5)):
        k = r.random()
        if k < 0.6:
            act()
        elif k < 0.8:
            x, y, j = BasicBlock(), BasicBlock(), BasicBlock()
            b.branch(P("Less", G(r.choice(sc)), C(1)), [(None, x), (0, y)])
            for blk in (x, y):
                b.at(blk)
                for _ in range(r.randint(0, 2)):
                    act()
                b.goto(j)
            b.at(j)
        else:
            i = TempBlock(f"i{b.cur and id(b.cur) % 1000}")
            i = TempBlock(f"i{len(b.loops)}{r.randrange(1000)}")
            head, body, out = BasicBlock(), BasicBlock(), BasicBlock()
            b.emit(ST(i, C(0)))
            b.goto(head)
            b.at(head)
            b.branch(P("Less", G(i), C(r.choice([1, 2]))), [(None, body), (0, out)])
            b.at(body)
            sc.append(i)
            for _ in range(r.randint(1, 2)):
                act()
            sc.pop()
            b.emit(ST(i, P("Add", G(i), C(1))))
            b.goto(head)
            b.at(out)
    for a in arrs:
        if r.random() < 0.7:
            for k in range(a.size):
                b.emit(ST(22, G(a, k), 8 * arrs.index(a) + k))
    for k, s in enumerate(sc):
        b.emit(ST(23, G(s), k))
    return Program(b.entry)


@family
def loops(seed):
    r = random.Random(seed * 37 + 9)
    return Gen(
        seed,
        stmts=r.choice([2, 3, 4]),
        depth=r.choice([2, 3]),
        temps=3,
        arrays=r.choice([0, 0, 1]),
        expr_depth=r.choice([1, 2]),
        w={"loop": 5, "if": 1.5, "temp": 4, "mem": 3, "rmw": 2, "brk": 1.5, "effect": 0.5, "switch": 0.2},
        faulty=r.choice([0, 0.05]),
        bigconst=0,
        modes=0.4,
        dyn=0.2,
        ptr=0.02,
        native=0.05,
    ).program()


@family
def loop_shapes(seed):
    """Counted loops with induction variables, invariants, several exits, nesting, every comparison and step."""
    r = random.Random(seed * 613 + 31)
    g = Gen(seed, modes=r.choice([0, 0.8]), temps=4, arrays=0, ptr=0.0)
    b = Builder()
    O = g.rw[0]  # noqa: E741
    I2 = g.rw[-1]
    inv = g.ro[0] if g.ro and r.random() < 0.6 else I2
    a, c = TempBlock("acc"), TempBlock("cnt")
    b.emit(ST(a, C(0)))
    b.emit(ST(c, C(0)))
    uniq = [0]

    def loop(depth):
        uniq[0] += 1
        u = uniq[0]
        i, k = TempBlock(f"i{u}"), TempBlock(f"k{u}")
        start = r.choice([C(0), C(1), C(-1), C(3), G(O, 20 + u)])
        step = r.choice([1, 1, 2, -1, -2, 0.5])
        up = step > 0
        cmp_ = r.choice(["Less", "LessOr", "NotEqual"] if up else ["Greater", "GreaterOr", "NotEqual"])
        lim = r.choice([C(r.choice([0, 1, 2, 3]) if up else r.choice([0, -1, 1])), G(inv, 1), P("Add", G(inv, 1), C(1)), G(O, 30)])
        b.emit(ST(i, start))
        if r.random() < 0.5:
            b.emit(ST(k, r.choice([C(0), G(O, 21), C(5)])))
        else:
            k = None
        head, body, latch, out = BasicBlock(), BasicBlock(), BasicBlock(), BasicBlock()
        rot = r.random()
        entries = 1
        if r.random() < 0.35:  # several edges straight into the loop, each with its own starting values
            entries = r.choice([2, 2, 3])
            arms = [BasicBlock() for _ in range(entries)]
            b.branch(G(O, 24 + u), [(None if q == entries - 1 else q, x) for q, x in enumerate(arms)])
        test = P(cmp_, G(i), lim) if r.random() < 0.85 else P(
            {"Less": "Greater", "LessOr": "GreaterOr", "Greater": "Less", "GreaterOr": "LessOr", "NotEqual": "NotEqual"}[cmp_], lim, G(i)
        )
        if entries > 1:
            for x in arms:
                b.at(x)
                if r.random() < 0.8:
                    b.emit(ST(i, r.choice([start, C(0), C(1), C(2)])))
                if k is not None and r.random() < 0.6:
                    b.emit(ST(k, r.choice([C(0), G(O, 21), C(5), C(6)])))
                if r.random() < 0.4:
                    b.emit(ST(a, P("Add", G(a), C(r.choice([1, 2])))))
                b.goto(head if rot < 0.6 else body)
        elif rot < 0.6:
            b.goto(head)
        else:
            b.goto(body)
        if rot < 0.6:
            b.at(head)
            b.branch(test, [(None, body), (0, out)])
        inc = P("Add", G(i), C(step)) if r.random() < 0.7 else P("Subtract", G(i), C(-step))
        if r.random() < 0.1:
            inc = P("Add", G(i), G(inv, 4))
        b.at(body)
        if rot < 0.6 and r.random() < 0.35:  # continue: a second edge back to the header
            x, y = BasicBlock(), BasicBlock()
            b.branch(P(r.choice(["Equal", "Less", "Greater"]), r.choice([G(i), G(a), G(O, 7)]), r.choice([C(1), C(2), G(inv, 2)])), [(None, x), (0, y)])
            b.at(x)
            if r.random() < 0.5:
                b.emit(ST(a, P("Add", G(a), r.choice([C(3), G(inv, 3), P("Multiply", G(inv, 2), G(inv, 3))]))))
            b.emit(ST(i, inc))
            b.goto(head)
            b.at(y)
        for _ in range(r.randint(1, 3)):
            z = r.random()
            if z < 0.3:
                b.emit(ST(a, P("Add", G(a), r.choice([G(i), P("Multiply", G(i), C(r.choice([2, 3]))), G(inv, 2), P("Multiply", G(inv, 2), G(inv, 3)), C(1)]))))
            elif z < 0.45:
                b.emit(ST(O, P("Add", G(O, 5), G(i)), 5))
            elif z < 0.55:
                b.emit(ST(O, P("Multiply", G(i), C(4)), P("Add", P("Multiply", G(i), C(2)), C(40)) if isinstance(start, type(C(0))) and step in (1, 2) else 6))
            elif z < 0.65 and k is not None:
                b.emit(ST(k, r.choice([P("Add", G(k), C(2)), P("Subtract", G(k), G(i)), G(i)])))
            elif z < 0.75:
                b.emit(ST(c, P("Add", G(c), C(1))))
            elif z < 0.85:
                n = BasicBlock()
                tgt = r.choice([out, latch])
                b.branch(P(r.choice(["Equal", "Less", "Greater"]), r.choice([G(i), G(a), G(O, 7)]), r.choice([C(1), C(2), G(inv, 2)])), [(None, tgt), (0, n)])
                b.at(n)
            elif z < 0.93 and depth > 0:
                loop(depth - 1)
            else:
                x, y, j = BasicBlock(), BasicBlock(), BasicBlock()
                b.branch(P("Less", G(a), C(r.choice([0, 2]))), [(None, x), (0, y)])
                for blk in (x, y):
                    b.at(blk)
                    b.emit(ST(a, P("Add", G(a), C(r.choice([1, -1, 5])))))
                    b.goto(j)
                b.at(j)
        b.goto(latch)
        b.at(latch)
        b.emit(ST(i, inc))
        if rot < 0.6:
            b.goto(head)
        else:
            b.branch(test, [(None, body), (0, out)])
        b.at(out)
        if r.random() < 0.6:
            b.emit(ST(O, G(i), 10 + u))
        if k is not None and r.random() < 0.7:
            b.emit(ST(O, G(k), 14 + u))

    loop(1)
    if r.random() < 0.25:
        loop(0)
    b.emit(ST(O, G(a), 8))
    b.emit(ST(O, G(c), 9))
    return Program(b.entry, g.mode, g.callback, g.ro)


@family
def diamonds(seed):
    """If-conversion candidates: small arms, selected values, shared joins, effects in one arm only."""
    r = random.Random(seed * 433 + 3)
    g = Gen(seed, temps=3, arrays=0, expr_depth=1, dyn=0.0, ptr=0, modes=0.3)
    b = Builder()
    ts = g.temps
    for t in ts:
        b.emit(ST(t, r.choice([C(0), C(1), IRGet(g.memplace(False, False)), IRGet(g.memplace(False, False))])))
        g.defined.add(t.name)
    for _ in range(r.randint(1, 3)):
        x, y, j = BasicBlock(), BasicBlock(), BasicBlock()
        c = g.cond()
        tri = r.random() < 0.4
        sw = r.random() < 0.3
        if sw:
            cs = r.choice([(0, 1), (0, 1, 2), (1, 2), (0.5, 2), (0, 5, 10), (3,)])
            blks = [BasicBlock() for _ in cs]
            b.branch(IRGet(g.memplace(False, False)), [*zip(cs, blks), (None, j if r.random() < 0.5 else x)])
            arms = [*blks, x]
        elif tri:
            b.branch(c, [(None, x), (0, j)])
            arms = [x]
        else:
            b.branch(c, [(None, x), (0, y)])
            arms = [x, y]
        for blk in arms:
            b.at(blk)
            for _ in range(r.choice([0, 1, 1, 2])):
                z = r.random()
                t = r.choice(ts)
                if z < 0.5:
                    b.emit(ST(t, C(r.choice([0, 1, 2, 5, -1, 0.5]))))
                elif z < 0.65:
                    b.emit(ST(t, G(r.choice(ts))))
                elif z < 0.8:
                    b.emit(ST(t, P(r.choice(["Add", "Subtract", "Multiply", "Negate", "Not"]), *([G(t)] if False else []), G(r.choice(ts)), C(r.choice([1, 2])))
                              if r.random() < 0.7 else P(r.choice(["Negate", "Not", "Abs"]), G(r.choice(ts)))) if True else None) if False else b.emit(
                        ST(t, P(r.choice(["Add", "Subtract", "Multiply", "Less", "Max"]), G(r.choice(ts)), C(r.choice([1, 2])))))
                elif z < 0.88:
                    b.emit(ST(t, IRGet(g.memplace(False, False))))
                elif z < 0.95:
                    b.emit(ST(g.rw[0], G(t), 7))
                else:
                    b.emit(ST(t, P(r.choice(["Divide", "Mod"]), C(1), G(r.choice(ts)))))
            b.goto(j)
        b.at(j)
        if r.random() < 0.4:
            b.emit(ST(g.rw[0], G(r.choice(ts)), r.randrange(4)))
    for k, t in enumerate(ts):
        b.emit(ST(g.rw[0], G(t), 10 + k))
    return Program(b.entry, g.mode, g.callback, g.ro)


@family
def modes(seed):
    """Reads of blocks around writes, in every mode and callback of the frozen table."""
    r = random.Random(seed * 101 + 7)
    return Gen(
        seed,
        stmts=r.choice([4, 6, 8]),
        depth=2,
        temps=3,
        arrays=0,
        expr_depth=1,
        blocks=3,
        indices=2,
        dyn=r.choice([0.1, 0.4]),
        ptr=r.choice([0, 0.15]),
        modes=1.0,
        faulty=0,
        native=0,
        bigconst=0,
        w={"mem": 7, "rmw": 3, "temp": 5, "if": 1.5, "loop": 2, "effect": 1, "draw": 0, "switch": 0.2},
    ).program()


__all__ = ["BOUNDARY", "FAMILIES", "Mode"]


@family
def carried(seed):
    """Loop-carried temporaries that start at constants: constant propagation around cycles, joins of constants and
    branches on them."""
    r = random.Random(seed * 911 + 3)
    b = Builder()
    O = 20  # noqa: E741
    ts = [TempBlock(f"t{k}") for k in range(r.choice([2, 3, 3, 4]))]
    consts = r.choice([[0, 0, 1, -0.0], [0, 1], [1, 2, 3, 0], [0, 1, -1, 2, 0.5, 5]])
    mem = lambda: G(O, r.choice([0, 1, 2]))  # noqa: E731
    leaf = lambda: r.choice([G(r.choice(ts)), G(r.choice(ts)), G(r.choice(ts)), C(r.choice(consts)), mem()])  # noqa: E731

    def ex(d):
        if d == 0 or r.random() < 0.25:
            return leaf()
        z = r.random()
        if z < 0.3:
            return P("Multiply", ex(d - 1), ex(d - 1))
        if z < 0.45:
            return P("Negate", ex(d - 1))
        if z < 0.7:
            return P(r.choice(["Add", "Subtract", "Min", "Max"]), ex(d - 1), ex(d - 1))
        if z < 0.85:
            return P(r.choice(["Equal", "Less", "NotEqual", "LessOr"]), ex(d - 1), ex(d - 1))
        if z < 0.93:
            return P(r.choice(["And", "Or"]), P("Equal", leaf(), leaf()), P("Less", leaf(), leaf()))
        return P(r.choice(["Not", "Abs", "Sign", "Floor"]), ex(d - 1))

    def stmts(n):
        for _ in range(n):
            t = r.choice(ts)
            z = r.random()
            if z < 0.3:
                b.emit(ST(t, C(r.choice(consts))))
            elif z < 0.45:
                b.emit(ST(t, G(r.choice(ts))))
            else:
                b.emit(ST(t, ex(2)))

    def diamond(d):
        n = r.choice([2, 2, 3])
        arms = [BasicBlock() for _ in range(n)]
        j = BasicBlock()
        test = r.choice([leaf, lambda: ex(1)])()
        ks = r.sample([0, 1, 2, 3], n - 1)
        b.branch(test, [(None if q == n - 1 else ks[q], x) for q, x in enumerate(arms)])
        for x in arms:
            b.at(x)
            stmts(r.choice([0, 1, 1, 2]))
            if d and r.random() < 0.25:
                diamond(d - 1)
            b.goto(j)
        b.at(j)

    def loop(d):
        i = TempBlock(f"n{d}_{len(uniq)}")
        uniq.append(i)
        head, body, out = BasicBlock(), BasicBlock(), BasicBlock()
        b.emit(ST(i, C(0)))
        b.goto(head)
        b.at(head)
        b.branch(r.choice([P("Less", G(i), mem()), P("Less", G(i), C(r.choice([0, 1, 2, 3]))), P("Less", G(i), G(r.choice(ts)))]), [(None, body), (0, out)])
        b.at(body)
        for _ in range(r.choice([1, 2, 3])):
            z = r.random()
            if z < 0.5:
                stmts(r.choice([1, 2]))
            elif z < 0.85 or d == 0:
                diamond(1)
            else:
                loop(d - 1)
        b.emit(ST(i, P("Add", G(i), C(1))))
        b.goto(head)
        b.at(out)

    uniq = []
    for t in ts:
        b.emit(ST(t, C(r.choice(consts))))
    if r.random() < 0.3:
        diamond(1)
    loop(r.choice([0, 1]))
    if r.random() < 0.4:
        diamond(0)
    for k, t in enumerate(ts):
        b.emit(ST(O, G(t), 10 + k))
    return Program(b.entry, None, None, ())


@family
def frontend(seed):
    """Graphs the real frontend makes of generated source programs."""
    from . import fe, fegen

    while True:
        try:
            c = fe.Compiled(fegen.control(seed))
            return Program(c.entry, None, None, ())
        except fe.Rejected:
            seed += 1000003
