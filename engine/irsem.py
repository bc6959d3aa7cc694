"""Reference executors over symbolic terms.

`Machine` is the abstract machine of the Sonolus runtime (memory, effects, draws);
`run_cfg` executes an optimizer-input control-flow graph on it (the specification
side P), `run_node` executes an emitted engine node tree (the implementation side Q).
Written from the runtime's documented semantics, not from the code under test; only
the *data types* of the code under test (BasicBlock, FunctionNode, ...) are read.
"""
import math
import zlib

from . import spec
from . import sym as S

TEMP = 10000
ROM = 3000
MAX_INDEX = 65535


class Stop(Exception):
    """Break out of the program with a value."""

    def __init__(self, n, value):
        self.n = n
        self.value = value


class Obligation(Exception):
    """A definite violation candidate on the current path."""

    def __init__(self, kind, detail, cond=None):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail
        self.cond = cond  # bool term describing when it happens (None: whole path)


def near_case(t):
    """Known finding (jump-table rounding): a non-integer this close to an integer may be rounded onto a case by
    the offset subtraction of a normalized table; such inputs are excluded from concrete confirmation."""
    v = S.cval(t)
    if v is not None and math.isfinite(v) and v != round(v) and abs(v - round(v)) < 2.0**-28:
        raise S.Cut("known: jump table rounding")


class ConcretePath:
    """Path interface for concrete (constant) runs."""

    def __init__(self):
        self.n = 0

    def branch(self, b):
        b = S.res(b)
        if b is S.TRUE:
            return True
        if b is S.FALSE:
            return False
        raise AssertionError(f"non-concrete branch {b}")

    def lookup(self, b):
        b = S.res(b)
        return True if b is S.TRUE else False if b is S.FALSE else None

    def assume(self, b, why=""):
        if S.res(b) is not S.TRUE:
            raise S.Undefined(why)

    def implied(self, b):
        return S.res(b) is S.TRUE

    def ensure_feasible(self):
        pass


def init_symbolic(b, i):
    return S.uf("mem", (b, i))


class Machine:
    def __init__(self, path, strict, init=init_symbolic, draws=None, natives=None):
        self.path = path
        self.strict = strict  # True: P (undefined => assume); False: Q (undefined => obligation)
        self.log = []  # writes (block, index, value)
        self.reads = 0
        self.events = []  # (op, args, len(log))
        self.draws = []  # (op, args, value)
        self.draw_sites = []  # the instruction each draw comes from
        self.site = None
        self.init = init
        self.draw_source = draws
        self.natives = natives
        self.guards = []
        self.steps = 0
        self.result = None
        self.readonly = frozenset()  # blocks the program may not write (P)

    # definedness -----------------------------------------------------------
    def need(self, cond, why):
        cond = S.res(cond)
        if cond is S.TRUE:
            return
        if self.guards:
            cond = S.or_(*[S.not_(g) for g in self.guards], cond)
            if cond is S.TRUE:
                return
        if self.strict:
            self.path.assume(cond, why)
            return
        r = self.path.implied(cond)
        if r is True:
            return
        if r is False:
            raise Obligation("fault", why, S.not_(cond))
        raise S.Cut("unknown definedness " + why)

    def int_ok(self, t, why):
        t = S.lin(t)
        self.need(S.intlike(t), why + " is an integer")
        return t

    def address(self, b, i):
        b = self.int_ok(b, "block")
        i = self.int_ok(i, "index")
        self.need(S.and_(S.le(S.ZERO, i), S.le(i, S.const(MAX_INDEX))), "index range")
        if self.strict and S.cval(b) is None:
            self.path.assume(S.not_(S.eq(b, S.const(TEMP))), "pointer into temporaries")
            self.path.assume(S.not_(S.eq(b, S.const(ROM))), "pointer into rom")
        if S.cval(b) == TEMP:
            self.need(S.le(i, S.const(4095)), "temporary slot range")
        return b, i

    @staticmethod
    def same_num(a, b):
        a, b = S.lin(S.norm(a)), S.lin(S.norm(b))
        d = S.lin_diff(a, b)
        if d is not None:
            return S.boolc(d == 0.0)
        return S.eq(a, b)

    def read_raw(self, b, i, upto=None):
        conds = []
        log = self.log if upto is None else self.log[:upto]
        base = None
        for wb, wi, wv in reversed(log):
            c = self.same_num(wb, b)
            if c is S.FALSE:
                continue
            c = S.and_(c, self.same_num(wi, i))
            v = True if c is S.TRUE else False if c is S.FALSE else self.path.lookup(c)
            if v is False:
                continue
            if v is True:
                base = wv
                break
            conds.append((c, wv))
        if base is None:
            cb, ci = S.cval(b), S.cval(i)
            if cb == ROM and ci in (0.0, 1.0, 2.0):
                base = S.const((math.nan, math.inf, -math.inf)[int(ci)])
            else:
                base = self.init(S.lin(S.norm(b)), S.lin(S.norm(i)))
        for c, v in reversed(conds):
            base = S.ite(c, v, base)
        return base

    def read(self, b, i):
        b, i = self.address(b, i)
        self.reads += 1
        return self.read_raw(b, i)

    def write(self, b, i, v):
        b, i = self.address(b, i)
        if self.strict and self.readonly:
            c = S.cval(b)
            if c is not None:
                if c in self.readonly:
                    raise S.Cut("write to read-only block")
            else:
                for k in self.readonly:
                    self.path.assume(S.not_(S.eq(b, S.const(k))), "write to read-only block")
        self.log.append((b, i, v))
        return v

    # operations on evaluated operands --------------------------------------
    def pure(self, op, args):
        if self.natives is not None and self.strict and op in ("Equal", "NotEqual"):
            near_case(args[0])
            near_case(args[1])
        if op in spec.VALUE_OPS or op.startswith("Ease"):
            return spec.apply(op, args, self.need)
        return self.native("native." + op, args)

    def native(self, name, args):
        args = tuple(S.res(a) for a in args)
        if self.natives is not None:
            vals = tuple(S.cval(a) for a in args)
            assert None not in vals, (name, args)
            return S.const(self.natives(name, vals))
        return S.uf(name, args)

    def draw(self, op, args):
        lo, hi = args
        if op == "RandomInteger":
            lo = self.int_ok(lo, "RandomInteger bound")
            hi = self.int_ok(hi, "RandomInteger bound")
            self.need(S.lt(lo, hi), "RandomInteger range")
            args = (lo, hi)
        v = self.draw_source(self, op, args)
        self.draws.append((op, tuple(args), v))
        self.draw_sites.append(self.site)
        return v

    def pointed(self, b, i, off):
        db = self.read(b, i)
        di = S.add(self.read(b, S.add(S.lin(i), S.ONE)), self.int_ok(off, "offset"))
        return db, di

    def shifted(self, off, i, stride):
        """offset + index * stride.  Only the resulting address has to be an integer here: that the interpreter also
        rejects a fractional factor of an integral product is a known finding (see known_findings.jsonl, C07),
        checked by its own probe; exact operator semantics are the subject of C09."""
        return self.int_ok(S.lin(S.add(off, S.mul(i, stride))), "index")

    _RMW = {
        "SetAdd": "Add",
        "SetSubtract": "Subtract",
        "SetMultiply": "Multiply",
        "SetDivide": "Divide",
        "SetMod": "Mod",
        "SetRem": "Rem",
        "SetPower": "Power",
    }

    def memory_op(self, op, a):
        """Memory operations on evaluated operands; returns value or NotImplemented."""
        kind = "Pointed" if op.endswith("Pointed") else "Shifted" if op.endswith("Shifted") else ""
        base = op[: len(op) - len(kind)]
        rmw = base in self._RMW
        incdec = base in ("IncrementPost", "IncrementPre", "DecrementPost", "DecrementPre")
        if base not in ("Get", "Set") and not rmw and not incdec:
            if op == "Copy":
                sb, si, db, di, n = a
                n = S.cval(n)
                if n is None:
                    raise S.Cut("symbolic Copy count")
                vals = [self.read(sb, S.add(si, S.const(k))) for k in range(int(n))]
                for k, v in enumerate(vals):
                    self.write(db, S.add(di, S.const(k)), v)
                return S.ZERO
            return NotImplemented
        a = list(a)
        value = a.pop() if base == "Set" or rmw else None
        if kind == "Pointed":
            b, i = self.pointed(*a)
        elif kind == "Shifted":
            b, i = a[0], self.shifted(*a[1:])
        else:
            b, i = a
        if base == "Get":
            return self.read(b, i)
        if base == "Set":
            return self.write(b, i, value)
        old = self.read(b, i)
        if rmw:
            return self.write(b, i, self.pure(self._RMW[base], (old, value)))
        new = self.pure("Add" if base.startswith("Inc") else "Subtract", (old, S.ONE))
        self.write(b, i, new)
        return new if base.endswith("Post") else old

    def instr(self, op, args):
        """Any non-control operation on evaluated operands."""
        r = self.memory_op(op, args)
        if r is not NotImplemented:
            return r
        if op in ("Random", "RandomInteger"):
            return self.draw(op, args)
        if op in spec.EFFECTS:
            if op == "Break":
                raise Stop(args[0], args[1])
            n = len(self.events)
            self.events.append((op, tuple(args), len(self.log)))
            if op in ("DebugLog", "DebugPause"):
                return S.ZERO
            return self.native("effect." + op, (S.const(n), *args))
        if op in spec.IMPURE_READS:
            raise S.Cut("unsupported " + op)
        return self.pure(op, args)


# ------------------------------------------------------------------ CFG (P)


class CfgRun:
    def __init__(self, m, max_steps=400, max_visits=6):
        self.m = m
        self.temps = {}
        self.visits = {}
        self.max_steps = max_steps
        self.max_visits = max_visits
        self.trail = []

    def ev(self, e):
        k = type(e).__name__
        m = self.m
        if k == "IRConst":
            return S.const(e.value)
        if k == "IRGet":
            return self.load(e.place)
        if k == "BlockPlace":
            return self.load(e)
        if k in ("IRPureInstr", "IRInstr"):
            args = [self.ev(a) for a in e.args]
            m.site = id(e)
            return m.instr(e.op.value, args)
        if k == "IRSet":
            return self.store(e)
        if isinstance(e, (int, float)):
            return S.const(e)
        raise TypeError(k)

    def target(self, place):
        blk = place.block
        k = type(blk).__name__
        if k == "TempBlock":
            b = blk
        elif isinstance(blk, int):
            b = S.const(int(blk))
        else:
            b = self.ev(blk)
        i = self.ev(place.index)
        if place.offset:
            i = S.lin(S.add(self.m.int_ok(i, "index"), S.const(place.offset)))
        return b, i

    def temp_index(self, b, i):
        c = S.cval(i)
        if c is None:
            i = S.lin(i)
            for k in range(b.size) if b.size <= 64 else (0, b.size - 1, 1, b.size // 2):
                if self.m.path.branch(S.eq(i, S.const(k))):
                    return k
            raise S.Cut("temporary array index out of range")
        if c != int(c) or not 0 <= c < b.size:
            raise S.Cut("temporary array index out of range")
        return int(c)

    def load(self, place):
        b, i = self.target(place)
        if isinstance(b, S.T):
            return self.m.read(b, i)
        k = (b.name, self.temp_index(b, i))
        v = self.temps.get(k)
        if v is None:
            raise S.Cut("read of unwritten temporary")
        return S.res(v)

    def store(self, e):
        v = self.ev(e.value)
        b, i = self.target(e.place)
        if isinstance(b, S.T):
            self.m.write(b, i, v)
        else:
            self.temps[b.name, self.temp_index(b, i)] = v
        return v

    def over(self):
        return S.Cut("step bound")

    def run(self, entry):
        m = self.m
        try:
            blk = entry
            while blk is not None:
                n = self.visits[id(blk)] = self.visits.get(id(blk), 0) + 1
                m.steps += 1 + len(blk.statements)
                if n > self.max_visits or m.steps > self.max_steps:
                    raise self.over()
                self.trail.append(blk)
                for s in blk.statements:
                    self.ev(s)
                out = {e.cond: e.dst for e in blk.outgoing}
                if not out:
                    break
                if len(out) == 1 and None in out:
                    self.ev(blk.test)
                    blk = out[None]
                    continue
                t = self.ev(blk.test)
                near_case(t)
                nxt = out.get(None)
                for c in sorted(k for k in out if k is not None):
                    if m.path.branch(S.eq(t, S.const(c))):
                        nxt = out[c]
                        break
                blk = nxt
            m.result = S.ZERO
        except Stop as e:
            if S.cval(e.n) != 1.0:
                raise S.Cut("break depth") from None
            m.result = e.value
        return m


# ------------------------------------------------------------------ node tree (Q)

_CONTROL = {"Block", "Break", "DoWhile", "Execute", "Execute0", "JumpLoop", "While"}


class NodeRun:
    def __init__(self, m, max_steps=4000):
        self.m = m
        self.max_steps = max_steps
        self.impure = {}

    def has_effect(self, n):
        if not isinstance(n, tuple):
            return False
        k = id(n)
        r = self.impure.get(k)
        if r is None:
            op = n.func.value
            r = (
                op in spec.EFFECTS
                or op in ("Random", "RandomInteger", "While", "DoWhile", "JumpLoop", "Block")
                or any(self.has_effect(a) for a in n.args)
            )
            self.impure[k] = r
        return r

    def guarded(self, g, node):
        """Value of `node` evaluated only when g holds (no effects inside)."""
        v = self.m.path.lookup(g)
        if v is False:
            return S.ZERO
        if v is True:
            return self.run(node)
        self.m.guards.append(g)
        try:
            return self.run(node)
        finally:
            self.m.guards.pop()

    def choose(self, c, a, b):
        """if c then node a else node b."""
        path = self.m.path
        c = S.res(c)
        v = path.lookup(c)
        if v is None and (self.has_effect(a) or self.has_effect(b)):
            self.no_guard()
            v = path.branch(c)
        if v is True:
            return self.run(a)
        if v is False:
            return self.run(b)
        x = self.guarded(c, a)
        y = self.guarded(S.not_(c), b)
        return S.ite(c, x, y)

    def no_guard(self):
        assert not self.m.guards

    def switch_eq(self, t, k):
        """t == k for a jump-table test.  The optimizer rewrites the test x of a table to (x - offset) / stride;
        x is assumed not to be a non-integer that the subtraction rounds onto a case (see the known finding)."""
        c = S.eq(t, k)
        kv = S.cval(k)
        if kv is None or not float(kv).is_integer() or self.m.path.lookup(c) is not None:
            return c
        if abs(kv) > 2**25:
            return c
        t = S.res(t)
        if t.op == "div":
            d = S.cval(t.args[1])
            if d is None or not d.is_integer() or abs(kv * d) > 2**26:
                return c
            t, kv = t.args[0], kv * d
            c = S.eq(t, S.const(kv))
            if self.m.path.lookup(c) is not None:
                return c
        if t.op == "add":
            for x, y in (t.args, t.args[::-1]):
                d = S.cval(y)
                if d is not None and d.is_integer() and abs(kv - d) <= 2**26:
                    return S.eq(x, S.const(kv - d))
        if t.op == "sub":
            d = S.cval(t.args[0])
            if d is not None and d.is_integer() and abs(kv - d) <= 2**26:
                return S.eq(S.neg(t.args[1]), S.const(kv - d))
        return c

    def cases(self, t, pairs, default):
        if not pairs:
            return self.run(default)
        (k, n), rest = pairs[0], pairs[1:]
        c = self.switch_eq(t, self.run(k))
        path = self.m.path
        v = path.lookup(c)
        if v is None and (
            self.has_effect(n)
            or self.has_effect(default)
            or any(self.has_effect(x) or self.has_effect(y) for x, y in rest)
        ):
            self.no_guard()
            v = path.branch(c)
        if v is True:
            return self.run(n)
        if v is False:
            return self.cases(t, rest, default)
        x = self.guarded(c, n)
        self.m.guards.append(S.not_(c))
        try:
            y = self.cases(t, rest, default)
        finally:
            self.m.guards.pop()
        return S.ite(c, x, y)

    def index(self, v, n):
        """Resolve a jump index term to a concrete int."""
        v = S.res(v)
        while S.cval(v) is None and v.op in ("ite", "b2n"):
            if v.op == "b2n":
                v = S.ONE if self.m.path.branch(v.args[0]) else S.ZERO
            else:
                v = S.res(v.args[1] if self.m.path.branch(v.args[0]) else v.args[2])
        c = S.cval(v)
        if c is not None:
            return int(c)
        for k in range(n):
            if self.m.path.branch(S.eq(v, S.const(k))):
                return k
        raise S.Cut("jump index")

    def run(self, n):
        m = self.m
        if not isinstance(n, tuple):
            return S.const(n)
        m.steps += 1
        if m.steps > self.max_steps:
            raise Obligation("steps", f"emitted program exceeds {self.max_steps} steps")
        op = n.func.value
        a = n.args
        if op == "Execute":
            r = S.ZERO
            for x in a:
                r = self.run(x)
            return r
        if op == "Execute0":
            for x in a:
                self.run(x)
            return S.ZERO
        if op == "If":
            return self.choose(S.truth(self.run(a[0])), a[1], a[2])
        if op in ("Switch", "SwitchWithDefault"):
            t = self.run(a[0])
            rest = list(a[1:])
            d = rest.pop() if op == "SwitchWithDefault" else 0
            return self.cases(t, [(rest[i], rest[i + 1]) for i in range(0, len(rest), 2)], d)
        if op in ("SwitchInteger", "SwitchIntegerWithDefault"):
            t = self.run(a[0])
            rest = list(a[1:])
            d = rest.pop() if op == "SwitchIntegerWithDefault" else 0
            return self.cases(t, list(enumerate(rest)), d)
        if op == "While":
            while m.path.branch(S.truth(self.run(a[0]))):
                self.run(a[1])
            return S.ZERO
        if op == "DoWhile":
            while True:
                self.run(a[0])
                if not m.path.branch(S.truth(self.run(a[1]))):
                    return S.ZERO
        if op in ("And", "Or"):
            if not a:
                return S.ZERO
            return self.chain(op == "And", a, 0)
        if op == "JumpLoop":
            i = 0
            while 0 <= i < len(a):
                if i == len(a) - 1:
                    return self.run(a[i])
                m.steps += 1
                i = self.index(self.run(a[i]), len(a))
            return S.ZERO
        if op == "Block":
            try:
                return self.run(a[0])
            except Stop as e:
                k = S.cval(e.n)
                if k is None:
                    raise S.Cut("break depth") from None
                if k > 1:
                    raise Stop(S.const(k - 1), e.value) from None
                return e.value
        args = [self.run(x) for x in a]
        return m.instr(op, args)

    def chain(self, is_and, a, i):
        v = self.run(a[i])
        if i == len(a) - 1:
            return v
        c = S.truth(v) if is_and else S.not_(S.truth(v))
        path = self.m.path
        k = path.lookup(c)
        if k is None and any(self.has_effect(x) for x in a[i + 1 :]):
            self.no_guard()
            k = path.branch(c)
        if k is True:
            return self.chain(is_and, a, i + 1)
        if k is False:
            return S.ZERO if is_and else v
        self.m.guards.append(c)
        try:
            r = self.chain(is_and, a, i + 1)
        finally:
            self.m.guards.pop()
        return S.ite(c, r, S.ZERO if is_and else v)

    def main(self, node):
        try:
            self.m.result = self.run(node)
        except Stop as e:
            raise Obligation("break", "Break escapes the program") from e
        return self.m


def native_default(name, vals):
    """Deterministic stand-in for runtime natives in concrete replays."""
    h = zlib.crc32(repr((name, vals)).encode())
    return float((h % 4001) - 2000) / 8.0
