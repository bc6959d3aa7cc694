"""Programs that draw random numbers: the set of behaviours of the compiled program over every outcome of its draws
against the set of behaviours Python's random module allows."""

import random

from . import fe, femodel as M, feiter, irsem, pysym
from . import sym as S
from .irsem import Machine, NodeRun, Obligation
from .pysym import N, term, wrap, wrapb

LIMIT = 40  # behaviours per path


class Choices:
    """Depth-first enumeration of sequences of choices."""

    def __init__(self):
        self.prefix = []
        self.k = 0

    def pick(self, n):
        if n <= 0:
            raise S.Cut("empty choice")
        if self.k == len(self.prefix):
            self.prefix.append([0, n])
        c = self.prefix[self.k]
        self.k += 1
        return c[0]

    def next(self):
        del self.prefix[self.k :]
        self.k = 0
        while self.prefix:
            c = self.prefix[-1]
            c[0] += 1
            if c[0] < c[1]:
                return True
            self.prefix.pop()
        return False


def every(run):
    ch = Choices()
    out = []
    while True:
        out.append(run(ch))
        if len(out) > LIMIT:
            raise S.Cut("too many behaviours")
        if not ch.next():
            return out


class PRandom:
    """Python's random module with the outcome chosen."""

    def __init__(self, ch):
        self.ch = ch

    def of(self, items):
        if not items:
            raise ValueError("empty range")
        return items[self.ch.pick(len(items))]

    def randrange(self, *a):
        return self.of(feiter.MRange(*a).items())

    def randint(self, a, b):
        return self.of(feiter.MRange(a, b + 1).items())

    def choice(self, seq):
        return self.of(seq.items() if isinstance(seq, M.PSeq) else list(seq))

    def shuffle(self, seq):
        left = [M.stored(x) for x in seq.items()]
        out = []
        while left:
            out.append(left.pop(self.ch.pick(len(left))))
        seq.assign(out)


class Stub:
    """The interpreter's random module with the outcome chosen."""

    def __init__(self, ch):
        self.ch = ch

    def randrange(self, lo, hi):
        if hi <= lo:
            raise ValueError(f"empty range for randrange({lo}, {hi})")
        if hi - lo > 64:
            raise S.Cut("wide draw")
        return lo + self.ch.pick(int(hi - lo))

    def uniform(self, lo, hi):
        raise S.Cut("continuous draw")


def same_log(a, b):
    return len(a) == len(b) and all(pysym.close(fe.number(x), y, 1e-9) for x, y in zip(a, b))


def body(prog, comp, levels):
    oracle = fe.Oracle(prog)

    def want_of(vals):
        try:
            return every(lambda ch: oracle.run(vals, draw=PRandom(ch)))
        except fe.ORACLE_ERRORS as e:
            raise S.Cut(f"oracle {type(e).__name__}") from None

    def go(L):
        sym = L.concrete is None
        vals = [L.var(f"x{k}", lo, hi, integer=i) for k, (lo, hi, i) in enumerate(prog.inputs)]
        if not sym:
            vals = [fe.CF(v) for v in vals]
            want = want_of(vals)
            for lv in ("minimal", *[l for l in levels if l not in ("cfg", "minimal")]):
                try:
                    got = every(lambda ch: comp.run_real(vals, lv, draws=Stub(ch))[0])
                except S.Cut:
                    raise
                except Exception as e:  # noqa: BLE001
                    raise pysym.Failed(f"{lv}: on {[float(v) for v in vals]} the compiled program fails: {type(e).__name__}: {e}") from None
                for g in got:
                    if not any(same_log(w, g) for w in want):
                        raise pysym.Failed(f"{lv}: on {[float(v) for v in vals]} the compiled program can log {fe.show(g)}, which Python never does")
                for w in want:
                    if not any(same_log(w, g) for g in got):
                        raise pysym.Failed(f"{lv}: on {[float(v) for v in vals]} the compiled program never logs {fe.show(w)}, which Python can")
            return
        want = want_of(vals)
        ins = [term(v) for v in vals]

        def init(b, i):
            cb, ci = S.cval(b), S.cval(i)
            if cb == fe.IN and ci is not None and 0 <= ci < len(ins):
                return ins[int(ci)]
            if cb == fe.ROM and ci is not None and 0 <= ci < len(comp.rom):
                return S.const(comp.rom[int(ci)])
            if cb == 10000:
                return S.var(f"unset{S.show(i)}")
            if cb is not None and cb != fe.IN and cb != fe.ROM:
                raise Obligation("fault", f"read of unwritten memory {cb}[{S.show(i)}]")
            raise S.Cut("symbolic read of inputs")

        for lv in levels:

            def run(ch, lv=lv):
                def draw(m, op, args):
                    if op != "RandomInteger":
                        raise S.Cut("continuous draw")
                    n = M.conc(wrap(S.sub(args[1], args[0])), 1, 25)
                    if n is None:
                        raise S.Cut("wide draw")
                    return S.add(args[0], S.const(ch.pick(n)))

                m = Machine(pysym.PATH, False, init=init, draws=draw)
                if lv == "cfg":
                    fe.FeRun(m, max_steps=fe.STEPS, max_visits=fe.VISITS).run(comp.entry)
                else:
                    NodeRun(m, 40000).main(comp.tree(lv))
                return [a[0] for op, a, _ in m.events if op == "DebugLog"]

            try:
                got = every(run)
            except Obligation as e:
                L.check(f"{lv}: {e.kind} {e.detail}", wrapb(S.not_(e.cond)) if e.cond is not None else False)
                continue
            except S.Undefined as e:
                L.check(f"{lv}: undefined {e}", False)
                continue
            ws = [[term(fe.number(x)) for x in w] for w in want]
            eqs = [
                [S.FALSE if len(w) != len(g) else S.norm(S.and_(*[S.eq(a, b) for a, b in zip(w, g)])) for w in ws]
                for g in got
            ]
            for k in range(len(got)):
                L.check(f"{lv}: outcome {k} is one Python allows", wrapb(any_of(eqs[k])))
            for k in range(len(ws)):
                L.check(f"{lv}: outcome {k} of Python is reachable", wrapb(any_of([e[k] for e in eqs])))

    return go


def any_of(cs):
    if any(c is S.TRUE for c in cs):
        return S.TRUE
    return S.or_(*cs) if cs else S.FALSE


LEVELS = ("cfg", "standard", "fast")


def make_law(prog, comp, seed=0, max_paths=32, levels=LEVELS, **kw):
    kw.setdefault("zx_ms", 1500)
    kw.setdefault("zf_ms", 1500)
    return fe.FeLaw(body(prog, comp, levels), max_paths=max_paths, seed=seed, tol=1e-9, **kw)


# ------------------------------------------------------------------ programs


def outcomes(seed):
    r = random.Random(seed * 37 + 11)
    w = [f"{v} = inp({k})" for k, v in enumerate("abc")]
    rt = ["a", "b", "c"]
    uid = [0]

    def name(p):
        uid[0] += 1
        return f"{p}{uid[0]}"

    def num():
        return r.choice(rt) if r.random() < 0.6 else str(r.choice([0, 1, 2, 3, -1, -2]))

    def seq():
        z = r.randrange(4)
        if z == 0:
            return f"range({num()}, {num()}{r.choice(['', '', ', 2', ', -1'])})"
        n = name("s")
        if z == 1:
            w.append(f"{n} = Array({', '.join(num() for _ in range(r.choice([1, 2, 3])))})")
        else:
            w.append(f"{n} = VarArray[int, 4].new()")
            for _ in range(r.choice([1, 2, 2])):
                w.append(f"{n}.append({num()})")
            if r.random() < 0.5:
                w.append(f"if {r.choice(rt)} > 0:")
                w.append(f"    {n}.append({num()})")
        return n

    def draw():
        z = r.randrange(8)
        if z < 6 and r.random() < 0.6:
            x, k = num(), r.choice(["c", "1", "2", "3", "c + 1"])
            if z <= 1:
                return f"random.randrange({r.choice(['c', 'c + 1', '2', '3'])})"
            if z <= 3:
                st = r.choice([1, 2, -1, -2, 3, -3])
                return f"random.randrange({x}, {x} + {k} * {st}{r.choice([' - 1', ' + 1', '', ''])}, {st})"
            return f"random.randint({x}, {x} + {k})"
        if z == 0:
            return f"random.randrange({num()})"
        if z == 1:
            return f"random.randrange({num()}, {num()})"
        if z <= 3:
            return f"random.randrange({num()}, {num()}, {r.choice(['1', '2', '-1', '-2', '3', '-3', 'c', '-c'])})"
        if z <= 5:
            return f"random.randint({num()}, {num()})"
        return f"random.choice({seq()})"

    for _ in range(r.choice([1, 1, 1, 2])):
        z = r.randrange(10)
        if z <= 5:
            w.append(f"log({draw()})")
        elif z == 6 and r.random() < 0.45:
            s = name("s")
            n = r.choice([2, 2, 3])
            w.append(f"{s} = Array({', '.join(f'Pair({num()}, {num()})' for _ in range(n))})")
            if r.random() < 0.7:
                w.append(f"random.shuffle({s})")
            else:
                x = name("x")
                w += [f"{x} = random.choice({s})", f"{x}.first += 1"]
            w += [f"for e in {s}:", "    log(e.first)", "    log(e.second)"]
        elif z == 6:
            s = seq()
            while s.startswith("range"):
                s = seq()
            w.append(f"random.shuffle({s})")
            w += [f"for e in {s}:", "    log(e)"]
        elif z == 7:
            d = draw()
            w += [f"if {d} {r.choice(['==', '>', '<'])} {num()}:", f"    log({num()})", "else:", f"    log({r.choice(rt)} * 2)"]
        elif z == 8:
            x = name("x")
            w += [f"{x} = {draw()}", f"log({x} + 0)", f"log({x} * {x})"]
        else:
            w += [f"for i in range({r.choice(['2', 'c'])}):", f"    log(random.randint({num()}, {num()}))"]
    src = "def main():\n" + "\n".join("    " + x for x in w) + "\n"
    return fe.Prog(src, [(-2, 3, True), (-1, 4, True), (1, 2, True)], real=real_ns, oracle=M.oracle_ns)


def real_ns():
    return M.real_ns()


# ------------------------------------------------------------------ one symbolic draw, wide ranges

WIDE = [
    ("randrange({a}, {b}, {c})", lambda r, a, b, c: inrange(r, a, b, c), (1, 2, 3, 7, 10, -1, -2, -3, -9), "range"),
    ("randrange({a}, {b})", lambda r, a, b, c: inrange(r, a, b, 1), (1,), "range"),
    ("randrange({a})", lambda r, a, b, c: inrange(r, 0, a, 1), (1,), "range1"),
    ("randint({a}, {b})", lambda r, a, b, c: inrange(r, a, b + 1, 1), (1,), "int"),
    ("random()", lambda r, a, b, c: (r >= 0) & (r < 1), (1,), None),
    ("uniform({a}, {b})", lambda r, a, b, c: ((r >= a) & (r <= b)) | ((r >= b) & (r <= a)), (1,), None),
]


def inrange(r, a, b, c):
    lo = (a <= r) & (r < b) if c > 0 else (b < r) & (r <= a)
    return lo & ((r - a) % abs(c) == 0)


def wide_body(k, c):
    text, ok, _, kind = WIDE[k]
    src = "def main():\n    a = inp(0)\n    b = inp(1)\n    log(random." + text.format(a="a", b="b", c=c) + ")\n"
    prog = fe.Prog(src, [(-1000, 1000, kind is not None)] * 2)
    comp = fe.Compiled(prog)

    def go(L):
        a, b = (L.var(f"x{j}", -1000, 1000, integer=kind is not None) for j in range(2))
        if kind == "range":
            L.assume(a < b if c > 0 else b < a)
        elif kind == "range1":
            L.assume(a > 0)
        elif kind == "int":
            L.assume(a <= b)
        u = L.var("draw", 0, 2000 if kind else 1, integer=kind is not None)
        if L.concrete is not None:

            class One:
                def randrange(self, lo, hi):
                    if not hi > lo:
                        raise ValueError("empty range")
                    return lo + int(u) % (hi - lo)

                def uniform(self, lo, hi):
                    return lo + (hi - lo) * u

            got, _ = comp.run_real([a, b], "minimal", draws=One())
            if not ok(got[0], a, b, c):
                raise pysym.Failed(f"{text} with a={a}, b={b}, c={c} yields {got[0]}")
            return

        def draw(m, op, args):
            lo, hi = args
            if op == "RandomInteger":
                v = S.add(lo, term(u))
                pysym.PATH.assume(S.lt(v, hi), "draw in range")
                return v
            return S.add(lo, S.mul(S.sub(hi, lo), term(u)))

        ins = [term(a), term(b)]

        def init(bk, i):
            if S.cval(bk) == fe.IN:
                return ins[int(S.cval(i))]
            raise S.Cut("memory")

        m = Machine(pysym.PATH, False, init=init, draws=draw)
        try:
            fe.FeRun(m, max_steps=fe.STEPS, max_visits=fe.VISITS).run(comp.entry)
        except Obligation as e:
            L.check(f"{e.kind} {e.detail}", wrapb(S.not_(e.cond)) if e.cond is not None else False)
            return
        r = wrap([x[0] for op, x, _ in m.events if op == "DebugLog"][0])
        L.check(text, ok(r, a, b, c))

    return go
