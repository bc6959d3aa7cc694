"""Hash-consed symbolic terms, z3 lowering (exact-real/UF level and FP64 level)
and a path-forking explorer.

Terms are modulo the sign of zero: the constant -0.0 is the constant 0.0 (the
compiler under test does the same by contract).

Level "R" (first attempt at every query): numbers are reals, order and equality
are exact, neg/abs/min/max/ite exact, every rounding operation (+ - * / ...) is an
uninterpreted function of its operands.  This over-approximates float behaviour
(any two executions equal for all interpretations are equal for IEEE doubles), so
`unsat` is sound; a model is only a candidate and is replayed or refined.

Level "F" (refinement): numbers are IEEE doubles, + - * / floor ceil trunc round
are the exact IEEE operations, transcendental functions stay uninterpreted.
"""
import math
import time
from fractions import Fraction

import z3

# ----------------------------------------------------------------- terms


class T:
    __slots__ = ("op", "args", "val", "id", "sort", "zr", "zf", "__weakref__")

    def __repr__(self):
        return show(self)


def show(t, depth=6):
    if t.op == "c":
        v = t.val
        return repr(int(v)) if isinstance(v, float) and v.is_integer() and abs(v) < 1e15 else repr(v)
    if t.op == "v":
        return str(t.val)
    if depth == 0:
        return "…"
    a = ", ".join(show(x, depth - 1) for x in t.args)
    if t.op == "lin":
        return f"lin{t.val}({a})"
    v = "" if t.val is None else f"<{t.val}>"
    return f"{t.op}{v}({a})"


_table = {}
_next = [0]
SUBST = {}
BOOL_OPS = {"lt", "le", "eq", "not", "and", "or", "bv", "isint", "bite", "ufb"}


def reset():
    """Forget all terms (start of a new program)."""
    _table.clear()
    SUBST.clear()
    _zx_memo.clear()
    _next[0] = 0
    global TRUE, FALSE, ZERO, ONE
    TRUE = _mk("bc", (), True, "B")
    FALSE = _mk("bc", (), False, "B")
    ZERO = const(0.0)
    ONE = const(1.0)


def _mk(op, args, val=None, sort="N"):
    key = (op, val, tuple(a.id for a in args))
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.val = val
        t.sort = sort
        t.id = _next[0]
        t.zr = None
        t.zf = None
        _next[0] += 1
        _table[key] = t
    return t


def mk(op, args, val=None, sort="N"):
    if SUBST:
        args = tuple(SUBST.get(a, a) for a in args)
        t = _mk(op, args, val, sort)
        return SUBST.get(t, t)
    return _mk(op, tuple(args), val, sort)


def res(t):
    return SUBST.get(t, t) if SUBST else t


def const(v):
    v = float(v)
    if v == 0.0:
        v = 0.0
    if v != v:
        return _mk("c", (), "nan")
    if v in (math.inf, -math.inf):
        return _mk("c", (), "inf" if v > 0 else "-inf")
    return _mk("c", (), v)


def cval(t):
    """Concrete float of a constant term, else None."""
    t = res(t)
    if t.op != "c":
        return None
    return float(t.val)


def var(name):
    return res(_mk("v", (), name))


def bvar(name):
    return _mk("bv", (), name, "B")


def boolc(b):
    return TRUE if b else FALSE


class Undefined(Exception):
    """A concrete evaluation the reference semantics leaves undefined."""


def _fold(f, *xs):
    """Evaluate f on floats if all are constants; returns term or None."""
    vs = []
    for x in xs:
        v = cval(x)
        if v is None:
            return None
        vs.append(v)
    try:
        r = f(*vs)
    except (ZeroDivisionError, ValueError, OverflowError) as e:
        raise Undefined(str(e)) from None
    if isinstance(r, complex):
        raise Undefined("complex")
    return const(r)


def _is(t, v):
    return t.op == "c" and t.val == v


def add(a, b):
    a, b = res(a), res(b)
    r = _fold(lambda x, y: x + y, a, b)
    if r is not None:
        return r
    if _is(a, 0.0):
        return b
    if _is(b, 0.0):
        return a
    if b.op == "neg":
        return sub(a, b.args[0])
    if a.op == "neg":
        return sub(b, a.args[0])
    if b.id < a.id:
        a, b = b, a
    return mk("add", (a, b))


def neg(a):
    a = res(a)
    r = _fold(lambda x: -x, a)
    if r is not None:
        return r
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,))


def sub(a, b):
    a, b = res(a), res(b)
    r = _fold(lambda x, y: x - y, a, b)
    if r is not None:
        return r
    if _is(b, 0.0):
        return a
    if _is(a, 0.0):
        return neg(b)
    if b.op == "neg":
        return add(a, b.args[0])
    if b.op == "c":  # x - c == x + (-c) exactly
        return add(a, const(-cval(b)))
    if a is b and finite(a):
        return ZERO
    return mk("sub", (a, b))


def finite(t):
    """t cannot overflow: a finite input (every memory cell is assumed finite) or a selection of such."""
    if t.op in ("c", "b2n", "v") or (t.op == "uf" and t.val == "mem"):
        return True
    if t.op in ("neg", "abs", "min", "max"):
        return all(map(finite, t.args))
    if t.op == "ite":
        return finite(t.args[1]) and finite(t.args[2])
    return False


def mul(a, b):
    a, b = res(a), res(b)
    r = _fold(lambda x, y: x * y, a, b)
    if r is not None:
        return r
    for x, y in ((a, b), (b, a)):
        if _is(x, 0.0):
            return x
        if _is(x, 1.0):
            return y
        if _is(x, -1.0):
            return neg(y)
    if b.id < a.id:
        a, b = b, a
    return mk("mul", (a, b))


def div(a, b):
    a, b = res(a), res(b)
    r = _fold(lambda x, y: x / y, a, b)
    if r is not None:
        return r
    if _is(b, 1.0):
        return a
    if _is(b, -1.0):
        return neg(a)
    return mk("div", (a, b))


def fabs(a):
    a = res(a)
    r = _fold(abs, a)
    if r is not None:
        return r
    if a.op in ("abs",):
        return a
    if a.op == "neg":
        return fabs(a.args[0])
    return mk("abs", (a,))


def fmin(a, b):
    a, b = res(a), res(b)
    r = _fold(min, a, b)
    if r is not None:
        return r
    if a is b:
        return a
    if b.id < a.id:
        a, b = b, a
    return mk("min", (a, b))


def fmax(a, b):
    a, b = res(a), res(b)
    r = _fold(max, a, b)
    if r is not None:
        return r
    if a is b:
        return a
    if b.id < a.id:
        a, b = b, a
    return mk("max", (a, b))


_ROUNDERS = {
    "floor": math.floor,
    "ceil": math.ceil,
    "trunc": math.trunc,
    "round": round,
    "cround": lambda x: math.copysign(math.floor(abs(x) + 0.5) if abs(x) < 2.0**52 and abs(x) != 0.49999999999999994 else 0.0 if abs(x) < 1 else abs(x), x),
}


def rounder(kind, a):
    a = res(a)
    r = _fold(_ROUNDERS[kind], a)
    if r is not None:
        return r
    if intlike(a) is TRUE:
        return a
    return mk(kind, (a,))


def uf(name, args, f=None):
    """Uninterpreted pure function, folded with `f` on constants."""
    args = tuple(res(a) for a in args)
    if f is not None:
        UF_FOLD[name] = f
        r = _fold(f, *args)
        if r is not None:
            return r
    return mk("uf", args, name)


def ufb(name, args):
    return mk("ufb", tuple(args), name, "B")


# --- booleans


def _bneg(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    return mk("not", (b,), None, "B")


def not_(b):
    return _bneg(res(b))


def lt(a, b):
    a, b = res(a), res(b)
    x, y = cval(a), cval(b)
    if x is not None and y is not None:
        return boolc(x < y)
    if a is b:
        return FALSE
    return mk("lt", (a, b), None, "B")


def le(a, b):
    a, b = res(a), res(b)
    x, y = cval(a), cval(b)
    if x is not None and y is not None:
        return boolc(x <= y)
    if a is b:
        return TRUE
    return mk("le", (a, b), None, "B")


def eq(a, b):
    a, b = res(a), res(b)
    x, y = cval(a), cval(b)
    if x is not None and y is not None:
        return boolc(x == y)
    if a is b:
        return TRUE
    if y is None and x is not None:
        a, b, x, y = b, a, y, x
    if a.op == "b2n" and y is not None:
        if y == 1.0:
            return a.args[0]
        if y == 0.0:
            return not_(a.args[0])
        return FALSE
    if y is None and b.id < a.id:
        a, b = b, a
    return mk("eq", (a, b), None, "B")


def and_(*bs):
    out = []
    for b in bs:
        b = res(b)
        if b is FALSE:
            return FALSE
        if b is TRUE or b in out:
            continue
        if b.op == "and":
            for x in b.args:
                if x not in out:
                    out.append(x)
        else:
            out.append(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), None, "B")


def or_(*bs):
    return not_(and_(*[not_(b) for b in bs]))


def ite(c, a, b):
    c, a, b = res(c), res(a), res(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if _is(a, 1.0) and _is(b, 0.0):
        return b2n(c)
    if _is(a, 0.0) and _is(b, 1.0):
        return b2n(not_(c))
    return mk("ite", (c, a, b))


def b2n(b):
    b = res(b)
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    return mk("b2n", (b,))


def truth(t):
    t = res(t)
    if t.op == "b2n":
        return t.args[0]
    v = cval(t)
    if v is not None:
        return boolc(v != 0.0)
    return not_(eq(t, ZERO))


def intlike(t):
    """Bool term: t is an integer (integer arithmetic on integer leaves)."""
    t = res(t)
    op = t.op
    if op == "c":
        v = cval(t)
        return boolc(math.isfinite(v) and v == int(v))
    if op == "lin" and not (t.val[0].is_integer() and all(k.is_integer() for k in t.val[1])):
        return mk("isint", (t,), None, "B")
    if op in ("add", "sub", "neg", "mul", "abs", "min", "max", "lin"):
        return and_(*[intlike(a) for a in t.args])
    if op in ("floor", "ceil", "trunc", "round", "cround", "b2n"):
        return TRUE
    if op == "ite":
        c, a, b = t.args
        a, b = intlike(a), intlike(b)
        if a is b:
            return a
        return and_(or_(not_(c), a), or_(c, b))
    if op == "uf" and t.val in ("Mod", "Rem"):
        return and_(*[intlike(a) for a in t.args])
    if op == "uf" and t.val == "Sign":
        return TRUE
    return mk("isint", (t,), None, "B")


def lin(t):
    """Canonical exact linear form of an integer (address) term."""
    coefs = {}
    const_ = [0.0]

    def go(t, k):
        t = res(t)
        op = t.op
        v = cval(t)
        if v is not None:
            const_[0] += k * v
        elif op == "add":
            go(t.args[0], k)
            go(t.args[1], k)
        elif op == "sub":
            go(t.args[0], k)
            go(t.args[1], -k)
        elif op == "neg":
            go(t.args[0], -k)
        elif op == "mul" and cval(t.args[0]) is not None:
            go(t.args[1], k * cval(t.args[0]))
        elif op == "mul" and cval(t.args[1]) is not None:
            go(t.args[0], k * cval(t.args[1]))
        elif op == "lin":
            c0, ks = t.val
            const_[0] += k * c0
            for a, kk in zip(t.args, ks):
                go(a, k * kk)
        elif op == "ite":
            atom(ite(t.args[0], lin(t.args[1]), lin(t.args[2])), k)
        elif op == "min":
            atom(fmin(lin(t.args[0]), lin(t.args[1])), k)
        elif op == "max":
            atom(fmax(lin(t.args[0]), lin(t.args[1])), k)
        elif op == "abs":
            atom(fabs(lin(t.args[0])), k)
        else:
            atom(t, k)

    def atom(t, k):
        v = cval(t)
        if v is not None:
            const_[0] += k * v
        else:
            coefs[t] = coefs.get(t, 0.0) + k

    go(t, 1.0)
    items = sorted(((a, k) for a, k in coefs.items() if k != 0.0), key=lambda p: p[0].id)
    if not items:
        return const(const_[0])
    if len(items) == 1 and items[0][1] == 1.0 and const_[0] == 0.0:
        return items[0][0]
    return mk("lin", tuple(a for a, _ in items), (const_[0], tuple(k for _, k in items)))


def lin_diff(a, b):
    """Concrete difference a-b of two linear address terms if constant, else None."""
    def parts(t):
        v = cval(t)
        if v is not None:
            return v, {}
        if t.op == "lin":
            return t.val[0], dict(zip(t.args, t.val[1]))
        return 0.0, {t: 1.0}

    ca, ka = parts(a)
    cb, kb = parts(b)
    if ka == kb:
        return ca - cb
    return None


_REBUILD = {}


def _rebuild(t, a):
    op = t.op
    f = _REBUILD.get(op)
    if f is None:
        if not _REBUILD:
            _REBUILD.update(
                add=add, sub=sub, mul=mul, div=div, neg=neg, abs=fabs, min=fmin, max=fmax, lt=lt, le=le, eq=eq,
                ite=ite, b2n=b2n, isint=intlike,
            )
            _REBUILD["not"] = not_
            _REBUILD["and"] = and_
            for k in _ROUNDERS:
                _REBUILD[k] = (lambda k: lambda x: rounder(k, x))(k)
            return _rebuild(t, a)
        if op == "uf":
            return uf(t.val, a, UF_FOLD.get(t.val))
        if op == "ufb":
            return ufb(t.val, a)
        if op == "lin":
            c0, ks = t.val
            r = const(c0)
            for k, x in zip(ks, a):
                r = add(r, mul(const(k), x))
            return lin(r)
        return t
    return f(*a)


UF_FOLD = {}


def norm(t):
    """Rebuild a term bottom-up under the current substitution."""
    if not SUBST:
        return t
    memo = _norm_memo
    if memo.get("n") != len(SUBST):
        memo.clear()
        memo["n"] = len(SUBST)
    r = memo.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        y = SUBST.get(x)
        if y is not None:
            memo[x] = y
            st.pop()
            continue
        todo = [a for a in x.args if a not in memo]
        if todo:
            st.extend(todo)
            continue
        a = tuple(memo[z] for z in x.args)
        if all(p is q for p, q in zip(a, x.args)):
            memo[x] = x
        else:
            try:
                memo[x] = res(_rebuild(x, a))
            except Undefined:
                memo[x] = x
        st.pop()
    return memo[t]


_norm_memo = {}


def norm_args(x):
    """x rebuilt from its normalised operands (ignoring a substitution of x itself)."""
    a = tuple(norm(z) for z in x.args)
    if all(p is q for p, q in zip(a, x.args)):
        return x
    try:
        return _rebuild(x, a)
    except Undefined:
        return x


def support(ts):
    """Set of variable/uf-init leaves occurring in the terms."""
    seen, out, st = set(), set(), list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("v", "bv"):
            out.add(t)
        st.extend(t.args)
    return out


# ----------------------------------------------------------------- z3 lowering

_R = z3.RealSort()
_F = z3.Float64()
_RNE = z3.RNE()
_fdecl = {}


def _func(name, n, s, out):
    k = (name, n, s.name(), out.name())
    f = _fdecl.get(k)
    if f is None:
        f = z3.Function(f"{name}/{n}", *([s] * n), out)
        _fdecl[k] = f
    return f


_SPECIAL_R = {"nan": z3.Real("!nan"), "inf": z3.Real("!inf"), "-inf": z3.Real("!-inf")}


def zr(t):
    """Level R lowering (memoised on the term)."""
    if t.zr is not None:
        return t.zr
    st = [t]
    while st:
        x = st[-1]
        if x.zr is not None:
            st.pop()
            continue
        todo = [a for a in x.args if a.zr is None]
        if todo:
            st.extend(todo)
            continue
        x.zr = _zr1(x)
        st.pop()
    return t.zr


def _frac(v):
    f = Fraction(v)
    return z3.RealVal(f"{f.numerator}/{f.denominator}" if f.denominator != 1 else str(f.numerator))


def _zr1(t):
    op = t.op
    a = [x.zr for x in t.args]
    if op == "c":
        return _frac(t.val) if isinstance(t.val, float) else _SPECIAL_R[t.val]
    if op == "bc":
        return z3.BoolVal(t.val)
    if op == "v":
        return z3.Real(t.val)
    if op == "bv":
        return z3.Bool(t.val)
    if op == "neg":
        return -a[0]
    if op == "abs":
        return z3.If(a[0] < 0, -a[0], a[0])
    if op == "min":
        return z3.If(a[1] < a[0], a[1], a[0])
    if op == "max":
        return z3.If(a[1] > a[0], a[1], a[0])
    if op == "lin":
        c0, ks = t.val
        return z3.Sum([_frac(k) * x if k != 1.0 else x for k, x in zip(ks, a)] + [_frac(c0)])
    if op == "ite":
        return z3.If(a[0], a[1], a[2])
    if op == "b2n":
        return z3.If(a[0], z3.RealVal(1), z3.RealVal(0))
    if op == "lt":
        return a[0] < a[1]
    if op == "le":
        return a[0] <= a[1]
    if op == "eq":
        return a[0] == a[1]
    if op == "not":
        return z3.Not(a[0])
    if op == "and":
        return z3.And(*a)
    if op == "isint":
        return _func("isint", 1, _R, z3.BoolSort())(*a)
    if op == "ufb":
        return _func("b!" + t.val, len(a), _R, z3.BoolSort())(*a)
    name = op if op != "uf" else "uf!" + t.val
    if not a:
        return z3.Real("u0!" + name)
    return _func(name, len(a), _R, _R)(*a)


def zf(t):
    if t.zf is not None:
        return t.zf
    st = [t]
    while st:
        x = st[-1]
        if x.zf is not None:
            st.pop()
            continue
        todo = [a for a in x.args if a.zf is None]
        if todo:
            st.extend(todo)
            continue
        x.zf = _zf1(x)
        st.pop()
    return t.zf


def _zf1(t):
    op = t.op
    a = [x.zf for x in t.args]
    if op == "c":
        return z3.FPVal(float(t.val), _F)
    if op == "bc":
        return z3.BoolVal(t.val)
    if op == "v":
        return z3.FP(t.val, _F)
    if op == "bv":
        return z3.Bool(t.val)
    if op == "add":
        return z3.fpAdd(_RNE, *a)
    if op == "sub":
        return z3.fpSub(_RNE, *a)
    if op == "mul":
        return z3.fpMul(_RNE, *a)
    if op == "div":
        return z3.fpDiv(_RNE, *a)
    if op == "neg":
        return z3.fpNeg(a[0])
    if op == "abs":
        return z3.fpAbs(a[0])
    if op == "min":
        return z3.If(z3.fpLT(a[1], a[0]), a[1], a[0])
    if op == "max":
        return z3.If(z3.fpGT(a[1], a[0]), a[1], a[0])
    if op == "floor":
        return z3.fpRoundToIntegral(z3.RTN(), a[0])
    if op == "ceil":
        return z3.fpRoundToIntegral(z3.RTP(), a[0])
    if op == "trunc":
        return z3.fpRoundToIntegral(z3.RTZ(), a[0])
    if op == "round":
        return z3.fpRoundToIntegral(z3.RNE(), a[0])
    if op == "cround":
        return z3.fpRoundToIntegral(z3.RNA(), a[0])
    if op == "lin":
        c0, ks = t.val
        r = z3.FPVal(c0, _F)
        for k, x in zip(ks, a):
            r = z3.fpAdd(_RNE, r, x if k == 1.0 else z3.fpMul(_RNE, z3.FPVal(k, _F), x))
        return r
    if op == "ite":
        return z3.If(a[0], a[1], a[2])
    if op == "b2n":
        return z3.If(a[0], z3.FPVal(1.0, _F), z3.FPVal(0.0, _F))
    if op == "lt":
        return z3.fpLT(*a)
    if op == "le":
        return z3.fpLEQ(*a)
    if op == "eq":
        return z3.fpEQ(*a)
    if op == "not":
        return z3.Not(a[0])
    if op == "and":
        return z3.And(*a)
    if op == "isint":
        return z3.fpEQ(a[0], z3.fpRoundToIntegral(z3.RTZ(), a[0]))
    if op == "ufb":
        return _func("fb!" + t.val, len(a), _F, z3.BoolSort())(*a)
    if op == "uf":
        if not a:
            return z3.FP("u0!" + t.val, _F)
        return _func("fuf!" + t.val, len(a), _F, _F)(*a)
    raise AssertionError(op)


def z3_num(v):
    """Python float of a z3 numeral (real, algebraic or FP)."""
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        try:
            return float(f)
        except OverflowError:
            return math.inf if f > 0 else -math.inf
    if z3.is_algebraic_value(v):
        return z3_num(v.approx(20))
    if z3.is_fp(v):
        v = z3.simplify(v)
        if isinstance(v, z3.FPNumRef):
            if v.isNaN():
                return math.nan
            if v.isInf():
                return -math.inf if v.isNegative() else math.inf
            if v.isZero():
                return 0.0
            # exact: sign, significand, exponent
            s = -1.0 if v.sign() else 1.0
            try:
                m = Fraction(v.significand())
                e = v.exponent_as_long(False)
                return s * float(m * (Fraction(2) ** e))
            except Exception:
                return float(eval(str(v).replace("*(2**", "*(2.0**")))
    return 0.0


def zx(t):
    """Exact-real lowering: + - * / floor ceil trunc round Mod Rem are exact real operations."""
    memo = _zx_memo
    r = memo.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        todo = [a for a in x.args if a not in memo]
        if todo:
            st.extend(todo)
            continue
        memo[x] = _zx1(x, [memo[a] for a in x.args])
        st.pop()
    return memo[t]


_zx_memo = {}


def _floor(x):
    return z3.ToReal(z3.ToInt(x))


def _zx1(t, a):
    op = t.op
    if op == "add":
        return a[0] + a[1]
    if op == "sub":
        return a[0] - a[1]
    if op == "mul":
        return a[0] * a[1]
    if op == "div":
        return a[0] / a[1]
    if op == "floor":
        return _floor(a[0])
    if op == "ceil":
        return -_floor(-a[0])
    if op == "trunc":
        return z3.If(a[0] >= 0, _floor(a[0]), -_floor(-a[0]))
    if op == "round":
        f = _floor(a[0])
        d = a[0] - f
        half = z3.RealVal("1/2")
        even = z3.ToInt(f) % 2 == 0
        return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(even, f, f + 1)))
    if op == "cround":
        half = z3.RealVal("1/2")
        return z3.If(a[0] >= 0, _floor(a[0] + half), -_floor(half - a[0]))
    if op == "isint":
        return z3.IsInt(a[0])
    if op == "uf" and t.val == "fmod":
        q = a[0] / a[1]
        return a[0] - a[1] * z3.If(q >= 0, _floor(q), -_floor(-q))
    if op == "uf" and t.val == "cpow":
        e = cval(t.args[1])
        if e is not None and e == int(e) and 0 < abs(e) <= 6:
            r = a[0]
            for _ in range(int(abs(e)) - 1):
                r = r * a[0]
            return r if e > 0 else 1 / r
    if op == "uf" and t.val == "Mod":
        return a[0] - a[1] * _floor(a[0] / a[1])
    if op == "uf" and t.val == "Rem":
        b = z3.If(a[1] < 0, -a[1], a[1])
        x = z3.If(a[0] < 0, -a[0], a[0])
        r = x - b * _floor(x / b)
        return z3.If(a[0] < 0, -r, r)
    if op == "uf" and t.val == "Frac":
        return a[0] - _floor(a[0])
    if op == "uf" and t.val == "Power":
        e = cval(t.args[1])
        if e is not None and e == int(e) and 0 < abs(e) <= 6:
            r = a[0]
            for _ in range(int(abs(e)) - 1):
                r = r * a[0]
            return r if e > 0 else 1 / r
    # the remaining operations lower as at level R, over exact operands
    if not t.args:
        return _zr1(t)
    saved = [x.zr for x in t.args]
    for x, z in zip(t.args, a):
        x.zr = z
    try:
        return _zr1(t)
    finally:
        for x, z in zip(t.args, saved):
            x.zr = z


def support_apps(ts):
    """Input leaves: variables and memory/native applications."""
    seen, out, st = set(), [], list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "v" or (
            t.op == "uf" and (t.val == "mem" or t.val.startswith("native.") or t.val.startswith("effect."))
        ):
            out.append(t)
        st.extend(t.args)
    return out


def exact(ts, ranges):
    """Every arithmetic step of the terms is exact in IEEE doubles: integer arithmetic on bounded integers (and floors
    of quotients of small integers). ranges: variable -> (largest magnitude, is an integer). Then a verdict over the
    exact reals is one over doubles."""
    memo = {}
    big = 2.0**52

    class No(Exception):
        pass

    def one(t, a):
        """(magnitude, integer) of a number, None for a truth value."""
        op = t.op
        if op == "c":
            v = cval(t)
            if v is None or not math.isfinite(v):
                raise No
            return abs(v), v == int(v)
        if op == "v":
            if t.val not in ranges:
                raise No
            return ranges[t.val]
        if op in ("bc", "bv", "lt", "le", "eq", "not", "and", "isint"):
            return None
        if op == "b2n":
            return 1.0, True
        if op == "neg" or op == "abs":
            return a[0]
        if op in ("min", "max"):
            return max(a[0][0], a[1][0]), a[0][1] and a[1][1]
        if op == "ite":
            return max(a[1][0], a[2][0]), a[1][1] and a[2][1]
        if op in ("floor", "ceil", "trunc", "round", "cround"):
            x = res(t.args[0])
            if x.op == "div" and op in ("floor", "ceil", "trunc"):
                p, q = memo[x.args[0]], memo[x.args[1]]
                if p[1] and q[1] and p[0] < 2.0**25 and q[0] < 2.0**25:
                    return p[0] + 1, True
            if a[0][0] is None:
                raise No
            return a[0][0] + 1, True
        if op == "div":
            return None, False
        if any(x is None or x[0] is None for x in a) or not all(x[1] for x in a):
            raise No
        if op in ("add", "sub"):
            m = a[0][0] + a[1][0]
        elif op == "mul":
            m = a[0][0] * a[1][0]
        elif op == "lin":
            c0, ks = t.val
            if c0 != int(c0) or any(k != int(k) for k in ks):
                raise No
            m = abs(c0) + sum(abs(k) * x[0] for k, x in zip(ks, a))
        elif op == "uf" and t.val in ("Mod", "Rem", "fmod"):
            m = a[1][0]
            if a[0][0] >= 2.0**25 or m >= 2.0**25:
                raise No
        else:
            raise No
        if m > big:
            raise No
        return m, True

    try:
        for t in ts:
            st = [t]
            while st:
                x = st[-1]
                if x in memo:
                    st.pop()
                    continue
                todo = [y for y in x.args if y not in memo]
                if todo:
                    st.extend(todo)
                    continue
                a = [memo[y] for y in x.args]
                if x.op in ("floor", "ceil", "trunc") and x.args[0].op == "div":
                    pass
                elif x.op != "div" and any(y is not None and y[0] is None for y in a):
                    raise No
                memo[x] = one(x, a)
                st.pop()
    except No:
        return False
    return True


# ----------------------------------------------------------------- explorer


def not_raw(b):
    return b.args[0] if b.op == "not" else _mk("not", (b,), None, "B")


class Cut(Exception):
    """Abandon the current path (outside the claim: bound or undefined input)."""


class Stats:
    def __init__(self):
        self.paths = 0
        self.cut = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.obligations = 0
        self.lvl2 = 0
        self.lvl2_unknown = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)

    def asdict(self):
        d = dict(self.__dict__)
        d["solver_s"] = round(d["solver_s"], 3)
        return d


class Path:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.trace = []
        self.known = {}
        self.pc = []
        self.stale = False
        self.dirty = False  # pc changed since last known-sat
        self.model = None
        self.fresh = 0
        self.aux = set()  # assumptions about inputs themselves, not about the program

    # facts -----------------------------------------------------------------
    def _learn(self, b, val):
        if b.op == "bc":
            return
        self.known[b] = val
        if b not in SUBST:
            SUBST[b] = TRUE if val else FALSE
            self.stale = True
        if b.op == "not":
            if self.known.get(b.args[0]) is None:
                self._learn(b.args[0], not val)
            return
        n = _table.get(("not", None, (b.id,)))
        if n is not None and n not in SUBST:
            self.known[n] = not val
            SUBST[n] = FALSE if val else TRUE
        if b.op == "and" and val:
            for a in b.args:
                self._learn(a, True)
        if b.op == "eq" and val:
            x, y = b.args
            if y.op == "c" and x.op not in ("c",):
                if x not in SUBST:
                    SUBST[x] = y
                    self.stale = True
            elif x.op == "c" and y.op != "c" and y not in SUBST:
                SUBST[y] = x
                self.stale = True

    def _add(self, b):
        self.pc.append(b)
        self.ex.solver.add(zr(b))
        self._learn(b, True)
        n = 0
        while self.stale and n < 8:
            n += 1
            self.stale = False
            for x, c in list(SUBST.items()):
                if not x.args:
                    continue
                y = norm_args(x)
                if y is x:
                    continue
                if y.op == "c":
                    if y is not c:
                        raise Cut("infeasible")
                elif y.op == "bc":
                    if y is not c:
                        raise Cut("infeasible")
                elif y not in SUBST:
                    self.stale = True
                    if y.sort == "B":
                        d = y if c is TRUE else not_raw(y)
                        if self.known.get(d) is not True:
                            self.ex.solver.add(zr(d))
                            self._learn(y, c is TRUE)
                    else:
                        SUBST[y] = c
                        self.ex.solver.add(zr(_mk("eq", (y, c), None, "B")))

    def lookup(self, b):
        b = res(b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        v = self.known.get(b)
        if v is not None:
            return v
        if b.op == "not":
            v = self.known.get(b.args[0])
            if v is not None:
                return not v
            v = self.lookup(b.args[0])
            return None if v is None else not v
        if b.op == "and":
            allt = True
            for a in b.args:
                v = self.lookup(a)
                if v is False:
                    return False
                if v is None:
                    allt = False
            return True if allt else None
        if SUBST:
            n = norm(b)
            if n is not b:
                return self.lookup(n)
        return None

    def sat(self, b=None):
        """Is pc (and b) satisfiable?  unknown counts as yes."""
        zb = [zr(b)] if b is not None else []
        if zb and self.model is not None:
            if z3.is_true(self.model.eval(zb[0], model_completion=True)):
                return True
        r = self.ex.check(*zb)
        if r == z3.sat:
            self.model = self.ex.last_model
        return r != z3.unsat

    def branch(self, b):
        b = res(b)
        v = self.lookup(b)
        if v is not None:
            return v
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self._add(b if v else not_(b))
            self.model = None
            return v
        if len(self.trace) > self.ex.max_depth:
            raise Cut("depth")
        t = self.sat(b)
        f = self.sat(not_(b)) if t else True
        v = t
        if t and f:
            if self.ex.rng is not None and self.ex.rng.random() < 0.5:
                v = False
            self.ex.work.append((*self.trace, not v))
        self.trace.append(v)
        self._add(b if v else not_(b))
        if self.model is not None and not z3.is_true(
            self.model.eval(zr(b if v else not_(b)), model_completion=True)
        ):
            self.model = None
        return v

    def assume(self, b, why="", aux=False):
        b = res(b)
        v = self.lookup(b)
        if v is True:
            return
        if v is False or b is FALSE:
            raise Cut("assume " + why)
        self._add(b)
        if aux:
            self.aux.add(b)
        self.dirty = True
        if self.model is not None and not z3.is_true(self.model.eval(zr(b), model_completion=True)):
            self.model = None

    def ensure_feasible(self):
        if self.dirty:
            self.dirty = False
            if not self.sat():
                raise Cut("infeasible")

    def implied(self, b):
        """True if pc entails b; False if a countermodel exists; None unknown."""
        v = self.lookup(b)
        if v is not None:
            return v
        b = norm(b)
        if self.model is not None and not z3.is_true(
            self.model.eval(zr(b), model_completion=True)
        ):
            return False
        r = self.ex.check(zr(not_(b)))
        if r == z3.unsat:
            self._learn(res(b), True)
            return True
        if r == z3.sat:
            self.model = self.ex.last_model
            return False
        return None

    def fresh_var(self, name):
        self.fresh += 1
        return var(f"{name}#{self.fresh}")


class Explorer:
    def __init__(self, max_paths=64, max_depth=200, timeout_ms=4000, rng=None, deadline=None, lifo=True):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.stats = Stats()
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.work = []
        self.rng = rng
        self.deadline = deadline
        self.exhausted = True
        self.reasons = {}

    def check(self, *assumps):
        t0 = time.perf_counter()
        s = self.solver
        if assumps:
            s.push()
            s.add(*assumps)
        r = s.check()
        if r == z3.sat:
            self.last_model = s.model()
        if assumps:
            s.pop()
        self.stats.solver_s += time.perf_counter() - t0
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def explore(self, fn):
        """Run fn(path) on every feasible path; returns list of non-None results."""
        self.work = [()]
        out = []
        while self.work:
            if self.stats.paths + self.stats.cut >= self.max_paths or (
                self.deadline is not None and time.time() > self.deadline
            ):
                self.exhausted = False
                break
            prefix = self.work.pop()
            SUBST.clear()
            self.solver.push()
            p = Path(self, prefix)
            try:
                r = fn(p)
                self.stats.paths += 1
                if r is not None:
                    out.append(r)
                    if getattr(r, "stop", False):
                        break
            except Cut as e:
                self.stats.cut += 1
                self.reasons[str(e)] = self.reasons.get(str(e), 0) + 1
            except Undefined as e:
                self.stats.cut += 1
                self.reasons["undefined " + str(e)] = self.reasons.get("undefined " + str(e), 0) + 1
            finally:
                self.solver.pop()
                SUBST.clear()
        return out


reset()
