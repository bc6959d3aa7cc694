"""Reference semantics of the engine's value operations, over symbolic terms.

Written from the Sonolus runtime documentation and the library's documented
formulas; independent of the code under test.  `need(cond, why)` receives the
condition under which the evaluation is defined.
"""
import math

from . import sym as S

# operation -> (side_effects, pure): the runtime's contract (frozen here on purpose; an
# edit of the table in the code under test must not move the reference).
EFFECTS = set(
    """AddLifeScheduled Break Copy DebugLog DebugPause DecrementPost DecrementPostPointed
DecrementPostShifted DecrementPre DecrementPrePointed DecrementPreShifted DestroyParticleEffect Draw
DrawCurvedB DrawCurvedBT DrawCurvedL DrawCurvedLR DrawCurvedR DrawCurvedT ExportValue IncrementPost
IncrementPostPointed IncrementPostShifted IncrementPre IncrementPrePointed IncrementPreShifted
MoveParticleEffect Paint Play PlayLooped PlayLoopedScheduled PlayScheduled Print Set SetAdd SetAddPointed
SetAddShifted SetDivide SetDividePointed SetDivideShifted SetMod SetModPointed SetModShifted SetMultiply
SetMultiplyPointed SetMultiplyShifted SetPointed SetPower SetPowerPointed SetPowerShifted SetRem
SetRemPointed SetRemShifted SetShifted SetSubtract SetSubtractPointed SetSubtractShifted Spawn
SpawnParticleEffect StackEnter StackGrow StackInit StackLeave StackPop StackPush StackSet StackSetFrame
StackSetFramePointer StackSetPointer StopLooped StopLoopedScheduled StreamSet""".split()
)
IMPURE_READS = set(
    "Get GetPointed GetShifted Random RandomInteger StackGet StackGetFrame StackGetFramePointer StackGetPointer".split()
)


def rem(a, b):
    return math.copysign(abs(a) % abs(b), a)


def sign(x):
    return x if x != x else (1.0 if x > 0 else -1.0 if x < 0 else x)


def frac(x):
    r = x % 1
    return r if r >= 0 else r + 1


def power(a, b):
    r = a**b
    if isinstance(r, complex):
        raise ValueError("complex")
    return r


def clamp01(x):
    return S.fmax(S.ZERO, S.fmin(S.ONE, x))


def judge(need, d, p0, p1, g0, g1, o0, o1):
    def win(a, b):
        return S.and_(S.le(a, d), S.le(d, b))

    return S.ite(
        win(p0, p1),
        S.ONE,
        S.ite(win(g0, g1), S.const(2), S.ite(win(o0, o1), S.const(3), S.ZERO)),
    )


def nz(need, b):
    need(S.not_(S.eq(b, S.ZERO)), "division by zero")


def fold2(f):
    def g(need, *args):
        if not args:
            return S.ZERO
        acc = args[0]
        for x in args[1:]:
            acc = f(need, acc, x)
        return acc

    return g


def _div(need, a, b):
    nz(need, b)
    return S.div(a, b)


def _mod(need, a, b):
    nz(need, b)
    return S.uf("Mod", (a, b), lambda x, y: x % y)


def _rem(need, a, b):
    nz(need, b)
    return S.uf("Rem", (a, b), rem)


def _pow(need, a, b):
    e = S.cval(b)
    if e is not None and e >= 0 and e == int(e):
        pass
    elif e is not None and e == int(e):
        need(S.not_(S.eq(a, S.ZERO)), "0 ** negative")
    elif S.cval(a) is not None and e is not None:
        pass
    else:
        need(S.lt(S.ZERO, a), "power domain")
    return S.uf("Power", (a, b), power)


def _log(need, x):
    need(S.lt(S.ZERO, x), "log domain")
    return S.uf("Log", (x,), math.log)


def _arc(name, f):
    def g(need, x):
        need(S.and_(S.le(S.const(-1), x), S.le(x, S.ONE)), name + " domain")
        return S.uf(name, (x,), f)

    return g


def _u(name, f):
    return lambda need, *a: S.uf(name, a, f)


def _lerp(need, x, y, s):
    return S.add(x, S.mul(S.sub(y, x), s))


def _unlerp(need, lo, hi, v):
    d = S.sub(hi, lo)
    nz(need, d)
    return S.div(S.sub(v, lo), d)


def _remap(need, a, b, c, d, v):
    den = S.sub(b, a)
    nz(need, den)
    return S.add(c, S.div(S.mul(S.sub(d, c), S.sub(v, a)), den))


def _remapc(need, a, b, c, d, v):
    return S.add(c, S.mul(S.sub(d, c), clamp01(_unlerp(need, a, b, v))))


def cmp(f):
    return lambda need, a, b: S.b2n(f(a, b))


def _and(need, *args):
    if not args:
        return S.ZERO
    r = args[-1]
    for a in reversed(args[:-1]):
        r = S.ite(S.truth(a), r, S.ZERO)
    return r


def _or(need, *args):
    if not args:
        return S.ZERO
    r = args[-1]
    for a in reversed(args[:-1]):
        r = S.ite(S.truth(a), a, r)
    return r


def _if(need, c, a, b):
    return S.ite(S.truth(c), a, b)


def _switch(has_default):
    def g(need, t, *rest):
        rest = list(rest)
        r = rest.pop() if has_default else S.ZERO
        for i in range(len(rest) - 2, -1, -2):
            r = S.ite(S.eq(t, rest[i]), rest[i + 1], r)
        return r

    return g


def _switchint(has_default):
    def g(need, t, *rest):
        rest = list(rest)
        r = rest.pop() if has_default else S.ZERO
        for i in range(len(rest) - 1, -1, -1):
            r = S.ite(S.eq(t, S.const(i)), rest[i], r)
        return r

    return g


VALUE_OPS = {
    "Abs": lambda need, x: S.fabs(x),
    "Add": fold2(lambda n, a, b: S.add(a, b)),
    "Subtract": fold2(lambda n, a, b: S.sub(a, b)),
    "Multiply": fold2(lambda n, a, b: S.mul(a, b)),
    "Divide": fold2(_div),
    "Mod": fold2(_mod),
    "Rem": fold2(_rem),
    "Power": fold2(_pow),
    "Negate": lambda need, x: S.neg(x),
    "Not": lambda need, x: S.b2n(S.not_(S.truth(x))),
    "Equal": cmp(S.eq),
    "NotEqual": cmp(lambda a, b: S.not_(S.eq(a, b))),
    "Less": cmp(S.lt),
    "LessOr": cmp(S.le),
    "Greater": cmp(lambda a, b: S.lt(b, a)),
    "GreaterOr": cmp(lambda a, b: S.le(b, a)),
    "Min": lambda need, a, b: S.fmin(a, b),
    "Max": lambda need, a, b: S.fmax(a, b),
    "Clamp": lambda need, x, a, b: S.fmax(a, S.fmin(b, x)),
    "Floor": lambda need, x: S.rounder("floor", x),
    "Ceil": lambda need, x: S.rounder("ceil", x),
    "Trunc": lambda need, x: S.rounder("trunc", x),
    "Round": lambda need, x: S.rounder("round", x),
    "Frac": _u("Frac", frac),
    "Sign": lambda need, x: S.ite(
        S.lt(S.ZERO, x), S.ONE, S.ite(S.lt(x, S.ZERO), S.const(-1), x)
    ),
    "Sin": _u("Sin", math.sin),
    "Cos": _u("Cos", math.cos),
    "Tan": _u("Tan", math.tan),
    "Sinh": _u("Sinh", math.sinh),
    "Cosh": _u("Cosh", math.cosh),
    "Tanh": _u("Tanh", math.tanh),
    "Arctan": _u("Arctan", math.atan),
    "Arctan2": _u("Arctan2", math.atan2),
    "Arcsin": _arc("Arcsin", math.asin),
    "Arccos": _arc("Arccos", math.acos),
    "Log": _log,
    "Degree": _u("Degree", math.degrees),
    "Radian": _u("Radian", math.radians),
    "Lerp": _lerp,
    "LerpClamped": lambda need, x, y, s: _lerp(need, x, y, clamp01(s)),
    "Unlerp": _unlerp,
    "UnlerpClamped": lambda need, a, b, v: clamp01(_unlerp(need, a, b, v)),
    "Remap": _remap,
    "RemapClamped": _remapc,
    "Judge": lambda need, s, t, *w: judge(need, S.sub(s, t), *w),
    "JudgeSimple": lambda need, s, t, p, g, o: judge(
        need, S.sub(s, t), S.neg(p), p, S.neg(g), g, S.neg(o), o
    ),
    "And": _and,
    "Or": _or,
    "If": _if,
    "Switch": _switch(False),
    "SwitchWithDefault": _switch(True),
    "SwitchInteger": _switchint(False),
    "SwitchIntegerWithDefault": _switchint(True),
}


def apply(op, args, need):
    """Value of the pure operation `op` (name) on terms."""
    f = VALUE_OPS.get(op)
    if f is not None:
        return f(need, *args)
    if op.startswith("Ease"):
        from .easespec import EASE_FLOAT

        return S.uf(op, args, EASE_FLOAT[op])
    return S.uf("native." + op, args)
