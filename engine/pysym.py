"""Symbolic execution of Python code by proxy values.

`N` stands for a finite double (a term of engine.sym), `B` for a truth value; asking a `B` for its truth forks the
path.  Modules of the code under test are executed from their current source with `math`, `int`, ... replaced by
versions that understand proxies (`load`).  The same code, given plain floats, runs as ordinary Python, which is how
every counterexample is replayed.
"""

import ast
import math
import os
import time
import types

import z3

from . import sym as S

PATH = None  # the current sym.Path
KEEP_FLOAT = False  # is_integer() only guards a value-preserving conversion to int
THEORY = "uf"  # "uf": % and ** are the functions Mod and Power of spec.py; "c": expanded to fmod and pow


class Unsupported(Exception):
    """The code does something to a symbolic value that has no encoding."""


class Failed(Exception):
    """An obligation does not hold (concrete run)."""


# ------------------------------------------------------------------ proxies


class B:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return PATH.branch(self.t)

    def __eq__(self, o):
        return _xor(self, o, False)

    def __ne__(self, o):
        return _xor(self, o, True)

    __hash__ = None

    def __and__(self, o):
        return wrapb(S.and_(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return wrapb(S.or_(self.t, bterm(o)))

    __ror__ = __or__

    def __invert__(self):
        raise Unsupported("~")

    def _num(self):
        return wrap(S.b2n(self.t))

    def __float__(self):
        return 1.0 if self else 0.0

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __round__(self, n=None):
        return self._num()

    def __floor__(self):
        return self._num()

    __ceil__ = __trunc__ = __floor__

    def __pos__(self):
        return self._num()

    def __abs__(self):
        return self._num()


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "lt", "le", "gt", "ge", "neg", "mod", "rmod", "floordiv", "rfloordiv", "pow", "rpow"):
    def _mk(n):
        d = f"__{n}__"

        def f(self, *a):
            x = self._num()
            return getattr(x if isinstance(x, N) else float(x), d)(*[y._num() if isinstance(y, B) else y for y in a])

        return f

    setattr(B, f"__{_n}__", _mk(_n))


def bterm(x):
    if isinstance(x, B):
        return x.t
    if isinstance(x, N):
        return S.truth(x.t)
    return S.boolc(bool(x))


def wrapb(t):
    t = S.res(t)
    if t is S.TRUE:
        return True
    if t is S.FALSE:
        return False
    return B(t)


def _xor(a, b, want):
    a = bterm(a)
    if isinstance(b, (int, float)) and not isinstance(b, (bool, N)):
        r = S.eq(S.b2n(a), S.const(b))
        return wrapb(S.not_(r) if want else r)
    b = bterm(b)
    r = S.or_(S.and_(a, S.not_(b)), S.and_(S.not_(a), b))
    return wrapb(r if want else S.not_(r))


def wrap(t):
    """Term -> proxy, or a plain float when it is a constant."""
    t = S.res(t)
    v = S.cval(t)
    if v is not None:
        return v
    x = float.__new__(N, math.nan)
    x.t = t
    return x


def term(x):
    if isinstance(x, N):
        return S.res(x.t)
    if isinstance(x, B):
        return S.b2n(x.t)
    return S.const(x)


def special(x):
    """A plain nan or infinity."""
    return not isinstance(x, (N, B)) and (x != x or x in (math.inf, -math.inf))


def num(x):
    return isinstance(x, (int, float, B)) or (hasattr(x, "__float__") and not isinstance(x, str))


def _arith(f, spec):
    def op(self, o):
        if not isinstance(o, (int, float, B)):
            return NotImplemented
        if special(o):
            return spec(self, o, False)
        return wrap(f(term(self), term(o)))

    def rop(self, o):
        if not isinstance(o, (int, float, B)):
            return NotImplemented
        if special(o):
            return spec(self, o, True)
        return wrap(f(term(o), term(self)))

    return op, rop


def _sp_add(x, s, swapped):
    return s


def _sp_sub(x, s, swapped):
    return s if swapped else -s


def _sgn(x):
    """-1, 0, 1 by forking."""
    if PATH.branch(S.eq(x.t, S.ZERO)):
        return 0.0
    return 1.0 if PATH.branch(S.lt(S.ZERO, x.t)) else -1.0


def _sp_mul(x, s, swapped):
    return s if s != s else s * _sgn(x)


def _div(a, b):
    if PATH.branch(S.eq(b, S.ZERO)):
        raise ZeroDivisionError("float division by zero")
    return S.div(a, b)


def _sp_div(x, s, swapped):
    if not swapped:
        return math.nan if s != s else 0.0
    k = _sgn(x)
    if k == 0:
        raise ZeroDivisionError("float division by zero")
    return s * k


def fmod_t(a, b):
    """C fmod of finite operands, b nonzero, with its defining sign and range facts."""
    m = S.uf("fmod", (a, b), math.fmod)
    if S.cval(m) is None and PATH is not None:
        ab, am = S.fabs(b), S.fabs(m)
        neg, pos = S.lt(m, S.ZERO), S.lt(S.ZERO, m)
        PATH.assume(
            S.and_(
                S.or_(S.eq(b, S.ZERO), S.lt(am, ab)),
                S.or_(S.not_(neg), S.lt(a, S.ZERO)),
                S.or_(S.not_(pos), S.lt(S.ZERO, a)),
                S.le(am, S.fabs(a)),
            ),
            "fmod",
            aux=True,
        )
    return m


def pymod(a, b):
    """CPython's float remainder."""
    if PATH.branch(S.eq(b, S.ZERO)):
        raise ZeroDivisionError("float modulo")
    if THEORY == "uf":
        return S.uf("Mod", (a, b), lambda x, y: x % y)
    m = fmod_t(a, b)
    p, q = S.lt(b, S.ZERO), S.lt(m, S.ZERO)
    differ = S.or_(S.and_(p, S.not_(q)), S.and_(S.not_(p), q))
    return S.ite(S.eq(m, S.ZERO), S.ZERO, S.ite(differ, S.add(m, b), m))


def _sp_mod(x, s, swapped):
    if swapped or s != s:
        if swapped and _sgn(x) == 0:
            raise ZeroDivisionError("float modulo")
        return math.nan
    k = _sgn(x)  # x % +-inf
    return 0.0 if k == 0 else x if (k > 0) == (s > 0) else s


def _floordiv(a, b):
    if PATH.branch(S.eq(b, S.ZERO)):
        raise ZeroDivisionError("float floor division by zero")
    return S.rounder("floor", S.div(a, b))


def odd(t):
    return S.eq(fmod_t(S.fabs(t), S.const(2)), S.ONE)


def cpow(a, b):
    return S.uf("cpow", (a, b), math.pow)


def _isint(b):
    if THEORY == "c":
        return S.eq(S.rounder("floor", b), b)
    return S.intlike(b)


def pypow(a, b):
    """CPython's float.__pow__ on finite operands; overflow is outside the bounds."""
    if b is S.ONE or S.cval(b) == 1.0:
        return a
    if PATH.branch(S.eq(b, S.ZERO)):
        return S.ONE
    if PATH.branch(S.eq(a, S.ZERO)):
        if PATH.branch(S.lt(b, S.ZERO)):
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return S.ZERO
    if PATH.branch(S.lt(a, S.ZERO)):
        if not PATH.branch(_isint(b)):
            raise ComplexResult
        if THEORY == "uf":
            return S.uf("Power", (a, b), lambda x, y: x**y)
        p = cpow(S.neg(a), b)
        return S.neg(p) if PATH.branch(odd(b)) else p
    if THEORY == "uf":
        return S.uf("Power", (a, b), lambda x, y: x**y)
    return cpow(a, b)


class ComplexResult(Exception):
    """A power whose value is not a real number."""


def _sp_pow(x, s, swapped):
    if not swapped:  # x ** special
        if s != s:
            return 1.0 if PATH.branch(S.eq(x.t, S.ONE)) else s
        a = S.fabs(x.t)
        if PATH.branch(S.eq(a, S.ONE)):
            return 1.0
        return math.inf if (s > 0) == PATH.branch(S.lt(S.ONE, a)) else 0.0
    if PATH.branch(S.eq(x.t, S.ZERO)):  # special ** x
        return 1.0
    if s != s:
        return s
    pos = PATH.branch(S.lt(S.ZERO, x.t))
    o = PATH.branch(odd(x.t)) if s < 0 else False
    return (s if o else math.inf) if pos else 0.0


def _cmp(f, spec):
    def op(self, o):
        if not isinstance(o, (int, float, B)):
            return NotImplemented
        if special(o):
            return spec(o)
        return wrapb(f(term(self), term(o)))

    return op


class N(float):
    __slots__ = ("t",)

    def __repr__(self):
        return f"N({S.show(self.t)})"

    __str__ = __repr__

    __add__, __radd__ = _arith(S.add, _sp_add)
    __sub__, __rsub__ = _arith(S.sub, _sp_sub)
    __mul__, __rmul__ = _arith(S.mul, _sp_mul)
    __truediv__, __rtruediv__ = _arith(_div, _sp_div)
    __mod__, __rmod__ = _arith(pymod, _sp_mod)
    __floordiv__, __rfloordiv__ = _arith(_floordiv, lambda *a: (_ for _ in ()).throw(Unsupported("// special")))
    __pow__, __rpow__ = _arith(pypow, _sp_pow)
    __lt__ = _cmp(S.lt, lambda s: s == math.inf)
    __le__ = _cmp(S.le, lambda s: s == math.inf)
    __gt__ = _cmp(lambda a, b: S.lt(b, a), lambda s: s == -math.inf)
    __ge__ = _cmp(lambda a, b: S.le(b, a), lambda s: s == -math.inf)
    __eq__ = _cmp(S.eq, lambda s: False)
    __ne__ = _cmp(lambda a, b: S.not_(S.eq(a, b)), lambda s: True)

    def __neg__(self):
        return wrap(S.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(S.fabs(self.t))

    def __bool__(self):
        return PATH.branch(S.truth(self.t))

    def __floor__(self):
        return wrap(S.rounder("floor", self.t))

    def __ceil__(self):
        return wrap(S.rounder("ceil", self.t))

    def __trunc__(self):
        return wrap(S.rounder("trunc", self.t))

    def __round__(self, n=None):
        if n is not None and n != 0:
            k = S.const(10.0 ** int(n))
            return wrap(S.div(S.rounder("round", S.mul(self.t, k)), k))
        return wrap(S.rounder("round", self.t))

    def is_integer(self):
        if KEEP_FLOAT:
            return False
        return wrapb(S.intlike(self.t))

    def __index__(self):
        return concretise(self)

    def __int__(self):
        return concretise(wrap(S.rounder("trunc", self.t)))

    def __hash__(self):
        return hash(concretise(self, integer=False))

    def __float__(self):
        return self

    def __divmod__(self, o):
        return self // o, self % o

    real = property(lambda s: s)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def concretise(x, integer=True, limit=64):
    """Fork over the values x can take (small integer domains)."""
    if not isinstance(x, N):
        return int(x) if integer else float(x)
    t = S.res(x.t)
    for _ in range(limit):
        v = S.cval(S.norm(t))
        if v is not None:
            return int(v) if integer else v
        PATH.ensure_feasible()
        if PATH.model is None and not PATH.sat():
            raise S.Cut("infeasible")
        if PATH.model is None:
            raise S.Cut("no model to concretise with")
        v = S.z3_num(PATH.model.eval(S.zr(S.norm(t)), model_completion=True))
        if PATH.branch(S.eq(t, S.const(v))):
            if integer and v != int(v):
                raise TypeError("not an integer")
            return int(v) if integer else v
    raise S.Cut("domain too large to concretise")


# ------------------------------------------------------------------ builtins that understand proxies


def p_int(x=0, *a):
    if isinstance(x, N):
        r = wrap(S.rounder("trunc", x.t))
        return r if isinstance(r, N) else int(r)
    if isinstance(x, B):
        return x._num()
    if isinstance(x, float) and not a and not special(x):
        return int(x)
    return int(x, *a)


class IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, *a):
        return p_int(*a)


class Int(metaclass=IntMeta):
    pass


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __call__(cls, *a):
        x = a[0] if a else 0.0
        if isinstance(x, N):
            return x
        if isinstance(x, B):
            return x._num()
        return float(*a)


class Float(metaclass=FloatMeta):
    pass


def p_bool(x=False):
    if isinstance(x, B):
        return x
    if isinstance(x, N):
        return wrapb(S.truth(x.t))
    return bool(x)


def p_round(x, n=None):
    return x.__round__(n) if isinstance(x, N) else round(x) if n is None else round(x, n)


def _m1(name, f, domain=None):
    def g(x):
        if isinstance(x, B):
            x = x._num()
        if not isinstance(x, N):
            return f(x)
        if domain is not None and not domain(x):
            raise ValueError("math domain error")
        return wrap(S.uf(name, (x.t,), f))

    return g


def in_unit(x):
    return PATH.branch(S.and_(S.le(S.const(-1), x.t), S.le(x.t, S.ONE)))


HYP = 710.0


def small(x):
    """hyperbolic functions are only explored up to the overflow threshold"""
    PATH.assume(S.le(S.fabs(x.t), S.const(HYP)), "hyperbolic argument bound")
    return True


def copysign(m, s):
    if not isinstance(m, N) and not isinstance(s, N):
        return math.copysign(m, s)
    m = abs(m)
    if isinstance(s, N):
        return wrap(S.ite(S.lt(s.t, S.ZERO), S.neg(term(m)), term(m)))
    return -m if math.copysign(1, s) < 0 else m


def p_fmod(a, b):
    if not isinstance(a, N) and not isinstance(b, N):
        return math.fmod(a, b)
    if special(a) or special(b):
        raise Unsupported("fmod special")
    if b == 0:
        raise ValueError("math domain error")
    return wrap(fmod_t(term(a), term(b)))


def p_atan2(a, b):
    if not isinstance(a, N) and not isinstance(b, N):
        return math.atan2(a, b)
    if special(a) or special(b):
        if a != a or b != b:
            return math.nan
        return _atan2_special(a, b)
    return wrap(S.uf("Arctan2", (term(a), term(b)), math.atan2))


def _atan2_special(a, b):
    """C99 atan2 with one infinite operand, the other finite."""
    if special(a):
        return math.copysign(math.pi / 2, a)
    k = _sgn(a)
    if b > 0:
        return 0.0 * k
    return math.pi if k >= 0 else -math.pi


def p_sqrt(x):
    if not isinstance(x, N):
        return math.sqrt(x)
    if x < 0:
        raise ValueError("math domain error")
    return wrap(S.uf("sqrt", (x.t,), math.sqrt))


def p_hypot(*a):
    if not any(isinstance(x, N) for x in a):
        return math.hypot(*a)
    s = 0.0
    for x in a:
        s = s + x * x
    return p_sqrt(s)


def p_log(x, base=None):
    if base is None:
        return _m1("Log", math.log, lambda x: x > 0)(x)
    return p_log(x) / p_log(base)


def p_pow(a, b):
    return a**b


class MathNS(types.ModuleType):
    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f

        def g(*a):
            if any(isinstance(x, (N, B)) for x in a):
                raise Unsupported(f"math.{n}")
            return f(*a)

        return g


pmath = MathNS("math")
for _k, _v in {
    "sin": _m1("Sin", math.sin),
    "cos": _m1("Cos", math.cos),
    "tan": _m1("Tan", math.tan),
    "sinh": _m1("Sinh", math.sinh, small),
    "cosh": _m1("Cosh", math.cosh, small),
    "tanh": _m1("Tanh", math.tanh),
    "asin": _m1("Arcsin", math.asin, in_unit),
    "acos": _m1("Arccos", math.acos, in_unit),
    "atan": _m1("Arctan", math.atan),
    "atan2": p_atan2,
    "log": p_log,
    "degrees": lambda x: x * (180.0 / math.pi) if THEORY == "c" else _m1("Degree", math.degrees)(x),
    "radians": lambda x: x * (math.pi / 180.0) if THEORY == "c" else _m1("Radian", math.radians)(x),
    "sqrt": p_sqrt,
    "hypot": p_hypot,
    "fmod": p_fmod,
    "copysign": copysign,
    "pow": p_pow,
    "floor": lambda x: x.__floor__() if isinstance(x, N) else math.floor(x),
    "ceil": lambda x: x.__ceil__() if isinstance(x, N) else math.ceil(x),
    "trunc": lambda x: x.__trunc__() if isinstance(x, N) else math.trunc(x),
    "fabs": lambda x: abs(x) if isinstance(x, N) else math.fabs(x),
    "isnan": lambda x: False if isinstance(x, (N, B)) else math.isnan(x),
    "isinf": lambda x: False if isinstance(x, (N, B)) else math.isinf(x),
    "isfinite": lambda x: True if isinstance(x, (N, B)) else math.isfinite(x),
}.items():
    pmath.__dict__[_k] = _v


# ------------------------------------------------------------------ loading modules with proxies understood


class SetIn(ast.NodeTransformer):
    """x in {a, b} -> x in (a, b): membership by equality instead of hashing."""

    def visit_Compare(self, n):
        self.generic_visit(n)
        n.comparators = [
            ast.copy_location(ast.Tuple(c.elts, ast.Load()), c)
            if isinstance(o, (ast.In, ast.NotIn)) and isinstance(c, ast.Set)
            else c
            for o, c in zip(n.ops, n.comparators)
        ]
        return n


def load(path, name, extra=None, transform=None):
    """Execute the module source at `path` with proxy-aware builtins; returns its namespace as a module."""
    src = open(path).read()
    tree = SetIn().visit(ast.parse(src, path))
    if transform is not None:
        tree = transform.visit(tree)
    ast.fix_missing_locations(tree)
    m = types.ModuleType(name)
    m.__file__ = path
    ns = m.__dict__
    ns.update(int=Int, float=Float, round=p_round)
    code = compile(tree, path, "exec")
    import builtins

    real = builtins.__import__

    def imp(n, g=None, l=None, fromlist=(), level=0):
        if n == "math" and not fromlist:
            return pmath
        r = real(n, g, l, fromlist, level)
        return pmath if r is math and not fromlist else r

    b = dict(builtins.__dict__)
    b["__import__"] = imp
    ns["__builtins__"] = b
    exec(code, ns)
    if ns.get("math") is math:
        ns["math"] = pmath
    ns.update(extra or {})
    return m


# ------------------------------------------------------------------ laws


class Law:
    """body(L) computes with L.var(...) inputs and states obligations with L.same / L.check.

    Run symbolically it is decided for all inputs path by path; run concretely (plain floats) it replays."""

    def __init__(self, body, max_paths=64, timeout_ms=3000, deadline=None, tol=0.0, theory="uf", specials=None, levels=None, seed=0, zx_ms=2500, zf_ms=None):
        self.body = body
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.tol = tol
        self.theory = theory
        self.levels = levels or ("zr", "zxi", "zx", "zf")
        self.seed = seed
        self.zx_ms = zx_ms
        self.zf_ms = zf_ms or zx_ms
        self.inconclusive = []
        self.finding = None
        self.stats = None
        self.compared = 0
        self.unsupported = []

    # interface used by bodies -------------------------------------------
    def var(self, name, lo=None, hi=None, integer=False):
        if self.concrete is not None:
            v = self.concrete.get(name, 0.0)
            if integer:
                v = float(round(v))
            if lo is not None:
                v = max(v, float(lo))
            if hi is not None:
                v = min(v, float(hi))
            return v
        t = S.var(name)
        self.vars.add(t)
        if lo is not None and hi is not None:
            self.ranges[name] = max(abs(lo), abs(hi)), bool(integer)
        cs = []
        if lo is not None:
            cs.append(S.le(S.const(lo), t))
        if hi is not None:
            cs.append(S.le(t, S.const(hi)))
        if integer:
            cs.append(S.intlike(t))
        for c in cs:
            PATH.assume(c, "domain", aux=True)
        return wrap(t)

    def pick(self, name, choices):
        """One of finitely many constants, chosen by an input (the path forks)."""
        if self.concrete is not None:
            k = int(self.concrete.get(name, 0))
            return choices[k if 0 <= k < len(choices) else -1]
        t = S.var(name)
        self.vars.add(t)
        for k, c in enumerate(choices[:-1]):
            if PATH.branch(S.eq(t, S.const(k))):
                return c
        return choices[-1]

    def assume(self, c):
        if self.concrete is not None:
            if not c:
                raise S.Cut("assume")
            return
        PATH.assume(bterm(c), "assume")

    def same(self, label, a, b):
        if self.concrete is not None:
            if not close(a, b, self.tol):
                raise Failed(f"{label}: {a!r} differs from {b!r}")
            return
        sa, sb = special(a), special(b)
        if sa or sb:
            ok = sa and sb and (a == b or (a != a and b != b))
            self.obl.append((f"{label}: {a!r} / {b!r}", S.boolc(ok)))
            return
        self.obl.append((label, S.eq(ground(term(a)), ground(term(b)))))

    def check(self, label, c):
        if self.concrete is not None:
            if not c:
                raise Failed(label)
            return
        self.obl.append((label, S.norm(bterm(c))))

    def fail(self, label):
        self.check(label, False)
        raise Stop

    # driver --------------------------------------------------------------
    def run(self):
        global PATH, THEORY
        S.reset()
        import random as _r

        ex = S.Explorer(max_paths=self.max_paths, timeout_ms=self.timeout_ms, rng=_r.Random(self.seed), deadline=self.deadline)
        self.concrete = None

        def one(path):
            global PATH, THEORY
            PATH, THEORY = path, self.theory
            self.obl, self.vars, self.ranges = [], set(), {}
            try:
                self.body(self)
            except Stop:
                pass
            except Unsupported as e:
                self.unsupported.append(str(e))
                raise S.Cut("unsupported " + str(e)) from None
            except (S.Cut, S.Undefined, S.Cut):
                raise
            except Exception as e:
                hit = self.crashed(path, e)
                if hit is None:
                    raise
                return hit
            path.ensure_feasible()
            self.compared += 1
            ex.stats.obligations += len(self.obl)
            bad = [(l, c) for l, c in self.obl if path.lookup(c) is not True]
            if not bad:
                return None
            return self.decide(ex, path, bad)

        out = ex.explore(one)
        PATH = None
        self.stats = ex.stats
        self.exhausted = ex.exhausted
        self.cuts = ex.reasons
        for o in out:
            if isinstance(o, Hit):
                self.finding = o
        return self

    def decide(self, ex, path, bad):
        viol = S.not_(S.and_(*[c for _, c in bad]))
        if path.lookup(viol) is False:
            return None
        r = ex.check(S.zr(viol))
        if r == z3.unsat:
            return None
        hit = None
        if r == z3.sat:
            hit = self.attempt(ex.last_model, S.zr)
            if hit:
                return hit
        ex.stats.lvl2 += 1
        terms = [*path.pc, viol]
        for lv in self.levels:
            if lv == "zr":
                continue
            lower, hints = (S.zf, False) if lv == "zf" else (S.zx, lv == "zxi")
            s = z3.Solver()
            s.set("timeout", self.zf_ms if lv == "zf" else self.zx_ms)
            try:
                for c in path.pc:
                    s.add(lower(c))
                s.add(lower(viol))
            except KeyError:
                continue
            for x in S.support_apps(terms):
                if lower is S.zf:
                    s.add(z3.Not(z3.fpIsNaN(S.zf(x))), z3.Not(z3.fpIsInf(S.zf(x))))
                elif hints:
                    s.add(z3.IsInt(S.zx(x)), S.zx(x) >= -64, S.zx(x) <= 64)
            t0 = time.perf_counter()
            r = s.check()
            ex.stats.solver_s += time.perf_counter() - t0
            ex.stats.queries += 1
            if r == z3.sat:
                hit = self.attempt(s.model(), lower)
                if hit:
                    return hit
            elif r == z3.unsat and (lv == "zf" or (lv == "zx" and "zf" not in self.levels)):
                return None
            elif r == z3.unsat and lv == "zx" and S.exact(terms, self.ranges):
                return None
        hit = self.nearby(path)
        if hit:
            return hit
        ex.stats.lvl2_unknown += 1
        self.inconclusive.append(str([l for l, _ in bad][:3]))
        return None

    def crashed(self, path, e):
        """The code under test raised something the body does not expect: a finding if the real code does so too."""
        path.ensure_feasible()
        if path.model is None and not path.sat():
            raise S.Cut("infeasible") from None
        if path.model is None:
            return None
        self.crash = type(e)
        try:
            return self.attempt(path.model, S.zr)
        finally:
            self.crash = None

    crash = None
    tolerated = ()

    @staticmethod
    def from_code(e):
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        return "/sonolus/" in tb.tb_frame.f_code.co_filename

    def nearby(self, path):
        return None

    def attempt(self, model, lower):
        vals = {t.val: S.z3_num(model.eval(lower(t), model_completion=True)) for t in self.vars}
        why = self.replay(vals)
        return Hit(why, vals) if why else None

    def replay(self, vals):
        """Run the body on plain floats: a description of the failure, or None."""
        global PATH
        save = PATH, SUBST_copy()
        S.SUBST.clear()
        PATH = None
        self_c = self.concrete
        self.concrete = vals
        obl, self.obl = self.obl, []
        try:
            self.body(self)
        except Failed as e:
            return str(e)
        except (S.Cut, S.Undefined, Unsupported):
            return None
        except Stop:
            return None
        except Exception as e:
            if self.crash is not None and isinstance(e, self.crash) and self.from_code(e):
                return f"raises {type(e).__name__}: {e}"
            if self.crash is None and not isinstance(e, self.tolerated):
                raise
            return None
        finally:
            self.concrete = self_c
            self.obl = obl
            PATH = save[0]
            S.SUBST.update(save[1])
        return None


def ground(t):
    """t with every choice (ite, min, max) that the path condition decides resolved."""
    memo = {}

    def known(c):
        v = PATH.lookup(c)
        if v is None:
            v = True if PATH.implied(c) else False if PATH.implied(S.not_(c)) else None
        return v

    def go(x):
        r = memo.get(x)
        if r is None:
            memo[x] = r = go1(x)
        return r

    def go1(x):
        if x.op == "ite":
            c = known(x.args[0])
            if c is not None:
                return go(x.args[1] if c else x.args[2])
        if x.op in ("min", "max"):
            a, b = map(go, x.args)
            if S.cval(a) is None or S.cval(b) is None:
                c = known(S.le(a, b))
                if c is not None:
                    return a if c == (x.op == "min") else b
        if not x.args:
            return x
        a = tuple(map(go, x.args))
        if all(p is q for p, q in zip(a, x.args)):
            return x
        try:
            return S.res(S._rebuild(x, a))
        except S.Undefined:
            return x

    return go(S.norm(t))


def SUBST_copy():
    return dict(S.SUBST)


class Stop(Exception):
    pass


class Hit:
    stop = True

    def __init__(self, why, vals):
        self.why = why
        self.vals = vals


def close(a, b, tol=0.0):
    a, b = float(a), float(b)
    if a == b or (a != a and b != b):
        return True
    if tol and math.isfinite(a) and math.isfinite(b):
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return False
