"""Executes C-like Cython functions (straight-line arithmetic on doubles) from their current source as Python.

The text of every `cdef` function of a .pyx file is rewritten to Python: declarations become nothing (or an
assignment), casts become calls, `out[0] = v` stays.  Doubles are plain floats or proxies of engine.pysym."""

import math
import re

from . import pysym as P
from . import sym as S


class Untranslatable(Exception):
    pass


class Cast:
    def __init__(self, f):
        self.f = f

    def __pow__(self, x):
        return self.f(x)


def _f32(x):
    import struct

    if isinstance(x, P.N):
        return P.wrap(S.uf("f32", (x.t,), f32))
    return f32(x)


def f32(x):
    import struct

    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def cint(x):
    if isinstance(x, P.N):
        return P.concretise(P.wrap(S.rounder("trunc", x.t)))
    return int(x)


CASTS = {
    "double": Cast(lambda x: x if isinstance(x, (P.N, P.B)) else float(x)),
    "float": Cast(_f32),
    "int": Cast(cint),
}
for _t in ("uint16_t", "int32_t", "int64_t", "uint32_t", "uint64_t", "size_t", "uint8_t", "long", "Py_ssize_t", "bint"):
    CASTS[_t] = CASTS["int"]


# ------------------------------------------------------------------ C library


def _isn(x):
    return isinstance(x, (P.N, P.B))


def c1(name, f, dom=None, py=None):
    def g(x):
        if _isn(x):
            x = P.wrap(P.term(x))
        if not isinstance(x, P.N):
            return py(x) if py else f(x)
        if dom is not None:
            d = dom(x)
            if d is not None:
                return d
        return P.wrap(S.uf(name, (x.t,), f))

    return g


def _libm(f, inf=None):
    """C behaviour of a libm function on a plain float: no exceptions."""

    def g(x):
        try:
            return f(x)
        except ValueError:
            return math.nan
        except OverflowError:
            return inf(x)

    return g


def _dom_log(x):
    if P.PATH.branch(S.lt(S.ZERO, x.t)):
        return None
    return -math.inf if P.PATH.branch(S.eq(x.t, S.ZERO)) else math.nan


def _dom_unit(x):
    return None if P.in_unit(x) else math.nan


def _dom_small(x):
    P.small(x)


def _dom_sqrt(x):
    return math.nan if P.PATH.branch(S.lt(x.t, S.ZERO)) else None


def c_fmod(a, b):
    if not _isn(a) and not _isn(b):
        try:
            return math.fmod(a, b)
        except ValueError:
            return math.nan
    if P.special(b):
        return b if b != b else a
    if P.special(a):
        return math.nan
    if P.PATH.branch(S.eq(P.term(b), S.ZERO)):
        return math.nan
    return P.wrap(P.fmod_t(P.term(a), P.term(b)))


def c_pow(a, b):
    if not _isn(a) and not _isn(b):
        try:
            r = math.pow(a, b)
        except OverflowError:
            return -math.inf if a < 0 and b % 2 == 1 else math.inf
        except ValueError:
            return math.nan if a != 0 else math.inf
        return r
    if P.special(a) or P.special(b):
        raise P.Unsupported("pow special")
    return P.wrap(P.cpow(P.term(a), P.term(b)))


def c_round(x):
    if isinstance(x, P.N):
        return P.wrap(S.rounder("cround", x.t))
    if P.special(x):
        return x
    return S._ROUNDERS["cround"](x)


def _plain(f):
    return lambda x: x if P.special(x) else float(f(x))


def _ceil(x):
    return x.__ceil__() if isinstance(x, P.N) else _plain(math.ceil)(x)


def _floor(x):
    return x.__floor__() if isinstance(x, P.N) else _plain(math.floor)(x)


def _trunc(x):
    return x.__trunc__() if isinstance(x, P.N) else _plain(math.trunc)(x)


def _atan2(a, b):
    return P.p_atan2(a, b)


def _sinf(x):
    return math.copysign(math.inf, x)


LIBM = {
    "M_PI": math.pi,
    "NAN": math.nan,
    "INFINITY": math.inf,
    "acos": c1("Arccos", math.acos, _dom_unit, _libm(math.acos)),
    "asin": c1("Arcsin", math.asin, _dom_unit, _libm(math.asin)),
    "atan": c1("Arctan", math.atan),
    "atan2": _atan2,
    "ceil": _ceil,
    "floor": _floor,
    "trunc": _trunc,
    "round": c_round,
    "copysign": P.copysign,
    "cos": c1("Cos", math.cos, None, _libm(math.cos)),
    "sin": c1("Sin", math.sin, None, _libm(math.sin)),
    "tan": c1("Tan", math.tan, None, _libm(math.tan)),
    "cosh": c1("Cosh", math.cosh, _dom_small, _libm(math.cosh, lambda x: math.inf)),
    "sinh": c1("Sinh", math.sinh, _dom_small, _libm(math.sinh, _sinf)),
    "tanh": c1("Tanh", math.tanh),
    "fabs": lambda x: abs(x) if not isinstance(x, P.B) else x._num(),
    "fmod": c_fmod,
    "pow": c_pow,
    "log": c1("Log", math.log, _dom_log, lambda x: -math.inf if x == 0 else _libm(math.log)(x)),
    "sqrt": c1("sqrt", math.sqrt, _dom_sqrt, _libm(math.sqrt)),
    "isfinite": lambda x: True if _isn(x) else math.isfinite(x),
    "isinf": lambda x: False if _isn(x) else math.isinf(x),
    "isnan": lambda x: False if _isn(x) else math.isnan(x),
    "fmin": None,
    "fmax": None,
}

_TYPES = r"(?:const\s+)?(?:unsigned\s+)?(?:double|float|int|bint|uint16_t|int32_t|int64_t|uint32_t|uint64_t|size_t|long|Py_ssize_t|uint8_t)"


def functions(text):
    """{name: python source} of the module-level cdef functions."""
    lines = text.split("\n")
    out, i = {}, 0
    head = re.compile(r"^cdef\s+(?:inline\s+)?" + _TYPES + r"\s*\*?\s+(\w+)\s*\(")
    while i < len(lines):
        m = head.match(lines[i])
        if not m:
            i += 1
            continue
        sig = lines[i]
        j = i
        while not sig.rstrip().endswith(":"):
            j += 1
            sig += " " + lines[j]
        body = []
        k = j + 1
        while k < len(lines) and (not lines[k].strip() or lines[k].startswith((" ", "\t"))):
            body.append(lines[k])
            k += 1
        inner = sig[sig.index("(") + 1 : sig.rindex(")")]
        params = [re.sub(r"[*\s]+$", "", p.strip()).split()[-1].lstrip("*&") for p in inner.split(",") if p.strip()]
        src = [f"def {m.group(1)}({', '.join(params)}):"]
        for l in body:
            src += _line(l)
        src.append("    pass")
        out[m.group(1)] = "\n".join(src)
        i = k
    return out


def _line(l):
    indent = l[: len(l) - len(l.lstrip())]
    s = l.strip()
    if s.startswith("#"):
        return []
    m = re.match(r"cdef\s+(" + _TYPES + r")\s*(\*?)\s*(.*)$", s)
    if m:
        rest = m.group(3)
        if m.group(2) or "[" in rest.split("=")[0]:
            am = re.match(r"(\w+)\s*\[\s*(\d+)\s*\]\s*$", rest)
            if am and not m.group(2):
                return [f"{indent}{am.group(1)} = [0.0] * {am.group(2)}"]
            raise Untranslatable(s)
        outl = []
        if "=" in rest:
            outl.append(indent + _casts(rest))
        return outl or [indent + "pass"]
    if s.startswith("cdef "):
        raise Untranslatable(s)
    if s.startswith("with nogil"):
        return [indent + "if True:"]
    return [_casts(l)]


def _casts(l):
    return re.sub(r"<\s*(" + "|".join(CASTS) + r")\s*>", lambda m: f"_cast_{m.group(1)} ** ", l)


def load(path, constants):
    """Namespace with the cdef functions of the file as Python functions."""
    text = open(path).read()
    ns = {k: v for k, v in LIBM.items() if v is not None}
    for m in re.finditer(r"^from libc\.math cimport (\w+) as (\w+)", text, re.M):
        if m.group(1) in LIBM:
            ns[m.group(2)] = LIBM[m.group(1)]
            # the plain name is then Python's own
            if not re.search(r"cimport \([^)]*\b" + m.group(1) + r"\b", text):
                ns.pop(m.group(1), None)
    for k, v in CASTS.items():
        ns[f"_cast_{k}"] = v
    ns.update(constants)
    bad = {}
    for m in re.finditer(r"^cdef\s+(" + _TYPES + r")\s+(\w+)\s*=\s*(.+)$", text, re.M):
        try:
            exec(f"{m.group(2)} = {_casts(m.group(3))}", ns)
        except Exception as e:  # noqa: BLE001
            bad[m.group(2)] = str(e)
    try:
        fs = functions(text)
    except Untranslatable as e:
        raise
    for name, src in fs.items():
        exec(compile(src, f"{path}:{name}", "exec"), ns)
    return ns
