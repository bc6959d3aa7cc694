"""The 36 easing functions (easings.net definitions, OutIn = mirrored halves), on floats."""
import math


def clamp01(x):
    return max(0.0, min(1.0, x))


def _outin(fin, fout):
    # first half: out, second half: in
    return lambda x: fout(2 * x) / 2 if x < 0.5 else fin(2 * x - 1) / 2 + 0.5


def _poly(n):
    fin = lambda x: x**n  # noqa: E731
    fout = lambda x: 1 - (1 - x) ** n  # noqa: E731
    finout = lambda x: 2 ** (n - 1) * x**n if x < 0.5 else 1 - (-2 * x + 2) ** n / 2  # noqa: E731
    return fin, fout, finout, _outin(fin, fout)


_C1 = 1.70158
_C3 = _C1 + 1
_C2 = _C1 * 1.525
_C4 = 2 * math.pi / 3
_C5 = 2 * math.pi / 4.5


def _in_back(x):
    return _C3 * x**3 - _C1 * x**2


def _out_back(x):
    return 1 + _C3 * (x - 1) ** 3 + _C1 * (x - 1) ** 2


def _io_back(x):
    if x < 0.5:
        return ((2 * x) ** 2 * ((_C2 + 1) * 2 * x - _C2)) / 2
    return ((2 * x - 2) ** 2 * ((_C2 + 1) * (2 * x - 2) + _C2) + 2) / 2


def _in_circ(x):
    return 1 - math.sqrt(1 - x**2)


def _out_circ(x):
    return math.sqrt(1 - (x - 1) ** 2)


def _io_circ(x):
    if x < 0.5:
        return (1 - math.sqrt(1 - (2 * x) ** 2)) / 2
    return (math.sqrt(1 - (-2 * x + 2) ** 2) + 1) / 2


def _in_elastic(x):
    if x in (0, 1):
        return x
    return -(2 ** (10 * x - 10)) * math.sin((x * 10 - 10.75) * _C4)


def _out_elastic(x):
    if x in (0, 1):
        return x
    return 2 ** (-10 * x) * math.sin((x * 10 - 0.75) * _C4) + 1


def _io_elastic(x):
    if x in (0, 1):
        return x
    if x < 0.5:
        return -(2 ** (20 * x - 10) * math.sin((20 * x - 11.125) * _C5)) / 2
    return (2 ** (-20 * x + 10) * math.sin((20 * x - 11.125) * _C5)) / 2 + 1


def _in_expo(x):
    return 0.0 if x == 0 else 2 ** (10 * x - 10)


def _out_expo(x):
    return 1.0 if x == 1 else 1 - 2 ** (-10 * x)


def _io_expo(x):
    if x in (0, 1):
        return x
    return 2 ** (20 * x - 10) / 2 if x < 0.5 else (2 - 2 ** (-20 * x + 10)) / 2


def _in_sine(x):
    return 1 - math.cos(x * math.pi / 2)


def _out_sine(x):
    return math.sin(x * math.pi / 2)


def _io_sine(x):
    return -(math.cos(math.pi * x) - 1) / 2


def _oi_elastic(x):
    # the documented formula only special-cases the outer ends, so the midpoint is not 0.5
    if x in (0, 1):
        return x
    if x < 0.5:
        return (2 ** (-20 * x) * math.sin((20 * x - 0.75) * _C4)) / 2 + 0.5
    return -(2 ** (10 * (2 * x - 1) - 10)) * math.sin((20 * x - 20.75) * _C4) / 2 + 0.5


def _oi_expo(x):
    if x in (0, 1):
        return x
    return (1 - 2 ** (-20 * x)) / 2 if x < 0.5 else 2 ** (20 * x - 20) / 2 + 0.5


def _oi_sine(x):
    return math.sin(math.pi * x) / 2 if x < 0.5 else 1 - math.sin(math.pi * x) / 2


_T = {
    "Back": (_in_back, _out_back, _io_back, _outin(_in_back, _out_back)),
    "Circ": (_in_circ, _out_circ, _io_circ, _outin(_in_circ, _out_circ)),
    "Cubic": _poly(3),
    "Elastic": (_in_elastic, _out_elastic, _io_elastic, _oi_elastic),
    "Expo": (_in_expo, _out_expo, _io_expo, _oi_expo),
    "Quad": _poly(2),
    "Quart": _poly(4),
    "Quint": _poly(5),
    "Sine": (_in_sine, _out_sine, _io_sine, _oi_sine),
}

EASE_FLOAT = {}
for _name, _fs in _T.items():
    for _p, _f in zip(("EaseIn", "EaseOut", "EaseInOut", "EaseOutIn"), _fs):
        EASE_FLOAT[_p + _name] = (lambda f: lambda x: f(clamp01(x)))(_f)
