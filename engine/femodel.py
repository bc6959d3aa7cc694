"""Reference (Python) models of records, arrays and containers: the oracle's side of programs that use them.

Written from the documentation: numbers are values; arrays and records are objects; constructing an array, setting an
element or a field copies; constructing a record keeps references to composite arguments; @= copies in place; + copies."""

import math

from . import fe, pysym
from . import sym as S
from .pysym import B, N

NUMT = {int, float, bool, pysym.Int, pysym.Float, fe.PNum, pysym.p_bool, pysym.p_int}


class Terminate(fe.Terminated):
    """The program stops here when run-time checks are on; without them what follows is undefined."""


class Num0:
    """Type descriptor of numbers."""

    @staticmethod
    def zero():
        return 0


def isnum(t):
    try:
        return t in NUMT
    except TypeError:
        return False


def zero(t):
    return 0 if isnum(t) else t.zero()


def stored(v):
    """A value stored by copy."""
    return v.copy() if isinstance(v, PVal) else v


class PosMeta(type):
    def __pos__(cls):
        return cls.zero()


class PVal:
    def __pos__(self):
        return self.copy()

    def __imatmul__(self, o):
        self.copy_from(o)
        return self


def conc(i, lo, hi):
    """The integer value of i in [lo, hi), or None."""
    if not isinstance(i, (N, B)):
        k = int(i)
        return k if k == i and lo <= k < hi else None
    if isinstance(i, B):
        i = 1 if i else 0
        return i if lo <= i < hi else None
    for k in range(lo, hi):
        if i == k:
            return k
    return None


def position(i, n):
    """A valid (possibly negative) index into a sequence of n elements."""
    k = conc(i, -n, n)
    if k is None:
        raise Terminate("index")
    return k + n if k < 0 else k


def same(a, b):
    """Equality with numbers compared by == (forking on symbolic ones)."""
    if isinstance(a, PVal) or isinstance(b, PVal):
        return bool(a == b)
    return bool(a == b)


class PRecord(PVal, metaclass=PosMeta):
    _f = ()

    def __init_subclass__(cls):
        cls._f = tuple(cls.__dict__.get("__annotations__", {}).items())
        cls.__match_args__ = tuple(n for n, _ in cls._f)
        for op in "add sub mul truediv floordiv mod pow or xor and".split():
            d, i = f"__{op}__", f"__i{op}__"
            if d in cls.__dict__ and i not in cls.__dict__:

                def g(self, o, _f=cls.__dict__[d]):
                    self.copy_from(_f(self, o))
                    return self

                setattr(cls, i, g)

    def __init__(self, *a, **k):
        names = [n for n, _ in self._f]
        vals = dict(zip(names, a), **k)
        assert set(vals) == set(names), "record constructor"
        for n in names:
            object.__setattr__(self, n, vals[n])

    @classmethod
    def zero(cls):
        return cls(*(zero(t) for _, t in cls._f))

    def __setattr__(self, n, v):
        old = self.__dict__.get(n)
        if isinstance(old, PVal):
            old.copy_from(v)
        elif n in self.__dict__:
            object.__setattr__(self, n, v)
        else:
            p = getattr(type(self), n, None)
            if isinstance(p, property):
                p.fset(self, v)
            else:
                raise AttributeError(n)

    def copy(self):
        r = object.__new__(type(self))
        for n, _ in self._f:
            object.__setattr__(r, n, stored(self.__dict__[n]))
        return r

    def copy_from(self, o):
        assert type(o) is type(self)
        new = o.copy()
        for n, _ in self._f:
            setattr(self, n, new.__dict__[n])

    def __eq__(self, o):
        if type(o) is not type(self):
            return False
        return all(same(self.__dict__[n], o.__dict__[n]) for n, _ in self._f)

    __hash__ = None


class PPair(PRecord):
    first: int
    second: int

    def __class_getitem__(cls, a):
        return PairType(*a)

    def __lt__(self, o):
        return self.second < o.second if self.first == o.first else self.first < o.first

    def __le__(self, o):
        return self.second <= o.second if self.first == o.first else self.first <= o.first

    def __gt__(self, o):
        return self.second > o.second if self.first == o.first else self.first > o.first

    def __ge__(self, o):
        return self.second >= o.second if self.first == o.first else self.first >= o.first

    @property
    def tuple(self):
        return self.first, self.second


class PairType:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, x, y):
        return PPair(x, y)

    def zero(self):
        return PPair(zero(self.a), zero(self.b))

    __pos__ = zero


class PBox(PRecord):
    value: int

    def __class_getitem__(cls, a):
        return BoxType(a)


class BoxType:
    def __init__(self, a):
        self.a = a

    def __call__(self, x):
        return PBox(x)

    def zero(self):
        return PBox(zero(self.a))

    __pos__ = zero


# ---------------------------------------------------------------- array-likes


class PSeq(PVal):
    """Everything ArrayLike offers, over size() and cells at positions; a cell is a number or a composite object."""

    def get(self, k):
        raise NotImplementedError

    def put(self, k, v):
        raise NotImplementedError

    def size(self):
        raise NotImplementedError

    def __len__(self):
        return self.size()

    def __getitem__(self, i):
        return self.get(position(i, self.size()))

    def __setitem__(self, i, v):
        if isinstance(v, PVal) and v is self.peek(i):
            return
        self.put(position(i, self.size()), v)

    def peek(self, i):
        return None

    def get_unchecked(self, i):
        k = conc(i, 0, self.size())
        if k is None:
            raise S.Cut("unchecked index")
        return self.get(k)

    def set_unchecked(self, i, v):
        k = conc(i, 0, self.size())
        if k is None:
            raise S.Cut("unchecked index")
        self.put(k, v)

    def __iter__(self):
        k = 0
        while k < self.size():
            yield self.get(k)
            k += 1

    def items(self):
        return [self.get(k) for k in range(self.size())]

    def __contains__(self, v):
        return any(same(x, v) for x in self.items())

    def __reversed__(self):
        return PReversed(self)

    def index(self, v, start=0, stop=None):
        n = self.size()

        def clip(x):
            k = conc(x, -12, 13)
            if k is None:
                raise S.Cut("fractional bound")
            return max(k + n, 0) if k < 0 else min(k, n)

        lo, hi = clip(start), n if stop is None else clip(stop)
        return next((k for k in range(lo, hi) if same(self.get(k), v)), -1)

    def count(self, v):
        return sum(1 for x in self.items() if same(x, v))

    def last_index(self, v):
        return next((k for k in reversed(range(self.size())) if same(self.get(k), v)), -1)

    def index_of_max(self, *, key=None):
        key = key or (lambda x: x)
        best = -1
        for k, x in enumerate(self.items()):
            if best < 0 or key(x) > key(self.get(best)):
                best = k
        return best

    def index_of_min(self, *, key=None):
        key = key or (lambda x: x)
        best = -1
        for k, x in enumerate(self.items()):
            if best < 0 or key(x) < key(self.get(best)):
                best = k
        return best

    def assign(self, vals):
        """Overwrite all elements with copies taken beforehand."""
        for k, v in enumerate([stored(v) for v in vals]):
            self.put(k, v)

    def swap(self, i, j):
        n = self.size()
        a, b = conc(i, 0, n), conc(j, 0, n)
        if a is None or b is None:
            raise Terminate("swap")
        vals = self.items()
        vals[a], vals[b] = vals[b], vals[a]
        self.assign(vals)

    def swap_unchecked(self, i, j):
        n = self.size()
        if conc(i, 0, n) is None or conc(j, 0, n) is None:
            raise S.Cut("unchecked index")
        self.swap(i, j)

    def sort(self, *, key=None, reverse=False):
        self.assign(stable(self.items(), key or (lambda x: x), reverse))

    def reverse(self):
        self.assign(self.items()[::-1])

    def unchecked(self):
        return self

    def __eq__(self, o):
        if not isinstance(o, PSeq):
            return False
        a, b = self.items(), o.items()
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def stable(xs, key, reverse):
    """Insertion into a stable order, comparing only with < on keys (like sorted)."""
    out = []
    for x in xs:
        k = len(out)
        while k > 0 and (key(out[k - 1]) < key(x) if reverse else key(x) < key(out[k - 1])):
            k -= 1
        out.insert(k, x)
    return out


class PReversed(PSeq):
    def __init__(self, a):
        self.a = a

    def size(self):
        return self.a.size()

    def get(self, k):
        return self.a.get(self.size() - 1 - k)

    def put(self, k, v):
        self.a.put(self.size() - 1 - k, v)


class PCells(PSeq):
    """Fixed cells: composites are stable objects written in place."""

    def get(self, k):
        return self.cells[k]

    def put(self, k, v):
        if isinstance(self.cells[k], PVal):
            self.cells[k].copy_from(v)
        else:
            self.cells[k] = v


class PArray(PCells):
    def __new__(cls, *a):
        r = object.__new__(cls)
        r.cells = [stored(v) for v in a]
        return r

    def __class_getitem__(cls, a):
        return ArrayType(*a)

    def size(self):
        return len(self.cells)

    def copy(self):
        return PArray(*self.cells)

    def copy_from(self, o):
        assert isinstance(o, PArray) and len(o.cells) == len(self.cells)
        self.assign(o.items())


class ArrayType:
    def __init__(self, t, n):
        self.t, self.n = t, n

    def __call__(self, *a):
        assert len(a) == self.n
        return PArray(*a)

    def zero(self):
        return PArray(*(zero(self.t) for _ in range(self.n)))

    __pos__ = zero


class VarType:
    def __init__(self, t, n):
        self.t, self.n = t, n

    def new(self):
        return PVarArray(self.t, self.n)

    zero = new
    __pos__ = new

    def capacity(self):
        return self.n


class PVarArray(PCells):
    def __init__(self, t, cap):
        self.t, self.cap, self.n = t, cap, 0
        self.cells = [zero(t) for _ in range(cap)]

    def __class_getitem__(cls, a):
        return VarType(*a)

    def size(self):
        return self.n

    def capacity(self):
        return self.cap

    def is_full(self):
        return self.n == self.cap

    def become(self, vals):
        vals = list(vals)
        self.n = len(vals)
        self.assign(vals)

    def copy(self):
        r = PVarArray(self.t, self.cap)
        for k in range(self.cap):
            r.put(k, stored(self.cells[k]))
        r.n = self.n
        return r

    def copy_from(self, o):
        o = o.copy()
        self.n = self.cap
        for k in range(self.cap):
            self.put(k, o.cells[k])
        self.n = o.n

    def append(self, v):
        if self.n >= self.cap:
            raise Terminate("full")
        v = stored(v)
        self.n += 1
        self.put(self.n - 1, v)

    def append_unchecked(self, v):
        if self.n >= self.cap:
            raise S.Cut("append_unchecked to a full array")
        self.append(v)

    def extend(self, o):
        vals = [stored(x) for x in o]
        if self.n + len(vals) > self.cap:
            raise Terminate("full")
        for v in vals:
            self.append(v)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def pop(self, i=None):
        k = position(-1 if i is None else i, self.n)
        vals = [stored(x) for x in self.items()]
        v = vals.pop(k)
        self.become(vals)
        return v

    def __delitem__(self, i):
        self.pop(i)

    def insert(self, i, v):
        k = conc(i, -self.n, self.n + 1)
        if k is None or self.n >= self.cap:
            raise Terminate("insert")
        vals = [stored(x) for x in self.items()]
        vals.insert(k, stored(v))
        self.become(vals)

    def remove(self, v):
        k = self.index(v)
        if k < 0:
            return False
        self.pop(k)
        return True

    def clear(self):
        self.n = 0

    def set_add(self, v):
        if self.n >= self.cap or v in self:
            return False
        self.append(v)
        return True

    def set_remove(self, v):
        k = self.index(v)
        if k < 0:
            return False
        vals = [stored(x) for x in self.items()]
        last = vals.pop()
        if k < len(vals):
            vals[k] = last
        self.become(vals)
        return True


class SetType:
    def __init__(self, t, n):
        self.t, self.n = t, n

    def new(self):
        return PArraySet(self.t, self.n)


class PArraySet(PVal):
    """Order of iteration is unspecified by the documentation; programs use it only through order-free queries, except
    for sets that only ever had additions (insertion order)."""

    def __init__(self, t, n):
        self.v = PVarArray(t, n)

    def __class_getitem__(cls, a):
        return SetType(*a)

    def __len__(self):
        return self.v.n

    def __contains__(self, x):
        return x in self.v

    def __iter__(self):
        return iter(self.v)

    def add(self, x):
        return self.v.set_add(x)

    def remove(self, x):
        return self.v.set_remove(x)

    def clear(self):
        self.v.clear()


class MapType:
    def __init__(self, k, v, n):
        self.a = k, v, n

    def new(self):
        return PArrayMap(*self.a)


class PArrayMap(PVal):
    def __init__(self, k, v, n):
        self.cap = n
        self.n = 0
        self.ks = [zero(k) for _ in range(n)]
        self.vs = [zero(v) for _ in range(n)]

    def __class_getitem__(cls, a):
        return MapType(*a)

    def __len__(self):
        return self.n

    def capacity(self):
        return self.cap

    def is_full(self):
        return self.n == self.cap

    def find(self, key):
        return next((k for k in range(self.n) if same(self.ks[k], key)), None)

    def __contains__(self, key):
        return self.find(key) is not None

    def __getitem__(self, key):
        k = self.find(key)
        if k is None:
            raise Missing("key")
        return self.vs[k]

    def put(self, k, key, v):
        for xs, x in ((self.ks, key), (self.vs, v)):
            if isinstance(xs[k], PVal):
                xs[k].copy_from(x)
            else:
                xs[k] = x

    def __setitem__(self, key, v):
        k = self.find(key)
        if k is not None:
            return self.put(k, stored(self.ks[k]), v)
        if self.n == self.cap:
            raise Terminate("full")
        self.n += 1
        self.put(self.n - 1, stored(key), stored(v))

    def pop(self, key):
        k = self.find(key)
        if k is None:
            raise Missing("key")
        v = stored(self.vs[k])
        self.n -= 1
        if k < self.n:
            self.put(k, stored(self.ks[self.n]), stored(self.vs[self.n]))
        return v

    def __delitem__(self, key):
        self.pop(key)

    def clear(self):
        self.n = 0

    def keys(self):
        k = 0
        while k < self.n:
            yield self.ks[k]
            k += 1

    __iter__ = keys

    def values(self):
        k = 0
        while k < self.n:
            yield self.vs[k]
            k += 1

    def items(self):
        k = 0
        while k < self.n:
            yield self.ks[k], self.vs[k]
            k += 1


class Missing(Terminate):
    """error(): the program stops even without run-time checks."""

    always = True


class PFrozen:
    def __init__(self, *v):
        self.v = stable(list(v), lambda x: x, False)

    of = classmethod(lambda cls, *v: cls(*v))

    def __len__(self):
        return len(self.v)

    def __contains__(self, x):
        return any(same(x, y) for y in self.v)

    def __iter__(self):
        return iter(self.v)


def p_copy(v):
    return stored(v)


def p_zeros(t):
    return zero(t)


def p_swap(a, b):
    c = a.copy()
    a.copy_from(b)
    b.copy_from(c)


def extreme(gt):
    def f(*a, key=None, default=None):
        key = key or (lambda x: x)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if default is None:
                raise Terminate("empty")
            return default
        best = xs[0]
        for x in xs[1:]:
            if (key(x) > key(best)) if gt else (key(x) < key(best)):
                best = x
        return best

    return f


def p_reversed(x):
    return reversed(x)


def p_next(it):
    try:
        return next(it)
    except StopIteration:
        raise Missing("exhausted") from None


class PMaybe:
    def __init__(self, some, v=None):
        self.is_some, self.v = some, v

    is_nothing = property(lambda s: not s.is_some)

    def get(self, **k):
        if not self.is_some:
            raise Terminate("empty Maybe")
        return self.v

    get_unsafe = get

    def map(self, f):
        return PMaybe(True, f(self.v)) if self.is_some else self

    def flat_map(self, f):
        return f(self.v) if self.is_some else self

    def or_default(self, d):
        return stored(self.v if self.is_some else d)

    def or_else(self, f):
        return stored(self.v if self.is_some else f())


def oracle_ns():
    return {
        "Record": PRecord, "Array": PArray, "Pair": PPair, "Box": PBox, "VarArray": PVarArray, "ArraySet": PArraySet,
        "ArrayMap": PArrayMap, "FrozenNumSet": PFrozen, "copy": p_copy, "zeros": p_zeros, "swap": p_swap,
        "max": extreme(True), "min": extreme(False), "Some": lambda v: PMaybe(True, v), "Nothing": PMaybe(False),
        "next": p_next,
    }  # fmt: skip


_real = {}


def real_ns():
    if not _real:
        from sonolus.script.array import Array
        from sonolus.script.containers import ArrayMap, ArraySet, Box, FrozenNumSet, Pair, VarArray
        from sonolus.script.maybe import Nothing, Some
        from sonolus.script.record import Record
        from sonolus.script.values import copy, swap, zeros

        _real.update(locals())
    return dict(_real)
