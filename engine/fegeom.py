"""Programs over vectors, quads, rectangles and transforms: the compiled program against their geometric definitions
(a transform is the list of its steps as maps of points, applied one after the other)."""

import math
import random

from . import fe, felib, femodel as M, pysym, ratio
from . import sym as S

# ------------------------------------------------------------------ geometric definitions


def sin(a):
    return pysym.pmath.sin(a)


def cos(a):
    return pysym.pmath.cos(a)


class PVec2(M.PRecord):
    x: int
    y: int

    zero = classmethod(lambda c: c(0, 0))
    one = classmethod(lambda c: c(1, 1))
    up = classmethod(lambda c: c(0, 1))
    down = classmethod(lambda c: c(0, -1))
    left = classmethod(lambda c: c(-1, 0))
    right = classmethod(lambda c: c(1, 0))
    unit = classmethod(lambda c, a: c(cos(a), sin(a)))
    tuple = property(lambda s: (s.x, s.y))
    magnitude = property(lambda s: (s.x * s.x + s.y * s.y) ** 0.5)
    angle = property(lambda s: pysym.pmath.atan2(s.y, s.x))

    def each(self, o, f):
        return PVec2(f(self.x, o.x), f(self.y, o.y)) if isinstance(o, PVec2) else PVec2(f(self.x, o), f(self.y, o))

    def __add__(self, o):
        return self.each(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self.each(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self.each(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.each(o, lambda a, b: a / b)

    def __neg__(self):
        return PVec2(-self.x, -self.y)

    def dot(self, o):
        return self.x * o.x + self.y * o.y

    def rotate(self, a):
        return PVec2(*rotation(a)(self.x, self.y))

    def rotate_about(self, a, pivot):
        return PVec2(*about(rotation(a), pivot)(self.x, self.y))

    def normalize(self):
        if self.x == 0 and self.y == 0:
            raise M.Terminate("zero vector")
        return self / self.magnitude

    def normalize_or_zero(self):
        if self.x == 0 and self.y == 0:
            return PVec2(0, 0)
        return self / self.magnitude

    def orthogonal(self):
        return PVec2(-self.y, self.x)


def angle_diff(a, b):
    r = (a - b) % (2 * math.pi)
    return r if r <= math.pi else 2 * math.pi - r


def signed_angle_diff(a, b):
    r = (a - b) % (2 * math.pi)
    if near(r - math.pi):
        raise S.Cut("opposite angles")
    return r if r < math.pi else r - 2 * math.pi


def near(d):
    """Too close to call for doubles; over symbolic numbers, exactly zero."""
    return d == 0 if isinstance(d, pysym.N) else abs(d) < 1e-6


def quo(a, b):
    """a / b; where b is nearly zero doubles decide nothing"""
    if not isinstance(b, pysym.N) and abs(b) < 1e-3:
        raise S.Cut("nearly singular")
    return a / b


def inside(poly, t):
    """Even-odd rule: how many edges cross the ray from t to the right."""
    n = 0
    pts = list(poly)
    for p, q in zip(pts, pts[1:] + pts[:1]):
        lo, hi = (p, q) if p.y < q.y else (q, p)
        if lo.y <= t.y and t.y < hi.y:
            side = (hi.x - lo.x) * (t.y - lo.y) - (t.x - lo.x) * (hi.y - lo.y)
            if near(side) or near(lo.y - t.y) or near(hi.y - t.y):
                raise S.Cut("on an edge")
            if side > 0:
                n += 1
    return n % 2 == 1


# a map of points; and the same with its inverse


def translation(v):
    return lambda x, y: (x + v.x, y + v.y)


def scaling(f):
    return lambda x, y: (x * f.x, y * f.y)


def rotation(a):
    c, s = cos(a), sin(a)
    return lambda x, y: (c * x - s * y, s * x + c * y)


def about(f, pivot):
    def g(x, y):
        a, b = f(x - pivot.x, y - pivot.y)
        return a + pivot.x, b + pivot.y

    return g


def simple_persp(v, axis):
    """lines through the axis' points converge at distance v; points at distance 0 stay"""
    quo(1, v)  # a step with no meaning is one even when unused

    def g(x, y):
        w = 1 + (x if axis == "x" else y) / v
        return quo(x, w), quo(y, w)

    return g


def persp(f, vp, axis):
    """distance 0 goes to f, and infinitely far goes to the vanishing point"""
    if axis == "x":
        d = vp.x - f
        quo(1, d)
        return lambda x, y: (quo(x, 1 + x / d) + f, quo(y + x * vp.y / d, 1 + x / d))
    d = vp.y - f
    quo(1, d)
    return lambda x, y: (quo(x + y * vp.x / d, 1 + y / d), quo(y, 1 + y / d) + f)


def unpersp(f, vp, axis):
    """solves persp for the point before"""
    if axis == "x":
        d = vp.x - f
        quo(1, d)

        def g(x, y):
            u = quo(x - f, 1 - (x - f) / d)
            w = 1 + u / d
            return u, y * w - u * vp.y / d

        return g
    d = vp.y - f
    quo(1, d)

    def h(x, y):
        u = quo(y - f, 1 - (y - f) / d)
        w = 1 + u / d
        return x * w - u * vp.x / d, u

    return h


def keep(v):
    return v.copy()


class PSteps(M.PVal):
    """A transform: the list of its point maps, first to last."""

    maps = ()

    @classmethod
    def new(cls):
        return cls([])

    def __init__(self, maps):
        self.maps = list(maps)

    def then(self, f, g=None):
        return type(self)([*self.maps, f])

    def copy(self):
        return type(self)(self.maps)

    def copy_from(self, o):
        self.maps = list(o.maps)

    def translate(self, v, /):
        v = keep(v)
        return self.then(translation(v), translation(-v))

    def scale(self, f, /):
        f = keep(f)
        return self.then(scaling(f), lambda x, y: (quo(x, f.x), quo(y, f.y)))

    def scale_about(self, f, /, pivot):
        f, pivot = keep(f), keep(pivot)
        return self.then(about(scaling(f), pivot), about(lambda x, y: (quo(x, f.x), quo(y, f.y)), pivot))

    def rotate(self, a, /):
        return self.then(rotation(a), rotation(-a))

    def rotate_about(self, a, /, pivot):
        pivot = keep(pivot)
        return self.then(about(rotation(a), pivot), about(rotation(-a), pivot))

    def shear_x(self, m, /):
        return self.then(lambda x, y: (x + m * y, y), lambda x, y: (x - m * y, y))

    def shear_y(self, m, /):
        return self.then(lambda x, y: (x, y + m * x), lambda x, y: (x, y - m * x))

    def simple_perspective_x(self, v, /):
        return self.then(simple_persp(v, "x"), simple_persp(-v, "x"))

    def simple_perspective_y(self, v, /):
        return self.then(simple_persp(v, "y"), simple_persp(-v, "y"))

    def perspective_x(self, f, vp, /):
        vp = keep(vp)
        return self.then(persp(f, vp, "x"), unpersp(f, vp, "x"))

    def perspective_y(self, f, vp, /):
        vp = keep(vp)
        return self.then(persp(f, vp, "y"), unpersp(f, vp, "y"))

    def inverse_perspective_x(self, f, vp, /):
        return self.then(unpersp(f, keep(vp), "x"))

    def inverse_perspective_y(self, f, vp, /):
        return self.then(unpersp(f, keep(vp), "y"))

    def normalize(self):
        self.transform_vec(PVec2(0, 0))  # documented to fail where the origin goes to infinity
        return self.copy()

    def compose(self, o, /):
        return type(self)([*self.maps, *o.maps])

    def compose_before(self, o, /):
        return o.compose(self)

    def transform_vec(self, v):
        x, y = v.x, v.y
        for f in self.maps:
            x, y = f(x, y)
        return PVec2(x, y)

    def transform_quad(self, q):
        return PQuad(*(self.transform_vec(getattr(q, n)) for n in CORNERS))


class PInvertible(PSteps):
    def normalize(self):
        self.inverse_transform_vec(PVec2(0, 0))
        return super().normalize()

    def then(self, f, g):
        return PInvertible([*self.maps, (f, g)])

    def transform_vec(self, v):
        x, y = v.x, v.y
        for f, _ in self.maps:
            x, y = f(x, y)
        return PVec2(x, y)

    def inverse_transform_vec(self, v):
        x, y = v.x, v.y
        for _, g in reversed(self.maps):
            x, y = g(x, y)
        return PVec2(x, y)

    def inverse_transform_quad(self, q):
        return PQuad(*(self.inverse_transform_vec(getattr(q, n)) for n in CORNERS))


CORNERS = ("bl", "tl", "tr", "br")


class PQuad(M.PRecord):
    bl: PVec2
    tl: PVec2
    tr: PVec2
    br: PVec2

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        for n in CORNERS:
            object.__setattr__(self, n, self.__dict__[n].copy())

    @classmethod
    def zero(cls):
        return cls(*(PVec2(0, 0) for _ in CORNERS))

    @classmethod
    def from_quad(cls, q, /):
        return cls(*(getattr(q, n) for n in CORNERS))

    def each(self, f):
        return PQuad(*(PVec2(*f(getattr(self, n).x, getattr(self, n).y)) for n in CORNERS))

    center = property(lambda s: PVec2(*(sum(getattr(getattr(s, n), c) for n in CORNERS) / 4 for c in "xy")))

    def mid(self, a, b):
        return (getattr(self, a) + getattr(self, b)) / 2

    mt = property(lambda s: s.mid("tl", "tr"))
    mr = property(lambda s: s.mid("tr", "br"))
    mb = property(lambda s: s.mid("bl", "br"))
    ml = property(lambda s: s.mid("bl", "tl"))

    def translate(self, v, /):
        return self.each(translation(v))

    def scale(self, f, /):
        return self.each(scaling(f))

    def scale_about(self, f, /, pivot):
        return self.each(about(scaling(f), pivot))

    def scale_centered(self, f, /):
        return self.scale_about(f, self.center)

    def rotate(self, a, /):
        return self.each(rotation(a))

    def rotate_about(self, a, /, pivot):
        return self.each(about(rotation(a), pivot))

    def rotate_centered(self, a, /):
        return self.rotate_about(a, self.center)

    def permute(self, count=1, /):
        k = M.conc(count, -12, 13)
        if k is None:
            raise S.Cut("permute")
        order = ["bl", "br", "tr", "tl"]  # counterclockwise
        return PQuad(**{n: getattr(self, order[(order.index(n) + k) % 4]) for n in CORNERS})

    def contains_point(self, p, /):
        return inside([getattr(self, n) for n in CORNERS], p)


class PRect(M.PRecord):
    t: int
    r: int
    b: int
    l: int

    @classmethod
    def from_center(cls, center, dimensions):
        w, h = dimensions.x / 2, dimensions.y / 2
        return cls(center.y + h, center.x + w, center.y - h, center.x - w)

    @classmethod
    def from_margin(cls, *a):
        t, r, b, l = {1: lambda a: (a, a, a, a), 2: lambda a, b: (a, b, a, b), 3: lambda a, b, c: (a, b, c, b), 4: lambda *x: x}[len(a)](*a)
        return cls(t, r, -b, -l)

    w = property(lambda s: s.r - s.l)
    h = property(lambda s: s.t - s.b)
    bl = property(lambda s: PVec2(s.l, s.b))
    tl = property(lambda s: PVec2(s.l, s.t))
    tr = property(lambda s: PVec2(s.r, s.t))
    br = property(lambda s: PVec2(s.r, s.b))
    center = property(lambda s: (s.bl + s.tr) / 2)
    mt = property(lambda s: (s.tl + s.tr) / 2)
    mr = property(lambda s: (s.tr + s.br) / 2)
    mb = property(lambda s: (s.bl + s.br) / 2)
    ml = property(lambda s: (s.bl + s.tl) / 2)

    def as_quad(self):
        return PQuad(self.bl, self.tl, self.tr, self.br)

    def each(self, f):
        (r, t), (l, b) = f(self.r, self.t), f(self.l, self.b)
        return PRect(t, r, b, l)

    def translate(self, v, /):
        return self.each(translation(v))

    def scale(self, f, /):
        return self.each(scaling(f))

    def scale_about(self, f, /, pivot):
        return self.each(about(scaling(f), pivot))

    def scale_centered(self, f, /):
        return self.scale_about(f, self.center)

    def expand(self, v, /):
        return PRect(self.t + v.y, self.r + v.x, self.b - v.y, self.l - v.x)

    def shrink(self, v, /):
        return self.expand(-v)

    def contains_point(self, p, /):
        return bool(p.x >= self.l) and bool(p.x <= self.r) and bool(p.y >= self.b) and bool(p.y <= self.t)


def perspective_approach(ratio, progress):
    """progress of the inverse of the distance, which moves from ratio to 1"""
    if ratio == 1:
        return progress
    d = ratio + (1 - ratio) * progress
    if d < 1e-6:
        d = 1e-6
    return (1 / d - 1 / ratio) / (1 - 1 / ratio)


def pnpoly(vertices, test):
    return inside(list(vertices), test)


def oracle_ns():
    ns = M.oracle_ns()
    ns.update(
        Vec2=PVec2, Quad=PQuad, Rect=PRect, Transform2d=PSteps, InvertibleTransform2d=PInvertible, angle_diff=angle_diff,
        signed_angle_diff=signed_angle_diff, pnpoly=pnpoly, perspective_approach=perspective_approach,
        lerp=felib.lerp, lerp_clamped=felib.lerp_clamped,
    )  # fmt: skip
    return ns


_real = {}


def real_ns():
    if not _real:
        from sonolus.script.array import Array
        from sonolus.script.interval import lerp, lerp_clamped
        from sonolus.script.quad import Quad, Rect
        from sonolus.script.transform import InvertibleTransform2d, Transform2d, perspective_approach
        from sonolus.script.values import copy, swap, zeros
        from sonolus.script.vec import Vec2, angle_diff, pnpoly, signed_angle_diff

        _real.update(locals())
    return dict(_real)


# ------------------------------------------------------------------ the law


class RatLaw(fe.FeLaw):
    """Equalities that hold as identities of rational expressions are discharged before anything else."""

    def same(self, label, a, b):
        if self.concrete is None and not pysym.special(a) and not pysym.special(b):
            ta, tb = pysym.ground(pysym.term(a)), pysym.ground(pysym.term(b))
            self.sides[label] = ta, tb
            self.obl.append((label, S.eq(ta, tb)))
            return
        super().same(label, a, b)

    @property
    def sides(self):
        return self.__dict__.setdefault("_sides", {})

    def decide(self, ex, path, bad):
        left = []
        done = {}
        for label, c in bad:
            s = self.sides.get(label)
            if s is not None:
                k = (s[0].id, s[1].id)
                if k not in done:
                    done[k] = ratio.equal(*s, ex.stats)
                if done[k]:
                    continue
            left.append((label, c))
        if not left:
            return None
        return super().decide(ex, path, left)


def make_law(prog, comp, seed=0, max_paths=32, levels=("cfg",), tol=1e-7, **kw):
    kw.setdefault("zx_ms", 1500)
    law = RatLaw(fe.body(prog, comp, levels, tol), max_paths=max_paths, seed=seed, tol=tol, **kw)
    law.levels = ("zr", "zxi", "zx")
    return law


# ------------------------------------------------------------------ programs


class Geom:
    def __init__(self, seed):
        self.r = random.Random(seed * 61 + 7)
        self.lines = []
        self.uid = 0
        self.vars = {k: [] for k in "VQRTI"}

    def w(self, s):
        self.lines.append(s)

    def name(self, t):
        self.uid += 1
        return f"{t.lower()}{self.uid}"

    def num(self):
        r = self.r
        z = r.random()
        if z < 0.6:
            return r.choice(["a", "b", "c", "d"])
        if z < 0.8:
            return r.choice(["(a + b)", "(b * 2)", "(c - a)", "(-d)", "(a * c)"])
        return r.choice(["0", "1", "2", "(-1)", "0.5", "4", "(-2)"])

    def pos(self):
        """A number that is not zero."""
        return self.r.choice(["e", "e", "2", "4", "0.5", "(-2)", "(-e)", "(e + 1)"])

    def ang(self):
        return self.r.choice(["a", "b", "c", "(-a)", "(a + b)", "(b - c)", "0", "2"])

    def use(self, t):
        return self.r.choice(self.vars[t]) if self.vars[t] and self.r.random() < 0.6 else None

    def vec(self, d=1):
        r = self.r
        u = self.use("V")
        if d <= 0:
            return u or f"Vec2({self.num()}, {self.num()})"
        z = r.randrange(14)
        v = lambda: self.vec(d - 1)  # noqa: E731
        if z <= 2:
            return f"({v()} {r.choice('+-*')} {v()})"
        if z == 3:
            return r.choice([f"({v()} * {self.num()})", f"({self.num()} * {v()})", f"({v()} / {self.pos()})", f"(-{v()})"])
        if z == 4:
            return f"{v()}.rotate({self.ang()})"
        if z == 5:
            return f"{v()}.rotate_about({self.ang()}, {v()})"
        if z == 6:
            return f"{v()}.orthogonal()"
        if z == 7:
            return r.choice([f"Vec2.unit({self.ang()})", "Vec2.up()", "Vec2.down()", "Vec2.left()", "Vec2.right()", "Vec2.one()", "Vec2.zero()"])
        if z == 8:
            return f"{v()}.{r.choice(['normalize_or_zero', 'normalize'])}()"
        if z == 9:
            return f"{r.choice(['lerp', 'lerp'])}({v()}, {v()}, {self.num()})"
        if z <= 11:
            q = self.quad(0) if r.random() < 0.6 else self.rect(0)
            return f"{q}.{r.choice(['center', 'mt', 'mr', 'mb', 'ml', *CORNERS])}"
        return u or f"Vec2({self.num()}, {self.num()})"

    def fac(self):
        return f"Vec2({self.pos()}, {self.pos()})"

    def quad(self, d=1):
        r = self.r
        u = self.use("Q")
        if d <= 0:
            if u:
                return u
            return f"Quad({', '.join(f'{n}={self.vec(0)}' for n in CORNERS)})" if r.random() < 0.6 else f"{self.rect(0)}.as_quad()"
        q = self.quad(d - 1)
        z = r.randrange(10)
        if z == 0:
            return f"{q}.translate({self.vec(d - 1)})"
        if z == 1:
            return f"{q}.scale({self.vec(0)})"
        if z == 2:
            return f"{q}.scale_about({self.vec(0)}, {r.choice(['', 'pivot='])}{self.vec(d - 1)})"
        if z == 3:
            return f"{q}.scale_centered({self.vec(0)})"
        if z == 4:
            return f"{q}.rotate({self.ang()})"
        if z == 5:
            return f"{q}.rotate_about({self.ang()}, {r.choice(['', 'pivot='])}{self.vec(0)})"
        if z == 6:
            return f"{q}.rotate_centered({self.ang()})"
        if z <= 8:
            return f"{q}.permute({r.choice(['', '1', '2', '3', '0', '-1', 'k', '-k', 'k + 2', '-2', '5'])})"
        return r.choice([f"Quad.from_quad({self.rect(0)})", f"{self.rect(d - 1)}.as_quad()", "Quad.zero()"])

    def rect(self, d=1):
        r = self.r
        u = self.use("R")
        if d <= 0:
            if u:
                return u
            z = r.randrange(4)
            if z == 0:
                return f"Rect.from_center({self.vec(0)}, {self.vec(0)})"
            if z == 1:
                return f"Rect.from_margin({', '.join(self.num() for _ in range(r.choice([1, 2, 3, 4])))})"
            if z == 2:
                return f"Rect({self.num()}, {self.num()}, {self.num()}, {self.num()})"
            return f"Rect(l={self.num()}, b={self.num()}, t={self.num()}, r={self.num()})"
        q = self.rect(d - 1)
        z = r.randrange(6)
        if z == 0:
            return f"{q}.translate({self.vec(d - 1)})"
        if z == 1:
            return f"{q}.scale({self.vec(0)})"
        if z == 2:
            return f"{q}.scale_about({self.vec(0)}, {self.vec(d - 1)})"
        if z == 3:
            return f"{q}.scale_centered({self.vec(0)})"
        return f"{q}.{r.choice(['expand', 'shrink'])}({self.vec(0)})"

    def step(self, inv):
        r = self.r
        z = r.randrange(16)
        if z <= 2:
            return f"translate({self.vec(0)})"
        if z <= 4:
            return f"scale({self.fac()})"
        if z == 5:
            return f"scale_about({self.fac()}, {self.vec(0)})"
        if z <= 7:
            return f"rotate({self.ang()})"
        if z == 8:
            return f"rotate_about({self.ang()}, pivot={self.vec(0)})"
        if z <= 10:
            return f"shear_{r.choice('xy')}({self.num()})"
        if z == 11:
            return f"simple_perspective_{r.choice('xy')}({self.pos()})"
        if z <= 13:
            x = "" if inv or r.random() < 0.5 else "inverse_"
            return f"{x}perspective_{r.choice('xy')}({r.choice(['0', 'e', '1', '(-1)', 'd'])}, Vec2({self.num()}, {self.num()}))"
        if z == 14:
            return "normalize()"
        t = "I" if inv else "T"
        u = self.use(t)
        if u is None:
            return f"translate({self.vec(0)})"
        return f"{r.choice(['compose', 'compose_before'])}({u})"

    def tf(self, inv):
        base = self.use("I" if inv else "T") or ("InvertibleTransform2d" if inv else "Transform2d") + ".new()"
        for _ in range(self.r.choice([1, 1, 2, 2, 3])):
            base += "." + self.step(inv)
        return base

    def bind(self, t, e):
        n = self.name(t)
        self.w(f"{n} = {e}")
        self.vars[t].append(n)
        return n

    def logv(self, e):
        n = self.name("o")
        self.w(f"{n} = {e}")
        self.w(f"log({n}.x)")
        self.w(f"log({n}.y)")

    def logq(self, e):
        n = self.name("o")
        self.w(f"{n} = {e}")
        for c in CORNERS:
            self.w(f"log({n}.{c}.x)")
            self.w(f"log({n}.{c}.y)")

    def main(self):
        r = self.r
        for k, v in enumerate("abcdek"):
            self.w(f"{v} = inp({k})")
        if r.random() < 0.5:
            self.bind("V", self.vec(r.choice([0, 1])))
        kind = r.randrange(12)
        if kind <= 2:
            for _ in range(r.choice([1, 2])):
                self.logv(self.vec(2))
            if r.random() < 0.3:
                self.w(f"log({r.choice([f'{self.vec(1)}.magnitude', f'{self.vec(1)}.angle', f'{self.vec(1)}.dot({self.vec(1)})', f'{self.vec(0)}.tuple[1]'])})")
        elif kind <= 4:
            if r.random() < 0.5:
                self.bind("Q", self.quad(0))
            self.logq(self.quad(r.choice([1, 2])))
        elif kind == 5:
            if r.random() < 0.5:
                self.bind("R", self.rect(0))
            q = self.bind("R", self.rect(r.choice([1, 2])))
            for c in r.sample(["t", "r", "b", "l", "w", "h", "center.x", "mt.y", "mr.x", "mb.y", "ml.x", "bl.x", "tr.y", "center.y"], 6):
                self.w(f"log({q}.{c})")
        elif kind == 6:
            p = self.vec(0)
            e = r.choice([f"{self.rect(1)}.contains_point({p})", f"{self.quad(0)}.contains_point({p})"])
            if r.random() < 0.3:
                vs = [self.vec(0) for _ in range(r.choice([3, 4]))]
                e = f"pnpoly({r.choice(['', 'Array'])}({', '.join(vs)}), {p})"
            self.w(f"log(1 if {e} else 0)")
        elif kind == 7:
            z = r.randrange(3)
            if z == 0:
                self.w(f"log({r.choice(['angle_diff', 'signed_angle_diff'])}({self.num()}, {self.num()}))")
            else:
                self.w(f"log(perspective_approach({r.choice(['e', '2', '0.5', '1', 'e / 2'])}, {self.num()}))")
        else:
            inv = kind >= 10
            t = "I" if inv else "T"
            for _ in range(r.choice([1, 1, 2])):
                self.bind(t, self.tf(inv))
            x = r.choice(self.vars[t])
            z = r.random()
            if inv and z < 0.35:
                self.logv(f"{x}.inverse_transform_vec({x}.transform_vec({self.vec(0)}))")
            elif inv and z < 0.7:
                self.logv(f"{x}.inverse_transform_vec({self.vec(0)})")
            elif z < 0.85:
                self.logv(f"{x}.transform_vec({self.vec(0)})")
            elif inv and z < 0.92:
                self.logq(f"{x}.inverse_transform_quad({self.quad(0)})")
            else:
                self.logq(f"{x}.transform_quad({r.choice([self.quad(0), self.rect(0)])})")
        if self.vars["V"] and r.random() < 0.3:
            self.logv(self.vars["V"][0])
        return "def main():\n" + "\n".join("    " + x for x in self.lines) + "\n"


def geometry(seed):
    src = Geom(seed).main()
    rng = (-4, 4, False)
    return fe.Prog(src, [rng, rng, rng, rng, (1, 4, False), (-5, 6, True)], real=real_ns, oracle=oracle_ns)
