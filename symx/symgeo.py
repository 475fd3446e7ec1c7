"""Stand-ins for the shapely constructors and transforms used by the code under test, for symbolic coordinates.
Concrete arguments go to shapely itself. What has no stand-in ends the path as undecided, never as a verdict."""
from __future__ import annotations

import contextlib
from fractions import Fraction

import shapely
import shapely.affinity
import shapely.geometry as sg
import shapely.ops

import z3

from symx import core, mathx
from symx.core import has_sym, is_sym


class Coords(list):
    """coordinate sequence"""

    @property
    def xy(self):
        return [p[0] for p in self], [p[1] for p in self]


class SymGeo:
    is_valid = True
    is_empty = False
    kind = "geometry"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise core.EngineLimit(f"shapely {self.kind}.{n} on symbolic coordinates")

    def bool_of(self):
        return True


class SPoint(SymGeo):
    kind = "Point"

    def __init__(self, x, y):
        self.x, self.y = x, y
        self.coords = Coords([(x, y)])

    @property
    def xy(self):
        return [self.x], [self.y]

    @property
    def centroid(self):
        return self

    def buffer(self, r, *a, **k):
        return SDisc(self, r)

    def distance(self, o):
        if isinstance(o, (SPoint, sg.Point)):
            return mathx.hypot(self.x - o.x, self.y - o.y)
        raise core.EngineLimit("distance to " + type(o).__name__)


class SDisc(SymGeo):
    """buffer of a point, up to the resolution of its approximation"""

    kind = "Disc"

    def __init__(self, centre, r):
        self.centroid, self.r = centre, r

    @property
    def bounds(self):
        c, r = self.centroid, self.r
        return c.x - r, c.y - r, c.x + r, c.y + r


def _xy(p):
    if not isinstance(p, (SPoint, sg.Point)):
        raise core.EngineLimit("containment of " + type(p).__name__)
    return p.x, p.y


class SCapsule(SymGeo):
    """buffer of a segment, up to the resolution of its approximation"""

    kind = "Capsule"

    def __init__(self, a, b, r):
        self.a, self.b, self.r = a, b, r

    @property
    def centroid(self):
        return SPoint((self.a[0] + self.b[0]) / 2, (self.a[1] + self.b[1]) / 2)

    def contains(self, p):
        x, y = _xy(p)
        (ax, ay), (bx, by) = self.a, self.b
        ux, uy, wx, wy = bx - ax, by - ay, x - ax, y - ay
        along, r2 = ux * wx + uy * wy, self.r * self.r
        if along <= 0:
            return bool(wx * wx + wy * wy < r2)
        l2 = ux * ux + uy * uy
        if along >= l2:
            return bool((x - bx) * (x - bx) + (y - by) * (y - by) < r2)
        cr = ux * wy - uy * wx
        return bool(cr * cr < r2 * l2)


class SLine(SymGeo):
    kind = "LineString"

    def __init__(self, pts):
        self.coords = Coords([tuple(p) for p in pts])

    @property
    def xy(self):
        return self.coords.xy

    @property
    def length(self):
        return sum((mathx.hypot(a[0] - b[0], a[1] - b[1]) for a, b in zip(self.coords[1:], self.coords)), 0.0)

    def interpolate(self, d, normalized=False):
        if len(self.coords) != 2 or not normalized:
            raise core.EngineLimit("interpolate along a symbolic line")
        (a, b), (c, e) = self.coords
        return SPoint(a + d * (c - a), b + d * (e - b))

    def buffer(self, r, *a, **k):
        if len(self.coords) != 2 or a or k:
            raise core.EngineLimit("buffer of a symbolic line")
        return SCapsule(*self.coords, r)

    @property
    def centroid(self):
        if len(self.coords) != 2:
            raise core.EngineLimit("centroid of a symbolic line")
        return self.interpolate(0.5, True)


class SPoly(SymGeo):
    kind = "Polygon"

    def __init__(self, pts, centroid=None):
        pts = [tuple(p)[:2] for p in pts]
        if not same_point(pts[0], pts[-1]):
            pts.append(pts[0])
        self._pts, self._cen = Coords(pts), centroid

    @property
    def exterior(self):
        return SLine(self._pts)

    @property
    def interiors(self):
        return []

    @property
    def centroid(self):
        if self._cen is None:
            a = cx = cy = 0.0
            for (x0, y0), (x1, y1) in zip(self._pts, self._pts[1:]):
                w = x0 * y1 - x1 * y0
                a, cx, cy = a + w, cx + (x0 + x1) * w, cy + (y0 + y1) * w
            self._cen = (cx / (3 * a), cy / (3 * a))
        return SPoint(*self._cen)

    def contains(self, p):
        """of a point, for convex outlines"""
        x, y = _xy(p)
        if len(self._pts) > 4:
            turn = None
            n = len(self._pts) - 1
            for i in range(n):
                (x0, y0), (x1, y1), (x2, y2) = (self._pts[(i + k) % n] for k in range(3))
                left = bool((x1 - x0) * (y2 - y1) - (y1 - y0) * (x2 - x1) > 0)
                if turn is not None and left != turn:
                    raise core.EngineLimit("containment in an outline that is not convex")
                turn = left
        side = None
        for (x0, y0), (x1, y1) in zip(self._pts, self._pts[1:]):
            c = (x1 - x0) * (y - y0) - (y1 - y0) * (x - x0)
            if side is None:
                side = bool(c > 0)
                if not side and not bool(c < 0):
                    return False
            elif not bool(c > 0 if side else c < 0):
                return False
        return True

    def distance(self, o):
        return distance(self, o)

    def intersects(self, o):
        p, q = closest(self, o)
        return bool(p.x == q.x) and bool(p.y == q.y)

    @property
    def area(self):
        a = 0.0
        for (x0, y0), (x1, y1) in zip(self._pts, self._pts[1:]):
            a = a + (x0 * y1 - x1 * y0)
        return abs(a) / 2


def box_of(g):
    """(x0, x1, y0, y1) of an outline that is an axis-parallel rectangle syntactically"""
    ring = list(g.exterior.coords)[:-1]
    if len(ring) != 4:
        raise core.EngineLimit("distance of outlines other than boxes")

    def eq(a, b):
        """the same, up to the rounding of a heading along an axis"""
        if same_point((a,), (b,)):
            return True
        if not (is_sym(a) or is_sym(b)):
            return abs(a - b) < 1e-9
        d = z3.simplify(core.zr(a) - core.zr(b), som=True)
        return z3.is_rational_value(d) and abs(d.as_fraction()) < Fraction(1, 10**9)

    for k in (0, 1):
        if all(eq(ring[i][(k + i) % 2], ring[(i + 1) % 4][(k + i) % 2]) for i in range(4)):
            x, y = sorted2(ring[0][0], ring[2][0]), sorted2(ring[0][1], ring[2][1])
            return (*x, *y)
    raise core.EngineLimit("distance of outlines other than boxes")


def sorted2(a, b):
    return (a, b) if a <= b else (b, a)


def _apart(a0, a1, b0, b1):
    """closest coordinates of two intervals"""
    if a1 < b0:
        return a1, b0
    if b1 < a0:
        return a0, b1
    c = b0 if a0 < b0 else a0
    return c, c


def closest(a, b):
    """closest points of two shapes"""
    if HOOK is not None:
        return HOOK(a, b)
    p, q = box_of(a), box_of(b)
    x, y = _apart(*p[:2], *q[:2]), _apart(*p[2:], *q[2:])
    return SPoint(x[0], y[0]), SPoint(x[1], y[1])


HOOK = None


def nearest_points(a, b):
    if not isinstance(a, SymGeo) and not isinstance(b, SymGeo):
        return shapely.ops.nearest_points(a, b)
    return closest(a, b)


def distance(a, b, **k):
    if not isinstance(a, SymGeo) and not isinstance(b, SymGeo):
        return shapely.distance(a, b, **k)
    if not isinstance(a, (SPoint, sg.Point)) or not isinstance(b, (SPoint, sg.Point)):
        a, b = closest(a, b)
    return mathx.hypot(a.x - b.x, a.y - b.y)


def translate(g, xoff=0.0, yoff=0.0, zoff=0.0):
    if not isinstance(g, SymGeo) and not is_sym(xoff) and not is_sym(yoff):
        return shapely.affinity.translate(g, xoff, yoff, zoff)
    return affine_transform(g, [1.0, 0.0, 0.0, 1.0, xoff, yoff])


def same_point(p, q):
    """syntactically the same coordinates"""
    for a, b in zip(p, q):
        if a is b:
            continue
        if is_sym(a) != is_sym(b) or (not is_sym(a) and a != b):
            return False
        if is_sym(a) and not core.zr(a).eq(core.zr(b)):
            return False
    return True


def _pts(a):
    if isinstance(a, (SLine, SPoly)):
        return list(a.coords if isinstance(a, SLine) else a.exterior.coords)
    out = []
    for p in a:
        if isinstance(p, (SPoint, sg.Point)):
            p = (p.x, p.y)
        out.append((p[0], p[1]))
    return out


def _symbolic(pts):
    return any(is_sym(c) for p in pts for c in p)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (cls._real, cls._sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)

    def __or__(cls, o):
        return cls._real

    def __ror__(cls, o):
        return cls._real

    def __call__(cls, *a, **k):
        if cls._sym is SPoint:
            if len(a) == 1:
                p = a[0]
                p = (p.x, p.y) if isinstance(p, (SPoint, sg.Point)) else tuple(p)
                if len(p) and hasattr(p[0], "__len__"):
                    p = tuple(p[0])
            else:
                p = a
            return SPoint(p[0], p[1]) if any(is_sym(c) for c in p) else sg.Point(*a, **k)
        if a and not isinstance(a[0], sg.base.BaseGeometry):
            try:
                pts = _pts(a[0])
            except (TypeError, IndexError):
                return cls._real(*a, **k)
            if _symbolic(pts):
                return cls._sym(pts)
        return cls._real(*a, **k)


class PolygonShim(metaclass=_Meta):
    _real, _sym = sg.Polygon, SPoly


class LineStringShim(metaclass=_Meta):
    _real, _sym = sg.LineString, SLine


class PointShim(metaclass=_Meta):
    _real, _sym = sg.Point, SPoint


def affine_transform(g, m):
    if not isinstance(g, SymGeo) and not any(is_sym(c) for c in m):
        return shapely.affinity.affine_transform(g, m)
    if len(m) != 6:
        raise core.EngineLimit("3d affine transform")
    a, b, d, e, xo, yo = m
    f = lambda p: (a * p[0] + b * p[1] + xo, d * p[0] + e * p[1] + yo)
    if isinstance(g, (SPoint, sg.Point)):
        return SPoint(*f((g.x, g.y)))
    if isinstance(g, (SPoly, sg.Polygon)):
        c = g.centroid
        ring = [f(p) for p in list(g.exterior.coords)[:-1]]
        return SPoly(ring + ring[:1], f((c.x, c.y)))
    if isinstance(g, (SLine, sg.LineString)):
        return SLine([f(p) for p in g.coords])
    raise core.EngineLimit("affine transform of " + type(g).__name__)


@contextlib.contextmanager
def symgeo(ctx):
    """in symbolic mode, shapely's Polygon, LineString, Point and affine_transform accept symbolic coordinates"""
    from symx.shims import replaced

    if not ctx.symbolic:
        yield
        return
    with replaced(sg.Polygon, PolygonShim, home=False), replaced(sg.LineString, LineStringShim, home=False), \
            replaced(sg.Point, PointShim, home=False), replaced(shapely.affinity.affine_transform, affine_transform, home=False), \
            replaced(shapely.ops.nearest_points, nearest_points, home=False), replaced(shapely.distance, distance, home=False), replaced(shapely.affinity.translate, translate, home=False):
        yield


def make(ctx, kind, pts):
    """a shape for a harness, symbolic when needed"""
    shim = {"polygon": PolygonShim, "line": LineStringShim, "point": PointShim}[kind]
    return (shim if ctx.symbolic else shim._real)(pts[0] if kind == "point" else pts)
