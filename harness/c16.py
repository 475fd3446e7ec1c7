"""Contact point and contact normal of two overlapping bodies."""
from shapely.geometry import LineString, Polygon

from dg_commons.sim.collision_utils import CollisionException, compute_impact_geometry
from harness.util import cos, sin
from symx.engine import H
from symx.symgeo import SLine, SPoint, SPoly, same_point, symgeo

META = {
    "id": "C16",
    "title": "The contact normal is a unit vector across the overlap, pointing out of the body",
    "statement": "When two bodies overlap partially, the contact point is the middle of the two points where their boundaries cross, and the contact normal has unit length, is perpendicular to the line through those two points and points away from the first body's centre. When the second body lies wholly inside the first, the contact point is its centre and the normal points to it from the first body's centre. Bodies that only touch, that are concentric, or whose boundaries do not cross in exactly two points are reported as not resolvable instead of yielding some normal.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic positions of the two crossing points (distance 0.5 to 10) on either side, for five overlap shapes (corner of the second body in the first, of the first in the second, a wall through the first, a quadrilateral overlap, a body reaching around the first) and different extents, and all symbolic centres for containment"},
    "why_tests_cant": "tests run a handful of crashes and look at no normal; a normal pointing inwards, not normalised, or along the overlap still lets the simulation finish",
    "anchors": {"files": ["src/dg_commons/sim/collision_utils.py"],
                "mechanism": [{"name": "impact geometry", "where": "src/dg_commons/sim/collision_utils.py compute_impact_geometry, _find_intersection_points"}]},
}
ASSUMPTIONS = ["for symbolic coordinates the two shapes are stand-ins that know their corners, overlap and which overlap corners lie strictly inside (by construction of the scene); concrete replays use shapely on the same scene"]


class Disc:
    """a small disc around a point"""

    def __init__(self, centre):
        self.centre = centre


class Shape:
    """What shapely would answer about a shape of the scene."""

    inside, overlap, holds, touching = (), None, (), False

    def contains(self, o):
        if isinstance(o, (Disc, SPoint)):
            c = o.centre if isinstance(o, Disc) else (o.x, o.y)
            return any(same_point(c, p) for p in self.inside)
        return any(o is h for h in self.holds)

    covers = contains

    def touches(self, o):
        return self.touching

    def intersects(self, o):
        return True

    def intersection(self, o):
        return self.overlap


class Body(Shape, SPoly):
    pass


class Wall(Shape, SLine):
    pass


def _pt(p, d, a, b):
    """p + a * d + b * left(d)"""
    return p[0] + a * d[0] - b * d[1], p[1] + a * d[1] + b * d[0]


def _scene(ctx, shape, p1, p2, side):
    """two shapes whose boundaries cross exactly at p1 and p2; the first lies on the given side"""
    d = (p2[0] - p1[0], p2[1] - p1[1])
    at = lambda a, b: _pt(p1, d, a, side * b)
    ext = lambda apex: [apex] + [(apex[0] + 3 * (p[0] - apex[0]), apex[1] + 3 * (p[1] - apex[1])) for p in (p1, p2)]
    far, skew = ctx.choice("extent", [2.0, 6.0]), ctx.choice("skew", [0.0, 1.5])
    slab = [at(-1, 0), at(2, 0), at(2 + skew, far), at(-1 + skew, far)]
    if shape == "corner in first":
        apex = at(0.25, 0.5)
        A, B, over, ina, inb = slab, ext(apex), [p1, apex, p2], [apex], []
    elif shape == "corner in second":
        apex = at(0.75, -0.5)
        wall = [at(-1, 0), at(2, 0), at(2, -far), at(-1, -far)]
        A, B, over, ina, inb = ext(apex), wall, [p1, apex, p2], [], [apex]
    elif shape == "hook":
        # the second body reaches around the first, its centre lies behind the first one's
        q1, q2 = at(0, 0.5), at(1, 0.75)
        loc = [(0, 0.5), (1, 0.75), (1, -2), (-8, -2), (-8, 40), (-4, 40), (-4, -1), (0, -1)]
        A, B, over, ina, inb = slab, [at(*q) for q in loc], [p1, q1, q2, p2], [q1, q2], []
    elif shape == "edge in first":
        q1, q2 = at(0, 0.5), at(1, 0.75)
        A, B, over, ina, inb = slab, [q1, q2, at(1, -2), at(0, -2)], [p1, q1, q2, p2], [q1, q2], []
    else:  # a wall through a triangle
        apex = at(0.5, -0.5)
        A, B, over, ina, inb = ext(apex), [at(-1, 0), at(2, 0)], [p1, p2], [], []
    if not ctx.symbolic:
        f = lambda ps: [(float(x), float(y)) for x, y in ps]
        return Polygon(f(A)), (LineString(f(B)) if shape == "wall" else Polygon(f(B)))
    mean = lambda ps: (sum(p[0] for p in ps) / len(ps), sum(p[1] for p in ps) / len(ps))  # triangles and parallelograms
    cb = at(*Polygon(loc).centroid.coords[0]) if shape == "hook" else mean(B)
    a, b = Body(A, mean(A)), (Wall(B) if shape == "wall" else Body(B, cb))
    ov = SLine(over) if shape == "wall" else SPoly(over)
    a.overlap = b.overlap = ov
    a.inside, b.inside = ina, inb
    return a, b


def _run(ctx, a, b):
    """the impact geometry, with points that know how to be blown up to discs in symbolic mode"""
    if not ctx.symbolic:
        return compute_impact_geometry(a, b)
    import symx.symgeo as S

    old = S.SPoint.__dict__.get("buffer")
    S.SPoint.buffer = lambda self, r, *k, **kw: Disc((self.x, self.y))
    try:
        with symgeo(ctx):
            return compute_impact_geometry(a, b)
    finally:
        if old is None:
            del S.SPoint.buffer


def crossing(ctx, shape):
    p1, dist, th = tuple(ctx.reals("p", 2, -10, 10)), ctx.real("dist", 0.5, 10), ctx.angle("heading", -3.1, 3.1)
    d = (dist * cos(th), dist * sin(th))
    p2 = (p1[0] + d[0], p1[1] + d[1])
    side = ctx.choice("side", [1.0, -1.0])
    a, b = _scene(ctx, shape, p1, p2, side)
    n, pt = _run(ctx, a, b)
    n = [n[0], n[1]]
    px, py = pt.coords[0][0], pt.coords[0][1]
    ctx.eq(px, (p1[0] + p2[0]) / 2, "contact point x")
    ctx.eq(py, (p1[1] + p2[1]) / 2, "contact point y")
    ctx.eq(n[0] * n[0] + n[1] * n[1], 1.0, "unit normal")
    ctx.eq(n[0] * d[0] + n[1] * d[1], 0.0, "perpendicular to the crossing line")
    # the first body is on the given side (left of d for +1)
    out = side * (n[0] * d[1] - n[1] * d[0])
    ctx.ge(out, 0.4, "points away from the first body")


def contained(ctx):
    ca, off = ctx.reals("ca", 2, -10, 10), ctx.reals("off", 2, -1, 1)
    r = lambda c, h: [(c[0] - h, c[1] - h), (c[0] + h, c[1] - h), (c[0] + h, c[1] + h), (c[0] - h, c[1] + h)]
    cb = [ca[0] + off[0], ca[1] + off[1]]
    if ctx.symbolic:
        a, b = Body(r(ca, 3.0), tuple(ca)), Body(r(cb, 0.5), tuple(cb))
        a.holds, a.overlap, b.overlap = (b,), b, b
    else:
        a, b = Polygon(r(ca, 3.0)), Polygon(r(cb, 0.5))
    dd = off[0] * off[0] + off[1] * off[1]
    ctx.assume(dd >= 0.01)
    n, pt = _run(ctx, a, b)
    ctx.seq_eq([*pt.coords[0]], cb, "contact at the inner body's centre")
    ctx.eq(n[0] * n[0] + n[1] * n[1], 1.0, "unit normal")
    ctx.eq(n[0] * off[1] - n[1] * off[0], 0.0, "normal along the line of centres")
    ctx.ge(n[0] * off[0] + n[1] * off[1], 0.0, "normal towards the inner body")


def unresolvable(ctx, case):
    c = ctx.reals("c", 2, -10, 10)
    r = lambda w, h, x=0.0, y=0.0: [(c[0] + x - w, c[1] + y - h), (c[0] + x + w, c[1] + y - h), (c[0] + x + w, c[1] + y + h), (c[0] + x - w, c[1] + y + h)]
    A, B = {"touching": (r(1, 1), r(1, 1, 2.0)), "concentric": (r(2, 2), r(1, 1)), "four crossings": (r(1, 3), r(3, 1))}[case]
    if ctx.symbolic:
        a, b = Body(A, tuple(c) if case != "touching" else None), Body(B, tuple(c) if case != "touching" else None)
        if case == "touching":
            a.touching = b.touching = True
        elif case == "concentric":
            a.holds, a.overlap = (b,), b
        else:
            a.overlap = b.overlap = SPoly(r(1, 1))
    else:
        # shapely decides touching and concentricity exactly: keep the coordinates representable
        c[:] = [round(float(v)) for v in c]
        A, B = {"touching": (r(1, 1), r(1, 1, 2.0)), "concentric": (r(2, 2), r(1, 1)), "four crossings": (r(1, 3), r(3, 1))}[case]
        a, b = Polygon(A), Polygon(B)
    ctx.raises(lambda: _run(ctx, a, b), CollisionException, f"{case} is reported")


SHAPES = ("hook", "corner in first", "corner in second", "edge in first", "wall")
HARNESSES = [H(crossing, name=f"crossing:{s}", shape=s, budget=40, bounds="one pair of crossing points, 2 extents, 2 skews, both sides") for s in SHAPES]
HARNESSES += [H(contained, budget=30)] + [H(unresolvable, name=f"unresolvable:{c}", case=c, budget=15) for c in ("touching", "concentric", "four crossings")]
