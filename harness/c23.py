"""Rigid motions of the plane: poses, transforms of points and shapes, interpolation."""
import math

import numpy as np

import dg_commons.geo as geo
from dg_commons import SE2_apply_T2, SE2Transform, apply_SE2_to_shapely_geo, relative_pose
from dg_commons.geo import PoseState, SE2_interpolate, get_distance_SE2, norm_between_SE2value, sPolygon2crPolygon, transform_xy
from harness.util import cos, same_angle, sin, sqrt
from symx.engine import H
from symx.shims import replaced
from symx.symgeo import make, symgeo

META = {
    "id": "C23",
    "title": "Planar rigid motions compose, invert, interpolate and move shapes consistently",
    "statement": "A pose given as position and heading, as a matrix or as a pose state converts without loss; applying a pose to points, point lists and shapes rotates and shifts each coordinate the same way, preserving lengths and the order of vertices. A relative pose is what carries the base to the pose, independent of the frame both are given in. Interpolation runs from the first pose to the second along the constant twist turning the short way, and pose distance is the length of that arc.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic poses and points (headings within 3.1 rad of zero, relative headings within 3.0 rad, positions within 20 m); shapes of 2 to 5 vertices; interpolation at all parameters for equal headings, and at 0, 1/4, 1/2, 3/4, 1, 2 and -1 for all turning angles"},
    "why_tests_cant": "the tests cover no pose function; callers use them with a handful of axis-parallel poses",
    "anchors": {"files": ["src/dg_commons/geo.py"],
                "mechanism": [{"name": "poses", "where": "src/dg_commons/geo.py SE2Transform, relative_pose, norm_between_SE2value"},
                              {"name": "application", "where": "src/dg_commons/geo.py SE2_apply_T2, transform_xy, apply_SE2_to_shapely_geo"},
                              {"name": "interpolation", "where": "src/dg_commons/geo.py SE2_interpolate, get_distance_SE2"}]},
}
ASSUMPTIONS = ["the logarithm and exponential of the geometry package are executed symbolically; turning angles are zero or at least 0.02 rad (the package switches formula below 1e-8)"]


def _m(c, s, x, y):
    return np.array([[c, -s, x], [s, c, y], [0.0, 0.0, 1.0]])


def _pose(ctx, tag):
    x, y, th = ctx.real("x" + tag, -20, 20), ctx.real("y" + tag, -20, 20), ctx.angle("th" + tag, -3.1, 3.1)
    return x, y, th, cos(th), sin(th)


def _eqm(ctx, a, b, what, tol=1e-6):
    for i in range(3):
        for j in range(3):
            ctx.eq(a[i, j], b[i, j], f"{what} [{i},{j}]", tol)


def convert(ctx):
    x, y, th, c, s = _pose(ctx, "")
    t = SE2Transform([x, y], th)
    ctx.seq_eq([t.p[0], t.p[1], t.theta], [x, y, th], "position and heading")
    _eqm(ctx, t.as_SE2(), _m(c, s, x, y), "matrix")
    b = SE2Transform.from_SE2(t.as_SE2())
    ctx.seq_eq([b.p[0], b.p[1], b.theta], [x, y, th], "there and back")
    u = SE2Transform.from_PoseState(PoseState(x=x, y=y, psi=th))
    ctx.seq_eq([u.p[0], u.p[1], u.theta], [x, y, th], "from a pose state")
    i = SE2Transform.identity()
    ctx.seq_eq([i.p[0], i.p[1], i.theta], [0, 0, 0], "identity")
    _eqm(ctx, i.as_SE2(), np.eye(3), "identity")


def wrapped(ctx, turns):
    """headings beyond a half turn: the same pose"""
    x, y = ctx.real("x", -20, 20), ctx.real("y", -20, 20)
    th = ctx.angle("th", -3.0, 3.0)
    b = SE2Transform.from_SE2(SE2Transform([x, y], th + 2 * math.pi * turns).as_SE2())
    ctx.seq_eq([b.p[0], b.p[1]], [x, y], "position")
    ctx.eq(b.theta, th, "principal heading", tol=1e-5)


def apply(ctx, n):
    x, y, th, c, s = _pose(ctx, "")
    q = _m(c, s, x, y)
    pts = [tuple(ctx.reals(f"p{i}_", 2, -20, 20)) for i in range(n)]
    want = [(c * a - s * b + x, s * a + c * b + y) for a, b in pts]
    got = transform_xy(q, pts)
    ctx.true(len(got) == n, "every point once")
    for i in range(n):
        ctx.seq_eq(list(got[i]), list(want[i]), "rotated and shifted")
        r = SE2_apply_T2(q, np.array(pts[i]))
        ctx.true(len(r) == 2, "a planar point")
        ctx.seq_eq([r[0], r[1]], list(want[i]), "single point the same")
    a, b = got[0], got[-1]
    d2 = lambda p, r: (p[0] - r[0]) * (p[0] - r[0]) + (p[1] - r[1]) * (p[1] - r[1])
    ctx.eq(d2(a, b), d2(pts[0], pts[-1]), "lengths preserved", tol=1e-4)


def shapes(ctx, kind):
    x, y, th, c, s = _pose(ctx, "")
    q = _m(c, s, x, y)
    k = ctx.real("size", 0.5, 5)
    base = {"polygon": [(0.0, 0.0), (3.0 * k, 0.0), (4.0 * k, 2.0 * k), (1.0, 3.0 * k)], "line": [(0.0, 1.0), (2.0 * k, -1.0), (5.0, k)], "point": [(k, -2.0)]}[kind]
    with symgeo(ctx):
        g = make(ctx, kind, base)
        out = apply_SE2_to_shapely_geo(g, q)
        pts = list(out.exterior.coords) if kind == "polygon" else list(out.coords)
    ctx.true(len(pts) == len(base) + (kind == "polygon"), "same vertices")
    for (a, b), p in zip(base, pts):
        ctx.eq(p[0], c * a - s * b + x, "vertex x")
        ctx.eq(p[1], s * a + c * b + y, "vertex y")


def relative(ctx):
    xa, ya, ta, ca, sa = _pose(ctx, "a")
    d, b, h = ctx.real("dist", 0, 20), ctx.angle("bearing", -3.1, 3.1), ctx.angle("turn", -3.1, 3.1)
    r = _m(cos(h), sin(h), d * cos(b), d * sin(b))
    A = _m(ca, sa, xa, ya)
    B = A @ r
    rel = relative_pose(A, B)
    _eqm(ctx, rel, r, "carries the base to the pose")
    _eqm(ctx, A @ rel, B, "composes back", tol=1e-5)
    _eqm(ctx, relative_pose(A, A), np.eye(3), "of a pose to itself")
    ctx.eq(norm_between_SE2value(A, B), d, "distance of the positions")
    ctx.eq(norm_between_SE2value(B, A), d, "distance of the positions is symmetric")


def frame(ctx):
    """the same two poses seen from another frame"""
    W = _m(*(lambda p: (p[3], p[4], p[0], p[1]))(_pose(ctx, "w")))
    A = _m(*(lambda p: (p[3], p[4], p[0], p[1]))(_pose(ctx, "a")))
    B = _m(*(lambda p: (p[3], p[4], p[0], p[1]))(_pose(ctx, "b")))
    _eqm(ctx, relative_pose(W @ A, W @ B), relative_pose(A, B), "independent of the frame", tol=1e-5)


def _twist(ctx, sign):
    """two poses related by a turn of four times a base angle: (A, B, base angle, dist, bearing of the chord)"""
    x, y, th, c, s = _pose(ctx, "a")
    u = sign * ctx.angle("quarter", 0.005, 0.75)
    d, b = ctx.real("dist", 0.125, 20), ctx.angle("bearing", -3.1, 3.1)
    rel = _m(cos(4 * u), sin(4 * u), d * cos(b), d * sin(b))
    A = _m(c, s, x, y)
    return A, A @ rel, u, d, b


def interpolate(ctx, num, sign):
    """quarter steps of the twist: pose after num quarters"""
    A, B, u, d, b = _twist(ctx, sign)
    ctx.assume(ctx.or_(sin(2 * u) >= 0.0099, sin(2 * u) <= -0.0099))
    q = SE2_interpolate(A, B, num / 4)
    R = relative_pose(A, q)
    ctx.eq(R[0, 0], cos(num * u), "heading turns in proportion (cos)", tol=1e-5)
    ctx.eq(R[1, 0], sin(num * u), "heading turns in proportion (sin)", tol=1e-5)
    # chord of the arc: length d sin(num u / 2) / sin(2 u), bearing b - 2u + num u / 2; times 2 sin(2u), in products of whole angles:
    # 2 sin(n u/2) cos(b - 2u + n u/2) = sin(b - 2u + n u) - sin(b - 2u), and likewise for the sine
    e, f = b - 2 * u + num * u, b - 2 * u
    ctx.eq(R[0, 2] * 2 * sin(2 * u), d * (sin(e) - sin(f)), "along the arc (x)", tol=1e-4)
    ctx.eq(R[1, 2] * 2 * sin(2 * u), -d * (cos(e) - cos(f)), "along the arc (y)", tol=1e-4)
    ctx.eq(R[0, 1], -R[1, 0], "proper rotation", tol=1e-5)


def straight(ctx):
    """equal headings: positions in proportion, for any parameter"""
    x, y, th, c, s = _pose(ctx, "a")
    dx, dy, al = ctx.real("dx", -20, 20), ctx.real("dy", -20, 20), ctx.real("alpha", -2, 3)
    q = SE2_interpolate(_m(c, s, x, y), _m(c, s, x + dx, y + dy), al)
    _eqm(ctx, q, _m(c, s, x + al * dx, y + al * dy), "in proportion", tol=1e-4)


def distance(ctx, sign):
    A, B, u, d, b = _twist(ctx, sign)
    ctx.assume(ctx.or_(sin(2 * u) >= 0.0099, sin(2 * u) <= -0.0099))
    g = get_distance_SE2(A, B)
    # d^2 (2u)^2 / sin(2u)^2
    ctx.eq(g * g * sin(2 * u) * sin(2 * u), d * d * 4 * u * u, "length of the arc", tol=1e-3)
    ctx.ge(g, 0, "not negative")


def distance_straight(ctx):
    x, y, th, c, s = _pose(ctx, "a")
    d, b = ctx.real("dist", 0, 20), ctx.angle("bearing", -3.1, 3.1)
    A, B = _m(c, s, x, y), _m(c, s, x + d * cos(b), y + d * sin(b))
    ctx.eq(get_distance_SE2(A, B), d, "length of the straight line")
    ctx.eq(get_distance_SE2(A, A), 0, "zero to itself")


def vertices(ctx, closed):
    """shapes handed to the collision checker keep their vertices, each once"""
    pts = [(0.0, 0.0), (ctx.real("a", 1, 4), 0.0), (ctx.real("b", 1, 4), ctx.real("c", 1, 4)), (0.0, ctx.real("d", 1, 4))]
    got = []
    with symgeo(ctx), replaced(geo.CommonRoadPolygon, lambda vs, holes, *a: got.append((vs, holes)) or got):
        sPolygon2crPolygon(make(ctx, "polygon", pts + pts[:1] if closed else pts))
    vs, holes = got[0]
    ctx.true(len(vs) == 4 and len(holes) == 0, "each vertex once")
    for p, v in zip(pts, vs):
        ctx.seq_eq([v[0], v[1]], list(p), "vertices in order")


HARNESSES = [H(convert, budget=20)] + [H(wrapped, name=f"wrapped:{t}", turns=t, budget=20) for t in (-1, 1, 2)] + [H(apply, name=f"apply:{n}", n=n, budget=20) for n in (1, 3)]
HARNESSES += [H(shapes, name=f"shapes:{k}", kind=k, budget=20) for k in ("polygon", "line", "point")] + [H(relative, budget=30), H(frame, budget=30), H(straight, budget=30), H(distance_straight, budget=30)]
HARNESSES += [H(interpolate, name=f"interpolate:{k}/4,{'left' if s > 0 else 'right'}", num=k, sign=s, budget=60) for k in (0, 1, 2, 3, 4, 8, -4) for s in (1, -1)]
HARNESSES += [H(distance, name=f"distance:{'left' if s > 0 else 'right'}", sign=s, budget=60) for s in (1, -1)]
HARNESSES += [H(vertices, name=f"vertices:{c}", closed=c, budget=15) for c in (False, True)]
