"""Lanes: length, progress, centre line, width and the pose in a lane."""
import math
from types import SimpleNamespace

import numpy as np
import scipy.optimize

from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from harness.util import F, cos, sin, sqrt
from symx.engine import H
from symx.shims import replaced

META = {
    "id": "C19",
    "title": "Lane coordinates are metric, invertible and consistent with the lane geometry",
    "statement": "Progress along a lane is measured in metres of its centre line, before and beyond its ends as well, and converts to the centre line parameter and back without loss. The centre line passes through the control points with their headings, the half width is interpolated between them, and the lane outline lies at the half width on either side. The pose in a lane reports progress, signed lateral offset (left positive) and heading relative to the lane, and its inside, outside, before, after, direction and boundary distance entries follow from these; lanes built from boundary vertices get the boundary distance as width and a heading across the boundary pair.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic segment lengths, positions, headings and half widths of straight lanes with 2 to 4 control points (progress conversion: any lane, by segment lengths), all progress values from 5 before to 5 beyond the lane, all positions beside the lane, all boundary vertices; the scalar minimiser is assumed to find the closest point"},
    "why_tests_cant": "tests draw lanes of one map and compare a fast and a slow centre point at samples inside it; they check no progress value, none outside the lane, and no lane pose entry",
    "anchors": {"files": ["src/dg_commons/maps/lanes.py"],
                "mechanism": [{"name": "progress conversion", "where": "src/dg_commons/maps/lanes.py along_lane_from_beta, beta_from_along_lane"},
                              {"name": "centre line", "where": "src/dg_commons/maps/lanes.py center_point, center_point_fast_SE2Transform, radius, lane_profile"},
                              {"name": "pose in a lane", "where": "src/dg_commons/maps/lanes.py lane_pose, lane_pose_from_SE2_generic, is_inside_from_T2value"}]},
}
ASSUMPTIONS = ["segments between 0.25 and 10 m, half widths between 0.5 and 4 m, straight lanes except for the interpolated heading of the fast centre line",
               "scipy's minimize_scalar is replaced by its specification (it returns the parameter of the closest centre line point); concrete replays use the real one and allow its tolerance"]


def _lane(ctx, n, heading="angle"):
    """a straight lane: (lane, origin, heading, cumulative lengths, half widths)"""
    o = ctx.reals("o", 2, -10, 10)
    th = ctx.angle("theta", -3.0, 3.0) if heading == "angle" else heading
    c, s = cos(th), sin(th)
    at, rs, pts = [0.0], [ctx.real("r0", 0.5, 4)], []
    for i in range(n - 1):
        at.append(at[-1] + ctx.real(f"len{i}", 0.25, 10))
        rs.append(ctx.real(f"r{i + 1}", 0.5, 4))
    for a, r in zip(at, rs):
        pts.append(LaneCtrPoint(SE2Transform([o[0] + a * c, o[1] + a * s], th), r))
    return DgLanelet(pts), o, th, at, rs


def _along(ctx, n, at, beta):
    """progress of a centre line parameter: one unit per segment inside, 0.1 m per unit outside (see center_point)"""
    out = ctx.ite(beta < 0, 0.1 * beta, at[-1] + 0.1 * (beta - (n - 1)))
    for i in range(n - 1):
        out = ctx.ite(ctx.and_(beta >= i, beta < i + 1), at[i] + (beta - i) * (at[i + 1] - at[i]), out)
    return out


def lengths(ctx, n):
    lane, o, th, at, rs = _lane(ctx, n)
    got = lane.get_lane_lengths()
    ctx.true(len(got) == n - 1, "one length per segment")
    for i in range(n - 1):
        ctx.eq(got[i], at[i + 1] - at[i], "segment length")
    ctx.eq(lane.get_lane_length(), sum(got), "lane length")


def progress(ctx, n):
    """progress is the metric distance of the centre point from the lane start, and invertible"""
    lane, o, th, at, rs = _lane(ctx, n, heading=0.0)
    b = ctx.real("beta", -50, n + 49)
    a = lane.along_lane_from_beta(b)
    q = lane.center_point(b)
    ctx.eq(q[0, 2] - o[0], a, "progress is the distance along the centre line")
    ctx.eq(q[1, 2], o[1], "centre point on the centre line")
    ctx.eq(lane.beta_from_along_lane(a), b, "conversion back", tol=1e-4)


def inverse(ctx, n):
    lane, o, th, at, rs = _lane(ctx, n, heading=0.0)
    x = ctx.real("along", -5, 10 * (n - 1) + 5)
    b = lane.beta_from_along_lane(x)
    ctx.eq(lane.along_lane_from_beta(b), x, "progress survives the conversion", tol=1e-4)
    q = lane.center_point(b)
    ctx.eq(q[0, 2] - o[0], x, "centre point at that distance", tol=1e-4)
    y = ctx.real("along2", -5, 10 * (n - 1) + 5)
    ctx.assume(y - x >= 0.001)
    ctx.true(ctx.cond(lane.beta_from_along_lane(y) > b), "further along is a larger parameter")


def centre(ctx, n, fast):
    lane, o, th, at, rs = _lane(ctx, n)
    b = ctx.real("beta", -20, n + 19)
    want = _along(ctx, n, at, b)
    q = lane.center_point_fast_SE2Transform(b).as_SE2() if fast else lane.center_point(b)
    ctx.eq(q[0, 2], o[0] + want * cos(th), "centre x")
    ctx.eq(q[1, 2], o[1] + want * sin(th), "centre y")
    ctx.eq(q[0, 0], cos(th), "centre heading (cos)")
    ctx.eq(q[1, 0], sin(th), "centre heading (sin)")
    ctx.eq(q[0, 1], -sin(th), "proper rotation")
    r = lane.radius(b)
    wr = ctx.ite(b < 0, rs[0], rs[-1])
    for i in range(n - 1):
        wr = ctx.ite(ctx.and_(b >= i, b < i + 1), rs[i] + (b - i) * (rs[i + 1] - rs[i]), wr)
    ctx.eq(r, wr, "half width")


def turning(ctx, h0, h1):
    """interpolated heading between two control points of different headings (the short way round)"""
    p = ctx.reals("p", 4, -10, 10)
    lane = DgLanelet([LaneCtrPoint(SE2Transform(p[:2], h0), 1.0), LaneCtrPoint(SE2Transform(p[2:], h1), 1.0)])
    b = ctx.real("beta", 0, 1)
    q = lane.center_point_fast_SE2Transform(b)
    ctx.eq(q.p[0], p[0] + b * (p[2] - p[0]), "x")
    ctx.eq(q.p[1], p[1] + b * (p[3] - p[1]), "y")
    d = math.atan2(math.sin(h1 - h0), math.cos(h1 - h0))
    want = h0 + b * d
    diff = q.theta - want
    two = 2 * math.pi
    ctx.true(ctx.or_(*[ctx.and_(diff - k * two <= 1e-6, diff - k * two >= -1e-6) for k in (-1, 0, 1)]), "heading turns the short way")


def pose(ctx, n):
    """entries of the lane pose"""
    lane, o, th, at, rs = _lane(ctx, n, heading=0.0)
    L = at[-1]
    x, lat, rel = ctx.real("along", -5, 10 * (n - 1) + 5), ctx.real("lateral", -8, 8), ctx.real("rel", -3.1, 3.1)
    lp = lane.lane_pose(along_lane=x, relative_heading=rel, lateral=lat)
    r = lane.radius(lane.beta_from_along_lane(x))
    ctx.seq_eq([lp.along_lane, lp.lateral, lp.relative_heading], [x, lat, rel], "coordinates")
    ctx.eq(lp.lateral_left, r, "left boundary")
    ctx.eq(lp.lateral_right, -r, "right boundary")
    ctx.eq(lp.distance_from_left, abs(r - lat), "distance to the left boundary")
    ctx.eq(lp.distance_from_right, abs(lat + r), "distance to the right boundary")
    ctx.eq(lp.distance_from_center, abs(lat), "distance to the centre")
    if n == 2:
        ctx.eq(lp.center_point.p[0], o[0] + x, "anchor point x", tol=1e-4)
    ctx.eq(lp.center_point.p[1], o[1], "anchor point y", tol=1e-4)
    # away from the boundaries by more than rounding
    away = lambda v: ctx.or_(v > 1e-6, v < -1e-6)
    ctx.assume(ctx.and_(away(lat - r), away(lat + r), away(x), away(x - L), away(abs(rel) - math.pi / 2)))
    ctx.true(bool(lp.outside_left) == ctx.cond(lat > r), "outside left")
    ctx.true(bool(lp.outside_right) == ctx.cond(lat < -r), "outside right")
    ctx.true(bool(lp.lateral_inside) == ctx.cond(abs(lat) < r), "laterally inside")
    ctx.true(bool(lp.along_before) == ctx.cond(x < 0), "before the lane")
    ctx.true(bool(lp.along_after) == ctx.cond(x > L), "after the lane")
    ctx.true(bool(lp.along_inside) == ctx.cond(ctx.and_(x > 0, x < L)), "along the lane")
    ctx.true(bool(lp.inside) == ctx.cond(ctx.and_(x > 0, x < L, abs(lat) < r)), "inside the lane")
    ctx.true(bool(lp.correct_direction) == ctx.cond(abs(rel) < math.pi / 2), "driving direction")


class Closest:
    """specification of the minimiser for a straight lane"""

    def __init__(self, ctx, beta):
        self.ctx, self.beta, self.fun, self.brackets = ctx, beta, None, []

    def __call__(self, fun, bracket=None, tol=None, **k):
        self.fun = fun
        self.brackets.append(bracket)
        return SimpleNamespace(x=self.beta, fun=fun(self.beta), success=True)


def beside(ctx, n, heading):
    """a point beside the lane, found through the closest centre line point"""
    lane, o, th, at, rs = _lane(ctx, n, heading=heading)
    b = ctx.real("beta", 0.03125, n - 1 - 0.03125)
    lat, rel = ctx.real("lateral", -6, 6), ctx.angle("rel", -1.5, 1.5)
    x = _along(ctx, n, at, b)
    c, s = cos(th), sin(th)
    px, py = o[0] + x * c - lat * s, o[1] + x * s + lat * c
    tol = 1e-4 if ctx.symbolic else 0.4  # accuracy of the real minimiser
    mini = Closest(ctx, b)
    ch, sh = c * cos(rel) - s * sin(rel), s * cos(rel) + c * sin(rel)
    q = np.array([[ch, -sh, px], [sh, ch, py], [0.0, 0.0, 1.0]])
    p = np.array([px, py])

    def run():
        lp = lane.lane_pose_from_SE2_generic(q)
        return lp, lane.is_inside_from_T2value(p), lane.along_lane_from_T2value(p), lane.along_lane_from_T2value(p, fast=True)

    if ctx.symbolic:
        with replaced(scipy.optimize.minimize_scalar, mini):
            lp, ins, al, alf = run()
        ctx.eq(mini.fun(b), lat * lat, "minimises the squared distance", tol=1e-4)
        b2 = ctx.real("beta2", -5, n + 4)
        x2 = _along(ctx, n, at, b2)
        ctx.eq(mini.fun(b2), lat * lat + (x - x2) * (x - x2), "minimises the squared distance everywhere", tol=1e-4)
    else:
        lp, ins, al, alf = run()
    ctx.eq(lp.along_lane, x, "progress", tol)
    ctx.eq(al, x, "progress of a position", tol)
    ctx.eq(alf, x, "progress of a position (fast)", tol)
    ctx.eq(lp.lateral, lat, "lateral offset, left positive", tol)
    ctx.eq(cos(lp.relative_heading), cos(rel), "relative heading (cos)", 1e-4)
    ctx.eq(sin(lp.relative_heading), sin(rel), "relative heading (sin)", 1e-4)
    r = lane.radius(b)
    ctx.assume(ctx.or_(abs(lat) < r - 0.125, abs(lat) > r + 0.125))
    ctx.true(bool(ins) == ctx.cond(abs(lat) < r), "inside when within the half width")
    ctx.true(bool(lp.inside) == ctx.cond(abs(lat) < r), "lane pose inside")


def outside(ctx, where):
    """positions before and beyond the lane are not inside it"""
    lane, o, th, at, rs = _lane(ctx, 2, heading=0.0)
    d, lat = ctx.real("d", 0.5, 4), ctx.real("lateral", -0.25, 0.25)
    x = -d if where == "before" else at[-1] + d
    p = np.array([o[0] + x, o[1] + lat])
    beta = -10.0 * d if where == "before" else 1.0 + 10.0 * d
    if ctx.symbolic:
        with replaced(scipy.optimize.minimize_scalar, Closest(ctx, beta)):
            ins, al = lane.is_inside_from_T2value(p), lane.along_lane_from_T2value(p)
    else:
        ins, al = lane.is_inside_from_T2value(p), lane.along_lane_from_T2value(p)
    ctx.true(not ins, "not inside")
    ctx.eq(al, x, "progress in metres beyond the ends", 1e-4 if ctx.symbolic else 0.4)


def vertices(ctx, n):
    left, right, cen = [], [], []
    for i in range(n):
        left.append(ctx.reals(f"l{i}_", 2, -10, 10))
        right.append(ctx.reals(f"r{i}_", 2, -10, 10))
        cen.append(ctx.reals(f"c{i}_", 2, -10, 10))
        w = [right[i][k] - left[i][k] for k in (0, 1)]
        ctx.assume(w[0] * w[0] + w[1] * w[1] >= 0.25)
    lane = DgLanelet.from_vertices(np.array(left), np.array(right), np.array(cen))
    cps = lane.get_control_points()
    ctx.true(len(cps) == n, "one control point per vertex triple")
    for i, cp in enumerate(cps):
        w = [right[i][k] - left[i][k] for k in (0, 1)]
        norm = sqrt(w[0] * w[0] + w[1] * w[1])
        ctx.eq(cp.r, norm / 2, "half width is half the boundary distance")
        ctx.seq_eq([cp.q.p[0], cp.q.p[1]], cen[i], "on the centre vertex")
        # left to right, turned left by 90 degrees, is the driving direction
        ctx.eq(cos(cp.q.theta) * norm, -w[1], "heading across the boundary pair (cos)", tol=1e-5)
        ctx.eq(sin(cp.q.theta) * norm, w[0], "heading across the boundary pair (sin)", tol=1e-5)


def profile(ctx, n, per):
    lane, o, th, at, rs = _lane(ctx, n)
    pts = lane.lane_profile(points_per_segment=per)
    num = (n - 1) * per
    ctx.true(len(pts) == 2 * num, "a right and a left point per sample")
    c, s = cos(th), sin(th)
    for i in range(num):
        b = i * (n - 1) / (num - 1)
        k = min(int(b), n - 2)
        x, r = at[k] + (b - k) * (at[k + 1] - at[k]), rs[k] + (b - k) * (rs[k + 1] - rs[k])
        for side, p in ((-1, pts[i]), (1, pts[2 * num - 1 - i])):
            ctx.eq(p[0], o[0] + x * c - side * r * s, "outline x")
            ctx.eq(p[1], o[1] + x * s + side * r * c, "outline y")


def two_lanes(ctx, same_ends):
    """a lane answers by its own geometry, whatever was asked of another lane before"""
    L = 10.0
    mids = [ctx.real("m0", 1, 9), ctx.real("m1", 1, 9)]
    rs = [ctx.real("r0", 0.5, 4), ctx.real("r1", 0.5, 4)]
    lanes = [DgLanelet([LaneCtrPoint(SE2Transform([0.0, 0.0], 0.0), 1.0), LaneCtrPoint(SE2Transform([m, 0.0], 0.0), r), LaneCtrPoint(SE2Transform([L + (0 if same_ends else i), 0.0], 0.0), 1.0)]) for i, (m, r) in enumerate(zip(mids, rs))]
    for _ in range(2):
        for i, (lane, m, r) in enumerate(zip(lanes, mids, rs)):
            end = L + (0 if same_ends else i)
            ctx.seq_eq(lane.get_lane_lengths(), [m, end - m], "own segment lengths")
            ctx.eq(lane.get_lane_length(), end, "own length")
            ctx.eq(lane.along_lane_from_beta(1.5), m + 0.5 * (end - m), "own progress")
            ctx.eq(lane.beta_from_along_lane(m), 1.0, "own parameter", tol=1e-4)
            pts = lane.lane_profile(points_per_segment=2)
            ctx.true(len(pts) == 8, "outline points")
            for b, p in ((2 / 3, pts[1]), (4 / 3, pts[2])):
                x, w = (m * b, 1 + (r - 1) * b) if b < 1 else (m + (end - m) * (b - 1), r + (1 - r) * (b - 1))
                ctx.eq(p[0], x, "own outline x")
                ctx.eq(p[1], -w, "own outline y")


HARNESSES = [H(lengths, name=f"lengths:{n}", n=n, budget=20) for n in (2, 4)]
HARNESSES += [H(progress, name=f"progress:{n}", n=n, budget=30) for n in (2, 3)] + [H(inverse, name=f"inverse:{n}", n=n, budget=30) for n in (2, 3)]
HARNESSES += [H(centre, name=f"centre line{' (fast)' if f else ''}:{n}", n=n, fast=f, budget=30) for n in (2, 3) for f in (False, True)]
HARNESSES += [H(turning, name=f"turning:{a},{b}", h0=a, h1=b, budget=10) for a, b in ((0.2, 0.5), (3.0, -3.0), (-2.9, 3.1), (1.0, -0.5))]
HARNESSES += [H(pose, name=f"pose:{n}", n=n, budget=60) for n in (2, 3)]
HARNESSES += [H(beside, name=f"beside:{n},{h}", n=n, heading=h, budget=60, thorough_budget=400) for n, h in ((2, 0.0), (2, 2.5), (3, 0.0))]
HARNESSES += [H(outside, name=f"outside:{w}", where=w, budget=20) for w in ("before", "beyond")]
HARNESSES += [H(vertices, name="vertices:2", n=2, budget=30), H(profile, name="profile:2", n=2, per=3, budget=30), H(profile, name="profile:3", n=3, per=2, budget=30)]
HARNESSES += [H(f, name=f"{f.__name__}:5", n=5, tier="thorough", thorough_budget=200) for f in (lengths, progress, inverse, pose)]
HARNESSES += [H(two_lanes, name=f"two lanes:{'same ends' if e else 'other ends'}", same_ends=e, budget=40) for e in (True, False)]
