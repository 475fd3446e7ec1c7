"""Planning goals: region, pose and lane goals."""
import math
from types import SimpleNamespace

import numpy as np
import scipy.optimize

from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons.sim.goals import PolygonGoal, PoseGoal, RefLaneGoal
from dg_commons.sim.models.vehicle import VehicleState
from harness.models import MODELS, STATES, RNG
from harness.util import cos, sin, state
from symx.engine import H
from symx.shims import replaced
from symx.symgeo import make, symgeo

META = {
    "id": "C24",
    "title": "A planning goal is reached exactly in the region it stands for",
    "statement": "A region goal is fulfilled exactly by states positioned inside its region, whatever the model, heading and speed; a pose goal exactly by poses within its tolerance, counting position and heading. A lane goal is fulfilled exactly by positions within one metre of the cross section of the lane at the goal progress in metres that have reached that progress, and a region goal made from a lane surrounds the cross section at the lane's end. The geometry a goal offers for plotting is that same region or pose.",
    "quantifier": {"over": ["inputs"], "text": "all positions, headings and speeds of the state of every simulation model; all symbolic rectangles and triangles; all goal poses and tolerances; straight lanes with two or three control points of symbolic lengths and half widths at two headings, all goal progress values and all positions around the goal"},
    "why_tests_cant": "goals appear in the tests only inside simulations that end anyway; lane and pose goals are never evaluated",
    "anchors": {"files": ["src/dg_commons/sim/goals.py"],
                "mechanism": [{"name": "region goal", "where": "src/dg_commons/sim/goals.py PolygonGoal"},
                              {"name": "pose goal", "where": "src/dg_commons/sim/goals.py PoseGoal"},
                              {"name": "lane goal", "where": "src/dg_commons/sim/goals.py RefLaneGoal, _polygon_at_along_lane"}]},
}
ASSUMPTIONS = ["shapely's containment test (convex outlines) and its buffer around a segment are replaced by exact stand-ins; positions keep a distance from region boundaries that exceeds shapely's resolution",
               "scipy's minimize_scalar is replaced by its specification for a straight lane (it returns the parameter of the closest centre line point); concrete replays use the real one"]


def _in(ctx, name, inside):
    return bool(name) == ctx.cond(inside)


def _convex(ctx, kind):
    """counter-clockwise outline and the signed area function of a point against each edge"""
    if kind == "rectangle":
        x, y, a, b = ctx.real("gx", -20, 20), ctx.real("gy", -20, 20), ctx.real("ga", 0.5, 5), ctx.real("gb", 0.5, 5)
        return [(x - a, y - b), (x + a, y - b), (x + a, y + b), (x - a, y + b)]
    p = [tuple(ctx.reals(f"g{i}_", 2, -10, 10)) for i in range(3)]
    ctx.assume((p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[1][1] - p[0][1]) * (p[2][0] - p[0][0]) >= 1)
    return p


def region(ctx, model, kind):
    pts = _convex(ctx, kind)
    cls, fields = STATES[MODELS[model][0]]
    st = state(ctx, cls, fields, rng=dict(RNG, x=(-30, 30), y=(-30, 30)))
    edges = [(q[0] - p[0]) * (st.y - p[1]) - (q[1] - p[1]) * (st.x - p[0]) for p, q in zip(pts, pts[1:] + pts[:1])]
    for e in edges:
        ctx.assume(ctx.or_(e >= 1 / 64, e <= -1 / 64))
    with symgeo(ctx):
        goal = PolygonGoal(make(ctx, "polygon", pts))
        ctx.true(_in(ctx, goal.is_fulfilled(st), ctx.and_(*[e > 0 for e in edges])), "fulfilled exactly inside the region")
        ctx.true(goal.get_plottable_geometry() is goal.goal, "plots its region")
    ctx.true(goal.is_static, "does not move")


def pose(ctx, heading):
    gx, gy, gt = ctx.real("gx", -10, 10), ctx.real("gy", -10, 10), (ctx.angle("gt", -3.1, 3.1) if heading is None else heading)
    d, b, rel = ctx.real("d", 0, 3), ctx.angle("bearing", -3.1, 3.1), ctx.angle("rel", -3.1, 3.1)
    tol = ctx.real("tol", 0.125, 2)
    st = VehicleState(x=gx + d * cos(b), y=gy + d * sin(b), psi=gt + rel, vx=ctx.real("vx", -3, 9), delta=ctx.real("delta", -1, 1))
    err = d * d + 4 * (1 - cos(rel))
    ctx.assume(ctx.or_(err >= tol * tol + 1e-4, err <= tol * tol - 1e-4))
    with symgeo(ctx):
        goal = PoseGoal(SE2Transform([gx, gy], gt), tol)
        got = bool(goal.is_fulfilled(st))
        ctx.true(got == ctx.cond(err < tol * tol), "fulfilled exactly within the tolerance in position and heading")
        ctx.true(ctx.implies(d > tol, not got), "never further away than the tolerance")


def pose_exact(ctx):
    gx, gy, gt = ctx.real("gx", -10, 10), ctx.real("gy", -10, 10), ctx.angle("gt", -3.1, 3.1)
    st = VehicleState(x=gx, y=gy, psi=gt, vx=0, delta=0)
    with symgeo(ctx):
        goal = PoseGoal(SE2Transform([gx, gy], gt), 1e-6)
        ctx.true(bool(goal.is_fulfilled(st)), "the goal pose itself fulfils it")
        off = VehicleState(x=gx + 0.01, y=gy, psi=gt, vx=0, delta=0)
        ctx.true(not bool(PoseGoal(SE2Transform([gx, gy], gt)).is_fulfilled(off)), "a centimetre off does not, by default")


def arrow(ctx):
    """the plotted arrow is the base arrow moved to the goal pose"""
    gx, gy, gt = ctx.real("gx", -10, 10), ctx.real("gy", -10, 10), ctx.angle("gt", -3.1, 3.1)
    with symgeo(ctx):
        pts = list(PoseGoal(SE2Transform([gx, gy], gt)).get_plottable_geometry().exterior.coords)
        base = list(PoseGoal(SE2Transform([0.0, 0.0], 0.0)).get_plottable_geometry().exterior.coords)
    ctx.true(len(pts) == len(base), "same arrow")
    c, s = cos(gt), sin(gt)
    for p, q in zip(pts, base):
        ctx.eq(p[0], gx + c * q[0] - s * q[1], "arrow x")
        ctx.eq(p[1], gy + s * q[0] + c * q[1], "arrow y")
    ctx.true(max(q[0] for q in base) > -min(q[0] for q in base), "arrow points ahead")
    ctx.true(abs(sum(q[1] for q in base[:-1])) < 1e-9, "arrow is symmetric")


def _lane(ctx, n, th):
    o = ctx.reals("o", 2, -10, 10)
    c, s = cos(th), sin(th)
    at, rs = [0.0], [ctx.real("r0", 1, 3)]
    for i in range(n - 1):
        at.append(at[-1] + ctx.real(f"len{i}", 1, 4))
        rs.append(ctx.real(f"r{i + 1}", 1, 3))
    lane = DgLanelet([LaneCtrPoint(SE2Transform([o[0] + a * c, o[1] + a * s], th), r) for a, r in zip(at, rs)])
    return lane, o, c, s, at, rs


def _around(ctx, o, c, s, x, lat, psi):
    return VehicleState(x=o[0] + x * c - lat * s, y=o[1] + x * s + lat * c, psi=psi, vx=ctx.real("vx", -3, 9), delta=0)


def _near(ctx, dx, off, r, radius):
    """within radius of the cross section of half width r"""
    far = ctx.and_(off > r, dx * dx + (off - r) * (off - r) >= radius * radius)
    return ctx.and_(dx < radius, dx > -radius, off < r + radius, ctx.not_(far))


def lane_goal(ctx, n, seg, where, turned):
    """goal progress on a segment, position before, on a segment of or beyond the lane"""
    th = ctx.angle("theta", -3.0, 3.0) if turned else 0.0
    c, s = cos(th), sin(th)
    o = ctx.reals("o", 2, -10, 10)
    # the goal's segment starts `into` before and ends `rest` after the goal; half width r there, changing by k per metre
    into, r, k = ctx.real("into", 0.125, 4), ctx.real("r", 1, 3), ctx.real("k", -0.25, 0.25)
    lens = [ctx.real(f"len{i}", 1, 4) for i in range(n - 1)]
    rest = lens[seg] - into
    ctx.assume(rest >= 0.125)
    at = [0.0]
    for v in lens:
        at.append(at[-1] + v)
    rs = [ctx.real(f"r{i}", 1, 3) for i in range(n)]
    rs[seg], rs[seg + 1] = r - k * into, r + k * rest
    g = at[seg] + into
    dx, off = ctx.real("dx", -3, 3), ctx.real("offset", 0, 6)
    lat = off * ctx.choice("side", (1, -1))
    x = g + dx
    if where == "beyond":
        ctx.assume(x >= at[-1])
        beta = n - 1 + 10 * (x - at[-1])
    elif where == "before":
        ctx.assume(x <= 0)
        beta = 10 * x
    else:
        ctx.assume(ctx.and_(x >= at[where], x <= at[where + 1]))
        beta = where + (x - at[where]) / lens[where]
    lane = DgLanelet([LaneCtrPoint(SE2Transform([o[0] + a * c, o[1] + a * s], th), w) for a, w in zip(at, rs)])
    st = _around(ctx, o, c, s, x, lat, ctx.real("psi", -3, 3))
    m = 0.0625
    ctx.assume(ctx.or_(dx >= m, dx <= -m))
    inner, outer = _near(ctx, dx, off, r, 1 - m), _near(ctx, dx, off, r, 1 + m)
    ctx.assume(ctx.or_(inner, ctx.not_(outer)))
    closest = lambda fun, bracket=None, tol=None, **k: SimpleNamespace(x=beta, fun=fun(beta), success=True)
    with symgeo(ctx):
        goal = RefLaneGoal(lane, g)
        if ctx.symbolic:
            with replaced(scipy.optimize.minimize_scalar, closest):
                got = bool(goal.is_fulfilled(st))
        else:
            got = bool(goal.is_fulfilled(st))
        ctx.true(got == ctx.cond(ctx.and_(dx > 0, inner)), "fulfilled at the goal cross section, from the goal progress on")
        ctx.true(goal.get_plottable_geometry() is goal.goal_polygon, "plots its region")


def lane_end(ctx, n, th):
    """region goal at the end of a lane; the region may be shifted along the lane by up to a quarter of a metre"""
    th = ctx.angle("theta", -3.0, 3.0) if th is None else th
    lane, o, c, s, at, rs = _lane(ctx, n, th)
    rad = ctx.real("inflation", 0.5, 2)
    dx, off = ctx.real("dx", -5, 5), ctx.real("offset", 0, 8)
    lat = off * ctx.choice("side", (1, -1))
    st = _around(ctx, o, c, s, at[-1] + dx, lat, ctx.real("psi", -3, 3))
    with symgeo(ctx):
        goal = PolygonGoal.from_DgLanelet(lane, inflation_radius=rad)
        got = bool(goal.is_fulfilled(st))
    ctx.true(ctx.implies(_near(ctx, dx, off, rs[-1], rad - 0.25), got), "the lane's end is inside the region")
    ctx.true(ctx.implies(ctx.not_(_near(ctx, dx, off, rs[-1], rad + 0.25)), not got), "nothing else is")


HARNESSES = [H(region, name=f"region:{m},rectangle", model=m, kind="rectangle", budget=20) for m in MODELS]
HARNESSES += [H(region, name="region:car,triangle", model="car", kind="triangle", budget=30)]
HARNESSES += [H(pose, name=f"pose:{h}", heading=h, budget=30) for h in (None, 0.0, 2.0)] + [H(pose_exact, budget=20), H(arrow, budget=20)]
HARNESSES += [H(lane_goal, name=f"lane:{n},{seg},{w}{',turned' if t else ''}", n=n, seg=seg, where=w, turned=t, budget=60, thorough_budget=300)
              for n, seg, w, t in ((2, 0, 0, False), (2, 0, "beyond", False), (2, 0, "before", False), (2, 0, 0, True), (2, 0, "beyond", True), (3, 0, 0, False), (3, 1, 1, False), (3, 0, 1, False), (3, 1, "beyond", False))]
HARNESSES += [H(lane_end, name=f"lane end:{n},{t}", n=n, th=t, budget=60) for n, t in ((2, 0.0), (2, None), (3, None))]
