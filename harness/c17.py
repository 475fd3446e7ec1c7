"""Footprints, impact meshes and body geometry."""
from shapely.geometry import Polygon

from dg_commons.sim import IMPACT_BACK, IMPACT_EVERYWHERE, IMPACT_FRONT, IMPACT_LEFT, IMPACT_RIGHT
from dg_commons.sim.models.diff_drive_structures import DiffDriveGeometry
from dg_commons.sim.models.model_structures import BICYCLE, CAR, MOTORCYCLE, TRUCK
from dg_commons.sim.models.rocket_structures import RocketGeometry
from dg_commons.sim.models.spacecraft_structures import SpacecraftGeometry
from dg_commons.sim.models.spaceship_structures import SpaceshipGeometry
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from harness.models import MODELS, build, sstate
from harness.util import cos, sin
from symx.engine import H
from symx.symgeo import symgeo

META = {
    "id": "C17",
    "title": "A body's footprint is its outline at its pose, and its sides are labelled right",
    "statement": "For every model, the footprint used for collision checking is the outline of its geometry rotated by its current heading and moved to its current position. The impact regions of a body are labelled by where they lie: a road vehicle's front, back, left and right regions span the matching corners (for a round robot, the matching part of the rim) and its centre, and every other model has one region equal to its whole footprint. A road vehicle's outline is a rectangle of its declared length and width with the axles inside it, its wheels sit at the axles, turn only at the front by the steering angle, and its lights sit on the matching corner.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic poses (any heading) for every model with its default outline, and for two successive states of one model; all symbolic axle distances and half widths for road vehicles of each type, and all steering angles"},
    "why_tests_cant": "tests simulate and plot vehicles but compare no outline; a mirrored rotation, a stale outline or swapped sides go unnoticed",
    "anchors": {"files": ["src/dg_commons/geo.py", "src/dg_commons/sim/models/vehicle.py", "src/dg_commons/sim/models/vehicle_structures.py", "src/dg_commons/sim/models/diff_drive.py", "src/dg_commons/sim/models/pedestrian.py", "src/dg_commons/sim/models/spacecraft.py", "src/dg_commons/sim/models/rocket.py", "src/dg_commons/sim/models/spaceship.py", "src/dg_commons/sim/models/obstacles_dyn.py"],
                "mechanism": [{"name": "footprint and mesh", "where": "src/dg_commons/sim/models/*.py get_footprint, get_mesh"},
                              {"name": "placement of shapes", "where": "src/dg_commons/geo.py apply_SE2_to_shapely_geo, transform_xy"}]},
}
ASSUMPTIONS = ["positions in [-10, 10]; shapely's affine_transform and Polygon are replaced by their defining formulas for symbolic coordinates (validated against shapely by the concrete replays)"]


def _ring(poly):
    c = [(p[0], p[1]) for p in poly.exterior.coords]
    return c[:-1]


def _outline(m, model):
    if model == "dynobs":
        return _ring(m.shape)
    o = [(p[0], p[1]) for p in m.model_geometry.outline]
    return o[:-1] if abs(o[0][0] - o[-1][0]) + abs(o[0][1] - o[-1][1]) < 1e-12 else o


def _place(x, p):
    c, s = cos(x.psi), sin(x.psi)
    return x.x + c * p[0] - s * p[1], x.y + s * p[0] + c * p[1]


def _unplace(ctx, x, p):
    """in the body's own frame"""
    c, s, dx, dy = cos(x.psi), sin(x.psi), p[0] - x.x, p[1] - x.y
    return ctx.norm(c * dx + s * dy), ctx.norm(c * dy - s * dx)


def _near(ctx, a, b):
    return ctx.and_(a[0] - b[0] <= 1e-6, b[0] - a[0] <= 1e-6, a[1] - b[1] <= 1e-6, b[1] - a[1] <= 1e-6)


def _check_ring(ctx, ring, want, name, step=1):
    if len(ring) != len(want):
        ctx.true(False, name + ": number of corners")
        return
    for i in range(0, len(want), step):
        ctx.eq(ring[i][0], want[i][0], f"{name}: corner x")
        ctx.eq(ring[i][1], want[i][1], f"{name}: corner y")


def footprint(ctx, model, step=1):
    xa, xb = sstate(ctx, model), sstate(ctx, model, "2")
    m = build(ctx, model, xa)
    with symgeo(ctx):
        out = _outline(m, model)
        _check_ring(ctx, _ring(m.get_footprint()), [_place(xa, p) for p in out], "footprint", step)
        m._state = xb
        _check_ring(ctx, _ring(m.get_footprint()), [_place(xb, p) for p in out], "footprint after moving", step)
    pose = m.get_pose()
    ctx.eq(pose[0, 2], xb.x, "pose x")
    ctx.eq(pose[1, 2], xb.y, "pose y")
    ctx.eq(pose[0, 0], cos(xb.psi), "pose heading cos")
    ctx.eq(pose[1, 0], sin(xb.psi), "pose heading sin")


def mesh(ctx, model, step=1):
    x = sstate(ctx, model)
    m = build(ctx, model, sstate(ctx, model, "0"))
    with symgeo(ctx):
        m.get_mesh()
        m._state = x
        got = m.get_mesh()
        out = _outline(m, model)
        if set(got) == {IMPACT_EVERYWHERE}:
            ctx.true(model not in ("car", "truck", "bicycle", "dyncar", "dynbicycle"), "road vehicles have four sides")
            _check_ring(ctx, _ring(got[IMPACT_EVERYWHERE]), [_place(x, p) for p in out], "whole body", step)
            return
        ctx.true(set(got) == {IMPACT_FRONT, IMPACT_BACK, IMPACT_LEFT, IMPACT_RIGHT}, "four sides")
        body = {k: [_unplace(ctx, x, p) for p in _ring(got[k])] for k in got}
        if model == "diffdrive":  # a circle: each region holds the rim on its side
            for p in out[:: step or 1]:
                sides = [k for k, on in ((IMPACT_FRONT, p[0] >= abs(p[1]) - 1e-9), (IMPACT_BACK, -p[0] >= abs(p[1]) - 1e-9),
                                         (IMPACT_LEFT, p[1] >= abs(p[0]) - 1e-9), (IMPACT_RIGHT, -p[1] >= abs(p[0]) - 1e-9)) if on]
                for k in got:
                    on = ctx.or_(*[_near(ctx, r, p) for r in body[k]])
                    ctx.true(on if k in sides else ctx.not_(on), f"{k} spans the rim on its side only")
            for k in got:
                ctx.true(ctx.or_(*[_near(ctx, r, (0.0, 0.0)) for r in body[k]]), f"{k} reaches the centre")
            return
        xs, ys = [p[0] for p in out], [p[1] for p in out]
        mid = ((max(xs) + min(xs)) / 2, (max(ys) + min(ys)) / 2)
        side = {IMPACT_FRONT: [(max(xs), max(ys)), (max(xs), min(ys))], IMPACT_BACK: [(min(xs), max(ys)), (min(xs), min(ys))],
                IMPACT_LEFT: [(max(xs), max(ys)), (min(xs), max(ys))], IMPACT_RIGHT: [(max(xs), min(ys)), (min(xs), min(ys))]}
        for k, corners in side.items():
            ring, want = body[k], corners + [mid]
            for c in want:
                ctx.true(ctx.or_(*[_near(ctx, p, c) for p in ring]), f"{k} spans its corners")
            for p in ring:
                ctx.true(ctx.or_(*[_near(ctx, p, w) for w in want]), f"{k} spans nothing else")


TYPES = {"car": CAR, "truck": TRUCK, "bicycle": BICYCLE, "motorcycle": MOTORCYCLE}


def _vgeo(ctx, kind):
    wh, lf, lr = ctx.real("w_half", 0.25, 2), ctx.real("lf", 0.5, 5), ctx.real("lr", 0.5, 5)
    return VehicleGeometry(vehicle_type=TYPES[kind], m=1000.0, Iz=1000.0, e=0.5, color="red", w_half=wh, lf=lf, lr=lr, c_drag=0.3, a_drag=2.0), wh, lf, lr


def body(ctx, kind):
    g, wh, lf, lr = _vgeo(ctx, kind)
    ctx.eq(g.width, 2 * wh, "width between the wheel centres")
    ctx.eq(g.wheelbase, lf + lr, "wheelbase")
    o = [(p[0], p[1]) for p in g.outline]
    half, radius = g.wheel_shape
    front, back = g.bumpers_length
    ctx.true(front > 0 and back > 0 and half > 0 and radius > 0, "positive extents")
    ctx.eq(g.length, lf + lr + front + back, "length")
    for w in [(lf + front, wh + half), (lf + front, -wh - half), (-lr - back, wh + half), (-lr - back, -wh - half)]:
        ctx.true(ctx.or_(*[_near(ctx, p, w) for p in o]), "outline reaches the four corners")
    for p in o:
        ctx.true(ctx.and_(p[0] <= lf + front + 1e-6, p[0] >= -lr - back - 1e-6, p[1] <= wh + half + 1e-6, p[1] >= -wh - half - 1e-6), "outline within length and width")
    ctx.seq_eq([*o[0]], [*o[-1]], "outline closed")
    L = g.lights_position
    ctx.true(set(L) == {"back_left", "back_right", "front_left", "front_right"}, "four lights")
    for k, (x, y) in L.items():
        ctx.eq(x, lf + front if "front" in k else -lr - back, f"{k} light on its end")
        ctx.true(ctx.cond(y > 0 if "left" in k else y < 0), f"{k} light on its side")
        ctx.true(ctx.cond(abs(y) <= wh + half), f"{k} light on the body")


def wheels(ctx, kind):
    g, wh, lf, lr = _vgeo(ctx, kind)
    delta = ctx.real("delta", -1.5, 1.5)
    n = 4 if kind in ("car", "truck") else 2
    got = g.get_rotated_wheels_outlines(delta)
    ctx.true(len(got) == g.n_wheels == n, "number of wheels")
    half, radius = g.wheel_shape
    centres = [(lf, wh), (lf, -wh), (-lr, wh), (-lr, -wh)] if n == 4 else [(lf, 0.0), (-lr, 0.0)]
    for i, (cx, cy) in enumerate(centres):
        c, s = (cos(delta), sin(delta)) if cx is lf else (1.0, 0.0)
        w = got[i]
        pts = [(w[0, k], w[1, k]) for k in range(w.shape[1])]
        where = "front" if cx is lf else "rear"
        for a, b in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
            p = (cx + c * a * radius - s * b * half, cy + s * a * radius + c * b * half)
            ctx.true(ctx.or_(*[_near(ctx, q_, p) for q_ in pts]), f"{where} wheel at its axle, turned by the steering angle")


def thrusters(ctx, kind):
    """outlines of the nozzles and flames of the space models, in the body frame"""
    phi = ctx.angle("phi", -1.5, 1.5)
    if kind == "spacecraft":
        g = SpacecraftGeometry.default()
        ang, at = [0.0, 0.0], [(-g.lr, -g.w_half), (-g.lr, g.w_half)]
        got = g.thrusters_outline_in_body_frame
    elif kind == "rocket":
        g = RocketGeometry.default()
        ang, at = [(phi, 1), (phi, -1)], [(g.l_m, -g.w_half / 10), (g.l_m, g.w_half / 10)]
        got = g.thrusters_outline_in_body_frame(phi)
    else:
        g = SpaceshipGeometry.default()
        ang, at = [(phi, 0)], [(-g.l_r, 0.0)]
        got = g.thrusters_outline_in_body_frame(phi)
    ctx.true(len(got) == g.n_thrusters == len(at), "number of nozzles")
    base = g.thruster_outline
    for i, a in enumerate(ang):
        if kind == "spacecraft":
            c, s = 1.0, 0.0
        elif a[1] == 0:
            c, s = -cos(phi), -sin(phi)
        else:  # rotated by +-(phi + 90 deg)
            c, s = -sin(phi), a[1] * cos(phi)
        for k, p in enumerate(base):
            ctx.eq(got[i][k][0], at[i][0] + c * p[0] - s * p[1], "nozzle x")
            ctx.eq(got[i][k][1], at[i][1] + s * p[0] + c * p[1], "nozzle y")


STEP = {"pedestrian": 9, "diffdrive": 8, "spacecraft": 7}
HARNESSES = [H(footprint, name=f"footprint:{m}", model=m, step=STEP.get(m, 1), budget=20) for m in MODELS]
HARNESSES += [H(mesh, name=f"mesh:{m}", model=m, step=STEP.get(m, 1), budget=20) for m in MODELS]
HARNESSES += [H(footprint, name=f"footprint all corners:{m}", model=m, tier="thorough", thorough_budget=120) for m in STEP]
HARNESSES += [H(body, name=f"body:{k}", kind=k, budget=15) for k in TYPES]
HARNESSES += [H(wheels, name=f"wheels:{k}", kind=k, budget=15) for k in TYPES]
HARNESSES += [H(thrusters, name=f"thrusters:{k}", kind=k, budget=15) for k in ("spacecraft", "rocket", "spaceship")]
