"""Pose and velocity of the models."""
import numpy as np

from harness.models import NO_GRIP, MODELS, STATES, build, scmds, sstate
from harness.util import cos, sin
from symx.engine import H

META = {
    "id": "C09",
    "title": "Every model's pose and velocity describe one and the same motion",
    "statement": "The pose a model reports is the position and heading of its state; the velocity it reports in the world frame is the rate at which its motion law moves that position, the one reported in its own frame is the same vector turned by the heading, and the reported turn rate is the rate of its heading. Setting a velocity in either frame makes the model report exactly that velocity and turn rate afterwards in both frames (the kinematic car-like model, which has no free lateral speed, adopts the part along its heading), and leaves position and heading untouched.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic states (headings in (-pi, pi), steering in [-1.2, 1.2]) and velocities, for all models with a velocity of their own (the differential drive has none; a pedestrian's heading follows the commanded turn rate; the dynamic car at 0.1 m/s or more)"},
    "why_tests_cant": "velocities are only read and set when something collides, at a few headings; a wrong rotation direction or a mixed-up component shows only for other headings",
    "anchors": {"files": ["src/dg_commons/sim/models/vehicle.py", "src/dg_commons/sim/models/vehicle_dynamic.py", "src/dg_commons/sim/models/pedestrian.py", "src/dg_commons/sim/models/spacecraft.py", "src/dg_commons/sim/models/rocket.py", "src/dg_commons/sim/models/spaceship.py", "src/dg_commons/sim/models/obstacles_dyn.py"],
                "mechanism": [{"name": "pose and velocity accessors", "where": "src/dg_commons/sim/models/*.py get_pose, get_velocity, set_velocity"}]},
}
ASSUMPTIONS = ["states in [-10, 10], headings in [-3.1, 3.1], steering and nozzle angles in [-1.2, 1.2]"]
VEL = [m for m in MODELS if m != "diffdrive"]


def _x(ctx, model):
    x = sstate(ctx, model)
    if model.startswith("dyn") and model != "dynobs":
        ctx.assume(x.vx >= 0.1)
    return x


def pose(ctx, model):
    x = sstate(ctx, model)
    q = build(ctx, model, x).get_pose()
    c, s = cos(x.psi), sin(x.psi)
    for i, row in enumerate(((c, -s, x.x), (s, c, x.y), (0.0, 0.0, 1.0))):
        for j, v in enumerate(row):
            ctx.eq(q[i][j], v, f"pose entry {i},{j}")


def velocity(ctx, model):
    x = _x(ctx, model)
    m = build(ctx, model, x)
    if model.startswith("dyn") and model != "dynobs":
        m.pacejka_front = m.pacejka_rear = NO_GRIP
        ctx.assume(cos(x.delta) * x.vx + sin(x.delta) * (x.vy + m.vg.lf * x.dpsi) >= 0.01)
    (gx, gy), w = m.get_velocity(in_model_frame=False)
    (lx, ly), wl = m.get_velocity(in_model_frame=True)
    c, s = cos(x.psi), sin(x.psi)
    ctx.eq(gx, c * lx - s * ly, "the two frames agree (x)")
    ctx.eq(gy, s * lx + c * ly, "the two frames agree (y)")
    ctx.eq(w, wl, "turn rate in both frames")
    u = m_cmd(ctx, model)
    d = m.dynamics(x, u)
    ctx.eq(d.x, gx, "world velocity is the rate of x")
    ctx.eq(d.y, gy, "world velocity is the rate of y")
    if model != "pedestrian":
        ctx.eq(d.psi, w, "turn rate is the rate of the heading")


def m_cmd(ctx, model):
    """an arbitrary small command (velocities do not depend on it)"""
    return scmds(ctx, model, lo=0.01, hi=0.05)


def set_get(ctx, model, frame):
    x = sstate(ctx, model)
    m = build(ctx, model, x)
    v, w = np.array([ctx.real("v0", -10, 10), ctx.real("v1", -10, 10)]), ctx.real("w", -5, 5)
    before = {f: getattr(x, f) for f in STATES[MODELS[model][0]][1]}
    m.set_velocity(v, w, frame)
    (a, b), ww = m.get_velocity(in_model_frame=frame)
    (oa, ob), ow = m.get_velocity(in_model_frame=not frame)
    c, s = cos(x.psi), sin(x.psi)
    if not frame:
        s = -s
    if MODELS[model][0] == "VehicleState":
        (lx, _), _ = m.get_velocity(in_model_frame=True)
        ctx.eq(lx, v[0] if frame else before_dot(v, x), "adopts the part along its heading")
    else:
        ctx.eq(a, v[0], "reported velocity 0")
        ctx.eq(b, v[1], "reported velocity 1")
        ctx.eq(ww, w, "reported turn rate")
        ctx.eq(oa, c * v[0] - s * v[1], "reported velocity 0 in the other frame")
        ctx.eq(ob, s * v[0] + c * v[1], "reported velocity 1 in the other frame")
        ctx.eq(ow, w, "reported turn rate in the other frame")
    st = m.get_state()
    for f in before:
        if f not in ("vx", "vy", "dpsi"):
            ctx.eq(getattr(st, f), before[f], f"{f} untouched")


def before_dot(v, x):
    return v[0] * cos(x.psi) + v[1] * sin(x.psi)


HARNESSES = [H(lambda ctx, m=m: pose(ctx, m), name="pose_" + m) for m in MODELS] + \
    [H(lambda ctx, m=m: velocity(ctx, m), name="velocity_" + m, budget=50, stubs="tyre model without lateral force" if m.startswith("dyn") and m != "dynobs" else "") for m in VEL] + \
    [H(lambda ctx, m=m, f=f: set_get(ctx, m, f), name=f"set_{'model' if f else 'world'}_{m}") for m in VEL for f in (True, False)]
