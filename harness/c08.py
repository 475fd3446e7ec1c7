"""Actuation and rate limits inside the dynamics of every model."""
from harness.models import NO_GRIP, COMMANDS, MODELS, build, scmds, sstate
from harness.util import cos, sin
from symx.engine import H

META = {
    "id": "C08",
    "title": "No command can drive a model beyond its actuation limits",
    "statement": "In every model's motion law a command outside the model's limits (acceleration, force, steering, turning, nozzle or wheel rate) has exactly the effect of the nearest limit, and a command inside them is applied unchanged. When a speed, steering or nozzle angle or rotation rate already sits at or beyond its limit, a command pushing further outward has no effect on it, while a command leading back is obeyed.",
    "quantifier": {"over": ["inputs"], "text": "all states and commands in the stated ranges and all symbolic limits (lower below upper), for the kinematic and dynamic vehicle, pedestrian, differential drive, spacecraft, rocket, spaceship and dynamic obstacle"},
    "why_tests_cant": "the tests drive few models with commands inside the limits; which combination of state, sign and limit is mishandled is only visible on the boundary",
    "anchors": {"files": ["src/dg_commons/sim/models/model_utils.py", "src/dg_commons/sim/models/vehicle_utils.py", "src/dg_commons/sim/models/pedestrian_utils.py", "src/dg_commons/sim/models/vehicle.py", "src/dg_commons/sim/models/vehicle_dynamic.py", "src/dg_commons/sim/models/pedestrian.py", "src/dg_commons/sim/models/diff_drive.py", "src/dg_commons/sim/models/spacecraft.py", "src/dg_commons/sim/models/rocket.py", "src/dg_commons/sim/models/spaceship.py", "src/dg_commons/sim/models/obstacles_dyn.py"],
                "mechanism": [{"name": "limit helpers", "where": "src/dg_commons/sim/models/model_utils.py, vehicle_utils.py, pedestrian_utils.py"},
                              {"name": "motion laws", "where": "src/dg_commons/sim/models/*.py dynamics"}]},
}
ASSUMPTIONS = ["states in [-10, 10] (angles in their ranges), commands in [-20, 20], limits in [-10, 10]; the claim is about the motion law at one instant: a step of finite length may overshoot a speed or angle limit by what the law allows within the step"]


def clip(ctx, v, lim):
    lo, hi = lim
    return ctx.ite(v < lo, lo, ctx.ite(v > hi, hi, v))


def gate(ctx, q, rate, lim):
    """a rate pushing q further outside its limits has no effect"""
    out = ctx.or_(ctx.and_(q <= lim[0], rate < 0), ctx.and_(q >= lim[1], rate > 0))
    return ctx.ite(out, 0.0, rate)


def _acc(ctx, v, a, p):
    return gate(ctx, v, clip(ctx, a, p.acc_limits), p.vx_limits)


def _steer(ctx, d, r, p):
    lim = (-p.delta_max, p.delta_max)
    return clip(ctx, gate(ctx, d, r, lim), (-p.ddelta_max, p.ddelta_max))


def vehicle(ctx, model):
    x = sstate(ctx, model)
    if model.startswith("dyn"):
        ctx.assume(x.vx < 0.1)
    m, u = build(ctx, model, x, True), scmds(ctx, model)
    d = m.dynamics(x, u)
    ctx.eq(d.vx, _acc(ctx, x.vx, u.acc, m.vp), "acceleration")
    ctx.eq(d.delta, _steer(ctx, x.delta, u.ddelta, m.vp), "steering rate")


def dyn_fast(ctx, focus=None):
    """at speed: a command has the effect of the admissible command next to it"""
    x = sstate(ctx, "dyncar")
    ctx.assume(x.vx >= 0.1)
    m, u = build(ctx, "dyncar", x, True), scmds(ctx, "dyncar")
    ctx.assume(cos(x.delta) * x.vx + sin(x.delta) * (x.vy + m.vg.lf * x.dpsi) >= 0.01)
    if focus == "acc":
        ctx.assume(ctx.and_(abs(u.ddelta) < m.vp.ddelta_max, abs(x.delta) < m.vp.delta_max))
    if focus == "steer":
        ctx.assume(ctx.and_(u.acc > m.vp.acc_limits[0], u.acc < m.vp.acc_limits[1], x.vx < m.vp.vx_limits[1], x.vx > m.vp.vx_limits[0]))
    m.pacejka_front = m.pacejka_rear = NO_GRIP
    adm = u.__class__(acc=_acc(ctx, x.vx, u.acc, m.vp), ddelta=_steer(ctx, x.delta, u.ddelta, m.vp))
    d, e = m.dynamics(x, u), m.dynamics(x, adm)
    ctx.eq(d.vx, e.vx, "longitudinal acceleration is that of the admissible command")
    ctx.eq(d.vy, e.vy, "lateral acceleration is that of the admissible command")
    ctx.eq(d.dpsi, e.dpsi, "yaw acceleration is that of the admissible command")
    ctx.eq(d.delta, adm.ddelta, "steering rate")


def pedestrian(ctx):
    x = sstate(ctx, "pedestrian")
    m, u = build(ctx, "pedestrian", x, True), scmds(ctx, "pedestrian")
    d = m.dynamics(x, u)
    ctx.eq(d.vx, _acc(ctx, x.vx, u.acc, m.pp), "acceleration")
    ctx.eq(d.psi, clip(ctx, u.dpsi, (-m.pp.dtheta_max, m.pp.dtheta_max)), "turning rate")


def diffdrive(ctx):
    x = sstate(ctx, "diffdrive")
    m, u = build(ctx, "diffdrive", x, True), scmds(ctx, "diffdrive")
    d = m.dynamics(x, u)
    l, r = clip(ctx, u.omega_l, m.vp.omega_limits), clip(ctx, u.omega_r, m.vp.omega_limits)
    fwd = d.x * cos(x.psi) + d.y * sin(x.psi)
    b, R = m.vg.wheelbase, m.vg.wheelradius
    ctx.eq(fwd + d.psi * b / 2, r * R, "right wheel speed")
    ctx.eq(fwd - d.psi * b / 2, l * R, "left wheel speed")


def spacecraft(ctx):
    x = sstate(ctx, "spacecraft")
    m, u = build(ctx, "spacecraft", x, True), scmds(ctx, "spacecraft")
    d = m.dynamics(x, u)
    l, r = clip(ctx, u.acc_left, m.sp.acc_limits), clip(ctx, u.acc_right, m.sp.acc_limits)
    ctx.eq(d.vx - x.vy * x.dpsi, l + r, "thrust acceleration")
    dd = m.sg.w_half * m.sg.m / m.sg.Iz * (r - l)
    ctx.eq(d.dpsi, gate(ctx, x.dpsi, dd, m.sp.dpsi_limits), "rotational acceleration")


def rocket(ctx):
    x = sstate(ctx, "rocket")
    m, u = build(ctx, "rocket", x, True), scmds(ctx, "rocket")
    p = m.rp
    ctx.assume(x.m > p.m_v)
    d = m.dynamics(x, u)
    l, r = clip(ctx, u.F_left, p.F_limits), clip(ctx, u.F_right, p.F_limits)
    ctx.eq(d.m, -p.C_T * (l + r), "fuel of the admissible thrust")
    ctx.eq(d.dpsi * m.rg.Iz, m.rg.l_m * cos(x.phi) * (r - l), "torque of the admissible thrust")
    ctx.eq(d.phi, gate(ctx, x.phi, clip(ctx, u.dphi, p.ddelta_limits), p.delta_limits), "nozzle rate")


def spaceship(ctx):
    x = sstate(ctx, "spaceship")
    m, u = build(ctx, "spaceship", x, True), scmds(ctx, "spaceship")
    p = m.sp
    ctx.assume(x.m > p.m_v)
    d = m.dynamics(x, u)
    T = clip(ctx, u.thrust, p.thrust_limits)
    ctx.eq(d.m, -p.C_T * T, "fuel of the admissible thrust")
    ctx.eq(d.dpsi * m.rg.Iz, -m.rg.l_r * sin(x.delta) * T, "torque of the admissible thrust")
    ctx.eq(d.delta, gate(ctx, x.delta, clip(ctx, u.ddelta, p.ddelta_limits), p.delta_limits), "nozzle rate")


def dynobs(ctx, focus=None):
    """focus: the direction in which commands and speeds are unrestricted (None: all); the others are unsaturated"""
    x = sstate(ctx, "dynobs")
    m, u = build(ctx, "dynobs", x, True), scmds(ctx, "dynobs")
    p = m.op
    ins = lambda v, lim: ctx.assume(ctx.and_(v > lim[0], v < lim[1]))
    if focus in ("y", "psi"):
        ins(x.vx, p.vx_limits), ins(u.acc_x + x.dpsi * x.vy, p.acc_limits)
    if focus in ("x", "psi"):
        ins(x.vy, p.vx_limits), ins(u.acc_y - x.dpsi * x.vx, p.acc_limits)
    if focus in ("x", "y"):
        ins(x.dpsi, p.dpsi_limits), ins(u.acc_psi, p.ddpsi_limits)
    d = m.dynamics(x, u)
    ctx.eq(d.vx, _acc(ctx, x.vx, u.acc_x + x.dpsi * x.vy, p), "longitudinal acceleration")
    ctx.eq(d.vy, _acc(ctx, x.vy, u.acc_y - x.dpsi * x.vx, p), "lateral acceleration")
    ctx.eq(d.dpsi, gate(ctx, x.dpsi, clip(ctx, u.acc_psi, p.ddpsi_limits), p.dpsi_limits), "rotational acceleration")


def refused(ctx, model):
    """limits in the wrong order are refused when the parameters are made"""
    from dataclasses import fields, replace
    p = build(ctx, model, sstate(ctx, model)).model_params
    for f in fields(p):
        if f.name.endswith("_limits"):
            a, b = ctx.real(f.name + "_a", -5, 5), ctx.real(f.name + "_b", -5, 5)
            ctx.assume(a >= b)
            ctx.raises(lambda: replace(p, **{f.name: (a, b)}), AssertionError, f.name + " in the wrong order are refused")


HARNESSES = [H(lambda ctx, m=m: vehicle(ctx, m), name="limits_" + m, budget=40) for m in ("car", "truck", "bicycle", "dyncar", "dynbicycle")] + [
    H(dyn_fast, name="limits_dyn_at_speed_acc", focus="acc", budget=40, stubs="tyre without lateral force"),
    H(dyn_fast, name="limits_dyn_at_speed_steer", focus="steer", budget=40, stubs="tyre without lateral force"),
    H(dyn_fast, name="limits_dyn_at_speed_all", tier="thorough", thorough_budget=400, stubs="tyre without lateral force"),
    H(pedestrian, budget=40), H(diffdrive, budget=40), H(spacecraft, budget=60), H(rocket, budget=80), H(spaceship, budget=60),
    H(dynobs, name="dynobs_x", focus="x"), H(dynobs, name="dynobs_y", focus="y"), H(dynobs, name="dynobs_psi", focus="psi"),
    H(dynobs, name="dynobs_all", tier="thorough", thorough_budget=500)] + [H(lambda ctx, m=m: refused(ctx, m), name="refused_" + m, budget=15) for m in ("car", "pedestrian", "diffdrive", "spacecraft", "rocket", "spaceship", "dynobs")]
