"""Feedback controllers: PID with its speed and steering variants, and pure pursuit."""
import contextlib
import math
from types import SimpleNamespace

import numpy as np
import scipy.optimize

from dg_commons import SE2Transform
from dg_commons.controllers.pid import PID, PIDParam
from dg_commons.controllers.pure_pursuit import PurePursuit, PurePursuitParam
from dg_commons.controllers.speed import SpeedController, SpeedControllerParam
from dg_commons.controllers.steer import SteerController, SteerControllerParam
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from harness.util import cos, sin, sqrt, tan
from symx.engine import H
from symx.shims import replaced

META = {
    "id": "C20",
    "title": "The feedback controllers follow their control laws and never leave their limits",
    "statement": "A PID controller clips its reference to the setpoint limits and returns proportional, integral and derivative action of the tracking error over the true time between requests, with the integral kept within its anti windup limits and the output within the output limits; the first request, or one at an unchanged time, has no integral step and no derivative kick. Controllers derived from a vehicle take its speed and acceleration, or steering angle and steering rate, limits. Pure pursuit looks ahead proportionally to speed within its limits, aims at a path point ahead at that distance, and steers along the arc from the rear axle to the goal point.",
    "quantifier": {"over": ["inputs", "histories"], "text": "all symbolic gains, limits, references, measurements and request times in sequences of up to 4 requests; all vehicle limits; all poses, speeds, goal points, wheelbases and lookahead parameters; pure pursuit search over all candidate points of straight paths"},
    "why_tests_cant": "no test looks at a controller's output; simulations with lane following agents only check that they run",
    "anchors": {"files": ["src/dg_commons/controllers/pid.py", "src/dg_commons/controllers/speed.py", "src/dg_commons/controllers/steer.py", "src/dg_commons/controllers/pure_pursuit.py"],
                "mechanism": [{"name": "PID", "where": "src/dg_commons/controllers/pid.py get_control, update_reference"},
                              {"name": "limits from a vehicle", "where": "src/dg_commons/controllers/speed.py, steer.py from_vehicle_params"},
                              {"name": "pure pursuit", "where": "src/dg_commons/controllers/pure_pursuit.py get_desired_steering, find_goal_point"}]},
}
ASSUMPTIONS = ["gains in [0, 8] (concrete gains from the second request on), errors in [-20, 20], times between requests 0 or at least 1/64 s",
               "scipy's minimize_scalar is replaced by a stand-in that returns a point within its bounds where the objective is no larger than at any other (also arbitrary) one; goal points at least 0.25 m from the rear axle"]


def _clip(ctx, v, lo, hi):
    return ctx.ite(v < lo, lo, ctx.ite(v > hi, hi, v))


def _limits(ctx, tag, gap=0.125):
    a, b = ctx.real(tag + "_lo", -10, 10), ctx.real(tag + "_hi", -10, 10)
    ctx.assume(b - a >= gap)
    return a, b


def pid(ctx, n, gains, lim=None):
    """n requests against the textbook recurrence"""
    kp, ki, kd = (ctx.real(k, 0, 8) for k in ("kP", "kI", "kD")) if gains is None else gains
    aw, sp, out = lim or (_limits(ctx, "antiwindup"), _limits(ctx, "setpoint"), _limits(ctx, "output"))
    c = PID(PIDParam(kp, ki, kd, aw, sp, out))
    integral, last, prev_t, at = 0, 0, None, ctx.real("t0", 0, 5)
    for i in range(n):
        if i:
            gap = ctx.real(f"gap{i}", 0, 4)
            ctx.assume(ctx.or_(gap <= 0, gap >= 1 / 64))
            at = at + gap
        ref, meas = ctx.real(f"ref{i}", -15, 15), ctx.real(f"meas{i}", -15, 15)
        c.update_reference(ref)
        c.update_measurement(meas)
        ctx.eq(c.reference, _clip(ctx, ref, *sp), "reference clipped to the setpoint limits")
        u = c.get_control(at)
        err = _clip(ctx, ref, *sp) - meas
        dt = 0 if prev_t is None else at - prev_t
        integral = _clip(ctx, integral + ki * err * dt, *aw)
        rate = 0
        if prev_t is not None and ctx.cond(dt > 0):
            rate = (err - last) / dt
        ctx.eq(u, _clip(ctx, kp * err + integral + kd * rate, *out), "proportional, integral and derivative action")
        ctx.ge(u, out[0], "output limit")
        ctx.le(u, out[1], "output limit")
        ctx.ge(c.last_integral_error, aw[0], "anti windup limit")
        ctx.le(c.last_integral_error, aw[1], "anti windup limit")
        last, prev_t = err, at


def held(ctx):
    """reference and measurement keep their last values between updates"""
    k, r, m = ctx.real("kP", 0, 8), ctx.real("ref", -5, 5), ctx.real("meas", -5, 5)
    c = PID(PIDParam(k, 0.0, 0.0, (-1, 1), (-100, 100), (-1000, 1000)))
    ctx.eq(c.get_control(0.0), 0, "nothing requested yet")
    c.update_reference(r)
    c.update_measurement(m)
    ctx.eq(c.get_control(1.0), k * (r - m), "updated")
    ctx.eq(c.get_control(2.0), k * (r - m), "kept")
    o = PID(c.params)
    ctx.eq(o.get_control(0.0), 0, "another controller is unaffected")


def derived(ctx, which):
    v = _limits(ctx, "vx"), _limits(ctx, "acc")
    d, dd = ctx.real("delta_max", 0.125, 1.5), ctx.real("ddelta_max", 0.125, 3)
    vp = VehicleParameters(vx_limits=v[0], acc_limits=v[1], delta_max=d, ddelta_max=dd)
    cls, par = (SpeedController, SpeedControllerParam) if which == "speed" else (SteerController, SteerControllerParam)
    sp, out = (v[0], v[1]) if which == "speed" else ((-d, d), (-dd, dd))
    for p in (cls.from_vehicle_params(vp).params, par.from_vehicle_params(vp)):
        ctx.seq_eq(list(p.setpoint_minmax), list(sp), "setpoint limits")
        ctx.seq_eq(list(p.output_minmax), list(out), "output limits")
        ctx.seq_eq([p.kP, p.kI, p.kD], [par.kP, par.kI, par.kD], "default gains")
    c = cls.from_vehicle_params(vp)
    r, m = ctx.real("ref", -12, 12), ctx.real("meas", -12, 12)
    c.update_reference(r)
    c.update_measurement(m)
    u = c.get_control(ctx.real("t", 0, 5))
    ctx.eq(u, _clip(ctx, par.kP * (_clip(ctx, r, *sp) - m) + _clip(ctx, 0, *c.params.antiwindup), *out), "control within the vehicle's limits")


def _pursuit(ctx):
    lo = ctx.real("look_lo", 1, 5)
    hi = lo + ctx.real("look_span", 1, 30)
    k, mind = ctx.real("k", 0.25, 2), ctx.real("min_distance", 0, 4)
    L = ctx.real("wheelbase", 1, 5)
    par = PurePursuitParam(look_ahead_minmax=(lo, hi), k_lookahead=k, min_distance=mind, length=L, lr=ctx.real("lr", 0.5, 4))
    pp = PurePursuit(par)
    v = ctx.real("speed", -5, 30)
    pp.update_speed(v)
    return pp, par, _clip(ctx, k * v, lo, hi)


def steering(ctx, turn):
    """goal at a distance and bearing seen from the rear axle; the bearing is relative to the heading"""
    lo = ctx.choice("look", (1.5, 4.0, 12.5))
    L, lr = ctx.real("wheelbase", 1, 5), ctx.real("lr", 0.5, 4)
    pp = PurePursuit(PurePursuitParam(look_ahead_minmax=(lo, lo + 1), k_lookahead=0.0, length=L, lr=lr))
    x, y, th = ctx.real("x", -20, 20), ctx.real("y", -20, 20), ctx.angle("psi", -3.1, 3.1)
    dist = ctx.real("dist", 0.25, 30)
    if turn == "straight":
        al = 0.0
    else:
        al = ctx.angle("alpha", 0.001, 3.1)
        al = -al if turn == "right" else al
    c, s = cos(th), sin(th)
    rear = x - lr * c, y - lr * s
    ca, sa = cos(al), sin(al)
    if turn != "straight":
        ctx.assume(ctx.or_(sa >= 0.0009, sa <= -0.0009))  # follows from the range of the bearing
    goal = rear[0] + dist * (c * ca - s * sa), rear[1] + dist * (s * ca + c * sa)
    path = DgLanelet([LaneCtrPoint(SE2Transform([-50, 0], 0.0), 1.0), LaneCtrPoint(SE2Transform([50, 0], 0.0), 1.0)])
    pp.update_path(path)
    pp.update_pose(np.array([[c, -s, x], [s, c, y], [0.0, 0.0, 1.0]]), along_path=0.0)
    g = np.array([[1.0, 0.0, goal[0]], [0.0, 1.0, goal[1]], [0.0, 0.0, 1.0]])
    pp.find_goal_point = lambda: (0.0, g)
    d = pp.get_desired_steering()
    ctx.eq(tan(d) * lo, 2 * L * sa, "steering follows the arc to the goal point", tol=1e-5)
    ctx.true(ctx.cond(ctx.and_(d > -math.pi / 2, d < math.pi / 2)), "wheel angle below a quarter turn")
    if turn != "straight":
        ctx.true(ctx.cond(d > 0 if turn == "left" else d < 0), "steers towards the goal")


def goal_point(ctx, beside):
    """the search for the goal point; `other` is any point within reach"""
    pp, par, look = _pursuit(ctx)
    ln = ctx.real("len", 20, 60)
    lane = DgLanelet([LaneCtrPoint(SE2Transform([0.0, 0.0], 0.0), 1.0), LaneCtrPoint(SE2Transform([ln, 0.0], 0.0), 1.0)])
    x = ctx.real("x", 0, 10)
    lo = x + par.min_distance
    if beside:
        dist, dirn = ctx.real("dist", 0, 20), ctx.angle("direction", -1.5, 1.5)
        off, other = -dist * sin(dirn), x + dist * cos(dirn)
    else:
        off, other = 0.0, lo + ctx.real("other", 0, 1) * look
        dist = other - x
    ctx.assume(ctx.and_(other >= lo, other <= lo + look))
    pp.update_path(lane)
    pp.update_pose(np.array([[1.0, 0.0, x], [0.0, 1.0, off], [0.0, 0.0, 1.0]]), along_path=x)
    frac, funs = ctx.stub("goal", 0, 1), []

    def mini(fun, bounds=None, **k):
        """scipy's promise: a point within the bounds where the objective is not larger than elsewhere in them"""
        s = bounds[0] + frac * (bounds[1] - bounds[0])
        funs.append(fun)
        if not beside:
            ctx.assume(ctx.or_(other < bounds[0], other > bounds[1], fun(s) <= fun(other)))
        return SimpleNamespace(x=s, success=True)

    with replaced(scipy.optimize.minimize_scalar, mini) if ctx.symbolic else contextlib.nullcontext():
        along, q = pp.find_goal_point()
    ctx.ge(along, lo - 1e-9, "at least the minimal distance ahead")
    ctx.ge(lo + look + 1e-9, along, "at most one lookahead further")
    ctx.eq(q[0, 2], along, "goal point on the path", tol=1e-4)
    ctx.eq(q[1, 2], 0, "goal point on the path")
    if beside and ctx.symbolic:
        return ctx.eq(funs[-1](other), abs(dist - look), "distance to the vehicle against the lookahead", tol=1e-4)
    miss = abs(sqrt((along - x) * (along - x) + off * off) - look) if beside else abs(along - x - look)
    ctx.ge(abs(dist - look) + 1e-3, miss, "no point in reach is closer to the lookahead distance")


def geometry(ctx):
    g = dict(m=1500.0, Iz=2000.0, w_half=0.9, lf=ctx.real("lf", 0.5, 3), lr=ctx.real("lr", 0.5, 3), c_drag=0.3, a_drag=2.0, e=0.5, c_rr_f=0.01, c_rr_r=0.01, color="red", h_cog=0.5)
    g = VehicleGeometry(vehicle_type="car", **g)
    for par in (PurePursuitParam.from_vehicle_geo(g), PurePursuit.from_model_geometry(g).param):
        ctx.eq(par.length, g.lf + g.lr, "wheelbase")
        ctx.eq(par.lr, g.lr, "rear axle distance")
    ctx.raises(lambda: PurePursuit().get_desired_steering(), RuntimeError, "no steering without observations")


HARNESSES = [H(pid, name="pid:1", n=1, gains=None, budget=30), H(pid, name="pid:2", n=2, gains=(2.0, 0.5, 0.25), budget=60), H(pid, name="pid:2,PI", n=2, gains=(1.0, 4.0, 0.0), budget=40), H(pid, name="pid:3,I", n=3, gains=(0.0, 1.0, 0.0), lim=((-2.0, 3.0), (-9.0, 11.0), (-1.5, 4.0)), budget=60, thorough_budget=400), H(pid, name="pid:3,PD", n=3, gains=(1.0, 0.0, 2.0), budget=60, thorough_budget=400), H(held, budget=10)]
HARNESSES += [H(derived, name=f"derived:{w}", which=w, budget=20) for w in ("speed", "steer")]
HARNESSES += [H(goal_point, name="goal_point", beside=False, budget=40), H(goal_point, name="goal_point:beside", beside=True, budget=40), H(geometry, budget=10)]
HARNESSES += [H(steering, name=f"steering:{t}", turn=t, budget=30) for t in ("left", "right", "straight")]
HARNESSES += [H(pid, name="pid:2,symbolic", n=2, gains=None, tier="thorough", thorough_budget=300), H(pid, name="pid:3,I,limits", n=3, gains=(0.0, 1.0, 0.0), tier="thorough", thorough_budget=400), H(pid, name="pid:4", n=4, gains=(2.0, 0.5, 0.25), tier="thorough", thorough_budget=500)]
