"""Single-track dynamic vehicle with tyres."""
from dataclasses import replace

from dg_commons.sim.models.tires import Pacejka, Pacejka4p
from harness.models import NO_GRIP, build, scmds, sstate
from harness.util import cos, sin
from symx.engine import H

META = {
    "id": "C12",
    "title": "The dynamic vehicle's tyre, drag and load forces act in the right sense",
    "statement": "A tyre's lateral coefficient never exceeds its peak, is odd in the slip angle and, with car tyres, pushes against the slip; in the vehicle each axle's lateral force opposes that axle's sideways motion and stays within peak friction times axle load. Driving straight, the vehicle accelerates by the commanded acceleration minus rolling resistance (rolling coefficient times axle load, the load shifting rearwards when accelerating) and air drag of half density times area times coefficient times speed squared. The law is mirror symmetric, steering turns the vehicle towards the steered side, and after a collision an extra friction opposes every remaining velocity.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic states at 0.1 m/s or more with the front wheel rolling forward, all commands, symbolic tyre coefficients for the tyre claims and default car geometry for the vehicle claims"},
    "why_tests_cant": "the tests plot simulated runs; force signs and limits depend on the sign combination of slip, steering, yaw rate and braking",
    "anchors": {"files": ["src/dg_commons/sim/models/vehicle_dynamic.py", "src/dg_commons/sim/models/tires.py"],
                "mechanism": [{"name": "single track dynamics", "where": "src/dg_commons/sim/models/vehicle_dynamic.py VehicleModelDyn.dynamics"},
                              {"name": "tyre curve", "where": "src/dg_commons/sim/models/tires.py Pacejka.evaluate"}]},
}
ASSUMPTIONS = ["longitudinal speed in [0.1, 10], lateral speed and yaw rate in [-10, 10], steering in [-1.2, 1.2], the front wheel rolling forward at 0.01 m/s or more",
               "both axles carry load (the car does not tip over)", "sine, arc tangent and square root are represented by their defining equations, sign and order facts"]
G, RHO = 9.81, 1.249512


def tyre(ctx, kind, car):
    D = ctx.real("D", 0.1, 2)
    if car:
        t = replace(getattr(Pacejka4p if kind == 4 else Pacejka, "default_car_" + car)(), D=D)
    else:
        B, C = ctx.real("B", 1, 20), ctx.real("C", 1, 2)
        t = Pacejka4p(B=B, C=C, D=D, E=ctx.real("E", -1, 1)) if kind == 4 else Pacejka(B=B, C=C, D=D)
    s = ctx.real("slip", -1.5, 1.5)
    v = t.evaluate(s)
    ctx.le(v, D, "within the peak"), ctx.ge(v, -D, "within the peak (negative)")
    ctx.eq(t.evaluate(-s), -v, "odd")
    if car:
        ctx.ge(v * s, 0.0, "the sign of the slip")
    ctx.eq(t.evaluate(0.0), 0.0, "no force without slip")


def _front(ctx, m, x):
    ctx.assume(x.vx >= 0.1)
    ctx.assume(cos(x.delta) * x.vx + sin(x.delta) * (x.vy + m.vg.lf * x.dpsi) >= 0.01)


def axles(ctx):
    """lateral forces recovered from the accelerations, wheels straight"""
    x = sstate(ctx, "dyncar", delta=0.0)
    u = scmds(ctx, "dyncar", lo=-7, hi=4)
    m = build(ctx, "dyncar", x)
    ctx.assume(x.vx >= 0.1)
    d = m.dynamics(x, u)
    g = m.vg
    L = g.lf + g.lr
    Y = g.m * (d.vy + x.dpsi * x.vx)
    F1, F2 = (Y * g.lr + g.Iz * d.dpsi) / L, (Y * g.lf - g.Iz * d.dpsi) / L
    v1, v2 = x.vy + g.lf * x.dpsi, x.vy - g.lr * x.dpsi
    ctx.le(F1 * v1, 0.0, "front axle force opposes its sideways motion")
    ctx.le(F2 * v2, 0.0, "rear axle force opposes its sideways motion")
    n1, n2 = g.m * (G * g.lr - g.h_cog * u.acc) / L, g.m * (G * g.lf + g.h_cog * u.acc) / L
    p1, p2 = m.pacejka_front.D, m.pacejka_rear.D
    for F, n, p, k in ((F1, n1, p1, "front"), (F2, n2, p2, "rear")):
        ctx.le(F, p * n, f"{k} axle force within friction"), ctx.ge(F, -p * n, f"{k} axle force within friction (negative)")


def straight(ctx):
    c1, c2 = ctx.real("crr_f", 0, 0.1), ctx.real("crr_r", 0, 0.1)
    geo = dict(c_rr_f=c1, c_rr_r=c2, c_drag=ctx.real("cd", 0, 1), a_drag=ctx.real("area", 0, 5), h_cog=ctx.real("h", 0, 1), lf=ctx.real("lf", 0.5, 3), lr=ctx.real("lr", 0.5, 3))
    x = sstate(ctx, "dyncar", delta=0.0, vy=0.0, dpsi=0.0)
    ctx.assume(x.vx >= 0.1)
    u = scmds(ctx, "dyncar", lo=-7, hi=4)
    m = build(ctx, "dyncar", x, geo=geo)
    g = m.vg
    L = g.lf + g.lr
    ctx.assume(ctx.and_(G * g.lr - g.h_cog * u.acc >= 0.1, G * g.lf + g.h_cog * u.acc >= 0.1))
    d = m.dynamics(x, u)
    n1, n2 = g.m * (G * g.lr - g.h_cog * u.acc), g.m * (G * g.lf + g.h_cog * u.acc)
    want = (g.m * u.acc - 0.5 * RHO * g.a_drag * g.c_drag * x.vx * x.vx) * L - c1 * n1 - c2 * n2
    ctx.eq(d.vx * g.m * L, want, "straight line acceleration", tol=1e-4)
    ctx.eq(d.vy, 0.0, "no lateral acceleration"), ctx.eq(d.dpsi, 0.0, "no yaw acceleration"), ctx.eq(d.psi, 0.0, "no turning")


def mirror(ctx):
    x = sstate(ctx, "dyncar")
    u = scmds(ctx, "dyncar", lo=-7, hi=4)
    m = build(ctx, "dyncar", x)
    _front(ctx, m, x)
    a = m.dynamics(x, u)
    y = replace(x, y=-x.y, psi=-x.psi, vy=-x.vy, dpsi=-x.dpsi, delta=-x.delta)
    b = m.dynamics(y, replace(u, ddelta=-u.ddelta))
    for f, k in (("x", 1), ("y", -1), ("psi", -1), ("vx", 1), ("vy", -1), ("dpsi", -1), ("delta", -1)):
        ctx.eq(getattr(a, f), k * getattr(b, f), f"mirrored {f}")


def turn_in(ctx):
    x = sstate(ctx, "dyncar", vy=0.0, dpsi=0.0)
    ctx.assume(ctx.and_(x.delta > 0.01, x.delta < 1, x.vx >= 0.1))
    u = scmds(ctx, "dyncar", lo=0.1, hi=0.4)
    m = build(ctx, "dyncar", x)
    d = m.dynamics(x, u)
    ctx.ge(d.dpsi, 0.0, "turns towards the steered side")
    ctx.ge(d.vy, 0.0, "is pushed towards the steered side")


def friction(ctx, model):
    x = sstate(ctx, model, delta=0.0)
    u = scmds(ctx, model, lo=0.01, hi=0.4)
    m = build(ctx, model, x)
    m.pacejka_front = m.pacejka_rear = NO_GRIP
    a = m.dynamics(x, u)
    m.has_collided = True
    b = m.dynamics(x, u)
    for f in ("vx", "vy", "dpsi"):
        v, extra = getattr(x, f), getattr(b, f) - getattr(a, f)
        ctx.le(extra * v, 0.0, f"friction opposes {f}")
        ctx.true(ctx.or_(v == 0, extra != 0), f"friction acts on {f}")
    for f in ("x", "y", "psi", "delta"):
        ctx.eq(getattr(a, f), getattr(b, f), f"{f} rate as before")


def beyond(ctx, model):
    """a command beyond what the vehicle can do (or at its top speed) acts as what it can do"""
    top = build(ctx, model, sstate(ctx, model)).vp.vx_limits[1]
    x = sstate(ctx, model, psi=0.5, delta=0.25, vx=ctx.choice("vx", [0.5, 5.0, top, top + 1]), vy=-0.25, dpsi=0.125)
    m = build(ctx, model, x)
    lo, hi = m.vp.acc_limits
    u = scmds(ctx, model, lo=-30, hi=30)
    ctx.assume(ctx.and_(u.ddelta >= -0.1, u.ddelta <= 0.1))
    acc = ctx.ite(u.acc > hi, hi, ctx.ite(u.acc < lo, lo, u.acc))
    acc = ctx.ite(ctx.and_(x.vx >= top, acc > 0), 0.0, acc)
    ctx.assume(ctx.and_(G * m.vg.lr - m.vg.h_cog * acc >= 0.1, G * m.vg.lf + m.vg.h_cog * acc >= 0.1))
    a, b = m.dynamics(x, u), m.dynamics(x, replace(u, acc=acc))
    for f in ("x", "y", "psi", "vx", "vy", "dpsi", "delta"):
        ctx.eq(getattr(a, f), getattr(b, f), f"{f} rate of what the vehicle can do")


def split(ctx, model):
    m = build(ctx, model, sstate(ctx, model))
    F = ctx.real("F", -1000, 1000)
    a, b = m.get_acceleration_split(F)
    ctx.eq(a + b, F, "front and rear share add up"), ctx.ge(a * F, 0.0, "front share has the sign"), ctx.ge(b * F, 0.0, "rear share has the sign")


HARNESSES = [H(tyre, name="tyre_car_front", kind=3, car="front"), H(tyre, name="tyre_car_rear", kind=3, car="rear"), H(tyre, name="tyre4_car_front", kind=4, car="front"), H(tyre, name="tyre4_car_rear", kind=4, car="rear"),
             H(tyre, name="tyre_any", kind=3, car=None), H(tyre, name="tyre4_any", kind=4, car=None),
             H(axles, budget=60), H(straight, budget=40), H(mirror, budget=80), H(turn_in, budget=50), H(friction, name="friction_car", model="dyncar"), H(friction, name="friction_bicycle", model="dynbicycle"),
             H(beyond, name="beyond_car", model="dyncar", budget=60), H(beyond, name="beyond_bicycle", model="dynbicycle", budget=60),
             H(split, name="split_car", model="dyncar"), H(split, name="split_bicycle", model="dynbicycle")]
