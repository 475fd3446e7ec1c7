"""Motion laws of the models: what their equations stand for."""
from harness.models import build, scmds, sstate
from harness.util import cos, sin, tan
from symx.engine import H

META = {
    "id": "C11",
    "title": "Motion laws obey the mechanics they model",
    "statement": "The kinematic vehicle's rear axle moves along the heading at the given speed and its front axle along the steered wheel; each wheel of the differential drive rolls without slipping. Spacecraft, rocket, spaceship and (away from its limits) dynamic obstacle keep their inertial velocity and turn rate when nothing pushes them; thrust accelerates them by thrust over current mass along the nozzle direction, turns them by its lever over the inertia, and burns propellant in proportion to it, never raising the rocket's mass. An empty tank means no thrust and no mass change, and after a collision sliding friction decelerates the pedestrian's remaining motion and never speeds it up.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic states, commands and geometry (lengths, masses, inertias, thrust coefficients) in the stated ranges"},
    "why_tests_cant": "the tests check that simulations run or that a figure is produced; a wrong sign or frame in one equation shows only as odd motion for some headings, rates or masses",
    "anchors": {"files": ["src/dg_commons/sim/models/vehicle.py", "src/dg_commons/sim/models/diff_drive.py", "src/dg_commons/sim/models/spacecraft.py", "src/dg_commons/sim/models/rocket.py", "src/dg_commons/sim/models/spaceship.py", "src/dg_commons/sim/models/obstacles_dyn.py", "src/dg_commons/sim/models/pedestrian.py"],
                "mechanism": [{"name": "motion laws", "where": "src/dg_commons/sim/models/*.py dynamics"}]},
}
ASSUMPTIONS = ["states in [-10, 10], headings in [-3.1, 3.1], steering and nozzle angles in [-1.2, 1.2], masses in [1, 5], commands in [-20, 20], lengths in [0.1, 5], inertias and masses of the geometry in [0.1, 100]"]


def vehicle(ctx, model):
    geo = dict(lf=ctx.real("lf", 0.1, 5), lr=ctx.real("lr", 0.1, 5))
    x, u = sstate(ctx, model), scmds(ctx, model)
    if model.startswith("dyn"):
        ctx.assume(x.vx < 0.1)
    m = build(ctx, model, x, geo=geo)
    d = m.dynamics(x, u)
    c, s = cos(x.psi), sin(x.psi)
    lr, lf = geo["lr"], geo["lf"]
    # velocity of the axles: position rate + turn rate x lever
    rx, ry = d.x + d.psi * lr * s, d.y - d.psi * lr * c
    fx, fy = d.x - d.psi * lf * s, d.y + d.psi * lf * c
    ctx.eq(-s * rx + c * ry, 0.0, "rear axle does not slip sideways")
    ctx.eq(c * rx + s * ry, x.vx, "rear axle moves at the given speed")
    flong, flat = c * fx + s * fy, -s * fx + c * fy
    ctx.eq(flat * cos(x.delta), flong * sin(x.delta), "front axle moves along the steered wheel")
    ctx.eq(flong, x.vx, "front axle's speed along the heading")
    if model.startswith("dyn"):
        ctx.eq(d.vy, 0.0, "no lateral acceleration at standstill")
        ctx.eq(d.dpsi, 0.0, "no yaw acceleration at standstill")


def diffdrive(ctx):
    geo = dict(wheelbase=ctx.real("wheelbase", 0.1, 5), wheelradius=ctx.real("wheelradius", 0.1, 5))
    x, u = sstate(ctx, "diffdrive"), scmds(ctx, "diffdrive", lo=-4, hi=4)
    d = build(ctx, "diffdrive", x, geo=geo).dynamics(x, u)
    c, s = cos(x.psi), sin(x.psi)
    fwd = c * d.x + s * d.y
    ctx.eq(-s * d.x + c * d.y, 0.0, "no sideways motion")
    ctx.eq(fwd - d.psi * geo["wheelbase"] / 2, u.omega_l * geo["wheelradius"], "left wheel rolls without slipping")
    ctx.eq(fwd + d.psi * geo["wheelbase"] / 2, u.omega_r * geo["wheelradius"], "right wheel rolls without slipping")


def _inertial(x, d):
    """acceleration in the world, seen from the body axes, when velocities are in body axes"""
    return d.vx - x.dpsi * x.vy, d.vy + x.dpsi * x.vx


def spacecraft(ctx):
    geo = dict(m=ctx.real("gm", 0.1, 100), Iz=ctx.real("Iz", 0.1, 100), w_half=ctx.real("w", 0.1, 5))
    x, u = sstate(ctx, "spacecraft"), scmds(ctx, "spacecraft", lo=-9, hi=9)
    ctx.assume(ctx.and_(x.dpsi > -6, x.dpsi < 6))
    m = build(ctx, "spacecraft", x, geo=geo)
    d = m.dynamics(x, u)
    ax, ay = _inertial(x, d)
    ctx.eq(ax, u.acc_left + u.acc_right, "both thrusters push forward")
    ctx.eq(ay, 0.0, "no sideways push")
    ctx.eq(d.dpsi * geo["Iz"], geo["w_half"] * geo["m"] * (u.acc_right - u.acc_left), "thruster difference turns it")
    z = m.dynamics(x, u * 0.0)
    zx, zy = _inertial(x, z)
    for v, n in ((zx, "velocity (x)"), (zy, "velocity (y)"), (z.dpsi, "turn rate")):
        ctx.eq(v, 0.0, f"coasting keeps the {n}")


def rocket(ctx, empty):
    geo = dict(Iz=ctx.real("Iz", 0.1, 100), l_m=ctx.real("l_m", 0.1, 5))
    x, u = sstate(ctx, "rocket"), scmds(ctx, "rocket", lo=-20 if empty else 0.01, hi=20 if empty else 1.99)
    m = build(ctx, "rocket", x, geo=geo)
    ctx.assume(x.m <= m.rp.m_v if empty else x.m > m.rp.m_v)
    d = m.dynamics(x, u)
    c, s = cos(x.psi), sin(x.psi)
    if empty:
        for f in ("vx", "vy", "dpsi", "m"):
            ctx.eq(getattr(d, f), 0.0, f"empty tank: no change of {f}")
        return
    ax, ay = c * d.vx + s * d.vy, -s * d.vx + c * d.vy
    # engines push along (psi + phi - 90 deg) and (psi - phi + 90 deg)
    ctx.eq(ax * x.m, (u.F_left + u.F_right) * sin(x.phi), "forward acceleration of the two engines")
    ctx.eq(ay * x.m, (u.F_right - u.F_left) * cos(x.phi), "sideways acceleration of the two engines")
    ctx.eq(d.dpsi * geo["Iz"], geo["l_m"] * cos(x.phi) * (u.F_right - u.F_left), "torque of the two engines")
    ctx.eq(d.m, -m.rp.C_T * (u.F_left + u.F_right), "propellant burnt")
    ctx.le(d.m, 0.0, "mass never increases")


def rocket_burn(ctx):
    x, u = sstate(ctx, "rocket"), scmds(ctx, "rocket", lo=-50, hi=50)
    m = build(ctx, "rocket", x)
    d = m.dynamics(x, u)
    ctx.le(d.m, 0.0, "mass never increases")
    ctx.ge(d.m, -m.rp.C_T * 2 * m.rp.F_limits[1], "no more burnt than full thrust needs")


def spaceship(ctx, empty):
    geo = dict(Iz=ctx.real("Iz", 0.1, 100), l_r=ctx.real("l_r", 0.1, 5))
    x, u = sstate(ctx, "spaceship"), scmds(ctx, "spaceship", lo=-20 if empty else -1.99, hi=20 if empty else 1.99)
    m = build(ctx, "spaceship", x, geo=geo)
    ctx.assume(x.m <= m.sp.m_v if empty else x.m > m.sp.m_v)
    d = m.dynamics(x, u)
    ax, ay = _inertial(x, d)
    if empty:
        for v, f in ((ax, "velocity (x)"), (ay, "velocity (y)"), (d.dpsi, "turn rate"), (d.m, "mass")):
            ctx.eq(v, 0.0, f"empty tank: {f} kept")
        return
    ctx.eq(ax * x.m, u.thrust * cos(x.delta), "forward acceleration of the engine")
    ctx.eq(ay * x.m, u.thrust * sin(x.delta), "sideways acceleration of the engine")
    ctx.eq(d.dpsi * geo["Iz"], -geo["l_r"] * u.thrust * sin(x.delta), "torque of the engine behind the centre of gravity")
    ctx.eq(d.m, -m.sp.C_T * u.thrust, "propellant burnt")


def dynobs(ctx):
    x, u = sstate(ctx, "dynobs"), scmds(ctx, "dynobs", lo=-0.9, hi=0.9)
    m = build(ctx, "dynobs", x)
    ctx.assume(ctx.and_(x.vx < 9, x.vx > -9, x.vy > -9, x.vy < 9, x.dpsi < 1.9, x.dpsi > -1.9))
    ctx.assume(ctx.and_(abs(u.acc_x + x.dpsi * x.vy) < 3, abs(u.acc_y - x.dpsi * x.vx) < 3))
    d = m.dynamics(x, u)
    ax, ay = _inertial(x, d)
    ctx.eq(ax, u.acc_x, "longitudinal acceleration"), ctx.eq(ay, u.acc_y, "lateral acceleration")
    ctx.eq(d.dpsi, u.acc_psi, "rotational acceleration")


def friction(ctx):
    x, u = sstate(ctx, "pedestrian"), scmds(ctx, "pedestrian", lo=0, hi=0)
    m = build(ctx, "pedestrian", x)
    free = m.dynamics(x, u)
    for f in ("vx", "vy", "dpsi"):
        ctx.eq(getattr(free, f), 0.0, f"no friction before a collision ({f})")
    m.has_collided = True
    d = m.dynamics(x, u)
    for f in ("vx", "vy", "dpsi"):
        v, a = getattr(x, f), getattr(d, f)
        ctx.le(v * a, 0.0, f"friction opposes {f}")
        ctx.true(ctx.or_(v == 0, a != 0), f"friction acts on {f}")


HARNESSES = [H(lambda ctx, m=m: vehicle(ctx, m), name="kinematic_" + m, budget=40) for m in ("car", "bicycle", "truck", "dyncar")] + [
    H(diffdrive), H(spacecraft, budget=30), H(rocket, name="rocket_thrust", empty=False), H(rocket, name="rocket_empty", empty=True), H(rocket_burn, budget=40),
    H(spaceship, name="spaceship_thrust", empty=False), H(spaceship, name="spaceship_empty", empty=True), H(dynobs, budget=40), H(friction)]
