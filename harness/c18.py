"""Motion primitives, command sampling and the planning dynamics."""
from decimal import Decimal
from types import SimpleNamespace

import numpy as np
import scipy.integrate

from dg_commons.dynamics import BicycleDynamics
from dg_commons.planning.commands_sampler import CommandsSampler, CommandsSamplerParam
from dg_commons.planning.motion_primitives import MotionPrimitivesGenerator, MPGParam
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from harness.util import F, cos, sin, tan
from symx.engine import H
from symx.shims import replaced

META = {
    "id": "C18",
    "title": "Generated manoeuvres are exactly the feasible ones and follow the dynamics",
    "statement": "The motion primitives generated from a state, or from every sampled state, are exactly those leading to a sampled speed and steering angle with a constant acceleration and steering rate within the vehicle's limits; each holds one state per time step, obtained by applying the dynamics with those constant commands. Command sampling yields one step per combination of sampled acceleration and steering rate, never outside the limits, and the parameters derived from a vehicle span its limits. The planning dynamics advance by one Euler step of the kinematic bicycle with commands and resulting speed and steering clipped to the limits.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic initial states, vehicle limits, sample ranges, commands, axle distances and step lengths; 2 x 2 sampled targets (3 x 2 for command sampling), 1 to 3 steps, for an arbitrary dynamics with linear speed and steering"},
    "why_tests_cant": "the tests generate one set with the default car and only plot it; a missing, infeasible or doubled manoeuvre cannot be noticed",
    "anchors": {"files": ["src/dg_commons/planning/motion_primitives.py", "src/dg_commons/planning/commands_sampler.py", "src/dg_commons/dynamics/bicycle_dynamic.py"],
                "mechanism": [{"name": "primitive generation", "where": "src/dg_commons/planning/motion_primitives.py generate, check_input_constraints"},
                              {"name": "command sampling", "where": "src/dg_commons/planning/commands_sampler.py"},
                              {"name": "planning dynamics", "where": "src/dg_commons/dynamics/bicycle_dynamic.py successor, successor_ivp"}]},
}
ASSUMPTIONS = ["speeds in [-5, 20], steering in [-1, 1], limits in matching ranges, steps in [0.125, 1] s; sampled values at least 0.25 apart"]


def _vp(ctx):
    a, b = ctx.real("acc_lo", -8, -0.25), ctx.real("acc_hi", 0.25, 8)
    return VehicleParameters(vx_limits=(ctx.real("v_lo", -5, 0), ctx.real("v_hi", 1, 20)), acc_limits=(a, b), delta_max=ctx.real("delta_max", 0.25, 1), ddelta_max=ctx.real("ddelta_max", 0.125, 1))


class Dyn:
    """linear speed and steering, positions that record the step"""

    def __init__(self):
        self.calls = []

    def __call__(self, x, u, dt):
        self.calls.append((x, u, dt))
        return VehicleState(x=x.x + 1.0, y=float(len(self.calls)), psi=x.psi, vx=x.vx + u.acc * dt, delta=x.delta + u.ddelta * dt)


def primitives(ctx, n_steps, given):
    vp = _vp(ctx)
    v0, v1 = ctx.real("v0", -5, 20), ctx.real("v1", -5, 20)
    s0, s1 = ctx.real("s0", -1, 1), ctx.real("s1", -1, 1)
    ctx.assume(ctx.and_(v1 - v0 >= 0.25, s1 - s0 >= 0.25))
    dt = ctx.real("dt", 0.125, 1, kind="d")
    if not given:
        dt = Decimal("0.5")
    dyn = Dyn()
    gen = MotionPrimitivesGenerator(MPGParam(dt=dt, n_steps=n_steps, velocity=(v0, v1, 2), steering=(s0, s1, 2)), dyn, vp)
    x0 = VehicleState(x=1.0, y=2.0, psi=0.5, vx=ctx.real("vx", -5, 20), delta=ctx.real("delta", -1, 1)) if given else None
    got = sorted(gen.generate(x0) if given else gen.generate(), key=lambda t: t.values[1].y)
    T = n_steps * F(dt)
    starts = [(x0.vx, x0.delta)] if given else [(v, s) for v in (v0, v1) for s in (s0, s1)]
    want = []
    for vs, ss in starts:
        for ve in (v0, v1):
            for se in (s0, s1):
                acc, rate = (ve - vs) / T, (se - ss) / T
                if ctx.cond(ctx.and_(acc >= vp.acc_limits[0], acc <= vp.acc_limits[1], rate >= -vp.ddelta_max, rate <= vp.ddelta_max)):
                    want.append((vs, ss, ve, se))
    ctx.true(len(got) == len(want), "exactly the feasible targets")
    if len(got) != len(want):
        return
    left = list(got)
    for vs, ss, ve, se in want:
        hit = None
        for t in left:
            a, e = t.values[0], t.values[-1]
            if ctx.cond(ctx.and_(abs(e.vx - ve) <= 1e-4, abs(e.delta - se) <= 1e-4, abs(a.vx - vs) <= 1e-4, abs(a.delta - ss) <= 1e-4)):
                hit = t
                break
        ctx.true(hit is not None, "every feasible target is reached exactly")
        if hit is None:
            return
        left.remove(hit)
        ctx.seq_eq([F(t) for t in hit.timestamps], [k * F(dt) for k in range(n_steps + 1)], "one state per step")
        a = hit.values[0]
        ctx.seq_eq([a.x, a.y, a.psi], [1.0, 2.0, 0.5] if given else [0.0, 0.0, 0.0], "starts at the given pose")
        for k, x in enumerate(hit.values):
            ctx.eq(x.vx, vs + (ve - vs) * k / n_steps, "constant acceleration")
            ctx.eq(x.delta, ss + (se - ss) * k / n_steps, "constant steering rate")
            ctx.eq(x.x, a.x + k, "states come from the dynamics")


def mp_param(ctx):
    vp = _vp(ctx)
    p = MPGParam.from_vehicle_parameters(dt=Decimal("0.5"), n_steps=3, n_vel=4, n_steer=5, vp=vp)
    ctx.true((p.dt, p.n_steps, p.velocity[2], p.steering[2]) == (Decimal("0.5"), 3, 4, 5), "steps and sample counts")
    ctx.seq_eq(p.velocity[:2], vp.vx_limits, "speeds span the limits")
    ctx.seq_eq(p.steering[:2], [-vp.delta_max, vp.delta_max], "steering spans the limits")
    q = CommandsSamplerParam.from_vehicle_parameters(dt=Decimal("0.5"), n_steps=1, n_acc=3, n_steer_rate=2, vp=vp)
    ctx.true((q.dt, q.n_steps, q.acc[2], q.steer_rate[2]) == (Decimal("0.5"), 1, 3, 2), "steps and sample counts of the commands")
    ctx.seq_eq(q.acc[:2], vp.acc_limits, "accelerations span the limits")
    ctx.seq_eq(q.steer_rate[:2], [-vp.ddelta_max, vp.ddelta_max], "steering rates span the limits")
    x0 = VehicleState(x=0.0, y=0.0, psi=0.0, vx=1.0, delta=0.0)
    ctx.true(len(CommandsSampler(q, Dyn(), vp).generate(x0)) == 6, "usable with the vehicle they were derived from")


def sampler(ctx):
    vp = _vp(ctx)
    a0, a1, r0, r1 = ctx.real("a0", -8, 8), ctx.real("a1", -8, 8), ctx.real("r0", -1, 1), ctx.real("r1", -1, 1)
    dt = ctx.real("dt", 0.125, 1, kind="d")
    ctx.assume(ctx.and_(a1 - a0 >= 0.25, r1 - r0 >= 0.25))
    legal = ctx.and_(vp.acc_limits[0] <= a0, a1 <= vp.acc_limits[1], -vp.ddelta_max <= r0, r1 <= vp.ddelta_max)
    par = CommandsSamplerParam(dt=dt, n_steps=1, acc=(a0, a1, 3), steer_rate=(r0, r1, 2))
    x0 = VehicleState(x=1.0, y=2.0, psi=0.5, vx=ctx.real("vx", -5, 20), delta=ctx.real("delta", -1, 1))
    dyn = Dyn()
    if not ctx.cond(legal):
        ctx.raises(lambda: CommandsSampler(par, dyn, vp), AssertionError, "commands outside the limits are refused")
        ok = CommandsSampler(CommandsSamplerParam(dt=dt, n_steps=1, acc=(0.0, 0.0, 1), steer_rate=(0.0, 0.0, 1)), dyn, vp)
        ctx.raises(lambda: ok.update_params(par), AssertionError, "commands outside the limits are refused later on")
        return
    got = sorted(CommandsSampler(par, dyn, vp).generate(x0), key=lambda t: t.values[1].y)
    ctx.true(len(got) == 6 and len(dyn.calls) == 6, "one step per combination")
    left = list(got)
    for a in (a0, (a0 + a1) / 2, a1):
        for r in (r0, r1):
            hit = None
            for t in left:
                e = t.values[-1]
                if ctx.cond(ctx.and_(abs(e.vx - x0.vx - a * F(dt)) <= 1e-6, abs(e.delta - x0.delta - r * F(dt)) <= 1e-6)):
                    hit = t
                    break
            ctx.true(hit is not None, "every combination is sampled")
            if hit is None:
                return
            left.remove(hit)
            ctx.seq_eq([F(t) for t in hit.timestamps], [0.0, F(dt)], "one step")
            ctx.true(hit.values[0] is x0 or hit.values[0] == x0, "starts at the given state")


def _bike(ctx):
    lf, lr = ctx.real("lf", 0.5, 3), ctx.real("lr", 0.5, 3)
    return BicycleDynamics(VehicleGeometry.default_car(lf=lf, lr=lr), _vp(ctx)), lf, lr


def _state(ctx):
    return VehicleState(x=ctx.real("x", -10, 10), y=ctx.real("y", -10, 10), psi=ctx.angle("psi", -3.1, 3.1), vx=ctx.real("vx", -30, 30), delta=ctx.real("delta", -1.2, 1.2))


def _rate(x, lf, lr):
    w = x.vx * tan(x.delta) / (lf + lr)
    return x.vx * cos(x.psi) - w * lr * sin(x.psi), x.vx * sin(x.psi) + w * lr * cos(x.psi), w


def _clip(ctx, v, lo, hi):
    return ctx.ite(v < lo, lo, ctx.ite(v > hi, hi, v))


def euler(ctx, kind):
    bike, lf, lr = _bike(ctx)
    vp, x = bike.vp, _state(ctx)
    u = VehicleCommands(acc=ctx.real("acc", -20, 20), ddelta=ctx.real("ddelta", -3, 3))
    dt = ctx.real("dt", 0.015625, 1, kind=kind)
    x1 = bike.successor(x, u, dt)
    before = _state(ctx)
    ctx.seq_eq([x.x, x.y, x.psi, x.vx, x.delta], [before.x, before.y, before.psi, before.vx, before.delta], "the given state is kept")
    h = F(dt)
    dx, dy, w = _rate(x, lf, lr)
    ctx.eq(x1.x, x.x + h * dx, "x")
    ctx.eq(x1.y, x.y + h * dy, "y")
    ctx.eq(x1.psi, x.psi + h * w, "heading")
    acc = _clip(ctx, u.acc, *vp.acc_limits)
    rate = _clip(ctx, u.ddelta, -vp.ddelta_max, vp.ddelta_max)
    ctx.eq(x1.vx, _clip(ctx, x.vx + h * acc, *vp.vx_limits), "speed, clipped")
    ctx.eq(x1.delta, _clip(ctx, x.delta + h * rate, -vp.delta_max, vp.delta_max), "steering, clipped")


def ivp(ctx):
    bike, lf, lr = _bike(ctx)
    x = _state(ctx)
    u = VehicleCommands(acc=ctx.real("acc", -20, 20), ddelta=ctx.real("ddelta", -3, 3))
    dt = ctx.real("dt", 0.015625, 1, kind="d")
    seen = {}
    probe = VehicleState(x=0.0, y=0.0, psi=ctx.angle("ppsi", -3.1, 3.1), vx=ctx.real("pvx", -20, 20), delta=ctx.real("pdelta", -1.2, 1.2))
    end = ctx.reals("end", 5, -10, 10)
    good = ctx.choice("success", [True, False])

    def integrator(fun, t_span, y0, *a, **k):
        y = np.array([probe.x, probe.y, probe.psi, probe.vx, probe.delta, y0[5], y0[6]])
        seen.update(t=t_span, y0=list(y0), rhs=fun(0.5, y))
        return SimpleNamespace(success=good, status=0 if good else -1, message="", t=np.array([0.0, 1.0]), y=np.array([[y0[i], v] for i, v in enumerate(end + [y0[5], y0[6]])]))

    with replaced(scipy.integrate.solve_ivp, integrator):
        if not good:
            ctx.raises(lambda: bike.successor_ivp(x, u, dt), RuntimeError, "failed integration is reported")
            return
        x1 = bike.successor_ivp(x, u, dt)
    ctx.seq_eq([F(t) for t in seen["t"]], [0.0, F(dt)], "integrates over the step")
    ctx.seq_eq(seen["y0"], [x.x, x.y, x.psi, x.vx, x.delta, u.acc, u.ddelta], "starts at the given state and commands")
    dx, dy, w = _rate(probe, lf, lr)
    ctx.seq_eq(list(seen["rhs"]), [dx, dy, w, u.acc, u.ddelta, 0.0, 0.0], "kinematic bicycle")
    ctx.seq_eq([x1.x, x1.y, x1.psi, x1.vx, x1.delta], end, "the integrator's final state")


HARNESSES = [H(primitives, name=f"primitives from a state, {n} steps", n_steps=n, given=True, budget=40) for n in (1, 3)]
HARNESSES += [H(primitives, name="primitives from every sample", n_steps=2, given=False, budget=60),
              H(mp_param, budget=15), H(sampler, budget=40), H(euler, name="euler", kind="f", budget=40), H(euler, name="euler decimal step", kind="d", budget=40), H(ivp, budget=20)]
