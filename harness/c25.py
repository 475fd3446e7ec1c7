"""Agents: plan following, policies and the lane follower."""
import contextlib
import math
from types import SimpleNamespace

import scipy.optimize

from dg_commons import DgSampledSequence, SE2Transform
from dg_commons.controllers.pid import PID
from dg_commons.controllers.pure_pursuit import PurePursuit
from dg_commons.controllers.speed import SpeedBehavior, SpeedControllerParam
from dg_commons.controllers.steer import SteerControllerParam
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons.seq.sequence import UndefinedAtTime
from dg_commons.sim.agents.agent import NPAgent, PolicyAgent
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from dg_commons.sim.simulator_structures import InitSimObservations, PlayerObservations, SimObservations
from harness.simstubs import P, Q, R
from harness.util import cos, sin
from symx.engine import H
from symx.shims import replaced

META = {
    "id": "C25",
    "title": "Agents command what their plan, policy or lane following rule says",
    "statement": "An agent with a command plan returns the planned command at or before the time observed, and an agent with a policy returns its policy's answer to its own state. The lane follower observes its own state, hands pose, progress along its lane and reference speed to its pure pursuit and speed behaviour, and returns the speed and steering controllers' commands tracking these references within the vehicle's limits. After the first emergency its reference speed is zero for the rest of the episode, while a new episode starts afresh.",
    "quantifier": {"over": ["inputs", "histories"], "text": "all plans of up to 4 symbolic times and all symbolic query times; all states of up to 3 players under every name; lane followers over sequences of up to 3 requests with every symbolic pose, speed, steering angle, reference, desired steering, emergency schedule and vehicle limits on a straight lane"},
    "why_tests_cant": "tests drive agents through one simulation and assert nothing on their commands",
    "anchors": {"files": ["src/dg_commons/sim/agents/agent.py", "src/dg_commons/sim/agents/lane_follower.py"],
                "mechanism": [{"name": "plan", "where": "src/dg_commons/sim/agents/agent.py NPAgent.get_commands"},
                              {"name": "policy", "where": "src/dg_commons/sim/agents/agent.py PolicyAgent.get_commands"},
                              {"name": "lane follower", "where": "src/dg_commons/sim/agents/lane_follower.py LFAgent.get_commands, on_episode_init"}]},
}
ASSUMPTIONS = ["scipy's minimize_scalar is replaced by its specification (it returns the closest centre line point); the controllers' laws themselves are C20's matter and are used here as reference",
               "the speed behaviour and the desired steering are scripted by stand-ins with the public interface of the real ones (C20 and C21 decide those), except in the harness of the defaults"]


def _obs(t, **st):
    return SimObservations(players={n: PlayerObservations(state=s, occupancy=None) for n, s in st.items()}, time=t)


def plan(ctx, n):
    ts = ctx.timestamps("t", n)
    vals = [f"command {i}" for i in range(n)]
    a = NPAgent(DgSampledSequence(timestamps=ts, values=vals))
    a.on_episode_init(InitSimObservations(my_name=P, seed=0))
    for k in range(2):
        t = ctx.real(f"at{k}", -2, 12)
        if ctx.cond(t < ts[0]):
            ctx.raises(lambda: a.get_commands(_obs(t, P="state")), UndefinedAtTime, "nothing planned yet")
            continue
        got = a.get_commands(_obs(t, P="state"))
        i = vals.index(got)
        ctx.ge(t, ts[i], "the command has started")
        if i < n - 1:
            ctx.true(ctx.cond(t < ts[i + 1]), "the next command has not")


def policy(ctx, me):
    states = {n: ctx.real("state_" + n, -5, 5) for n in ("P", "Q", "R")}
    seen = []
    g = ctx.real("gain", -3, 3)

    def law(x):
        seen.append(x)
        return g * x

    a = PolicyAgent(law)
    a.on_episode_init(InitSimObservations(my_name=me, seed=0))
    b = PolicyAgent(lambda x: x)
    b.on_episode_init(InitSimObservations(my_name=Q, seed=0))
    for t in (0.0, 1.0):
        u = a.get_commands(_obs(t, **states))
        ctx.eq(u, g * states[me], "the policy's answer to the own state")
        ctx.true(seen[-1] is states[me], "the policy sees the own state")
        states = {n: v + 1 for n, v in states.items()}
    ctx.eq(b.get_commands(_obs(2.0, **states)), states["Q"], "another agent's own state")


class Scripted(SpeedBehavior):
    def __init__(self, ctx, script):
        super().__init__()
        self.script, self.seen, self.at = script, [], []

    def update_observations(self, agents):
        super().update_observations(agents)
        self.seen.append(agents)

    def get_speed_ref(self, at):
        self.at.append(at)
        return self.script[len(self.at) - 1]


class Steered(PurePursuit):
    def __init__(self, script):
        super().__init__()
        self.script, self.log, self.paths = script, [], []

    def update_path(self, path):
        super().update_path(path)
        self.paths.append(path)

    def get_desired_steering(self):
        self.log.append((self.pose, self.along_path, self.speed))
        return self.script[len(self.log) - 1]


GEO = dict(m=1500.0, Iz=2000.0, w_half=0.9, lf=1.3, lr=1.6, c_drag=0.3, a_drag=2.0, e=0.5, c_rr_f=0.01, c_rr_r=0.01, color="red", h_cog=0.5)


def _lane(ctx):
    L = ctx.real("lane_length", 5, 60)
    return L, DgLanelet([LaneCtrPoint(SE2Transform([0.0, 0.0], 0.0), 2.0), LaneCtrPoint(SE2Transform([L, 0.0], 0.0), 2.0)])


def follower(ctx, n, me, emergency=None, wide=False):
    """n requests of a lane follower; its two references are scripted"""
    vmin, amin = (-100.0, -1000.0) if wide else (-2.0, -8.0)  # wide: limits out of reach
    vmax, dmax = (100.0, 3.0) if wide else (ctx.real("vx_max", 5, 30), ctx.real("delta_max", 0.25, 1))
    acc, dd = (1000.0, 100.0) if wide else (ctx.real("acc_max", 0.5, 6), ctx.real("ddelta_max", 0.25, 2))
    vp = VehicleParameters(vx_limits=(vmin, vmax), acc_limits=(amin, acc), delta_max=dmax, ddelta_max=dd)
    L, lane = _lane(ctx)
    refs = [ctx.real(f"speed_ref{i}", -5, 40) for i in range(n)]
    alarm = [ctx.boolean(f"emergency{i}") for i in range(n)] if emergency is None else emergency
    want_delta = [ctx.real(f"delta_ref{i}", -1.5, 1.5) for i in range(n)]
    sb, pp = Scripted(ctx, list(zip(refs, alarm))), Steered(want_delta)
    a = LFAgent(lane, model_params=vp, model_geo=VehicleGeometry(vehicle_type="car", **GEO), speed_behavior=sb, pure_pursuit=pp)
    a.on_episode_init(InitSimObservations(my_name=me, seed=0))
    ctx.true(sb.my_name == me, "the speed behaviour knows whom it serves")
    ctx.true(bool(pp.paths) and pp.path is lane, "pure pursuit follows the lane")
    speed = PID(SpeedControllerParam(setpoint_minmax=(vmin, vmax), output_minmax=(amin, acc)))
    steer = PID(SteerControllerParam(setpoint_minmax=(-dmax, dmax), output_minmax=(-dd, dd)))
    t, stopped = ctx.real("t0", 0, 4), False
    for i in range(n):
        if i:
            t = t + ctx.real(f"gap{i}", 0.0625, 1)
        frac, lat = ctx.real(f"frac{i}", 0.0625, 0.9375), ctx.real(f"lateral{i}", *((0.25, 1.75) if wide else (-3, 3)))
        psi = ctx.angle(f"psi{i}", *((-1.5, 1.5) if wide else (-3, 3)))
        mine = VehicleState(x=frac * L, y=lat, psi=psi, vx=ctx.real(f"vx{i}", -5, 30), delta=ctx.real(f"delta{i}", -1, 1))
        other = VehicleState(x=ctx.real(f"ox{i}", -10, 10), y=3.0, psi=0.5, vx=ctx.real(f"ovx{i}", -5, 30), delta=0.25)
        obs = _obs(t, **{me: mine, "Z": other})
        if ctx.symbolic:
            with replaced(scipy.optimize.minimize_scalar, lambda fun, **k: SimpleNamespace(x=frac, fun=fun(frac), success=True)):
                u = a.get_commands(obs)
        else:
            u = a.get_commands(obs)
        ctx.true(len(sb.seen) == i + 1 and sb.seen[i] is obs.players, "the speed behaviour is shown the players")
        ctx.eq(sb.at[i], t, "the reference is asked for now")
        pose, along, v = pp.log[i]
        ctx.seq_eq([pose[0, 2], pose[1, 2], pose[0, 0], pose[1, 0]], [frac * L, lat, cos(psi), sin(psi)], "own pose")
        ctx.eq(along, frac * L, "progress along the lane", 1e-4 if ctx.symbolic else 0.4)
        if ctx.cond(alarm[i]):
            stopped = True
        ref = 0.0 if stopped else refs[i]
        ctx.eq(v, ref, "reference speed" if not stopped else "no speed after an emergency")
        for c, r, m, got, name in ((speed, ref, mine.vx, u.acc, "acceleration"), (steer, want_delta[i], mine.delta, u.ddelta, "steering rate")):
            c.update_reference(r)
            c.update_measurement(m)
            ctx.eq(got, c.get_control(t), f"{name} tracks the reference")
        ctx.true(ctx.cond(ctx.and_(u.acc >= amin, u.acc <= acc, u.ddelta >= -dd, u.ddelta <= dd)), "within the vehicle's limits")


def apart(ctx):
    """an emergency of one agent, or of an earlier agent, does not stop another"""
    vp = VehicleParameters.default_car()
    L, lane = _lane(ctx)
    e = ctx.boolean("emergency")
    r = ctx.real("speed_ref", 1, 10)
    agents = []
    for k, (alarm, me) in enumerate(((e, P), (False, Q))):
        sb, pp = Scripted(ctx, [(r, alarm)] * 2), Steered([0.0, 0.0])
        a = LFAgent(lane, vp, VehicleGeometry(vehicle_type="car", **GEO), speed_behavior=sb, pure_pursuit=pp)
        a.on_episode_init(InitSimObservations(my_name=me, seed=0))
        agents.append((a, pp))
    st = VehicleState(x=L / 2, y=0.0, psi=0.0, vx=3.0, delta=0.0)
    for a, _ in agents:
        for t in (0.0, 0.5):
            with replaced(scipy.optimize.minimize_scalar, lambda fun, **k: SimpleNamespace(x=0.5, fun=fun(0.5), success=True)):
                a.get_commands(_obs(t, P=st, Q=st))
    stop = ctx.cond(e)
    for a, pp in agents[:1]:
        ctx.seq_eq([v for _, _, v in pp.log], [0.0 if stop else r] * 2, "own emergency")
    ctx.seq_eq([v for _, _, v in agents[1][1].log], [r, r], "the other's emergency does not matter")


def again(ctx, n):
    """a second episode of the same agent is like the first one of a new agent"""
    vp = VehicleParameters(vx_limits=(-100.0, 100.0), acc_limits=(-1000.0, 1000.0), delta_max=3.0, ddelta_max=100.0)
    lane = DgLanelet([LaneCtrPoint(SE2Transform([0.0, 0.0], 0.0), 2.0), LaneCtrPoint(SE2Transform([20.0, 0.0], 0.0), 2.0)])
    geo = VehicleGeometry(vehicle_type="car", **GEO)
    alarm = [ctx.boolean(f"emergency{i}") for i in range(n)] + [False]
    ref, delta = ctx.reals("speed_ref", n + 1, 1, 20), ctx.reals("delta_ref", n + 1, -1, 1)
    vx, st = ctx.reals("vx", n + 1, 0, 20), ctx.reals("delta", n + 1, -1, 1)
    make = lambda k: LFAgent(lane, vp, geo, speed_behavior=Scripted(ctx, list(zip(ref, alarm))[k:]), pure_pursuit=Steered(delta[k:]))
    ask = lambda a, i, t: a.get_commands(_obs(t, P=VehicleState(x=10.0, y=0.5, psi=0.25, vx=vx[i], delta=st[i])))
    old, new = make(0), make(n)
    with replaced(scipy.optimize.minimize_scalar, lambda fun, **k: SimpleNamespace(x=0.5, fun=fun(0.5), success=True)) if ctx.symbolic else contextlib.nullcontext():
        old.on_episode_init(InitSimObservations(my_name=P, seed=0))
        t = ctx.real("t0", 0, 4)
        for i in range(n):
            ask(old, i, t)
            t = t + ctx.real(f"gap{i}", 0.0625, 1)
        start = ctx.real("start", 0, 4)
        for a in (old, new):
            a.on_episode_init(InitSimObservations(my_name=P, seed=0))
        got, want = ask(old, n, start), ask(new, n, start)
    ctx.eq(old.pure_pursuit.log[n][2], ref[n], "no emergency left over")
    ctx.seq_eq([got.acc, got.ddelta], [want.acc, want.ddelta], "as if it had not driven before")


def defaults(ctx):
    """without given parts the agent builds them from the vehicle"""
    geo = VehicleGeometry(vehicle_type="car", **{**GEO, "lf": ctx.real("lf", 0.5, 3), "lr": ctx.real("lr", 0.5, 3)})
    lim = (-3.0, ctx.real("vx_max", 5, 30)), (-ctx.real("brake", 1, 9), ctx.real("acc_max", 1, 6))
    vp = VehicleParameters(vx_limits=lim[0], acc_limits=lim[1], delta_max=ctx.real("delta_max", 0.25, 1), ddelta_max=ctx.real("ddelta_max", 0.25, 2))
    L, lane = _lane(ctx)
    a = LFAgent(lane, vp, geo)
    a.on_episode_init(InitSimObservations(my_name=P, seed=0))
    ctx.eq(a.pure_pursuit.param.length, geo.lf + geo.lr, "wheelbase")
    ctx.eq(a.pure_pursuit.param.lr, geo.lr, "rear axle")
    ctx.seq_eq([*a.speed_controller.params.setpoint_minmax, *a.speed_controller.params.output_minmax], [*lim[0], *lim[1]], "speed limits")
    ctx.seq_eq([*a.steer_controller.params.setpoint_minmax, *a.steer_controller.params.output_minmax], [-vp.delta_max, vp.delta_max, -vp.ddelta_max, vp.ddelta_max], "steering limits")
    ctx.true(a.speed_behavior.my_name == P and a.pure_pursuit.path is lane, "set up at the start of the episode")
    b = LFAgent(lane, vp, geo)
    ctx.true(b.speed_behavior is not a.speed_behavior and b.pure_pursuit is not a.pure_pursuit and b.speed_controller is not a.speed_controller, "own parts per agent")
    ctx.true(a.on_get_extra() is None, "no extra unless asked for")


HARNESSES = [H(plan, name=f"plan:{n}", n=n, budget=20) for n in (1, 2, 4)] + [H(policy, name=f"policy:{m}", me=m, budget=10) for m in (P, R)]
HARNESSES += [H(follower, name=f"follower:1,{m}", n=1, me=m, budget=40) for m in (P, Q)]
HARNESSES += [H(follower, name="follower:2", n=2, me=P, wide=True, budget=60), H(follower, name="follower:3", n=3, me=P, wide=True, budget=80)]
HARNESSES += [H(follower, name="follower:2,limits", n=2, me=P, tier="thorough", thorough_budget=600), H(follower, name="follower:4", n=4, me=P, emergency=(False, True, False, False), wide=True, tier="thorough", thorough_budget=300)]
HARNESSES += [H(again, name=f"again:{n}", n=n, budget=40) for n in (1, 2)]
HARNESSES += [H(apart, budget=20), H(defaults, budget=10)]
