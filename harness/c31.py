"""Configurations that contradict themselves are refused when they are set up."""
from dataclasses import fields, replace
from decimal import Decimal
from fractions import Fraction

import numpy as np

from dg_commons.controllers.pid import PIDParam
from dg_commons.controllers.speed import SpeedController, SpeedControllerParam
from dg_commons.controllers.steer import SteerController, SteerControllerParam
from dg_commons.perception.sensor import FullRangeSensor, VisRangeSensor
from dg_commons.planning.commands_sampler import CommandsSampler, CommandsSamplerParam
from dg_commons.planning.motion_primitives import MPGParam
from dg_commons.sim import ModelParameters, SimParameters
from dg_commons.sim.models.diff_drive_structures import DiffDriveParameters
from dg_commons.sim.models.obstacles import DynObstacleParameters, StaticObstacle
from dg_commons.sim.models.pedestrian_utils import PedestrianParameters
from dg_commons.sim.models.rocket_structures import RocketParameters
from dg_commons.sim.models.spacecraft_structures import SpacecraftParameters
from dg_commons.sim.models.spaceship_structures import SpaceshipParameters
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from dg_commons.sim.scenarios import DgScenario
from dg_commons.sim.sim_perception import DelayedObsFilter, FovObsFilter, GhostObsFilter, IdObsFilter
from dg_commons.sim.simulator import SimContext
from harness.simstubs import P, Q, R, Recorder, Script, StubModel, square, world
from symx.engine import H

META = {
    "id": "C31",
    "title": "Configurations that contradict themselves are refused at set up",
    "statement": "The parameters of a model or feedback controller are accepted exactly when every limit pair has its lower limit strictly below its upper one and every limit on a magnitude is positive; accepted ones hold exactly the values given, those of models cannot be changed afterwards, and a changed copy is held to the same rules. A command sampler accepts exactly the ranges that are ordered and within the limits of its vehicle, and keeps its previous ranges when new ones are refused; a field of view of more than a full turn or a negative range is refused. A simulation is set up exactly when every player has a model and an agent of the right kind, missions belong to its players and are goals, and the scenario and its obstacles are of their kind, and observation filters wrap only observation filters.",
    "quantifier": {"over": ["inputs", "configurations"], "text": "all symbolic limits in [-10, 10] of every parameter class, all sampling ranges and vehicle limits, all fields of view and ranges; every assignment of models, agents, missions and misfits to up to 3 players"},
    "why_tests_cant": "tests only ever set up valid configurations; that each bound of each pair is checked, equality included, is never exercised",
    "anchors": {"files": ["src/dg_commons/sim/models/model_structures.py", "src/dg_commons/sim/models/vehicle_utils.py", "src/dg_commons/sim/models/pedestrian_utils.py", "src/dg_commons/sim/models/rocket_structures.py",
                          "src/dg_commons/sim/models/spaceship_structures.py", "src/dg_commons/sim/models/spacecraft_structures.py", "src/dg_commons/sim/models/diff_drive_structures.py",
                          "src/dg_commons/sim/models/obstacles.py", "src/dg_commons/controllers/pid.py", "src/dg_commons/planning/commands_sampler.py", "src/dg_commons/perception/sensor.py", "src/dg_commons/sim/simulator.py",
                          "src/dg_commons/sim/scenarios/structures.py", "src/dg_commons/sim/sim_perception.py"],
                "mechanism": [{"name": "parameter validation", "where": "the __post_init__ of each parameter class"},
                              {"name": "sampling ranges", "where": "src/dg_commons/planning/commands_sampler.py update_params"},
                              {"name": "simulation set up", "where": "src/dg_commons/sim/simulator.py SimContext.__post_init__"}]},
}
ASSUMPTIONS = ["Python's assertions are enabled (no -O)"]

PAIRS = {  # class: (limit pairs, positive magnitudes, free numbers)
    ModelParameters: (("vx_limits", "acc_limits"), (), ()),
    VehicleParameters: (("vx_limits", "acc_limits"), ("delta_max", "ddelta_max"), ()),
    PedestrianParameters: (("vx_limits", "acc_limits"), ("dtheta_max",), ()),
    RocketParameters: (("vx_limits", "acc_limits", "F_limits", "delta_limits", "ddelta_limits"), (), ("m_v", "C_T")),
    SpaceshipParameters: (("vx_limits", "acc_limits", "thrust_limits", "delta_limits", "ddelta_limits"), (), ("m_v", "C_T")),
    SpacecraftParameters: (("vx_limits", "acc_limits", "dpsi_limits"), (), ()),
    DiffDriveParameters: (("vx_limits", "acc_limits", "omega_limits"), (), ()),
    DynObstacleParameters: (("vx_limits", "acc_limits", "dpsi_limits", "ddpsi_limits"), (), ()),
    PIDParam: (("antiwindup", "setpoint_minmax", "output_minmax"), (), ("kP", "kI", "kD")),
    SpeedControllerParam: (("antiwindup", "setpoint_minmax", "output_minmax"), (), ("kP", "kI", "kD")),
    SteerControllerParam: (("antiwindup", "setpoint_minmax", "output_minmax"), (), ("kP", "kI", "kD")),
}
FROZEN = [c for c in PAIRS if not issubclass(c, PIDParam)]


def _values(ctx, cls, tag=""):
    pairs, pos, free = PAIRS[cls]
    v = {p: (ctx.real(f"{tag}{p}0", -10, 10), ctx.real(f"{tag}{p}1", -10, 10)) for p in pairs}
    v.update({p: ctx.real(tag + p, -10, 10) for p in pos})
    v.update({p: ctx.real(tag + p, 0.5, 10) for p in free})
    return v


def _ok(ctx, cls, v):
    return ctx.and_(*[v[p][0] < v[p][1] for p in PAIRS[cls][0]], *[v[p] > 0 for p in PAIRS[cls][1]])


def _holds(ctx, obj, v):
    for n, x in v.items():
        if isinstance(x, tuple):
            ctx.seq_eq(getattr(obj, n), x, f"{n} is held", 1e-9)
        else:
            ctx.eq(getattr(obj, n), x, f"{n} is held", 1e-9)


def _try(f):
    try:
        return f()
    except Exception:
        return None


def parameters(ctx, cls):
    v = _values(ctx, cls)
    obj = _try(lambda: cls(**v))
    if obj is None:
        ctx.true(ctx.not_(_ok(ctx, cls, v)), "only contradictory parameters are refused")
        return
    ctx.true(_ok(ctx, cls, v), "contradictory parameters are refused")
    _holds(ctx, obj, v)
    if cls in FROZEN:
        for f in fields(cls):
            ctx.raises(lambda: setattr(obj, f.name, (0, 1)), Exception, f"{f.name} cannot be changed")
        _holds(ctx, obj, v)


def changed_copy(ctx, cls):
    pairs, pos, free = PAIRS[cls]
    good = {p: (-1.0, 1.0) for p in pairs} | {p: 1.0 for p in pos + free}
    obj = cls(**good)
    which = ctx.choice("changed", list(pairs + pos))
    x = (ctx.real("lo", -10, 10), ctx.real("hi", -10, 10)) if which in pairs else ctx.real("x", -10, 10)
    valid = x[0] < x[1] if which in pairs else x > 0
    new = _try(lambda: replace(obj, **{which: x}))
    if new is None:
        ctx.true(ctx.not_(valid), "only a contradictory copy is refused")
    else:
        ctx.true(valid, "a contradictory copy is refused")
        _holds(ctx, new, {**good, which: x})
    _holds(ctx, obj, good)


def controller_from(ctx, cls):
    """a controller derived from a vehicle: limits of a valid vehicle are always accepted"""
    v = _values(ctx, VehicleParameters)
    ctx.assume(_ok(ctx, VehicleParameters, v))
    c = _try(lambda: cls.from_vehicle_params(VehicleParameters(**v)))
    ctx.true(c is not None, "the limits of every valid vehicle are accepted")


VP = dict(vx_limits=(-1.0, 10.0))


def sampler(ctx):
    """ranges first set and then changed"""
    alo, ahi, dmax = ctx.real("acc min", -10, 0), ctx.real("acc max", 0.5, 10), ctx.real("rate max", 0.5, 5)
    vp = VehicleParameters(acc_limits=(alo, ahi), delta_max=1.0, ddelta_max=dmax, **VP)
    a0, a1, d0, d1 = (ctx.real(n, -12, 12) for n in ("a0", "a1", "d0", "d1"))
    valid = ctx.and_(alo <= a0, a0 <= a1, a1 <= ahi, -dmax <= d0, d0 <= d1, d1 <= dmax)
    new = CommandsSamplerParam(dt=Decimal("0.5"), n_steps=1, acc=(a0, a1, 2), steer_rate=(d0, d1, 2))
    seen = []

    def dyn(x, u, dt):
        seen.append((u.acc, u.ddelta))
        return replace(x, x=x.x + 1 + len(seen))

    when = ctx.choice("when", ["at first", "later"])
    start = CommandsSamplerParam(dt=Decimal("0.5"), n_steps=1, acc=(0.0, 0.25, 2), steer_rate=(-0.25, 0.25, 2))
    if when == "at first":
        s = _try(lambda: CommandsSampler(new, dyn, vp))
        done = s is not None
        if not done:
            ctx.true(ctx.not_(valid), "ranges are refused only if disordered or beyond the vehicle")
            return
    else:
        s = CommandsSampler(start, dyn, vp)
        try:
            s.update_params(new)
            done = True
        except Exception:
            done = False
    ctx.true(valid if done else ctx.not_(valid), "accepted exactly the ordered ranges within the vehicle's limits")
    acc, rate = s.generate_samples()
    ctx.seq_eq(list(acc), [a0, a1] if done else [0.0, 0.25], "acceleration samples of the ranges in force", 1e-9)
    ctx.seq_eq(list(rate), [d0, d1] if done else [-0.25, 0.25], "steering rate samples of the ranges in force", 1e-9)


def sampler_steps(ctx):
    n = ctx.int("n", -2, 4)
    dt = ctx.choice("dt", [Decimal("0.5"), 0.5, 1, "1", None, Fraction(1, 2)])
    kind = ctx.choice("kind", ["commands", "manoeuvres"])
    if kind == "commands":
        s = _try(lambda: CommandsSamplerParam(dt=dt, n_steps=n, acc=(0.0, 1.0, 2), steer_rate=(0.0, 1.0, 2)))
        ok = ctx.and_(n == 1, isinstance(dt, Decimal))
    else:
        s = _try(lambda: MPGParam(dt=dt, n_steps=n, velocity=(0.0, 1.0, 2), steering=(0.0, 1.0, 2)))
        ok = isinstance(dt, Decimal)
    ctx.true(ok if s is not None else ctx.not_(ok), "accepted exactly decimal time steps (and single steps of commands)")


def sensor(ctx, cls):
    r, f = ctx.real("range", -10, 50), ctx.real("fov", 0.1, 7)
    ctx.assume(ctx.or_(r <= -0.1, r >= 0.1))
    ctx.assume(ctx.or_(f <= 2 * np.pi - 1e-3, f >= 2 * np.pi + 1e-3))
    s = _try(lambda: cls(range=r, field_of_view=f))
    ok = ctx.and_(r >= 0, f <= 2 * np.pi)
    if s is None:
        ctx.true(ctx.not_(ok), "only impossible sensors are refused")
        return
    ctx.true(ok, "a negative range or more than a full turn is refused")
    ctx.eq(s.range, r, "range", 1e-9)
    ctx.eq(s.field_of_view, f, "field of view", 1e-9)


class NoGoal:
    def is_fulfilled(self, state, at=0):
        return True


class NoAgent:
    def on_episode_init(self, o):
        pass

    def get_commands(self, o):
        return None


class NoModel:
    pass


def simulation(ctx, players):
    """who has a model, who has an agent, who has a mission; and of which kind"""
    models, agents, missions = {}, {}, {}
    ok = True
    for p in players:
        m = ctx.choice(f"model {p}", ["none", "model", "misfit"] if p == P else ["none", "model"])
        a = ctx.choice(f"agent {p}", ["none", "agent", "misfit"] if p == P else ["none", "agent"])
        g = ctx.choice(f"mission {p}", ["none", "goal", "misfit"] if p == players[-1] else ["none", "goal"])
        if m != "none":
            models[p] = StubModel(p, [square()]) if m == "model" else NoModel()
        if a != "none":
            agents[p] = Recorder() if a == "agent" else NoAgent()
        if g != "none":
            missions[p] = Script(lambda n, at: False) if g == "goal" else NoGoal()
        ok = ok and (m == "none") == (a == "none") and "misfit" not in (m, a, g) and (g == "none" or m != "none")
    where = ctx.choice("scenario", ["ok", "none"])
    ok = ok and where == "ok"
    c = _try(lambda: SimContext(dg_scenario=world() if where == "ok" else None, models=models, players=agents, param=SimParameters(), missions=missions))
    ctx.true((c is not None) == ok, "set up exactly when players, models, agents, missions and scenario match")
    if c is not None:
        ctx.true(set(c.models) == set(models) and set(c.players) == set(agents) and set(c.missions) == set(missions) and c.time == 0 and not c.sim_terminated and len(c.log) == 0 and c.collision_reports == [],
                 "a new simulation starts at time zero with nothing logged")
    ctx.true(True, "end")


def independent(ctx):
    """two simulations set up with default settings share nothing"""
    mk = lambda: SimContext(dg_scenario=world(), models={P: StubModel(P, [square()])}, players={P: Recorder()}, param=SimParameters())
    a, b = mk(), mk()
    t = ctx.real("t", 0, 10, kind="d")
    a.collision_reports.append("crash")
    a.time, a.sim_terminated, a.first_collision_ts = t, True, t
    ctx.true(b.collision_reports == [] and b.sim_terminated is False, "collision reports and termination")
    ctx.true(b.time == 0, "time")
    ctx.true(a.log is not b.log and a.sensors is not b.sensors and a.missions is not b.missions, "logs, sensors and missions")
    ctx.true(isinstance(b.sensors[P], IdObsFilter) and a.sensors[P] is not b.sensors[P], "sensors by default show everything")


def scenario(ctx):
    kinds = [ctx.choice(f"o{i}", ["none", "obstacle", "shape"]) for i in range(3)]
    obs = [StaticObstacle(square(i * 3)) if k == "obstacle" else square(i * 3) for i, k in enumerate(kinds) if k != "none"]
    net = ctx.choice("network", ["none", "misfit"])
    s = _try(lambda: DgScenario(scenario=None if net == "none" else object(), static_obstacles=tuple(obs)))
    ok = "shape" not in kinds and net == "none"
    ctx.true((s is not None) == ok, "accepted exactly when its parts are of their kind")
    if s is not None:
        ctx.true(list(s.static_obstacles) == obs, "holds exactly the obstacles given, in order")
    ctx.true(True, "end")


def filters(ctx):
    inner = ctx.choice("inner", ["identity", "delayed", "ghost", "none", "sensor"])
    x = {"identity": IdObsFilter(), "delayed": DelayedObsFilter(IdObsFilter(), 1), "ghost": GhostObsFilter(IdObsFilter(), P), "none": None, "sensor": FullRangeSensor()}[inner]
    lat = ctx.real("latency", 0, 5, kind="d")
    for name, mk in (("delay", lambda: DelayedObsFilter(x, lat)), ("ghost", lambda: GhostObsFilter(x, Q, lat))):
        f = _try(mk)
        ctx.true((f is not None) == (inner not in ("none", "sensor")), f"a {name} filter wraps exactly filters")
        if f is not None:
            ctx.true(f.obs_filter is x, f"a {name} filter holds the filter given")


PN = {P: "P", Q: "Q", R: "R"}
HARNESSES = (
    [H(parameters, name=f"parameters:{c.__name__}", cls=c, bounds="all limits in [-10, 10]") for c in PAIRS]
    + [H(changed_copy, name=f"changed copy:{c.__name__}", cls=c, bounds="any one entry changed to anything in [-10, 10]") for c in PAIRS]
    + [H(controller_from, name=f"controller_from:{c.__name__}", cls=c, bounds="all valid vehicles") for c in (SpeedController, SpeedControllerParam, SteerController, SteerControllerParam)]
    + [H(sampler, bounds="all ranges and vehicle limits, at first or as a change"), H(sampler_steps, bounds="-2 to 4 steps, six kinds of time step")]
    + [H(sensor, name=f"sensor:{c.__name__}", cls=c, bounds="ranges in [-10, 50], fields of view in [0.1, 7]") for c in (FullRangeSensor, VisRangeSensor)]
    + [H(simulation, name="simulation:2", players=(P, Q), bounds="2 players, every assignment"), H(simulation, name="simulation:3", players=(P, Q, R), tier="thorough", bounds="3 players, every assignment")]
    + [H(independent), H(scenario, bounds="3 obstacles"), H(filters)]
)
