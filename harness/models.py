"""Construction of every simulation model with symbolic states, commands and (optionally) parameters."""
from dataclasses import replace

from shapely.geometry import Polygon

from dg_commons.sim.models.diff_drive import DiffDriveCommands, DiffDriveModel, DiffDriveState
from dg_commons.sim.models.diff_drive_structures import DiffDriveGeometry, DiffDriveParameters
from dg_commons.sim.models.obstacles import DynObstacleParameters, ObstacleGeometry
from dg_commons.sim.models.obstacles_dyn import DynObstacleCommands, DynObstacleModel, DynObstacleState
from dg_commons.sim.models.pedestrian import PedestrianCommands, PedestrianGeometry, PedestrianModel, PedestrianState
from dg_commons.sim.models.pedestrian_utils import PedestrianParameters
from dg_commons.sim.models.rocket import RocketCommands, RocketModel, RocketState
from dg_commons.sim.models.rocket_structures import RocketGeometry, RocketParameters
from dg_commons.sim.models.spacecraft import SpacecraftCommands, SpacecraftModel, SpacecraftState
from dg_commons.sim.models.spacecraft_structures import SpacecraftGeometry, SpacecraftParameters
from dg_commons.sim.models.spaceship import SpaceshipCommands, SpaceshipModel, SpaceshipState
from dg_commons.sim.models.spaceship_structures import SpaceshipGeometry, SpaceshipParameters
from dg_commons.sim.models.tires import Pacejka
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn, VehicleStateDyn
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from harness.util import state

NO_GRIP = Pacejka(B=0.0, C=1.9, D=1.0)
"""a tyre without lateral force"""
SQ = Polygon(((-1, -1), (-1, 1), (1, 1), (1, -1)))

STATES = {
    "VehicleState": (VehicleState, ("x", "y", "psi", "vx", "delta")),
    "VehicleStateDyn": (VehicleStateDyn, ("x", "y", "psi", "vx", "vy", "dpsi", "delta")),
    "PedestrianState": (PedestrianState, ("x", "y", "psi", "vx", "vy", "dpsi")),
    "DiffDriveState": (DiffDriveState, ("x", "y", "psi")),
    "SpacecraftState": (SpacecraftState, ("x", "y", "psi", "vx", "vy", "dpsi")),
    "RocketState": (RocketState, ("x", "y", "psi", "vx", "vy", "dpsi", "phi", "m")),
    "SpaceshipState": (SpaceshipState, ("x", "y", "psi", "vx", "vy", "dpsi", "delta", "m")),
    "DynObstacleState": (DynObstacleState, ("x", "y", "psi", "vx", "vy", "dpsi")),
}
COMMANDS = {
    "VehicleCommands": (VehicleCommands, ("acc", "ddelta")),
    "PedestrianCommands": (PedestrianCommands, ("acc", "dpsi")),
    "DiffDriveCommands": (DiffDriveCommands, ("omega_l", "omega_r")),
    "SpacecraftCommands": (SpacecraftCommands, ("acc_left", "acc_right")),
    "RocketCommands": (RocketCommands, ("F_left", "F_right", "dphi")),
    "SpaceshipCommands": (SpaceshipCommands, ("thrust", "ddelta")),
    "DynObstacleCommands": (DynObstacleCommands, ("acc_x", "acc_y", "acc_psi")),
}
# model -> (state, commands)
MODELS = {
    "car": ("VehicleState", "VehicleCommands"),
    "truck": ("VehicleState", "VehicleCommands"),
    "bicycle": ("VehicleState", "VehicleCommands"),
    "dyncar": ("VehicleStateDyn", "VehicleCommands"),
    "dynbicycle": ("VehicleStateDyn", "VehicleCommands"),
    "pedestrian": ("PedestrianState", "PedestrianCommands"),
    "diffdrive": ("DiffDriveState", "DiffDriveCommands"),
    "spacecraft": ("SpacecraftState", "SpacecraftCommands"),
    "rocket": ("RocketState", "RocketCommands"),
    "spaceship": ("SpaceshipState", "SpaceshipCommands"),
    "dynobs": ("DynObstacleState", "DynObstacleCommands"),
}
RNG = {"psi": (-3.1, 3.1), "delta": (-1.2, 1.2), "phi": (-1.2, 1.2), "m": (1, 5)}


def sstate(ctx, model, tag="", **fixed):
    cls, fields = STATES[MODELS[model][0]]
    return state(ctx, cls, fields, tag, rng=RNG, **fixed)


def scmds(ctx, model, tag="u", lo=-20, hi=20):
    cls, fields = COMMANDS[MODELS[model][1]]
    return cls(**{f: ctx.real(f + tag, lo, hi) for f in fields})


def limits(ctx, name, lo=-10, hi=10):
    a, b = ctx.real(name + "_lo", lo, hi), ctx.real(name + "_hi", lo, hi)
    ctx.assume(a < b)
    return (a, b)


def params(ctx, model, sym):
    """the model's parameters: the defaults, or every limit symbolic"""
    if model in ("car", "truck", "bicycle", "dyncar", "dynbicycle"):
        k = {"dyncar": "car", "dynbicycle": "bicycle"}.get(model, model)
        p = getattr(VehicleParameters, "default_" + k)()
        if not sym:
            return p
        return VehicleParameters(vx_limits=limits(ctx, "vx"), acc_limits=limits(ctx, "acc"), delta_max=ctx.real("delta_max", 0.1, 2), ddelta_max=ctx.real("ddelta_max", 0.1, 2))
    if model == "pedestrian":
        return PedestrianParameters(vx_limits=limits(ctx, "vx"), acc_limits=limits(ctx, "acc"), dtheta_max=ctx.real("dtheta_max", 0.1, 5)) if sym else PedestrianParameters.default()
    if model == "diffdrive":
        return DiffDriveParameters(vx_limits=(0, 1), acc_limits=(0, 1), omega_limits=limits(ctx, "omega")) if sym else DiffDriveParameters.default()
    if model == "spacecraft":
        return SpacecraftParameters(vx_limits=limits(ctx, "vx"), acc_limits=limits(ctx, "acc"), dpsi_limits=limits(ctx, "dpsi")) if sym else SpacecraftParameters.default()
    if model == "rocket":
        return RocketParameters.default(m_v=ctx.real("m_v", 1, 3), C_T=ctx.real("C_T", 0, 1), F_limits=limits(ctx, "F"), delta_limits=limits(ctx, "delta", -2, 2), ddelta_limits=limits(ctx, "ddelta", -2, 2)) if sym else RocketParameters.default()
    if model == "spaceship":
        return SpaceshipParameters.default(m_v=ctx.real("m_v", 1, 3), C_T=ctx.real("C_T", 0, 1), thrust_limits=limits(ctx, "F"), delta_limits=limits(ctx, "delta", -2, 2), ddelta_limits=limits(ctx, "ddelta", -2, 2)) if sym else SpaceshipParameters.default()
    if model == "dynobs":
        return DynObstacleParameters(vx_limits=limits(ctx, "vx"), acc_limits=limits(ctx, "acc"), dpsi_limits=limits(ctx, "dpsi"), ddpsi_limits=limits(ctx, "ddpsi")) if sym else DynObstacleParameters(vx_limits=(-10, 10), acc_limits=(-3, 3))
    raise KeyError(model)


def build(ctx, model, x0, sym=False, geo=None):
    """a model in state x0, with symbolic limits if sym; geo overrides geometry entries"""
    p = params(ctx, model, sym)
    geo = geo or {}
    if model in ("car", "truck", "bicycle"):
        m = getattr(VehicleModel, "default_" + model)(x0)
        m.vp, m.vg = p, replace(m.vg, **geo)
    elif model in ("dyncar", "dynbicycle"):
        m = getattr(VehicleModelDyn, "default_" + model[3:])(x0)
        m.vp, m.vg = p, replace(m.vg, **geo)
    elif model == "pedestrian":
        m = PedestrianModel(x0=x0, pg=replace(PedestrianGeometry.default(), **geo), pp=p)
    elif model == "diffdrive":
        m = DiffDriveModel(x0=x0, vg=replace(DiffDriveGeometry.default(), **geo), vp=p)
    elif model == "spacecraft":
        m = SpacecraftModel(x0=x0, sg=replace(SpacecraftGeometry.default(), **geo), sp=p)
    elif model == "rocket":
        m = RocketModel(x0=x0, rg=replace(RocketGeometry.default(), **geo), rp=p)
    elif model == "spaceship":
        m = SpaceshipModel(x0=x0, rg=replace(SpaceshipGeometry.default(), **geo), sp=p)
    elif model == "dynobs":
        m = DynObstacleModel(x0=x0, shape=SQ, og=ObstacleGeometry(**dict(dict(m=5, Iz=10, e=0.5), **geo)), op=p)
    m.has_collided = False
    return m
