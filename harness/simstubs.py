"""Stand-in models, goals and agents with which the real simulator is run."""
from dataclasses import dataclass, field
from typing import Any

import numpy as np
from shapely.geometry import Polygon

from dg_commons import PlayerName
from dg_commons.sim import CAR, ModelParameters, SimModel
from dg_commons.sim.agents.agent import Agent
from dg_commons.sim.collision_structures import IMPACT_EVERYWHERE
from dg_commons.sim.goals import PlanningGoal
from dg_commons.sim.models.model_structures import ModelGeometry
from dg_commons.sim.models.obstacles_dyn import DynObstacleModel
from dg_commons.sim.scenarios import DgScenario


@dataclass(frozen=True, unsafe_hash=True)
class Geo(ModelGeometry):
    @property
    def outline(self):
        return ()


def square(x=0.0, y=0.0, r=0.5):
    return Polygon([(x - r, y - r), (x + r, y - r), (x + r, y + r), (x - r, y + r)])


@dataclass
class Count:
    """state: number of updates so far, and the commands they were made with"""

    who: str
    n: int = 0
    cmds: tuple = ()


class StubModel(SimModel):
    """Moves along a prescribed list of footprints, one per update."""

    def __init__(self, who, shapes, geometry=None, vel=(0.0, 0.0), omega=0.0, cog=None):
        self._state = Count(who)
        self.who, self.shapes = who, shapes
        self._geo = geometry or Geo(m=1000.0, Iz=1000.0, e=0.5, color="red")
        self._par = ModelParameters(vx_limits=(0, 10), acc_limits=(-5, 5))
        self.v, self.w, self.cog = np.array(list(vel)), omega, cog
        self.dts = []
        self.has_collided = False

    def update(self, commands, dt):
        s = self._state
        self._state = Count(self.who, s.n + 1, s.cmds + (commands,))
        self.dts.append(dt)

    def _shape(self):
        return self.shapes[min(self._state.n, len(self.shapes) - 1)]

    def get_footprint(self):
        return self._shape()

    def get_mesh(self):
        return {IMPACT_EVERYWHERE: self._shape()}

    def get_pose(self):
        c = self.cog if self.cog is not None else self._shape().centroid.coords[0]
        return np.array([[0.0, -1.0, c[0]], [1.0, 0.0, c[1]], [0.0, 0.0, 1.0]])

    def get_velocity(self, in_model_frame):
        """the body looks along +y"""
        v = np.array([self.v[1], -self.v[0]]) if in_model_frame else np.array([self.v[0], self.v[1]])
        return v, self.w

    def set_velocity(self, vel, omega, in_model_frame):
        self.v = np.array([-vel[1], vel[0]]) if in_model_frame else np.array([vel[0], vel[1]])
        self.w = omega

    @property
    def model_geometry(self):
        return self._geo

    @property
    def model_type(self):
        return CAR

    @property
    def model_params(self):
        return self._par

    def get_extra_collision_friction_acc(self):
        return 0.0, 0.0, 0.0


class StubObstacle(StubModel, DynObstacleModel):
    """a dynamic obstacle"""


@dataclass(frozen=True)
class Script(PlanningGoal):
    """fulfilled when the script says so for the number of updates made"""

    done: Any
    log: list = field(default_factory=list, compare=False)

    def is_fulfilled(self, state, at=0):
        self.log.append((state.n, at))
        return self.done(state, at)

    def get_plottable_geometry(self, at=0):
        return square()


class Recorder(Agent):
    """Returns a fresh token per request and keeps what it was shown."""

    def __init__(self, extra=lambda n: None):
        self.init, self.obs, self.cmds, self._extra, self.extras = [], [], [], extra, []

    def on_episode_init(self, init_sim_obs):
        self.init.append(init_sim_obs)

    def get_commands(self, sim_obs):
        self.obs.append(sim_obs)
        self.cmds.append(f"cmd-{id(self)}-{len(self.cmds)}")
        return self.cmds[-1]

    def on_get_extra(self):
        e = self._extra(len(self.cmds) - 1)
        self.extras.append(e)
        return e


def world(obstacles=()):
    return DgScenario(static_obstacles=list(obstacles))


P, Q, R = PlayerName("P"), PlayerName("Q"), PlayerName("R")
