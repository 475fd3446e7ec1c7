"""Definitions of the planted changes under /verif/seeded (see mkseeds.py)."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("s01-builder-shares-lists", "C01", {"seq/sequence.py": [
    ("        self._timestamps = tuple(timestamps)\n        self._values = tuple(values)\n",
     "        self._timestamps = tuple(timestamps)\n        self._values = tuple(values) if isinstance(values, list) else values\n"),
    ]},
    "a sequence built from values in another mutable container than a list (deque, array) that is changed afterwards",
    "a built sequence changes when the list it was built from changes, and cannot be hashed",
    """
from dg_commons import DgSampledSequence
from collections import deque
vals = deque([1.0, 2.0, 3.0])
s = DgSampledSequence[float]([0, 1, 2], vals)
vals[2] = 9.0
check(s.at(2) == 3.0, "value changed through the container the sequence was built from")
""")

seed("s02-lookup-cursor", "C02", {"seq/sequence.py": [
    ("            i = bisect_right(self._timestamps, t)\n            return self._values[i - 1]\n",
     "            # consumers walk forward in time: resume from the last position found\n"
     "            i = bisect_right(self._timestamps, t, lo=self.__dict__.get(\"_cursor\", 0))\n"
     "            self.__dict__[\"_cursor\"] = i\n"
     "            return self._values[i - 1]\n")]},
    "a lookup between samples at a later time followed by one at an earlier time on the same sequence",
    "the value at or before a time depends on what was asked before",
    """
from dg_commons import DgSampledSequence
s = DgSampledSequence[float]([0, 1, 2, 3], [0.0, 10.0, 20.0, 30.0])
check(s.at_or_previous(0.5) == 0.0, "first")
check(s.at_or_previous(2.5) == 20.0, "later")
check(s.at_or_previous(0.5) == 0.0, "earlier again")
""")

seed("s03-extra-of-another-instant", "C03", {"sim/simulator_structures.py": [
    ("            extra = self.extra.at_or_previous(t)\n",
     "            extra = self.extra.at_or_previous(max(t, self.extra.get_start()))\n")]},
    "a log whose first extra was recorded later than the instant asked for",
    "the log shows extra information before it was given",
    """
from dg_commons import DgSampledSequence as S
from dg_commons.sim.simulator_structures import PlayerLog
log = PlayerLog(states=S[float]([0, 4], [0.0, 4.0]), commands=S[float]([0, 4], [0.0, 4.0]), extra=S[str]([2], ["late"]), info=S[float]([0], [0.1]))
check(log.at_interp(1).extra is None, "extra before any was recorded")
check(log.at_interp(3).extra == "late", "extra afterwards")
""")

seed("s04-falsy-values-dropped", "C04", {"seq/sequence.py": [
    ("            if res is not None:\n                values.append(res)", "            if res is not None and not (isinstance(res, float) and isnan(res)) and bool(res) is not False:\n                values.append(res)"),
    ("from decimal import Decimal as D\n", "from decimal import Decimal as D\nfrom math import isnan\n")]},
    "a transform whose result is zero or otherwise falsy at some sample",
    "samples whose transformed value is zero disappear",
    """
from dg_commons import DgSampledSequence
s = DgSampledSequence[float]([0, 1, 2], [1.0, 2.0, 3.0]).transform_values(lambda v: v - 2.0)
check(list(s.timestamps) == [0, 1, 2] and list(s.values) == [-1.0, 0.0, 1.0], f"{s}")
""")

seed("s05-crossing-at-sample-lost", "C05", {"seq/seq_op.py": [
    ("    zero_crossings = np.where(np.diff(np.signbit(values)))[0]\n",
     "    zero_crossings = np.where(values[:-1] * values[1:] < 0)[0]\n")]},
    "a sequence that meets the threshold exactly at a sample",
    "crossings that fall on a sample are not reported",
    """
from dg_commons import DgSampledSequence
from dg_commons.seq.seq_op import find_crossings
c = find_crossings(DgSampledSequence[float]([0.0, 1.0, 2.0], [-1.0, 0.0, 1.0]), 0.0)
check(len(c) == 1 and near(c[0], 1.0), f"{c}")
""")

seed("s06-gap-accepted", "C06", {"planning/trajectory.py": [
    ("                abs(self.timestamps[-1] - other.timestamps[0]) <= tol\n",
     "                self.timestamps[-1] - other.timestamps[0] <= tol\n")]},
    "joining trajectories (without state check) of which the second starts later than the first ends",
    "a joined trajectory silently skips a time gap",
    """
from dg_commons.planning.trajectory import Trajectory
from dg_commons.sim.models.vehicle import VehicleState
x = VehicleState(x=0, y=0, psi=0, vx=1, delta=0)
a, b = Trajectory([0, 1], [x, x]), Trajectory([5, 6], [x, x])
try:
    a.merge_unsafe(b)
    check(False, "gap accepted")
except AssertionError:
    pass
""")

seed("s07-steer-limit-reached-exactly", "C08", {"sim/models/model_utils.py": [
    ("    if (ang <= p.delta_limits[0] and dang < 0) or (ang >= p.delta_limits[1] and dang > 0):\n",
     "    if (ang < p.delta_limits[0] and dang < 0) or (ang > p.delta_limits[1] and dang > 0):\n")]},
    "a nozzle exactly at its limit with a command pushing further outward",
    "the nozzle is turned beyond its limit",
    """
from dg_commons.sim.models.rocket import RocketModel, RocketState, RocketCommands
x = RocketState(x=0, y=0, psi=0, vx=0, vy=0, dpsi=0, phi=0, m=3)
m = RocketModel.default(x)
x.phi = m.rp.delta_limits[1]
check(m.dynamics(x, RocketCommands(0, 0, 0.1)).phi == 0, "pushed outward at the limit")
""")

seed("s08-first-player-slot", "C13", {"sim/simulator.py": [
    ("        if self._need_to_update_commands(sim_context):\n            self.last_get_commands_ts = t\n        return\n",
     "        if self._need_to_update_commands(sim_context):\n            # keep the nominal command grid\n            self.last_get_commands_ts = t if t < sim_context.param.dt_commands else t - t % sim_context.param.dt_commands\n        return\n")]},
    "a command interval that is not a multiple of the simulation step, over several intervals",
    "agents are asked again before the command interval has passed",
    """
import pickle
from dg_commons.sim.simulator import Simulator, SimContext, SimParameters
from dg_commons.sim.scenarios import DgScenario
from dg_commons.sim.models.vehicle import VehicleModel, VehicleState, VehicleCommands
from dg_commons.sim.agents.agent import Agent
from dg_commons import PlayerName

class A(Agent):
    def __init__(self): self.ts = []
    def on_episode_init(self, o): pass
    def get_commands(self, o):
        self.ts.append(o.time)
        return VehicleCommands(0, 0)

p, a = PlayerName("P"), A()
sc = SimContext(dg_scenario=DgScenario(), models={p: VehicleModel.default_car(VehicleState(0, 0, 0, 1, 0))}, players={p: a}, param=SimParameters(dt=D("0.2"), dt_commands=D("0.5"), max_sim_time=D(4)))
Simulator().run(sc)
gaps = [t1 - t0 for t0, t1 in zip(a.ts, a.ts[1:])]
check(all(g == D("0.6") for g in gaps), f"asked at {a.ts}")
""")

seed("s09-report-of-the-later-contact", "C14", {"sim/collision_structures.py": [
    ("    first_report, second_report = (r1, r2) if r1.at_time <= r2.at_time else (r2, r1)\n",
     "    first_report, second_report = (r1, r2) if r1.at_time < r2.at_time or r2.impact_point is not None else (r2, r1)\n")]},
    "combining two resolved reports given in the order later, earlier",
    "the combined report carries the later contact and depends on the argument order",
    """
from shapely.geometry import Point, box
from dg_commons.sim.collision_structures import *
def rep(t, v):
    b = box(0, 0, 1, 1)
    q = CollisionReportPlayer(locations=[], at_fault=False, footprint=b, velocity=(np.array([v, 0]), 0), velocity_after=(np.array([-v, 0]), 0), energy_delta=1.0)
    return CollisionReport(players={"P": q}, impact_point=Point(t, 0), impact_normal=np.array([1, 0]), at_time=D(t))
for c in (combine_collision_reports(rep(1, 3.0), rep(2, 5.0)), combine_collision_reports(rep(2, 5.0), rep(1, 3.0))):
    check(c.at_time == 1 and c.players["P"].velocity[0][0] == 3.0 and c.players["P"].velocity_after[0][0] == -5.0, f"{c}")
""")

seed("s10-spin-from-the-wrong-arm", "C15", {"sim/collision_utils.py": [
    ("    rot_part = (np.cross(r_ap, n) ** 2 / a_geom.Iz) + (np.cross(r_bp, n) ** 2 / b_geom.Iz)\n",
     "    rot_part = (np.cross(r_ap, n) ** 2 / a_geom.Iz) + (np.cross(r_bp, n) * np.cross(r_ap, n) / b_geom.Iz)\n")]},
    "two bodies with different lever arms at the contact",
    "the approach speed is not reversed with the restitution coefficient and energy may be created",
    """
from dg_commons.sim.collision_utils import compute_impulse_response
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
g = VehicleGeometry.default_car()
n, ra, rb, v = np.array([1.0, 0.0]), np.array([1.0, 0.5]), np.array([-1.0, -0.9]), np.array([3.0, 0.0])
j = compute_impulse_response(n, v, ra, rb, g, g)
K = 2 / g.m + (0.5**2 + 0.9**2) / g.Iz
check(near(j * K, -(1 + g.e) * 3.0), f"{j * K}")
""")

seed("s11-world-velocity-turned-by-path-angle", "C09", {"sim/models/vehicle.py": [
    ("        if not in_model_frame:\n            rot: SO2value = SO2_from_angle(-self._state.psi)\n            vel = rot @ vel\n        self._state.vx = vel[0]\n",
     "        if not in_model_frame:\n            rot: SO2value = SO2_from_angle(-self._state.psi)\n            vel = rot @ vel\n        self._state.vx = math.copysign(math.hypot(vel[0], vel[1]), vel[0])\n")]},
    "setting a velocity that has a sideways part on the kinematic car",
    "the car turns a sideways velocity into forward speed",
    """
from dg_commons.sim.models.vehicle import VehicleModel, VehicleState
m = VehicleModel.default_car(VehicleState(0, 0, 0.3, 1, 0))
m.set_velocity(np.array([3.0, 4.0]), 0.0, True)
check(near(m.get_velocity(True)[0][0], 3.0), "forward speed")
""")

seed("s12-yaw-rate-not-integrated-with-collision", "C10", {"sim/models/spacecraft.py": [
    ("            if self.has_collided:\n", "            if self.has_collided and self._state.dpsi == 0:\n")]},
    "a spacecraft that has collided and is spinning",
    "commands still act after a collision",
    """
from dg_commons.sim.models.spacecraft import SpacecraftModel, SpacecraftState, SpacecraftCommands
def run(c):
    m = SpacecraftModel.default(SpacecraftState(0, 0, 0, 1, 0, 0.5))
    m.has_collided = True
    m.update(c, D("0.1"))
    return m.get_state().vx
check(near(run(SpacecraftCommands(1.0, 1.0)), run(SpacecraftCommands(0.0, 0.0))), "command acts after the collision")
""")

seed("s13-fuel-not-scaled", "C07", {"sim/models/spaceship_structures.py" if False else "sim/models/rocket.py": [
    ("            phi=self.phi * val,\n            m=self.m * val,\n", "            phi=self.phi * val,\n            m=max(self.m * val, 0.0),\n")]},
    "subtracting rocket states, the second one being the heavier one",
    "the mass component of a difference is wrong (a mass decrease disappears)",
    """
from dg_commons.sim.models.rocket import RocketState
a, b = RocketState(0, 0, 0, 0, 0, 0, 0, 3.0), RocketState(0, 0, 0, 0, 0, 0, 0, 2.0)
check(near((b - a).m, -1.0), f"{(b - a).m}")
check(near((b * -2.0).m, -4.0), "scaled")
""")

seed("s14-lever-of-the-front", "C11", {"sim/models/spaceship.py": [
    ("        dvpsi = -1 / self.rg.Iz * self.rg.l_r * sindelta * thrust\n",
     "        dvpsi = -1 / self.rg.Iz * self.rg.l_f * sindelta * thrust\n")]},
    "a spaceship whose nozzle is turned, with a geometry whose front and rear lengths differ",
    "the thrust turns the spaceship with the wrong lever",
    """
from dg_commons.sim.models.spaceship import SpaceshipModel, SpaceshipState, SpaceshipCommands
from dataclasses import replace
x = SpaceshipState(0, 0, 0, 0, 0, 0, 0.3, 3.0)
m = SpaceshipModel.default(x)
m.rg = replace(m.rg, l_f=2.0, l_r=1.0)
f = m.sp.thrust_limits[1] / 2
d = m.dynamics(x, SpaceshipCommands(f, 0))
check(near(d.dpsi, -sin(0.3) * f * 1.0 / m.rg.Iz), f"{d.dpsi}")
""")

seed("s15-load-transfer-of-the-request", "C12", {"sim/models/vehicle_dynamic.py": [
    ("            load_transfer = self.vg.h_cog * acc\n", "            load_transfer = self.vg.h_cog * u.acc\n")]},
    "a dynamic vehicle asked for more acceleration than it has, or already at its top speed",
    "the axle loads shift by an acceleration the vehicle does not make",
    """
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn, VehicleStateDyn
from dg_commons.sim.models.vehicle import VehicleCommands
x = VehicleStateDyn(x=0, y=0, psi=0, vx=10, delta=0.1)
m = VehicleModelDyn.default_car(x)
a = m.vp.acc_limits[1]
p, q = m.dynamics(x, VehicleCommands(acc=a, ddelta=0)), m.dynamics(x, VehicleCommands(acc=2 * a, ddelta=0))
check(near(p.vy, q.vy) and near(p.dpsi, q.dpsi), f"{p} {q}")
""")

seed("s16-normal-oriented-between-centres", "C16", {"sim/collision_utils.py": [
    ("    if np.dot(r_ap, normal) < 0:\n", "    if np.dot(np.array(b.centroid.coords[0]) - np.array(a.centroid.coords[0]), normal) < 0:\n")]},
    "a long body touched at one side by a body whose centre lies on the other side of the contact line",
    "the normal points into the first body",
    """
from shapely.geometry import Polygon
from dg_commons.sim.collision_utils import compute_impact_geometry
# a hook: it reaches the right side of the square, its centre is on the left
a = Polygon([(-1, -1), (1, -1), (1, 1), (-1, 1)])
b = Polygon([(0.9, -0.2), (1.5, -0.2), (1.5, 3.0), (-8, 3.0), (-8, 2.6), (1.3, 2.6), (1.3, 0.2), (0.9, 0.2)])
n, p = compute_impact_geometry(a, b)
check(np.dot(np.array(p.coords[0]), n) > 0, f"{n} at {p}")
""")

seed("s17-both-wheels-of-a-bicycle-steer", "C17", {"sim/models/vehicle_structures.py": [
    ("            if i < self.n_wheels / 2:\n", "            if i < 2:\n")]},
    "a two-wheeled vehicle with a steering angle",
    "the rear wheel of a bicycle turns with the handlebar",
    """
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
g = VehicleGeometry.default_bicycle()
w = g.get_rotated_wheels_outlines(0.4)
check(near(w[1][1, 0], -g.wheel_shape[0]) and near(w[1][1, 1], -g.wheel_shape[0]), f"{w[1]}")
""")

seed("s18-braking-allowed-as-acceleration", "C18", {"planning/motion_primitives.py": [
    ("            not self.vehicle_param.acc_limits[0] <= acc <= self.vehicle_param.acc_limits[1]\n",
     "            not abs(acc) <= max(map(abs, self.vehicle_param.acc_limits))\n")]},
    "a vehicle that brakes harder than it accelerates and samples whose speed gap lies between the two limits",
    "infeasible accelerations are planned",
    """
from dg_commons.planning.motion_primitives import MotionPrimitivesGenerator, MPGParam
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.dynamics import BicycleDynamics
from dataclasses import replace
vp = replace(VehicleParameters.default_car(), acc_limits=(-8.0, 5.0))
g = MotionPrimitivesGenerator(MPGParam(D("0.5"), 2, (0.0, 6.0, 2), (0.0, 0.0, 1)), BicycleDynamics(VehicleGeometry.default_car(), vp).successor, vp)
ts = g.generate(VehicleState(0, 0, 0, 0, 0))
check(len(ts) == 1, f"{len(ts)} primitives, only standing still is feasible")
""")

seed("s19-lanes-equal-by-their-ends", "C19", {"maps/lanes.py": [
    ("    def get_lane_length(self) -> float:\n",
     "    def __eq__(self, other) -> bool:\n"
     "        return isinstance(other, DgLanelet) and self._key() == other._key()\n\n"
     "    def __hash__(self) -> int:\n"
     "        return hash(self._key())\n\n"
     "    def _key(self) -> tuple:\n"
     "        # lanes are built again and again from the same lanelets, this makes the caches work across copies\n"
     "        first, last = self.control_points[0], self.control_points[-1]\n"
     "        return len(self.control_points), *first.q.p, first.q.theta, first.r, *last.q.p, last.q.theta, last.r\n\n"
     "    def get_lane_length(self) -> float:\n")]},
    "two lanes with the same ends but different points in between",
    "one lane gets the segment lengths of the other",
    """
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons import SE2Transform as Q
def lane(m):
    return DgLanelet([LaneCtrPoint(Q([0, 0], 0), 1), LaneCtrPoint(Q([m, 0], 0), 1), LaneCtrPoint(Q([10, 0], 0), 1)])
a, b = lane(4.0), lane(8.0)
check(near(a.along_lane_from_beta(1.0), 4.0), "first lane")
check(near(b.along_lane_from_beta(1.0), 8.0), f"second lane {b.along_lane_from_beta(1.0)}")
""")

seed("s20-first-request-at-time-zero", "C20", {"controllers/pid.py": [
    ("        dt = 0 if self.last_request_at is None else at - self.last_request_at\n",
     "        dt = at - self.last_request_at if self.last_request_at else 0\n")]},
    "a controller first asked at time zero",
    "the integral and derivative parts miss the first interval",
    """
from dg_commons.controllers.pid import PID, PIDParam
c = PID(PIDParam(kP=0, kI=1, kD=0, antiwindup=(-9, 9), output_minmax=(-9, 9)))
c.update_reference(1.0)
c.update_measurement(0.0)
c.get_control(0.0)
check(near(c.get_control(1.0), 1.0), "integral over the first second")
""")

seed("s21-far-player-ends-the-search", "C21", {"controllers/speed.py": [
    ("            rel = agents_rel_pose[other_name]\n            other_vel = extract_vel_from_state(self.agents[other_name].state)\n            rel_distance = np.linalg.norm(rel.p)\n            coming_from_the_left: bool = (\n",
     "            rel = agents_rel_pose[other_name]\n            other_vel = extract_vel_from_state(self.agents[other_name].state)\n            rel_distance = np.linalg.norm(rel.p)\n            if rel_distance > max(self.params.yield_distance, self.params.safety_time_braking * (myvel + other_vel)):\n                break  # too far to matter\n            coming_from_the_left: bool = (\n")]},
    "three players, a far one listed before a close one coming from the left",
    "an emergency is overlooked when somebody far away is listed first",
    """
from dg_commons.controllers.speed import SpeedBehavior
from dg_commons.sim.simulator_structures import PlayerObservations as O
from dg_commons.sim.models.vehicle import VehicleState as S
b = SpeedBehavior("me")
b.update_observations({"me": O(S(0, 0, 0, 5, 0), None), "far": O(S(500, 0, 0, 5, 0), None), "left": O(S(3, 3, -pi / 2, 5, 0), None)})
ref, emergency = b.get_speed_ref(0.0)
check(emergency and ref == 0, "emergency")
""")

seed("s23-interpolation-clamped", "C23", {"geo.py": [
    ("    alpha = float(alpha)\n    v = SE2.algebra_from_group", "    alpha = max(float(alpha), 0.0)\n    v = SE2.algebra_from_group")]},
    "extrapolating before the first of the two poses",
    "poses before the first one are held at it",
    """
from dg_commons import SE2_interpolate
from geometry import SE2_from_xytheta
a, b = SE2_from_xytheta([0, 0, 0]), SE2_from_xytheta([1, 0, 0])
check(near(SE2_interpolate(a, b, -0.5)[0, 2], -0.5), "behind")
""")

seed("s24-goal-line-snapped-to-control-points", "C24", {"sim/goals.py": [
    ("    q = lanelet.center_point(maxbeta)\n    r = lanelet.radius(maxbeta)\n",
     "    q = lanelet.center_point(maxbeta)\n    r = lanelet.radius(int(maxbeta))\n")]},
    "a goal between two control points of a lane whose width changes",
    "the goal line has the width of another place on the lane",
    """
from dg_commons.sim.goals import RefLaneGoal
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons import SE2Transform as Q
lane = DgLanelet([LaneCtrPoint(Q([0, 0], 0), 1), LaneCtrPoint(Q([10, 0], 0), 9)])
g = RefLaneGoal(lane, 5.0)
check(near(g.get_plottable_geometry().bounds[3], 6.0, 1e-2), f"{g.get_plottable_geometry().bounds}")
""")

seed("s25-emergency-released-when-standing", "C25", {"sim/agents/lane_follower.py": [
    ("        if emergency or self._emergency:\n", "        if emergency or (self._emergency and self._my_obs.vx > 0.1):\n"),
    ("            self.emergency_subroutine()\n", "            self.emergency_subroutine()\n        else:\n            self._emergency = False\n")]},
    "a lane follower that came to a stop after an emergency which is over now",
    "a vehicle in an emergency drives on after it has stopped",
    """
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.models.vehicle import VehicleState as S
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from dg_commons.sim.simulator_structures import PlayerObservations as O, SimObservations, InitSimObservations
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons import SE2Transform as Q
lane = DgLanelet([LaneCtrPoint(Q([x, 0], 0), 2) for x in (0, 50, 100)])
a = LFAgent(lane, VehicleParameters.default_car(), VehicleGeometry.default_car())
a.on_episode_init(InitSimObservations(my_name="me", seed=0, goal=None, dg_scenario=None))
left = O(S(13, 3, -pi / 2, 5, 0), None)
a.get_commands(SimObservations({"me": O(S(10, 0, 0, 5, 0), None), "left": left}, D(0)))
a.get_commands(SimObservations({"me": O(S(10, 0, 0, 5, 0), None)}, D("0.1")))
a.get_commands(SimObservations({"me": O(S(12, 0, 0, 0, 0), None)}, D(2)))
a.get_commands(SimObservations({"me": O(S(12, 0, 0, 0, 0), None)}, D("2.1")))
check(a.speed_controller.reference == 0, f"drives on with {a.speed_controller.reference}")
""")

seed("s26-distance-search-stops-when-leaving", "C26", {"eval/safety.py": [
    ("            min_dist_agent = min_dist_agent_at_t\n            min_dist_t = t\n",
     "            min_dist_agent = min_dist_agent_at_t\n            min_dist_t = t\n        elif min_dist_agent_at_t is not None and min_dist_at_t > 2 * min_dist:\n            break  # they are leaving each other\n")]},
    "players that come close, part and come closer again",
    "the later, smaller distance is missed",
    """
from dg_commons.eval.safety import get_min_dist
from dg_commons import DgSampledSequence as Q
from dg_commons.sim.simulator_structures import PlayerLog, SimLog
from dg_commons.sim.models.vehicle import VehicleModel, VehicleState as S, VehicleCommands as C
ts = [0.0, 1.0, 2.0]
def log(xs):
    st = Q[S](ts, [S(x, 0, 0, 0, 0) for x in xs])
    return PlayerLog(states=st, commands=Q[C](ts, [C(0, 0)] * 3), extra=Q([], []), info=Q[float](ts, [0.0] * 3))
l = SimLog({"a": log([0, 0, 0]), "b": log([10, 40, 6])})
ms = {n: VehicleModel.default_car(S(0, 0, 0, 0, 0)) for n in "ab"}
d, who, at = get_min_dist(l, ms, {}, "a")
check(at == 2.0, f"{d} at {at}")
""")

seed("s27-replica-stops-at-unknown-type", "C27", {"sim/scenarios/factory.py": [
    ('                logger.warn("Unable to convert CommonRoad dynamic obstacle due to " + e.args[0] + " skipping...")\n',
     '                logger.warn("Unable to convert CommonRoad dynamic obstacle due to " + e.args[0] + " skipping...")\n                break\n')]},
    "a scenario whose unsupported obstacle is listed before supported ones",
    "the obstacles after an unsupported one are missing in the replica",
    """
import os, tempfile
from types import SimpleNamespace as N
import dg_commons.sim.scenarios.factory as f
from shapely.geometry import box
from dg_commons.sim.scenarios import NotSupportedConversion
from commonroad.prediction.prediction import TrajectoryPrediction
class P(TrajectoryPrediction):
    def __init__(self): pass
    trajectory = N(state_list=[N(position=np.array([9.0, 0.0]), orientation=0.0)])
obs = [N(prediction=P(), initial_state=N(position=np.array([0.0, 0.0]), orientation=0.0, velocity=1.0), obstacle_type=k, obstacle_shape=N(shapely_object=box(0, 0, 1, 1))) for k in ("x", "car")]
f.load_commonroad_scenario = lambda *a: (N(dynamic_obstacles=obs, static_obstacles=[], lanelet_network=None), None)
def conv(o, *a, **k):
    if o.obstacle_type == "x":
        raise NotSupportedConversion("no")
    return "model", "agent"
f.model_agent_from_dynamic_obstacle = conv
f.DgScenario = lambda *a, **k: None
f.SimContext = lambda **k: k
check(list(f.get_scenario_commonroad_replica("any")["players"]) == ["P1"], "players")
""")

seed("s28-fault-if-any-lane-is-wrong", "C28", {"sim/collision_utils.py": [
    ("        if all(illegal_poses):\n", "        if any(illegal_poses) or not illegal_poses:\n")]},
    "a collision where two lanes overlap, one of which fits the player",
    "a player driving correctly in one of the lanes is blamed",
    """
from types import SimpleNamespace as N
import dg_commons.sim.collision_utils as c
from shapely.geometry import Point
class L:
    def __init__(self, ok): self.ok = ok
    def lane_pose_from_SE2_generic(self, q): return N(correct_direction=self.ok, inside=True)
c.DgLanelet = N(from_commonroad_lanelet=lambda l: l)
net = N(find_lanelet_by_position=lambda ps: [[0, 1]], find_lanelet_by_id=lambda i: L(i == 0))
check(c.check_who_is_at_fault({"p": np.eye(3)}, Point(0, 0), net)["p"] is False, "blamed")
""")

seed("s29-empty-tank-keeps-the-last-flame", "C29", {"sim/simulator_visualisation.py": [
    ("    if state.m > rp.m_v:\n", "    if state.m > rp.m_v or (command.F_left > 0 and command.F_right > 0):\n")]},
    "a rocket out of fuel whose commands still ask for thrust",
    "flames are drawn although the tank is empty",
    """
import matplotlib; matplotlib.use("Agg")
from matplotlib import pyplot as plt
from dg_commons.sim.simulator_visualisation import plot_rocket
from dg_commons.sim.models.rocket import RocketModel, RocketState, RocketCommands
x = RocketState(5, 5, 0, 0, 0, 0, 0, 3.0)
m = RocketModel.default(x)
x.m = m.rp.m_v
polys = plot_rocket(plt.gca(), "P", x, RocketCommands(1.0, 1.0, 0.0), m.rg, m.rp, 0.5, None)
flame = polys[-1].get_xy()
check(np.ptp(flame[:, 0]) < 1e-9 and np.ptp(flame[:, 1]) < 1e-9, f"{flame}")
""")

seed("s30-gate-only-at-one-end", "C30", {"maps/road_bounds.py": [
    ("        if len(lanelet.predecessor) == 0:\n", "        elif len(lanelet.predecessor) == 0:\n")]},
    "a lane with neither predecessor nor successor",
    "the entrance of an isolated lane is closed by the boundary",
    """
from types import SimpleNamespace as N
from shapely.geometry import Polygon
from dg_commons.maps.road_bounds import build_road_boundary_obstacle
l = N(polygon=N(shapely_object=Polygon([(0, -1), (10, -1), (10, 1), (0, 1)])), successor=[], predecessor=[],
      right_vertices=np.array([[0, -1], [10, -1]]), left_vertices=np.array([[0, 1], [10, 1]]))
_, gates = build_road_boundary_obstacle(N(lanelet_network=N(lanelets=[l])))
check(len(gates) == 2, f"{len(gates)} gates")
""")

seed("s31-ghost-judged-by-the-present", "C22", {"sim/sim_perception.py": [
    ("        pov_position = extract_2d_position_from_state(obs.players[pov].state)\n        ghost_position = extract_2d_position_from_state(obs.players[self.ghost_name].state)\n",
     "        pov_position = extract_2d_position_from_state(full_obs.players[pov].state)\n        ghost_position = extract_2d_position_from_state(full_obs.players[self.ghost_name].state)\n")]},
    "a ghost filter around a delay filter while the ghost crosses its distance",
    "the ghost is hidden by where it is now, not by where it was when it was seen",
    """
from dg_commons import fd
from dg_commons.sim import SimObservations
from dg_commons.sim.simulator_structures import PlayerObservations
from dg_commons.sim.sim_perception import GhostObsFilter, DelayedObsFilter, IdObsFilter
from dg_commons.sim.models.vehicle import VehicleState as S
f = GhostObsFilter(DelayedObsFilter(IdObsFilter(), D(1)), "g", 10)
for t, x in ((0, 5.0), (1, 50.0)):
    o = f.sense(None, SimObservations(players=fd({"a": PlayerObservations(S(0, 0, 0, 0, 0), None), "g": PlayerObservations(S(x, 0, 0, 0, 0), None)}), time=D(t)), "a")
check("g" in o.players, "a player seen 5 m away is hidden")
""")

SIM2 = """
from dg_commons import DgSampledSequence as Q
from dg_commons.sim.simulator import Simulator, SimContext
from dg_commons.sim.simulator_structures import SimParameters
from dg_commons.sim.scenarios import DgScenario
from dg_commons.sim.agents.agent import Agent
from dg_commons.sim.goals import PolygonGoal
from dg_commons.sim.models.vehicle import VehicleModel, VehicleState as S, VehicleCommands as C
from shapely.geometry import box, Polygon
seen = []
class Ag(Agent):
    def on_episode_init(self, o): self.me = o.my_name
    def get_commands(self, o):
        seen.append((self.me, o.time, set(o.players)))
        return C(0.0, 0.0)
"""

seed("s32-the-departed-are-still-seen", "C13", {"sim/simulator.py": [
    ("            players_observations: dict[PlayerName, PlayerObservations] = {}\n",
     "            players_observations: dict[PlayerName, PlayerObservations] = dict(self.last_observations.players)\n")]},
    "a player who completes its mission while others keep driving",
    "players who have left are still observed where they last were",
    SIM2 + """
c = SimContext(dg_scenario=DgScenario(), models={"a": VehicleModel.default_car(S(0, 0, 0, 5, 0)), "b": VehicleModel.default_car(S(0, 50, 0, 5, 0))},
               players={"a": Ag(), "b": Ag()}, missions={"a": PolygonGoal(box(1, -2, 9, 2)), "b": PolygonGoal(box(900, 900, 901, 901))},
               param=SimParameters(dt=D("0.1"), dt_commands=D("0.1"), max_sim_time=D(2)), log=None or __import__("dg_commons.sim.simulator_structures", fromlist=["SimLog"]).SimLog())
Simulator().run(c)
check(seen[-1][0] == "b" and seen[-1][2] == {"b"}, f"{seen[-1]}")
""")

seed("s33-one-obstacle-hit-at-a-time", "C14", {"sim/simulator.py": [
    ('            items = env_obstacles.query(p_shape, predicate="intersects")\n',
     '            items = env_obstacles.query(p_shape, predicate="intersects")[:1]\n')]},
    "a player touching two obstacles in the same step",
    "only one of the two collisions is resolved and reported",
    SIM2 + """
from dg_commons.sim.models.obstacles import StaticObstacle
m = VehicleModel.default_car(S(0, 0, 0, 5, 0))
b = m.get_footprint().bounds
c = SimContext(dg_scenario=DgScenario(static_obstacles=[StaticObstacle(box(b[2] + 0.2, b[3] - 0.3, b[2] + 1, b[3] + 1)), StaticObstacle(box(b[2] + 0.2, b[1] - 1, b[2] + 1, b[1] + 0.3))]), models={"a": m}, players={"a": Ag()}, missions={},
               param=SimParameters(dt=D("0.1"), dt_commands=D("0.1"), max_sim_time=D("0.15")))
Simulator().run(c)
check(len(c.collision_reports) == 2, f"{len(c.collision_reports)} collisions")
""")

seed("s34-approach-judged-by-heading-only", "C26", {"eval/safety.py": [
    ("        if rel_vel_along_dist > 0 or np.abs(dist_center / rel_vel_along_dist) > 5.0:\n",
     "        if rel_vel_along_dist > 0 or np.dot(ego_vel, agent_pos - ego_pos) < 0 or np.abs(dist_center / rel_vel_along_dist) > 5.0:\n")]},
    "a faster player catching up with the ego from behind",
    "the time to collision of a rear end approach is not found",
    """
from dg_commons import DgSampledSequence as Q
from dg_commons.eval.safety import get_ttc_drac_at_t
from dg_commons.sim.models.vehicle import VehicleModel, VehicleState as S, VehicleCommands as C
from dg_commons.sim.simulator_structures import SimLog, PlayerLog
def log(x, v):
    return PlayerLog(states=Q[S]([0, 1], [S(x, 0, 0, v, 0)] * 2), commands=Q[C]([0, 1], [C(0, 0)] * 2), extra=Q([], []), info=Q[float]([0, 1], [0.0] * 2))
l = SimLog({"a": log(20, 2), "b": log(0, 15)})
r = get_ttc_drac_at_t(l, {n: VehicleModel.default_car(S(0, 0, 0, 0, 0)) for n in "ab"}, {}, 0, "a")
check(r[1] == "b" and r[0] < 2, f"{r}")
""")

seed("s35-goal-point-searched-twenty-metres", "C20", {"controllers/pure_pursuit.py": [
    ("        bounds = [min_along_path, min_along_path + lookahead]\n", "        bounds = [min_along_path, min_along_path + min(lookahead, self.param.max_extra_distance)]\n")]},
    "a speed whose look ahead is beyond 22 m",
    "the goal point is closer than the look ahead distance",
    """
from dg_commons.controllers.pure_pursuit import PurePursuit
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons import SE2Transform
from geometry import SE2_from_xytheta
p = PurePursuit()
p.update_path(DgLanelet([LaneCtrPoint(SE2Transform([x, 0.0], 0), 2.0) for x in (0.0, 50.0, 100.0)]))
p.update_pose(SE2_from_xytheta([10.0, 0, 0]), 10.0)
p.update_speed(35.0)
a, q = p.find_goal_point()
check(near(a, 38.0, 0.01), f"{a}")
""")

seed("s36-plan-held-only-while-it-lasts", "C25", {"sim/agents/agent.py": [
    ("        return self.commands_plan.at_or_previous(t)\n", "        return self.commands_plan.at_or_previous(min(t, self.commands_plan.timestamps[-1]) if len(self.commands_plan) > 1 and t < self.commands_plan.timestamps[-1] + 1 else self.commands_plan.timestamps[0])\n")]},
    "an agent that outlives its plan by more than a second",
    "the first command is repeated instead of the last",
    """
from dg_commons import DgSampledSequence as Q, fd
from dg_commons.sim import SimObservations
from dg_commons.sim.agents.agent import NPAgent
from dg_commons.sim.models.vehicle import VehicleCommands as C
a = NPAgent(Q[C]([D(0), D(1)], [C(1, 0), C(-1, 0)]))
check(a.get_commands(SimObservations(players=fd({}), time=D(5))).acc == -1, "last command held")
""")

seed("s37-refused-ranges-are-kept", "C31", {"planning/commands_sampler.py": [
    ("        assert self.vehicle_param.acc_limits[0] <= param.acc[0] <= param.acc[1] <= self.vehicle_param.acc_limits[1]\n",
     "        self._param, previous = param, self._param\n        assert self.vehicle_param.acc_limits[0] <= param.acc[0] <= param.acc[1] <= self.vehicle_param.acc_limits[1]\n")]},
    "a sampler whose change of ranges is refused and which is used on",
    "commands outside of the limits of the vehicle are sampled",
    """
from dg_commons.planning.commands_sampler import CommandsSampler, CommandsSamplerParam
from dg_commons.sim.models.vehicle_utils import VehicleParameters
vp = VehicleParameters.default_car()
s = CommandsSampler(CommandsSamplerParam.from_vehicle_parameters(D("0.1"), 1, 3, 3, vp), lambda x, u, t: x, vp)
try:
    s.update_params(CommandsSamplerParam(D("0.1"), 1, (-99.0, 99.0, 3), (-0.1, 0.1, 3)))
    check(False, "accepted")
except AssertionError:
    pass
check(max(s.generate_samples()[0]) <= vp.acc_limits[1], "sampled beyond the limits")
""")

seed("s38-log-ends-with-the-first-player", "C03", {"sim/simulator_structures.py": [
    ("        return max([self[p].states.get_end() for p in self])\n", "        return [self[p].states.get_end() for p in self][-1]\n")]},
    "a log whose last player finished before another",
    "the end of the log is the end of the last player listed",
    """
from dg_commons import DgSampledSequence as Q
from dg_commons.sim.simulator_structures import SimLog, PlayerLog
mk = lambda e: PlayerLog(states=Q[float]([0, e], [0.0, 1.0]), commands=Q[float]([0, e], [0.0, 1.0]), extra=Q([], []), info=Q[float]([0, e], [0.0, 0.0]))
check(SimLog({"a": mk(5), "b": mk(3)}).get_last_time() == 5, "end")
""")
