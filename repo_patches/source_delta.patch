From f091e87c36593843b2a5ecf4e2a4fad03d246c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 01/45] fix: commands_plan_from_trajectory unpacked IterateDT,
 which is not iterable

---
 src/dg_commons/planning/trajectory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index d73d65a..43743cf 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -152,9 +152,9 @@ JointTrajectories = Mapping[PlayerName, Trajectory]
 def commands_plan_from_trajectory(trajectory: Trajectory) -> DgSampledSequence[VehicleCommands]:
     timestamps = []
     commands = []
-    for t0, _, dt, v0, v1 in iterate_with_dt(trajectory):
-        timestamps.append(t0)
-        commands.append(VehicleCommands(acc=(v1.vx - v0.vx) / dt, ddelta=(v1.delta - v0.delta) / dt))
+    for it in iterate_with_dt(trajectory):
+        timestamps.append(it.t0)
+        commands.append(VehicleCommands(acc=(it.v1.vx - it.v0.vx) / it.dt, ddelta=(it.v1.delta - it.v0.delta) / it.dt))
     return DgSampledSequence[VehicleCommands](timestamps, commands)
 
 
-- 
2.43.0


From 0726cd58fa22209102b6db051098ee8ce040521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 02/45] fix: TrajectoryGraph.add_edge looked up the bare state
 instead of the timed node, overwriting existing nodes

---
 src/dg_commons/planning/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index 43743cf..79d897c 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -176,7 +176,7 @@ class TrajectoryGraph(DiGraph):
         start_time, end_time = states.get_start(), states.get_end()
         self.check_node(node=(start_time, source))
         attr["transition"] = transition
-        if target not in self.nodes:
+        if (end_time, target) not in self.nodes:
             self.add_node(timed_state=(end_time, target), gen=self.nodes.get((start_time, source))["gen"] + 1)
 
         super(TrajectoryGraph, self).add_edge(u_of_edge=(start_time, source), v_of_edge=(end_time, target), **attr)
-- 
2.43.0


From 4c2a1b0a960db6a22a62e7b5191b67501699b083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 03/45] fix: SpacecraftCommands.from_array used a misspelt key
 and always raised KeyError

---
 src/dg_commons/sim/models/spacecraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/spacecraft.py b/src/dg_commons/sim/models/spacecraft.py
index a13d9ce..b98a5e0 100644
--- a/src/dg_commons/sim/models/spacecraft.py
+++ b/src/dg_commons/sim/models/spacecraft.py
@@ -55,7 +55,7 @@ class SpacecraftCommands:
     @classmethod
     def from_array(cls, z: np.ndarray):
         assert cls.get_n_commands() == z.size == z.shape[0], f"z vector {z} cannot initialize VehicleInputs."
-        return SpacecraftCommands(acc_left=z[cls.idx["acc_left "]], acc_right=z[cls.idx["acc_right"]])
+        return SpacecraftCommands(acc_left=z[cls.idx["acc_left"]], acc_right=z[cls.idx["acc_right"]])
 
 
 @dataclass(unsafe_hash=True, eq=True, order=True)
-- 
2.43.0


From 5eafb95bdb58c55f3c71fcd053839f67bdf298b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 04/45] fix: VehicleModelDyn.set_velocity wrote the yaw rate to
 a field that does not exist

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index a068cad..917e885 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -215,7 +215,7 @@ class VehicleModelDyn(VehicleModel):
 
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.dtheta = omega
+        self._state.dpsi = omega
 
     def get_acceleration_split(self, Facc: float) -> Sequence[float]:
         """Returns split of acceleration force to be applied on front and rear wheel"""
-- 
2.43.0


From bf17acc81172dffd8b34d583643906d32a2c2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 05/45] fix: PedestrianModel.set_velocity overwrote the
 longitudinal speed with the yaw rate

---
 src/dg_commons/sim/models/pedestrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/pedestrian.py b/src/dg_commons/sim/models/pedestrian.py
index a002d17..3514238 100644
--- a/src/dg_commons/sim/models/pedestrian.py
+++ b/src/dg_commons/sim/models/pedestrian.py
@@ -249,7 +249,7 @@ class PedestrianModel(SimModel[SE2value, float]):
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.vx = omega
+        self._state.dpsi = omega
 
     @property
     def model_geometry(self) -> PedestrianGeometry:
-- 
2.43.0


From ad4fda8d5c556eff8b71204e4ec248b6b753bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 06/45] fix: scalar * VehicleStateDyn left lateral speed and
 yaw rate unscaled (inherited __rmul__)

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index 917e885..5d7b5e1 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -51,6 +51,9 @@ class VehicleStateDyn(VehicleState):
             delta=self.delta * val,
         )
 
+    __radd__ = __add__
+    __rmul__ = __mul__
+
     def as_ndarray(self) -> np.ndarray:
         return np.array([self.x, self.y, self.psi, self.vx, self.vy, self.dpsi, self.delta])
 
-- 
2.43.0


From cc96422b8f216c0b2edb030083ea7fdf4f90edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 07/45] fix: RocketModel get/set_velocity treated its
 global-frame velocity as body-frame

---
 src/dg_commons/sim/models/rocket.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dg_commons/sim/models/rocket.py b/src/dg_commons/sim/models/rocket.py
index a4fce0e..35244a6 100644
--- a/src/dg_commons/sim/models/rocket.py
+++ b/src/dg_commons/sim/models/rocket.py
@@ -272,20 +272,20 @@ class RocketModel(SimModel[RocketState, RocketCommands]):
         return self.rg
 
     def get_velocity(self, in_model_frame: bool) -> (T2value, float):
-        """Returns velocity at COG"""
+        """Returns velocity at COG (the state holds it in the global frame)"""
         vx = self._state.vx
         vy = self._state.vy
         dpsi = self._state.dpsi
-        v_l = np.array([vx, vy])
-        if in_model_frame:
-            return v_l, dpsi
-        rot: SO2value = SO2_from_angle(self._state.psi)
-        v_g = rot @ v_l
-        return v_g, dpsi
+        v_g = np.array([vx, vy])
+        if not in_model_frame:
+            return v_g, dpsi
+        rot: SO2value = SO2_from_angle(-self._state.psi)
+        v_l = rot @ v_g
+        return v_l, dpsi
 
     def set_velocity(self, vel: T2value, dpsi: float, in_model_frame: bool):
-        if not in_model_frame:
-            rot: SO2value = SO2_from_angle(-self._state.psi)
+        if in_model_frame:
+            rot: SO2value = SO2_from_angle(self._state.psi)
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-- 
2.43.0


From 7ad29a8c672ece758ef7110ed10df3509545fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 08/45] fix: aerodynamic drag squared the air density instead
 of the speed

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index 5d7b5e1..8674f65 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -177,7 +177,7 @@ class VehicleModelDyn(VehicleModel):
             Facc2_sat = Facc2 * math.sqrt(1 - (F2y / (F2_n * self.pacejka_rear.D)) ** 2)
 
             # Drag Force
-            F_drag = -0.5 * x0.vx * self.vg.a_drag * self.vg.c_drag * rho**2
+            F_drag = -0.5 * rho * self.vg.a_drag * self.vg.c_drag * x0.vx**2
             # longitudinal acceleration
             acc_x = (F1[0] + F_drag + Facc2_sat) / m + x0.dpsi * x0.vy
 
-- 
2.43.0


From c0c643b4ab420efabe7c160f3f2f68aae562660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 09/45] fix: DynObstacleModel ignored its rotational
 acceleration limits

---
 src/dg_commons/sim/models/obstacles_dyn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/obstacles_dyn.py b/src/dg_commons/sim/models/obstacles_dyn.py
index 5081d12..dbf2c37 100644
--- a/src/dg_commons/sim/models/obstacles_dyn.py
+++ b/src/dg_commons/sim/models/obstacles_dyn.py
@@ -195,7 +195,8 @@ class DynObstacleModel(SimModel[DynObstacleState, DynObstacleCommands]):
 
         acc_x = apply_full_acceleration_limits(speed=vx, acceleration=u.acc_x + x0.dpsi * vy, p=self.op)
         acc_y = apply_full_acceleration_limits(speed=vy, acceleration=u.acc_y - x0.dpsi * vx, p=self.op)
-        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=u.acc_psi, p=self.op)
+        acc_psi = max(self.op.ddpsi_limits[0], min(u.acc_psi, self.op.ddpsi_limits[1]))
+        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=acc_psi, p=self.op)
 
         return DynObstacleState(x=xdot, y=ydot, psi=x0.dpsi, vx=acc_x, vy=acc_y, dpsi=acc_psi)
 
-- 
2.43.0


From b6059c76dbc201b4b265cb8bfafca188574c0d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 10/45] fix: Simulator shared and kept its per-run bookkeeping
 across runs and simulators

---
 src/dg_commons/sim/simulator.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index d13061e..a9242d3 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -73,15 +73,20 @@ class Simulator:
         - A post-update function that checks the new states of all the models and resolves collisions
     """
 
-    # fixme check if this is okay once you have multiple simulators running together
-    last_observations: SimObservations = SimObservations(players=fd({}), time=Decimal(0))
-    last_get_commands_ts: SimTime = SimTime("-Infinity")
-    last_commands: dict[PlayerName, U] = {}
-    simlogger: dict[PlayerName, PlayerLogger] = {}
+    def __init__(self):
+        self._reset()
+
+    def _reset(self):
+        """The bookkeeping of a run is not shared with other simulators nor with previous runs"""
+        self.last_observations: SimObservations = SimObservations(players=fd({}), time=Decimal(0))
+        self.last_get_commands_ts: SimTime = SimTime("-Infinity")
+        self.last_commands: dict[PlayerName, U] = {}
+        self.simlogger: dict[PlayerName, PlayerLogger] = {}
 
     @time_function
     def run(self, sim_context: SimContext):
         logger.info("~~~~~> Beginning simulation")
+        self._reset()
         # initialize the simulation
         for player_name, player in sim_context.players.items():
             scenario = deepcopy(sim_context.dg_scenario)
-- 
2.43.0


From 8c08240473dacc540f91236020e624c59b58fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 11/45] fix: hitting a static obstacle made of a single segment
 raised ValueError instead of being reported

---
 src/dg_commons/sim/collision.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision.py b/src/dg_commons/sim/collision.py
index 16d7690..071e91f 100644
--- a/src/dg_commons/sim/collision.py
+++ b/src/dg_commons/sim/collision.py
@@ -189,7 +189,8 @@ def resolve_collision_with_environment(
     )
     # create a report for the "environment" as a fictitious player
     if not isinstance(b_shape, Polygon):
-        b_shape = Polygon(b_shape)
+        # a segment does not enclose an area, we give it a small thickness
+        b_shape = Polygon(b_shape) if len(b_shape.coords) > 2 else b_shape.buffer(0.01)
     b_locations = [
         (IMPACT_EVERYWHERE, b_shape),
     ]
-- 
2.43.0


From 65dc76340fd23b78f3d023917236aff5837555b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 12/45] fix: touching or concentric shapes crashed the
 simulation or made the velocities NaN instead of being reported

---
 src/dg_commons/sim/collision_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index 7149053..572e693 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -94,10 +94,13 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
     :param b: Base Geometry
     :return: normal of impact and the impact point
     """
-    assert not a.touches(b)
+    if a.touches(b):
+        raise CollisionException("The two shapes only touch each other, the normal of impact is not defined")
     if a.contains(b):
         impact_point = b.centroid
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
+        if np.linalg.norm(r_ap) == 0:
+            raise CollisionException("The two shapes are concentric, the normal of impact is not defined")
         normal = r_ap / np.linalg.norm(r_ap)
     else:
         intersecting_points = _find_intersection_points(a, b)
-- 
2.43.0


From 4080d1e75e23140958eb3938cf7d5195a8e73d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 13/45] fix: combine_collision_reports crashed on reports of
 unresolved collisions

---
 src/dg_commons/sim/collision_structures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision_structures.py b/src/dg_commons/sim/collision_structures.py
index c801620..86030ae 100644
--- a/src/dg_commons/sim/collision_structures.py
+++ b/src/dg_commons/sim/collision_structures.py
@@ -72,9 +72,13 @@ def combine_collision_reports(r1: CollisionReport, r2: CollisionReport) -> Colli
         )
     # impact point, normal are propagated according to the first report
     first_report, second_report = (r1, r2) if r1.at_time <= r2.at_time else (r2, r1)
-    combined_players_report: dict[PlayerName, CollisionReportPlayer] = {}
+    combined_players_report: dict[PlayerName, Optional[CollisionReportPlayer]] = {}
     for p in first_report.players:
         r1_player, r2_player = first_report.players[p], second_report.players[p]
+        if r1_player is None or r2_player is None:
+            # reports of collisions that could not be resolved carry no player report
+            combined_players_report[p] = r2_player if r1_player is None else r1_player
+            continue
         combined_players_report[p] = replace(
             r1_player,
             locations=r1_player.locations + r2_player.locations,
-- 
2.43.0


From 8ee6c67aebb51ad2a05c3b3183c75f7478898de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 14/45] fix: the impact regions of the differential drive cover
 its circular footprint

---
 src/dg_commons/sim/models/diff_drive.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/models/diff_drive.py b/src/dg_commons/sim/models/diff_drive.py
index 2a04efc..9ae381c 100644
--- a/src/dg_commons/sim/models/diff_drive.py
+++ b/src/dg_commons/sim/models/diff_drive.py
@@ -176,14 +176,20 @@ class DiffDriveModel(SimModel[DiffDriveState, DiffDriveCommands]):
 
     def get_mesh(self) -> Mapping[ImpactLocation, Polygon]:
         footprint = self.get_footprint()
+        # the outline is a circle traversed clockwise starting from the front: split it in one sector per side
         vertices = footprint.exterior.coords[:-1]
+        n_vertices = len(vertices)
         cxy = footprint.centroid.coords[0]
-        # fixme maybe we can use triangulate from shapely inferring the side from the relative angle
+
+        def _sector(mid: int) -> Polygon:
+            half = n_vertices // 8
+            return Polygon([cxy, *(vertices[i % n_vertices] for i in range(mid - half, mid + half + 1)), cxy])
+
         impact_locations: Mapping[ImpactLocation, Polygon] = {
-            IMPACT_RIGHT: Polygon([cxy, vertices[0], vertices[3], cxy]),
-            IMPACT_LEFT: Polygon([cxy, vertices[1], vertices[2], cxy]),
-            IMPACT_BACK: Polygon([cxy, vertices[0], vertices[1], cxy]),
-            IMPACT_FRONT: Polygon([cxy, vertices[2], vertices[3], cxy]),
+            IMPACT_RIGHT: _sector(n_vertices // 4),
+            IMPACT_LEFT: _sector(3 * n_vertices // 4),
+            IMPACT_BACK: _sector(n_vertices // 2),
+            IMPACT_FRONT: _sector(0),
         }
         for shape in impact_locations.values():
             assert shape.is_valid
-- 
2.43.0


From 4346890da591aabd8c8f41b05f8177f571554164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 15/45] fix: command sampling parameters derived from a vehicle
 span its acceleration and steering rate limits

---
 src/dg_commons/planning/commands_sampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/commands_sampler.py b/src/dg_commons/planning/commands_sampler.py
index 7f57ff8..b93a0ec 100644
--- a/src/dg_commons/planning/commands_sampler.py
+++ b/src/dg_commons/planning/commands_sampler.py
@@ -38,9 +38,9 @@ class CommandsSamplerParam:
         :param vp:
         :return:
         """
-        vel_linspace = (vp.vx_limits[0], vp.vx_limits[1], n_acc)
-        steer_linspace = (-vp.delta_max, vp.delta_max, n_steer_rate)
-        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=vel_linspace, steer_rate=steer_linspace)
+        acc_linspace = (vp.acc_limits[0], vp.acc_limits[1], n_acc)
+        steer_rate_linspace = (-vp.ddelta_max, vp.ddelta_max, n_steer_rate)
+        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=acc_linspace, steer_rate=steer_rate_linspace)
 
 
 class CommandsSampler(TrajGenerator):
-- 
2.43.0


From 4aef4a1445222e39eac295510cef5c262b9be7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 16/45] fix: the fast lane centre point interpolates headings
 across the wrap at pi

---
 src/dg_commons/maps/lanes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 488e488..3ae56cf 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from math import atan2, isclose, pi
+from math import atan2, cos, isclose, pi, sin
 from typing import Sequence, Optional
 
 import numpy as np
@@ -299,7 +299,9 @@ class DgLanelet:
             q1 = self.control_points[i + 1].q
             alpha = beta - i
         p = q0.p * (1 - alpha) + q1.p * alpha
-        theta = q0.theta * (1 - alpha) + q1.theta * alpha
+        # heading difference wrapped to [-pi,pi] to interpolate along the shortest rotation
+        dtheta = atan2(sin(q1.theta - q0.theta), cos(q1.theta - q0.theta))
+        theta = q0.theta + dtheta * alpha
         return SE2Transform(p, theta)
 
     def is_inside_from_T2value(self, position: T2value, tol: float = 1e-3) -> bool:
-- 
2.43.0


From 5ee99e76fbd101424559baba06f90a1e375ac94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 17/45] fix: progress before and beyond a lane is in metres, as
 along the lane

---
 src/dg_commons/maps/lanes.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 3ae56cf..649e3db 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -76,6 +76,8 @@ class LaneCtrPoint:
 
 
 _rot90: SO2value = SO2_from_angle(pi / 2)
+_EXTRAPOLATION_STEP: float = 0.1
+""" Distance [m] covered by one unit of beta before the first and after the last control point """
 
 
 class DgLanelet:
@@ -212,9 +214,9 @@ class DgLanelet:
         """Returns the position along the lane (parametrized in distance)"""
         lengths = self.get_lane_lengths()
         if beta < 0:
-            return beta
+            return beta * _EXTRAPOLATION_STEP
         elif beta >= len(self.control_points) - 1:
-            rest = beta - (len(self.control_points) - 1)
+            rest = (beta - (len(self.control_points) - 1)) * _EXTRAPOLATION_STEP
             return sum(lengths) + rest
         else:
             i = int(np.floor(beta))
@@ -230,10 +232,10 @@ class DgLanelet:
         S = sum(lengths)
 
         if x0 < 0:
-            beta = x0
+            beta = x0 / _EXTRAPOLATION_STEP
             return beta
         elif x0 > S:
-            beta = (n - 1.0) + (x0 - S)
+            beta = (n - 1.0) + (x0 - S) / _EXTRAPOLATION_STEP
             return beta
         elif isclose(x0, S, abs_tol=1e-8):
             beta = n - 1.0
@@ -267,11 +269,11 @@ class DgLanelet:
 
         if i < 0:
             q0 = self.control_points[0].q.as_SE2()
-            q1 = SE2.multiply(q0, SE2_from_translation_angle([0.1, 0], 0))
+            q1 = SE2.multiply(q0, SE2_from_translation_angle([_EXTRAPOLATION_STEP, 0], 0))
             alpha = beta
         elif i >= n - 1:
             q0 = self.control_points[-1].q.as_SE2()
-            q1 = SE2.multiply(q0, SE2_from_translation_angle([0.1, 0], 0))
+            q1 = SE2.multiply(q0, SE2_from_translation_angle([_EXTRAPOLATION_STEP, 0], 0))
             alpha = beta - (n - 1)
         else:
             alpha = beta - i
@@ -286,12 +288,12 @@ class DgLanelet:
         i = int(np.floor(beta))
         if i < 0:
             q0 = self.control_points[0].q
-            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([0.1, 0], 0))
+            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([_EXTRAPOLATION_STEP, 0], 0))
             q1 = SE2Transform.from_SE2(q1_tmp)
             alpha = beta
         elif i >= n - 1:
             q0 = self.control_points[-1].q
-            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([0.1, 0], 0))
+            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([_EXTRAPOLATION_STEP, 0], 0))
             q1 = SE2Transform.from_SE2(q1_tmp)
             alpha = beta - (n - 1)
         else:
-- 
2.43.0


From 2fff48e40b4cf32cef416572c943542e3d7439b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 18/45] fix: FovObsFilter kept the static obstacles of the
 first scenario it saw

---
 src/dg_commons/sim/sim_perception.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index ddb5528..a8ce4f4 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from bisect import bisect_left
 from dataclasses import replace
+from typing import Optional
 
 import numpy as np
 from commonroad_dc.pycrcc import Polygon as crPolygon
@@ -45,6 +46,7 @@ class FovObsFilter(ObsFilter):
     def __init__(self, sensor: Sensor):
         self.sensor: Sensor = sensor
         self._static_obstacles: list[crPolygon] = []
+        self._static_obstacles_scenario: Optional[DgScenario] = None
         self._tmp_debug: int = 0
 
     def sense(self, scenario: DgScenario, full_obs: SimObservations, pov: PlayerName) -> SimObservations:
@@ -58,7 +60,8 @@ class FovObsFilter(ObsFilter):
         # first update sensor pose
         self.sensor.pose = SE2Transform.from_SE2(extract_pose_from_state(full_obs.players[pov].state))
         # then filter
-        if not self._static_obstacles:
+        if self._static_obstacles_scenario is not scenario:
+            self._static_obstacles_scenario = scenario
             self._static_obstacles = list(interleave([shapely2crPolygons(o.shape) for o in scenario.static_obstacles]))
 
         self._tmp_debug += 1
-- 
2.43.0


From b286c7949ae182c46ade5638d024fee5427f95e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 19/45] fix: DelayedObsFilter delivered observations younger
 than its latency, stamped in the future

---
 src/dg_commons/sim/sim_perception.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index a8ce4f4..c7b80b0 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -1,5 +1,5 @@
 from abc import ABC, abstractmethod
-from bisect import bisect_left
+from bisect import bisect_right
 from dataclasses import replace
 from typing import Optional
 
@@ -115,7 +115,8 @@ class DelayedObsFilter(ObsFilter):
         shifted_t = obs.time + self.latency
         self.obs_history.append((shifted_t, replace(obs, time=shifted_t)))
         history_ts = self._get_obs_history_timestamps()
-        idx = bisect_left(history_ts, obs.time)
+        # the most recent observation which is at least latency old (the very first one until there is any)
+        idx = max(bisect_right(history_ts, obs.time) - 1, 0)
         return self.obs_history[idx][1]
 
     def _get_obs_history_timestamps(self) -> list[SimTime]:
-- 
2.43.0


From 4e83de15762fbc75711ce01283f5b2b4cde22e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 20/45] fix: PoseGoal.get_plottable_geometry returns its
 geometry instead of raising it

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 4cf7b3a..58610f1 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -108,7 +108,7 @@ class PoseGoal(PlanningGoal):
         return np.linalg.norm(pose - goal_pose) <= self.tol
 
     def get_plottable_geometry(self, at: SimTime | float = 0) -> BaseGeometry:
-        raise self.goal_pose_poly
+        return self.goal_pose_poly
 
     @cached_property
     def goal_pose_poly(self) -> Polygon:
-- 
2.43.0


From 884f3d839f004936be6f76f27c9cb9917aa57a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 21/45] fix: RefLaneGoal places its goal line at the goal
 progress in metres, not in control points

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 58610f1..8288c75 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -58,7 +58,7 @@ class RefLaneGoal(PlanningGoal):
 
     @cached_property
     def goal_polygon(self) -> Polygon:
-        poly = _polygon_at_along_lane(self.ref_lane, self.goal_progress)
+        poly = _polygon_at_along_lane(self.ref_lane, self.ref_lane.beta_from_along_lane(self.goal_progress))
         return poly
 
 
-- 
2.43.0


From 2ff5604d8a0a8edbd698284ddd6b7156d934fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 22/45] fix: PolicyAgent hands its policy the own state, not
 the whole observation

---
 src/dg_commons/sim/agents/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/agent.py b/src/dg_commons/sim/agents/agent.py
index 6a5ffbc..e8e541a 100644
--- a/src/dg_commons/sim/agents/agent.py
+++ b/src/dg_commons/sim/agents/agent.py
@@ -65,5 +65,5 @@ class PolicyAgent(Agent):
         self.my_name = init_sim_obs.my_name
 
     def get_commands(self, sim_obs: SimObservations) -> U:
-        my_state: X = sim_obs.players[self.my_name]
+        my_state: X = sim_obs.players[self.my_name].state
         return self.policy(my_state)
-- 
2.43.0


From 8ff9594a281d4d92882925d4f292d81ccf5b4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 23/45] fix: LFAgent uses the pure pursuit controller it is
 given

---
 src/dg_commons/sim/agents/lane_follower.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index fd0a8cd..af489a9 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -35,7 +35,9 @@ class LFAgent(Agent):
         self.speed_controller: SpeedController = SpeedController.from_vehicle_params(model_param=model_params)
         self.speed_behavior: SpeedBehavior = SpeedBehavior() if speed_behavior is None else speed_behavior
         self.steer_controller: SteerController = SteerController.from_vehicle_params(vehicle_param=model_params)
-        self.pure_pursuit: PurePursuit = PurePursuit.from_model_geometry(model_geo)
+        self.pure_pursuit: PurePursuit = (
+            PurePursuit.from_model_geometry(model_geo) if pure_pursuit is None else pure_pursuit
+        )
         self.my_name: Optional[PlayerName] = None
         self.return_extra: bool = return_extra
         self._emergency: bool = False
-- 
2.43.0


From 1faaa32464139bbcfb9707e03e7694e589d6865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 24/45] fix: get_acc_rms keeps the number of samples when it is
 odd

---
 src/dg_commons/eval/comfort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/eval/comfort.py b/src/dg_commons/eval/comfort.py
index 65b91bb..97bb6f4 100644
--- a/src/dg_commons/eval/comfort.py
+++ b/src/dg_commons/eval/comfort.py
@@ -41,7 +41,7 @@ def get_acc_rms(commands: DgSampledSequence[U], t_range: tuple[Timestamp | None,
     freqs = np.fft.rfftfreq(n=len(acc_time), d=st)
     acc_freq_weighted = [acc_freq * acc_freq_filter(freq) for acc_freq, freq in zip(acc_freqs, freqs)]
     acc_freq_weighted = np.array(acc_freq_weighted)
-    acc_time_weighted = np.fft.irfft(acc_freq_weighted)
+    acc_time_weighted = np.fft.irfft(acc_freq_weighted, n=len(acc_time))
     acc_rms = 0
     for acc in acc_time_weighted:
         acc_rms += np.square(acc)
-- 
2.43.0


From 11f6b4be2be6171f6e2f7e2e76c4d80cc26415bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 25/45] fix: brake lights stayed on for everybody after the
 first braking, the shared colours were modified

---
 src/dg_commons/sim/simulator_animation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 3a28349..986a7ec 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -1,4 +1,5 @@
 import math
+from dataclasses import replace
 from itertools import chain
 from typing import Mapping, Union, Optional, Sequence, Iterable
 
@@ -234,6 +235,8 @@ def lights_colors_from_lights_cmd(lights_cmd: LightsCmd, acc: float, t: Timestam
     phases = lightscmd2phases[lights_cmd]
     lights_colors = get_phased_lights(phases, float(t))
     if acc < 0:  # and cmds == NO_LIGHTS:
+        # the colours of a phase are shared, hence brake on a copy
+        lights_colors = replace(lights_colors)
         if lights_colors.back_left == red:
             lights_colors.back_left = red_more
         if lights_colors.back_right == red:
-- 
2.43.0


From d9e165b92dbcab0a9c9c1bb17e6a2efd131b2d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 26/45] fix: static obstacles of a CommonRoad scenario were
 left at the origin of its replica

---
 src/dg_commons/sim/scenarios/factory.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/factory.py b/src/dg_commons/sim/scenarios/factory.py
index a9e2ee3..1e6659b 100644
--- a/src/dg_commons/sim/scenarios/factory.py
+++ b/src/dg_commons/sim/scenarios/factory.py
@@ -67,12 +67,11 @@ def get_scenario_commonroad_replica(
                 logger.warn("Unable to convert CommonRoad dynamic obstacle due to " + e.args[0] + " skipping...")
     logger.info(f"Managed to load {len(players)}")
     for sobs in scenario.static_obstacles:
-        static_obstacles.append(
-            StaticObstacle(
-                obstacle_type=sobs.obstacle_type,
-                shape=sobs.obstacle_shape.shapely_object,
-            )
+        shape = apply_SE2_to_shapely_geo(
+            shapely_geometry=sobs.obstacle_shape.shapely_object,
+            se2_value=SE2_from_xytheta([*sobs.initial_state.position, sobs.initial_state.orientation]),
         )
+        static_obstacles.append(StaticObstacle(obstacle_type=sobs.obstacle_type, shape=shape))
     sim_param = SimParameters() if sim_param is None else sim_param
     return SimContext(
         dg_scenario=DgScenario(scenario, static_obstacles=static_obstacles),
-- 
2.43.0


From 0fdf478854b23279a7d0427769bf6c101715e2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 27/45] fix: infer_lane_from_dyn_obs compared lanelet ids by
 their digits and picked lanes of other routes

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index a0d558a..3c0906f 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -23,9 +23,9 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
     candidates: list[DgLanelet] = []
     for init_id in init_ids:
         lanelet = network.find_lanelet_by_id(init_id)
-        merged_lanelets, _ = lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet=lanelet, network=network)
-        for merged_lanelet in merged_lanelets:
-            if any(str(id) in str(merged_lanelet.lanelet_id) for id in final_ids):
+        merged_lanelets, merged_ids = lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet=lanelet, network=network)
+        for merged_lanelet, ids in zip(merged_lanelets, merged_ids):
+            if any(final_id in ids for final_id in final_ids):
                 candidates.append(DgLanelet.from_commonroad_lanelet(merged_lanelet))
 
     if len(candidates) == 1:
-- 
2.43.0


From 1490828b07f742550b8cd87240be7b5ce03cc49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 28/45] fix: infer_lane_from_dyn_obs compared headings across
 the wrap at pi as if they were opposite

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index 3c0906f..e1d284c 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -37,7 +37,8 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
         for candidate_lane in candidates:
             _, q = candidate_lane.find_along_lane_closest_point_fast(init_position)
             s_prime = angle_from_SE2(q)
-            displacement_angles.append(np.abs(dyn_obs.initial_state.orientation - s_prime))
+            dtheta = dyn_obs.initial_state.orientation - s_prime
+            displacement_angles.append(np.abs(np.arctan2(np.sin(dtheta), np.cos(dtheta))))
         return candidates[np.argmin(displacement_angles)]
     else:
         # if we reach this point we did not find any lanelet,
-- 
2.43.0


From f631cd2af091f690e0c11f3e23d8ff92c03e7bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 29/45] fix: the inferred initial steering of a recorded
 vehicle turned a full circle when its heading wraps at pi

---
 src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
index 6fc1838..08f6b22 100644
--- a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
@@ -1,3 +1,4 @@
+import numpy as np
 from commonroad.geometry.shape import Rectangle as crRectangle
 from commonroad.scenario.obstacle import DynamicObstacle, ObstacleType
 
@@ -28,6 +29,7 @@ def infer_model_from_cr_dyn_obstacle(dyn_obs: DynamicObstacle, color: Color) ->
         assert isinstance(dyn_obs.obstacle_shape, crRectangle)
         l = dyn_obs.obstacle_shape.length * axle_length_ratio
         dtheta = dyn_obs.prediction.trajectory.state_list[0].orientation - dyn_obs.initial_state.orientation
+        dtheta = np.arctan2(np.sin(dtheta), np.cos(dtheta))
         delta = dtheta / l
         # x0 = VehicleStateDyn(
         #     x=dyn_obs.initial_state.position[0],
-- 
2.43.0


From de552a250575513482a385b72f414fd70f91bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 30/45] fix: a walking pedestrian crashed the replica of a
 CommonRoad scenario instead of being skipped

---
 src/dg_commons/sim/scenarios/convert_from_commonroad.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dg_commons/sim/scenarios/convert_from_commonroad.py b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
index 690eada..5b9bf98 100644
--- a/src/dg_commons/sim/scenarios/convert_from_commonroad.py
+++ b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
@@ -6,6 +6,8 @@ from dg_commons.sim import SimModel
 from dg_commons.sim.agents.agent import Agent
 from dg_commons.sim.agents.lane_follower import LFAgent
 from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn
+from dg_commons.sim.models.vehicle_utils import VehicleParameters
+from dg_commons.sim.scenarios import NotSupportedConversion
 from dg_commons.sim.scenarios.model_from_dyn_obstacle import infer_model_from_cr_dyn_obstacle
 from dg_commons.sim.scenarios.utils_dyn_obstacle import infer_lane_from_dyn_obs
 
@@ -25,6 +27,10 @@ def model_agent_from_dynamic_obstacle(
     """
 
     model: SimModel = infer_model_from_cr_dyn_obstacle(dyn_obs, color)
+    if not isinstance(model.model_params, VehicleParameters):
+        raise NotSupportedConversion(
+            "No agent is available to drive the inferred model", commonroad_type=dyn_obs.obstacle_type
+        )
     # Agent
     dglane = infer_lane_from_dyn_obs(dyn_obs=dyn_obs, network=lanelet_network)
     agent = LFAgent(dglane, model_params=model.model_params, model_geo=model.model_geometry)
-- 
2.43.0


From d55c1128cbdcb0519cb2e15660d5f2496411806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:28 +0000
Subject: [PATCH 31/45] fix: ShapelyViz failed on multi geometries and painted
 further polygons of a MultiPolygon as holes

---
 src/dg_commons/maps/shapely_viz.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/dg_commons/maps/shapely_viz.py b/src/dg_commons/maps/shapely_viz.py
index 9a5d672..9bb1e18 100644
--- a/src/dg_commons/maps/shapely_viz.py
+++ b/src/dg_commons/maps/shapely_viz.py
@@ -50,7 +50,7 @@ class ShapelyViz:
         elif isinstance(shape, (Polygon, MultiPolygon)):
             self._plot_polys(shape, **style_kwargs)
         elif isinstance(shape, GeometryCollection):
-            for poly in shape:
+            for poly in shape.geoms:
                 self.add_shape(poly, **style_kwargs)
         else:
             raise NotImplementedError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
@@ -64,12 +64,10 @@ class ShapelyViz:
         if shape.is_empty:
             logger.info("Given shape is empty, returning.")
             return
-        # todo
-        x, y = [], []
         if isinstance(shape, MultiPoint):
-            for point in shape:
-                x.append(point.x)
-                y.append(point.y)
+            for point in shape.geoms:
+                self._plot_points(point, **style_kwargs)
+            return
         elif isinstance(shape, Point):
             x, y = map(list, shape.xy)
         else:
@@ -91,7 +89,7 @@ class ShapelyViz:
             x, y = map(list, shape.xy)
             self.ax.plot(x, y, **style_kwargs)
         elif isinstance(shape, MultiLineString):
-            for line in shape:
+            for line in shape.geoms:
                 x, y = map(list, line.xy)
                 self.ax.plot(x, y, **style_kwargs)
         else:
@@ -110,6 +108,11 @@ class ShapelyViz:
         if not isinstance(shape, (Polygon, MultiPolygon)):
             raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
 
+        if isinstance(shape, MultiPolygon):
+            for poly in shape.geoms:
+                self._plot_polys(poly, **style_kwargs)
+            return
+
         xs, ys = self._get_poly_coordinates(shape)
         for idx, xy in enumerate(zip(xs, ys)):
             xy_array = list(zip(*xy))
-- 
2.43.0


From ec2f8da86f06bdf6f041e8a98a850dd640067293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:30 +0000
Subject: [PATCH 32/45] fix: ShapelyViz painted the holes of a polygon with a
 z-order behind the polygon

---
 src/dg_commons/maps/shapely_viz.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/maps/shapely_viz.py b/src/dg_commons/maps/shapely_viz.py
index 9bb1e18..30cfffb 100644
--- a/src/dg_commons/maps/shapely_viz.py
+++ b/src/dg_commons/maps/shapely_viz.py
@@ -119,7 +119,10 @@ class ShapelyViz:
             if idx == 0:
                 poly = mpatches.Polygon(xy_array, **style_kwargs)
             else:
-                poly = mpatches.Polygon(xy_array, facecolor=self.ax.get_facecolor())
+                # the hole has to lie at the same height as the polygon, not to disappear behind it
+                poly = mpatches.Polygon(
+                    xy_array, facecolor=self.ax.get_facecolor(), zorder=style_kwargs.get("zorder", None)
+                )
             self.ax.add_patch(poly)
 
     def _get_poly_coordinates(self, shape: Union[Polygon, MultiPolygon]):
-- 
2.43.0


From 475741b3dcdc93a82c2556f6a0706972589b7cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 33/45] fix: an animation never showed the trajectories of a
 player who logs them only later on

---
 src/dg_commons/sim/simulator_animation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 986a7ec..70c853e 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -138,8 +138,8 @@ def create_animation(
                         ax=ax,
                         player_name=pname,
                         trajectories=list(trajectories),
-                        traj_lines=traj_lines[pname],
-                        traj_points=traj_points[pname],
+                        traj_lines=traj_lines.get(pname, None),
+                        traj_points=traj_points.get(pname, None),
                         colors=list(tcolors),
                     )
                 except:
-- 
2.43.0


From 6f0af5e1a95c53ff86b447ddb4841587110bbd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:35 +0000
Subject: [PATCH 34/45] fix: building the road boundaries crashed when the
 outline of the lanes is left in one piece

---
 src/dg_commons/maps/road_bounds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/maps/road_bounds.py b/src/dg_commons/maps/road_bounds.py
index b302b13..0d357aa 100644
--- a/src/dg_commons/maps/road_bounds.py
+++ b/src/dg_commons/maps/road_bounds.py
@@ -44,5 +44,6 @@ def build_road_boundary_obstacle(scenario: Scenario, buffer: float = 0.1) -> tup
         ext_bounds = geo.exterior
         for eeg in entrance_exit_gates:
             ext_bounds = ext_bounds.difference(eeg)
-        scenario_bounds += [g for g in ext_bounds.geoms]
+        # a single line (or ring) is left if there is no gate or if the ring starts inside of it
+        scenario_bounds += [g for g in getattr(ext_bounds, "geoms", [ext_bounds]) if not g.is_empty]
     return scenario_bounds, entrance_exit_gates
-- 
2.43.0


From 898ea69e4c82f3a4fa04ac1c503b943526edc9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:06 +0000
Subject: [PATCH 35/45] fix: find_crossings raised TypeError on sequences with
 Decimal timestamps

---
 src/dg_commons/seq/seq_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/seq/seq_op.py b/src/dg_commons/seq/seq_op.py
index 9a5f32e..f07f0fc 100644
--- a/src/dg_commons/seq/seq_op.py
+++ b/src/dg_commons/seq/seq_op.py
@@ -57,7 +57,7 @@ def find_crossings(sequence: DgSampledSequence[float], threshold: float) -> list
     crossings: list[Timestamp] = []
     for i in zero_crossings:
         i_plus_1 = i + 1
-        t0, t1 = sequence.timestamps[i], sequence.timestamps[i_plus_1]
+        t0, t1 = float(sequence.timestamps[i]), float(sequence.timestamps[i_plus_1])
         v0, v1 = values[i], values[i_plus_1]
         dt = t1 - t0
         # linear interpolation
-- 
2.43.0


From 0f72eb83da9874da3b2fd9d5e339e797d0565b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:06 +0000
Subject: [PATCH 36/45] fix: the safety metrics raised KeyError when a player
 has no mission

---
 src/dg_commons/eval/safety.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index b5c9ec8..c9a9bbb 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -246,8 +246,8 @@ def _remove_finished_players(
     """
     log_new = {}
     for name, log in log_at_t.items():
-        mission = missions[name]
+        mission = missions.get(name)
         state = log.state
-        if not mission.is_fulfilled(state):
+        if mission is None or not mission.is_fulfilled(state):
             log_new[name] = log
     return log_new
-- 
2.43.0


From e8d5b81b131ee808ca685f5b7db8fe651804c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:06 +0000
Subject: [PATCH 37/45] fix: focusing the plot on a player who is not there
 raised KeyError

---
 src/dg_commons/sim/simulator_animation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 70c853e..86a4060 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -209,7 +209,7 @@ def adjust_axes_limits(
             velocity_v = np.clip(velocity_v, -slack + buffer, slack - buffer)
             x_c, y_c = state.x + velocity_v[0], state.y + velocity_v[1]
             ax.axis(xmin=x_c - slack, xmax=x_c + slack, ymin=y_c - slack, ymax=y_c + slack)
-        except AssertionError:
+        except KeyError:
             ax.autoscale()
 
     elif isinstance(plot_limits, Sequence):
-- 
2.43.0


From 29c8f62e6df3629ddebdb98d9ac236092d247a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:06 +0000
Subject: [PATCH 38/45] fix: a ray casting sensor with a field of view narrower
 than its resolution crashed

---
 src/dg_commons/perception/sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/perception/sensor.py b/src/dg_commons/perception/sensor.py
index 2f3fa3d..d91dcbc 100644
--- a/src/dg_commons/perception/sensor.py
+++ b/src/dg_commons/perception/sensor.py
@@ -53,7 +53,7 @@ class VisRangeSensor(Sensor):
         if not self.is_omnidirectional():
             vertices.append(self.pose.p)
 
-        num_ray_angles = int(self.field_of_view / self.angle_resolution) + 1
+        num_ray_angles = max(int(self.field_of_view / self.angle_resolution) + 1, 2)
         ray_angles = self.pose.theta + np.linspace(-self.field_of_view / 2, self.field_of_view / 2, num_ray_angles)
 
         cc = pycrcc.CollisionChecker()
-- 
2.43.0


From d4fb814818aaa6a8577ff7161aa259539b58f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:33 +0000
Subject: [PATCH 39/45] fix: checking the desired lane never returned for a
 pose after one lane but before its successor

---
 src/dg_commons/eval/efficiency.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/dg_commons/eval/efficiency.py b/src/dg_commons/eval/efficiency.py
index 5873502..90ea1e1 100644
--- a/src/dg_commons/eval/efficiency.py
+++ b/src/dg_commons/eval/efficiency.py
@@ -54,22 +54,22 @@ def desired_lane_reached(
     ego_pose = SE2Transform.from_PoseState(ego_posestate)
     ref_lane = goal_lane.ref_lane  # dglanelet
     lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
+    backwards = lane_pose.along_before
     while not lane_pose.along_inside:
         if np.abs(lane_pose.along_lane) < 1.0 or np.abs(lane_pose.along_lane - ref_lane.get_lane_length()) < 1.0:
             # not inside the lane but close enough
             break
-        if lane_pose.along_after:
-            ref_lane = get_successor_dglane(lanelet_network, ref_lane)
-            if ref_lane is not None:
-                lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
-            else:
-                break
-        if lane_pose.along_before:
-            ref_lane = get_predecessor_dglane(lanelet_network, ref_lane)
-            if ref_lane is not None:
-                lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
-            else:
-                break
+        if lane_pose.along_before != backwards:
+            # after one lane but before the next (outside of a bend), it is inside neither of them
+            break
+        ref_lane = (
+            get_predecessor_dglane(lanelet_network, ref_lane)
+            if backwards
+            else get_successor_dglane(lanelet_network, ref_lane)
+        )
+        if ref_lane is None:
+            break
+        lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
 
     if goal_lane.is_fulfilled(state):
         return True
-- 
2.43.0


From 4eb0d984f3b4600c0ce7b4f2f370bbe83ee36c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:49 +0000
Subject: [PATCH 40/45] fix: a lane following agent carried the emergency and
 the controllers' state over to the next episode

---
 src/dg_commons/controllers/pid.py          | 4 ++++
 src/dg_commons/sim/agents/lane_follower.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/dg_commons/controllers/pid.py b/src/dg_commons/controllers/pid.py
index 078003a..759ac86 100644
--- a/src/dg_commons/controllers/pid.py
+++ b/src/dg_commons/controllers/pid.py
@@ -28,6 +28,10 @@ class PID:
         self.params = params
         self.measurement: float = 0
         self.reference: float = 0
+        self.reset()
+
+    def reset(self):
+        """Forgets about the past requests"""
         self.last_request_at: Optional[float] = None
         self.last_integral_error: float = 0
         self.last_proportional_error: float = 0
diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index af489a9..c9eb8c8 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -47,6 +47,10 @@ class LFAgent(Agent):
     def on_episode_init(self, init_sim_obs: InitSimObservations):
         self.my_name = init_sim_obs.my_name
         self.speed_behavior.my_name = init_sim_obs.my_name
+        # nothing of an earlier episode is carried over
+        self._emergency = False
+        self.speed_controller.reset()
+        self.steer_controller.reset()
         self.pure_pursuit.update_path(self.ref_lane)
 
     def get_commands(self, sim_obs: SimObservations) -> VehicleCommands:
-- 
2.43.0


From f8209b88b9f726f43c270d4122911d4f2e3c7653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:49 +0000
Subject: [PATCH 41/45] fix: merging with or upsampling an empty trajectory
 raised IndexError

---
 src/dg_commons/planning/trajectory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index 79d897c..77fd6b2 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -91,7 +91,7 @@ class Trajectory(DgSampledSequence[VehicleState]):
 
     def merge_unsafe(self, other: "Trajectory", tol=1e-3) -> "Trajectory":
         """Only checks that timestamps between the end and start of the trajectories to merge are consistent."""
-        if not self.is_empty():
+        if not self.is_empty() and not other.is_empty():
             assert (
                 abs(self.timestamps[-1] - other.timestamps[0]) <= tol
             ), "End and start timestamps of the trajectories to merge are not consistent."
@@ -111,6 +111,8 @@ class Trajectory(DgSampledSequence[VehicleState]):
         Add n points between each subsequent point in the original trajectory by interpolation
         # todo this method can be moved to be a method of the generic DGSampledSequence
         """
+        if self.is_empty():
+            return self
         timestamps = list(self.timestamps)
         up_values: list[VehicleState] = []
         up_timestamps: list[Timestamp] = []
-- 
2.43.0


From 1a373e65bf8b5404da9d79b2ba66a37bfcb5fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:49 +0000
Subject: [PATCH 42/45] fix: sequences and builders without a stated type of
 values could not be iterated or built

---
 src/dg_commons/seq/sequence.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/seq/sequence.py b/src/dg_commons/seq/sequence.py
index acff96a..85d496e 100644
--- a/src/dg_commons/seq/sequence.py
+++ b/src/dg_commons/seq/sequence.py
@@ -65,7 +65,8 @@ class DgSampledSequence(Generic[X]):
 
     @property
     def XT(self) -> Type[X]:
-        return get_args(self.__orig_class__)[0]
+        # unknown for the sequences built without stating it
+        return get_args(getattr(self, "__orig_class__", DgSampledSequence[object]))[0]
 
     @property
     def timestamps(self) -> tuple[Timestamp]:
@@ -224,7 +225,12 @@ class DgSampledSequenceBuilder(Generic[X]):
 
     @property
     def XT(self) -> Type[X]:
-        return get_args(self.__orig_class__)[0]
+        # unknown for the sequences built without stating it
+        return get_args(getattr(self, "__orig_class__", DgSampledSequence[object]))[0]
 
     def as_sequence(self) -> DgSampledSequence:
-        return self.sampled_sequence_type[self.XT](timestamps=self.timestamps, values=self.values)
+        seq_type = self.sampled_sequence_type
+        if getattr(seq_type, "__parameters__", ()):
+            # the types of sequences of a fixed type of values take no parameter
+            seq_type = seq_type[self.XT]
+        return seq_type(timestamps=self.timestamps, values=self.values)
-- 
2.43.0


From 623af9e88fb47b6f7bb3d773bde2d70a4d0585c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:49 +0000
Subject: [PATCH 43/45] fix: the delayed observation filter answered with the
 observations of an earlier episode

---
 src/dg_commons/sim/sim_perception.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index c7b80b0..8410566 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -109,10 +109,15 @@ class DelayedObsFilter(ObsFilter):
         self.obs_filter = obs_filter
         self.latency = latency
         self.obs_history: list[tuple[SimTime, SimObservations]] = []
+        self.last_sensed_ts: Optional[SimTime] = None
 
     def sense(self, scenario: DgScenario, full_obs: SimObservations, pov: PlayerName) -> SimObservations:
         obs = self.obs_filter.sense(scenario, full_obs, pov)
         shifted_t = obs.time + self.latency
+        if self.last_sensed_ts is not None and full_obs.time < self.last_sensed_ts:
+            # time went back, the history belongs to an earlier episode
+            self.obs_history.clear()
+        self.last_sensed_ts = full_obs.time
         self.obs_history.append((shifted_t, replace(obs, time=shifted_t)))
         history_ts = self._get_obs_history_timestamps()
         # the most recent observation which is at least latency old (the very first one until there is any)
-- 
2.43.0


From 109ee698c2beec519272a4f47844ac98c630b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:49 +0000
Subject: [PATCH 44/45] fix: a delayed observation filter shared by players
 delivered one player's observations to another

---
 src/dg_commons/sim/sim_perception.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index 8410566..302d2c8 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -1,5 +1,6 @@
 from abc import ABC, abstractmethod
 from bisect import bisect_right
+from collections import defaultdict
 from dataclasses import replace
 from typing import Optional
 
@@ -108,24 +109,23 @@ class DelayedObsFilter(ObsFilter):
         assert issubclass(type(obs_filter), ObsFilter)
         self.obs_filter = obs_filter
         self.latency = latency
-        self.obs_history: list[tuple[SimTime, SimObservations]] = []
-        self.last_sensed_ts: Optional[SimTime] = None
+        self.obs_history: dict[PlayerName, list[tuple[SimTime, SimObservations]]] = defaultdict(list)
+        self.last_sensed_ts: dict[PlayerName, SimTime] = {}
 
     def sense(self, scenario: DgScenario, full_obs: SimObservations, pov: PlayerName) -> SimObservations:
         obs = self.obs_filter.sense(scenario, full_obs, pov)
         shifted_t = obs.time + self.latency
-        if self.last_sensed_ts is not None and full_obs.time < self.last_sensed_ts:
+        # each player has its own history, also when several of them are given the same filter
+        history = self.obs_history[pov]
+        if full_obs.time < self.last_sensed_ts.get(pov, full_obs.time):
             # time went back, the history belongs to an earlier episode
-            self.obs_history.clear()
-        self.last_sensed_ts = full_obs.time
-        self.obs_history.append((shifted_t, replace(obs, time=shifted_t)))
-        history_ts = self._get_obs_history_timestamps()
+            history.clear()
+        self.last_sensed_ts[pov] = full_obs.time
+        history.append((shifted_t, replace(obs, time=shifted_t)))
+        history_ts = [_[0] for _ in history]
         # the most recent observation which is at least latency old (the very first one until there is any)
         idx = max(bisect_right(history_ts, obs.time) - 1, 0)
-        return self.obs_history[idx][1]
-
-    def _get_obs_history_timestamps(self) -> list[SimTime]:
-        return [_[0] for _ in self.obs_history]
+        return history[idx][1]
 
 
 class GhostObsFilter(ObsFilter):
-- 
2.43.0


From a1d181ef12348a65303488bb749521ad19164843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:49 +0000
Subject: [PATCH 45/45] fix: nested delayed observation filters delivered
 observations later than they were due

---
 src/dg_commons/sim/sim_perception.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index 302d2c8..ae1500f 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -124,7 +124,7 @@ class DelayedObsFilter(ObsFilter):
         history.append((shifted_t, replace(obs, time=shifted_t)))
         history_ts = [_[0] for _ in history]
         # the most recent observation which is at least latency old (the very first one until there is any)
-        idx = max(bisect_right(history_ts, obs.time) - 1, 0)
+        idx = max(bisect_right(history_ts, full_obs.time) - 1, 0)
         return history[idx][1]
 
 
-- 
2.43.0

