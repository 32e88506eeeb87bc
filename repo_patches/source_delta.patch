From 1265ca003b5dede5d541d530c497b54d4ac11e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 01/68] fix: reject NaN timestamps in sampled sequences

---
 src/dg_commons/seq/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/seq/sequence.py b/src/dg_commons/seq/sequence.py
index acff96a..017150e 100644
--- a/src/dg_commons/seq/sequence.py
+++ b/src/dg_commons/seq/sequence.py
@@ -53,7 +53,7 @@ class DgSampledSequence(Generic[X]):
                     raise ZValueError(f'I expected a real number as "Timestamp", got {type(t)}')
             for i in range(len(timestamps) - 1):
                 dt = timestamps[i + 1] - timestamps[i]
-                if dt <= 0:
+                if not dt > 0:  # also rejects NaN
                     raise ZValueError(f"Invalid dt = {dt} at i = {i}; ts= {timestamps}")
             ts_types = set([type(ts) for ts in timestamps])
             if D in ts_types and any([int in ts_types, float in ts_types]):
-- 
2.43.0


From 8ce2b7a4dbdc386cf20ef2bf7f35e911ac06a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 02/68] fix: find_crossings supports Decimal timestamps

---
 src/dg_commons/seq/seq_op.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/seq/seq_op.py b/src/dg_commons/seq/seq_op.py
index 9a5f32e..24b6e7c 100644
--- a/src/dg_commons/seq/seq_op.py
+++ b/src/dg_commons/seq/seq_op.py
@@ -1,3 +1,4 @@
+from decimal import Decimal
 from operator import add
 
 import numpy as np
@@ -61,6 +62,7 @@ def find_crossings(sequence: DgSampledSequence[float], threshold: float) -> list
         v0, v1 = values[i], values[i_plus_1]
         dt = t1 - t0
         # linear interpolation
-        t = t0 + (v0 / (v0 - v1)) * dt
+        scale = float(v0 / (v0 - v1))
+        t = t0 + (Decimal(scale) if isinstance(dt, Decimal) else scale) * dt
         crossings.append(t)
     return crossings
-- 
2.43.0


From 55bcc742e674c85af5bfd0300ec94cc8e5d76eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 03/68] fix: find_crossings reports no crossing between a zero
 and a negative zero

---
 src/dg_commons/seq/seq_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/seq/seq_op.py b/src/dg_commons/seq/seq_op.py
index 24b6e7c..435bb5c 100644
--- a/src/dg_commons/seq/seq_op.py
+++ b/src/dg_commons/seq/seq_op.py
@@ -54,7 +54,7 @@ def seq_accumulate(sequence: DgSampledSequence[float]) -> DgSampledSequence[floa
 def find_crossings(sequence: DgSampledSequence[float], threshold: float) -> list[Timestamp]:
     """Finds the timestamps where the sequence crosses the threshold."""
     values = np.array(sequence.values) - threshold
-    zero_crossings = np.where(np.diff(np.signbit(values)))[0]
+    zero_crossings = np.where(np.diff(values < 0))[0]
     crossings: list[Timestamp] = []
     for i in zero_crossings:
         i_plus_1 = i + 1
-- 
2.43.0


From 6442b35e8b37cc60670ee6d9f52e1c9ea06f8551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 04/68] fix: SpacecraftCommands.from_array uses the right
 component name

---
 src/dg_commons/sim/models/spacecraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/spacecraft.py b/src/dg_commons/sim/models/spacecraft.py
index a13d9ce..b98a5e0 100644
--- a/src/dg_commons/sim/models/spacecraft.py
+++ b/src/dg_commons/sim/models/spacecraft.py
@@ -55,7 +55,7 @@ class SpacecraftCommands:
     @classmethod
     def from_array(cls, z: np.ndarray):
         assert cls.get_n_commands() == z.size == z.shape[0], f"z vector {z} cannot initialize VehicleInputs."
-        return SpacecraftCommands(acc_left=z[cls.idx["acc_left "]], acc_right=z[cls.idx["acc_right"]])
+        return SpacecraftCommands(acc_left=z[cls.idx["acc_left"]], acc_right=z[cls.idx["acc_right"]])
 
 
 @dataclass(unsafe_hash=True, eq=True, order=True)
-- 
2.43.0


From 63d2235ce3e34cc2282ed1e480a41cb6bb5a34ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 05/68] fix: scaling a VehicleStateDyn from the left scales all
 of its components

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index a068cad..c865bfb 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -39,6 +39,8 @@ class VehicleStateDyn(VehicleState):
         else:
             raise NotImplementedError
 
+    __radd__ = __add__
+
     def __mul__(self, val: float) -> "VehicleStateDyn":
         return replace(
             self,
@@ -51,6 +53,8 @@ class VehicleStateDyn(VehicleState):
             delta=self.delta * val,
         )
 
+    __rmul__ = __mul__
+
     def as_ndarray(self) -> np.ndarray:
         return np.array([self.x, self.y, self.psi, self.vx, self.vy, self.dpsi, self.delta])
 
-- 
2.43.0


From 4e4ff5614aa6680283bbc469b5279d97eba04e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 06/68] fix: DynObstacleModel enforces its rotational
 acceleration limits

---
 src/dg_commons/sim/models/obstacles_dyn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/obstacles_dyn.py b/src/dg_commons/sim/models/obstacles_dyn.py
index 5081d12..20d6e1a 100644
--- a/src/dg_commons/sim/models/obstacles_dyn.py
+++ b/src/dg_commons/sim/models/obstacles_dyn.py
@@ -195,7 +195,8 @@ class DynObstacleModel(SimModel[DynObstacleState, DynObstacleCommands]):
 
         acc_x = apply_full_acceleration_limits(speed=vx, acceleration=u.acc_x + x0.dpsi * vy, p=self.op)
         acc_y = apply_full_acceleration_limits(speed=vy, acceleration=u.acc_y - x0.dpsi * vx, p=self.op)
-        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=u.acc_psi, p=self.op)
+        ddpsi = min(max(u.acc_psi, self.op.ddpsi_limits[0]), self.op.ddpsi_limits[1])
+        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=ddpsi, p=self.op)
 
         return DynObstacleState(x=xdot, y=ydot, psi=x0.dpsi, vx=acc_x, vy=acc_y, dpsi=acc_psi)
 
-- 
2.43.0


From cf7183db24dfcc1b56fa07440ed211e41bbb4d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 07/68] fix: aerodynamic drag grows with the square of the
 speed, not of the air density

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index c865bfb..5600063 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -178,7 +178,7 @@ class VehicleModelDyn(VehicleModel):
             Facc2_sat = Facc2 * math.sqrt(1 - (F2y / (F2_n * self.pacejka_rear.D)) ** 2)
 
             # Drag Force
-            F_drag = -0.5 * x0.vx * self.vg.a_drag * self.vg.c_drag * rho**2
+            F_drag = -0.5 * rho * self.vg.a_drag * self.vg.c_drag * x0.vx**2
             # longitudinal acceleration
             acc_x = (F1[0] + F_drag + Facc2_sat) / m + x0.dpsi * x0.vy
 
-- 
2.43.0


From 51d82608a953e4f3d6280efc667f8f4ca44b66b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 08/68] fix: VehicleModelDyn.set_velocity sets the yaw rate

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index 5600063..753a5bc 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -219,7 +219,7 @@ class VehicleModelDyn(VehicleModel):
 
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.dtheta = omega
+        self._state.dpsi = omega
 
     def get_acceleration_split(self, Facc: float) -> Sequence[float]:
         """Returns split of acceleration force to be applied on front and rear wheel"""
-- 
2.43.0


From 686f6abd192a529fc06ad8a26661bd1b280e1cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 09/68] fix: curvature term of the 4-parameter Pacejka formula

---
 src/dg_commons/sim/models/tires.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/tires.py b/src/dg_commons/sim/models/tires.py
index 37d4ab9..0fd8ae0 100644
--- a/src/dg_commons/sim/models/tires.py
+++ b/src/dg_commons/sim/models/tires.py
@@ -55,4 +55,4 @@ class Pacejka4p(Pacejka):
     "curvature"
 
     def evaluate(self, slip: float) -> float:
-        return self.D * sin(self.C * atan(self.B * slip - self.E * (self.B * slip - self.E * atan(self.B * slip))))
+        return self.D * sin(self.C * atan(self.B * slip - self.E * (self.B * slip - atan(self.B * slip))))
-- 
2.43.0


From 7f7d47c0f24cf0f1cf35858a7caefa99eefbccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 10/68] fix: PedestrianModel.set_velocity no longer overwrites
 the speed with the yaw rate

---
 src/dg_commons/sim/models/pedestrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/pedestrian.py b/src/dg_commons/sim/models/pedestrian.py
index a002d17..3514238 100644
--- a/src/dg_commons/sim/models/pedestrian.py
+++ b/src/dg_commons/sim/models/pedestrian.py
@@ -249,7 +249,7 @@ class PedestrianModel(SimModel[SE2value, float]):
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.vx = omega
+        self._state.dpsi = omega
 
     @property
     def model_geometry(self) -> PedestrianGeometry:
-- 
2.43.0


From ebfc6059ab1cb0735888cc942cce2b7c147b5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 11/68] fix: RocketModel velocities are expressed in the frame
 asked for

---
 src/dg_commons/sim/models/rocket.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/sim/models/rocket.py b/src/dg_commons/sim/models/rocket.py
index a4fce0e..3df79c8 100644
--- a/src/dg_commons/sim/models/rocket.py
+++ b/src/dg_commons/sim/models/rocket.py
@@ -276,16 +276,17 @@ class RocketModel(SimModel[RocketState, RocketCommands]):
         vx = self._state.vx
         vy = self._state.vy
         dpsi = self._state.dpsi
-        v_l = np.array([vx, vy])
-        if in_model_frame:
-            return v_l, dpsi
-        rot: SO2value = SO2_from_angle(self._state.psi)
-        v_g = rot @ v_l
-        return v_g, dpsi
+        # the velocities of the state are expressed in global frame
+        v_g = np.array([vx, vy])
+        if not in_model_frame:
+            return v_g, dpsi
+        rot: SO2value = SO2_from_angle(-self._state.psi)
+        v_l = rot @ v_g
+        return v_l, dpsi
 
     def set_velocity(self, vel: T2value, dpsi: float, in_model_frame: bool):
-        if not in_model_frame:
-            rot: SO2value = SO2_from_angle(-self._state.psi)
+        if in_model_frame:
+            rot: SO2value = SO2_from_angle(self._state.psi)
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-- 
2.43.0


From e3889e691be087ae2461dd94f025062f76af2ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 12/68] fix: the impact regions of a differential drive robot
 cover its footprint

---
 src/dg_commons/sim/models/diff_drive.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/models/diff_drive.py b/src/dg_commons/sim/models/diff_drive.py
index 2a04efc..b4633d4 100644
--- a/src/dg_commons/sim/models/diff_drive.py
+++ b/src/dg_commons/sim/models/diff_drive.py
@@ -178,12 +178,17 @@ class DiffDriveModel(SimModel[DiffDriveState, DiffDriveCommands]):
         footprint = self.get_footprint()
         vertices = footprint.exterior.coords[:-1]
         cxy = footprint.centroid.coords[0]
-        # fixme maybe we can use triangulate from shapely inferring the side from the relative angle
+        n = len(vertices)
+
+        def _sector(start: int) -> Polygon:
+            """A quarter of the (round) footprint, the outline starts at the front and proceeds clockwise"""
+            return Polygon([cxy] + [vertices[(start + i) % n] for i in range(n // 4 + 1)] + [cxy])
+
         impact_locations: Mapping[ImpactLocation, Polygon] = {
-            IMPACT_RIGHT: Polygon([cxy, vertices[0], vertices[3], cxy]),
-            IMPACT_LEFT: Polygon([cxy, vertices[1], vertices[2], cxy]),
-            IMPACT_BACK: Polygon([cxy, vertices[0], vertices[1], cxy]),
-            IMPACT_FRONT: Polygon([cxy, vertices[2], vertices[3], cxy]),
+            IMPACT_RIGHT: _sector(n // 8),
+            IMPACT_LEFT: _sector(5 * n // 8),
+            IMPACT_BACK: _sector(3 * n // 8),
+            IMPACT_FRONT: _sector(-n // 8),
         }
         for shape in impact_locations.values():
             assert shape.is_valid
-- 
2.43.0


From 664890781491140fd622daed3486332ea1a55899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 13/68] fix: DiffDriveModel reports its actual velocity

---
 src/dg_commons/sim/models/diff_drive.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/models/diff_drive.py b/src/dg_commons/sim/models/diff_drive.py
index b4633d4..7764ef8 100644
--- a/src/dg_commons/sim/models/diff_drive.py
+++ b/src/dg_commons/sim/models/diff_drive.py
@@ -5,7 +5,7 @@ from typing import Type, Mapping
 
 import numpy as np
 from frozendict import frozendict
-from geometry import SE2value, SE2_from_xytheta, T2value
+from geometry import SE2value, SE2_from_xytheta, SO2_from_angle, SO2value, T2value
 from scipy.integrate import solve_ivp
 from shapely.geometry import Polygon
 
@@ -115,6 +115,8 @@ class DiffDriveModel(SimModel[DiffDriveState, DiffDriveCommands]):
         """ The vehicle's geometry parameters"""
         self.vp: DiffDriveParameters = vp
         """ The vehicle parameters"""
+        self._last_commands: DiffDriveCommands = DiffDriveCommands(omega_l=0, omega_r=0)
+        """ Commands currently applied to the wheels (the state has no velocities)"""
 
     @classmethod
     def default(cls, x0: DiffDriveState) -> "DiffDriveModel":
@@ -150,6 +152,7 @@ class DiffDriveModel(SimModel[DiffDriveState, DiffDriveCommands]):
             raise RuntimeError("Failed to integrate ivp!")
         new_state, _ = _stateactions_from_array(result.y[:, -1])
         self._state = new_state
+        self._last_commands = DiffDriveCommands.from_array(action_np)
         return
 
     def dynamics(self, x0: DiffDriveState, u: DiffDriveCommands) -> DiffDriveState:
@@ -202,8 +205,15 @@ class DiffDriveModel(SimModel[DiffDriveState, DiffDriveCommands]):
         return self.vg
 
     def get_velocity(self, in_model_frame: bool) -> (T2value, float):
-        """Returns velocity at COG"""
-        return [0, 0], 0
+        """Returns velocity at COG, as it results from the commands last applied to the wheels"""
+        if self.has_collided:
+            return np.zeros(2), 0.0
+        dx = self.dynamics(x0=self._state, u=self._last_commands)
+        v_g = np.array([dx.x, dx.y])
+        if not in_model_frame:
+            return v_g, dx.psi
+        rot: SO2value = SO2_from_angle(-self._state.psi)
+        return rot @ v_g, dx.psi
 
     def set_velocity(self, vel: T2value, omega: float, in_model_frame: bool):
         logger.warn(
-- 
2.43.0


From 96797b440fb57856ba5212ff48ef7556ede4b09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 14/68] fix: impact geometry of several aligned contact points

---
 src/dg_commons/sim/collision_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index 7149053..339bbd5 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -39,13 +39,16 @@ def _find_intersection_points(a_shape: Polygon, b_shape: BaseGeometry) -> list[t
     elif any(
         isinstance(int_shape, shape_t) for shape_t in [MultiPolygon, MultiLineString, MultiPoint, GeometryCollection]
     ):
-        int_shape: Polygon = int_shape.minimum_rotated_rectangle
+        int_shape: BaseGeometry = int_shape.minimum_rotated_rectangle
         logger.warn(
             f"Found multiple contact points between two geometries, collision resolution might not be accurate. "
             f"Try a smaller physics step for improved accuracy."
         )
         # this could still lead to some ill-posed cases
-        points = list(int_shape.exterior.coords[:-1])
+        if isinstance(int_shape, Polygon):
+            points = list(int_shape.exterior.coords[:-1])
+        else:  # all the contact points are aligned
+            points = list(int_shape.coords)
     else:
         raise CollisionException(f"Unable to handle intersection shape: {int_shape}")
 
-- 
2.43.0


From a51770a5e81115511f3e8d484431008d493ee7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 15/68] fix: bodies which merely touch no longer abort the
 impact computation

---
 src/dg_commons/sim/collision_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index 339bbd5..e991faf 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -97,7 +97,6 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
     :param b: Base Geometry
     :return: normal of impact and the impact point
     """
-    assert not a.touches(b)
     if a.contains(b):
         impact_point = b.centroid
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
-- 
2.43.0


From 3112b0823c1b68916fce5c54463c04aee5cacc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 16/68] fix: no undefined impact normal for concentric shapes

---
 src/dg_commons/sim/collision_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index e991faf..f16cd75 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -100,6 +100,8 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
     if a.contains(b):
         impact_point = b.centroid
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
+        if not np.any(r_ap):
+            raise CollisionException("The impact normal is undefined since the two shapes are concentric")
         normal = r_ap / np.linalg.norm(r_ap)
     else:
         intersecting_points = _find_intersection_points(a, b)
-- 
2.43.0


From 609adcff9751369ab8e5d4a68d211576a6bac1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 17/68] fix: collisions with straight lines no longer crash the
 report

---
 src/dg_commons/sim/collision.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/collision.py b/src/dg_commons/sim/collision.py
index 16d7690..046c78e 100644
--- a/src/dg_commons/sim/collision.py
+++ b/src/dg_commons/sim/collision.py
@@ -2,7 +2,7 @@ from typing import Optional
 
 import numpy as np
 from geometry import translation_angle_from_SE2
-from shapely.geometry import Polygon
+from shapely.geometry import MultiPolygon, Polygon
 from shapely.geometry.base import BaseGeometry
 
 from dg_commons import PlayerName
@@ -188,8 +188,9 @@ def resolve_collision_with_environment(
         energy_delta=a_kenergy_delta,
     )
     # create a report for the "environment" as a fictitious player
-    if not isinstance(b_shape, Polygon):
-        b_shape = Polygon(b_shape)
+    if not isinstance(b_shape, (Polygon, MultiPolygon)):
+        # lines (e.g. road boundaries) do not necessarily enclose an area, report a thin polygon around them
+        b_shape = b_shape.buffer(1e-3)
     b_locations = [
         (IMPACT_EVERYWHERE, b_shape),
     ]
-- 
2.43.0


From 5525fc886cb99f07e11e03f67f973490399c23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 18/68] fix: collision reports of unresolved contacts can be
 combined

---
 src/dg_commons/sim/collision_structures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dg_commons/sim/collision_structures.py b/src/dg_commons/sim/collision_structures.py
index c801620..7a49505 100644
--- a/src/dg_commons/sim/collision_structures.py
+++ b/src/dg_commons/sim/collision_structures.py
@@ -75,6 +75,10 @@ def combine_collision_reports(r1: CollisionReport, r2: CollisionReport) -> Colli
     combined_players_report: dict[PlayerName, CollisionReportPlayer] = {}
     for p in first_report.players:
         r1_player, r2_player = first_report.players[p], second_report.players[p]
+        if r1_player is None or r2_player is None:
+            # a contact that could not be resolved carries no data about its players
+            combined_players_report[p] = r2_player if r1_player is None else r1_player
+            continue
         combined_players_report[p] = replace(
             r1_player,
             locations=r1_player.locations + r2_player.locations,
-- 
2.43.0


From 3957bb2ac0f518e9de5be271e6ac6d92d1c3d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 19/68] fix: no undefined impact normal for coinciding contact
 points

---
 src/dg_commons/sim/collision_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index f16cd75..81375f4 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -109,6 +109,8 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
         first, second = intersecting_points
         dxdy_surface = (second[0] - first[0], second[1] - first[1])
         normal = np.array([-dxdy_surface[1], dxdy_surface[0]])
+        if np.linalg.norm(normal) < 1.0e-9:
+            raise CollisionException("The impact normal is undefined since the intersecting points coincide")
         normal /= np.linalg.norm(normal)
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
     if np.dot(r_ap, normal) < 0:
-- 
2.43.0


From f82acebe8da6aa6da183ed63cd72250d98ea3070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 20/68] fix: simulators do not share their state across
 instances and runs

---
 src/dg_commons/sim/simulator.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index d13061e..b515e86 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -73,15 +73,20 @@ class Simulator:
         - A post-update function that checks the new states of all the models and resolves collisions
     """
 
-    # fixme check if this is okay once you have multiple simulators running together
-    last_observations: SimObservations = SimObservations(players=fd({}), time=Decimal(0))
-    last_get_commands_ts: SimTime = SimTime("-Infinity")
-    last_commands: dict[PlayerName, U] = {}
-    simlogger: dict[PlayerName, PlayerLogger] = {}
+    def __init__(self):
+        self._reset()
+
+    def _reset(self):
+        """Each run starts afresh and does not share anything with other simulators"""
+        self.last_observations: SimObservations = SimObservations(players=fd({}), time=Decimal(0))
+        self.last_get_commands_ts: SimTime = SimTime("-Infinity")
+        self.last_commands: dict[PlayerName, U] = {}
+        self.simlogger: dict[PlayerName, PlayerLogger] = {}
 
     @time_function
     def run(self, sim_context: SimContext):
         logger.info("~~~~~> Beginning simulation")
+        self._reset()
         # initialize the simulation
         for player_name, player in sim_context.players.items():
             scenario = deepcopy(sim_context.dg_scenario)
-- 
2.43.0


From 647c17f9a47f7b2f91463ff4f2ff918217747310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 21/68] fix: agents receive private copies of the observations

---
 src/dg_commons/sim/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index b515e86..8a56745 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -141,6 +141,8 @@ class Simulator:
                 p_observations = sim_context.sensors[player_name].sense(
                     sim_context.dg_scenario, self.last_observations, player_name
                 )
+                # the agent gets its own snapshot: what it does with it does not affect the others
+                p_observations = deepcopy(p_observations)
                 tic = perf_counter()
                 cmds = agent.get_commands(p_observations)
                 toc = perf_counter()
-- 
2.43.0


From c4289ebcd9f3bb6ab8579cfce06be03d80091724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 22/68] fix: logged commands do not follow later changes made
 by the agent

---
 src/dg_commons/sim/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index 8a56745..5d5dfc5 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -146,6 +146,8 @@ class Simulator:
                 tic = perf_counter()
                 cmds = agent.get_commands(p_observations)
                 toc = perf_counter()
+                # the agent may reuse the object it returned, the log must not follow
+                cmds = deepcopy(cmds)
                 self.last_commands[player_name] = cmds
                 self.simlogger[player_name].commands.add(t=t, v=cmds)
                 self.simlogger[player_name].info.add(t=t, v=toc - tic)
-- 
2.43.0


From 40a2ea77cb96b0f612e76fc0df015541f65f68ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 23/68] fix: PolicyAgent calls its policy with the state

---
 src/dg_commons/sim/agents/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/agent.py b/src/dg_commons/sim/agents/agent.py
index 6a5ffbc..e8e541a 100644
--- a/src/dg_commons/sim/agents/agent.py
+++ b/src/dg_commons/sim/agents/agent.py
@@ -65,5 +65,5 @@ class PolicyAgent(Agent):
         self.my_name = init_sim_obs.my_name
 
     def get_commands(self, sim_obs: SimObservations) -> U:
-        my_state: X = sim_obs.players[self.my_name]
+        my_state: X = sim_obs.players[self.my_name].state
         return self.policy(my_state)
-- 
2.43.0


From d5c315c70febf34e66e117357d6dbc39e0c92346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 24/68] fix: players without a sensor get full observations

---
 src/dg_commons/sim/simulator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index 5d5dfc5..18f7348 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -63,6 +63,9 @@ class SimContext:
         for pname in self.models.keys():
             assert issubclass(type(self.models[pname]), SimModel)
             assert issubclass(type(self.players[pname]), Agent)
+        if not isinstance(self.sensors, defaultdict):
+            # players without a sensor of their own get full observations
+            self.sensors = {p: self.sensors[p] if p in self.sensors else IdObsFilter() for p in self.models}
 
 
 class Simulator:
-- 
2.43.0


From e976854d484655ecaede307e64e805b39b5380ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 25/68] fix: copies of the observations handed to agents are
 deep (frozendict does not copy hashable content)

---
 src/dg_commons/sim/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index 18f7348..3ad6393 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -145,7 +145,9 @@ class Simulator:
                     sim_context.dg_scenario, self.last_observations, player_name
                 )
                 # the agent gets its own snapshot: what it does with it does not affect the others
-                p_observations = deepcopy(p_observations)
+                p_observations = replace(
+                    p_observations, players=fd({p: deepcopy(obs) for p, obs in p_observations.players.items()})
+                )
                 tic = perf_counter()
                 cmds = agent.get_commands(p_observations)
                 toc = perf_counter()
-- 
2.43.0


From 2314a54c38fbe6a17361c0a45a431b85c4ab52eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 26/68] fix: delayed observations are never fresher than the
 latency

---
 src/dg_commons/sim/sim_perception.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index ddb5528..4cfef29 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -1,5 +1,5 @@
 from abc import ABC, abstractmethod
-from bisect import bisect_left
+from bisect import bisect_right
 from dataclasses import replace
 
 import numpy as np
@@ -112,7 +112,8 @@ class DelayedObsFilter(ObsFilter):
         shifted_t = obs.time + self.latency
         self.obs_history.append((shifted_t, replace(obs, time=shifted_t)))
         history_ts = self._get_obs_history_timestamps()
-        idx = bisect_left(history_ts, obs.time)
+        # latest observations which are already available, at the beginning the oldest ones
+        idx = max(bisect_right(history_ts, obs.time) - 1, 0)
         return self.obs_history[idx][1]
 
     def _get_obs_history_timestamps(self) -> list[SimTime]:
-- 
2.43.0


From 68f736b940bb3db808193e7163b8fd47945dba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 27/68] fix: FovObsFilter does not keep the obstacles of an
 earlier scenario

---
 src/dg_commons/sim/sim_perception.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index 4cfef29..3727c66 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from bisect import bisect_right
 from dataclasses import replace
+from typing import Optional
 
 import numpy as np
 from commonroad_dc.pycrcc import Polygon as crPolygon
@@ -45,6 +46,7 @@ class FovObsFilter(ObsFilter):
     def __init__(self, sensor: Sensor):
         self.sensor: Sensor = sensor
         self._static_obstacles: list[crPolygon] = []
+        self._static_obstacles_of: Optional[DgScenario] = None
         self._tmp_debug: int = 0
 
     def sense(self, scenario: DgScenario, full_obs: SimObservations, pov: PlayerName) -> SimObservations:
@@ -58,7 +60,8 @@ class FovObsFilter(ObsFilter):
         # first update sensor pose
         self.sensor.pose = SE2Transform.from_SE2(extract_pose_from_state(full_obs.players[pov].state))
         # then filter
-        if not self._static_obstacles:
+        if self._static_obstacles_of is not scenario:
+            self._static_obstacles_of = scenario
             self._static_obstacles = list(interleave([shapely2crPolygons(o.shape) for o in scenario.static_obstacles]))
 
         self._tmp_debug += 1
-- 
2.43.0


From f417d3b1747dedb420f6ad8760770ca41ac9e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 28/68] fix: FovObsFilter does not miss players whose border is
 hit by the rays up to rounding

---
 src/dg_commons/sim/sim_perception.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index 3727c66..71226ee 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -43,6 +43,9 @@ class FovObsFilter(ObsFilter):
     FOV visibility filter. Filters observations according to the sensor's FOV.
     """
 
+    _touch_tol: float = 1e-6
+    """The FOV polygon ends where the rays hit the players, that is, up to rounding errors, on their border [m]"""
+
     def __init__(self, sensor: Sensor):
         self.sensor: Sensor = sensor
         self._static_obstacles: list[crPolygon] = []
@@ -78,7 +81,7 @@ class FovObsFilter(ObsFilter):
                 continue
 
             try:
-                player_seen = fov_poly.intersects(p_obs.occupancy)
+                player_seen = fov_poly.dwithin(p_obs.occupancy, self._touch_tol)
             except Exception:
                 logger.info(f"FOV polygon is valid: {fov_poly.is_valid}")
                 logger.info(f"{p}'s polygon is valid: {p_obs.occupancy.is_valid}")
@@ -87,7 +90,7 @@ class FovObsFilter(ObsFilter):
                 if not p_obs.occupancy.is_valid:
                     new_occupancy = make_valid(p_obs.occupancy)
                     p_obs = replace(p_obs, occupancy=new_occupancy)
-                player_seen = fov_poly.intersects(p_obs.occupancy)
+                player_seen = fov_poly.dwithin(p_obs.occupancy, self._touch_tol)
             finally:
                 if player_seen:
                     new_players[p] = p_obs
-- 
2.43.0


From a5413fabc49f7a34e1f83d636c7f8d9c4151d356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 29/68] fix: lane coordinates before and after a lane are
 distances

---
 src/dg_commons/maps/lanes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 488e488..5bc0cef 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -267,11 +267,11 @@ class DgLanelet:
 
         if i < 0:
             q0 = self.control_points[0].q.as_SE2()
-            q1 = SE2.multiply(q0, SE2_from_translation_angle([0.1, 0], 0))
+            q1 = SE2.multiply(q0, SE2_from_translation_angle([1.0, 0], 0))
             alpha = beta
         elif i >= n - 1:
             q0 = self.control_points[-1].q.as_SE2()
-            q1 = SE2.multiply(q0, SE2_from_translation_angle([0.1, 0], 0))
+            q1 = SE2.multiply(q0, SE2_from_translation_angle([1.0, 0], 0))
             alpha = beta - (n - 1)
         else:
             alpha = beta - i
@@ -286,12 +286,12 @@ class DgLanelet:
         i = int(np.floor(beta))
         if i < 0:
             q0 = self.control_points[0].q
-            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([0.1, 0], 0))
+            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([1.0, 0], 0))
             q1 = SE2Transform.from_SE2(q1_tmp)
             alpha = beta
         elif i >= n - 1:
             q0 = self.control_points[-1].q
-            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([0.1, 0], 0))
+            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([1.0, 0], 0))
             q1 = SE2Transform.from_SE2(q1_tmp)
             alpha = beta - (n - 1)
         else:
-- 
2.43.0


From 216e76323f270406cbbb325e7435a0125cfc09b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 30/68] fix: fast centre points do not turn the long way around
 at +-pi

---
 src/dg_commons/maps/lanes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 5bc0cef..eb7d34b 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -299,7 +299,8 @@ class DgLanelet:
             q1 = self.control_points[i + 1].q
             alpha = beta - i
         p = q0.p * (1 - alpha) + q1.p * alpha
-        theta = q0.theta * (1 - alpha) + q1.theta * alpha
+        dtheta = (q1.theta - q0.theta + pi) % (2 * pi) - pi  # the short way around
+        theta = q0.theta + alpha * dtheta
         return SE2Transform(p, theta)
 
     def is_inside_from_T2value(self, position: T2value, tol: float = 1e-3) -> bool:
-- 
2.43.0


From 5769eac8fbc25821ff449a45b4af2e70a8536293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 31/68] fix: DgLanelet.get_lanelets does not hash its
 unhashable arguments

---
 src/dg_commons/maps/lanes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index eb7d34b..5bc639e 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -105,7 +105,6 @@ class DgLanelet:
             ctr_points.append(LaneCtrPoint(q, r=np.linalg.norm(normal) / 2))
         return DgLanelet(ctr_points)
 
-    @cached(LRUCache(maxsize=128))
     @staticmethod
     def get_lanelets(lane_network: LaneletNetwork, points: list[np.ndarray]) -> list[Lanelet]:
         lane_ids = lane_network.find_lanelet_by_position(point_list=points)
-- 
2.43.0


From 9e5233e04e1c94208fd31af885d9b606bf5ca430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 32/68] fix: road boundaries which consist of a single piece

---
 src/dg_commons/maps/road_bounds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/maps/road_bounds.py b/src/dg_commons/maps/road_bounds.py
index b302b13..fe13858 100644
--- a/src/dg_commons/maps/road_bounds.py
+++ b/src/dg_commons/maps/road_bounds.py
@@ -44,5 +44,6 @@ def build_road_boundary_obstacle(scenario: Scenario, buffer: float = 0.1) -> tup
         ext_bounds = geo.exterior
         for eeg in entrance_exit_gates:
             ext_bounds = ext_bounds.difference(eeg)
-        scenario_bounds += [g for g in ext_bounds.geoms]
+        # depending on the gates there are several pieces, only one or none
+        scenario_bounds += [g for g in getattr(ext_bounds, "geoms", [ext_bounds]) if not g.is_empty]
     return scenario_bounds, entrance_exit_gates
-- 
2.43.0


From 994ad8dd995e89089dd9882df18b76e44ed74767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 33/68] fix: the gates are open also in road boundaries without
 buffer

---
 src/dg_commons/maps/road_bounds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/maps/road_bounds.py b/src/dg_commons/maps/road_bounds.py
index fe13858..24319f7 100644
--- a/src/dg_commons/maps/road_bounds.py
+++ b/src/dg_commons/maps/road_bounds.py
@@ -13,6 +13,7 @@ def build_road_boundary_obstacle(scenario: Scenario, buffer: float = 0.1) -> tup
     @:return: a tuple containing the road boundaries and the open gates. Both are represented as a lists of LineStrings
     """
 
+    gate_buffer = max(buffer * 2, 1e-3)  # gates have to be opened also if the lanelets are not buffered
     lanelets = scenario.lanelet_network.lanelets
     scenario_bounds: list[LineString] = []
     lane_polygons: list[Polygon] = []
@@ -22,11 +23,11 @@ def build_road_boundary_obstacle(scenario: Scenario, buffer: float = 0.1) -> tup
         if len(lanelet.successor) == 0:
             pt1 = lanelet.right_vertices[-1]
             pt2 = lanelet.left_vertices[-1]
-            entrance_exit_gates.append(LineString([pt1, pt2]).buffer(buffer * 2))
+            entrance_exit_gates.append(LineString([pt1, pt2]).buffer(gate_buffer))
         if len(lanelet.predecessor) == 0:
             pt1 = lanelet.right_vertices[0]
             pt2 = lanelet.left_vertices[0]
-            entrance_exit_gates.append(LineString([pt1, pt2]).buffer(buffer * 2))
+            entrance_exit_gates.append(LineString([pt1, pt2]).buffer(gate_buffer))
 
     overall_poly = unary_union(lane_polygons)
     # if the overall_poly is a Polygon, convert it to a MultiPolygon
-- 
2.43.0


From 689a97835aad92bc6d78be5099461885bb59253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 34/68] fix: gates on the inner borders of the road are open,
 too

---
 src/dg_commons/maps/road_bounds.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/maps/road_bounds.py b/src/dg_commons/maps/road_bounds.py
index 24319f7..0b4b5c4 100644
--- a/src/dg_commons/maps/road_bounds.py
+++ b/src/dg_commons/maps/road_bounds.py
@@ -39,12 +39,9 @@ def build_road_boundary_obstacle(scenario: Scenario, buffer: float = 0.1) -> tup
         )
 
     for geo in overall_poly.geoms:
-        for interior in geo.interiors:
-            scenario_bounds.append(interior)
-
-        ext_bounds = geo.exterior
-        for eeg in entrance_exit_gates:
-            ext_bounds = ext_bounds.difference(eeg)
-        # depending on the gates there are several pieces, only one or none
-        scenario_bounds += [g for g in getattr(ext_bounds, "geoms", [ext_bounds]) if not g.is_empty]
+        for bounds in (*geo.interiors, geo.exterior):
+            for eeg in entrance_exit_gates:
+                bounds = bounds.difference(eeg)
+            # depending on the gates there are several pieces, only one or none
+            scenario_bounds += [g for g in getattr(bounds, "geoms", [bounds]) if not g.is_empty]
     return scenario_bounds, entrance_exit_gates
-- 
2.43.0


From 5b52b01deff6622fe69473ea3e6f551c873047bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:45 +0000
Subject: [PATCH 35/68] fix: pose goals can be drawn

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 4cf7b3a..58610f1 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -108,7 +108,7 @@ class PoseGoal(PlanningGoal):
         return np.linalg.norm(pose - goal_pose) <= self.tol
 
     def get_plottable_geometry(self, at: SimTime | float = 0) -> BaseGeometry:
-        raise self.goal_pose_poly
+        return self.goal_pose_poly
 
     @cached_property
     def goal_pose_poly(self) -> Polygon:
-- 
2.43.0


From 013463382db7dfb53e8959d3f29292c0384daa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:45 +0000
Subject: [PATCH 36/68] fix: the region of a RefLaneGoal is at its progress in
 meters

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 58610f1..8288c75 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -58,7 +58,7 @@ class RefLaneGoal(PlanningGoal):
 
     @cached_property
     def goal_polygon(self) -> Polygon:
-        poly = _polygon_at_along_lane(self.ref_lane, self.goal_progress)
+        poly = _polygon_at_along_lane(self.ref_lane, self.ref_lane.beta_from_along_lane(self.goal_progress))
         return poly
 
 
-- 
2.43.0


From 1fa950fe61921691279488e4132b0539a72394dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:45 +0000
Subject: [PATCH 37/68] fix: the goal at the end of a lane is at its last
 control point

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 8288c75..c6dfeae 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -67,7 +67,7 @@ def _polygon_at_along_lane(
     at_beta: Optional[float] = None,
     inflation_radius: float = 1,
 ) -> Polygon:
-    maxbeta = at_beta if at_beta is not None else len(lanelet.control_points)
+    maxbeta = at_beta if at_beta is not None else len(lanelet.control_points) - 1
     q = lanelet.center_point(maxbeta)
     r = lanelet.radius(maxbeta)
     delta_left = np.array([0, r])
-- 
2.43.0


From 5bf1b834344cffc920dffcb8cc0823d6c13333b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 38/68] fix: default constructed PurePursuit controllers do not
 share their parameters

---
 src/dg_commons/controllers/pure_pursuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/controllers/pure_pursuit.py b/src/dg_commons/controllers/pure_pursuit.py
index 7db34d1..5572f17 100644
--- a/src/dg_commons/controllers/pure_pursuit.py
+++ b/src/dg_commons/controllers/pure_pursuit.py
@@ -40,7 +40,7 @@ class PurePursuit:
     Note there is an error in computation of alpha (order needs to be inverted)
     """
 
-    def __init__(self, params: PurePursuitParam = PurePursuitParam()):
+    def __init__(self, params: Optional[PurePursuitParam] = None):
         """
         initialise pure_pursuit control loop
         :param
@@ -49,7 +49,7 @@ class PurePursuit:
         self.pose: Optional[SE2value] = None
         self.along_path: Optional[float] = None
         self.speed: float = 0
-        self.param: PurePursuitParam = params
+        self.param: PurePursuitParam = PurePursuitParam() if params is None else params
         # logger.debug("Pure pursuit params: \n", self.param)
 
     def update_path(self, path: DgLanelet):
-- 
2.43.0


From 5906fd073aa1a110bbd423cfcf37c67d9e76cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 39/68] fix: LFAgent uses the pure pursuit controller it is
 given

---
 src/dg_commons/sim/agents/lane_follower.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index fd0a8cd..af489a9 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -35,7 +35,9 @@ class LFAgent(Agent):
         self.speed_controller: SpeedController = SpeedController.from_vehicle_params(model_param=model_params)
         self.speed_behavior: SpeedBehavior = SpeedBehavior() if speed_behavior is None else speed_behavior
         self.steer_controller: SteerController = SteerController.from_vehicle_params(vehicle_param=model_params)
-        self.pure_pursuit: PurePursuit = PurePursuit.from_model_geometry(model_geo)
+        self.pure_pursuit: PurePursuit = (
+            PurePursuit.from_model_geometry(model_geo) if pure_pursuit is None else pure_pursuit
+        )
         self.my_name: Optional[PlayerName] = None
         self.return_extra: bool = return_extra
         self._emergency: bool = False
-- 
2.43.0


From 147cdee11c4f863f1b1280f719dcf53b3cf60d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 40/68] fix: the lights of LFAgent do not depend on the hash
 seed of the interpreter

---
 src/dg_commons/sim/agents/lane_follower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index af489a9..1556d6a 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -42,7 +42,7 @@ class LFAgent(Agent):
         self.return_extra: bool = return_extra
         self._emergency: bool = False
         self._my_obs: Optional[X] = None
-        self.lights_test_seq = DgSampledSequence[LightsCmd](timestamps=[0, 2, 4, 6, 8], values=list(LightsValues))
+        self.lights_test_seq = DgSampledSequence[LightsCmd](timestamps=[0, 2, 4, 6, 8], values=sorted(LightsValues))
 
     def on_episode_init(self, init_sim_obs: InitSimObservations):
         self.my_name = init_sim_obs.my_name
-- 
2.43.0


From 0fe31c6d506caaf24f8ee25a41b93eac3980ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 41/68] fix: CommandsSamplerParam.from_vehicle_parameters spans
 the limits of the commands

---
 src/dg_commons/planning/commands_sampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/commands_sampler.py b/src/dg_commons/planning/commands_sampler.py
index 7f57ff8..b93a0ec 100644
--- a/src/dg_commons/planning/commands_sampler.py
+++ b/src/dg_commons/planning/commands_sampler.py
@@ -38,9 +38,9 @@ class CommandsSamplerParam:
         :param vp:
         :return:
         """
-        vel_linspace = (vp.vx_limits[0], vp.vx_limits[1], n_acc)
-        steer_linspace = (-vp.delta_max, vp.delta_max, n_steer_rate)
-        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=vel_linspace, steer_rate=steer_linspace)
+        acc_linspace = (vp.acc_limits[0], vp.acc_limits[1], n_acc)
+        steer_rate_linspace = (-vp.ddelta_max, vp.ddelta_max, n_steer_rate)
+        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=acc_linspace, steer_rate=steer_rate_linspace)
 
 
 class CommandsSampler(TrajGenerator):
-- 
2.43.0


From 1de0b0ebc0368d24c52e2309275f42fde199f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 42/68] fix: commands_plan_from_trajectory iterates over its
 trajectory

---
 src/dg_commons/planning/trajectory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index d73d65a..8a79c4f 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -152,9 +152,11 @@ JointTrajectories = Mapping[PlayerName, Trajectory]
 def commands_plan_from_trajectory(trajectory: Trajectory) -> DgSampledSequence[VehicleCommands]:
     timestamps = []
     commands = []
-    for t0, _, dt, v0, v1 in iterate_with_dt(trajectory):
+    for t0, it in zip(trajectory.timestamps, iterate_with_dt(trajectory)):
         timestamps.append(t0)
-        commands.append(VehicleCommands(acc=(v1.vx - v0.vx) / dt, ddelta=(v1.delta - v0.delta) / dt))
+        commands.append(
+            VehicleCommands(acc=(it.v1.vx - it.v0.vx) / it.dt, ddelta=(it.v1.delta - it.v0.delta) / it.dt)
+        )
     return DgSampledSequence[VehicleCommands](timestamps, commands)
 
 
-- 
2.43.0


From 9804f59f7edb3b2480491f89dd78bfd5ff9e4222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 43/68] fix: TrajectoryGraph.add_edge does not overwrite nodes
 which are there already

---
 src/dg_commons/planning/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index 8a79c4f..8dd903e 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -178,7 +178,7 @@ class TrajectoryGraph(DiGraph):
         start_time, end_time = states.get_start(), states.get_end()
         self.check_node(node=(start_time, source))
         attr["transition"] = transition
-        if target not in self.nodes:
+        if (end_time, target) not in self.nodes:
             self.add_node(timed_state=(end_time, target), gen=self.nodes.get((start_time, source))["gen"] + 1)
 
         super(TrajectoryGraph, self).add_edge(u_of_edge=(start_time, source), v_of_edge=(end_time, target), **attr)
-- 
2.43.0


From e846ce9f15b5eee63d2addb6652af1bfea5ba3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 44/68] fix: sequence builders can build sequences which are
 not generic

---
 src/dg_commons/seq/sequence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/seq/sequence.py b/src/dg_commons/seq/sequence.py
index 017150e..e8c16f1 100644
--- a/src/dg_commons/seq/sequence.py
+++ b/src/dg_commons/seq/sequence.py
@@ -227,4 +227,8 @@ class DgSampledSequenceBuilder(Generic[X]):
         return get_args(self.__orig_class__)[0]
 
     def as_sequence(self) -> DgSampledSequence:
-        return self.sampled_sequence_type[self.XT](timestamps=self.timestamps, values=self.values)
+        sequence_type = self.sampled_sequence_type
+        if getattr(sequence_type, "__parameters__", ()):
+            # only generic sequences can be subscripted, e.g. the type of the values of a Trajectory is fixed
+            sequence_type = sequence_type[self.XT]
+        return sequence_type(timestamps=self.timestamps, values=self.values)
-- 
2.43.0


From 766c9ee5ef7222fb7b20cf2d66eb0485486a3422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 45/68] fix: desired_lane_reached terminates for states between
 two lanes

---
 src/dg_commons/eval/efficiency.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/dg_commons/eval/efficiency.py b/src/dg_commons/eval/efficiency.py
index 5873502..9d39f60 100644
--- a/src/dg_commons/eval/efficiency.py
+++ b/src/dg_commons/eval/efficiency.py
@@ -54,22 +54,21 @@ def desired_lane_reached(
     ego_pose = SE2Transform.from_PoseState(ego_posestate)
     ref_lane = goal_lane.ref_lane  # dglanelet
     lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
+    visited: set[int] = set()
     while not lane_pose.along_inside:
         if np.abs(lane_pose.along_lane) < 1.0 or np.abs(lane_pose.along_lane - ref_lane.get_lane_length()) < 1.0:
             # not inside the lane but close enough
             break
         if lane_pose.along_after:
-            ref_lane = get_successor_dglane(lanelet_network, ref_lane)
-            if ref_lane is not None:
-                lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
-            else:
-                break
-        if lane_pose.along_before:
-            ref_lane = get_predecessor_dglane(lanelet_network, ref_lane)
-            if ref_lane is not None:
-                lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
-            else:
-                break
+            next_lanelet = get_successor_lane(lanelet_network, ref_lane)
+        else:
+            next_lanelet = get_predecessor_lane(lanelet_network, ref_lane)
+        if next_lanelet is None or next_lanelet.lanelet_id in visited:
+            # the state is along none of the lanes
+            break
+        visited.add(next_lanelet.lanelet_id)
+        ref_lane = DgLanelet.from_commonroad_lanelet(next_lanelet)
+        lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
 
     if goal_lane.is_fulfilled(state):
         return True
-- 
2.43.0


From 67917bfacbff26c6f216c22d84a72fb366e4b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 46/68] fix: get_acc_rms keeps all samples when their number is
 odd

---
 src/dg_commons/eval/comfort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/eval/comfort.py b/src/dg_commons/eval/comfort.py
index 65b91bb..97bb6f4 100644
--- a/src/dg_commons/eval/comfort.py
+++ b/src/dg_commons/eval/comfort.py
@@ -41,7 +41,7 @@ def get_acc_rms(commands: DgSampledSequence[U], t_range: tuple[Timestamp | None,
     freqs = np.fft.rfftfreq(n=len(acc_time), d=st)
     acc_freq_weighted = [acc_freq * acc_freq_filter(freq) for acc_freq, freq in zip(acc_freqs, freqs)]
     acc_freq_weighted = np.array(acc_freq_weighted)
-    acc_time_weighted = np.fft.irfft(acc_freq_weighted)
+    acc_time_weighted = np.fft.irfft(acc_freq_weighted, n=len(acc_time))
     acc_rms = 0
     for acc in acc_time_weighted:
         acc_rms += np.square(acc)
-- 
2.43.0


From 06300618c74c7cb8b352ce82f3e99582ba92951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 47/68] fix: safety metrics support players without a mission

---
 src/dg_commons/eval/safety.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index b5c9ec8..c9a9bbb 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -246,8 +246,8 @@ def _remove_finished_players(
     """
     log_new = {}
     for name, log in log_at_t.items():
-        mission = missions[name]
+        mission = missions.get(name)
         state = log.state
-        if not mission.is_fulfilled(state):
+        if mission is None or not mission.is_fulfilled(state):
             log_new[name] = log
     return log_new
-- 
2.43.0


From 9f5ca77c331dc85efdbe673ab1679ae724394cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 48/68] fix: safety metrics support models of every type

---
 src/dg_commons/eval/safety.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index c9a9bbb..b9d1277 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -183,12 +183,16 @@ def get_ttc_drac_at_t(
     return min_time, min_ttc_agent, max_drac, max_drac_agent
 
 
+def _footprint_at(state: X, model: SimModel) -> Polygon:
+    """get the footprint of the model (of any type) when it is in the given state"""
+    pose = SE2_from_xytheta([state.x, state.y, state.psi])
+    return apply_SE2_to_shapely_geo(model.get_footprint(), pose @ np.linalg.inv(model.get_pose()))
+
+
 def _get_dist(state1: X, state2: X, model1: SimModel, model2: SimModel) -> tuple[float, tuple[Point, Point]]:
     """get the minimum distance between two vehicles, considering their geometry"""
-    pose1 = SE2_from_xytheta([state1.x, state1.y, state1.psi])
-    poly1 = apply_SE2_to_shapely_geo(model1.vg.outline_as_polygon, pose1)
-    pose2 = SE2_from_xytheta([state2.x, state2.y, state2.psi])
-    poly2 = apply_SE2_to_shapely_geo(model2.vg.outline_as_polygon, pose2)
+    poly1 = _footprint_at(state1, model1)
+    poly2 = _footprint_at(state2, model2)
     nearest_pts = nearest_points(poly1, poly2)
     dist = distance(nearest_pts[0], nearest_pts[1])
     return dist, nearest_pts
@@ -203,10 +207,8 @@ def _get_ttc(state1: X, state2: X, model1: SimModel, model2: SimModel) -> tuple[
     :param state2: current state of the second agent
     :return: time-to-collision, distance-to-collision for agent1. distance-to-collision for agent2
     """
-    pose1 = SE2_from_xytheta([state1.x, state1.y, state1.psi])
-    poly1 = apply_SE2_to_shapely_geo(model1.vg.outline_as_polygon, pose1)
-    pose2 = SE2_from_xytheta([state2.x, state2.y, state2.psi])
-    poly2 = apply_SE2_to_shapely_geo(model2.vg.outline_as_polygon, pose2)
+    poly1 = _footprint_at(state1, model1)
+    poly2 = _footprint_at(state2, model2)
     ttc, dist_to_collision1, dist_to_collision2 = _get_ttc_of_poly_and_state(poly1, poly2, state1, state2)
     return ttc, dist_to_collision1, dist_to_collision2
 
-- 
2.43.0


From 15b6346880e99475f3997a0b7cc7326d1be71d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 49/68] fix: distances to collision of reversing players are
 positive

---
 src/dg_commons/eval/safety.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index b9d1277..a04f7e5 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -234,7 +234,7 @@ def _get_ttc_of_poly_and_state(poly1: Polygon, poly2: Polygon, state1: X, state2
         # move poly2
         poly2 = translate(poly2, xoff=delta_pos[0], yoff=delta_pos[1])
         time += timestep
-    return time, state1.vx * time, state2.vx * time
+    return time, abs(state1.vx) * time, abs(state2.vx) * time
 
 
 def _remove_finished_players(
-- 
2.43.0


From 475da42021ff58a615c6203649ce6b75924f1558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 50/68] fix: brake lights do not stay on for all vehicles

---
 src/dg_commons/sim/models/vehicle_ligths.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/models/vehicle_ligths.py b/src/dg_commons/sim/models/vehicle_ligths.py
index dc66230..b6bd291 100644
--- a/src/dg_commons/sim/models/vehicle_ligths.py
+++ b/src/dg_commons/sim/models/vehicle_ligths.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from typing import AbstractSet, Mapping, NewType
 
 import numpy as np
@@ -94,5 +94,6 @@ PHASE_SLOW: float = 0.4
 def get_phased_lights(phases, t: float, phase_period: float = PHASE_SLOW) -> LightsColors:
     phase_index = int(np.round(t / phase_period))
     phase = phases[phase_index % len(phases)]
-    led_commands = phase2colors[phase]
+    # a copy, the table is shared by all vehicles
+    led_commands = replace(phase2colors[phase])
     return led_commands
-- 
2.43.0


From 5e29712aac3bd12ea0adde4ff658cb007b90c605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 51/68] fix: initial steering of recorded obstacles does not
 depend on how their heading is wrapped

---
 src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
index 6fc1838..b29657e 100644
--- a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
@@ -1,3 +1,5 @@
+from math import pi
+
 from commonroad.geometry.shape import Rectangle as crRectangle
 from commonroad.scenario.obstacle import DynamicObstacle, ObstacleType
 
@@ -28,6 +30,7 @@ def infer_model_from_cr_dyn_obstacle(dyn_obs: DynamicObstacle, color: Color) ->
         assert isinstance(dyn_obs.obstacle_shape, crRectangle)
         l = dyn_obs.obstacle_shape.length * axle_length_ratio
         dtheta = dyn_obs.prediction.trajectory.state_list[0].orientation - dyn_obs.initial_state.orientation
+        dtheta = (dtheta + pi) % (2 * pi) - pi  # headings can be recorded with any multiple of a turn
         delta = dtheta / l
         # x0 = VehicleStateDyn(
         #     x=dyn_obs.initial_state.position[0],
-- 
2.43.0


From 83b77ee9f109c7df520c7db4ed07cf604b56fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 52/68] fix: alignment of lanes with recorded obstacles does
 not depend on how headings are wrapped

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index a0d558a..b9f6c8c 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -37,7 +37,8 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
         for candidate_lane in candidates:
             _, q = candidate_lane.find_along_lane_closest_point_fast(init_position)
             s_prime = angle_from_SE2(q)
-            displacement_angles.append(np.abs(dyn_obs.initial_state.orientation - s_prime))
+            dtheta = dyn_obs.initial_state.orientation - s_prime
+            displacement_angles.append(np.abs((dtheta + np.pi) % (2 * np.pi) - np.pi))
         return candidates[np.argmin(displacement_angles)]
     else:
         # if we reach this point we did not find any lanelet,
-- 
2.43.0


From c7558fde8eec453bd7a7886b47b9b6936362aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 53/68] fix: lanes of recorded obstacles are found by lanelet
 ids, not by digits within them

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index b9f6c8c..eda9109 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -23,9 +23,9 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
     candidates: list[DgLanelet] = []
     for init_id in init_ids:
         lanelet = network.find_lanelet_by_id(init_id)
-        merged_lanelets, _ = lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet=lanelet, network=network)
-        for merged_lanelet in merged_lanelets:
-            if any(str(id) in str(merged_lanelet.lanelet_id) for id in final_ids):
+        merged_lanelets, merged_ids = lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet=lanelet, network=network)
+        for merged_lanelet, ids in zip(merged_lanelets, merged_ids):
+            if any(id in ids for id in final_ids):
                 candidates.append(DgLanelet.from_commonroad_lanelet(merged_lanelet))
 
     if len(candidates) == 1:
-- 
2.43.0


From 2fe9a080951d0bf48d41f82e10b9f5e348ebc4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 54/68] fix: obstacles which return to their initial position
 are not static

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index eda9109..a0619d8 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -63,5 +63,6 @@ def is_dyn_obstacle_static(dyn_obs: DynamicObstacle, tol: float = 0.2) -> bool:
     :return:
     """
     init_position = dyn_obs.initial_state.position
-    end_position = dyn_obs.prediction.trajectory.state_list[-1].position
-    return np.linalg.norm(init_position - end_position) < tol
+    return all(
+        np.linalg.norm(init_position - state.position) < tol for state in dyn_obs.prediction.trajectory.state_list
+    )
-- 
2.43.0


From bf15b54899c95ff1d12fc23eca131caac1d1876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 55/68] fix: static obstacles of a scenario are placed at their
 pose

---
 src/dg_commons/sim/scenarios/factory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/scenarios/factory.py b/src/dg_commons/sim/scenarios/factory.py
index a9e2ee3..5d3734a 100644
--- a/src/dg_commons/sim/scenarios/factory.py
+++ b/src/dg_commons/sim/scenarios/factory.py
@@ -70,7 +70,10 @@ def get_scenario_commonroad_replica(
         static_obstacles.append(
             StaticObstacle(
                 obstacle_type=sobs.obstacle_type,
-                shape=sobs.obstacle_shape.shapely_object,
+                shape=apply_SE2_to_shapely_geo(
+                    shapely_geometry=sobs.obstacle_shape.shapely_object,
+                    se2_value=SE2_from_xytheta([*sobs.initial_state.position, sobs.initial_state.orientation]),
+                ),
             )
         )
     sim_param = SimParameters() if sim_param is None else sim_param
-- 
2.43.0


From 65667ecab6027721e1643156966b82224bfba90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 56/68] fix: scenarios with pedestrians can be converted (no
 lane following agents for them)

---
 src/dg_commons/sim/scenarios/convert_from_commonroad.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dg_commons/sim/scenarios/convert_from_commonroad.py b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
index 690eada..04642d6 100644
--- a/src/dg_commons/sim/scenarios/convert_from_commonroad.py
+++ b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
@@ -5,7 +5,9 @@ from dg_commons import Color
 from dg_commons.sim import SimModel
 from dg_commons.sim.agents.agent import Agent
 from dg_commons.sim.agents.lane_follower import LFAgent
+from dg_commons.sim.models.vehicle import VehicleModel
 from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn
+from dg_commons.sim.scenarios import NotSupportedConversion
 from dg_commons.sim.scenarios.model_from_dyn_obstacle import infer_model_from_cr_dyn_obstacle
 from dg_commons.sim.scenarios.utils_dyn_obstacle import infer_lane_from_dyn_obs
 
@@ -26,6 +28,10 @@ def model_agent_from_dynamic_obstacle(
 
     model: SimModel = infer_model_from_cr_dyn_obstacle(dyn_obs, color)
     # Agent
+    if not isinstance(model, VehicleModel):
+        raise NotSupportedConversion(
+            "Cannot convert Commonroad type to dg_commons agent", commonroad_type=dyn_obs.obstacle_type
+        )
     dglane = infer_lane_from_dyn_obs(dyn_obs=dyn_obs, network=lanelet_network)
     agent = LFAgent(dglane, model_params=model.model_params, model_geo=model.model_geometry)
     return model, agent
-- 
2.43.0


From 0186afe911dcfa8b05f9a9afaef311bda890f49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:14 +0000
Subject: [PATCH 57/68] fix: collections of points, lines and geometries can be
 drawn (shapely 2 geometries are not iterable)

---
 src/dg_commons/maps/shapely_viz.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/dg_commons/maps/shapely_viz.py b/src/dg_commons/maps/shapely_viz.py
index 9a5d672..e6581af 100644
--- a/src/dg_commons/maps/shapely_viz.py
+++ b/src/dg_commons/maps/shapely_viz.py
@@ -50,7 +50,7 @@ class ShapelyViz:
         elif isinstance(shape, (Polygon, MultiPolygon)):
             self._plot_polys(shape, **style_kwargs)
         elif isinstance(shape, GeometryCollection):
-            for poly in shape:
+            for poly in shape.geoms:
                 self.add_shape(poly, **style_kwargs)
         else:
             raise NotImplementedError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
@@ -65,17 +65,15 @@ class ShapelyViz:
             logger.info("Given shape is empty, returning.")
             return
         # todo
-        x, y = [], []
         if isinstance(shape, MultiPoint):
-            for point in shape:
-                x.append(point.x)
-                y.append(point.y)
+            points = list(shape.geoms)
         elif isinstance(shape, Point):
-            x, y = map(list, shape.xy)
+            points = [shape]
         else:
             raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
-        circle = mpatches.Circle(xy=(x, y), **style_kwargs)
-        self.ax.add_patch(circle)
+        for point in points:
+            circle = mpatches.Circle(xy=(point.x, point.y), **style_kwargs)
+            self.ax.add_patch(circle)
 
     def _plot_lines(self, shape: Union[LineString, MultiLineString, LinearRing], **style_kwargs: Dict):
         """Internal method for plotting given non-empty, LineString, MultiLineString, or LinearRing `shape` object.
@@ -91,7 +89,7 @@ class ShapelyViz:
             x, y = map(list, shape.xy)
             self.ax.plot(x, y, **style_kwargs)
         elif isinstance(shape, MultiLineString):
-            for line in shape:
+            for line in shape.geoms:
                 x, y = map(list, line.xy)
                 self.ax.plot(x, y, **style_kwargs)
         else:
-- 
2.43.0


From 51e6c22d7c5b13b58e9f44897a464f0bcee0b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 58/68] fix: all parts of a multipolygon are painted, holes of
 polygons are left empty

---
 src/dg_commons/maps/shapely_viz.py | 47 ++++++++----------------------
 1 file changed, 12 insertions(+), 35 deletions(-)

diff --git a/src/dg_commons/maps/shapely_viz.py b/src/dg_commons/maps/shapely_viz.py
index e6581af..7375f4b 100644
--- a/src/dg_commons/maps/shapely_viz.py
+++ b/src/dg_commons/maps/shapely_viz.py
@@ -3,6 +3,7 @@ from typing import Union, Dict, Optional, Any
 import matplotlib.patches as mpatches
 from matplotlib import pyplot as plt
 from matplotlib.axes import Axes
+from matplotlib.path import Path
 from shapely.geometry import (
     LineString,
     MultiLineString,
@@ -14,6 +15,7 @@ from shapely.geometry import (
     Polygon,
 )
 from shapely.geometry.base import BaseGeometry
+from shapely.geometry.polygon import orient
 
 from dg_commons import logger
 
@@ -108,39 +110,14 @@ class ShapelyViz:
         if not isinstance(shape, (Polygon, MultiPolygon)):
             raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
 
-        xs, ys = self._get_poly_coordinates(shape)
-        for idx, xy in enumerate(zip(xs, ys)):
-            xy_array = list(zip(*xy))
-            if idx == 0:
-                poly = mpatches.Polygon(xy_array, **style_kwargs)
-            else:
-                poly = mpatches.Polygon(xy_array, facecolor=self.ax.get_facecolor())
-            self.ax.add_patch(poly)
-
-    def _get_poly_coordinates(self, shape: Union[Polygon, MultiPolygon]):
-        """Internal method for translating shapely polygon coordinates to bokeh polygon plotting coordinates.
-        :param shape: Shape(ly) to plot. Polygon, MultiPolygon
-        :raises TypeError: When given `shape` is not a `Polygon` or `MultiPolygon` shapely geometry.
-        """
-        x, y = [], []
-        if isinstance(shape, MultiPolygon):
-            for poly in shape.geoms:
-                poly_x, poly_y = self._get_poly_coordinates(poly)
-                x += poly_x
-                y += poly_y
-            return x, y
-
-        elif isinstance(shape, Polygon):
-            extr_x, extr_y = map(list, shape.exterior.xy)
-            intr_x, intr_y = [], []
-            for i in shape.interiors:
-                _x, _y = map(list, i.xy)
-                intr_x.append(_x[:-1])
-                intr_y.append(_y[:-1])
-            combined_x, combined_y = [extr_x[:-1]], [extr_y[:-1]]
-            combined_x += intr_x
-            combined_y += intr_y
-            return combined_x, combined_y
+        polys = shape.geoms if isinstance(shape, MultiPolygon) else [shape]
+        for poly in polys:
+            self.ax.add_patch(mpatches.PathPatch(self._get_poly_path(poly), **style_kwargs))
 
-        else:
-            raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
+    @staticmethod
+    def _get_poly_path(shape: Polygon) -> Path:
+        """Internal method for translating a shapely polygon to a path, its holes wind the opposite way of its exterior.
+        :param shape: Shape(ly) to plot.
+        """
+        shape = orient(shape)
+        return Path.make_compound_path(*[Path(list(zip(*ring.xy)), closed=True) for ring in (shape.exterior, *shape.interiors)])
-- 
2.43.0


From 3dd48f4ced9ee8c520bb3f191b020f7a067ba125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 59/68] fix: animations of logs which do not start at zero show
 the frames of the log

---
 src/dg_commons/sim/simulator_animation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 3a28349..b2ad40d 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -12,7 +12,7 @@ from tqdm import tqdm
 from zuper_commons.types import ZValueError
 
 from dg_commons import PlayerName, X, Timestamp
-from dg_commons.sim import logger
+from dg_commons.sim import SimTime, logger
 from dg_commons.sim.models.vehicle import VehicleCommands
 from dg_commons.sim.models.vehicle_ligths import (
     lightscmd2phases,
@@ -115,8 +115,9 @@ def create_animation(
         return _get_list()
 
     def update_plot(frame: int = 0) -> Iterable[Artist]:
-        t: float = frame * dt / 1000.0
-        log_at_t: Mapping[PlayerName, LogEntry] = sim_context.log.at_interp(t)
+        time: SimTime = SimTime(time_begin) + SimTime(frame * dt / 1000.0)
+        t: float = float(time)
+        log_at_t: Mapping[PlayerName, LogEntry] = sim_context.log.at_interp(time)
         for pname, box_handle in states.items():
             lights_colors: LightsColors = get_lights_colors_from_cmds(log_at_t[pname].commands, t=t)
             states[pname], actions[pname] = sim_viz.plot_player(
-- 
2.43.0


From 13ee13273188f9443b450cce0382ff6d614464d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 60/68] fix: animations can follow players without a speed in
 their state

---
 src/dg_commons/sim/simulator_animation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index b2ad40d..b437787 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -204,7 +204,9 @@ def adjust_axes_limits(
             slack = 35
             v_scaling = 1.5
             # we shift the center of the image forward according to the velocity vector of the player
-            velocity_v = v_scaling * np.array([state.vx * np.cos(state.psi), state.vx * np.sin(state.psi)])
+            # (not all models have a speed in their state)
+            vx = getattr(state, "vx", 0.0)
+            velocity_v = v_scaling * np.array([vx * np.cos(state.psi), vx * np.sin(state.psi)])
             buffer = slack / 3
             velocity_v = np.clip(velocity_v, -slack + buffer, slack - buffer)
             x_c, y_c = state.x + velocity_v[0], state.y + velocity_v[1]
-- 
2.43.0


From 4766c20f54f4cb4f7d9f9330944d40357cc49b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:22 +0000
Subject: [PATCH 61/68] fix: logs are plotted on the given figure

---
 src/dg_commons/sim/log_visualisation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/sim/log_visualisation.py b/src/dg_commons/sim/log_visualisation.py
index 2c14edd..c91523c 100644
--- a/src/dg_commons/sim/log_visualisation.py
+++ b/src/dg_commons/sim/log_visualisation.py
@@ -32,17 +32,17 @@ def plot_player_log(log: PlayerLog, fig: Figure = None):
     for i, field in enumerate(state_fields):
         field_value = [getattr(s, field.name) for s in log.states.values]
         ts = log.states.timestamps
-        fig.add_subplot(rows_number, 1, i + 1)
-        plt.plot(ts, field_value, label=field.name)
-        plt.grid()
-        plt.legend()
+        ax = fig.add_subplot(rows_number, 1, i + 1)
+        ax.plot(ts, field_value, label=field.name)
+        ax.grid()
+        ax.legend()
 
     for i, field in enumerate(cmds_fields):
         field_value = [getattr(c, field.name) for c in log.commands.values]
         ts = log.commands.timestamps
-        fig.add_subplot(rows_number, 1, n_states + i + 1)
-        plt.step(ts, field_value, label=field.name)
-        plt.grid()
-        plt.legend()
+        ax = fig.add_subplot(rows_number, 1, n_states + i + 1)
+        ax.step(ts, field_value, label=field.name)
+        ax.grid()
+        ax.legend()
 
     plt.draw()
-- 
2.43.0


From d198a85cd4e0b841cff34e4110b5537d6b3db489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 62/68] fix: trajectories logged only after the start are shown
 in animations

---
 src/dg_commons/sim/simulator_animation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index b437787..234962d 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -138,8 +138,8 @@ def create_animation(
                         ax=ax,
                         player_name=pname,
                         trajectories=list(trajectories),
-                        traj_lines=traj_lines[pname],
-                        traj_points=traj_points[pname],
+                        traj_lines=traj_lines.get(pname),
+                        traj_points=traj_points.get(pname),
                         colors=list(tcolors),
                     )
                 except:
-- 
2.43.0


From 4f403bce3755e3c0b7aa0bc42825f1f454840090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:31 +0000
Subject: [PATCH 63/68] fix: trajectories logged without a color are drawn in
 the color of the player

---
 src/dg_commons/sim/simulator_visualisation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator_visualisation.py b/src/dg_commons/sim/simulator_visualisation.py
index 5d1461e..1719c20 100644
--- a/src/dg_commons/sim/simulator_visualisation.py
+++ b/src/dg_commons/sim/simulator_visualisation.py
@@ -233,7 +233,8 @@ class SimRenderer(SimRendererABC):
     ) -> tuple[list[LineCollection], list[PathCollection]]:
         mg = self.sim_context.models[player_name].model_geometry
         assert colors is None or len(colors) == len(trajectories)
-        colors = mg.color if colors is None else colors
+        # trajectories without a color take the one of the player
+        colors = mg.color if colors is None else [mg.color if color is None else color for color in colors]
         return plot_trajectories(
             ax=ax,
             trajectories=trajectories,
-- 
2.43.0


From bf131267e9ec573582555cdbd03ac372201dd921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:13 +0000
Subject: [PATCH 64/68] fix: the safety metrics judge time-varying goals at the
 time of the logged state, not at 0

---
 src/dg_commons/eval/safety.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index a04f7e5..7da1f26 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -107,7 +107,7 @@ def get_min_dist_at_t(
     :return: min dist, the closest agent from ego
     """
     logs_at_t = logs.at_interp(t)
-    logs_at_t = _remove_finished_players(logs_at_t, missions)
+    logs_at_t = _remove_finished_players(logs_at_t, missions, {p: min(t, logs[p].states.get_end()) for p in logs_at_t})
     if ego_name not in logs_at_t.keys():
         # ego accomplished its goal
         return np.inf, None
@@ -146,7 +146,7 @@ def get_ttc_drac_at_t(
     """
     # time to collision
     logs_at_t = logs.at_interp(t)
-    logs_at_t = _remove_finished_players(logs_at_t, missions)
+    logs_at_t = _remove_finished_players(logs_at_t, missions, {p: min(t, logs[p].states.get_end()) for p in logs_at_t})
     if ego_name not in logs_at_t.keys():
         # ego accomplished its goal
         return np.inf, None, -np.inf, None
@@ -238,18 +238,21 @@ def _get_ttc_of_poly_and_state(poly1: Polygon, poly2: Polygon, state1: X, state2
 
 
 def _remove_finished_players(
-    log_at_t: Mapping[PlayerName, LogEntry], missions: Mapping[PlayerName, TPlanningGoal]
+    log_at_t: Mapping[PlayerName, LogEntry],
+    missions: Mapping[PlayerName, TPlanningGoal],
+    times: Mapping[PlayerName, Timestamp],
 ) -> Mapping[PlayerName, LogEntry]:
     """
     Remove the agents that have accomplished their goal.
     :param log_at_t: collection of players and their log(state, command, etc.) at time t
     :param missions: the goal of each player
+    :param times: the time of each player's state (the goals can vary over time)
     :return: a now collection of running players and their logs.
     """
     log_new = {}
     for name, log in log_at_t.items():
         mission = missions.get(name)
         state = log.state
-        if mission is None or not mission.is_fulfilled(state):
+        if mission is None or not mission.is_fulfilled(state, times[name]):
             log_new[name] = log
     return log_new
-- 
2.43.0


From 1b06ec7530d946e56dcf979cb28f43a56250f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:16 +0000
Subject: [PATCH 65/68] fix: plots of player logs show every command from its
 own time on, not before it

---
 src/dg_commons/sim/log_visualisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/log_visualisation.py b/src/dg_commons/sim/log_visualisation.py
index c91523c..a743699 100644
--- a/src/dg_commons/sim/log_visualisation.py
+++ b/src/dg_commons/sim/log_visualisation.py
@@ -41,7 +41,7 @@ def plot_player_log(log: PlayerLog, fig: Figure = None):
         field_value = [getattr(c, field.name) for c in log.commands.values]
         ts = log.commands.timestamps
         ax = fig.add_subplot(rows_number, 1, n_states + i + 1)
-        ax.step(ts, field_value, label=field.name)
+        ax.step(ts, field_value, where="post", label=field.name)
         ax.grid()
         ax.legend()
 
-- 
2.43.0


From 71a12485751c713319140f2e9d12ba943b85bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:16 +0000
Subject: [PATCH 66/68] fix: no undefined impact normal for almost concentric
 shapes

---
 src/dg_commons/sim/collision_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index 81375f4..03b9657 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -100,7 +100,7 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
     if a.contains(b):
         impact_point = b.centroid
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
-        if not np.any(r_ap):
+        if np.linalg.norm(r_ap) < 1.0e-9:
             raise CollisionException("The impact normal is undefined since the two shapes are concentric")
         normal = r_ap / np.linalg.norm(r_ap)
     else:
-- 
2.43.0


From b49daaa934d529c2cd751e47e319131df5a8ec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:49 +0000
Subject: [PATCH 67/68] fix: largest jerk counts the samples exactly at the
 ends of the time range

---
 src/dg_commons/eval/comfort.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/eval/comfort.py b/src/dg_commons/eval/comfort.py
index 97bb6f4..da957dc 100644
--- a/src/dg_commons/eval/comfort.py
+++ b/src/dg_commons/eval/comfort.py
@@ -12,9 +12,9 @@ def get_max_jerk(commands: DgSampledSequence[U], t_range: tuple[Timestamp | None
     """
     max_jerk = 0
     for it in iterate_with_dt(commands):
-        if t_range[0] is not None and it.t1 < t_range[0]:
+        if t_range[0] is not None and it.t1 < float(t_range[0]):
             continue
-        if t_range[1] is not None and it.t1 > t_range[1]:
+        if t_range[1] is not None and it.t1 > float(t_range[1]):
             break
         jerk = (it.v1.acc - it.v0.acc) / float(it.t1 - it.t0)
         if np.abs(jerk) > max_jerk:
-- 
2.43.0


From f964fc28d0bff93a7f2b96335a73def1d6ab16dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:13 +0000
Subject: [PATCH 68/68] fix: a position one unit before a lane no longer stops
 the lane follower

---
 src/dg_commons/maps/lanes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 5bc639e..0845786 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -150,7 +150,7 @@ class DgLanelet:
 
         bracket = (-1, len(self.control_points)) if bracket is None else bracket
         res0 = minimize_scalar(get_delta, bracket=bracket, tol=tol)
-        beta0 = res0.x
+        beta0 = float(res0.x)
         q = self.center_point(beta0)
         return beta0, q
 
@@ -165,7 +165,7 @@ class DgLanelet:
 
         bracket = (0, len(self.control_points) - 1) if bracket is None else bracket
         res0 = minimize_scalar(get_delta, bracket=bracket, tol=tol)
-        beta0 = res0.x
+        beta0 = float(res0.x)
         q = self.center_point_fast_SE2Transform(beta0).as_SE2()
         return beta0, q
 
-- 
2.43.0

