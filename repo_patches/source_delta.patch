From 87e679104217b5e0fdeff4e49d491b92f37185e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 01/59] fix: panoramic projections keep points in the camera
 plane

---
 cameratransform/projection.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 67c3425..40fe68d 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -473,16 +473,14 @@ class CylindricalProjection(CameraProjection):
         """
         # ensure that the points are provided as an array
         points = ensure_array_format(points, "...x3")
-        # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
             transformed_points = np.array(
                 [-self.focallength_x_px * np.arctan2(-x, -z) + self.center_x_px,
                  -self.focallength_y_px * y / np.sqrt(x ** 2 + z ** 2) + self.center_y_px]).T
-        # ensure that points' x values are also nan when the y values are nan
-        transformed_points[np.isnan(transformed_points[..., 1])] = np.nan
+        # ensure that points on the cylinder axis, which have no image, are nan in both coordinates
+        transformed_points[~np.isfinite(transformed_points[..., 1])] = np.nan
         # return the points
         return transformed_points
 
@@ -551,8 +549,6 @@ class EquirectangularProjection(CameraProjection):
         """
         # ensure that the points are provided as an array
         points = ensure_array_format(points, "...x3")
-        # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
         # transform the points
         transformed_points = np.array(
-- 
2.43.0


From e28c1cfa748af994605f7f0050e16ebbe4b0669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 02/59] fix: imageFromCamera does not modify the array passed
 to it

---
 cameratransform/projection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 40fe68d..71b7805 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -395,7 +395,8 @@ class RectilinearProjection(CameraProjection):
             x_im = f_x * --- + offset_x      y_im = f_y * --- + offset_y
                           z                                z
         """
-        points = ensure_array_format(points, "...x3")
+        # work on a copy to not modify the points of the caller
+        points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
-- 
2.43.0


From 3e98f85901218524924d5653d55723713cc04e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 03/59] fix: getClosestPointFromLine does not modify the ray
 passed to it

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 4554e4d..1fa3cbb 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -323,7 +323,7 @@ def getClosestPointFromLine(origin, ray, point):
     # calculate the difference vector
     delta = point-origin
     # norm the ray
-    ray /= np.linalg.norm(ray, axis=-1)[..., None]
+    ray = ray / np.linalg.norm(ray, axis=-1)[..., None]
     # calculate the scale product
     factor = np.sum(ray*delta, axis=-1)
     try:
-- 
2.43.0


From dcdc1eace07fd1026a796fadde9e96d904e1712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 04/59] fix: rays that miss the mesh return nan instead of
 infinity

---
 cameratransform/ray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 1fa3cbb..893ba4b 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -93,6 +93,8 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
 
     index = nanargmin(rI, axis=0)
     rI = rI[index, np.arange(len(index))]
+    # rays without any intersection
+    rI[np.isinf(rI)] = np.nan
     point = origin + rI[..., None] * direction
 
     if return_single:
-- 
2.43.0


From 749a5f8ec4fc5ef39d038e8ec1b7be3a802e5eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 05/59] fix: extrudeLine covers the whole wall

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 893ba4b..95fe9af 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -299,7 +299,7 @@ def extrudeLine(points, z0, z1):
         point = list(point)
         if last_point is not None:
             mesh.append([point + [z0], last_point + [z0], point + [z1]])
-            mesh.append([point + [z0], last_point + [z0], last_point + [z1]])
+            mesh.append([point + [z1], last_point + [z0], last_point + [z1]])
         last_point = point
     return np.array(mesh)
 
-- 
2.43.0


From 401845600bf979abfe3cdeee3e68a0008903ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 06/59] fix: distanceOfTwoLines detects parallel lines
 independent of the length of the direction vectors

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 95fe9af..a18596b 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -210,7 +210,7 @@ def __distanceOfTwoLines(p1, v1, p2, v2):
 
     # Check if lines are parallel (or coincident)
     # If the cross product is zero (or very close to zero), the lines are parallel.
-    if np.isclose(norm_v1_cross_v2, 0):
+    if np.isclose(norm_v1_cross_v2, 0, atol=1e-8 * np.linalg.norm(v1) * np.linalg.norm(v2)):
         # Lines are parallel (or coincident).
         # The distance is the shortest distance from a point on one line to the other line.
         # This is given by: d = |(p2 - p1) x v1| / |v1|
-- 
2.43.0


From 7d3abb771e431b5e1c6a91db9f0e8bebdb90495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 07/59] fix: resampling and resetting only touches parameters
 with statistics

---
 cameratransform/parameter_set.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 45d9283..c64b645 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -188,6 +188,8 @@ class ClassWithParameterSet(object):
         else:
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
+                if parameter_obj.mean is None:
+                    continue
                 parameter_obj.sample()
                 if parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
@@ -206,6 +208,8 @@ class ClassWithParameterSet(object):
         else:
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
+                if parameter_obj.mean is None:
+                    continue
                 parameter_obj.set_to_mean()
                 if parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
-- 
2.43.0


From fae67313b17a7d8a47a895f56d48a8fbceb536ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 08/59] fix: Parameter keeps the state it is given

---
 cameratransform/parameter_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index c64b645..324d99f 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -55,6 +55,8 @@ class Parameter(object):
                 self.state = STATE_DEFAULT
             else:
                 self.state = STATE_USER_SET
+        else:
+            self.state = state
         self.type = type
         self.callback = callback
 
-- 
2.43.0


From c2c668b51d33788e8800678878629feadbf09dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 09/59] fix: metropolis proposals stay in the bounds for every
 step size adaptation

---
 cameratransform/statistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 6904ee5..4f97ee8 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -105,7 +105,8 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
 
             # draw a new position
             # next_pos = last_pos + np.random.normal(0, step*adaptive_scale_factor, N)
-            next_pos = last_pos + adaptive_scale_factor*step*truncnorm((ranges[:,0]-last_pos)/step, (ranges[:,1]-last_pos)/step).rvs()
+            scale = adaptive_scale_factor*step
+            next_pos = last_pos + scale*truncnorm((ranges[:,0]-last_pos)/scale, (ranges[:,1]-last_pos)/scale).rvs()
             # get the probability
             next_prob = getLogProb(list(next_pos) + next_prior_trace)
             # calculate the acceptance ratio
-- 
2.43.0


From fe0c77304c290a48b519307e671550851f1d7767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 10/59] fix: metropolis uses the step sizes of the additional
 parameters

---
 cameratransform/parameter_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 324d99f..06a958a 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -303,7 +303,7 @@ class ClassWithParameterSet(object):
             start.append(param.value[()])
             ranges.append([param.parents.get("lower"), param.parents.get("upper")])
         start = np.array(start)
-        step = step*np.array([p.step for p in parameter])
+        step = step*np.array([p.step for p in list(parameter)+list(self.additional_parameters)])
 
         def getLogProb(position):
             self.parameters.set_fit_parameters(parameter_names, position[:len(parameter_names)])
-- 
2.43.0


From 7117ae6d2f2c1dac94b6722b69c25b9442b59ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 11/59] fix: the common focal length is saved and loaded

---
 cameratransform/camera.py     | 3 ++-
 cameratransform/projection.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b5d4765..cd8ce54 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1528,7 +1528,8 @@ class Camera(ClassWithParameterSet):
             the filename where to store the parameters.
         """
         keys = self.parameters.parameters.keys()
-        export_dict = {key: getattr(self, key) for key in keys if key != "focallength_px"}
+        # the common focal length first, as setting it sets both axis focal lengths
+        export_dict = {key: getattr(self, key) for key in sorted(keys, key=lambda key: key != "focallength_px")}
 
         # check projections and save
         if isinstance(self.projection, RectilinearProjection):
diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 71b7805..1778215 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -209,7 +209,8 @@ class CameraProjection(ClassWithParameterSet):
 
     def save(self, filename):
         keys = self.parameters.parameters.keys()
-        export_dict = {key: getattr(self, key) for key in keys if key != "focallength_px"}
+        # the common focal length first, as setting it sets both axis focal lengths
+        export_dict = {key: getattr(self, key) for key in sorted(keys, key=lambda key: key != "focallength_px")}
         with open(filename, "w") as fp:
             fp.write(json.dumps(export_dict))
 
-- 
2.43.0


From a540a3c19df777ca1f573581b201ab8681405221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 12/59] fix: a camera with a yaw-pitch-roll orientation can be
 loaded

---
 cameratransform/camera.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index cd8ce54..7a19f9a 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -26,7 +26,7 @@ from typing import Union, Optional, Tuple, List
 from numbers import Number
 from .parameter_set import ParameterSet, ClassWithParameterSet, Parameter, TYPE_GPS
 from .projection import RectilinearProjection, EquirectangularProjection, CylindricalProjection, CameraProjection
-from .spatial import SpatialOrientation
+from .spatial import SpatialOrientation, SpatialOrientationYawPitchRoll
 from .lens_distortion import NoDistortion, LensDistortion, ABCDistortion, BrownLensDistortion
 from . import gps
 from . import ray
@@ -1583,7 +1583,11 @@ class Camera(ClassWithParameterSet):
             variables.pop("lens")
         else:
             lens = None
-        self.__init__(projection=projection, lens=lens, orientation=SpatialOrientation())
+        if "yaw_deg" in variables.keys():
+            orientation = SpatialOrientationYawPitchRoll()
+        else:
+            orientation = SpatialOrientation()
+        self.__init__(projection=projection, lens=lens, orientation=orientation)
         for key in variables:
             setattr(self, key, variables[key])
 
-- 
2.43.0


From 2a5c2749361a3874299f1939e916b57b61a17382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 13/59] fix: setGPSpos stores numbers for tuples and arrays

---
 cameratransform/camera.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 7a19f9a..b81a208 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -503,10 +503,14 @@ class Camera(ClassWithParameterSet):
         else:
             # if it is a tuple
             try:
-                lat, lon, elevation = gps.splitGPS(lat, keep_deg=True)
+                lat, lon, height = gps.splitGPS(lat, keep_deg=True)
             # or if it is just a single value
             except (AttributeError, Exception):
                 pass
+            else:
+                lat, lon = float(lat), float(lon)
+                if height is not None:
+                    elevation = float(height)
         self.gps_lat = lat
         self.gps_lon = lon
         if elevation is not None:
-- 
2.43.0


From 369f68df964da84035adc6336d038f9b6fd13f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 14/59] fix: focallength_px accepts a pair of focal lengths

---
 cameratransform/projection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 1778215..c029f98 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -124,8 +124,12 @@ class CameraProjection(ClassWithParameterSet):
             if focallength_mm is not None:
                 raise ValueError("cannot provide both an focallength_mm and a focallength in px")
             if focallength_px:
-                focallength_x_px = focallength_px
-                focallength_y_px = focallength_px
+                # which can be one for both axes or a pair
+                try:
+                    focallength_x_px, focallength_y_px = focallength_px
+                except TypeError:
+                    focallength_x_px = focallength_px
+                    focallength_y_px = focallength_px
 
         if sensor and (sensor_width_mm or sensor_height_mm):
             raise ValueError("cannot provide both an sensor shape tuple and sensor_width_mm or sensor_height_mm")
-- 
2.43.0


From 829fde9cbc5b87a5516b5a7f88f35f8f38916c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 15/59] fix: lens distortions keep the image centre

---
 cameratransform/lens_distortion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 3dc2588..57c4ffc 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -156,7 +156,7 @@ class BrownLensDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius_inverse(r)
+            points = points / np.where(r == 0, 1, r) * self._convert_radius_inverse(r)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -168,7 +168,7 @@ class BrownLensDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius(r)
+            points = points / np.where(r == 0, 1, r) * self._convert_radius(r)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -250,7 +250,7 @@ class ABCDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius_inverse(r)
+            points = points / np.where(r == 0, 1, r) * self._convert_radius_inverse(r)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -262,6 +262,6 @@ class ABCDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius(r)
+            points = points / np.where(r == 0, 1, r) * self._convert_radius(r)
         # rescale back to the image
         return points * self.scale + self.offset
-- 
2.43.0


From 321a9f0ce20f38b885e882303246726f5800f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 16/59] fix: lenses use the current values of their projection

---
 cameratransform/lens_distortion.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 57c4ffc..5fd34c7 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -141,9 +141,18 @@ class BrownLensDistortion(LensDistortion):
     def _init_inverse(self):
         r = np.arange(0, 2, 0.1)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
-        if self.projection is not None:
-            self.scale = np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
-            self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+
+    @property
+    def scale(self):
+        if self.projection is None:
+            return 1
+        return np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
+
+    @property
+    def offset(self):
+        if self.projection is None:
+            return np.array([0, 0])
+        return np.array([self.projection.center_x_px, self.projection.center_y_px])
 
     def _convert_radius(self, r):
         return r*(1 + self.parameters.k1*r**2 + self.parameters.k2*r**4 + self.parameters.k3*r**6)
@@ -235,9 +244,17 @@ class ABCDistortion(LensDistortion):
         r = np.arange(0, 2, 0.1)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
 
-        if self.projection is not None:
-            self.scale = np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
-            self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+    @property
+    def scale(self):
+        if self.projection is None:
+            return 1
+        return np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
+
+    @property
+    def offset(self):
+        if self.projection is None:
+            return np.array([0, 0])
+        return np.array([self.projection.center_x_px, self.projection.center_y_px])
 
     def _convert_radius(self, r):
         return self.d * r + self.c * r**2 + self.b * r**3 + self.a * r**4
-- 
2.43.0


From 17b52cf646c6aacc9278df732a65d5724abcab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 17/59] fix: spaceFromGPS looks at the coordinates and not at
 the number of points to detect heights

---
 cameratransform/gps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index b07d937..e8b9555 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -459,7 +459,7 @@ def moveDistance(start, distance, bearing):
 
 
 def spaceFromGPS(gps, gps0):
-    if len(gps[..., :]) == 2:
+    if gps.shape[-1] == 2:
         height = np.zeros_like(gps[..., 0])
     else:
         height = gps[..., 2]
-- 
2.43.0


From 359634d7dffe6a7e507e75532da1705d9b6a3c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 18/59] fix: spaceFromGPS uses the horizontal distance

---
 cameratransform/gps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index e8b9555..a86bac6 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -463,7 +463,8 @@ def spaceFromGPS(gps, gps0):
         height = np.zeros_like(gps[..., 0])
     else:
         height = gps[..., 2]
-    distance = getDistance(gps0, gps)
+    # the horizontal distance, without the difference in height
+    distance = getDistance(np.array(gps0)[..., :2], gps[..., :2])
     bearing_rad = np.deg2rad(getBearing(gps0, gps))
     return np.array([distance * np.sin(bearing_rad), distance * np.cos(bearing_rad), height]).T
 
-- 
2.43.0


From 7eb5d4cdc992a846d441e7d05be2141fc2639a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 19/59] fix: moveDistance uses the same documented earth radius
 as getDistance

---
 cameratransform/gps.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index a86bac6..5aa6cff 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -446,8 +446,6 @@ def moveDistance(start, distance, bearing):
     bearing = np.deg2rad(bearing)
     lat1, lon1, h1 = splitGPS(start)
     R = 6371e3
-    if start.shape[-1] == 3:
-        R += start[..., 2]
     lat2 = np.arcsin(np.sin(lat1) * np.cos(distance / R) +
                      np.cos(lat1) * np.sin(distance / R) * np.cos(bearing))
 
-- 
2.43.0


From 8a01e60840556d25921689605f0176b5da9b4b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 20/59] fix: formatGPS keeps the sign of values between -1 and
 0 degrees

---
 cameratransform/gps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 5aa6cff..66360ca 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -147,6 +147,10 @@ def formatGPS(lat, lon, format=None, asLatex=False):
                 fills.append(values.pop(0))
         # format the string
         string = format % tuple(fills)
+        # keep the sign also if the degrees are rounded to zero
+        if not use_letter and neg and "-" not in fmt_degs % degs:
+            text = fmt_degs % degs
+            string = format.replace(fmt_degs, "%s", 1) % ((("-" + text.lstrip()).rjust(len(text)),) + tuple(fills[1:]))
         # replace, if desired the degree sign
         if asLatex:
             string = string.replace("°", "\N{DEGREE SIGN}")
-- 
2.43.0


From 8fb62eb9280c362948b070d43118c341e8b3974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 21/59] fix: the cached maps are only used for the same
 arguments and camera parameters

---
 cameratransform/camera.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b81a208..a64c6cb 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -438,6 +438,8 @@ class Camera(ClassWithParameterSet):
     map_undistort = None
     last_extent_undistort = None
     last_scaling_undistort = None
+    last_key = None
+    last_key_undistort = None
 
     R_earth = 6371e3
 
@@ -1281,6 +1283,10 @@ class Camera(ClassWithParameterSet):
         # the z difference between these two points
         return np.linalg.norm(point3D_front - point3D_back, axis=-1)
 
+    def _getMapKey(self, extent, *args):
+        # everything a map depends on: the arguments and the current parameters of the camera
+        return list(extent), args, {name: getattr(self, name) for name in self.parameters.parameters}
+
     def _getUndistortMap(self, extent=None, scaling=None):
         # if no extent is given, take the maximum extent from the image border
         if extent is None:
@@ -1291,9 +1297,8 @@ class Camera(ClassWithParameterSet):
             scaling = 1
 
         # if we have cached the map, use the cached map
-        if self.map_undistort is not None and \
-                self.last_extent_undistort == extent and \
-                self.last_scaling_undistort == scaling:
+        key = self._getMapKey(extent, scaling)
+        if self.map_undistort is not None and self.last_key_undistort == key:
             return self.map_undistort
 
         # get a mesh grid
@@ -1311,6 +1316,7 @@ class Camera(ClassWithParameterSet):
 
         self.last_extent_undistort = extent
         self.last_scaling_undistort = scaling
+        self.last_key_undistort = key
 
         # return the calculated map
         return self.map_undistort
@@ -1374,9 +1380,8 @@ class Camera(ClassWithParameterSet):
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
         # if we have cached the map, use the cached map
-        if self.map is not None and \
-                all(self.last_extent == np.array(extent)) and \
-                (self.last_scaling == scaling):
+        key = self._getMapKey(extent, scaling, Z, hide_backpoints)
+        if self.map is not None and self.last_key == key:
             return self.map
 
         # if no scaling is given, scale so that the resulting image has an equal amount of pixels as the original image
@@ -1400,6 +1405,7 @@ class Camera(ClassWithParameterSet):
 
         self.last_extent = extent
         self.last_scaling = scaling
+        self.last_key = key
 
         # return the calculated map
         return self.map
-- 
2.43.0


From c7e2420634c9db3bd4de3c21ec05dc8e2159a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 22/59] fix: scaleSpace scales a shared orientation only once

---
 cameratransform/camera.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index a64c6cb..886b671 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -421,7 +421,9 @@ class CameraGroup(ClassWithParameterSet):
             plt.imshow(im2)
 
     def scaleSpace(self, scale):
-        for cam in self:
+        # cameras can share an orientation
+        orientations = {id(cam.orientation): cam.orientation for cam in self}
+        for cam in orientations.values():
             cam.pos_x_m, cam.pos_y_m, cam.elevation_m = np.array([cam.pos_x_m, cam.pos_y_m, cam.elevation_m]) * scale
 
 
-- 
2.43.0


From 6b395d17fa892cb244378d444324fcbf844ab68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 23/59] fix: getObjectHeight works for objects straight ahead

---
 cameratransform/camera.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 886b671..57fe51a 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1251,12 +1251,14 @@ class Camera(ClassWithParameterSet):
         point_feet, point_heads = ensure_array_format(point_feet, "...x2", point_heads)
         # get the feet positions in the world
         point3D_feet = self.spaceFromImage(point_feet, Z=Z)
-        # get the head positions in the world
-        point3D_head1 = self.spaceFromImage(point_heads, Y=point3D_feet[..., 1])
-        point3D_head2 = self.spaceFromImage(point_heads, X=point3D_feet[..., 0])
-        point3D_head = np.mean([point3D_head1, point3D_head2], axis=0)
+        # get the head positions in the world, where the rays of the heads pass the vertical lines through the feet
+        offset, direction = self.getRay(point_heads)
+        horizontal = direction[..., :2]
+        factor = np.sum((point3D_feet[..., :2] - offset[:2]) * horizontal, axis=-1) / np.sum(horizontal ** 2, axis=-1)
+        # ignore positions behind the camera
+        factor = np.where(factor < 0, np.nan, factor)
         # the z difference between these two points
-        return point3D_head[..., 2] - point3D_feet[..., 2]
+        return offset[2] + factor * direction[..., 2] - point3D_feet[..., 2]
 
     def getObjectLength(self, point_front: Points2D, point_back: Points2D, Z: Points1D = 0) -> Points1D:
         """
-- 
2.43.0


From d64cead8e54369715b55588895e72976a485bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:48 +0000
Subject: [PATCH 24/59] fix: spaceFromImage accepts the distances as list and
 points in arrays of any shape

---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 57fe51a..7e5e357 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1147,7 +1147,7 @@ class Camera(ClassWithParameterSet):
             # get the rays from the image points (in this case it has to be normed)
             offset, direction = self.getRay(points, normed=True)
             # the factor is than simple the distance
-            factor = D
+            factor = D if np.ndim(D) == 0 else np.asarray(D)
         else:
             # get the rays from the image points
             offset, direction = self.getRay(points)
@@ -1159,7 +1159,7 @@ class Camera(ClassWithParameterSet):
             points = direction * factor + offset
         else:
             # apply the factor to the direction vector plus the offset
-            points = direction * factor[:, None] + offset[None, :]
+            points = direction * factor[..., None] + offset
         # ignore points that are behind the camera (e.g. trying to project points above the horizon to the ground)
         points[factor < 0] = np.nan
         return points
-- 
2.43.0


From 07ce4a53b86cb318e7df6e7ed91c93b9755c3302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:14 +0000
Subject: [PATCH 25/59] fix: spaceFromImage gives nan for rays parallel to the
 requested plane

---
 cameratransform/camera.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 7e5e357..a1b5e6e 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1160,8 +1160,9 @@ class Camera(ClassWithParameterSet):
         else:
             # apply the factor to the direction vector plus the offset
             points = direction * factor[..., None] + offset
-        # ignore points that are behind the camera (e.g. trying to project points above the horizon to the ground)
-        points[factor < 0] = np.nan
+        # ignore points that are behind the camera (e.g. trying to project points above the horizon to the ground) and
+        # rays that never meet the condition
+        points[(factor < 0) | (np.abs(factor) == np.inf)] = np.nan
         return points
 
     def gpsFromSpace(self, points: Points3D) -> Points3D:
-- 
2.43.0


From ef747c4949bd6af8bd87a94fef0aa6cde29c2441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:14 +0000
Subject: [PATCH 26/59] fix: a lens shared by several cameras uses the
 intrinsics of the camera it is used for

---
 cameratransform/camera.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index a1b5e6e..12a95da 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1010,6 +1010,8 @@ class Camera(ClassWithParameterSet):
         # ensure that the points are provided as an array
         points = ensure_array_format(points, "...x3")
         # project the points from the space to the camera and from the camera to the image
+        # a lens can be shared between cameras
+        self.lens.projection = self.projection
         return self.lens.distortedFromImage(self.projection.imageFromCamera(self.orientation.cameraFromSpace(points), hide_backpoints=hide_backpoints))
 
     def getRay(self, points: Points2D, normed: bool = False) -> Tuple[Points3D, Points3D]:
@@ -1059,6 +1061,8 @@ class Camera(ClassWithParameterSet):
         offset = self.orientation.spaceFromCamera([0, 0, 0])
         # get the direction fo the ray from the points
         # the projection provides the ray in camera coordinates, which we convert to the space coordinates
+        # a lens can be shared between cameras
+        self.lens.projection = self.projection
         direction = self.orientation.spaceFromCamera(self.projection.getRay(self.lens.imageFromDistorted(points), normed=normed), direction=True)
         # return the offset point and the direction of the ray
         return offset, direction
@@ -1314,6 +1318,7 @@ class Camera(ClassWithParameterSet):
         mesh_points = mesh.reshape(2, mesh.shape[1] * mesh.shape[2]).T
 
         # transform the space points to the image
+        self.lens.projection = self.projection
         mesh_points_shape = self.lens.distortedFromImage(mesh_points)
 
         # reshape the map and cache it
-- 
2.43.0


From 80dc6e9a9d0c827c607a3c3dd863fbde35a2a614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:41 +0000
Subject: [PATCH 27/59] fix: parameters given as numpy integers or float32 can
 be saved

---
 cameratransform/camera.py          | 2 +-
 cameratransform/lens_distortion.py | 2 +-
 cameratransform/projection.py      | 2 +-
 cameratransform/spatial.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 12a95da..1112a45 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1568,7 +1568,7 @@ class Camera(ClassWithParameterSet):
             export_dict["lens"] = BROWNLENSDISTORTION
 
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict, indent=4))
+            fp.write(json.dumps(export_dict, indent=4, default=float))
 
     def load(self, filename: str):
         """
diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 5fd34c7..4b75154 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -65,7 +65,7 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(json.dumps(export_dict, default=float))
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index c029f98..21dacd6 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -216,7 +216,7 @@ class CameraProjection(ClassWithParameterSet):
         # the common focal length first, as setting it sets both axis focal lengths
         export_dict = {key: getattr(self, key) for key in sorted(keys, key=lambda key: key != "focallength_px")}
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(json.dumps(export_dict, default=float))
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index e1ab01c..a1f9241 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -206,7 +206,7 @@ class SpatialOrientation(ClassWithParameterSet):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(json.dumps(export_dict, default=float))
 
     def load(self, filename):
         with open(filename, "r") as fp:
-- 
2.43.0


From cba11bf3cd143982c7df8a490cd0bbc1f9b18764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:41 +0000
Subject: [PATCH 28/59] fix: rotateSpace works for yaw-pitch-roll orientations

---
 cameratransform/camera.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 1112a45..2c6eb3d 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1532,7 +1532,10 @@ class Camera(ClassWithParameterSet):
         delta_heading : number
             the number of degrees to rotate the camera clockwise.
         """
-        self.heading_deg += delta_heading
+        if "yaw_deg" in self.parameters.parameters:
+            self.yaw_deg += delta_heading
+        else:
+            self.heading_deg += delta_heading
         delta_heading_rad = np.deg2rad(delta_heading)
         pos = np.array([self.pos_x_m, self.pos_y_m])
         s, c = np.sin(delta_heading_rad), np.cos(delta_heading_rad)
-- 
2.43.0


From 00d27f2bcab193e9ada13cdd6cdb43bd75cf6674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:04 +0000
Subject: [PATCH 29/59] fix: a field of view does not replace a focal length
 given for the other axis

---
 cameratransform/projection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 21dacd6..15493b4 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -153,13 +153,13 @@ class CameraProjection(ClassWithParameterSet):
                 if focallength_x_px is not None:
                     raise ValueError("cannot set both focallength_x_px and view_x_deg")
                 focallength_x_px = self.focallengthFromFOV(view_x=view_x_deg)
-                if not view_y_deg:
+                if not view_y_deg and focallength_y_px is None:
                     focallength_y_px = focallength_x_px
             if view_y_deg:
                 if focallength_y_px:
                     raise ValueError("cannot set both focallength_y_px and view_y_deg")
                 focallength_y_px = self.focallengthFromFOV(view_y=view_y_deg)
-                if not view_x_deg:
+                if not view_x_deg and focallength_x_px is None:
                     focallength_x_px = focallength_y_px
 
         if focallength_x_px is None or focallength_y_px is None:
-- 
2.43.0


From 43beb103a0b8789ff53bb5a8dd88c931296ac233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:59 +0000
Subject: [PATCH 30/59] fix: space and GPS conversions accept lists

---
 cameratransform/gps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 66360ca..6a18882 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -461,6 +461,7 @@ def moveDistance(start, distance, bearing):
 
 
 def spaceFromGPS(gps, gps0):
+    gps = np.array(gps)
     if gps.shape[-1] == 2:
         height = np.zeros_like(gps[..., 0])
     else:
@@ -472,6 +473,7 @@ def spaceFromGPS(gps, gps0):
 
 
 def gpsFromSpace(space, gps0):
+    space = np.array(space)
     bearing = np.rad2deg(np.arctan2(space[..., 0], space[..., 1]))
     distance = np.linalg.norm(space[..., :2], axis=-1)
     target = moveDistance(gps0, distance, bearing)
-- 
2.43.0


From c88c3fa32ee19c91b98bed5e6b4abbf5f0bcddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:36 +0000
Subject: [PATCH 31/59] fix: gpsFromString reads the notation of its
 documentation

---
 cameratransform/gps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 6a18882..e401b10 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -256,8 +256,8 @@ def gpsFromString(gps_string: Union[str, List[str], List[Tuple[str, float]]], he
             return data
         else:
             return np.hstack((data, [height]))
-    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|′)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
-                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|′)?\s*",
+    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|’)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
+                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|’)?\s*",
                   r"(?P<deg>[\d.+-]+)°\s*"]
     for string in regex_list:
         pattern = r"\s*"+string.replace("<", "<lat_")+"(?P<lat_sign>N|S)?"+r"\s*,?\s*"+string.replace("<", "<lon_")+"(?P<lon_sign>W|E)?"+r"\s*"
-- 
2.43.0


From 12566118b9322c838c9e169189184cb06da24452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 32/59] fix: degenerate triangles are not hit by every ray

---
 cameratransform/ray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index a18596b..657f5ba 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -80,10 +80,10 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
         denom = my_inner(u, v) * my_inner(u, v) - my_inner(u, u) * my_inner(v, v)
 
         si = (my_inner(u, v)[..., None] * my_inner(w, v[..., None, :]) - my_inner(v, v)[..., None] * my_inner(w, u[..., None, :])) / denom[:, None]
-        rI[((si < 0)+(si > 1.0)).astype(bool)] = np.nan
+        rI[~((si >= 0) & (si <= 1.0))] = np.nan
 
         ti = (my_inner(u, v)[..., None] * my_inner(w, u[..., None, :]) - my_inner(u, u)[..., None] * my_inner(w, v[..., None, :])) / denom[:, None]
-        rI[((ti < 0.0) + (si + ti > 1.0)).astype(bool)] = np.nan
+        rI[~((ti >= 0.0) & (si + ti <= 1.0))] = np.nan
 
     def nanargmin(a, axis):
         mask = np.isnan(a)
-- 
2.43.0


From 2e9ee76bc7272b0f60e3fd2b7a1d8958e01a84d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:29 +0000
Subject: [PATCH 33/59] fix: intersections of ray batches with a parallel pair
 are an array

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 657f5ba..4c0247e 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -139,7 +139,7 @@ def intersectionOfTwoLines(p1, v1, p2, v2):
             res = np.linalg.solve(np.array([[a1, b1], [a2, b2]]).transpose(2, 0, 1), np.array([c1, c2]).T[..., None])
             return np.mean([p1 + res[:, 0, 0, None] * v1, p2 + res[:, 1, 0, None] * v2], axis=0)
         except np.linalg.LinAlgError:
-            return [__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))]
+            return np.array([__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))])
     else:  # or just one point
         return __intersectionOfTwoLines(p1, v1, p2, v2)
 
-- 
2.43.0


From a88989bd57fb2278ea453a10177305a0c336c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:29 +0000
Subject: [PATCH 34/59] fix: areaOfTriangle takes arrays of triangles

---
 cameratransform/ray.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 4c0247e..2bc7d9d 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -248,9 +248,9 @@ def areaOfTriangle(triangle):
     area : float
         the area of the triangle.
     """
-    a = np.linalg.norm(triangle[..., 0, :] - triangle[..., 1, :])
-    b = np.linalg.norm(triangle[..., 1, :] - triangle[..., 2, :])
-    c = np.linalg.norm(triangle[..., 2, :] - triangle[..., 0, :])
+    a = np.linalg.norm(triangle[..., 0, :] - triangle[..., 1, :], axis=-1)
+    b = np.linalg.norm(triangle[..., 1, :] - triangle[..., 2, :], axis=-1)
+    c = np.linalg.norm(triangle[..., 2, :] - triangle[..., 0, :], axis=-1)
     s = (a+b+c)/2
     # Herons formula
     return np.sqrt(s*(s-a)*(s-b)*(s-c))
-- 
2.43.0


From 71ecb55be89e10651afd48ab66ae5c279ffd80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:29 +0000
Subject: [PATCH 35/59] fix: the intersection of parallel lines is NaN also
 with rounding errors

---
 cameratransform/ray.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 2bc7d9d..b3af811 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -106,6 +106,10 @@ def distanceLinePoint(p1, v1, p2):
     return np.linalg.norm(np.cross(v1, p1-p2)) / np.linalg.norm(v1)
 
 
+def __areParallel(v1, v2):
+    # with the same tolerance as in distanceOfTwoLines
+    return np.linalg.norm(np.cross(v1, v2), axis=-1) <= 1e-8 * np.linalg.norm(v1, axis=-1) * np.linalg.norm(v2, axis=-1)
+
 def intersectionOfTwoLines(p1, v1, p2, v2):
     """
     Get the point closest to the intersection of two lines. The lines are given by one point (p1 and p2) and a
@@ -137,7 +141,9 @@ def intersectionOfTwoLines(p1, v1, p2, v2):
         c2 = -np.einsum('ij,j->i', v2, p1 - p2)
         try:
             res = np.linalg.solve(np.array([[a1, b1], [a2, b2]]).transpose(2, 0, 1), np.array([c1, c2]).T[..., None])
-            return np.mean([p1 + res[:, 0, 0, None] * v1, p2 + res[:, 1, 0, None] * v2], axis=0)
+            points = np.mean([p1 + res[:, 0, 0, None] * v1, p2 + res[:, 1, 0, None] * v2], axis=0)
+            points[__areParallel(v1, v2)] = np.nan
+            return points
         except np.linalg.LinAlgError:
             return np.array([__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))])
     else:  # or just one point
@@ -145,6 +151,8 @@ def intersectionOfTwoLines(p1, v1, p2, v2):
 
 def __intersectionOfTwoLines(p1, v1, p2, v2):
     # the version for one point
+    if __areParallel(v1, v2):
+        return np.ones(3) * np.nan
     a1 = np.dot(v1, v1)
     a2 = np.dot(v1, v2)
     b1 = -np.dot(v2, v1)
-- 
2.43.0


From c084db53b74681692efb4107637df7dba3ce5a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:29 +0000
Subject: [PATCH 36/59] fix: the area of a triangle with collinear corners is
 zero

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index b3af811..5aedc54 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -261,7 +261,7 @@ def areaOfTriangle(triangle):
     c = np.linalg.norm(triangle[..., 2, :] - triangle[..., 0, :], axis=-1)
     s = (a+b+c)/2
     # Herons formula
-    return np.sqrt(s*(s-a)*(s-b)*(s-c))
+    return np.sqrt(np.maximum(s*(s-a)*(s-b)*(s-c), 0))
 
 
 def areaOfQuadrilateral(rect):
-- 
2.43.0


From e4bebeed073b3d3a5ebdc81a41fae1927b1349ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:45 +0000
Subject: [PATCH 37/59] fix: points with a wrong number of coordinates are
 rejected by orientations and lenses

---
 cameratransform/lens_distortion.py | 13 +++++++------
 cameratransform/spatial.py         |  5 +++--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 4b75154..f2a1b37 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -20,6 +20,7 @@
 import numpy as np
 from .parameter_set import ClassWithParameterSet, ParameterSet, Parameter, TYPE_DISTORTION
 import json
+from .utils import ensure_array_format
 
 def invert_function(x, func):
     from scipy import interpolate
@@ -45,11 +46,11 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
 
     def imageFromDistorted(self, points):
         # return the points as they are
-        return points
+        return ensure_array_format(points, "...x2")
 
     def distortedFromImage(self, points):
         # return the points as they are
-        return points
+        return ensure_array_format(points, "...x2")
 
     def __str__(self):
         string = ""
@@ -160,7 +161,7 @@ class BrownLensDistortion(LensDistortion):
     def imageFromDistorted(self, points):
         # ensure that the points are provided as an array
         # and rescale the points to that the center is at 0 and the border at 1
-        points = (np.array(points)-self.offset)/self.scale
+        points = (ensure_array_format(points, "...x2")-self.offset)/self.scale
         # calculate the radius form the center
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
@@ -172,7 +173,7 @@ class BrownLensDistortion(LensDistortion):
     def distortedFromImage(self, points):
         # ensure that the points are provided as an array
         # and rescale the points to that the center is at 0 and the border at 1
-        points = (np.array(points)-self.offset)/self.scale
+        points = (ensure_array_format(points, "...x2")-self.offset)/self.scale
         # calculate the radius form the center
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
@@ -262,7 +263,7 @@ class ABCDistortion(LensDistortion):
     def imageFromDistorted(self, points):
         # ensure that the points are provided as an array
         # and rescale the points to that the center is at 0 and the border at 1
-        points = (np.array(points)-self.offset)/self.scale
+        points = (ensure_array_format(points, "...x2")-self.offset)/self.scale
         # calculate the radius form the center
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
@@ -274,7 +275,7 @@ class ABCDistortion(LensDistortion):
     def distortedFromImage(self, points):
         # ensure that the points are provided as an array
         # and rescale the points to that the center is at 0 and the border at 1
-        points = (np.array(points)-self.offset)/self.scale
+        points = (ensure_array_format(points, "...x2")-self.offset)/self.scale
         # calculate the radius form the center
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index a1f9241..e6c877c 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -20,6 +20,7 @@
 import numpy as np
 from .parameter_set import ParameterSet, Parameter, ClassWithParameterSet, TYPE_EXTRINSIC1, TYPE_EXTRINSIC2
 import json
+from .utils import ensure_array_format
 
 
 class SpatialOrientation(ClassWithParameterSet):
@@ -160,7 +161,7 @@ class SpatialOrientation(ClassWithParameterSet):
         [[0.09 0.97 15.04]
          [0.18 0.98 15.07]]
         """
-        points = np.array(points)
+        points = ensure_array_format(points, "...x3")
         return np.dot(points - self.t, self.R.T)
 
     def spaceFromCamera(self, points, direction=False):
@@ -196,7 +197,7 @@ class SpatialOrientation(ClassWithParameterSet):
         [[-0.09 -0.27 -1.00]
          [-0.18 -0.24 -1.00]]
         """
-        points = np.array(points)
+        points = ensure_array_format(points, "...x3")
         if direction:
             return np.dot(points, self.R_inv.T)
         else:
-- 
2.43.0


From 0c91370cc1d6123c7186a2233bad0ed350eb2f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:45 +0000
Subject: [PATCH 38/59] fix: GPS functions reject points with a wrong number of
 coordinates

---
 cameratransform/gps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index e401b10..68ed8af 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -330,6 +330,8 @@ def getBearing(point1, point2):
 
 def splitGPS(x, keep_deg=False):
     x = np.array(x)
+    if x.shape[-1] not in (2, 3):
+        raise ValueError("Expected points with 2 or 3 coordinates, got array of shape %s" % str(x.shape))
     if keep_deg is False:
         lat1 = np.deg2rad(x[..., 0])
         lon1 = np.deg2rad(x[..., 1])
@@ -474,6 +476,8 @@ def spaceFromGPS(gps, gps0):
 
 def gpsFromSpace(space, gps0):
     space = np.array(space)
+    if space.shape[-1] not in (2, 3):
+        raise ValueError("Expected points with 2 or 3 coordinates, got array of shape %s" % str(space.shape))
     bearing = np.rad2deg(np.arctan2(space[..., 0], space[..., 1]))
     distance = np.linalg.norm(space[..., :2], axis=-1)
     target = moveDistance(gps0, distance, bearing)
-- 
2.43.0


From 03b3468ccba621a0f74103bf724ff63c5c0d67f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:45 +0000
Subject: [PATCH 39/59] fix: lenses can undistort an empty array of points

---
 cameratransform/lens_distortion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index f2a1b37..229e512 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -166,7 +166,7 @@ class BrownLensDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / np.where(r == 0, 1, r) * self._convert_radius_inverse(r)
+            points = points / np.where(r == 0, 1, r) * np.reshape(self._convert_radius_inverse(r), r.shape)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -268,7 +268,7 @@ class ABCDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / np.where(r == 0, 1, r) * self._convert_radius_inverse(r)
+            points = points / np.where(r == 0, 1, r) * np.reshape(self._convert_radius_inverse(r), r.shape)
         # rescale back to the image
         return points * self.scale + self.offset
 
-- 
2.43.0


From 6a926f5458a4d69df28c9d3ba54a0a550d5a09cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:46 +0000
Subject: [PATCH 40/59] fix: metropolis proposals never leave the bounds of the
 parameters

---
 cameratransform/statistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 4f97ee8..124db6e 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -105,8 +105,11 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
 
             # draw a new position
             # next_pos = last_pos + np.random.normal(0, step*adaptive_scale_factor, N)
-            scale = adaptive_scale_factor*step
+            # (steps larger than the range of a parameter make no sense, and truncnorm would loose its precision)
+            scale = np.minimum(adaptive_scale_factor*step, np.where(ranges[:,1] > ranges[:,0], ranges[:,1]-ranges[:,0], np.inf))
             next_pos = last_pos + scale*truncnorm((ranges[:,0]-last_pos)/scale, (ranges[:,1]-last_pos)/scale).rvs()
+            # rounding must not move the position out of the ranges
+            next_pos = np.clip(next_pos, ranges[:,0], ranges[:,1])
             # get the probability
             next_prob = getLogProb(list(next_pos) + next_prior_trace)
             # calculate the acceptance ratio
-- 
2.43.0


From 01fa5a5bf6d135e7c7f2528e2240406f8561af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:46 +0000
Subject: [PATCH 41/59] fix: metropolis treats an undefined log probability as
 impossible

---
 cameratransform/statistic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 124db6e..a4943af 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -92,9 +92,14 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
     else:
         next_prior_trace = []
 
+    def getDefinedLogProb(position):
+        # an undefined probability counts as impossible
+        prob = getLogProb(position)
+        return -np.inf if np.isnan(prob) else prob
+
     # initialize the start position
     last_pos = start
-    last_prob = getLogProb(list(last_pos) + next_prior_trace)
+    last_prob = getDefinedLogProb(list(last_pos) + next_prior_trace)
     # iterate to sample
     with tqdm.trange(int(iterations), disable=disable_bar) as t:
         for i in t:
@@ -111,7 +116,7 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
             # rounding must not move the position out of the ranges
             next_pos = np.clip(next_pos, ranges[:,0], ranges[:,1])
             # get the probability
-            next_prob = getLogProb(list(next_pos) + next_prior_trace)
+            next_prob = getDefinedLogProb(list(next_pos) + next_prior_trace)
             # calculate the acceptance ratio
             ratio = next_prob - last_prob
             if np.isinf(next_prob) and np.isinf(last_prob):
-- 
2.43.0


From f02ef9004677481f8ced81a9b4f23dee5f92b63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:46 +0000
Subject: [PATCH 42/59] fix: metropolis does not accept an impossible position
 after an infinitely probable one

---
 cameratransform/statistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index a4943af..a3c1802 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -119,7 +119,7 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
             next_prob = getDefinedLogProb(list(next_pos) + next_prior_trace)
             # calculate the acceptance ratio
             ratio = next_prob - last_prob
-            if np.isinf(next_prob) and np.isinf(last_prob):
+            if next_prob == last_prob:
                 ratio = 0
             # accept depending on the ratio (>1 means accept always, 0 never)
             r = np.random.rand()
-- 
2.43.0


From 476ed9ae70da63dbf55667e6c86b08f0367a598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:42 +0000
Subject: [PATCH 43/59] fix: metropolis records the values of the prior trace
 that belong to the recorded probability

---
 cameratransform/statistic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index a3c1802..830433a 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -99,6 +99,7 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
 
     # initialize the start position
     last_pos = start
+    last_prior_trace = next_prior_trace
     last_prob = getDefinedLogProb(list(last_pos) + next_prior_trace)
     # iterate to sample
     with tqdm.trange(int(iterations), disable=disable_bar) as t:
@@ -128,12 +129,13 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
                 accepted += 1
                 # store position
                 last_pos, last_prob = next_pos, next_prob
+                last_prior_trace = next_prior_trace
             else:
                 rejected += 1
 
             # add to trace after skipping the first points
             if i > burn:
-                trace.append(list(last_pos) + next_prior_trace + [last_prob])
+                trace.append(list(last_pos) + last_prior_trace + [last_prob])
             else:
                 if i > 100 and i % 100 == 0 and tuning:
                     acc_rate = accepted / (accepted + rejected)
-- 
2.43.0


From 12939b6d9aa5ffa615454f5a393ff34fed0810e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 44/59] fix: a camera group has as many cameras as the longest
 of its lists

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 2c6eb3d..43e50a4 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -188,7 +188,7 @@ class CameraGroup(ClassWithParameterSet):
                 setattr(self, parameter_name, [parameter])
             else:
                 setattr(self, parameter_name, list(parameter))
-                self.N = len(getattr(self, parameter_name))
+                self.N = max(self.N, len(getattr(self, parameter_name)))
 
         checkCount(projection, CameraProjection, "projection_list", RectilinearProjection)
         checkCount(orientation, SpatialOrientation, "orientation_list", SpatialOrientation)
-- 
2.43.0


From 2b7103f56715e66cad637429d54f2c0703a1d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:46 +0000
Subject: [PATCH 45/59] fix: parameters of a camera group never address the
 former projection of a lens

---
 cameratransform/camera.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 43e50a4..099c32c 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -195,17 +195,22 @@ class CameraGroup(ClassWithParameterSet):
         checkCount(lens, LensDistortion, "lens_list", NoDistortion)
 
         params = {}
-        def gatherParameters(parameter_list):
+        # lenses that have been used before also list the parameters of their projection, these are no parameters of the group
+        def gatherParameters(parameter_list, ignore=()):
             if len(parameter_list) == 1:
-                params.update(parameter_list[0].parameters.parameters)
+                for name in parameter_list[0].parameters.parameters:
+                    if name not in ignore:
+                        params[name] = parameter_list[0].parameters.parameters[name]
             else:
                 for index, proj in enumerate(parameter_list):
                     for name in proj.parameters.parameters:
+                        if name in ignore:
+                            continue
                         params["C%d_%s" % (index, name)] = proj.parameters.parameters[name]
 
         gatherParameters(self.projection_list)
         gatherParameters(self.orientation_list)
-        gatherParameters(self.lens_list)
+        gatherParameters(self.lens_list, ignore=self.projection_list[0].parameters.parameters)
 
         self.parameters = ParameterSet(**params)
 
-- 
2.43.0


From dca0b466be8d1cdd3faa52b3934d2014b7075719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 46/59] fix: object sizes may vary by any number or by one
 number per object

---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 099c32c..c633d40 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -546,7 +546,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
                 def heigthInformation(points_feet=points_feet, points_head=points_head, height=height,
                                       variation=variation):
@@ -614,7 +614,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
 
                 def lengthInformation(points_front=points_front, points_back=points_back, length=length,
-- 
2.43.0


From 02df2bccc90ef309643df46669e1210859cf744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:26 +0000
Subject: [PATCH 47/59] fix: pose of the second camera from point
 correspondences

---
 cameratransform/camera.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index c633d40..cdcf100 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -313,11 +313,21 @@ class CameraGroup(ClassWithParameterSet):
         cam1.tilt_deg = 0
         cam1.roll_deg = 0
 
+        # OpenCV gives the pose of the second camera in a coordinate system with inverted y and z axis
+        flip = np.diag([1, -1, -1])
+        rot = np.dot(np.dot(flip, rot), flip)
+        # the position of the second camera relative to the first one
+        t = -np.dot(rot.T, np.dot(flip, t))
+
         def rotationToEuler(R):
-            alpha = np.rad2deg(np.arctan2(R[0, 2], -R[1, 2]))
-            beta = np.rad2deg(np.arccos(R[2, 2]))
-            gamma = np.rad2deg(np.arctan2(R[2, 0], R[2, 1]))
-            return np.array([180 + alpha, beta, 180 + gamma])
+            sin_tilt = np.hypot(R[0, 2], R[1, 2])
+            tilt = np.arctan2(sin_tilt, R[2, 2])
+            if sin_tilt < 1e-8:
+                # without tilt heading and roll are rotations around the same axis
+                roll, heading = np.arctan2(-R[1, 0], R[0, 0]), 0
+            else:
+                roll, heading = np.arctan2(R[0, 2], R[1, 2]), np.arctan2(-R[2, 0], -R[2, 1])
+            return np.rad2deg([roll, tilt, heading])
 
         roll, tilt, heading = rotationToEuler(rot)
         data = dict(roll_deg=roll,
-- 
2.43.0


From 8878d75ae7afb6733fb9ff387a9caf9087f90da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 48/59] fix: fit parameters with an own distribution

---
 cameratransform/statistic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 830433a..788459a 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -282,6 +282,7 @@ class FitParameter:
     def __init__(self, name, distribution=None, lower=None, upper=None, step=1, value=None, mean=None, std=None):
         self.__name__ = name
         if distribution is not None:
+            self.parents = dict()
             self.distribution = distribution
         elif lower is not None and upper is not None:
             self.parents = dict(lower=lower, upper=upper)
-- 
2.43.0


From ece10e9e2945b7206b71339611b709b2627c38e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:01 +0000
Subject: [PATCH 49/59] fix: exif data of current PIL versions

---
 cameratransform/camera.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index cdcf100..03acbf1 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -148,18 +148,24 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
             ret[decoded] = value
         return ret
 
+    def get_number(value):
+        # old versions of PIL return rational numbers as tuples
+        if isinstance(value, tuple):
+            return value[0] / value[1]
+        return float(value)
+
     # read the exif information of the file
     exif = get_exif(filename)
     # get the focal length
-    f = exif["FocalLength"][0] / exif["FocalLength"][1]
+    f = get_number(exif["FocalLength"])
     # get the sensor size, either from a database
     if sensor_from_database:
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
     if not sensor_size or sensor_size is None:
         sensor_size = (
-            exif["ExifImageWidth"] / (exif["FocalPlaneXResolution"][0] / exif["FocalPlaneXResolution"][1]) * 25.4,
-            exif["ExifImageHeight"] / (exif["FocalPlaneYResolution"][0] / exif["FocalPlaneYResolution"][1]) * 25.4)
+            exif["ExifImageWidth"] / (get_number(exif["FocalPlaneXResolution"])) * 25.4,
+            exif["ExifImageHeight"] / (get_number(exif["FocalPlaneYResolution"])) * 25.4)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From beece8046f1663f1436db1b2dea0ac595916bc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:01 +0000
Subject: [PATCH 50/59] fix: exif sensor size without the database

---
 cameratransform/camera.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 03acbf1..ff1ff74 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -159,6 +159,7 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
     # get the focal length
     f = get_number(exif["FocalLength"])
     # get the sensor size, either from a database
+    sensor_size = None
     if sensor_from_database:
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
-- 
2.43.0


From 758c6e54d1ab2ed9bf002e5597df8e71ac4fcb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:01 +0000
Subject: [PATCH 51/59] fix: unit of the exif focal plane resolution

---
 cameratransform/camera.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index ff1ff74..bcf417a 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -164,9 +164,11 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
     if not sensor_size or sensor_size is None:
+        # the resolution is given in pixels per inch (2, default), centimetre (3), millimetre (4), or micrometre (5)
+        unit_mm = {3: 10, 4: 1, 5: 0.001}.get(exif.get("FocalPlaneResolutionUnit"), 25.4)
         sensor_size = (
-            exif["ExifImageWidth"] / (get_number(exif["FocalPlaneXResolution"])) * 25.4,
-            exif["ExifImageHeight"] / (get_number(exif["FocalPlaneYResolution"])) * 25.4)
+            exif["ExifImageWidth"] / (get_number(exif["FocalPlaneXResolution"])) * unit_mm,
+            exif["ExifImageHeight"] / (get_number(exif["FocalPlaneYResolution"])) * unit_mm)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From 1aefba7da274f86a478e05b8bd2fcccedd8bbe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:17 +0000
Subject: [PATCH 52/59] fix: formatting numpy numbers

---
 cameratransform/gps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 68ed8af..ed2e354 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -141,7 +141,7 @@ def formatGPS(lat, lon, format=None, asLatex=False):
         for entry in match:
             # the letter symbol
             if entry[-1] == "s":
-                fills.append(letters[neg])
+                fills.append(letters[1 if neg else 0])
             # one of the values
             else:
                 fills.append(values.pop(0))
-- 
2.43.0


From 5479b37c2d16780d2f068d68aa763296d860b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:25 +0000
Subject: [PATCH 53/59] fix: angles beyond a turn keep their distribution

---
 cameratransform/spatial.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index e6c877c..cd8c40e 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -106,8 +106,10 @@ class SpatialOrientation(ClassWithParameterSet):
         return string
 
     def _initCameraMatrix(self, height=None, tilt_angle=None, roll_angle=None):
-        if self.heading_deg < -360 or self.heading_deg > 360:  # pragma: no cover
-            self.heading_deg = self.heading_deg % 360
+        # reduce large angles, but do not touch the state, the mean, or the default of the parameter
+        parameter = self.parameters.parameters["heading_deg"]
+        if parameter.value is not None and (parameter.value < -360 or parameter.value > 360):  # pragma: no cover
+            parameter.value = parameter.value % 360
         # convert the angle to radians
         tilt = np.deg2rad(self.parameters.tilt_deg)
         roll = np.deg2rad(self.parameters.roll_deg)
@@ -255,8 +257,10 @@ class SpatialOrientationYawPitchRoll(SpatialOrientation):
         return string
 
     def _initCameraMatrix(self):
-        if self.pitch_deg < -360 or self.pitch_deg > 360:  # pragma: no cover
-            self.pitch_deg = self.pitch_deg % 360
+        # reduce large angles, but do not touch the state, the mean, or the default of the parameter
+        parameter = self.parameters.parameters["pitch_deg"]
+        if parameter.value is not None and (parameter.value < -360 or parameter.value > 360):  # pragma: no cover
+            parameter.value = parameter.value % 360
         # convert the angle to radians
         tilt = np.pi/2+np.deg2rad(self.parameters.pitch_deg)
         roll = -np.deg2rad(self.parameters.roll_deg)
-- 
2.43.0


From dd9adb5e22662d8c8109c11b4b0751f0b41715ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:25 +0000
Subject: [PATCH 54/59] fix: saving numpy integers

---
 cameratransform/camera.py          | 2 +-
 cameratransform/lens_distortion.py | 2 +-
 cameratransform/projection.py      | 2 +-
 cameratransform/spatial.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index bcf417a..5edb85a 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1595,7 +1595,7 @@ class Camera(ClassWithParameterSet):
             export_dict["lens"] = BROWNLENSDISTORTION
 
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict, indent=4, default=float))
+            fp.write(json.dumps(export_dict, indent=4, default=lambda value: value.item()))
 
     def load(self, filename: str):
         """
diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 229e512..355d42b 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -66,7 +66,7 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict, default=float))
+            fp.write(json.dumps(export_dict, default=lambda value: value.item()))
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 15493b4..b8bdcd0 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -216,7 +216,7 @@ class CameraProjection(ClassWithParameterSet):
         # the common focal length first, as setting it sets both axis focal lengths
         export_dict = {key: getattr(self, key) for key in sorted(keys, key=lambda key: key != "focallength_px")}
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict, default=float))
+            fp.write(json.dumps(export_dict, default=lambda value: value.item()))
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index cd8c40e..81525b8 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -209,7 +209,7 @@ class SpatialOrientation(ClassWithParameterSet):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict, default=float))
+            fp.write(json.dumps(export_dict, default=lambda value: value.item()))
 
     def load(self, filename):
         with open(filename, "r") as fp:
-- 
2.43.0


From a8b934b44bbec35bbd91a5ebe523fe7b62890ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:57 +0000
Subject: [PATCH 55/59] fix: epipolar lines when one camera is ahead of the
 other

---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 5edb85a..4f43eae 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -269,8 +269,8 @@ class CameraGroup(ClassWithParameterSet):
                 # get the ray from the correspondences in the first camera's image
                 world_epipole, world_ray = self[i].getRay(corresponding[i])
                 # project them to the image of the second camera
-                p1 = self[1 - i].imageFromSpace(world_epipole + world_ray * 1)
-                p2 = self[1 - i].imageFromSpace(world_epipole + world_ray * 2)
+                p1 = self[1 - i].imageFromSpace(world_epipole + world_ray * 1, hide_backpoints=False)
+                p2 = self[1 - i].imageFromSpace(world_epipole + world_ray * 2, hide_backpoints=False)
                 # find the perpendicular point from the epipolar lines to the correspondes point
                 perpendicular_point = ray.getClosestPointFromLine(p1, p2 - p1, corresponding[1 - i])
                 # calculate the distances
-- 
2.43.0


From 26ee8f0d34010ec63b47db5b7e65b3b5c5523b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:57 +0000
Subject: [PATCH 56/59] fix: moving along the surface to a pole

---
 cameratransform/gps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index ed2e354..dd00e75 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -452,8 +452,9 @@ def moveDistance(start, distance, bearing):
     bearing = np.deg2rad(bearing)
     lat1, lon1, h1 = splitGPS(start)
     R = 6371e3
-    lat2 = np.arcsin(np.sin(lat1) * np.cos(distance / R) +
-                     np.cos(lat1) * np.sin(distance / R) * np.cos(bearing))
+    # (limited, as the sine of the latitude of a pole can exceed one by rounding)
+    lat2 = np.arcsin(np.clip(np.sin(lat1) * np.cos(distance / R) +
+                             np.cos(lat1) * np.sin(distance / R) * np.cos(bearing), -1, 1))
 
     lon2 = lon1 + np.arctan2(np.sin(bearing) * np.sin(distance / R) * np.cos(lat1),
                              np.cos(distance / R) - np.sin(lat1) * np.sin(lat2))
-- 
2.43.0


From d5baaf5ca99379403ef29f4b0d72c4df75532f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:57 +0000
Subject: [PATCH 57/59] fix: inverting distortions that decrease further out

---
 cameratransform/lens_distortion.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 355d42b..197676c 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -27,8 +27,10 @@ def invert_function(x, func):
     from scipy.interpolate import dfitpack
     y = func(x)
     dy = np.concatenate(([0], np.diff(y)))
-    y = y[dy>=0]
-    x = x[dy>=0]
+    # use the values up to the first decrease (the function can increase again further out)
+    increasing = np.cumsum(dy < 0) == 0
+    y = y[increasing]
+    x = x[increasing]
     try:
         inter = interpolate.InterpolatedUnivariateSpline(y, x)
     # dfitpack.error
@@ -140,7 +142,7 @@ class BrownLensDistortion(LensDistortion):
         self._init_inverse()
 
     def _init_inverse(self):
-        r = np.arange(0, 2, 0.1)
+        r = np.arange(0, 2, 0.02)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
 
     @property
@@ -242,7 +244,7 @@ class ABCDistortion(LensDistortion):
 
     def _init_inverse(self):
         self.d = 1 - self.a - self.b - self.c
-        r = np.arange(0, 2, 0.1)
+        r = np.arange(0, 2, 0.02)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
 
     @property
-- 
2.43.0


From 2606d927a92521c1eb519f0655f551335a17bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 58/59] fix: small and unsigned integers

---
 cameratransform/gps.py   | 12 ++++++------
 cameratransform/ray.py   |  9 +++++----
 cameratransform/utils.py |  3 ++-
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index dd00e75..45ec252 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -329,7 +329,7 @@ def getBearing(point1, point2):
     return np.rad2deg(beta)
 
 def splitGPS(x, keep_deg=False):
-    x = np.array(x)
+    x = np.array(x, dtype=float)
     if x.shape[-1] not in (2, 3):
         raise ValueError("Expected points with 2 or 3 coordinates, got array of shape %s" % str(x.shape))
     if keep_deg is False:
@@ -447,9 +447,9 @@ def moveDistance(start, distance, bearing):
     array([[48.14444416, 11.52952357],
            [51.79667095, 12.42859387]])
     """
-    start = np.array(start)
-    distance = np.array(distance)
-    bearing = np.deg2rad(bearing)
+    start = np.array(start, dtype=float)
+    distance = np.array(distance, dtype=float)
+    bearing = np.deg2rad(np.array(bearing, dtype=float))
     lat1, lon1, h1 = splitGPS(start)
     R = 6371e3
     # (limited, as the sine of the latitude of a pole can exceed one by rounding)
@@ -464,7 +464,7 @@ def moveDistance(start, distance, bearing):
 
 
 def spaceFromGPS(gps, gps0):
-    gps = np.array(gps)
+    gps = np.array(gps, dtype=float)
     if gps.shape[-1] == 2:
         height = np.zeros_like(gps[..., 0])
     else:
@@ -476,7 +476,7 @@ def spaceFromGPS(gps, gps0):
 
 
 def gpsFromSpace(space, gps0):
-    space = np.array(space)
+    space = np.array(space, dtype=float)
     if space.shape[-1] not in (2, 3):
         raise ValueError("Expected points with 2 or 3 coordinates, got array of shape %s" % str(space.shape))
     bearing = np.rad2deg(np.arctan2(space[..., 0], space[..., 1]))
diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 5aedc54..69fc82a 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -46,14 +46,14 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
         the intersection point(s) of the ray(s) with the triangle(s), dimensions: (3) or (R,3). Points have nan values
         when there is no intersection.
     """
-    origin = np.array(origin)
-    direction = np.array(direction)
+    origin = np.array(origin, dtype=float)
+    direction = np.array(direction, dtype=float)
     if len(direction.shape) == 1:
         direction = direction.reshape(1, *direction.shape)
         return_single = True
     else:
         return_single = False
-    triangle = np.array(triangle)
+    triangle = np.array(triangle, dtype=float)
     if len(triangle.shape) == 2:
         triangle = triangle.reshape(1, *triangle.shape)
 
@@ -256,6 +256,7 @@ def areaOfTriangle(triangle):
     area : float
         the area of the triangle.
     """
+    triangle = np.array(triangle, dtype=float)
     a = np.linalg.norm(triangle[..., 0, :] - triangle[..., 1, :], axis=-1)
     b = np.linalg.norm(triangle[..., 1, :] - triangle[..., 2, :], axis=-1)
     c = np.linalg.norm(triangle[..., 2, :] - triangle[..., 0, :], axis=-1)
@@ -292,7 +293,7 @@ def areaOfQuadrilateral(rect):
     >>> ct.ray.areaOfQuadrilateral([[[0, 0], [1, 0], [1, 1], [0, 1]], [[10, 10], [30, 10], [30, 30], [10, 30]]])
     array([  1., 400.])
     """
-    rect = np.array(rect)
+    rect = np.array(rect, dtype=float)
     A = rect[..., 0, :]
     B = rect[..., 1, :]
     C = rect[..., 2, :]
diff --git a/cameratransform/utils.py b/cameratransform/utils.py
index 7841da9..21f99e4 100644
--- a/cameratransform/utils.py
+++ b/cameratransform/utils.py
@@ -20,7 +20,8 @@ def ensure_array_format(p, shape, *additional_arrays):
         return [ensure_array_format(a, shape) for a in additional_arrays]
     if isinstance(shape, str):
         shape = string_to_shape(shape)
-    p = np.asarray(p)
+    # as floating point numbers: small or unsigned integers would overflow
+    p = np.asarray(p, dtype=float)
     number_lookup = {}
     if shape[0] != "..." and len(p.shape) != len(shape):
         raise ValueError("Expected array of shape %s, got array of shape %s" % (str(shape), str(p.shape)))
-- 
2.43.0


From aec6532d449158b2cdc9e140339ee9bed66117cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:31 +0000
Subject: [PATCH 59/59] fix: drawing from a thinned out trace

---
 cameratransform/parameter_set.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 06a958a..f2e3db7 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -182,7 +182,7 @@ class ClassWithParameterSet(object):
 
     def sample(self):
         if self.parameters.trace is not None:
-            parameter_set = dict(self.parameters.trace.loc[np.random.randint(len(self.parameters.trace))])
+            parameter_set = dict(self.parameters.trace.iloc[np.random.randint(len(self.parameters.trace))])
             prob = parameter_set["probability"]
             del parameter_set["probability"]
             self.parameters.set_fit_parameters(parameter_set.keys(), parameter_set.values())
@@ -202,8 +202,8 @@ class ClassWithParameterSet(object):
         if self.parameters.trace is not None:
             print(self.parameters.trace["probability"])
             print('self.parameters.trace["probability"]', self.parameters.trace["probability"].dtype)
-            most_probable_index = self.parameters.trace["probability"].idxmax()
-            parameter_set = dict(self.parameters.trace.loc[most_probable_index])
+            most_probable_index = self.parameters.trace["probability"].argmax()
+            parameter_set = dict(self.parameters.trace.iloc[most_probable_index])
             if "probability" in parameter_set:
                 del parameter_set["probability"]
             self.parameters.set_fit_parameters(parameter_set.keys(), parameter_set.values())
-- 
2.43.0

