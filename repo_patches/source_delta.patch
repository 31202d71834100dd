From abe26afb28fdbe3d2dd60194848f338b78a1d601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:48 +0000
Subject: [PATCH 001/115] fix: keep normalized coordinates on the same point of
 the sphere and in range past the poles

---
 cratermaker/utils/general_utils.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index 5eb2da0..f0a26b5 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -234,25 +234,28 @@ def normalize_coords(location: tuple[FloatLike, FloatLike]) -> tuple[float, floa
     Examples
     --------
     >>> normalize_coords((370, 95))
-    (10.0, 85.0)
+    (-170.0, 85.0)
 
     >>> normalize_coords((-185, -100))
-    (-5.0, 80.0)
+    (-5.0, -80.0)
     """
     lon, lat = location
+    normalized_lon, normalized_lat = lon, lat
+
+    # Wrap latitudes beyond the poles onto a single turn, then reflect them and flip the longitude
+    if abs(lat) > 90:
+        normalized_lat = ((lat + 180) % 360) - 180
+        if normalized_lat > 90:
+            normalized_lat = 180 - normalized_lat
+            normalized_lon = lon - 180
+        elif normalized_lat < -90:
+            normalized_lat = -180 - normalized_lat
+            normalized_lon = lon - 180
 
     # Normalize longitude to be within [-180, 180)
-    normalized_lon = ((lon + 180) % 360) - 180
-
-    # Normalize latitude
-    if lat > 90:
-        normalized_lat = 180 - lat
-        normalized_lon = lon - 180  # Flip the longitude
-    elif lat < -90:
-        normalized_lat = -180 - lat
-        normalized_lon = lon - 180  # Flip the longitude
-    else:
-        normalized_lat = lat
+    normalized_lon = ((normalized_lon + 180) % 360) - 180
+    if normalized_lon >= 180:  # The modulo of a tiny negative number rounds up to 360
+        normalized_lon -= 360
 
     # Ensure latitude is within the range [-90, 90] after adjustments
     normalized_lat = np.clip(normalized_lat, -90, 90)
-- 
2.43.0


From 94302e1bdc0631db504e0cab55e64a3cc6ecc0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:48 +0000
Subject: [PATCH 002/115] fix: accept locations given as structured lon/lat
 arrays

---
 cratermaker/utils/general_utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index f0a26b5..41e6f7b 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -294,10 +294,10 @@ def validate_and_normalize_location(location):
     Examples
     --------
     >>> validate_and_normalize_location((370, 95))
-    (10.0, 85.0))
+    (-170.0, 85.0)
 
     >>> validate_and_normalize_location({"lat": 45.0, "lon": 120.0})
-    (-120., 45.)
+    (120.0, 45.0)
 
     >>> validate_and_normalize_location(np.array([(-120.0, 45.0)], dtype=[("lon", "f8"), ("lat", "f8")]))
     (-120., 45.)
@@ -305,11 +305,11 @@ def validate_and_normalize_location(location):
     """
     # Check if it's already a tuple
 
-    if isinstance(location, np.ndarray) and location.dtype.names == ("lon", "lat"):
-        return normalize_coords((location[0], location[1]))
-
-    if isinstance(location, np.ndarray) and location.dtype.names == ("lat", "lon"):
-        return normalize_coords((location[1], location[0]))
+    if isinstance(location, (np.ndarray, np.void)) and location.dtype.names is not None and {"lon", "lat"} <= set(location.dtype.names):
+        lon, lat = np.ravel(location["lon"]), np.ravel(location["lat"])
+        if lon.size == 1:
+            return normalize_coords((lon[0], lat[0]))
+        return [normalize_coords((x, y)) for x, y in zip(lon, lat, strict=True)]
 
     if isinstance(location, np.ndarray) and len(location.shape) == 2 and location.shape[1] == 2:
         if location.shape[0] == 1:
-- 
2.43.0


From a9334ad7a8130912d0162fbe68adc032a1cbd166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:07 +0000
Subject: [PATCH 003/115] fix: use the documented default angle, direction and
 location for projectiles that are not sampled

---
 cratermaker/components/projectile/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/projectile/__init__.py b/cratermaker/components/projectile/__init__.py
index e8d8f35..fceaa24 100644
--- a/cratermaker/components/projectile/__init__.py
+++ b/cratermaker/components/projectile/__init__.py
@@ -112,11 +112,11 @@ class Projectile(ComponentBase):
             if self.velocity is None:
                 raise ValueError("velocity must be provided when sample is False")
             if self.angle is None:
-                raise ValueError("angle must be provided when sample is False")
+                self._angle = 90.0
             if self.direction is None:
-                raise ValueError("direction must be provided when sample is False")
+                self._direction = 0.0
             if self.location is None:
-                raise ValueError("location must be provided when sample is False")
+                self._location = (0.0, 0.0)
 
         if self.density is None:
             raise ValueError("density must be provided")
-- 
2.43.0


From 768a1009a374b4ec6c71fcdf7f5449d900861943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:07 +0000
Subject: [PATCH 004/115] fix: keep the name given for a crater that is copied
 or read from a file

---
 cratermaker/components/crater/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 2fd5682..3586f49 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -962,7 +962,7 @@ class Crater(ComponentBase):
 
             measured_orientation = args.pop("measured_orientation", None)
             measured_location = args.pop("measured_location", None)
-            name = args.pop("name", None)
+            name = args.pop("name", name)
             if crater is not None:
                 mt = crater.morphology_type
             else:
-- 
2.43.0


From 7112ab9c16b42e03c20bdacc13d34f0fe0ab527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:07 +0000
Subject: [PATCH 005/115] fix: do not mix the axes of the original crater into
 a copy made with a new size

---
 cratermaker/components/crater/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 3586f49..ad98708 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -903,6 +903,14 @@ class Crater(ComponentBase):
                 make_copy = False
                 for field in size_inputs:
                     old_parameters.pop(field, None)
+                for field in [
+                    "semiminor_axis",
+                    "measured_semimajor_axis",
+                    "measured_semiminor_axis",
+                    "measured_diameter",
+                    "measured_radius",
+                ]:
+                    old_parameters.pop(field, None)
             if projectile_mean_velocity is None:
                 # Be sure to keep only two velocitity components, with a preference for angle over vertical velocity
                 if n_velocity_inputs == 0:
-- 
2.43.0


From 134c13e54dfd38ddeccc8680c5eac2620d874486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:07 +0000
Subject: [PATCH 006/115] fix: infer the projectile velocity or angle from the
 vertical velocity instead of ignoring it

---
 cratermaker/components/crater/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index ad98708..f4acb90 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -934,6 +934,15 @@ class Crater(ComponentBase):
                 if field in args and args[field] is None or field not in args:
                     args[field] = old_parameters[field]
 
+        # Infer the missing velocity component if the vertical velocity was passed
+        if projectile_vertical_velocity is not None and n_velocity_inputs == 2:
+            if args["projectile_velocity"] is None and args["projectile_angle"] is not None:
+                args["projectile_velocity"] = projectile_vertical_velocity / math.sin(math.radians(args["projectile_angle"]))
+            elif args["projectile_angle"] is None and args["projectile_velocity"] is not None:
+                if abs(projectile_vertical_velocity) > args["projectile_velocity"]:
+                    raise ValueError("projectile_vertical_velocity cannot be larger than projectile_velocity")
+                args["projectile_angle"] = math.degrees(math.asin(projectile_vertical_velocity / args["projectile_velocity"]))
+
         if n_size_inputs != 1:
             if check_redundant_inputs:
                 raise ValueError(f"Exactly one of {', '.join(k for k, v in size_inputs.items() if v is not None)} must be set.")
-- 
2.43.0


From e5557f8845f5a7d56c3102365e9ea8066ee872a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:08 +0000
Subject: [PATCH 007/115] fix: sample the projectile velocity from the mean
 velocity passed when making a crater

---
 cratermaker/components/crater/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index f4acb90..e30c614 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -730,6 +730,7 @@ class Crater(ComponentBase):
         from cratermaker.components.projectile import Projectile
         from cratermaker.components.scaling import Scaling
         from cratermaker.components.target import Target
+        from cratermaker.utils.montecarlo_utils import get_random_velocity
 
         make_copy = crater is not None
 
@@ -997,6 +998,11 @@ class Crater(ComponentBase):
             kwargs = {**kwargs, **vars(argproc.common_args)}
             target = Target.maker(target, **kwargs)
 
+            if projectile_mean_velocity is not None:
+                args["projectile_velocity"] = float(
+                    get_random_velocity(vmean=projectile_mean_velocity, vescape=target.escape_velocity, rng=argproc.rng)[0]
+                )
+
             projectile_args = {
                 "velocity": args["projectile_velocity"],
                 "mass": args["projectile_mass"],
-- 
2.43.0


From 6fa4c89696c74e05217f62a05befb407e3ac9a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 008/115] fix: accept a list of exactly two locations

---
 cratermaker/utils/general_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index 41e6f7b..fb62c6a 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -320,11 +320,16 @@ def validate_and_normalize_location(location):
                 validated_loc.append(validate_and_normalize_location(loc))
             return validated_loc
 
-    if isinstance(location, (tuple | list | np.ndarray)) and len(location) == 2:
+    if (
+        isinstance(location, (tuple | list | np.ndarray))
+        and len(location) == 2
+        and not isinstance(location[0], (tuple | list | np.ndarray))
+    ):
         return normalize_coords(location)
 
     if (
         isinstance(location, (tuple | list | np.ndarray))
+        and len(location) > 0
         and isinstance(location[0], (tuple | list | np.ndarray))
         and len(location[0]) == 2
     ):
-- 
2.43.0


From 40408b673fe9032ee478f75801c85bf0c128172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:36 +0000
Subject: [PATCH 009/115] fix: do not index past the end of the size
 distribution when the uniform draw rounds up to its limit

---
 cratermaker/utils/montecarlo_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/utils/montecarlo_utils.py b/cratermaker/utils/montecarlo_utils.py
index 1328314..d204dff 100644
--- a/cratermaker/utils/montecarlo_utils.py
+++ b/cratermaker/utils/montecarlo_utils.py
@@ -337,7 +337,8 @@ def get_random_size(
 
     # Find the indices where the random numbers would be inserted to maintain order
     # Use the right side of the interval to avoid edge effects for when u == sorted_cdf[0]
-    # Because rng.uniform returns values in the half-open interval [sorted_cdf[0], sorted_cdf[-1]), u will never be exactly equal to sorted_cdf[-1]
+    # Rounding inside rng.uniform can return values that are equal to the upper limit, so u is kept just below sorted_cdf[-1]
+    u = np.minimum(u, np.nextafter(log_sorted_cdf[-1], -np.inf))
     indices = np.searchsorted(log_sorted_cdf, u, side="right")
 
     # Initialize the new_diameters array
-- 
2.43.0


From 6d48201c33717a304bfebc550708fe7bc0d12af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:53 +0000
Subject: [PATCH 010/115] fix: never pick a triangle past the end of a face
 when the cumulative area rounds below the draw

---
 cratermaker/utils/montecarlo_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/utils/montecarlo_utils.py b/cratermaker/utils/montecarlo_utils.py
index d204dff..7ce66bc 100644
--- a/cratermaker/utils/montecarlo_utils.py
+++ b/cratermaker/utils/montecarlo_utils.py
@@ -97,7 +97,7 @@ def _get_one_random_location(face_nodes, node_x, node_y, node_z, rng_vals):
     cum_areas = np.cumsum(areas)
 
     # triangle selection
-    tri_idx = np.searchsorted(cum_areas, rng_vals[0])
+    tri_idx = min(np.searchsorted(cum_areas, rng_vals[0]), n_tris - 1)
     j0, j1, j2 = tris[tri_idx]
     v0, v1, v2 = vertices[j0], vertices[j1], vertices[j2]
 
-- 
2.43.0


From f6ae44a31cbcbb2b71c9e25cf32864cb819b7942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:29 +0000
Subject: [PATCH 011/115] fix: leave the catalogue untouched when setting
 properties from it fails

---
 cratermaker/utils/general_utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index fb62c6a..1fa07c8 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -123,16 +123,12 @@ def _set_properties(
         if key not in catalogue:
             return {}, {}
 
-        properties = catalogue.get(key)
-        properties.update({catalogue_key: key})
+        properties = {**catalogue[key], catalogue_key: key}
         # Remove any items in kwargs that are already in properties
         for k in properties:
             if k in kwargs:
                 del kwargs[k]
-        if properties:  # A match was found to the catalogue
-            matched, unmatched = _set_properties_from_arguments(obj, **properties, **kwargs)
-            properties.pop(catalogue_key)  # Make sure that the catlogue key doesn't stay in the properties
-        return matched, unmatched
+        return _set_properties_from_arguments(obj, **properties, **kwargs)
 
     def _set_properties_from_file(obj, config_file, key=None, **kwargs):
         try:
-- 
2.43.0


From 65ba2e114bb623e6e025ac03a6a9f975707c1b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:29 +0000
Subject: [PATCH 012/115] fix: print a target whose surface density is not
 known

---
 cratermaker/components/target/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/target/__init__.py b/cratermaker/components/target/__init__.py
index 6011b59..ad07609 100644
--- a/cratermaker/components/target/__init__.py
+++ b/cratermaker/components/target/__init__.py
@@ -150,12 +150,13 @@ class Target(ComponentBase):
     def __str__(self) -> str:
         diameter = format_large_units(self.diameter, quantity="length")
         escape_velocity = format_large_units(self.escape_velocity, quantity="velocity")
+        density = "unknown" if self.density is None else f"{self.density:.1f} kg/m³"
         str_repr = (
             f"<Target: {self.name}>\n"
             f"Material: {self.material}\n"
             f"Diameter: {diameter}\n"
             f"Mass: {self.mass:.2e} kg\n"
-            f"Surface density: {self.density:.1f} kg/m³\n"
+            f"Surface density: {density}\n"
             f"Transition Type: {self.transition_scale_type}\n"
             f"Escape Velocity: {escape_velocity}\n"
             f"Gravity: {self.gravity:.3f} m/s²\n"
-- 
2.43.0


From edc78a453dc15418f4fd5d62f71117b6483cac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:34 +0000
Subject: [PATCH 013/115] fix: keep the velocities of a projectile when it is
 copied

---
 cratermaker/components/projectile/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/projectile/__init__.py b/cratermaker/components/projectile/__init__.py
index fceaa24..f80316c 100644
--- a/cratermaker/components/projectile/__init__.py
+++ b/cratermaker/components/projectile/__init__.py
@@ -157,7 +157,12 @@ class Projectile(ComponentBase):
                 attr = getattr(self, k, None)
                 init_kwargs[k] = copier(attr, memo) if deep else copier(attr)
 
-        return cls(**init_kwargs)
+        new_obj = cls(**init_kwargs)
+
+        # Some populations set their own velocities when they are initialized, so any changes made to them must be carried over
+        new_obj._mean_velocity = self._mean_velocity
+        new_obj._velocity = self._velocity
+        return new_obj
 
     def __copy__(self) -> Self:
         return self._copy(deep=False)
-- 
2.43.0


From 83d0e5889ceb2aabe91b455c7f68ea186dd89f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:57 +0000
Subject: [PATCH 014/115] fix: wire the target and the projectile of a scaling
 model to each other and keep a given surface density

---
 cratermaker/components/scaling/__init__.py   | 13 ++++++++-----
 cratermaker/components/scaling/montecarlo.py |  4 ++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/cratermaker/components/scaling/__init__.py b/cratermaker/components/scaling/__init__.py
index 4ee2d82..ee2ca48 100644
--- a/cratermaker/components/scaling/__init__.py
+++ b/cratermaker/components/scaling/__init__.py
@@ -104,6 +104,7 @@ class Scaling(ComponentBase):
         """
         if scaling is None:
             scaling = "montecarlo"
+        existing = isinstance(scaling, Scaling)
         scaling = super().maker(
             component=scaling,
             target=target,
@@ -113,10 +114,12 @@ class Scaling(ComponentBase):
             rng_state=rng_state,
             **kwargs,
         )
-        if projectile is not None:
-            scaling.projectile = projectile
-        if target is not None:
-            scaling.target = target
+        # A newly made scaling model has already got its target and projectile from the constructor
+        if existing:
+            if target is not None:
+                scaling.target = target
+            if projectile is not None:
+                scaling.projectile = projectile
 
         return scaling
 
@@ -158,7 +161,7 @@ class Scaling(ComponentBase):
     def projectile(self, value):
         from cratermaker.components.projectile import Projectile
 
-        self._projectile = Projectile.maker(value, **vars(self.common_args))
+        self._projectile = Projectile.maker(value, target=self.target, **vars(self.common_args))
         return
 
     @property
diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index e31b463..2ae4c4e 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -107,6 +107,7 @@ class MonteCarloScaling(Scaling):
         object.__setattr__(self, "_material_catalogue", None)
         object.__setattr__(self, "_montecarlo_scaling", monte_carlo_scaling)
 
+        target_density = self.target.density
         if material is None:
             self.material = self.target.material
         else:
@@ -123,6 +124,9 @@ class MonteCarloScaling(Scaling):
         )
         if density is not None:
             self.target.density = density
+        elif material is None and target_density is not None:
+            # Setting the material replaces the surface density, but here the material is the target's own
+            self.target.density = target_density
         elif self.target.density is None:
             self.target.density = self.material_catalogue[self.material]["density"]
         if self.projectile.density is None:
-- 
2.43.0


From 6b8228ef7e1c7aac269ea6f333f52ecaae2fa472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:43 +0000
Subject: [PATCH 015/115] fix: convert transient to final diameters far below
 the transition diameter

---
 cratermaker/components/scaling/montecarlo.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index 2ae4c4e..1d72c4e 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -263,15 +263,9 @@ class MonteCarloScaling(Scaling):
         # Invert the final -> transient functions for  each crater type
         final_diameter_simple = transient_diameter * self.simple_enlargement_factor
 
-        def root_func(final_diameter, Dt, scaling):
-            return scaling._f2t_complex(final_diameter) - Dt
-
-        sol = root_scalar(
-            lambda x, *args: root_func(x, *args),
-            bracket=(0.1 * final_diameter_simple, 10 * final_diameter_simple),
-            args=(transient_diameter, self),
-        )
-        final_diameter_complex = sol.root
+        final_diameter_complex = (
+            final_diameter_simple * self.complex_enlargement_factor * self.transition_diameter**-self.final_exp
+        ) ** (1.0 / (1.0 - self.final_exp))
 
         # Evaluate the potential morphology that this transient crater could be consistent with. If both potential diameter values are unambigusously simple or complex, go with that.
         # If there is disagreement, then we'll draw the answer from a hat and just check to make sure that final_diameter > transient_diameter
-- 
2.43.0


From da0526ad82a30090bbf24b675c85648c34ae1b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:15 +0000
Subject: [PATCH 016/115] fix: set both measured axes when a smaller measured
 radius or diameter is set

---
 cratermaker/components/crater/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index e30c614..8a94a5f 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -235,8 +235,11 @@ class CraterVariable:
             self.measured_semimajor_axis = None
             self.measured_semiminor_axis = None
         else:
-            self.measured_semimajor_axis = value
-            self.measured_semiminor_axis = value
+            if value <= 0:
+                raise ValueError("measured_radius must be positive.")
+            # Set both axes at once, as the setters of the individual axes swap them when they are out of order
+            self._measured_semimajor_axis = float(value)
+            self._measured_semiminor_axis = float(value)
         return
 
     @property
-- 
2.43.0


From ff7cf2a88844cac3efa671183ee5f0e9c8d80966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:15 +0000
Subject: [PATCH 017/115] fix: normalize the location given for a crater that
 is copied

---
 cratermaker/components/crater/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 8a94a5f..a7d0037 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -965,6 +965,8 @@ class Crater(ComponentBase):
             pang = args.pop("projectile_angle")
             prho = args.pop("projectile_density")
             location = args.pop("location")
+            if location is not None:
+                location = validate_and_normalize_location(location)
             if "measured_diameter" in args:
                 measured_diameter = args.pop("measured_diameter")
                 measured_semimajor_axis = measured_diameter / 2.0
-- 
2.43.0


From a39ffb13c5aabdb2dd1540caf68099abfbcefd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:22 +0000
Subject: [PATCH 018/115] fix: honour the measured size and keep the name when
 a crater is copied with new values

---
 cratermaker/components/crater/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index a7d0037..72d656a 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -915,6 +915,18 @@ class Crater(ComponentBase):
                     "measured_radius",
                 ]:
                     old_parameters.pop(field, None)
+            # A measured size that was passed replaces all of the measured size of the original
+            measured_sizes = {
+                "measured_semimajor_axis": measured_semimajor_axis,
+                "measured_semiminor_axis": measured_semiminor_axis,
+                "measured_diameter": measured_diameter,
+                "measured_radius": measured_radius,
+            }
+            if any(v is not None for v in measured_sizes.values()):
+                for field in measured_sizes:
+                    old_parameters.pop(field, None)
+            if name is None:
+                name = old_parameters.pop("name", None)
             if projectile_mean_velocity is None:
                 # Be sure to keep only two velocitity components, with a preference for angle over vertical velocity
                 if n_velocity_inputs == 0:
-- 
2.43.0


From 29a83202fe2c343b55e7ce46d0739ee1f34cf43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:06 +0000
Subject: [PATCH 019/115] fix: leave coordinates that are in range exactly as
 they are

---
 cratermaker/utils/general_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index 1fa07c8..f784e37 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -248,8 +248,9 @@ def normalize_coords(location: tuple[FloatLike, FloatLike]) -> tuple[float, floa
             normalized_lat = -180 - normalized_lat
             normalized_lon = lon - 180
 
-    # Normalize longitude to be within [-180, 180)
-    normalized_lon = ((normalized_lon + 180) % 360) - 180
+    # Normalize longitude to be within [-180, 180), leaving values that are in range exactly as they are
+    if not -180 <= normalized_lon < 180:
+        normalized_lon = ((normalized_lon + 180) % 360) - 180
     if normalized_lon >= 180:  # The modulo of a tiny negative number rounds up to 360
         normalized_lon -= 360
 
-- 
2.43.0


From 70768e3f138d5495b744b90152f5af54c6b8b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:30 +0000
Subject: [PATCH 020/115] fix: choose the default production function and its
 version from the target as documented

---
 cratermaker/components/production/__init__.py | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index b8ae8bc..ebe0190 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -152,28 +152,25 @@ class Production(ComponentBase):
             If there is an error initializing the production model.
 
         """
-        set_version = False
-        version = None
-        if production is None:
-            set_version = True
-        elif isinstance(production, str):
+        version = kwargs.pop("version", None)
+        if isinstance(production, str):
             production = production.lower()
-            if production == "neukum":
-                set_version = True
-            if set_version:
-                version = kwargs.pop("version", None)
-                if target is None and version is not None and version in ["Moon", "Mars"]:
-                    target = version
-                target = Target.maker(target, **kwargs)
-                if target.name in ["Mercury", "Venus", "Earth", "Moon", "Mars"]:
+        if production is None or production == "neukum":
+            if version is not None:
+                version = version.title()
+            if target is None and version in ["Moon", "Mars"]:
+                target = version
+            target = Target.maker(target, **kwargs)
+            if production is None:
+                if target.name in ["Mercury", "Venus", "Earth", "Moon", "Mars", "Vesta", "Ceres"]:
                     production = "neukum"
-                    if version is None or version != "projectile":
-                        if target.name in ["Moon", "Mars"]:
-                            version = target.name
-                        else:
-                            version = "projectile"
                 else:
                     production = "powerlaw"
+            if version != "Projectile":
+                if target.name in ["Moon", "Mars"]:
+                    version = target.name
+                else:
+                    version = "Projectile"
 
         return super().maker(
             component=production,
-- 
2.43.0


From 35dba768471e161234005f5ad2798d14a603a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:30 +0000
Subject: [PATCH 021/115] fix: sample over the diameter range of the production
 function when none is passed

---
 cratermaker/components/production/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index ebe0190..194ac8c 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -674,7 +674,9 @@ class Production(ComponentBase):
             )
         diameter_number = kwargs.get("diameter_number")
         diameter_number_end = kwargs.get("diameter_number_end")
-        diameter_range = kwargs.pop("diameter_range", self.diameter_range)
+        diameter_range = kwargs.pop("diameter_range", None)
+        if diameter_range is None:
+            diameter_range = self.diameter_range
         area = kwargs.get("area")
         compute_time = kwargs.get("compute_time", True)
 
@@ -1337,7 +1339,7 @@ class Production(ComponentBase):
         # Reset to default
         if value is None:
             self._diameter_range = (0, np.inf)
-        elif not isinstance(value, (list, tuple, ArrayLike)) or len(value) != 2:
+        elif not isinstance(value, (list, tuple, np.ndarray)) or len(value) != 2:
             raise TypeError("diameter_range must be a list, tuple, or array of length 2")
         else:
             self._diameter_range = (float(value[0]), float(value[1]))
-- 
2.43.0


From 4b638fd6a240c6b59dcf7f58a1073e416cafc86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:30 +0000
Subject: [PATCH 022/115] fix: convert N(D) values to number densities per
 square meter

---
 cratermaker/components/production/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 194ac8c..1f45b53 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -663,14 +663,14 @@ class Production(ComponentBase):
             if time_start is not None:
                 raise ValueError("Cannot provide both N_D and time_start")
             time_start = self.age_from_D_N(
-                diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] * self.N_conversion_factor
+                diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] / self.N_conversion_factor
             )
 
         if N_D_end is not None:
             if time_end is not None:
                 raise ValueError("Cannot provide both N_D_end and time_end")
             time_end = self.age_from_D_N(
-                diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] * self.N_conversion_factor
+                diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] / self.N_conversion_factor
             )
         diameter_number = kwargs.get("diameter_number")
         diameter_number_end = kwargs.get("diameter_number_end")
-- 
2.43.0


From bf38f9d3759a492e6e1fe9da4db9ee82ad430fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:30 +0000
Subject: [PATCH 023/115] fix: draw formation times from the production rate
 and not from the accumulated production

---
 cratermaker/components/production/__init__.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 1f45b53..272db54 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -313,8 +313,7 @@ class Production(ComponentBase):
 
         # Normalize the weights for each diameter
         if N_vs_age.ndim > 1:
-            N_vs_age -= np.min(N_vs_age, axis=1)[:, None]  # Subtract the min along age dimension
-            N_vs_age = N_vs_age[:, :-1]  # Remove the last value to avoid the cumulative sum reaching 1
+            N_vs_age = np.diff(N_vs_age, axis=1)  # The number produced within each subinterval
             weights_sum = np.sum(N_vs_age, axis=1)[:, None]  # Sum of weights for each diameter
             weights = N_vs_age / weights_sum  # Normalize weights for each diameter
 
@@ -323,8 +322,7 @@ class Production(ComponentBase):
 
         else:
             if len(N_vs_age) > 0:
-                N_vs_age -= np.min(N_vs_age)  # Subtract the min along age dimension
-                N_vs_age = N_vs_age[:-1]  # Remove the last value to avoid the cumulative sum reaching 1
+                N_vs_age = np.diff(N_vs_age)  # The number produced within each subinterval
                 weights_sum = np.sum(N_vs_age)  # Sum of weights for each diameter
                 weights = N_vs_age / weights_sum  # Normalize weights for each diameter
                 # Compute the CDF for each diameter
@@ -339,9 +337,9 @@ class Production(ComponentBase):
             # For each diameter, find the corresponding index in the CDF
             for i, cdf_row in enumerate(cdf):
                 # Find the corresponding index in the CDF for each diameter
-                chosen_subinterval_indices[i] = np.searchsorted(cdf_row, random_values[i], side="right") - 1
+                chosen_subinterval_indices[i] = np.searchsorted(cdf_row, random_values[i], side="right")
         else:
-            chosen_subinterval_indices = np.searchsorted(cdf, random_values[:], side="right") - 1
+            chosen_subinterval_indices = np.searchsorted(cdf, random_values[:], side="right")
 
         # Ensure indices are within valid range
         chosen_subinterval_indices = np.clip(chosen_subinterval_indices, 0, len(time_subinterval) - 2)
-- 
2.43.0


From ff0cb4bf59b7cfc1cfb831062d4973a869a72a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:30 +0000
Subject: [PATCH 024/115] fix: let the power law chronology depend on time

---
 cratermaker/components/production/powerlaw.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 67b671f..366a646 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -176,9 +176,7 @@ class PowerLawProduction(Production):
                 else:
                     time_end = np.zeros_like(time_start)
 
-        N1km = self.csfd(1000.0, time_start=time_start, time_end=time_start, validate_inputs=False)
-
-        return N1km
+        return np.asarray(time_start - time_end)
 
     def csfd(self, diameter: FloatLike | ArrayLike, **kwargs: Any) -> FloatLike | ArrayLike:
         """
-- 
2.43.0


From 62dad549418e2c48c3deeba403dfcbe6bb8cd3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:31 +0000
Subject: [PATCH 025/115] fix: recompute the chronology coefficients when the
 version of the production function changes

---
 cratermaker/components/production/neukum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/components/production/neukum.py b/cratermaker/components/production/neukum.py
index 5c29c32..9df1f0d 100644
--- a/cratermaker/components/production/neukum.py
+++ b/cratermaker/components/production/neukum.py
@@ -240,6 +240,10 @@ class NeukumProduction(Production):
             raise ValueError(f"Invalid version '{value}'. Valid options are {self.valid_versions}")
         self._version = value.title()
 
+        # The coefficients depend on the version, so any values stored for another version must be recomputed
+        self._Cexp = None
+        self._Clin = None
+
         if self._version == "Projectile":
             self._generator_type = "projectile"
         else:
-- 
2.43.0


From 14ae7dd361615caa107989986f0a8e6ff3994860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:31 +0000
Subject: [PATCH 026/115] fix: reject a scalar end time outside of the valid
 time range like an array of them

---
 cratermaker/components/production/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 272db54..d3ececb 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -812,11 +812,11 @@ class Production(ComponentBase):
                 raise TypeError("time_end must be a numeric value (float or int)")
             if time_start < time_end:
                 raise ValueError("time_start must be greater than the time_end")
-            if self.valid_time[0] is not None and time_start < self.valid_time[0]:
+            if self.valid_time[0] is not None and (time_start < self.valid_time[0] or time_end < self.valid_time[0]):
                 raise ValueError(
                     f"time_start must be greater than the minimum valid time {self.valid_time[0]} (it is units of My before present)"
                 )
-            if self.valid_time[1] is not None and time_start > self.valid_time[1]:
+            if self.valid_time[1] is not None and (time_start > self.valid_time[1] or time_end > self.valid_time[1]):
                 raise ValueError(
                     f"time_start must be less than the maximum valid time {self.valid_time[1]} (it is in units of My before present)"
                 )
-- 
2.43.0


From 7ec10b82560b7f7937b0c728e3833ab51966938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:19 +0000
Subject: [PATCH 027/115] fix: accept an end number given at another diameter
 than the start number

---
 cratermaker/components/production/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index d3ececb..03f2e75 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -739,6 +739,8 @@ class Production(ComponentBase):
             # If not, we need to adjust the end diameter value it so that they match
             if diameter_number is not None:
                 if diameter_number_density_end[0] != diameter_number_density[0]:
+                    if time_end is None:
+                        time_end = self.age_from_D_N(*diameter_number_density_end)
                     diameter_number_density_end = (
                         diameter_number_density[0],
                         self.function(diameter=diameter_number_density[0], time_start=time_end),
-- 
2.43.0


From 6cffbfbc6a6c78f3235c570a154af96f529ca70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:19 +0000
Subject: [PATCH 028/115] fix: reject an empty diameter range instead of
 returning undefined diameters

---
 cratermaker/components/production/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 03f2e75..850abd7 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -693,9 +693,9 @@ class Production(ComponentBase):
             raise ValueError("The 'diameter_range' must be a pair of values")
         if diameter_range[0] <= 0:
             raise ValueError(f"Diameter range invalid: {diameter_range}. The minimum diameter must be greater than 0")
-        if diameter_range[1] < diameter_range[0]:
+        if diameter_range[1] <= diameter_range[0]:
             raise ValueError(
-                f"Diameter range invalid: {diameter_range}. The maximum diameter must be greater than or equal to the minimum diameter"
+                f"Diameter range invalid: {diameter_range}. The maximum diameter must be greater than the minimum diameter"
             )
 
         if area is None:
-- 
2.43.0


From e22824cfe15987ab7c743398fac4aebd29de55b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:19 +0000
Subject: [PATCH 029/115] fix: reject N(D) arguments that are not pairs

---
 cratermaker/components/production/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 850abd7..192a2c8 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -660,6 +660,8 @@ class Production(ComponentBase):
         if N_D is not None:
             if time_start is not None:
                 raise ValueError("Cannot provide both N_D and time_start")
+            if len(N_D) != 2:
+                raise ValueError("The 'N_D' must be a pair of values in the form (D, N)")
             time_start = self.age_from_D_N(
                 diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] / self.N_conversion_factor
             )
@@ -667,6 +669,8 @@ class Production(ComponentBase):
         if N_D_end is not None:
             if time_end is not None:
                 raise ValueError("Cannot provide both N_D_end and time_end")
+            if len(N_D_end) != 2:
+                raise ValueError("The 'N_D_end' must be a pair of values in the form (D, N)")
             time_end = self.age_from_D_N(
                 diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] / self.N_conversion_factor
             )
-- 
2.43.0


From bbb58294abbf1f5fec5292cd7d0817203a91618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:23 +0000
Subject: [PATCH 030/115] fix: keep the drawn time of a quasi-Monte Carlo
 crater from falling in the future

---
 cratermaker/components/production/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 192a2c8..c2e2bdf 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1026,7 +1026,7 @@ class Production(ComponentBase):
                     t = self.rng.normal(loc=tmean, scale=tsig) if tsig > 0 else tmean
                 if isinstance(t, np.ndarray):
                     t = t.item()
-                max(t, 0.0)
+                t = max(t, 0.0)
                 return float(t)
             else:
                 return None
-- 
2.43.0


From d4b2a640c59cbc03a0309406280887667127ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:23 +0000
Subject: [PATCH 031/115] fix: read the production N(D) of quasi-Monte Carlo
 craters in the units of the production function

---
 cratermaker/components/production/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index c2e2bdf..72fcd5a 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -75,12 +75,12 @@ class Production(ComponentBase):
         if quasimc_file is not None and quasimc_craters is not None:
             raise ValueError("Cannot provide both quasimc_file and quasimc_craters")
 
+        self.N_conversion_factor = N_conversion_factor
+        self.D_conversion_factor = D_conversion_factor
         if quasimc_file is not None:
             self.quasimc_file = quasimc_file
         if quasimc_craters is not None:
             self.quasimc_craters += quasimc_craters
-        self.N_conversion_factor = N_conversion_factor
-        self.D_conversion_factor = D_conversion_factor
 
     def __str__(self) -> str:
         str_repr = super().__str__()
@@ -999,7 +999,7 @@ class Production(ComponentBase):
             elif crater.production_ND is not None and crater.production_ND != [None, None, None]:
                 # N(D) values take precedence over time values
                 prod_diam, nmean, nsig = crater.production_ND
-                prod_diam *= 1e3
+                prod_diam *= self.D_conversion_factor
                 nmean /= self.N_conversion_factor
                 nsig /= self.N_conversion_factor
                 # Convert from N(prod_diam) to N(1) for alignment
@@ -1083,7 +1083,7 @@ class Production(ComponentBase):
                     crater = valid_craters[i]
                     if crater.production_ND is not None and crater.production_ND != [None, None, None]:
                         prod_diam, nmean, nstdev = crater.production_ND
-                        prod_diam *= 1e3
+                        prod_diam *= self.D_conversion_factor
                         nmean /= self.N_conversion_factor
                         nstdev /= self.N_conversion_factor
                         # Convert from N(prod_diam) to N(1) for alignment
-- 
2.43.0


From 4da07cf1d91a51d2c511141b7f5251a9c9b1f3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:23 +0000
Subject: [PATCH 032/115] fix: accept a quasi-Monte Carlo sequence that forms
 at the present

---
 cratermaker/components/production/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 72fcd5a..4802f1c 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -971,13 +971,13 @@ class Production(ComponentBase):
                 seq_nlo = max(seq_nlo, 0.0)
                 seq_nmean = (seq_nlo + seq_nhi) / 2
                 seq_nsig = (seq_nhi - seq_nlo) / 2
-                if seq_nsig / seq_nmean < 1e-12:  # Prevents an error when the bounds are too tight
+                if seq_nsig <= 1e-12 * seq_nmean:  # Prevents an error when the bounds are too tight
                     seq_nsig = 0.0
                 seq_tlo = self.age_from_D_N(diameter=_DSTD, cumulative_number_density=seq_nlo)
                 seq_thi = self.age_from_D_N(diameter=_DSTD, cumulative_number_density=seq_nhi)
                 seq_tmean = (seq_tlo + seq_thi) / 2
                 seq_tsig = (seq_thi - seq_tlo) / 2
-                if seq_tsig / seq_tmean < 1e-12:  # Prevents an error when the bounds are too tight
+                if seq_tsig <= 1e-12 * seq_tmean:  # Prevents an error when the bounds are too tight
                     seq_tsig = 0.0
             else:
                 s = None
-- 
2.43.0


From b10caa77eca07b67a39a8390ffb88724e46ca691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:23 +0000
Subject: [PATCH 033/115] fix: emplace quasi-Monte Carlo craters that form at
 the present

---
 cratermaker/components/production/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 4802f1c..9c0750e 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -922,7 +922,8 @@ class Production(ComponentBase):
             rnglist.sort(key=lambda c: c.diameter, reverse=False)
 
         if self.quasimc_craters is not None:
-            qmclist = [c for c in self.quasimc_craters if c.time <= time_start and c.time > time_end]
+            # Spans include their start and not their end, except for the one that ends at the present
+            qmclist = [c for c in self.quasimc_craters if c.time <= time_start and (c.time > time_end or c.time == time_end == 0)]
             qmclist.sort(key=lambda c: c.diameter, reverse=False)
         else:
             return rnglist
-- 
2.43.0


From 7c17b4f6e1ef3580a3742d2f59a24a06fecf65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:23 +0000
Subject: [PATCH 034/115] fix: look for quasi-Monte Carlo craters every time
 unless told otherwise

---
 cratermaker/core/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index cf34545..0943737 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1864,7 +1864,7 @@ class Simulation(CratermakerBase):
             True if quasi-Monte Carlo sampling is being used, False otherwise.
         """
         if self._do_quasimc is None:
-            self._do_quasimc = (
+            return (
                 len(self.production.quasimc_craters) > 0
                 if self.production is not None and self.production.quasimc_craters is not None
                 else False
@@ -1873,7 +1873,7 @@ class Simulation(CratermakerBase):
 
     @do_quasimc.setter
     def do_quasimc(self, value: bool | None):
-        if not isinstance(value, (bool, None)):
+        if not isinstance(value, (bool, type(None))):
             raise TypeError("do_quasimc must be a boolean value or None")
         self._do_quasimc = value
 
-- 
2.43.0


From 81ad6eb836d95abf2c87b7dc843357aec2448cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:27 +0000
Subject: [PATCH 035/115] fix: keep track of the parameters that a component
 sets before the base class, so that they are saved in the configuration

---
 cratermaker/core/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 2b561b7..3351cc3 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -68,7 +68,8 @@ class CratermakerBase:
         ask_overwrite: bool | None = None,
         **kwargs,
     ):
-        object.__setattr__(self, "_user_defined", set())
+        if "_user_defined" not in self.__dict__:
+            object.__setattr__(self, "_user_defined", set())
         object.__setattr__(self, "_rng", None)
         object.__setattr__(self, "_rng_seed", None)
         object.__setattr__(self, "_rng_state", None)
-- 
2.43.0


From 517a920becac7fd1b1cbff681ae1490320c219b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:04 +0000
Subject: [PATCH 036/115] fix: save the coefficient and the slope of a power
 law production function in the configuration

---
 cratermaker/components/production/powerlaw.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 366a646..cc5d770 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -7,6 +7,7 @@ from numpy.typing import ArrayLike, NDArray
 
 from cratermaker.components.production import Production
 from cratermaker.constants import FloatLike
+from cratermaker.utils.general_utils import parameter
 
 
 @Production.register("powerlaw")
@@ -194,7 +195,7 @@ class PowerLawProduction(Production):
         """
         return self.N1_coef * diameter**self.slope
 
-    @property
+    @parameter
     def N1_coef(self):
         """The N1 coefficient of the power law production function."""
         return self._N1_coef
@@ -207,7 +208,7 @@ class PowerLawProduction(Production):
             raise ValueError("N1_coef must be positive")
         self._N1_coef = value
 
-    @property
+    @parameter
     def slope(self):
         """The slope of the power law production function."""
         return self._slope
-- 
2.43.0


From d284882ffc6988b06c5c903f8e9669cf656ee764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:04 +0000
Subject: [PATCH 037/115] fix: accept quasi-Monte Carlo craters when a power
 law production function is made

---
 cratermaker/components/production/__init__.py | 2 +-
 cratermaker/components/production/powerlaw.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 9c0750e..81232dd 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -25,6 +25,7 @@ class Production(ComponentBase):
     """
 
     _registry: dict[str, Production] = {}
+    _valid_generator_types = ["crater", "projectile"]
 
     def __init__(
         self,
@@ -63,7 +64,6 @@ class Production(ComponentBase):
             |kwargs|
         """
         super().__init__(rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
-        object.__setattr__(self, "_valid_generator_types", ["crater", "projectile"])
         object.__setattr__(self, "_quasimc_file", None)
         object.__setattr__(self, "_quasimc_craters", [])
         object.__setattr__(self, "_N_conversion_factor", None)
diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index cc5d770..801e7e9 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -51,7 +51,6 @@ class PowerLawProduction(Production):
         **kwargs : Any
             |kwargs|
         """
-        super().__init__(rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
         self.generator_type = generator_type
 
         # Default values that are approximately equal to the NPF for the Moon
@@ -79,6 +78,9 @@ class PowerLawProduction(Production):
             slope *= -1
         self.slope = slope
 
+        # The production function must be defined before the times of any quasi-Monte Carlo craters can be drawn
+        super().__init__(rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
+
     def __str__(self) -> str:
         str_repr = super().__str__()
         str_repr += "N1 Coefficient: {self.N1_coef:.2e}\n"
-- 
2.43.0


From 0290024605d7b8011ae844425dc75f03917d9e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:43 +0000
Subject: [PATCH 038/115] fix: place the high resolution region at the south
 pole when it is asked for there

---
 cratermaker/components/surface/hireslocal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index d49a930..38a2076 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -548,6 +548,8 @@ class HiResLocalSurface(Surface):
         axis_norm = np.linalg.norm(axis)
 
         if axis_norm < 1e-10:
+            if target[2] < 0:  # The south pole
+                return points * np.array([1.0, -1.0, -1.0])
             return points
 
         axis /= axis_norm
-- 
2.43.0


From 9e1473de6d3ebf1b665a51f9331550e118d3acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:43 +0000
Subject: [PATCH 039/115] fix: bin faces whose areas are equal or a power of
 two apart

---
 cratermaker/components/surface/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 6ef1cae..96bafd6 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1627,7 +1627,7 @@ class Surface(ComponentBase):
         """
         min_area = self.face_area.min()
         max_area = self.face_area.max()
-        max_bin_index = np.ceil(np.log2(max_area / min_area)).astype(int)
+        max_bin_index = np.floor(np.log2(max_area / min_area)).astype(int) + 1
         bins = [[] for _ in range(max_bin_index)]
 
         for face_index, area in enumerate(self.face_area):
-- 
2.43.0


From d2d929845954d30372d4b48d7283300596113b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:43 +0000
Subject: [PATCH 040/115] fix: include the whole region in the longitude and
 latitude extents of a region

---
 cratermaker/components/surface/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 96bafd6..eae1095 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1417,8 +1417,7 @@ class Surface(ComponentBase):
         if abs(lat0) + alpha_deg >= 90.0:
             lon_min, lon_max = -180.0, 180.0
         else:
-            half_lon_span = alpha_deg / np.cos(np.radians(lat0))
-            half_lon_span = min(half_lon_span, 180.0)
+            half_lon_span = np.degrees(np.arcsin(np.sin(np.radians(alpha_deg)) / np.cos(np.radians(lat0))))
 
             lon_min = lon0 - half_lon_span
             lon_max = lon0 + half_lon_span
@@ -4014,7 +4013,7 @@ class LocalSurface(CratermakerBase):
         if self.is_global:
             raise ValueError("Cannot get the location extents of a global region.")
 
-        return self.surface.get_location_extents(self.location, self.radius)
+        return self.surface.get_location_extents(self.location, self.region_radius)
 
     @property
     def surface(self) -> Surface:
-- 
2.43.0


From 904956e71a27941406ffcc4ef58732d1ca39b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:38 +0000
Subject: [PATCH 041/115] fix: include the nodes of the buffer faces in a
 region of a region like in a region of the surface

---
 cratermaker/components/surface/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index eae1095..28cbc8b 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2682,6 +2682,10 @@ class LocalSurface(CratermakerBase):
             edge_faces = edge_faces[edge_faces != INT_FILL_VALUE]
             face_indices = np.unique(np.concatenate((face_indices, neighbor_faces, node_faces, edge_faces)))
 
+            # Add in all nodes that are attached to these buffer faces
+            node_indices = np.unique(self.surface.face_node_connectivity[face_indices].ravel())
+            node_indices = node_indices[node_indices != INT_FILL_VALUE]
+
         else:
             face_indices = self.face_indices
             edge_indices = self.edge_indices
-- 
2.43.0


From dd6247c93628d837804bab3a8421baede8573f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:55 +0000
Subject: [PATCH 042/115] fix: compute_slope passed the kernel an argument it
 does not take

---
 cratermaker/components/surface/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 28cbc8b..cceba72 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2412,10 +2412,7 @@ class LocalSurface(CratermakerBase):
         NDArray[np.float64]
             The slope of all faces in degrees.
         """
-        slope = surface_bindings.compute_slope(
-            face_elevation=self.face_elevation,
-            region=self,
-        )
+        slope = surface_bindings.compute_slope(region=self)
 
         return np.rad2deg(np.arctan(slope))
 
-- 
2.43.0


From c97fd98260a62a323b751c1597fd6c1cfd1cd6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:56 +0000
Subject: [PATCH 043/115] fix: add_data wrote face values into node variables
 and node values into face variables

---
 cratermaker/components/surface/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index cceba72..4cb1f1d 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2173,7 +2173,10 @@ class LocalSurface(CratermakerBase):
         else:
             raise ValueError("data must be a scalar or an array with the same size as the number of faces or nodes in the grid")
 
-        if name not in self.surface.uxds.data_vars:
+        if name in self.surface.uxds.data_vars:
+            if ("n_face" if isfacedata else "n_node") not in self.surface.uxds[name].dims:
+                raise ValueError(f"{name} is not stored on the {'faces' if isfacedata else 'nodes'} of the surface")
+        else:
             overwrite = True
             self.surface._add_new_data(
                 name, data=fill_value, long_name=long_name, units=units, isfacedata=isfacedata, dtype=dtype, **kwargs
-- 
2.43.0


From 9d557f87740bdf688bd84edfefbd3adf58eb1be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:56 +0000
Subject: [PATCH 044/115] fix: computing the reference surface of a region
 given as a slice overwrote the elevation of the surface

---
 cratermaker/components/surface/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 4cb1f1d..708de98 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2611,7 +2611,7 @@ class LocalSurface(CratermakerBase):
         faces_within_region = self.face_distance <= reference_radius
         if only_faces:
             points_within_region = faces_within_region
-            elevation = self.face_elevation
+            elevation = np.array(self.face_elevation)
             n_reference = np.sum(faces_within_region)
         else:
             elevation = np.concatenate([self.face_elevation, self.node_elevation])
-- 
2.43.0


From 6ab8028d1b8cd82a90e4d740a8df10ff9e4c33a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:56 +0000
Subject: [PATCH 045/115] fix: levelled elevations of a region were never
 updated when the surface changed

---
 cratermaker/components/surface/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 708de98..7559fcb 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -4535,7 +4535,7 @@ class LocalSurface(CratermakerBase):
 
     def compute_desloped_face_elevation(self):
         """Compute the face elevations with the mean slope of the region removed."""
-        if self.is_local and self._desloped_face_elevation is None:
+        if self.is_local:
             reference_elevation = self.get_reference_surface(only_faces=True)
             self._desloped_face_elevation = self.uxds.face_elevation.data - reference_elevation
         return
-- 
2.43.0


From ad8758ee346bb8873db547f25cc6ec60a1eac0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:30 +0000
Subject: [PATCH 046/115] fix: tagging faces whose layers are all full replaced
 a tag without the warning

---
 cratermaker/components/surface/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 7559fcb..c62b76f 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2310,10 +2310,11 @@ class LocalSurface(CratermakerBase):
                 if np.all(self.uxds[name].data[:, i] == 0):
                     insert_layer = i
                     break
-            if insert_layer == -1:  # If at first we don't succed, try sorting the tags and try again.
+            if insert_layer != -1:
+                break
+            else:  # If at first we don't succed, try sorting the tags and try again.
                 if attempt == 0:
                     self.sort_tags(name)
-                    break
                 else:
                     # TODO: Implement an option to expand the number of layers if all layers are full
                     warnings.warn(f"All {name} layers are full. Overwriting the first layer.", stacklevel=2)
-- 
2.43.0


From ab4c80512cc97c91573878b9578fd4ef5bed125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:30 +0000
Subject: [PATCH 047/115] fix: remove_tag of a surface passed on arguments its
 regions refuse

---
 cratermaker/components/surface/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index c62b76f..06dc560 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2326,7 +2326,7 @@ class LocalSurface(CratermakerBase):
 
         return
 
-    def remove_tag(self, name: str, tag: int) -> None:
+    def remove_tag(self, name: str, tag: int, **kwargs: Any) -> None:
         """
         Removes an integer tag from the local surface.
 
@@ -2334,6 +2334,8 @@ class LocalSurface(CratermakerBase):
         ----------
         tag : int
             The integer tag to be removed.
+        **kwargs : Any
+            |kwargs|
         """
         if name not in self.uxds:
             raise ValueError(f"Tag {name} does not exist on the surface")
-- 
2.43.0


From d6abd9e751184fb76019833c8959b3602deb3de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:52 +0000
Subject: [PATCH 048/115] fix: the N(D) arguments of a run could not be arrays

---
 cratermaker/core/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 0943737..a74f240 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -370,11 +370,11 @@ class Simulation(CratermakerBase):
         elif N_D is not None:
             if diameter_number is not None or diameter_number_end is not None:
                 raise ValueError("Cannot specify both N_D and diameter_number")
-            if not isinstance(N_D, (list, tuple, ArrayLike)) or len(N_D) != 2:
+            if not isinstance(N_D, (list, tuple, np.ndarray)) or len(N_D) != 2:
                 raise ValueError("N_D must be a pair of values (diameter, number)")
             if N_D_end is None:
                 N_D_end = (N_D[0], 0.0)
-            elif not isinstance(N_D_end, (list, tuple, ArrayLike)) or len(N_D_end) != 2:
+            elif not isinstance(N_D_end, (list, tuple, np.ndarray)) or len(N_D_end) != 2:
                 raise ValueError("N_D_end must be a pair of values (diameter, number)")
 
             diameter_number = (
-- 
2.43.0


From 5692dd626e78439573cb74983215c06a91ab1fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:52 +0000
Subject: [PATCH 049/115] fix: a run given by N(D) could not be divided into
 time intervals

---
 cratermaker/core/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index a74f240..804bf70 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -411,6 +411,7 @@ class Simulation(CratermakerBase):
         kwargs["ninterval"] = ninterval
         kwargs["time_interval"] = time_interval
         kwargs = self.production._validate_sample_args(**kwargs)
+        time_start, time_end = kwargs["time_start"], kwargs["time_end"]
 
         if is_time_interval:
             if time_interval is None:
-- 
2.43.0


From 655fd650da1df00aa62b3a38178fd80d3eb7c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:52 +0000
Subject: [PATCH 050/115] fix: a run given by a number of craters failed when
 divided into intervals

---
 cratermaker/core/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 804bf70..502c9cc 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -535,6 +535,8 @@ class Simulation(CratermakerBase):
         ninterval = arguments.pop("ninterval", None)
         is_time_interval = arguments.pop("is_time_interval", None)
         validate_inputs = kwargs.pop("validate_inputs", False)
+        kwargs.pop("diameter_number", None)
+        kwargs.pop("diameter_number_end", None)
         if ninterval == 1:
             is_time_interval = True
             time_interval = time_start - time_end
-- 
2.43.0


From dfa9181b697a77cd925fa64315a8ba1826988412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:41 +0000
Subject: [PATCH 051/115] fix: a run counted time twice or repeated part of an
 interval when intervals did not divide its span or it was continued

---
 cratermaker/core/simulation.py | 40 +++++++++++++++-------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 502c9cc..4a2749e 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -541,13 +541,6 @@ class Simulation(CratermakerBase):
             is_time_interval = True
             time_interval = time_start - time_end
 
-        if not is_time_interval:
-            diameter_number_density_start = (
-                diameter_number[0],
-                diameter_number[1] / self.surface.area,
-            )
-            time_start = self.production.age_from_D_N(*diameter_number_density_start, validate_inputs=validate_inputs)
-
         # If this is a fresh run, we need to set the value of the current time based on the requested starting condition.
         if self._time is None:
             self.time = time_start
@@ -559,7 +552,7 @@ class Simulation(CratermakerBase):
                 "Starting time cannot be later than the current time. Choose a starting time value equal to or larger than the current time, or reset this simulation."
             )
         if is_time_interval:
-            initial_interval = int((time_start - self.time) / time_interval)
+            initial_interval = int((time_start - self.time) / time_interval + 1e-6)
         else:
             delta_n1_start = self.production.function(
                 diameter=_DSTD,
@@ -576,7 +569,7 @@ class Simulation(CratermakerBase):
                 ).item()
                 / ninterval
             )
-            initial_interval = int(delta_n1_start / n1_interval)
+            initial_interval = int(delta_n1_start / n1_interval + 1e-6)
 
         if self.is_new:
             self.save(**kwargs)
@@ -591,7 +584,7 @@ class Simulation(CratermakerBase):
             for i in range(initial_interval, ninterval):
                 self.counting._emplaced = []
                 if is_time_interval:
-                    time = time_start - i * time_interval
+                    time = self.time
                     current_time_end = time_start - (i + 1) * time_interval
                     if current_time_end < time_end:
                         current_time_end = time_end
@@ -600,10 +593,17 @@ class Simulation(CratermakerBase):
                     pbar.set_description(f"Current: {time_str} bp; Elapsed: {elapsed_str}")
                     self.populate(time_start=time, time_end=current_time_end, **kwargs)
                 else:
-                    current_diameter_number = (
-                        diameter_number[0],
-                        diameter_number[1] - i * diameter_number_interval[1],
-                    )
+                    time = self.time
+                    if i == initial_interval:  # The run may have been continued from inside of this interval
+                        current_diameter_number = (
+                            diameter_number[0],
+                            self.production.function(
+                                diameter=diameter_number[0], time_start=time, validate_inputs=validate_inputs
+                            ).item()
+                            * self.surface.area,
+                        )
+                    else:
+                        current_diameter_number = current_diameter_number_end
                     current_diameter_number_end = (
                         diameter_number[0],
                         diameter_number[1] - (i + 1) * diameter_number_interval[1],
@@ -613,12 +613,9 @@ class Simulation(CratermakerBase):
                         diameter_number_end=current_diameter_number_end,
                         **kwargs,
                     )
-                    current_diameter_number_density = (
-                        current_diameter_number[0],
-                        current_diameter_number[1] / self.surface.area,
-                    )
-                    time = self.production.age_from_D_N(*current_diameter_number_density, validate_inputs=validate_inputs)
-                    if current_diameter_number_end[1] > 0:
+                    if i == ninterval - 1:
+                        current_time_end = time_end
+                    elif current_diameter_number_end[1] > 0:
                         current_diameter_number_density_end = (
                             current_diameter_number_end[0],
                             current_diameter_number_end[1] / self.surface.area,
@@ -632,8 +629,7 @@ class Simulation(CratermakerBase):
                         current_time_end = 0.0
                     if current_time_end < 0.0:
                         current_time_end = 0.0
-                    time_interval = time - current_time_end
-                self.elapsed_time += time_interval
+                self.elapsed_time += time - current_time_end
                 self.elapsed_n1 += (
                     self.production.function(
                         diameter=_DSTD,
-- 
2.43.0


From b83da230f0abdb777e20a9683d5699eb947de5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:10 +0000
Subject: [PATCH 052/115] fix: rounding added an interval of no length at the
 end of a run

---
 cratermaker/core/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 4a2749e..728bac9 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -423,7 +423,7 @@ class Simulation(CratermakerBase):
                     raise ValueError("time_interval must be less than age or time_start - time_end")
                 elif time_interval <= 0:
                     raise ValueError("time_interval must be greater than zero")
-                ninterval = int(np.ceil((time_start - time_end) / time_interval))
+                ninterval = max(int(np.ceil((time_start - time_end) / time_interval - 1e-6)), 1)
 
             kwargs["time_interval"] = time_interval
             kwargs["ninterval"] = ninterval
@@ -586,7 +586,7 @@ class Simulation(CratermakerBase):
                 if is_time_interval:
                     time = self.time
                     current_time_end = time_start - (i + 1) * time_interval
-                    if current_time_end < time_end:
+                    if current_time_end < time_end or i == ninterval - 1:
                         current_time_end = time_end
                     time_str = format_large_units(time, quantity="time")
                     elapsed_str = format_large_units(self.elapsed_time, quantity="time")
-- 
2.43.0


From d7cb67a3bc8dca2077b107d6642db0824c1ab973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:10 +0000
Subject: [PATCH 053/115] fix: a run of no length failed with a division by
 zero after it had set the clock

---
 cratermaker/core/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 728bac9..3b4aa0d 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -537,6 +537,8 @@ class Simulation(CratermakerBase):
         validate_inputs = kwargs.pop("validate_inputs", False)
         kwargs.pop("diameter_number", None)
         kwargs.pop("diameter_number_end", None)
+        if not time_start > time_end:
+            raise ValueError("The start of the run must be earlier than its end")
         if ninterval == 1:
             is_time_interval = True
             time_interval = time_start - time_end
-- 
2.43.0


From 71a79a88ef2ae2d8acfd72caf9e95ce9a1d6ebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:10 +0000
Subject: [PATCH 054/115] fix: N_D_end was ignored in a run given by times

---
 cratermaker/core/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 3b4aa0d..ffa938f 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -359,6 +359,8 @@ class Simulation(CratermakerBase):
                 raise ValueError("Cannot specify both time_start and diameter_number")
             if N_D is not None:
                 raise ValueError("Cannot specify both time_start and N_D")
+            if N_D_end is not None:
+                raise ValueError("Cannot specify both time_start and N_D_end")
             if not np.isscalar(time_start):
                 raise ValueError("time_start must be a scalar value")
             if not np.isscalar(time_end):
-- 
2.43.0


From 1097c6350348b26d96d98c43d44e7ad22230e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:23 +0000
Subject: [PATCH 055/115] fix: rounding made the end of a run divided into
 equal numbers negative

---
 cratermaker/core/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index ffa938f..62ea363 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -533,6 +533,7 @@ class Simulation(CratermakerBase):
         time_end = arguments.pop("time_end", None)
         time_interval = arguments.pop("time_interval", None)
         diameter_number = arguments.pop("diameter_number", None)
+        diameter_number_end = arguments.pop("diameter_number_end", None)
         diameter_number_interval = arguments.pop("diameter_number_interval", None)
         ninterval = arguments.pop("ninterval", None)
         is_time_interval = arguments.pop("is_time_interval", None)
@@ -612,6 +613,8 @@ class Simulation(CratermakerBase):
                         diameter_number[0],
                         diameter_number[1] - (i + 1) * diameter_number_interval[1],
                     )
+                    if i == ninterval - 1:  # The end is exact, so that rounding cannot make it negative
+                        current_diameter_number_end = diameter_number_end
                     self.populate(
                         diameter_number=current_diameter_number,
                         diameter_number_end=current_diameter_number_end,
-- 
2.43.0


From 92675a8d6f59dba46916520fb82c4f6530e79042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:23 +0000
Subject: [PATCH 056/115] fix: repeating a finished run added an interval of no
 length

---
 cratermaker/core/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 62ea363..c7fc13d 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -575,6 +575,8 @@ class Simulation(CratermakerBase):
                 / ninterval
             )
             initial_interval = int(delta_n1_start / n1_interval + 1e-6)
+        if self.time <= time_end:  # There is nothing left to run
+            initial_interval = ninterval
 
         if self.is_new:
             self.save(**kwargs)
-- 
2.43.0


From e077bffd384e229ce9b6bf7b55ea4ca184ec2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:09 +0000
Subject: [PATCH 057/115] fix: other files in the output directory stopped the
 saved data from being found

---
 cratermaker/core/base.py | 45 +++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 3351cc3..5df4ed5 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -210,6 +210,29 @@ class CratermakerBase:
         """
         pass
 
+    def _saved_data_files(self, pattern: str) -> list[tuple[int | None, Path]]:
+        """
+        Find the data files in the output directory that were saved under one of the output file patterns.
+
+        Parameters
+        ----------
+        pattern : str
+            One of the entries of output_file_pattern. A "*" stands for the interval number.
+
+        Returns
+        -------
+        list[tuple[int | None, Path]]
+            The interval number (or None if the pattern does not include one) and the path of each file, in order of the interval number. Any other files that happen to be in the output directory are ignored.
+        """
+        prefix, has_interval, suffix = pattern.partition("*")
+        regex = re.compile(re.escape(prefix) + (r"([0-9]+)" if has_interval else "()") + re.escape(suffix))
+        data_files = []
+        for data_file in Path(self.output_dir).glob(pattern):
+            match = regex.fullmatch(data_file.name)
+            if match:
+                data_files.append((int(match[1]) if has_interval else None, data_file))
+        return sorted(data_files, key=lambda entry: (entry[0] or 0, entry[1]))
+
     def get_saved_interval_numbers(self) -> tuple(list[int], ...) | None:
         """
         Retrieved one or more lists of saved interval numbers that match the output file pattern(s).
@@ -223,23 +246,12 @@ class CratermakerBase:
             return None
         output_lists = []
         for pattern in self._output_file_pattern:
-            data_file_list = list(Path(self.output_dir).glob(pattern))
-            if len(data_file_list) == 0:
+            data_files = self._saved_data_files(pattern)
+            if len(data_files) == 0:
                 output_lists.append(None)
                 continue
-            interval_numbers = []
-            if len(data_file_list) > 1:
-                for data_file in data_file_list:
-                    n = data_file.name.split(self.output_file_prefix)[-1].split(f".{self.output_file_extension}")[0]
-                    interval_numbers.append(int(n))
-            else:  # handle the special case where the output file pattern does not include an interval number (e.g. "grid.nc")
-                n = re.findall(r"\d+", data_file_list[0].name)
-                if n:
-                    interval_numbers.append(int(n[-1]))
-            if len(interval_numbers) > 1:
-                output_lists.append(sorted(interval_numbers))
-            else:
-                output_lists.append(interval_numbers)
+            # Patterns that do not include an interval number (e.g. "grid.nc") have an empty list
+            output_lists.append([interval for interval, _ in data_files if interval is not None])
 
         if len(self.output_file_pattern) == 1:
             return (output_lists[0],)
@@ -268,12 +280,11 @@ class CratermakerBase:
         all_interval_numbers = self.get_saved_interval_numbers()
 
         for pattern, interval_numbers in zip(self._output_file_pattern, all_interval_numbers, strict=True):
-            data_file_list = list(Path(self.output_dir).glob(pattern))
+            data_file_list = [data_file for _, data_file in self._saved_data_files(pattern)]
 
             if len(data_file_list) == 0:
                 output_ds.append(None)
                 continue
-            data_file_list = sorted(data_file_list)
 
             # map the requested interval to the index of interval_numbers
             if interval is not None and len(interval_numbers) > 0:
-- 
2.43.0


From b84380fe8bbd992de9a012aa09e1bede80dbe1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:09 +0000
Subject: [PATCH 058/115] fix: time variables of a loaded interval became part
 of the surface data

---
 cratermaker/components/surface/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 06dc560..a656922 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1100,6 +1100,8 @@ class Surface(ComponentBase):
         uxds = self.read_saved_output(interval=interval, reset=reset, **kwargs)
         if "interval" in uxds.dims:
             uxds = uxds.isel(interval=-1)
+        # The time variables that were saved along with the data belong to the saved interval and not to the surface itself
+        uxds = uxds.drop_vars([v for v in uxds.data_vars if not {"n_face", "n_node", "n_edge"} & set(uxds[v].dims)])
         object.__setattr__(self, "_uxds", uxds)
 
         if reset:
-- 
2.43.0


From 6e400319b8484479c1b37bb0c50b1d16ff93e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:27 +0000
Subject: [PATCH 059/115] fix: files were removed before the user had agreed to
 remove all of them

---
 cratermaker/core/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 5df4ed5..50a97bb 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -475,8 +475,10 @@ class CratermakerBase:
         ask_overwrite = self.ask_overwrite  # This will allow us to temporarily disable prompts about overwriting files for this operation if the user selects 'a' to suppress prompts about overwriting files, without changing the value of self.ask_overwrite for future operations.
         if not isinstance(files_to_remove, list):
             files_to_remove = [files_to_remove]
+        files_to_remove = [Path(file) for file in files_to_remove]
+
+        # Get the user's consent for all of the files before any of them is removed
         for file in files_to_remove:
-            file = Path(file)
             if file.exists() and ask_overwrite:
                 response = input(
                     f"File '{str(file)}' already exists. To disable this message, set ask_overwrite=False to this instance. Overwrite? (y/N/a): "
@@ -486,6 +488,8 @@ class CratermakerBase:
                 elif response.lower() != "y":
                     print("Operation cancelled by user.")
                     return False
+
+        for file in files_to_remove:
             try:
                 if file.is_dir():
                     shutil.rmtree(file)
-- 
2.43.0


From 5cc36a85c16a658b38354b053912f23037795fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:27 +0000
Subject: [PATCH 060/115] fix: a reset that the user refused went on regardless

---
 cratermaker/components/counting/__init__.py  | 12 +++++--
 cratermaker/components/surface/__init__.py   | 37 +++++++++++++-------
 cratermaker/components/surface/hireslocal.py | 23 +++++-------
 cratermaker/core/base.py                     | 10 ++++--
 4 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index a8b9e86..79a53e3 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -148,7 +148,7 @@ class Counting(ComponentBase):
         str_repr += f"Surface: <{self.surface.component_name}>\n"
         return str_repr
 
-    def reset(self, **kwargs: Any) -> None:
+    def reset(self, **kwargs: Any) -> bool:
         """
         Remove all craters count records from the surface and delete any output files.
 
@@ -156,13 +156,19 @@ class Counting(ComponentBase):
         ----------
         **kwargs : Any
             |kwargs|
+
+        Returns
+        -------
+        bool
+            True if the counts were reset, or False if the user cancelled the operation.
         """
+        if not super().reset(**kwargs):
+            return False
         self.surface.add_tag(name="crater_id", long_name=_TALLY_LONG_NAME, tag=None, n_layer=self.n_layer)
         self._emplaced = []
         self._observed = {}
 
-        super().reset(**kwargs)
-        return
+        return True
 
     def add(self, crater: MorphologyCrater, **kwargs: Any) -> MorphologyCrater:
         """
diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index a656922..44452db 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -217,7 +217,7 @@ class Surface(ComponentBase):
         """
         return self._full().saved_output_files(**kwargs)
 
-    def reset(self, **kwargs: Any) -> None:
+    def reset(self, **kwargs: Any) -> bool:
         """
         Reset the surface to its initial state.
 
@@ -225,8 +225,14 @@ class Surface(ComponentBase):
         ----------
         **kwargs : Any
             |kwargs|
+
+        Returns
+        -------
+        bool
+            True if the surface was reset, or False if the user cancelled the operation.
         """
-        super().reset(**kwargs)
+        if not super().reset(**kwargs):
+            return False
 
         # Remove all old data from the dataset
         varlist = list(self.uxds.data_vars)
@@ -244,7 +250,7 @@ class Surface(ComponentBase):
             )
         self.is_new = True
 
-        return
+        return True
 
     def extract_region(
         self,
@@ -1092,10 +1098,6 @@ class Surface(ComponentBase):
         regrid = self._regrid_if_needed(regrid=regrid, **kwargs)
         reset = reset or regrid
         self.is_new = reset
-        ask_overwrite = self.ask_overwrite  # Store this in case of regridding. If regridding, we need it to be False for the reset
-        if regrid:
-            self.ask_overwrite = False
-
         # Read in only the last saved data file
         uxds = self.read_saved_output(interval=interval, reset=reset, **kwargs)
         if "interval" in uxds.dims:
@@ -1105,9 +1107,14 @@ class Surface(ComponentBase):
         object.__setattr__(self, "_uxds", uxds)
 
         if reset:
-            self.reset(**kwargs)
-
-        self.ask_overwrite = ask_overwrite  # Restore in case we had to set it to False for the reset during regridding
+            ask_overwrite = self.ask_overwrite  # The data of another grid is of no use, so don't ask about it when regridding
+            self.ask_overwrite = ask_overwrite and not regrid
+            try:
+                is_reset = self.reset(**kwargs)
+            finally:
+                self.ask_overwrite = ask_overwrite
+            if not is_reset:
+                raise RuntimeError("User aborted the reset operation.")
 
         return
 
@@ -4369,9 +4376,13 @@ class LocalSurface(CratermakerBase):
                 return uxr.UxDataset(uxgrid=self.uxgrid)
 
         if reset:
-            interval = 0
-            filename = self.output_dir / self.output_filename(interval)
-            filename.unlink(missing_ok=True)
+            # None of the saved data is needed
+            grid_file = self.output_dir / f"{self._grid_file_prefix}.{self._output_file_extension}"
+            if not grid_file.exists():
+                raise ValueError("No grid file found.")
+            with xr.open_dataset(grid_file) as grid:
+                grid.load()
+            return uxr.UxDataset(uxgrid=uxr.Grid.from_dataset(grid))
         files = super().read_saved_output(interval=interval, **kwargs)
         if isinstance(files, tuple):
             ds, grid = files
diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index 38a2076..adca07a 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -105,19 +105,19 @@ class HiResLocalSurface(Surface):
         )
         return str_repr
 
-    def reset(
-        self,
-        **kwargs: Any,
-    ) -> None:
+    def saved_output_files(self, **kwargs: Any) -> list[Path]:
         """
-        Resets the surface by removing all saved output files (except for the grid).
+        Check if the component has any output files in its output directory, including those of the local surface.
 
-        This will also reset the local surface.
+        Returns
+        -------
+        list[Path]
+            A list of Path objects representing the files that would be removed during a reset operation. Returns an empty list if no files found
         """
-        super().reset(**kwargs)
+        output_files = super().saved_output_files(**kwargs)
         if self._local is not None:
-            self._local.reset(**kwargs)
-        return
+            output_files += [f for f in self._local.saved_output_files(**kwargs) if f not in output_files]
+        return output_files
 
     def superdomain_function(self, r):
         """
@@ -651,7 +651,6 @@ class HiResLocalSurface(Surface):
 
     def _load_from_files(self, reset: bool = False, **kwargs: Any):
         is_same_grid = self._is_same_grid
-        ask_overwrite = self.ask_overwrite  # Store the current value so we can temporarily turn it off for the reset
         super()._load_from_files(reset=reset, **kwargs)
         if is_same_grid and self.local_grid_indices_file is not None and Path(self.local_grid_indices_file).exists():
             with np.load(self.local_grid_indices_file) as grid_data:
@@ -670,10 +669,6 @@ class HiResLocalSurface(Surface):
                 self._set_local_identifiers()
         else:
             _ = self.local  # triggers extraction of local surface and saving of local grid indices file
-            self.ask_overwrite = False
-        if reset:
-            self.reset(reset=reset, **kwargs)
-            self.ask_overwrite = ask_overwrite  # Restore the original value of ask_overwrite after the reset
         return
 
     def compute_location_from_distance_bearing(
diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 50a97bb..fb2131a 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -96,7 +96,7 @@ class CratermakerBase:
         self,
         files_to_remove: list[Path | str] | None = None,
         **kwargs: Any,
-    ) -> None:
+    ) -> bool:
         """
         Reset the component by removing its output files.
 
@@ -106,12 +106,18 @@ class CratermakerBase:
             If set, this is the list of files that will be removed. If not set, then the removed files will be determined using the component's output_dir and output_file_pattern attributes.
         **kwargs : Any
             |kwargs|
+
+        Returns
+        -------
+        bool
+            True if the component was reset, or False if the user cancelled the operation.
         """
         if files_to_remove is None:
             files_to_remove = self.saved_output_files()
         if files_to_remove and not self._overwrite_check(files_to_remove):
             print("Reset operation cancelled by user.")
-            return
+            return False
+        return True
 
     def to_config(self, remove_common_args: bool = False, **kwargs: Any) -> dict[str, Any]:
         """
-- 
2.43.0


From e099f123d9f32f7d93b5fa59ce9795e47e3e3a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:27 +0000
Subject: [PATCH 061/115] fix: resetting a simulation asked again for every
 file after the user had agreed

---
 cratermaker/core/simulation.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index c7fc13d..c87e0e6 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1347,28 +1347,27 @@ class Simulation(CratermakerBase):
         elif not isinstance(skip_component, list) or not all(isinstance(c, str) for c in skip_component):
             raise TypeError("skip_component must be a string or a list of strings")
 
-        ask_overwrite_original = (
-            self.ask_overwrite
-        )  # Saves the value of ask_overwrite in case the user selects 'a' for this operation
+        components = [getattr(self, component) for component in _COMPONENT_NAMES if component not in skip_component]
         if self.ask_overwrite:
             files_to_remove = []
-            for component in _COMPONENT_NAMES:
-                if component not in skip_component and hasattr(self, component):
-                    files_to_remove += getattr(self, component).saved_output_files()
+            for component in components:
+                files_to_remove += component.saved_output_files()
             if len(files_to_remove) > 0:
                 print("The following files will be deleted:")
                 for f in files_to_remove:
                     print(f"  {f}")
                 print("To disable this message, set `ask_overwrite=False` to this instance.")
                 response = input(f"Are you sure you want to delete {len(files_to_remove)} files? [y/N/a]: ")
-                if response.lower() == "a":
-                    self.ask_overwrite = False
-                elif response.lower() != "y":
+                if response.lower() not in ["y", "a"]:
                     raise RuntimeError("User aborted the reset operation.")
-        for component in _COMPONENT_NAMES:
-            if component not in skip_component and hasattr(self, component):
-                getattr(self, component).reset()
-        self.ask_overwrite = ask_overwrite_original
+        for component in components:
+            # The user has either agreed to remove all of the files, or doesn't want to be asked
+            ask_overwrite = component.ask_overwrite
+            component.ask_overwrite = False
+            try:
+                component.reset()
+            finally:
+                component.ask_overwrite = ask_overwrite
 
         self._interval = 0
         self._elapsed_time = None
-- 
2.43.0


From 068341557581f1c72a9414983eb604718a82f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:28 +0000
Subject: [PATCH 062/115] fix: exporting an earlier interval replaced its saved
 data with the current surface

---
 cratermaker/components/surface/__init__.py | 42 ++++++++++++----------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 44452db..8c25581 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2813,25 +2813,29 @@ class LocalSurface(CratermakerBase):
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
 
-        if interval is not None:
-            self.surface.save(interval=interval, **kwargs, skip_actions=True)
-        if driver.upper() in ["VTK", "VTP"]:
-            self.to_vtk_file(
-                interval=interval,
-                **kwargs,
-            )
-        elif driver.upper() in ["GEOTIFF", "GTIFF", "TIFF", "TIF"]:
-            self.to_geotiff_file(
-                interval=interval,
-                **kwargs,
-            )
-        elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP:
-            self.to_vector_file(
-                driver=driver,
-                interval=interval,
-                **kwargs,
-            )
-        self.ask_overwrite = ask_overwrite_orig
+        try:
+            # Save the current state only if this interval has not been saved yet
+            saved_intervals = self.surface.get_saved_interval_numbers()[0] or []
+            if interval is not None and interval >= 0 and interval not in saved_intervals:
+                self.surface.save(interval=interval, **kwargs, skip_actions=True)
+            if driver.upper() in ["VTK", "VTP"]:
+                self.to_vtk_file(
+                    interval=interval,
+                    **kwargs,
+                )
+            elif driver.upper() in ["GEOTIFF", "GTIFF", "TIFF", "TIF"]:
+                self.to_geotiff_file(
+                    interval=interval,
+                    **kwargs,
+                )
+            elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP:
+                self.to_vector_file(
+                    driver=driver,
+                    interval=interval,
+                    **kwargs,
+                )
+        finally:
+            self.ask_overwrite = ask_overwrite_orig
         return
 
     def to_vector_file(
-- 
2.43.0


From fe9f0dcd8ec9a3e12eddd0ebf75696a9a12b99ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:00 +0000
Subject: [PATCH 063/115] fix: GeoTIFF and region polygon exports replaced
 existing files without asking

---
 cratermaker/components/surface/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 8c25581..e1ffebe 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -3248,6 +3248,8 @@ class LocalSurface(CratermakerBase):
                 "nodata": np.nan,
             }
             print(f"Exporting to {output_filename}")
+            if not self._overwrite_check(output_filename):
+                return
             with rio.open(output_filename, "w", **profile) as dst:
                 dst.write(raster, 1)
             return
@@ -3824,6 +3826,8 @@ class LocalSurface(CratermakerBase):
             )
             gdf = gpd.GeoDataFrame(data=df, geometry=geoms, crs=self.crs)
             filename = self.export_dir / f"local_surface_AREA.{file_extension}"
+            if not self._overwrite_check(filename):
+                return
 
             if file_extension == "shp":
                 gdf.to_file(filename, driver=driver, **kwargs)
-- 
2.43.0


From eab010d057068f3820c98d42dca7e75264c02ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:00 +0000
Subject: [PATCH 064/115] fix: a failed export left the overwrite prompts
 switched on or off

---
 cratermaker/components/counting/__init__.py | 113 ++++++++++----------
 cratermaker/core/simulation.py              |  46 ++++----
 2 files changed, 81 insertions(+), 78 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 79a53e3..cddfc43 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -535,65 +535,66 @@ class Counting(ComponentBase):
         ask_overwrite_orig = self.ask_overwrite
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
-        if crater_type not in ["observed", "emplaced", "both"]:
-            raise ValueError("crater_type must be 'observed', 'emplaced', or 'both")
-
-        observed, emplaced = self.read_saved_output(interval=interval)
-        if crater_type == "both":
-            crater_types = ["observed", "emplaced"]
-            crater_ds_list = [observed, emplaced]
-        else:
-            crater_types = [crater_type]
-            if crater_type == "observed":
-                crater_ds_list = [observed]
-            elif crater_type == "emplaced":
-                crater_ds_list = [emplaced]
+        try:
+            if crater_type not in ["observed", "emplaced", "both"]:
+                raise ValueError("crater_type must be 'observed', 'emplaced', or 'both")
 
-        for crater_type, crater_ds in zip(crater_types, crater_ds_list, strict=True):
-            if isinstance(crater_ds, dict):
-                interval_numbers = list(crater_ds.keys())
-            elif isinstance(crater_ds, xr.Dataset) and "interval" in crater_ds.coords:
-                interval_numbers = crater_ds.interval.values
+            observed, emplaced = self.read_saved_output(interval=interval)
+            if crater_type == "both":
+                crater_types = ["observed", "emplaced"]
+                crater_ds_list = [observed, emplaced]
             else:
-                if interval is None:
-                    interval_numbers = [0]
+                crater_types = [crater_type]
+                if crater_type == "observed":
+                    crater_ds_list = [observed]
+                elif crater_type == "emplaced":
+                    crater_ds_list = [emplaced]
+
+            for crater_type, crater_ds in zip(crater_types, crater_ds_list, strict=True):
+                if isinstance(crater_ds, dict):
+                    interval_numbers = list(crater_ds.keys())
+                elif isinstance(crater_ds, xr.Dataset) and "interval" in crater_ds.coords:
+                    interval_numbers = crater_ds.interval.values
                 else:
-                    interval_numbers = [interval]
-            for interval in interval_numbers:
-                craters = self.Crater.from_xarray(crater_ds, interval=interval) if crater_ds is not None else []
-                if driver.upper() in ["VTK", "VTP"] and crater_ds is not None:
-                    self.to_vtk_file(
-                        craters=craters,
-                        interval=interval,
-                        crater_type=crater_type,
-                        **kwargs,
-                    )
-                elif driver.upper() == "CSV" and crater_ds is not None:
-                    self.to_csv_file(
-                        craters=craters,
-                        interval=interval,
-                        crater_type=crater_type,
-                        **kwargs,
-                    )
-                elif driver.upper() == "SCC":
-                    if crater_ds is None:
-                        crater_ds = []  # Allow for empty SCC files because they can still have the region polygon
-                    self.to_scc_file(
-                        craters=craters,
-                        interval=interval,
-                        crater_type=crater_type,
-                        **kwargs,
-                    )
-                elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP and crater_ds is not None:
-                    self.to_vector_file(
-                        craters=craters,
-                        interval=interval,
-                        crater_type=crater_type,
-                        driver=driver,
-                        **kwargs,
-                    )
-
-        self.ask_overwrite = ask_overwrite_orig
+                    if interval is None:
+                        interval_numbers = [0]
+                    else:
+                        interval_numbers = [interval]
+                for interval in interval_numbers:
+                    craters = self.Crater.from_xarray(crater_ds, interval=interval) if crater_ds is not None else []
+                    if driver.upper() in ["VTK", "VTP"] and crater_ds is not None:
+                        self.to_vtk_file(
+                            craters=craters,
+                            interval=interval,
+                            crater_type=crater_type,
+                            **kwargs,
+                        )
+                    elif driver.upper() == "CSV" and crater_ds is not None:
+                        self.to_csv_file(
+                            craters=craters,
+                            interval=interval,
+                            crater_type=crater_type,
+                            **kwargs,
+                        )
+                    elif driver.upper() == "SCC":
+                        if crater_ds is None:
+                            crater_ds = []  # Allow for empty SCC files because they can still have the region polygon
+                        self.to_scc_file(
+                            craters=craters,
+                            interval=interval,
+                            crater_type=crater_type,
+                            **kwargs,
+                        )
+                    elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP and crater_ds is not None:
+                        self.to_vector_file(
+                            craters=craters,
+                            interval=interval,
+                            crater_type=crater_type,
+                            driver=driver,
+                            **kwargs,
+                        )
+        finally:
+            self.ask_overwrite = ask_overwrite_orig
         return
 
     def plot(
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index c87e0e6..dcb78da 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -921,29 +921,31 @@ class Simulation(CratermakerBase):
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
 
-        if interval is not None and interval < 0:
-            interval = self.interval + 1 + interval
-        self.save(skip_actions=True, ask_overwrite=ask_overwrite, **kwargs)
-        if driver.lower() == "opencratertool":
-            surface_driver = "GeoTIFF"
-            counting_driver = "SCC"
-        else:
-            surface_driver = driver
-            counting_driver = driver
-        self.surface.export(
-            driver=surface_driver,
-            interval=interval,
-            ask_overwrite=ask_overwrite,
-            **kwargs,
-        )
+        try:
+            if interval is not None and interval < 0:
+                interval = self.interval + 1 + interval
+            self.save(skip_actions=True, ask_overwrite=ask_overwrite, **kwargs)
+            if driver.lower() == "opencratertool":
+                surface_driver = "GeoTIFF"
+                counting_driver = "SCC"
+            else:
+                surface_driver = driver
+                counting_driver = driver
+            self.surface.export(
+                driver=surface_driver,
+                interval=interval,
+                ask_overwrite=ask_overwrite,
+                **kwargs,
+            )
 
-        self.counting.export(
-            driver=counting_driver,
-            interval=interval,
-            ask_overwrite=ask_overwrite,
-            **kwargs,
-        )
-        self.ask_overwrite = ask_overwrite_orig
+            self.counting.export(
+                driver=counting_driver,
+                interval=interval,
+                ask_overwrite=ask_overwrite,
+                **kwargs,
+            )
+        finally:
+            self.ask_overwrite = ask_overwrite_orig
 
         return
 
-- 
2.43.0


From 8cb9750ef44cf8bb9a80aca5456ed423e62cdc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 065/115] fix: resetting a data surface did not report whether
 the user agreed

---
 cratermaker/components/surface/datasurface.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index 5f05bdf..e273661 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -373,7 +373,7 @@ class DataSurface(HiResLocalSurface):
 
         return points
 
-    def reset(self, **kwargs: Any) -> None:
+    def reset(self, **kwargs: Any) -> bool:
         """
         Reset the surface to its initial state.
 
@@ -382,8 +382,13 @@ class DataSurface(HiResLocalSurface):
         **kwargs : Any
             |kwargs|
 
+        Returns
+        -------
+        bool
+            True if the surface was reset, or False if the user cancelled the operation.
         """
-        super().reset(**kwargs)
+        if not super().reset(**kwargs):
+            return False
         if self._local_dem_data is not None:
             self._add_local_dem_elevation()
             self._add_global_dem_elevation()
@@ -392,7 +397,7 @@ class DataSurface(HiResLocalSurface):
                 elevation = np.concatenate([ds.isel(interval=0).face_elevation, ds.isel(interval=0).node_elevation])
                 self.update_elevation(elevation)
 
-        return
+        return True
 
     def _regrid_if_needed(self, regrid: bool = False, **kwargs: Any) -> bool:
         """
-- 
2.43.0


From 249da3db97dd474f4f8dfd6ef744da0b7b208087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:34 +0000
Subject: [PATCH 066/115] fix: a reset deleted files of the user that it did
 not write

---
 cratermaker/components/counting/__init__.py  |  5 +++++
 cratermaker/components/surface/hireslocal.py |  5 +++--
 cratermaker/core/base.py                     | 13 ++++++++++---
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index cddfc43..1ea7099 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -1521,6 +1521,11 @@ class Counting(ComponentBase):
             v.remove_complex_data()
         return
 
+    @property
+    def _output_image_file_pattern(self) -> str:
+        # The images are drawn on top of the surface
+        return f"*{self.surface.output_file_prefix}_{self.output_file_prefix}*.{self.surface.output_image_file_extension}"
+
     @property
     def surface(self):
         """The Surface object associated with this Counting object."""
diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index adca07a..9af9282 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -115,8 +115,9 @@ class HiResLocalSurface(Surface):
             A list of Path objects representing the files that would be removed during a reset operation. Returns an empty list if no files found
         """
         output_files = super().saved_output_files(**kwargs)
-        if self._local is not None:
-            output_files += [f for f in self._local.saved_output_files(**kwargs) if f not in output_files]
+        local_files = [f for _, f in self._saved_data_files(f"local_{self.output_file_prefix}*.{self.output_file_extension}")]
+        local_files += sorted(self.plot_dir.glob(f"local_{self._output_image_file_pattern}"))
+        output_files += [f for f in local_files if f not in output_files]
         return output_files
 
     def superdomain_function(self, r):
diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index fb2131a..84b1014 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -326,10 +326,10 @@ class CratermakerBase:
             return []
         output_file_list = []
         for pattern in self.output_file_pattern:
-            output_file_list.extend(self.output_dir.glob(pattern))
+            output_file_list.extend([data_file for _, data_file in self._saved_data_files(pattern)])
 
-        # Add surface image files to the list
-        output_file_list.extend(list(self.plot_dir.glob(f"*.{self.output_image_file_extension}")))
+        # Add the image files that were plotted by this component to the list
+        output_file_list.extend(sorted(self.plot_dir.glob(self._output_image_file_pattern)))
 
         if output_file_list:
             return output_file_list
@@ -702,6 +702,13 @@ class CratermakerBase:
         """
         self._output_image_file_extension = value
 
+    @property
+    def _output_image_file_pattern(self) -> str:
+        """
+        The pattern of the names of the image files that are plotted by this component.
+        """
+        return f"{self.output_file_prefix}_*.{self.output_image_file_extension}"
+
     @property
     def output_file_pattern(self) -> list[str]:
         """
-- 
2.43.0


From ceab69925d55481fec51035a44108fe40bbaee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:34 +0000
Subject: [PATCH 067/115] fix: saving a local region wrote its data into the
 file of the global surface

---
 cratermaker/components/surface/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index e1ffebe..885531d 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -3311,6 +3311,8 @@ class LocalSurface(CratermakerBase):
             for k, v in time_variables.items():
                 ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
 
+        if filename is None:
+            filename = self.output_filename(interval)
         self.surface._save_data(
             ds,
             interval=interval,
-- 
2.43.0


From 0b5463c4297281ec6c954f518fd7a5728602901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 068/115] fix: a crash while saving left half written files in
 place of the saved ones

---
 cratermaker/components/counting/__init__.py  |  7 ++--
 cratermaker/components/surface/__init__.py   | 44 +++++++-------------
 cratermaker/components/surface/hireslocal.py | 17 ++++----
 cratermaker/core/base.py                     | 32 ++++++++++++++
 cratermaker/core/simulation.py               |  4 +-
 5 files changed, 62 insertions(+), 42 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 1ea7099..1b75176 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -21,7 +21,7 @@ from cratermaker.bindings import counting_bindings
 from cratermaker.components.crater import _TALLY_LONG_NAME, Crater
 from cratermaker.components.morphology import Morphology, MorphologyCrater
 from cratermaker.constants import VECTOR_DRIVER_TO_EXTENSION_MAP, FloatLike
-from cratermaker.core.base import ComponentBase, import_components
+from cratermaker.core.base import ComponentBase, _replace_file, import_components
 
 DRIVER_TO_EXTENSION_MAP = {"SCC": "scc", "VTK": "vtp", "VTP": "vtp", "CSV": "csv", **VECTOR_DRIVER_TO_EXTENSION_MAP}
 
@@ -496,9 +496,8 @@ class Counting(ComponentBase):
                 if time_variables is not None:
                     for k, v in time_variables.items():
                         ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
-                if filename.exists():
-                    filename.unlink()
-                ds.to_netcdf(filename)
+                with _replace_file(filename) as temp_file:
+                    ds.to_netcdf(temp_file)
         save_args = {"interval": interval, **kwargs}
         super().save(**save_args)
         return
diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 885531d..24515d7 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1,9 +1,6 @@
 from __future__ import annotations
 
 import hashlib
-import os
-import shutil
-import tempfile
 import warnings
 from abc import abstractmethod
 from contextlib import AbstractContextManager
@@ -33,7 +30,7 @@ from vtk import vtkUnstructuredGrid
 from cratermaker.bindings import surface_bindings
 from cratermaker.components.target import Target
 from cratermaker.constants import _SMALLFAC, _VSMALL, FloatLike, PairOfFloats
-from cratermaker.core.base import ComponentBase, CratermakerBase, import_components
+from cratermaker.core.base import ComponentBase, CratermakerBase, _replace_file, import_components
 from cratermaker.utils.general_utils import format_large_units, validate_and_normalize_location
 from cratermaker.utils.montecarlo_utils import get_random_location_on_face
 
@@ -1140,9 +1137,8 @@ class Surface(ComponentBase):
         else:
             grid_file = Path(grid_file)
 
-        grid_file.unlink(missing_ok=True)
-
-        with tempfile.NamedTemporaryFile(delete=False) as temp_file:
+        # Replace the original file only if writing succeeded
+        with _replace_file(grid_file) as temp_file:
             ds = uxgrid.to_xarray()
 
             # There is some issue that is causing a mismatch between the data variables and the grid_topology attributes that is causing problems when reading the file back in under some circumstances, such as deleting the grid file and reinitializing the surface. To get around this, we will check that all of the attributes are correct before writing the file.
@@ -1159,12 +1155,7 @@ class Surface(ComponentBase):
                         del ds.grid_topology.attrs["face_coordinates"]
                         break
 
-            ds.to_netcdf(temp_file.name)
-            temp_file.flush()
-            os.fsync(temp_file.fileno())
-
-        # Replace the original file only if writing succeeded
-        shutil.move(temp_file.name, grid_file)
+            ds.to_netcdf(temp_file)
 
         return
 
@@ -1273,23 +1264,20 @@ class Surface(ComponentBase):
             filename = self.output_filename(interval)
         else:
             filename = Path(filename)
-        with tempfile.TemporaryDirectory(ignore_cleanup_errors=True, **kwargs) as temp_dir:
-            data_file = self.output_dir / filename
-            if data_file.exists():
-                with xr.open_mfdataset(data_file) as ds_old:
-                    ds_old = ds_old.load()
-                ds_file = ds.merge(ds_old, compat="override")
-            else:
-                ds_file = ds
-
-            temp_file = Path(temp_dir) / filename
+        data_file = self.output_dir / filename
+        if data_file.exists():
+            with xr.open_mfdataset(data_file) as ds_old:
+                ds_old = ds_old.load()
+            ds_file = ds.merge(ds_old, compat="override")
+        else:
+            ds_file = ds
 
-            comp = {"zlib": True, "complevel": 9}
-            encoding = dict.fromkeys(ds_file.data_vars, comp)
+        comp = {"zlib": True, "complevel": 9}
+        encoding = dict.fromkeys(ds_file.data_vars, comp)
+        with _replace_file(data_file) as temp_file:
             ds_file.to_netcdf(temp_file, encoding=encoding, **kwargs)
-            ds_file.close()
-            ds.close()
-            shutil.move(temp_file, data_file)
+        ds_file.close()
+        ds.close()
 
         return
 
diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index 9af9282..e5b11ae 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -16,6 +16,7 @@ from cratermaker.components.scaling import Scaling
 from cratermaker.components.surface import LocalSurface, Surface
 from cratermaker.components.target import Target
 from cratermaker.constants import FloatLike, PairOfFloats
+from cratermaker.core.base import _replace_file
 from cratermaker.utils.general_utils import format_large_units, parameter, validate_and_normalize_location
 
 
@@ -709,14 +710,14 @@ class HiResLocalSurface(Surface):
         if self._local is None:
             self._local = self.extract_region(location=self.local_location, region_radius=self.local_radius)
             self.local.grid_file.unlink(missing_ok=True)
-            self.local_grid_indices_file.unlink(missing_ok=True)
-            np.savez_compressed(
-                file=self.local_grid_indices_file,
-                face_indices=self.local.face_indices,
-                node_indices=self.local.node_indices,
-                edge_indices=self.local.edge_indices,
-                allow_pickle=False,
-            )
+            with _replace_file(self.local_grid_indices_file) as temp_file:
+                np.savez_compressed(
+                    file=temp_file,
+                    face_indices=self.local.face_indices,
+                    node_indices=self.local.node_indices,
+                    edge_indices=self.local.edge_indices,
+                    allow_pickle=False,
+                )
             self._set_local_identifiers()
 
         return self._local
diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 84b1014..a22d4fa 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -1,10 +1,13 @@
 from __future__ import annotations
 
 import importlib
+import os
 import pkgutil
 import re
 import shutil
 from abc import ABC
+from collections.abc import Iterator
+from contextlib import contextmanager
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Any
@@ -920,6 +923,35 @@ class ComponentBase(CratermakerBase, ABC):
         return list(cls._registry.keys())
 
 
+@contextmanager
+def _replace_file(path: Path | str) -> Iterator[Path]:
+    """
+    Context manager for writing a file such that it is only ever found complete.
+
+    The file is written under a temporary name in the same directory, and takes the place of any old version of it only once writing has succeeded.
+
+    Parameters
+    ----------
+    path : Path or str
+        The path of the file.
+
+    Yields
+    ------
+    Path
+        The temporary path to write to.
+    """
+    path = Path(path)
+    temp_path = path.with_name(f".{path.stem}.tmp{path.suffix}")
+    try:
+        yield temp_path
+        with temp_path.open("rb+") as f:
+            os.fsync(f.fileno())
+        temp_path.replace(path)
+    except BaseException:
+        temp_path.unlink(missing_ok=True)
+        raise
+
+
 def import_components(package_name: str, package_path: list[str]) -> None:
     """
     Import all modules of a component package, optionally skipping private modules.
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index dcb78da..0fba430 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -19,7 +19,7 @@ from cratermaker.components.surface import Surface
 from cratermaker.components.surface.hireslocal import HiResLocalSurface
 from cratermaker.components.target import Target
 from cratermaker.constants import _COMPONENT_NAMES, _CONFIG_FILE_NAME, _DSTD, FloatLike, PairOfFloats
-from cratermaker.core.base import CratermakerBase, _convert_for_yaml
+from cratermaker.core.base import CratermakerBase, _convert_for_yaml, _replace_file
 from cratermaker.utils.general_utils import _set_properties, format_large_units, parameter
 
 
@@ -1325,7 +1325,7 @@ class Simulation(CratermakerBase):
 
         # Write the combined configuration to a YAML file
         if save_to_file and not self._config_readonly:
-            with Path.open(self.config_file, "w") as f:
+            with _replace_file(self.config_file) as temp_file, temp_file.open("w") as f:
                 yaml.safe_dump(sim_config, f, indent=4)
 
         return sim_config
-- 
2.43.0


From 724e3313f51d8e6ba372bc85771af1c7494e8320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 069/115] fix: a crash while regridding left data of the old
 grid to be read with the new one

---
 cratermaker/components/surface/__init__.py   | 3 +++
 cratermaker/components/surface/hireslocal.py | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 24515d7..8108cca 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1170,6 +1170,9 @@ class Surface(ComponentBase):
         threshold = min(10 ** np.floor(np.log10(self.pix / self.radius)), 1e-7)
         uxgrid = uxr.Grid.from_points(points, method="spherical_voronoi", threshold=threshold)
         uxgrid.attrs["_id"] = self._id
+        # Any saved data belongs to the old grid, so it must never be found together with the new one
+        for _, data_file in self._saved_data_files(self.output_file_pattern[0]):
+            data_file.unlink()
         self._write_grid_file(uxgrid=uxgrid)
 
         regrid = not self._is_same_grid
diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index e5b11ae..06b655b 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -652,7 +652,9 @@ class HiResLocalSurface(Surface):
         return points
 
     def _load_from_files(self, reset: bool = False, **kwargs: Any):
-        is_same_grid = self._is_same_grid
+        is_same_grid = self._is_same_grid and not kwargs.get("regrid", False)
+        if not is_same_grid:
+            self.local_grid_indices_file.unlink(missing_ok=True)  # These belong to the old grid
         super()._load_from_files(reset=reset, **kwargs)
         if is_same_grid and self.local_grid_indices_file is not None and Path(self.local_grid_indices_file).exists():
             with np.load(self.local_grid_indices_file) as grid_data:
-- 
2.43.0


From 2fd855eb0454740fc301d782a7b82b50fdd94d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 070/115] fix: the progress of a resumed simulation was never
 recorded

---
 cratermaker/core/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 0fba430..ca42ca2 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -243,6 +243,8 @@ class Simulation(CratermakerBase):
 
         self.save_actions = save_actions
 
+        # From now on the configuration file follows the state of the simulation
+        object.__setattr__(self, "_config_readonly", False)
         self.to_config()
 
         return
-- 
2.43.0


From b79712b753fdd32768c1607e5012634c16a71a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 071/115] fix: a generator state could not be combined with a
 seed, nor set on a component

---
 cratermaker/core/base.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index a22d4fa..1f295cf 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -786,7 +786,7 @@ class CratermakerBase:
 
     @rng.setter
     def rng(self, value):
-        self._rng, _ = _rng_init(rng=value, rng_seed=self.rng_seed, rng_state=self.rng_state)
+        self._rng, self._rng_state = _rng_init(rng=value, rng_seed=self.rng_seed)
 
     @parameter
     def rng_state(self):
@@ -802,7 +802,16 @@ class CratermakerBase:
 
     @rng_state.setter
     def rng_state(self, value):
-        _, self._rng_state = _rng_init(rng=self.rng, rng_seed=self.rng_seed, rng_state=value)
+        if value is None:
+            return
+        if not isinstance(value, dict):
+            raise ValueError("rng_state must be a dictionary.")
+        try:
+            # The generator is shared with the other components, so the state is set in place
+            self._rng.bit_generator.state = value
+        except Exception as e:
+            raise ValueError("Invalid rng_state provided.") from e
+        self._rng_state = value
 
     @property
     def common_args(self) -> CommonArgs:
@@ -1002,16 +1011,15 @@ def _rng_init(
         if not isinstance(rng, Generator):
             raise ValueError("rng must be a numpy.random.Generator instance.")
     else:
-        if rng_seed is None:
-            rng = np.random.default_rng()
         if rng_state is not None:
             if not isinstance(rng_state, dict):
                 raise ValueError("rng_state must be a dictionary.")
             try:
+                rng = Generator(getattr(np.random, rng_state["bit_generator"])())
                 rng.bit_generator.state = rng_state
             except Exception as e:
                 raise ValueError("Invalid rng_state provided.") from e
-        elif rng_seed is not None:
+        else:
             try:
                 rng = np.random.default_rng(seed=rng_seed)
             except Exception as e:
-- 
2.43.0


From 01011e058b849336cc3e89532021e608cbc33c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 072/115] fix: a resumed simulation did not continue from the
 random state, surface and craters of its last interval

---
 cratermaker/components/counting/__init__.py | 21 +++++++++++++--------
 cratermaker/components/surface/__init__.py  |  5 ++++-
 cratermaker/core/simulation.py              | 10 +++++++++-
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 1b75176..c8e8fa8 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -48,6 +48,7 @@ class Counting(ComponentBase):
         self,
         surface: Surface | LocalSurface,
         reset: bool = True,
+        interval: int | None = None,
         **kwargs: Any,
     ):
         """
@@ -59,6 +60,8 @@ class Counting(ComponentBase):
             The surface or local surface view to be counted.
         reset : bool, optional
             Flag to indicate whether to reset the count and delete any old output files. Default is True.
+        interval : int, optional
+            The interval number to read the saved craters from if reset is False. Default is the last saved interval.
         **kwargs : Any
             |kwargs|
         """
@@ -85,14 +88,14 @@ class Counting(ComponentBase):
         ]
 
         if not reset:
-            observed, emplaced = self.read_saved_output(interval=-1)
+            if interval is None:
+                interval = max((i for intervals in self.get_saved_interval_numbers() for i in intervals or []), default=0)
+            observed, emplaced = self.read_saved_output(interval=interval)
             if observed:
-                interval = observed.interval.values[-1]
-                observed = self.Crater.from_xarray(observed, interval=interval)
-                for crater in observed:
+                for crater in self.Crater.from_xarray(observed, interval=interval):
                     self._observed[crater.id] = crater
-                if emplaced:
-                    self._emplaced = self.Crater.from_xarray(emplaced, interval=interval)
+            if emplaced:
+                self._emplaced = self.Crater.from_xarray(emplaced, interval=interval)
         return
 
     @classmethod
@@ -489,8 +492,10 @@ class Counting(ComponentBase):
         elif crater_type == "both":
             iterator = zip([self.observed, self.emplaced], ["observed", "emplaced"], strict=True)
         for craters, crater_type in iterator:
-            if craters:
-                filename = self.output_dir / f"{crater_type}_{self.output_filename(interval)}"
+            filename = self.output_dir / f"{crater_type}_{self.output_filename(interval)}"
+            if not craters:
+                filename.unlink(missing_ok=True)  # There are no longer any craters in this interval
+            else:
                 ds = self.to_xarray(craters)
                 ds = ds.expand_dims(dim="interval").assign_coords({"interval": [interval]})
                 if time_variables is not None:
diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 8108cca..32a76d9 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1095,7 +1095,10 @@ class Surface(ComponentBase):
         regrid = self._regrid_if_needed(regrid=regrid, **kwargs)
         reset = reset or regrid
         self.is_new = reset
-        # Read in only the last saved data file
+        # Read in only one saved data file
+        saved_intervals = [saved_interval for saved_interval, _ in self._saved_data_files(self.output_file_pattern[0])]
+        if interval >= 0 and interval not in saved_intervals:
+            interval = -1
         uxds = self.read_saved_output(interval=interval, reset=reset, **kwargs)
         if "interval" in uxds.dims:
             uxds = uxds.isel(interval=-1)
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index ca42ca2..436a9b4 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -129,6 +129,10 @@ class Simulation(CratermakerBase):
         else:
             config_file = None
 
+        common_args = vars(self.common_args)
+        if config_file is not None and rng is None and rng_seed is None and rng_state is None:
+            del common_args["rng_state"]  # Continue the stream of random numbers from where it was when the configuration was saved
+
         config_override = {}
         for component in _COMPONENT_NAMES:
             # Set to true if a local variable from the argument list with the component name is set to something other than None, otherwise false
@@ -144,7 +148,7 @@ class Simulation(CratermakerBase):
             surface=surface,
             counting=counting,
             config_file=config_file,
-            **vars(self.common_args),
+            **common_args,
         )
 
         for component in _COMPONENT_NAMES:
@@ -187,6 +191,8 @@ class Simulation(CratermakerBase):
             surface_config["superdomain_scale_factor"] = (
                 None  # This will trigger setting of the superdomain after the Morphology and Scaling models are set
             )
+        if config_file is not None:
+            surface_config["interval"] = self.interval
         self.surface = Surface.maker(
             self.surface,
             target=self.target,
@@ -198,6 +204,8 @@ class Simulation(CratermakerBase):
             self.is_new = self.surface.is_new
 
         counting_config = {**counting_config, **kwargs}
+        if config_file is not None:
+            counting_config["interval"] = self.interval
         self.counting = Counting.maker(
             self.counting,
             surface=self.surface,
-- 
2.43.0


From 79a5f606d6db1f0a9512b23b67302827a44a97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 073/115] fix: a state given along with a generator rewound the
 generator

---
 cratermaker/components/target/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cratermaker/components/target/__init__.py b/cratermaker/components/target/__init__.py
index ad07609..f444074 100644
--- a/cratermaker/components/target/__init__.py
+++ b/cratermaker/components/target/__init__.py
@@ -127,6 +127,7 @@ class Target(ComponentBase):
             radius = diameter / 2.0
 
         catalogue = kwargs.pop("catalogue", self.__class__._catalogue)
+        kwargs = {k: v for k, v in kwargs.items() if k not in vars(self.common_args)}  # These have been set already
 
         # Set properties for the Target object based on the arguments passed to the function
         _set_properties(
-- 
2.43.0


From 6089a25e96c310ab324aa12c2cd5a0e1814f81d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 074/115] fix: a simulation interrupted before it saved an
 interval was recorded as having reached it

---
 cratermaker/core/simulation.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 436a9b4..94a1f31 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -648,18 +648,24 @@ class Simulation(CratermakerBase):
                         current_time_end = 0.0
                     if current_time_end < 0.0:
                         current_time_end = 0.0
-                self.elapsed_time += time - current_time_end
-                self.elapsed_n1 += (
-                    self.production.function(
-                        diameter=_DSTD,
-                        time_start=time,
-                        time_end=current_time_end,
-                        validate_inputs=validate_inputs,
-                    ).item()
-                    * self.production.N_conversion_factor
-                )
-                self.time = current_time_end
-                self.interval += 1
+                # Don't record the progress in the configuration file until the data that belongs to it has been saved
+                config_readonly = self.config_readonly
+                object.__setattr__(self, "_config_readonly", True)
+                try:
+                    self.elapsed_time += time - current_time_end
+                    self.elapsed_n1 += (
+                        self.production.function(
+                            diameter=_DSTD,
+                            time_start=time,
+                            time_end=current_time_end,
+                            validate_inputs=validate_inputs,
+                        ).item()
+                        * self.production.N_conversion_factor
+                    )
+                    self.time = current_time_end
+                    self.interval += 1
+                finally:
+                    object.__setattr__(self, "_config_readonly", config_readonly)
                 self.save(**kwargs)
                 pbar.update(1)
 
-- 
2.43.0


From 8188030cd2a98685fc24d85efaf252c95a24339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:17 +0000
Subject: [PATCH 075/115] fix: exporting a surface with craters to a shapefile
 failed with duplicate field names

---
 cratermaker/components/surface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 32a76d9..0866d57 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2870,9 +2870,9 @@ class LocalSurface(CratermakerBase):
             if not variables:
                 raise ValueError("No face-based variables found to export to file.")
 
-            # Shapefile can't store the crater id layers, so we remove variables with the pattern "idXX"
+            # Shapefile can't store the crater id layers, because the names of their fields would be identical once truncated
             if driver == "ESRI Shapefile":
-                variables = [var for var in variables if not var.startswith("id")]
+                variables = [var for var in variables if "layer" not in uxds[var].dims]
 
             for var in variables:
                 if len(uxds[var].dims) == 1:
-- 
2.43.0


From 2c0643ec9319e2a82790653da9b4697e64db2cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:00 +0000
Subject: [PATCH 076/115] fix: exporting the craters of all intervals failed
 when they had different craters

---
 cratermaker/components/counting/__init__.py | 15 +++++++--------
 cratermaker/components/crater/__init__.py   |  6 +++---
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index c8e8fa8..ce89a50 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -564,35 +564,34 @@ class Counting(ComponentBase):
                         interval_numbers = [0]
                     else:
                         interval_numbers = [interval]
-                for interval in interval_numbers:
-                    craters = self.Crater.from_xarray(crater_ds, interval=interval) if crater_ds is not None else []
+                for interval_number in interval_numbers:
+                    craters = self.Crater.from_xarray(crater_ds, interval=interval_number) if crater_ds is not None else []
                     if driver.upper() in ["VTK", "VTP"] and crater_ds is not None:
                         self.to_vtk_file(
                             craters=craters,
-                            interval=interval,
+                            interval=interval_number,
                             crater_type=crater_type,
                             **kwargs,
                         )
                     elif driver.upper() == "CSV" and crater_ds is not None:
                         self.to_csv_file(
                             craters=craters,
-                            interval=interval,
+                            interval=interval_number,
                             crater_type=crater_type,
                             **kwargs,
                         )
                     elif driver.upper() == "SCC":
-                        if crater_ds is None:
-                            crater_ds = []  # Allow for empty SCC files because they can still have the region polygon
+                        # Allow for empty SCC files because they can still have the region polygon
                         self.to_scc_file(
                             craters=craters,
-                            interval=interval,
+                            interval=interval_number,
                             crater_type=crater_type,
                             **kwargs,
                         )
                     elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP and crater_ds is not None:
                         self.to_vector_file(
                             craters=craters,
-                            interval=interval,
+                            interval=interval_number,
                             crater_type=crater_type,
                             driver=driver,
                             **kwargs,
diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 72d656a..80af0ef 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1395,7 +1395,7 @@ class Crater(ComponentBase):
         craters = []
         if type(dataset) is dict:
             if interval is None:
-                dataset = dataset[-1]
+                dataset = dataset[max(dataset)]
             elif interval in dataset:
                 dataset = dataset[interval]
             else:
@@ -1413,8 +1413,8 @@ class Crater(ComponentBase):
         for id in tqdm(dataset.id.data, desc="Converting xarray Dataset to Crater objects", unit="crater", position=0, leave=False):
             crater_data = dataset.sel(id=id).to_dict()["data_vars"]
             crater_data = {k: v["data"] for k, v in crater_data.items()}
-            if not isinstance(crater_data["semimajor_axis"], (float, int)):
-                continue
+            if not isinstance(crater_data["semimajor_axis"], (float, int)) or np.isnan(crater_data["semimajor_axis"]):
+                continue  # This crater is not part of this interval
             crater_data = _convert_tuple_vars(input_dict=crater_data, inverse=True)
             for k, v in crater_data.items():
                 if v is not None and np.any(np.isreal(v)) and np.any(np.isnan(v)):
-- 
2.43.0


From 1ffc7623145c0c6aac1524a5e03024e0b4279ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:32 +0000
Subject: [PATCH 077/115] fix: a reset that the user agreed to when opening a
 simulation asked again for its craters

---
 cratermaker/core/simulation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 94a1f31..b7c22d1 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -104,6 +104,7 @@ class Simulation(CratermakerBase):
 
         super().__init__(simdir=simdir, rng=rng, rng_seed=rng_seed, rng_state=rng_state, ask_overwrite=ask_overwrite, **kwargs)
 
+        ask_overwrite_orig = None
         if reset is None:
             if self.ask_overwrite and self.config_file.exists():
                 response = input(
@@ -116,6 +117,9 @@ class Simulation(CratermakerBase):
                 elif response.lower() == "y":
                     print("Resetting simulation.")
                     reset = True
+                    # The user has already agreed, so don't ask again while the components are being reset
+                    ask_overwrite_orig = self.ask_overwrite
+                    self.ask_overwrite = False
                 else:
                     reset = False
             else:
@@ -249,6 +253,10 @@ class Simulation(CratermakerBase):
             skip_components = ["surface"]
             self.reset(skip_component=skip_components)
 
+        if ask_overwrite_orig is not None:
+            for obj in [self, *(getattr(self, component) for component in _COMPONENT_NAMES)]:
+                obj.ask_overwrite = ask_overwrite_orig
+
         self.save_actions = save_actions
 
         # From now on the configuration file follows the state of the simulation
-- 
2.43.0


From 3dc6dc792f32a012c3e421d87157491eac5769ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:32 +0000
Subject: [PATCH 078/115] fix: an export did not follow the prompt setting of
 the object that was exported

---
 cratermaker/components/surface/hireslocal.py | 2 ++
 cratermaker/core/simulation.py               | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index 06b655b..b451580 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -231,6 +231,8 @@ class HiResLocalSurface(Surface):
         **kwargs : Any
             |kwargs|
         """
+        if ask_overwrite is None:
+            ask_overwrite = self.ask_overwrite
         if superdomain:
             self._full().export(
                 driver=driver,
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index b7c22d1..af124f2 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -942,7 +942,9 @@ class Simulation(CratermakerBase):
         """
         # Temporarily set the ask_overwrite attribute for the duration of the export, but reset it to its original value afterwards.
         ask_overwrite_orig = self.ask_overwrite
-        if ask_overwrite is not None:
+        if ask_overwrite is None:
+            ask_overwrite = self.ask_overwrite
+        else:
             self.ask_overwrite = ask_overwrite
 
         try:
-- 
2.43.0


From bc76da72a9a178158d5b30eaa3ab8a7d960b7a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:41 +0000
Subject: [PATCH 079/115] fix: resetting a high resolution surface keeps the
 markers of its local part

---
 cratermaker/components/surface/hireslocal.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index b451580..8967e27 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -106,6 +106,26 @@ class HiResLocalSurface(Surface):
         )
         return str_repr
 
+    def reset(self, **kwargs: Any) -> bool:
+        """
+        Reset the surface to its initial state.
+
+        Parameters
+        ----------
+        **kwargs : Any
+            |kwargs|
+
+        Returns
+        -------
+        bool
+            True if the surface was reset, or False if the user cancelled the operation.
+        """
+        if not super().reset(**kwargs):
+            return False
+        self._set_local_identifiers()
+
+        return True
+
     def saved_output_files(self, **kwargs: Any) -> list[Path]:
         """
         Check if the component has any output files in its output directory, including those of the local surface.
-- 
2.43.0


From b3b5fe76cb3b860ed83e3b91c71e89dcaf57157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:08 +0000
Subject: [PATCH 080/115] fix: a failed emplacement leaves no craters in the
 queue

---
 cratermaker/components/morphology/__init__.py | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/cratermaker/components/morphology/__init__.py b/cratermaker/components/morphology/__init__.py
index ad7b963..bccb197 100644
--- a/cratermaker/components/morphology/__init__.py
+++ b/cratermaker/components/morphology/__init__.py
@@ -557,18 +557,23 @@ class Morphology(ComponentBase):
         elif isinstance(craters, Crater):
             craters = [MorphologyCrater.maker(crater=craters, morphology=self)]
 
-        if isinstance(craters, list) and len(craters) > 0:
-            for c in tqdm(
-                craters,
-                total=len(craters),
-                desc="Queueing craters for emplacement",
-                unit="crater",
-                position=0,
-                leave=False,
-            ):
-                self._enqueue_crater(c)
-
-        self._process_queue(**kwargs)
+        try:
+            if isinstance(craters, list) and len(craters) > 0:
+                for c in tqdm(
+                    craters,
+                    total=len(craters),
+                    desc="Queueing craters for emplacement",
+                    unit="crater",
+                    position=0,
+                    leave=False,
+                ):
+                    self._enqueue_crater(c)
+
+            self._process_queue(**kwargs)
+        except BaseException:
+            # Craters that could not be emplaced must not be left behind for the next call
+            self._init_queue_manager()
+            raise
 
         return craters
 
-- 
2.43.0


From c9fbd090d7aa94feb9bbab940226b1417f5d06d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:08 +0000
Subject: [PATCH 081/115] fix: craters made for another simulation are emplaced
 on the surface they are handed to

---
 cratermaker/components/morphology/basicmoon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/morphology/basicmoon.py b/cratermaker/components/morphology/basicmoon.py
index 0b81ef8..a9d781f 100644
--- a/cratermaker/components/morphology/basicmoon.py
+++ b/cratermaker/components/morphology/basicmoon.py
@@ -209,12 +209,12 @@ class BasicMoonMorphology(Morphology):
                 position=0,
                 leave=False,
             ):
-                if isinstance(c, BasicMoonCrater):
+                if isinstance(c, BasicMoonCrater) and c.morphology is self:
                     processed_craters.append(c)
                 else:
                     processed_craters.append(BasicMoonCrater.maker(c, morphology=self, **kwargs))
             craters = processed_craters
-        elif isinstance(craters, BasicMoonCrater):
+        elif isinstance(craters, BasicMoonCrater) and craters.morphology is self:
             craters = [craters]
         elif isinstance(craters, Crater):
             craters = [BasicMoonCrater.maker(craters, morphology=self, **kwargs)]
-- 
2.43.0


From 598439e101cac6ffccbd479e16fc07be87c05ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:30 +0000
Subject: [PATCH 082/115] fix: tallying a region of the surface

---
 cratermaker/components/counting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index ce89a50..a83a638 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -355,6 +355,8 @@ class Counting(ComponentBase):
         .. [#] Minton, D.A., Fassett, C.I., Hirabayashi, M., Howl, B.A., Richardson, J.E., (2019). The equilibrium size-frequency distribution of small craters reveals the effects of distal ejecta on lunar landscape morphology. Icarus 326, 63-87. `doi: 10.1016/j.icarus.2019.02.021 <https://doi.org/10.1016/j.icarus.2019.02.021>`_
 
         """
+        from cratermaker.components.surface import LocalSurface
+
         if region is None:
             region = self.surface
             if hasattr(self.surface, "crater_id"):
-- 
2.43.0


From 6d76fd450aa2ccee9d8a02dcdaaf9775dfc0dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:30 +0000
Subject: [PATCH 083/115] fix: rim fitting options of a tally apply to every
 crater

---
 cratermaker/components/counting/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index a83a638..e394f8d 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -393,9 +393,7 @@ class Counting(ComponentBase):
             crater = self.observed[id]
             # TODO: Make the fit_rim function more reliable before turning it on by default. It is currently very slow and not reliable enough.
             if measure_rim:
-                fit_center = kwargs.pop("fit_center", False)
-                fit_ellipse = kwargs.pop("fit_ellipse", False)
-                crater = self.fit_rim(crater=crater, fit_center=fit_center, fit_ellipse=fit_ellipse, **kwargs)
+                crater = self.fit_rim(crater=crater, **kwargs)
             Kd = self.measure_degradation_state(crater, **kwargs)
             Kv = self.visibility_function(crater, **kwargs)
             if Kd >= Kv:
-- 
2.43.0


From 7d73d9a6ad5a4360c195e86a999e72d8bae324e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:31 +0000
Subject: [PATCH 084/115] fix: craters that lost all of their tags are no
 longer counted as observed

---
 cratermaker/components/counting/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index e394f8d..eef5227 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -370,6 +370,9 @@ class Counting(ComponentBase):
 
         unique_ids = np.unique(id_array[id_array > 0])
         remove_ids = []
+        if region is self.surface:
+            # Craters whose last tag had to make room for those of newer ones are no longer on the surface
+            remove_ids.extend([id for id in self.observed if id not in unique_ids])
 
         if quiet:
             iterable = unique_ids
-- 
2.43.0


From 71f3301fc91ca24f4bf98162efd1c9adb9804cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 085/115] fix: craters that were emplaced twice or have a
 numeric name survive being saved or written to a table

---
 cratermaker/components/crater/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 80af0ef..997fb31 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1322,9 +1322,12 @@ class Crater(ComponentBase):
             for row in reader:
                 crater_data = _convert_tuple_vars(input_dict=row, inverse=True)
                 crater_data = {k: v for k, v in crater_data.items() if v is not None and v != ""}
+                crater_data.pop("id", None)  # The id is computed from the properties of the crater
                 for key, value in crater_data.items():
-                    if key in ["id", "production_sequence"]:
+                    if key == "production_sequence":
                         crater_data[key] = int(value)
+                    elif key in ["name", "morphology_type"]:
+                        continue
                     elif isinstance(value, tuple | list):
                         vnew = []
                         for v in value:
@@ -1410,8 +1413,9 @@ class Crater(ComponentBase):
         dataset.load()
         if len(dataset) == 0:
             return craters
-        for id in tqdm(dataset.id.data, desc="Converting xarray Dataset to Crater objects", unit="crater", position=0, leave=False):
-            crater_data = dataset.sel(id=id).to_dict()["data_vars"]
+        # Go by position, as a crater that was emplaced more than once appears under the same id each time
+        for i in tqdm(range(dataset.id.size), desc="Converting xarray Dataset to Crater objects", unit="crater", position=0, leave=False):
+            crater_data = dataset.isel(id=i).to_dict()["data_vars"]
             crater_data = {k: v["data"] for k, v in crater_data.items()}
             if not isinstance(crater_data["semimajor_axis"], (float, int)) or np.isnan(crater_data["semimajor_axis"]):
                 continue  # This crater is not part of this interval
-- 
2.43.0


From 0196b26400c421aa9191fb10b03ef151e8dee8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 086/115] fix: a table of craters has the columns of all of its
 craters, and an empty one can be written

---
 cratermaker/components/counting/__init__.py | 27 +++++++++------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index eef5227..0790b4b 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -983,16 +983,11 @@ class Counting(ComponentBase):
             raise ValueError("crater_type must be 'observed' or 'emplaced'")
         if craters is None:
             craters = getattr(self, crater_type)
-        if type(craters) is dict:
-            if type(list(craters.values())[0]) is xr.Dataset:  # like multi-interval dicts keyed by interval
-                crater_ds = craters.get(
-                    interval, []
-                )  # Get the dataset for the specified interval, or an empty dataset if not found
-            else:
-                return list(crater_ds.values())  # like observed dicts keyed by crater id
+        if isinstance(craters, dict) and any(isinstance(c, xr.Dataset) for c in craters.values()):
+            craters = self.Crater.from_xarray(craters, interval=interval)  # like multi-interval dicts keyed by interval
 
         if isinstance(craters, dict):
-            craters = list(craters.values())
+            craters = list(craters.values())  # like observed dicts keyed by crater id
         elif isinstance(craters, xr.Dataset):
             craters = self.Crater.from_xarray(craters, interval=interval)
         elif isinstance(craters, list):
@@ -1385,7 +1380,7 @@ class Counting(ComponentBase):
         print(f"Saving crater data to CSV file: '{output_file}'...")
         with output_file.open(mode="w", newline="") as csvfile:
             writer = csv.writer(csvfile)
-            header_written = False
+            rows = []
             for crater in craters:
                 crater_dict = crater.as_dict(skip_complex_data=True)
                 crater_dict = _convert_tuple_vars(input_dict=crater_dict, inverse=False)
@@ -1414,12 +1409,14 @@ class Counting(ComponentBase):
                     if v is None:
                         crater_dict[k] = ""
 
-                if not header_written:
-                    header = list(crater_dict.keys())
-                    writer.writerow(header)
-                    header_written = True
-                row = [crater_dict.get(key, "") for key in header]
-                writer.writerow(row)
+                rows.append(crater_dict)
+
+            # The columns are those of all of the craters, as not all of them need to have the same properties
+            header = list(dict.fromkeys(key for row in rows for key in row))
+            if header:
+                writer.writerow(header)
+            for row in rows:
+                writer.writerow([row.get(key, "") for key in header])
 
         return
 
-- 
2.43.0


From 8a85bf6f699a45ebe1b31b2d3d1e6146ae4b1014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 087/115] fix: craters without the measurements of others can
 be read back, and keep their id when their time is an integer

---
 cratermaker/components/crater/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 997fb31..fe64acf 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1171,6 +1171,8 @@ class Crater(ComponentBase):
         args["measured_semimajor_axis"] = float(measured_semimajor_axis) if measured_semimajor_axis is not None else None
         args["measured_semiminor_axis"] = float(measured_semiminor_axis) if measured_semiminor_axis is not None else None
         args["measured_orientation"] = float(measured_orientation) if measured_orientation is not None else None
+        if time is not None:
+            args["time"] = float(time)  # otherwise the id would depend on the type of the number
         args["id"] = _set_id(**args)
         args["name"] = str(name) if name is not None else None
         return cls(**args, **kwargs)
@@ -1423,6 +1425,8 @@ class Crater(ComponentBase):
             for k, v in crater_data.items():
                 if v is not None and np.any(np.isreal(v)) and np.any(np.isnan(v)):
                     crater_data[k] = None
+            # A property that only other craters have was not set for this one
+            crater_data = {k: v for k, v in crater_data.items() if v is not None}
             crater = cls.maker(**crater_data, check_redundant_inputs=False)
             craters.append(crater)
 
-- 
2.43.0


From 28f60d8553663710e163b21fda2cfe64a0d380f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 088/115] fix: crater count files of global or single crater
 counts can be read

---
 cratermaker/components/crater/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index fe64acf..cc454ca 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1367,7 +1367,7 @@ class Crater(ComponentBase):
         list[Crater]
             A list of Crater objects imported from the SCC file.
         """
-        from craterstats import Spatialcount
+        from craterstats import gm
 
         craters = []
         input_file = Path(input_file)
@@ -1375,9 +1375,10 @@ class Crater(ComponentBase):
             raise FileNotFoundError(f"Input file '{input_file}' does not exist.")
         if input_file.suffix != ".scc":
             raise ValueError(f"Input file '{input_file}' is not a .scc file.")
-        scc = Spatialcount(filename=str(input_file))
-        for diam, lon, lat in zip(scc.diam, scc.lon, scc.lat, strict=True):
-            crater = cls.maker(diameter=diam * 1e3, location=(lon, lat))
+        # Only the table of craters is needed here, as the boundary of a global count cannot be turned into a valid polygon
+        table = gm.read_textstructure(str(input_file))["crater"]
+        for diam, lon, lat in zip(table["diam"], table["lon"], table["lat"], strict=True):
+            crater = cls.maker(diameter=float(diam) * 1e3, location=(float(lon), float(lat)))
             craters.append(crater)
 
         return craters
-- 
2.43.0


From 1eb18514ebf174766e8db46106bcc870db55bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 089/115] fix: the options of a mesh file of craters are used

---
 cratermaker/components/counting/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 0790b4b..92c10f9 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -1334,7 +1334,13 @@ class Counting(ComponentBase):
         if not self._overwrite_check(output_file):
             return
         print(f"Saving crater data to VTK file: '{output_file}'...")
-        poly_data = self.to_vtk_mesh(craters=craters)
+        poly_data = self.to_vtk_mesh(
+            craters=craters,
+            use_measured_properties=use_measured_properties,
+            crater_style=crater_style,
+            crater_size_scale_factor=crater_size_scale_factor,
+            **kwargs,
+        )
 
         # Write the poly_data to a VTK file
         writer = vtkXMLPolyDataWriter()
-- 
2.43.0


From e5e648d0d68b3c792f69849526522b6cf0b583b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:43 +0000
Subject: [PATCH 090/115] fix: a resumed simulation continues the saved stream
 of random numbers even if its components draw when they are made

---
 cratermaker/core/simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index af124f2..ca97f70 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -134,7 +134,8 @@ class Simulation(CratermakerBase):
             config_file = None
 
         common_args = vars(self.common_args)
-        if config_file is not None and rng is None and rng_seed is None and rng_state is None:
+        resume_rng = config_file is not None and rng is None and rng_seed is None and rng_state is None
+        if resume_rng:
             del common_args["rng_state"]  # Continue the stream of random numbers from where it was when the configuration was saved
 
         config_override = {}
@@ -160,6 +161,8 @@ class Simulation(CratermakerBase):
                 # If the component is set to something other than None, then remove it from the unmatched dictionary
                 unmatched.pop(f"{component}_config", None)
 
+        saved_rng_state = self.rng_state
+
         production_config = unmatched.pop("production_config", {})
         scaling_config = unmatched.pop("scaling_config", {})
         surface_config = unmatched.pop("surface_config", {})
@@ -258,6 +261,8 @@ class Simulation(CratermakerBase):
                 obj.ask_overwrite = ask_overwrite_orig
 
         self.save_actions = save_actions
+        if resume_rng and not self.is_new:
+            self.rng_state = saved_rng_state  # Undo any draws that were made while the components were being initialized
 
         # From now on the configuration file follows the state of the simulation
         object.__setattr__(self, "_config_readonly", False)
-- 
2.43.0


From ca7685c1ddb06859bfc2c5c1c41fac08eea22d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:43 +0000
Subject: [PATCH 091/115] fix: the mass and the transition scale of a target
 are saved

---
 cratermaker/components/target/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/target/__init__.py b/cratermaker/components/target/__init__.py
index f444074..ec2f91e 100644
--- a/cratermaker/components/target/__init__.py
+++ b/cratermaker/components/target/__init__.py
@@ -272,7 +272,7 @@ class Target(ComponentBase):
         if self.radius is not None:
             return 2 * np.pi * self.radius
 
-    @property
+    @parameter
     def mass(self) -> float | None:
         """The mass of the target body in kilograms."""
         return self._mass
@@ -352,7 +352,7 @@ class Target(ComponentBase):
         """The key used to identify the property used as the key in a catalogue."""
         return "name"
 
-    @property
+    @parameter
     def transition_scale_type(self):
         """The type of simple-to-complex transition scaling used for the surface, either 'silicate' or 'ice'."""
         return self._transition_scale_type
-- 
2.43.0


From e4ff4873999487019551a930440b5a1fa106e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:43 +0000
Subject: [PATCH 092/115] fix: monte_carlo_scaling is saved

---
 cratermaker/components/scaling/montecarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index 1d72c4e..bb60ec2 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -105,7 +105,7 @@ class MonteCarloScaling(Scaling):
         object.__setattr__(self, "_simple_enlargement_factor", None)
         object.__setattr__(self, "_final_exp", None)
         object.__setattr__(self, "_material_catalogue", None)
-        object.__setattr__(self, "_montecarlo_scaling", monte_carlo_scaling)
+        self.monte_carlo_scaling = monte_carlo_scaling
 
         target_density = self.target.density
         if material is None:
-- 
2.43.0


From 63496cd803259a591f392df1f706e3b0bd9c30c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:43 +0000
Subject: [PATCH 093/115] fix: the settings of a projectile are saved

---
 cratermaker/components/projectile/__init__.py | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/cratermaker/components/projectile/__init__.py b/cratermaker/components/projectile/__init__.py
index f80316c..4181703 100644
--- a/cratermaker/components/projectile/__init__.py
+++ b/cratermaker/components/projectile/__init__.py
@@ -120,6 +120,7 @@ class Projectile(ComponentBase):
 
         if self.density is None:
             raise ValueError("density must be provided")
+        self._user_defined.update(["sample", "mean_velocity", "density", "velocity", "angle", "direction", "location"])
         return
 
     def __str__(self) -> str:
@@ -134,6 +135,30 @@ class Projectile(ComponentBase):
         str_repr += f"Density: {self.density:.1f} kg/m³\n"
         return str_repr
 
+    def to_config(self, remove_common_args: bool = False, **kwargs: Any) -> dict[str, Any]:
+        """
+        Converts values to types that can be used in yaml.safe_dump.
+
+        The velocity, angle, direction, and location are only included if they are not sampled for each projectile.
+
+        Parameters
+        ----------
+        remove_common_args : bool, optional
+            If True, remove the set of common arguments that are shared among all components of the project from the configuration. Default is False.
+        **kwargs : Any
+            |kwargs|
+
+        Returns
+        -------
+        dict[str, Any]
+            A dictionary of the object's attributes that can be serialized to YAML.
+        """
+        config = super().to_config(remove_common_args=remove_common_args, **kwargs)
+        if self.sample:
+            for key in ["velocity", "angle", "direction", "location"]:
+                config.pop(key, None)
+        return config
+
     def _copy(self, deep: bool = True, memo: dict[int, Any] | None = None) -> Self:
         import copy
         import inspect
-- 
2.43.0


From 0d9001d640eb158771c0f84eff3c2b9adaf480be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:43 +0000
Subject: [PATCH 094/115] fix: explicit arguments win over the settings of a
 configuration file

---
 cratermaker/core/simulation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index ca97f70..50f1867 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -138,10 +138,10 @@ class Simulation(CratermakerBase):
         if resume_rng:
             del common_args["rng_state"]  # Continue the stream of random numbers from where it was when the configuration was saved
 
-        config_override = {}
-        for component in _COMPONENT_NAMES:
-            # Set to true if a local variable from the argument list with the component name is set to something other than None, otherwise false
-            config_override[component] = getattr(self, f"_{component}") is not None
+        # Set to true if the argument with the component name is set to something other than None, otherwise false
+        component_args = (target, scaling, production, morphology, projectile, surface, counting)
+        component_names = ("target", "scaling", "production", "morphology", "projectile", "surface", "counting")
+        config_override = {name: arg is not None for name, arg in zip(component_names, component_args, strict=True)}
 
         _, unmatched = _set_properties(
             self,
@@ -170,9 +170,11 @@ class Simulation(CratermakerBase):
         target_config = unmatched.pop("target_config", {})
         projectile_config = unmatched.pop("projectile_config", {})
         counting_config = unmatched.pop("counting_config", {})
-        kwargs.update(unmatched)
-        kwargs = {**kwargs, **vars(self.common_args)}
+        kwargs = {**unmatched, **kwargs, **vars(self.common_args)}
+        saved_diameter_range = production_config.get("diameter_range")
 
+        if kwargs.get("diameter") is not None:
+            target_config.pop("radius", None)
         target_config = {**target_config, **kwargs}
         self.target = Target.maker(self.target, **target_config)
 
-- 
2.43.0


From 4d5f32aab385de85131ac6dc3541df2a4de7c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:43 +0000
Subject: [PATCH 095/115] fix: do_counting and save_actions of a configuration
 file are kept

---
 cratermaker/core/simulation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 50f1867..ea208ee 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -82,7 +82,7 @@ class Simulation(CratermakerBase):
         rng_state: dict | None = None,
         reset: bool = None,
         ask_overwrite: bool = True,
-        do_counting: bool = True,
+        do_counting: bool | None = None,
         save_actions: list[dict[str, dict]] | None | str = "default",
         **kwargs: Any,
     ):
@@ -143,7 +143,7 @@ class Simulation(CratermakerBase):
         component_names = ("target", "scaling", "production", "morphology", "projectile", "surface", "counting")
         config_override = {name: arg is not None for name, arg in zip(component_names, component_args, strict=True)}
 
-        _, unmatched = _set_properties(
+        matched, unmatched = _set_properties(
             self,
             target=target,
             scaling=scaling,
@@ -222,7 +222,9 @@ class Simulation(CratermakerBase):
             **counting_config,
         )
 
-        morphology_config = {**morphology_config, **kwargs, "do_counting": do_counting}
+        morphology_config = {"do_counting": True, **morphology_config, **kwargs}
+        if do_counting is not None:
+            morphology_config["do_counting"] = do_counting
         self.morphology = Morphology.maker(
             self.morphology,
             surface=self.surface,
@@ -262,7 +264,8 @@ class Simulation(CratermakerBase):
             for obj in [self, *(getattr(self, component) for component in _COMPONENT_NAMES)]:
                 obj.ask_overwrite = ask_overwrite_orig
 
-        self.save_actions = save_actions
+        if save_actions != "default" or "save_actions" not in matched:
+            self.save_actions = save_actions
         if resume_rng and not self.is_new:
             self.rng_state = saved_rng_state  # Undo any draws that were made while the components were being initialized
 
-- 
2.43.0


From 61177ab08c0a30f01d793421ec19db317a1fc8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:43 +0000
Subject: [PATCH 096/115] fix: writing the configuration draws no random
 numbers

---
 cratermaker/core/simulation.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index ea208ee..9d4731f 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1472,13 +1472,24 @@ class Simulation(CratermakerBase):
         ):
             raise ValueError("Must provide exactly one of either crater_diameter or projectile_diameter")
 
+        def make_crater(**size) -> Crater:
+            # This is only an estimate, so it must neither depend on the stream of random numbers nor disturb it or the scaling model
+            rng_state = self.rng.bit_generator.state
+            scaling_state = vars(scaling).copy()
+            self.rng.bit_generator.state = type(self.rng.bit_generator)(0).state
+            try:
+                return self.Crater.maker(
+                    angle=angle,
+                    projectile_velocity=projectile_velocity,
+                    **size,
+                    **vars(self.common_args),
+                )
+            finally:
+                vars(scaling).update(scaling_state)
+                self.rng.bit_generator.state = rng_state
+
         if crater_diameter is None:
-            crater_diameter = self.Crater.maker(
-                projectile_diameter=projectile_diameter,
-                angle=angle,
-                projectile_velocity=projectile_velocity,
-                **vars(self.common_args),
-            ).diameter
+            crater_diameter = make_crater(projectile_diameter=projectile_diameter).diameter
             if limit == "smallest":
                 return float(max(crater_diameter, self.max_crater_diameter_range[0]))
             elif limit == "largest":
@@ -1489,12 +1500,7 @@ class Simulation(CratermakerBase):
                 crater_diameter = max(crater_diameter, self.max_crater_diameter_range[0])
             elif limit == "largest":
                 crater_diameter = min(crater_diameter, self.max_crater_diameter_range[1])
-            projectile_diameter = self.Crater.maker(
-                diameter=crater_diameter,
-                angle=angle,
-                projectile_velocity=projectile_velocity,
-                **vars(self.common_args),
-            ).projectile_diameter
+            projectile_diameter = make_crater(diameter=crater_diameter).projectile_diameter
             return float(projectile_diameter)
 
     @property
-- 
2.43.0


From 983149476f4284ec6bc05723837eea4803906af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:44 +0000
Subject: [PATCH 097/115] fix: the diameter range of a production function is
 saved

---
 cratermaker/components/production/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 81232dd..7042f2f 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1332,7 +1332,7 @@ class Production(ComponentBase):
         else:
             self._quasimc_craters = self._process_quasimc_craters(value)
 
-    @property
+    @parameter
     def diameter_range(self) -> tuple[float, float]:
         """
         The lower and upper range of diameters that will be returned from :py:meth:`~cratermaker.components.production.Production.sample`.
-- 
2.43.0


From 8507a92a812773d93431024a13174399bb0045ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:44 +0000
Subject: [PATCH 098/115] fix: a crater size range that was saved is restored

---
 cratermaker/core/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 9d4731f..f37cf58 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -246,8 +246,9 @@ class Simulation(CratermakerBase):
             self.is_new = self.surface.is_new
 
         self._max_crater_diameter_range = (min(self.surface.face_size), self.target.diameter)
-        self.smallest_crater = max(self.smallest_crater, self._max_crater_diameter_range[0])
-        self.largest_crater = min(self.largest_crater, self._max_crater_diameter_range[1])
+        if self.is_new or saved_diameter_range is None:
+            self.smallest_crater = max(self.smallest_crater, self._max_crater_diameter_range[0])
+            self.largest_crater = min(self.largest_crater, self._max_crater_diameter_range[1])
         if self.production._Crater is None:
             self.production._Crater = self.Crater
             if self.production.quasimc_craters is not None:
-- 
2.43.0


From dfdab08b3d374a68b85aa1e2991348cb93038fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:44 +0000
Subject: [PATCH 099/115] fix: a density, version or mean velocity that was
 changed is restored

---
 cratermaker/core/simulation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index f37cf58..abe3f88 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -172,6 +172,11 @@ class Simulation(CratermakerBase):
         counting_config = unmatched.pop("counting_config", {})
         kwargs = {**unmatched, **kwargs, **vars(self.common_args)}
         saved_diameter_range = production_config.get("diameter_range")
+        if "material" not in kwargs and target_config.get("density") is not None:
+            # The density may have been changed from that of the material
+            scaling_config["density"] = target_config["density"]
+        saved_version = production_config.get("version") if not config_override["target"] else None
+        saved_mean_velocity = projectile_config.get("mean_velocity") if not config_override["target"] else None
 
         if kwargs.get("diameter") is not None:
             target_config.pop("radius", None)
@@ -180,9 +185,13 @@ class Simulation(CratermakerBase):
 
         production_config = {**production_config, **kwargs}
         self.production = Production.maker(self.production, target=self.target, **production_config)
+        if saved_version is not None and "version" not in kwargs:
+            self.production.version = saved_version  # It may have been changed from that of the target
 
         projectile_config = {**projectile_config, **kwargs}
         self.projectile = Projectile.maker(self.projectile, target=self.target, **projectile_config)
+        if saved_mean_velocity is not None and "mean_velocity" not in kwargs:
+            self.projectile.mean_velocity = saved_mean_velocity  # It may have been changed from that of the target
 
         scaling_config = {**scaling_config, **kwargs}
         self.scaling = Scaling.maker(
-- 
2.43.0


From 2ee83388cd899ecad978d1d219d26b4e97be36f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:44 +0000
Subject: [PATCH 100/115] fix: a morphology keeps the production function it is
 given

---
 cratermaker/components/morphology/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/__init__.py b/cratermaker/components/morphology/__init__.py
index bccb197..dc94a84 100644
--- a/cratermaker/components/morphology/__init__.py
+++ b/cratermaker/components/morphology/__init__.py
@@ -426,7 +426,7 @@ class Morphology(ComponentBase):
 
         self.do_subpixel_degradation = do_subpixel_degradation
         self.do_slope_collapse = do_slope_collapse
-        if do_subpixel_degradation:
+        if do_subpixel_degradation or isinstance(production, Production):
             # Be sure to use the associated Target object from the Surface object when initializing a new Production object
             if not isinstance(production, Production):
                 kwargs["target"] = self.surface.target
-- 
2.43.0


From 22c961f54ec74bc1d0c0fb45e20e796aadd48523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 101/115] fix: an object of another kind of component is
 rejected

---
 cratermaker/core/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 1f295cf..59a08eb 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -899,9 +899,10 @@ class ComponentBase(CratermakerBase, ABC):
             if component not in cls.available():
                 raise KeyError(f"Unknown component model: {component}. Available models: {cls.available()}")
             return cls._registry[component](**kwargs)
-        elif isinstance(component, type) and issubclass(component, ComponentBase):
+        kind = next(base for base in cls.__mro__ if base is ComponentBase or ComponentBase in base.__bases__)  # e.g. Surface for IcosphereSurface
+        if isinstance(component, type) and issubclass(component, kind) and component is not kind:
             return component(**kwargs)
-        elif isinstance(component, ComponentBase):
+        elif isinstance(component, kind):
             return component
         else:
             raise TypeError(f"component must be a string or a subclass of component, not {type(component)}")
-- 
2.43.0


From 55604dc4c8c5bca1ae62470aeb153c9b040a5920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 102/115] fix: a morphology scales its craters for the target
 of its surface

---
 cratermaker/components/morphology/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/__init__.py b/cratermaker/components/morphology/__init__.py
index dc94a84..75ec665 100644
--- a/cratermaker/components/morphology/__init__.py
+++ b/cratermaker/components/morphology/__init__.py
@@ -416,7 +416,11 @@ class Morphology(ComponentBase):
         else:
             self.counting = Counting.maker(counting, surface=self.surface, morphology=self, **kwargs)
 
-        self.scaling = Scaling.maker(scaling, **kwargs)
+        if isinstance(scaling, Scaling):
+            self.scaling = scaling
+        else:
+            # Scale the craters for the Target object that is associated with the Surface object
+            self.scaling = Scaling.maker(scaling, **{**kwargs, "target": self.surface.target})
 
         if do_counting is not None:
             if do_counting and self.counting is None:
-- 
2.43.0


From b01285b15712d7e930bb1d90c69951d0fe8690d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 103/115] fix: the components of a simulation are connected
 with each other however they are given

---
 cratermaker/core/simulation.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index abe3f88..b1cc065 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -138,6 +138,22 @@ class Simulation(CratermakerBase):
         if resume_rng:
             del common_args["rng_state"]  # Continue the stream of random numbers from where it was when the configuration was saved
 
+        # A component that is given as an object brings along the objects that it is associated with, unless they are given as well
+        if isinstance(morphology, Morphology):
+            surface = morphology.surface if surface is None else surface
+            counting = morphology.counting if counting is None else counting
+            scaling = morphology.scaling if scaling is None else scaling
+            production = morphology.production if production is None else production
+        if isinstance(counting, Counting) and surface is None:
+            surface = counting.surface
+        if isinstance(surface, Surface) and target is None:
+            target = surface.target
+        if isinstance(scaling, Scaling):
+            projectile = scaling.projectile if projectile is None else projectile
+            target = scaling.target if target is None else target
+        if isinstance(projectile, Projectile) and target is None:
+            target = projectile.target
+
         # Set to true if the argument with the component name is set to something other than None, otherwise false
         component_args = (target, scaling, production, morphology, projectile, surface, counting)
         component_names = ("target", "scaling", "production", "morphology", "projectile", "surface", "counting")
@@ -243,6 +259,22 @@ class Simulation(CratermakerBase):
             **morphology_config,
         )
 
+        # Components that were given as objects may still be associated with others than those of this simulation
+        self.projectile._target = self.target
+        self.surface._target = self.target
+        if self.counting.surface is not self.surface:
+            self.counting.surface = self.surface
+        if self.morphology.surface is not self.surface:
+            self.morphology.surface = self.surface
+        self.morphology.production = self.production
+        self.morphology.scaling = self.scaling
+        if self.morphology.counting is not self.counting or self.counting.morphology is not self.morphology:
+            do_counting = self.morphology.do_counting
+            self.morphology.counting = self.counting
+            self.morphology.do_counting = do_counting
+        for component in _COMPONENT_NAMES:
+            getattr(self, component)._rng = self.rng
+
         # If this is a variant of the HiResLocalSurface we need to check to see if it has a grid yet.
         # This is because when creating a new Surface object of this type, the grid generation is deferred until the Scaling and Morphology objects are initialized in order to set the superdomain properly.
         if issubclass(self.surface.__class__, HiResLocalSurface) and self.surface.uxgrid is None:
@@ -258,7 +290,7 @@ class Simulation(CratermakerBase):
         if self.is_new or saved_diameter_range is None:
             self.smallest_crater = max(self.smallest_crater, self._max_crater_diameter_range[0])
             self.largest_crater = min(self.largest_crater, self._max_crater_diameter_range[1])
-        if self.production._Crater is None:
+        if self.production._Crater is not self.Crater:
             self.production._Crater = self.Crater
             if self.production.quasimc_craters is not None:
                 # Trigger a reprocessing to get the craters into the updated Crater class
-- 
2.43.0


From 23cecc4deb03f7af0985cca9c56d4ce3a38e21be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 104/115] fix: scaling parameters can be given for an unknown
 material

---
 cratermaker/components/scaling/montecarlo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index bb60ec2..dfa5bb4 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -96,6 +96,7 @@ class MonteCarloScaling(Scaling):
             **kwargs,
         )
 
+        object.__setattr__(self, "_material", None)
         object.__setattr__(self, "_K1", None)
         object.__setattr__(self, "_mu", None)
         object.__setattr__(self, "_Ybar", None)
@@ -127,7 +128,7 @@ class MonteCarloScaling(Scaling):
         elif material is None and target_density is not None:
             # Setting the material replaces the surface density, but here the material is the target's own
             self.target.density = target_density
-        elif self.target.density is None:
+        elif self.target.density is None and self.material in self.material_catalogue:
             self.target.density = self.material_catalogue[self.material]["density"]
         if self.projectile.density is None:
             self.projectile.density = self.target.density
-- 
2.43.0


From b30bee6667e1e51a9f4a69174a421a95a636cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:49 +0000
Subject: [PATCH 105/115] fix: emplaced craters are saved in chronological
 order

---
 cratermaker/components/counting/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 92c10f9..bc66437 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -449,7 +449,8 @@ class Counting(ComponentBase):
         if len(craters) == 0:
             return xr.Dataset()
         data = []
-        if isinstance(craters, dict):
+        by_id = isinstance(craters, dict)  # A list is in chronological order
+        if by_id:
             craters = craters.values()
         for c in craters:
             d = c.as_dict(skip_complex_data=True)
@@ -458,7 +459,8 @@ class Counting(ComponentBase):
             d["id"].attrs["long_name"] = _TALLY_LONG_NAME
             data.append(d)
 
-        return xr.concat(data, dim="id").sortby("id")
+        ds = xr.concat(data, dim="id")
+        return ds.sortby("id") if by_id else ds
 
     def save(
         self,
-- 
2.43.0


From 1902779f8673ebcf57c91a24012619dab8032cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:49 +0000
Subject: [PATCH 106/115] fix: a simulation with any kind of random generator
 can be resumed

---
 cratermaker/core/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 59a08eb..9e8f82c 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -807,8 +807,11 @@ class CratermakerBase:
         if not isinstance(value, dict):
             raise ValueError("rng_state must be a dictionary.")
         try:
-            # The generator is shared with the other components, so the state is set in place
-            self._rng.bit_generator.state = value
+            if value.get("bit_generator") == self._rng.bit_generator.state["bit_generator"]:
+                # The generator is shared with the other components, so the state is set in place
+                self._rng.bit_generator.state = value
+            else:
+                self._rng, _ = _rng_init(rng_state=value)
         except Exception as e:
             raise ValueError("Invalid rng_state provided.") from e
         self._rng_state = value
-- 
2.43.0


From 10649989f1b9ae0f392ec1b39d59ecc1975cfbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:49 +0000
Subject: [PATCH 107/115] fix: the times of craters are not replaced by that of
 the simulation when they are saved

---
 cratermaker/components/counting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index bc66437..135115a 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -505,6 +505,8 @@ class Counting(ComponentBase):
                 ds = ds.expand_dims(dim="interval").assign_coords({"interval": [interval]})
                 if time_variables is not None:
                     for k, v in time_variables.items():
+                        if k in ds:
+                            continue  # The time of each crater is not the time of the simulation
                         ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
                 with _replace_file(filename) as temp_file:
                     ds.to_netcdf(temp_file)
-- 
2.43.0


From 3df16f5354c1b2967cd45b30f82ef73538c4a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:49 +0000
Subject: [PATCH 108/115] fix: the time of the simulation is not taken for that
 of its craters

---
 cratermaker/components/crater/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index cc454ca..133a9dd 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1416,6 +1416,8 @@ class Crater(ComponentBase):
         dataset.load()
         if len(dataset) == 0:
             return craters
+        # Anything that is not set for each crater, such as the time of the simulation, is not a property of the craters
+        dataset = dataset.drop_vars([name for name, var in dataset.data_vars.items() if "id" not in var.dims])
         # Go by position, as a crater that was emplaced more than once appears under the same id each time
         for i in tqdm(range(dataset.id.size), desc="Converting xarray Dataset to Crater objects", unit="crater", position=0, leave=False):
             crater_data = dataset.isel(id=i).to_dict()["data_vars"]
-- 
2.43.0


From d52fc28161ef44382369ecaff664102e53932c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:49 +0000
Subject: [PATCH 109/115] fix: a resumed simulation keeps the kind of its
 random generator

---
 cratermaker/core/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index b1cc065..5784022 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -136,7 +136,7 @@ class Simulation(CratermakerBase):
         common_args = vars(self.common_args)
         resume_rng = config_file is not None and rng is None and rng_seed is None and rng_state is None
         if resume_rng:
-            del common_args["rng_state"]  # Continue the stream of random numbers from where it was when the configuration was saved
+            del common_args["rng"], common_args["rng_state"]  # Continue the stream of random numbers from where it was when the configuration was saved
 
         # A component that is given as an object brings along the objects that it is associated with, unless they are given as well
         if isinstance(morphology, Morphology):
-- 
2.43.0


From 1563236d0dbf7ec6af44b8c99614fef10a3d8c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:49 +0000
Subject: [PATCH 110/115] fix: intervals of a continued run start exactly where
 those of an uninterrupted one do

---
 cratermaker/core/simulation.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 5784022..6b54409 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -671,16 +671,14 @@ class Simulation(CratermakerBase):
                     self.populate(time_start=time, time_end=current_time_end, **kwargs)
                 else:
                     time = self.time
-                    if i == initial_interval:  # The run may have been continued from inside of this interval
-                        current_diameter_number = (
-                            diameter_number[0],
-                            self.production.function(
-                                diameter=diameter_number[0], time_start=time, validate_inputs=validate_inputs
-                            ).item()
-                            * self.surface.area,
-                        )
-                    else:
-                        current_diameter_number = current_diameter_number_end
+                    # The run may have been continued from the start or from inside of this interval
+                    current_diameter_number = (
+                        diameter_number[0],
+                        self.production.function(
+                            diameter=diameter_number[0], time_start=time, validate_inputs=validate_inputs
+                        ).item()
+                        * self.surface.area,
+                    )
                     current_diameter_number_end = (
                         diameter_number[0],
                         diameter_number[1] - (i + 1) * diameter_number_interval[1],
-- 
2.43.0


From 959677d961ed9a66b88e85ec104410a6ec074dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 111/115] fix: a generator or state assigned to a simulation is
 shared with its components

---
 cratermaker/core/base.py       |  6 ++++++
 cratermaker/core/simulation.py | 11 +++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 9e8f82c..0bf8e81 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -787,6 +787,11 @@ class CratermakerBase:
     @rng.setter
     def rng(self, value):
         self._rng, self._rng_state = _rng_init(rng=value, rng_seed=self.rng_seed)
+        self._share_rng()
+
+    def _share_rng(self):
+        """Passes on the random number generator to the objects that share it. Overridden by the classes that have any."""
+        return
 
     @parameter
     def rng_state(self):
@@ -812,6 +817,7 @@ class CratermakerBase:
                 self._rng.bit_generator.state = value
             else:
                 self._rng, _ = _rng_init(rng_state=value)
+                self._share_rng()
         except Exception as e:
             raise ValueError("Invalid rng_state provided.") from e
         self._rng_state = value
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 6b54409..76fc5e4 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -272,8 +272,7 @@ class Simulation(CratermakerBase):
             do_counting = self.morphology.do_counting
             self.morphology.counting = self.counting
             self.morphology.do_counting = do_counting
-        for component in _COMPONENT_NAMES:
-            getattr(self, component)._rng = self.rng
+        self._share_rng()
 
         # If this is a variant of the HiResLocalSurface we need to check to see if it has a grid yet.
         # This is because when creating a new Surface object of this type, the grid generation is deferred until the Scaling and Morphology objects are initialized in order to set the superdomain properly.
@@ -317,6 +316,14 @@ class Simulation(CratermakerBase):
 
         return
 
+    def _share_rng(self):
+        for component in _COMPONENT_NAMES:
+            obj = getattr(self, f"_{component}", None)
+            if isinstance(obj, CratermakerBase):
+                obj._rng = self.rng
+        if isinstance(self._scaling, Scaling):
+            self._scaling.projectile._rng = self.rng  # That of the last crater that was made
+
     def __str__(self) -> str:
         """
         Returns a string representation of the Simulation object.
-- 
2.43.0


From 9e78eafb1ca84fac5f62bad280c8a5374af5e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:17 +0000
Subject: [PATCH 112/115] fix: quasi-Monte Carlo craters read from a file are
 drawn from the stream of the simulation

---
 cratermaker/components/crater/__init__.py     | 18 ++++++++++++------
 cratermaker/components/production/__init__.py |  3 ++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 133a9dd..f152860 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1299,7 +1299,7 @@ class Crater(ComponentBase):
         return craters
 
     @classmethod
-    def from_csv_file(cls, input_file: Path | str) -> list[Crater]:
+    def from_csv_file(cls, input_file: Path | str, **kwargs: Any) -> list[Crater]:
         """
         Import crater data from a CSV file.
 
@@ -1307,6 +1307,8 @@ class Crater(ComponentBase):
         ----------
         input_file : Path | str
             The path to the CSV file containing crater data.
+        **kwargs : Any
+            |kwargs|
 
         Returns
         -------
@@ -1347,13 +1349,13 @@ class Crater(ComponentBase):
                         except ValueError:
                             crater_data[key] = value
                 crater_data = {k: v for k, v in crater_data.items() if v is not None}
-                crater = cls.maker(**crater_data, check_redundant_inputs=False)
+                crater = cls.maker(**{**kwargs, **crater_data}, check_redundant_inputs=False)
                 craters.append(crater)
 
         return craters
 
     @classmethod
-    def from_scc_file(cls, input_file: Path | str) -> list[Crater]:
+    def from_scc_file(cls, input_file: Path | str, **kwargs: Any) -> list[Crater]:
         """
         Import crater data from a Spatial Crater Count file.
 
@@ -1361,6 +1363,8 @@ class Crater(ComponentBase):
         ----------
         input_file : Path | str
             The path to the SCC file containing crater data.
+        **kwargs : Any
+            |kwargs|
 
         Returns
         -------
@@ -1378,13 +1382,13 @@ class Crater(ComponentBase):
         # Only the table of craters is needed here, as the boundary of a global count cannot be turned into a valid polygon
         table = gm.read_textstructure(str(input_file))["crater"]
         for diam, lon, lat in zip(table["diam"], table["lon"], table["lat"], strict=True):
-            crater = cls.maker(diameter=float(diam) * 1e3, location=(float(lon), float(lat)))
+            crater = cls.maker(diameter=float(diam) * 1e3, location=(float(lon), float(lat)), **kwargs)
             craters.append(crater)
 
         return craters
 
     @classmethod
-    def from_xarray(cls, dataset: xr.Dataset | dict, interval: int | None = None) -> list[Crater]:
+    def from_xarray(cls, dataset: xr.Dataset | dict, interval: int | None = None, **kwargs: Any) -> list[Crater]:
         """
         Import crater data from an xarray Dataset.
 
@@ -1392,6 +1396,8 @@ class Crater(ComponentBase):
         ----------
         dataset : xr.Dataset | dict
             The xarray Dataset containing crater data or a dictionary of xarray Datasets keyed by interval number.
+        **kwargs : Any
+            |kwargs|
 
         Returns
         -------
@@ -1430,7 +1436,7 @@ class Crater(ComponentBase):
                     crater_data[k] = None
             # A property that only other craters have was not set for this one
             crater_data = {k: v for k, v in crater_data.items() if v is not None}
-            crater = cls.maker(**crater_data, check_redundant_inputs=False)
+            crater = cls.maker(**{**kwargs, **crater_data}, check_redundant_inputs=False)
             craters.append(crater)
 
         return craters
diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 7042f2f..f055150 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1303,7 +1303,8 @@ class Production(ComponentBase):
             else:
                 raise TypeError("quasimc_file must be a string or Path")
 
-            self.quasimc_craters = self.Crater.from_file(self._quasimc_file)
+            # What the file doesn't contain is drawn from the stream of random numbers of this component
+            self.quasimc_craters = self.Crater.from_file(self._quasimc_file, rng=self.rng)
         return
 
     @property
-- 
2.43.0


From d1cc564a72488a13f3ecc6ab5b6bc9f9f7a03639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:17 +0000
Subject: [PATCH 113/115] fix: a crash before the first save of a run loses the
 initial state

---
 cratermaker/core/simulation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 76fc5e4..a9fa69a 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -624,9 +624,16 @@ class Simulation(CratermakerBase):
             time_interval = time_start - time_end
 
         # If this is a fresh run, we need to set the value of the current time based on the requested starting condition.
-        if self._time is None:
-            self.time = time_start
-            self.interval = 0
+        is_fresh = self._time is None
+        if is_fresh:
+            # This must not be found in the configuration file before the initial state has been saved
+            config_readonly = self.config_readonly
+            object.__setattr__(self, "_config_readonly", True)
+            try:
+                self.time = time_start
+                self.interval = 0
+            finally:
+                object.__setattr__(self, "_config_readonly", config_readonly)
 
         # If this is a restarted run, we need to distinguish between a true restart and a continuation with different parameters
         if time_start < self.time:
@@ -655,7 +662,7 @@ class Simulation(CratermakerBase):
         if self.time <= time_end:  # There is nothing left to run
             initial_interval = ninterval
 
-        if self.is_new:
+        if self.is_new or is_fresh:
             self.save(**kwargs)
 
         with tqdm(
-- 
2.43.0


From 4736d699bda3474102feef9ac8179e784e2f5fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:17 +0000
Subject: [PATCH 114/115] fix: a crash while the surface is being created
 leaves it without elevations

---
 cratermaker/components/surface/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 0866d57..e0d5a39 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -243,8 +243,9 @@ class Surface(ComponentBase):
                 long_name=entry["long_name"],
                 units=entry["units"],
                 isfacedata=entry["isfacedata"],
-                save_to_file=True,
             )
+        # All variables at once, so that the file is never found with only some of them
+        self._save_data(self.uxds.drop_vars("interval", errors="ignore"))
         self.is_new = True
 
         return True
-- 
2.43.0


From a5c1957951db7257f440b63c58db9eb23d1108dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:17 +0000
Subject: [PATCH 115/115] fix: a grid that was made without data makes the
 directory unusable

---
 cratermaker/components/surface/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index e0d5a39..2c17bff 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1094,10 +1094,11 @@ class Surface(ComponentBase):
         """
         # Get the names of all data files in the data directory that are not the grid file
         regrid = self._regrid_if_needed(regrid=regrid, **kwargs)
-        reset = reset or regrid
-        self.is_new = reset
         # Read in only one saved data file
         saved_intervals = [saved_interval for saved_interval, _ in self._saved_data_files(self.output_file_pattern[0])]
+        # When there is a grid without any data, then the surface was never completely created
+        reset = reset or regrid or not saved_intervals
+        self.is_new = reset
         if interval >= 0 and interval not in saved_intervals:
             interval = -1
         uxds = self.read_saved_output(interval=interval, reset=reset, **kwargs)
-- 
2.43.0

