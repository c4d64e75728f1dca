From 1d0d5ef1bdeb40511c4375cd4eb7bf154d917d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 01/42] fix: GridProperty.get_data returns a copy so that
 masking does not destroy the stored data

---
 GridProperty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index c07972e..39899c7 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -160,7 +160,7 @@ class GridProperty:
             The grid property data.
         """
         masked = validate.boolean(masked, "masked")
-        data = self.data
+        data = np.copy(self.data)
 
         if masked and self.mask is not None:
             data[self.mask] = np.nan
-- 
2.43.0


From dbb9c87f98f708c1801a83e5ca45610576717578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 02/42] fix: pass the directory when saving the diagnostics of
 a shallot grid

---
 Shallot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index d1a05a9..343de70 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -209,7 +209,7 @@ class ShallotGrid:
                 gradient.save_gradient(directory)
 
         if self.diagnostics is not None:
-            self.diagnostics.save()
+            self.diagnostics.save(directory)
 
  
     def _load_grid_attributes(self, directory: str) -> None:
-- 
2.43.0


From 9096b08ce0fdc5637af2ea74801f2ca3131d2834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 03/42] fix: keep the extended flag of grid diagnostics through
 save and load

---
 GridDiagnostics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/GridDiagnostics.py b/GridDiagnostics.py
index 5f34617..47b1145 100644
--- a/GridDiagnostics.py
+++ b/GridDiagnostics.py
@@ -191,6 +191,7 @@ class GridDiagnostics:
         np.save(f"{directory}/disk_radius_dict", self._disk_radius_dict)
 
         np.save(f"{directory}/max_yx", np.array([self._max_y, self._max_x]))
+        np.save(f"{directory}/extended", np.array([self._extended]))
 
 
     @classmethod
@@ -223,6 +224,11 @@ class GridDiagnostics:
             max_y, max_x = np.load(f"{directory}/max_yx.npy")
             grid_diagnostics._max_x = max_x
             grid_diagnostics._max_y = max_y
+
+            # files saved before the extended flag was stored do not have it
+            if os.path.exists(f"{directory}/extended.npy"):
+                extended = np.load(f"{directory}/extended.npy")[0]
+                grid_diagnostics._extended = bool(extended)
         
         except Exception:
             raise LoadError("grid diagnostics", directory) 
-- 
2.43.0


From ed97adf621c1fc2c71f159f67aa94494f56aeb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 04/42] fix: keep user set gradient masks through save and
 load, and drop stale mask files when saving

---
 GridProperty.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 39899c7..0d4aed2 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -301,9 +301,12 @@ class GridProperty:
         filename_data = f"{self.name.name}_{self.unit.name}"
         np.save(f"{directory}/{filename_data}", self.data)
         
+        filepath_mask = f"{directory}/{filename_data}_mask.npy"
         if self.mask is not None:
-            filename_mask = f"{filename_data}_mask"
-            np.save(f"{directory}/{filename_mask}", self.mask)
+            np.save(filepath_mask, self.mask)
+        elif os.path.exists(filepath_mask):
+            # a previous save left a mask this property does not have
+            os.remove(filepath_mask)
 
         self.grid_parameters.save(directory)
 
@@ -539,11 +542,14 @@ class GridGradient(GridProperty):
         # save additional gradient information
         np.save(f"{gradient_directory}/position", np.array([self.position]))
 
+        filepath_mask_values = f"{gradient_directory}/mask_values.npy"
         if self.measured_gradient is not None:
             mask_values = np.array([self.measured_gradient, 
                 self.orbital_scale, self.transmission_change, 
                 self.measured_error])
-            np.save(f"{gradient_directory}/mask_values", mask_values)
+            np.save(filepath_mask_values, mask_values)
+        elif os.path.exists(filepath_mask_values):
+            os.remove(filepath_mask_values)
         
         self.grid_parameters.save(directory)
 
@@ -581,6 +587,11 @@ class GridGradient(GridProperty):
                 mask_values = np.load(filepath_mask_values)
                 grid_gradient.determine_mask(*mask_values)
 
+            # a mask set by the user takes precedence
+            filepath_mask = f"{directory}/{name.name}_{unit.name}_mask.npy"
+            if os.path.exists(filepath_mask):
+                grid_gradient.mask = np.load(filepath_mask)
+
         except Exception:
             type_string = f"{name.get_name()} [{unit.__str__()}]"
             raise LoadError(type_string, directory)
-- 
2.43.0


From 3b6028ece5bfa3b680bf210ea8941d298a7c5e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 05/42] fix: restore the gradients of a shallot grid when it is
 loaded

---
 GridProperty.py |  9 +++++++--
 Shallot.py      | 23 +++++++++--------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 0d4aed2..a3d2e83 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -522,7 +522,7 @@ class GridGradient(GridProperty):
         self.mask = mask.astype(bool)
 
  
-    def save_gradient(self, directory: str) -> None:
+    def save_gradient(self, directory: str, name: str = None) -> None:
         """
         This method saves all the information of this object to a specified
         directory.
@@ -531,9 +531,14 @@ class GridGradient(GridProperty):
         ----------
         directory : str
             File path for the saved information.
+        name : str
+            Name of the sub-directory for this gradient [default = None -->
+            based on the position].
         """
         # change the directory as there can be multiple gradients
-        gradient_directory = f"{directory}/gradient_{self.position:.4f}"
+        if name is None:
+            name = f"gradient_{self.position:.4f}"
+        gradient_directory = f"{directory}/{name}"
         if not os.path.exists(gradient_directory):
             os.mkdir(gradient_directory)
 
diff --git a/Shallot.py b/Shallot.py
index 343de70..45575c9 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -205,8 +205,8 @@ class ShallotGrid:
         self.fy_map.save(directory)
 
         if self.gradients is not None:
-            for gradient in self.gradients:
-                gradient.save_gradient(directory)
+            for k, gradient in enumerate(self.gradients):
+                gradient.save_gradient(directory, f"gradient_{k}")
 
         if self.diagnostics is not None:
             self.diagnostics.save(directory)
@@ -242,19 +242,14 @@ class ShallotGrid:
         except LoadError:
             self.logger.debug("no diagnostics found")
         
-        try:
-            self.gradients = []
-            files = os.listdir(directory)
-            
-            for f in files:
-                if os.path.splitext(f)[1] == "":
-                    gradient = GridGradient.load_gradient(f"{directory}/{f}")
-                    self.gradients.append(gradient)
-            
-            if len(self.gradients) == 0:
-                self.gradients = None
+        self.gradients = []
+        while os.path.isdir(f"{directory}/gradient_{len(self.gradients)}"):
+            gradient = GridGradient.load(
+                f"{directory}/gradient_{len(self.gradients)}")
+            self.gradients.append(gradient)
         
-        except LoadError:
+        if len(self.gradients) == 0:
+            self.gradients = None
             self.logger.debug("no gradients found")
 
 
-- 
2.43.0


From 0b5dcfeeedf195874ed5215161b1a13820f6eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 06/42] fix: keep the intermittently saved progress when a grid
 build is resumed or another grid is built

---
 Shallot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 45575c9..5f78748 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -947,7 +947,8 @@ class ShallotGrid:
         if start_y == 0:
             self._initialise_grid_properties()
 
-        if intermittent_saving:
+        # when resuming, the saved progress is kept until it is replaced
+        if intermittent_saving and start_y == 0:
             self._create_temp_save_dir()
 
         # extract parameters
@@ -996,7 +997,9 @@ class ShallotGrid:
                 self.save(TEMP_SAVE_DIR, y_value=y)
 
         self._set_grid_property_contrast_parameters()
-        self._delete_temp_save_dir()
+
+        if intermittent_saving:
+            self._delete_temp_save_dir()
 
  
     def get_disk_radius(self, 
-- 
2.43.0


From 37150dd0e77b7431b2c6720e3fab9f5bc89ef283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 07/42] fix: use the y shift for the upper y limit of the ring
 system plot

---
 RingSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RingSystem.py b/RingSystem.py
index 645cb8c..cca8ab3 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -697,7 +697,7 @@ class RingSystem:
         # determine and set limits
         disk_radius = self.get_outer_radii()[-1]
         xlim = (x_shift - disk_radius - 2, x_shift + disk_radius + 2)
-        ylim = (y_shift - disk_radius - 2, x_shift + disk_radius + 2)
+        ylim = (y_shift - disk_radius - 2, y_shift + disk_radius + 2)
         ax.set_xlim(xlim)
         ax.set_ylim(ylim)
         
-- 
2.43.0


From 839952ec49ba14ceb85c9e4298ed5cec71b7719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 08/42] fix: remove the coordinates of other slices in the grid
 property viewer without assigning to Axes.lines

---
 GridProperty.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index a3d2e83..405b34c 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -663,6 +663,7 @@ class GridPropertyViewer:
                     raise ValueError("all input coordinates must be tuples "
                         "with three values")
         self.coordinates = coordinates
+        self.coordinate_lines = []
         self.tolerance = np.abs(self.slice_values[1] - self.slice_values[0]) / 3
 
         self.slice_name = ["$y$", "$x$", "$R_f$"][axis]
@@ -857,7 +858,10 @@ class GridPropertyViewer:
         if self.coordinates is None:
             return
 
-        plotted = False
+        # remove the points of the slice viewed before
+        for line in self.coordinate_lines:
+            line.remove()
+        self.coordinate_lines = []
 
         for coordinate in self.coordinates:
             distance = np.abs(self.slice_values[self.index] - 
@@ -865,8 +869,4 @@ class GridPropertyViewer:
 
             if self.tolerance > distance:
                 y, x = np.delete(coordinate, self.axis)
-                self.ax.plot(x, y, "ro")
-                plotted = True
-        
-        if not plotted:
-            self.ax.lines = []
\ No newline at end of file
+                self.coordinate_lines += self.ax.plot(x, y, "ro")
\ No newline at end of file
-- 
2.43.0


From 6c02919a6854dc747b3b756f776144c579edcf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 09/42] fix: place the coordinates in the viewer at the
 locations of their rf value on the rf axis

---
 GridProperty.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index 405b34c..56f0071 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -664,6 +664,7 @@ class GridPropertyViewer:
                         "with three values")
         self.coordinates = coordinates
         self.coordinate_lines = []
+        self.rf_range = np.ptp(grid_property.grid_parameters.rf)
         self.tolerance = np.abs(self.slice_values[1] - self.slice_values[0]) / 3
 
         self.slice_name = ["$y$", "$x$", "$R_f$"][axis]
@@ -869,4 +870,8 @@ class GridPropertyViewer:
 
             if self.tolerance > distance:
                 y, x = np.delete(coordinate, self.axis)
+                if self.axis != 2:
+                    # rf is found on both sides of the rf = 1 location
+                    x = self.rf_range + np.array([-1, 1]) * (x - 1)
+                    y = np.array([y, y])
                 self.coordinate_lines += self.ax.plot(x, y, "ro")
\ No newline at end of file
-- 
2.43.0


From 7fd8055f7ac23881e8a9e6c3c2734449ed6a4aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 10/42] fix: remove a gradient once when its index is repeated

---
 Shallot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 5f78748..0091f6c 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1542,7 +1542,7 @@ class ShallotGrid:
 
         indices = validate.array(indices, "indices", num_dimensions=1, 
             lower_bound=0, upper_bound=len(self.gradients) - 1, dtype="int64")
-        sorted_indices = np.flip(np.sort(indices))
+        sorted_indices = np.flip(np.unique(indices))
         
         for index in sorted_indices:
             del self.gradients[index]
-- 
2.43.0


From 2379ca2ee511d79dee2ffab03368ab55db3b73fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 11/42] fix: compare the impact parameter with the dy values of
 the grid when finding the closest grid point

---
 Shallot.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 0091f6c..da054bf 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1978,19 +1978,12 @@ class ShallotGrid:
         
         # get grid parameters
         dx = self.parameters.dx.flatten()
-        x_min, x_max = dx[0], dx[-1]
-        x_num = len(dx)
-        
         dy = self.parameters.dy.flatten()
-        y_min, y_max = dy[0], dy[-1]
-        y_num = len(dy)
 
         rf_array = self.parameters.rf_array
         
         # construct position grid
-        yy, xx = np.mgrid[:y_num, :x_num]
-        xx = xx / x_num * (x_max - x_min) + x_min
-        yy = yy / y_num * (y_max - y_min) + y_min
+        yy = np.repeat(dy[:, None], len(dx), 1)
 
         # ensure selecting the right portion of the grid
         if impact_parameter < 0:
-- 
2.43.0


From 56876cd8aac7a8225301fc2656a47505b13d4adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 12/42] fix: reject a grid point index equal to the size of the
 grid dimension

---
 Shallot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index da054bf..a0fbfcf 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -2072,11 +2072,11 @@ class ShallotGrid:
         # validations
         max_y, max_x, max_rf = self.parameters.grid_shape
         y_index = validate.number(y_index, "y_index", check_integer=True, 
-            lower_bound=0, upper_bound=max_y)
+            lower_bound=0, upper_bound=max_y - 1)
         x_index = validate.number(x_index, "x_index", check_integer=True,
-            lower_bound=0, upper_bound=max_x)
+            lower_bound=0, upper_bound=max_x - 1)
         rf_index = validate.number(rf_index, "rf_index", check_integer=True,
-            lower_bound=0, upper_bound=max_rf)
+            lower_bound=0, upper_bound=max_rf - 1)
 
         # disk information
         disk_radius = self.get_disk_radius(masked)[y_index, x_index, rf_index]
-- 
2.43.0


From ae37b13553d519933d3e1074b164e631638e4b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 13/42] fix: leave a grid gradient unchanged when
 determine_mask rejects its input

---
 GridProperty.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 56f0071..6d616f4 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -500,23 +500,38 @@ class GridGradient(GridProperty):
             This is the error on the measurement of the measured gradient 
             [default = None].
         """
-        self.measured_gradient = validate.number(measured_gradient, 
+        measured_gradient = validate.number(measured_gradient, 
             "measured_gradient", lower_bound=0)
         
-        self.orbital_scale = validate.number(orbital_scale, 
+        orbital_scale = validate.number(orbital_scale, 
             "orbital_scale", lower_bound=0)
         
         if transmission_change is None:
             transmission_change = 1
-        self.transmission_change = validate.number(transmission_change, 
+        transmission_change = validate.number(transmission_change, 
             "transmission_change", lower_bound=0, upper_bound=1)
 
         if measured_error is None:
             measured_error = 1
-        self.measured_error = validate.number(measured_error, "measured_error",
+        measured_error = validate.number(measured_error, "measured_error",
             lower_bound=0.)
 
-        scaled_gradient = self.get_scaled_gradient()
+        # a rejected scaled gradient must not change the grid gradient
+        previous = (self.measured_gradient, self.orbital_scale, 
+            self.transmission_change, self.measured_error)
+
+        self.measured_gradient = measured_gradient
+        self.orbital_scale = orbital_scale
+        self.transmission_change = transmission_change
+        self.measured_error = measured_error
+
+        try:
+            scaled_gradient = self.get_scaled_gradient()
+        except Exception:
+            (self.measured_gradient, self.orbital_scale, 
+                self.transmission_change, self.measured_error) = previous
+            raise
+
         mask = (scaled_gradient > self.data).astype(float)
         mask += np.isnan(self.data).astype(float)
         self.mask = mask.astype(bool)
-- 
2.43.0


From 5369b872129ff3394ebcfac38c9b1c4e494601a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 14/42] fix: leave the gradients unchanged when add_gradients
 rejects its input

---
 Shallot.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index a0fbfcf..05d8152 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1518,10 +1518,18 @@ class ShallotGrid:
 
         # convert gradients
         positions = -times / self._eclipse_duration
-        self._determine_disk_gradients(positions)
+        previous_gradients = self.gradients
+        if previous_gradients is not None:
+            self.gradients = list(previous_gradients)
 
-        self._set_measured_gradients_and_masks(light_curve_gradients, 
-            light_curve_gradient_errors, transmission_changes)
+        # rejected input must not leave gradients without measurements behind
+        try:
+            self._determine_disk_gradients(positions)
+            self._set_measured_gradients_and_masks(light_curve_gradients, 
+                light_curve_gradient_errors, transmission_changes)
+        except Exception:
+            self.gradients = previous_gradients
+            raise
         
         self._reset_gradient_fit()
 
-- 
2.43.0


From 39f7769fc75f353ae923ebce6993339f35faa315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 15/42] fix: set the eclipse parameters only when all of them
 are valid

---
 Shallot.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 05d8152..e234ce0 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1578,12 +1578,16 @@ class ShallotGrid:
             This is the parameter that defines the limb darkening according to
             the linear limb darkening law [-].
         """
-        self._eclipse_duration = validate.number(eclipse_duration, 
+        eclipse_duration = validate.number(eclipse_duration, 
             "eclipse_duration", lower_bound=0.)
-        self._transverse_velocity = validate.number(transverse_velocity, 
+        transverse_velocity = validate.number(transverse_velocity, 
             "transverse_velocity", lower_bound=0.)
-        self._limb_darkening = validate.number(limb_darkening, 
+        limb_darkening = validate.number(limb_darkening, 
             "limb_darkening", lower_bound=0., upper_bound=1.)
+
+        self._eclipse_duration = eclipse_duration
+        self._transverse_velocity = transverse_velocity
+        self._limb_darkening = limb_darkening
         
         # gradients and gradient fit reset due to eclipse duration dependency
         if self.gradients is not None:
-- 
2.43.0


From f9b860bbb7533527e11fac705c5a87e762600ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 16/42] fix: validate the scaling factors of
 update_gradient_scaling and apply them to all gradients or none

---
 Shallot.py | 56 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index e234ce0..ba63b9c 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1,5 +1,6 @@
 # type hints
 from __future__ import annotations
+from copy import copy
 from enum import Enum
 
 # generic modules
@@ -1640,11 +1641,13 @@ class ShallotGrid:
         update_orbital_scale = False
         
         if transverse_velocity is not None:
-            self._transverse_velocity = transverse_velocity
+            transverse_velocity = validate.number(transverse_velocity, 
+                "transverse_velocity", lower_bound=0.)
             update_orbital_scale = True
         
         if limb_darkening is not None:
-            self._limb_darkening = limb_darkening
+            limb_darkening = validate.number(limb_darkening, 
+                "limb_darkening", lower_bound=0., upper_bound=1.)
             update_orbital_scale = True
 
         # update transmission change scale
@@ -1652,7 +1655,7 @@ class ShallotGrid:
         if transmission_changes is not None:
             transmission_changes = validate.array(transmission_changes, 
                 "transmission_changes", dtype="float64", num_dimensions=1, 
-                lower_bound=-1, upper_bound=1)
+                lower_bound=0, upper_bound=1)
 
             arrays_list = [transmission_changes, np.array(self.gradients)]
             names_list = ["transmission_changes", "gradients"]
@@ -1664,22 +1667,41 @@ class ShallotGrid:
             self.logger.info("no changes passed")
             return
         
-        for k, gradient in enumerate(self.gradients):
-            # select orbital scale
-            if update_orbital_scale:
-                orbital_scale = self._determine_orbital_scale()
-            else:
-                orbital_scale = gradient.orbital_scale
+        # rejected scaling factors must not leave a partial update behind
+        previous_parameters = (self._transverse_velocity, self._limb_darkening)
+        previous_gradients = self.gradients
+        if previous_gradients is not None:
+            previous_gradients = [copy(gradient) for gradient in self.gradients]
 
-            # select transmission scale
-            if update_transmission_change:
-                transmission_change = transmission_changes[k]
-            else:
-                transmission_change = gradient.transmission_change
+        if transverse_velocity is not None:
+            self._transverse_velocity = transverse_velocity
+        if limb_darkening is not None:
+            self._limb_darkening = limb_darkening
 
-            # update mask
-            gradient.determine_mask(gradient.measured_gradient, orbital_scale, 
-                transmission_change, gradient.measured_error)
+        try:
+            for k, gradient in enumerate(self.gradients or []):
+                # select orbital scale
+                if update_orbital_scale:
+                    orbital_scale = self._determine_orbital_scale()
+                else:
+                    orbital_scale = gradient.orbital_scale
+
+                # select transmission scale
+                if update_transmission_change:
+                    transmission_change = transmission_changes[k]
+                else:
+                    transmission_change = gradient.transmission_change
+
+                # update mask
+                gradient.determine_mask(gradient.measured_gradient, 
+                    orbital_scale, transmission_change, 
+                    gradient.measured_error)
+        
+        except Exception:
+            self._transverse_velocity, self._limb_darkening = (
+                previous_parameters)
+            self.gradients = previous_gradients
+            raise
         
         self._reset_gradient_fit()
         
-- 
2.43.0


From e55840871aa7253b460f40867b67995f16ba9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 17/42] fix: reflect the dx and dy vectors when extending so
 that 0 stays exact and single element vectors work

---
 GridParameters.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/GridParameters.py b/GridParameters.py
index 19dde72..a0ba26f 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -222,12 +222,10 @@ class GridParameters:
         if not self.extendable:
             raise AttributeError("This grid parameter object can not be "
                 "extended. That is only possible when dx[0] = dy[0] = 0.")
-        num_y, num_x = self.slice_shape
-        max_y = self.dy[-1, 0, 0]
-        max_x = self.dx[0, -1, 0]
         
-        self.dx = self._determine_dx(-max_x, max_x, 2 * num_x - 1)
-        self.dy = self._determine_dy(-max_y, max_y, 2 * num_y - 1)
+        # reflecting keeps 0 exact, and works for a single element as well
+        self.dx = np.concatenate((-np.flip(self.dx[:, 1:], 1), self.dx), 1)
+        self.dy = np.concatenate((-np.flip(self.dy[1:], 0), self.dy), 0)
         self._set_grid_and_slice_shape()
         self._set_extendable()
 
-- 
2.43.0


From 82a59f095e6665e426403cf38a74575d8c5836d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 18/42] fix: find the smallest disks of grids with maximum dx
 or dy values smaller than one

---
 Shallot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index ba63b9c..ec8465c 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -739,7 +739,7 @@ class ShallotGrid:
         # extracting parameters
         circular_radius_value = self.circular_radius[y, 0, 0]
         shear_value = self.shear[y, x, 0]
-        max_value = self.parameters.dx.max()
+        max_value = max(1, np.abs(self.parameters.dx).max())
         max_rf = self.parameters.rf[-1]
         
         # loop parameters
@@ -811,7 +811,7 @@ class ShallotGrid:
         # extracting parameters
         circular_radius_value = self.circular_radius[y, 0, 0]
         shear_value = self.shear[y, x, 0]
-        max_value = self.parameters.dy.max()
+        max_value = max(1, np.abs(self.parameters.dy).max())
         max_rf = self.parameters.rf[-1]
         
         # loop parameters
-- 
2.43.0


From 2549ef9ef1379491934068eb9c7a6099bc13d54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 19/42] fix: find the smallest disks of grids with a maximum rf
 of one

---
 Shallot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index ec8465c..8198628 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -740,7 +740,8 @@ class ShallotGrid:
         circular_radius_value = self.circular_radius[y, 0, 0]
         shear_value = self.shear[y, x, 0]
         max_value = max(1, np.abs(self.parameters.dx).max())
-        max_rf = self.parameters.rf[-1]
+        # go slightly further so that the search also passes rf = 1
+        max_rf = self.parameters.rf[-1] * (1 + 1e-9)
         
         # loop parameters
         shift = 1
@@ -812,7 +813,8 @@ class ShallotGrid:
         circular_radius_value = self.circular_radius[y, 0, 0]
         shear_value = self.shear[y, x, 0]
         max_value = max(1, np.abs(self.parameters.dy).max())
-        max_rf = self.parameters.rf[-1]
+        # go slightly further so that the search also passes rf = 1
+        max_rf = self.parameters.rf[-1] * (1 + 1e-9)
         
         # loop parameters
         shift = 1
-- 
2.43.0


From 220fbaa2cf123674dd877c2d6631460cddc48627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 20/42] fix: reject nan for numbers and arrays that must lie
 within bounds

---
 validate.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/validate.py b/validate.py
index 782e3fb..4626ae5 100644
--- a/validate.py
+++ b/validate.py
@@ -143,6 +143,11 @@ def _number_bounds(
         raise ValueError(f"The upper_bound argument ({upper_bound:.4f}) must "
             f"be greater than the lower_bound ({lower_bound:.4f}) argument.")
 
+    # nan compares false with every bound
+    bounded = lower_bound > -np.inf or upper_bound < np.inf
+    if bounded and number != number:
+        raise ValueError(f"The {name} argument must not be nan")
+
     # validate number bounds
     raise_error = False
     message = f"The {name} argument must be "
@@ -283,6 +288,11 @@ def _array_bounds(
             f"be greater than the lower_bound ({lower_bound:.4f}) argument.")
 
 
+    # nan compares false with every bound
+    bounded = lower_bound > -np.inf or upper_bound < np.inf
+    if bounded and np.any(array != array):
+        raise ValueError(f"The {array_name} argument must not contain nan")
+
     # validate array bounds
     raise_error = False
     message = f"The {array_name} argument must contain solely values "
-- 
2.43.0


From a6a5fcb7aba7032205340f78480917bfc2de9df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 21/42] fix: merge rings of an empty ring system and with a
 tolerance of zero

---
 RingSystem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/RingSystem.py b/RingSystem.py
index cca8ab3..66f3fa2 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -570,6 +570,10 @@ class RingSystem:
             can vary from the outer radius of previous ring. This value is
             necessary due to e.g. floating point representations.
         """
+        if self.get_num_rings() == 0:
+            self.logger.info("no rings to merge")
+            return
+
         # set up new initial conditions and rings array
         merged_rings = np.array([]).astype(Ring)
 
@@ -580,7 +584,7 @@ class RingSystem:
         debug_before = self._print_changes("merge_rings()", before=True)
 
         for ring_index, ring in enumerate(self.rings):
-            adjacent = np.abs(ring.inner_radius - outer_radius) < tolerance
+            adjacent = np.abs(ring.inner_radius - outer_radius) <= tolerance
             
             if adjacent and ring.transmission == transmission:
                 # grow the ring
-- 
2.43.0


From d22b26cdace21aaaca1eedd10b30055642d2b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 22/42] fix: plot a ring system without rings or with a planet
 larger than its rings in full

---
 RingSystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RingSystem.py b/RingSystem.py
index 66f3fa2..bc52080 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -699,7 +699,8 @@ class RingSystem:
         ax.set_ylabel("$y [R_*]$")
 
         # determine and set limits
-        disk_radius = self.get_outer_radii()[-1]
+        disk_radius = np.append(self.get_outer_radii(), 
+            self.planet_radius).max()
         xlim = (x_shift - disk_radius - 2, x_shift + disk_radius + 2)
         ylim = (y_shift - disk_radius - 2, y_shift + disk_radius + 2)
         ax.set_xlim(xlim)
-- 
2.43.0


From 1f2b922eac6af7bfe14d87fea9d22a7eaedba371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 23/42] fix: represent grid properties without valid data and
 gradients with a user set mask

---
 GridProperty.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 6d616f4..bec921c 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -108,8 +108,10 @@ class GridProperty:
 
         lines.append(parameter)
         lines.append(28 * "-")
-        min_value_string = f"{self.vmin:.4f}".rjust(13)
-        max_value_string = f"{self.vmax:.4f}".rjust(13)
+        vmin = np.nan if self.vmin is None else self.vmin
+        vmax = np.nan if self.vmax is None else self.vmax
+        min_value_string = f"{vmin:.4f}".rjust(13)
+        max_value_string = f"{vmax:.4f}".rjust(13)
         mean_value_string = f"{np.nanmean(self.data):.4f}".rjust(13)
         median_value_string = f"{np.nanmedian(self.data):.4f}".rjust(13)
         lines.append(f"min value:    {min_value_string}")
@@ -420,7 +422,7 @@ class GridGradient(GridProperty):
         
         position = f"{self.position:.4f}".rjust(7)
         lines[1] = lines[1] + f" @ pos = {position}"
-        if self.mask is not None:
+        if self.measured_gradient is not None:
             measured_gradient = f"{self.measured_gradient:.4f}".rjust(6)
             lines.append(f"measured gradient:   {measured_gradient}")
             measured_error = f"{self.measured_error:.4f}".rjust(6)
-- 
2.43.0


From 9d7130d2ba340e5d1919511927cc8e8593bdbe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 24/42] fix: keep the eclipse parameters and the gradient fit
 of a shallot grid through save and load

---
 Shallot.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index 8198628..808fa8b 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -209,6 +209,14 @@ class ShallotGrid:
             for k, gradient in enumerate(self.gradients):
                 gradient.save_gradient(directory, f"gradient_{k}")
 
+        if self.gradient_fit is not None:
+            self.gradient_fit.save(directory)
+
+        if self._eclipse_duration is not None:
+            eclipse_parameters = np.array([self._eclipse_duration, 
+                self._transverse_velocity, self._limb_darkening])
+            np.save(f"{directory}/eclipse_parameters", eclipse_parameters)
+
         if self.diagnostics is not None:
             self.diagnostics.save(directory)
 
@@ -253,6 +261,17 @@ class ShallotGrid:
             self.gradients = None
             self.logger.debug("no gradients found")
 
+        try:
+            self.gradient_fit = GridProperty.load(directory,
+                GridPropertyName.GRADIENT_FIT, GridPropertyUnit.NONE)
+        except LoadError:
+            self.logger.debug("no gradient fit found")
+
+        filepath_eclipse = f"{directory}/eclipse_parameters.npy"
+        if os.path.exists(filepath_eclipse):
+            (self._eclipse_duration, self._transverse_velocity, 
+                self._limb_darkening) = np.load(filepath_eclipse)
+
 
     @classmethod
     def load(cls, 
-- 
2.43.0


From 0b861f2d6ebc48f1bc9798b7b67889b00059451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 25/42] fix: give disks with a vertical tangent at the measured
 position a gradient of one instead of masking them

---
 Shallot.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 808fa8b..8811647 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1368,13 +1368,11 @@ class ShallotGrid:
             denominator = ((self.shear**2 * fy_map**2 + fx_map**2) 
                 * y + self.shear * fy_map**2 * x)
             
-            # prevent divide by 0 error
-            tangent = np.nan * np.ones(self.parameters.grid_shape)
-            mask = (denominator != 0)
-            tangent[mask] = (numerator[mask] / denominator[mask])
-
-            # set tangent
-            disk_gradient = np.abs(np.sin(np.arctan2(tangent, 1)))
+            # set sine of the tangent (vertical if the denominator is 0, and
+            # only undefined at the centre of the ellipse where both are 0)
+            with np.errstate(invalid="ignore"):
+                disk_gradient = (np.abs(numerator) / 
+                    np.hypot(numerator, denominator))
             
             self.gradients.append(GridGradient(disk_gradient, 
                 self.parameters, position))
-- 
2.43.0


From c9aa0676f42e81b46c6eb0da4b39395356a13eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 26/42] fix: keep the masks of a loaded grid with a single
 point at the origin when it is extended

---
 Shallot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index 8811647..caedfc4 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1300,6 +1300,10 @@ class ShallotGrid:
         extended_property = GridProperty(disk_property.name, 
             disk_property.unit, full_property, self.parameters)
 
+        # a single point is all of its quadrants, and can have a mask
+        if disk_property.data.shape == final_shape:
+            extended_property.mask = disk_property.mask
+
         if is_tilt:
             extended_property.set_contrast_parameters(color_map="twilight")
         
-- 
2.43.0


From 926c08fbabb63358d2d3704288e8821fe5a27378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 27/42] fix: keep the saved progress when a build is resumed at
 the first row

---
 Shallot.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index caedfc4..9073034 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -941,7 +941,7 @@ class ShallotGrid:
  
     def _build_grid(self, 
             intermittent_saving: bool, 
-            start_y: int = 0
+            start_y: int = None
         ) -> None:
         """
         This method is used to build the shallot grid. It does this grid point
@@ -956,21 +956,24 @@ class ShallotGrid:
             progress after every y iteration. This is useful for very large
             refined grids.
         start_y : int
-            This is the integer to start the y building of the grid at 
-            [default = 0 --> new grid].
+            This is the integer to resume the y building of the grid at 
+            [default = None --> new grid].
         """
         # validate
         intermittent_saving = validate.boolean(intermittent_saving, 
             "intermittent_saving")
+        new_grid = start_y is None
+        if new_grid:
+            start_y = 0
         start_y = validate.number(start_y, "start_y", check_integer=True, 
             lower_bound=0, upper_bound=len(self.parameters.dy))
 
         # properties
-        if start_y == 0:
+        if new_grid:
             self._initialise_grid_properties()
 
         # when resuming, the saved progress is kept until it is replaced
-        if intermittent_saving and start_y == 0:
+        if intermittent_saving and new_grid:
             self._create_temp_save_dir()
 
         # extract parameters
-- 
2.43.0


From f92be21fe91fbd76d90cebf647ad5006bf37f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 28/42] fix: view cubes with a single slice along the scrolling
 axis

---
 GridProperty.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index bec921c..04b6b71 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -682,7 +682,11 @@ class GridPropertyViewer:
         self.coordinates = coordinates
         self.coordinate_lines = []
         self.rf_range = np.ptp(grid_property.grid_parameters.rf)
-        self.tolerance = np.abs(self.slice_values[1] - self.slice_values[0]) / 3
+        # a single slice is the closest one to every coordinate
+        self.tolerance = np.inf
+        if len(self.slice_values) > 1:
+            self.tolerance = np.abs(self.slice_values[1] - 
+                self.slice_values[0]) / 3
 
         self.slice_name = ["$y$", "$x$", "$R_f$"][axis]
         
-- 
2.43.0


From 5cfdc992edab2b85c2ba28f3baf2372a57c46ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 29/42] fix: print the smallest and largest value of a property
 instead of its contrast limits

---
 GridProperty.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 04b6b71..2f19ec9 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -108,10 +108,8 @@ class GridProperty:
 
         lines.append(parameter)
         lines.append(28 * "-")
-        vmin = np.nan if self.vmin is None else self.vmin
-        vmax = np.nan if self.vmax is None else self.vmax
-        min_value_string = f"{vmin:.4f}".rjust(13)
-        max_value_string = f"{vmax:.4f}".rjust(13)
+        min_value_string = f"{np.nanmin(self.data):.4f}".rjust(13)
+        max_value_string = f"{np.nanmax(self.data):.4f}".rjust(13)
         mean_value_string = f"{np.nanmean(self.data):.4f}".rjust(13)
         median_value_string = f"{np.nanmedian(self.data):.4f}".rjust(13)
         lines.append(f"min value:    {min_value_string}")
-- 
2.43.0


From dc025f8f00979a791a0afe08ecdc396b310fdf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 30/42] fix: a ring passed to a ring system was changed and
 shared with it

---
 RingSystem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RingSystem.py b/RingSystem.py
index bc52080..39b9f75 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -1,5 +1,6 @@
 # generic modules
 import logging
+from copy import copy
 import numpy as np
 import matplotlib.pyplot as plt
 from matplotlib.patches import Circle
@@ -430,6 +431,8 @@ class RingSystem:
             self.logger.info(f"ring tilt overridden from {ring.tilt:.2f} to "
                 f"{self.tilt:.2f}")
 
+        # the ring passed may be part of another ring system
+        ring = copy(ring)
         ring.inclination = self.inclination
         ring.tilt = self.tilt
         
-- 
2.43.0


From 2555b0668548281844c5cceaaa1d22b0eca9d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 31/42] fix: building a grid changed the grid parameters passed

---
 Shallot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 9073034..68b7df0 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -97,7 +97,8 @@ class ShallotGrid:
         # set user values
         parameters = validate.class_object(parameters, "parameters", 
             GridParameters, "GridParameters")
-        self.parameters = parameters
+        # extending the grid must not change the parameters of the user
+        self.parameters = copy(parameters)
         self.num_fxfy = validate.number(num_fxfy, "num_fxfy",
             check_integer=True, lower_bound=1)
 
-- 
2.43.0


From 720cdf1368711d5e27ed6bea76ffdce82db91ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 32/42] fix: changing the rf vector that was read changed the
 grid parameters

---
 GridParameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridParameters.py b/GridParameters.py
index a0ba26f..04e4b06 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -243,7 +243,7 @@ class GridParameters:
         rf_array : np.ndarray
             The rf radius stretch factors of the ellipse [-]
         """
-        return self.dy.flatten(), self.dx.flatten(), self.rf_array
+        return self.dy.flatten(), self.dx.flatten(), self.rf_array.flatten()
 
  
     def save(self, directory: str) -> None:
-- 
2.43.0


From 465707424bf6d424ebc87ce6f7fb468380fb8587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 33/42] fix: changing diagnostics that were stored or read
 changed those of the grid

---
 GridDiagnostics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GridDiagnostics.py b/GridDiagnostics.py
index 47b1145..891d319 100644
--- a/GridDiagnostics.py
+++ b/GridDiagnostics.py
@@ -123,8 +123,8 @@ class GridDiagnostics:
             in disk_radius_dict property).
         """
         key = self._generate_key(y, x)
-        fy = self._fy_dict[key]
-        disk_radius = self._disk_radius_dict[key]
+        fy = np.copy(self._fy_dict[key])
+        disk_radius = np.copy(self._disk_radius_dict[key])
 
         return fy, disk_radius
 
@@ -161,8 +161,8 @@ class GridDiagnostics:
         validate.same_shape_arrays([fy, disk_radius], ["fy", "disk_radius"])
 
         key = self._generate_key(y, x)
-        self._fy_dict[key] = fy
-        self._disk_radius_dict[key] = disk_radius
+        self._fy_dict[key] = np.copy(fy)
+        self._disk_radius_dict[key] = np.copy(disk_radius)
 
 
     def extend(self) -> None:
-- 
2.43.0


From 01aff51a3d976583b67861513914026112b3715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 34/42] fix: rejected contrast parameters changed the others

---
 GridProperty.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 2f19ec9..b0163b8 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -196,26 +196,32 @@ class GridProperty:
         all_nans = np.sum(np.isnan(self.data)) == np.prod(self.data.shape)
         
         if all_nans:
-            self.vmin = None
-            self.vmax = None
+            vmin = None
+            vmax = None
         else:
             if vmin is None:
                 vmin = np.nanmin(self.data)
-            self.vmin = validate.number(vmin, "vmin")       
+            vmin = validate.number(vmin, "vmin")       
         
             if vmax is None:
                 vmax = np.nanmax(self.data)
-            self.vmax = validate.number(vmax, "vmax")
+            vmax = validate.number(vmax, "vmax")
         
         if color_map is None:
             color_map = "viridis"
-        self.color_map = validate.string(color_map, "color_map")
+        color_map = validate.string(color_map, "color_map")
         
         if num_colors is None:
             num_colors = 11
-        self.num_colors = validate.number(num_colors, "num_colors", 
+        num_colors = validate.number(num_colors, "num_colors", 
             check_integer=True, lower_bound=2)
 
+        # a rejected parameter must not change the others
+        self.vmin = vmin
+        self.vmax = vmax
+        self.color_map = color_map
+        self.num_colors = num_colors
+
  
     def plot_cube(self, 
             axis: int = 2, 
-- 
2.43.0


From 1ae5e1e786bbb94f9021d9f6a5aa6bbffeabe692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 35/42] fix: changing the data or mask that was passed changed
 the property

---
 GridProperty.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index b0163b8..c162798 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -65,8 +65,8 @@ class GridProperty:
         self.name = name
         self.unit = unit
         self.grid_parameters = grid_parameters
-        self.data = validate.array(data, "data", dtype="float64",
-            num_dimensions=3)
+        self.data = np.copy(validate.array(data, "data", dtype="float64",
+            num_dimensions=3))
         data_structure = np.ones(grid_parameters.grid_shape)
         validate.same_shape_arrays([data, data_structure], 
             ["data", "data_structure"])
@@ -141,7 +141,7 @@ class GridProperty:
         mask = validate.array(mask, "mask", dtype="bool")
         validate.same_shape_arrays([mask, self.data], ["mask", "data"])
         
-        self.mask = mask
+        self.mask = np.copy(mask)
 
  
     def get_data(self, masked: bool = True) -> np.ndarray:
-- 
2.43.0


From 06afefecd1176cb4d7b7b1d23bd2fac095858c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 36/42] fix: loggers were named by numpy's random numbers

Objects made after the same seed shared a logger, so that one changed the
logging level of the other and messages were written twice, and making an
object changed the random numbers of the user.
---
 RingSystem.py | 3 ++-
 Shallot.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/RingSystem.py b/RingSystem.py
index 39b9f75..f4bba32 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -1,4 +1,5 @@
 # generic modules
+import uuid
 import logging
 from copy import copy
 import numpy as np
@@ -167,7 +168,7 @@ class RingSystem:
             check_integer=True, lower_bound=10, upper_bound=50)
 
         # define logger
-        logger = logging.getLogger(str(np.random.normal(0, 1)))
+        logger = logging.getLogger(str(uuid.uuid4()))
         logger.setLevel(logging_level)
 
         # define formatter
diff --git a/Shallot.py b/Shallot.py
index 68b7df0..7c071b5 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -6,6 +6,7 @@ from enum import Enum
 # generic modules
 import os
 import shutil
+import uuid
 import logging
 import numpy as np
 from tqdm import tqdm
@@ -347,7 +348,7 @@ class ShallotGrid:
             check_integer=True, lower_bound=10, upper_bound=50)
 
         # define logger
-        logger = logging.getLogger(str(np.random.normal(0, 1)))
+        logger = logging.getLogger(str(uuid.uuid4()))
         logger.setLevel(logging_level)
 
         # define formatter
-- 
2.43.0


From 16b70bbb38571a2ae173ca0faf686c14c4af7c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 37/42] fix: a rejected plot_cube left an empty figure behind

The figure was made before the arguments were validated, and it was shown
with the next plot.
---
 GridProperty.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index c162798..5621014 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -244,8 +244,14 @@ class GridProperty:
             [default = True].
         """
         fig, ax = plt.subplots()
-        viewer = GridPropertyViewer(ax, axis, self, masked, 
-            coordinates=coordinates)
+        try:
+            viewer = GridPropertyViewer(ax, axis, self, masked, 
+                coordinates=coordinates)
+        except Exception:
+            # a rejected argument must not leave an empty figure behind
+            plt.close(fig)
+            raise
+
         fig.canvas.mpl_connect("scroll_event", viewer.onscroll)
         plt.colorbar(viewer.image)
         plt.show()
-- 
2.43.0


From 2bfa546e121ef0a022b0de5d04d161d41f31e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 38/42] fix: a viewer with an invalid frozen was drawn before
 it was rejected

---
 GridProperty.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index 5621014..612a12d 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -689,6 +689,9 @@ class GridPropertyViewer:
                 if len(coordinate) != 3:
                     raise ValueError("all input coordinates must be tuples "
                         "with three values")
+        if frozen is not None:
+            frozen = validate.boolean(frozen, "frozen")
+
         self.coordinates = coordinates
         self.coordinate_lines = []
         self.rf_range = np.ptp(grid_property.grid_parameters.rf)
@@ -721,7 +724,7 @@ class GridPropertyViewer:
         self.frozen = False
         self.update()
         if frozen is not None:
-            self.frozen = validate.boolean(frozen, "frozen")
+            self.frozen = frozen
 
  
     def __str__(self) -> str:
-- 
2.43.0


From 8a7c9a942cb259d0c69143b8be59511659d08cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 39/42] fix: rings that were split could overlap by the
 rounding of their radii

A ringlet ended beyond the start of the next one, so that replacing a ring
by one with the same radii was rejected.
---
 RingSystem.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/RingSystem.py b/RingSystem.py
index f4bba32..bc4cd62 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -543,14 +543,13 @@ class RingSystem:
             # for type hints
             ring: Ring
             
-            delta_radius = (ring.outer_radius - ring.inner_radius) / division
+            # ringlets share their edges, so that they do not overlap
+            radii = np.linspace(ring.inner_radius, ring.outer_radius,
+                division + 1)
 
             for i in range(division):
-                ringlet_inner_radius = ring.inner_radius + i * delta_radius
-                ringlet_outer_radius = ringlet_inner_radius + delta_radius
-                
-                ringlet = Ring(ringlet_inner_radius, ringlet_outer_radius, 
-                    ring.transmission, self.inclination, self.tilt)
+                ringlet = Ring(radii[i], radii[i + 1], ring.transmission,
+                    self.inclination, self.tilt)
                 
                 divided_rings[index] = ringlet
                 index += 1
-- 
2.43.0


From daacdcd12fb7cb3b58d449b50b80987c3872c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 40/42] fix: draw a ring with the full precision of its
 inclination and tilt

np.deg2rad of a small integer or half precision angle (np.int8, np.float16)
answers in half precision, so that the patch was drawn with other angles than
those of the ring.
---
 Ring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Ring.py b/Ring.py
index c254380..2e140a9 100644
--- a/Ring.py
+++ b/Ring.py
@@ -250,8 +250,8 @@ class Ring:
         face_color = validate.string(face_color, "face_color")
 
         # get ring system and ring parameters
-        inc = np.deg2rad(self.inclination)
-        phi = np.deg2rad(self.tilt)
+        inc = np.deg2rad(float(self.inclination))
+        phi = np.deg2rad(float(self.tilt))
         opacity = 1 - self.transmission
 
         # centre location
-- 
2.43.0


From 7a2024b3f890d8fef125695ca23927e888ec1629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 41/42] fix: build the grid of parameters in double precision

ranges given as np.float128 were accepted, but produced dx, dy and rf arrays
that the rest of the grid refuses.
---
 GridParameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GridParameters.py b/GridParameters.py
index 04e4b06..b130dd1 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -129,7 +129,7 @@ class GridParameters:
         num_x = validate.number(num_x, "num_x", check_integer=True, 
             lower_bound=1)
         
-        dx = np.linspace(min_x, max_x, num_x)[None, :, None]
+        dx = np.linspace(min_x, max_x, num_x, dtype="float64")[None, :, None]
         return dx
 
  
@@ -162,7 +162,7 @@ class GridParameters:
         num_y = validate.number(num_y, "num_y", check_integer=True, 
             lower_bound=1)
         
-        dy = np.linspace(min_y, max_y, num_y)[:, None, None]
+        dy = np.linspace(min_y, max_y, num_y, dtype="float64")[:, None, None]
         return dy
 
  
@@ -191,7 +191,7 @@ class GridParameters:
         num_rf = validate.number(num_rf, "num_rf", check_integer=True,
             lower_bound=1)
         
-        rf = np.linspace(1, max_rf, num_rf)
+        rf = np.linspace(1, max_rf, num_rf, dtype="float64")
         rf_array = np.concatenate((np.flip(rf), rf[1:]), 0)
         return rf, rf_array
 
-- 
2.43.0


From 067cac7fd11b44d56ea9748f14cded302f6312fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:18 +0000
Subject: [PATCH 42/42] fix: extending grid parameters changed the properties
 made with them

---
 GridProperty.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index 612a12d..21f8a40 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -5,6 +5,7 @@ from matplotlib.backend_bases import MouseEvent
 
 # generic modules
 import os
+from copy import copy
 import numpy as np
 import matplotlib.pyplot as plt
 
@@ -64,7 +65,8 @@ class GridProperty:
         
         self.name = name
         self.unit = unit
-        self.grid_parameters = grid_parameters
+        # extending the parameters must not change this property
+        self.grid_parameters = copy(grid_parameters)
         self.data = np.copy(validate.array(data, "data", dtype="float64",
             num_dimensions=3))
         data_structure = np.ones(grid_parameters.grid_shape)
-- 
2.43.0

