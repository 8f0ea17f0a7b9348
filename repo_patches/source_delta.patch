From 9617f2d344f4af44336b1f321e5b8376bcd7a6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 01/76] fix: GraphState lookup of an unknown key raises
 KeyError for single-node states

---
 src/lightcurvelynx/graph_state.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 08e3610..25de656 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -103,10 +103,8 @@ class GraphState:
         elif len(self.states) == 1:
             # Special case when we have only a single node stored in the graph state.
             node_state = list(self.states.values())[0]
-            if key in node_state:
-                return True
-        else:
-            return False
+            return key in node_state
+        return False
 
     def __str__(self):
         str_lines = []
@@ -170,8 +168,7 @@ class GraphState:
             node_state = list(self.states.values())[0]
             if key in node_state:
                 return node_state[key]
-        else:
-            raise KeyError(f"Unknown GraphState key: {key}")
+        raise KeyError(f"Unknown GraphState key: {key}")
 
     def copy(self):
         """Create a deep copy of the GraphState.
-- 
2.43.0


From 6df66d7a12eb9d20d138e1cd2b7e00ebdcbce631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 02/76] fix: a rejected GraphState.set() no longer changes the
 state or its length

---
 src/lightcurvelynx/graph_state.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 25de656..32d22cb 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -404,6 +404,18 @@ class GraphState:
         if "." in node_name or "." in var_name:
             raise ValueError("GraphState names (node or variable) cannot contain the character '.'")
 
+        # Check if this parameter is fixed. If so, skip the set.
+        if var_name in self.fixed_vars.get(node_name, ()):
+            return
+
+        # Check the number of samples before making any changes, so a failed call leaves
+        # the GraphState as it was.
+        if self.num_samples > 1 and not np.isscalar(value) and len(value) != self.num_samples:
+            raise ValueError(
+                f"Incompatible number of samples when setting GraphState for node={node_name}, "
+                f"variable={var_name}: {self.num_samples} vs {len(value)}."
+            )
+
         # Update the meta data.
         if node_name not in self.states:
             self.states[node_name] = {}
@@ -411,10 +423,6 @@ class GraphState:
         if var_name not in self.states[node_name]:
             self.num_parameters += 1
 
-        # Check if this parameter is fixed. If so, skip the set.
-        if var_name in self.fixed_vars[node_name]:
-            return
-
         # Set the actual values.
         if self.num_samples == 1:
             # If this GraphState holds only a single sample, set it from the given value.
@@ -422,11 +430,6 @@ class GraphState:
         elif np.isscalar(value):
             # If the value is a scalar, expand it to the correct number of samples.
             self.states[node_name][var_name] = np.full(self.num_samples, value)
-        elif len(value) != self.num_samples:
-            raise ValueError(
-                f"Incompatible number of samples when setting GraphState for node={node_name}, "
-                f"variable={var_name}: {self.num_samples} vs {len(value)}."
-            )
         elif force_copy:
             self.states[node_name][var_name] = np.array(value.copy())
         else:
-- 
2.43.0


From bf5232307db00023ba825ce37324a39c79c3aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 03/76] fix: GraphState.extract_single_sample() keeps the fixed
 parameters and allows later set()

---
 src/lightcurvelynx/graph_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 32d22cb..2d36a1c 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -500,6 +500,7 @@ class GraphState:
         new_state.num_parameters = self.num_parameters
         for node_name in self.states:
             new_state.states[node_name] = {}
+            new_state.fixed_vars[node_name] = self.fixed_vars[node_name].copy()
             for var_name, value in self.states[node_name].items():
                 if self.num_samples == 1:
                     new_state.states[node_name][var_name] = value
-- 
2.43.0


From 3c312e0833fa15adb19d1b6bf10a958ada277b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 04/76] fix: GraphState.to_table() keeps the row of a single
 sample state

---
 src/lightcurvelynx/graph_state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 2d36a1c..6213c55 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -593,6 +593,9 @@ class GraphState:
         values = Table()
         for node_name, node_params in self.states.items():
             for param_name, param_value in node_params.items():
+                if self.num_samples == 1:
+                    # Wrap the single value so the table has a row for the sample.
+                    param_value = [param_value]
                 values[self.extended_param_name(node_name, param_name)] = np.array(param_value)
         return values
 
-- 
2.43.0


From 9d2d1c3fe2fcbf6982f39a0fbeb68b3fd1248085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 05/76] fix: GraphState.from_list() stores a single sample as
 scalars and keeps the parameter order

---
 src/lightcurvelynx/graph_state.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 6213c55..a648301 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -326,9 +326,14 @@ class GraphState:
 
         # Allocate space for the concatenated states and fill that result.
         result = GraphState(num_samples=total_samples)
-        for full_name in all_param_full_names:
+        for full_name in graph_states[0].get_all_params_names():
             node_name, param_name = full_name.split(".")
 
+            # A single sample is stored as a scalar instead of as an array.
+            if total_samples == 1:
+                result.set(node_name, param_name, graph_states[0][full_name], fixed=False)
+                continue
+
             # Create a numpy array that is the concatenation of all the values
             # from each of the GraphStates.
             values_list = []
-- 
2.43.0


From 4d92ac01490a10e96aaba0f38dd74a4549d17c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 06/76] fix: GraphState comparison supports non-numeric
 parameters

---
 src/lightcurvelynx/graph_state.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index a648301..fa2879d 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -114,6 +114,15 @@ class GraphState:
                 str_lines.append(f"    {var_name}: {value}")
         return "\n".join(str_lines)
 
+    @staticmethod
+    def _values_match(value1, value2):
+        """Check whether two parameter values match, using a tolerance for numeric values."""
+        value1 = np.asarray(value1)
+        value2 = np.asarray(value2)
+        if value1.dtype.kind in "biufc" and value2.dtype.kind in "biufc":
+            return np.allclose(value1, value2)
+        return np.array_equal(value1, value2)
+
     def __eq__(self, other):
         if self.num_samples != other.num_samples:
             return False
@@ -133,7 +142,7 @@ class GraphState:
             for var_name, var_value in node_params.items():
                 if var_name not in other_params:
                     return False
-                if not np.allclose(var_value, other_params[var_name]):
+                if not self._values_match(var_value, other_params[var_name]):
                     return False
 
         # Finally check that the 'fixed' dictionary is the same.
-- 
2.43.0


From 1618b26d707853ee88ec77d090dffee858e02fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 07/76] fix: ObsTable.range_search() accepts scalar time bounds
 with multiple query points

---
 src/lightcurvelynx/obstable/obs_table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index d0c658d..dec54af 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -567,6 +567,8 @@ class ObsTable:
                 t_min = np.full(num_queries, -np.inf)
             else:
                 t_min = np.atleast_1d(t_min)
+                if len(t_min) == 1:
+                    t_min = np.full(num_queries, t_min[0])
             if len(t_min) != num_queries:
                 raise ValueError(f"t_min must be a scalar or an array of length {num_queries}.")
 
@@ -574,6 +576,8 @@ class ObsTable:
                 t_max = np.full(num_queries, np.inf)
             else:
                 t_max = np.atleast_1d(t_max)
+                if len(t_max) == 1:
+                    t_max = np.full(num_queries, t_max[0])
             if len(t_max) != num_queries:
                 raise ValueError(f"t_max must be a scalar or an array of length {num_queries}.")
 
-- 
2.43.0


From bab364279010734adef9a5cd650c056ae66e8ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 08/76] fix: ObsTable.get_observations() selects by row
 position after filtering

---
 src/lightcurvelynx/obstable/obs_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index dec54af..13dc9e0 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -658,7 +658,8 @@ class ObsTable:
             # by using the class accessor (__getitem__), instead of the table one.
             if col not in self:
                 raise KeyError(f"Unrecognized column name {col}")
-            results[col] = self[col][neighbors].to_numpy()
+            # The neighbors are row positions (not index labels).
+            results[col] = self[col].to_numpy()[np.asarray(neighbors, dtype=int)]
         return results
 
     def bandflux_error_point_source(self, bandflux, index):
-- 
2.43.0


From b288a1b23e70565405331e27b7a0168a57766b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 09/76] fix: ObsTable.filter_rows() accepts an empty list of
 rows

---
 src/lightcurvelynx/obstable/obs_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 13dc9e0..7ce551b 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -462,7 +462,8 @@ class ObsTable:
             mask = rows
         else:
             mask = np.full((len(self._table),), False)
-            mask[rows] = True
+            if len(rows) > 0:
+                mask[rows] = True
 
         # Filter the rows in-place and build a new kd-tree.
         self._table = self._table[mask]
-- 
2.43.0


From 3592176d4db9187f7fabb85e2f31e7092a9920d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 10/76] fix: ObsTable.filter_rows() updates the list of filters

---
 src/lightcurvelynx/obstable/obs_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 7ce551b..77821c6 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -467,6 +467,8 @@ class ObsTable:
 
         # Filter the rows in-place and build a new kd-tree.
         self._table = self._table[mask]
+        if "filter" in self._table.columns:
+            self.filters = np.unique(self._table["filter"])
         self._kd_tree = None
         self._build_kd_tree()
 
-- 
2.43.0


From 6c0ef15c681b6c4e0e1ade2cc2bf5bf957cc6611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 11/76] fix: simulate_lightcurves() uses the given rng for the
 effects

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 37b39bb..7689af6 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -193,7 +193,7 @@ def simulate_lightcurves(
 
             # Compute the bandfluxes and errors over just the given filters.
             bandfluxes_perfect = model.evaluate_bandfluxes(
-                passbands[survey_idx], obs_times, obs_filters, state
+                passbands[survey_idx], obs_times, obs_filters, state, rng_info=rng
             )
             bandfluxes_error = obstable[survey_idx].bandflux_error_point_source(bandfluxes_perfect, obs_index)
             bandfluxes = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng)
-- 
2.43.0


From 58a5ad45999817296f7713a95856d81a312dc96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 12/76] fix: simulate_lightcurves() supports objects without
 any observations

---
 src/lightcurvelynx/simulate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 7689af6..bff2651 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -176,10 +176,10 @@ def simulate_lightcurves(
 
         for survey_idx in range(num_surveys):
             # Find the indices and times where the current model is seen.
-            obs_index = np.asarray(all_obs_matches[survey_idx][idx])
+            obs_index = np.asarray(all_obs_matches[survey_idx][idx], dtype=int)
             if len(obs_index) == 0:
-                obs_times = []
-                obs_filters = []
+                obs_times = np.array([], dtype=float)
+                obs_filters = np.array([], dtype=str)
             else:
                 obs_times = all_times[survey_idx][obs_index]
 
-- 
2.43.0


From 7201ad21d89d0c3eaec5702c15193b549832ba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 13/76] fix: noise free light curves support integer phases

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index bff2651..27c276d 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -293,7 +293,7 @@ def compute_single_noise_free_lightcurve(
 
     t0 = model.get_param(graph_state, "t0")
     if t0 is not None:
-        times += t0
+        times = times + t0
 
     # Compute the light curve without noise for each time in each filter.
     lightcurves = {"times": times, "rest_phase": rest_phase}
-- 
2.43.0


From 4d3ae22c60a25d6e24cf79fcb1aca644b1707d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 14/76] fix: average duplicate wavelengths in transmission
 tables instead of raising TypeError

---
 src/lightcurvelynx/astro_utils/passbands.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 7346a61..048068b 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -704,7 +704,8 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be strictly increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
+            dup_inds = np.where(diffs == 0.0)[0]
+            table_values = table_values.astype(float)  # Do not modify the caller's table
             table_values[dup_inds, 1] = 0.5 * (table_values[dup_inds, 1] + table_values[dup_inds + 1, 1])
             table_values = np.delete(table_values, dup_inds + 1, axis=0)
         self._loaded_table = np.copy(table_values)
@@ -997,7 +998,7 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
+            dup_inds = np.where(diffs == 0.0)[0]
             loaded_table[dup_inds, 1] = 0.5 * (loaded_table[dup_inds, 1] + loaded_table[dup_inds + 1, 1])
             loaded_table = np.delete(loaded_table, dup_inds + 1, axis=0)
 
-- 
2.43.0


From f66a25312dd385c2e554600c8b997d4873e2839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 15/76] fix: report a ValueError for a transmission table that
 cannot be normalized

---
 src/lightcurvelynx/astro_utils/passbands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 048068b..b797bc3 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1144,7 +1144,7 @@ class Passband:
             raise ValueError(
                 "Denominator is zero; cannot normalize transmission table. "
                 f"Consider checking the transmission table for band {self.full_name}. "
-                f"With wave grid set to: {self._wave_grid}, transmission table wavelengths are: "
+                f"With grid step set to: {self.delta_wave}, transmission table wavelengths are: "
                 f"{transmission_table[:, 0]}."
             )
 
-- 
2.43.0


From de00ce1c0b10cde7ff89d7c492b72d4e4008a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 16/76] fix: PassbandGroup maps merged wavelengths to the
 wavelength they were merged into

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index b797bc3..f825d36 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -495,7 +495,9 @@ class PassbandGroup:
             if np.array_equal(self.waves[lower_index : upper_index + 1], passband.waves):
                 indices = slice(lower_index, upper_index + 1)
             else:
-                indices = np.searchsorted(self.waves, passband.waves)
+                # Use the last group wavelength that is not above the passband's wavelength, because
+                # close wavelengths are merged into the lowest one.
+                indices = np.searchsorted(self.waves, passband.waves, side="right") - 1
             self._in_band_wave_indices[name] = indices
 
     def wave_bounds(self):
-- 
2.43.0


From bbf25cbe05652b0a3d401bb1efa5112ee62db1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 17/76] fix: integrate bandfluxes with the actual wavelength
 step

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index f825d36..141e8dd 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1211,7 +1211,9 @@ class Passband:
             # integration and removing half the first and last values (to make it trapezoidal).
             first_val = np.take(integrand, 0, axis=w_axis)
             last_val = np.take(integrand, -1, axis=w_axis)
-            bandfluxes = (np.sum(integrand, axis=w_axis) - 0.5 * (first_val + last_val)) * self.delta_wave
+            # The actual step can differ from delta_wave if that does not evenly divide the range.
+            step = (self.waves[-1] - self.waves[0]) / (len(self.waves) - 1)
+            bandfluxes = (np.sum(integrand, axis=w_axis) - 0.5 * (first_val + last_val)) * step
         else:
             # Do the full integration.
             bandfluxes = scipy.integrate.trapezoid(integrand, x=self.waves, axis=w_axis)
-- 
2.43.0


From d134db9552fac8a91ba15090452891a1e46191fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 18/76] fix: PassbandGroup.fluxes_to_bandflux() rejects
 ambiguous filter names

---
 src/lightcurvelynx/astro_utils/passbands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 141e8dd..ca16fa2 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -568,7 +568,7 @@ class PassbandGroup:
         """
         if filter not in self.passbands:
             if filter in self._filter_to_name:
-                filter = self._filter_to_name[filter][0]
+                filter = self[filter].full_name  # Raises a KeyError if the name is ambiguous.
             else:
                 raise ValueError(f"Filter {filter} not found in passband group.")
         passband = self.passbands[filter]
-- 
2.43.0


From 948e325619c16de57d39194f3046346b3eb080f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 19/76] fix: results_augment_lightcurves() marks invalid
 entries as not detected instead of failing

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 8092744..3387dcb 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -144,7 +144,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     # Compute SNR and detection flag.
     snr = lightcurve_compute_snr(flux, fluxerr)
     results["lightcurve.snr"] = snr
-    results["lightcurve.detection"] = [(x is not None and x >= min_snr) for x in snr]
+    results["lightcurve.detection"] = [(x is not ma.masked and x >= min_snr) for x in snr]
 
     # Compute magnitude and magnitude error.
     mag, magerr = lightcurve_compute_mag(flux, fluxerr)
-- 
2.43.0


From d5bd45ff2b68d7c814104df83e36867920ed1bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 20/76] fix: results_augment_lightcurves() uses each row's own
 t0 after rows were dropped

---
 src/lightcurvelynx/utils/post_process_results.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 3387dcb..fb532bd 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -156,8 +156,8 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-        # Get the index for the t0 entry for each lightcurve MJD and use that
-        # to subtract out the reference t0.
-        t0 = np.asanyarray(results["t0"])
-        t0_idx = np.array(results["lightcurve"]["mjd"].index)
-        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0[t0_idx]
+        # Repeat the t0 of each row for each of its lightcurve's MJDs and use that
+        # to subtract out the reference t0. We match by position, because the index labels
+        # might not match the row positions (e.g. after dropping rows).
+        t0 = np.repeat(np.asarray(results["t0"]), results["lightcurve"].nest.list_lengths)
+        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0
-- 
2.43.0


From 591e2b5f0e1be94e6430157bbfb2e0a93747a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 21/76] fix: results_augment_lightcurves() computes the
 relative time if a t0 is zero

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index fb532bd..5d5b714 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -152,7 +152,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     results["lightcurve.magerr"] = magerr
 
     # If t0 is provided as a column in results, compute relative time.
-    if "t0" in results.columns and np.all(results["t0"]) and results["t0"].notna().all():
+    if "t0" in results.columns and results["t0"].notna().all():
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-- 
2.43.0


From 2c14be9cae71c6854be3d1f57d9200e01bb4c9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 22/76] fix: LightcurveData supports light curves with integer
 values

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index e98ff0e..1487520 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -94,7 +94,7 @@ class LightcurveData:
 
         if isinstance(lightcurves, dict):
             # Make a copy of the light curves to avoid modifying the original data.
-            self.lightcurves = {filter: lc.copy() for filter, lc in lightcurves.items()}
+            self.lightcurves = {filter: np.array(lc, dtype=float) for filter, lc in lightcurves.items()}
         elif isinstance(lightcurves, np.ndarray):
             if lightcurves.shape[1] != 3:
                 raise ValueError("Light curves array must have 3 columns: time, flux, and filter.")
-- 
2.43.0


From d3f58981271e971401c6d2f7115d218d49c6dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 23/76] fix: LightcurveData converts only a given baseline to
 fluxes and does not modify the input

---
 .../models/lightcurve_template_model.py               | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 1487520..a21ce54 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -145,12 +145,13 @@ class LightcurveData:
             for filter in self.lightcurves:
                 if filter not in baseline:
                     raise ValueError(f"Baseline value for filter {filter} is missing.")
-            self.baseline = baseline
+            # Make a copy of the baseline to avoid modifying the original data.
+            self.baseline = dict(baseline)
 
-        # Convert the baseline from magnitudes to fluxes if needed.
-        if magnitudes_in:
-            for filter in self.baseline:
-                self.baseline[filter] = mag2flux(self.baseline[filter])
+            # Convert the baseline from magnitudes to fluxes if needed.
+            if magnitudes_in:
+                for filter in self.baseline:
+                    self.baseline[filter] = mag2flux(self.baseline[filter])
 
     def __len__(self):
         """Get the number of light curves."""
-- 
2.43.0


From e000ebc713b0e9a8a3f2e4179349b596dbec10b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 24/76] fix: GivenValueSampler does not modify the given
 weights and accepts integer weights

---
 src/lightcurvelynx/math_nodes/given_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/given_sampler.py b/src/lightcurvelynx/math_nodes/given_sampler.py
index 8b7abba..b821110 100644
--- a/src/lightcurvelynx/math_nodes/given_sampler.py
+++ b/src/lightcurvelynx/math_nodes/given_sampler.py
@@ -150,7 +150,7 @@ class GivenValueSampler(NumpyRandomFunc):
 
         # Compute the normalized weights for each value.
         if weights is not None:
-            self._weights = np.asarray(weights)
+            self._weights = np.array(weights, dtype=float)  # Make a copy
             if len(self._weights) != self._num_values:
                 raise ValueError("Weights must match the number of values provided.")
             self._weights /= np.sum(self._weights)
-- 
2.43.0


From d3e6454c0faee33b94d767d6d6cda6e792be4f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 25/76] fix: ObsTableRADECSampler returns scalars for a single
 sample

---
 src/lightcurvelynx/math_nodes/ra_dec_sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
index 8fd248e..68a0e4d 100644
--- a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
+++ b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
@@ -141,6 +141,11 @@ class ObsTableRADECSampler(TableSampler):
             offset_amt = self.radius * np.sqrt(rng.uniform(0.0, 1.0, size=graph_state.num_samples))
             offset_ang = 2.0 * np.pi * rng.uniform(0.0, 1.0, size=graph_state.num_samples)
 
+            # If we are generating a single sample, use floats.
+            if graph_state.num_samples == 1:
+                offset_amt = offset_amt[0]
+                offset_ang = offset_ang[0]
+
             # Add the offsets to RA and dec. Keep time unchanged.
             results[0] += offset_amt * np.cos(offset_ang)  # RA
             results[1] += offset_amt * np.sin(offset_ang)  # dec
-- 
2.43.0


From 27f6429ce0bb3d6496d6862d02f6c269cd4549d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 26/76] fix: BasicMathNode raises a ValueError for calls of
 anything but a named function

---
 src/lightcurvelynx/math_nodes/basic_math_node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/basic_math_node.py b/src/lightcurvelynx/math_nodes/basic_math_node.py
index 79405e8..2db1edd 100644
--- a/src/lightcurvelynx/math_nodes/basic_math_node.py
+++ b/src/lightcurvelynx/math_nodes/basic_math_node.py
@@ -201,6 +201,8 @@ class BasicMathNode(FunctionNode):
                 continue
             elif isinstance(node, ast.Call):
                 # Check that function calls are only using items on the allow list.
+                if not isinstance(node.func, ast.Name):
+                    raise ValueError(f"Unsupported function {ast.unparse(node.func)}")
                 if node.func.id not in self._math_map:
                     raise ValueError(f"Unsupported function {node.func.id}")
             elif isinstance(node, ast.Name):
-- 
2.43.0


From 9afa08115319a8811f40b2220a0a8709115eda60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 27/76] fix: MultiObjectModel.set_apply_redshift() applies to
 the SED models

---
 src/lightcurvelynx/models/multi_object_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 2098781..2e5572d 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -88,9 +88,8 @@ class MultiObjectModel(SEDModel):
         apply_redshift : bool
             The new value for apply_redshift.
         """
-        for idx, object in enumerate(self.objects):
-            if self._is_bandflux[idx]:
-                object.set_apply_redshift(apply_redshift)
+        for object in self.objects:
+            object.set_apply_redshift(apply_redshift)
 
     def add_effect(self, effect):
         """Add an effect to each of the submodels.
-- 
2.43.0


From d23aeb1caee92382729997d5fb232ca9cb00e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 28/76] fix: RandomMultiObjectModel looks up the wavelength
 bounds of the selected object by name

---
 src/lightcurvelynx/models/multi_object_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 2e5572d..3cfc275 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -457,8 +457,9 @@ class RandomMultiObjectModel(MultiObjectModel):
             The minimum wavelength of the model (in angstroms) or None
             if the model does not have a defined minimum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].minwave(graph_state=graph_state)
+        selected = self.get_param(graph_state, "selected_object")
+        model = self.object_map[selected] if selected in self.object_map else self.objects[selected]
+        return model.minwave(graph_state=graph_state)
 
     def maxwave(self, graph_state=None):
         """Get the maximum wavelength of the model.
@@ -475,8 +476,9 @@ class RandomMultiObjectModel(MultiObjectModel):
             The maximum wavelength of the model (in angstroms) or None
             if the model does not have a defined maximum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].maxwave(graph_state=graph_state)
+        selected = self.get_param(graph_state, "selected_object")
+        model = self.object_map[selected] if selected in self.object_map else self.objects[selected]
+        return model.maxwave(graph_state=graph_state)
 
     def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
         """Evaluate the model and apply the effects for a single, given graph state.
-- 
2.43.0


From f733576a9f3438d1c2bbc9df28afc4ca30bf449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 29/76] fix: pass the keyword arguments to compute_sed() when
 extrapolating

---
 src/lightcurvelynx/models/physical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 2754ca7..1a1affb 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -371,7 +371,7 @@ class SEDModel(BasePhysicalModel):
 
         # Pad the wavelengths with the min and max values and compute the flux at those points.
         query_waves = np.concatenate(([min_valid_wave], wavelengths[in_range], [max_valid_wave]))
-        computed_flux = self.compute_sed(times, query_waves, graph_state)
+        computed_flux = self.compute_sed(times, query_waves, graph_state, **kwargs)
 
         # Initially zero pad the full array until we fill in the values with extrapolation.
         # We drop the first and last flux values since they were added to get the flux at the
-- 
2.43.0


From af68f9272a99e824313da4c22eb3cbe2cae53e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 30/76] fix: oversample_opsim() supports numbers of time points
 that are not a multiple of the bands

---
 src/lightcurvelynx/obstable/opsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/opsim.py b/src/lightcurvelynx/obstable/opsim.py
index 622fb73..7920d25 100644
--- a/src/lightcurvelynx/obstable/opsim.py
+++ b/src/lightcurvelynx/obstable/opsim.py
@@ -324,7 +324,7 @@ def oversample_opsim(
             "time": new_times,
             "ra": ra,
             "dec": dec,
-            "filter": np.tile(bands, n // len(bands)),
+            "filter": np.resize(bands, n),
         }
     )
     other_columns = [column for column in observations.columns if column not in new_table.columns]
-- 
2.43.0


From 8b42dd14e689c083a108650c640633591ff185b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 31/76] fix: TableSampler saves the values of a single column
 table

---
 src/lightcurvelynx/math_nodes/given_sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/given_sampler.py b/src/lightcurvelynx/math_nodes/given_sampler.py
index b821110..79395bf 100644
--- a/src/lightcurvelynx/math_nodes/given_sampler.py
+++ b/src/lightcurvelynx/math_nodes/given_sampler.py
@@ -312,6 +312,8 @@ class TableSampler(NumpyRandomFunc):
             else:
                 results.append(attr_values)
 
-        # Save and return the results.
+        # Save and return the results. A single output is saved as a value instead of a list.
+        if len(self.outputs) == 1:
+            results = results[0]
         self._save_results(results, graph_state)
         return results
-- 
2.43.0


From 5d8048aa81c0c0995e0979c54d222e6606b1d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 32/76] fix: DistributionSampler uses the given random number
 generator

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index 9c27e6c..f57de19 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -94,7 +94,8 @@ class DistributionSampler(FunctionNode):
 
         # Draw samples of the CDF [0, 1] and then use the inverse CDF spline to map those
         # back to the corresponding x values.
-        cdf_points = self._rng.random(num_samples)
+        rng = rng_info if rng_info is not None else self._rng
+        cdf_points = rng.random(num_samples)
         x_samples = self._inv_cdf(cdf_points)
         self._save_results(x_samples, graph_state)
         return x_samples
-- 
2.43.0


From fc412143db5fbc8927055263e646b39bf1a1c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 33/76] fix: DistributionSampler accepts draws below the first
 CDF value and integer densities

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index f57de19..ee4c2c0 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -54,8 +54,8 @@ class DistributionSampler(FunctionNode):
         # Create the CDF values (and normalize it to 1) and then create an interpolation
         # of the inverse CDF function.
         cdf_samples = np.cumsum(y)
-        cdf_samples /= cdf_samples[-1]
-        self._inv_cdf = interp1d(cdf_samples, x, kind=kind, fill_value=0.0)
+        cdf_samples = cdf_samples / cdf_samples[-1]
+        self._inv_cdf = interp1d(cdf_samples, x, kind=kind, bounds_error=False, fill_value=(x[0], x[-1]))
 
     def set_seed(self, new_seed):
         """Update the random number generator's seed to a given value.
-- 
2.43.0


From 81ea0b6cd6bbae5710d5eccd4b43013a44c17a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 34/76] fix: build_dependency_graph() includes links to
 parameters of the same node

---
 src/lightcurvelynx/base_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/base_models.py b/src/lightcurvelynx/base_models.py
index ffcbf26..567c9cf 100644
--- a/src/lightcurvelynx/base_models.py
+++ b/src/lightcurvelynx/base_models.py
@@ -681,9 +681,10 @@ class ParameterizedNode:
 
             # Recursively process any dependencies first, including constants.
             dep_name = None
-            if setter.dependency is not None and setter.dependency != self:
+            if setter.dependency is not None:
                 dep_name = GraphState.extended_param_name(setter.dependency.node_string, setter.value)
-                setter.dependency._dependency_graph_helper(dependency_graph)
+                if setter.dependency is not self:
+                    setter.dependency._dependency_graph_helper(dependency_graph)
             elif setter.source_type == ParameterSource.CONSTANT:
                 dep_name = dependency_graph.add_constant(setter.value)
 
-- 
2.43.0


From 0c7b521397c0cc739700e7b64baf7535d7efce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 35/76] fix: a failed add_parameter() leaves no undefined
 parameter behind

---
 src/lightcurvelynx/base_models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/base_models.py b/src/lightcurvelynx/base_models.py
index 567c9cf..04b4600 100644
--- a/src/lightcurvelynx/base_models.py
+++ b/src/lightcurvelynx/base_models.py
@@ -496,7 +496,12 @@ class ParameterizedNode:
             source_type=ParameterSource.UNDEFINED,
             node_name=str(self),
         )
-        self.set_parameter(name, value, **kwargs)
+        try:
+            self.set_parameter(name, value, **kwargs)
+        except Exception:
+            # Do not keep a parameter without a source.
+            del self.setters[name]
+            raise
 
         # Check if we should override allow_gradient.
         if allow_gradient is not None:
-- 
2.43.0


From 407dbe8ee3b37e78f9fdb53bf0d849b0c4712c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 36/76] fix: GraphState.set() expands zero-dimensional arrays
 like scalars

---
 src/lightcurvelynx/graph_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index fa2879d..78b39f9 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -424,7 +424,8 @@ class GraphState:
 
         # Check the number of samples before making any changes, so a failed call leaves
         # the GraphState as it was.
-        if self.num_samples > 1 and not np.isscalar(value) and len(value) != self.num_samples:
+        is_scalar = np.isscalar(value) or getattr(value, "ndim", None) == 0
+        if self.num_samples > 1 and not is_scalar and len(value) != self.num_samples:
             raise ValueError(
                 f"Incompatible number of samples when setting GraphState for node={node_name}, "
                 f"variable={var_name}: {self.num_samples} vs {len(value)}."
@@ -441,7 +442,7 @@ class GraphState:
         if self.num_samples == 1:
             # If this GraphState holds only a single sample, set it from the given value.
             self.states[node_name][var_name] = value
-        elif np.isscalar(value):
+        elif is_scalar:
             # If the value is a scalar, expand it to the correct number of samples.
             self.states[node_name][var_name] = np.full(self.num_samples, value)
         elif force_copy:
-- 
2.43.0


From 439f0f578d89f2f5ca2d28728a2fe7d379ef6465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 37/76] fix: BasicMathNode rejects empty and multiple
 expressions when it is created

---
 src/lightcurvelynx/math_nodes/basic_math_node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/basic_math_node.py b/src/lightcurvelynx/math_nodes/basic_math_node.py
index 2db1edd..1fff13e 100644
--- a/src/lightcurvelynx/math_nodes/basic_math_node.py
+++ b/src/lightcurvelynx/math_nodes/basic_math_node.py
@@ -193,6 +193,8 @@ class BasicMathNode(FunctionNode):
             The root node of the parsed syntax tree.
         """
         tree = ast.parse(self.expression)
+        if len(tree.body) != 1:
+            raise ValueError(f"Expected a single expression: {self.expression!r}")
 
         # Walk the tree and confirm that it only contains the basic math.
         for node in ast.walk(tree):
-- 
2.43.0


From 36a420156751e50f1ab0307649d03305087031df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 38/76] fix: ObsTable.add_column() updates the filters and the
 spatial index when it overwrites their columns

---
 src/lightcurvelynx/obstable/obs_table.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 77821c6..582a7fe 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -375,6 +375,12 @@ class ObsTable:
             values = np.full((len(self._table)), values)
         self._table[colname] = values
 
+        # Update the data that was derived from this column.
+        if colname == "filter":
+            self.filters = np.unique(self._table["filter"])
+        elif colname in ("ra", "dec"):
+            self._build_kd_tree()
+
     def write_db(self, filename, *, tablename="observations", overwrite=False):
         """Write out the observation table as a database to a given SQL table.
 
-- 
2.43.0


From e381b380f69b0db2203562d19cd0bdfc29ebb31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 39/76] fix: ObsTable.write_db() does not add a column for the
 row labels

---
 src/lightcurvelynx/obstable/obs_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 582a7fe..68b4e4a 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -403,7 +403,7 @@ class ObsTable:
 
         con = sqlite3.connect(filename)
         try:
-            self._table.to_sql(tablename, con, if_exists=if_exists)
+            self._table.to_sql(tablename, con, if_exists=if_exists, index=False)
         except Exception:
             raise ValueError("Database write failed.") from None
 
-- 
2.43.0


From 9c7b4321228cac14885a89290842eedb4a3297df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 40/76] fix: PassbandGroup accepts a filter given both by its
 full name and its filter name

---
 src/lightcurvelynx/astro_utils/passbands.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index ca16fa2..7d428bf 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -112,10 +112,8 @@ class PassbandGroup:
 
             for pb_name in all_bands:
                 pb_obj = self.passbands[pb_name]
-                if pb_name in filters:
-                    filters_remaining.discard(pb_name)
-                elif pb_obj.filter_name in filters:
-                    filters_remaining.discard(pb_obj.filter_name)
+                if pb_name in filters or pb_obj.filter_name in filters:
+                    filters_remaining -= {pb_name, pb_obj.filter_name}
                 else:
                     del self.passbands[pb_name]
 
-- 
2.43.0


From 2c3e53f51de440f8f1d10f82ac6ffd93c75c2754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 41/76] fix: RandomMultiObjectModel tells unlabeled objects of
 the same class apart

---
 src/lightcurvelynx/models/multi_object_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 3cfc275..c2a9178 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -437,7 +437,13 @@ class RandomMultiObjectModel(MultiObjectModel):
         super().__init__(objects, **kwargs)
 
         # Create a parameter to indicate which object was selected.
-        object_names = object_names or [src.node_string for src in objects]
+        if not object_names:
+            object_names = [src.node_string for src in objects]
+            if len(set(object_names)) < len(objects):
+                # Number the names to tell unlabeled objects of the same class apart.
+                object_names = [f"{name}_{idx}" for idx, name in enumerate(object_names)]
+        if len(object_names) != len(objects) or len(set(object_names)) < len(objects):
+            raise ValueError("Each object must have its own name.")
         self.object_map = {name: src for name, src in zip(object_names, objects, strict=False)}
         self._sampler_node = GivenValueSampler(object_names, weights=weights)
         self.add_parameter("selected_object", value=self._sampler_node, allow_gradient=False)
-- 
2.43.0


From e3b560b341427c056aba26fad2d2aa62fe4fcc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 42/76] fix: objects of a multi object model are sampled and
 reported wherever the model appears

---
 .../models/multi_object_model.py              | 76 +++++++++++--------
 1 file changed, 46 insertions(+), 30 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index c2a9178..b2c8cb0 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -6,7 +6,6 @@ only one object is selected at random for each flux calculation.
 
 import numpy as np
 
-from lightcurvelynx.graph_state import GraphState
 from lightcurvelynx.math_nodes.given_sampler import GivenValueSampler
 from lightcurvelynx.models.physical_model import BandfluxModel, BasePhysicalModel, SEDModel
 
@@ -111,46 +110,63 @@ class MultiObjectModel(SEDModel):
                     self.add_parameter(param_name, setter, allow_gradient=False)
             self.obs_frame_effects.append(effect)
 
-    def sample_parameters(self, given_args=None, num_samples=1, rng_info=None):
-        """Sample the model's underlying parameters if they are provided by a function
-        or ParameterizedModel.
+    def _sample_helper(self, graph_state, seen_nodes, rng_info=None):
+        """Internal recursive function to sample the parameters of every object and of this
+        model (see ParameterizedNode._sample_helper).
 
         Parameters
         ----------
-        given_args : dict, optional
-            A dictionary representing the given arguments for this sample run.
-            This can be used as the JAX PyTree for differentiation.
-        num_samples : int
-            A count of the number of samples to compute.
-            Default: 1
+        graph_state : GraphState
+            An object mapping graph parameters to their values. This object is modified
+            in place as it is sampled.
+        seen_nodes : dict
+            A dictionary mapping nodes strings seen during this sampling run to their object.
+            Used to avoid sampling nodes multiple times and to validity check the graph.
         rng_info : numpy.random._generator.Generator, optional
             A given numpy random number generator to use for this computation. If not
             provided, the function uses the node's random number generator.
-        **kwargs : dict, optional
-            All the keyword arguments, including the values needed to sample
-            parameters.
-
-        Returns
-        -------
-        graph_state : GraphState
-            An object mapping graph parameters to their values.
         """
-        # If the graph has not been sampled ever, update the node positions for every node.
-        if self.node_pos is None:
-            self.set_graph_positions()
+        for object in self.objects:
+            object._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
+        super()._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
 
-        # We use the same seen_nodes for all sampling calls so each node
-        # is sampled at most one time regardless of link structure.
-        graph_state = GraphState(num_samples)
-        if given_args is not None:
-            graph_state.update(given_args, all_fixed=True)
+    def _dependency_graph_helper(self, dependency_graph):
+        """Internal recursive function to add this model and its objects to a dependency
+        graph (see ParameterizedNode._dependency_graph_helper).
 
-        seen_nodes = {}
+        Parameters
+        ----------
+        dependency_graph : DependencyGraph
+            An object tracking the dependencies between parameters. This object is modified
+            in place to represent the current state.
+        """
+        super()._dependency_graph_helper(dependency_graph)
         for object in self.objects:
-            object._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
-        self._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
+            object._dependency_graph_helper(dependency_graph)
+
+    def build_pytree(self, graph_state, partial=None):
+        """Build a JAX PyTree representation of the variables of this model and its objects.
+
+        Parameters
+        ----------
+        graph_state : dict
+            A dictionary of dictionaries mapping node->hash, variable_name to value.
+        partial : dict
+            The partial results so far. This is modified in place by the function.
+            A dictionary mapping node name to a dictionary mapping each variable's name
+            to its value.
+            Default: None
 
-        return graph_state
+        Returns
+        -------
+        values : dict
+            A dictionary mapping node name to a dictionary mapping each variable's name
+            to its value.
+        """
+        partial = super().build_pytree(graph_state, partial)
+        for object in self.objects:
+            partial = object.build_pytree(graph_state, partial)
+        return partial
 
     def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
         """Evaluate the model and apply the effects for a single, given graph state.
-- 
2.43.0


From 9c382209b109e3d9b1561217a3a9df06e1bfac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 43/76] fix: SplineModel and SncosmoWrapperModel accept times
 and wavelengths in any order

---
 src/lightcurvelynx/models/sncomso_models.py | 7 +++++--
 src/lightcurvelynx/models/spline_model.py   | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/sncomso_models.py b/src/lightcurvelynx/models/sncomso_models.py
index 37a664d..1595c83 100644
--- a/src/lightcurvelynx/models/sncomso_models.py
+++ b/src/lightcurvelynx/models/sncomso_models.py
@@ -267,8 +267,11 @@ class SncosmoWrapperModel(SEDModel, CiteClass):
         if np.any(wavelengths < self.source.minwave()) or np.any(wavelengths > self.source.maxwave()):
             return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, **kwargs)
 
-        # Query the model and convert the output to nJy.
-        model_flam = self.source.flux(times - params["t0"], wavelengths)
+        # Query the model and convert the output to nJy. Some sources are only defined on a sorted grid
+        # of times and wavelengths, so map the results back to the given order.
+        phases, time_idx = np.unique(times - params["t0"], return_inverse=True)
+        waves, wave_idx = np.unique(wavelengths, return_inverse=True)
+        model_flam = self.source.flux(phases, waves)[np.ix_(time_idx, wave_idx)]
         model_fnu = flam_to_fnu(
             model_flam,
             wavelengths,
diff --git a/src/lightcurvelynx/models/spline_model.py b/src/lightcurvelynx/models/spline_model.py
index 572526f..4d26d06 100644
--- a/src/lightcurvelynx/models/spline_model.py
+++ b/src/lightcurvelynx/models/spline_model.py
@@ -5,6 +5,7 @@ It is adapted from sncosmo's TimeSeriesSource model:
 https://github.com/sncosmo/sncosmo/blob/v2.10.1/sncosmo/models.py
 """
 
+import numpy as np
 from scipy.interpolate import RectBivariateSpline
 
 from lightcurvelynx.models.physical_model import SEDModel
@@ -187,5 +188,8 @@ class SplineModel(SEDModel):
         if t0 is None:
             t0 = 0.0
 
-        fluxes = params["amplitude"] * self._spline(times - t0, wavelengths, grid=True)
-        return fluxes
+        # The spline is only defined on a sorted grid, so map the results back to the given order.
+        phases, time_idx = np.unique(times - t0, return_inverse=True)
+        waves, wave_idx = np.unique(wavelengths, return_inverse=True)
+        fluxes = params["amplitude"] * self._spline(phases, waves, grid=True)
+        return fluxes[np.ix_(time_idx, wave_idx)]
-- 
2.43.0


From d5ff0145150bf9dc8b01d58bf98adf6dd10c1cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 44/76] fix: GaussianGalaxy compares distances and radius in
 degrees

---
 src/lightcurvelynx/models/galaxy_models.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/models/galaxy_models.py b/src/lightcurvelynx/models/galaxy_models.py
index b4240f9..60d9fc8 100644
--- a/src/lightcurvelynx/models/galaxy_models.py
+++ b/src/lightcurvelynx/models/galaxy_models.py
@@ -60,11 +60,14 @@ class GaussianGalaxy(SEDModel):
 
         dist = 0.0
         if ra is not None and dec is not None:
-            dist = angular_separation(
-                params["ra"] * np.pi / 180.0,
-                params["dec"] * np.pi / 180.0,
-                ra * np.pi / 180.0,
-                dec * np.pi / 180.0,
+            # Both the distance and the radius are in degrees.
+            dist = np.degrees(
+                angular_separation(
+                    params["ra"] * np.pi / 180.0,
+                    params["dec"] * np.pi / 180.0,
+                    ra * np.pi / 180.0,
+                    dec * np.pi / 180.0,
+                )
             )
 
         # Scale the brightness as a Guassian function centered on the object's RA and Dec.
-- 
2.43.0


From 666717deb9a1ad8086168d51c76dc46b494dc3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 45/76] fix: evaluate_sed passes its keyword arguments to the
 models only, and every model takes them

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 8 ++++++--
 src/lightcurvelynx/models/physical_model.py            | 4 +---
 src/lightcurvelynx/models/static_sed_model.py          | 4 +++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index a21ce54..8518e4c 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -648,7 +648,7 @@ class LightcurveTemplateModel(BaseLightcurveTemplateModel):
         self.lightcurves = LightcurveData(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)
         super().__init__(passbands, filters=self.lightcurves.filters, **kwargs)
 
-    def compute_sed(self, times, wavelengths, graph_state):
+    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
         """Draw effect-free observer frame flux densities.
 
         Parameters
@@ -659,6 +659,8 @@ class LightcurveTemplateModel(BaseLightcurveTemplateModel):
             A length N array of observer frame wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        **kwargs : dict, optional
+            Any additional keyword arguments.
 
         Returns
         -------
@@ -865,7 +867,7 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
 
         return cls(lightcurves, passbands, **kwargs)
 
-    def compute_sed(self, times, wavelengths, graph_state):
+    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
         """Draw effect-free observer frame flux densities.
 
         Parameters
@@ -876,6 +878,8 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
             A length N array of observer frame wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        **kwargs : dict, optional
+            Any additional keyword arguments.
 
         Returns
         -------
diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 1a1affb..ff89338 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -495,9 +495,7 @@ class SEDModel(BasePhysicalModel):
 
         # Check if we need to sample the graph.
         if graph_state is None:
-            graph_state = self.sample_parameters(
-                given_args=given_args, num_samples=1, rng_info=rng_info, **kwargs
-            )
+            graph_state = self.sample_parameters(given_args=given_args, num_samples=1, rng_info=rng_info)
 
         # If we only have a single sample, do not bother to iterate through the states.
         if graph_state.num_samples == 1:
diff --git a/src/lightcurvelynx/models/static_sed_model.py b/src/lightcurvelynx/models/static_sed_model.py
index d44a01d..02180d9 100644
--- a/src/lightcurvelynx/models/static_sed_model.py
+++ b/src/lightcurvelynx/models/static_sed_model.py
@@ -177,7 +177,7 @@ class StaticSEDModel(SEDModel):
         idx = self.get_param(graph_state, "selected_idx")
         return self.sed_values[idx][0, -1]
 
-    def compute_sed(self, times, wavelengths, graph_state):
+    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
         """Draw effect-free observer frame flux densities.
 
         Parameters
@@ -188,6 +188,8 @@ class StaticSEDModel(SEDModel):
             A length N array of observer frame wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        **kwargs : dict, optional
+            Any additional keyword arguments.
 
         Returns
         -------
-- 
2.43.0


From 02775fe46baa3f64d672838773b6c047b65d104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 46/76] fix: zero points do not depend on which filter comes
 first

np.vectorize took the output type from the first filter's value: an integer
zero point (or extinction coefficient) in the first row truncated those of all
other rows, and an empty table was an error.
---
 src/lightcurvelynx/astro_utils/zeropoint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/zeropoint.py b/src/lightcurvelynx/astro_utils/zeropoint.py
index 88182d5..3996091 100644
--- a/src/lightcurvelynx/astro_utils/zeropoint.py
+++ b/src/lightcurvelynx/astro_utils/zeropoint.py
@@ -51,8 +51,8 @@ def magnitude_electron_zeropoint(  # noqa: D103
     instr_zp = _lsstcam_zeropoint_per_sec_zenith if instr_zp is None else instr_zp
     ext_coeff = _lsstcam_extinction_coeff if ext_coeff is None else ext_coeff
 
-    instr_zp_getter = np.vectorize(instr_zp.get)
-    ext_coeff_getter = np.vectorize(ext_coeff.get)
+    instr_zp_getter = np.vectorize(instr_zp.get, otypes=[float])
+    ext_coeff_getter = np.vectorize(ext_coeff.get, otypes=[float])
 
     return instr_zp_getter(band) + ext_coeff_getter(band) * (airmass - 1) + 2.5 * np.log10(exptime)
 
-- 
2.43.0


From 5f7cc0d47848d9284aa00449a1f4e566d164d9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 47/76] fix: ZTF zero points use the survey's own gain, read
 noise and dark current

The noise model used the values given for the survey but the zero points were
derived with the defaults, so the error at the limiting magnitude was not a fifth
of the flux.
---
 src/lightcurvelynx/obstable/ztf_obstable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index ca1c0cf..1fb4bd0 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -99,9 +99,9 @@ class ZTFObsTable(ObsTable):
             maglim=self._table["maglim"],
             sky=self._table["sky"],
             fwhm=self._table["fwhm"],
-            gain=_ztfcam_ccd_gain,
-            readnoise=_ztfcam_readout_noise,
-            darkcurrent=_ztfcam_dark_current,
+            gain=self.safe_get_survey_value("gain"),
+            readnoise=self.safe_get_survey_value("read_noise"),
+            darkcurrent=self.safe_get_survey_value("dark_current"),
             exptime=self._table["exptime"],
             nexposure=1,
         )
-- 
2.43.0


From 07081e4d2dd8ae491c4cb6f987ef7fe354516795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 48/76] fix: RomanObsTable reads the MA table it is given

A given ma_table_path ended in an unbound local variable.
---
 src/lightcurvelynx/obstable/roman_obstable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index db90386..6d3c641 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -59,11 +59,11 @@ def _get_roman_char():
 
 def _get_ma_table(ma_table_path=None):
     if ma_table_path is None:
-        ma_table_file = (
+        ma_table_path = (
             _LIGHTCURVELYNX_BASE_DATA_DIR
             / "roman_characterization/roman_wfi_imaging_multiaccum_tables_with_exptime.csv"
         )
-    ma_table = pd.read_csv(ma_table_file)
+    ma_table = pd.read_csv(ma_table_path)
 
     return ma_table
 
-- 
2.43.0


From f7fe4714276b307bda0713ebded7e8f3e2dea8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 49/76] fix: RomanObsTable does not change the table it is
 given

The derived columns were added to (and overwrote columns of) the caller's table.
---
 src/lightcurvelynx/obstable/roman_obstable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index 6d3c641..5273865 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -103,7 +103,7 @@ class RomanObsTable(ObsTable):
     def __init__(self, table, colmap=None, ma_table_path=None, **kwargs):
         colmap = self._default_colnames if colmap is None else colmap
 
-        self.apt_table = table
+        self.apt_table = table.copy()
         self.ma_table = _get_ma_table(ma_table_path)
         roman_char = _get_roman_char()
         self.zp_table = roman_char["zp_table"]
-- 
2.43.0


From 911bd50984955e360ed6c7f102c4b1f26c150666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 50/76] fix: simulate_lightcurves: a time window with several
 samples of a model without t0 raised a TypeError

---
 src/lightcurvelynx/simulate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 27c276d..88d9ffd 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -42,6 +42,10 @@ def get_time_windows(t0, time_window_offset):
     # If t0 is a scalar apply the offset directly.
     if np.isscalar(t0):
         t0 = np.array([t0])
+
+    # A model without a t0 has one None per sample when there are multiple samples.
+    if all(value is None for value in t0):
+        return None, None
     start_times = t0 - before if before is not None else None
     end_times = t0 + after if after is not None else None
 
-- 
2.43.0


From b6f5ab23a3bc27ebd9d9cde850e345f2b53561a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 51/76] fix: LightcurveTemplateModel accepts a LightcurveData
 instance, as documented

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 8518e4c..fbcf6d5 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -644,8 +644,14 @@ class LightcurveTemplateModel(BaseLightcurveTemplateModel):
         baseline=None,
         **kwargs,
     ):
-        # Store the light curve data, parsing out different formats if needed.
-        self.lightcurves = LightcurveData(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)
+        # Store the light curve data, parsing out different formats if needed. A LightcurveData
+        # instance already includes its reference epoch, periodicity and baseline.
+        if isinstance(lightcurves, LightcurveData):
+            self.lightcurves = lightcurves
+        else:
+            self.lightcurves = LightcurveData(
+                lightcurves, lc_data_t0, periodic=periodic, baseline=baseline
+            )
         super().__init__(passbands, filters=self.lightcurves.filters, **kwargs)
 
     def compute_sed(self, times, wavelengths, graph_state, **kwargs):
-- 
2.43.0


From f6777cd981ea069b2e86416883a5e3bbcb134259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 52/76] fix: results_drop_empty drops light curves without rows

---
 src/lightcurvelynx/utils/post_process_results.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 5d5b714..80fa753 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -21,7 +21,9 @@ def results_drop_empty(results):
     nested_pandas.NestedFrame
         The DataFrame with empty lightcurves removed.
     """
-    return results.dropna(subset=["lightcurve"])
+    # A light curve without observations can be a null entry or (for example after columns were
+    # added to the light curves) a table without rows.
+    return results[np.asarray(results["lightcurve"].nest.list_lengths) > 0]
 
 
 def lightcurve_compute_snr(flux, fluxerr):
-- 
2.43.0


From 97040f406dc1d4b890845172d2e051206d107c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 53/76] fix: results_augment_lightcurves matches times by
 position also for repeated index labels

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 80fa753..4b8331f 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -162,4 +162,4 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
         # to subtract out the reference t0. We match by position, because the index labels
         # might not match the row positions (e.g. after dropping rows).
         t0 = np.repeat(np.asarray(results["t0"]), results["lightcurve"].nest.list_lengths)
-        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0
+        results["lightcurve.time_rel"] = np.asarray(results["lightcurve.mjd"]) - t0
-- 
2.43.0


From 7894c14baa5b77375c7f15883c18979bdf88996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 54/76] fix: ObsTableRADECSampler accepts integer ra and dec
 columns

---
 src/lightcurvelynx/math_nodes/ra_dec_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
index 68a0e4d..9c36b0c 100644
--- a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
+++ b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
@@ -147,8 +147,8 @@ class ObsTableRADECSampler(TableSampler):
                 offset_ang = offset_ang[0]
 
             # Add the offsets to RA and dec. Keep time unchanged.
-            results[0] += offset_amt * np.cos(offset_ang)  # RA
-            results[1] += offset_amt * np.sin(offset_ang)  # dec
+            results[0] = results[0] + offset_amt * np.cos(offset_ang)  # RA
+            results[1] = results[1] + offset_amt * np.sin(offset_ang)  # dec
 
             # Resave the results (overwriting the previous results)
             self._save_results(results, graph_state)
-- 
2.43.0


From e014650fabb1669635d625a869661015a7d46e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:09 +0000
Subject: [PATCH 55/76] fix: ObsTableRADECSampler keeps dec within [-90, 90]
 next to a pole

---
 src/lightcurvelynx/math_nodes/ra_dec_sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
index 9c36b0c..3c813e0 100644
--- a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
+++ b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
@@ -150,6 +150,11 @@ class ObsTableRADECSampler(TableSampler):
             results[0] = results[0] + offset_amt * np.cos(offset_ang)  # RA
             results[1] = results[1] + offset_amt * np.sin(offset_ang)  # dec
 
+            # A position that moved over a pole comes down on the other side of it.
+            excess = np.maximum(np.abs(results[1]) - 90.0, 0.0)
+            results[0] = results[0] + 180.0 * (excess > 0.0)
+            results[1] = results[1] - 2.0 * np.sign(results[1]) * excess
+
             # Resave the results (overwriting the previous results)
             self._save_results(results, graph_state)
 
-- 
2.43.0


From ac5316038b8a9196e1946c330bee3f452b4fc658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 56/76] fix: ExtinctionEffect accepts an effect name together
 with the name of an extinction model

---
 src/lightcurvelynx/effects/extinction.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/effects/extinction.py b/src/lightcurvelynx/effects/extinction.py
index 3536c8a..cf2643c 100644
--- a/src/lightcurvelynx/effects/extinction.py
+++ b/src/lightcurvelynx/effects/extinction.py
@@ -34,14 +34,22 @@ class ExtinctionEffect(EffectModel, CiteClass):
         The setter (function) for the extinction parameter E(B-V).
     frame : str
         The frame for extinction. 'rest' or 'observer'.
+    effect_name : str, optional
+        The name of the effect. If not provided, the class name is used.
     **kwargs : `dict`, optional
         Any additional keyword arguments.
     """
 
     def __init__(
-        self, extinction_model=None, ebv=None, frame: Literal["observer"] | Literal["rest"] = None, **kwargs
+        self,
+        extinction_model=None,
+        ebv=None,
+        frame: Literal["observer"] | Literal["rest"] = None,
+        *,
+        effect_name=None,
+        **kwargs,
     ):
-        super().__init__(**kwargs)
+        super().__init__(effect_name=effect_name, **kwargs)
         self.add_effect_parameter("ebv", ebv)
 
         if frame == "observer":
-- 
2.43.0


From d6357af5dae0ee71b0fc33ab1115d87ac9dc9bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 57/76] fix: a composite that was sampled before can get a rest
 frame effect with parameter nodes

---
 src/lightcurvelynx/models/multi_object_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index b2c8cb0..8d63fdb 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -102,6 +102,9 @@ class MultiObjectModel(SEDModel):
             # The rest frame effects are applied to each object.
             for object in self.objects:
                 object.add_effect(effect)
+
+            # The graph below this node might have changed, so its positions are set again.
+            self.node_pos = None
         else:
             # Add observer frame effects to this model.
             # Add any effect parameters that are not already in the model.
-- 
2.43.0


From f1740cc82f801ad25f8a0cc2e1ec489b022ad1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 58/76] fix: SNCoordGivenPhysicalSep draws from the given
 generator instead of numpy's global one

---
 src/lightcurvelynx/astro_utils/snia_utils.py | 52 ++++++++++++++++++--
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/snia_utils.py b/src/lightcurvelynx/astro_utils/snia_utils.py
index 3f22571..15bd8f7 100644
--- a/src/lightcurvelynx/astro_utils/snia_utils.py
+++ b/src/lightcurvelynx/astro_utils/snia_utils.py
@@ -343,16 +343,23 @@ class SNCoordGivenPhysicalSep(FunctionNode):
         The Hubble constant.
     Omega_m : constant
         The matter density Omega_m.
+    seed : int, optional
+        The seed to use for the random position angles.
     **kwargs : dict, optional
         Any additional keyword arguments.
     """
 
-    def __init__(self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, **kwargs):
+    def __init__(
+        self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, seed=None, **kwargs
+    ):
         # Create the cosmology once for this node.
         if not isinstance(H0, float) or not isinstance(Omega_m, float):
             raise ValueError("H0 and Omega_m must be constants.")
         self.cosmo = FlatLambdaCDM(H0=H0, Om0=Omega_m)
 
+        # Set the random number generator for this object.
+        self.set_seed(seed)
+
         # Call the super class's constructor with the needed information.
         super().__init__(
             func=self._sn_coord,
@@ -364,6 +371,41 @@ class SNCoordGivenPhysicalSep(FunctionNode):
             **kwargs,
         )
 
+    def set_seed(self, new_seed):
+        """Update the random number generator's seed to a given value.
+
+        Parameters
+        ----------
+        new_seed : int
+            The given seed
+        """
+        self._rng = np.random.default_rng(seed=new_seed)
+
+    def compute(self, graph_state, rng_info=None, **kwargs):
+        """Compute the SN coordinates with a random position angle.
+
+        Parameters
+        ----------
+        graph_state : GraphState
+            An object mapping graph parameters to their values. This object is modified
+            in place as it is sampled.
+        rng_info : numpy.random._generator.Generator or None, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
+        **kwargs : dict, optional
+            Additional function arguments.
+
+        Returns
+        -------
+        results : any
+            The result of the computation. This return value is provided so that testing
+            functions can easily access the results.
+        """
+        args = self._build_inputs(graph_state, **kwargs)
+        results = self._sn_coord(**args, rng_info=rng_info)
+        self._save_results(results, graph_state)
+        return results
+
     def _host_sn_angular_separation(self, physical_sep_kpc, redshift):
         """
         Function for calculating host-sn angular separation.
@@ -386,7 +428,7 @@ class SNCoordGivenPhysicalSep(FunctionNode):
 
         return angular_sep_rad
 
-    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift):
+    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift, rng_info=None):
         """
         Function to generate SN coordinates given the host coordinates and angular separation.
 
@@ -400,6 +442,9 @@ class SNCoordGivenPhysicalSep(FunctionNode):
             The physical host-sn separation(s) in kpc.
         redshift : float or numpy.ndarray
             The redshift to convert physical separation to angular separation.
+        rng_info : numpy.random._generator.Generator or None, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
 
         Returns
         -------
@@ -411,7 +456,8 @@ class SNCoordGivenPhysicalSep(FunctionNode):
 
         self.angular_sep_rad = self._host_sn_angular_separation(physical_sep_kpc, redshift)
         center = SkyCoord(host_ra * u.deg, host_dec * u.deg, frame="icrs")
-        rand_pa = 2 * np.pi * np.random.random(center.size) * u.rad  # random position angle
+        rng = rng_info if rng_info is not None else self._rng
+        rand_pa = 2 * np.pi * rng.random(center.size) * u.rad  # random position angle
 
         sn_coord = center.directional_offset_by(rand_pa, self.angular_sep_rad)
         ra = sn_coord.ra.deg
-- 
2.43.0


From 6b0df7993658623c7716346e9084ff524cedda27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 59/76] fix: AGN draws its random walk from the given generator

---
 src/lightcurvelynx/models/agn.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/agn.py b/src/lightcurvelynx/models/agn.py
index 8ad18ba..1b068b4 100644
--- a/src/lightcurvelynx/models/agn.py
+++ b/src/lightcurvelynx/models/agn.py
@@ -478,7 +478,29 @@ class AGN(SEDModel):
         G = constants.G.cgs.value
         return 2 ** (3 / 4) * (3 / 7) ** (7 / 4) * (G * M * Mdot / (np.pi * sigma_sb * r_in**3)) ** (1 / 4)
 
-    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
+    def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
+        """Evaluate the model and apply the effects for a single, given graph state
+        (see SEDModel._evaluate_single), using the given generator for the random walk.
+
+        Parameters
+        ----------
+        times : numpy.ndarray
+            A length T array of observer frame timestamps in MJD.
+        wavelengths : numpy.ndarray
+            A length N array of wavelengths (in angstroms).
+        state : GraphState
+            An object mapping graph parameters to their values with num_samples=1.
+        rng_info : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
+        **kwargs : dict, optional
+            All the other keyword arguments.
+        """
+        return super()._evaluate_single(
+            times, wavelengths, state, rng_info=rng_info, sed_rng=rng_info, **kwargs
+        )
+
+    def compute_sed(self, times, wavelengths, graph_state, sed_rng=None, **kwargs):
         """Draw effect-free observations for this object.
 
         Parameters
@@ -489,6 +511,9 @@ class AGN(SEDModel):
             A length N array of wavelengths (in angstroms).
         graph_state : `GraphState`
             An object mapping graph parameters to their values.
+        sed_rng : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
         **kwargs : `dict`, optional
             Any additional keyword arguments.
 
@@ -523,7 +548,7 @@ class AGN(SEDModel):
             tau_v,
             sf_inf,
             params["t0"],
-            rng=self._rng,
+            rng=sed_rng if sed_rng is not None else self._rng,
         )
 
         flux_density = 10 ** (-0.4 * delta_m) * fnu_average
-- 
2.43.0


From 5b08c4450276c5e9f72fafe7a8ecf1a08cdafdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 60/76] fix: the SNIa example run draws its samples and noise
 from the given generator

---
 src/lightcurvelynx/example_runs/simulate_snia.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/example_runs/simulate_snia.py b/src/lightcurvelynx/example_runs/simulate_snia.py
index 5122ec4..f2183c7 100644
--- a/src/lightcurvelynx/example_runs/simulate_snia.py
+++ b/src/lightcurvelynx/example_runs/simulate_snia.py
@@ -203,12 +203,12 @@ def draw_single_random_sn(
     res["flux_fnu"] = flux_nJy
 
     # Compute the band_flixes over just the given filters.
-    bandfluxes_perfect = source.evaluate_bandfluxes(passbands, times, filters, state)
+    bandfluxes_perfect = source.evaluate_bandfluxes(passbands, times, filters, state, rng_info=rng_info)
     res["bandfluxes_perfect"] = bandfluxes_perfect
 
     bandfluxes_error = opsim.bandflux_error_point_source(bandfluxes_perfect, obs_index)
     res["bandfluxes_error"] = bandfluxes_error
-    res["bandfluxes"] = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=None)
+    res["bandfluxes"] = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng_info)
 
     res["state"] = state
 
@@ -274,7 +274,7 @@ def run_snia_end2end(
     passbands = load_and_register_passband(passbands_dir, to_use=["g", "r"])
 
     logger.info(f"Sampling {nsample} states.")
-    sample_states = source.sample_parameters(num_samples=nsample)
+    sample_states = source.sample_parameters(num_samples=nsample, rng_info=rng_info)
 
     res_list = []
     for i in range(0, nsample):
-- 
2.43.0


From b6388ea58697cd6550fe91afcd66d561fd4c029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 61/76] fix: a conditional PZFlowNode can draw a single sample

---
 src/lightcurvelynx/astro_utils/pzflow_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/pzflow_node.py b/src/lightcurvelynx/astro_utils/pzflow_node.py
index 58e2ced..ce02816 100644
--- a/src/lightcurvelynx/astro_utils/pzflow_node.py
+++ b/src/lightcurvelynx/astro_utils/pzflow_node.py
@@ -101,7 +101,7 @@ class PZFlowNode(FunctionNode, CiteClass):
             all_params = self.get_local_params(graph_state)
             input_params = {}
             for col in self.conditional_cols:
-                input_params[col] = all_params[col]
+                input_params[col] = np.atleast_1d(all_params[col])
             input_df = pd.DataFrame(input_params)
 
             samples = self.flow.sample(1, conditions=input_df, seed=seed)
-- 
2.43.0


From dbe966278a060c9c756815c9ba9d06065a8ce010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 62/76] fix: the nodes of a MultiLightcurveTemplateModel do not
 depend on the hash seed

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index fbcf6d5..31709c8 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -804,7 +804,7 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
             self.all_filters.update(lc.filters)
         self.lightcurves = lightcurves
 
-        super().__init__(passbands, filters=list(self.all_filters), **kwargs)
+        super().__init__(passbands, filters=sorted(self.all_filters), **kwargs)
 
         all_inds = [i for i in range(len(lightcurves))]
         self._sampler_node = GivenValueSampler(all_inds, weights=weights)
@@ -814,7 +814,7 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
         # Create a parameter to track the baseline values for the selected light curve. The node
         # will automatically fill in the correct baseline value based on the index given by
         # the selected_lightcurve parameter.
-        for fltr in self.all_filters:
+        for fltr in sorted(self.all_filters):
             baselines = [lc.baseline.get(fltr, 0.0) for lc in lightcurves]
             baseline_selector = GivenValueSelector(baselines, self.selected_lightcurve)
             self.add_parameter(f"baseline_{fltr}", value=baseline_selector, allow_gradient=False)
-- 
2.43.0


From 0f5dd70af8405e1772062c24c38ee5a4877ea412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:20 +0000
Subject: [PATCH 63/76] fix: metadata and parameters of one LCLIB event are not
 carried over to the following events

---
 src/lightcurvelynx/utils/io_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 17891b5..4b8787e 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -163,7 +163,8 @@ def _read_lclib_data_from_open_file(input_file):
     """
     colnames = []
     curves = []
-    meta = {}
+    header_meta = {}  # The metadata outside of the events, which applies to all of them.
+    meta = header_meta
     current_model = {}
     parnames = []
     in_doc_block = False
@@ -202,6 +203,7 @@ def _read_lclib_data_from_open_file(input_file):
 
             # Save the table we have so far.
             curves.append(Table(current_model, meta=meta))
+            meta = header_meta
         elif key == "START_EVENT":
             if len(colnames) == 0:
                 raise ValueError(f"Error on line= {l_num}: No filters defined.")
@@ -210,6 +212,7 @@ def _read_lclib_data_from_open_file(input_file):
             current_model["type"] = []  # Initialize the type list.
             for col in colnames:
                 current_model[col] = []
+            meta = header_meta.copy()
             meta["id"] = value
         elif key == "S" or key == "T":
             # Save an observation or template to the current light curve.
-- 
2.43.0


From 942a91903a4b428c25c40c5b955819b4176bfa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:20 +0000
Subject: [PATCH 64/76] fix: spaces around the commas of LCLIB parameter names
 and values are not part of them

---
 src/lightcurvelynx/utils/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 4b8787e..ae5be4a 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -225,10 +225,10 @@ def _read_lclib_data_from_open_file(input_file):
             for col_idx, col in enumerate(colnames):
                 current_model[col].append(float(col_vals[col_idx]))
         elif key == "MODEL_PARNAMES" or key == "MODEL_PARAMETERS":
-            parnames = value.split(",")
+            parnames = [name.strip() for name in value.split(",")]
         elif key == "PARVAL":
             if "," in value:
-                all_vals = value.split(",")
+                all_vals = [val.strip() for val in value.split(",")]
             else:
                 all_vals = value.split()
 
-- 
2.43.0


From 1561d178a7b27edf80328da08d421922288519c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:20 +0000
Subject: [PATCH 65/76] fix: read_grid_data can read the formats that are not
 text (fits, votable)

---
 src/lightcurvelynx/utils/io_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index ae5be4a..d39feea 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -103,7 +103,9 @@ def read_grid_data(input_file, format="ascii", validate=False):
     if not Path(input_file).is_file():
         raise FileNotFoundError(f"File {input_file} not found.")
 
-    data = Table.read(input_file, format=format, comment=r"\s*#")
+    # Only the readers of the text formats know about comments.
+    read_args = {"comment": r"\s*#"} if format.startswith("ascii") else {}
+    data = Table.read(input_file, format=format, **read_args)
     if len(data.colnames) != 3:
         raise ValueError(
             f"Incorrect format for grid data in {input_file} with format {format}. "
-- 
2.43.0


From 015d16d70447af4b5c0d7399d1bcacfaa3eede89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:20 +0000
Subject: [PATCH 66/76] fix: force_download replaces a data file that is
 already there

---
 src/lightcurvelynx/utils/data_download.py | 26 +++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/utils/data_download.py b/src/lightcurvelynx/utils/data_download.py
index 1f805ba..a27e795 100644
--- a/src/lightcurvelynx/utils/data_download.py
+++ b/src/lightcurvelynx/utils/data_download.py
@@ -39,13 +39,27 @@ def download_data_file_if_needed(data_path, data_url, force_download=False):
     # Create the directory in which to save the file if it does not already exist.
     data_path.parent.mkdir(parents=True, exist_ok=True)
 
+    # Pooch does not replace a file that already exists, so set the existing file aside
+    # (and put it back if the download fails).
+    backup_path = None
+    if data_path.exists():
+        backup_path = data_path.with_name(data_path.name + ".bak")
+        data_path.replace(backup_path)
+
     # Use pooch to download the data files and extract them to the data directory.
-    full_path = pooch.retrieve(
-        url=data_url,
-        known_hash=None,
-        fname=data_path.name,
-        path=data_path.parent,
-    )
+    try:
+        full_path = pooch.retrieve(
+            url=data_url,
+            known_hash=None,
+            fname=data_path.name,
+            path=data_path.parent,
+        )
+    finally:
+        if backup_path is not None:
+            if data_path.exists():
+                backup_path.unlink()
+            else:
+                backup_path.replace(data_path)
 
     if full_path is None or not Path(full_path).exists():
         logger.error(f"Transmission table not downloaded from {data_url}.")
-- 
2.43.0


From 91ca53727787cb1eb9f84c75efeb3eaed052887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:20 +0000
Subject: [PATCH 67/76] fix: PassbandGroup.from_dir accepts a relative
 directory

---
 src/lightcurvelynx/astro_utils/passbands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 7d428bf..3f107f6 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -212,7 +212,7 @@ class PassbandGroup:
                     params = {
                         "survey": dir_path.name,
                         "filter_name": filter_name,
-                        "table_path": dir_path / entry,
+                        "table_path": entry,
                         "delta_wave": delta_wave,
                         "trim_quantile": trim_quantile,
                         "units": units,
-- 
2.43.0


From b2621a6540a84b38909320706eedc0cd96710a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 68/76] fix: BicubicInterpolator.from_grid_file scales grids of
 integers

---
 src/lightcurvelynx/utils/bicubic_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/bicubic_interp.py b/src/lightcurvelynx/utils/bicubic_interp.py
index 8f8a868..57fddcc 100644
--- a/src/lightcurvelynx/utils/bicubic_interp.py
+++ b/src/lightcurvelynx/utils/bicubic_interp.py
@@ -187,7 +187,7 @@ class BicubicInterpolator:
             Default: 1.0
         """
         x_vals, y_vals, z_vals = read_grid_data(filename)
-        z_vals *= scale_factor
+        z_vals = z_vals * scale_factor
         return BicubicInterpolator(x_vals, y_vals, z_vals)
 
     def __call__(self, x_q, y_q):
-- 
2.43.0


From d68b43234b287c5d6ca22adf10e7a47d68bba5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:21 +0000
Subject: [PATCH 69/76] fix: pass only the cosmology of a model to its distance
 function

---
 src/lightcurvelynx/models/physical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index ff89338..8b93fb0 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -83,7 +83,7 @@ class BasePhysicalModel(ParameterizedNode, ABC):
         if distance is not None:
             self.add_parameter("distance", distance, allow_gradient=False)
         elif redshift is not None and kwargs.get("cosmology") is not None:
-            self._redshift_func = RedshiftDistFunc(redshift=self.redshift, **kwargs)
+            self._redshift_func = RedshiftDistFunc(redshift=self.redshift, cosmology=kwargs["cosmology"])
             self.add_parameter("distance", self._redshift_func, allow_gradient=False)
         else:
             self.add_parameter("distance", None, allow_gradient=False)
-- 
2.43.0


From 6671505897f24a8621df70f632579eb581f5b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:21 +0000
Subject: [PATCH 70/76] fix: reject times of a damped random walk that do not
 increase

---
 src/lightcurvelynx/models/agn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/agn.py b/src/lightcurvelynx/models/agn.py
index 1b068b4..2756704 100644
--- a/src/lightcurvelynx/models/agn.py
+++ b/src/lightcurvelynx/models/agn.py
@@ -56,7 +56,7 @@ def sample_damped_random_walk(times, tau_v, sf_inf, t0, rng=None):
 
     # Iterate over each time step.
     for idx, time in enumerate(times):
-        if time <= curr_t and idx != 0:
+        if idx != 0 and time <= times[idx - 1]:
             raise ValueError("Times must be monotonically increasing.")
 
         dt = time - curr_t
-- 
2.43.0


From a3d1843761acb595ead95fe5207940158559897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:26 +0000
Subject: [PATCH 71/76] fix: use the Rv of a BayesN model in its extinction

---
 src/lightcurvelynx/models/bayesn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/bayesn.py b/src/lightcurvelynx/models/bayesn.py
index 0e1bcfa..84b7fc4 100644
--- a/src/lightcurvelynx/models/bayesn.py
+++ b/src/lightcurvelynx/models/bayesn.py
@@ -488,7 +488,7 @@ class BayesnModel(SEDModel, CiteClass):
         # Apply dust extinction law
         # Get ebv such that ebv = Rv/Av
         ebv = params["Av"] / params["Rv"]
-        ext = ExtinctionEffect(extinction_model="F99", ebv=ebv, frame="rest")
+        ext = ExtinctionEffect(extinction_model="F99", ebv=ebv, frame="rest", Rv=params["Rv"])
         flux_density = ext.apply(flux_density, tau, wavelengths, ebv)
 
         # Apply the fixed distance modulus normalisation factor effect
-- 
2.43.0


From e61661d7681fb7f3001ee988dc5f5d47ce0d4d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:26 +0000
Subject: [PATCH 72/76] fix: scale the cubic terms of the BayesN spline with
 the square of the step

---
 src/lightcurvelynx/models/bayesn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/bayesn.py b/src/lightcurvelynx/models/bayesn.py
index 84b7fc4..2b8004c 100644
--- a/src/lightcurvelynx/models/bayesn.py
+++ b/src/lightcurvelynx/models/bayesn.py
@@ -357,10 +357,10 @@ class BayesnModel(SEDModel, CiteClass):
                 Mx11 = Mx[x1_idx, y1_idx]
 
                 # Interpolate in x for both fixed y0 and y1
-                fx0 = (ax**3 * Mx00 + bx**3 * Mx10) * hx / 6 + (
+                fx0 = (ax**3 * Mx00 + bx**3 * Mx10) * hx**2 / 6 + (
                     ax * (z00 - Mx00 * hx**2 / 6) + bx * (z10 - Mx10 * hx**2 / 6)
                 )
-                fx1 = (ax**3 * Mx01 + bx**3 * Mx11) * hx / 6 + (
+                fx1 = (ax**3 * Mx01 + bx**3 * Mx11) * hx**2 / 6 + (
                     ax * (z01 - Mx01 * hx**2 / 6) + bx * (z11 - Mx11 * hx**2 / 6)
                 )
 
@@ -375,7 +375,7 @@ class BayesnModel(SEDModel, CiteClass):
             My0 = My[xi_idx, y0_idx]
             My1 = My[xi_idx, y1_idx]
 
-            Zq[:, j] = (ay**3 * My0 + by**3 * My1) * hy / 6 + (
+            Zq[:, j] = (ay**3 * My0 + by**3 * My1) * hy**2 / 6 + (
                 ay * (f_y0 - My0 * hy**2 / 6) + by * (f_y1 - My1 * hy**2 / 6)
             )
 
-- 
2.43.0


From 4f101e4ab19b886ddac7fe3c719911900f4f6a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:26 +0000
Subject: [PATCH 73/76] fix: return the second derivatives of the BayesN
 spline, not their halves

---
 src/lightcurvelynx/models/bayesn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/bayesn.py b/src/lightcurvelynx/models/bayesn.py
index 2b8004c..56d7e25 100644
--- a/src/lightcurvelynx/models/bayesn.py
+++ b/src/lightcurvelynx/models/bayesn.py
@@ -254,7 +254,8 @@ class BayesnModel(SEDModel, CiteClass):
         M = np.zeros(n)
         for j in range(n - 2, 0, -1):
             M[j] = z[j] - mu[j] * M[j + 1]
-        return M
+        # The system is solved for the quadratic coefficients, which are half the second derivatives.
+        return 2 * M
 
     def compute_2d_second_derivatives(self, x, y, z):
         """
-- 
2.43.0


From 56abd391d3544a6c66d352115ec8e06f20f6bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:26 +0000
Subject: [PATCH 74/76] fix: extrapolate a redback model outside the
 wavelengths of its source instead of recursing

---
 src/lightcurvelynx/models/redback_models.py | 24 ++++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/lightcurvelynx/models/redback_models.py b/src/lightcurvelynx/models/redback_models.py
index 24472f6..4c0be1e 100644
--- a/src/lightcurvelynx/models/redback_models.py
+++ b/src/lightcurvelynx/models/redback_models.py
@@ -201,20 +201,28 @@ class RedbackWrapperModel(SEDModel, CiteClass):
             **fn_args,
         )
 
-        # The sncosmo-type source gives an error if the wavelengths are out of bounds, so we
-        # need to use extrapolation if the wavelengths are out of bounds. The function
-        # compute_sed_with_extrapolation() will trim the input wavelengths to be within the model's bounds
-        # and call this function again. So the second call passes this bounds check and does not recurse.
-        if np.any(wavelengths < rb_result.minwave()) or np.any(wavelengths > rb_result.maxwave()):
-            return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, **kwargs)
+        # The sncosmo-type source gives an error if the wavelengths are out of bounds. The bounds are
+        # only known once the source has been created, so we do the extrapolation here: query the source
+        # at its nearest valid wavelengths and replace the values that are out of bounds.
+        min_wave = rb_result.minwave()
+        max_wave = rb_result.maxwave()
+        query_waves = np.clip(wavelengths, min_wave, max_wave)
 
         # Query the model and convert the output to nJy.
-        model_flam = rb_result.get_flux_density(shifted_times, wavelengths)
+        model_flam = rb_result.get_flux_density(shifted_times, query_waves)
         model_fnu = flam_to_fnu(
             model_flam,
-            wavelengths,
+            query_waves,
             wave_unit=uu.AA,
             flam_unit=self._FLAM_UNIT,
             fnu_unit=uu.nJy,
         )
+        for edge, mask in ((min_wave, wavelengths < min_wave), (max_wave, wavelengths > max_wave)):
+            if not np.any(mask):
+                continue
+            if self.wave_extrapolation is None:
+                model_fnu[:, mask] = 0.0
+            else:
+                edge_flux = model_fnu[:, mask][:, 0]
+                model_fnu[:, mask] = self.wave_extrapolation(edge, edge_flux, wavelengths[mask])
         return model_fnu
-- 
2.43.0


From 989418ccd1de574decca463d2b61d721dd3b13b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:28 +0000
Subject: [PATCH 75/76] fix: PassbandGroup.from_preset accepts units and
 force_download for Roman

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 3f107f6..efeb175 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -342,7 +342,9 @@ class PassbandGroup:
                 f"Roman passbands are expected to be in microns (micron), but got {kwargs.get('units')}"
             )
 
-        force_download = kwargs.get("force_download", False)
+        # These arguments describe the table's file and are not passed on to the Passband objects.
+        kwargs.pop("units", None)
+        force_download = kwargs.pop("force_download", False)
         table_path = table_dir / "Roman" / "roman_wfi_filters.ecsv"
         table_url = (
             "https://github.com/RomanSpaceTelescope/roman-technical-information/blob/main/data/"
-- 
2.43.0


From 0ef63008803ae3a21768345a46033e1dccfdbdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:41 +0000
Subject: [PATCH 76/76] fix: AGN takes sed_rng again when it is evaluated
 through evaluate_sed

---
 src/lightcurvelynx/models/agn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/agn.py b/src/lightcurvelynx/models/agn.py
index 2756704..1095182 100644
--- a/src/lightcurvelynx/models/agn.py
+++ b/src/lightcurvelynx/models/agn.py
@@ -496,9 +496,8 @@ class AGN(SEDModel):
         **kwargs : dict, optional
             All the other keyword arguments.
         """
-        return super()._evaluate_single(
-            times, wavelengths, state, rng_info=rng_info, sed_rng=rng_info, **kwargs
-        )
+        kwargs.setdefault("sed_rng", rng_info)
+        return super()._evaluate_single(times, wavelengths, state, rng_info=rng_info, **kwargs)
 
     def compute_sed(self, times, wavelengths, graph_state, sed_rng=None, **kwargs):
         """Draw effect-free observations for this object.
-- 
2.43.0

