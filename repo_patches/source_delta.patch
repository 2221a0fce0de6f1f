From c401a5236453a0b0f57dbf6a0d1329a9bca77179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 001/100] fix: reject observable keys and names with trailing
 or missing characters

---
 seyfert/utils/shortcuts.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seyfert/utils/shortcuts.py b/seyfert/utils/shortcuts.py
index 935b965..4bb3f32 100644
--- a/seyfert/utils/shortcuts.py
+++ b/seyfert/utils/shortcuts.py
@@ -139,14 +139,14 @@ class ClKey:
 
     @classmethod
     def fromFisherStringRepr(cls, str_repr: "str"):
-        auto_match = alias_probe_name_regex.match(str_repr)
+        auto_match = alias_probe_name_regex.fullmatch(str_repr)
         if auto_match:
             p = auto_match.groups()[0]
             key = cls.fromParts(p, p, kind="alias")
         else:
             pattern = alias_probe_name_regex.pattern
             xc_regex = re.compile(r"XC\(%s,%s\)" % (pattern, pattern))
-            xc_match = xc_regex.match(str_repr)
+            xc_match = xc_regex.fullmatch(str_repr)
             if not xc_match:
                 raise Exception(f"Invalid string repr for ClKey {str_repr}")
             p1, p2 = xc_match.groups()
@@ -156,8 +156,8 @@ class ClKey:
 
     def inferKind(self) -> "str":
         if isinstance(self.key, str):
-            long_match = long_cl_key_regex.match(self.key)
-            short_match = short_cl_key_regex.match(self.key)
+            long_match = long_cl_key_regex.fullmatch(self.key)
+            short_match = short_cl_key_regex.fullmatch(self.key)
             if long_match:
                 kind = "long"
                 self.match = long_match
@@ -171,9 +171,9 @@ class ClKey:
                 raise KeyError(f"Invalid key {self.key}")
             kind = "alias"
             p1, p2 = self.key
-            if not alias_probe_name_regex.match(p1):
+            if not alias_probe_name_regex.fullmatch(p1):
                 raise KeyError(f"{p1} is not a valid probe alias")
-            if not alias_probe_name_regex.match(p2):
+            if not alias_probe_name_regex.fullmatch(p2):
                 raise KeyError(f"{p2} is not a valid probe alias")
         else:
             raise KeyError(f"Invalid key {self.key}")
-- 
2.43.0


From c1c6337c39c7fea0a97659d19595c6c0a9380353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 002/100] fix: data vectors of different length do not compare
 equal

---
 seyfert/fisher/datavector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/datavector.py b/seyfert/fisher/datavector.py
index 88f15d2..3699530 100644
--- a/seyfert/fisher/datavector.py
+++ b/seyfert/fisher/datavector.py
@@ -41,7 +41,7 @@ class ClDataVector:
         return len(self.entries)
 
     def __eq__(self, other: "ClDataVector") -> "bool":
-        return all(entry1 == entry2 for entry1, entry2 in zip(self, other))
+        return len(self) == len(other) and all(entry1 == entry2 for entry1, entry2 in zip(self, other))
 
     @property
     def is_single_autocorrelation(self) -> "bool":
-- 
2.43.0


From a92b0a9d7651fc73c0438c0d0aec59dcf7332d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 003/100] fix: weight the excess Newton-Cotes points along the
 integration axis

---
 seyfert/numeric/integration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/numeric/integration.py b/seyfert/numeric/integration.py
index 9d15764..3f8fb4e 100644
--- a/seyfert/numeric/integration.py
+++ b/seyfert/numeric/integration.py
@@ -97,7 +97,9 @@ class CompositeNewtonCotesIntegrator:
             slc = [slice(None)] * len(self.y.shape)
             slc[axis] = slice(-self.n_excess_points - 1, self.y.shape[axis])
             yend = self.y[tuple(slc)]
-            last_bin_contrib = dx * np.sum(aend * yend, axis=axis)
+            aend_shape = [1] * len(self.y.shape)
+            aend_shape[axis] = -1
+            last_bin_contrib = dx * np.sum(aend.reshape(aend_shape) * yend, axis=axis)
 
             result += last_bin_contrib
 
-- 
2.43.0


From 1a623a3499f17733c6f07695ba2ad1893205b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 004/100] fix: judge SteM linearity of negative Cls by the
 absolute deviation

---
 seyfert/derivatives/differentiator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 8edd2f1..d51d4ec 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -130,7 +130,7 @@ class SteMClDifferentiator(ClDifferentiator):
                 y_abs_diff = np.abs(yfit - y)
                 err = np.zeros(y_abs_diff.shape)
                 mask = y != 0
-                err[mask] = y_abs_diff[mask] / y[mask]
+                err[mask] = y_abs_diff[mask] / np.abs(y[mask])
                 not_linear_mask = np.any(err > 0.01, axis=0)
 
                 x = x[1:-1]
-- 
2.43.0


From 932a4373e4cf3a6c5c0fcd69d13d7e1478ad3903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 005/100] fix: let the vectorized SteM fall back to the
 innermost three points as the scalar one does

---
 seyfert/derivatives/differentiator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index d51d4ec..22f0187 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -133,12 +133,12 @@ class SteMClDifferentiator(ClDifferentiator):
                 err[mask] = y_abs_diff[mask] / np.abs(y[mask])
                 not_linear_mask = np.any(err > 0.01, axis=0)
 
+                at_most_three_points = y.shape[0] <= 3
+                stop = np.count_nonzero(not_linear_mask) == 0 or at_most_three_points
+
                 x = x[1:-1]
                 y = y[1:-1]
 
-                less_than_three_points = y.shape[0] <= 3
-                stop = np.count_nonzero(not_linear_mask) == 0 or less_than_three_points
-
         dc_lij = slopes.reshape((n_ells, ni, nj))
 
         return dc_lij
-- 
2.43.0


From b6964dd4f2f292b430fe34afe87d5af5965f800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 006/100] fix: read all the digits of the step from a job
 directory name

---
 seyfert/utils/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/filesystem_utils.py b/seyfert/utils/filesystem_utils.py
index 8f71cd0..e00f5f6 100644
--- a/seyfert/utils/filesystem_utils.py
+++ b/seyfert/utils/filesystem_utils.py
@@ -90,7 +90,7 @@ def get_forecast_input_data_dir_from_rundir(rundir: "Path") -> "Path":
 
 
 def get_dvar_step_from_cosmology_jobdir_name(dirname: str):
-    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9])')
+    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9]+)')
     match = dirname_regex.search(dirname)
     try:
         dvar = match.group('dvar')
-- 
2.43.0


From f4888e9d510263740d4ac098fd9d4d4cb399723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 007/100] fix: order the constant bias values by bin index
 instead of by storage order

---
 seyfert/cosmology/bias.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index b88fa05..117839e 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -179,6 +179,16 @@ class BiasModel(ABC):
     def n_bins(self) -> "int":
         return len(self.z_bin_edges) - 1
 
+    def getSortedBiasValues(self) -> "np.ndarray":
+        par_names = list(self.nuisance_parameters.keys())
+        digit_regex = re.compile(r'\d+')
+
+        def _get_bias_idx(s) -> "int":
+            match = digit_regex.search(s)
+            return int(s[match.start():match.end()])
+
+        return np.array([self.nuisance_parameters[name] for name in sorted(par_names, key=_get_bias_idx)])
+
     @abstractmethod
     def computeBias(self, z_grid: "np.ndarray") -> "np.ndarray":
         pass
@@ -192,7 +202,7 @@ class ConstantBias(BiasModel):
         super(ConstantBias, self).__init__(**kwargs)
 
     def computeBias(self, z_grid: "np.ndarray") -> "np.ndarray":
-        b_i = np.array(list(self.nuisance_parameters.values()))
+        b_i = self.getSortedBiasValues()
         if len(b_i) != self.n_bins:
             raise BiasError(f'number of bias values {len(b_i)} differs from n_bins {self.n_bins}')
         return np.repeat(b_i[:, np.newaxis], len(z_grid), axis=1)
@@ -209,16 +219,6 @@ class PiecewiseBias(BiasModel):
 
         return b_i_z
 
-    def getSortedBiasValues(self) -> "np.ndarray":
-        par_names = list(self.nuisance_parameters.keys())
-        digit_regex = re.compile(r'\d+')
-
-        def _get_bias_idx(s) -> "int":
-            match = digit_regex.search(s)
-            return int(s[match.start():match.end()])
-
-        return np.array([self.nuisance_parameters[name] for name in sorted(par_names, key=_get_bias_idx)])
-
     def getConditionAndValuesLists(self, z_grid: "np.ndarray"):
         b_i = self.getSortedBiasValues()
         if len(b_i) != self.n_bins:
-- 
2.43.0


From 659fb93246fa49f14e4df70f54aa9ae8bf40e993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 008/100] fix: use the whole bin index in the analytic bias
 derivative

---
 seyfert/derivatives/differentiator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 22f0187..c7617fd 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+import re
 import numpy as np
 from scipy import integrate
 from typing import List
@@ -183,7 +184,7 @@ class AnalyticClDifferentiator(ClDifferentiator):
             dc_lij = np.zeros(self.fiducial_cl.c_lij.shape)
             bias_model_name = self.fiducial_cl.getWeightFunction(probe).bias.model_name
             if bias_model_name == "constant" or bias_model_name == "piecewise":
-                k = int(self.param.name[-1])
+                k = int(re.search(r"\d+$", self.param.name).group())
                 bk = self.param.fiducial
                 if bias_model_name == "constant":
                     _, i, j = np.indices(self.fiducial_cl.c_lij.shape)
-- 
2.43.0


From 9feabfeae370e13cf2088c8c48e86e71d2897a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 009/100] fix: load the configurations the analytic piecewise
 bias derivative needs

---
 seyfert/derivatives/differentiator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index c7617fd..5fbd5b8 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -195,6 +195,10 @@ class AnalyticClDifferentiator(ClDifferentiator):
                         delta_jk = (j == k).astype(np.int64)
                         dc_lij += (delta_jk / bk) * self.fiducial_cl.c_lij
                 elif bias_model_name == "piecewise":
+                    if self.fiducial_cl.angular_config is None:
+                        self.fiducial_cl.angular_config = self.workspace.getTaskJSONConfiguration('Angular')
+                    if self.fiducial_cl.forecast_config is None:
+                        self.fiducial_cl.forecast_config = self.workspace.getForecastConfiguration()
                     self.fiducial_cl.evaluateLimberApproximatedPowerSpectrum()
                     z_b_edg = self.fiducial_cl.getWeightFunction(probe).z_bin_edges
                     z_grid = self.fiducial_cl.z_array
-- 
2.43.0


From 1de3fe29b84495f7ade3c6e88d16df0e0bdfd796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 010/100] fix: accept a single multipole common to all the
 derivatives

---
 seyfert/fisher/fisher_evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_evaluator.py b/seyfert/fisher/fisher_evaluator.py
index de5a895..5fe2284 100644
--- a/seyfert/fisher/fisher_evaluator.py
+++ b/seyfert/fisher/fisher_evaluator.py
@@ -228,7 +228,9 @@ class FisherEvaluator:
             ells_list.append(ells)
 
         ells_list = np.stack(ells_list)
-        unique_ells = np.unique(ells_list, axis=0).squeeze()
+        unique_ells = np.unique(ells_list, axis=0)
+        if unique_ells.shape[0] == 1:
+            unique_ells = unique_ells[0]
 
         return unique_ells, vec_dcl_dict
 
-- 
2.43.0


From e934262c819907b01e2bfd0063917d5b8b8f15b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 011/100] fix: products holding arrays of different shape
 compare unequal instead of raising or broadcasting

---
 seyfert/config/probe_config.py        |  4 ++--
 seyfert/cosmology/c_ells.py           |  6 +++---
 seyfert/cosmology/power_spectrum.py   | 10 +++++-----
 seyfert/cosmology/weight_functions.py |  2 +-
 seyfert/fisher/delta_cl.py            |  8 ++++----
 seyfert/utils/general_utils.py        |  2 +-
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index 4fdb5e8..e80aca2 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -122,8 +122,8 @@ class ProbeConfig:
     def __eq__(self, other: "ProbeConfig") -> "bool":
         conds = [
             self.name == other.name,
-            np.all(self.l_bin_centers == other.l_bin_centers),
-            np.all(self.l_bin_widths == other.l_bin_widths),
+            np.array_equal(self.l_bin_centers, other.l_bin_centers),
+            np.array_equal(self.l_bin_widths, other.l_bin_widths),
             self.density_init_file.name == other.density_init_file.name,
             self.marginalize_bias == other.marginalize_bias,
             self.nuisance_parameters == other.nuisance_parameters,
diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 52979e3..613f19e 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -284,9 +284,9 @@ class AngularCoefficient:
 
     def __eq__(self, other: "AngularCoefficient") -> "bool":
         return all([
-            np.all(self.c_lij == other.c_lij),
-            np.all(self.l_bin_centers == other.l_bin_centers),
-            np.all(self.l_bin_widths == other.l_bin_widths),
+            np.array_equal(self.c_lij, other.c_lij),
+            np.array_equal(self.l_bin_centers, other.l_bin_centers),
+            np.array_equal(self.l_bin_widths, other.l_bin_widths),
         ])
 
     def plot(self, what: "str" = "cl", axes: "np.ndarray[plt.Axes]" = None,
diff --git a/seyfert/cosmology/power_spectrum.py b/seyfert/cosmology/power_spectrum.py
index 6f33b63..1ffa006 100644
--- a/seyfert/cosmology/power_spectrum.py
+++ b/seyfert/cosmology/power_spectrum.py
@@ -112,11 +112,11 @@ class PowerSpectrum:
 
     def __eq__(self, other: "PowerSpectrum") -> "bool":
         return all([
-            np.all(self.z_grid == other.z_grid),
-            np.all(self.k_grid == other.k_grid),
-            np.all(self.lin_p_mm_z_k == other.lin_p_mm_z_k),
-            np.all(self.nonlin_p_mm_z_k == other.nonlin_p_mm_z_k),
-            np.all(self.transfer_function == other.transfer_function)
+            np.array_equal(self.z_grid, other.z_grid),
+            np.array_equal(self.k_grid, other.k_grid),
+            np.array_equal(self.lin_p_mm_z_k, other.lin_p_mm_z_k),
+            np.array_equal(self.nonlin_p_mm_z_k, other.nonlin_p_mm_z_k),
+            np.array_equal(self.transfer_function, other.transfer_function)
         ])
 
 
diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 76e467f..65abdb7 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -121,7 +121,7 @@ class WeightFunction(ABC):
         self.w_bin_z = np.zeros((self.n_bins, len(self.z_grid)))
 
     def __eq__(self, other: "WeightFunction") -> bool:
-        return np.all(self.z_grid == other.z_grid) and np.all(self.w_bin_z == other.w_bin_z)
+        return np.array_equal(self.z_grid, other.z_grid) and np.array_equal(self.w_bin_z, other.w_bin_z)
 
 
 # noinspection PyTypeChecker
diff --git a/seyfert/fisher/delta_cl.py b/seyfert/fisher/delta_cl.py
index c1bab06..5fdba76 100644
--- a/seyfert/fisher/delta_cl.py
+++ b/seyfert/fisher/delta_cl.py
@@ -75,10 +75,10 @@ class DeltaCl:
 
     def __eq__(self, other: "DeltaCl") -> "bool":
         return all([
-            np.all(self.delta_c_lij == other.delta_c_lij),
-            np.all(self.noise_lij == other.noise_lij),
-            np.all(self.l_bin_centers == other.l_bin_centers),
-            np.all(self.l_bin_widths == other.l_bin_widths)
+            np.array_equal(self.delta_c_lij, other.delta_c_lij),
+            np.array_equal(self.noise_lij, other.noise_lij),
+            np.array_equal(self.l_bin_centers, other.l_bin_centers),
+            np.array_equal(self.l_bin_widths, other.l_bin_widths)
         ])
 
     def computeNoise(self) -> "np.ndarray":
diff --git a/seyfert/utils/general_utils.py b/seyfert/utils/general_utils.py
index 3c3ecbb..72f380c 100644
--- a/seyfert/utils/general_utils.py
+++ b/seyfert/utils/general_utils.py
@@ -145,7 +145,7 @@ def compare_objects(obj1: "object", obj2: "object", exclude_attrs: "Set") -> boo
             except AttributeError:
                 raise AttributeError(f'obj1 {obj1} and/or {obj2} have no attribute {key}')
             if isinstance(value1, np.ndarray) or isinstance(value2, np.ndarray):
-                cond = np.all(value1 == value2)
+                cond = np.array_equal(value1, value2)
             else:
                 cond = value1 == value2
             conds.append(cond)
-- 
2.43.0


From 9578b9f98c3d3870927bde047e12773f0941c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 012/100] fix: re-evaluate the density when a weight function
 is evaluated over another redshift grid

---
 seyfert/cosmology/weight_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 65abdb7..73f9935 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -116,7 +116,7 @@ class WeightFunction(ABC):
     @abstractmethod
     def evaluateOverRedshiftGrid(self, z_grid: "np.ndarray"):
         self.z_grid = z_grid
-        if self.density.norm_density_iz is None:
+        if self.density.norm_density_iz is None or not np.array_equal(self.density.z_grid, self.z_grid):
             self.density.evaluate(self.z_grid)
         self.w_bin_z = np.zeros((self.n_bins, len(self.z_grid)))
 
-- 
2.43.0


From 58d8c1fba70f731259952d319f0798c07cf51d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 013/100] fix: integrate the lensing efficiency at a single
 redshift over the redshift grid

---
 seyfert/cosmology/weight_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 73f9935..f8b297d 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -168,7 +168,7 @@ class LensingWeightFunction(WeightFunction):
                 z_idx = np.argmin(np.abs(z - self.z_grid))
                 integ_array = self.density.norm_density_iz[i, :] * \
                               (1 - self.cosmology.r_z[z_idx] / self.cosmology.r_z)
-                result = integrate.simps(y=integ_array[z_idx:], x=z[z_idx:])
+                result = integrate.simps(y=integ_array[z_idx:], x=self.z_grid[z_idx:])
             elif isinstance(z, np.ndarray):
                 result = np.zeros(z.shape)
                 for z_idx, myz in enumerate(z):
-- 
2.43.0


From ffbf3be78be7b330fab6527dd8610bab65132ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 014/100] fix: open weight function files in read mode at the
 requested root

---
 seyfert/cosmology/weight_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index f8b297d..92af191 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -104,7 +104,7 @@ class WeightFunction(ABC):
 
     def loadFromHDF5(self, file: Union[str, Path], root: str = '/') -> "None":
         h5w = H5WeightFunction()
-        h5w.openFile(file, root)
+        h5w.openFile(file=file, mode='r', root=root)
         h5w.writeToObject(self)
         h5w.closeFile()
 
-- 
2.43.0


From 45b013a070d76ec4e47063e6fdb288f0cd8e1515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 015/100] fix: read the strings of Fisher matrix files as text

---
 seyfert/fisher/fisher_matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 279de2b..0f8aa9e 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -355,13 +355,13 @@ class FisherMatrix:
     def loadFromFile(self, file: "Union[Path, str]" = None, file_ext: "str" = 'hdf5') -> "None":
         if file_ext == 'hdf5':
             hf = h5py.File(file, 'r')
-            self.name = str(hf["name"][()])
+            self.name = hf["name"].asstr()[()]
             try:
-                self._nuisance_parameters = set(hf["nuisance_pars"][()])
+                self._nuisance_parameters = set(hf["nuisance_pars"].asstr()[()])
             except KeyError:
                 self._nuisance_parameters = set()
-            self._cosmological_parameters = set(hf["cosmological_pars"][()])
-            indices = hf["indices"][()]
+            self._cosmological_parameters = set(hf["cosmological_pars"].asstr()[()])
+            indices = hf["indices"].asstr()[()]
             self.matrix = pd.DataFrame(data=hf["fisher_matrix"][()], index=indices, columns=indices)
             hf.close()
 
-- 
2.43.0


From cf20012d3e50e4df1713b27461d8cc630c2e4d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 016/100] fix: do not keep the inverse of a Fisher matrix whose
 content has changed

---
 seyfert/fisher/fisher_matrix.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 0f8aa9e..a60a4e1 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -203,6 +203,8 @@ class FisherMatrix:
             pars_to_exclude |= self._nuisance_parameters
             self._nuisance_parameters = set()
         relevant_pars -= pars_to_exclude
+        if relevant_pars != all_phys_pars:
+            self._forgetInverse()
         self.matrix = self.matrix.loc[relevant_pars, relevant_pars]
         self.matrix.sort_index(axis=0, inplace=True)
         self.matrix.sort_index(axis=1, inplace=True)
@@ -215,6 +217,11 @@ class FisherMatrix:
         self._cosmological_parameters = self.cosmological_parameters - params
         self._nuisance_parameters = self.nuisance_parameters - params
         self.matrix = self.matrix.drop(params, axis=0).drop(params, axis=1)
+        self._forgetInverse()
+
+    def _forgetInverse(self) -> "None":
+        self.inverse = None
+        self.correlation = None
 
     def evaluateInverse(self):
         self.inverse = fu.invert_dataframe(self.matrix)
@@ -309,6 +316,7 @@ class FisherMatrix:
             prior_fisher.loc[name, name] = 1 / (sigma_prior**2)
 
         self.matrix = self.matrix.add(prior_fisher, fill_value=0)
+        self._forgetInverse()
 
     def getFilename(self) -> "str":
         sub_dict = {
@@ -353,6 +361,7 @@ class FisherMatrix:
         hf.close()
 
     def loadFromFile(self, file: "Union[Path, str]" = None, file_ext: "str" = 'hdf5') -> "None":
+        self._forgetInverse()
         if file_ext == 'hdf5':
             hf = h5py.File(file, 'r')
             self.name = hf["name"].asstr()[()]
-- 
2.43.0


From 0a395a44ddd8a22f6e4849f74625472ca372f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 017/100] fix: Fisher matrices of different parameters are
 unequal instead of raising

---
 seyfert/fisher/fisher_matrix.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index a60a4e1..45e73b3 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -161,8 +161,12 @@ class FisherMatrix:
         return fisher_sum
 
     def __eq__(self, other: "FisherMatrix") -> "bool":
-        return all([np.all(self.matrix.sort_index(axis=0).sort_index(axis=1) ==
-                           other.matrix.sort_index(axis=0).sort_index(axis=1)),
+        matrix = self.matrix.sort_index(axis=0).sort_index(axis=1)
+        other_matrix = other.matrix.sort_index(axis=0).sort_index(axis=1)
+
+        return all([list(matrix.index) == list(other_matrix.index),
+                    list(matrix.columns) == list(other_matrix.columns),
+                    np.array_equal(matrix.to_numpy(), other_matrix.to_numpy()),
                     self.name == other.name,
                     self.physical_parameters == other.physical_parameters])
 
-- 
2.43.0


From 5c30d6c7e38f8b99be8d3bc85a9483e00967191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 018/100] fix: label the errors normalising the correlation
 matrix as the inverse they come from

---
 seyfert/fisher/fisher_matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 45e73b3..7a98836 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -239,11 +239,11 @@ class FisherMatrix:
     def evaluateCorrelationMatrix(self) -> "None":
         sigmas = np.sqrt(np.diag(self.inverse))
         sigma_row_df = pd.DataFrame(data=np.repeat(sigmas[np.newaxis, :], self.matrix.shape[0], axis=0),
-                                    index=self.matrix.index,
-                                    columns=self.matrix.columns)
+                                    index=self.inverse.index,
+                                    columns=self.inverse.columns)
         sigma_col_df = pd.DataFrame(data=np.repeat(sigmas[:, np.newaxis], self.matrix.shape[1], axis=1),
-                                    index=self.matrix.index,
-                                    columns=self.matrix.columns)
+                                    index=self.inverse.index,
+                                    columns=self.inverse.columns)
         self.correlation = self.inverse / (sigma_row_df * sigma_col_df)
         self.correlation = self.correlation.loc[self._cosmological_parameters, self._cosmological_parameters]
         self.correlation.sort_index(axis=0, inplace=True)
-- 
2.43.0


From 2187271810f68e15a81a145312a81638662a6c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 019/100] fix: refuse a prior on a parameter the Fisher matrix
 does not have

---
 seyfert/fisher/fisher_matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 7a98836..c264010 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -314,6 +314,9 @@ class FisherMatrix:
         return errs
 
     def addPriorToParameters(self, fiducials_dict: "Dict[str, float]", frac_delta: "float"):
+        missing = set(fiducials_dict) - set(self.index)
+        if missing:
+            raise FisherMatrixError(f"cannot add a prior to missing parameters {missing}")
         prior_fisher = pd.DataFrame(np.zeros(self.matrix.shape), index=self.index, columns=self.columns)
         for name, value in fiducials_dict.items():
             sigma_prior = frac_delta * value
-- 
2.43.0


From 3d0b63b12564a1c78b06a9d2054deb1adc653532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 020/100] fix: do not keep the correlation of parameters
 marginalized in place

---
 seyfert/fisher/fisher_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index c264010..5785edf 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -272,6 +272,7 @@ class FisherMatrix:
             self._cosmological_parameters = self.cosmological_parameters - params
             self._nuisance_parameters = self.nuisance_parameters - params
             self.inverse = sliced_inverse
+            self.correlation = None
             marg_fisher = fu.invert_dataframe(sliced_inverse)
             self.matrix = marg_fisher.sort_index(axis=0).sort_index(axis=1)
 
-- 
2.43.0


From 6656baa786530ec97be4073ddfaca2a8e59f3fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 021/100] fix: an interrupted write of a Fisher matrix leaves
 the previous file untouched

---
 seyfert/fisher/fisher_matrix.py | 34 +++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 5785edf..3882c56 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -351,22 +351,28 @@ class FisherMatrix:
                 logger.warning(f"file {outfile} already exists, skipping without overwriting")
                 return
             else:
-                if overwrite:
-                    outfile.unlink()
-                else:
+                if not overwrite:
                     raise FileExistsError(f"{outfile}")
 
-        hf = h5py.File(outfile, 'w')
-        str_dtype = h5py.special_dtype(vlen=str)
-        hf.create_dataset(name="name", data=self.name, dtype=str_dtype)
-        hf.create_dataset(name="indices", data=np.array(self.matrix.index, dtype=str_dtype), dtype=str_dtype)
-        hf.create_dataset(name="fisher_matrix", data=self.matrix.to_numpy(dtype=np.float64), dtype='f8')
-        hf.create_dataset(name="cosmological_pars", data=np.array(list(self.cosmological_parameters), dtype=str_dtype),
-                          dtype=str_dtype)
-        if len(self.nuisance_parameters) > 0:
-            hf.create_dataset(name="nuisance_pars", data=np.array(list(self.nuisance_parameters), dtype=str_dtype),
-                              dtype=str_dtype)
-        hf.close()
+        # written aside and then moved, so that an interrupted write never leaves a partial file in place
+        tmp_file = outfile.with_name(f".{outfile.name}.tmp")
+        try:
+            self._writeHDF5(tmp_file)
+            tmp_file.replace(outfile)
+        finally:
+            tmp_file.unlink(missing_ok=True)
+
+    def _writeHDF5(self, file: "Path") -> "None":
+        with h5py.File(file, 'w') as hf:
+            str_dtype = h5py.special_dtype(vlen=str)
+            hf.create_dataset(name="name", data=self.name, dtype=str_dtype)
+            hf.create_dataset(name="indices", data=np.array(self.matrix.index, dtype=str_dtype), dtype=str_dtype)
+            hf.create_dataset(name="fisher_matrix", data=self.matrix.to_numpy(dtype=np.float64), dtype='f8')
+            hf.create_dataset(name="cosmological_pars",
+                              data=np.array(list(self.cosmological_parameters), dtype=str_dtype), dtype=str_dtype)
+            if len(self.nuisance_parameters) > 0:
+                hf.create_dataset(name="nuisance_pars",
+                                  data=np.array(list(self.nuisance_parameters), dtype=str_dtype), dtype=str_dtype)
 
     def loadFromFile(self, file: "Union[Path, str]" = None, file_ext: "str" = 'hdf5') -> "None":
         self._forgetInverse()
-- 
2.43.0


From fe5f3ba070e2598add3cea3e2231c4c6375c9319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 022/100] fix: keep the Fisher matrices an analysis is given as
 a list

---
 seyfert/fisher/fisher_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 4f9c9b1..9ad7f4a 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -52,7 +52,7 @@ class FisherAnalysis:
         if isinstance(fisher_matrices, list):
             if not all([isinstance(f, FisherMatrix) for f in fisher_matrices]):
                 raise TypeError("Fishers must be all FisherMatrix instances")
-            self.fisher_matrices = {}
+            self.fisher_matrices = {f.name: f for f in fisher_matrices}
         elif isinstance(fisher_matrices, dict):
             if not all([isinstance(f, FisherMatrix) for f in fisher_matrices.values()]):
                 raise TypeError("Fishers must be all FisherMatrix instances")
-- 
2.43.0


From 7c9769eaa0d9bb9287ff2f7e132303350a38bb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 023/100] fix: take a subset of an analysis made from given
 Fisher matrices

---
 seyfert/fisher/fisher_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 9ad7f4a..23585b0 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -233,7 +233,8 @@ class FisherAnalysis:
     def getSubsetAnalysis(self, fisher_names: "List[str]", recompute_errs=False) -> "FisherAnalysis":
         an = copy.deepcopy(self)
 
-        an.base_fishers = gu.subset_dict(self.base_fishers, fisher_names)
+        if self.base_fishers is not None:
+            an.base_fishers = gu.subset_dict(self.base_fishers, fisher_names)
         an.fisher_matrices = gu.subset_dict(self.fisher_matrices, fisher_names)
         an.fishers_order = fisher_names
         if recompute_errs:
-- 
2.43.0


From 026d33af1389dd2c57f85aa489ba4961695419e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 024/100] fix: save angular spectra that have no kernel

---
 seyfert/cosmology/c_ells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 613f19e..580b457 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -482,7 +482,7 @@ class H5Cl(AbstractH5FileIO):
         if obj.kernel is not None:
             h5k = kfs.H5Kernel()
             h5k.save(obj.kernel, self.file_path, root=f'{self.absolute_main_path}/kernel')
-        if obj.weight1 is not None:
+        if obj.kernel is not None and obj.weight1 is not None:
             w1_root_path = f'weight_functions/{self.probe1}'
             if w1_root_path not in self._h5file:
                 h5w = wfs.H5WeightFunction()
-- 
2.43.0


From 1b672ca5aed3ebef3d67284b773b9b8293f47e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 025/100] fix: load angular spectra that have no kernel, and
 keep the weight functions stored with them

---
 seyfert/cosmology/c_ells.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 580b457..24fe484 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -505,6 +505,7 @@ class H5ClCollection(AbstractH5FileIO):
         elif 'z_array' in self.root:
             obj.z_grid = self.root['z_array'][()]
 
+        obj.weight_dict = {}
         if 'weight_functions' in self.root:
             w_grp = self.root['weight_functions']
             w_grp_path = w_grp.name
@@ -516,16 +517,16 @@ class H5ClCollection(AbstractH5FileIO):
 
         cls_grp = self.root['cls']
         cls_grp_path = cls_grp.name
-        obj.weight_dict = {}
         for cl_kind in cls_grp:
             p1, p2 = gu.get_probes_from_comb_key(cl_kind)
             h5cl = H5Cl(probe1=p1, probe2=p2)
             cl_obj = h5cl.load(file=self.file_path, root=f'{cls_grp_path}')
             cl_obj: "AngularCoefficient"
-            if p1 not in obj.weight_dict:
-                obj.weight_dict[p1] = cl_obj.weight1
-            if p2 not in obj.weight_dict:
-                obj.weight_dict[p2] = cl_obj.weight2
+            if cl_obj.kernel is not None:
+                if p1 not in obj.weight_dict:
+                    obj.weight_dict[p1] = cl_obj.weight1
+                if p2 not in obj.weight_dict:
+                    obj.weight_dict[p2] = cl_obj.weight2
 
             obj.cl_dict[cl_kind] = cl_obj
 
-- 
2.43.0


From cfe3dd395ab216128f40fef883fdd851152c9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 026/100] fix: collections of different angular spectra are
 unequal

---
 seyfert/cosmology/c_ells.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 24fe484..3fc50f4 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -424,8 +424,9 @@ class AngularCoefficientsCollector:
         return h5cl_coll.load(file, root)
 
     def __eq__(self, other: "AngularCoefficientsCollector") -> "bool":
-        return all([self.cl_dict[key] == other.cl_dict[key] for key in self.cl_dict])
-        
+        return set(self.cl_dict) == set(other.cl_dict) and \
+            all([self.cl_dict[key] == other.cl_dict[key] for key in self.cl_dict])
+
 
 class H5Cl(AbstractH5FileIO):
     def __init__(self, probe1: "str" = None, probe2: "str" = None, **kwargs):
-- 
2.43.0


From 9bf3779ba50d1cab1c4885386010587e0a6e31d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 027/100] fix: load the derivatives of a run with the existing
 key conversion

---
 seyfert/utils/run_loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/utils/run_loader.py b/seyfert/utils/run_loader.py
index 8a3e0fd..5876d26 100644
--- a/seyfert/utils/run_loader.py
+++ b/seyfert/utils/run_loader.py
@@ -22,6 +22,7 @@ from seyfert.fisher.fisher_matrix import FisherMatrix
 from seyfert.fisher.fisher_results import FisherResultsCollector
 from seyfert.utils.formatters import datetime_str_format
 from seyfert.file_io import retro_comp
+from seyfert.utils.shortcuts import ClKey
 
 logger = logging.getLogger(__name__)
 
@@ -142,7 +143,7 @@ class RunLoader:
             dcl_data = retro_comp.read_dcl_file(file)
             self.dcls[dvar] = {}
             for cl_key in dcl_data:
-                short_key = c_ells.cl_key_long_to_short(cl_key)
+                short_key = ClKey(cl_key).toShortKey().key
                 self.dcls[dvar][short_key] = dcl_data[cl_key]
 
     def loadFishers(self):
-- 
2.43.0


From c9036197542f9b881ab396fac1020eea242f880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 028/100] fix: additional patterns restrict the directories
 selected instead of admitting unrelated ones

---
 seyfert/utils/dir_explorer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/dir_explorer.py b/seyfert/utils/dir_explorer.py
index 4aa8b5a..5261423 100644
--- a/seyfert/utils/dir_explorer.py
+++ b/seyfert/utils/dir_explorer.py
@@ -35,7 +35,7 @@ class DirectoryExplorer:
 
     def getDirMatches(self, direc: "Path", add_patterns: "List[str]" = None) -> "List[re.Match]":
         matches = self.getMandatoryDirectoryMatches(direc)
-        if add_patterns is not None:
+        if matches and add_patterns is not None:
             matches += [re.search(pattern, direc.name) for pattern in add_patterns]
 
         return matches
-- 
2.43.0


From 6f93d4013c98bafe6ec8e2ac017431c36b1a653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 029/100] fix: load the results of runs whose free parameters
 exceed those of the cosmology

---
 seyfert/fisher/fisher_analysis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 23585b0..fa39695 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -83,9 +83,10 @@ class FisherAnalysis:
         ws = WorkSpace(rundir)
         fishers_dir = ws.getResultsDir(cosmology=cosmology, res_subdir_name=res_subdir_name)
         params = ws.getParamsCollection()
-        if cosmology == "LCDM":
-            del params["w0"]
-            del params["wa"]
+        # imported here because final_results_core imports this module
+        from seyfert.fisher.final_results_core import get_free_cosmo_pars_for_cosmology
+        for name in set(params.free_cosmological_parameters) - get_free_cosmo_pars_for_cosmology(cosmology):
+            del params[name]
 
         an = cls.fromFishersDir(fishers_dir=fishers_dir, params=params)
         fcfg = ws.getForecastConfiguration()
-- 
2.43.0


From 99831e2ec4513e461e59d2e41db0e44c927bb916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 030/100] fix: collect results into a directory given as a
 string

---
 seyfert/fisher/results_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 0c2e9d8..bb80e39 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -1,4 +1,5 @@
 from typing import List, Dict
+from pathlib import Path
 import pandas as pd
 import logging
 
@@ -75,7 +76,7 @@ class ResultsCollector:
 
     def collectAndDumpResults(self, outdir: "TPathLike", cosmology: "str" = "w0_wa_CDM",
                               res_subdir_name: "str" = "marg_before"):
-        out_subdir = outdir / cosmology / res_subdir_name
+        out_subdir = Path(outdir) / cosmology / res_subdir_name
         out_subdir.mkdir(exist_ok=True, parents=True)
 
         logger.info("Building marginalized errors table")
-- 
2.43.0


From 79d2a7dfde6d861019a9c35fd8cc77a9b54419be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 031/100] fix: select collected analyses by options that are
 strings

---
 seyfert/fisher/results_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index bb80e39..0ed1a25 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -120,7 +120,7 @@ class ResultsCollector:
         self.analyses_df.reset_index(inplace=True)
 
     def getFisherAnalysesSubDf(self, sel_dict: "Dict", sel_fishers: "List[str]" = None) -> "pd.DataFrame":
-        query_str = " and ".join(f"{key} == {value}" for key, value in sel_dict.items())
+        query_str = " and ".join(f"{key} == {value!r}" for key, value in sel_dict.items())
         subdf = self.analyses_df.query(query_str).reset_index()
 
         if sel_fishers is not None:
-- 
2.43.0


From 636cdf0f1f48fd1b332a085c714cdee756d385fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 032/100] fix: replace the relative errors of hybrid Fisher
 matrices along with the errors

---
 seyfert/fisher/results_collector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 0ed1a25..a0ecc28 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -116,6 +116,8 @@ class ResultsCollector:
                     if "Pk" in fisher_name:
                         an_current.fisher_matrices[fisher_name] = an_4_bins.fisher_matrices[fisher_name]
                         an_current.marginalized_errors.loc[fisher_name] = an_4_bins.marginalized_errors.loc[fisher_name]
+                        an_current.relative_marginalized_errors.loc[fisher_name] = \
+                            an_4_bins.relative_marginalized_errors.loc[fisher_name]
 
         self.analyses_df.reset_index(inplace=True)
 
-- 
2.43.0


From 510e7b0a3eec7d7b5645a0efa0d0420532548b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 033/100] fix: read the error tables of a results directory
 under the names they are written with

---
 seyfert/fisher/fisher_results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seyfert/fisher/fisher_results.py b/seyfert/fisher/fisher_results.py
index 910238b..9b4a5ba 100644
--- a/seyfert/fisher/fisher_results.py
+++ b/seyfert/fisher/fisher_results.py
@@ -162,8 +162,9 @@ class FisherResultsCollector:
             fish_analysis = FisherAnalysis(cosmology_name=cosmology_name)
             fish_analysis.loadBaseFishersFromDir(subdirs_dict["fishers"])
             fish_analysis.useBaseFishers()
-            errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'errors*.csv')
-            relative_errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'relative_errors*.csv')
+            errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'marginalized_errors*.csv')
+            relative_errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"],
+                                                                      'relative_marginalized_errors*.csv')
             fish_analysis.marginalized_errors = pd.read_csv(errors_file, index_col=0)
             fish_analysis.relative_marginalized_errors = pd.read_csv(relative_errors_file, index_col=0)
             for corr_file in subdirs_dict["correlations"].iterdir():
-- 
2.43.0


From 20f2202effd825a83941ed0be2d1c1afc10b4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 034/100] fix: name a sum of Fisher matrices as the analysis
 that holds it does

---
 seyfert/fisher/fisher_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index fa39695..7764334 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -225,6 +225,7 @@ class FisherAnalysis:
                 self.fisher_matrices[fisher_sum_name] = self.base_fishers[addend_list[0]].copy()
                 for addend in addend_list[1:]:
                     self.fisher_matrices[fisher_sum_name] += self.base_fishers[addend]
+                self.fisher_matrices[fisher_sum_name].name = fisher_sum_name
 
     def saveFishersToDisk(self, outdir: "Union[str, Path]", overwrite=False):
         outdir = Path(outdir)
-- 
2.43.0


From da553161b7a93a40c8ffa3dc540aa7ac00db188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 035/100] fix: draw the plots of a results configuration, with
 its own parameters, settings and ranges

---
 seyfert/fisher/fisher_plot.py    |  7 ++++---
 seyfert/fisher/fisher_results.py | 16 +++++-----------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index c6b06e6..05262f1 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -269,6 +269,7 @@ class FisherPlotter:
         self.config = FisherPlotConfig(n_cosmo_pars=self.n_cosmo_pars, config_file=config_file)
         if config_dict is not None:
             self.config.config_dict.update(config_dict)
+            self.config.setGraphicsProperties()
 
         self.params_ticks_fmts = {name: f"%.{self.config.ticks_label_num_digits}g" for name in self.pars_to_plot}
 
@@ -320,8 +321,8 @@ class FisherPlotter:
                 self.setPlotProperties(i, j)
 
     def makeAllCorrelationPlots(self, outdir: "Union[str, Path]" = None, close_fig: "bool" = True) -> "None":
-        for name, correlation_matrix in self.analysis.correlation_matrices.items():
-            fig, ax = self.makeSingleCorrelationPlot(name, correlation_matrix)
+        for name in self.fisher_matrices:
+            fig, ax = self.makeSingleCorrelationPlot(name)
             if outdir is not None:
                 outfile_name = f'correlation_{self.analysis.name}_{name}.pdf'
                 outfile_path = Path(outdir) / outfile_name
@@ -336,7 +337,7 @@ class FisherPlotter:
         ax = plot_utils.heatmap(corr, usetex=True, vmin=-1.0, vmax=1.0,
                                 cmap='bwr', alpha=0.9, square=True, cbar_kws={'shrink': 0.825})
 
-        ax.set_title(rf'${self.translator.ProbeNameToTeX(name)}$')
+        ax.set_title(rf'${self.translator.translateToTeX(name)}$')
 
         return fig, ax
 
diff --git a/seyfert/fisher/fisher_results.py b/seyfert/fisher/fisher_results.py
index 9b4a5ba..a016e05 100644
--- a/seyfert/fisher/fisher_results.py
+++ b/seyfert/fisher/fisher_results.py
@@ -5,7 +5,7 @@ import logging
 from pathlib import Path
 from seyfert.fisher.fisher_analysis import FisherAnalysis
 from seyfert.cosmology.parameter import PhysicalParametersCollection
-from seyfert.fisher.fisher_plot import FisherPlotter, FisherPlotConfig
+from seyfert.fisher.fisher_plot import FisherPlotter
 from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils import formatters as fm
 
@@ -103,16 +103,10 @@ class FisherResultsCollector:
         self.plotters_dict = {}
         for cosmology_name, cosmo_dict in self.cosmologies_dict.items():
             fish_analysis = self.analysis_dict[cosmology_name]
-            pars_to_plot = cosmo_dict["pars_to_plot"]
-            fisher_plot_config = FisherPlotConfig(fishers=fish_analysis.fisher_matrices,
-                                                  n_cosmo_pars=len(pars_to_plot))
-            fisher_plot_config.loadFromConfigDict(self.plot_config_dict)
-            if self.plot_ranges_file is not None:
-                fisher_plot_config.loadParameterPlotRangesFromFile(self.plot_ranges_file)
-            fisher_plotter = FisherPlotter(fisher_analysis=fish_analysis,
-                                           config=fisher_plot_config,
-                                           pars_to_plot=pars_to_plot)
-            fisher_plotter.setUpDefault()
+            fisher_plotter = FisherPlotter(fisher_analysis=fish_analysis)
+            fisher_plotter.setParamsToPlot(cosmo_dict["pars_to_plot"])
+            fisher_plotter.setPlotConfig(use_default=True, config_dict=self.plot_config_dict)
+            fisher_plotter.setParametersPlotRanges(self.plot_ranges_file)
             self.plotters_dict[cosmology_name] = fisher_plotter
 
     def writeResultsAndDoPlots(self, outdir: Union[str, Path]) -> None:
-- 
2.43.0


From dde55bfe954ad6eb08f5e4a8d6e1f541167589ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:06 +0000
Subject: [PATCH 036/100] fix: store the sums of configured results under the
 names their tables use

---
 seyfert/fisher/fisher_analysis.py | 1 -
 seyfert/fisher/fisher_results.py  | 2 ++
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 7764334..fa39695 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -225,7 +225,6 @@ class FisherAnalysis:
                 self.fisher_matrices[fisher_sum_name] = self.base_fishers[addend_list[0]].copy()
                 for addend in addend_list[1:]:
                     self.fisher_matrices[fisher_sum_name] += self.base_fishers[addend]
-                self.fisher_matrices[fisher_sum_name].name = fisher_sum_name
 
     def saveFishersToDisk(self, outdir: "Union[str, Path]", overwrite=False):
         outdir = Path(outdir)
diff --git a/seyfert/fisher/fisher_results.py b/seyfert/fisher/fisher_results.py
index a016e05..3b1790c 100644
--- a/seyfert/fisher/fisher_results.py
+++ b/seyfert/fisher/fisher_results.py
@@ -92,6 +92,8 @@ class FisherResultsCollector:
             fish_analysis.sliceBaseFishers()
             if self.fishers_addends_list:
                 fish_analysis.evaluateFishersFromAddendsList(self.fishers_addends_list)
+                for name, fisher in fish_analysis.fisher_matrices.items():
+                    fisher.name = name
             else:
                 fish_analysis.useBaseFishers()
             fish_analysis.prepareFisherMatrices()
-- 
2.43.0


From 552fb57f8d2d54e601cc8b556c44ee43955ab60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 037/100] fix: compare the sky fraction of forecast
 configurations

---
 seyfert/config/forecast_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index e4bf587..a4e55d4 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -169,7 +169,7 @@ class ForecastConfig:
             self.phys_pars == other.phys_pars,
             self.is_universe_flat == other.is_universe_flat,
             self.probe_configs == other.probe_configs,
-            self.survey_f_sky, other.survey_f_sky,
+            self.survey_f_sky == other.survey_f_sky,
             self.probes_combinations == other.probes_combinations
         ])
 
-- 
2.43.0


From 0a11ebe49a741fc4fe64a001a9d12ad09eae7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 038/100] fix: report a missing probe input file when the
 configuration is loaded

---
 seyfert/config/probe_config.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index e80aca2..f563ef2 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -57,16 +57,12 @@ class ProbeConfig:
             self.input_data_dir / self.long_name,
             self.input_data_dir
         ]
-        input_file = None
         for input_dir in input_dirs:
             input_file = input_dir / filename
             if input_file.is_file():
-                break
+                return input_file
 
-        if input_file is None:
-            raise FileNotFoundError(f"file {filename} not found in any of {' '.join([str(d) for d in input_dirs])}")
-
-        return input_file
+        raise FileNotFoundError(f"file {filename} not found in any of {' '.join([str(d) for d in input_dirs])}")
 
     def loadFromJSONConfig(self, json_config: "JSONForecastConfig", load_nuis_params=False):
         probe_dict = json_config.probes[self.name.toAlias().name]
-- 
2.43.0


From 09dba46e2862fbc5090cb01b67c32ed41cd737c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 039/100] fix: write a forecast configuration without metadata,
 and keep the file when it cannot be written

---
 seyfert/file_io/json_io.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/seyfert/file_io/json_io.py b/seyfert/file_io/json_io.py
index f33b55b..48089d0 100644
--- a/seyfert/file_io/json_io.py
+++ b/seyfert/file_io/json_io.py
@@ -29,13 +29,14 @@ class JSONForecastConfig:
             self.data = json.load(jsf)
 
     def toJSON(self, file):
+        self.data.setdefault("metadata", {}).update({
+            "author": os.getenv("USER"),
+            "creation_date": datetime.datetime.now().isoformat(),
+            "version": VERSION
+        })
+        json_text = json.dumps(self.data, indent=4)
         with open(file, mode='w') as jsf:
-            self.metadata.update({
-                "author": os.getenv("USER"),
-                "creation_date": datetime.datetime.now().isoformat(),
-                "version": VERSION
-            })
-            json.dump(self.data, jsf, indent=4)
+            jsf.write(json_text)
 
     @property
     def metadata(self) -> "Dict":
-- 
2.43.0


From c45f9f9a82fff7957ed36dabe42566add54fa8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 040/100] fix: skip blank lines of the files listing paths

---
 seyfert/config/cmd_line.py    | 5 +++--
 seyfert/main/orchestration.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/seyfert/config/cmd_line.py b/seyfert/config/cmd_line.py
index 96891ae..0aa8484 100644
--- a/seyfert/config/cmd_line.py
+++ b/seyfert/config/cmd_line.py
@@ -230,7 +230,8 @@ def get_paths_from_files_list(paths_list: "List[Union[str, Path]]") -> "List[Pat
     if all(Path(path).suffix == '.txt' for path in paths_list):
         logger.info("paths list contains only txt files")
         for file in paths_list:
-            resulting_paths.extend([Path(line.strip()) for line in Path(file).read_text().splitlines()])
+            resulting_paths.extend([Path(line.strip()) for line in Path(file).read_text().splitlines()
+                                    if line.strip()])
     else:
         logger.info("neither all json nor all txt, returning the entered list of paths")
         resulting_paths = [Path(path) for path in paths_list]
@@ -245,7 +246,7 @@ def read_json_txt_list_file(filepath: "Union[str, Path]") -> "List[str]":
         with filepath.open() as jsf:
             result = json.load(jsf)
     elif extension in {'.txt', '.dat'}:
-        result = [line.strip() for line in filepath.read_text().splitlines()]
+        result = [line.strip() for line in filepath.read_text().splitlines() if line.strip()]
     else:
         raise Exception(f"Unrecognized file extension {extension}")
 
diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 8545342..f89df18 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -75,7 +75,7 @@ def get_pmm_dirs(args: "argparse.Namespace") -> "List":
         elif pmms.is_file():
             if not pmms.name.endswith('txt'):
                 raise Exception(f"Invalid powerspectra file format {pmms.name}, it must have txt extension")
-            pmm_dirs = [Path(line) for line in pmms.read_text().splitlines()]
+            pmm_dirs = [Path(line.strip()) for line in pmms.read_text().splitlines() if line.strip()]
             for pmm_dir in pmm_dirs:
                 if not pmm_dir.exists():
                     raise FileNotFoundError(pmm_dir)
-- 
2.43.0


From 88b753fb8133d89f42e43a1ac29232b848df3d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 041/100] fix: give the settings of an ini file the types the
 command line gives them

---
 bin/job_submitter | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/job_submitter b/bin/job_submitter
index 573f75d..8eff1d6 100755
--- a/bin/job_submitter
+++ b/bin/job_submitter
@@ -131,6 +131,6 @@ if __name__ == '__main__':
         invalid_keys = set(ini_kwargs.keys()) - set(arguments_dict.keys())
         if len(invalid_keys):
             raise KeyError(f"Invalid config keys: {''.join(invalid_keys)}")
-        arguments_dict.update(ini_kwargs)
+        arguments_dict.update(gu.convert_keyval_params_type(dict(ini_kwargs)))
 
     main(arguments_dict)
-- 
2.43.0


From 3443f49c281a770594b4c5e70986286982e20f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 042/100] fix: read a multipole file with a single multipole

---
 seyfert/config/probe_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index f563ef2..92d5165 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -103,7 +103,7 @@ class ProbeConfig:
         ell_filename = probe_dict["ell_external_filename"] if "ell_external_filename" in probe_dict else None
         if ell_filename is not None:
             ells_file = self.input_data_dir / ell_filename
-            input_ells = np.loadtxt(ells_file)
+            input_ells = np.loadtxt(ells_file, ndmin=2)
             l_bin_centers, l_bin_widths = input_ells[:, 0], input_ells[:, 1]
         else:
             l_min, l_max = probe_dict['l_min'], probe_dict['l_max']
-- 
2.43.0


From 3fd879a28be8f7f1e435d0973b0e655d749fda5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 043/100] fix: keep input files of the same name apart in the
 run directory

---
 seyfert/utils/workspace.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/seyfert/utils/workspace.py b/seyfert/utils/workspace.py
index fdd06c6..adce77f 100644
--- a/seyfert/utils/workspace.py
+++ b/seyfert/utils/workspace.py
@@ -231,13 +231,18 @@ class WorkSpace:
         input_files_dir.mkdir(exist_ok=True)
         input_files_dict = {}
 
+        params_file = input_files_dir / 'params.json'
+        used_names = {params_file.name}
         for name, input_file in src_input_files.items():
             src = Path(input_file)
-            dst = input_files_dir / src.name
+            dst_name = src.name
+            while dst_name in used_names:
+                dst_name = f"{name}_{dst_name}"
+            used_names.add(dst_name)
+            dst = input_files_dir / dst_name
             shutil.copy(src, dst)
             input_files_dict[name] = os.path.relpath(dst, self.run_dir)
 
-        params_file = input_files_dir / 'params.json'
         phys_pars.writeJSON(params_file)
         input_files_dict['params'] = os.path.relpath(params_file, self.run_dir)
         logger.info(f'Writing physical parameters to JSON {params_file}')
-- 
2.43.0


From ece0aa26104be5523721ac042b1d87c9dcfafedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 044/100] fix: link external directories whatever path leads to
 the run directory

---
 seyfert/utils/workspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/utils/workspace.py b/seyfert/utils/workspace.py
index adce77f..fa4e64c 100644
--- a/seyfert/utils/workspace.py
+++ b/seyfert/utils/workspace.py
@@ -222,7 +222,8 @@ class WorkSpace:
             logger.warning(f"cwd is {os.getcwd()}")
             raise FileNotFoundError(src)
         dst_path = Path(dst)
-        symlink_src = Path(os.path.relpath(src, self.run_dir)) if src_relative_to_rundir else Path(src)
+        src_path = src.parent.resolve() / src.name
+        symlink_src = Path(os.path.relpath(src_path, dst_path.parent.resolve())) if src_relative_to_rundir else src_path
         dst_path.symlink_to(symlink_src)
 
     def createInputFilesDir(self, src_input_files: "Dict", phys_pars: "PhysicalParametersCollection",
-- 
2.43.0


From ef4c5f687ec898f4fd5b5907d3e972aed54420ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 045/100] fix: fail a run when one of its commands exits with
 an error

---
 seyfert/main/task_runners.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 46bf845..62a6447 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -156,9 +156,9 @@ class TaskRunner(ABC):
     def executeCommand(cmd: "str"):
         t0 = time.time()
         proc = sp.run(cmd, shell=True, check=False, stdout=sp.PIPE, stderr=sp.PIPE)
-        if proc.stderr:
+        if proc.stderr or proc.returncode != 0:
             logger.error(proc.stderr.decode("utf-8"))
-            raise JobFailError(f"Command {cmd} failed")
+            raise JobFailError(f"Command {cmd} failed with exit status {proc.returncode}")
         if proc.stdout:
             logger.info(f'Stdout:\n{proc.stdout.decode("utf-8").strip()}')
 
@@ -592,7 +592,9 @@ class ForecastRunner:
             "-ow": self.args.overwrite_results, "-wd": self.workspace.run_dir
         }
         res_cmd = f'evaluate_final_results {" ".join(f"{key} {value}" for key, value in cli_args.items())}'
-        sp.run(res_cmd, shell=True)
+        proc = sp.run(res_cmd, shell=True)
+        if proc.returncode != 0:
+            raise JobFailError(f"Command {res_cmd} failed with exit status {proc.returncode}")
 
     def writeGCspPkFishersTo(self, outdir: "TPathLike"):
         outdir = Path(outdir)
-- 
2.43.0


From 33b3b70d6a5202a8fc5513724edf06e27dfc948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 046/100] fix: write the IST fisher matrix again when a run
 directory is used again

---
 seyfert/main/seyfert_core.py | 2 +-
 seyfert/main/task_runners.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 8a80242..4320bf1 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -150,7 +150,7 @@ def compute_fishers(ws, fcfg, phys_pars, delta_cls, ders_dict):
 
     f_gcsp_pk = FisherMatrix.from_ISTfile(fsu.get_ist_gcsp_pk_fisher_file(fcfg.scenario))
 
-    f_gcsp_pk.writeToFile(outfile=ws.base_fishers_dir / "fisher_IST_gcsp_pk.hdf5")
+    f_gcsp_pk.writeToFile(outfile=ws.base_fishers_dir / "fisher_IST_gcsp_pk.hdf5", overwrite=True)
 
     return auto_fishers + fishers
 
diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 62a6447..81d5928 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -602,7 +602,7 @@ class ForecastRunner:
         for cosmology in ["w0_wa_CDM"]:
             file = fsu.get_ist_gcsp_pk_fisher_file(scenario=self.forecast_config.scenario, cosmology=cosmology)
             pk_fisher = FisherMatrix.from_ISTfile(file=file)
-            pk_fisher.writeToFile(outfile=outdir / f"fisher_IST_gcsp_pk_{cosmology}.hdf5")
+            pk_fisher.writeToFile(outfile=outdir / f"fisher_IST_gcsp_pk_{cosmology}.hdf5", overwrite=True)
     
     def addTimingDataToMetadata(self):
         if self.end_datetime is not None:
-- 
2.43.0


From 6252a95da36eb318926f98c39d8ad67b3dd429c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 047/100] fix: keep the id, external directories and whole
 duration of a run in its metadata

---
 seyfert/main/task_runners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 81d5928..f61025a 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -522,10 +522,13 @@ class ForecastRunner:
                 logger.info(f'Task {name} is absent')
                 if task.external_dir is not None:
                     ext_dirs[name] = task.external_dir
+                    self.external_dirs[name] = str(task.external_dir)
 
         self.workspace.symlinkToExternalDirs(ext_dirs=ext_dirs, src_relative_to_rundir=True)
     
     def populateInitialMetadata(self):
+        if self.run_id is None:
+            self.run_id = self.workspace.getRunMetadata().get("run_id")
         self.metadata.update({
             "run_id": self.run_id,
             "executor": os.getenv("USER", ""),
@@ -606,7 +609,7 @@ class ForecastRunner:
     
     def addTimingDataToMetadata(self):
         if self.end_datetime is not None:
-            duration = fm.string_time_format((self.end_datetime - self.start_datetime).seconds)
+            duration = fm.string_time_format((self.end_datetime - self.start_datetime).total_seconds())
             self.metadata.update({
                 "start_time": fm.datetime_str_format(self.start_datetime, hour_sep=':'),
                 "end_time": fm.datetime_str_format(self.end_datetime, hour_sep=':'),
-- 
2.43.0


From 7ff0bd0e118490de24f2121c0f92e76c9d596d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 048/100] fix: keep the prepared jobs of the varied Cls when
 they have not been executed

---
 bin/job_submitter | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/job_submitter b/bin/job_submitter
index 8eff1d6..0435864 100755
--- a/bin/job_submitter
+++ b/bin/job_submitter
@@ -104,7 +104,7 @@ def main(args_dict: "Dict") -> "None":
             rrm.writeReportFiles()
             logger.info(f'\n{rrm.run_summary}')
 
-    if runner.cl_task.is_present and not args_dict["keep_cl_variations"]:
+    if execution != 'no' and runner.cl_task.is_present and not args_dict["keep_cl_variations"]:
         cl_var_dirs = runner.workspace.collectClVariationDirectories()
         for direc in cl_var_dirs.values():
             shutil.rmtree(direc)
-- 
2.43.0


From a686a787aae196f2f2fd47a9e686d24990a0ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 049/100] fix: split run ids whose version has numbers of more
 than one digit

---
 seyfert/utils/general_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/general_utils.py b/seyfert/utils/general_utils.py
index 72f380c..cc7be30 100644
--- a/seyfert/utils/general_utils.py
+++ b/seyfert/utils/general_utils.py
@@ -185,7 +185,7 @@ def get_execution_host() -> "List[str]":
 
 
 def split_run_id(run_id: "str") -> "Tuple[str, str, datetime.datetime]":
-    regex = re.compile(r"^(.*)_(\d\.\d\.\d(?:dev)?)_(\d{4}-\d{2}-\d{2}T\d{2}-\d{2}-\d{2})$")
+    regex = re.compile(r"^(.*)_(\d+\.\d+\.\d+(?:dev)?)_(\d{4}-\d{2}-\d{2}T\d{2}-\d{2}-\d{2})$")
     match = regex.match(run_id)
     if not match:
         run_name = run_id
-- 
2.43.0


From 1387d6467f445a43d453b388b7f950dd2cb9b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 050/100] fix: collect the run directories of the given runs
 only

---
 seyfert/main/orchestration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index f89df18..bd531be 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -8,6 +8,7 @@ import json
 import time
 import subprocess
 
+from seyfert import VERSION
 from seyfert.utils import general_utils as gu
 from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils import formatters as fm
@@ -252,7 +253,8 @@ def collect_rundirs(workdir: "Path", run_ids: "List[str]") -> "List[Path]":
     rundirs = []
     for x in workdir.iterdir():
         if x.is_dir():
-            if any(x.name.startswith(run_id) for run_id in run_ids):
+            run_names = [f"{run_id}_{VERSION}" for run_id in run_ids]
+            if any(x.name == run_name or x.name.startswith(f"{run_name}_") for run_name in run_names):
                 rundirs.append(x)
 
     return rundirs
-- 
2.43.0


From 1f3f9dc56dda2b0bca7bb4ce9d240d059115279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 051/100] fix: use the input data directory that the run was
 asked to use

---
 seyfert/main/orchestration.py | 9 +++++++--
 seyfert/main/seyfert_core.py  | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index bd531be..0818739 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -163,7 +163,9 @@ def do_multiple_new_seyfert_runs(pmm_dirs: "List[Union[str, Path]]", configs: "D
 
 def do_new_seyfert_run(args: "argparse.Namespace", keyval_args: "Dict",
                        use_fisher_as_id=True, use_angular_as_id=True) -> "str":
-    input_data_dir = fsu.default_seyfert_input_data_dir()
+    input_data_dir = args.input_data_dir
+    if input_data_dir is None:
+        input_data_dir = fsu.default_seyfert_input_data_dir()
 
     fcfg = Path(keyval_args['fcfg'])
     fcfg_id, _, _ = gu.split_run_id(fcfg.stem)
@@ -225,9 +227,12 @@ def do_multiple_seyfert_runs_on_existing_rundirs(args: "argparse.Namespace", inp
 def run_seyfert_on_existing_rundir(args: "argparse.Namespace", rundir: "Union[str, Path]"):
     ws = WorkSpace(rundir)
     input_files = ws.theInputFilesDict()
+    input_data_dir = args.input_data_dir
+    if input_data_dir is None:
+        input_data_dir = ws.getInputDataDirPath()
     keyval_args = {
         'rd': ws.run_dir,
-        'i': fsu.default_seyfert_input_data_dir(),
+        'i': input_data_dir,
         'fcfg': ws.run_dir / input_files['forecast'],
         'pmm_cfg': ws.run_dir / input_files['PowerSpectrum'],
         'cl_cfg': ws.run_dir / input_files['Angular'],
diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 4320bf1..9932baf 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -213,6 +213,9 @@ def execute_interactively(args_dict, forecast_configs, logfile):
 
 def submit_batch_jobs(args_dict, forecast_configs):
     bsi = BsubInterface()
+    input_data_dir = args_dict.get('input_data_dir')
+    if input_data_dir is None:
+        input_data_dir = fsu.default_seyfert_input_data_dir()
     for i, fcfg_file in enumerate(forecast_configs):
         now = formatters.datetime_str_format(datetime.datetime.now())
         workdir = Path(args_dict['workdir']).resolve() / f"run_{fcfg_file.stem}_{VERSION}_{now}"
@@ -221,7 +224,7 @@ def submit_batch_jobs(args_dict, forecast_configs):
         logs_path.mkdir(exist_ok=True, parents=True)
 
         logger.info(f"Submitting run with forecast config {fcfg_file.name}")
-        fcfg = ForecastConfig(input_file=fcfg_file, input_data_dir=fsu.default_seyfert_input_data_dir())
+        fcfg = ForecastConfig(input_file=fcfg_file, input_data_dir=input_data_dir)
         bsub_opts = compute_bsub_options(args_dict, fcfg)
         bsi.setOptions(**bsub_opts)
         arguments = {}
-- 
2.43.0


From 70195384298c52c2636d4b69eaa42ae6a17c04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 052/100] fix: replace the products of a run as a whole when a
 task is run again or resumed

---
 bin/compute_cls                   |  3 ++-
 bin/compute_delta_cls             |  4 +++-
 bin/compute_derivatives           |  4 +++-
 bin/compute_pmm                   |  3 ++-
 seyfert/main/seyfert_core.py      | 19 +++++++++++--------
 seyfert/main/task_runners.py      |  8 +++++---
 seyfert/utils/filesystem_utils.py | 17 +++++++++++++++++
 7 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/bin/compute_cls b/bin/compute_cls
index bfaf957..2cf5ac9 100755
--- a/bin/compute_cls
+++ b/bin/compute_cls
@@ -62,7 +62,8 @@ def main(args_dict):
     outfile_name = 'cl_%s.h5' % ("_".join(forecast_config.present_probes))
     outfile = workdir / outfile_name
     logger.info(f'Writing results to file {outfile}')
-    cl_collector.saveToHDF5(outfile)
+    with fsu.written_aside(outfile) as tmp_file:
+        cl_collector.saveToHDF5(tmp_file)
     tf = time.time()
     logger.info(f'Total elapsed time: {fm.string_time_format(tf-t0)}')
 
diff --git a/bin/compute_delta_cls b/bin/compute_delta_cls
index c96b010..8785cce 100755
--- a/bin/compute_delta_cls
+++ b/bin/compute_delta_cls
@@ -5,6 +5,7 @@ from pathlib import Path
 
 from seyfert.utils.workspace import WorkSpace
 from seyfert.main.cl_core import compute_delta_cls
+from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils.general_utils import configure_logger
 
 logger = logging.getLogger()
@@ -22,7 +23,8 @@ def program_options() -> "argparse.ArgumentParser":
 def main(args):
     ws = WorkSpace(args.rundir)
     delta_cls = compute_delta_cls(ws)
-    delta_cls.saveToHDF5(ws.delta_cls_file)
+    with fsu.written_aside(ws.delta_cls_file) as tmp_file:
+        delta_cls.saveToHDF5(tmp_file)
 
 
 if __name__ == '__main__':
diff --git a/bin/compute_derivatives b/bin/compute_derivatives
index 110eaeb..a0b05e7 100755
--- a/bin/compute_derivatives
+++ b/bin/compute_derivatives
@@ -5,6 +5,7 @@ import logging
 from typing import Dict
 from pathlib import Path
 import argparse
+import seyfert.utils.filesystem_utils as fsu
 import seyfert.utils.general_utils as gu
 from seyfert.config import forecast_config as fcfg
 from seyfert.derivatives import cl_derivative as ders
@@ -54,7 +55,8 @@ def main(args_dict: "Dict"):
     outfile_name = f'cl_derivatives_{dvar}_{"_".join(forecast_config.present_probes)}.h5'
     outfile = workdir / outfile_name
     logger.info(f'Writing results to file {outfile}')
-    dcl_coll.writeToFile(outfile)
+    with fsu.written_aside(outfile) as tmp_file:
+        dcl_coll.writeToFile(tmp_file)
 
 
 if __name__ == '__main__':
diff --git a/bin/compute_pmm b/bin/compute_pmm
index ca20687..44c3926 100755
--- a/bin/compute_pmm
+++ b/bin/compute_pmm
@@ -44,7 +44,8 @@ def main(args_dict):
     cosmology.evaluatePowerSpectrum(workdir, power_spectrum_config)
     p_mm_file = workdir / "p_mm.h5"
     logger.info(f'Writing results to file {p_mm_file}')
-    cosmology.saveToHDF5(p_mm_file)
+    with fsu.written_aside(p_mm_file) as tmp_file:
+        cosmology.saveToHDF5(tmp_file)
 
 
 if __name__ == '__main__':
diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 9932baf..4de3edb 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -72,7 +72,8 @@ def compute_densities(ws, fcfg, fid_cosmo):
             densities[probe].evaluate(z_grid=fid_cosmo.z_grid)
             densities[probe].evaluateSurfaceDensity()
 
-        redshift_density.save_densities_to_file(densities=densities, file=ws.niz_file)
+        with fsu.written_aside(ws.niz_file) as tmp_file:
+            redshift_density.save_densities_to_file(densities=densities, file=tmp_file)
     else:
         densities = redshift_density.load_densities_from_file(file=ws.niz_file)
 
@@ -87,7 +88,8 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
         fid_cls = cl_core.compute_cls(cosmology=fid_cosmo, phys_pars=phys_pars, densities=densities,
                                       forecast_config=fcfg, angular_config=main_configs['Angular'])
         fid_cl_file.parent.mkdir(exist_ok=True, parents=True)
-        fid_cls.saveToHDF5(fid_cl_file)
+        with fsu.written_aside(fid_cl_file) as tmp_file:
+            fid_cls.saveToHDF5(tmp_file)
     else:
         fid_cls = c_ells.AngularCoefficientsCollector.fromHDF5(fid_cl_file)
 
@@ -96,9 +98,8 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
 
 def compute_cl_derivatives(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities, fid_cls):
     cl_ders_file = ws.der_dir / "cl_ders.pickle"
-    if not ws.der_dir.is_dir():
-        ws.der_dir.mkdir()
-        cl_ders_file = ws.der_dir / "cl_ders.pickle"
+    if not cl_ders_file.is_file() and not ws.der_dir.is_symlink():
+        ws.der_dir.mkdir(exist_ok=True)
 
         data = {
             "fid_cls": fid_cls,
@@ -125,8 +126,9 @@ def compute_cl_derivatives(ws, fcfg, main_configs, phys_pars, fid_cosmo, densiti
         logger.info("")
         logger.info(f"Cl derivatives total elapsed time: {formatters.string_time_format(tf - ti)}")
 
-        with open(cl_ders_file, mode="wb") as f:
-            pickle.dump(ders_dict, f)
+        with fsu.written_aside(cl_ders_file) as tmp_file:
+            with open(tmp_file, mode="wb") as f:
+                pickle.dump(ders_dict, f)
     else:
         with open(cl_ders_file, mode="rb") as f:
             ders_dict = pickle.load(f)
@@ -174,7 +176,8 @@ def do_forecast(args_dict, logfile):
         delta_cls = cl_core.DeltaClCollection.fromHDF5(ws.delta_cls_file)
     else:
         delta_cls = cl_core.compute_delta_cls(ws)
-        delta_cls.saveToHDF5(ws.delta_cls_file)
+        with fsu.written_aside(ws.delta_cls_file) as tmp_file:
+            delta_cls.saveToHDF5(tmp_file)
 
     compute_fishers(ws=ws, fcfg=fcfg, phys_pars=phys_pars, delta_cls=delta_cls, ders_dict=ders_dict)
 
diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index f61025a..30c9fed 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -551,14 +551,16 @@ class ForecastRunner:
             z_grid = cosmo.z_grid
 
         densities = cl_core.compute_densities(probe_configs=self.forecast_config.probe_configs, z_grid=z_grid)
-        for name in densities:
-            densities[name].saveToHDF5(self.workspace.niz_file, root=name)
+        with fsu.written_aside(self.workspace.niz_file) as tmp_file:
+            for name in densities:
+                densities[name].saveToHDF5(tmp_file, root=name)
 
     def computeDeltaCls(self):
         logger.info("Computing delta cls")
         if self.args.execution != 'no':
             delta_cls = cl_core.compute_delta_cls(self.workspace)
-            delta_cls.saveToHDF5(self.workspace.delta_cls_file)
+            with fsu.written_aside(self.workspace.delta_cls_file) as tmp_file:
+                delta_cls.saveToHDF5(tmp_file)
         else:
             logger.info('Execution is "no", skipping DeltaCls computation')
 
diff --git a/seyfert/utils/filesystem_utils.py b/seyfert/utils/filesystem_utils.py
index e00f5f6..9b87a24 100644
--- a/seyfert/utils/filesystem_utils.py
+++ b/seyfert/utils/filesystem_utils.py
@@ -1,4 +1,5 @@
 from typing import Tuple, Dict, Union
+from contextlib import contextmanager
 import re
 import json
 import os
@@ -146,6 +147,22 @@ def get_file_from_dir_with_pattern(directory: Path = None, pattern: str = None):
     return candidates[0]
 
 
+@contextmanager
+def written_aside(outfile: "Union[str, Path]"):
+    """
+    Give the path of a temporary file, which takes the place of outfile once it has been written: outfile is replaced
+    if it exists already, and an interrupted write never leaves a partial file in place.
+    """
+    outfile = Path(outfile)
+    tmp_file = outfile.with_name(f".{outfile.name}.tmp")
+    tmp_file.unlink(missing_ok=True)
+    try:
+        yield tmp_file
+        tmp_file.replace(outfile)
+    finally:
+        tmp_file.unlink(missing_ok=True)
+
+
 def get_fisher_dirname_from_switches(prefix="fishers_with_pk",
                                      wlph: bool = True, wlsp: bool = True, phsp: bool = True) -> "str":
     switches = {"WL-GCph": wlph, "WL-GCsp": wlsp, "GCph-GCsp": phsp}
-- 
2.43.0


From 1766766e1b4b14a31bb5bf21ee7e041e20cbfde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 053/100] fix: use the fiducial Cls of an external directory,
 whatever their file is called

---
 seyfert/main/seyfert_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 4de3edb..2195d15 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -84,14 +84,14 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
     ws.cl_dir.mkdir(exist_ok=True)
     fid_cl_file = ws.cl_dir / "dvar_central_step_0" / "cls_fiducial.h5"
 
-    if not fid_cl_file.is_file():
+    if not list(fid_cl_file.parent.glob("cl*.h5")):
         fid_cls = cl_core.compute_cls(cosmology=fid_cosmo, phys_pars=phys_pars, densities=densities,
                                       forecast_config=fcfg, angular_config=main_configs['Angular'])
         fid_cl_file.parent.mkdir(exist_ok=True, parents=True)
         with fsu.written_aside(fid_cl_file) as tmp_file:
             fid_cls.saveToHDF5(tmp_file)
     else:
-        fid_cls = c_ells.AngularCoefficientsCollector.fromHDF5(fid_cl_file)
+        fid_cls = c_ells.AngularCoefficientsCollector.fromHDF5(ws.getClFile(dvar='central', step=0))
 
     return fid_cls
 
-- 
2.43.0


From 3748982704d31d9d855ed8e4dca7bf1f97ea36cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 054/100] fix: evaluate the final results again when a forecast
 is resumed

---
 seyfert/main/seyfert_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 2195d15..9661e33 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -181,7 +181,7 @@ def do_forecast(args_dict, logfile):
 
     compute_fishers(ws=ws, fcfg=fcfg, phys_pars=phys_pars, delta_cls=delta_cls, ders_dict=ders_dict)
 
-    create_final_results(rundir=ws.run_dir, outdir_name="final_results")
+    create_final_results(rundir=ws.run_dir, outdir_name="final_results", overwrite=True)
 
     shutil.copy(logfile, ws.run_dir / Path(logfile).name)
 
-- 
2.43.0


From 8a639094276050607a77681737906d6f34557dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 055/100] fix: compute the fiducial Cls with the fiducial
 cosmology that void biases need

---
 seyfert/main/seyfert_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 9661e33..305aaf2 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -86,7 +86,8 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
 
     if not list(fid_cl_file.parent.glob("cl*.h5")):
         fid_cls = cl_core.compute_cls(cosmology=fid_cosmo, phys_pars=phys_pars, densities=densities,
-                                      forecast_config=fcfg, angular_config=main_configs['Angular'])
+                                      forecast_config=fcfg, angular_config=main_configs['Angular'],
+                                      fiducial_cosmology=fid_cosmo)
         fid_cl_file.parent.mkdir(exist_ok=True, parents=True)
         with fsu.written_aside(fid_cl_file) as tmp_file:
             fid_cls.saveToHDF5(tmp_file)
-- 
2.43.0


From 9cf377bbdabfbdbb8770b2186af3c97d3bc1a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 056/100] fix: vary the Cls over the steps of the parameters in
 use

---
 seyfert/main/cl_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/cl_core.py b/seyfert/main/cl_core.py
index 6886c6f..5973316 100644
--- a/seyfert/main/cl_core.py
+++ b/seyfert/main/cl_core.py
@@ -83,7 +83,7 @@ def compute_cls_variations(dvar: "str", fid_cls, ws, phys_pars, densities, forec
                            pmm_cfg=None, compute_pmm=False,
                            fiducial_cosmology=None) -> "Dict[int, AngularCoefficientsCollector]":
     cl_coll_variations = {0: fid_cls}
-    for step in np.r_[-7:0, 1:8]:
+    for step in phys_pars.stem_steps:
         logger.info(f"dvar {dvar}, step {step}")
         phys_pars.updatePhysicalParametersForDvarStep(dvar=dvar, step=step)
         if not compute_pmm:
-- 
2.43.0


From 85a194cdcd8e9da1b30fc6538b5401aaada6d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 057/100] fix: quote the paths in the commands of a run

---
 seyfert/main/orchestration.py |  3 ++-
 seyfert/main/seyfert_core.py  |  3 ++-
 seyfert/main/task_runners.py  | 13 +++++++------
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 0818739..2ed7ba3 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -1,6 +1,7 @@
 import re
 from typing import Union, Dict, List
 from pathlib import Path
+import shlex
 import shutil
 import argparse
 import logging
@@ -207,7 +208,7 @@ def do_new_seyfert_run(args: "argparse.Namespace", keyval_args: "Dict",
 
 
 def build_seyfert_cmd(args: "argparse.Namespace", keyval_args: "Dict") -> "str":
-    kwargs_str = " ".join([f"-{key} {value}" for key, value in keyval_args.items()])
+    kwargs_str = " ".join([f"-{key} {shlex.quote(str(value))}" for key, value in keyval_args.items()])
     add_flags_str = " ".join([f"--{flag}" for flag in args.additional_flags])
     task_flags_str = " ".join([
         f"--{task_flag_key}" for task_flag_key in ["angular", "derivative", "fisher"]
diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 305aaf2..8d603a2 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -1,5 +1,6 @@
 import datetime
 import pickle
+import shlex
 import shutil
 import time
 from pathlib import Path
@@ -189,7 +190,7 @@ def do_forecast(args_dict, logfile):
 
 def get_interactive_run_command(args_dict: "Dict") -> "str":
     args_dict['execution'] = 'interactive'
-    args_str = " ".join(f"--{key} {value}" for key, value in args_dict.items() if value is not None)
+    args_str = " ".join(f"--{key} {shlex.quote(str(value))}" for key, value in args_dict.items() if value is not None)
     cmd_str = f"run_seyfert {args_str}"
 
     return cmd_str
diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 30c9fed..a3ea781 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -3,6 +3,7 @@ import sys
 import os
 import datetime
 import time
+import shlex
 import shutil
 from pathlib import Path
 from abc import ABC, abstractmethod
@@ -106,12 +107,12 @@ class TaskRunner(ABC):
         self.main_script_parameters["rundir"] = self.rundir
         with sh_path.open(mode="w") as sh:
             sh.write(f"#!/bin/bash\n\n")
-            sh.write(f'cd {jobdir_path}\n')
+            sh.write(f'cd {shlex.quote(str(jobdir_path))}\n')
             if self.venv_path is not None:
-                sh.write(f'source {Path(self.venv_path) / "bin/activate"}\n')
+                sh.write(f'source {shlex.quote(str(Path(self.venv_path) / "bin/activate"))}\n')
             run_cmd = f'{self.main_script_name}'
             for key, value in self.main_script_parameters.items():
-                run_cmd += f' --{key} {value}'
+                run_cmd += f' --{key} {shlex.quote(str(value))}'
             sh.write(f'{run_cmd}\n')
         sh_path.chmod(0o755)
         return sh_path
@@ -169,7 +170,7 @@ class TaskRunner(ABC):
         for sh_idx, sh_path in enumerate(self.shell_scripts_paths):
             logger.info(f'Task {self.kind} job {sh_idx + 1}/{len(self.shell_scripts_paths)}')
             logger.info(f'Job name: {sh_path.stem}')
-            self.executeCommand(str(sh_path))
+            self.executeCommand(shlex.quote(str(sh_path)))
 
 
 class PowerSpectrumTaskRunner(TaskRunner):
@@ -301,7 +302,7 @@ class FisherTaskRunner(TaskRunner):
         return auto_dvs_brief, cross_dvs_brief
 
     def writeFisherCommand(self, datavectors_brief_strings: "List[str]"):
-        return f"{self.main_script_name} {' '.join(datavectors_brief_strings)} --rundir {self.workspace.run_dir}"
+        return f"{self.main_script_name} {' '.join(datavectors_brief_strings)} --rundir {shlex.quote(str(self.workspace.run_dir))}"
 
     def clearOutput(self):
         if self.args.overwrite_results:
@@ -596,7 +597,7 @@ class ForecastRunner:
             "-ex": self.args.execution, "-i": self.rundir, "-q": "long", "-ncj": 1, "-mem": 3000,
             "-ow": self.args.overwrite_results, "-wd": self.workspace.run_dir
         }
-        res_cmd = f'evaluate_final_results {" ".join(f"{key} {value}" for key, value in cli_args.items())}'
+        res_cmd = f'evaluate_final_results {" ".join(f"{key} {shlex.quote(str(value))}" for key, value in cli_args.items())}'
         proc = sp.run(res_cmd, shell=True)
         if proc.returncode != 0:
             raise JobFailError(f"Command {res_cmd} failed with exit status {proc.returncode}")
-- 
2.43.0


From d2daae86482ff9c15e519470ab14d2f2655c7926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 058/100] fix: read the jobs of users and queues of any name in
 the output of bjobs

---
 seyfert/main/bsub_utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index f553084..16009b7 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -18,27 +18,27 @@ class ExitedBatchJobError(Exception):
 
 
 def count_down(t):
-    while t:
-        time.sleep(1)
+    while t > 0:
+        time.sleep(min(t, 1))
         t -= 1
 
 
 class BsubInterface:
     _bjobs_out_regex_dict = {
         "JOBID": r"([0-9]+)",
-        "USER": r"([a-z]+)",
+        "USER": r"(\S+)",
         "STAT": r"([A-Z]+)",
-        "QUEUE": r"([a-z]+)",
-        "FROM_HOST": r"([a-z0-9\.]+)",
-        "EXEC_HOST": r"([a-z0-9\.\*]+)",
-        "JOB_NAME": r"(.*\-)",
+        "QUEUE": r"(\S+)",
+        "FROM_HOST": r"(\S+)",
+        "EXEC_HOST": r"(\S+)",
+        "JOB_NAME": r"(.*\S)",
         "SUBMIT_TIME": r"([a-zA-Z]{3}\s+[0-9]+\s+[0-9]+:[0-9]+)"
     }
     _bsub_out_regex = re.compile(r"Job <([0-9]+)> is submitted to")
-    _basic_bjobs_out_regex = re.compile(r"([0-9]+)\s+([a-z]+)\s+([A-Z]+)", re.MULTILINE)
+    _basic_bjobs_out_regex = re.compile(r"^[ \t]*([0-9]+)[ \t]+(\S+)[ \t]+([A-Z]+)\b", re.MULTILINE)
 
     def __init__(self):
-        self.regex_bjobs_out = re.compile(r"\s+".join(self._bjobs_out_regex_dict.values()), re.MULTILINE)
+        self.regex_bjobs_out = re.compile(r"^[ \t]*" + r"[ \t]+".join(self._bjobs_out_regex_dict.values()), re.MULTILINE)
         self.bsub_opts = {
             "-P": "c7",
             "-q": "medium",
-- 
2.43.0


From c94bbbdda0537159a3e13771172c650884f18463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 059/100] fix: wait for the jobs that bjobs does not report
 yet, and for none

---
 seyfert/main/bsub_utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index 16009b7..a236eba 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -143,12 +143,17 @@ class BsubInterface:
 
     def waitForJobsToComplete(self, job_ids: "List", bjobs_opts="-w",
                               check_time_resolution_secs=30.0, max_time_wait_h=3, wait_overhead_secs=5):
+        if len(job_ids) == 0:
+            logger.info("No jobs to wait for")
+            return
+
         logger.info(f"Waiting for jobs {job_ids[0]}-{job_ids[-1]} to execute")
         logger.info(f"Add overhead of {wait_overhead_secs} s to make sure bjobs returns something...")
         time.sleep(wait_overhead_secs)
         check_counter = 0
         num_checks_lim_log = 10
         max_time_wait_s = max_time_wait_h * 3600
+        completed_ids = set()
         t0 = time.time()
         while True:
             if check_counter < num_checks_lim_log:
@@ -160,7 +165,9 @@ class BsubInterface:
                 logger.info(f"Checking jobs status, check number: {check_counter}")
 
             status_df = self.getBjobsTable(job_ids, bjobs_opts=bjobs_opts)
-            if all(status_df["STAT"] == 'DONE'):
+            # a job which does not show up in the table is not known to be done, unless it has been seen done before
+            completed_ids.update(status_df["JOBID"][status_df["STAT"] == 'DONE'])
+            if all(str(job_id) in completed_ids for job_id in job_ids):
                 logger.info(f"Jobs {job_ids[0]}-{job_ids[-1]} have finished")
                 break
             else:
-- 
2.43.0


From 1c4bbdb24eb120f65e9b4ab5005337abf10f2fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 060/100] fix: measure batch jobs of any year and of more than
 one day

---
 seyfert/main/bsub_utils.py   | 4 ++--
 seyfert/main/report_maker.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index a236eba..60b8ff5 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -190,7 +190,7 @@ class BsubInterface:
                 break
 
     def getResourceUsageTable(self, out_files_dir: "Path"):
-        outname_regex = re.compile(r"^out_(.*)_202[0-1]")
+        outname_regex = re.compile(r"^out_(.*)_[0-9]{4}-[0-9]{2}-[0-9]{2}T")
         regexps = {
             "cpu_time_s": re.compile(r"CPU time\s*:\s+([0-9\.]+)"),
             "max_mem_MB": re.compile(r"Max Memory\s*:\s+([0-9\.]+)"),
@@ -207,7 +207,7 @@ class BsubInterface:
             row = {
                 "fisher": fisher,
                 "start_time": start_time, "end_time": end_time,
-                "duration_s": (end_time - start_time).seconds
+                "duration_s": (end_time - start_time).total_seconds()
             }
             row.update({key: float(pattern.search(text).groups()[0]) for key, pattern in regexps.items()})
             rows.append(row)
diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 1b83691..b9ee619 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -116,7 +116,7 @@ class JobReport:
                 tf_string = self.convertDateTimeString(tf_string)
                 times['tf'] = datetime.datetime.strptime(tf_string, '%Y %b %d %H:%M:%S')
         try:
-            execution_time_secs = (times['tf'] - times['ti']).seconds
+            execution_time_secs = (times['tf'] - times['ti']).total_seconds()
         except KeyError:
             execution_time_secs = 0
         return execution_time_secs
-- 
2.43.0


From 231da491f30a3a895c8ff8ef1ac0368e3402e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 061/100] fix: report the batch jobs from the files that bsub
 writes

---
 seyfert/main/report_maker.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index b9ee619..15bc304 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -59,15 +59,15 @@ class JobReport:
             if self.status != NOT_EXECUTED_STRING:
                 job_report_string += f'- Core Dump: {self.core_dumped}\n'
                 job_report_string += f'- Errfile Path: {self.err_file}\n'
-                err_content = self.err_file.read_text()
+                err_content = self.err_file.read_text() if self.err_file is not None else ""
                 if err_content:
                     job_report_string += f'- Errfile Content: \n{err_content}\n'
         job_report_string += '\n'
         return job_report_string
 
     def getFiles(self) -> None:
-        self.err_file = self.getFilePathFromJobdirWithPattern('job*.err')
-        self.out_file = self.getFilePathFromJobdirWithPattern('job*.out')
+        self.err_file = self.getFilePathFromJobdirWithPattern('*.err')
+        self.out_file = self.getFilePathFromJobdirWithPattern('*.out')
         self.log_file = self.getFilePathFromJobdirWithPattern('*.log')
         self.output_file = self.getFilePathFromJobdirWithPattern(self.output_file_pattern)
 
@@ -127,8 +127,9 @@ class JobReport:
         return f'{year} {month} {int(day):02} {time}'
 
     def getFilePathFromJobdirWithPattern(self, pattern: str) -> "Union[Path, None]":
-        file_candidates = list(self.jobdir.glob(f'{pattern}'))
-        file_path = file_candidates[0] if len(file_candidates) > 0 else None
+        # the names end with the time of submission: the last is the one of the last execution
+        file_candidates = sorted(self.jobdir.glob(f'{pattern}'))
+        file_path = file_candidates[-1] if len(file_candidates) > 0 else None
         return file_path
 
 
@@ -167,9 +168,10 @@ class TaskReportMaker:
             self.mean_exec_time += job_report.execution_time_secs
             self.total_output_size_MB += job_report.output_size_MB
         self.n_jobs = len(self.job_reports)
-        self.mean_exec_time /= self.n_jobs
+        if self.n_jobs > 0:
+            self.mean_exec_time /= self.n_jobs
         if all([x.job_id is not None for x in self.job_reports]):
-            self.job_reports.sort(key=lambda x: x.job_id)
+            self.job_reports.sort(key=lambda x: int(x.job_id))
 
     def writeToFiles(self, report_outfile=None, summary_outfile=None) -> None:
         summary_outfile.write(self.summary)
-- 
2.43.0


From 4644286504706d172fc72fd529fe9e669f08b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 062/100] fix: write the jobs report of a batch run

---
 bin/job_submitter | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/job_submitter b/bin/job_submitter
index 0435864..91d5e95 100755
--- a/bin/job_submitter
+++ b/bin/job_submitter
@@ -97,7 +97,7 @@ def main(args_dict: "Dict") -> "None":
     rundir = runner.rundir
 
     if execution == 'batch':
-        if runner.tasks['Fisher'].is_present and not any([runner.tasks[name].is_present for name in runner.tasks]):
+        if any([runner.tasks[name].is_present for name in runner.tasks if name != 'Fisher']):
             logger.info(f'Writing jobs report')
             rrm = RunReportMaker(rundir=rundir)
             rrm.buildTaskReportMakers()
-- 
2.43.0


From 5657b46430f3b87179eba05ca3f1d2ca188c679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 063/100] fix: use the power spectrum directory given to
 run_seyfert

---
 seyfert/main/seyfert_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 8d603a2..f64e580 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -48,12 +48,14 @@ def prepare_workspace(args_dict):
                            phys_pars=fcfg.phys_pars, 
                            input_data_dir=input_data_dir)
 
+    ext_dirs = {}
     pmm_dir = args_dict.get('powerspectrum_dir')
     if pmm_dir is None:
         pmm_dir = ws.run_dir/"PowerSpectrum"
         pmm_dir.mkdir(exist_ok=True)
+    else:
+        ext_dirs["PowerSpectrum"] = Path(pmm_dir)
 
-    ext_dirs = {}
     cldir = args_dict.get('angular_dir')
     derdir = args_dict.get('derivative_dir')
     if cldir is not None:
-- 
2.43.0


From a9e70ebd0481ef4dc79b91e1fb6a63b5c7f1a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 064/100] fix: evaluate the power spectrum before the growth
 factor that comes from it

---
 bin/compute_pmm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/compute_pmm b/bin/compute_pmm
index 44c3926..1eb3a3a 100755
--- a/bin/compute_pmm
+++ b/bin/compute_pmm
@@ -40,8 +40,8 @@ def main(args_dict):
 
     cosmology = Cosmology(params=phys_pars.cosmological_parameters, flat=phys_pars.is_universe_flat,
                           z_grid=power_spectrum_config.z_grid, model_name='CPL')
-    cosmology.evaluateOverRedshiftGrid()
     cosmology.evaluatePowerSpectrum(workdir, power_spectrum_config)
+    cosmology.evaluateOverRedshiftGrid()
     p_mm_file = workdir / "p_mm.h5"
     logger.info(f'Writing results to file {p_mm_file}')
     with fsu.written_aside(p_mm_file) as tmp_file:
-- 
2.43.0


From 0371eda4dd84b2baf83d3ab93a39b6896f055ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 065/100] fix: evaluate the power spectrum that the Cls are
 asked to compute before using it

---
 seyfert/main/cl_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/cl_core.py b/seyfert/main/cl_core.py
index 5973316..4c730f7 100644
--- a/seyfert/main/cl_core.py
+++ b/seyfert/main/cl_core.py
@@ -59,10 +59,10 @@ def compute_cls(cosmology: "Cosmology", phys_pars: "PhysicalParametersCollection
                 pmm_cfg: "PowerSpectrumConfig" = None,
                 fiducial_cosmology: "Cosmology" = None,
                 compute_pmm=False) -> "AngularCoefficientsCollector":
-    cosmology.evaluateOverRedshiftGrid()
     if compute_pmm:
         cosmology.evaluatePowerSpectrum(
             workdir=".", power_spectrum_config=pmm_cfg)
+    cosmology.evaluateOverRedshiftGrid()
     if fiducial_cosmology is not None:
         fiducial_cosmology.evaluateOverRedshiftGrid()
     logger.info('Instantiating Cl collector')
-- 
2.43.0


From 28ac62a4fd6aa9a01a5fa0637e0e718b9850797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 066/100] fix: vary the Cls of a universe that is not flat when
 their power spectrum is asked for

---
 seyfert/main/cl_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/cl_core.py b/seyfert/main/cl_core.py
index 4c730f7..d185837 100644
--- a/seyfert/main/cl_core.py
+++ b/seyfert/main/cl_core.py
@@ -90,7 +90,7 @@ def compute_cls_variations(dvar: "str", fid_cls, ws, phys_pars, densities, forec
             cosmology = load_cosmology(ws, dvar, step, phys_pars)
         else:
             cosmology = Cosmology(params=phys_pars.cosmological_parameters,
-                                  flat=True, cosmology_name="CPL",
+                                  flat=phys_pars.is_universe_flat, cosmology_name="CPL",
                                   z_grid=pmm_cfg.z_grid)
             cosmology.evaluatePowerSpectrum(
                 workdir=".", power_spectrum_config=pmm_cfg)
-- 
2.43.0


From 22bf09410075b783a5119cd9b2415fc1a31dcfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 067/100] fix: give the fiducial cosmology to the Cls of an
 interactive session

---
 seyfert/seyfert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/seyfert.py b/seyfert/seyfert.py
index 85d9aa6..59ff731 100644
--- a/seyfert/seyfert.py
+++ b/seyfert/seyfert.py
@@ -124,5 +124,6 @@ class Seyfert:
                                      phys_pars=self.phys_pars,
                                      densities=self.redshift_densities,
                                      forecast_config=self.fcfg,
-                                     angular_config=self.cl_cfg)
+                                     angular_config=self.cl_cfg,
+                                     fiducial_cosmology=self.fid_cosmo)
         return clcoll
-- 
2.43.0


From 28604b34508c27a8df15735e965e1fcb08ba8c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 068/100] fix: use the power spectrum directory given to an
 interactive session

---
 seyfert/seyfert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/seyfert.py b/seyfert/seyfert.py
index 59ff731..98b1d75 100644
--- a/seyfert/seyfert.py
+++ b/seyfert/seyfert.py
@@ -79,6 +79,8 @@ class Seyfert:
             pmm_dir = self.ws.run_dir/"PowerSpectrum"
             pmm_dir.mkdir(exist_ok=True)
         ext_dirs = {}
+        if self.args_dict.get('powerspectrum_dir') is not None:
+            ext_dirs["PowerSpectrum"] = Path(pmm_dir)
         cldir = self.args_dict.get('angular_dir')
         derdir = self.args_dict.get('derivative_dir')
         if cldir is not None:
-- 
2.43.0


From af4f1cc921aa7abe8d49d42998efdd11341c4d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 069/100] fix: percentage differences of tables with negative
 elements are not negative

---
 seyfert/numeric/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/numeric/general.py b/seyfert/numeric/general.py
index b9cb6fc..df87daa 100644
--- a/seyfert/numeric/general.py
+++ b/seyfert/numeric/general.py
@@ -44,7 +44,7 @@ def pad(x: "Any", y: "Any") -> "Any":
                             f"columns of x missing from y {set(x.columns) - set(y.columns)} \n"
                             f"columns of y missing from x {set(y.columns) - set(x.columns)} \n")
 
-        den = np.where(x + y != 0, (x + y)/2, 1)
+        den = np.where(x + y != 0, np.abs(x + y)/2, 1)
         num = np.abs(x - y)
         res = pd.DataFrame(100*(num / den), index=x.index, columns=x.columns)
     else:
-- 
2.43.0


From a9484779fbb28dc87567319af2a5b2143cf53b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 070/100] fix: read versions with numbers of more than one
 digit, or in development, of the runs to compare

---
 seyfert/utils/run_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/run_loader.py b/seyfert/utils/run_loader.py
index 5876d26..c53c947 100644
--- a/seyfert/utils/run_loader.py
+++ b/seyfert/utils/run_loader.py
@@ -81,7 +81,7 @@ class RunLoader:
                 self.metadata = json.load(jsf)
         except FileNotFoundError:
             logger.warning('metadata not found, skipping')
-        vregex = re.compile(r'([0-9]\.[0-9]\.[0-9][a-z]?)(dev)?')
+        vregex = re.compile(r'([0-9]+\.[0-9]+\.[0-9]+(?:[a-z](?![a-z]))?)(dev)?')
         self.version = vregex.search(self.run_dir.name).groups()[0]
 
     def loadConfigs(self):
-- 
2.43.0


From 0c94d0c2464e24b9fbe3628fba375dac161e3ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 071/100] fix: load the Fisher matrices of a run from the
 directory where runs write them

---
 seyfert/utils/run_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seyfert/utils/run_loader.py b/seyfert/utils/run_loader.py
index c53c947..1603446 100644
--- a/seyfert/utils/run_loader.py
+++ b/seyfert/utils/run_loader.py
@@ -147,7 +147,10 @@ class RunLoader:
                 self.dcls[dvar][short_key] = dcl_data[cl_key]
 
     def loadFishers(self):
-        fishers_dir = self.run_dir / 'fisher_matrices'
+        fishers_dir = self.workspace.base_fishers_dir
+        if not fishers_dir.exists():
+            # name of the directory in the first releases
+            fishers_dir = self.run_dir / 'fisher_matrices'
         for file in fishers_dir.glob("*.hdf5"):
             f_mat = FisherMatrix()
             f_mat.loadFromFile(file)
-- 
2.43.0


From 251f5c13a3ccbc4daa08c488ddb5bbf0ff698722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 072/100] fix: load the final results of a run where runs write
 them, runs without results can be compared

---
 seyfert/utils/run_loader.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/seyfert/utils/run_loader.py b/seyfert/utils/run_loader.py
index 1603446..2ad3b9f 100644
--- a/seyfert/utils/run_loader.py
+++ b/seyfert/utils/run_loader.py
@@ -18,6 +18,7 @@ from seyfert.cosmology.cosmology import Cosmology
 from seyfert.cosmology.power_spectrum import PowerSpectrum
 from seyfert.config.forecast_config import ForecastConfig
 from seyfert.config.main_config import MainConfig
+from seyfert.fisher.fisher_analysis import FisherAnalysis
 from seyfert.fisher.fisher_matrix import FisherMatrix
 from seyfert.fisher.fisher_results import FisherResultsCollector
 from seyfert.utils.formatters import datetime_str_format
@@ -58,7 +59,7 @@ class RunLoader:
 
     @property
     def marg_errs(self):
-        return self.results.marg_errs
+        return self.results.marg_errs if self.results is not None else {}
 
     def loadRunData(self):
         logger.info(f"loading data for run {self.run_dir.name}")
@@ -167,6 +168,14 @@ class RunLoader:
             self.results = FisherResultsCollector(phys_pars=self.phys_pars, analysis_name='test_comparison',
                                                   results_config_file=results_config)
             self.results.loadFromResultsDir(results_dir)
+        elif self.workspace.final_results_dir.exists():
+            self.results = FisherResultsCollector(analysis_name='test_comparison')
+            self.results.analysis_dict = {}
+            for errors_file in self.workspace.final_results_dir.glob('*/*/marginalized_errors*.csv'):
+                results_subdir = errors_file.parent
+                analysis = FisherAnalysis(cosmology_name=results_subdir.parent.name)
+                analysis.marginalized_errors = pd.read_csv(errors_file, index_col=0)
+                self.results.analysis_dict[f'{results_subdir.parent.name}_{results_subdir.name}'] = analysis
         else:
             logger.warning('results dir not found, skipping')
 
-- 
2.43.0


From 70dcca38a38f2fcdb3842034718b253364ec6aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 073/100] fix: load the central spectra of a run as well, and
 runs that have no varied spectra

---
 seyfert/utils/run_loader.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/seyfert/utils/run_loader.py b/seyfert/utils/run_loader.py
index 2ad3b9f..5baac46 100644
--- a/seyfert/utils/run_loader.py
+++ b/seyfert/utils/run_loader.py
@@ -106,8 +106,12 @@ class RunLoader:
             logger.warning(f"power spectra dir {pmm_dir} does not exist, skipping")
 
     def loadCosmologiesAndCls(self, params: "Iterable[str]" = None):
-        cl_dir = self.run_dir / "Angular"
-        all_pars = self.workspace.collectClVariationParams()
+        cl_dir = self.workspace.cl_dir
+        if not cl_dir.exists():
+            logger.warning(f"cls dir {cl_dir} does not exist, skipping")
+            return
+
+        all_pars = self.workspace.collectClVariationParams() | {"central"}
         pars_to_collect = all_pars
         if params is not None:
             pars_to_collect = set(params)
@@ -137,7 +141,11 @@ class RunLoader:
             logger.warning(f'cosmologies not present for run {self.run_dir.name}')
 
     def loadClDerivatives(self):
-        der_dir = self.run_dir / "Derivative"
+        der_dir = self.workspace.der_dir
+        if not der_dir.exists():
+            logger.warning(f"derivatives dir {der_dir} does not exist, skipping")
+            return
+
         for jobdir in [d for d in der_dir.iterdir() if d.is_dir()]:
             dvar = fsu.get_dvar_from_derivative_jobdir_name(jobdir.name)
             file = fsu.get_file_from_dir_with_pattern(jobdir, "cl*.h5")
-- 
2.43.0


From dc43ac8a4768b944c35e845fdd8398b84a03bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 074/100] fix: remove the parameters others do not have, and
 say which sizes differ, when reading external inputs

---
 seyfert/file_io/ext_input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index 516abdd..0c8d5c4 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -65,7 +65,7 @@ class ISTInputReader:
     def checkISTParams(self):
         our_params = set(IST_PMM_COSMO_MAP.values())
         assert set(self.pars.cosmological_parameters.keys()).issuperset(our_params)
-        for key in self.pars:
+        for key in list(self.pars):
             if key not in our_params:
                 logger.warning(f'param {key} not present in IST params, removing it')
                 del self.pars[key]
@@ -144,7 +144,7 @@ class ISTInputReader:
             cl_coll.saveToHDF5(out_file)
 
         if len(ell_shapes) != 1:
-            raise ValueError(f'Too many ell shapes: {" ".join(ell_shapes)}')
+            raise ValueError(f'Too many ell shapes: {" ".join(str(n) for n in ell_shapes)}')
 
     def readSCameraClDerivatives(self, src_dir: "Union[str, Path]") -> "Dict":
         src_dir = Path(src_dir)
-- 
2.43.0


From 4a7464049e7dbf221b318f50227801e8df0a20fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 075/100] fix: read only the observables of an IST Fisher file
 name as its name

---
 seyfert/file_io/ext_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index 0c8d5c4..545c691 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -278,7 +278,7 @@ class ISTInputReader:
     @staticmethod
     def readISTFisherMatrixFile(file: "Union[str, Path]") -> "Tuple[str, pd.DataFrame]":
         # Get fisher name
-        regex = re.compile("EuclidISTF_([WLGCphsX_]+)")
+        regex = re.compile(r"EuclidISTF_((?:(?:WL|GCph|GCsp|XC)(?=_|\.|$)_?)+)")
         filename = Path(file).name
         match = regex.search(filename)
         if match:
-- 
2.43.0


From 219ba09c34232bf70f500acd1862b8ddfcca9da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 076/100] fix: read external power spectra whichever order
 their redshifts have

---
 seyfert/file_io/ext_input.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index 545c691..60f2bd1 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -265,13 +265,12 @@ class ISTInputReader:
     @staticmethod
     def readISTPowerSpectrumTextFile(file: "Union[str, Path]") -> "Tuple[np.ndarray]":
         data = pd.read_table(file, delim_whitespace=True, names=['z', 'k', 'p_lin', 'p_nonlin'])
+        # put z axis in increasing order, whichever order the file has
+        data = data.sort_values(['z', 'k'], kind='stable')
         z = np.unique(data['z'].to_numpy())
         k = np.unique(data['k'].to_numpy())
         p_lin_zk = data['p_lin'].to_numpy().reshape(len(z), len(k))
         p_nonlin_zk = data['p_nonlin'].to_numpy().reshape(len(z), len(k))
-        # put z axis in increasing order...
-        p_lin_zk = np.flip(p_lin_zk, axis=0)
-        p_nonlin_zk = np.flip(p_nonlin_zk, axis=0)
 
         return z, k, p_lin_zk, p_nonlin_zk
 
-- 
2.43.0


From f3e4f17eb62c3f663e96612cc66d1d84c2bb83ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 077/100] fix: give every bias its own TeX name beyond ten bins

---
 seyfert/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/tex_utils.py b/seyfert/utils/tex_utils.py
index c684c47..ae6be02 100644
--- a/seyfert/utils/tex_utils.py
+++ b/seyfert/utils/tex_utils.py
@@ -5,7 +5,7 @@ import copy
 
 class TeXTranslator:
     def __init__(self):
-        self.bias_regex = re.compile("bg(ph|sp)([0-9])")
+        self.bias_regex = re.compile("bg(ph|sp)([0-9]+)$")
         self.probe_regex = re.compile(r"(WL|GCph|GCsp)")
         self.column_name_regex = re.compile(r" (FoM|Omm|Omb|h|ns|sigma8|w0|wa) ")
         self.probe_name_to_tex = {
-- 
2.43.0


From 3ead3c7901e1cb0882c94b5d1e16656400f25542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 078/100] fix: translate a single probe back from TeX

---
 seyfert/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/tex_utils.py b/seyfert/utils/tex_utils.py
index ae6be02..b3dec05 100644
--- a/seyfert/utils/tex_utils.py
+++ b/seyfert/utils/tex_utils.py
@@ -61,7 +61,7 @@ class TeXTranslator:
 
     def ProbeTeXToName(self, tex_name: str) -> str:
         if '+' not in tex_name:
-            name = self.probe_name_to_tex[tex_name]
+            name = self.probe_tex_to_name[tex_name]
         else:
             probes = [self.probe_tex_to_name[p.strip()] for p in tex_name.split('+')]
             name = r'+'.join(probes)
-- 
2.43.0


From 4cf03770a3bed4bb34eef9400671640baaa140b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 079/100] fix: refuse the TeX name of an unknown parameter

---
 seyfert/utils/tex_utils.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/seyfert/utils/tex_utils.py b/seyfert/utils/tex_utils.py
index b3dec05..de1f73b 100644
--- a/seyfert/utils/tex_utils.py
+++ b/seyfert/utils/tex_utils.py
@@ -74,23 +74,21 @@ class TeXTranslator:
         return self.cosmo_par_tex_to_name[tex_name]
 
     def PhysParNameToTeX(self, s: "str", include_dollar: "bool" = False) -> "str":
-        result = ""
-        if "_" in s:
-            result = " ".join([self.PhysParNameToTeX(p) for p in s.split("_")])
-        try:
+        match = self.bias_regex.match(s)
+        if s in self.phys_par_name_to_tex:
             result = self.CosmoParNameToTeX(s)
-        except KeyError:
-            match = self.bias_regex.match(s)
-            if match:
-                bias_type, idx = match.groups()
-                result = r"b^{\mathrm{%s}}_{%s}" % (bias_type, idx)
-            else:
-                raise KeyError(f"Unrecognized physical parameter {s}")
-        finally:
-            if include_dollar:
-                result = "$%s$" % result
-
-            return result
+        elif match:
+            bias_type, idx = match.groups()
+            result = r"b^{\mathrm{%s}}_{%s}" % (bias_type, idx)
+        elif "_" in s:
+            result = " ".join([self.PhysParNameToTeX(p) for p in s.split("_")])
+        else:
+            raise KeyError(f"Unrecognized physical parameter {s}")
+
+        if include_dollar:
+            result = "$%s$" % result
+
+        return result
 
     def PhysParsNamesToTeX(self, names: "Iterable[str]", include_dollar: "bool" = False) -> "Iterable[str]":
         tex_names = [self.PhysParNameToTeX(name, include_dollar=include_dollar) for name in names]
-- 
2.43.0


From 161d9124c82d0149975e4502609462868f124f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 080/100] fix: write the sign of a negative gain once

---
 seyfert/notebook_helpers/table_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index 7f22ac4..80fec39 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -90,7 +90,7 @@ def get_latex_row(row: "pd.Series", float_fmt="%.4f", ref_fom=None):
     # Add delta fom if ref fom is given, else put double dash
     if ref_fom is not None:
         delta_fom = 100 * (row.loc['FoM'] - ref_fom) / ref_fom
-        str_delta_fom = r"+%.2f\%%" % delta_fom if delta_fom > 0 else r"-%.2f\%%" % delta_fom
+        str_delta_fom = r"%+.2f\%%" % delta_fom
         latex_row += f"{str_delta_fom} & "
     else:
         latex_row += "-- & "
-- 
2.43.0


From 0fd2f757cf1b5d2ae354a8f98dfaf00aaae85d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 081/100] fix: keep the first error of a row without number of
 bins

---
 seyfert/notebook_helpers/table_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index 80fec39..07c7ac8 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -95,7 +95,8 @@ def get_latex_row(row: "pd.Series", float_fmt="%.4f", ref_fom=None):
     else:
         latex_row += "-- & "
     # Add relative marg errors
-    latex_row += " & ".join([f"{float_fmt}" % el for el in row[3:]])
+    errs = row.drop(["nbins", "fisher", "FoM"], errors="ignore")
+    latex_row += " & ".join([f"{float_fmt}" % el for el in errs])
     latex_row += r" \\"
     latex_row = transl.translateToTeX(latex_row)
 
-- 
2.43.0


From 40b925aa1a1cb7590b37d8be0a4579357740bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 082/100] fix: compute the differences of the data vectors a
 table still has

---
 seyfert/notebook_helpers/table_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index 07c7ac8..309b7f6 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -230,7 +230,7 @@ def compute_percentage_differences_table(df: "pd.DataFrame", ref_fisher: "str",
                                          minuend_fishers: "Iterable[str]" = None) -> "pd.DataFrame":
     if minuend_fishers is None:
         if isinstance(df.index, pd.MultiIndex):
-            minuend_fishers = df.index.levels[0]
+            minuend_fishers = df.index.unique(level=0)
         else:
             raise Exception("Cannot infer minuend fishers for with no multi-index")
 
@@ -249,7 +249,7 @@ def compute_simple_differences_table(df: "pd.DataFrame", ref_fisher: "str",
                                      minuend_fishers: "Iterable[str]" = None) -> "pd.DataFrame":
     if minuend_fishers is None:
         if isinstance(df.index, pd.MultiIndex):
-            minuend_fishers = df.index.levels[0]
+            minuend_fishers = df.index.unique(level=0)
         else:
             raise Exception("Cannot infer minuend fishers for with no multi-index")
 
-- 
2.43.0


From 3db21a5dc971ad0487dfcd10ae41647cab5a4b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 083/100] fix: plot spectra of a single bin

---
 seyfert/plot_utils/cl_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/plot_utils/cl_plot.py b/seyfert/plot_utils/cl_plot.py
index 387c447..a83032f 100644
--- a/seyfert/plot_utils/cl_plot.py
+++ b/seyfert/plot_utils/cl_plot.py
@@ -27,7 +27,7 @@ def cl_plot(ell_list: "List[np.ndarray]", cl_data_list: "List[np.ndarray]", labe
     nrows = i_max - i_min + 1
     ncols = j_max - j_min + 1
 
-    fig, axes = plt.subplots(figsize=figsize, nrows=nrows, ncols=ncols)
+    fig, axes = plt.subplots(figsize=figsize, nrows=nrows, ncols=ncols, squeeze=False)
     plt.subplots_adjust(wspace=wspace, hspace=hspace)
 
     for i in range(i_min, i_max + 1):
@@ -69,7 +69,7 @@ def grid_plot(x: "np.ndarray", y: "np.ndarray", label: "str" = None, axes: "np.n
     if nrows != ncols and triangular:
         raise Exception("Cannot do traingular plot for non-square grid")
     if axes is None:
-        fig, axes = plt.subplots(nrows=nrows, ncols=ncols, figsize=figsize)
+        fig, axes = plt.subplots(nrows=nrows, ncols=ncols, figsize=figsize, squeeze=False)
         plt.subplots_adjust(hspace=hspace, wspace=wspace)
     else:
         fig = plt.gcf()
-- 
2.43.0


From 1c2a6decf735f551382acc0a25c927784ee57b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 084/100] fix: do not set the handles of a legend, which cannot
 be set

---
 seyfert/plot_utils/misc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/seyfert/plot_utils/misc.py b/seyfert/plot_utils/misc.py
index 57b6adf..b47e37e 100644
--- a/seyfert/plot_utils/misc.py
+++ b/seyfert/plot_utils/misc.py
@@ -75,7 +75,6 @@ def plot_errs_deltas(deltas: "pd.DataFrame", title="", xlabelrot=0, scenario="No
     ax.set_xticklabels([f"${translator.PhysParNameToTeX(name)}$" for name in marg_deltas.columns],
                        rotation=xlabelrot)
     code_legend = ax.get_legend()
-    code_legend.legendHandles = code_legend.legendHandles[2:]
     ax.add_artist(code_legend)
 
     x0 = 1.0000
-- 
2.43.0


From 465bb6a535e88942e0999e327298fdd553ed38d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 085/100] fix: select analyses whose names have spaces

---
 seyfert/notebook_helpers/misc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/seyfert/notebook_helpers/misc.py b/seyfert/notebook_helpers/misc.py
index 2b397db..7c72533 100644
--- a/seyfert/notebook_helpers/misc.py
+++ b/seyfert/notebook_helpers/misc.py
@@ -15,9 +15,10 @@ def remove_spaces(string_list: "List[str]"):
 def get_subset_analyses_for_fishers(analyses: "Dict[int, FisherAnalysis]", fisher_names: "List[str]"):
     filter_names = remove_spaces(fisher_names)
 
-    ans = {
-        nbins: all_fish_an.getSubsetAnalysis(filter_names) for nbins, all_fish_an in analyses.items()
-    }
+    ans = {}
+    for nbins, all_fish_an in analyses.items():
+        names = {remove_spaces([name])[0]: name for name in all_fish_an.fisher_matrices}
+        ans[nbins] = all_fish_an.getSubsetAnalysis([names[name] for name in filter_names])
 
     for nbins in ans:
         ans[nbins].prepareFisherMatrices()
-- 
2.43.0


From c6e7c4dd0031a4ae728392fc3f2f335921f6933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 086/100] fix: select part of an analysis whose errors were not
 evaluated yet

---
 seyfert/fisher/fisher_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index fa39695..31c2205 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -241,7 +241,7 @@ class FisherAnalysis:
         if recompute_errs:
             an.evaluateMarginalizedErrors()
             an.evaluateRelativeMarginalizedErrors()
-        else:
+        elif self.marginalized_errors is not None:
             an.marginalized_errors = self.marginalized_errors.loc[fisher_names]
             an.relative_marginalized_errors = self.relative_marginalized_errors.loc[fisher_names]
 
-- 
2.43.0


From 82d3d5753dcf3e84de1128183bc0db2da631e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 087/100] fix: start from the default style when only some
 options are given

---
 seyfert/fisher/fisher_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index 05262f1..ebe4256 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -258,7 +258,7 @@ class FisherPlotter:
     def setPlotConfig(self, config_file: "Union[str, Path]" = None, use_default=False,
                       config_dict: "Dict" = None) -> "None":
         logger.info("Setting plot configuration")
-        if use_default:
+        if use_default or (config_file is None and config_dict is not None):
             config_file = fsu.config_files_dir() / 'results_config.json'
             logger.info(f"Using default config {config_file}")
         else:
-- 
2.43.0


From 420044e2cd3f702c3e14e3eab8d5847ef8e507dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:26 +0000
Subject: [PATCH 088/100] fix: label a parameter without TeX name with its own
 name

---
 seyfert/plot_utils/misc.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/seyfert/plot_utils/misc.py b/seyfert/plot_utils/misc.py
index b47e37e..89d0a09 100644
--- a/seyfert/plot_utils/misc.py
+++ b/seyfert/plot_utils/misc.py
@@ -31,16 +31,23 @@ def add_text_box(pl_obj: "Union[plt.Figure, plt.Axes]", x: "float", y: "float",
     pl_obj.text(x, y, text, **kwds)
 
 
+def get_TeX_label(name: "str") -> "str":
+    try:
+        return translator.PhysParNameToTeX(name, include_dollar=True)
+    except KeyError:
+        return name
+
+
 def set_TeX_xticklabels(ax: "plt.Axes", rotation=0, label_texts=None):
     if label_texts is None:
         label_texts = [label.get_text() for label in ax.get_xticklabels()]
-    ax.set_xticklabels(translator.PhysParsNamesToTeX(label_texts, include_dollar=True), rotation=rotation)
+    ax.set_xticklabels([get_TeX_label(name) for name in label_texts], rotation=rotation)
 
 
 def set_TeX_yticklabels(ax: "plt.Axes", rotation=0, label_texts=None):
     if label_texts is None:
         label_texts = [label.get_text() for label in ax.get_yticklabels()]
-    ax.set_yticklabels(translator.PhysParsNamesToTeX(label_texts, include_dollar=True), rotation=rotation)
+    ax.set_yticklabels([get_TeX_label(name) for name in label_texts], rotation=rotation)
 
 
 def heatmap(matrix: "Union[np.ndarray, pd.DataFrame]", title: str = "", invert_yaxis=True, logscale=False,
-- 
2.43.0


From 26e7c27d6c0bcf81f77b229d0cdcbc8b2aac3917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 089/100] fix: name the probe of the intrinsic alignment
 parameters as the rest of the code does

---
 seyfert/gui/interface_window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/gui/interface_window.py b/seyfert/gui/interface_window.py
index 319a3ae..740a5de 100644
--- a/seyfert/gui/interface_window.py
+++ b/seyfert/gui/interface_window.py
@@ -204,7 +204,7 @@ class GUIFileInterface:
                     fiducial = float(opts[key].text())
                     is_free_parameter = par_name != 'cIA' and include_IA
                     par_dict = dict(name=par_name, fiducial=fiducial, kind='NuisanceParameter', units='None',
-                                    probe=probe_name, is_free_parameter=is_free_parameter)
+                                    probe=ProbeName(probe_name).toLong().name, is_free_parameter=is_free_parameter)
                     extra_nuis_params.append(par_dict)
 
         return extra_nuis_params
-- 
2.43.0


From 3d2b04d2cd7f3523c836fe92b6bab393e74a84de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 090/100] fix: use the multipoles file of the configuration
 window only when its box is ticked

---
 seyfert/gui/interface_window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/gui/interface_window.py b/seyfert/gui/interface_window.py
index 740a5de..0c0b857 100644
--- a/seyfert/gui/interface_window.py
+++ b/seyfert/gui/interface_window.py
@@ -153,7 +153,7 @@ class GUIFileInterface:
         }
 
         ell_input_file = opts['ell_external_filename'].text()
-        if ell_input_file:
+        if opts['ell_external_checkbox'].isChecked() and ell_input_file:
             json_opts['ell_external_filename'] = ell_input_file
         else:
             json_opts.update({
-- 
2.43.0


From 98f6d63ad00e4af4c76d474450a56464d869896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 091/100] fix: write the cosmological model under the key of
 the configuration files

---
 seyfert/gui/interface_window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/gui/interface_window.py b/seyfert/gui/interface_window.py
index 0c0b857..9371bb4 100644
--- a/seyfert/gui/interface_window.py
+++ b/seyfert/gui/interface_window.py
@@ -77,7 +77,7 @@ class GUIFileInterface:
                 "f_sky": self.readSurveyFSkyFromUI(),
                 "shot_noise_file": None
             },
-            "cosmology": dict(zip(["model", "flat", "parameters"], self.readCosmologyInfoFromUI())),
+            "cosmology": dict(zip(["model_name", "flat", "parameters"], self.readCosmologyInfoFromUI())),
             "probes": self.buildJSONProbeOpts(),
             "derivative_settings": {
                 "base_stem_disps": self.readSteMDispsFromUI()
-- 
2.43.0


From 1642937a5c9cd21d73e0b86a0805dd9b4600b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 092/100] fix: load a probe whose configuration leaves the bias
 derivative method out

---
 seyfert/config/probe_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index 92d5165..2c3d8d1 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -72,7 +72,7 @@ class ProbeConfig:
         if self.long_name != "Lensing":
             self.bias_init_file = self.getProbeInitFile(probe_dict["bias_file"])
             self.marginalize_bias = probe_dict["marginalize_bias_flag"]
-            self.bias_diff_method = probe_dict["bias_derivative_method"]
+            self.bias_diff_method = probe_dict.get("bias_derivative_method")
 
         self.specific_settings = probe_dict["specific_settings"]
 
-- 
2.43.0


From 4178f9cb0d06a17113e36f64282c8a69c8ceec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 093/100] fix: collect the options of each run by name, not by
 position

---
 seyfert/fisher/results_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index a0ecc28..16412f2 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -68,7 +68,7 @@ class ResultsCollector:
         rows = []
         for i, ws in enumerate(self.ws_list):
             an = FisherAnalysis.fromRundir(ws.run_dir, cosmology=cosmology, res_subdir_name=res_subdir_name)
-            rows.append([*self.fcfg_list[i].synthetic_opts.values(), an])
+            rows.append({**self.fcfg_list[i].synthetic_opts, 'analysis': an})
 
         an_df = pd.DataFrame(rows, columns=[*self.fcfg_list[0].synthetic_opts.keys(), 'analysis'])
 
-- 
2.43.0


From 192276a02b79227075820435ff7efa171a983844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:48 +0000
Subject: [PATCH 094/100] fix: analytic derivatives of the spectroscopic
 off-diagonal elements that are switched off are zero

---
 seyfert/derivatives/differentiator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 5fbd5b8..54d6891 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -203,9 +203,16 @@ class AnalyticClDifferentiator(ClDifferentiator):
                     z_b_edg = self.fiducial_cl.getWeightFunction(probe).z_bin_edges
                     z_grid = self.fiducial_cl.z_array
                     bin_mask = (z_grid >= z_b_edg[k]) & (z_grid <= z_b_edg[k+1])
+                    # off-diagonal elements which are not computed are zero, whatever the bias
+                    offdiag_computed = True
+                    if p1 == p2 == "SpectroscopicGalaxy":
+                        probe_cfg = self.fiducial_cl.forecast_config.probe_configs[p1]
+                        offdiag_computed = probe_cfg.specific_settings["compute_gcsp_cl_offdiag"]
 
                     for myi in range(dc_lij.shape[1]):
                         for myj in range(dc_lij.shape[2]):
+                            if myi != myj and not offdiag_computed:
+                                continue
                             cl_integrand = self.fiducial_cl.getLimberRedshiftIntegrand(myi, myj)
                             if probe == p1:
                                 dc_lij[:, myi, myj] += (1 / bk) * integrate.simps(y=cl_integrand[:,  bin_mask],
-- 
2.43.0


From 9df44501a3ba63a68cf39189514f5d0e5e395d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:35 +0000
Subject: [PATCH 095/100] fix: analytic piecewise derivatives include the
 redshifts beyond the outer bin edges

---
 seyfert/derivatives/differentiator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 54d6891..540b631 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -202,7 +202,10 @@ class AnalyticClDifferentiator(ClDifferentiator):
                     self.fiducial_cl.evaluateLimberApproximatedPowerSpectrum()
                     z_b_edg = self.fiducial_cl.getWeightFunction(probe).z_bin_edges
                     z_grid = self.fiducial_cl.z_array
-                    bin_mask = (z_grid >= z_b_edg[k]) & (z_grid <= z_b_edg[k+1])
+                    # outside the bins, the bias keeps the values of the first and of the last one
+                    z_left = z_b_edg[k] if k > 0 else -np.inf
+                    z_right = z_b_edg[k+1] if k + 2 < len(z_b_edg) else np.inf
+                    bin_mask = (z_grid >= z_left) & (z_grid <= z_right)
                     # off-diagonal elements which are not computed are zero, whatever the bias
                     offdiag_computed = True
                     if p1 == p2 == "SpectroscopicGalaxy":
-- 
2.43.0


From 2a2376689179404efd038d6e7bb3916ddd655695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 096/100] fix: marginalizing an analysis no longer alters
 matrices it shares

FisherAnalysis.marginalizeFishers marginalized in place, so doing it on the result of
getSubsetAnalysis, or after useBaseFishers, also changed the original analysis (whose
errors were left as they were), respectively the base matrices.
---
 seyfert/fisher/fisher_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 31c2205..3e23c80 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -200,7 +200,8 @@ class FisherAnalysis:
             if missing_pars:
                 logger.warning(f"not all {params} belong to Fisher {key}, marginalizing only over "
                                f"{to_marg_pars}")
-            self.fisher_matrices[key].marginalizeParameters(params=to_marg_pars, ret_copy=False)
+            # the matrices may be shared with other analyses, or with the base ones, which must keep theirs
+            self.fisher_matrices[key] = self.fisher_matrices[key].marginalizeParameters(params=to_marg_pars)
 
     def useBaseFishers(self):
         if self.base_fishers is None:
-- 
2.43.0


From 01e029b4c8118173a865485d34ceba119fca97b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 097/100] fix: batch jobs can log into directories with spaces
 in their names

---
 seyfert/main/bsub_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index 60b8ff5..c059194 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -2,6 +2,7 @@ from typing import List, ByteString, Union, Tuple
 import logging
 import datetime
 import re
+import shlex
 import pandas as pd
 import subprocess as sp
 import time
@@ -81,7 +82,7 @@ class BsubInterface:
     def buildBsubOptsString(self, err, out):
         cli_args = {}
         cli_args.update(self.bsub_opts)
-        cli_args.update({"-e": err, "-o": out})
+        cli_args.update({"-e": shlex.quote(str(err)), "-o": shlex.quote(str(out))})
 
         R_spec = self.buildResourceSpecString()
         opts_str = ' '.join([f"{key} {value}" for key, value in cli_args.items()]) + f' {R_spec}'
-- 
2.43.0


From 121e9b7782da99bc92878690aa9cb62d4dbc237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:37 +0000
Subject: [PATCH 098/100] fix: result jobs are told directories with spaces in
 their names

---
 bin/evaluate_final_results | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/evaluate_final_results b/bin/evaluate_final_results
index 5a070ed..d435e2e 100755
--- a/bin/evaluate_final_results
+++ b/bin/evaluate_final_results
@@ -2,6 +2,7 @@
 
 from typing import Union, List
 import argparse
+import shlex
 import time
 import logging
 from pathlib import Path
@@ -48,7 +49,7 @@ def execute_in_batch(args: "argparse.Namespace", input_rundirs: "List[Union[str,
     job_ids = []
     for rundir in input_rundirs:
         args_dict['input_rundirs'] = str(rundir)
-        arguments_str = " ".join([f"--{key} {value}" for key, value in args_dict.items()])
+        arguments_str = " ".join([f"--{key} {shlex.quote(str(value))}" for key, value in args_dict.items()])
         cmd_to_execute = f"evaluate_final_results {arguments_str}"
         logs_path = Path(rundir) / args.outdir_name / "logs"
         logs_path.mkdir(exist_ok=True, parents=True)
-- 
2.43.0


From 9dafe659f4591130b78766c94cf2e84cca51fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:17 +0000
Subject: [PATCH 099/100] fix: testing the submission of result jobs does not
 wait for jobs nobody submitted

---
 bin/evaluate_final_results | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/evaluate_final_results b/bin/evaluate_final_results
index d435e2e..eb87516 100755
--- a/bin/evaluate_final_results
+++ b/bin/evaluate_final_results
@@ -57,7 +57,7 @@ def execute_in_batch(args: "argparse.Namespace", input_rundirs: "List[Union[str,
                                 logs_start_str="final_results")
         job_ids.append(job_id)
 
-    do_wait = not args.dont_wait_for_batch
+    do_wait = not args.dont_wait_for_batch and not args.test
     if do_wait:
         bsub.waitForJobsToComplete(job_ids, check_time_resolution_secs=10)
 
-- 
2.43.0


From 93b0dfb75cd7064137fd063a393177db8a93ef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:30 +0000
Subject: [PATCH 100/100] fix: keep the description of a parameter when it is
 saved

---
 seyfert/cosmology/parameter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/cosmology/parameter.py b/seyfert/cosmology/parameter.py
index 1ff92d6..27dded9 100644
--- a/seyfert/cosmology/parameter.py
+++ b/seyfert/cosmology/parameter.py
@@ -84,6 +84,8 @@ class PhysicalParameter:
         }
         if self.is_nuisance:
             data['probe'] = self.probe
+        if self.description:
+            data['description'] = self.description
 
         return data
 
-- 
2.43.0

