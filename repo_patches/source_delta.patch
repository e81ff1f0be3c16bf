From 78f402f669e6c986b6acacf3d083d26ab78aa815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 01/31] fix: birth-death events were reversed with recalculated
 probabilities

The events are (duplicated, killed) tuples. With recalculate-probabilities a
walker with positive rate was duplicated instead of killed and vice versa.
---
 bdld/actions/birth_death.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 690140b..67a0428 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -208,10 +208,10 @@ class BirthDeath(Action):
                 if rand[i] <= prob:
                     rand_other = self.random_other(num_part, i)
                     if beta[i] > 0:
-                        curr_event = (i, rand_other)
-                        self.stats.kill_count += 1
-                    elif beta[i] < 0:
                         curr_event = (rand_other, i)
+                        self.stats.kill_count += 1
+                    else:  # beta[i] < 0
+                        curr_event = (i, rand_other)
                         self.stats.dup_count += 1
                     self.perform_moves([curr_event])
                     event_list.append(curr_event)
-- 
2.43.0


From a9d7fb660ba6de982893b8a6fb3ff8c14e634ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 02/31] fix: new histograms contained a count at the origin

The bins were created by histogramming one artificial value at 0, which stayed in the counts.
---
 bdld/histogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/histogram.py b/bdld/histogram.py
index b2f86a9..dfb7432 100644
--- a/bdld/histogram.py
+++ b/bdld/histogram.py
@@ -40,9 +40,9 @@ class Histogram(grid.Grid):
         self.stepsizes = grid.stepsizes_from_npoints(ranges, [n + 1 for n in n_bins])
         self.histo_ranges = ranges
         self.n_dim = len(ranges)
-        # create bins from arbitrary value, there doesn't seem to be a function doing it
+        # create bins from empty data, there doesn't seem to be a function doing it
         self.data, self.bins = np.histogramdd(
-            np.zeros((1, len(self.n_points))),
+            np.empty((0, len(self.n_points))),
             bins=self.n_points,
             range=self.histo_ranges,
         )
-- 
2.43.0


From 3cf000ca0d372b38e8b2c9ae0d63bbb34d6b3639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 03/31] fix: histogram lost or double counted data at the end
 of the simulation

The data to add was derived from the last write of the trajectories. The last
block was therefore added twice if the number of steps is a multiple of the
write-stride, the remainder was not added at all if it is not and the
trajectories are written, and the stride was not kept across blocks if they
are not written. Track the last update in the histogram action instead.
---
 bdld/actions/histogram_action.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bdld/actions/histogram_action.py b/bdld/actions/histogram_action.py
index e616625..f64a92e 100644
--- a/bdld/actions/histogram_action.py
+++ b/bdld/actions/histogram_action.py
@@ -95,6 +95,7 @@ class HistogramAction(Action):
                 f"Saving histogram every {self.write_stride} time steps to '{filename}'"
             )
         self.update_stride = traj_action.write_stride
+        self.last_update: int = 0
         print()
 
     def run(self, step: int):
@@ -128,19 +129,16 @@ class HistogramAction(Action):
 
         :param step: current simulation step
         """
-        # take into account that the traj might have been written this step
-        last_write = (
-            self.traj_action.last_write
-            if self.traj_action.last_write != step
-            else self.traj_action.last_write - self.traj_action.write_stride
-        )
-        return get_valid_data(
+        # independent of the writing of the trajectories, which might never happen
+        data = get_valid_data(
             self.traj_action.positions,
             step,
             self.stride,
             1,  # assumes that traj data is stored even if not written
-            last_write,
+            self.last_update,
         )
+        self.last_update = step
+        return data
 
     def write(self, step: int = None):
         """Write histogram to file
-- 
2.43.0


From 4199b739372bb30c49ae1d360b123fa8a77b63a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 04/31] fix: histogram reset kept positions from before the
 reset

If the reset step was not a multiple of the update stride, the positions stored
since the last update were still added to the histogram after the reset.
---
 bdld/actions/histogram_action.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bdld/actions/histogram_action.py b/bdld/actions/histogram_action.py
index f64a92e..00b0823 100644
--- a/bdld/actions/histogram_action.py
+++ b/bdld/actions/histogram_action.py
@@ -112,6 +112,7 @@ class HistogramAction(Action):
         if step in self.reset:
             logging.info("Reset of histogram at step %s", step)
             self.histo.clear()
+            self.last_update = step  # also discard data not yet added
 
     def final_run(self, step: int):
         """Same as run without stride checks
-- 
2.43.0


From e6b22bea6c0ffd305502d39fccfd5290154d99e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 05/31] fix: old or uninitialized rows were written if there
 was no new data

If the final step was less than one stride after the last write at the end of
the data array, all rows of the delta-f and particle-distribution data were
written again (or the uninitialized array if nothing had been stored yet).
---
 bdld/actions/action.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/actions/action.py b/bdld/actions/action.py
index 8ae81e7..8b1cb60 100644
--- a/bdld/actions/action.py
+++ b/bdld/actions/action.py
@@ -63,7 +63,8 @@ def get_valid_data(
     :param update_stride: number of time steps between data points
     :param last_write: when the data was last written (needs to be less than write_stride ago)
     """
-    if step == last_write:  # manual check because already_written is 0 due to modulo
+    # manual check for no new data because already_written can be 0 due to modulo
+    if step // update_stride == last_write // update_stride:
         return data[:0]  # empty view
 
     write_stride = data.shape[0] * update_stride  # wrapping time of data
-- 
2.43.0


From 3f69b95d2df041f7e4f520504b5ab06e000fbc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 06/31] fix: delta-f could not be used in more than one
 dimension

The masks of the states are flat arrays and were always rejected by the
comparison with the shape of the FES.
---
 bdld/actions/delta_f_action.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 45bb8e0..9da568e 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -140,8 +140,8 @@ class DeltaFAction(Action):
 
 
 def check_mask_shapes(masks: List[np.ndarray], fes: np.ndarray) -> None:
-    """Check if the shape of all masks is equal to the shape of the FES"""
-    if any(mask.shape != fes.shape for mask in masks):
+    """Check if the shape of all masks is equal to the shape of the (flattened) FES"""
+    if any(mask.shape not in (fes.shape, (fes.size,)) for mask in masks):
         raise ValueError("Shapes of mask not equal to FES shape")
 
 
@@ -158,7 +158,7 @@ def calculate_delta_f(fes: np.ndarray, kt: float, masks: List[np.ndarray]):
     :raises IndexError: if the dimensions of the FES and any of the masks do not match
     """
     probabilities = np.exp(-fes / float(kt)).reshape((-1))
-    state_probs = [np.sum(probabilities[m]) for m in masks]
+    state_probs = [np.sum(probabilities[m.reshape((-1))]) for m in masks]
     delta_f = [
         -kt * np.log(state_probs[i] / state_probs[0])
         for i in range(1, len(state_probs))
-- 
2.43.0


From 0cbc9e5b0e33f4c25e48e54a6a1163bb0331fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 07/31] fix: points of 3d grids were not in row-major order

They did not match the order of the grid data.
---
 bdld/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 637f5b3..137d140 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -145,7 +145,7 @@ class Grid:
 
     def points(self) -> np.ndarray:
         """Return all grid points as a array of shape (n_points, dim) in row-major order"""
-        return np.array(np.meshgrid(*self.axes())).T.reshape(
+        return np.stack(np.meshgrid(*self.axes(), indexing="ij"), axis=-1).reshape(
             np.prod(self.n_points), self.n_dim
         )
 
-- 
2.43.0


From ec5141a035f7d8a8ce69a6f07d20d9c7ffc84037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 08/31] fix: upper limit of potential dimensions was not
 checked

---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 1b41d9c..fa4e435 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -121,7 +121,7 @@ class Input:
         lambda lst: all(x > 0 for x in lst), "all values must be greater than zero"
     )
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
-    at_most_3dim = Condition(lambda x: x > 0 & x < 4, "must be between 1 and 3")
+    at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
     # @staticmethod
     # def match_dimensions(n_dim: int) -> Condition:
-- 
2.43.0


From 74c7aba35e6367889b84a5b6de4e5d6547f84723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 09/31] fix: invalid values in lists were not reported as
 option error

---
 bdld/inputparser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index fa4e435..1788fea 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -91,16 +91,20 @@ class InputOption:
                 val = section.getint(self.key)
             if self.keytype == bool:
                 val = section.getboolean(self.key)
+            # parsing of lists is a bit more complicated
+            if isinstance(self.keytype, list):
+                val = section.get(self.key)
+                val = [self.keytype[0](x) for x in val.split(",")]
         except ValueError as e:
+            if isinstance(self.keytype, list):
+                type_name = f"list of {self.keytype[0].__name__}"
+            else:
+                type_name = self.keytype.__name__
             raise OptionError(
-                f"could not be converted to {self.keytype.__name__}",
+                f"could not be converted to {type_name}",
                 self.key,
                 section.name,
             ) from e
-        # parsing of lists is a bit more complicated
-        if isinstance(self.keytype, list):
-            val = section.get(self.key)
-            val = [self.keytype[0](x) for x in val.split(",")]
         if self.condition:
             if not self.condition.function(val):
                 raise OptionError(self.condition.desc, self.key, section.name)
-- 
2.43.0


From 9e6e440e89c3076694d566afffdafeb4b18b3927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 10/31] fix: missing histogram or fes sections were not
 reported as section error

---
 bdld/inputparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 1788fea..f58537d 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -338,7 +338,7 @@ class Input:
     def parse_fes(self, section: configparser.SectionProxy) -> None:
         """Define and parse the fes section"""
         if not self.histogram:
-            raise configparser.NoSectionError("histogram")
+            raise SectionError("histogram")
         options = [
             InputOption("kt", float, True, Input.positive),
             InputOption("stride", int, False, Input.positive),
@@ -355,7 +355,7 @@ class Input:
     def parse_delta_f(self, section: configparser.SectionProxy) -> None:
         """Define and parse if delta f should be calculated section"""
         if not self.fes:
-            raise configparser.NoSectionError("fes")
+            raise SectionError("fes")
         options = [
             InputOption("stride", int, False, Input.positive),
             InputOption("filename", str, False),
-- 
2.43.0


From 5e0acaca02b1fa2415916b04064f72ca025bb6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 11/31] fix: unknown approximation variants were not reported
 as option error

---
 bdld/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/main.py b/bdld/main.py
index 5e4e45f..25027be 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -241,9 +241,9 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         if options[key]:
             try:
                 approx_variant = ApproxVariant.from_str(options[key])
-            except KeyError as err:
+            except TypeError as err:
                 e = "The specified {} could not be understood".format(key)
-                raise inputparser.OptionError(e, "birth-death", key) from err
+                raise inputparser.OptionError(e, key, "birth-death") from err
             return approx_variant
         return None
 
-- 
2.43.0


From 39381dbf684ea1eec57566c5877f630f1bcca9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 12/31] fix: seed 0 was ignored by the birth-death action

---
 bdld/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 25027be..4fd85de 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -267,7 +267,7 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         options["recalculate-probabilities"],
         approx_variant,
         eq_density,
-        options["seed"] + 1000 if options["seed"] else None,
+        options["seed"] + 1000 if options["seed"] is not None else None,
         options["stats-stride"],
         options["stats-filename"],
     )
-- 
2.43.0


From f2d17b26246d20f692be1cef56040d7c97e47e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 13/31] fix: periodic boundary condition left far away
 particles outside

If a particle moved further than the potential range in a single step, it was
still outside after moving it by one range.
---
 bdld/potential/potential.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bdld/potential/potential.py b/bdld/potential/potential.py
index cd7d69a..f084d87 100644
--- a/bdld/potential/potential.py
+++ b/bdld/potential/potential.py
@@ -174,6 +174,10 @@ class Potential:
         """
         for i, x in enumerate(pos):
             if x < self.ranges[i][0]:
-                pos[i] += self.ranges[i][1] - self.ranges[i][0]
+                pos[i] = self.ranges[i][1] - (self.ranges[i][1] - x) % (
+                    self.ranges[i][1] - self.ranges[i][0]
+                )
             elif x > self.ranges[i][1]:
-                pos[i] -= self.ranges[i][1] - self.ranges[i][0]
+                pos[i] = self.ranges[i][0] + (x - self.ranges[i][0]) % (
+                    self.ranges[i][1] - self.ranges[i][0]
+                )
-- 
2.43.0


From f4e2689e5122b73f142fb3df0d3b0e3fd8f03b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 14/31] fix: scaling factor of Mueller-Brown potential affected
 all instances

The module level coefficients were changed, so all existing and later created
instances were scaled as well.
---
 bdld/potential/mueller_brown.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 774c08f..3da3a58 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -45,9 +45,7 @@ class MuellerBrownPotential(Potential):
         self.n_dim = 2
         self.ranges = [(-1.5, 1.5), (-0.5, 2.5)]
         self.scaling_factor = scaling_factor or 1.0
-        if scaling_factor:
-            global A
-            A *= self.scaling_factor
+        self.A = A * self.scaling_factor
 
     def __str__(self) -> str:
         """Give out coefficients"""
@@ -72,12 +70,12 @@ class MuellerBrownPotential(Potential):
                 + b[i] * (x - x0[i]) * (y - y0[i])
                 + c[i] * (y - y0[i]) ** 2
             )
-            pot += A[i] * exp_tmp1
+            pot += self.A[i] * exp_tmp1
             force[0] += (
-                -A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
             )
             force[1] += (
-                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
             )
         pot += pot_shift
         return (pot, force)
@@ -92,7 +90,7 @@ class MuellerBrownPotential(Potential):
         x = pos[0]
         y = pos[1]
         for i in range(4):
-            pot += A[i] * np.exp(
+            pot += self.A[i] * np.exp(
                 a[i] * (x - x0[i]) ** 2
                 + b[i] * (x - x0[i]) * (y - y0[i])
                 + c[i] * (y - y0[i]) ** 2
@@ -116,9 +114,9 @@ class MuellerBrownPotential(Potential):
                 + c[i] * (y - y0[i]) ** 2
             )
             force[0] += (
-                -A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
             )
             force[1] += (
-                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
             )
         return force
-- 
2.43.0


From 5f32cf2e726cec29cf2f6de7cdc91c24939b4128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 15/31] fix: inconsistent dimensions of states were not
 detected

---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index f58537d..ee7ffc1 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -472,7 +472,7 @@ def min_max_to_ranges(
     try:
         n_dim = len(min_list[0])  # TypeError if not list
         for i, _ in enumerate(min_list):
-            if len(min_list[i]) != len(max_list[i]) != n_dim:
+            if not len(min_list[i]) == len(max_list[i]) == n_dim:
                 raise ValueError(f"Dimensions of min/max {i} are inconsistent")
     except TypeError:  # elements are not lists
         for min_max_i in min_list + max_list:
-- 
2.43.0


From 275cdb17d57247f2e17df770e1a1dea36b3fe18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 16/31] fix: exact fractions of particles could be rounded down

E.g. 49 particles equally distributed on 49 positions were all put on the first.
---
 bdld/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 4fd85de..f4f2352 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -205,7 +205,10 @@ def init_particles(options: Dict, ld: LdType) -> None:
         normalized_fractions = np.array(options["fractions"]) / np.sum(
             options["fractions"]
         )
-        counts = [int(frac * options["number"]) for frac in normalized_fractions]
+        # round to remove floating point errors before cutting off
+        counts = [
+            int(round(frac * options["number"], 9)) for frac in normalized_fractions
+        ]
         counts[0] += options["number"] - np.sum(counts)  # rounding offset
         init_pos_choices = cast(
             List[List[float]], inputparser.get_all_numbered_values(options, "pos")
-- 
2.43.0


From d3a4931bf48e47d865fcf5caff6ff5e001a6fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 17/31] fix: header of delta-f and particle-distribution files
 lacked the first column

---
 bdld/actions/delta_f_action.py        | 2 +-
 bdld/actions/particle_distribution.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 9da568e..ef57127 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -82,7 +82,7 @@ class DeltaFAction(Action):
             if ref:
                 for i, val in enumerate(self.ref_values):
                     constants[f"ref_{fields[i]}"] = val
-            initialize_file(self.filename, fields, constants)
+            initialize_file(self.filename, ["time"] + fields, constants)
             stride_str = (
                 f"of every {make_ordinal(self.stride)} time step "
                 if self.stride
diff --git a/bdld/actions/particle_distribution.py b/bdld/actions/particle_distribution.py
index da5bc1d..2a3af7b 100644
--- a/bdld/actions/particle_distribution.py
+++ b/bdld/actions/particle_distribution.py
@@ -67,7 +67,7 @@ class ParticleDistributionAction(Action):
         # writing
         self.filename = filename
         if self.filename:
-            fields = [f"n_particles_{i}" for i in range(len(self.states))]
+            fields = ["timestep"] + [f"n_particles_{i}" for i in range(len(self.states))]
             constants = OrderedDict()  # add state ranges to file header
             for i, state in enumerate(self.states):
                 constants[f"state_{i}"] = str(state)
-- 
2.43.0


From 7635d0a301aecafe873b756b042a8ad8c07dfa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:22 +0000
Subject: [PATCH 18/31] fix: walkers with zero rate were not counted as
 attempts with recalculated probabilities

---
 bdld/actions/birth_death.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 67a0428..8bf684f 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -201,7 +201,7 @@ class BirthDeath(Action):
             for i in particle_indices:
                 if beta[i] > 0:
                     self.stats.kill_attempts += 1
-                if beta[i] < 0:
+                else:
                     self.stats.dup_attempts += 1
 
                 prob = 1 - np.exp(-np.abs(beta[i]) * self.dt * self.rate_fac)
-- 
2.43.0


From 3ee83757fae022e620e8724b1a11b2977c359f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:22 +0000
Subject: [PATCH 19/31] fix: grids from stepsizes were shrunk even if the
 stepsize fits exactly

---
 bdld/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 137d140..f9864a2 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -310,7 +310,8 @@ def from_stepsizes(
             stepsizes = [stepsizes] * grid.n_dim
     grid.stepsizes = copy.deepcopy(stepsizes)
     for i, r in enumerate(ranges):
-        n_points_tmp = int(np.ceil((r[1] - r[0]) / stepsizes[i])) + 1 - int(shrink)
+        n_steps = (r[1] - r[0]) / stepsizes[i]
+        n_points_tmp = int(np.floor(n_steps) if shrink else np.ceil(n_steps)) + 1
         grid.ranges.append((float(r[0]), r[0] + stepsizes[i] * (n_points_tmp - 1)))
         grid.n_points.append(n_points_tmp)
     return grid
-- 
2.43.0


From 81051f1440b0ba5e530781a62a78f936f294c316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:22 +0000
Subject: [PATCH 20/31] fix: coeffs-file could not be used for one-dimensional
 potentials

It is documented as alternative to coeffs. Specifying neither is now reported as option error.
---
 bdld/inputparser.py | 3 ++-
 bdld/main.py        | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index ee7ffc1..3ab0bc1 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -217,7 +217,8 @@ class Input:
                 options = [
                     type_option,
                     n_dim_option,
-                    InputOption("coeffs", [float], False),
+                    InputOption("coeffs", [float], "coeffs-file" not in section),
+                    InputOption("coeffs-file", str, False),
                     InputOption("min", float, True),
                     InputOption("max", float, True),
                 ]
diff --git a/bdld/main.py b/bdld/main.py
index f4f2352..62b3bbd 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -128,9 +128,12 @@ def setup_potential(options: Dict) -> Potential:
     if options["type"] == "polynomial":
         if options["n_dim"] == 1:
             ranges = [(options["min"], options["max"])]
-            pot: Potential = potential.polynomial.PolynomialPotential(
-                options["coeffs"], ranges
-            )
+            coeffs = options["coeffs"]
+            if coeffs is None:
+                coeffs = potential.polynomial.coefficients_from_file(
+                    options["coeffs-file"], options["n_dim"]
+                )
+            pot: Potential = potential.polynomial.PolynomialPotential(coeffs, ranges)
         else:
             ranges = list(zip(options["min"], options["max"]))
             coeffs = potential.polynomial.coefficients_from_file(
-- 
2.43.0


From 788d44d02e3f646db8ae51bd32951b4b6a296fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:22 +0000
Subject: [PATCH 21/31] fix: coefficient files with a single row could not be
 read

---
 bdld/potential/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/potential/polynomial.py b/bdld/potential/polynomial.py
index dc5279e..32b75fb 100644
--- a/bdld/potential/polynomial.py
+++ b/bdld/potential/polynomial.py
@@ -96,7 +96,7 @@ def coefficients_from_file(filename: str, n_dim: int) -> np.ndarray:
     :param filename: path to file holding the coefficients
     :param n_dim: dimensions of potential
     """
-    file_data = np.genfromtxt(filename)
+    file_data = np.atleast_2d(np.genfromtxt(filename))
 
     # highest polynomial order per dimension
     shape = [int(max(file_data[:, i])) + 1 for i in range(n_dim)]
-- 
2.43.0


From 25dd3f5b62d8a45613360fd57ff41d0030f903c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:22 +0000
Subject: [PATCH 22/31] fix: three-dimensional grids (histogram, fes) were
 silently not written

---
 bdld/grid.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bdld/grid.py b/bdld/grid.py
index f9864a2..17c88d6 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -199,6 +199,16 @@ class Grid:
                 newline="\n",
                 comments="",
             )
+        elif self.n_dim == 3:
+            np.savetxt(
+                filename,
+                np.c_[self.points(), self.data.flatten()],
+                fmt=fmt,
+                header=header,
+                delimiter=" ",
+                newline="\n",
+                comments="",
+            )
         elif self.n_dim == 2:
             write_2d_sliced_to_file(
                 filename,
-- 
2.43.0


From e2f5a3e380017a379264ac12623c7bdd6b6aed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:22 +0000
Subject: [PATCH 23/31] fix: kt option of the fes section was ignored

---
 bdld/actions/delta_f_action.py | 4 ++--
 bdld/actions/fes_action.py     | 4 +++-
 bdld/main.py                   | 1 +
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index ef57127..3929299 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -67,8 +67,8 @@ class DeltaFAction(Action):
         else:  # just store one data set
             self.delta_f = np.empty((len(self.masks)))
 
-        # copy temp and timestep from LD
-        self.kt = self.fes_action.histo_action.traj_action.ld.kt
+        # copy temp from FES and timestep from LD
+        self.kt = self.fes_action.kt
         self.dt = self.fes_action.histo_action.traj_action.ld.dt
 
         if ref:
diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index c3df662..0c242b3 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -41,6 +41,7 @@ class FesAction(Action):
         plot_domain: Optional[Tuple[float, float]] = None,
         plot_title: str = None,
         ref: Optional[np.ndarray] = None,
+        kt: Optional[float] = None,
     ) -> None:
         """Set up fes calculation for a Histogram
 
@@ -59,6 +60,7 @@ class FesAction(Action):
         :param plot_filename: filename for plot, optional
         :param plot_domain: specify domain for plots, optional
         :param ref: reference fes for plot, optional
+        :param kt: thermal energy to use, defaults to the one of the simulation
         :raise ValueError: if a write_stride but no stride is passed
         :raise ValueError: if a write_stride but no filename is passed
         :raise ValueError: if a plot_stride but no stride is passed
@@ -66,7 +68,7 @@ class FesAction(Action):
         """
         print("Setting up FES calculation for the histogram\n" + "Parameters:")
         self.histo_action = histo_action
-        self.kt = self.histo_action.traj_action.ld.kt
+        self.kt = kt or self.histo_action.traj_action.ld.kt
         print(f"  kt = {self.kt}")
         # set up grid by running analysis to have dimensions and allow checks on shape
         self.fes = calculate_fes(self.histo_action.histo, self.kt)
diff --git a/bdld/main.py b/bdld/main.py
index 62b3bbd..46cc488 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -352,6 +352,7 @@ def setup_fes(options: Dict, histo_action: HistogramAction) -> FesAction:
         options["plot-domain"],
         options["plot-title"],
         ref,
+        options["kt"],
     )
 
 
-- 
2.43.0


From bc996cd65e821beb9b29be17fb9f6f9d21f31a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:22 +0000
Subject: [PATCH 24/31] fix: unknown boundary conditions were silently ignored

---
 bdld/inputparser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 3ab0bc1..66704c4 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -242,7 +242,14 @@ class Input:
                 "type",
                 section.name,
             )
-        options.append(InputOption("boundary-condition", str, False))
+        boundary_conditions = ["reflective", "periodic"]
+        allowed_boundary_condition = Condition(
+            lambda x: x in boundary_conditions,
+            f"must be one of {boundary_conditions}",
+        )
+        options.append(
+            InputOption("boundary-condition", str, False, allowed_boundary_condition)
+        )
         self.potential = self.parse_section(section, options)
 
     def parse_particles(self, section: configparser.SectionProxy) -> None:
-- 
2.43.0


From dc165a2d14f276b39054c1214214de11a8e55f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:22 +0000
Subject: [PATCH 25/31] fix: axes of two-dimensional FES plots were swapped

---
 bdld/actions/fes_action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index 0c242b3..929ebbc 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -253,7 +253,7 @@ def plot_fes(
             vmin = None
             vmax = None
         img = ax.imshow(
-            fes,
+            fes.T,  # first index of image is the vertical axis
             origin="lower",
             extent=(axes[0][0], axes[0][-1], axes[-1][0], axes[-1][-1]),
             vmin=vmin,
-- 
2.43.0


From 4f2898d641758aa668dc1064dd82ddedae21b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:02 +0000
Subject: [PATCH 26/31] fix: equilibrium density was nan if the lowest energy
 is far below zero

exp(-E/kT) overflowed, e.g. at low temperature or with a large negative constant in
the potential, which silently turned all birth-death rates into nan
---
 bdld/potential/potential.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/potential/potential.py b/bdld/potential/potential.py
index f084d87..93bdb0e 100644
--- a/bdld/potential/potential.py
+++ b/bdld/potential/potential.py
@@ -92,7 +92,8 @@ class Potential:
             raise ValueError("Dimension of grid_points do not match potential")
         fes = grid.from_npoints(ranges, grid_points)
         fes.set_from_func(self.energy)
-        prob = np.exp(-fes / kt)
+        # energies relative to the minimum so that the exponential cannot overflow
+        prob = np.exp((fes - np.min(fes.data)) / -kt)
         # normalize with volume element from stepsizes
         prob /= np.sum(prob.data) * np.prod(prob.stepsizes)
         return prob
-- 
2.43.0


From 73e48c2c309f1f28826bd771b108d9d4b5643baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:34 +0000
Subject: [PATCH 27/31] fix: additive correction was nan if the density
 vanishes somewhere on the grid

0 * log(x / 0) in the average (e.g. at low temperature) turned the correction and thus
all birth-death rates into nan
---
 bdld/actions/birth_death.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 8bf684f..90503d4 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -529,8 +529,11 @@ def calc_additive_correction(
         dens_smaller = conv.copy_empty()
         dens_smaller.data = eq_density.interpolate(dens_smaller.points(), "linear")
         eq_density = dens_smaller
-    log_term = np.log(conv / eq_density)
-    integral_term = nd_trapz(log_term.data * eq_density.data, conv.stepsizes)
+    log_term = np.log(conv) - np.log(eq_density)  # the ratio itself could overflow
+    # the integrand vanishes where the density is numerically zero (0 * inf)
+    integrand = log_term.data * eq_density.data
+    integrand[eq_density.data == 0] = 0.0
+    integral_term = nd_trapz(integrand, conv.stepsizes)
     correction = -log_term + integral_term
     if any(n > 101 for n in correction.n_points):
         correction = grid.sparsify(correction, [101] * correction.n_dim, "linear")
-- 
2.43.0


From 85b79a97fb52418f73045e0cfdaedc18623f1670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:19 +0000
Subject: [PATCH 28/31] fix: scaling factor 0 of the Mueller-Brown potential
 was replaced by 1

---
 bdld/potential/mueller_brown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 3da3a58..364b124 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -44,7 +44,7 @@ class MuellerBrownPotential(Potential):
 
         self.n_dim = 2
         self.ranges = [(-1.5, 1.5), (-0.5, 2.5)]
-        self.scaling_factor = scaling_factor or 1.0
+        self.scaling_factor = 1.0 if scaling_factor is None else scaling_factor
         self.A = A * self.scaling_factor
 
     def __str__(self) -> str:
-- 
2.43.0


From 43d9387b5beefc814f7b3528fb5b237711e5c0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:49 +0000
Subject: [PATCH 29/31] fix: plotting the FES with a plot-stride failed because
 the step was appended to the file extension

---
 bdld/actions/fes_action.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index 929ebbc..0d583f5 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -5,6 +5,7 @@ Also holds functions for calculating and plotting the FES
 
 from collections import OrderedDict
 import logging
+import os
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -120,8 +121,9 @@ class FesAction(Action):
             if not self.plot_filename:
                 e = "Specifying a plot_stride but no plot_filename makes no sense"
                 raise ValueError(e)
+            root, ext = os.path.splitext(self.plot_filename)
             print(
-                f"Plotting every {self.plot_stride} time steps to '{self.plot_filename}_{{step}}'"
+                f"Plotting every {self.plot_stride} time steps to '{root}_{{step}}{ext}'"
             )
         print()
 
@@ -170,7 +172,9 @@ class FesAction(Action):
         """
         if self.plot_filename:
             if step:
-                plot_filename = f"{self.plot_filename}_{step}"
+                # keep the extension at the end, it determines the image format
+                root, ext = os.path.splitext(self.plot_filename)
+                plot_filename = f"{root}_{step}{ext}"
                 plot_title = f"{self.plot_title}_{step}"
             else:
                 plot_filename = self.plot_filename
-- 
2.43.0


From 087f03ae5172e9ba955d895fb5ca3d67ae687511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:04 +0000
Subject: [PATCH 30/31] fix: interpolation of grids whose dimensions have very
 different units

---
 bdld/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 17c88d6..ee68852 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -174,7 +174,7 @@ class Grid:
         :param fill_value: value for points outside the grid, defaults to nan
         """
         return sp_interpolate.griddata(
-            self.points(), self.data.flatten(), points, method, fill_value
+            self.points(), self.data.flatten(), points, method, fill_value, rescale=True
         )
 
     def write_to_file(
-- 
2.43.0


From 13e0ea4e53e465d76ae86f383d948b33d635e1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:52 +0000
Subject: [PATCH 31/31] fix: missing start positions are reported by the input
 parser

---
 bdld/inputparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 66704c4..be919a7 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -278,7 +278,8 @@ class Input:
         options.append(init_dist_option)
 
         if init_dist in ["random-pos", "fractions-pos"]:
-            for i, _ in enumerate(get_all_numbered_values(section, "pos")):
+            n_pos = len(get_all_numbered_values(section, "pos"))
+            for i in range(max(n_pos, 1)):  # at least one position is needed
                 options.append(InputOption(f"pos{i+1}", [float], True))
 
         if init_dist == "fractions-pos":
-- 
2.43.0

