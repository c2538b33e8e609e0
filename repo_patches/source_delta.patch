From c6cb8548c95ef1a98193a0ee1692e24eb158e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 001/141] fix: compare reports variables whose dimensions
 differ

A variable with the same values but transposed or differently named (equally
sized) dimensions, or a scalar against an array of that value, was reported
as identical.
---
 improver/utilities/compare.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/improver/utilities/compare.py b/improver/utilities/compare.py
index 91a2368..e7c6467 100644
--- a/improver/utilities/compare.py
+++ b/improver/utilities/compare.py
@@ -257,6 +257,12 @@ def compare_vars(
         var_path = f"{name}/{var}"
         actual_var = actual_ds.variables[var]
         desired_var = desired_ds.variables[var]
+        if actual_var.dimensions != desired_var.dimensions:
+            msg = (
+                f"different variable dimensions - {var_path} "
+                f"{actual_var.dimensions} {desired_var.dimensions}"
+            )
+            reporter(msg)
         compare_attributes(
             var_path, actual_var, desired_var, ignored_attributes, reporter,
         )
-- 
2.43.0


From abf30a12d3f7dfc21da6e0358c8b8f98a7811b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 002/141] fix: compare treats NaN attributes as equal and
 survives array against scalar

A file with a NaN attribute (such as a NaN fill value) was reported as
different from itself, and comparing an array attribute with a scalar one
raised an unrelated error instead of reporting the difference.
---
 improver/utilities/compare.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/improver/utilities/compare.py b/improver/utilities/compare.py
index e7c6467..e938984 100644
--- a/improver/utilities/compare.py
+++ b/improver/utilities/compare.py
@@ -320,14 +320,16 @@ def compare_attributes(
                 f"{type(actual_attr)} {type(desired_attr)}"
             )
             reporter(msg)
-        if isinstance(desired_attr, np.ndarray):
-            if not np.array_equal(actual_attr, desired_attr):
-                msg = (
-                    f"different attribute value {name}/{key} - "
-                    f"{actual_attr} {desired_attr}"
-                )
-                reporter(msg)
-        elif actual_attr != desired_attr:
+        if isinstance(actual_attr, np.ndarray) and isinstance(desired_attr, np.ndarray):
+            attrs_equal = np.array_equal(actual_attr, desired_attr, equal_nan=True)
+        elif isinstance(actual_attr, np.ndarray) or isinstance(desired_attr, np.ndarray):
+            attrs_equal = False
+        else:
+            # a NaN (eg. as fill value) is the same as another NaN
+            attrs_equal = actual_attr == desired_attr or (
+                actual_attr != actual_attr and desired_attr != desired_attr
+            )
+        if not attrs_equal:
             msg = (
                 f"different attribute value {name}/{key} - "
                 f"{actual_attr} {desired_attr}"
-- 
2.43.0


From cf5e6f67d26df43e099e8b9668e7efc99507b4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 003/141] fix: compare reports numeric against string data
 instead of failing

Where the expected data are strings and the actual data numbers, the
numerical closeness test raised a TypeError and no difference was reported.
---
 improver/utilities/compare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/compare.py b/improver/utilities/compare.py
index e938984..5ffa7dd 100644
--- a/improver/utilities/compare.py
+++ b/improver/utilities/compare.py
@@ -370,7 +370,8 @@ def compare_data(
     difference_found = False
     numpy_err_message = ""
     try:
-        if actual_data.dtype.kind in ["b", "O", "S", "U", "V"]:
+        kinds = {actual_data.dtype.kind, desired_data.dtype.kind}
+        if kinds & {"b", "O", "S", "U", "V"}:
             # numpy boolean, object, bytestring, unicode and void types don't
             # have numerical "closeness" so use exact equality for these
             np.testing.assert_equal(actual_data, desired_data, verbose=True)
-- 
2.43.0


From fa33ac72d606930ea75ca7b48b3793df0e596d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 004/141] fix: save cubes of different shapes in one file

The chunk size of the first cube was applied to all cubes of a list whenever
their first two dimensions agreed, so that saving, for example, cubes with 5
and 3 columns, or a cube with an additional trailing dimension, failed.
---
 improver/utilities/save.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/save.py b/improver/utilities/save.py
index 98f3c4c..7634697 100644
--- a/improver/utilities/save.py
+++ b/improver/utilities/save.py
@@ -96,10 +96,10 @@ def save_netcdf(
         # attribute if present.
         cube.attributes.pop("least_significant_digit", None)
 
-    # If all xy slices are the same shape, use this to determine
+    # If all cubes are the same shape, use their xy slices to determine
     # the chunksize for the netCDF (eg. 1, 1, 970, 1042)
     chunksizes = None
-    if len({cube.shape[:2] for cube in cubelist}) == 1:
+    if len({cube.shape for cube in cubelist}) == 1:
         cube = cubelist[0]
         if cube.ndim >= 2:
             xy_chunksizes = [cube.shape[-2], cube.shape[-1]]
-- 
2.43.0


From ec3315ba445163508a2ddae42cc1015818053d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 005/141] fix: apply-mask does not invert the mask unless asked
 to

The default of the option was the non-empty string "False", which is true, so
that the mask was inverted whenever the option was not given.
---
 improver/cli/apply_mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/cli/apply_mask.py b/improver/cli/apply_mask.py
index 84f1c99..d323a54 100644
--- a/improver/cli/apply_mask.py
+++ b/improver/cli/apply_mask.py
@@ -10,7 +10,7 @@ from improver import cli
 
 @cli.clizefy
 @cli.with_output
-def process(*cubes: cli.inputcube, mask_name: str, invert_mask: bool = "False"):
+def process(*cubes: cli.inputcube, mask_name: str, invert_mask: bool = None):
     """
     Applies provided mask to cube data. The mask_name is used to extract the mask cube
     from the input cubelist. The other cube in the cubelist is then masked using the
-- 
2.43.0


From ec78a2c2800310a30335656c1499f11065a7956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 006/141] fix: objects passed as strings between commands can
 be hashed

The hash method always raised a TypeError as it passed itself twice.
---
 improver/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/cli/__init__.py b/improver/cli/__init__.py
index 22fbccf..4dd2fe7 100644
--- a/improver/cli/__init__.py
+++ b/improver/cli/__init__.py
@@ -97,7 +97,7 @@ class ObjectAsStr(str):
 
     def __hash__(self):
         # make sure our hash doesn't clash with normal string hash
-        return super().__hash__(self) ^ hash(type(self))
+        return super().__hash__() ^ hash(type(self))
 
     @staticmethod
     def obj_to_name(obj, cls=None):
-- 
2.43.0


From 7c8342b11b226dab524e2f66c5c869f841f01a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 007/141] fix: complex_to_deg returns angles below 360 degrees

An angle a rounding error below zero, such as that of deg_to_complex(360),
was returned as 360 rather than 0.
---
 improver/utilities/complex_conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/complex_conversion.py b/improver/utilities/complex_conversion.py
index b44ee60..17d2ad8 100644
--- a/improver/utilities/complex_conversion.py
+++ b/improver/utilities/complex_conversion.py
@@ -60,7 +60,8 @@ def complex_to_deg(complex_in: ndarray) -> ndarray:
     angle = np.angle(complex_in, deg=True)
 
     # Convert angles so they are in the range [0, 360)
-    angle = np.mod(np.float32(angle), 360)
+    # (twice, as a tiny negative angle is rounded to 360 in the first instance)
+    angle = np.mod(np.mod(np.float32(angle), 360), 360)
 
     # We don't need 64 bit precision.
     angle = angle.astype(np.float32)
-- 
2.43.0


From 4eef715006c53493b8a115968ad4f7cbe9c5c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 008/141] fix: restore stdout when redirected code fails

---
 improver/utilities/redirect_stdout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/redirect_stdout.py b/improver/utilities/redirect_stdout.py
index 32ef1f8..c2170c3 100644
--- a/improver/utilities/redirect_stdout.py
+++ b/improver/utilities/redirect_stdout.py
@@ -19,5 +19,7 @@ def redirect_stdout(target=None):
     """
     original = sys.stdout
     sys.stdout = target
-    yield
-    sys.stdout = original
+    try:
+        yield
+    finally:
+        sys.stdout = original
-- 
2.43.0


From 102255bee65142fe603d25c485ef58c9b6116a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 009/141] fix: end memory profiling when the profiled function
 fails

The monitoring thread was left running, so that a failing command never
returned under --memprofile.
---
 improver/memprofile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/memprofile.py b/improver/memprofile.py
index 9182033..f82c40c 100644
--- a/improver/memprofile.py
+++ b/improver/memprofile.py
@@ -103,8 +103,10 @@ def memory_profile_decorator(func: Callable, outfile_prefix: str) -> Callable:
 
     def wrapper(*args, **kwargs):
         thread, queue = memory_profile_start(outfile_prefix)
-        results = func(*args, **kwargs)
-        memory_profile_end(queue, thread)
+        try:
+            results = func(*args, **kwargs)
+        finally:
+            memory_profile_end(queue, thread)
         return results
 
     return wrapper
-- 
2.43.0


From ec88449f062706b152c7c994d8727d6b29dd5a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 010/141] fix: memory profiling of functions ending before the
 first sample

If the function ended before the monitoring thread first looked at the queue
the thread failed, leaving no snapshot and tracing switched on.
---
 improver/memprofile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/memprofile.py b/improver/memprofile.py
index f82c40c..4a1d69c 100644
--- a/improver/memprofile.py
+++ b/improver/memprofile.py
@@ -81,6 +81,9 @@ def memory_monitor(queue: Queue, outfile_prefix: str) -> None:
                 print(line, file=fout)
                 old_max = max_rss
         else:
+            if snapshot is None:
+                # stopped before the first sample was taken
+                snapshot = tracemalloc.take_snapshot()
             snapshot.dump("{}_SNAPSHOT".format(outfile_prefix))
             fout.close()
             tracemalloc.stop()
-- 
2.43.0


From da8b40ddcc70ff2086bb56b94e6a822825cc17c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 011/141] fix: truncated normal probabilities far in the right
 tail

---
 .../ensemble_copula_coupling/_scipy_continuous_distns.py     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/improver/ensemble_copula_coupling/_scipy_continuous_distns.py b/improver/ensemble_copula_coupling/_scipy_continuous_distns.py
index c78d212..6fa7a6e 100644
--- a/improver/ensemble_copula_coupling/_scipy_continuous_distns.py
+++ b/improver/ensemble_copula_coupling/_scipy_continuous_distns.py
@@ -133,8 +133,9 @@ class truncnorm_gen(rv_continuous):
 
     def _cdf(self, x, a, b):
         ans = self._get_norms(a, b)
-        _na, _delta = ans[0], ans[4]
-        return (_norm_cdf(x) - _na) / _delta
+        _na, _sa, _delta = ans[0], ans[2], ans[4]
+        # in the right tail the CDFs are all close to one, so use the SFs
+        return np.where(a > 0, _sa - _norm_sf(x), _norm_cdf(x) - _na) / _delta
 
     def _ppf(self, q, a, b):
         # XXX Use _lazywhere...
-- 
2.43.0


From 6b278b8fd168111d3fea41827c3825a56d04b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 012/141] fix: square neighbourhoods at domain edges next to
 areas of ones

---
 improver/nbhood/nbhood.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/improver/nbhood/nbhood.py b/improver/nbhood/nbhood.py
index d69a799..7ac525f 100644
--- a/improver/nbhood/nbhood.py
+++ b/improver/nbhood/nbhood.py
@@ -344,7 +344,6 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
         ystart = xstart = 0
         ystop, xstop = data.shape
         size = data.size
-        extreme = 0
         fill_value = 0
         half_nb_size = self.nb_size // 2
         # For the two extreme values, 0 and 1, find the size and position of the smallest array
@@ -371,9 +370,8 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
                 _xstop = min(data_shape[1], _xstop + half_nb_size)
             _size = (_ystop - _ystart) * (_xstop - _xstart)
             if _size < size:
-                size, extreme, fill_value, ystart, ystop, xstart, xstop = (
+                size, fill_value, ystart, ystop, xstart, xstop = (
                     _size,
-                    _extreme,
                     _fill_value,
                     _ystart,
                     _ystop,
@@ -390,14 +388,21 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
         if size:
             # The subset of data is non-zero in size, so calculate the neighbourhood sums in the
             # subset.
-            data = data[ystart:ystop, xstart:xstop]
-
             # Calculate neighbourhood totals for input data.
             if self.neighbourhood_method == "square":
+                # Sum over the subset and its neighbours, so that the zeros used as
+                # padding only ever stand for points outside the domain.
+                ymin = max(0, ystart - half_nb_size)
+                xmin = max(0, xstart - half_nb_size)
                 data = boxsum(
-                    data, self.nb_size, mode="constant", constant_values=extreme
+                    data[ymin : ystop + half_nb_size, xmin : xstop + half_nb_size],
+                    self.nb_size,
+                    mode="constant",
+                    constant_values=0,
                 )
+                data = data[ystart - ymin : ystop - ymin, xstart - xmin : xstop - xmin]
             elif self.neighbourhood_method == "circular":
+                data = data[ystart:ystop, xstart:xstop]
                 data = correlate(data, self.kernel, mode="nearest")
         else:
             data = untrimmed
-- 
2.43.0


From 222737741009725a035e2a39e3829cd7a5659466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 013/141] fix: reuse masked neighbourhood results only for the
 same lead time, mask and bounds

---
 improver/nbhood/use_nbhood.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/improver/nbhood/use_nbhood.py b/improver/nbhood/use_nbhood.py
index f1c4c33..8826043 100644
--- a/improver/nbhood/use_nbhood.py
+++ b/improver/nbhood/use_nbhood.py
@@ -228,13 +228,22 @@ class ApplyNeighbourhoodProcessingWithAMask(PostProcessingPlugin):
         # Take 2D slices of the input cube for memory issues.
         prev_x_y_slice = None
         for x_y_slice in cube.slices([yname, xname]):
-            if prev_x_y_slice is not None and np.array_equal(
-                prev_x_y_slice.data, x_y_slice.data
+            if (
+                prev_x_y_slice is not None
+                and self.lead_times is None
+                and np.array_equal(prev_x_y_slice.data, x_y_slice.data)
+                and np.array_equal(
+                    ma.getmaskarray(prev_x_y_slice.data),
+                    ma.getmaskarray(x_y_slice.data),
+                )
             ):
                 # Use same result as last time!
                 prev_result = result_slices[-1].copy()
                 for coord in x_y_slice.coords(dim_coords=False):
-                    prev_result.coord(coord).points = coord.points.copy()
+                    prev_coord = prev_result.coord(coord)
+                    prev_coord.points = coord.points.copy()
+                    if coord.has_bounds():
+                        prev_coord.bounds = coord.bounds.copy()
                 result_slices.append(prev_result)
                 continue
             prev_x_y_slice = x_y_slice
-- 
2.43.0


From e2a2251fdd2cee2061d9498bc3b30cc2988b2f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 014/141] fix: recursive filter with masked data keeps NaNs and
 coefficients to itself

---
 improver/nbhood/recursive_filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/nbhood/recursive_filter.py b/improver/nbhood/recursive_filter.py
index a9c391f..57bc2c1 100644
--- a/improver/nbhood/recursive_filter.py
+++ b/improver/nbhood/recursive_filter.py
@@ -371,8 +371,10 @@ class RecursiveFilter(PostProcessingPlugin):
 
             mask_cube = cube_format.copy(data=cube_format.data.mask)
             coeffs_x, coeffs_y = self._update_coefficients_from_mask(
-                coeffs_x, coeffs_y, mask_cube,
+                coeffs_x.copy(), coeffs_y.copy(), mask_cube,
             )
+            # Masked points have no weight, but zero times NaN is still NaN.
+            cube = cube.copy(data=np.ma.filled(cube.data, 0))
 
         padded_coefficients_x, padded_coefficients_y = self._pad_coefficients(
             coeffs_x, coeffs_y
-- 
2.43.0


From 632b27909245e9657a15aea189c5c70e6ce30450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 015/141] fix: orographic smoothing coefficients over flat
 terrain are not NaN

---
 .../generate_orographic_smoothing_coefficients.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py b/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
index 904f74a..d472740 100644
--- a/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
+++ b/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
@@ -134,7 +134,9 @@ class OrographicSmoothingCoefficients(BasePlugin):
 
         scaled_cubes = iris.cube.CubeList()
         for cube in cubes:
-            scaled_data = (abs(cube.data) - cube_min) / (cube_max - cube_min)
+            scaled_data = abs(cube.data) - cube_min
+            if cube_max > cube_min:
+                scaled_data = scaled_data / (cube_max - cube_min)
             scaled_data = (
                 scaled_data
                 * (
-- 
2.43.0


From b37e650f80ae97b3d4f1675992b29c173825cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 016/141] fix: pad_coord refuses uneven increments wherever
 they are

---
 improver/utilities/pad_spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/pad_spatial.py b/improver/utilities/pad_spatial.py
index 7a381b6..3bcf5a5 100644
--- a/improver/utilities/pad_spatial.py
+++ b/improver/utilities/pad_spatial.py
@@ -48,7 +48,7 @@ def pad_coord(coord: Coord, width: int, method: str) -> Coord:
     """
     orig_points = coord.points
     increment = orig_points[1:] - orig_points[:-1]
-    if np.isclose(np.sum(np.diff(increment)), 0):
+    if np.allclose(increment, increment[0], rtol=1.0e-3, atol=0.0):
         increment = increment[0]
     else:
         msg = "Non-uniform increments between grid points: {}.".format(increment)
-- 
2.43.0


From 6a36a14510e81bd361fcef26f5f8adb8b516b9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 017/141] fix: distances between grid squares leave the cube's
 coordinates alone

---
 improver/utilities/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/spatial.py b/improver/utilities/spatial.py
index 5655e8e..93fea4e 100644
--- a/improver/utilities/spatial.py
+++ b/improver/utilities/spatial.py
@@ -458,8 +458,8 @@ class DistanceBetweenGridSquares(BasePlugin):
             Boolean representing whether the cube has x and y axes defined in a distance unit.
         """
         try:
-            cube.coord(axis="x").convert_units("m")
-            cube.coord(axis="y").convert_units("m")
+            cube.coord(axis="x").copy().convert_units("m")
+            cube.coord(axis="y").copy().convert_units("m")
             return True
         except (
             TypeError,
-- 
2.43.0


From 62b93a329ce326e787690a13059684187e875a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 018/141] fix: differences across the meridian keep the mask

---
 improver/utilities/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/spatial.py b/improver/utilities/spatial.py
index 93fea4e..68f5ed1 100644
--- a/improver/utilities/spatial.py
+++ b/improver/utilities/spatial.py
@@ -602,11 +602,13 @@ class DifferenceBetweenAdjacentGridSquares(BasePlugin):
             wrap_around_diff = first_column - last_column
             # Apply wrap-around difference vector to diff array:
             if diff_axis_number == 0:
-                diff_along_axis = np.vstack([diff_along_axis, wrap_around_diff])
+                diff_along_axis = np.ma.vstack([diff_along_axis, wrap_around_diff])
             elif diff_axis_number == 1:
-                diff_along_axis = np.hstack(
+                diff_along_axis = np.ma.hstack(
                     [diff_along_axis, wrap_around_diff.reshape([-1, 1])]
                 )
+            if not np.ma.isMaskedArray(cube.data):
+                diff_along_axis = np.ma.getdata(diff_along_axis)
         return diff_along_axis
 
     def process(self, cube: Cube) -> Tuple[Cube, Cube]:
-- 
2.43.0


From 7c132e503ffa392ea32e3ca4e670410da1871cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 019/141] fix: gradients on projected axes that stride
 negatively have the right sign

---
 improver/utilities/spatial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/spatial.py b/improver/utilities/spatial.py
index 68f5ed1..f148d8d 100644
--- a/improver/utilities/spatial.py
+++ b/improver/utilities/spatial.py
@@ -704,7 +704,10 @@ class GradientBetweenAdjacentGridSquares(PostProcessingPlugin):
         gradients = []
         diffs = DifferenceBetweenAdjacentGridSquares()(cube)
         distances = DistanceBetweenGridSquares()(cube)
-        for diff, distance in zip(diffs, distances):
+        for axis, diff, distance in zip(["x", "y"], diffs, distances):
+            # Distances are not signed for all coordinate systems.
+            (stride,) = np.diff(cube.coord(axis=axis).points[:2])
+            distance.data = np.copysign(distance.data, stride)
             gradient = diff / distance
             grad_cube = self._create_output_cube(gradient, "gradient_of_" + cube.name())
             if self.regrid:
-- 
2.43.0


From ccf33a7cdbc2bf15cef18aa68780f895850f2da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 020/141] fix: masked integer points do not contribute to a
 vicinity maximum

---
 improver/utilities/spatial.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/improver/utilities/spatial.py b/improver/utilities/spatial.py
index f148d8d..9db7f48 100644
--- a/improver/utilities/spatial.py
+++ b/improver/utilities/spatial.py
@@ -747,9 +747,14 @@ def maximum_within_vicinity(
         they're equally likely to have occurred anywhere within the
         vicinity defined using the specified radius.
     """
-    # Value, the negative of which is used to fill masked points, ensuring
-    # that when we take a maximum the masked points do not contribute.
-    fill_value = netCDF4.default_fillvals.get(grid.dtype.str[1:], np.inf)
+    # Value which is used to fill masked points, ensuring that when we take a
+    # maximum the masked points do not contribute.
+    if grid.dtype.kind in "iu":
+        lowest_value = np.iinfo(grid.dtype).min
+    elif grid.dtype.kind == "b":
+        lowest_value = False
+    else:
+        lowest_value = -netCDF4.default_fillvals.get(grid.dtype.str[1:], np.inf)
 
     # Convert the grid_point_radius into a number of points along an edge
     # length, including the central point, e.g. grid_point_radius = 1,
@@ -758,14 +763,14 @@ def maximum_within_vicinity(
     processed_grid = grid.copy()
     if np.ma.is_masked(grid):
         unmasked_grid = grid.data.copy()
-        unmasked_grid[grid.mask] = -fill_value
+        unmasked_grid[grid.mask] = lowest_value
     else:
         unmasked_grid = grid.copy()
     if landmask is not None:
         max_data = np.empty_like(grid)
         for match in (True, False):
             matched_data = unmasked_grid.copy()
-            matched_data[landmask != match] = -fill_value
+            matched_data[landmask != match] = lowest_value
             matched_max_data = maximum_filter(matched_data, size=grid_points)
             max_data = np.where(landmask == match, matched_max_data, max_data)
     else:
-- 
2.43.0


From 8da0fe2e5b1edaf49eafe53034c915d8893db49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 021/141] fix: regridding to points on the last row or column
 of the source grid

---
 improver/regrid/bilinear.py | 99 ++-----------------------------------
 1 file changed, 4 insertions(+), 95 deletions(-)

diff --git a/improver/regrid/bilinear.py b/improver/regrid/bilinear.py
index 6b13018..cc5b0ee 100644
--- a/improver/regrid/bilinear.py
+++ b/improver/regrid/bilinear.py
@@ -86,8 +86,10 @@ def basic_indexes(
     # Calculate input/output offset, expressed in terms of the spacing
     n_lat = (out_latlons[:, 0] - in_latlons[0, 0]) // lat_spacing
     m_lon = (out_latlons[:, 1] - in_latlons[0, 1]) // lon_spacing
-    n_lat = n_lat.astype(int)
-    m_lon = m_lon.astype(int)
+    # Points on the last row or column, or rounded to it, belong to the last grid cell
+    in_lats_size = in_latlons.shape[0] // in_lons_size
+    n_lat = np.clip(n_lat.astype(int), 0, in_lats_size - 2)
+    m_lon = np.clip(m_lon.astype(int), 0, in_lons_size - 2)
 
     # Four surrounding input points for each output point, in a rectangle shape
     index1 = n_lat * in_lons_size + m_lon
@@ -99,99 +101,6 @@ def basic_indexes(
     # note: lat (X) but ordering  (lat0, lon0)(lat0,lon1)....(lat0,lon_last),(lat1,lon0),
     indexes = np.transpose([index1, index2, index3, index4])
 
-    # if identical max latitude and/or longitude between source/target grids,index algorithm
-    # needs change at relevant boundary
-    lat_max_in, lon_max_in = in_latlons.max(axis=0)
-    lat_max_out, lon_max_out = out_latlons.max(axis=0)
-
-    lat_max_equal = np.isclose(lat_max_in, lat_max_out)
-    lon_max_equal = np.isclose(lon_max_in, lon_max_out)
-
-    if lat_max_equal or lon_max_equal:
-        indexes = adjust_boundary_indexes(
-            in_lons_size,
-            lat_max_equal,
-            lon_max_equal,
-            lat_max_in,
-            lon_max_in,
-            out_latlons,
-            indexes,
-        )
-
-    return indexes
-
-
-def adjust_boundary_indexes(
-    in_lons_size: int,
-    lat_max_equal: bool,
-    lon_max_equal: bool,
-    lat_max_in: float,
-    lon_max_in: float,
-    out_latlons: ndarray,
-    indexes: ndarray,
-) -> ndarray:
-    """
-    Adjust surrounding source point indexes for boundary target points.
-    it is required when maximum latitude and logitude are identical between
-    source and target grids.
-
-    Args:
-        in_lons_size:
-            Source grid's longitude dimension.
-        lat_max_equal:
-            Whether maximum latitude is identical between source/targin grids.
-        lon_max_equal:
-            Whether maximum longitude is identical between source/targin grids.
-        lat_max_in:
-            Input grid's maximum latitude.
-        lon_max_in:
-            Input grid's maximum longtitude.
-        out_latlons:
-            Target points's latitude-longitudes.
-        indexes:
-            Updated array of source grid point number for all target grid points.
-
-    Returns:
-        Updated array of source grid point number for all target grid points.
-        Array shape is (total number of target points, 4).
-    """
-    # find a list of target points with its latitude
-    if lat_max_equal:
-        point_lat_max = np.where(np.isclose(out_latlons[:, 0], lat_max_in))[0]
-    if lon_max_equal:
-        point_lon_max = np.where(np.isclose(out_latlons[:, 1], lon_max_in))[0]
-
-    if lon_max_equal and lat_max_equal:
-        point_lat_lon_max_index = np.where(
-            np.isclose(out_latlons[point_lat_max, 1], lon_max_in)
-        )[0]
-
-        # if point_lat_lon_max_index exists, handle it.
-        if point_lat_lon_max_index:
-            point_lat_lon_max = point_lat_max[point_lat_lon_max_index[0]]
-            point_lat_max = np.delete(
-                point_lat_max, np.where(point_lat_max == point_lat_lon_max)[0]
-            )
-            point_lon_max = np.delete(
-                point_lon_max, np.where(point_lon_max == point_lat_lon_max)[0]
-            )
-            indexes[point_lat_lon_max, 2] = indexes[point_lat_lon_max, 0]
-            indexes[point_lat_lon_max, 1] = indexes[point_lat_lon_max, 2] - 1
-            indexes[point_lat_lon_max, 0] = indexes[point_lat_lon_max, 1] - in_lons_size
-            indexes[point_lat_lon_max, 3] = indexes[point_lat_lon_max, 0] + 1
-
-    if lat_max_equal:
-        indexes[point_lat_max, 1] = indexes[point_lat_max, 0]
-        indexes[point_lat_max, 2] = indexes[point_lat_max, 1] + 1
-        indexes[point_lat_max, 0] = indexes[point_lat_max, 1] - in_lons_size
-        indexes[point_lat_max, 3] = indexes[point_lat_max, 0] + 1
-
-    if lon_max_equal:
-        indexes[point_lon_max, 0] = indexes[point_lon_max, 0] - 1
-        indexes[point_lon_max, 1] = indexes[point_lon_max, 1] - 1
-        indexes[point_lon_max, 2] = indexes[point_lon_max, 1] + 1
-        indexes[point_lon_max, 3] = indexes[point_lon_max, 0] + 1
-
     return indexes
 
 
-- 
2.43.0


From fb432194ac42abcfd9c8c510396b599d8518af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 022/141] fix: land-sea aware regridding keeps the cell methods

---
 improver/regrid/grid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/improver/regrid/grid.py b/improver/regrid/grid.py
index 0157aca..342ea70 100644
--- a/improver/regrid/grid.py
+++ b/improver/regrid/grid.py
@@ -352,7 +352,12 @@ def create_regrid_cube(cube_array: ndarray, cube_in: Cube, cube_out: Cube) -> Cu
         Regridded result cube
     """
     # generate a cube based on new data and cube_in
-    cube_v = Cube(cube_array, units=cube_in.units, attributes=cube_in.attributes)
+    cube_v = Cube(
+        cube_array,
+        units=cube_in.units,
+        attributes=cube_in.attributes,
+        cell_methods=cube_in.cell_methods,
+    )
     cube_v.rename(cube_in.standard_name or cube_in.long_name)
     cube_v.var_name = cube_in.var_name
 
-- 
2.43.0


From 7a0322f8370ff8df762c50e50320c76a3b6a1127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 023/141] fix: the mask of percentiles and probabilities was
 taken along the wrong dimension when not leading

---
 .../ensemble_copula_coupling.py                    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index f49fd47..76b5faa 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -336,13 +336,14 @@ class ResamplePercentiles(BasePlugin):
             percentile_coord_name
         ).points
 
+        # Ensure that the percentile dimension is first, so that the
+        # conversion to a 2d array produces data in the desired order.
+        enforce_coordinate_ordering(forecast_at_percentiles, percentile_coord_name)
+
         original_mask = None
         if np.ma.is_masked(forecast_at_percentiles.data):
             original_mask = forecast_at_percentiles.data.mask[0]
 
-        # Ensure that the percentile dimension is first, so that the
-        # conversion to a 2d array produces data in the desired order.
-        enforce_coordinate_ordering(forecast_at_percentiles, percentile_coord_name)
         forecast_at_reshaped_percentiles = convert_cube_data_to_2d(
             forecast_at_percentiles, coord=percentile_coord_name
         )
@@ -618,13 +619,14 @@ class ConvertProbabilitiesToPercentiles(BasePlugin):
         threshold_points = threshold_coord.points
         threshold_name = threshold_coord.name()
 
+        # Ensure that the percentile dimension is first, so that the
+        # conversion to a 2d array produces data in the desired order.
+        enforce_coordinate_ordering(forecast_probabilities, threshold_name)
+
         original_mask = None
         if np.ma.is_masked(forecast_probabilities.data):
             original_mask = forecast_probabilities.data.mask[0]
 
-        # Ensure that the percentile dimension is first, so that the
-        # conversion to a 2d array produces data in the desired order.
-        enforce_coordinate_ordering(forecast_probabilities, threshold_name)
         prob_slices = convert_cube_data_to_2d(
             forecast_probabilities, coord=threshold_name
         )
-- 
2.43.0


From 2e6b575ab81b8dd7d02b7eede312668f0488834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 024/141] fix: capping percentiles by probability failed for a
 single percentile

---
 .../ensemble_copula_coupling.py                       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 76b5faa..13bb2ce 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -703,10 +703,13 @@ class ConvertProbabilitiesToPercentiles(BasePlugin):
             if relation == "above":
                 mask_probability = 1 - mask_probability
 
-            for index, perc in enumerate(percentiles_as_fractions):
-                forecast_at_percentiles[index] = np.ma.masked_where(
-                    mask_probability <= perc, forecast_at_percentiles[index]
-                )
+            percentile_mask = np.stack(
+                [mask_probability <= perc for perc in percentiles_as_fractions]
+            )
+            forecast_at_percentiles = np.ma.masked_where(
+                percentile_mask.reshape(forecast_at_percentiles.shape),
+                forecast_at_percentiles,
+            )
 
         template_cube = next(forecast_probabilities.slices_over(threshold_name))
         template_cube.rename(
-- 
2.43.0


From 05b2a4aa1a9b0084fa1bfa31179575f7c4301933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 025/141] fix: percentiles requested out of order were given
 the values of others

---
 improver/ensemble_copula_coupling/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/ensemble_copula_coupling/utilities.py b/improver/ensemble_copula_coupling/utilities.py
index fbf2287..356cac4 100644
--- a/improver/ensemble_copula_coupling/utilities.py
+++ b/improver/ensemble_copula_coupling/utilities.py
@@ -153,7 +153,9 @@ def create_cube_with_percentiles(
         cubes.append(cube)
     result = cubes.merge_cube()
 
-    # replace data and units
+    # replace data and units, in the ascending order of the merged percentiles
+    if np.any(np.diff(percentiles) < 0):
+        cube_data = cube_data[np.argsort(percentiles)]
     result.data = cube_data
     if cube_unit is not None:
         result.units = cube_unit
-- 
2.43.0


From dff69d5e3c841c28b63f564f7f8e12842845f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 026/141] fix: a truncated normal plugin used twice rescaled
 its bounds twice

---
 improver/ensemble_copula_coupling/ensemble_copula_coupling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 13bb2ce..f53dd25 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -878,6 +878,8 @@ calculate_truncated_normal_crps`,
                 )
             shape_parameters = []
         self.shape_parameters = shape_parameters
+        # The values before rescaling, as the plugin may be used repeatedly.
+        self._unscaled_shape_parameters = shape_parameters
 
     def __repr__(self) -> str:
         """Represent the configured plugin instance as a string."""
@@ -918,7 +920,7 @@ calculate_truncated_normal_crps`,
         """
         if self.distribution.name == "truncnorm":
             rescaled_values = []
-            for value in self.shape_parameters:
+            for value in self._unscaled_shape_parameters:
                 rescaled_values.append((value - location_parameter) / scale_parameter)
             self.shape_parameters = rescaled_values
 
-- 
2.43.0


From f60f8d59f63658a0c8d989152e900f5bee00966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 027/141] fix: a single percentile could not be computed from
 location and scale

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index f53dd25..4d3288f 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1020,7 +1020,9 @@ class ConvertLocationAndScaleParametersToPercentiles(
 
         # Reshape forecast_at_percentiles, so the percentiles dimension is
         # first, and any other dimension coordinates follow.
-        result = result.reshape((len(percentiles),) + location_parameter.data.shape)
+        result = restore_non_percentile_dimensions(
+            result, location_parameter, len(percentiles)
+        )
 
         for prob_coord_name in ["realization", "percentile"]:
             if template_cube.coords(prob_coord_name, dim_coords=True):
@@ -1040,7 +1042,7 @@ class ConvertLocationAndScaleParametersToPercentiles(
         )
         # Make the mask defined above fit the data size and then apply to the
         # percentile cube.
-        mask_array = np.stack([mask] * len(percentiles))
+        mask_array = np.broadcast_to(mask, percentile_cube.shape)
         percentile_cube.data = np.ma.masked_where(mask_array, percentile_cube.data)
         # Remove cell methods associated with finding the ensemble mean
         percentile_cube.cell_methods = {}
-- 
2.43.0


From 31bcb632fda4dbb1f533de3e4ead2e3edad427e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 028/141] fix: reordering failed for more than one time

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 4d3288f..bec5a34 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1409,14 +1409,14 @@ class EnsembleReordering(BasePlugin):
             the ranking from the raw ensemble.
         """
         results = iris.cube.CubeList([])
+        if random_seed is not None:
+            random_seed = int(random_seed)
+        random_state = np.random.RandomState(random_seed)
         for rawfc, calfc in zip(
             raw_forecast_realizations.slices_over("time"),
             post_processed_forecast_percentiles.slices_over("time"),
         ):
-            if random_seed is not None:
-                random_seed = int(random_seed)
-            random_seed = np.random.RandomState(random_seed)
-            random_data = random_seed.rand(*rawfc.data.shape)
+            random_data = random_state.rand(*rawfc.data.shape)
             if random_ordering:
                 # Returns the indices that would sort the array.
                 # As these indices are from a random dataset, only an argsort
-- 
2.43.0


From 1a158ea6916acdc7558cce7dd2f6ef26397ca6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 029/141] fix: a single percentile was shuffled along the y
 axis

---
 .../ensemble_copula_coupling.py                  | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index bec5a34..61b73ec 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1551,12 +1551,16 @@ class EnsembleReordering(BasePlugin):
         raw_forecast = self._recycle_raw_ensemble_realizations(
             post_processed_forecast, raw_forecast, percentile_coord_name
         )
-        post_processed_forecast_realizations = self.rank_ecc(
-            post_processed_forecast,
-            raw_forecast,
-            random_ordering=random_ordering,
-            random_seed=random_seed,
-        )
+        if len(raw_forecast.coord("realization").points) == 1:
+            # There is nothing to reorder, and possibly no realization dimension.
+            post_processed_forecast_realizations = post_processed_forecast.copy()
+        else:
+            post_processed_forecast_realizations = self.rank_ecc(
+                post_processed_forecast,
+                raw_forecast,
+                random_ordering=random_ordering,
+                random_seed=random_seed,
+            )
         plugin = RebadgePercentilesAsRealizations()
         post_processed_forecast_realizations = plugin(
             post_processed_forecast_realizations,
-- 
2.43.0


From 9963b8b66dd1d41c1959678b094203790ecfcdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:15 +0000
Subject: [PATCH 030/141] fix: a scale parameter converted to the threshold
 units no longer has the offset between temperature units added

---
 improver/ensemble_copula_coupling/ensemble_copula_coupling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 61b73ec..1a5d3fc 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1180,7 +1180,11 @@ class ConvertLocationAndScaleParametersToProbabilities(
 
         try:
             location_parameter.convert_units(threshold_units)
+            # The scale is a difference of values, so that the offset between
+            # units such as kelvin and celsius does not apply to it.
+            offset = scale_parameter.units.convert(0.0, threshold_units)
             scale_parameter.convert_units(threshold_units)
+            scale_parameter.data = scale_parameter.data - np.float32(offset)
         except ValueError as err:
             msg = (
                 "Error: {} This is likely because the location parameter, "
-- 
2.43.0


From b2f08ca356c615811f381b8b427b9077f02d30cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 031/141] fix: estimating EMOS coefficients masked the caller's
 additional predictors

---
 improver/calibration/ensemble_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/ensemble_calibration.py b/improver/calibration/ensemble_calibration.py
index 200137e..4b015a5 100644
--- a/improver/calibration/ensemble_calibration.py
+++ b/improver/calibration/ensemble_calibration.py
@@ -1344,7 +1344,8 @@ class EstimateCoefficientsForEnsembleCalibration(BasePlugin):
             forecast_predictors = iris.cube.CubeList([historic_forecasts])
 
         if additional_fields:
-            forecast_predictors.extend(additional_fields)
+            # Copied as these may be masked below.
+            forecast_predictors.extend([field.copy() for field in additional_fields])
 
         forecast_var = collapsed(
             historic_forecasts, "realization", iris.analysis.VARIANCE
-- 
2.43.0


From 10c6f5182e625caad0d36e959d67da4ff16a228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 032/141] fix: pointwise coefficients with realizations as
 predictor could not be applied to gridded forecasts

---
 improver/calibration/ensemble_calibration.py | 23 +++++---------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/improver/calibration/ensemble_calibration.py b/improver/calibration/ensemble_calibration.py
index 4b015a5..b33d403 100644
--- a/improver/calibration/ensemble_calibration.py
+++ b/improver/calibration/ensemble_calibration.py
@@ -1516,23 +1516,12 @@ class CalibratedForecastDistributionParameters(BasePlugin):
         # ensemble realizations. The number of b and X terms depends upon the
         # number of ensemble realizations. In this case, b = beta^2.
         beta_cube = self.coefficients_cubelist.extract_cube("emos_coefficient_beta")
-        beta_values = np.atleast_2d(beta_cube.data * beta_cube.data)
-        beta_values = (
-            np.atleast_2d(np.squeeze(beta_values.T))
-            if beta_cube.data.ndim != 1
-            else beta_values
-        )
-
-        a_and_b = np.hstack(
-            (
-                np.atleast_2d(
-                    self.coefficients_cubelist.extract_cube(
-                        "emos_coefficient_alpha"
-                    ).data
-                ).T,
-                beta_values,
-            )
-        )
+        # One row per point, or a single row if the coefficients are not
+        # computed independently at each point.
+        alpha = self.coefficients_cubelist.extract_cube("emos_coefficient_alpha").data
+        n_realizations = len(forecast_predictor.coord("realization").points)
+        beta_values = (beta_cube.data * beta_cube.data).reshape(n_realizations, -1).T
+        a_and_b = np.hstack((alpha.reshape(-1, 1), beta_values))
 
         forecast_predictor_flat = convert_cube_data_to_2d(forecast_predictor)
         xy_shape = next(forecast_predictor.slices_over("realization")).shape
-- 
2.43.0


From 1bfa3b8a2ce66cbc365c35a154ff556358bae1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 033/141] fix: the cell methods of a probability template were
 duplicated by EMOS

---
 improver/calibration/ensemble_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/ensemble_calibration.py b/improver/calibration/ensemble_calibration.py
index b33d403..235a676 100644
--- a/improver/calibration/ensemble_calibration.py
+++ b/improver/calibration/ensemble_calibration.py
@@ -1910,7 +1910,8 @@ class ApplyEMOS(PostProcessingPlugin):
 
         # Preserve cell methods from template.
         for cm in template.cell_methods:
-            result.add_cell_method(cm)
+            if cm not in result.cell_methods:
+                result.add_cell_method(cm)
 
         return result
 
-- 
2.43.0


From 967ea9372c90f9cf4ad1a2d00d59499b7b8973af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 034/141] fix: the land-sea mask of an additional predictor was
 lost when it was broadcast over time

---
 improver/calibration/utilities.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/utilities.py b/improver/calibration/utilities.py
index 8463c80..9813ff4 100644
--- a/improver/calibration/utilities.py
+++ b/improver/calibration/utilities.py
@@ -403,7 +403,12 @@ def broadcast_data_to_time_coord(cubelist: CubeList) -> List[ndarray]:
         data = cube.data
         if not cube.coords("time") and num_times:
             # Broadcast data from cube along a time dimension.
-            data = np.broadcast_to(data, (num_times[0],) + data.shape)
+            shape = (num_times[0],) + data.shape
+            if np.ma.isMaskedArray(data):
+                mask = np.broadcast_to(np.ma.getmaskarray(data), shape)
+                data = np.ma.masked_array(np.broadcast_to(data.data, shape), mask=mask)
+            else:
+                data = np.broadcast_to(data, shape)
 
         broadcasted_data.append(data)
     return broadcasted_data
-- 
2.43.0


From 487a986a7930087da3abe7cc953a27dd773f4e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 035/141] fix: reliability tables masked points, and lost their
 counts, that had a truth only at times after a masked one

---
 improver/calibration/reliability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 7d291f7..5de8410 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -407,7 +407,7 @@ class ConstructReliabilityCalibrationTables(BasePlugin):
             dimensions of the forecast and truth cubes (which are
             equivalent).
         """
-        if np.ma.is_masked(truth.data):
+        if np.ma.is_masked(truth.data) or np.ma.is_masked(threshold_reliability):
             table = self._populate_masked_reliability_bins(forecast.data, truth.data)
             # Bitwise addition of masks. This ensures that only points that are
             # masked in both the existing and new reliability tables are kept
-- 
2.43.0


From a24c269b4b1aa19f1cb11edd59c9eefd383e5e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 036/141] fix: reliability tables given in other than
 chronological order were refused as overlapping

---
 improver/calibration/reliability_calibration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 5de8410..0107390 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -558,6 +558,10 @@ class AggregateReliabilityCalibrationTables(BasePlugin):
         for cube in cubes:
             lower_bounds.append(cube.coord("forecast_reference_time").bounds[0][0])
             upper_bounds.append(cube.coord("forecast_reference_time").bounds[0][1])
+        # The tables may be provided in any order.
+        order = np.lexsort((upper_bounds, lower_bounds))
+        lower_bounds = [lower_bounds[index] for index in order]
+        upper_bounds = [upper_bounds[index] for index in order]
         if not all(x < y for x, y in zip(upper_bounds, lower_bounds[1:])):
             raise ValueError(
                 "Reliability calibration tables have overlapping "
-- 
2.43.0


From 651a4c8d1dfec9336cc2d08c373dafea73d64a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 037/141] fix: aggregating reliability tables changed the
 caller's list of coordinates

---
 improver/calibration/reliability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 0107390..200b4a0 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -592,7 +592,7 @@ class AggregateReliabilityCalibrationTables(BasePlugin):
         Returns:
             Aggregated cube
         """
-        coordinates = [] if coordinates is None else coordinates
+        coordinates = [] if coordinates is None else list(coordinates)
 
         try:
             (cube,) = cubes
-- 
2.43.0


From 632234bf61b6c6b99d72b0536f90c812cf377e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 038/141] fix: a forecast with a single threshold could not be
 reliability calibrated

---
 improver/calibration/reliability_calibration.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 200b4a0..0077461 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -1158,7 +1158,6 @@ class ApplyReliabilityCalibration(PostProcessingPlugin):
             UserWarning: If the probabilities must be sorted to reinstate
                          expected monotonicity following calibration.
         """
-        (threshold_dim,) = cube.coord_dims(self.threshold_coord)
         thresholding = probability_is_above_or_below(cube)
         if thresholding is None:
             msg = (
@@ -1167,6 +1166,12 @@ class ApplyReliabilityCalibration(PostProcessingPlugin):
             )
             raise ValueError(msg)
 
+        threshold_dims = cube.coord_dims(self.threshold_coord)
+        if not threshold_dims:
+            # There is only one threshold.
+            return
+        (threshold_dim,) = threshold_dims
+
         if (
             thresholding == "above"
             and not (np.diff(cube.data, axis=threshold_dim) <= 0).all()
@@ -1334,6 +1339,10 @@ class ApplyReliabilityCalibration(PostProcessingPlugin):
             calibrated_cubes.append(forecast_threshold.copy(data=interpolated))
 
         calibrated_forecast = calibrated_cubes.merge_cube()
+        if len(calibrated_cubes) == 1 and forecast.coord_dims(self.threshold_coord):
+            calibrated_forecast = iris.util.new_axis(
+                calibrated_forecast, self.threshold_coord.name()
+            )
         self._ensure_monotonicity_across_thresholds(calibrated_forecast)
 
         if uncalibrated_thresholds:
-- 
2.43.0


From cfd167214deeefcce65ab1f8fcaa3969f8c08817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 039/141] fix: pointwise reliability calibration failed where
 only some thresholds had enough bins

---
 improver/calibration/reliability_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 0077461..4736e38 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -1288,12 +1288,12 @@ class ApplyReliabilityCalibration(PostProcessingPlugin):
 
         interpolated = np.interp(forecast_probabilities.data, xp, fp)
 
-        interpolated = interpolated.reshape(shape).astype(np.float32)
+        interpolated = np.clip(interpolated, 0, 1).reshape(shape).astype(np.float32)
 
         if mask is not None:
             interpolated = np.ma.masked_array(interpolated, mask=mask)
 
-        return np.clip(interpolated, 0, 1)
+        return interpolated
 
     def _apply_calibration(
         self, forecast: Cube, reliability_table: Union[Cube, CubeList],
-- 
2.43.0


From fb15d8cbd1b5e8f72d9d18886f0880ac196aee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:10 +0000
Subject: [PATCH 040/141] fix: height rescaling factors were NaN where the
 fitted slope is zero and no bounds are set

---
 improver/calibration/dz_rescaling.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/improver/calibration/dz_rescaling.py b/improver/calibration/dz_rescaling.py
index d006dfa..346ce3c 100644
--- a/improver/calibration/dz_rescaling.py
+++ b/improver/calibration/dz_rescaling.py
@@ -128,19 +128,12 @@ class EstimateDzRescaling(PostProcessingPlugin):
         Returns:
             Scaled difference in altitude at each site.
         """
+        # Values of dz beyond the bounds receive the scaling at the bounds.
+        dz = np.clip(dz, self.dz_lower_bound, self.dz_upper_bound)
+
         # Multiplication by -1 using negative exponent rule, so that this term can
         # be multiplied by the forecast during the application step.
-        scaled_dz = np.exp(-1.0 * scale_factor * dz)
-
-        # Compute lower and upper bounds for the scaled dz.
-        # dz_lower_bound may not result in the lower bound for the scaled dz depending
-        # upon the sign of the scale_factor term.
-        scaled_dz_a = np.exp(-1.0 * scale_factor * self.dz_lower_bound)
-        scaled_dz_b = np.exp(-1.0 * scale_factor * self.dz_upper_bound)
-        scaled_dz_lower = np.amin([scaled_dz_a, scaled_dz_b])
-        scaled_dz_upper = np.amax([scaled_dz_a, scaled_dz_b])
-
-        return np.clip(scaled_dz.data, scaled_dz_lower, scaled_dz_upper)
+        return np.exp(-1.0 * scale_factor * dz)
 
     def _compute_scaled_dz_cube(
         self, forecast: Cube, dz: Cube, scale_factor: float,
-- 
2.43.0


From b71241598e5e64f132d6f77c5524ab4a57b56a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 041/141] fix: height rescaling matched sites by position when
 the inputs list them in different orders

---
 improver/calibration/dz_rescaling.py | 29 ++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/improver/calibration/dz_rescaling.py b/improver/calibration/dz_rescaling.py
index 346ce3c..d2eac64 100644
--- a/improver/calibration/dz_rescaling.py
+++ b/improver/calibration/dz_rescaling.py
@@ -201,6 +201,31 @@ class EstimateDzRescaling(PostProcessingPlugin):
         hour_coord.points = hour_coord.points.astype(np.int32)
         target_cube.add_aux_coord(hour_coord)
 
+    def _order_sites(self, cube: Cube, target: Cube) -> Cube:
+        """Order the sites of a cube as the same sites are ordered in another cube.
+
+        Args:
+            cube: Cube with the sites to order.
+            target: Cube containing the same sites in the order required.
+
+        Returns:
+            The cube with its sites in the order of the target.
+        """
+        site_coord = cube.coord(self.site_id_coord)
+        sites = list(site_coord.points)
+        order = [sites.index(site) for site in target.coord(self.site_id_coord).points]
+        if order == list(range(len(sites))):
+            return cube
+        (site_dim,) = cube.coord_dims(site_coord)
+        index = [slice(None)] * cube.ndim
+        index[site_dim] = order
+        ordered_cube = cube.copy(data=cube.data[tuple(index)])
+        for coord in cube.aux_coords:
+            dims = cube.coord_dims(coord)
+            if site_dim in dims:
+                ordered_cube.replace_coord(coord[tuple(index[dim] for dim in dims)])
+        return ordered_cube
+
     def process(self, forecasts: Cube, truths: Cube, neighbour_cube: Cube) -> Cube:
         """Fit a polynomial using the forecasts and truths to compute a scaled
         version of the difference of altitude between the grid point and the
@@ -266,6 +291,10 @@ class EstimateDzRescaling(PostProcessingPlugin):
         training_truths = truths.extract(constr)
         dz_training_cube = dz_cube.extract(constr)
 
+        # The inputs may list the common sites in different orders.
+        training_truths = self._order_sites(training_truths, training_forecasts)
+        dz_training_cube = self._order_sites(dz_training_cube, training_forecasts)
+
         forecast_cube, truth_cube = filter_non_matching_cubes(
             training_forecasts, training_truths
         )
-- 
2.43.0


From ceafc0faa55c548f98ff404bbbcd0822f0173236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 042/141] fix: filling a masked bias changed the caller's bias
 cube

---
 improver/calibration/simple_bias_correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/simple_bias_correction.py b/improver/calibration/simple_bias_correction.py
index a350ec3..760f3dd 100644
--- a/improver/calibration/simple_bias_correction.py
+++ b/improver/calibration/simple_bias_correction.py
@@ -84,7 +84,7 @@ def apply_additive_correction(
         An array containing the corrected forecast values.
     """
     if fill_masked_bias_values and isinstance(bias.data, ma.masked_array):
-        bias.data = ma.MaskedArray.filled(bias.data, 0.0)
+        bias = bias.copy(data=ma.MaskedArray.filled(bias.data, 0.0))
     corrected_forecast = forecast - bias
     return corrected_forecast.data
 
-- 
2.43.0


From 6ce6703cd96219edc1fd44585d9a5f7b71232335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 043/141] fix: thresholds or vicinities not given in ascending
 order were attributed to the wrong results

---
 improver/threshold.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/improver/threshold.py b/improver/threshold.py
index 5aba3af..b3c0daa 100644
--- a/improver/threshold.py
+++ b/improver/threshold.py
@@ -191,6 +191,12 @@ class Threshold(PostProcessingPlugin):
             )
             self._check_fuzzy_bounds()
 
+        # The thresholds are merged into a coordinate in ascending order, so use
+        # them in this order to construct the data.
+        order = np.argsort(self.thresholds)
+        self.thresholds = [self.thresholds[i] for i in order]
+        self.fuzzy_bounds = [self.fuzzy_bounds[i] for i in order]
+
         self.original_units = None
         self.comparison_operator_dict = comparison_operator_dict()
         self.comparison_operator_string = comparison_operator
@@ -206,7 +212,8 @@ class Threshold(PostProcessingPlugin):
         self.vicinity = None
         if vicinity:
             if isinstance(vicinity, Iterable):
-                self.vicinity = [float(x) for x in vicinity]
+                # As for the thresholds, use the vicinities in ascending order.
+                self.vicinity = sorted(float(x) for x in vicinity)
             else:
                 self.vicinity = [float(vicinity)]
 
-- 
2.43.0


From e352bb935ac07ff481a7ed3819e49abe94077689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 044/141] fix: fuzzy bounds were dropped or failed where
 another threshold of the configuration has none

---
 improver/threshold.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/improver/threshold.py b/improver/threshold.py
index b3c0daa..16fd986 100644
--- a/improver/threshold.py
+++ b/improver/threshold.py
@@ -254,12 +254,14 @@ class Threshold(PostProcessingPlugin):
                 # Ensure thresholds are float64 to avoid rounding errors during
                 # possible unit conversion.
                 thresholds.append(float(key))
-                # If the first threshold has no bounds, fuzzy_bounds is
-                # set to None and subsequent bounds checks are skipped
+                # A threshold without bounds is its own lower and upper bound.
                 if threshold_config[key] == "None":
-                    fuzzy_bounds = None
+                    fuzzy_bounds.append((thresholds[-1], thresholds[-1]))
                     continue
                 fuzzy_bounds.append(tuple(threshold_config[key]))
+            # If no threshold has bounds, fuzzy_bounds is set to None.
+            if all(value == "None" for value in threshold_config.values()):
+                fuzzy_bounds = None
         else:
             # Ensure thresholds are float64 to avoid rounding errors during possible
             # unit conversion.
-- 
2.43.0


From 5e5545186d7ae38d79575648d715009fc2e884f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 045/141] fix: values beneath the mask spread in fuzzy
 thresholding with a vicinity

---
 improver/threshold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/threshold.py b/improver/threshold.py
index 16fd986..ee3391f 100644
--- a/improver/threshold.py
+++ b/improver/threshold.py
@@ -400,7 +400,7 @@ class Threshold(PostProcessingPlugin):
         # otherwise, scale exceedance probabilities linearly between 0/1
         # at the min/max fuzzy bounds and 0.5 at the threshold value
         else:
-            truth_value = np.where(
+            truth_value = np.ma.where(
                 cube.data < threshold,
                 rescale(
                     cube.data,
-- 
2.43.0


From aab102c2c31e95d4a2a66b9207f7f1420c8c7ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 046/141] fix: thresholding changed its input cube, and the
 plugin could not collapse percentiles twice

---
 improver/threshold.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/improver/threshold.py b/improver/threshold.py
index ee3391f..d1dca33 100644
--- a/improver/threshold.py
+++ b/improver/threshold.py
@@ -565,11 +565,14 @@ class Threshold(PostProcessingPlugin):
             )
 
         if self.fill_masked is not None:
-            input_cube.data = np.ma.filled(input_cube.data, self.fill_masked)
+            input_cube = input_cube.copy(
+                data=np.ma.filled(input_cube.data, self.fill_masked)
+            )
 
-        if self.collapse_coord == "percentile":
-            input_cube = RebadgePercentilesAsRealizations()(input_cube)
-            self.collapse_coord = "realization"
+        collapse_coord = self.collapse_coord
+        if collapse_coord == "percentile":
+            input_cube = RebadgePercentilesAsRealizations()(input_cube.copy())
+            collapse_coord = "realization"
 
         self.original_units = input_cube.units
         self.threshold_coord_name = input_cube.name()
@@ -584,10 +587,10 @@ class Threshold(PostProcessingPlugin):
 
         # Slice over realizations if required and create an empty threshold
         # cube to store the resulting thresholded data.
-        if self.collapse_coord is not None:
-            input_slices = input_cube.slices_over(self.collapse_coord)
+        if collapse_coord is not None:
+            input_slices = input_cube.slices_over(collapse_coord)
             thresholded_cube = self._create_threshold_cube(
-                next(input_cube.slices_over(self.collapse_coord))
+                next(input_cube.slices_over(collapse_coord))
             )
         else:
             input_slices = [input_cube]
@@ -606,6 +609,10 @@ class Threshold(PostProcessingPlugin):
             if np.isnan(cube.data).any():
                 raise ValueError("Error: NaN detected in input cube data")
 
+            # Unit conversion must not change the input cube.
+            if self.threshold_units is not None:
+                cube = cube.copy()
+
             if np.ma.is_masked(cube.data):
                 mask = cube.data.mask
                 unmasked = ~mask
@@ -660,10 +667,8 @@ class Threshold(PostProcessingPlugin):
         # Squeeze any single value dimension coordinates to make them scalar.
         thresholded_cube = iris.util.squeeze(thresholded_cube)
 
-        if self.collapse_coord is not None and thresholded_cube.coords(
-            self.collapse_coord
-        ):
-            thresholded_cube.remove_coord(self.collapse_coord)
+        if collapse_coord is not None and thresholded_cube.coords(collapse_coord):
+            thresholded_cube.remove_coord(collapse_coord)
 
         # Re-cast to 32bit now that any unit conversion has already taken place.
         thresholded_cube.coord(var_name="threshold").points = thresholded_cube.coord(
-- 
2.43.0


From 1ba171a93510301073d5426b01ce7f1b628e8dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 047/141] fix: expected values were wrong for thresholds that
 are small compared to 1e-7, and for masked points

---
 improver/expected_value.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/improver/expected_value.py b/improver/expected_value.py
index 1d0264e..64cce96 100644
--- a/improver/expected_value.py
+++ b/improver/expected_value.py
@@ -50,22 +50,26 @@ class ExpectedValue(PostProcessingPlugin):
             raise ValueError("threshold coordinate in decreasing order")
         # add an extra threshold below/above with zero/one probability
         # ensure that the PDF integral covers the full CDF probability range
-        # thresholds are usually float32 with epsilon of ~= 1.1e-7
-        eps = np.finfo(thresholds.dtype).eps
-        # for small values (especially exactly zero), at least epsilon
-        # for larger values, the next representable float number
+        # using the next representable float number, as thresholds may be small
+        # compared to the epsilon of their type (e.g. precipitation in m s-1)
+        infinity = thresholds.dtype.type(np.inf)
         thresholds_expanded = np.array(
             [
-                thresholds[0] - max(eps, abs(thresholds[0] * eps)),
+                np.nextafter(thresholds[0], -infinity),
                 *thresholds,
-                thresholds[-1] + max(eps, abs(thresholds[-1] * eps)),
+                np.nextafter(thresholds[-1], infinity),
             ]
         )
         # expand the data to match the newly added thresholds
         extra_data_shape = list(cube.shape)
         extra_data_shape[threshold_coord_idx] = 1
+        # masked points are excluded from the calculation and restored afterwards
+        mask = np.ma.getmaskarray(cube.data).any(
+            axis=threshold_coord_idx, keepdims=True
+        )
+        data = np.where(mask, 0.0, np.ma.getdata(cube.data))
         data_expanded = np.concatenate(
-            [np.zeros(extra_data_shape), cube.data, np.ones(extra_data_shape)],
+            [np.zeros(extra_data_shape), data, np.ones(extra_data_shape)],
             axis=threshold_coord_idx,
             dtype=np.float32,
         )
@@ -92,6 +96,10 @@ class ExpectedValue(PostProcessingPlugin):
         # sum of weighted_pdf is equivalent to midpoint rule integration over the CDF
         ev_data = np.sum(weighted_pdf, axis=threshold_coord_idx, dtype=np.float32)
         del weighted_pdf
+        if np.ma.isMaskedArray(cube.data):
+            ev_data = np.ma.masked_array(
+                ev_data, mask=np.squeeze(mask, axis=threshold_coord_idx)
+            )
         # set up output cube based on input, with the threshold dimension removed
         ev_cube = next(cube.slices_over([threshold_coord])).copy()
         ev_cube.remove_coord(threshold_coord)
-- 
2.43.0


From dbd5d827feb373cbf1c783dbc6ef46421f42ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 048/141] fix: calculating the expected value of percentiles
 changed the input cube

---
 improver/expected_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/expected_value.py b/improver/expected_value.py
index 64cce96..5eb96a0 100644
--- a/improver/expected_value.py
+++ b/improver/expected_value.py
@@ -126,7 +126,7 @@ class ExpectedValue(PostProcessingPlugin):
             ev_cube = self.integrate_over_thresholds(cube)
         elif is_percentile(cube):
             ev_cube = collapse_realizations(
-                RebadgePercentilesAsRealizations().process(cube)
+                RebadgePercentilesAsRealizations().process(cube.copy())
             )
         else:
             ev_cube = collapse_realizations(cube)
-- 
2.43.0


From 87f1319c69a3ea689a4299f25e9de4a4beabb111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 049/141] fix: percentiles not requested in ascending order
 were attributed to the wrong results

---
 improver/percentile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/percentile.py b/improver/percentile.py
index 563f615..2b6105e 100644
--- a/improver/percentile.py
+++ b/improver/percentile.py
@@ -55,7 +55,8 @@ class PercentileConverter(BasePlugin):
             )
 
         if percentiles is not None:
-            self.percentiles = [np.float32(value) for value in percentiles]
+            # in ascending order, as they will be merged into a coordinate
+            self.percentiles = sorted(np.float32(value) for value in percentiles)
         else:
             self.percentiles = [np.float32(value) for value in DEFAULT_PERCENTILES]
 
-- 
2.43.0


From 5ff2dbfd11fd06699e12aac323078e4e3b2e6768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 050/141] fix: inverting probabilities also inverted above or
 below in the name of the diagnostic

---
 improver/utilities/probability_manipulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/utilities/probability_manipulation.py b/improver/utilities/probability_manipulation.py
index 9c8f304..b83c804 100644
--- a/improver/utilities/probability_manipulation.py
+++ b/improver/utilities/probability_manipulation.py
@@ -140,9 +140,9 @@ def invert_probabilities(cube: Cube) -> Cube:
     ] = new_inequality
 
     new_name = (
-        cube.name().replace("above", "below")
-        if "above" in cube.name()
-        else cube.name().replace("below", "above")
+        cube.name().replace("above_threshold", "below_threshold")
+        if "above_threshold" in cube.name()
+        else cube.name().replace("below_threshold", "above_threshold")
     )
     inverted_probabilities.rename(new_name)
 
-- 
2.43.0


From 905ab720f709d47ecf382351e1f5ff119a514537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 051/141] fix: compare the masks of all slices when checking
 spatial weights input

---
 improver/blending/spatial_weights.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/improver/blending/spatial_weights.py b/improver/blending/spatial_weights.py
index 4aaafff..3c778f2 100644
--- a/improver/blending/spatial_weights.py
+++ b/improver/blending/spatial_weights.py
@@ -100,16 +100,15 @@ class SpatiallyVaryingWeightsFromMask(BasePlugin):
         # Check mask does not vary over additional dimensions
         slices = cube_to_collapse.slices(coords_to_slice_over)
         first_slice = next(slices)
-        if np.ma.is_masked(first_slice.data):
-            first_mask = first_slice.data.mask
-            for cube_slice in slices:
-                if not np.all(cube_slice.data.mask == first_mask):
-                    message = (
-                        "The mask on the input cube can only vary along the "
-                        "blend_coord, differences in the mask were found "
-                        "along another dimension"
-                    )
-                    raise ValueError(message)
+        first_mask = np.ma.getmaskarray(first_slice.data)
+        for cube_slice in slices:
+            if not np.array_equal(np.ma.getmaskarray(cube_slice.data), first_mask):
+                message = (
+                    "The mask on the input cube can only vary along the "
+                    "blend_coord, differences in the mask were found "
+                    "along another dimension"
+                )
+                raise ValueError(message)
         # Remove non-spatial non-blend dimensions, returning a 3D template cube without
         # additional scalar coordinates (eg realization)
         for coord in original_dim_coords:
-- 
2.43.0


From 6bd4a9d76433c846c502520bfe8df6364d8f33b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 052/141] fix: sort the points of a blending weights
 configuration

---
 improver/blending/weights.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/improver/blending/weights.py b/improver/blending/weights.py
index 042de87..f0780d4 100644
--- a/improver/blending/weights.py
+++ b/improver/blending/weights.py
@@ -266,7 +266,12 @@ class ChooseWeightsLinear(BasePlugin):
             )
 
         target_points = cube.coord(self.weighting_coord_name).points
-        source_weights = self.config_dict[config_point][self.weights_key_name]
+        source_weights = np.array(
+            self.config_dict[config_point][self.weights_key_name]
+        )
+        order = np.argsort(source_points)
+        source_points = source_points[order]
+        source_weights = source_weights[order]
 
         fill_value = (source_weights[0], source_weights[-1])
         return source_points, target_points, source_weights, fill_value
-- 
2.43.0


From fe35e286b2bab8bac85d9cff712842e97c8cedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 053/141] fix: leave inputs without weight out of a percentile
 blend

---
 improver/blending/weighted_blend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/improver/blending/weighted_blend.py b/improver/blending/weighted_blend.py
index d3c8c06..87a9162 100644
--- a/improver/blending/weighted_blend.py
+++ b/improver/blending/weighted_blend.py
@@ -329,6 +329,12 @@ class PercentileBlendingAggregator:
             Array containing the weighted percentile blend data
             across the chosen coord
         """
+        # Inputs without any weight must not add thresholds to the blend.
+        contributing = weights > 0
+        if contributing.any():
+            perc_values = perc_values[contributing]
+            weights = weights[contributing]
+
         inputs_to_blend = perc_values.shape[0]
         combined_cdf = np.zeros((inputs_to_blend, len(percentiles)), dtype=FLOAT_DTYPE)
 
-- 
2.43.0


From ff69ea278f6905dbad2d5e2aa3d0f650e491dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 054/141] fix: leave masked percentiles out of a blend

---
 improver/blending/weighted_blend.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/improver/blending/weighted_blend.py b/improver/blending/weighted_blend.py
index 87a9162..4b7456f 100644
--- a/improver/blending/weighted_blend.py
+++ b/improver/blending/weighted_blend.py
@@ -600,6 +600,11 @@ class WeightedBlendAcrossWholeDimension(PostProcessingPlugin):
         """
         non_perc_slice = next(cube.slices_over(PERC_COORD))
         weights_array = self.get_weights_array(non_perc_slice, weights)
+        masked = np.ma.is_masked(cube.data)
+        if masked:
+            # Masked inputs do not contribute to the blend.
+            input_mask = np.ma.getmaskarray(cube.data).any(axis=1)
+            weights_array = np.where(input_mask, FLOAT_DTYPE(0), weights_array)
         weights_array = self._normalise_weights(weights_array)
 
         # Set up aggregator
@@ -616,6 +621,10 @@ class WeightedBlendAcrossWholeDimension(PostProcessingPlugin):
             arr_weights=weights_array,
         )
 
+        if masked:
+            no_input = np.broadcast_to(input_mask.all(axis=0), cube_new.shape)
+            cube_new.data = np.ma.masked_where(no_input, cube_new.data)
+
         return cube_new
 
     def weighted_mean(self, cube: Cube, weights: Optional[Cube]) -> Cube:
-- 
2.43.0


From 7cc040d2c61cdcb568318c0cb706fafaf2372648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 055/141] fix: remove slices without weight when blending over
 a time coordinate

---
 improver/blending/calculate_weights_and_blend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/blending/calculate_weights_and_blend.py b/improver/blending/calculate_weights_and_blend.py
index 5272323..906f95c 100644
--- a/improver/blending/calculate_weights_and_blend.py
+++ b/improver/blending/calculate_weights_and_blend.py
@@ -192,7 +192,7 @@ class WeightAndBlend(PostProcessingPlugin):
         slice_out_vals = []
         for wslice in weights.slices_over(self.blend_coord):
             if np.sum(wslice.data) == 0:
-                slice_out_vals.append(wslice.coord(self.blend_coord).points[0])
+                slice_out_vals.append(wslice.coord(self.blend_coord).cell(0).point)
 
         if not slice_out_vals:
             return cube, weights
-- 
2.43.0


From 191bb00eaeb4cff15a2d4d1cfc710d51d04d2784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 056/141] fix: do not change the decision tree given when
 setting up ApplyDecisionTree

---
 improver/categorical/decision_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index a3606a9..0f69913 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -128,7 +128,8 @@ class ApplyDecisionTree(BasePlugin):
         self.title = title
         self.meta = decision_tree["meta"]
         self.queries = update_tree_thresholds(
-            {k: v for k, v in decision_tree.items() if k != "meta"}, target_period
+            copy.deepcopy({k: v for k, v in decision_tree.items() if k != "meta"}),
+            target_period,
         )
         self.float_tolerance = 0.01
         self.float_abs_tolerance = 1e-12
-- 
2.43.0


From a86f215058f8712559e42a84107ea39e6d50e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 057/141] fix: do not add record run coordinates to the inputs
 of ApplyDecisionTree

---
 improver/categorical/decision_tree.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 0f69913..7990185 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -584,8 +584,14 @@ class ApplyDecisionTree(BasePlugin):
                 update_model_id_attr_attribute(cubes, self.model_id_attr)
             )
         if self.record_run_attr and self.model_id_attr:
+            # Use set(cubes) here as the prepare_input_cubes method returns a list
+            # of inputs that contains duplicate pointers to the same threshold
+            # slices. Using set here ensures each contributing model/cycle/diagnostic
+            # is only considered once when creating the record run coordinate. Copies
+            # are used to avoid adding this coordinate to the inputs.
+            record_cubes = iris.cube.CubeList([cube.copy() for cube in set(cubes)])
             store_record_run_as_coord(
-                set(cubes), self.record_run_attr, self.model_id_attr
+                record_cubes, self.record_run_attr, self.model_id_attr
             )
 
         categories = create_new_diagnostic_cube(
@@ -597,12 +603,8 @@ class ApplyDecisionTree(BasePlugin):
             data=np.ma.masked_all_like(template_cube.data).astype(np.int32),
         )
         if self.record_run_attr and self.model_id_attr is not None:
-            # Use set(cubes) here as the prepare_input_cubes method returns a list
-            # of inputs that contains duplicate pointers to the same threshold
-            # slices. Using set here ensures each contributing model/cycle/diagnostic
-            # is only considered once when creating the record run coordinate.
             record_run_coord_to_attr(
-                categories, set(cubes), self.record_run_attr, discard_weights=True
+                categories, record_cubes, self.record_run_attr, discard_weights=True
             )
         self._set_reference_time(categories, cubes)
 
-- 
2.43.0


From 1868b32f94d7c01086280621df86ff7a1a9ca3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 058/141] fix: evaluate decision tree expressions from left to
 right within a level of precedence

---
 improver/categorical/decision_tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 7990185..0e051a2 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -704,10 +704,10 @@ class ApplyDecisionTree(BasePlugin):
                         + curr_expression[idx + 1 :]
                     )
             # evaluate operators in order of precedence
-            for op_str in ["/", "*", "+", "-"]:
+            for op_strs in [["/", "*"], ["+", "-"]]:
                 while len(curr_expression) > 1:
                     for idx, item in enumerate(curr_expression):
-                        if isinstance(item, str) and (item == op_str):
+                        if isinstance(item, str) and (item in op_strs):
                             left_arg = curr_expression[idx - 1]
                             right_arg = curr_expression[idx + 1]
                             if isinstance(left_arg, iris.Constraint):
@@ -718,7 +718,7 @@ class ApplyDecisionTree(BasePlugin):
                                 right_eval = cubes.extract(right_arg)[0].data
                             else:
                                 right_eval = right_arg
-                            op = operator_map[op_str]
+                            op = operator_map[item]
                             res = op(left_eval, right_eval)
                             curr_expression = (
                                 curr_expression[: idx - 1]
-- 
2.43.0


From 52f90edf4c300f77e354fc0e298d13849a40ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 059/141] fix: keep the decision tree whole when rerouting
 around missing optional nodes

---
 improver/categorical/decision_tree.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 0e051a2..1078457 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -813,10 +813,27 @@ class ApplyDecisionTree(BasePlugin):
         # are needed to speed up later cube extractions.
         cubes, optional_node_data_missing = self.prepare_input_cubes(*cubes)
 
-        # Reroute the decision tree around missing optional nodes
+        # Reroute the decision tree around missing optional nodes. The rerouting
+        # is specific to these inputs, so it is applied to a copy of the plugin.
         if optional_node_data_missing is not None:
-            self.remove_optional_missing(optional_node_data_missing)
+            rerouted = copy.copy(self)
+            rerouted.queries = copy.deepcopy(self.queries)
+            rerouted.remove_optional_missing(optional_node_data_missing)
+            return rerouted._allocate_categories(cubes)
 
+        return self._allocate_categories(cubes)
+
+    def _allocate_categories(self, cubes: CubeList) -> Cube:
+        """Find the routes through the decision tree to each category, and set the
+        categories at the points at which the conditions of a route are met.
+
+        Args:
+            cubes:
+                The diagnostics used by the decision tree.
+
+        Returns:
+            A cube of categorical data.
+        """
         # Construct graph nodes dictionary
         graph = {
             key: [self.queries[key]["leaf"]]
-- 
2.43.0


From bae12c8e01d551e407b5f0d464631eebbe4f1f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 060/141] fix: follow decision tree nodes whose outcomes
 coincide for both outcomes

---
 improver/categorical/decision_tree.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 1078457..5727455 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -861,6 +861,23 @@ class ApplyDecisionTree(BasePlugin):
                     current = copy.copy(self.queries[current_node])
                     next_node = route[i_node + 1]
 
+                    if "leaf" not in current and (
+                        current["if_true"] == current["if_false"]
+                    ):
+                        # This route is followed whether or not the condition is
+                        # met, provided that the data are not masked.
+                        inverted = copy.copy(current)
+                        (
+                            inverted["threshold_condition"],
+                            inverted["condition_combination"],
+                        ) = self.invert_condition(current)
+                        either = [
+                            self.create_condition_chain(current),
+                            self.create_condition_chain(inverted),
+                        ]
+                        conditions.append([either, "OR"])
+                        continue
+
                     if current.get("if_false") == next_node:
 
                         (
-- 
2.43.0


From 15bd7b401b661ef1813364bd110517a0bd2322f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 061/141] fix: fill the category when missing optional nodes
 lead straight to a leaf

---
 improver/categorical/decision_tree.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 5727455..7f12dc2 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -886,6 +886,12 @@ class ApplyDecisionTree(BasePlugin):
                         ) = self.invert_condition(current)
                     if "leaf" not in current.keys():
                         conditions.append(self.create_condition_chain(current))
+
+                if not conditions:
+                    # Missing optional nodes lead straight to this category.
+                    categories.data[...] = category_code
+                    continue
+
                 test_chain = [conditions, "AND"]
 
                 # Set grid locations to suitable category
-- 
2.43.0


From 0aba1cc570454c9686e568c264935464cb689ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 062/141] fix: leave masked data out of modal categories and
 keep dimensions of length one

---
 improver/categorical/modal_code.py | 42 +++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/improver/categorical/modal_code.py b/improver/categorical/modal_code.py
index 0c09b3a..36e88a4 100644
--- a/improver/categorical/modal_code.py
+++ b/improver/categorical/modal_code.py
@@ -127,10 +127,16 @@ class ModalCategory(BasePlugin):
                 The original input data. Data relating to unset points will be
                 grouped and the mode recalculated."""
 
-        undecided_points = np.argwhere(modal.data == self.unset_code_indicator)
+        undecided_points = np.argwhere(
+            np.ma.filled(modal.data == self.unset_code_indicator, False)
+        )
+        (time_dim,) = cube.coord_dims("time")
+        cube_data = np.moveaxis(cube.data, time_dim, 0)
 
         for point in undecided_points:
-            data = cube.data[(..., *point)].copy()
+            data = cube_data[(..., *point)].copy()
+            if np.ma.isMaskedArray(data):
+                data = data.compressed()
 
             for _, codes in self.code_groups.items():
                 default_code = sorted([code for code in data if code in codes])
@@ -161,12 +167,40 @@ class ModalCategory(BasePlugin):
         # Aggregation coordinate is moved to the -1 position in initialisation;
         # move this back to the leading coordinate
         data = np.moveaxis(data, [axis], [0])
+        output_shape = data.shape[1:]
+        if np.ma.is_masked(data):
+            return self._masked_mode(data)
         minimum_significant_count = 0.3 * data.shape[0]
         mode_result, counts = stats.mode(self.code_max - data, axis=0)
         mode_result[counts < minimum_significant_count] = (
             self.code_max - self.unset_code_indicator
         )
-        return self.code_max - np.squeeze(mode_result)
+        return self.code_max - np.reshape(mode_result, output_shape)
+
+    def _masked_mode(self, data: np.ma.MaskedArray) -> np.ma.MaskedArray:
+        """Calculate the mode over the leading dimension of the data that are not
+        masked. Points at which all of the data are masked are masked in the
+        result.
+
+        Args:
+            data:
+                The data for which a mode is to be calculated.
+
+        Returns:
+            The modes, set to the UNSET_CODE_INDICATOR where these are not
+            significant.
+        """
+        valid_count = data.count(axis=0)
+        modes = np.full(data.shape[1:], self.unset_code_indicator, dtype=data.dtype)
+        mode_counts = np.zeros(data.shape[1:], dtype=valid_count.dtype)
+        for code in np.unique(data.compressed()):
+            counts = np.ma.filled(data == code, False).sum(axis=0)
+            # Codes are in ascending order; larger codes are preferred in a tie.
+            is_mode = (counts > 0) & (counts >= mode_counts)
+            modes[is_mode] = code
+            mode_counts[is_mode] = counts[is_mode]
+        modes[mode_counts < 0.3 * valid_count] = self.unset_code_indicator
+        return np.ma.masked_array(modes, mask=valid_count == 0)
 
     @staticmethod
     def _set_blended_times(cube: Cube) -> None:
@@ -257,7 +291,7 @@ class ModalCategory(BasePlugin):
             result.remove_coord(RECORD_COORD)
 
         # Handle any unset points where it was hard to determine a suitable mode
-        if (result.data == self.unset_code_indicator).any():
+        if np.ma.filled(result.data == self.unset_code_indicator, False).any():
             self._group_codes(result, cube)
 
         return result
-- 
2.43.0


From 626af76b91317219bca7e8b2f1f33d21216d8a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 063/141] fix: do not modify the inputs of ModalCategory

---
 improver/categorical/modal_code.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/categorical/modal_code.py b/improver/categorical/modal_code.py
index 36e88a4..1b54886 100644
--- a/improver/categorical/modal_code.py
+++ b/improver/categorical/modal_code.py
@@ -239,6 +239,9 @@ class ModalCategory(BasePlugin):
             A single categorical cube with time bounds that span those of
             the input categorical cubes.
         """
+        # Use copies to ensure that the inputs are not modified.
+        cubes = iris.cube.CubeList([cube.copy() for cube in cubes])
+
         # Store the information for the record_run attribute on the cubes.
         if self.record_run_attr and self.model_id_attr:
             store_record_run_as_coord(cubes, self.record_run_attr, self.model_id_attr)
-- 
2.43.0


From d06c2de6c00da77f1f23dde5771f12ed50b2f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 064/141] fix: Combine keeps the name of the cube of its first
 call for later calls

---
 improver/cube_combiner.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 6968ed8..a3bbc57 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -105,8 +105,7 @@ class Combine(BasePlugin):
         """
         cubes = as_cubelist(*cubes)
 
-        if self.new_name is None:
-            self.new_name = cubes[0].name()
+        new_name = cubes[0].name() if self.new_name is None else self.new_name
 
         if self.minimum_realizations is None:
             filtered_cubes = cubes
@@ -125,7 +124,7 @@ class Combine(BasePlugin):
                     f"({self.minimum_realizations})"
                 )
             filtered_cubes = cube.slices_over("time")
-        return self.plugin(CubeList(filtered_cubes), self.new_name)
+        return self.plugin(CubeList(filtered_cubes), new_name)
 
 
 def masked_add(
-- 
2.43.0


From 610bf2a259a3ce4f77d8bd95b9510e11ab92e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 065/141] fix: masked_add loses the mask of a broadcast cube

---
 improver/cube_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index a3bbc57..8e3f33e 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -146,7 +146,7 @@ def masked_add(
     new_array_1 = np.ma.filled(masked_array, 0)
     new_array_2 = np.ma.filled(masked_array_2, 0)
 
-    new_mask = np.ma.getmask(masked_array) * np.ma.getmask(masked_array_2)
+    new_mask = np.ma.getmaskarray(masked_array) & np.ma.getmaskarray(masked_array_2)
 
     summed_cube = np.ma.MaskedArray(np.add(new_array_1, new_array_2), mask=new_mask)
 
-- 
2.43.0


From de8bf47539f33f1bfa7e9d054de300e3a4fe514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 066/141] fix: CubeCombiner keeps the threshold name of its
 first call when broadcasting

---
 improver/cube_combiner.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 8e3f33e..1305668 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -355,14 +355,15 @@ class CubeCombiner(BasePlugin):
         """
         target_cube = cube_list[0]
 
-        if self.broadcast == "threshold":
-            self.broadcast = find_threshold_coordinate(cube_list[0]).name()
+        broadcast = self.broadcast
+        if broadcast == "threshold":
+            broadcast = find_threshold_coordinate(cube_list[0]).name()
 
         try:
-            target_coord = target_cube.coord(self.broadcast)
+            target_coord = target_cube.coord(broadcast)
         except CoordinateNotFoundError:
             raise CoordinateNotFoundError(
-                f"Cannot find coord {self.broadcast} in {repr(target_cube)} to broadcast to"
+                f"Cannot find coord {broadcast} in {repr(target_cube)} to broadcast to"
             )
 
         new_list = CubeList([])
-- 
2.43.0


From 6ad30ebd65ecdf39be661ff8852dcbfe2ebe3625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 067/141] fix: bounds of the forecast period with several
 reference times

---
 improver/metadata/forecast_times.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/metadata/forecast_times.py b/improver/metadata/forecast_times.py
index f05c9ec..a2be4a6 100644
--- a/improver/metadata/forecast_times.py
+++ b/improver/metadata/forecast_times.py
@@ -125,7 +125,9 @@ def _calculate_forecast_period(
 
     if time_coord.bounds is not None:
         time_bounds = np.array([c.bound for c in time_coord.cells()])
-        required_lead_time_bounds = time_bounds - forecast_reference_time_points
+        required_lead_time_bounds = (
+            time_bounds - forecast_reference_time_points[:, np.newaxis]
+        )
         required_lead_time_bounds = np.array(
             [[b.total_seconds() for b in x] for x in required_lead_time_bounds]
         )
-- 
2.43.0


From 919ca13ea6fbbcaa312cb60ef95e74333fd03936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 068/141] fix: EnforceConsistentForecasts changes the units of
 the reference forecast of the caller

---
 improver/utilities/forecast_reference_enforcement.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/utilities/forecast_reference_enforcement.py b/improver/utilities/forecast_reference_enforcement.py
index 594dfa0..e122e37 100644
--- a/improver/utilities/forecast_reference_enforcement.py
+++ b/improver/utilities/forecast_reference_enforcement.py
@@ -121,6 +121,7 @@ class EnforceConsistentForecasts(PostProcessingPlugin):
 
         # check forecast and reference units match
         try:
+            reference_forecast = reference_forecast.copy()
             reference_forecast.convert_units(forecast.units)
         except ValueError:
             if forecast.units != reference_forecast.units:
-- 
2.43.0


From 676ca5d948f188c3f18356126ff167ba9ad61e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 069/141] fix: maximum_in_height renames the cube of the caller

---
 improver/utilities/cube_manipulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index 6a94ce1..16242e4 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -771,6 +771,7 @@ def maximum_in_height(
         max_cube = cube_subsetted
 
     if new_name:
+        max_cube = max_cube.copy()
         max_cube.rename(new_name)
 
     return max_cube
-- 
2.43.0


From 5682b06920d71176f4dd6b99c242fafb3fa5052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 070/141] fix: height_of_maximum takes the first dimension for
 the height and loses the mask

---
 improver/utilities/cube_manipulation.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index 16242e4..5e43b26 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -807,20 +807,20 @@ def height_of_maximum(
             tried for the high_or_low value.
     """
     height_of_max = max_cube.copy()
-    height_range = range(len(cube.coord("height").points))
     if len(cube.coord("height").points) == 1:
         raise ValueError("More than 1 height level is required.")
-    if find_lowest:
-        height_points = height_range
-    else:
-        height_points = reversed(height_range)
-
-    for height in height_points:
-        height_of_max.data = np.where(
-            cube[height].data == max_cube.data,
-            cube[height].coord("height").points[0],
+    height_slices = list(cube.slices_over("height"))
+    if not find_lowest:
+        height_slices.reverse()
+
+    for height_slice in height_slices:
+        height_of_max.data = np.ma.where(
+            np.ma.filled(height_slice.data == max_cube.data, False),
+            height_slice.coord("height").points[0],
             height_of_max.data,
         )
+    if not np.ma.isMaskedArray(max_cube.data):
+        height_of_max.data = height_of_max.data.filled()
     if new_name:
         height_of_max.rename(new_name)
     height_of_max.units = cube.coord("height").units
-- 
2.43.0


From 79b5188af188acc051c2cb25db2f32fc0b7eefa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 071/141] fix: apply_mask changes the mask and the cube of the
 caller

---
 improver/utilities/mask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/mask.py b/improver/utilities/mask.py
index db3b4af..4f699bd 100644
--- a/improver/utilities/mask.py
+++ b/improver/utilities/mask.py
@@ -52,7 +52,8 @@ def apply_mask(
 
     mask = cubes.extract_cube(mask_name)
     cubes.remove(mask)
-    cube = cubes[0]
+    cube = cubes[0].copy()
+    mask = mask.copy()
 
     # Ensure mask is in a boolean form and invert if requested
     mask.data = mask.data.astype(np.bool)
-- 
2.43.0


From 13996e0322347f93669c6f944fd4a0ea587aa506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 072/141] fix: amend_attributes handles several and leading
 {now:} sections

---
 improver/metadata/amend.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/improver/metadata/amend.py b/improver/metadata/amend.py
index f4c0b8f..68121a5 100644
--- a/improver/metadata/amend.py
+++ b/improver/metadata/amend.py
@@ -36,16 +36,12 @@ def amend_attributes(cube: Cube, attributes_dict: Dict[str, Any]) -> None:
             wall-clock time, formatted as specified.
     """
     for attribute_name, value in attributes_dict.items():
-        re_now = r"({now:.*})"
-        # We use the DOTALL flag below to tell regex that . should match new-line
-        # characters as well as everything else. Therefore, the match below is for
-        # any string that contains the word now inside curly braces, with a colon
-        # and any format specifier. This now section is returned as a group in
-        # position 1 of has_now, which we will use to format the current time.
-        has_now = re.match(rf".*{re_now}.*", value, re.DOTALL)
-        if has_now:
-            now = has_now[1].format(now=datetime.now())
-            value = re.sub(re_now, now, value)
+        # Replace any section of the string that contains the word now inside curly
+        # braces, with a colon and any format specifier, with the formatted current
+        # time. The format specifier ends at the first closing brace.
+        value = re.sub(
+            r"{now:[^}]*}", lambda match: match[0].format(now=datetime.now()), value
+        )
         if value == "remove":
             cube.attributes.pop(attribute_name, None)
         elif "{}" in value:
-- 
2.43.0


From 40ddf41a7ab339767e7a15a31fba0b6dd520f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 073/141] fix: create_new_diagnostic_cube adds the optional
 attributes to the dictionary of the caller

---
 improver/metadata/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/metadata/utilities.py b/improver/metadata/utilities.py
index ffbd131..9082c67 100644
--- a/improver/metadata/utilities.py
+++ b/improver/metadata/utilities.py
@@ -59,7 +59,7 @@ def create_new_diagnostic_cube(
     Returns:
         Cube with correct metadata to accommodate new diagnostic field
     """
-    attributes = mandatory_attributes
+    attributes = mandatory_attributes.copy()
     if optional_attributes is not None:
         attributes.update(optional_attributes)
 
-- 
2.43.0


From 44cb1dc1729d51551c9b7a857462330b393572c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 074/141] fix: range constraints exclude negative end points

---
 improver/utilities/cube_constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/cube_constraints.py b/improver/utilities/cube_constraints.py
index 51aeab6..6c11cba 100644
--- a/improver/utilities/cube_constraints.py
+++ b/improver/utilities/cube_constraints.py
@@ -41,8 +41,8 @@ def create_sorted_lambda_constraint(
     """
     values = [float(i) for i in values]
     values = sorted(values)
-    values[0] = (1.0 - tolerance) * values[0]
-    values[1] = (1.0 + tolerance) * values[1]
+    values[0] = values[0] - tolerance * abs(values[0])
+    values[1] = values[1] + tolerance * abs(values[1])
     constr = iris.Constraint(
         coord_values={coord_name: lambda cell: values[0] <= cell.point <= values[1]}
     )
-- 
2.43.0


From ab71d6437c737e6c97ccfbf351aed4d3fbea2bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 075/141] fix: string constraints that are no Python literals
 fail with a SyntaxError

---
 improver/utilities/cube_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index ebf84d2..2478962 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -133,7 +133,7 @@ def parse_constraint_list(
         else:
             try:
                 typed_value = literal_eval(value)
-            except ValueError:
+            except (ValueError, SyntaxError):
                 simple_constraints_dict[key] = value
             else:
                 simple_constraints_dict[key] = create_constraint(typed_value)
-- 
2.43.0


From dbac67a20b0e3e437e34eccb57b60deb3c43313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 076/141] fix: extraction with units changes the cube of the
 caller, and without a match fails with an AttributeError

---
 improver/utilities/cube_extraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index 2478962..42aa881 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -191,6 +191,7 @@ def apply_extraction(
     if units is None:
         output_cube = cube.extract(constraint)
     else:
+        cube = cube.copy()
         original_units = {}
         for coord in units.keys():
             original_units[coord] = cube.coord(coord).units
@@ -198,14 +199,13 @@ def apply_extraction(
         output_cube = cube.extract(constraint)
         if use_original_units:
             for coord in original_units:
-                cube.coord(coord).convert_units(original_units[coord])
                 try:
                     output_cube.coord(coord).convert_units(original_units[coord])
                 except AttributeError:
                     # an empty output cube (None) is handled by the CLI
                     pass
 
-    if longitude_constraint:
+    if longitude_constraint and output_cube is not None:
         output_cube = output_cube.intersection(
             longitude=longitude_constraint, ignore_bounds=True
         )
@@ -259,7 +259,7 @@ def extract_subcube(
         cube, constraints, units, use_original_units, longitude_constraint
     )
 
-    if thinning_dict:
+    if thinning_dict and output_cube is not None:
         output_cube = thin_cube(output_cube, thinning_dict)
 
     return output_cube
-- 
2.43.0


From 994af17b4bbff7165a192be5a9504f097d197808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 077/141] fix: ExtractLevel fills the cube of the caller and
 mixes up dimensions when realization does not lead

---
 improver/utilities/cube_extraction.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index 42aa881..d9c7f0d 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -516,6 +516,7 @@ class ExtractLevel(BasePlugin):
         except CoordinateNotFoundError:
             self.coordinate = variable_on_levels.coord("height").name()
 
+        variable_on_levels = variable_on_levels.copy()
         self.fill_invalid(variable_on_levels)
 
         if "realization" in [c.name() for c in variable_on_levels.dim_coords]:
@@ -528,9 +529,8 @@ class ExtractLevel(BasePlugin):
             has_r_coord = False
         grid = self.coordinate_grid(one_slice).astype(np.float32)
         (coordinate_axis,) = one_slice.coord_dims(self.coordinate)
-        result_data = np.empty_like(
-            variable_on_levels.slices_over(([self.coordinate])).next().data
-        )
+        one_level = variable_on_levels.slices_over(([self.coordinate])).next()
+        result_data = np.empty_like(one_level.data)
         for i, zyx_slice in enumerate(slicer):
             interp_data = interpolate(
                 np.array([self.value_of_level], dtype=np.float32),
@@ -541,7 +541,8 @@ class ExtractLevel(BasePlugin):
                 extrapolation=EXTRAPOLATE_NEAREST,
             ).squeeze(axis=coordinate_axis)
             if has_r_coord:
-                result_data[i] = interp_data
+                (r_axis,) = one_level.coord_dims("realization")
+                np.moveaxis(result_data, r_axis, 0)[i] = interp_data
             else:
                 result_data = interp_data
 
-- 
2.43.0


From 0634942e36f052000e78a71d9f32f75c43169786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 078/141] fix: ExtractValueFromTable reorders the cube of the
 caller

---
 improver/utilities/extract_from_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/utilities/extract_from_table.py b/improver/utilities/extract_from_table.py
index a39af75..3e97f58 100644
--- a/improver/utilities/extract_from_table.py
+++ b/improver/utilities/extract_from_table.py
@@ -166,6 +166,7 @@ class ExtractValueFromTable(BasePlugin):
 
         row_cube = cubes.extract_cube(self.row_name)
         cubes.remove(row_cube)
+        row_cube = row_cube.copy()
         column_cube = cubes[0]
         coord_order = [coord.name() for coord in column_cube.coords()]
         enforce_coordinate_ordering(row_cube, coord_order)
-- 
2.43.0


From 468f7c8904fb9071c46ef5732872db8add8344e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:32 +0000
Subject: [PATCH 079/141] fix: InterpolateUsingDifference changes the units of
 the reference and limit of the caller

---
 improver/utilities/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/interpolation.py b/improver/utilities/interpolation.py
index 7e4e54c..676ae3b 100644
--- a/improver/utilities/interpolation.py
+++ b/improver/utilities/interpolation.py
@@ -170,9 +170,9 @@ class InterpolateUsingDifference(BasePlugin):
                         entire domain.
         """
         cube = as_cube(cube)
-        reference_cube = as_cube(reference_cube)
+        reference_cube = as_cube(reference_cube).copy()
         if limit:
-            limit = as_cube(limit)
+            limit = as_cube(limit).copy()
         if not np.ma.is_masked(cube.data):
             warnings.warn(
                 "Input cube unmasked, no data to fill in, returning unchanged."
-- 
2.43.0


From 9683ba212b51a6745d7522ad17a6076ad44b445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:32 +0000
Subject: [PATCH 080/141] fix: Integration ignores start and end points of zero

---
 improver/utilities/mathematical_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/mathematical_operations.py b/improver/utilities/mathematical_operations.py
index df6e16f..c1b6b63 100644
--- a/improver/utilities/mathematical_operations.py
+++ b/improver/utilities/mathematical_operations.py
@@ -242,12 +242,12 @@ class Integration(BasePlugin):
             """Conditions under which a slice should not be included in
             the integrated total.  All inputs (except the string "direction")
             are floats."""
-            if start_point:
+            if start_point is not None:
                 if direction and lower_bound < start_point:
                     return True
                 if not direction and upper_bound > start_point:
                     return True
-            if end_point:
+            if end_point is not None:
                 if direction and upper_bound > end_point:
                     return True
                 if not direction and lower_bound < end_point:
-- 
2.43.0


From 7fe0c4a0eda36c2281e4fe460f6c486aa6e9cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 081/141] fix: PhaseChangeLevel no longer converts the units of
 the caller's cubes

---
 .../psychrometric_calculations/psychrometric_calculations.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/psychrometric_calculations/psychrometric_calculations.py b/improver/psychrometric_calculations/psychrometric_calculations.py
index 3c15416..d5eb596 100644
--- a/improver/psychrometric_calculations/psychrometric_calculations.py
+++ b/improver/psychrometric_calculations/psychrometric_calculations.py
@@ -898,7 +898,9 @@ class PhaseChangeLevel(BasePlugin):
             CubeList(cubes).extract_cube(n) for n in names_to_extract
         )
 
+        wet_bulb_temperature = wet_bulb_temperature.copy()
         wet_bulb_temperature.convert_units("celsius")
+        wet_bulb_integral = wet_bulb_integral.copy()
         wet_bulb_integral.convert_units("K m")
 
         if self.model_id_attr:
-- 
2.43.0


From fab4e3541414f6796a748d610612c4d895227576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 082/141] fix: SpotHeightAdjustment interpolates within each
 site, keeps the end probabilities beyond the thresholds and works on a copy

---
 improver/spotdata/height_adjustment.py | 62 ++++++++------------------
 1 file changed, 19 insertions(+), 43 deletions(-)

diff --git a/improver/spotdata/height_adjustment.py b/improver/spotdata/height_adjustment.py
index 9335f00..4a106dc 100644
--- a/improver/spotdata/height_adjustment.py
+++ b/improver/spotdata/height_adjustment.py
@@ -5,14 +5,11 @@
 
 """Applies height adjustment for height above ground level spot forecasts."""
 
-from itertools import product
-
 import iris
 import numpy as np
 from iris.coords import DimCoord
 from iris.cube import Cube
 from iris.exceptions import CoordinateNotFoundError
-from scipy.interpolate import LinearNDInterpolator
 
 from improver import BasePlugin
 from improver.metadata.probabilistic import find_threshold_coordinate, is_probability
@@ -76,47 +73,21 @@ class SpotHeightAdjustment(BasePlugin):
             spot_cube, ["spot_index", self.threshold_coord.name()]
         )
         n_sites = len(spot_cube.coord("spot_index").points)
-        n_thresholds = len(self.threshold_coord.points)
 
         thresholds = self.threshold_coord.points
-        spot_index = spot_cube.coord("spot_index").points
-        shape = spot_cube.shape
-
-        # Maximum probability over all thresholds for each site.
-        broadcast_max = np.transpose(
-            np.broadcast_to(np.amax(spot_cube.data, axis=1), (n_thresholds, n_sites))
-        )
-        # Minimum probability over all thresholds for each site.
-        broadcast_min = np.transpose(
-            np.broadcast_to(np.amin(spot_cube.data, axis=1), (n_thresholds, n_sites))
-        )
 
-        broadcast_thresholds = np.broadcast_to(thresholds, (n_sites, n_thresholds))
-        broadcast_vertical_displacement = np.transpose(
-            np.broadcast_to(vertical_displacement.data, (n_thresholds, n_sites),)
-        )
-        desired_thresholds = broadcast_thresholds + broadcast_vertical_displacement.data
-
-        # creates a list of pairs of values of spot index with the thresholds that need to
-        # be calculated for the spot index
-        coord = list(product(spot_index, thresholds))
-        needed_pair = []
-        for index, threshold in zip(spot_index, desired_thresholds):
-            needed_pair.extend(list(product([index], threshold)))
-
-        # interpolate across the cube and request needed thresholds
-        interp = LinearNDInterpolator(coord, spot_cube.data.flatten())
-        spot_data = np.reshape(interp(needed_pair), shape)
-
-        # Points outside the range of the original data return NAN. These points are replaced
-        # with the highest or lowest along the axis depending on the whether the vertical
-        # displacement was positive or negative
-        indices = np.where(np.isnan(spot_data))
-        spot_data[indices] = np.where(
-            broadcast_vertical_displacement[indices] > 0,
-            broadcast_max[indices],
-            broadcast_min[indices],
-        )
+        displacements = np.broadcast_to(vertical_displacement.data, (n_sites,))
+        order = np.argsort(thresholds)
+
+        # interpolate between the thresholds of each site; thresholds outside the range
+        # of the original data take the probability of the highest or lowest threshold
+        spot_data = np.empty(spot_cube.shape)
+        for index, displacement in enumerate(displacements):
+            spot_data[index] = np.interp(
+                thresholds + displacement,
+                thresholds[order],
+                spot_cube.data[index][order],
+            )
         spot_cube.data = spot_data
         return spot_cube
 
@@ -167,7 +138,7 @@ class SpotHeightAdjustment(BasePlugin):
             try:
                 cube_slices = [x for x in spot_cube.slices_over("realization")]
             except CoordinateNotFoundError:
-                cube_slices = [spot_cube]
+                cube_slices = [spot_cube.copy()]
             coord_list = [c.name() for c in spot_cube.dim_coords]
             spot_data = iris.cube.CubeList()
             for cube_slice in cube_slices:
@@ -175,13 +146,18 @@ class SpotHeightAdjustment(BasePlugin):
                     self.adjust_prob_cube(cube_slice, vertical_displacement)
                 )
             spot_cube = spot_data.merge_cube()
+            if len(spot_data) == 1 and "realization" in coord_list:
+                spot_cube = iris.util.new_axis(spot_cube, "realization")
             enforce_coordinate_ordering(spot_cube, coord_list)
 
         else:
+            spot_cube = spot_cube.copy()
             self.units = spot_cube.units
             spot_cube.convert_units("m")
 
-            spot_cube.data = spot_cube.data + vertical_displacement.data
+            spot_dims = spot_cube.coord_dims("spot_index")
+            shape = [-1 if dim in spot_dims else 1 for dim in range(spot_cube.ndim)]
+            spot_cube.data = spot_cube.data + vertical_displacement.data.reshape(shape)
             spot_cube.convert_units(self.units)
         spot_cube.data = spot_cube.data.astype(np.float32)
         return spot_cube
-- 
2.43.0


From 5b9f588840c30e97b517a872439c83596059a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 083/141] fix: NeighbourSelection no longer reorders the
 caller's orography and land mask

---
 improver/spotdata/neighbour_finding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/spotdata/neighbour_finding.py b/improver/spotdata/neighbour_finding.py
index 1f345a9..dd4d62c 100644
--- a/improver/spotdata/neighbour_finding.py
+++ b/improver/spotdata/neighbour_finding.py
@@ -467,6 +467,8 @@ class NeighbourSelection(BasePlugin):
             raise ValueError(msg)
 
         # Enforce x-y coordinate order for input cubes.
+        orography = orography.copy()
+        land_mask = land_mask.copy()
         enforce_coordinate_ordering(
             orography,
             [orography.coord(axis="x").name(), orography.coord(axis="y").name()],
-- 
2.43.0


From 19cc65d7d9bd0f922d33db14a21010f3d426ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 084/141] fix: NeighbourSelection with a land constraint falls
 back to the nearest point when there is no land

---
 improver/spotdata/neighbour_finding.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/improver/spotdata/neighbour_finding.py b/improver/spotdata/neighbour_finding.py
index dd4d62c..e9cd2de 100644
--- a/improver/spotdata/neighbour_finding.py
+++ b/improver/spotdata/neighbour_finding.py
@@ -511,8 +511,11 @@ class NeighbourSelection(BasePlugin):
         )
 
         # If further constraints are being applied, build a KD Tree which
-        # includes points filtered by constraint.
-        if self.land_constraint or self.minimum_dz:
+        # includes points filtered by constraint. If there are no land points
+        # there is nothing for a land constraint to choose from.
+        if (self.land_constraint or self.minimum_dz) and (
+            not self.land_constraint or np.any(land_mask.data)
+        ):
             # Build the KDTree, an internal test for the land_constraint checks
             # whether to exclude sea points from the tree.
             tree, index_nodes = self.build_KDTree(land_mask)
-- 
2.43.0


From 8b57bc1a1df49df203dc691efd492a050d0df131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 085/141] fix: SpotExtraction keeps a one-point auxiliary
 coordinate on its dimension

---
 improver/spotdata/spot_extraction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/improver/spotdata/spot_extraction.py b/improver/spotdata/spot_extraction.py
index 6cf91b7..fc23927 100644
--- a/improver/spotdata/spot_extraction.py
+++ b/improver/spotdata/spot_extraction.py
@@ -143,7 +143,10 @@ class SpotExtraction(BasePlugin):
                 nonscalar_coords.append(
                     coord.copy(points=coord_points, bounds=coord_bounds)
                 )
-            elif coord.points.size == 1:
+            elif coord.points.size == 1 and not any(
+                dim < diagnostic_cube.ndim - 2
+                for dim in diagnostic_cube.coord_dims(coord)
+            ):
                 scalar_coords.append(coord)
         return scalar_coords, nonscalar_coords
 
-- 
2.43.0


From 6beee17048a40a16934c0aeec4d4dbcad637f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 086/141] fix: SpotExtraction reads two-dimensional coordinates
 in the order of the reordered cube

---
 improver/spotdata/spot_extraction.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/improver/spotdata/spot_extraction.py b/improver/spotdata/spot_extraction.py
index fc23927..c16cace 100644
--- a/improver/spotdata/spot_extraction.py
+++ b/improver/spotdata/spot_extraction.py
@@ -172,9 +172,14 @@ class SpotExtraction(BasePlugin):
         """
         coord_data = []
         coord = diagnostic_cube.coord(coordinate)
-        coord_data.append(coord.points[..., y_indices, x_indices])
+        # Reordering the dimensions of a cube does not reorder those of its
+        # multidimensional coordinates.
+        order = np.argsort(diagnostic_cube.coord_dims(coord))
+        points = coord.points.transpose(order)
+        coord_data.append(points[..., y_indices, x_indices])
         if coord.has_bounds():
-            coord_data.append(coord.bounds[..., y_indices, x_indices, :])
+            bounds = coord.bounds.transpose([*order, coord.ndim])
+            coord_data.append(bounds[..., y_indices, x_indices, :])
         else:
             coord_data.append(None)
         return coord_data
-- 
2.43.0


From bfbb5189670357b6187445c8b9fa63864ff99534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 087/141] fix: SpotExtraction no longer reorders the caller's
 diagnostic cube

---
 improver/spotdata/spot_extraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/spotdata/spot_extraction.py b/improver/spotdata/spot_extraction.py
index c16cace..d9d58b5 100644
--- a/improver/spotdata/spot_extraction.py
+++ b/improver/spotdata/spot_extraction.py
@@ -295,6 +295,7 @@ class SpotExtraction(BasePlugin):
             unique_site_id, unique_site_id_key = None, None
 
         # Ensure diagnostic cube is y-x order as neighbour cube expects.
+        diagnostic_cube = diagnostic_cube.copy()
         enforce_coordinate_ordering(
             diagnostic_cube,
             [
-- 
2.43.0


From e878c8535f080689766f3496b1d850b30a499619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 088/141] fix: SpotManipulation no longer modifies the caller's
 spot cube

---
 improver/spotdata/spot_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/spotdata/spot_manipulation.py b/improver/spotdata/spot_manipulation.py
index 859e555..6892787 100644
--- a/improver/spotdata/spot_manipulation.py
+++ b/improver/spotdata/spot_manipulation.py
@@ -175,7 +175,7 @@ class SpotManipulation(BasePlugin):
                     "forecast cube has not been implemented."
                 )
             if self.subset_coord is None:
-                result = cube
+                result = cube.copy()
             else:
                 try:
                     sites = neighbour_cube.coord(self.subset_coord).points
-- 
2.43.0


From 9748d109a4dc704ce5e9ce52479bb96379fa7135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 089/141] fix: FreezingRain no longer converts the units of the
 caller's sleet cube

---
 improver/precipitation_type/freezing_rain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/precipitation_type/freezing_rain.py b/improver/precipitation_type/freezing_rain.py
index 94675a3..7725997 100644
--- a/improver/precipitation_type/freezing_rain.py
+++ b/improver/precipitation_type/freezing_rain.py
@@ -75,6 +75,7 @@ class FreezingRain(PostProcessingPlugin):
         )
         (self.rain,) = input_cubes.extract(rain_name)
         (self.sleet,) = input_cubes.extract(sleet_name)
+        self.sleet = self.sleet.copy()
         (self.temperature,) = input_cubes.extract(temperature_name)
 
         if not spatial_coords_match([self.rain, self.sleet, self.temperature]):
-- 
2.43.0


From bbfb689c95d7f39bb25a32e75ce4971ffed11430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 090/141] fix: FreezingRain averages over the realizations the
 cubes have in common

---
 improver/precipitation_type/freezing_rain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/precipitation_type/freezing_rain.py b/improver/precipitation_type/freezing_rain.py
index 7725997..2bca30f 100644
--- a/improver/precipitation_type/freezing_rain.py
+++ b/improver/precipitation_type/freezing_rain.py
@@ -294,6 +294,7 @@ class FreezingRain(PostProcessingPlugin):
 
         if n_realizations is not None:
             self._extract_common_realizations()
+            n_realizations = len(list(self.rain.slices_over("realization")))
 
         freezing_rain_cube = self._calculate_freezing_rain_probability(n_realizations)
 
-- 
2.43.0


From ebdffff2155fb2688eb4e78c6b18bd00c9394b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 091/141] fix: HailFraction no longer converts the units of the
 caller's cubes

---
 improver/precipitation_type/hail_fraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/precipitation_type/hail_fraction.py b/improver/precipitation_type/hail_fraction.py
index 308eb40..1669ae2 100644
--- a/improver/precipitation_type/hail_fraction.py
+++ b/improver/precipitation_type/hail_fraction.py
@@ -110,7 +110,7 @@ class HailFraction(PostProcessingPlugin):
         Returns:
             Hail fraction cube.
         """
-        cubes = as_cubelist(*cubes)
+        cubes = CubeList(cube.copy() for cube in as_cubelist(*cubes))
         (
             vertical_updraught,
             hail_size,
-- 
2.43.0


From be082fe7d9b7271de0599ada53554d1470c127a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 092/141] fix: HailSize does not reduce hail below a wet bulb
 freezing altitude of 3350 m

---
 improver/psychrometric_calculations/hail_size.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/psychrometric_calculations/hail_size.py b/improver/psychrometric_calculations/hail_size.py
index 16dcf2f..ba7bf50 100644
--- a/improver/psychrometric_calculations/hail_size.py
+++ b/improver/psychrometric_calculations/hail_size.py
@@ -297,7 +297,7 @@ class HailSize(BasePlugin):
             2) vertical or horizontal values are negative,
             3) the wet bulb freezing altitude is greater that 4400m.
 
-        If the wet bulb freezing altitude is greater that 3300m then the hail_size is reduced.
+        If the wet bulb freezing altitude is at least 3350m then the hail_size is reduced.
 
         Args:
             vertical:
@@ -335,7 +335,7 @@ class HailSize(BasePlugin):
             vertical_clipped.astype(int), horizontal_clipped.astype(int)
         ]
         hail_size = np.where(
-            wet_bulb_zero >= 3300,
+            wet_bulb_zero >= self._wbzh_keys[0],
             self.updated_hail_size(hail_size, wet_bulb_zero),
             hail_size,
         )
-- 
2.43.0


From c0fe25b85b45334280a9edb0603d94585d233516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 093/141] fix: HailSize no longer converts or reorders the
 caller's cubes

---
 improver/psychrometric_calculations/hail_size.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/psychrometric_calculations/hail_size.py b/improver/psychrometric_calculations/hail_size.py
index ba7bf50..56823e1 100644
--- a/improver/psychrometric_calculations/hail_size.py
+++ b/improver/psychrometric_calculations/hail_size.py
@@ -486,7 +486,7 @@ class HailSize(BasePlugin):
         Returns:
             Cube of hail diameter (m)
         """
-        cubes = as_cubelist(*cubes)
+        cubes = CubeList(cube.copy() for cube in as_cubelist(*cubes))
         (
             temperature_on_pressure,
             ccl_pressure,
-- 
2.43.0


From 2553b0f76961c4ee9768f47f7cf36861e12cf617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 094/141] fix: TemporalInterpolation over a day or more and
 times given by the caller

---
 improver/utilities/temporal_interpolation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index d887c65..d1411f0 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -213,9 +213,9 @@ class TemporalInterpolation(BasePlugin):
                     "List of times falls outside the range given by "
                     "initial_time and final_time. "
                 )
-            time_list = self.times
+            time_list = self.times.copy()
         elif self.interval_in_minutes is not None:
-            if (final_time - initial_time).seconds % (
+            if (final_time - initial_time).total_seconds() % (
                 60 * self.interval_in_minutes
             ) != 0:
                 msg = (
@@ -223,7 +223,7 @@ class TemporalInterpolation(BasePlugin):
                     " divide into the interval of"
                     " {} mins equally.".format(
                         self.interval_in_minutes,
-                        int((final_time - initial_time).seconds / 60),
+                        int((final_time - initial_time).total_seconds() / 60),
                     )
                 )
                 raise ValueError(msg)
@@ -356,7 +356,7 @@ class TemporalInterpolation(BasePlugin):
         dtval_next = dtvals[1]
         sin_phi_next = self.calc_sin_phi(dtval_next, lats, lons)
         # Length of time between beginning and end in seconds
-        diff_step = (dtval_next - dtval_prev).seconds
+        diff_step = (dtval_next - dtval_prev).total_seconds()
 
         for single_time in interpolated_cube.slices_over("time"):
             # Calculate sine of solar elevation for cube at this
@@ -364,7 +364,7 @@ class TemporalInterpolation(BasePlugin):
             dtval_interp = iris_time_to_datetime(single_time.coord("time"))[0]
             sin_phi_interp = self.calc_sin_phi(dtval_interp, lats, lons)
             # Length of time between beginning and interpolated time in seconds
-            diff_interp = (dtval_interp - dtval_prev).seconds
+            diff_interp = (dtval_interp - dtval_prev).total_seconds()
             # Set all values to 0.0, to be replaced
             # with values calculated through this solar method.
             single_time.data[:] = 0.0
-- 
2.43.0


From 8b0ee733d5a4a1e67de6064c7a840e9bd5a189d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 095/141] fix: TemporalInterpolation of accumulations gives
 zero instead of NaN where it is dry

---
 improver/utilities/temporal_interpolation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index d1411f0..7889586 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -510,7 +510,13 @@ class TemporalInterpolation(BasePlugin):
         # total expressed in the longer original period.
         (time_coord,) = interpolated_cube.coord_dims("time")
         interpolated_total = np.sum(interpolated_cube.data, axis=time_coord)
-        renormalisation = period_reference.data / interpolated_total
+        # Where there is no accumulation at all there is nothing to renormalise.
+        renormalisation = np.divide(
+            period_reference.data,
+            interpolated_total,
+            out=np.zeros_like(interpolated_total),
+            where=interpolated_total != 0,
+        )
         interpolated_cube.data *= renormalisation
         interpolated_cube.data = interpolated_cube.data.astype(FLOAT_DTYPE)
 
-- 
2.43.0


From bea2691a8e32e30bba6e05358b54b0e2d57d3e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 096/141] fix: TemporalInterpolation no longer changes the
 caller's cubes

---
 improver/utilities/temporal_interpolation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index 7889586..21cf00c 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -629,6 +629,8 @@ class TemporalInterpolation(BasePlugin):
         ):
             return CubeList([cube_t1])
 
+        cube_t0, cube_t1 = cube_t0.copy(), cube_t1.copy()
+
         # If the units of the two cubes are degrees, assume we are dealing with
         # directions. Convert the directions to complex numbers so
         # interpolations (esp. the 0/360 wraparound) are handled in a sane
-- 
2.43.0


From 4e5e906b7a6813816eeb0c220377bb70fba95432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 097/141] fix: DayNightMask handles a regular grid after an
 irregular one

---
 improver/utilities/solar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/solar.py b/improver/utilities/solar.py
index 1db25ec..e3850cb 100644
--- a/improver/utilities/solar.py
+++ b/improver/utilities/solar.py
@@ -289,8 +289,8 @@ class DayNightMask(BasePlugin):
         for dim in set([cube.coord_dims(crd) for crd in slice_coords]):
             spatial_coords.append(cube.coords(dimensions=dim)[0])
 
-        if len(spatial_coords) != len(slice_coords):
-            self.irregular = True
+        self.irregular = len(spatial_coords) != len(slice_coords)
+        if self.irregular:
             slice_coords = spatial_coords
 
         if cube.coord("time") in cube.coords(dim_coords=True):
-- 
2.43.0


From fd476ff86258e85a083d0f01f1b96567a6c582ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 098/141] fix: DayNightMask uses the time bounds of each time

---
 improver/utilities/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/solar.py b/improver/utilities/solar.py
index e3850cb..905a50c 100644
--- a/improver/utilities/solar.py
+++ b/improver/utilities/solar.py
@@ -394,7 +394,7 @@ class DayNightMask(BasePlugin):
         modified_masks = iris.cube.CubeList()
         for mask_cube in daynight_mask.slices_over("time"):
             if mask_cube.coord("time").has_bounds():
-                lb, ub = cube.coord("time").cell(0).bound
+                lb, ub = mask_cube.coord("time").cell(0).bound
                 dtval = lb + (ub - lb) / 2
             else:
                 dtval = mask_cube.coord("time").cell(0).point
-- 
2.43.0


From 81c3690839db27730fae86a89b5996764843c3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 099/141] fix: calculate_uv_index no longer converts the units
 of the caller's cube

---
 improver/uv_index.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/uv_index.py b/improver/uv_index.py
index 19d4363..9036133 100644
--- a/improver/uv_index.py
+++ b/improver/uv_index.py
@@ -71,6 +71,7 @@ def calculate_uv_index(
         )
         raise ValueError(msg)
 
+    uv_downward = uv_downward.copy()
     uv_downward.convert_units("W m-2")
     uv_data = uv_downward.data * scale_factor
     attributes = generate_mandatory_attributes(
-- 
2.43.0


From 76ee5d4ca7a83c5bf6d0f2c926f04e7d9bddc8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 100/141] fix: VerticalUpdraught no longer converts the units
 of the caller's cubes

---
 improver/wind_calculations/vertical_updraught.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/vertical_updraught.py b/improver/wind_calculations/vertical_updraught.py
index b55f3e0..6d92cc0 100644
--- a/improver/wind_calculations/vertical_updraught.py
+++ b/improver/wind_calculations/vertical_updraught.py
@@ -74,6 +74,7 @@ class VerticalUpdraught(BasePlugin):
         time_error_msg = self._input_times_error()
         if time_error_msg:
             raise ValueError(time_error_msg)
+        self.cape, self.precip = self.cape.copy(), self.precip.copy()
         self.cape.convert_units("J kg-1")
         self.precip.convert_units("mm h-1")
         if self.model_id_attr:
-- 
2.43.0


From 43de2b755f2b07cfd9a58c7eee94ad1bc7e1fd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 101/141] fix: ResolveWindComponents no longer changes the
 caller's wind direction

---
 improver/wind_calculations/wind_components.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/wind_components.py b/improver/wind_calculations/wind_components.py
index 9c6d8bb..22d7ea4 100644
--- a/improver/wind_calculations/wind_components.py
+++ b/improver/wind_calculations/wind_components.py
@@ -138,6 +138,7 @@ class ResolveWindComponents(BasePlugin):
             - Cube containing wind vector component in the positive
               y-direction v_speed
         """
+        angle = angle.copy()
         angle.convert_units("radians")
         angle.data += adj
 
-- 
2.43.0


From c2426543c683b3f4017352d381e105c944b79ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 102/141] fix: WindDirection works on a copy and starts each
 call without earlier results

---
 improver/wind_calculations/wind_direction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/wind_calculations/wind_direction.py b/improver/wind_calculations/wind_direction.py
index bd1f8ce..5efa865 100644
--- a/improver/wind_calculations/wind_direction.py
+++ b/improver/wind_calculations/wind_direction.py
@@ -231,12 +231,14 @@ class WindDirection(PostProcessingPlugin):
             msg = "Wind direction input is not a cube, but {}"
             raise TypeError(msg.format(type(cube_ens_wdir)))
 
+        cube_ens_wdir = cube_ens_wdir.copy()
         try:
             cube_ens_wdir.convert_units("degrees")
         except ValueError as err:
             msg = "Input cube cannot be converted to degrees: {}".format(err)
             raise ValueError(msg)
 
+        self.wdir_cube_list = iris.cube.CubeList()
         self.n_realizations = len(cube_ens_wdir.coord("realization").points)
         y_coord_name = cube_ens_wdir.coord(axis="y").name()
         x_coord_name = cube_ens_wdir.coord(axis="x").name()
-- 
2.43.0


From 221a63dadbf63694343e326c3ea1320fd7ab678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 103/141] fix: RoughnessCorrection no longer changes the
 caller's ancillaries

---
 improver/wind_calculations/wind_downscaling.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/improver/wind_calculations/wind_downscaling.py b/improver/wind_calculations/wind_downscaling.py
index 5a69a5f..90b3d1e 100644
--- a/improver/wind_calculations/wind_downscaling.py
+++ b/improver/wind_calculations/wind_downscaling.py
@@ -146,7 +146,7 @@ class RoughnessCorrectionUtilities:
                 Float - Grid cell length of model grid
         """
         self.a_over_s = a_over_s
-        self.z_0 = z_0
+        self.z_0 = None if z_0 is None else z_0.copy()
         self.pporo = pporo
         self.modoro = modoro
         self.h_over_2 = self.sigma2hover2(sigma)  # half peak to trough height
@@ -768,7 +768,11 @@ class RoughnessCorrection(PostProcessingPlugin):
         Returns:
             Containing bools describing whether or not the tests passed
         """
-        ancil_list = [a_over_s_cube, sigma_cube, pp_oro_cube, model_oro_cube]
+        # the unwanted coordinates are removed from copies
+        ancil_list = [
+            cube.copy()
+            for cube in [a_over_s_cube, sigma_cube, pp_oro_cube, model_oro_cube]
+        ]
         unwanted_coord_list = [
             "time",
             "height",
@@ -790,6 +794,7 @@ class RoughnessCorrection(PostProcessingPlugin):
                 )
                 raise ValueError(msg.format(field.name(), exp_unit, field.units))
         if z0_cube is not None:
+            z0_cube = z0_cube.copy()
             ancil_list.append(z0_cube)
             for unwanted_coord in unwanted_coord_list:
                 try:
-- 
2.43.0


From 24b7a78e8ab6498b13a9352c5c282323e152ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 104/141] fix: WindGustDiagnostic no longer changes the
 caller's cube

---
 improver/wind_calculations/wind_gust_diagnostic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/wind_calculations/wind_gust_diagnostic.py b/improver/wind_calculations/wind_gust_diagnostic.py
index 4fa46df..1e194bd 100644
--- a/improver/wind_calculations/wind_gust_diagnostic.py
+++ b/improver/wind_calculations/wind_gust_diagnostic.py
@@ -73,7 +73,7 @@ class WindGustDiagnostic(PostProcessingPlugin):
             Cube containing the wind-gust diagnostic data with
             corrected Metadata.
         """
-        result = cube
+        result = cube.copy()
         result.rename("wind_speed_of_gust")
         if self.percentile_gust == 50.0 and self.percentile_windspeed == 95.0:
             diagnostic_txt = "Typical gusts"
-- 
2.43.0


From f2990076c3b2aa9162e4eae5d2d3f9bed1915075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 105/141] fix: Accumulation keeps no default periods of an
 earlier call

---
 improver/nowcasting/accumulation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/improver/nowcasting/accumulation.py b/improver/nowcasting/accumulation.py
index 4e59842..9470419 100644
--- a/improver/nowcasting/accumulation.py
+++ b/improver/nowcasting/accumulation.py
@@ -8,6 +8,7 @@ accumulations from advected radar fields. It is also possible to create longer
 accumulations from shorter intervals.
 """
 
+import copy
 from typing import List, Optional, Tuple, Union
 
 import iris
@@ -309,12 +310,15 @@ class Accumulation(BasePlugin):
             the accumulation periods are determined by plugin argument
             accumulation_period.
         """
-        cubes, time_interval = self._check_inputs(cubes)
+        # The period and lead times that are not specified depend on the cubes,
+        # so they are set on a copy of the plugin.
+        plugin = copy.copy(self)
+        cubes, time_interval = plugin._check_inputs(cubes)
 
         accumulation_cubes = iris.cube.CubeList()
 
-        for forecast_period in self.forecast_periods:
-            cube_subset = self._get_cube_subsets(cubes, forecast_period)
+        for forecast_period in plugin.forecast_periods:
+            cube_subset = plugin._get_cube_subsets(cubes, forecast_period)
             accumulation = self._calculate_accumulation(cube_subset, time_interval)
             accumulation_cube = self._set_metadata(cube_subset)
 
-- 
2.43.0


From d3defd62ec427474944fbbbdee162c04f3589ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 106/141] fix: AdvectField no longer converts the units of the
 caller's velocities

---
 improver/nowcasting/forecasting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/nowcasting/forecasting.py b/improver/nowcasting/forecasting.py
index 0dda7f2..9cfe167 100644
--- a/improver/nowcasting/forecasting.py
+++ b/improver/nowcasting/forecasting.py
@@ -69,6 +69,7 @@ class AdvectField(BasePlugin):
         ) != vel_y.coord(axis="y"):
             raise InvalidCubeError("Velocity cubes on unmatched grids")
 
+        vel_x, vel_y = vel_x.copy(), vel_y.copy()
         vel_x.convert_units("m s-1")
         vel_y.convert_units("m s-1")
 
-- 
2.43.0


From bede3a5a19329fdbb2c601871bb4010dda621a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 107/141] fix: the analysis of an extrapolation forecast is a
 copy of the field

---
 improver/nowcasting/forecasting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/nowcasting/forecasting.py b/improver/nowcasting/forecasting.py
index 9cfe167..4f3edbe 100644
--- a/improver/nowcasting/forecasting.py
+++ b/improver/nowcasting/forecasting.py
@@ -167,7 +167,7 @@ class AdvectField(BasePlugin):
         """
         # Cater for special case where timestep (int) is 0
         if timestep == 0:
-            return data
+            return data.copy()
 
         # Initialise advected field with np.nan
         adv_field = np.full(data.shape, np.nan, dtype=np.float32)
-- 
2.43.0


From f445b52ef2590d9398dd85e7850b7eaf1968f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 108/141] fix: FillRadarHoles accepts fields without a full
 mask

---
 improver/nowcasting/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/improver/nowcasting/utilities.py b/improver/nowcasting/utilities.py
index 0a3234e..772436f 100644
--- a/improver/nowcasting/utilities.py
+++ b/improver/nowcasting/utilities.py
@@ -131,7 +131,10 @@ class FillRadarHoles(BasePlugin):
                 Cube containing rainrates (mm/h).  Data modified in place.
         """
         mask_windows = neighbourhood_tools.pad_and_roll(
-            cube.data.mask, self.window_shape, mode="constant", constant_values=1
+            np.ma.getmaskarray(cube.data),
+            self.window_shape,
+            mode="constant",
+            constant_values=1,
         )
         data_windows = neighbourhood_tools.pad_and_roll(
             cube.data, self.window_shape, mode="constant", constant_values=np.nan
-- 
2.43.0


From 3d11c51e4fc38e45c82f6931a5bb17034c30b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 109/141] fix: optical flow no longer reorders the caller's
 list of cubes

---
 improver/nowcasting/optical_flow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/nowcasting/optical_flow.py b/improver/nowcasting/optical_flow.py
index 22b7923..2201fe1 100644
--- a/improver/nowcasting/optical_flow.py
+++ b/improver/nowcasting/optical_flow.py
@@ -51,7 +51,7 @@ def generate_optical_flow_components(
         - Cube of x-advection velocities u_mean
         - Cube of y-advection velocities v_mean
     """
-    cube_list.sort(key=lambda x: x.coord("time").points[0])
+    cube_list = sorted(cube_list, key=lambda x: x.coord("time").points[0])
     time_coord = cube_list[-1].coord("time")
 
     ofc_plugin = OpticalFlow(iterations=smart_smoothing_iterations)
@@ -99,7 +99,7 @@ def generate_advection_velocities_from_winds(
     Returns:
         u- and v- advection velocities
     """
-    cubes.sort(key=lambda x: x.coord("time").points[0])
+    cubes = sorted(cubes, key=lambda x: x.coord("time").points[0])
 
     lead_time_seconds = (
         cubes[1].coord("time").cell(0).point - cubes[0].coord("time").cell(0).point
-- 
2.43.0


From fd93b68d3a77f6f91b823715c4147ba4913b0e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 110/141] fix: the background flow of the caller keeps its
 units

---
 improver/nowcasting/optical_flow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/nowcasting/optical_flow.py b/improver/nowcasting/optical_flow.py
index 2201fe1..83e1350 100644
--- a/improver/nowcasting/optical_flow.py
+++ b/improver/nowcasting/optical_flow.py
@@ -138,6 +138,7 @@ def _perturb_background_flow(
         The adjusted CubeList.
     """
     for flow, adj in zip(background, adjustment):
+        flow = flow.copy()
         flow.convert_units(adj.units)
         perturbed_field = np.where(
             np.isfinite(adj.data), adj.data + flow.data, flow.data
-- 
2.43.0


From 537852aa7006f014b2ec80b4af4971f2b06f5dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 111/141] fix: PystepsExtrapolate works without orographic
 enhancement

---
 improver/nowcasting/pysteps_advection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/improver/nowcasting/pysteps_advection.py b/improver/nowcasting/pysteps_advection.py
index 6680a8a..d884cbf 100644
--- a/improver/nowcasting/pysteps_advection.py
+++ b/improver/nowcasting/pysteps_advection.py
@@ -53,9 +53,10 @@ class PystepsExtrapolate(BasePlugin):
         Returns:
             2D precipitation rate array in mm h-1
         """
-        (self.analysis_cube,) = ApplyOrographicEnhancement("subtract").process(
-            self.analysis_cube, self.orogenh
-        )
+        if self.orogenh:
+            (self.analysis_cube,) = ApplyOrographicEnhancement("subtract").process(
+                self.analysis_cube, self.orogenh
+            )
         self.analysis_cube.convert_units("mm h-1")
         return np.ma.filled(self.analysis_cube.data, np.nan)
 
-- 
2.43.0


From 4b0b5d55641e36fe3a8e40b40131e578c72a8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 112/141] fix: the forecast period added by PystepsExtrapolate
 is in seconds

---
 improver/nowcasting/pysteps_advection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/nowcasting/pysteps_advection.py b/improver/nowcasting/pysteps_advection.py
index d884cbf..9c8f2de 100644
--- a/improver/nowcasting/pysteps_advection.py
+++ b/improver/nowcasting/pysteps_advection.py
@@ -118,7 +118,9 @@ class PystepsExtrapolate(BasePlugin):
             self.analysis_cube.add_aux_coord(frt_coord)
         if "forecast_period" not in coords:
             self.analysis_cube.add_aux_coord(
-                AuxCoord(np.array([0], dtype=np.int32), "forecast_period", "seconds")
+                AuxCoord(
+                    np.array([0], dtype=np.int32), "forecast_period", units="seconds"
+                )
             )
 
         self.analysis_cube.attributes = generate_mandatory_attributes(
-- 
2.43.0


From b34528622f57ae519e5a077e3da7c64d1fa2466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 113/141] fix: MOMetadataInterpreter crashed on a time cell
 method of a cube without time instead of reporting it

---
 improver/developer_tools/metadata_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/developer_tools/metadata_interpreter.py b/improver/developer_tools/metadata_interpreter.py
index 3fc532c..91ac651 100644
--- a/improver/developer_tools/metadata_interpreter.py
+++ b/improver/developer_tools/metadata_interpreter.py
@@ -267,7 +267,7 @@ class MOMetadataInterpreter:
                         )
                 # check point and bounds on method coordinate
                 if "time" in cm.coord_names:
-                    if cube.coord("time").bounds is None:
+                    if not cube.coords("time") or cube.coord("time").bounds is None:
                         self.errors.append(f"Cube of{self.methods} has no time bounds")
 
             elif cm in NONCOMP_CMS or cm.method in NONCOMP_CM_METHODS:
-- 
2.43.0


From 98cd67df9662ced21deaa769e704b46a55591f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 114/141] fix: MOMetadataInterpreter failed with KeyError on a
 model run attribute that names a model without cycle

---
 improver/developer_tools/metadata_interpreter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/improver/developer_tools/metadata_interpreter.py b/improver/developer_tools/metadata_interpreter.py
index 91ac651..f3a5ed4 100644
--- a/improver/developer_tools/metadata_interpreter.py
+++ b/improver/developer_tools/metadata_interpreter.py
@@ -312,7 +312,11 @@ class MOMetadataInterpreter:
                             f"Model ID attribute contains unrecognised model code {code}"
                         )
                     else:
-                        names[-1] += f" (cycle: {cycles[code]})"
+                        if code not in cycles:
+                            self.errors.append(
+                                f"Model run attribute has no cycle for model {code}"
+                            )
+                        names[-1] += f" (cycle: {cycles.get(code)})"
                 self.model = ", ".join(names)
 
             return
-- 
2.43.0


From 024d526a8207f1e58eefcf3b8237b76b1db94277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 115/141] fix: CorrectLandSeaMask changed the mask it was given

---
 improver/generate_ancillaries/generate_ancillary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/generate_ancillaries/generate_ancillary.py b/improver/generate_ancillaries/generate_ancillary.py
index 37e21cd..9c2f6a7 100644
--- a/improver/generate_ancillaries/generate_ancillary.py
+++ b/improver/generate_ancillaries/generate_ancillary.py
@@ -135,6 +135,7 @@ class CorrectLandSeaMask(BasePlugin):
         Returns:
             output landmask of boolean values.
         """
+        standard_landmask = standard_landmask.copy()
         mask_sea = standard_landmask.data < 0.5
         standard_landmask.data[mask_sea] = False
         mask_land = standard_landmask.data > 0.0
-- 
2.43.0


From 2d16e5afd907621c3b1756f28b2ea2ee80fdaeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 116/141] fix: OrographicSmoothingCoefficients changed the
 orography and mask it was given

---
 .../generate_orographic_smoothing_coefficients.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py b/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
index d472740..837b252 100644
--- a/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
+++ b/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
@@ -298,6 +298,7 @@ class OrographicSmoothingCoefficients(BasePlugin):
         # Enforce coordinate order for simpler processing.
         original_order = [crd.name() for crd in cube.coords(dim_coords=True)]
         target_order = [cube.coord(axis="y").name(), cube.coord(axis="x").name()]
+        cube = cube.copy()
         enforce_coordinate_ordering(cube, target_order)
 
         # Returns two cubes, ordered gradient in x and gradient in y.
@@ -323,6 +324,7 @@ class OrographicSmoothingCoefficients(BasePlugin):
 
         # If a mask has been provided, zero coefficients where required.
         if mask is not None:
+            mask = mask.copy()
             enforce_coordinate_ordering(mask, target_order)
             self.zero_masked(*smoothing_coefficients, mask)
 
-- 
2.43.0


From 7c0e7298e4806c9c6e7efcf36eed2ecb4bd494f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 117/141] fix: generate_metadata lost a leading dimension of
 one value

---
 improver/synthetic_data/generate_metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/synthetic_data/generate_metadata.py b/improver/synthetic_data/generate_metadata.py
index 8ddc6cf..1e20b5f 100644
--- a/improver/synthetic_data/generate_metadata.py
+++ b/improver/synthetic_data/generate_metadata.py
@@ -64,7 +64,7 @@ def _create_data_array(
 
     data_shape = []
 
-    if nleading_dimension > 1:
+    if leading_dimension is not None or nleading_dimension > 1:
         data_shape.append(nleading_dimension)
     if nheight_levels is not None:
         data_shape.append(nheight_levels)
-- 
2.43.0


From 484941e4d7f1404fc0c700e09e1c3487c5f2f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 118/141] fix: InterpolateUsingDifference changed its reference
 cube when limits were given (copy after as_cube)

---
 improver/utilities/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/interpolation.py b/improver/utilities/interpolation.py
index 676ae3b..57f33a7 100644
--- a/improver/utilities/interpolation.py
+++ b/improver/utilities/interpolation.py
@@ -170,9 +170,10 @@ class InterpolateUsingDifference(BasePlugin):
                         entire domain.
         """
         cube = as_cube(cube)
-        reference_cube = as_cube(reference_cube).copy()
+        reference_cube = as_cube(reference_cube)
         if limit:
             limit = as_cube(limit).copy()
+        reference_cube = reference_cube.copy()
         if not np.ma.is_masked(cube.data):
             warnings.warn(
                 "Input cube unmasked, no data to fill in, returning unchanged."
-- 
2.43.0


From 20ef03737271929d4029fc5326139a83797a337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:42 +0000
Subject: [PATCH 119/141] fix: FieldTexture changed the coordinates of its
 input and failed for a single realization

---
 improver/utilities/textural.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/utilities/textural.py b/improver/utilities/textural.py
index 3a2fa04..26ed0a3 100644
--- a/improver/utilities/textural.py
+++ b/improver/utilities/textural.py
@@ -211,6 +211,7 @@ class FieldTexture(BasePlugin):
             )
         )
         try:
+            cube = cube.copy()
             cube.remove_coord(cube_name)
         except AttributeError:
             msg = "Threshold {} is not present on coordinate with values {} {}"
@@ -235,6 +236,9 @@ class FieldTexture(BasePlugin):
         thresholded = Threshold(threshold_values=self.textural_threshold).process(
             ratios
         )
+        if thresholded.coords("realization", dimensions=()):
+            # a single realization is a scalar coordinate after merging
+            thresholded = iris.util.new_axis(thresholded, "realization")
 
         # Squeeze scalar threshold coordinate.
         try:
-- 
2.43.0


From 95e570b0e0ba3dbe3cebaa5b3733e51a834355fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 120/141] fix: a lapse rate with a dimension the temperature
 lacks was applied in part, the rest ignored

---
 improver/lapse_rate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/lapse_rate.py b/improver/lapse_rate.py
index 7c562a6..6267b0b 100644
--- a/improver/lapse_rate.py
+++ b/improver/lapse_rate.py
@@ -119,6 +119,10 @@ class ApplyGriddedLapseRate(PostProcessingPlugin):
                 raise ValueError(
                     "Lapse rate cube has no coordinate " '"{}"'.format(crd.name())
                 )
+        if lapse_rate.ndim != temperature.ndim:
+            raise ValueError(
+                "Lapse rate cube has dimensions that the temperature cube has not"
+            )
 
     def _calc_orog_diff(self, source_orog: Cube, dest_orog: Cube) -> Cube:
         """Get difference in orography heights, in metres
-- 
2.43.0


From 12885e8489e16b031dbf729f3df8706bf1e86684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 121/141] fix: ApplyGriddedLapseRate mixed up slices of cubes
 with different orders of dimensions and lost length-one dimensions

---
 improver/lapse_rate.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/improver/lapse_rate.py b/improver/lapse_rate.py
index 6267b0b..688b443 100644
--- a/improver/lapse_rate.py
+++ b/improver/lapse_rate.py
@@ -181,16 +181,17 @@ class ApplyGriddedLapseRate(PostProcessingPlugin):
 
         orog_diff = self._calc_orog_diff(source_orog, dest_orog)
 
-        adjusted_temperature = []
-        for lr_slice, t_slice in zip(
-            lapse_rate.slices(self.xy_coords), temperature.slices(self.xy_coords)
-        ):
-            newcube = t_slice.copy()
-            newcube.convert_units("K")
-            newcube.data += compute_lapse_rate_adjustment(lr_slice.data, orog_diff.data)
-            adjusted_temperature.append(newcube)
-
-        return iris.cube.CubeList(adjusted_temperature).merge_cube()
+        dimension_order = get_dim_coord_names(temperature)
+        xy_names = [coord.name() for coord in self.xy_coords]
+        result = temperature.copy()
+        result.convert_units("K")
+        enforce_coordinate_ordering(result, xy_names, anchor_start=False)
+        lapse_rate = lapse_rate.copy()
+        enforce_coordinate_ordering(lapse_rate, get_dim_coord_names(result))
+        result.data += compute_lapse_rate_adjustment(lapse_rate.data, orog_diff.data)
+        enforce_coordinate_ordering(result, dimension_order)
+
+        return result
 
 
 class LapseRate(BasePlugin):
-- 
2.43.0


From 7e969199ec553d9480981a082b59d1330912149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 122/141] fix: flat land or a uniform temperature gave spurious
 lapse rates through rounding of standard deviations

---
 improver/lapse_rate.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/improver/lapse_rate.py b/improver/lapse_rate.py
index 688b443..cc4e048 100644
--- a/improver/lapse_rate.py
+++ b/improver/lapse_rate.py
@@ -365,10 +365,15 @@ class LapseRate(BasePlugin):
                 orog, temp, axis=axis, gradient_only=True, with_nan=True
             )
 
-            # Checks that the standard deviations are not 0
-            # i.e. there is some variance to fit a gradient to.
-            tempcheck = np.isclose(np.nanstd(temp, axis=axis), 0)
-            orogcheck = np.isclose(np.nanstd(orog, axis=axis), 0)
+            # Checks that the ranges of values are not 0
+            # i.e. there is some variance to fit a gradient to. Standard
+            # deviations are not used as they suffer from rounding errors.
+            tempcheck = np.isclose(
+                np.nanmax(temp, axis=axis) - np.nanmin(temp, axis=axis), 0
+            )
+            orogcheck = np.isclose(
+                np.nanmax(orog, axis=axis) - np.nanmin(orog, axis=axis), 0
+            )
             # checks that our central point in the neighbourhood
             # is not nan
             temp_nan_check = np.isnan(temp[..., cnpt, cnpt])
-- 
2.43.0


From eebd3396ce06ff963d9e2c1cc28acdf0b6e21ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 123/141] fix: LapseRate changed the units of the orography it
 was given

---
 improver/lapse_rate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/lapse_rate.py b/improver/lapse_rate.py
index cc4e048..0c5becd 100644
--- a/improver/lapse_rate.py
+++ b/improver/lapse_rate.py
@@ -434,6 +434,7 @@ class LapseRate(BasePlugin):
         # Converts cube units.
         temperature_cube = temperature.copy()
         temperature_cube.convert_units("K")
+        orography = orography.copy()
         orography.convert_units("metres")
 
         # Extract x/y co-ordinates.
-- 
2.43.0


From 5ab5cdbddb5d62c5c9289198845bb1e7a1963499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 124/141] fix: LapseRate gave wrong values for transposed
 grids, several times or grids one point wide

---
 improver/lapse_rate.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/improver/lapse_rate.py b/improver/lapse_rate.py
index 0c5becd..58fd34b 100644
--- a/improver/lapse_rate.py
+++ b/improver/lapse_rate.py
@@ -447,27 +447,23 @@ class LapseRate(BasePlugin):
         # Fill sea points with NaN values.
         orography_data = np.where(land_sea_mask_data, orography_data, np.nan)
 
-        # Create list of arrays over "realization" coordinate
-        has_realization_dimension = False
-        original_dimension_order = None
-        if temperature_cube.coords("realization", dim_coords=True):
-            original_dimension_order = get_dim_coord_names(temperature_cube)
-            enforce_coordinate_ordering(temperature_cube, "realization")
-            temp_data_slices = temperature_cube.data
-            has_realization_dimension = True
-        else:
-            temp_data_slices = [temperature_cube.data]
-
-        # Calculate lapse rate for each realization
+        # Create array of slices over any dimensions other than x and y
+        original_dimension_order = get_dim_coord_names(temperature_cube)
+        enforce_coordinate_ordering(
+            temperature_cube, [y_coord, x_coord], anchor_start=False
+        )
+        temp_data_slices = temperature_cube.data.reshape(
+            (-1,) + temperature_cube.shape[-2:]
+        )
+
+        # Calculate lapse rate for each slice
         lapse_rate_data = []
         for temperature_data in temp_data_slices:
             lapse_rate_array = self._generate_lapse_rate_array(
                 temperature_data, orography_data, land_sea_mask_data
             )
             lapse_rate_data.append(lapse_rate_array)
-        lapse_rate_data = np.array(lapse_rate_data)
-        if not has_realization_dimension:
-            lapse_rate_data = np.squeeze(lapse_rate_data)
+        lapse_rate_data = np.array(lapse_rate_data).reshape(temperature_cube.shape)
 
         attributes = generate_mandatory_attributes(
             [temperature], model_id_attr=model_id_attr
@@ -480,7 +476,6 @@ class LapseRate(BasePlugin):
             data=lapse_rate_data,
         )
 
-        if original_dimension_order:
-            enforce_coordinate_ordering(lapse_rate_cube, original_dimension_order)
+        enforce_coordinate_ordering(lapse_rate_cube, original_dimension_order)
 
         return lapse_rate_cube
-- 
2.43.0


From e64c2359c7549687a6b64c226ec881428fbb2016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:21 +0000
Subject: [PATCH 125/141] fix: check_tree emptied the decision tree it was
 given of its meta node and thresholds

---
 improver/categorical/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/categorical/utilities.py b/improver/categorical/utilities.py
index b0367e4..7b13328 100644
--- a/improver/categorical/utilities.py
+++ b/improver/categorical/utilities.py
@@ -4,6 +4,7 @@
 # See LICENSE in the root of the repository for full licensing details.
 """This module defines the utilities required for decision tree plugin """
 
+import copy
 from collections import OrderedDict
 from typing import Any, Dict, List, Optional, Union
 
@@ -369,6 +370,8 @@ def check_tree(
         raise ValueError("Decision tree is not a dictionary")
 
     issues = []
+    # Work on a copy, as the meta node is removed and the thresholds updated.
+    decision_tree = copy.deepcopy(decision_tree)
     meta = decision_tree.pop("meta", None)
     if meta is None:
         issues.append("Decision tree does not contain a mandatory meta key")
-- 
2.43.0


From f189821f3fc8ffee2d991155cff0f792e6fdd00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:21 +0000
Subject: [PATCH 126/141] fix: wind-downscaling did not find the height level
 requested in other units

---
 improver/cli/wind_downscaling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/improver/cli/wind_downscaling.py b/improver/cli/wind_downscaling.py
index 5c59d2c..3377647 100755
--- a/improver/cli/wind_downscaling.py
+++ b/improver/cli/wind_downscaling.py
@@ -74,6 +74,7 @@ def process(
     import warnings
 
     import iris
+    import numpy as np
     from iris.exceptions import CoordinateNotFoundError
 
     from improver.utilities.cube_extraction import apply_extraction
@@ -107,7 +108,10 @@ def process(
     if "realization" in non_dim_coords:
         wind_speed = iris.util.new_axis(wind_speed, "realization")
     if output_height_level is not None:
-        constraints = {"height": output_height_level}
+        # Allow for the rounding of heights in the units requested.
+        constraints = {
+            "height": lambda cell: np.isclose(cell.point, output_height_level)
+        }
         units = {"height": output_height_level_units}
         single_level = apply_extraction(
             wind_speed, iris.Constraint(**constraints), units
-- 
2.43.0


From 40a497501fadd48f741505b4b16c66b6e779568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:47 +0000
Subject: [PATCH 127/141] fix: RainForests mixed up cubes with their dimensions
 in another order

---
 improver/calibration/rainforest_calibration.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/improver/calibration/rainforest_calibration.py b/improver/calibration/rainforest_calibration.py
index 1529e8d..d1822e4 100644
--- a/improver/calibration/rainforest_calibration.py
+++ b/improver/calibration/rainforest_calibration.py
@@ -33,7 +33,11 @@ from improver.metadata.utilities import (
     create_new_diagnostic_cube,
     generate_mandatory_attributes,
 )
-from improver.utilities.cube_manipulation import add_coordinate_to_cube, compare_coords
+from improver.utilities.cube_manipulation import (
+    add_coordinate_to_cube,
+    compare_coords,
+    enforce_coordinate_ordering,
+)
 
 
 class ApplyRainForestsCalibration(PostProcessingPlugin):
@@ -406,7 +410,16 @@ class ApplyRainForestsCalibrationLightGBM(ApplyRainForestsCalibration):
                 )
                 aligned_cubes.append(expanded_cube)
             else:
-                aligned_cubes.append(cube)
+                aligned_cubes.append(cube.copy())
+
+        # Ensure that all cubes have the same dimension order
+        spatial_dims = [
+            coord.name()
+            for coord in forecast_cube.coords(dim_coords=True)
+            if coord.name() != "realization"
+        ]
+        for cube in aligned_cubes:
+            enforce_coordinate_ordering(cube, ["realization", *spatial_dims])
 
         # Make data contiguous (required for numba interpolation)
         for cube in aligned_cubes:
-- 
2.43.0


From df2e865a4c2403119154087360212711bdbf291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:47 +0000
Subject: [PATCH 128/141] fix: RainForests took the ensemble members of a
 feature from its name and not its cube

---
 improver/calibration/rainforest_calibration.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/improver/calibration/rainforest_calibration.py b/improver/calibration/rainforest_calibration.py
index d1822e4..f25efea 100644
--- a/improver/calibration/rainforest_calibration.py
+++ b/improver/calibration/rainforest_calibration.py
@@ -380,11 +380,11 @@ class ApplyRainForestsCalibrationLightGBM(ApplyRainForestsCalibration):
         # Compare realization coordinates across cubes where present;
         # raise error if realization coordinates don't match, otherwise set
         # common_realization_coord to broadcast over.
-        realization_coords = {
-            variable.name(): variable.coord("realization")
+        realization_coords = [
+            variable.coord("realization")
             for variable in combined_cubes
             if variable.coords("realization")
-        }
+        ]
         if not realization_coords:
             # Case I: realization_coords is empty. Add single realization dim to all cubes.
             common_realization_coord = DimCoord(
@@ -394,10 +394,9 @@ class ApplyRainForestsCalibrationLightGBM(ApplyRainForestsCalibration):
             # Case II: realization_coords is not empty.
             # Note: In future, another option here could be to filter to common realization
             # values using filter_realizations() in utilities.cube_manipulation.
-            variables_with_realization = list(realization_coords.keys())
-            sample_realization = realization_coords[variables_with_realization[0]]
-            for feature in variables_with_realization[1:]:
-                if realization_coords[feature] != sample_realization:
+            sample_realization = realization_coords[0]
+            for realization_coord in realization_coords[1:]:
+                if realization_coord != sample_realization:
                     raise ValueError("Mismatch between realization dimension coords.")
             common_realization_coord = sample_realization
 
-- 
2.43.0


From b9bc1e06736697c46639fe114f742f91f2722ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:47 +0000
Subject: [PATCH 129/141] fix: RainForests thresholds were binned to the wrong
 side of a split value

---
 improver/calibration/rainforest_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/rainforest_calibration.py b/improver/calibration/rainforest_calibration.py
index f25efea..be6693e 100644
--- a/improver/calibration/rainforest_calibration.py
+++ b/improver/calibration/rainforest_calibration.py
@@ -545,8 +545,9 @@ class ApplyRainForestsCalibrationLightGBM(ApplyRainForestsCalibration):
             binned_data = np.empty(input_data.shape, dtype=np.int32)
             n_features = len(feature_splits)
             for i in range(n_features):
+                # values equal to a split belong below it, as in the models
                 binned_data[:, i] = np.digitize(
-                    input_data[:, i], bins=feature_splits[i]
+                    input_data[:, i], bins=feature_splits[i], right=True
                 )
             # sort so rows in the same bins are grouped
             sort_ind = np.lexsort(tuple([binned_data[:, i] for i in range(n_features)]))
-- 
2.43.0


From ffb0d0438a5c23daa070dfe507665769debebd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:47 +0000
Subject: [PATCH 130/141] fix: RainForests threshold matching tolerated
 differences larger than small thresholds

---
 improver/calibration/rainforest_calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/improver/calibration/rainforest_calibration.py b/improver/calibration/rainforest_calibration.py
index be6693e..3e8a1af 100644
--- a/improver/calibration/rainforest_calibration.py
+++ b/improver/calibration/rainforest_calibration.py
@@ -653,8 +653,9 @@ class ApplyRainForestsCalibrationLightGBM(ApplyRainForestsCalibration):
         output_thresholds = np.array(output_thresholds, dtype=np.float32)
         bounds_data = get_bounds_of_distribution(forecast.name(), forecast.units)
         lower_bound = bounds_data[0].astype(np.float32)
+        # thresholds can be very small (e.g. rates in m s-1), so no absolute tolerance
         if (len(self.model_thresholds) == len(output_thresholds)) and np.allclose(
-            self.model_thresholds, output_thresholds
+            self.model_thresholds, output_thresholds, rtol=1e-5, atol=0
         ):
             output_probabilities = np.copy(input_probabilities.data)
         else:
@@ -683,7 +684,7 @@ class ApplyRainForestsCalibrationLightGBM(ApplyRainForestsCalibration):
             output_probabilities = self._make_decreasing(output_probabilities)
 
         # set probability for lower bound to 1
-        if np.isclose(output_thresholds[0], lower_bound):
+        if np.isclose(output_thresholds[0], lower_bound, rtol=1e-5, atol=0):
             output_probabilities[0, :] = 1
 
         # Make output cube
-- 
2.43.0


From b8ad1888d4ff56e1ae59fc52819d38dec7b93960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:47 +0000
Subject: [PATCH 131/141] fix: RainForests output thresholds were used in the
 order given, not sorted

---
 improver/calibration/rainforest_calibration.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/improver/calibration/rainforest_calibration.py b/improver/calibration/rainforest_calibration.py
index 3e8a1af..0374ef8 100644
--- a/improver/calibration/rainforest_calibration.py
+++ b/improver/calibration/rainforest_calibration.py
@@ -770,6 +770,11 @@ class ApplyRainForestsCalibrationLightGBM(ApplyRainForestsCalibration):
         else:
             output_thresholds_in_forecast_units = np.array(output_thresholds)
 
+        # Output thresholds may have been given in any order
+        output_thresholds_in_forecast_units = np.sort(
+            output_thresholds_in_forecast_units
+        )
+
         # Calculate probabilities at output thresholds
         interpolated_per_realization_CDF = self._get_ensemble_distributions(
             per_realization_CDF, aligned_forecast, output_thresholds_in_forecast_units
-- 
2.43.0


From 1e83c9d02ce1390825ce3c4a0e7843e2d6b9fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:47 +0000
Subject: [PATCH 132/141] fix: the lightning nowcast changed the units of the
 cubes it was given

---
 improver/nowcasting/lightning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/nowcasting/lightning.py b/improver/nowcasting/lightning.py
index f9cf2bc..89eb47d 100644
--- a/improver/nowcasting/lightning.py
+++ b/improver/nowcasting/lightning.py
@@ -481,18 +481,18 @@ class NowcastLightning(PostProcessingPlugin):
         first_guess_lightning_cube = cubelist.extract_cube(
             "probability_of_rate_of_lightning_above_threshold"
         )
-        lightning_rate_cube = cubelist.extract_cube("rate_of_lightning")
+        lightning_rate_cube = cubelist.extract_cube("rate_of_lightning").copy()
         lightning_rate_cube.convert_units("min^-1")  # Ensure units are correct
         prob_precip_cube = cubelist.extract_cube(
             "probability_of_lwe_precipitation_rate_above_threshold"
-        )
+        ).copy()
         # Now find prob_vii_cube. Can't use strict=True here as cube may not be
         # present, so will use a normal extract and then merge_cube if needed.
         prob_vii_cube = cubelist.extract(
             "probability_of_vertical_integral_of_ice_above_threshold"
         )
         if prob_vii_cube:
-            prob_vii_cube = prob_vii_cube.merge_cube()
+            prob_vii_cube = prob_vii_cube.merge_cube().copy()
         precip_threshold_coord = find_threshold_coordinate(prob_precip_cube)
         precip_threshold_coord.convert_units("mm hr-1")
         precip_slice = prob_precip_cube.extract(
-- 
2.43.0


From d2ba981784f606ec5f80e6a2e379b7ed3487ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:47 +0000
Subject: [PATCH 133/141] fix: consistency with a reference mixed up points
 when the dimensions were in another order

---
 .../forecast_reference_enforcement.py         | 52 ++++++++++++++++---
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/improver/utilities/forecast_reference_enforcement.py b/improver/utilities/forecast_reference_enforcement.py
index e122e37..d804592 100644
--- a/improver/utilities/forecast_reference_enforcement.py
+++ b/improver/utilities/forecast_reference_enforcement.py
@@ -12,7 +12,31 @@ import numpy as np
 from iris.cube import Cube, CubeList
 
 from improver import PostProcessingPlugin
-from improver.metadata.probabilistic import is_probability
+from improver.metadata.probabilistic import (
+    find_threshold_coordinate,
+    is_probability,
+)
+from improver.utilities.cube_manipulation import (
+    enforce_coordinate_ordering,
+    get_dim_coord_names,
+)
+
+
+def _match_dimension_order(cube: Cube, target: Cube) -> None:
+    """Put the dimensions of a cube, in place, in the order in which they are
+    found on a target cube. Threshold dimensions match whatever their diagnostic.
+
+    Args:
+        cube: Cube to be reordered.
+        target: Cube with the dimensions in the required order.
+    """
+    dim_names = get_dim_coord_names(target)
+    if is_probability(target):
+        threshold_name = find_threshold_coordinate(target).name()
+        dim_names = [
+            "threshold" if name == threshold_name else name for name in dim_names
+        ]
+    enforce_coordinate_ordering(cube, dim_names)
 
 
 class EnforceConsistentForecasts(PostProcessingPlugin):
@@ -133,6 +157,10 @@ class EnforceConsistentForecasts(PostProcessingPlugin):
                 )
                 raise ValueError(msg)
 
+        # values are matched by position, so the reference must have its
+        # dimensions in the same order as the forecast
+        _match_dimension_order(reference_forecast, forecast)
+
         # linear transformation cannot be applied to probability forecasts
         if self.additive_amount != 0.0 or self.multiplicative_amount != 1.0:
             if is_probability(forecast):
@@ -300,10 +328,17 @@ def normalise_to_reference(
         )
         raise ValueError(msg)
 
-    total = cubes[0].data.copy()
-    if len(cubes) > 1:
-        for cube in cubes[1:]:
-            total += cube.data
+    # values are matched by position, so all of the inputs must have their
+    # dimensions in the same order
+    ordered_cubes = []
+    for cube in cubes:
+        ordered_cube = cube.copy()
+        _match_dimension_order(ordered_cube, reference)
+        ordered_cubes.append(ordered_cube)
+
+    total = ordered_cubes[0].data.copy()
+    for cube in ordered_cubes[1:]:
+        total += cube.data
 
     # check for zeroes in total when reference is non-zero
     total_zeroes = total == 0.0
@@ -323,8 +358,11 @@ def normalise_to_reference(
     total[total_zeroes] = 1.0
 
     output = iris.cube.CubeList()
-    for index, cube in enumerate(cubes):
-        output_cube = cube.copy(data=reference.data * cube.data / total)
+    for cube, ordered_cube in zip(cubes, ordered_cubes):
+        output_cube = ordered_cube.copy(
+            data=reference.data * ordered_cube.data / total
+        )
+        _match_dimension_order(output_cube, cube)
         output.append(output_cube)
 
     return output
-- 
2.43.0


From 0fe483e6ccbc38bf7540059a7ef0a4c1c0acf139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:59 +0000
Subject: [PATCH 134/141] fix: allow enough iterations for the latent heat
 adjustment of small arrays, where deep convection raised RuntimeError

---
 .../psychrometric_calculations/psychrometric_calculations.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/psychrometric_calculations/psychrometric_calculations.py b/improver/psychrometric_calculations/psychrometric_calculations.py
index d5eb596..2e4fab9 100644
--- a/improver/psychrometric_calculations/psychrometric_calculations.py
+++ b/improver/psychrometric_calculations/psychrometric_calculations.py
@@ -270,7 +270,7 @@ def adjust_for_latent_heat(
         humidity_in.copy(),
         args=(temperature_in, humidity_in, pressure),
         tol=1e-6,
-        maxiter=6 if humidity_in.size > 100 else 10,
+        maxiter=6 if humidity_in.size > 100 else 50,
         disp=True,
     ).astype(np.float32)
     temperature = temperature_in + _latent_heat_release(
-- 
2.43.0


From db752250efd6e9001340830fd7fccba66c72b277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 135/141] fix: CubeCombiner accepted cubes with different
 numbers of dimensions

---
 improver/cube_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 1305668..afb3f3d 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -228,7 +228,7 @@ class CubeCombiner(BasePlugin):
                 np.any([comp(a, b) for comp in comparators])
                 for a, b in zip(coords, ref_coords)
             ]
-            if not np.all(compare):
+            if len(coords) != len(ref_coords) or not np.all(compare):
                 msg = (
                     "Cannot combine cubes with different dimensions:\n"
                     "{} and {}".format(repr(cube_list[0]), repr(cube))
-- 
2.43.0


From f5e4e1c6561a2ca9ddd1e942ef8bdbc4b8f47bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 136/141] fix: clip_cube_data could not be used with site data,
 so neither could bias correction with bounds

---
 improver/utilities/cube_manipulation.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index 5e43b26..a0cb23f 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -17,7 +17,6 @@ from improver import BasePlugin
 from improver.metadata.constants import FLOAT_DTYPE, FLOAT_TYPES
 from improver.metadata.probabilistic import find_threshold_coordinate
 from improver.utilities.common_input_handle import as_cube
-from improver.utilities.cube_checker import check_cube_coordinates
 
 
 def collapsed(cube: Cube, *args: Any, **kwargs: Any) -> Cube:
@@ -547,19 +546,7 @@ def clip_cube_data(cube: Cube, minimum_value: float, maximum_value: float) -> Cu
         The processed cube with the data clipped to the limits of the
         original preprocessed cube.
     """
-    original_attributes = cube.attributes
-    original_methods = cube.cell_methods
-
-    result = iris.cube.CubeList()
-    for cube_slice in cube.slices([cube.coord(axis="y"), cube.coord(axis="x")]):
-        cube_slice.data = np.clip(cube_slice.data, minimum_value, maximum_value)
-        result.append(cube_slice)
-
-    result = result.merge_cube()
-    result.cell_methods = original_methods
-    result.attributes = original_attributes
-    result = check_cube_coordinates(cube, result)
-    return result
+    return cube.copy(data=np.clip(cube.data, minimum_value, maximum_value))
 
 
 def expand_bounds(
-- 
2.43.0


From 527d56c85951b76dd108e80b79e14edee4c67e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 137/141] fix: gust diagnostic mixed up points when the
 dimensions of gust and wind speed were ordered differently

---
 improver/wind_calculations/wind_gust_diagnostic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/improver/wind_calculations/wind_gust_diagnostic.py b/improver/wind_calculations/wind_gust_diagnostic.py
index 1e194bd..aa5b774 100644
--- a/improver/wind_calculations/wind_gust_diagnostic.py
+++ b/improver/wind_calculations/wind_gust_diagnostic.py
@@ -14,6 +14,10 @@ from iris.cube import Cube
 
 from improver import PostProcessingPlugin
 from improver.metadata.probabilistic import find_percentile_coordinate
+from improver.utilities.cube_manipulation import (
+    enforce_coordinate_ordering,
+    get_dim_coord_names,
+)
 
 
 class WindGustDiagnostic(PostProcessingPlugin):
@@ -175,6 +179,10 @@ class WindGustDiagnostic(PostProcessingPlugin):
             ):
                 raise ValueError(msg)
 
+        # Match the order of the dimensions of the gust cube
+        req_cube_ws = req_cube_ws.copy()
+        enforce_coordinate_ordering(req_cube_ws, get_dim_coord_names(req_cube_gust))
+
         # Add metadata to gust cube
         req_cube_gust = self.add_metadata(req_cube_gust)
 
-- 
2.43.0


From ea2737640fc17fa71d3e0aca8b3a689c6aa08839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:36 +0000
Subject: [PATCH 138/141] fix: import check_cube_coordinates from its own
 module in blending weights, as cube_manipulation no longer uses it

---
 improver/blending/weights.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/improver/blending/weights.py b/improver/blending/weights.py
index f0780d4..1b19db9 100644
--- a/improver/blending/weights.py
+++ b/improver/blending/weights.py
@@ -18,10 +18,8 @@ from scipy.interpolate import interp1d
 
 from improver import BasePlugin
 from improver.blending import MODEL_BLEND_COORD, MODEL_NAME_COORD
-from improver.utilities.cube_manipulation import (
-    check_cube_coordinates,
-    sort_coord_in_cube,
-)
+from improver.utilities.cube_checker import check_cube_coordinates
+from improver.utilities.cube_manipulation import sort_coord_in_cube
 
 
 class WeightsUtilities:
-- 
2.43.0


From 702e4fdb3ddb536ef62f55fbbdfdcff4ed71cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:40 +0000
Subject: [PATCH 139/141] fix: estimating EMOS coefficients failed when the
 minimisation met its tolerance without an iteration

---
 improver/calibration/ensemble_calibration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/calibration/ensemble_calibration.py b/improver/calibration/ensemble_calibration.py
index 235a676..dc569d0 100644
--- a/improver/calibration/ensemble_calibration.py
+++ b/improver/calibration/ensemble_calibration.py
@@ -307,6 +307,10 @@ class ContinuousRankedProbabilityScoreMinimisers(BasePlugin):
             Warning: If a satisfactory minimisation has not been achieved.
 
         """
+        if len(allvecs) < 2:
+            # The first guess was within the tolerance or no iterations were allowed,
+            # so there is no earlier iteration to compare with.
+            return
         last_iteration_percentage_change = (
             np.absolute((allvecs[-1] - allvecs[-2]) / allvecs[-2]) * 100
         )
-- 
2.43.0


From e73792b9a2c14b04cd2abf7a55ba02e3b9e4c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:40 +0000
Subject: [PATCH 140/141] fix: exception coordinates not named in the order of
 their dimensions were put back in the wrong place, or failed

---
 improver/utilities/cube_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/cube_checker.py b/improver/utilities/cube_checker.py
index af85cd9..5caafa8 100644
--- a/improver/utilities/cube_checker.py
+++ b/improver/utilities/cube_checker.py
@@ -114,7 +114,7 @@ def check_cube_coordinates(
             raise CoordinateNotFoundError(msg)
 
     correct_order = np.array(correct_order)
-    for dim in new_cube_only_dims:
+    for dim in sorted(new_cube_only_dims):
         correct_order = np.insert(correct_order, dim, dim)
 
     new_cube.transpose(correct_order)
-- 
2.43.0


From 50deb0c9e4373775767e7c5878ee2c829a0c0351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:16 +0000
Subject: [PATCH 141/141] fix: comparing integers exactly overlooked
 differences beyond the precision of floats

---
 improver/utilities/compare.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/utilities/compare.py b/improver/utilities/compare.py
index 5ffa7dd..8b76ae5 100644
--- a/improver/utilities/compare.py
+++ b/improver/utilities/compare.py
@@ -379,6 +379,9 @@ def compare_data(
             np.testing.assert_allclose(
                 actual_data, desired_data, rtol, atol, equal_nan=True, verbose=True
             )
+            if rtol == 0 and atol == 0:
+                # closeness is evaluated as floats, which do not hold all integers
+                np.testing.assert_equal(actual_data, desired_data, verbose=True)
     except AssertionError as exc:
         difference_found = True
         numpy_err_message = str(exc).strip()
-- 
2.43.0

