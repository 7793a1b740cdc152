From bc3c6504c31fd24a0601b288a6acbdc5c6c992c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 01/39] fix: use the drift value of the evaluated point in the
 universal kriging loop backend

The loop backends of UniversalKriging and UniversalKriging3D indexed the
specified drift arrays with the matrix row instead of the point index.
---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 471802a..7b34fd0 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1067,7 +1067,7 @@ class UniversalKriging:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 9b67519..d25b2ca 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -854,7 +854,7 @@ class UniversalKriging3D:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
-- 
2.43.0


From afc47fd470bbc02c3a12436ff909b01cb058d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 02/39] fix: point_log drift in the loop backend at the
 location of a point drift

The scalar log distance was indexed like an array, which raised a TypeError.
---
 src/pykrige/uk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7b34fd0..7c22bfb 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1056,8 +1056,8 @@ class UniversalKriging:
                             + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
                         )
                     )
-                    if np.any(np.isinf(log_dist)):
-                        log_dist[np.isinf(log_dist)] = -100.0
+                    if np.isinf(log_dist):
+                        log_dist = -100.0
                     b[i, 0] = -self.point_log_array[well_no, 2] * log_dist
                     i += 1
             if self.external_Z_drift:
-- 
2.43.0


From afd1eba9599c97764609580ac6072e8303dda02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 03/39] fix: readjust point drifts when update_variogram_model
 changes the anisotropy

The data points were moved to the new adjusted frame, the point_log
locations stayed in the old one.
---
 src/pykrige/uk.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7c22bfb..6114b6a 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -448,6 +448,7 @@ class UniversalKriging:
                 )
             self.point_log_drift = True
             point_log = np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))
+            self.point_log_orig = point_log
             self.point_log_array = np.zeros(point_log.shape)
             self.point_log_array[:, 2] = point_log[:, 2]
             self.point_log_array[:, :2] = _adjust_for_anisotropy(
@@ -721,6 +722,14 @@ class UniversalKriging:
                 [self.anisotropy_scaling],
                 [self.anisotropy_angle],
             ).T
+            if self.point_log_drift:
+                self.point_log_array = self.point_log_array.copy()
+                self.point_log_array[:, :2] = _adjust_for_anisotropy(
+                    np.vstack((self.point_log_orig[:, 0], self.point_log_orig[:, 1])).T,
+                    [self.XCENTER, self.YCENTER],
+                    [self.anisotropy_scaling],
+                    [self.anisotropy_angle],
+                )
 
         if self.verbose:
             print("Updating variogram mode...")
-- 
2.43.0


From 815d79b6fc165e86540b4d06ade98854b0546e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 04/39] fix: accept integer coordinates when adjusting for
 anisotropy

Integer kriging points and point drifts raised a casting error, because
the center was subtracted in place.
---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 30ae911..28fc8da 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -142,7 +142,7 @@ def _adjust_for_anisotropy(X, center, scaling, angle):
     center = np.asarray(center)[None, :]
     angle = np.asarray(angle) * np.pi / 180
 
-    X -= center
+    X = X - center
 
     Ndim = X.shape[1]
 
-- 
2.43.0


From 3ac78e165470087e57dfc2bdc9296cabc500b05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 05/39] fix: accept integer variogram parameters in the C
 backend

---
 src/pykrige/lib/cok.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index 9a350e1..e202340 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -36,7 +36,9 @@ cpdef _c_exec_loop(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(
+        pars['variogram_model_parameters'], dtype='float64'
+    )
 
     cdef double [::1, :] a_inv = np.asfortranarray(np.empty_like(a_all))
 
@@ -125,7 +127,9 @@ cpdef _c_exec_loop_moving_window(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(
+        pars['variogram_model_parameters'], dtype='float64'
+    )
 
     for i in range(npt):
         if mask[i]:
-- 
2.43.0


From c2f9de37e0559de71dae364a3036366f1203f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 06/39] fix: limit n_closest_points to the number of data
 points

Asking for more neighbors than data points raised an error in the loop
backend and corrupted memory in the C backend.
---
 src/pykrige/ok.py   | 3 +++
 src/pykrige/ok3d.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 2eb0a7a..cae7f43 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -838,6 +838,9 @@ class OrdinaryKriging:
             # If this is not checked, nondescriptive errors emerge
             # later in the code.
             raise ValueError("n_closest_points has to be at least two!")
+        if n_closest_points is not None:
+            # there can't be more neighbors than data points
+            n_closest_points = min(n_closest_points, self.X_ADJUSTED.shape[0])
 
         xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
         ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 417c82c..8c8d886 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -901,6 +901,8 @@ class OrdinaryKriging3D:
         if n_closest_points is not None:
             from scipy.spatial import cKDTree
 
+            # there can't be more neighbors than data points
+            n_closest_points = min(n_closest_points, n)
             tree = cKDTree(xyz_data)
             bd, bd_idx = tree.query(xyz_points, k=n_closest_points, eps=0.0)
             if backend == "loop":
-- 
2.43.0


From a19591f35cbe63fe0430a431ae3e9424fe29dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 07/39] fix: never replace a custom variogram function by a
 built-in in the C backend

The C backend selects the model by the name of the function, so a custom
function named like a built-in one was silently ignored.
---
 src/pykrige/ok.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index cae7f43..7900dfa 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -904,6 +904,11 @@ class OrdinaryKriging:
 
         c_pars = None
         if backend == "C":
+            if self.variogram_model == "custom":
+                # the C backend would look up a built-in model by function name
+                raise NotImplementedError(
+                    "Custom variogram models are not supported by the C backend."
+                )
             try:
                 from .lib.cok import _c_exec_loop, _c_exec_loop_moving_window
             except ImportError:
-- 
2.43.0


From 939c8e3b109d29bb303adcfad01548e7b781ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 08/39] fix: interpolate the external drift correctly for
 unsorted grid coordinates

---
 src/pykrige/uk.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 6114b6a..e6848de 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -414,6 +414,9 @@ class UniversalKriging:
             if external_drift_x is None or external_drift_y is None:
                 raise ValueError("Must specify coordinates of external Z drift terms.")
             self.external_Z_drift = True
+            external_drift = np.array(external_drift)
+            external_drift_x = np.array(external_drift_x)
+            external_drift_y = np.array(external_drift_y)
             if (
                 external_drift.shape[0] != external_drift_y.shape[0]
                 or external_drift.shape[1] != external_drift_x.shape[0]
@@ -432,6 +435,12 @@ class UniversalKriging:
                 self.external_Z_array = np.array(external_drift)
             self.external_Z_array_x = np.array(external_drift_x).flatten()
             self.external_Z_array_y = np.array(external_drift_y).flatten()
+            # the interpolation relies on ascending coordinates
+            order_x = np.argsort(self.external_Z_array_x)
+            order_y = np.argsort(self.external_Z_array_y)
+            self.external_Z_array_x = self.external_Z_array_x[order_x]
+            self.external_Z_array_y = self.external_Z_array_y[order_y]
+            self.external_Z_array = self.external_Z_array[order_y][:, order_x]
             self.z_scalars = self._calculate_data_point_zscalars(
                 self.X_ORIG, self.Y_ORIG
             )
-- 
2.43.0


From fcf08834a4e706d4b3ff78464686b16c0a7dc241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 09/39] fix: euclid3_to_great_circle accepts scalars and leaves
 its argument unchanged

---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 28fc8da..c132038 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -113,7 +113,7 @@ def euclid3_to_great_circle(euclid3_distance):
         The corresponding great circle distance(s) between the points.
     """
     # Eliminate some possible numerical errors:
-    euclid3_distance[euclid3_distance > 2.0] = 2.0
+    euclid3_distance = np.minimum(euclid3_distance, 2.0)
     return 180.0 - 360.0 / np.pi * np.arccos(0.5 * euclid3_distance)
 
 
-- 
2.43.0


From b33d1c1ad102a79be119d6bb695bedf237e56661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 10/39] fix: honour pseudo_inv when kriging with a moving
 window

---
 src/pykrige/lib/cok.pyx | 12 +++++++++++-
 src/pykrige/ok.py       |  5 ++++-
 src/pykrige/ok3d.py     |  5 ++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index e202340..9288508 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -166,7 +166,17 @@ cpdef _c_exec_loop_moving_window(
         # a2D = a_selection.base[:nb*nb].reshape((nb, nb))
         # x = scipy.linalg.solve(a2D, b.base[:nb])
 
-        dgesv(
+        if pars['pseudo_inv']:
+            if pars['pseudo_inv_type'] == "pinvh":
+                p_inv = scipy.linalg.pinvh
+            else:
+                p_inv = scipy.linalg.pinv
+            # the pseudo inverse of the (symmetric) kriging matrix
+            a2D = a_selection.base[:nb*nb].reshape((nb, nb))
+            x.base[:nb] = np.dot(p_inv(a2D), b.base[:nb])
+            info = 0
+        else:
+            dgesv(
                 &nb,
                 &nrhs,
                 &(a_selection[0]),
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 7900dfa..c35a9af 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -750,7 +750,10 @@ class OrdinaryKriging:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            if self.pseudo_inv:
+                x = np.dot(P_INV[self.pseudo_inv_type](a), b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             zvalues[i] = x[:n, 0].dot(self.Z[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 8c8d886..d880238 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -725,7 +725,10 @@ class OrdinaryKriging3D:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            if self.pseudo_inv:
+                x = np.dot(P_INV[self.pseudo_inv_type](a), b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             kvalues[i] = x[:n, 0].dot(self.VALUES[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
-- 
2.43.0


From 9a1b6fd573ff05909e658a18e738c0e6eab1a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 11/39] fix: always separate the values of an ASCII grid file

---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 496dad8..311d9a3 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -122,7 +122,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
         for m in range(z.shape[0] - 1, -1, -1):
             for n in range(z.shape[1]):
-                f.write("{:<16.2f}".format(z[m, n]))
+                f.write("{:<15.2f} ".format(z[m, n]))
             if m != 0:
                 f.write("\n")
 
-- 
2.43.0


From 18c94dd93686f356b93b53293e61ea34f0c387a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 12/39] fix: reject every non-constant grid spacing when
 writing grid files

---
 src/pykrige/kriging_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 311d9a3..ef16729 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -75,8 +75,8 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    if not np.allclose(np.diff(x), x[1] - x[0]) or not np.allclose(
+        np.diff(y), y[1] - y[0]
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
@@ -289,8 +289,8 @@ def write_zmap_grid(
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
 
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    if not np.allclose(np.diff(x), x[1] - x[0]) or not np.allclose(
+        np.diff(y), y[1] - y[0]
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
-- 
2.43.0


From b83885dbd1786f5f5bc76d9da5d3d8612dc277c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 13/39] fix: tolerate rounding when comparing the cell sizes of
 an ASCII grid

---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index ef16729..6640888 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -83,7 +83,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
         )
     cellsize = -1
     if style == 2:
-        if dx != dy:
+        if not np.isclose(dx, dy):
             raise ValueError(
                 "X and Y spacing is not the same. "
                 "Cannot write *.asc file in the specified format."
-- 
2.43.0


From ea4d39a485dc88319684dcd01a3e2701b1722ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 14/39] fix: do not round the georeference in the header of
 ASCII grid files

---
 src/pykrige/kriging_tools.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 6640888..1487562 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -105,17 +105,17 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
         if style == 1:
             f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
             f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
-            f.write("XLLCENTER      " + "{:<10.2f}".format(xllcenter) + "\n")
-            f.write("YLLCENTER      " + "{:<10.2f}".format(yllcenter) + "\n")
-            f.write("DX             " + "{:<10.2f}".format(dx) + "\n")
-            f.write("DY             " + "{:<10.2f}".format(dy) + "\n")
+            f.write("XLLCENTER      " + "{:<10}".format(float(xllcenter)) + "\n")
+            f.write("YLLCENTER      " + "{:<10}".format(float(yllcenter)) + "\n")
+            f.write("DX             " + "{:<10}".format(float(dx)) + "\n")
+            f.write("DY             " + "{:<10}".format(float(dy)) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
         elif style == 2:
             f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
             f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
-            f.write("XLLCORNER      " + "{:<10.2f}".format(xllcorner) + "\n")
-            f.write("YLLCORNER      " + "{:<10.2f}".format(yllcorner) + "\n")
-            f.write("CELLSIZE       " + "{:<10.2f}".format(cellsize) + "\n")
+            f.write("XLLCORNER      " + "{:<10}".format(float(xllcorner)) + "\n")
+            f.write("YLLCORNER      " + "{:<10}".format(float(yllcorner)) + "\n")
+            f.write("CELLSIZE       " + "{:<10}".format(float(cellsize)) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
         else:
             raise ValueError("style kwarg must be either 1 or 2.")
-- 
2.43.0


From bc1b3b55e69e6236b159a5f02cfac9e86c65df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 15/39] fix: write the no data value of ZMAP files the same way
 in header and body

---
 src/pykrige/kriging_tools.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 1487562..5710679 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -299,6 +299,9 @@ def write_zmap_grid(
     xllcenter = x[0]
     yllcenter = y[0]
 
+    # the same text as in the body, otherwise missing cells can't be recognized
+    no_data_str = _format_zmap_value(no_data).strip()
+
     hix = xllcenter + (nx - 1) * dx
     hiy = yllcenter + (ny - 1) * dy
 
@@ -316,7 +319,7 @@ def write_zmap_grid(
         f.write("!     COORDINATE REFERENCE SYSTEM: " + coord_sys + "\n")
         f.write("!" + "\n")
         f.write("@Grid HEADER, GRID, " + str(nodes_per_line) + "\n")
-        f.write(" " + str(field_width) + ", " + str(no_data) + ",  , 1 , 1" + "\n")
+        f.write(" " + str(field_width) + ", " + no_data_str + ",  , 1 , 1" + "\n")
         f.write(
             "   "
             + str(ny)
@@ -340,14 +343,9 @@ def write_zmap_grid(
             for m in range(z.shape[0] - 1, -1, -1):
                 count += 1
                 if np.isnan(z[m, n]):
-                    f.write(space_back_to_front(format(no_data, "13.7E") + "  "))
+                    f.write(_format_zmap_value(no_data))
                 else:
-                    if abs(z[m, n]) >= 1e100:  # one tailing space less
-                        f.write(space_back_to_front(format(z[m, n], "13.7E") + " "))
-                    elif abs(z[m, n]) >= 1e6:
-                        f.write(space_back_to_front(format(z[m, n], "13.7E") + "  "))
-                    else:
-                        f.write(space_back_to_front("{:<13.4f}".format(z[m, n]) + "  "))
+                    f.write(_format_zmap_value(z[m, n]))
                 if count % nodes_per_line == 0 or m == 0:
                     f.write("\n")
 
@@ -459,6 +457,14 @@ def read_zmap_grid(filename):
     return z, gridx, gridy, cellsize, no_data_value, coord_sys
 
 
+def _format_zmap_value(value):
+    if abs(value) >= 1e100:  # one tailing space less
+        return space_back_to_front(format(value, "13.7E") + " ")
+    if abs(value) >= 1e6:
+        return space_back_to_front(format(value, "13.7E") + "  ")
+    return space_back_to_front("{:<13.4f}".format(value) + "  ")
+
+
 def space_back_to_front(string):
     net = string.replace(" ", "")
     return "".join(string.rsplit(net)) + net
-- 
2.43.0


From bca2c10e653cd42b09965d92535c13c199644532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 16/39] fix: return exactly one coordinate per column and row
 from ZMAP files

---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 5710679..da59a54 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -449,8 +449,8 @@ def read_zmap_grid(filename):
     dx = (maxx - originx) / (nx - 1)
     dy = (maxy - originy) / (ny - 1)
 
-    gridx = np.arange(originx, originx + nx * dx, dx)
-    gridy = np.arange(originy, originy + ny * dy, dy)
+    gridx = originx + dx * np.arange(nx)
+    gridy = originy + dy * np.arange(ny)
 
     cellsize = (dx, dy)
 
-- 
2.43.0


From c4c9793895e5c6dcc5be5360e8ae53ecef611de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 17/39] fix: reject truncated ZMAP files instead of returning
 uninitialised data

---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index da59a54..220deb0 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -432,7 +432,7 @@ def read_zmap_grid(filename):
                     data_values = np.empty(ny * nx)
                 i_header_line += 1
 
-    if nx * ny != len(data_values):
+    if nx * ny != len(data_values) or nx * ny != i_value:
         raise IOError(
             "Error reading *.zmap file. Encountered problem "
             "with header: (nx * ny) does not match with the "
-- 
2.43.0


From c3460256418bb95c7b56cf403012999f8968351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 18/39] fix: read back the coordinate system name of ZMAP files
 unchanged

---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 220deb0..09990d5 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -400,7 +400,7 @@ def read_zmap_grid(filename):
             if line.startswith("!"):
                 line_strings = line.split(":")
                 if line_strings[0].__contains__("COORDINATE REFERENCE SYSTEM"):
-                    coord_sys = line_strings[1].replace("\n", "")
+                    coord_sys = line.split(":", 1)[1].strip()
             else:
                 line_strings = line.split()
                 line_strings = [string.replace(",", "") for string in line_strings]
-- 
2.43.0


From a68733a079e471dd694d9b9e137dbecf7889e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 19/39] fix: predict class labels in ClassificationKriging

---
 src/pykrige/ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index 4199c87..20dd3c4 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -167,7 +167,7 @@ class ClassificationKriging:
         pred_proba_ilr = self.krige_residual(x, **kwargs) + ml_pred_ilr
         pred_proba = inverse_ilr_transformation(pred_proba_ilr)
 
-        return np.argmax(pred_proba, axis=1)
+        return self.classes_[np.argmax(pred_proba, axis=1)]
 
     def krige_residual(self, x, **kwargs):
         """
-- 
2.43.0


From 0bd6778f97cb3290c39a1d97d5650ad4b601a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 20/39] fix: accept the documented one-dimensional targets in
 ClassificationKriging

---
 src/pykrige/ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index 20dd3c4..b6b195c 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -132,7 +132,7 @@ class ClassificationKriging:
         ml_pred_ilr = ilr_transformation(ml_pred)
 
         self.onehotencode = OneHotEncoder(categories=[self.classes_])
-        y_ohe = np.array(self.onehotencode.fit_transform(y).todense())
+        y_ohe = np.array(self.onehotencode.fit_transform(y.reshape(-1, 1)).todense())
         y_ohe_ilr = ilr_transformation(y_ohe)
 
         for i in range(len(self.classes_) - 1):
-- 
2.43.0


From 492d37797eb99b7c147161e8308a4918183be299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 21/39] fix: keep own copies of the caller's parameter and
 drift lists

---
 src/pykrige/core.py | 6 +++---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index c132038..b7aac69 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -330,7 +330,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'linear'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["power"]:
             if len(variogram_model_parameters) != 3:
@@ -340,7 +340,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'power'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["gaussian", "spherical", "exponential", "hole-effect"]:
             if len(variogram_model_parameters) != 3:
@@ -357,7 +357,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
             ]
 
         elif variogram_model in ["custom"]:
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         else:
             raise ValueError(
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index e6848de..7c9c357 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -515,7 +515,7 @@ class UniversalKriging:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index d25b2ca..67c0144 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -445,7 +445,7 @@ class UniversalKriging3D:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
-- 
2.43.0


From 9cbbf24caeeb882a946910baa6f0215c4dc1e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 22/39] fix: accept any array-like mask

---
 src/pykrige/ok.py   | 1 +
 src/pykrige/ok3d.py | 1 +
 src/pykrige/uk.py   | 1 +
 src/pykrige/uk3d.py | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index c35a9af..71317a0 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -858,6 +858,7 @@ class OrdinaryKriging:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                mask = np.asarray(mask, dtype=bool)
                 if mask.shape[0] != ny or mask.shape[1] != nx:
                     if mask.shape[0] == nx and mask.shape[1] == ny:
                         mask = mask.T
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index d880238..8b3b7f9 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -848,6 +848,7 @@ class OrdinaryKriging3D:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                mask = np.asarray(mask, dtype=bool)
                 if mask.ndim != 3:
                     raise ValueError("Mask is not three-dimensional.")
                 if mask.shape[0] != nz or mask.shape[1] != ny or mask.shape[2] != nx:
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7c9c357..af00c27 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1208,6 +1208,7 @@ class UniversalKriging:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                mask = np.asarray(mask, dtype=bool)
                 if mask.shape[0] != ny or mask.shape[1] != nx:
                     if mask.shape[0] == nx and mask.shape[1] == ny:
                         mask = mask.T
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 67c0144..37db9a0 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -1000,6 +1000,7 @@ class UniversalKriging3D:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                mask = np.asarray(mask, dtype=bool)
                 if mask.ndim != 3:
                     raise ValueError("Mask is not three-dimensional.")
                 if mask.shape[0] != nz or mask.shape[1] != ny or mask.shape[2] != nx:
-- 
2.43.0


From 69a2b2297978c8bf5fd80e39ca99b7d0fe431b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 23/39] fix: accept specified drift arrays of all documented
 shapes

---
 src/pykrige/uk.py   | 2 ++
 src/pykrige/uk3d.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index af00c27..f3739bc 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1248,6 +1248,7 @@ class UniversalKriging:
                     "encapsulated in a list."
                 )
             for spec in specified_drift_arrays:
+                spec = np.asarray(spec)
                 if style in ["grid", "masked"]:
                     if spec.ndim < 2:
                         raise ValueError(
@@ -1266,6 +1267,7 @@ class UniversalKriging:
                     else:
                         spec_drift_grids.append(np.squeeze(spec))
                 elif style == "points":
+                    spec = np.atleast_1d(np.squeeze(spec))
                     if spec.ndim != 1:
                         raise ValueError(
                             "Dimensions of drift values array do "
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 37db9a0..8947df4 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -1047,6 +1047,7 @@ class UniversalKriging3D:
                     "be encapsulated in a list."
                 )
             for spec in specified_drift_arrays:
+                spec = np.asarray(spec)
                 if style in ["grid", "masked"]:
                     if spec.ndim < 3:
                         raise ValueError(
@@ -1073,6 +1074,7 @@ class UniversalKriging3D:
                     else:
                         spec_drift_grids.append(np.squeeze(spec))
                 elif style == "points":
+                    spec = np.atleast_1d(np.squeeze(spec))
                     if spec.ndim != 1:
                         raise ValueError(
                             "Dimensions of drift values array do "
-- 
2.43.0


From 7e78b808cfd4d87ad82361e6fe37f9461e51b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 24/39] fix: ignore masked points when checking the external
 drift domain

---
 src/pykrige/uk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index f3739bc..1efce90 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -983,8 +983,9 @@ class UniversalKriging:
                 b[:, i, 0] = -self.point_log_array[well_no, 2] * log_dist
                 i += 1
         if self.external_Z_drift:
-            b[:, i, 0] = self._calculate_data_point_zscalars(
-                xy_orig[:, 0], xy_orig[:, 1]
+            # masked points may lie outside of the external drift domain
+            b[~mask, i, 0] = self._calculate_data_point_zscalars(
+                xy_orig[~mask, 0], xy_orig[~mask, 1]
             )
             i += 1
         if self.specified_drift:
-- 
2.43.0


From f7306379d26630ff91ec84e371ffbd66ae9b4ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 25/39] fix: keep the previous variogram model if
 update_variogram_model fails

---
 src/pykrige/core.py | 20 ++++++++++++++++++++
 src/pykrige/ok.py   |  2 ++
 src/pykrige/ok3d.py |  2 ++
 src/pykrige/uk.py   |  2 ++
 src/pykrige/uk3d.py |  2 ++
 5 files changed, 28 insertions(+)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index b7aac69..ee37136 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -22,6 +22,8 @@ References
 Copyright (c) 2015-2020, PyKrige Developers
 """
 
+import functools
+
 import numpy as np
 import scipy.linalg as spl
 from scipy.optimize import least_squares
@@ -193,6 +195,24 @@ def _adjust_for_anisotropy(X, center, scaling, angle):
     return X_adj
 
 
+def _restore_on_error(method):
+    """Decorator for methods that change the state of an object. Restores the
+    previous attributes if the method fails, to prevent an inconsistent state.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        state = dict(self.__dict__)
+        try:
+            return method(self, *args, **kwargs)
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
+
+    return wrapper
+
+
 def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
     """Converts the user input for the variogram model parameters into the
     format expected in the rest of the code.
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 71317a0..1551105 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -35,6 +35,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -376,6 +377,7 @@ class OrdinaryKriging:
         else:
             self.delta, self.sigma, self.epsilon, self.Q1, self.Q2, self.cR = [None] * 6
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 8b3b7f9..c7936bf 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -34,6 +34,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -365,6 +366,7 @@ class OrdinaryKriging3D:
             print("Q2 =", self.Q2)
             print("cR =", self.cR, "\n")
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 1efce90..4b5dfc1 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -33,6 +33,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -637,6 +638,7 @@ class UniversalKriging:
 
         return z_scalars
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 8947df4..cb5a1e5 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -33,6 +33,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -449,6 +450,7 @@ class UniversalKriging3D:
         else:
             self.functional_drift = False
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
-- 
2.43.0


From d46d65dc177c6b0191ad45947b4b3ca7638fd3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 26/39] fix: recognize points at point drift locations despite
 rounding errors

---
 src/pykrige/uk.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 4b5dfc1..be3eec1 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -909,8 +909,8 @@ class UniversalKriging:
                         + (self.Y_ADJUSTED - self.point_log_array[well_no, 1]) ** 2
                     )
                 )
-                if np.any(np.isinf(log_dist)):
-                    log_dist[np.isinf(log_dist)] = -100.0
+                # coordinates of the same point can differ by rounding errors
+                log_dist[log_dist <= np.log(self.eps)] = -100.0
                 a[:n, i] = -self.point_log_array[well_no, 2] * log_dist
                 a[i, :n] = -self.point_log_array[well_no, 2] * log_dist
                 i += 1
@@ -980,8 +980,8 @@ class UniversalKriging:
                         + (xy[:, 1] - self.point_log_array[well_no, 1]) ** 2
                     )
                 )
-                if np.any(np.isinf(log_dist)):
-                    log_dist[np.isinf(log_dist)] = -100.0
+                # coordinates of the same point can differ by rounding errors
+                log_dist[log_dist <= np.log(self.eps)] = -100.0
                 b[:, i, 0] = -self.point_log_array[well_no, 2] * log_dist
                 i += 1
         if self.external_Z_drift:
@@ -1077,7 +1077,7 @@ class UniversalKriging:
                             + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
                         )
                     )
-                    if np.isinf(log_dist):
+                    if log_dist <= np.log(self.eps):
                         log_dist = -100.0
                     b[i, 0] = -self.point_log_array[well_no, 2] * log_dist
                     i += 1
-- 
2.43.0


From 8fc5af2952f0236a861271a1d2bdf16c23695acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 27/39] fix: refuse GSTools models of more than the supported
 dimensions

---
 src/pykrige/ok.py   | 4 ++--
 src/pykrige/ok3d.py | 4 ++--
 src/pykrige/uk.py   | 4 ++--
 src/pykrige/uk3d.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 1551105..8694016 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -226,7 +226,7 @@ class OrdinaryKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim > 2:
                 raise ValueError("GSTools: model dim is not 1 or 2")
             # check if coordinate types match
             if self.model.latlon and (self.coordinates_type == "euclidean"):
@@ -433,7 +433,7 @@ class OrdinaryKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim > 2:
                 raise ValueError("GSTools: model dim is not 1 or 2")
             # check if coordinate types match
             if self.model.latlon and (self.coordinates_type == "euclidean"):
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index c7936bf..6aa6ba3 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -237,7 +237,7 @@ class OrdinaryKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3 or self.model.latlon:
                 raise ValueError("GSTools: model dim is not 3")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
@@ -435,7 +435,7 @@ class OrdinaryKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3 or self.model.latlon:
                 raise ValueError("GSTools: model dim is not 3")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index be3eec1..1c565a1 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -270,7 +270,7 @@ class UniversalKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim > 2:
                 raise ValueError("GSTools: model dim is not 1 or 2")
             if self.model.latlon:
                 raise ValueError(
@@ -691,7 +691,7 @@ class UniversalKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim > 2:
                 raise ValueError("GSTools: model dim is not 1 or 2")
             if self.model.latlon:
                 raise ValueError(
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index cb5a1e5..357a782 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -265,7 +265,7 @@ class UniversalKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3 or self.model.latlon:
                 raise ValueError("GSTools: model dim is not 3")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
@@ -520,7 +520,7 @@ class UniversalKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3 or self.model.latlon:
                 raise ValueError("GSTools: model dim is not 3")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
-- 
2.43.0


From 5285249fd1603f05e8d652b7073f3212007b93c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 28/39] fix: respect the geo_scale of GSTools latlon models

---
 src/pykrige/compat_gstools.py | 11 +++++++++++
 src/pykrige/ok.py             |  7 ++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/compat_gstools.py b/src/pykrige/compat_gstools.py
index 416df0b..ba68d10 100644
--- a/src/pykrige/compat_gstools.py
+++ b/src/pykrige/compat_gstools.py
@@ -2,6 +2,8 @@
 # pylint: disable= invalid-name,  unused-import
 """For GSTools compatibility."""
 
+import numpy as np
+
 # gstools
 try:
     import gstools as gs
@@ -34,3 +36,12 @@ def validate_gstools(model):
         raise GSToolsException(
             "GSTools: latlon models in PyKrige are only supported from GSTools v1.4."
         )
+
+
+def great_circle_variogram(model, args=None, r=0):
+    """Variogram of a GSTools latlon model for great-circle distances in degrees.
+
+    GSTools expects these distances in the units of the model's "geo_scale"
+    (since v1.5), but CovModel.pykrige_vario only converts them to radians.
+    """
+    return model.vario_yadrenko(np.deg2rad(r) * getattr(model, "geo_scale", 1.0))
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 8694016..053af29 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -22,13 +22,14 @@ Copyright (c) 2015-2020, PyKrige Developers
 """
 
 import warnings
+from functools import partial
 
 import numpy as np
 import scipy.linalg
 from scipy.spatial.distance import cdist
 
 from . import core, variogram_models
-from .compat_gstools import validate_gstools
+from .compat_gstools import great_circle_variogram, validate_gstools
 from .core import (
     P_INV,
     _adjust_for_anisotropy,
@@ -235,6 +236,8 @@ class OrdinaryKriging:
                 )
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
+            if self.model.latlon:
+                variogram_function = partial(great_circle_variogram, self.model)
             variogram_parameters = []
             anisotropy_scaling = self.model.pykrige_anis
             anisotropy_angle = self.model.pykrige_angle
@@ -442,6 +445,8 @@ class OrdinaryKriging:
                 )
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
+            if self.model.latlon:
+                variogram_function = partial(great_circle_variogram, self.model)
             variogram_parameters = []
             anisotropy_scaling = self.model.pykrige_anis
             anisotropy_angle = self.model.pykrige_angle
-- 
2.43.0


From f3b265abd5c6a36c35afddb6064218126b64e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 29/39] fix: do not truncate the no data value of integer or
 single precision grids

---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 09990d5..a0a1b41 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -45,7 +45,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
     """
 
     if np.ma.is_masked(z):
-        z = np.array(z.tolist(no_data))
+        z = z.astype(float).filled(no_data)
 
     x = np.squeeze(np.array(x))
     y = np.squeeze(np.array(y))
@@ -278,7 +278,7 @@ def write_zmap_grid(
     field_width = 15
 
     if np.ma.is_masked(z):
-        z = np.array(z.tolist(no_data))
+        z = z.astype(float).filled(no_data)
 
     x = np.squeeze(np.array(x))
     y = np.squeeze(np.array(y))
-- 
2.43.0


From 2d5ac4c9ac49ac09f0fe8948e1822ad430880de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 30/39] fix: avoid overflow in the inverse log-ratio
 transformation

---
 src/pykrige/ck.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index b6b195c..2897679 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -288,4 +288,6 @@ def inverse_ilr_transformation(data):
         DOI: 10.1002/9781119003144
     """
 
-    return closure(np.exp(np.einsum("ij,jk->ik", data, -helmert(data.shape[1] + 1))))
+    log_parts = np.einsum("ij,jk->ik", data, -helmert(data.shape[1] + 1))
+    # closure removes any common factor: avoid the overflow of exp
+    return closure(np.exp(log_parts - np.max(log_parts, axis=1)[:, np.newaxis]))
-- 
2.43.0


From e08d6faa6edd296c698e1c76a5be0f77f76271a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 31/39] fix: refuse point drift arrays that are not of shape
 (N, 3)

---
 src/pykrige/uk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 1c565a1..8a15d9e 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -458,6 +458,10 @@ class UniversalKriging:
                 )
             self.point_log_drift = True
             point_log = np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))
+            if point_log.ndim != 2 or point_log.shape[1] != 3:
+                raise ValueError(
+                    "Point drift terms must be given as an array of shape (N, 3)."
+                )
             self.point_log_orig = point_log
             self.point_log_array = np.zeros(point_log.shape)
             self.point_log_array[:, 2] = point_log[:, 2]
-- 
2.43.0


From e027ea5b062859a4af607471c0d11e027ba29355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 32/39] fix: evaluate at single precision points with full
 precision

---
 src/pykrige/ok.py   | 4 ++--
 src/pykrige/ok3d.py | 6 +++---
 src/pykrige/uk.py   | 4 ++--
 src/pykrige/uk3d.py | 6 +++---
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 053af29..34dba61 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -852,8 +852,8 @@ class OrdinaryKriging:
             # there can't be more neighbors than data points
             n_closest_points = min(n_closest_points, self.X_ADJUSTED.shape[0])
 
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
+        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True, dtype=np.float64)))
+        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True, dtype=np.float64)))
         n = self.X_ADJUSTED.shape[0]
         nx = xpts.size
         ny = ypts.size
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 6aa6ba3..c40d236 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -835,9 +835,9 @@ class OrdinaryKriging3D:
         if style != "grid" and style != "masked" and style != "points":
             raise ValueError("style argument must be 'grid', 'points', or 'masked'")
 
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
-        zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True)))
+        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True, dtype=np.float64)))
+        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True, dtype=np.float64)))
+        zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True, dtype=np.float64)))
         n = self.X_ADJUSTED.shape[0]
         nx = xpts.size
         ny = ypts.size
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 8a15d9e..29b6348 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1193,8 +1193,8 @@ class UniversalKriging:
 
         n = self.X_ADJUSTED.shape[0]
         n_withdrifts = n
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
+        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True, dtype=np.float64)))
+        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True, dtype=np.float64)))
         nx = xpts.size
         ny = ypts.size
         if self.regional_linear_drift:
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 357a782..98efce8 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -980,9 +980,9 @@ class UniversalKriging3D:
         if style != "grid" and style != "masked" and style != "points":
             raise ValueError("style argument must be 'grid', 'points', or 'masked'")
 
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
-        zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True)))
+        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True, dtype=np.float64)))
+        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True, dtype=np.float64)))
+        zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True, dtype=np.float64)))
         n = self.X_ADJUSTED.shape[0]
         n_withdrifts = n
         if self.regional_linear_drift:
-- 
2.43.0


From 46de90bcd84d261d44ca116ccbccd171d689c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 33/39] fix: spherical_variogram_model truncated its values for
 integer distances

---
 src/pykrige/variogram_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pykrige/variogram_models.py b/src/pykrige/variogram_models.py
index a056bdf..6bcb536 100755
--- a/src/pykrige/variogram_models.py
+++ b/src/pykrige/variogram_models.py
@@ -58,6 +58,8 @@ def spherical_variogram_model(m, d):
     psill = float(m[0])
     range_ = float(m[1])
     nugget = float(m[2])
+    # np.piecewise returns the type of d, which may be an integer type
+    d = np.asarray(d, dtype=float)
     return np.piecewise(
         d,
         [d <= range_, d > range_],
-- 
2.43.0


From 36333579f225084dbceb6c94a77f3c06a0fa215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:28 +0000
Subject: [PATCH 34/39] fix: fields of large negative values were too wide for
 the field width of ZMAP files

---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index a0a1b41..77ec600 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -458,7 +458,7 @@ def read_zmap_grid(filename):
 
 
 def _format_zmap_value(value):
-    if abs(value) >= 1e100:  # one tailing space less
+    if abs(value) >= 1e100 or value <= -1e6:  # one tailing space less
         return space_back_to_front(format(value, "13.7E") + " ")
     if abs(value) >= 1e6:
         return space_back_to_front(format(value, "13.7E") + "  ")
-- 
2.43.0


From bc6e730bd97eefd63da303b0a4de09d6aba67471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 35/39] fix: anisotropy adjustment of equal points could differ
 by rounding, so that data points were not honoured for large coordinates

---
 src/pykrige/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index ee37136..33563d4 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -188,7 +188,10 @@ def _adjust_for_anisotropy(X, center, scaling, angle):
         raise ValueError(
             "Adjust for anisotropy function doesn't support ND spaces where N>3"
         )
-    X_adj = np.dot(stretch, np.dot(rot_tot, X.T)).T
+    # sums of columns instead of a matrix product, whose rounding can depend on
+    # the number of points: equal points have to remain equal
+    trans = np.dot(stretch, rot_tot)
+    X_adj = np.array([sum(X[:, j] * t[j] for j in range(Ndim)) for t in trans]).T
 
     X_adj += center
 
-- 
2.43.0


From 16294f608f6d33ad7f404a74b19d5b4dca3c4ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 36/39] fix: Krige.execute modified the dictionary of points
 passed to it

---
 src/pykrige/compat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/compat.py b/src/pykrige/compat.py
index d0ca37c..7edac08 100644
--- a/src/pykrige/compat.py
+++ b/src/pykrige/compat.py
@@ -282,7 +282,7 @@ class Krige(RegressorMixin, BaseEstimator):
         """
         default_kw = dict(style="points", backend="loop")
         default_kw.update(kwargs)
-        points.update(default_kw)
+        points = dict(points, **default_kw)
         if isinstance(self.model, (OrdinaryKriging, OrdinaryKriging3D)):
             points.update(dict(n_closest_points=self.n_closest_points))
         else:
-- 
2.43.0


From 0eb420f3545103dcd0e213efa9748128b5d07755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:01 +0000
Subject: [PATCH 37/39] fix: the pair with the largest distance was left out of
 the variogram for distances above 1e13

---
 src/pykrige/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 33563d4..9245036 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -489,7 +489,8 @@ def _initialize_variogram_model(
     dmin = np.amin(d)
     dd = (dmax - dmin) / nlags
     bins = [dmin + n * dd for n in range(nlags)]
-    dmax += 0.001
+    # (0.001 can be less than the spacing of floats around dmax)
+    dmax = max(dmax + 0.001, np.nextafter(dmax, np.inf))
     bins.append(dmax)
 
     # This old binning method was experimental and doesn't seem
-- 
2.43.0


From 8d456fae924c30c96c3378255780e9499b43e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:03 +0000
Subject: [PATCH 38/39] fix: fall back to eigen-values when the SVD of a
 redundant kriging matrix does not converge

---
 src/pykrige/core.py     | 18 ++++++++++++++++--
 src/pykrige/lib/cok.pyx |  8 +++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 9245036..536c89d 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -32,7 +32,18 @@ from scipy.spatial.distance import cdist, pdist, squareform
 eps = 1.0e-10  # Cutoff for comparison to zero
 
 
-P_INV = {"pinv": spl.pinv, "pinvh": spl.pinvh}
+def _pinv(a):
+    """Pseudo-inverse of a kriging matrix by a singular value decomposition.
+
+    The decomposition may fail to converge for matrices with many redundant
+    rows. As kriging matrices are symmetric, eigen-values are used then."""
+    try:
+        return spl.pinv(a)
+    except spl.LinAlgError:
+        return spl.pinvh(a)
+
+
+P_INV = {"pinv": _pinv, "pinvh": spl.pinvh}
 
 
 def great_circle_distance(lon1, lat1, lon2, lat2):
@@ -771,7 +782,10 @@ def _krige(
 
     # solve
     if pseudo_inv:
-        res = np.linalg.lstsq(a, b, rcond=None)[0]
+        try:
+            res = np.linalg.lstsq(a, b, rcond=None)[0]
+        except np.linalg.LinAlgError:  # no convergence
+            res = np.dot(spl.pinvh(a), b)
     else:
         res = np.linalg.solve(a, b)
     zinterp = np.sum(res[:n, 0] * y)
diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index 9288508..3c1270e 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -8,6 +8,7 @@ import scipy.linalg
 from scipy.linalg.cython_blas cimport dgemv
 from scipy.linalg.cython_lapack cimport dgesv
 
+from ..core import P_INV
 from .variogram_models cimport get_variogram_model
 
 
@@ -44,7 +45,7 @@ cpdef _c_exec_loop(
 
     if pars['pseudo_inv']:
         if pars['pseudo_inv_type'] == "pinv":
-            a_inv = np.asfortranarray(scipy.linalg.pinv(a_all))
+            a_inv = np.asfortranarray(P_INV['pinv'](a_all))
         elif pars['pseudo_inv_type'] == "pinv2":
             a_inv = np.asfortranarray(scipy.linalg.pinv2(a_all))
         elif pars['pseudo_inv_type'] == "pinvh":
@@ -167,10 +168,7 @@ cpdef _c_exec_loop_moving_window(
         # x = scipy.linalg.solve(a2D, b.base[:nb])
 
         if pars['pseudo_inv']:
-            if pars['pseudo_inv_type'] == "pinvh":
-                p_inv = scipy.linalg.pinvh
-            else:
-                p_inv = scipy.linalg.pinv
+            p_inv = P_INV[pars['pseudo_inv_type']]
             # the pseudo inverse of the (symmetric) kriging matrix
             a2D = a_selection.base[:nb*nb].reshape((nb, nb))
             x.base[:nb] = np.dot(p_inv(a2D), b.base[:nb])
-- 
2.43.0


From 7d1bb36f8527bf522b5331a947ceecfdd9b6c925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:55 +0000
Subject: [PATCH 39/39] fix: an ASCII grid with a single row or column could
 not be read

---
 src/pykrige/kriging_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 77ec600..0046e1d 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -208,10 +208,14 @@ def read_asc_grid(filename, footer=0):
                 and (no_data is not None)
             ):
                 break
+        ncols_body = len(f.readline().split())
 
     raw_grid_array = np.genfromtxt(
         filename, skip_header=header_lines, skip_footer=footer
     )
+    if raw_grid_array.ndim < 2 and ncols_body > 0:
+        # a single row or a single column
+        raw_grid_array = raw_grid_array.reshape(-1, ncols_body)
     grid_array = np.flipud(raw_grid_array)
 
     if nrows != grid_array.shape[0] or ncols != grid_array.shape[1]:
-- 
2.43.0

