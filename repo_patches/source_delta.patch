From 0f3077168ddc54ba05d33bcc082f1de3ca3a86e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 01/14] fix: decode antimeridian and pole longitudes from
 Cartesian coordinates

arccos(x/r) * sign(y) returned longitude 0 for points exactly on the
antimeridian (y == 0, x < 0) and NaN at the poles; use arctan2.
---
 geotiepoints/_modis_utils.pyx   | 4 ++--
 geotiepoints/geointerpolator.py | 2 +-
 geotiepoints/viiinterpolator.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index b290cb0..1d1b02a 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -3,7 +3,7 @@ from functools import wraps
 
 cimport cython
 cimport numpy as np
-from libc.math cimport asin, sin, cos, sqrt, acos, M_PI
+from libc.math cimport asin, sin, cos, sqrt, acos, atan2, M_PI
 import numpy as np
 
 np.import_array()
@@ -55,7 +55,7 @@ cdef void xyz2lonlat(
             x = <np.float64_t>xyz[i, j, 0]
             y = <np.float64_t>xyz[i, j, 1]
             z = <np.float64_t>xyz[i, j, 2]
-            lons[i, j] = rad2deg(acos(x / sqrt(x ** 2 + y ** 2))) * _sign(y)
+            lons[i, j] = rad2deg(atan2(y, x))
             # if we are at low latitudes - small z, then get the
             # latitudes only from z. If we are at high latitudes (close to the poles)
             # then derive the latitude using x and y:
diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index 356e780..b2eb3e2 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -61,7 +61,7 @@ def lonlat2xyz(lons, lats, radius=EARTH_RADIUS):
 
 def xyz2lonlat(x__, y__, z__, radius=EARTH_RADIUS, thr=0.8, low_lat_z=True):
     """Get longitudes from cartesian coordinates."""
-    lons = np.rad2deg(np.arccos(x__ / np.sqrt(x__ ** 2 + y__ ** 2))) * np.sign(y__)
+    lons = np.rad2deg(np.arctan2(y__, x__))
     lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.sqrt(x__ ** 2 + y__ ** 2) / radius)))
     if low_lat_z:
         # if we are at low latitudes - small z, then get the
diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 6b4add8..421a29f 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -168,7 +168,7 @@ def _xyz2lonlat(x_coords, y_coords, z_coords, z_threshold_use_xy=0.8):
     """
     r = np.sqrt(x_coords ** 2 + y_coords ** 2)
     thr_z = z_threshold_use_xy * MEAN_EARTH_RADIUS
-    lons = np.rad2deg(np.arccos(x_coords / r)) * np.sign(y_coords)
+    lons = np.rad2deg(np.arctan2(y_coords, x_coords))
     # Compute latitude from z at low z and from x and y at high z
     lats = xr.where(
         np.logical_and(np.less(z_coords, thr_z), np.greater(z_coords, -thr_z)),
-- 
2.43.0


From a4a5590710fdc9495513eb44e645c940fa7393a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 02/14] fix: let generic_modis5kmto1km run

The border filling selects tie rows in units of tie points, so the row and
column positions must be in 5 km units as in modis5kmto1km; it always raised
an IndexError before.
---
 geotiepoints/interpolator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index c35fbbf..c11041b 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -8,11 +8,11 @@ from scipy.interpolate import RectBivariateSpline, splev, splrep, RegularGridInt
 
 def generic_modis5kmto1km(*data5km):
     """Get 1km data for modis from 5km tiepoints."""
-    cols5km = np.arange(2, 1354, 5)
-    cols1km = np.arange(1354)
+    cols5km = np.arange(2, 1354, 5) / 5.0
+    cols1km = np.arange(1354) / 5.0
     lines = data5km[0].shape[0] * 5
-    rows5km = np.arange(2, lines, 5)
-    rows1km = np.arange(lines)
+    rows5km = np.arange(2, lines, 5) / 5.0
+    rows1km = np.arange(lines) / 5.0
 
     along_track_order = 1
     cross_track_order = 3
-- 
2.43.0


From ff43a4b63ef276dbd3bf89b3e5b1b74f2d9076b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 03/14] fix: use the values of fine_points in lazy
 interpolation

Each chunk was interpolated at np.arange of its slice instead of at the fine
points that were passed, so lazy and eager results differed.
---
 geotiepoints/interpolator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index c11041b..4524f83 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -271,11 +271,11 @@ class AbstractSingleInterpolator(ABC):
         token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
         name = 'interpolate-' + token
 
-        interpolate_slices = partial(self.interpolate_slices, **interpolator_call_kwargs)
+        interpolate_points = partial(self.interpolate_numpy, **interpolator_call_kwargs)
 
-        dskx = {(name, ) + position: (interpolate_slices,
-                                      slices)
-                for position, slices in _enumerate_chunk_slices(chunks)}
+        dskx = {(name, ) + position: (interpolate_points,
+                                      [np.asarray(v_fine_points)[slice_y], np.asarray(h_fine_points)[slice_x]])
+                for position, (slice_y, slice_x) in _enumerate_chunk_slices(chunks)}
 
         res = da.Array(dskx, name, shape=list(shape),
                        chunks=chunks,
-- 
2.43.0


From cd12f877013a73e7508d55495fcca0a3d61c6e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 04/14] fix: make the names of lazy interpolations depend on
 the interpolator

The dask name ignored the interpolator class and its settings, so a grid and
a spline interpolation (or two spline orders) of the same data computed
together returned the same array.
---
 geotiepoints/interpolator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 4524f83..97250ec 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -241,6 +241,7 @@ class AbstractSingleInterpolator(ABC):
         self.interpolator = scipy_interpolator(points, values, **interpolator_init_kwargs)
         self.points = points
         self.values = values
+        self._init_kwargs = interpolator_init_kwargs
 
     def interpolate(self, fine_points, chunks=None, **interpolator_call_kwargs):
         """Interpolate the value points to the *fine_points* grid.
@@ -268,7 +269,8 @@ class AbstractSingleInterpolator(ABC):
 
         chunks = normalize_chunks(chunks, shape, dtype=self.values.dtype)
 
-        token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
+        token = tokenize(type(self), self._init_kwargs,
+                         chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
         name = 'interpolate-' + token
 
         interpolate_points = partial(self.interpolate_numpy, **interpolator_call_kwargs)
@@ -333,6 +335,7 @@ class SingleSplineInterpolator(AbstractSingleInterpolator):
         self.interpolator = RectBivariateSpline(*points, values, **interpolator_init_kwargs)
         self.points = points
         self.values = values
+        self._init_kwargs = interpolator_init_kwargs
 
     def interpolate_numpy(self, fine_points, **interpolator_call_kwargs):
         """Interpolate to a numpy array."""
-- 
2.43.0


From b05ca144984f4a25d9e53274d94e64913db74a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 05/14] fix: accept float64 input in the satellite zenith angle
 MODIS interpolation

The pixel coordinates are always float32 and were bound to buffers of the
input's type, so float64 geolocation raised a buffer dtype mismatch.
---
 geotiepoints/_modis_interpolator.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index bed18ee..5631867 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -145,8 +145,8 @@ cdef class MODISInterpolator:
         cdef floating[:, ::1] a_scan_view = a_scan
 
         cdef tuple coords_xy = self._get_coords()
-        cdef np.ndarray[floating, ndim=1] x = coords_xy[0]
-        cdef np.ndarray[floating, ndim=1] y = coords_xy[1]
+        cdef np.ndarray[floating, ndim=1] x = coords_xy[0].astype(lon1.dtype)
+        cdef np.ndarray[floating, ndim=1] y = coords_xy[1].astype(lon1.dtype)
         cdef floating[::1] x_view = x
         cdef floating[::1] y_view = y
 
-- 
2.43.0


From 67b8840d7b1136aa81aed02d5fdd331bd73cbe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 06/14] fix: no NaN in MODIS interpolation between tie points
 with zero zenith angle

Two neighbouring tie points with a satellite zenith angle of 0 gave 0 / 0 in
the expansion and alignment coefficients.
---
 geotiepoints/_modis_interpolator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 5631867..8215d9c 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -60,6 +60,11 @@ cdef void _compute_expansion_alignment(floating[:, :] satz_a, floating [:, :] sa
             theta = _compute_theta(zeta, phi)
             # Workaround for tiepoints symmetrical about the subsatellite-track
             denominator = theta_a * 2 if theta_a == theta_b else theta_a - theta_b
+            if denominator == 0:
+                # both tiepoints are at nadir: no correction (and no 0 / 0)
+                c_expansion[i, j] = 0
+                c_alignment[i, j] = 0
+                continue
 
             c_expansion[i, j] = 4 * (((theta_a + theta_b) / 2 - theta) / denominator)
 
-- 
2.43.0


From e8e86397846f4098929488f4d01190f78dd8dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 07/14] fix: place 500m and 250m pixels correctly when
 interpolating from 5km

The offsets of the first pixel row and of the left and right edge columns were
only right for 1km output; other resolutions were off by up to 10 km along
track and up to 25 km at the scan edges.
---
 geotiepoints/_modis_interpolator.pyx | 30 +++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 8215d9c..07b17d4 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -235,22 +235,20 @@ cdef class MODISInterpolator:
 
     @cython.wraparound(True)
     cdef tuple _get_coords_5km(self):
-        cdef np.ndarray[np.float32_t, ndim=1] y = np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length, dtype=np.float32) - 2
-        cdef np.ndarray[np.float32_t, ndim=1] x = (np.arange(self._fine_scan_width, dtype=np.float32) - 2) % self._fine_pixels_per_coarse_pixel
-        x[0] = -2
-        x[1] = -1
-        if self._coarse_scan_width == 271:
-            x[-2] = 5
-            x[-1] = 6
-        else:
-            # self._coarse_scan_width == 270
-            x[-7] = 5
-            x[-6] = 6
-            x[-5] = 7
-            x[-4] = 8
-            x[-3] = 9
-            x[-2] = 10
-            x[-1] = 11
+        # 5km tiepoints are in the middle (row, column) of 5x5 blocks of 1km pixels. Along track the centers of the
+        # fine pixels are spread around the center of the 1km pixel, across track the first one is aligned with it.
+        cdef int fine_pixels_per_1km = self._fine_pixels_per_coarse_pixel // self._coarse_pixels_per_1km
+        cdef double y_offset = self._factor_5km + (fine_pixels_per_1km - 1) / 2.0
+        cdef np.ndarray[np.float32_t, ndim=1] y = (
+            np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length) - y_offset).astype(np.float32)
+        cdef np.ndarray[np.float32_t, ndim=1] x = (
+            (np.arange(self._fine_scan_width) - self._factor_5km) % self._fine_pixels_per_coarse_pixel
+        ).astype(np.float32)
+        # columns right of the second to last tiepoint are all extrapolated from the last pair of tiepoints
+        cdef Py_ssize_t num_right = self._fine_scan_width - (
+            (self._coarse_scan_width - 1) * self._fine_pixels_per_coarse_pixel + self._factor_5km)
+        x[:self._factor_5km] = np.arange(-self._factor_5km, 0)
+        x[-num_right:] = self._fine_pixels_per_coarse_pixel + np.arange(num_right)
         return x, y
 
     cdef void _interpolate_lons_lats(self,
-- 
2.43.0


From 5cb7efee24cbe45e4c0e88ae2937903319397f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 08/14] fix: accept dask chunks smaller than a MODIS scan

Such input was rechunked to chunks of 0 rows, which raised a
ZeroDivisionError.
---
 geotiepoints/_modis_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 1d1b02a..001fb0e 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -183,7 +183,7 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     if good_row_chunks and good_col_chunks and all_same_chunks:
         return args
 
-    new_row_chunks = (row_chunks[0] // rows_per_scan) * rows_per_scan
+    new_row_chunks = max(row_chunks[0] // rows_per_scan, 1) * rows_per_scan
     new_args = [arr.rechunk((new_row_chunks, -1)) if hasattr(arr, "chunks") else arr for arr in args]
     return new_args
 
-- 
2.43.0


From 03982d0878bcd6825a70cae44159caaa9ba7b2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 09/14] fix: accept DataArrays of numpy arrays in MODIS
 interpolation

They have a compute method and were handled as dask arrays, which raised an
AttributeError.
---
 geotiepoints/_modis_utils.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 001fb0e..f9fe122 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -102,6 +102,15 @@ def scanline_mapblocks(func):
         first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
         if first_arr.ndim != 2 or first_arr.ndim != 2:
             raise ValueError("Expected 2D input arrays.")
+        if hasattr(first_arr, "dims") and not hasattr(first_arr.data, "compute"):
+            # DataArray of numpy arrays
+            results = func(
+                *_extract_dask_arrays_from_args(args),
+                coarse_resolution=coarse_resolution,
+                fine_resolution=fine_resolution,
+                **kwargs
+            )
+            return [xr.DataArray(result, dims=first_arr.dims) for result in results]
         if hasattr(first_arr, "compute"):
             # assume it is dask or xarray with dask, ensure proper chunk size
             # if DataArray get just the dask array
-- 
2.43.0


From 89eb7f0559bb598c5a3c6f8a3b9e09dd247abe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 10/14] fix: compute the grid of one dimensional multilinear
 interpolators

np.linspace does not take an array as the number of points, so it always
raised a TypeError.
---
 geotiepoints/multilinear.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/geotiepoints/multilinear.py b/geotiepoints/multilinear.py
index aedad4e..451f635 100644
--- a/geotiepoints/multilinear.py
+++ b/geotiepoints/multilinear.py
@@ -6,14 +6,9 @@ from geotiepoints.multilinear_cython import multilinear_interpolation
 
 
 def mlinspace(smin, smax, orders):
-    if len(orders) == 1:
-        res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders)))
-        return res.copy()  # workaround for strange bug
-    else:
-        meshes = np.meshgrid(
-            *[np.linspace(smin[i], smax[i], orders[i]) for i in range(len(orders))], indexing='ij')
-        return np.vstack([l.flatten() for l in meshes])
+    meshes = np.meshgrid(
+        *[np.linspace(smin[i], smax[i], orders[i]) for i in range(len(orders))], indexing='ij')
+    return np.vstack([l.flatten() for l in meshes])
 
 
 class MultilinearInterpolator:
-- 
2.43.0


From 3cdd69ec5d24b514f45515f3ebca59bc0e8f062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 11/14] fix: replace DataFrame.as_matrix, which pandas 1.0
 removed

BasicSatelliteInterpolator.interpolate always raised an AttributeError.
---
 geotiepoints/basic_interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/basic_interpolator.py b/geotiepoints/basic_interpolator.py
index 7b990dd..5245f76 100644
--- a/geotiepoints/basic_interpolator.py
+++ b/geotiepoints/basic_interpolator.py
@@ -54,10 +54,10 @@ class BasicSatelliteInterpolator(object):
             return self._pandas_interp(data, self.row_indices)
         
         if axis == 1:
-            data_transposed = data.as_matrix().T
+            data_transposed = data.to_numpy().T
             data_interpol_transposed = self._pandas_interp(data_transposed, 
                                                             self.col_indices)
-            data_interpol = data_interpol_transposed.as_matrix().T
+            data_interpol = data_interpol_transposed.to_numpy().T
 
             return data_interpol
 
-- 
2.43.0


From e81d70751a16a09273c4955b8b131a3e2f45a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 12/14] fix: reject multilinear input whose shape does not
 match the grid

The kernels read outside of the values, or returned uninitialised memory.
---
 geotiepoints/multilinear_cython.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index c69c624..1fdc2b9 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -28,6 +28,13 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
 
     if d > 4:
         raise Exception("Can't interpolate in dimension strictly greater than 5")
+    # the kernels don't check the bounds of their indices
+    if d < 1 or smin.shape[0] != d or smax.shape[0] != d or orders.shape[0] != d:
+        raise ValueError("The points must have as many coordinates as the grid has dimensions")
+    if np.any(np.less(orders, 2)):
+        raise ValueError("The grid must have at least two points along each dimension")
+    if values.shape[1] != np.prod(orders):
+        raise ValueError("There must be a value for each point of the grid")
 
     with nogil:
         for i in range(n_v):
-- 
2.43.0


From 48c9d233f7442cace04c487464a84698932276ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 13/14] fix: reject MODIS geolocation that does not consist of
 whole, matching scans

Incomplete scans of numpy arrays left rows of the result uninitialised;
arrays of different shapes, of an unexpected width or unsupported resolutions
read or wrote outside of the arrays.
---
 geotiepoints/_modis_interpolator.pyx        | 5 +++++
 geotiepoints/_simple_modis_interpolator.pyx | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 07b17d4..f69316c 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -141,6 +141,11 @@ cdef class MODISInterpolator:
         lon1 = np.ascontiguousarray(lon1)
         lat1 = np.ascontiguousarray(lat1)
         satz1 = np.ascontiguousarray(satz1)
+        for arr in (lon1, lat1, satz1):
+            if arr.shape[0] != lon1.shape[0] or arr.shape[1] != self._coarse_scan_width:
+                raise ValueError("Input arrays must have the same number of rows and the width of a scan.")
+        if lon1.shape[0] % self._coarse_scan_length != 0:
+            raise ValueError("Input data does not consist of whole scans.")
 
         cdef int num_fine_scan_rows = self._coarse_scan_length * self._fine_pixels_per_coarse_pixel
         cdef int num_fine_scan_cols = self._fine_scan_width
diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index f1e4c58..8e11dc0 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -15,6 +15,8 @@ def interpolate_geolocation_cartesian(
         np.ndarray[floating, ndim=2] lat_array,
         unsigned int coarse_resolution,
         unsigned int fine_resolution):
+    if coarse_resolution != 1000 or fine_resolution not in (250, 500):
+        raise ValueError("Can only interpolate from 1000m to 500m or 250m.")
     lon_array = np.ascontiguousarray(lon_array)
     lat_array = np.ascontiguousarray(lat_array)
     cdef unsigned int rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
@@ -22,6 +24,11 @@ def interpolate_geolocation_cartesian(
     cdef Py_ssize_t num_rows = lon_array.shape[0]
     cdef Py_ssize_t num_cols = lon_array.shape[1]
     cdef unsigned int num_scans = num_rows // rows_per_scan
+    if lat_array.shape[0] != num_rows or lat_array.shape[1] != num_cols:
+        raise ValueError("Input longitude and latitude arrays must have the same shape.")
+    if num_rows % rows_per_scan != 0 or num_cols < 2:
+        raise ValueError("Input longitude/latitude data does not consist of "
+                         "whole scans (10 rows per scan) of at least 2 columns.")
 
     # SciPy's map_coordinates requires the x/y dimension to be first
     cdef np.ndarray[floating, ndim=3] coordinates = np.empty(
-- 
2.43.0


From 3b0650ca155821b9ea5b5b94dc910584cc24d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:34 +0000
Subject: [PATCH 14/14] fix: declare the width of lazy simple MODIS
 interpolation from its input

---
 geotiepoints/_modis_utils.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index f9fe122..ff0c59d 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -147,7 +147,11 @@ def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **k
     res_factor = coarse_resolution // fine_resolution
     new_row_chunks = tuple(x * res_factor for x in first_arr.chunks[0])
     fine_pixels_per_1km = {250: 4, 500: 2, 1000: 1}[fine_resolution]
-    fine_scan_width = 1354 * fine_pixels_per_1km
+    if coarse_resolution == 5000:
+        # the 5km tie points do not cover the whole width of the scan
+        fine_scan_width = 1354 * fine_pixels_per_1km
+    else:
+        fine_scan_width = first_arr.shape[1] * res_factor
     new_col_chunks = (fine_scan_width,)
     wrapped_func = _map_blocks_handler(func)
     res = da.map_blocks(wrapped_func, *args,
-- 
2.43.0

