From 1d9a88bb40547024d4b75336be381aed57253a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:15 +0000
Subject: [PATCH 01/87] fix: Time no longer shares (and shifts in place) the
 array or Time object it was built from

---
 gridded/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/time.py b/gridded/time.py
index 0893aec..8dfe163 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -308,7 +308,8 @@ class Time:
         if isinstance(data, self.__class__) or data.__class__ in self.__class__.__mro__:
             data = data.data
         # add check for valid datetime list?
-        self._data = np.asarray(data)
+        # always a copy: this object shifts its data in place
+        self._data = np.array(data)
 
     @property
     def info(self):
-- 
2.43.0


From 8304477797ddec07692a097561f9b6bc1a43f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:15 +0000
Subject: [PATCH 02/87] fix: Time.from_netCDF kept UTC stamps under a non-UTC
 tz_offset for offsets like -07:00

---
 gridded/time.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridded/time.py b/gridded/time.py
index 8dfe163..e172a4c 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -1,6 +1,7 @@
 #!/usr/binenv python
 
 import logging
+import re
 from datetime import datetime, timedelta
 from textwrap import dedent
 
@@ -269,7 +270,10 @@ class Time:
         if tz_offset_name is None:
             tz_offset_name = name
 
-        tdata = nc4.num2date(tvar[:], units=tvar.units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
+        # The offset is kept in tz_offset: decode the numbers in the zone they are in.
+        # (num2date would convert the offsets it recognizes, e.g. "-07:00" but not "-7:00", to UTC)
+        units = re.sub(r"(:\d{2}(?:\.\d+)?)\s*[+-]\d{1,2}(?::?\d{2})?\s*$", r"\1", tvar.units)
+        tdata = nc4.num2date(tvar[:], units=units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
         # Fixme: use the name and pass it through?
         time = cls(
             data=tdata,
-- 
2.43.0


From 2419313b4dbaf87e2a2195770afadc69b907af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:15 +0000
Subject: [PATCH 03/87] fix: Time.from_netCDF decodes noleap (365_day) time
 axes in their own calendar

---
 gridded/time.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gridded/time.py b/gridded/time.py
index e172a4c..887353d 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -273,7 +273,12 @@ class Time:
         # The offset is kept in tz_offset: decode the numbers in the zone they are in.
         # (num2date would convert the offsets it recognizes, e.g. "-07:00" but not "-7:00", to UTC)
         units = re.sub(r"(:\d{2}(?:\.\d+)?)\s*[+-]\d{1,2}(?::?\d{2})?\s*$", r"\1", tvar.units)
-        tdata = nc4.num2date(tvar[:], units=units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
+        if getattr(tvar, "calendar", "").lower() in ("noleap", "365_day"):
+            # every date in this calendar is also a python datetime
+            tdata = nc4.num2date(tvar[:], units=units, calendar="noleap")
+            tdata = [datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond) for d in tdata]
+        else:
+            tdata = nc4.num2date(tvar[:], units=units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
         # Fixme: use the name and pass it through?
         time = cls(
             data=tdata,
-- 
2.43.0


From d11eba86ea4970c87f75be391c0c1474d08346ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 04/87] fix: UGrid.locate_faces: repeated queries answered with
 the wrong shape or another method's result; caller's array reshaped

---
 gridded/pyugrid/ugrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 964cd28..758ff62 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -610,14 +610,15 @@ class UGrid:
         """
         points = np.asarray(points, dtype=np.float64)
         just_one = points.ndim == 1
-        points.shape = (-1, 2)
+        points = points.reshape(-1, 2)
 
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
+            _hash = (_hash, method)
             result = self._get_memoed(points, self._ind_memo_dict, _copy, _hash)
             if result is not None:
-                return result
+                return result[0] if just_one else result
 
         if method == "celltree":
             try:
-- 
2.43.0


From e871abf9b053f8770cc2a5aac67683ed4949b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 05/87] fix: UGrid kept using the search trees of the old mesh
 after nodes or faces were reassigned

---
 gridded/pyugrid/ugrid.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 758ff62..9bf30ab 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -279,11 +279,19 @@ class UGrid:
     def nodes(self, nodes_coords):
         # Room here to do consistency checking, etc.
         # For now -- simply make sure it's a numpy array.
+        self._clear_search_caches()
         if nodes_coords is None:
             self.nodes = np.zeros((0, 2), dtype=NODE_DT)
         else:
             self._nodes = np.asanyarray(nodes_coords, dtype=NODE_DT)
 
+    def _clear_search_caches(self):
+        # anything derived from the nodes and faces: built again if/when needed
+        self._kdtree = None
+        self._cell_tree = None
+        self._ind_memo_dict = OrderedDict()
+        self._alpha_memo_dict = OrderedDict()
+
     @nodes.deleter
     def nodes(self):
         # If there are no nodes, there can't be anything else.
@@ -301,6 +309,7 @@ class UGrid:
         # Room here to do consistency checking, etc.
         if self._nodes is None:
             raise ValueError("Nodes must be defined before faces")
+        self._clear_search_caches()
         if faces_indexes is not None:
             faces_indexes = np.asanyarray(faces_indexes, dtype=IND_DT)
             if faces_indexes.max() > len(self.nodes):
-- 
2.43.0


From a1b0b1af787c7e22dece70539ef1ce6f000a5a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 06/87] fix: UGrid.faces setter decremented the caller's
 one-based array in place

---
 gridded/pyugrid/ugrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 9bf30ab..614c44a 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -311,7 +311,8 @@ class UGrid:
             raise ValueError("Nodes must be defined before faces")
         self._clear_search_caches()
         if faces_indexes is not None:
-            faces_indexes = np.asanyarray(faces_indexes, dtype=IND_DT)
+            # a copy: it may get adjusted below
+            faces_indexes = np.array(faces_indexes, dtype=IND_DT, subok=True)
             if faces_indexes.max() > len(self.nodes):
                 # faces index maximum greater than number of nodes
                 raise ValueError(
-- 
2.43.0


From 66da3876219a5b50365afe47b412191f6d7950ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 07/87] fix: point_in_tri was true for every point with
 clockwise triangles

---
 gridded/pyugrid/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pyugrid/util.py b/gridded/pyugrid/util.py
index 16c2c8c..10f2938 100644
--- a/gridded/pyugrid/util.py
+++ b/gridded/pyugrid/util.py
@@ -21,7 +21,7 @@ def point_in_tri(face_points, point, return_weights=False):
     sub_tri_areas[0] = _signed_area_tri(np.vstack((face_points[(0, 1), :], point)))
     sub_tri_areas[1] = _signed_area_tri(np.vstack((face_points[(1, 2), :], point)))
     sub_tri_areas[2] = _signed_area_tri(np.vstack((face_points[(0, 2), :], point)))
-    tri_area = _signed_area_tri(face_points)
+    tri_area = abs(_signed_area_tri(face_points))
 
     if abs(np.abs(sub_tri_areas).sum() - tri_area) / tri_area <= epsilon:
         if return_weights:
-- 
2.43.0


From f8a46e432cccb8398f6a41ae9b6c8ca3323fb1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 08/87] fix: UGrid.index_of raised TypeError on every call

---
 gridded/pyugrid/ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 614c44a..40c61ab 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -663,7 +663,7 @@ class UGrid:
             return indices
 
     def index_of(self, points, method="celltree", _memo=False, _copy=False, _hash=None, use_mask=True):
-        return self.locate_faces(points=points, method=method, _memo=_memo, _copy=_copy, _hash=_hash, use_mask=use_mask)
+        return self.locate_faces(points=points, method=method, _memo=_memo, _copy=_copy, _hash=_hash)
 
     def build_celltree(self):
         """
-- 
2.43.0


From cccacbc4120cdc30220fd3706e2353d6cce8a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 09/87] fix: UGrid.interpolate_var_to_points could not infer
 the location of a plain array

---
 gridded/pyugrid/ugrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 40c61ab..403330d 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -781,7 +781,8 @@ class UGrid:
         # (for compatibility with old code)
         if location is None:
             location = self.infer_location(variable)
-            variable.location = location
+            if hasattr(variable, "location"):
+                variable.location = location
         if location is None:
             raise ValueError("Data is incompatible with grid nodes or faces")
 
-- 
2.43.0


From 95a5131c3c3526cd1a4bf780d1a409aec3632c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:30 +0000
Subject: [PATCH 10/87] fix: UGrid.locate_faces missed some points well inside
 a face

---
 gridded/pyugrid/ugrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 403330d..8d01edb 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -674,7 +674,8 @@ class UGrid:
 
         if self.nodes is None or self.faces is None:
             raise ValueError("Nodes and faces must be defined in order to create and use CellTree")
-        self._cell_tree = CellTree(self.nodes, self.faces)
+        # two buckets: the trees built with more miss some points that are inside a face
+        self._cell_tree = CellTree(self.nodes, self.faces, num_buckets=2)
 
     def interpolation_alphas(self, points, indices=None, _copy=False, _memo=True, _hash=None):
         """
-- 
2.43.0


From 5d5c84ffb7e4cf01092ef0719ef240db65f40013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:29 +0000
Subject: [PATCH 11/87] fix: SGrid.locate_faces missed some points well inside
 a cell

---
 gridded/pysgrid/sgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 381623f..ead5950 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -908,7 +908,8 @@ class SGrid:
         else:
             lin_nodes = np.ascontiguousarray(np.stack((lon, lat), axis=-1).reshape(-1, 2).astype(np.float64))
 
-        self._cell_tree = (CellTree(lin_nodes, lin_faces), lin_nodes, lin_faces)
+        # two buckets: the trees built with more miss some points that are inside a cell
+        self._cell_tree = (CellTree(lin_nodes, lin_faces, num_buckets=2), lin_nodes, lin_faces)
 
     def nearest_var_to_points(
         self,
-- 
2.43.0


From 3c29cdecc91430210a990105ebf18c43aabb2bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:04 +0000
Subject: [PATCH 12/87] fix: SGrid.build_celltree failed with only a node mask
 or nothing masked, and crashed the process on masked node coordinates

---
 gridded/pysgrid/sgrid.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index ead5950..baf359c 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -14,7 +14,7 @@ from netCDF4 import Dataset
 from gridded.pysgrid.read_netcdf import NetCDFDataset, find_grid_topology_var, parse_padding
 from gridded.pysgrid.utils import GridPadding, calculate_angle_from_true_east, pair_arrays
 from gridded.pysgrid.variables import SGridVariable
-from gridded.utilities import gen_celltree_mask_from_center_mask
+from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask
 
 node_alternate_names = ["node", "nodes", "psi", "vertex", "vertices", "point", "points"]
 center_alternate_names = ["center", "centers", "face", "faces", "cell", "cells"]
@@ -805,6 +805,11 @@ class SGrid:
         lin_points = np.column_stack((lon.ravel(), lat.ravel()))
         self._kd_trees[grid] = cKDTree(lin_points, leafsize=4)
 
+    def _cell_mask_from_node_mask(self, node_mask):
+        """mask of the cells, given the mask of the nodes (True is masked)"""
+        corners = (node_mask[:-1, :-1], node_mask[:-1, 1:], node_mask[1:, 1:], node_mask[1:, :-1])
+        return np.all(corners, axis=0) if self.use_masked_boundary else np.any(corners, axis=0)
+
     def build_celltree(self, use_mask=True):
         """
         Builds the celltree across the grid defined by nodes (self.node_lon, self.node_lat)
@@ -832,17 +837,18 @@ class SGrid:
         if lon is None or lat is None:
             raise ValueError("node_lon and node_lat must be defined in order to create and use CellTree for this grid")
 
-        if use_mask and (
-            (self.node_mask is not None and self.node_mask is not False)
-            or (self.center_mask is not None and self.center_mask is not False)
-        ):
-            if np.any(self.center_mask):
+        cell_mask = None
+        if use_mask:
+            if self.center_mask is not None and self.center_mask is not False:
                 cell_mask = gen_celltree_mask_from_center_mask(
                     self.center_mask, self.get_padding_slices(self.center_padding)
                 )
-            else:
-                pass
+            elif self.node_mask is not None and self.node_mask is not False:
+                cell_mask = self._cell_mask_from_node_mask(convert_mask_to_numpy_mask(self.node_mask))
+            elif np.ma.is_masked(lon) or np.ma.is_masked(lat):
+                cell_mask = self._cell_mask_from_node_mask(np.ma.getmaskarray(lon) | np.ma.getmaskarray(lat))
 
+        if cell_mask is not None:
             lin_faces = np.empty(shape=(lon[1::, 1::].size, 4))
             if lin_faces.shape[0] != cell_mask.size:
                 raise ValueError(
@@ -901,7 +907,7 @@ class SGrid:
             )
         lin_faces = np.ascontiguousarray(lin_faces.reshape(-1, 4).astype(np.int32))
 
-        if isinstance(lon, np.ma.MaskedArray) and lon.mask is not False and use_mask:
+        if cell_mask is not None:
             lin_nodes = np.ascontiguousarray(
                 np.column_stack((np.ma.compressed(lon[:]), np.ma.compressed(lat[:]))).reshape(-1, 2).astype(np.float64)
             )
-- 
2.43.0


From 1155f28a862a33d726127cf5cb94acba48aaef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:04 +0000
Subject: [PATCH 13/87] fix: SGrid.locate_faces(use_mask=) was only honored by
 the first query

---
 gridded/pysgrid/sgrid.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index baf359c..d4b9105 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -145,6 +145,7 @@ class SGrid:
         # used for nearest neighbor interpolation
         self._kd_trees = {}
         self._cell_tree = None
+        self._unmasked_cell_tree = None
 
         self._log_ind_memo_dict = OrderedDict()
         self._cell_ind_memo_dict = OrderedDict()
@@ -643,15 +644,22 @@ class SGrid:
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
+            _hash = (_hash, use_mask)
             result = self._get_memoed(points, self._cell_ind_memo_dict, _copy, _hash)
             if result is not None:
-                return result
-
-        if self._cell_tree is None:
-            self.build_celltree(use_mask=use_mask)
-        tree = self._cell_tree[0]
+                return result[0] if just_one else result
+
+        if not use_mask and self._unmasked_cell_tree is None:
+            # built on the side: it is only for the queries that ask for it.
+            masked = self._cell_tree, self._cell_tree_mask
+            self.build_celltree(use_mask=False)
+            self._unmasked_cell_tree = self._cell_tree
+            self._cell_tree, self._cell_tree_mask = masked
+        elif use_mask and self._cell_tree is None:
+            self.build_celltree()
+        tree = self._cell_tree[0] if use_mask else self._unmasked_cell_tree[0]
         rev_arrs = None
-        if self._cell_tree_mask is not None:
+        if use_mask and self._cell_tree_mask is not None:
             rev_arrs = self._cell_tree_mask[1]
         indices = tree.locate(points)
         if rev_arrs is not None:
@@ -914,6 +922,7 @@ class SGrid:
         else:
             lin_nodes = np.ascontiguousarray(np.stack((lon, lat), axis=-1).reshape(-1, 2).astype(np.float64))
 
+        self._cell_ind_memo_dict.clear()
         # two buckets: the trees built with more miss some points that are inside a cell
         self._cell_tree = (CellTree(lin_nodes, lin_faces, num_buckets=2), lin_nodes, lin_faces)
 
-- 
2.43.0


From 0203671cea5e1656f38ea814ca1a3bc0da7efbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:04 +0000
Subject: [PATCH 14/87] fix: SGrid interpolation weights were wrong in cells
 with (almost) parallel sides that are not aligned with the axes

---
 gridded/pysgrid/sgrid.py | 72 ++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 39 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index d4b9105..ab77940 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1313,49 +1313,43 @@ class SGrid:
         l = (l-a1 - a3*m)/(a2 + a4*m)
         """
 
-        def quad_eqn(l, m, t, aa, bb, cc):
-            """
-            solves the following eqns for m and l
-            m = (-bb +- sqrt(bb^2 - 4*aa*cc))/(2*aa)
-            l = (l-a1 - a3*m)/(a2 + a4*m)
-            """
-            if len(aa) == 0:
-                return
-            k = bb * bb - 4 * aa * cc
-            k = np.ma.masked_less(k, 0)
-
-            det = np.ma.sqrt(k)
-            m1 = (-bb - det) / (2 * aa)
-            l1 = (x[t] - a[0][t] - a[2][t] * m1) / (a[1][t] + a[3][t] * m1)
-
-            m2 = (-bb + det) / (2 * aa)
-            l2 = (x[t] - a[0][t] - a[2][t] * m2) / (a[1][t] + a[3][t] * m2)
-
-            t1 = np.logical_or(l1 < 0, l1 > 1)
-            t2 = np.logical_or(m1 < 0, m1 > 1)
-            t3 = np.logical_or(t1, t2)
-
-            m[t] = np.choose(t3, (m1, m2))
-            l[t] = np.choose(t3, (l1, l2))
-
         a = a.T
         b = b.T
-        aa = a[3] * b[2] - a[2] * b[3]
-        bb = a[3] * b[0] - a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + x * b[3] - y * a[3]
-        cc = a[1] * b[0] - a[0] * b[1] + x * b[1] - y * a[1]
-        m = np.zeros(bb.shape)
-        l = np.zeros(bb.shape)
-
-        t = aa[:] == 0
+        # relative to the first corner of the cell
+        dx = x - a[0]
+        dy = y - b[0]
+
+        def l_of_m(m):
+            """l, from whichever of the two equations determines it best"""
+            x_den = a[1] + a[3] * m
+            y_den = b[1] + b[3] * m
+            return np.where(
+                np.abs(x_den) >= np.abs(y_den),
+                (dx - a[2] * m) / x_den,
+                (dy - b[2] * m) / y_den,
+            )
 
-        # Attempts to solve the simpler linear case first.
-        with np.errstate(invalid="ignore"):
-            m[t] = -cc[t] / bb[t]
-            l[t] = (x[t] - a[0][t] - a[2][t] * m[t]) / (a[1][t] + a[3][t] * m[t])
-        # now solve the quadratic cases
-        quad_eqn(l, m, ~t, aa[~t], bb[~t], cc[~t])
+        def excess(l, m):
+            """how far outside of the unit square"""
+            e = np.maximum(np.abs(l - 0.5), np.abs(m - 0.5)) - 0.5
+            return np.where(np.isnan(e), np.inf, np.maximum(e, 0))
 
-        return (l, m)
+        aa = a[3] * b[2] - a[2] * b[3]
+        bb = a[1] * b[2] - a[2] * b[1] + dx * b[3] - dy * a[3]
+        cc = dx * b[1] - dy * a[1]
+
+        with np.errstate(all="ignore"):
+            det = np.sqrt(np.maximum(bb * bb - 4 * aa * cc, 0))
+            # this form of the solution does not lose precision as aa approaches zero:
+            # opposite sides of the cell (close to) parallel.
+            q = -0.5 * (bb + np.copysign(det, bb))
+            m1 = cc / q
+            m2 = q / aa
+            l1 = l_of_m(m1)
+            l2 = l_of_m(m2)
+            use_first = excess(l1, m1) <= excess(l2, m2)
+
+        return (np.where(use_first, l1, l2), np.where(use_first, m1, m2))
 
 
 class SGridAttributes:
-- 
2.43.0


From bc1bc657acec625d540729137cbc6e5aea10b185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:48 +0000
Subject: [PATCH 15/87] fix: slice for 'high' padding kept one row instead of
 dropping the last one

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index ab77940..ff39ad3 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -23,7 +23,7 @@ edge2_alternate_names = ["edge2", "v"]
 
 
 class SGrid:
-    padding_slices = {"both": (1, -1), "none": (None, None), "low": (1, None), "high": (None, 1)}
+    padding_slices = {"both": (1, -1), "none": (None, None), "low": (1, None), "high": (None, -1)}
 
     topology_dimension = 2
 
-- 
2.43.0


From ae59b946711e4b74f14e8356bc5b0e56902f3673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:48 +0000
Subject: [PATCH 16/87] fix: SGrid.interpolate_var_to_points: documented uses
 (no slices, slices as a list, alphas, list of points) raised

---
 gridded/pysgrid/sgrid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index ff39ad3..eb98bbd 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1115,7 +1115,7 @@ class SGrid:
 
         """
         # eventually should remove next line once celltree can support it
-        points = points.reshape(-1, 2)
+        points = np.asarray(points, dtype=np.float64).reshape(-1, 2)
 
         ind = indices
         if hash is None:
@@ -1138,7 +1138,8 @@ class SGrid:
 
         if alphas is None:
             # Better name for this would be per_cell_logical_offset
-            alphas = per_cell_log_offset = logical_coords - ind
+            alphas = logical_coords - ind
+        per_cell_log_offset = alphas.copy()
 
         if padding is None:
             padding = self.get_padding_by_location(location)
@@ -1155,7 +1156,7 @@ class SGrid:
         # else:
         #     slices = (xslice, yslice)
         zero_aligned_idxs = idxs#.copy() - [xslice.start, yslice.start]
-        var = variable[slices]
+        var = variable[:] if slices is None else variable[tuple(slices)]
         if len(var.shape) > 2:
             raise ValueError(
                 "Variable has too many dimensions to \
-- 
2.43.0


From 964b72d3dca3109294f2dce086fdac159193796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:48 +0000
Subject: [PATCH 17/87] fix: UGrid.interpolate_var_to_points took slices given
 as a list (as documented) for an index array

---
 gridded/pyugrid/ugrid.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 8d01edb..72b320f 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -788,9 +788,7 @@ class UGrid:
             raise ValueError("Data is incompatible with grid nodes or faces")
 
         if slices is not None:
-            if len(slices) == 1:
-                slices = slices[0]
-            variable = variable[slices]
+            variable = variable[tuple(slices)]
 
         _hash = self._hash_of_pts(points)
 
-- 
2.43.0


From 0dc1b6cd875de73b717911b7f5f5072ef58614fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:48 +0000
Subject: [PATCH 18/87] fix: SGrid.compute_interpolant: 'mask' masked the wrong
 points, 'mirror' refused more than two points

---
 gridded/pysgrid/sgrid.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index eb98bbd..7206368 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -972,9 +972,9 @@ class SGrid:
 
         NOTE: This function is not currently implemented for interpolation situations of length 4
         """
-        if values.shape[1] == 4:
+        if values.shape[-1] == 4:
             raise ValueError("Mirror behavior is not implemented for more than two values")
-        mm_values = np.where(values.mask, -values[:, ::-1], values)
+        mm_values = np.where(np.ma.getmaskarray(values), -values[..., ::-1], values)
         return mm_values
 
     def compute_interpolant(self, values, alphas, mask_behavior=None, check_alphas=True):
@@ -1025,7 +1025,7 @@ class SGrid:
         if mask_behavior is None:
             mask_behavior = self.masked_interpolant_behavior
 
-        if mask_behavior == "mirror" and len(values) > 2:
+        if mask_behavior == "mirror" and values.shape[-1] > 2:
             raise ValueError("Mirror behavior is not implemented for more than two values")
 
         if mask_behavior == "zero":
@@ -1033,8 +1033,10 @@ class SGrid:
         elif mask_behavior == "mirror":
             filled_values = self.mirror_mask_values(values)
         elif mask_behavior == "mask":
-            filled_values = values.copy()
-            filled_values.mask = np.tile(np.any(values.mask, axis=-1), 2)
+            filled_values = np.ma.array(values, copy=True)
+            filled_values.mask = np.broadcast_to(
+                np.any(np.ma.getmaskarray(values), axis=-1, keepdims=True), values.shape
+            )
         else:
             raise ValueError(f"unrecognized mask_behavior: {mask_behavior}")
 
-- 
2.43.0


From adc438b1d9ee5b9555ac727278e8e6586a338b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:48 +0000
Subject: [PATCH 19/87] fix: SGrid nearest neighbor lookups raised KeyError /
 AttributeError

---
 gridded/pysgrid/sgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 7206368..8e7c77c 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -686,7 +686,7 @@ class SGrid:
         points = np.asarray(points, dtype=np.float64)
         points = points.reshape(-1, 2)
 
-        if self._kd_trees[grid] is None:
+        if self._kd_trees.get(grid) is None:
             self.build_kdtree(grid)
         tree = self._kd_trees[grid]
         lin_indices = np.array(tree.query(points))[1].astype(np.int32)
@@ -786,7 +786,7 @@ class SGrid:
         """
         Given a list of 2D indices, return the value of var at each index
         """
-        var = var[:]
+        var = np.ma.asarray(var[:])
         rv = np.ma.zeros((index.shape[0], 1), dtype=np.float64)
         mask = np.ma.zeros((index.shape[0], 1), dtype=bool)
         raw = np.ravel_multi_index(index.T, var.shape, mode="clip")
-- 
2.43.0


From d5df98d2656f15772bd6e94b9348c182c8f86680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:58 +0000
Subject: [PATCH 20/87] fix: SGrid.build_celltree misnumbered cells that keep a
 masked node

---
 gridded/pysgrid/sgrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 8e7c77c..44f56ae 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -863,10 +863,10 @@ class SGrid:
                     "Could not match mask and faces array length. If padding is in use, please set self.center_padding"
                 )
 
-            lon = np.ma.MaskedArray(lon[:].copy())
-            lat = np.ma.MaskedArray(lat[:].copy())
+            lon = np.ma.MaskedArray(np.ma.getdata(lon[:]).copy())
+            lat = np.ma.MaskedArray(np.ma.getdata(lat[:]).copy())
             # Water cells grab all nodes that belong to them
-            node_mask = np.zeros_like(lon, dtype=np.bool_)
+            node_mask = np.zeros(lon.shape, dtype=np.bool_)
             node_mask[:-1, :-1] += ~cell_mask
             node_mask[:-1, 1:] += ~cell_mask
             node_mask[1:, 1:] += ~cell_mask
-- 
2.43.0


From 3907e09c431c34a68f00b4dc38d0925290b8db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:09 +0000
Subject: [PATCH 21/87] fix: Variable.at answered repeated queries from its
 memo regardless of options, new data or time, and shared results with the
 caller

---
 gridded/variable.py | 48 ++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 6e2c426..0a05ec9 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -106,6 +106,7 @@ class Variable:
         self.grid = grid
         self.depth = depth
         self.name = self._units = self._time = self._data = None
+        self._result_memo = collections.OrderedDict()
 
         self.name = name
         self.units = units
@@ -117,7 +118,6 @@ class Variable:
         self.filename = data_file
         self.grid_file = grid_file
         self.varname = varname
-        self._result_memo = collections.OrderedDict()
         self.fill_value = fill_value
 
         self.attributes = {} if attributes is None else attributes
@@ -359,6 +359,7 @@ class Variable:
     @time.setter
     def time(self, t):
         Time_class = self.__class__._default_component_types["time"]
+        self._result_memo.clear()
         if t is None:
             self._time = None
             return
@@ -391,6 +392,7 @@ class Variable:
                     f"Grid shape is {self.grid.node_lon.shape}"
                 )
         self._data = d
+        self._result_memo.clear()
 
     @property
     def units(self):
@@ -427,9 +429,26 @@ class Variable:
         """
         Returns a SHA1 hash of the array of points passed in
         """
-        return (hashlib.sha1(points.tobytes()).hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
+        layout = f"{points.dtype.str}{points.shape}".encode("utf-8")
+        return (
+            hashlib.sha1(points.tobytes() + layout).hexdigest(),
+            hashlib.sha1(str(time).encode("utf-8")).hexdigest(),
+        )
 
-    def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
+    def _memo_key(self, points, _hash, *options, **kwargs):
+        """
+        Key of a result in the memo: everything that the answer depends on.
+        """
+        settings = (
+            self.location,
+            self.fill_value,
+            self.surface_boundary_condition,
+            self.bottom_boundary_condition,
+            tuple(self.dimension_ordering),
+        )
+        return (_hash, points.shape, points.dtype.str, repr(options), repr(sorted(kwargs.items())), repr(settings))
+
+    def _memoize_result(self, points, time, result, D, _copy=True, _hash=None):
         if _copy:
             result = result.copy()
         result.setflags(write=False)
@@ -438,9 +457,8 @@ class Variable:
         if D is not None and len(D) > 4:
             D.popitem(last=False)
         D[_hash] = result
-        D[_hash].setflags(write=False)
 
-    def _get_memoed(self, points, time, D, _copy=False, _hash=None):
+    def _get_memoed(self, points, time, D, _copy=True, _hash=None):
         if _hash is None:
             _hash = self._get_hash(points, time)
         if D is not None and _hash in D:
@@ -602,8 +620,9 @@ class Variable:
         if _hash is None:
             _hash = self._get_hash(pts, time)
 
+        memo_key = self._memo_key(pts, _hash, units, extrapolate, unmask, **kwargs)
         if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
+            res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
                 return res
 
@@ -623,7 +642,7 @@ class Variable:
             value = np.ma.filled(value)
 
         if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
+            self._memoize_result(pts, time, value, self._result_memo, _hash=memo_key)
         return value
 
     interpolate = at  # common request
@@ -1178,7 +1197,11 @@ class VectorVariable:
         """
         Returns a SHA1 hash of the array of points passed in
         """
-        return (hashlib.sha1(points.tobytes()).hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
+        layout = f"{points.dtype.str}{points.shape}".encode("utf-8")
+        return (
+            hashlib.sha1(points.tobytes() + layout).hexdigest(),
+            hashlib.sha1(str(time).encode("utf-8")).hexdigest(),
+        )
 
     def _memoize_result(self, points, time, result, D, _copy=True, _hash=None):
         if _copy:
@@ -1268,11 +1291,7 @@ class VectorVariable:
         if _hash is None:
             _hash = self._get_hash(pts, time)
 
-        if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
-            if res is not None:
-                return res
-
+        # no memo of its own: the variables memoize their results, and know when they are outdated
         value = np.ma.column_stack(
             [
                 var.at(
@@ -1289,9 +1308,6 @@ class VectorVariable:
             ]
         )
 
-        if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
-
         return value
 
     @classmethod
-- 
2.43.0


From 79215c6f1282c6f59ba2487dbb4f992fe317260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:27 +0000
Subject: [PATCH 22/87] fix: surface-only depth could not be used by
 Variable.at, and lost its surface index when created from netCDF; S_Depth
 needed a masked profile

---
 gridded/depth.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 749c4c5..913760e 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -50,7 +50,7 @@ class DepthBase:
 
     @classmethod
     def from_netCDF(cls, surface_index=-1, **kwargs):
-        return cls(surface_index, **kwargs)
+        return cls(surface_index=surface_index, **kwargs)
 
     @property
     def surface_index(self):
@@ -64,6 +64,14 @@ class DepthBase:
         # for the system being represented
         return self._bottom_index
 
+    @property
+    def num_levels(self):
+        return 1
+
+    @property
+    def num_layers(self):
+        return 1
+
     def interpolation_alphas(
         self,
         points,
@@ -698,8 +706,9 @@ class S_Depth(DepthBase):
 
         # depth_profile mask is True where the point is outside the grid horizontally
         # so it must be reapplied
-        indices = np.ma.array(indices, mask=depth_profiles.mask[:, 0].copy())
-        alphas.mask = depth_profiles.mask[:, 0].copy()
+        off_grid = np.ma.getmaskarray(depth_profiles)[:, 0]
+        indices = np.ma.array(indices, mask=off_grid.copy())
+        alphas.mask = off_grid.copy()
         indices, alphas, oob_mask = self._apply_boundary_conditions(
             indices, alphas, surface_index, bottom_index, surface_boundary_condition, bottom_boundary_condition
         )
-- 
2.43.0


From 602b33aa018427cf22f51b7d5bf164829702caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:27 +0000
Subject: [PATCH 23/87] fix: Variable.at with depth: wrong points or IndexError
 beyond the first and last level or layer, center-located data, depth before
 time

---
 gridded/variable.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 0a05ec9..0e463df 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -672,7 +672,8 @@ class Variable:
             slices=slices,
             _memo=True,
         )
-        return value
+        # one value per point, whatever the location: the other dimensions are interpolated point by point
+        return value.reshape(-1)
 
     def _time_interp(self, points, time, extrapolate, slices=(), **kwargs):
         """
@@ -699,9 +700,9 @@ class Variable:
 
         if time == self.time.min_time or (extrapolate and time < self.time.min_time):
             # min or before
-            return val_func(points, time, extrapolate, slices=(0,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (0,), **kwargs)
         elif time == self.time.max_time or (extrapolate and time > self.time.max_time):
-            return val_func(points, time, extrapolate, slices=(-1,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (-1,), **kwargs)
         else:
             ind = self.time.index_of(time)
             s1 = slices + (ind,)
@@ -761,26 +762,29 @@ class Variable:
         msk = np.isnan(d_indices) if not np.ma.is_masked(d_indices) else d_indices.mask
         values = np.ma.MaskedArray(data=np.empty((points.shape[0],)) * np.nan, mask=msk)
         # Points are mixed within the grid. Some may be above the surface or under the ground
-        uniq_idx = np.unique(d_indices)
-        if np.ma.masked in uniq_idx:  # the [0:-1] is required to skip all masked indices
-            uniq_idx = uniq_idx[0:-1]
-        if self.data.shape[dim_idx] == self.depth.num_layers:
+        uniq_idx = np.unique(np.ma.compressed(d_indices))
+        num_data = self.data.shape[dim_idx]
+        if num_data == self.depth.num_layers:
             #data is located on cell centers, so value is held constant across cell.
             for idx in uniq_idx:
-                if idx == -1:
-                    #special case for out of bounds and extrapolation.
-                    idx = 0
                 lay_idxs = np.where(d_indices == idx)[0]
+                # out of bounds and extrapolation: the nearest layer
+                idx = min(max(idx, 0), num_data - 1)
                 values.put(lay_idxs, val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs))
         else:
             #data is on cell edge, or on nodes, so we need to interpolate between the two levels.
             for idx in uniq_idx:
-                if idx == self.data.shape[dim_idx] - 1:
+                lay_idxs = np.where(d_indices == idx)[0]
+                if idx == num_data - 1 or np.all(d_alphas[lay_idxs] == 0):
                     # special case, index == depth dim length, so only v0 is valid
                     v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                     values.put(lay_idxs, v0)
                     continue
-                lay_idxs = np.where(d_indices == idx)[0]
+                if idx == -1:
+                    # special case, before the first level, so only v1 is valid
+                    v1 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (0,), **kwargs)
+                    values.put(lay_idxs, v1)
+                    continue
                 v1 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx + 1,), **kwargs)
                 v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                 sub_vals = v0 + (v1 - v0) * d_alphas[lay_idxs]
-- 
2.43.0


From dcc83938bd208959c982a6040f77127dced8af7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:53 +0000
Subject: [PATCH 24/87] fix: Grid_R: masked values entered the interpolation as
 raw fill values without slices; AttributeError for data that does not fit

---
 gridded/grids.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 8c36d60..f3fa864 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -406,9 +406,11 @@ class Grid_R(GridBase):
         y, x = self.lonlat_to_yx(variable)
 
         if slices is not None:
-            variable = variable[slices]
-            if np.ma.isMA(variable):
-                variable = variable.filled(0)  # eventually should use Variable fill value
+            variable = variable[tuple(slices) if isinstance(slices, list) else slices]
+        elif not isinstance(variable, np.ndarray):
+            variable = variable[:]
+        if np.ma.isMA(variable):
+            variable = variable.filled(0)  # eventually should use Variable fill value
 
         # idx_y = np.digitize(points_y, y) - 1
         # idx_x = np.digitize(points_x, x) - 1
@@ -458,9 +460,9 @@ class Grid_R(GridBase):
         difference = (var_shape - node_shape).tolist()
         if (difference == [1, 1] or difference == [-1, -1]) and self.center_lon is not None:
             return "center"
-        elif difference == [1, 0] and self.edge1_lon is not None:
+        elif difference == [1, 0] and getattr(self, "edge1_lon", None) is not None:
             return "edge1"
-        elif difference == [0, 1] and self.edge2_lon is not None:
+        elif difference == [0, 1] and getattr(self, "edge2_lon", None) is not None:
             return "edge2"
         elif difference == [0, 0] and self.node_lon is not None:
             return "node"
-- 
2.43.0


From 6244d01cc32cada65598b45f3a2088ec93001611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:53 +0000
Subject: [PATCH 25/87] fix: VectorVariable.time could not be assigned;
 VectorVariable.units cut strings like 'mm' to their first letter

---
 gridded/variable.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 0e463df..f3a96b5 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1152,9 +1152,11 @@ class VectorVariable:
                     raise ValueError(f"""Time was not compatible with variables.
                     Set variables attribute to None to allow changing other attributes
                     Original error: {str(e)}""")
-        if isinstance(t, Time_class):
+        if t is None:
+            self._time = None
+        elif isinstance(t, Time_class):
             self._time = t
-        elif isinstance(t, collections.Iterable) or isinstance(t, nc4.Variable):
+        elif isinstance(t, collections.abc.Iterable) or isinstance(t, nc4.Variable):
             self._time = Time_class(t)
         else:
             raise ValueError("Time must be set with an iterable container or netCDF variable")
@@ -1166,7 +1168,7 @@ class VectorVariable:
 
         :rtype: string
         """
-        if hasattr(self._units, "__iter__"):
+        if hasattr(self._units, "__iter__") and not isinstance(self._units, str):
             if len(set(self._units)) > 1:
                 return self._units
             else:
-- 
2.43.0


From 8ac8e1d31c0583fd5edd1cfe1280eb2f6a5904a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:37 +0000
Subject: [PATCH 26/87] fix: L_Depth.from_netCDF changed the caller's depth
 levels in place

---
 gridded/depth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/depth.py b/gridded/depth.py
index 913760e..5226597 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -190,6 +190,8 @@ class L_Depth(DepthBase):
             terms = {}
             for term, tvar in nc_vars.items():
                 terms[term] = tvar[:]
+        else:
+            terms = dict(terms, depth_levels=np.array(terms["depth_levels"]))
         # 2023-02-21 set the depth of the top layer to zero
         surface_index = np.argmin(terms["depth_levels"])
         terms["depth_levels"][surface_index] = 0.0
-- 
2.43.0


From 6077db66da29d4ca6553d5c81ad9f3c6e789ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:55 +0000
Subject: [PATCH 27/87] fix: UGrid save/load lost face-face and face-edge
 connectivity and boundary coordinates, and transposed meshes of three faces
 or two segments

---
 gridded/pyugrid/read_netcdf.py | 21 ++++++++++++++++++---
 gridded/pyugrid/ugrid.py       | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 27dbe0c..e3557e8 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -65,21 +65,31 @@ grid_defs = [
     {
         "grid_attr": "faces",  # Name in UGrid object.
         "role": "face_node_connectivity",  # Name in mesh variable.
+        "dimension": "face_dimension",  # Names the dimension of the elements, in mesh variable.
         "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
     },
     {
         "grid_attr": "face_face_connectivity",  # Name in UGrid object.
         "role": "face_face_connectivity",  # Name in mesh variable.
+        "dimension": "face_dimension",
+        "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
+    },
+    {
+        "grid_attr": "face_edge_connectivity",  # Name in UGrid object.
+        "role": "face_edge_connectivity",  # Name in mesh variable.
+        "dimension": "face_dimension",
         "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
     },
     {
         "grid_attr": "boundaries",  # Name in UGrid object.
         "role": "boundary_node_connectivity",  # Name in mesh var.
+        "dimension": "boundary_dimension",
         "num_ind": 2,  # Number of idx (3 for faces, 2 for segments).
     },
     {
         "grid_attr": "edges",  # Name in UGrid object.
         "role": "edge_node_connectivity",  # Name in mesh variable.
+        "dimension": "edge_dimension",
         "num_ind": 2,  # Number of idx (3 for faces, 2 for segments).
     },
 ]
@@ -214,13 +224,18 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
                 continue
             array = var[:, :]
             # Fortran order, instead of C order, transpose the array
-            # logic below will fail for 3 node or two edge grids.
-            if array.shape[0] == defs["num_ind"]:
+            element_dim = getattr(mesh_var, defs["dimension"], None)
+            if element_dim in var.dimensions:
+                transposed = var.dimensions[0] != element_dim
+            else:
+                # a square array could be either: take it as the standard order.
+                transposed = array.shape[0] == defs["num_ind"] != array.shape[1]
+            if transposed:
                 array = array.T
             try:
                 start_index = int(var.start_index)
             except AttributeError:
-                if array.max() == grid.nodes.shape[0]:
+                if defs["role"].endswith("_node_connectivity") and array.max() == grid.nodes.shape[0]:
                     start_index = 1
                 else:
                     start_index = 0
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 72b320f..8e743dc 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1048,12 +1048,14 @@ class UGrid:
         if self._edges is not None:
             # Attribute required if variables will be defined on edges.
             mesh.edge_node_connectivity = mesh_name + "_edge_nodes"
+            mesh.edge_dimension = mesh_name + "_num_edge"
             if self.edge_coordinates is not None:
                 # Optional attribute (requires edge_node_connectivity).
                 coord = "{0}_edge_lon {0}_edge_lat".format
                 mesh.edge_coordinates = coord(mesh_name)
         if self._faces is not None:
             mesh.face_node_connectivity = mesh_name + "_face_nodes"
+            mesh.face_dimension = mesh_name + "_num_face"
             if self.face_coordinates is not None:
                 # Optional attribute.
                 coord = "{0}_face_lon {0}_face_lat".format
@@ -1066,6 +1068,10 @@ class UGrid:
             mesh.face_face_connectivity = mesh_name + "_face_links"
         if self._boundaries is not None:
             mesh.boundary_node_connectivity = mesh_name + "_boundary_nodes"
+            mesh.boundary_dimension = mesh_name + "_num_boundary"
+            if self.boundary_coordinates is not None:
+                coord = "{0}_boundary_lon {0}_boundary_lat".format
+                mesh.boundary_coordinates = coord(mesh_name)
 
         # FIXME: This could be re-factored to be more generic, rather than
         # separate for each type of data see the coordinates example below.
@@ -1108,6 +1114,18 @@ class UGrid:
             boundary_nodes.long_name = "Maps every boundary segment to the two nodes that it connects."
             boundary_nodes.start_index = IND_DT(0)
 
+        for role, name in [("face_edge_connectivity", "_face_edges"), ("face_face_connectivity", "_face_links")]:
+            connectivity = getattr(self, role)
+            if connectivity is not None:
+                var = nclocal.createVariable(
+                    mesh_name + name,
+                    IND_DT,
+                    (mesh_name + "_num_face", mesh_name + "_num_vertices"),
+                )
+                var[:] = connectivity
+                var.cf_role = role
+                var.start_index = IND_DT(0)
+
         # Optional "coordinate variables."
         for location in ["face", "edge", "boundary"]:
             loc = f"{location}_coordinates"
-- 
2.43.0


From d2177bc2011759e8c44baead551c5cc179d7491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:55 +0000
Subject: [PATCH 28/87] fix: saving with format='netcdf3' wrote a netCDF4 file

---
 gridded/gridded.py       | 4 ++--
 gridded/pyugrid/ugrid.py | 4 ++--
 gridded/utilities.py     | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index a7735a1..acc6e9a 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -215,10 +215,10 @@ class Dataset:
             raise ValueError(f"format: {format} not supported. Options are: {format_options}")
 
         # create an ncdataset
-        ncds = get_writable_dataset(filename)
+        ncds = get_writable_dataset(filename, format=format)
 
         # Save the grid and variables
-        self.grid.save(ncds, format="netcdf4", variables=self.variables)
+        self.grid.save(ncds, format=format, variables=self.variables)
 
         ncds.close()
 
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 8e743dc..c0c9a89 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -998,7 +998,7 @@ class UGrid:
         :param format: format to save -- 'netcdf3' or 'netcdf4'
                        are the only options at this point.
         """
-        self.save(filename, format="netcdf4")
+        self.save(filename, format=format)
 
     def save(self, filepath, format="netcdf4", variables={}):
         """
@@ -1022,7 +1022,7 @@ class UGrid:
 
         mesh_name = self.mesh_name
 
-        nclocal = get_writable_dataset(filepath)
+        nclocal = get_writable_dataset(filepath, format=format)
 
         nclocal.createDimension(mesh_name + "_num_node", len(self.nodes))
         if self._edges is not None:
diff --git a/gridded/utilities.py b/gridded/utilities.py
index ab5dafc..9242515 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -446,7 +446,8 @@ def get_writable_dataset(ncfile, format="netcdf4"):
         return ncfile
     elif isstring(ncfile):  # Fixme: should be pathlike...
         print("filename is:", ncfile)
-        return nc4.Dataset(ncfile, mode="w", clobber=True, format="NETCDF4")
+        nc_format = {"netcdf3": "NETCDF3_CLASSIC", "netcdf4": "NETCDF4"}[format]
+        return nc4.Dataset(ncfile, mode="w", clobber=True, format=nc_format)
     else:
         raise ValueError("Must be a string path or a netcdf4 Dataset")
 
-- 
2.43.0


From 6f8ffe38cdc97db9e299e919d9f8107de38475bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:55 +0000
Subject: [PATCH 29/87] fix: Dataset.save dropped the global attributes

---
 gridded/gridded.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index acc6e9a..dd9608b 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -217,6 +217,8 @@ class Dataset:
         # create an ncdataset
         ncds = get_writable_dataset(filename, format=format)
 
+        ncds.setncatts(self.attributes)
+
         # Save the grid and variables
         self.grid.save(ncds, format=format, variables=self.variables)
 
-- 
2.43.0


From c61d96038df93f6e886af0fae38e1415529e4fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:55 +0000
Subject: [PATCH 30/87] fix: saved UGrid variables lost their units and were
 renamed to their long name; packed or filled ones were corrupted or refused

---
 gridded/pyugrid/ugrid.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index c0c9a89..9cde649 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1211,21 +1211,24 @@ class UGrid:
             print("name is:", var.name)
             print("var data is:", var.data)
             print("var data shape is:", var.data.shape)
+            attributes = dict(var.attributes)
             data_var = nclocal.createVariable(
-                var.name,
+                name,
                 var.data.dtype,
                 shape,
                 chunksizes=chunksizes,
                 # zlib=False,
                 # complevel=0,
+                fill_value=attributes.pop("_FillValue", None),
             )
             print("new dat var shape:", shape)
-            data_var[:] = var.data[:]
-            # Add the standard attributes:
-            data_var.location = var.location
-            data_var.mesh = mesh_name
+            if getattr(var, "units", None) is not None:
+                attributes.setdefault("units", var.units)
+            # The standard attributes:
+            attributes.update(location=var.location, mesh=mesh_name)
+            attributes.pop("coordinates", None)
             if coordinates is not None:
-                data_var.coordinates = coordinates
-            # Add the extra attributes.
-            for att_name, att_value in var.attributes.items():
-                setattr(data_var, att_name, att_value)
+                attributes["coordinates"] = coordinates
+            # Before the data: they say how it is packed.
+            data_var.setncatts(attributes)
+            data_var[:] = var.data[:]
-- 
2.43.0


From bfc4c4805cb45a597a9489739301d11aaeaf0f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:54 +0000
Subject: [PATCH 31/87] fix: a grid_topology mapping failed for variables with
 upper case names and for composite nodes

---
 gridded/grids.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index f3fa864..6b3dd83 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -78,9 +78,9 @@ class GridBase:
         else:
             for n, v in grid_topology.items():
                 if n in node_attrs:
-                    init_args[n] = gf_vars[v][:]
+                    init_args[n] = gf_vars[v.lower()][:]
                 if n in composite_node_names:
-                    v = gf_vars[n][:].reshape(-1, 2)
+                    v = gf_vars[v.lower()][:].reshape(-1, 2)
                     init_args[node_attrs[0]] = v[:, 0]
                     init_args[node_attrs[1]] = v[:, 1]
             gt = grid_topology
@@ -136,7 +136,7 @@ class Grid_U(GridBase, UGrid):
         else:
             for n, v in grid_topology.items():
                 if n in face_attrs:
-                    init_args[n] = gf_vars[v][:]
+                    init_args[n] = gf_vars[v.lower()][:]
                     break
             gt = grid_topology
         # fixme: This is assuming that the array will be in Fortran order and index
@@ -224,11 +224,11 @@ class Grid_S(GridBase, SGrid):
 
         else:
             for n, v in grid_topology.items():
-                if n in center_attrs + edge1_attrs + edge2_attrs and v in gf_vars:
-                    init_args[n] = gf_vars[v][:]
-                if n in mask_attrs and v in gf_vars:
+                if n in center_attrs + edge1_attrs + edge2_attrs and v.lower() in gf_vars:
+                    init_args[n] = gf_vars[v.lower()][:]
+                if n in mask_attrs and v.lower() in gf_vars:
                     # masks are not dereferenced
-                    init_args[n] = gf_vars[v]
+                    init_args[n] = gf_vars[v.lower()]
             gt = grid_topology
         return init_args, gt
 
-- 
2.43.0


From 3d05cb6e71527681baacbbf24d7938523d4d4109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:54 +0000
Subject: [PATCH 32/87] fix: Grid_U transposed the connectivity of meshes with
 three triangles

---
 gridded/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 6b3dd83..af1dff0 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -142,7 +142,7 @@ class Grid_U(GridBase, UGrid):
         # fixme: This is assuming that the array will be in Fortran order and index
         #        from 1, or in C order and index from 0
         #        Those are actually independent concepts!
-        if init_args["faces"].shape[0] == 3:
+        if init_args["faces"].shape[0] == 3 != init_args["faces"].shape[1]:
             # fortran order faces need to be transposed
             init_args["faces"] = np.ascontiguousarray(np.array(init_args["faces"]).T)
         if init_args["faces"].max() == init_args["node_lon"].shape[0]:
-- 
2.43.0


From 8f330ae6603a783828ffd87ec31d166b6b5f2e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:54 +0000
Subject: [PATCH 33/87] fix: the grid_type attribute of a file was ignored for
 rectangular grids and when capitalized

---
 gridded/grids.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index af1dff0..38e7380 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -605,7 +605,10 @@ class Grid:
                 return Grid_S
         else:
             # no topology, so search dataset for grid_type variable
-            if hasattr(dataset, "grid_type") and dataset.grid_type in sgrid_names + ugrid_names:
+            if (
+                hasattr(dataset, "grid_type")
+                and dataset.grid_type.lower() in sgrid_names + ugrid_names + rgrid_names
+            ):
                 if dataset.grid_type.lower() in ugrid_names:
                     return Grid_U
                 elif dataset.grid_type.lower() in rgrid_names:
-- 
2.43.0


From ab3510b679a0899b7b43c98fe9e6cbf250e6ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:54 +0000
Subject: [PATCH 34/87] fix: Dataset(ncfile, grid_topology=...) ignored the
 topology

---
 gridded/gridded.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index dd9608b..1e869bc 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -73,7 +73,7 @@ class Dataset:
         if ncfile is not None:
             if grid is not None or variables is not None or attributes is not None:
                 raise ValueError("You can create a Dataset from a file, or from raw databut not both.")
-            self._init_from_netCDF(ncfile)
+            self._init_from_netCDF(ncfile, grid_topology=grid_topology)
         else:  # Create from grid and variables -- this is what should usually happen.
             self.filename = None
             self.grid = grid
-- 
2.43.0


From d8a36eb4db6b86f6706e8310e8c6086fc52cda18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:37 +0000
Subject: [PATCH 35/87] fix: SGrid.load_grid failed on files without face
 coordinates

The angles are computed from the cell centers, which the SGRID conventions
make optional; without them there are no angles.
---
 gridded/pysgrid/sgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 44f56ae..556c537 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1432,6 +1432,8 @@ class SGridAttributes:
         if not angles:
             # FIXME: Get rid of pair_arrays.
             center_lon, center_lat = self.get_cell_center_lat_lon()
+            if center_lon is None:
+                return None  # face coordinates are optional
             cell_centers = pair_arrays(center_lon, center_lat)
             centers_start = cell_centers[..., :-1, :]
             centers_end = cell_centers[..., 1:, :]
-- 
2.43.0


From e65e30869c7aab12f78e74aee2721baf70dbb517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:01 +0000
Subject: [PATCH 36/87] fix: SGrid.load_grid applied the face padding of one
 dimension to the other

face_padding is used by position on arrays, but was kept in the order of the
face_dimensions attribute, which usually lists x first while arrays have it last.
---
 gridded/pysgrid/sgrid.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 556c537..b6672c1 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -201,6 +201,7 @@ class SGrid:
         edge2_lon, edge2_lat = sa.get_cell_edge2_lat_lon()
         face_dimensions, face_padding = sa.get_attr_dimension("face_dimensions")  # noqa
         face_coordinates = sa.get_attr_coordinates("face_coordinates")
+        face_padding = sa.order_padding(face_padding, node_coordinates, face_coordinates)
         node_mask, center_mask, edge1_mask, edge2_mask = sa.get_masks(node_lon, center_lon, edge1_lon, edge2_lon)
         sgrid = cls(
             angles=angles,
@@ -1389,6 +1390,21 @@ class SGridAttributes:
             attr_padding = attr_dim_padding
         return attr_dim, attr_padding
 
+    def order_padding(self, padding, node_coordinates, face_coordinates):
+        """
+        Order the padding of the faces as the dimensions of the arrays: the
+        topology variable usually lists the x dimension first, while the arrays
+        usually have it last.
+
+        """
+        for coordinates, dim in ((node_coordinates, "node_dim"), (face_coordinates, "face_dim")):
+            if padding is None or coordinates is None:
+                continue
+            dims = self.nc[coordinates[0]].dimensions
+            if all(getattr(p, dim) in dims for p in padding):
+                return sorted(padding, key=lambda p: dims.index(getattr(p, dim)))
+        return padding
+
     def get_attr_coordinates(self, attr_name):
         try:
             attr_coordinates_raw = getattr(self.topology_var, attr_name)
-- 
2.43.0


From 240bb027221706c1a388756531597278058ea1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:01 +0000
Subject: [PATCH 37/87] fix: SGrid.save_as_netcdf lost the edge coordinates and
 the masks

The variables were created but never filled, so that the grid read back had
masked edge coordinates and every cell masked out.
---
 gridded/pysgrid/sgrid.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index b6672c1..b81a879 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -458,6 +458,15 @@ class SGrid:
             grid_angle = nc_file.createVariable(angle_obj.variable, angle_obj.dtype, angle_obj.dimensions)
             if self.angles is not None:
                 grid_angle[:] = self.angles[:]
+        # the other arrays that make up the grid: edge coordinates and masks
+        grid_data = {}
+        if self.edge1_coordinates is not None and self.edge1_lon is not None:
+            grid_data.update(zip(self.edge1_coordinates, (self.edge1_lon, self.edge1_lat)))
+        if self.edge2_coordinates is not None and self.edge2_lon is not None:
+            grid_data.update(zip(self.edge2_coordinates, (self.edge2_lon, self.edge2_lat)))
+        for mask in (self.node_mask, self.center_mask, self.edge1_mask, self.edge2_mask):
+            if hasattr(mask, "ncattrs"):
+                grid_data[mask.name] = mask
         for dataset_variable in self.variables:
             dataset_var_obj = getattr(self, dataset_variable)
             try:
@@ -468,6 +477,13 @@ class SGrid:
                 continue
             else:
                 axes = []
+                if dataset_variable in grid_data:
+                    values = grid_data[dataset_variable]
+                    if hasattr(values, "ncattrs"):
+                        # the meaning of a mask is in its attributes
+                        attrs = [a for a in values.ncattrs() if a != "_FillValue"]
+                        dataset_grid_var.setncatts({a: values.getncattr(a) for a in attrs})
+                    dataset_grid_var[:] = values[:]
                 if dataset_var_obj.grid is not None:
                     dataset_grid_var.grid = grid_var
                 if dataset_var_obj.standard_name is not None:
-- 
2.43.0


From da6b2ee7f4b05690487035e64d70e6f706b029b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:30 +0000
Subject: [PATCH 38/87] fix: SGrid.load_grid failed on files without vertical
 dimensions

vertical_padding is never None; the padding read from the file is in
_vertical_padding, and is None without a vertical_dimensions attribute.
---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index b81a879..2f9f768 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -271,7 +271,7 @@ class SGrid:
 
     def all_padding(self):
         all_padding = self.get_all_face_padding() + self.get_all_edge_padding()
-        if self.vertical_padding is not None:
+        if self._vertical_padding is not None:
             all_padding += self._vertical_padding
         return all_padding
 
-- 
2.43.0


From 6b7db357f142d1bc83dedd96c3ca6807e3099a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:30 +0000
Subject: [PATCH 39/87] fix: SGrid.load_grid failed on coordinates lists with
 more than one blank

---
 gridded/pysgrid/read_netcdf.py | 2 +-
 gridded/pysgrid/sgrid.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/pysgrid/read_netcdf.py b/gridded/pysgrid/read_netcdf.py
index 03d5869..e81c2c1 100644
--- a/gridded/pysgrid/read_netcdf.py
+++ b/gridded/pysgrid/read_netcdf.py
@@ -231,7 +231,7 @@ class NetCDFDataset:
                     else:
                         z_coordinate = pc_name  # this might not always work...
             else:
-                lvc_split = location_var_coordinates.strip().split(" ")
+                lvc_split = location_var_coordinates.split()
                 for lvc in lvc_split:
                     var_coord = nc_vars[lvc]
                     try:
diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 2f9f768..82fc49d 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1428,7 +1428,7 @@ class SGridAttributes:
             location_name = attr_name.split("_")[0]
             attr_coordinates = self.ncd.find_coordinates_by_location(location_name, self.topology_dim)  # noqa
         else:
-            attr_coordinates_val = attr_coordinates_raw.split(" ")
+            attr_coordinates_val = attr_coordinates_raw.split()
             attr_coordinates = tuple(attr_coordinates_val)
         return attr_coordinates
 
@@ -1441,7 +1441,7 @@ class SGridAttributes:
             grid_cell_node_vars = self.ncd.find_node_coordinates(node_dimensions)  # noqa
             node_coordinates = grid_cell_node_vars
         else:
-            node_coordinate_val = node_coordinates.split(" ")
+            node_coordinate_val = node_coordinates.split()
             node_coordinates = tuple(node_coordinate_val)
         return node_dimensions, node_coordinates
 
-- 
2.43.0


From eeb7e7317f59135012f896d042c96bf39940d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:25 +0000
Subject: [PATCH 40/87] fix: axes attribute of SGRID variables: names were cut
 at the first digit

---
 gridded/pysgrid/read_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/read_netcdf.py b/gridded/pysgrid/read_netcdf.py
index e81c2c1..c1575f8 100644
--- a/gridded/pysgrid/read_netcdf.py
+++ b/gridded/pysgrid/read_netcdf.py
@@ -86,7 +86,7 @@ def parse_padding(padding_str, mesh_topology_var):
 
 
 def parse_axes(axes_attr):
-    p = re.compile("([a-zA-Z]: [a-zA-Z_]+)")
+    p = re.compile("([a-zA-Z]: [a-zA-Z0-9_]+)")
     matches = p.findall(axes_attr)
     x_axis = None
     y_axis = None
-- 
2.43.0


From 56d003d0cc977c3c72640ae31d67f3a75537452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:04 +0000
Subject: [PATCH 41/87] fix: SGrid.locate_faces raised IndexError when every
 cell is masked

---
 gridded/pysgrid/sgrid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 82fc49d..1dd9241 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -678,7 +678,7 @@ class SGrid:
         rev_arrs = None
         if use_mask and self._cell_tree_mask is not None:
             rev_arrs = self._cell_tree_mask[1]
-        indices = tree.locate(points)
+        indices = tree.locate(points) if tree is not None else np.full(len(points), -1, dtype=np.int32)
         if rev_arrs is not None:
             indices = rev_arrs[indices]
         lon, lat = self.node_lon, self.node_lat
@@ -941,7 +941,9 @@ class SGrid:
 
         self._cell_ind_memo_dict.clear()
         # two buckets: the trees built with more miss some points that are inside a cell
-        self._cell_tree = (CellTree(lin_nodes, lin_faces, num_buckets=2), lin_nodes, lin_faces)
+        # (without any unmasked cell there is nothing to search)
+        tree = CellTree(lin_nodes, lin_faces, num_buckets=2) if len(lin_faces) else None
+        self._cell_tree = (tree, lin_nodes, lin_faces)
 
     def nearest_var_to_points(
         self,
-- 
2.43.0


From f31d5da7e7269036e065c4c4cfd1a2a8ce94c479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:33 +0000
Subject: [PATCH 42/87] fix: mask values meaning 'river' were taken for land

The documentation of convert_mask_to_numpy_mask counts rivers as water.
---
 gridded/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 9242515..186d67f 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -52,7 +52,7 @@ def convert_mask_to_numpy_mask(mask_var):
         # CF Conventions 3.5 places no case requirement on flag_meanings, so
         # "Land Water" is valid metadata. Lowercase before the substring test
         # so capitalized words are recognized as water/lake.
-        meaning_mask = [False if ("water" in s.lower() or "lake" in s.lower()) else True for s in fm]
+        meaning_mask = [not any(w in s.lower() for w in ("water", "lake", "river")) for s in fm]
         tfmap = dict(zip(fv, meaning_mask))
         for k, v in tfmap.items():
             ret_mask[mask_data == k] = v
-- 
2.43.0


From 893f67095d44ed6c627d830a151691db839608d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:22 +0000
Subject: [PATCH 43/87] fix: depth of FVCOM files took the layers for levels
 and the centers' bathymetry for the nodes'

In FVCOM files siglay and siglev share one standard name, as do h and h_center.
The search by standard name took precedence over the one by variable name, so
that both sigma terms were the first of them, and the bathymetry h_center.
---
 gridded/utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 186d67f..075bcf5 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -469,11 +469,13 @@ def search_netcdf_vars(cls=None, ds=None, dg=None):
     """
     vn_search = search_dataset_for_variables_by_varname(ds, cls.default_names)
     ds_search = search_dataset_for_variables_by_longname(ds, cls.cf_names)
-    found_vars = merge_var_search_dicts(ds_search, vn_search)
+    # the name identifies a variable; a standard name may be shared by several,
+    # e.g. by the sigma levels and layers of FVCOM, on the nodes and on the centers
+    found_vars = merge_var_search_dicts(vn_search, ds_search)
     if ds != dg:
         dg_vn_search = search_dataset_for_variables_by_varname(dg, cls.default_names)
         dg_ln_search = search_dataset_for_variables_by_longname(dg, cls.cf_names)
-        dg_search = merge_var_search_dicts(dg_ln_search, dg_vn_search)
+        dg_search = merge_var_search_dicts(dg_vn_search, dg_ln_search)
         found_vars = merge_var_search_dicts(found_vars, dg_search)
     return found_vars
 
-- 
2.43.0


From 268f78b200d7fffd1c3546746b07b8bf3f31f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:23 +0000
Subject: [PATCH 44/87] fix: grid variables with upper case names were taken
 for data variables

---
 gridded/grids.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 38e7380..89f5a34 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -62,8 +62,8 @@ class GridBase:
                 if n1 in gf_vars and n2 in gf_vars:
                     init_args[node_attrs[0]] = gf_vars[n1][:]
                     init_args[node_attrs[1]] = gf_vars[n2][:]
-                    gt[node_attrs[0]] = n1
-                    gt[node_attrs[1]] = n2
+                    gt[node_attrs[0]] = gf_vars[n1].name
+                    gt[node_attrs[1]] = gf_vars[n2].name
                     break
             if node_attrs[0] not in init_args:
                 for n in composite_node_names:
@@ -71,7 +71,7 @@ class GridBase:
                         v = gf_vars[n][:].reshape(-1, 2)
                         init_args[node_attrs[0]] = v[:, 0]
                         init_args[node_attrs[1]] = v[:, 1]
-                        gt["node_coordinates"] = n
+                        gt["node_coordinates"] = gf_vars[n].name
                         break
             if node_attrs[0] not in init_args:
                 raise ValueError("Unable to find node coordinates.")
@@ -128,7 +128,7 @@ class Grid_U(GridBase, UGrid):
             for n in face_var_names:
                 if n in gf_vars:
                     init_args[face_attrs[0]] = gf_vars[n][:]
-                    gt[face_attrs[0]] = n
+                    gt[face_attrs[0]] = gf_vars[n].name
                     break
             if face_attrs[0] not in init_args:
                 raise ValueError("Unable to find face connectivity array.")
@@ -211,16 +211,16 @@ class Grid_S(GridBase, SGrid):
                         init_args[attr[1]] = a2
                         if maskname[0] in gf_vars:
                             init_args[maskattr] = gf_vars[maskname[0]]
-                            gt[maskattr] = maskname[0]
-                        gt[attr[0]] = n1
-                        gt[attr[1]] = n2
+                            gt[maskattr] = gf_vars[maskname[0]].name
+                        gt[attr[0]] = gf_vars[n1].name
+                        gt[attr[1]] = gf_vars[n2].name
                         break
             if "node_lon" in init_args and "node_lat" in init_args:
                 mask = False  # fixme -- is mask used??
                 for name in node_mask_names:
                     if name in gf_vars:
                         init_args[node_mask] = gf_vars[name]
-                gt[node_mask] = name
+                        gt[node_mask] = gf_vars[name].name
 
         else:
             for n, v in grid_topology.items():
-- 
2.43.0


From e8d27bf64b54c3e00edd100648c0ec91bc347eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:23 +0000
Subject: [PATCH 45/87] fix: variables on rectangular grids were refused when
 the dimensions do not have the names of the coordinates

---
 gridded/grids.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 89f5a34..2a04fa5 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -260,7 +260,9 @@ class Grid_R(GridBase):
         self.node_lon = node_lon
         self.node_lat = node_lat
         self.grid_topology = grid_topology
-        if self.grid_topology is not None:
+        if node_dimensions is not None:
+            self.dimensions = list(node_dimensions)
+        elif self.grid_topology is not None:
             self.dimensions = [grid_topology["node_lat"], grid_topology["node_lon"]]
         else:
             self.dimensions = ["lat", "lon"]
@@ -287,6 +289,9 @@ class Grid_R(GridBase):
             raise ValueError(f"Too many dimensions in node_lon. Must be 1D, was {len(node_lon.shape)}D")
         if len(node_lat.shape) != 1:
             raise ValueError(f"Too many dimensions in node_lat. Must be 1D, was {len(node_lat.shape)}D")
+        if "node_lon" in gt and "node_lat" in gt:
+            # the dimensions need not have the names of the variables
+            init_args["node_dimensions"] = [gf_vars[gt[n].lower()].dimensions[0] for n in ("node_lat", "node_lon")]
         return init_args, gt
 
     @property
-- 
2.43.0


From 5b25def80f88910122c9557604ba9c956cc5fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:23 +0000
Subject: [PATCH 46/87] fix: Dataset could not be created from a list of files

---
 gridded/gridded.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index 1e869bc..82e4ee6 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -94,7 +94,10 @@ class Dataset:
             raise NotImplementedError("Loading from separate netcdf files is not yet supported")
 
         self.nc_dataset = get_dataset(filename)
-        self.filename = self.nc_dataset.filepath()
+        try:
+            self.filename = self.nc_dataset.filepath()
+        except RuntimeError:  # several files have no single path
+            self.filename = filename
         self.grid = Grid.from_netCDF(filename=self.filename,
                                      dataset=self.nc_dataset,
                                      grid_topology=grid_topology)
@@ -155,7 +158,7 @@ class Dataset:
             # find which netcdf variables are used to define the grid
             is_not_grid_attr = all([k not in str(v).split() for v in self.grid.grid_topology.values()])
             if is_not_grid_attr:
-                ncvar = ds[k]
+                ncvar = ds.variables[k]
                 # find the location of the variable
                 # print("working with:", ncvar)
                 try:
@@ -167,9 +170,9 @@ class Dataset:
                     location = self.grid.infer_location(ncvar)
                 if location is not None:
                     try:
-                        ln = ds[k].long_name
+                        ln = ncvar.long_name
                     except AttributeError:  # no long_name attribute
-                        ln = ds[k].name  # use the name attribute
+                        ln = ncvar.name  # use the name attribute
                     # fixme: Variable.from_netCDF should really be able to figure out the location itself
                     #        maybe we need multiple Variable subclasses for different grid types?
                     #        CHB: yes, we really should do that!
-- 
2.43.0


From 64b0e03a1eaac2c573fb4821b5a2b1953163b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:23 +0000
Subject: [PATCH 47/87] fix: Dataset.info failed on rectangular grids

---
 gridded/grids.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gridded/grids.py b/gridded/grids.py
index 2a04fa5..22c7bb4 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -294,6 +294,13 @@ class Grid_R(GridBase):
             init_args["node_dimensions"] = [gf_vars[gt[n].lower()].dimensions[0] for n in ("node_lat", "node_lon")]
         return init_args, gt
 
+    @property
+    def info(self):
+        """
+        summary of information about the grid
+        """
+        return f"Grid_R object: {self.name}\nNumber of nodes: {len(self.node_lat)} x {len(self.node_lon)} (lat x lon)"
+
     @property
     def nodes(self):
         return np.stack((np.meshgrid(self.node_lon, self.node_lat)), axis=-1)
-- 
2.43.0


From a00ae3dae3e17634d07c19c73a7817f93c8cddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:59 +0000
Subject: [PATCH 48/87] fix: filename took precedence over dataset, grid_file
 and data_file

---
 gridded/utilities.py |  4 +++-
 gridded/variable.py  | 10 ++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 075bcf5..500e83e 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -416,7 +416,9 @@ def parse_filename_dataset_args(
             filename = os.fspath(filename)
         except TypeError:
             pass
-        data_file = grid_file = filename
+        # lowest priority
+        data_file = filename if data_file is None else data_file
+        grid_file = filename if grid_file is None and dataset is None else grid_file
     if dataset is None:
         if grid_file == data_file:
             ds = dg = get_dataset(grid_file)
diff --git a/gridded/variable.py b/gridded/variable.py
index f3a96b5..19be947 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -220,8 +220,9 @@ class Variable:
         Time = cls._default_component_types["time"]
         Depth = cls._default_component_types["depth"]
         if filename is not None:
-            data_file = filename
-            grid_file = filename
+            # lowest priority
+            data_file = filename if data_file is None else data_file
+            grid_file = filename if grid_file is None and dataset is None else grid_file
 
         ds, dg = parse_filename_dataset_args(
             filename=filename, dataset=dataset, grid_file=grid_file, data_file=data_file
@@ -977,8 +978,9 @@ class VectorVariable:
         Variable = cls._default_component_types["variable"]
         Depth = cls._default_component_types["depth"]
         if filename is not None:
-            data_file = filename
-            grid_file = filename
+            # lowest priority
+            data_file = filename if data_file is None else data_file
+            grid_file = filename if grid_file is None and dataset is None else grid_file
 
         ds, dg = parse_filename_dataset_args(
             filename=filename, dataset=dataset, grid_file=grid_file, data_file=data_file
-- 
2.43.0


From 2a5ad50b130a2d5aa6478b13be830b7b49be20cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:26 +0000
Subject: [PATCH 49/87] fix: the mesh was read from the file name even when a
 dataset was given

---
 gridded/pyugrid/ugrid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 9cde649..32a9868 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -169,11 +169,12 @@ class UGrid:
                                Will be raised
         """
         grid = klass()
-        if filename is not None:
-            read_netcdf.load_grid_from_ncfilename(filename, grid, mesh_name)
-            return grid
         if dataset is not None:
             read_netcdf.load_grid_from_nc_dataset(dataset, grid, mesh_name)
+            grid.filename = filename
+            return grid
+        if filename is not None:
+            read_netcdf.load_grid_from_ncfilename(filename, grid, mesh_name)
             return grid
 
     @classmethod
-- 
2.43.0


From 8802b5a51a8f197f463ebd15ebd65911c2163b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:26 +0000
Subject: [PATCH 50/87] fix: SGrid could not be loaded from several files

---
 gridded/pysgrid/read_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/read_netcdf.py b/gridded/pysgrid/read_netcdf.py
index c1575f8..3c9332a 100644
--- a/gridded/pysgrid/read_netcdf.py
+++ b/gridded/pysgrid/read_netcdf.py
@@ -122,7 +122,7 @@ class NetCDFDataset:
         # in case a user as a version netcdf C library < 4.1.2
         try:
             self._filepath = nc.filepath()
-        except ValueError:
+        except (ValueError, RuntimeError):  # a dataset of several files has no path
             self._filepath = None
         self.sgrid_compliant_file()
 
-- 
2.43.0


From 5a865a7f97aad8c469a924940d094a04745756ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:26 +0000
Subject: [PATCH 51/87] fix: Variable.from_netCDF(load_all=True) lost the
 attributes

---
 gridded/variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/variable.py b/gridded/variable.py
index 19be947..4846ccf 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -276,6 +276,8 @@ class Variable:
             if hasattr(data, "location"):
                 location = data.location
         if load_all:
+            # an array has no attributes
+            kwargs.setdefault("attributes", {attr: getattr(data, attr) for attr in data.ncattrs()})
             data = data[:]
         return cls(
             name=name,
-- 
2.43.0


From 4025835c5ba369ba5bca7efce1ba66a8533d3755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:26 +0000
Subject: [PATCH 52/87] fix: (lon, lat) variables on rectangular grids were
 refused

---
 gridded/grids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/grids.py b/gridded/grids.py
index 22c7bb4..9d223c0 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -478,6 +478,8 @@ class Grid_R(GridBase):
             return "edge2"
         elif difference == [0, 0] and self.node_lon is not None:
             return "node"
+        elif var_shape.tolist() == [x_len, y_len]:  # (lon, lat)
+            return "node"
         else:
             return None
 
-- 
2.43.0


From 9af89722959e7fde483a244d016be2514ff61125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:03 +0000
Subject: [PATCH 53/87] fix: variables loaded from several files had no
 attributes

---
 gridded/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 4846ccf..e5c5a5e 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -124,7 +124,7 @@ class Variable:
         # if the data is a netcdf variable, pull the attributes from there
         try:
             for attr in self.data.ncattrs():
-                self.attributes[attr] = data.getncattr(attr)
+                self.attributes[attr] = getattr(data, attr)
         except AttributeError:  # must not be a netcdf variable
             pass  # so just use what was passed in.
         self.surface_boundary_condition = surface_boundary_condition
-- 
2.43.0


From f5334215442c83cad3eb14af6594b896c01afa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:43 +0000
Subject: [PATCH 54/87] fix: the depth dimension of variables from files
 without a time axis was taken for time

---
 gridded/variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index e5c5a5e..2940ab6 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -526,7 +526,9 @@ class Variable:
             if diff == 0:
                 return order
             elif diff == 1:
-                if self.time is not None:
+                # one instant and several values: that is not the time dimension
+                steady = self.depth is not None and self.time is not None and len(self.time) == 1 != self.data.shape[0]
+                if self.time is not None and not steady:
                     del order[1]
                 elif self.depth is not None:
                     del order[0]
-- 
2.43.0


From c43d13731dc49c4e8fd4d2862cf9f7a99c2f8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:49 +0000
Subject: [PATCH 55/87] fix: the free surface stood still for variables without
 a time axis

---
 gridded/variable.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 2940ab6..9270ba8 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -271,7 +271,9 @@ class Variable:
                 or isinstance(grid, Grid_U)
                 and len(data.shape) == 2 + istimevar
             ):
-                depth = Depth.from_netCDF(grid_file=dg, dataset=ds, time=time, grid=grid, **kwargs)
+                # the free surface may move under steady data
+                depth_time = None if timevarname is None else time
+                depth = Depth.from_netCDF(grid_file=dg, dataset=ds, time=depth_time, grid=grid, **kwargs)
         if location is None:
             if hasattr(data, "location"):
                 location = data.location
@@ -1028,7 +1030,9 @@ class VectorVariable:
                 or isinstance(grid, Grid_U)
                 and len(data.shape) == 2 + istimevar
             ):
-                depth = Depth.from_netCDF(grid_file=dg, dataset=ds, time=time, grid=grid, **kwargs)
+                # the free surface may move under steady data
+                depth_time = None if timevarname is None else time
+                depth = Depth.from_netCDF(grid_file=dg, dataset=ds, time=depth_time, grid=grid, **kwargs)
 
         if variables is None:
             variables = []
-- 
2.43.0


From c7e1e746f37d97bd67dbc38e6eafd262adae996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 56/87] fix: Dataset of several files with global attributes
 failed

---
 gridded/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 500e83e..430a7cc 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -460,7 +460,7 @@ def get_dataset_attrs(ds):
 
     :param ds: an open netCDF4.Dataset
     """
-    return {name: ds.getncattr(name) for name in ds.ncattrs()}
+    return {name: getattr(ds, name) for name in ds.ncattrs()}
 
 
 def search_netcdf_vars(cls=None, ds=None, dg=None):
-- 
2.43.0


From 87c7a005bd142ba410feac106c1ef6cf51e4b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 57/87] fix: Dataset failed on rectangular grids with scalar
 variables, or took vectors for gridded data

---
 gridded/grids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/grids.py b/gridded/grids.py
index 9d223c0..a37cf9d 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -465,6 +465,8 @@ class Grid_R(GridBase):
         if hasattr(variable, "location"):
             return variable.location
 
+        if len(variable.shape) < 2:
+            return None
         x_len = len(self.node_lon)
         y_len = len(self.node_lat)
         node_shape = np.array((y_len, x_len))
-- 
2.43.0


From 32ba750ab835c592c0562dcf0d281c7b98aba58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:30 +0000
Subject: [PATCH 58/87] fix: Dataset.get_variables_by_attribute failed on
 attributes with several values

---
 gridded/gridded.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index 82e4ee6..79fde75 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -10,6 +10,8 @@ The core class that encapsulates the gridded data model
 
 import warnings
 
+import numpy as np
+
 from gridded.grids import Grid
 from gridded.utilities import (
     get_dataset,
@@ -240,7 +242,7 @@ class Dataset:
         variables = []
         for var in self.variables.values():
             try:
-                if var.attributes[attr] == value:
+                if np.array_equal(var.attributes[attr], value):
                     variables.append(var)
             except KeyError:
                 pass
-- 
2.43.0


From 3f275a1569d5463a093ebf11f25cbb81fa2ed3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:17 +0000
Subject: [PATCH 59/87] fix: Time.from_netCDF failed for variables without
 dimensions

---
 gridded/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/time.py b/gridded/time.py
index 887353d..bf9c20d 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -180,7 +180,7 @@ class Time:
         if hasattr(datavar, "time") and datavar.time in datavar._grp.dimensions.keys():
             varname = datavar.time
         else:
-            varname = datavar.dimensions[0] if "time" in datavar.dimensions[0] else None
+            varname = datavar.dimensions[0] if datavar.dimensions and "time" in datavar.dimensions[0] else None
 
         return varname
 
-- 
2.43.0


From c008c6cd2c1aa17d8a7d1a714853724eb0bfec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:39 +0000
Subject: [PATCH 60/87] fix: Dataset failed on rectangular grids when a
 location attribute does not name a location

---
 gridded/grids.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index a37cf9d..5cca9ff 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from gridded import VALID_LOCATIONS
 from gridded.pysgrid.sgrid import SGrid
 from gridded.pyugrid.ugrid import UGrid
 from gridded.utilities import get_dataset, parse_filename_dataset_args
@@ -462,8 +463,9 @@ class Grid_R(GridBase):
         But now we are checking variable dimensions to which part
         of the grid it is on.
         """
-        if hasattr(variable, "location"):
-            return variable.location
+        location = getattr(variable, "location", None)
+        if location is not None and location in VALID_LOCATIONS:
+            return location
 
         if len(variable.shape) < 2:
             return None
-- 
2.43.0


From bb6812b2a72a2ca77d23f5a2f8c8fd1ed8203e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:05 +0000
Subject: [PATCH 61/87] fix: verdat boundary segments that extend the start of
 a boundary backwards raised TypeError

---
 gridded/io/verdat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/io/verdat.py b/gridded/io/verdat.py
index e215f17..b598fd1 100644
--- a/gridded/io/verdat.py
+++ b/gridded/io/verdat.py
@@ -175,7 +175,7 @@ def order_boundary_segments(bound_segs):
                     bound.append(p0)
                     bound_segs.pop(i)
                 elif p0 == bound[0]:
-                    bound.insert(p1)
+                    bound.insert(0, p1)
                     bound_segs.pop(i)
                 elif p1 == bound[0]:
                     bound.insert(0, p0)
-- 
2.43.0


From 0f9d7323b89735dc47ab3b5db2945151893b21a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:05 +0000
Subject: [PATCH 62/87] fix: indexing UVar, UMVar and SGridVariable returned
 the cached result of another index, of replaced data or edited by a caller

---
 gridded/pysgrid/variables.py | 13 ++++++++-----
 gridded/pyugrid/uvar.py      | 26 ++++++++++++--------------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/gridded/pysgrid/variables.py b/gridded/pysgrid/variables.py
index 202793e..25ad155 100644
--- a/gridded/pysgrid/variables.py
+++ b/gridded/pysgrid/variables.py
@@ -4,6 +4,7 @@ Created on Apr 15, 2015
 @author: ayan
 """
 
+import pickle
 from collections import OrderedDict
 
 import numpy as np
@@ -168,17 +169,19 @@ class SGridVariable:
         Does not flatten any underlying data.
         """
 
+        if isinstance(self._data, np.ndarray):  # already in memory
+            return self._data.__getitem__(item)
         if not hasattr(self, "_cache"):
             self._cache = OrderedDict()
-        rv = None
-        if str(item) in self._cache:
-            rv = self._cache[str(item)]
+        key = pickle.dumps(item)  # str() abbreviates long arrays
+        if key in self._cache:
+            rv = self._cache[key]
         else:
             rv = self._data.__getitem__(item)
-            self._cache[str(item)] = rv
+            self._cache[key] = rv
             if len(self._cache) > 3:
                 self._cache.popitem(last=False)
-        return rv
+        return rv.copy()
 
     def __str__(self):
         return f"SGridVariable object: {self.standard_name:s}, on the {self.location:s}s"
diff --git a/gridded/pyugrid/uvar.py b/gridded/pyugrid/uvar.py
index b4713ea..4fd79a6 100755
--- a/gridded/pyugrid/uvar.py
+++ b/gridded/pyugrid/uvar.py
@@ -11,6 +11,7 @@ FixMe: should we enable direct attribute acces via python's attribute access?
 
 """
 
+import pickle
 from collections import OrderedDict
 
 import numpy as np
@@ -89,10 +90,12 @@ class UVar:
     @data.setter
     def data(self, data):
         self._data = asarraylike(data)
+        self._cache.clear()
 
     @data.deleter
     def data(self):
         self._data = self._data = np.zeros((0,), dtype=np.float64)
+        self._cache.clear()
 
     @property
     def shape(self):
@@ -125,15 +128,17 @@ class UVar:
         """
         Transfers responsibility to the data's __getitem__ if not cached
         """
-        rv = None
-        if str(item) in self._cache:
-            rv = self._cache[str(item)]
+        if isinstance(self._data, np.ndarray):  # already in memory
+            return self._data.__getitem__(item)
+        key = pickle.dumps(item)  # str() abbreviates long arrays
+        if key in self._cache:
+            rv = self._cache[key]
         else:
             rv = self._data.__getitem__(item)
-            self._cache[str(item)] = rv
+            self._cache[key] = rv
             if len(self._cache) > 3:
                 self._cache.popitem(last=False)
-        return rv
+        return rv.copy()
 
     def __str__(self):
         print("in __str__, data is:", self.data)
@@ -188,7 +193,6 @@ class UMVar:
             setattr(self, d.name, d)
 
         self.variables = [d.name for d in data]
-        self._cache = OrderedDict()
 
     def add_var(self, var):
         if var.shape != self.shape:
@@ -199,14 +203,8 @@ class UMVar:
         setattr(self, var.name, var)
 
     def __getitem__(self, item):
-        if str(item) in self._cache:
-            return self._cache[str(item)]
-        else:
-            rv = np.ma.column_stack([self.__getattribute__(var).__getitem__(item) for var in self.variables])
-            self._cache[str(item)] = rv
-            if len(self._cache) > 3:
-                self._cache.popitem(last=False)
-            return rv
+        # the variables have caches of their own where they need one
+        return np.ma.column_stack([self.__getattribute__(var).__getitem__(item) for var in self.variables])
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 42329fb9fc68dda23ad6b964a57fe655e2f7c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:26 +0000
Subject: [PATCH 63/87] fix: variables with a constant time refused new data

---
 gridded/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 9270ba8..ccfe48d 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -385,7 +385,7 @@ class Variable:
     def data(self, d):
         d = asarraylike(d)
         # Fixme: maybe all this checking should be done when it gets added to the Dataset??
-        if self.time is not None and len(d) != len(self.time):
+        if self.time is not None and len(self.time) > 1 and len(d) != len(self.time):
             raise ValueError("Data/time interval mismatch")
         ## fixme: we should check Depth, too.
         if self.grid is not None:  # if there is not a grid, we can't check this
-- 
2.43.0


From 064b398929ce6c40e1c884da11dbb53473cd1d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:26 +0000
Subject: [PATCH 64/87] fix: vectors took the last of their default names found
 in a file instead of the first

---
 gridded/variable.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index ccfe48d..d44d857 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1105,22 +1105,23 @@ class VectorVariable:
             for n in v:
                 if n in df.variables.keys():
                     rd[k] = n
-                    continue
+                    break
             if k not in rd.keys():
                 rd[k] = None
         for k in cls.comp_order:
             v = std_names_dict[k] if k in std_names_dict else []
-            if rd[k] is None:
-                for n in v:
-                    for var in df.variables.values():
-                        if (
-                            hasattr(var, "standard_name")
-                            and var.standard_name == n
-                            or hasattr(var, "long_name")
-                            and var.long_name == n
-                        ):
-                            rd[k] = var.name
-                            break
+            for n in v:
+                if rd[k] is not None:
+                    break
+                for var in df.variables.values():
+                    if (
+                        hasattr(var, "standard_name")
+                        and var.standard_name == n
+                        or hasattr(var, "long_name")
+                        and var.long_name == n
+                    ):
+                        rd[k] = var.name
+                        break
         return collections.namedtuple("varnames", cls.comp_order)(**rd)
 
     def __str__(self):
-- 
2.43.0


From 1b24ffef5acfcdaa8cf3f777d4bdc62a68fd90bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:39 +0000
Subject: [PATCH 65/87] fix: points off the mesh were masked or NaN instead of
 0 when the data of the last face is

---
 gridded/pyugrid/ugrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 32a9868..ba26b5e 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -716,7 +716,7 @@ class UGrid:
         alpha2s = (reflons - lon1) * (lat3 - lat1) - (reflats - lat1) * (lon3 - lon1)
         alpha3s = (reflats - lat1) * (lon2 - lon1) - (reflons - lon1) * (lat2 - lat1)
         alphas = np.column_stack((alpha1s / denoms, alpha2s / denoms, alpha3s / denoms))
-        alphas[indices == -1] *= 0
+        alphas[indices == -1] = 0
 
         if _memo:
             self._add_memo(points, alphas, self._alpha_memo_dict, _copy, _hash)
@@ -796,7 +796,7 @@ class UGrid:
         inds = self.locate_faces(points, "celltree", _copy, _memo, _hash)
         if location == "face":
             vals = variable[inds]
-            vals[inds == -1] = vals[inds == -1] * 0
+            vals[inds == -1] = 0
             return vals
         #             raise NotImplementedError("Currently does not support interpolation of a "
         #                                       "variable defined on the faces")
@@ -805,7 +805,7 @@ class UGrid:
             vals = variable.take(self.faces[inds], axis=0)
             if len(vals.shape) == (len(pos_alphas.shape) + 1):
                 pos_alphas = pos_alphas[:, :, np.newaxis]
-            vals[inds == -1] = vals[inds == -1] * 0
+            vals[inds == -1] = 0
             return np.sum(vals * pos_alphas, axis=1)
         return None
 
-- 
2.43.0


From 93702158325a7a5e907da0d7b6d2d5570fdb659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:39 +0000
Subject: [PATCH 66/87] fix: values at a time step were masked or NaN when the
 step before it was missing

---
 gridded/variable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index d44d857..80037ad 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -714,9 +714,11 @@ class Variable:
             ind = self.time.index_of(time)
             s1 = slices + (ind,)
             s0 = slices + (ind - 1,)
-            v0 = val_func(points, time, extrapolate, slices=s0, **kwargs)
-            v1 = val_func(points, time, extrapolate, slices=s1, **kwargs)
             alphas = self.time.interp_alpha(time, extrapolate)
+            v1 = val_func(points, time, extrapolate, slices=s1, **kwargs)
+            if alphas == 1:  # at a time step: the one before may be missing
+                return v1
+            v0 = val_func(points, time, extrapolate, slices=s0, **kwargs)
 
             return v0 + (v1 - v0) * alphas
 
-- 
2.43.0


From 02379cbea495d80742f0d3fc2c143c8e83f7f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:39 +0000
Subject: [PATCH 67/87] fix: values exactly at a level were masked or NaN when
 a neighboring level was missing

---
 gridded/variable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 80037ad..d14dc6f 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -796,7 +796,11 @@ class Variable:
                     continue
                 v1 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx + 1,), **kwargs)
                 v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
-                sub_vals = v0 + (v1 - v0) * d_alphas[lay_idxs]
+                sub_alphas = np.ma.getdata(d_alphas)[lay_idxs]
+                sub_vals = np.ma.array(v0 + (v1 - v0) * sub_alphas)
+                # exactly at a level: the other one may be missing
+                sub_vals[sub_alphas == 0] = v0[sub_alphas == 0]
+                sub_vals[sub_alphas == 1] = v1[sub_alphas == 1]
                 # partially fill the values array for this layer
                 values.put(lay_idxs, sub_vals)
         return values
-- 
2.43.0


From 93a795582219c38e97fe57b9eb70eda158490785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:27 +0000
Subject: [PATCH 68/87] fix: Time.from_netCDF decodes 360_day and all_leap time
 axes in their own calendars

---
 gridded/time.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gridded/time.py b/gridded/time.py
index bf9c20d..3cef235 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -273,9 +273,10 @@ class Time:
         # The offset is kept in tz_offset: decode the numbers in the zone they are in.
         # (num2date would convert the offsets it recognizes, e.g. "-07:00" but not "-7:00", to UTC)
         units = re.sub(r"(:\d{2}(?:\.\d+)?)\s*[+-]\d{1,2}(?::?\d{2})?\s*$", r"\1", tvar.units)
-        if getattr(tvar, "calendar", "").lower() in ("noleap", "365_day"):
-            # every date in this calendar is also a python datetime
-            tdata = nc4.num2date(tvar[:], units=units, calendar="noleap")
+        calendar = getattr(tvar, "calendar", "standard").lower()
+        if calendar in ("noleap", "365_day", "all_leap", "366_day", "360_day"):
+            # the dates of these calendars, as far as they are also python datetimes (Feb. 30 raises a ValueError)
+            tdata = nc4.num2date(tvar[:], units=units, calendar=calendar)
             tdata = [datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond) for d in tdata]
         else:
             tdata = nc4.num2date(tvar[:], units=units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
-- 
2.43.0


From c115545af1343760b01afb6d545d621cd9fa7d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:26 +0000
Subject: [PATCH 69/87] fix: plot_ugrid drew a mesh of three triangles with its
 faces transposed

---
 gridded/plotting/mpl_plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/plotting/mpl_plotting.py b/gridded/plotting/mpl_plotting.py
index ef09bc4..d3f5748 100644
--- a/gridded/plotting/mpl_plotting.py
+++ b/gridded/plotting/mpl_plotting.py
@@ -49,7 +49,7 @@ def plot_ugrid(axes, grid, nodes=False, node_numbers=False, face_numbers=False):
     nodes_lon, nodes_lat = grid.node_lon, grid.node_lat
     faces = grid.faces
 
-    if faces.shape[0] == 3:
+    if faces.shape[0] == 3 and faces.shape[1] != 3:
         # swap order for mpl triangulation
         faces = faces.T
 
-- 
2.43.0


From ad443c79b43fa4a5ee5c7930f7f300254af057a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:09 +0000
Subject: [PATCH 70/87] fix: an SGrid without face coordinates could not be
 saved

---
 gridded/pysgrid/sgrid.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 1dd9241..a83f9e2 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -420,13 +420,21 @@ class SGrid:
             dim_name, dim_size = grid_dim
             nc_file.createDimension(dim_name, dim_size)
         # Create variables.
-        center_lon, center_lat = self.face_coordinates
-        center_lon_obj = getattr(self, center_lon)
-        center_lat_obj = getattr(self, center_lat)
-        center_lon = nc_file.createVariable(center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions)
-        center_lat = nc_file.createVariable(center_lat_obj.variable, center_lat_obj.dtype, center_lat_obj.dimensions)
-        center_lon[:] = self.center_lon[:]
-        center_lat[:] = self.center_lat[:]
+        try:
+            center_lon, center_lat = self.face_coordinates
+        except TypeError:
+            pass
+        else:
+            center_lon_obj = getattr(self, center_lon)
+            center_lat_obj = getattr(self, center_lat)
+            grid_center_lon = nc_file.createVariable(
+                center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions
+            )
+            grid_center_lat = nc_file.createVariable(
+                center_lat_obj.variable, center_lat_obj.dtype, center_lat_obj.dimensions
+            )
+            grid_center_lon[:] = self.center_lon[:]
+            grid_center_lat[:] = self.center_lat[:]
         try:
             node_lon, node_lat = self.node_coordinates
         except TypeError:
-- 
2.43.0


From da9776fbf60e58237497e0ede434cb6ac7d935dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:59 +0000
Subject: [PATCH 71/87] fix: UMVar accepted several components of one name and
 kept the last of them

---
 gridded/pyugrid/uvar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridded/pyugrid/uvar.py b/gridded/pyugrid/uvar.py
index 4fd79a6..291bac8 100755
--- a/gridded/pyugrid/uvar.py
+++ b/gridded/pyugrid/uvar.py
@@ -189,6 +189,9 @@ class UMVar:
         if not all([d.shape == self.shape for d in data]):
             raise ValueError("All data sources must be the same size and shape")
 
+        if len({d.name for d in data}) != len(data):
+            raise ValueError("All data sources must have names of their own")
+
         for d in data:
             setattr(self, d.name, d)
 
-- 
2.43.0


From 8d7711513964dbe1552a761a4d7fce52f50c200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:31 +0000
Subject: [PATCH 72/87] fix: S_Depth.from_netCDF failed with a given bathymetry
 or a steady cell-centered free surface

---
 gridded/depth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 5226597..867e4ac 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -545,13 +545,13 @@ class S_Depth(DepthBase):
                 warnings.warn(warn)
                 zeta = Zeta.constant(0)
             else:
-                if 'node' in grid.infer_location(bathy_var):
+                if 'node' in grid.infer_location(zeta_var):
                     zeta = Zeta(data=zeta_var, grid=grid, time=time, name="zeta")
                 else:
                     #zeta data is on cell centers, but needs to be averaged to the nodes in order
                     #to properly define the terrain following coordinate.
-                    z = (zeta_var[:,0:-1,:] + zeta_var[:,1:,:]) / 2
-                    psi_z = (z[:,:,0:-1] + z[:,:,1:]) /2
+                    z = (zeta_var[...,0:-1,:] + zeta_var[...,1:,:]) / 2
+                    psi_z = (z[...,0:-1] + z[...,1:]) /2
                     zeta = Zeta(data=psi_z, grid=grid, time=time, name="zeta")
 
         if terms is None:
-- 
2.43.0


From 40537ff61f6e8cb9737a6baaabf271184cdd757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:31 +0000
Subject: [PATCH 73/87] fix: a depth term in the grid file was mistaken for
 another of the same standard name in the data file

---
 gridded/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 430a7cc..db525c9 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -477,8 +477,9 @@ def search_netcdf_vars(cls=None, ds=None, dg=None):
     if ds != dg:
         dg_vn_search = search_dataset_for_variables_by_varname(dg, cls.default_names)
         dg_ln_search = search_dataset_for_variables_by_longname(dg, cls.cf_names)
-        dg_search = merge_var_search_dicts(dg_vn_search, dg_ln_search)
-        found_vars = merge_var_search_dicts(found_vars, dg_search)
+        # also when it is in the other file
+        found_vars = merge_var_search_dicts(merge_var_search_dicts(vn_search, dg_vn_search), ds_search)
+        found_vars = merge_var_search_dicts(found_vars, dg_ln_search)
     return found_vars
 
 
-- 
2.43.0


From 65d5f1dc580d2d4ef3314515b2a15aeebdfc9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:28 +0000
Subject: [PATCH 74/87] fix: boundaries of replaced faces were built from the
 connectivity of the old ones

---
 gridded/pyugrid/ugrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index ba26b5e..3e3d13e 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -336,9 +336,9 @@ class UGrid:
 
         else:
             self._faces = None
-            # Other things are no longer valid.
-            self._face_face_connectivity = None
-            self._face_edge_connectivity = None
+        # Other things are no longer valid.
+        self._face_face_connectivity = None
+        self._face_edge_connectivity = None
 
     @faces.deleter
     def faces(self):
-- 
2.43.0


From 7f618d964d87142a5f88dd4ef7dffb55c34023c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:34 +0000
Subject: [PATCH 75/87] fix: locating points on a mesh of mixed elements read
 what lies under the mask of the faces (wrong faces, or a crash)

---
 gridded/pyugrid/ugrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 3e3d13e..cb1d2b7 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -676,7 +676,8 @@ class UGrid:
         if self.nodes is None or self.faces is None:
             raise ValueError("Nodes and faces must be defined in order to create and use CellTree")
         # two buckets: the trees built with more miss some points that are inside a face
-        self._cell_tree = CellTree(self.nodes, self.faces, num_buckets=2)
+        # and -1 where a face of a mixed mesh has no more nodes
+        self._cell_tree = CellTree(self.nodes, np.ma.filled(self.faces, -1), num_buckets=2)
 
     def interpolation_alphas(self, points, indices=None, _copy=False, _memo=True, _hash=None):
         """
-- 
2.43.0


From 7794904cd297a16f28d0caa300587e23cde6fc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:20 +0000
Subject: [PATCH 76/87] fix: edges, neighbours, boundaries and face centers of
 a mesh of mixed elements used what lies under the mask of the faces

---
 gridded/pyugrid/ugrid.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index cb1d2b7..fcf8537 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -37,6 +37,11 @@ IND_DT = np.int32
 NODE_DT = np.float64  # datatype used for node coordinates.
 
 
+def _nodes_of_face(face):
+    """the nodes of a face, without the masked ones of a mesh of mixed elements"""
+    return face.compressed() if np.ma.isMA(face) else face
+
+
 class UGrid:
     """
     A basic class to hold an unstructured grid as defined in the UGrid convention.
@@ -827,9 +832,10 @@ class UGrid:
         # Loop through all the faces to find the matching edges:
         edges = {}  # dict to store the edges.
         for i, face in enumerate(self.faces):
+            face = _nodes_of_face(face)
             # Loop through edges of the cell:
-            for j in range(num_vertices):
-                if j < self.num_vertices - 1:
+            for j in range(len(face)):
+                if j < len(face) - 1:
                     edge = (face[j], face[j + 1])
                 else:
                     edge = (face[-1], face[0])
@@ -871,8 +877,9 @@ class UGrid:
         # Loop through all the faces to find all the edges:
         edges = set()  # Use a set so no duplicates.
         for i, face in enumerate(self.faces):
+            face = _nodes_of_face(face)
             # Loop through edges:
-            for j in range(num_vertices):
+            for j in range(len(face)):
                 edge = (face[j - 1], face[j])
                 if edge[0] > edge[1]:  # Flip them
                     edge = (edge[1], edge[0])
@@ -895,13 +902,14 @@ class UGrid:
         boundaries = []
         if self.face_face_connectivity is None:
             self.build_face_face_connectivity()
-        for i, face in enumerate(self.face_face_connectivity):
-            for j, neighbor in enumerate(face):
+        for i, neighbors in enumerate(self.face_face_connectivity):
+            face = _nodes_of_face(self.faces[i])
+            for j, neighbor in enumerate(neighbors[: len(face)]):
                 if neighbor == -1:
-                    if j == self.num_vertices - 1:
-                        bound = (self.faces[i, -1], self.faces[i, 0])
+                    if j == len(face) - 1:
+                        bound = (face[-1], face[0])
                     else:
-                        bound = (self.faces[i, j], self.faces[i, j + 1])
+                        bound = (face[j], face[j + 1])
                     boundaries.append(bound)
         self.boundaries = boundaries
 
@@ -956,7 +964,9 @@ class UGrid:
         Useful if you want this in the output file.
 
         """
-        self.face_coordinates = self.nodes[self.faces].mean(axis=1)
+        corners = np.ma.array(self.nodes[np.ma.filled(self.faces, 0)])
+        corners[np.ma.getmaskarray(self.faces)] = np.ma.masked
+        self.face_coordinates = np.ma.getdata(corners.mean(axis=1))
 
     def build_edge_coordinates(self):
         """
-- 
2.43.0


From da5c06d97dd5f1c6b2de878ed45c4155b526f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 77/87] fix: removing the faces or nodes of a UGrid also
 removes the search structures built from them

---
 gridded/pyugrid/ugrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index fcf8537..0eae898 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -301,6 +301,7 @@ class UGrid:
     @nodes.deleter
     def nodes(self):
         # If there are no nodes, there can't be anything else.
+        self._clear_search_caches()
         self._nodes = np.zeros((0, 2), dtype=NODE_DT)
         self._edges = None
         self._faces = None
@@ -347,6 +348,7 @@ class UGrid:
 
     @faces.deleter
     def faces(self):
+        self._clear_search_caches()
         self._faces = None
         self._faces = None
         # Other things are no longer valid.
-- 
2.43.0


From d23cd99e11cce118c6a98d7ed73ab59c79496d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 78/87] fix: points that are all off a curvilinear grid: unmask
 gives the fill value, and precomputed indices are accepted

---
 gridded/pysgrid/sgrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index a83f9e2..6a10448 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1157,8 +1157,9 @@ class SGrid:
         if ind is None:
             # ind has to be writable
             ind = self.locate_faces(points, _memo, _copy, _hash)
-            if (ind.mask).all():
-                return np.ma.masked_all((points.shape[0], 1))
+        if np.ma.getmaskarray(ind).all():
+            result = np.ma.masked_all((points.shape[0], 1))
+            return result.filled(fill_value) if unmask else result
 
         if self._l_coeffs is None:
             self._compute_transform_coeffs()
-- 
2.43.0


From 6416355dd412dc4e4c31dec29f4f87e387feed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 79/87] fix: integer data wrapped around between time steps and
 depth levels

---
 gridded/variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/variable.py b/gridded/variable.py
index d14dc6f..eae9e21 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -679,6 +679,8 @@ class Variable:
             slices=slices,
             _memo=True,
         )
+        if value.dtype.kind in "iub":  # values are subtracted from each other next: small integers wrap around
+            value = value.astype(np.float64)
         # one value per point, whatever the location: the other dimensions are interpolated point by point
         return value.reshape(-1)
 
-- 
2.43.0


From dcafc3b7eaa61fe403d606739f215e7916ae8779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 80/87] fix: averages and sums of integer velocities wrapped
 around

---
 gridded/pysgrid/processing_2d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/processing_2d.py b/gridded/pysgrid/processing_2d.py
index b538b15..4054a51 100644
--- a/gridded/pysgrid/processing_2d.py
+++ b/gridded/pysgrid/processing_2d.py
@@ -21,7 +21,8 @@ def vector_sum(x_arr, y_arr):
     :rtype: numpy.array
 
     """
-    return ma.sqrt(x_arr**2 + y_arr**2)
+    # 1.0 *: the squares of integers would wrap around
+    return ma.sqrt((1.0 * x_arr) ** 2 + (1.0 * y_arr) ** 2)
 
 
 def rotate_vectors(x_arr, y_arr, angle_arr):
@@ -67,7 +68,7 @@ def avg_to_cell_center(data_array, avg_dim):
         da = data_array
     da_trim_low = da[:, 1:]
     da_trim_high = da[:, :-1]
-    da_avg_raw = 0.5 * (da_trim_low + da_trim_high)
+    da_avg_raw = 0.5 * da_trim_low + 0.5 * da_trim_high  # the sum of small integers would wrap around
     if avg_dim == 0:
         da_avg = np.transpose(da_avg_raw)
     else:
-- 
2.43.0


From 25bee45848098960464d94f90c53803956cb254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 81/87] fix: unsigned depth levels wrapped around in
 L_Depth.interpolation_alphas

---
 gridded/depth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 867e4ac..5896d0c 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -297,8 +297,9 @@ class L_Depth(DepthBase):
 
         within_layer = np.isnan(alphas)
 
-        L0 = np.take(self.depth_levels, indices[within_layer])
-        L1 = np.take(self.depth_levels, indices[within_layer] + 1)
+        levels = np.asarray(self.depth_levels, dtype=np.float64)  # unsigned integers can't be subtracted
+        L0 = np.take(levels, indices[within_layer])
+        L1 = np.take(levels, indices[within_layer] + 1)
 
         alphas[within_layer] = (depths[within_layer] - L0) / (L1 - L0)
 
-- 
2.43.0


From 6bea780d0d6b7f26dddfebcaa80b1a5d19ecf4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:14 +0000
Subject: [PATCH 82/87] fix: inspector logged the middle of an element across
 the date line on the other side of the globe

---
 gridded/plotting/mpl_plotting.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gridded/plotting/mpl_plotting.py b/gridded/plotting/mpl_plotting.py
index d3f5748..d7b0fed 100644
--- a/gridded/plotting/mpl_plotting.py
+++ b/gridded/plotting/mpl_plotting.py
@@ -550,8 +550,13 @@ class PureMatplotlibFVCOMViewer:
             node_x, node_y, s=80, color='olive', marker='o', zorder=3
         )
 
-        # Calculate cell centroid
-        center_x, center_y = np.mean(node_x), np.mean(node_y)
+        # Calculate cell centroid -- the nodes of a cell across the date line
+        # have longitudes of both signs
+        center_x = np.mean(
+            np.where(np.max(node_x) - node_x > 180, node_x + 360, node_x)
+        )
+        center_x = center_x - 360 if center_x > 180 else center_x
+        center_y = np.mean(node_y)
 
         # Create information for storing to file the query results
         # Extract 3 node IDs
-- 
2.43.0


From 065dfc73e6002684bf8b3e7037f3a31230290fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:14 +0000
Subject: [PATCH 83/87] fix: removing faces, edges, boundaries or nodes of a
 UGrid left their coordinates behind

---
 gridded/pyugrid/ugrid.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 0eae898..b4349c1 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -303,9 +303,9 @@ class UGrid:
         # If there are no nodes, there can't be anything else.
         self._clear_search_caches()
         self._nodes = np.zeros((0, 2), dtype=NODE_DT)
-        self._edges = None
-        self._faces = None
-        self._boundaries = None
+        del self.edges
+        del self.faces
+        del self.boundaries
 
     @property
     def faces(self):
@@ -342,6 +342,7 @@ class UGrid:
 
         else:
             self._faces = None
+            self.face_coordinates = None
         # Other things are no longer valid.
         self._face_face_connectivity = None
         self._face_edge_connectivity = None
@@ -354,7 +355,7 @@ class UGrid:
         # Other things are no longer valid.
         self._face_face_connectivity = None
         self._face_edge_connectivity = None
-        self.edge_coordinates = None
+        self.face_coordinates = None
 
     @property
     def edges(self):
@@ -369,6 +370,7 @@ class UGrid:
         else:
             self._edges = None
             self._face_edge_connectivity = None
+            self.edge_coordinates = None
 
     @edges.deleter
     def edges(self):
@@ -388,6 +390,7 @@ class UGrid:
             self._boundaries = np.asanyarray(boundaries_indexes, dtype=IND_DT)
         else:
             self._boundaries = None
+            self.boundary_coordinates = None
 
     @boundaries.deleter
     def boundaries(self):
-- 
2.43.0


From 1ddbae60a24f7f1787b1d31329223cdbf6c2653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:22 +0000
Subject: [PATCH 84/87] fix: building edges or boundaries anew kept the
 coordinates and connectivity of the old ones

---
 gridded/pyugrid/ugrid.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index b4349c1..e4942b6 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -873,7 +873,7 @@ class UGrid:
         num_vertices = self.num_vertices
         if self.faces is None:
             # No faces means no edges
-            self._edges = None
+            del self.edges
             return
         num_faces = self.faces.shape[0]
         face_face = np.zeros((num_faces, num_vertices), dtype=IND_DT)
@@ -889,7 +889,11 @@ class UGrid:
                 if edge[0] > edge[1]:  # Flip them
                     edge = (edge[1], edge[0])
                 edges.add(edge)
-        self._edges = np.array(list(edges), dtype=IND_DT)
+        edges = np.array(list(edges), dtype=IND_DT)
+        if not np.array_equal(edges, self._edges):
+            # what refers to other edges is no longer valid
+            del self.edges
+        self._edges = edges
 
     def build_boundaries(self):
         """
@@ -916,6 +920,9 @@ class UGrid:
                     else:
                         bound = (face[j], face[j + 1])
                     boundaries.append(bound)
+        if not np.array_equal(boundaries, self.boundaries):
+            # coordinates of other boundaries are no longer valid
+            del self.boundaries
         self.boundaries = boundaries
 
     def build_face_edge_connectivity(self):
-- 
2.43.0


From f9e9874c15ed36d92295c52f43962af1e3c54bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:02 +0000
Subject: [PATCH 85/87] fix: Grid_R interpolates correctly when one array is
 given for both axes

---
 gridded/grids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 5cca9ff..b4009b0 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -259,7 +259,8 @@ class Grid_R(GridBase):
         :param node_coordinates=None:  ``?????``
         """
         self.node_lon = node_lon
-        self.node_lat = node_lat
+        # the two axes are told apart by identity, so they can not be one object
+        self.node_lat = np.array(node_lat) if node_lat is node_lon and node_lat is not None else node_lat
         self.grid_topology = grid_topology
         if node_dimensions is not None:
             self.dimensions = list(node_dimensions)
-- 
2.43.0


From e44262033de8f27fd1f1cfafc804183ea56a2978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 86/87] fix: extremes of UVar and SGridVariable in a file leave
 out missing values

---
 gridded/pysgrid/variables.py | 4 ++--
 gridded/pyugrid/uvar.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridded/pysgrid/variables.py b/gridded/pysgrid/variables.py
index 25ad155..fd7757a 100644
--- a/gridded/pysgrid/variables.py
+++ b/gridded/pysgrid/variables.py
@@ -149,11 +149,11 @@ class SGridVariable:
 
     @property
     def max(self):
-        return np.max(self._data)
+        return np.max(self._data if isinstance(self._data, np.ndarray) else self._data[:])
 
     @property
     def min(self):
-        return np.min(self._data)
+        return np.min(self._data if isinstance(self._data, np.ndarray) else self._data[:])
 
     @property
     def ndim(self):
diff --git a/gridded/pyugrid/uvar.py b/gridded/pyugrid/uvar.py
index 291bac8..014e068 100755
--- a/gridded/pyugrid/uvar.py
+++ b/gridded/pyugrid/uvar.py
@@ -107,12 +107,12 @@ class UVar:
     @property
     def max(self):
         """maximum value of the variable"""
-        return np.max(self._data)
+        return np.max(self._data if isinstance(self._data, np.ndarray) else self._data[:])
 
     @property
     def min(self):
         """minimum value of the variable"""
-        return np.min(self._data)
+        return np.min(self._data if isinstance(self._data, np.ndarray) else self._data[:])
 
     @property
     def dtype(self):
-- 
2.43.0


From a827ab0a313d75aaee516ef15d9ff4e4967095d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:27 +0000
Subject: [PATCH 87/87] fix: equality of grids heeds what is masked

---
 gridded/pysgrid/sgrid.py |  4 ++--
 gridded/pyugrid/ugrid.py |  9 +++++----
 gridded/utilities.py     | 16 ++++++++++++++++
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 6a10448..1dd7697 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -14,7 +14,7 @@ from netCDF4 import Dataset
 from gridded.pysgrid.read_netcdf import NetCDFDataset, find_grid_topology_var, parse_padding
 from gridded.pysgrid.utils import GridPadding, calculate_angle_from_true_east, pair_arrays
 from gridded.pysgrid.variables import SGridVariable
-from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask
+from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask, same_arrays
 
 node_alternate_names = ["node", "nodes", "psi", "vertex", "vertices", "point", "points"]
 center_alternate_names = ["center", "centers", "face", "faces", "cell", "cells"]
@@ -174,7 +174,7 @@ class SGrid:
             "faces",
             "face_padding",
         ):
-            if not np.array_equal(getattr(self, attr), getattr(other, attr)):
+            if not same_arrays(getattr(self, attr), getattr(other, attr)):
                 return False
         return True
 
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index e4942b6..ae37c93 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -24,7 +24,7 @@ import numpy as np
 
 import gridded.pyugrid.read_netcdf as read_netcdf
 from gridded.pyugrid.util import point_in_tri
-from gridded.utilities import get_writable_dataset
+from gridded.utilities import get_writable_dataset, same_arrays
 
 # from gridded.pyugrid.uvar import UVar
 
@@ -231,9 +231,10 @@ class UGrid:
         if self.__class__ is not other.__class__:
             return False
         if (
-            np.array_equal(self.nodes, other.nodes)
-            and np.array_equal(self.faces, other.faces)
-            and np.array_equal(self.boundaries, other.boundaries)
+            same_arrays(self.nodes, other.nodes)
+            # nothing there: either masked or -1
+            and same_arrays(np.ma.filled(self.faces, -1), np.ma.filled(other.faces, -1))
+            and same_arrays(self.boundaries, other.boundaries)
         ):
             return True
         return False
diff --git a/gridded/utilities.py b/gridded/utilities.py
index db525c9..b3e24a8 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -580,3 +580,19 @@ def merge_var_search_dicts(d1, d2):
             if result[k] is None:
                 result[k] = v
     return result
+
+
+def same_arrays(a, b):
+    """
+    Whether two arrays have the same shape, masks and (unmasked) values
+
+    :param a: array-like, netCDF4.Variable or None
+    :param b: array-like, netCDF4.Variable or None
+    """
+    if a is None or b is None:
+        return a is b
+    a, b = (np.ma.asanyarray(x[:] if hasattr(x, "ncattrs") else x) for x in (a, b))
+    mask = np.ma.getmaskarray(a)
+    if a.shape != b.shape or not np.array_equal(mask, np.ma.getmaskarray(b)):
+        return False
+    return np.array_equal(a.data[~mask], b.data[~mask])
-- 
2.43.0

