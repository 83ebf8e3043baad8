From c5e1ecf2dadbacbef0191bf04d491502c156627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:03 +0000
Subject: [PATCH 01/81] fix: Time copies its data rather than shifting the
 caller's array in place

---
 gridded/time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/time.py b/gridded/time.py
index 0893aec..1a14159 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -308,7 +308,9 @@ class Time:
         if isinstance(data, self.__class__) or data.__class__ in self.__class__.__mro__:
             data = data.data
         # add check for valid datetime list?
-        self._data = np.asarray(data)
+        # always a copy: the data get shifted in place by origin, tz_offset and
+        # displacement, which must not reach the caller's array or another Time.
+        self._data = np.array(data)
 
     @property
     def info(self):
-- 
2.43.0


From 039d3ae848f3c2bad1f3040e7cd6ba34486e86d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:03 +0000
Subject: [PATCH 02/81] fix: offset_as_iso_string rounds to the nearest minute
 instead of truncating

---
 gridded/time.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gridded/time.py b/gridded/time.py
index 1a14159..239584f 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -40,8 +40,7 @@ def offset_as_iso_string(offset_hours):
         return ""
     else:
         sign = "-" if offset_hours < 0 else "+"
-        hours = int(abs(offset_hours))
-        minutes = int((abs(offset_hours) - hours) * 60)
+        hours, minutes = divmod(round(abs(offset_hours) * 60), 60)
         return f"{sign}{hours:0>2}:{minutes:0>2}"
 
 
-- 
2.43.0


From f9d1bec65f1091449c94930c970db67d452d68ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:03 +0000
Subject: [PATCH 03/81] fix: times loaded with a UTC offset in the units agree
 with tz_offset for every spelling

---
 gridded/time.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gridded/time.py b/gridded/time.py
index 239584f..204ab22 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -1,6 +1,7 @@
 #!/usr/binenv python
 
 import logging
+import re
 from datetime import datetime, timedelta
 from textwrap import dedent
 
@@ -268,7 +269,13 @@ class Time:
         if tz_offset_name is None:
             tz_offset_name = name
 
-        tdata = nc4.num2date(tvar[:], units=tvar.units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
+        # num2date() shifts the times to UTC for some spellings of an offset ("-07:00"),
+        # but not for others ("-7:00"): drop it, so that the times stay in the offset
+        # recorded for them in tz_offset
+        units = tvar.units
+        if parse_time_offset(units)[0]:
+            units = re.sub(r"\s*[+-]\d{1,2}(:?\d{2})?\s*$", "", units)
+        tdata = nc4.num2date(tvar[:], units=units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
         # Fixme: use the name and pass it through?
         time = cls(
             data=tdata,
-- 
2.43.0


From 568eee19775b0d80cd107487c24c412608deccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:59 +0000
Subject: [PATCH 04/81] fix: point_in_tri handles triangles with clockwise
 nodes

---
 gridded/pyugrid/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/util.py b/gridded/pyugrid/util.py
index 16c2c8c..0ec7cab 100644
--- a/gridded/pyugrid/util.py
+++ b/gridded/pyugrid/util.py
@@ -21,7 +21,8 @@ def point_in_tri(face_points, point, return_weights=False):
     sub_tri_areas[0] = _signed_area_tri(np.vstack((face_points[(0, 1), :], point)))
     sub_tri_areas[1] = _signed_area_tri(np.vstack((face_points[(1, 2), :], point)))
     sub_tri_areas[2] = _signed_area_tri(np.vstack((face_points[(0, 2), :], point)))
-    tri_area = _signed_area_tri(face_points)
+    # the nodes may be in either order
+    tri_area = abs(_signed_area_tri(face_points))
 
     if abs(np.abs(sub_tri_areas).sum() - tri_area) / tri_area <= epsilon:
         if return_weights:
-- 
2.43.0


From b62aaa2e120b54a4717d002120ee5ce6143ce94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:59 +0000
Subject: [PATCH 05/81] fix: UGrid.locate_faces answers the same from its memo
 as without it

---
 gridded/pyugrid/ugrid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 964cd28..75b968e 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -610,14 +610,17 @@ class UGrid:
         """
         points = np.asarray(points, dtype=np.float64)
         just_one = points.ndim == 1
-        points.shape = (-1, 2)
+        # not "points.shape =" -- points may be the caller's own array
+        points = points.reshape((-1, 2))
 
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
+            # the methods do not agree on the boundaries of the faces
+            _hash = (_hash, method)
             result = self._get_memoed(points, self._ind_memo_dict, _copy, _hash)
             if result is not None:
-                return result
+                return result[0] if just_one else result
 
         if method == "celltree":
             try:
-- 
2.43.0


From a6eb2ff83f3e6e0500d1ffdc46403469b4fef248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:59 +0000
Subject: [PATCH 06/81] fix: UGrid.locate_faces(method='simple') checks the
 whole face of quad and flexible meshes

---
 gridded/pyugrid/ugrid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 75b968e..9519b47 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -637,8 +637,10 @@ class UGrid:
             indices = np.zeros((points.shape[0]), dtype=IND_DT)
             for n, point in enumerate(points):
                 for i, face in enumerate(self._faces):
-                    f = self._nodes[face]
-                    if point_in_tri(f, point):
+                    # split the face into triangles, skipping unused indexes (flexible meshes)
+                    face = np.ma.compressed(face)
+                    f = self._nodes[face[face >= 0]]
+                    if any(point_in_tri(f[[0, j, j + 1]], point) for j in range(1, len(f) - 1)):
                         indices[n] = i
                         break
                     else:
-- 
2.43.0


From c4a0b26a8137e4386ebfff14fc3a3d233cb3b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:59 +0000
Subject: [PATCH 07/81] fix: UGrid.index_of no longer passes an argument
 locate_faces does not have

---
 gridded/pyugrid/ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 9519b47..f515e3e 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -657,7 +657,7 @@ class UGrid:
             return indices
 
     def index_of(self, points, method="celltree", _memo=False, _copy=False, _hash=None, use_mask=True):
-        return self.locate_faces(points=points, method=method, _memo=_memo, _copy=_copy, _hash=_hash, use_mask=use_mask)
+        return self.locate_faces(points=points, method=method, _memo=_memo, _copy=_copy, _hash=_hash)
 
     def build_celltree(self):
         """
-- 
2.43.0


From 2624c3dd708d5bc810c6b40c64f62180d9c081e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:59 +0000
Subject: [PATCH 08/81] fix: UGrid does not decrement the caller's one-based
 faces array

---
 gridded/pyugrid/ugrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index f515e3e..e31f5bd 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -312,6 +312,7 @@ class UGrid:
                 # faces index maximum equal to number of nodes, so we need to decrement by 1
                 # but only if the minimum is also gte 1
                 if faces_indexes.min() >= 1:
+                    faces_indexes = faces_indexes.copy()  # leave the caller's array alone
                     faces_indexes[faces_indexes > 0] -= 1
                     warnings.warn("faces index maximum equal to number of nodes, automatic decrement by 1 applied")
                 else:
-- 
2.43.0


From a0e0945f0920d0cd101496c0154508220abde1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:59 +0000
Subject: [PATCH 09/81] fix: UGrid drops its search trees, memos and
 connectivity when the nodes or faces change

---
 gridded/pyugrid/ugrid.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index e31f5bd..b62e583 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -283,6 +283,7 @@ class UGrid:
             self.nodes = np.zeros((0, 2), dtype=NODE_DT)
         else:
             self._nodes = np.asanyarray(nodes_coords, dtype=NODE_DT)
+        self._reset_lookup()
 
     @nodes.deleter
     def nodes(self):
@@ -291,6 +292,16 @@ class UGrid:
         self._edges = None
         self._faces = None
         self._boundaries = None
+        self._reset_lookup()
+
+    def _reset_lookup(self):
+        """
+        Drop everything that was computed from the nodes or faces
+        """
+        self._kdtree = None
+        self._cell_tree = None
+        self._ind_memo_dict = OrderedDict()
+        self._alpha_memo_dict = OrderedDict()
 
     @property
     def faces(self):
@@ -326,9 +337,10 @@ class UGrid:
 
         else:
             self._faces = None
-            # Other things are no longer valid.
-            self._face_face_connectivity = None
-            self._face_edge_connectivity = None
+        # Other things are no longer valid.
+        self._face_face_connectivity = None
+        self._face_edge_connectivity = None
+        self._reset_lookup()
 
     @faces.deleter
     def faces(self):
@@ -337,6 +349,7 @@ class UGrid:
         # Other things are no longer valid.
         self._face_face_connectivity = None
         self._face_edge_connectivity = None
+        self._reset_lookup()
         self.edge_coordinates = None
 
     @property
-- 
2.43.0


From d9d11f5b9d0c2472dc1c72c97e1fd5815304d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:59 +0000
Subject: [PATCH 10/81] fix: UGrid interpolates plain arrays whose location has
 to be inferred

---
 gridded/pyugrid/ugrid.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index b62e583..e67d6f1 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -789,7 +789,6 @@ class UGrid:
         # (for compatibility with old code)
         if location is None:
             location = self.infer_location(variable)
-            variable.location = location
         if location is None:
             raise ValueError("Data is incompatible with grid nodes or faces")
 
-- 
2.43.0


From 9f8c26df9710d7687c2dcf582371b766a3245ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:59 +0000
Subject: [PATCH 11/81] fix: the value outside a UGrid does not depend on the
 data of the last face

---
 gridded/pyugrid/ugrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index e67d6f1..56709f2 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -802,7 +802,7 @@ class UGrid:
         inds = self.locate_faces(points, "celltree", _copy, _memo, _hash)
         if location == "face":
             vals = variable[inds]
-            vals[inds == -1] = vals[inds == -1] * 0
+            vals[inds == -1] = 0
             return vals
         #             raise NotImplementedError("Currently does not support interpolation of a "
         #                                       "variable defined on the faces")
@@ -811,7 +811,7 @@ class UGrid:
             vals = variable.take(self.faces[inds], axis=0)
             if len(vals.shape) == (len(pos_alphas.shape) + 1):
                 pos_alphas = pos_alphas[:, :, np.newaxis]
-            vals[inds == -1] = vals[inds == -1] * 0
+            vals[inds == -1] = 0
             return np.sum(vals * pos_alphas, axis=1)
         return None
 
-- 
2.43.0


From 2e0b0b7a14416be1ea35dbc195a4327fe167ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:31 +0000
Subject: [PATCH 12/81] fix: connectivity of meshes with three faces, two edges
 or two boundaries is not transposed on loading

---
 gridded/pyugrid/read_netcdf.py | 10 ++++++++--
 gridded/pyugrid/ugrid.py       |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 27dbe0c..6cc4ec8 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -214,8 +214,14 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
                 continue
             array = var[:, :]
             # Fortran order, instead of C order, transpose the array
-            # logic below will fail for 3 node or two edge grids.
-            if array.shape[0] == defs["num_ind"]:
+            # The mesh may name the dimension of the faces or edges: if it does not, go by
+            # the shape. A square array is in the standard order, as it can not be told.
+            dimension = getattr(mesh_var, defs["role"].split("_")[0] + "_dimension", None)
+            if dimension in var.dimensions:
+                transposed = var.dimensions[0] != dimension
+            else:
+                transposed = array.shape[0] == defs["num_ind"] and array.shape[1] != defs["num_ind"]
+            if transposed:
                 array = array.T
             try:
                 start_index = int(var.start_index)
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 56709f2..9c0988d 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1055,12 +1055,14 @@ class UGrid:
         if self._edges is not None:
             # Attribute required if variables will be defined on edges.
             mesh.edge_node_connectivity = mesh_name + "_edge_nodes"
+            mesh.edge_dimension = mesh_name + "_num_edge"
             if self.edge_coordinates is not None:
                 # Optional attribute (requires edge_node_connectivity).
                 coord = "{0}_edge_lon {0}_edge_lat".format
                 mesh.edge_coordinates = coord(mesh_name)
         if self._faces is not None:
             mesh.face_node_connectivity = mesh_name + "_face_nodes"
+            mesh.face_dimension = mesh_name + "_num_face"
             if self.face_coordinates is not None:
                 # Optional attribute.
                 coord = "{0}_face_lon {0}_face_lat".format
-- 
2.43.0


From ff025acccee7057e3e491919c4646935b939930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:31 +0000
Subject: [PATCH 13/81] fix: UGrid.save writes the connectivity and boundary
 coordinates that it declares, and they load again

---
 gridded/pyugrid/read_netcdf.py |  5 +++++
 gridded/pyugrid/ugrid.py       | 29 +++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 6cc4ec8..9df0826 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -72,6 +72,11 @@ grid_defs = [
         "role": "face_face_connectivity",  # Name in mesh variable.
         "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
     },
+    {
+        "grid_attr": "face_edge_connectivity",  # Name in UGrid object.
+        "role": "face_edge_connectivity",  # Name in mesh variable.
+        "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
+    },
     {
         "grid_attr": "boundaries",  # Name in UGrid object.
         "role": "boundary_node_connectivity",  # Name in mesh var.
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 9c0988d..b44d456 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1075,6 +1075,10 @@ class UGrid:
             mesh.face_face_connectivity = mesh_name + "_face_links"
         if self._boundaries is not None:
             mesh.boundary_node_connectivity = mesh_name + "_boundary_nodes"
+            if self.boundary_coordinates is not None:
+                # Optional attribute (requires boundary_node_connectivity).
+                coord = "{0}_boundary_lon {0}_boundary_lat".format
+                mesh.boundary_coordinates = coord(mesh_name)
 
         # FIXME: This could be re-factored to be more generic, rather than
         # separate for each type of data see the coordinates example below.
@@ -1117,6 +1121,31 @@ class UGrid:
             boundary_nodes.long_name = "Maps every boundary segment to the two nodes that it connects."
             boundary_nodes.start_index = IND_DT(0)
 
+        for name, role, connectivity, long_name in [
+            (
+                "_face_edges",
+                "face_edge_connectivity",
+                self.face_edge_connectivity,
+                "Maps every face to its edges.",
+            ),
+            (
+                "_face_links",
+                "face_face_connectivity",
+                self.face_face_connectivity,
+                "Indicates which other faces neighbor each face.",
+            ),
+        ]:
+            if connectivity is not None:
+                var = nclocal.createVariable(
+                    mesh_name + name,
+                    IND_DT,
+                    (mesh_name + "_num_face", mesh_name + "_num_vertices"),
+                )
+                var[:] = connectivity
+                var.cf_role = role
+                var.long_name = long_name
+                var.start_index = IND_DT(0)
+
         # Optional "coordinate variables."
         for location in ["face", "edge", "boundary"]:
             loc = f"{location}_coordinates"
-- 
2.43.0


From b40df9d10892d9efa21779ee08c01a426ea66fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:58 +0000
Subject: [PATCH 14/81] fix: SGrid interpolation on rotated and mirrored
 curvilinear grids

Cells whose first logical axis runs along y gave NaN, and on mirrored grids a
point on the edge of a cell could take the other root of the inverse mapping
and extrapolate wildly.
---
 gridded/pysgrid/sgrid.py | 46 +++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 381623f..79bcbd7 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1297,6 +1297,18 @@ class SGrid:
         l = (l-a1 - a3*m)/(a2 + a4*m)
         """
 
+        def l_of_m(m, t):
+            """
+            solves whichever of the two equations determines l best: the one for x does not
+            where the l axis of the cell runs along y
+            """
+            dx = a[1][t] + a[3][t] * m
+            dy = b[1][t] + b[3][t] * m
+            with np.errstate(divide="ignore", invalid="ignore"):
+                l_x = (x[t] - a[0][t] - a[2][t] * m) / dx
+                l_y = (y[t] - b[0][t] - b[2][t] * m) / dy
+            return np.where(np.abs(dx) >= np.abs(dy), l_x, l_y)
+
         def quad_eqn(l, m, t, aa, bb, cc):
             """
             solves the following eqns for m and l
@@ -1305,22 +1317,22 @@ class SGrid:
             """
             if len(aa) == 0:
                 return
-            k = bb * bb - 4 * aa * cc
-            k = np.ma.masked_less(k, 0)
-
-            det = np.ma.sqrt(k)
-            m1 = (-bb - det) / (2 * aa)
-            l1 = (x[t] - a[0][t] - a[2][t] * m1) / (a[1][t] + a[3][t] * m1)
-
-            m2 = (-bb + det) / (2 * aa)
-            l2 = (x[t] - a[0][t] - a[2][t] * m2) / (a[1][t] + a[3][t] * m2)
-
-            t1 = np.logical_or(l1 < 0, l1 > 1)
-            t2 = np.logical_or(m1 < 0, m1 > 1)
-            t3 = np.logical_or(t1, t2)
-
-            m[t] = np.choose(t3, (m1, m2))
-            l[t] = np.choose(t3, (l1, l2))
+            det = np.sqrt(np.maximum(bb * bb - 4 * aa * cc, 0))
+            # q avoids the cancellation in (-bb +- det) when aa is tiny (almost a parallelogram)
+            q = -(bb + np.copysign(det, bb)) / 2
+            m1 = q / aa
+            l1 = l_of_m(m1, t)
+            m2 = np.divide(cc, q, out=np.zeros_like(q), where=q != 0)
+            l2 = l_of_m(m2, t)
+
+            # The cell's coordinates are the root in the unit square, or the nearest one to it
+            # for a point on the edge of the cell (where rounding may give e.g. l = 1 + 1e-16)
+            off1 = np.maximum(np.abs(l1 - 0.5), np.abs(m1 - 0.5))
+            off2 = np.maximum(np.abs(l2 - 0.5), np.abs(m2 - 0.5))
+            second = (off2 < off1) | np.isnan(off1)
+
+            m[t] = np.where(second, m2, m1)
+            l[t] = np.where(second, l2, l1)
 
         a = a.T
         b = b.T
@@ -1335,7 +1347,7 @@ class SGrid:
         # Attempts to solve the simpler linear case first.
         with np.errstate(invalid="ignore"):
             m[t] = -cc[t] / bb[t]
-            l[t] = (x[t] - a[0][t] - a[2][t] * m[t]) / (a[1][t] + a[3][t] * m[t])
+            l[t] = l_of_m(m[t], t)
         # now solve the quadratic cases
         quad_eqn(l, m, ~t, aa[~t], bb[~t], cc[~t])
 
-- 
2.43.0


From 2d4bcc54577e6eb46a0073942603b3b854292a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:02 +0000
Subject: [PATCH 15/81] fix: SGrid.interpolate_var_to_points works without
 slices, as documented

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 79bcbd7..970b7df 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1139,7 +1139,7 @@ class SGrid:
         # else:
         #     slices = (xslice, yslice)
         zero_aligned_idxs = idxs#.copy() - [xslice.start, yslice.start]
-        var = variable[slices]
+        var = variable[:] if slices is None else variable[slices]
         if len(var.shape) > 2:
             raise ValueError(
                 "Variable has too many dimensions to \
-- 
2.43.0


From 6b187fc815711144bc8827a902b89e428c368dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 16/81] fix: SGrid can be searched when its masks leave every
 cell, no cell, or only nodes masked

---
 gridded/pysgrid/sgrid.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 970b7df..9f01a95 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -14,7 +14,7 @@ from netCDF4 import Dataset
 from gridded.pysgrid.read_netcdf import NetCDFDataset, find_grid_topology_var, parse_padding
 from gridded.pysgrid.utils import GridPadding, calculate_angle_from_true_east, pair_arrays
 from gridded.pysgrid.variables import SGridVariable
-from gridded.utilities import gen_celltree_mask_from_center_mask
+from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask
 
 node_alternate_names = ["node", "nodes", "psi", "vertex", "vertices", "point", "points"]
 center_alternate_names = ["center", "centers", "face", "faces", "cell", "cells"]
@@ -653,7 +653,10 @@ class SGrid:
         rev_arrs = None
         if self._cell_tree_mask is not None:
             rev_arrs = self._cell_tree_mask[1]
-        indices = tree.locate(points)
+        if tree is not None:
+            indices = tree.locate(points)
+        else:  # every cell is masked
+            indices = np.full((points.shape[0],), -1, dtype=np.int32)
         if rev_arrs is not None:
             indices = rev_arrs[indices]
         lon, lat = self.node_lon, self.node_lat
@@ -836,12 +839,14 @@ class SGrid:
             (self.node_mask is not None and self.node_mask is not False)
             or (self.center_mask is not None and self.center_mask is not False)
         ):
-            if np.any(self.center_mask):
+            if self.center_mask is not None and self.center_mask is not False:
                 cell_mask = gen_celltree_mask_from_center_mask(
                     self.center_mask, self.get_padding_slices(self.center_padding)
                 )
             else:
-                pass
+                # a cell with any masked node is masked
+                nm = convert_mask_to_numpy_mask(self.node_mask)[self.get_padding_slices(self.node_padding)]
+                cell_mask = nm[:-1, :-1] | nm[:-1, 1:] | nm[1:, 1:] | nm[1:, :-1]
 
             lin_faces = np.empty(shape=(lon[1::, 1::].size, 4))
             if lin_faces.shape[0] != cell_mask.size:
@@ -908,7 +913,9 @@ class SGrid:
         else:
             lin_nodes = np.ascontiguousarray(np.stack((lon, lat), axis=-1).reshape(-1, 2).astype(np.float64))
 
-        self._cell_tree = (CellTree(lin_nodes, lin_faces), lin_nodes, lin_faces)
+        # CellTree needs at least one face
+        tree = CellTree(lin_nodes, lin_faces) if len(lin_faces) > 0 else None
+        self._cell_tree = (tree, lin_nodes, lin_faces)
 
     def nearest_var_to_points(
         self,
-- 
2.43.0


From da08f6d3b2438ba0119651984bc4e546e666556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:13 +0000
Subject: [PATCH 17/81] fix: SGrid.locate_nearest builds its tree on first use

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 9f01a95..a998249 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -681,7 +681,7 @@ class SGrid:
         points = np.asarray(points, dtype=np.float64)
         points = points.reshape(-1, 2)
 
-        if self._kd_trees[grid] is None:
+        if self._kd_trees.get(grid) is None:
             self.build_kdtree(grid)
         tree = self._kd_trees[grid]
         lin_indices = np.array(tree.query(points))[1].astype(np.int32)
-- 
2.43.0


From 1ff93c140828698cf9e1297d52736acc349c0448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:17 +0000
Subject: [PATCH 18/81] fix: SGrid.compute_interpolant masks and mirrors the
 points that have masked values

---
 gridded/pysgrid/sgrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index a998249..2ad817f 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1016,7 +1016,7 @@ class SGrid:
         if mask_behavior is None:
             mask_behavior = self.masked_interpolant_behavior
 
-        if mask_behavior == "mirror" and len(values) > 2:
+        if mask_behavior == "mirror" and values.shape[-1] > 2:
             raise ValueError("Mirror behavior is not implemented for more than two values")
 
         if mask_behavior == "zero":
@@ -1024,8 +1024,8 @@ class SGrid:
         elif mask_behavior == "mirror":
             filled_values = self.mirror_mask_values(values)
         elif mask_behavior == "mask":
-            filled_values = values.copy()
-            filled_values.mask = np.tile(np.any(values.mask, axis=-1), 2)
+            any_masked = np.any(np.ma.getmaskarray(values), axis=-1, keepdims=True)
+            filled_values = np.ma.array(values, mask=np.broadcast_to(any_masked, values.shape))
         else:
             raise ValueError(f"unrecognized mask_behavior: {mask_behavior}")
 
-- 
2.43.0


From 0f01605e68b4b3285f8d9ed72b9b7b6ea73bc594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:46 +0000
Subject: [PATCH 19/81] fix: SGrid.nearest_var_to_points accepts data that is
 not a masked array

---
 gridded/pysgrid/sgrid.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 2ad817f..0aeb6ef 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -783,14 +783,11 @@ class SGrid:
         """
         var = var[:]
         rv = np.ma.zeros((index.shape[0], 1), dtype=np.float64)
-        mask = np.ma.zeros((index.shape[0], 1), dtype=bool)
         raw = np.ravel_multi_index(index.T, var.shape, mode="clip")
         if np.ma.is_masked(index):
             raw.mask = index.mask[:, 0]  # need to remask raw because ravel_multi_index wipes out index's mask
         rv[:, 0] = np.take(var, raw)
-        if var.mask is False:
-            mask[:, 0] = np.take(var.mask, raw)
-        return np.ma.array(rv, mask=mask)
+        return rv
 
     def build_kdtree(self, grid="node"):
         """Builds the kdtree for the specified grid"""
-- 
2.43.0


From bca4df2bc9f2f71a2b9a309891449c8f9f18c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:51 +0000
Subject: [PATCH 20/81] fix: SGrid.locate_faces respects use_mask and answers
 the same with and without its memo

---
 gridded/pysgrid/sgrid.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 0aeb6ef..96e694c 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -149,6 +149,7 @@ class SGrid:
         self._log_ind_memo_dict = OrderedDict()
         self._cell_ind_memo_dict = OrderedDict()
         self._cell_tree_mask = None
+        self._cell_tree_use_mask = True
         self.grid_topology = grid_topology
         self.masked_interpolant_behavior = masked_interpolant_behavior
         super().__init__(*args, **kwargs)
@@ -614,7 +615,7 @@ class SGrid:
         y_slice = slice(ymin, ymax)
         return (x_slice, y_slice)
 
-    def locate_faces(self, points, _memo=False, _copy=False, _hash=None, use_mask=True):
+    def locate_faces(self, points, _memo=False, _copy=False, _hash=None, use_mask=None):
         """
         Given a list of points, returns a list of x, y indices of the cell
         that contains each respective point
@@ -633,6 +634,9 @@ class SGrid:
         :param grid: The grid on which you want to locate the points
         :type grid: Name of the grid ('node', 'center', 'edge1', 'edge2)
 
+        :param use_mask: Whether masked cells are left out. If not given, whatever the celltree was
+                         last built with (True if it has not been built yet)
+
         This version utilizes the CellTree data structure.
 
         """
@@ -640,6 +644,12 @@ class SGrid:
         just_one = points.ndim == 1
         points = points.reshape(-1, 2)
 
+        if self._cell_tree is None:
+            self.build_celltree(use_mask=use_mask is not False)
+        elif use_mask is not None and bool(use_mask) != self._cell_tree_use_mask:
+            self.build_celltree(use_mask=use_mask)
+
+        _memo = _memo and not just_one
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
@@ -647,8 +657,6 @@ class SGrid:
             if result is not None:
                 return result
 
-        if self._cell_tree is None:
-            self.build_celltree(use_mask=use_mask)
         tree = self._cell_tree[0]
         rev_arrs = None
         if self._cell_tree_mask is not None:
@@ -674,7 +682,7 @@ class SGrid:
                 self._add_memo(points, res, self._cell_ind_memo_dict, _copy, _hash)
             return res
 
-    def index_of(self, points, _memo=False, _copy=False, _hash=None, use_mask=True):
+    def index_of(self, points, _memo=False, _copy=False, _hash=None, use_mask=None):
         return self.locate_faces(points=points, _memo=_memo, _copy=_copy, _hash=_hash, use_mask=use_mask)
 
     def locate_nearest(self, points, grid, _memo=False, _copy=False, _hash=None):
@@ -913,6 +921,10 @@ class SGrid:
         # CellTree needs at least one face
         tree = CellTree(lin_nodes, lin_faces) if len(lin_faces) > 0 else None
         self._cell_tree = (tree, lin_nodes, lin_faces)
+        self._cell_tree_use_mask = bool(use_mask)
+        # what was located with the previous tree
+        self._cell_ind_memo_dict.clear()
+        self._log_ind_memo_dict.clear()
 
     def nearest_var_to_points(
         self,
-- 
2.43.0


From 1efcadc276905b8b98012e9966c66157fadcee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:55 +0000
Subject: [PATCH 21/81] fix: SGrid with masked node coordinates no longer
 crashes the interpreter when searched

---
 gridded/pysgrid/sgrid.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 96e694c..1e54d40 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -840,18 +840,23 @@ class SGrid:
         if lon is None or lat is None:
             raise ValueError("node_lon and node_lat must be defined in order to create and use CellTree for this grid")
 
+        # nodes without coordinates (e.g. _FillValue on land)
+        no_coords = np.ma.getmaskarray(lon[:]) | np.ma.getmaskarray(lat[:])
+
         if use_mask and (
             (self.node_mask is not None and self.node_mask is not False)
             or (self.center_mask is not None and self.center_mask is not False)
+            or no_coords.any()
         ):
             if self.center_mask is not None and self.center_mask is not False:
                 cell_mask = gen_celltree_mask_from_center_mask(
                     self.center_mask, self.get_padding_slices(self.center_padding)
                 )
-            else:
-                # a cell with any masked node is masked
+            elif self.node_mask is not None and self.node_mask is not False:
                 nm = convert_mask_to_numpy_mask(self.node_mask)[self.get_padding_slices(self.node_padding)]
                 cell_mask = nm[:-1, :-1] | nm[:-1, 1:] | nm[1:, 1:] | nm[1:, :-1]
+            else:
+                cell_mask = np.zeros(np.subtract(lon.shape, 1), dtype=np.bool_)
 
             lin_faces = np.empty(shape=(lon[1::, 1::].size, 4))
             if lin_faces.shape[0] != cell_mask.size:
@@ -859,6 +864,10 @@ class SGrid:
                     "Could not match mask and faces array length. If padding is in use, please set self.center_padding"
                 )
 
+            cell_mask = cell_mask | (
+                no_coords[:-1, :-1] | no_coords[:-1, 1:] | no_coords[1:, 1:] | no_coords[1:, :-1]
+            )
+
             lon = np.ma.MaskedArray(lon[:].copy())
             lat = np.ma.MaskedArray(lat[:].copy())
             # Water cells grab all nodes that belong to them
-- 
2.43.0


From 44365d907c00965579d96540dc369014becf07e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 22/81] fix: SGrid interpolation unmasks the result when every
 point is off the grid, too

---
 gridded/pysgrid/sgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 1e54d40..93a22eb 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1138,7 +1138,8 @@ class SGrid:
             # ind has to be writable
             ind = self.locate_faces(points, _memo, _copy, _hash)
             if (ind.mask).all():
-                return np.ma.masked_all((points.shape[0], 1))
+                result = np.ma.masked_all((points.shape[0], 1))
+                return result.filled(fill_value) if unmask else result
 
         if self._l_coeffs is None:
             self._compute_transform_coeffs()
-- 
2.43.0


From f88bcc5906407a6a2f62267adb4cb35dd13fa238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:23 +0000
Subject: [PATCH 23/81] fix: deleting the faces or nodes of a UGrid deletes the
 face coordinates and connectivity, too

---
 gridded/pyugrid/ugrid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index b44d456..f111b08 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -292,6 +292,11 @@ class UGrid:
         self._edges = None
         self._faces = None
         self._boundaries = None
+        self._face_face_connectivity = None
+        self._face_edge_connectivity = None
+        self.face_coordinates = None
+        self.edge_coordinates = None
+        self.boundary_coordinates = None
         self._reset_lookup()
 
     def _reset_lookup(self):
@@ -350,7 +355,7 @@ class UGrid:
         self._face_face_connectivity = None
         self._face_edge_connectivity = None
         self._reset_lookup()
-        self.edge_coordinates = None
+        self.face_coordinates = None
 
     @property
     def edges(self):
-- 
2.43.0


From 56e76c1a609ab8f519ae1ead7ded3ba941c68ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:41 +0000
Subject: [PATCH 24/81] fix: depth interpolation of Variables: extrapolated
 points, data on layers or cell centers, points without a depth

Points beyond the deepest level took the values of another layer (or raised UnboundLocalError),
data on layers raised IndexError or gave NaN beyond the ends, data on cell centers gave every point
the values of the first, and masked data at the bottom masked points above the surface.
---
 gridded/variable.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 6e2c426..06cebf6 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -713,6 +713,8 @@ class Variable:
         bottom_boundary_condition = kwargs.pop("bottom_boundary_condition", self.bottom_boundary_condition)
         order = self.dimension_ordering
         dim_idx = order.index("depth")
+        if points.shape[1] == 2:  # the depth of the points is optional: surface if not given
+            points = np.column_stack((points, np.zeros((points.shape[0],))))
         if order[dim_idx + 1] != "time":
             val_func = self._xy_interp
         else:
@@ -739,32 +741,33 @@ class Variable:
             rtv = np.ma.MaskedArray(data=rtv, mask=np.isnan(rtv))
             return rtv
 
-        msk = np.isnan(d_indices) if not np.ma.is_masked(d_indices) else d_indices.mask
+        msk = np.ma.getmaskarray(d_indices).copy()
         values = np.ma.MaskedArray(data=np.empty((points.shape[0],)) * np.nan, mask=msk)
         # Points are mixed within the grid. Some may be above the surface or under the ground
-        uniq_idx = np.unique(d_indices)
-        if np.ma.masked in uniq_idx:  # the [0:-1] is required to skip all masked indices
-            uniq_idx = uniq_idx[0:-1]
+        uniq_idx = np.unique(np.ma.compressed(d_indices))  # skip all masked indices
         if self.data.shape[dim_idx] == self.depth.num_layers:
             #data is located on cell centers, so value is held constant across cell.
             for idx in uniq_idx:
-                if idx == -1:
-                    #special case for out of bounds and extrapolation.
-                    idx = 0
-                lay_idxs = np.where(d_indices == idx)[0]
-                values.put(lay_idxs, val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs))
+                lay_idxs = np.ma.where(d_indices == idx)[0]
+                # out of bounds and extrapolation: the nearest layer
+                layer = np.clip(idx, 0, self.depth.num_layers - 1)
+                values.put(lay_idxs, val_func(points[lay_idxs], time, extrapolate, slices=slices + (layer,), **kwargs))
         else:
             #data is on cell edge, or on nodes, so we need to interpolate between the two levels.
             for idx in uniq_idx:
+                lay_idxs = np.ma.where(d_indices == idx)[0]
+                # flattened, as some locations on the grid give an Nx1 array
+                v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs).reshape(-1)
                 if idx == self.data.shape[dim_idx] - 1:
                     # special case, index == depth dim length, so only v0 is valid
-                    v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                     values.put(lay_idxs, v0)
                     continue
-                lay_idxs = np.where(d_indices == idx)[0]
-                v1 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx + 1,), **kwargs)
-                v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
-                sub_vals = v0 + (v1 - v0) * d_alphas[lay_idxs]
+                v1 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx + 1,), **kwargs).reshape(-1)
+                alphas = np.ma.filled(d_alphas[lay_idxs], 0)
+                # exactly on a level (or beyond the last one), the other level has no part in the value
+                # (it may be masked, or at the other end of the depth interval)
+                sub_vals = np.ma.where(alphas == 1, v1, v0 + (v1 - v0) * alphas)
+                sub_vals = np.ma.where(alphas == 0, v0, sub_vals)
                 # partially fill the values array for this layer
                 values.put(lay_idxs, sub_vals)
         return values
-- 
2.43.0


From 6ff884bc31ca6a6aa566efe9c6f4b220b299f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:41 +0000
Subject: [PATCH 25/81] fix: depth objects: levels at the ends of the interval,
 surface-only depth, unmasked sigma profiles

A point exactly on the deepest (or, in descending order, shallowest) level is not beyond it; Variables with
a surface-only depth can be evaluated again; FVCOM_Depth works when nothing is masked.
---
 gridded/depth.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 749c4c5..dd3f46d 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -50,7 +50,7 @@ class DepthBase:
 
     @classmethod
     def from_netCDF(cls, surface_index=-1, **kwargs):
-        return cls(surface_index, **kwargs)
+        return cls(surface_index=surface_index, **kwargs)
 
     @property
     def surface_index(self):
@@ -64,6 +64,15 @@ class DepthBase:
         # for the system being represented
         return self._bottom_index
 
+    @property
+    def num_levels(self):
+        # only the surface is supported
+        return 1
+
+    @property
+    def num_layers(self):
+        return self.num_levels - 1
+
     def interpolation_alphas(
         self,
         points,
@@ -264,11 +273,15 @@ class L_Depth(DepthBase):
             # 0, 1, 2, 3, 4, 5, 6
             above_surface = indices == -1
             above_alpha = 1
-            below_bottom = indices == (len(self.depth_levels) - 1)
+            # the deepest level itself is still within the interval
+            alphas[indices == (len(self.depth_levels) - 1)] = 0
+            below_bottom = depths > L1
             below_alpha = 0
         else:
             # 6, 5, 4, 3, 2, 1, 0
-            above_surface = indices == (len(self.depth_levels) - 1)
+            # the surface level itself is still within the interval
+            alphas[indices == (len(self.depth_levels) - 1)] = 0
+            above_surface = depths < L1
             above_alpha = 0
             below_bottom = indices == -1
             below_alpha = 1
@@ -698,8 +711,8 @@ class S_Depth(DepthBase):
 
         # depth_profile mask is True where the point is outside the grid horizontally
         # so it must be reapplied
-        indices = np.ma.array(indices, mask=depth_profiles.mask[:, 0].copy())
-        alphas.mask = depth_profiles.mask[:, 0].copy()
+        indices = np.ma.array(indices, mask=np.ma.getmaskarray(depth_profiles)[:, 0].copy())
+        alphas.mask = indices.mask.copy()
         indices, alphas, oob_mask = self._apply_boundary_conditions(
             indices, alphas, surface_index, bottom_index, surface_boundary_condition, bottom_boundary_condition
         )
-- 
2.43.0


From ab6cad177423de0d162a0f0aa5a1ddc7d0f289c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:28 +0000
Subject: [PATCH 26/81] fix: Variable.at and VectorVariable.at do not answer
 from the memo of a different query

The memo ignored extrapolate, unmask and the boundary conditions, was not cleared when the data, time, grid etc.
of the variable were replaced, and handed out the remembered array itself, whose mask could be changed.
---
 gridded/variable.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 06cebf6..2ce8f1a 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -427,7 +427,26 @@ class Variable:
         """
         Returns a SHA1 hash of the array of points passed in
         """
-        return (hashlib.sha1(points.tobytes()).hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
+        return (
+            hashlib.sha1(points.tobytes()).hexdigest(),
+            hashlib.sha1(str(time).encode("utf-8")).hexdigest(),
+            points.shape,
+            points.dtype.str,
+        )
+
+    def _get_memo_key(self, _hash, **options):
+        """
+        Returns the key of a result in the memo: everything it depends on that can change
+        without an attribute being assigned (in which case the memo is cleared)
+        """
+        time_span = None if self.time is None else (self.time.min_time, self.time.max_time)
+        return (_hash, time_span, repr(sorted(options.items())))
+
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        # the results in the memo may depend on it
+        if name != "_result_memo" and self.__dict__.get("_result_memo"):
+            self._result_memo.clear()
 
     def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
         if _copy:
@@ -603,7 +622,9 @@ class Variable:
             _hash = self._get_hash(pts, time)
 
         if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
+            # always a copy: the caller may change the mask of the result
+            memo_key = self._get_memo_key(_hash, units=units, extrapolate=extrapolate, unmask=unmask, **kwargs)
+            res = self._get_memoed(pts, time, self._result_memo, _copy=True, _hash=memo_key)
             if res is not None:
                 return res
 
@@ -623,7 +644,7 @@ class Variable:
             value = np.ma.filled(value)
 
         if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
+            self._memoize_result(pts, time, value, self._result_memo, _copy=True, _hash=memo_key)
         return value
 
     interpolate = at  # common request
@@ -1268,14 +1289,8 @@ class VectorVariable:
         if points is None:
             points = np.column_stack((np.array(lons), np.array(lats)))
         pts = _reorganize_spatial_data(points)
-        if _hash is None:
-            _hash = self._get_hash(pts, time)
-
-        if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
-            if res is not None:
-                return res
 
+        # the components remember their results, and know when these no longer hold
         value = np.ma.column_stack(
             [
                 var.at(
@@ -1292,9 +1307,6 @@ class VectorVariable:
             ]
         )
 
-        if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
-
         return value
 
     @classmethod
-- 
2.43.0


From ffeb7e2f74884eaa16c58e7157239e24565953ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:49 +0000
Subject: [PATCH 27/81] fix: data of a Variable with a constant time can be
 replaced, times of a VectorVariable can be a list, depth may precede time

collections.Iterable is gone from Python; the data setter refused what the time setter and the constructor allow;
at the ends of the time series the depth index was dropped when the depth dimension comes first.
---
 gridded/variable.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 2ce8f1a..b81b278 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -379,7 +379,7 @@ class Variable:
     def data(self, d):
         d = asarraylike(d)
         # Fixme: maybe all this checking should be done when it gets added to the Dataset??
-        if self.time is not None and len(d) != len(self.time):
+        if self.time is not None and len(d) != len(self.time) and len(self.time) > 1:
             raise ValueError("Data/time interval mismatch")
         ## fixme: we should check Depth, too.
         if self.grid is not None:  # if there is not a grid, we can't check this
@@ -701,9 +701,9 @@ class Variable:
 
         if time == self.time.min_time or (extrapolate and time < self.time.min_time):
             # min or before
-            return val_func(points, time, extrapolate, slices=(0,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (0,), **kwargs)
         elif time == self.time.max_time or (extrapolate and time > self.time.max_time):
-            return val_func(points, time, extrapolate, slices=(-1,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (-1,), **kwargs)
         else:
             ind = self.time.index_of(time)
             s1 = slices + (ind,)
@@ -1155,7 +1155,7 @@ class VectorVariable:
                     Original error: {str(e)}""")
         if isinstance(t, Time_class):
             self._time = t
-        elif isinstance(t, collections.Iterable) or isinstance(t, nc4.Variable):
+        elif isinstance(t, collections.abc.Iterable) or isinstance(t, nc4.Variable):
             self._time = Time_class(t)
         else:
             raise ValueError("Time must be set with an iterable container or netCDF variable")
-- 
2.43.0


From bd9e408e3fdc76f7b668d94b36645de3e0dfca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:39 +0000
Subject: [PATCH 28/81] fix: the depth dimension of a Variable with a constant
 time is not taken for time

---
 gridded/variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index b81b278..78c3497 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -524,7 +524,9 @@ class Variable:
             if diff == 0:
                 return order
             elif diff == 1:
-                if self.time is not None:
+                # a constant time (one entry) does not need a dimension of the data
+                constant_time = self.time is not None and len(self.time) == 1 and self.data.shape[0] != 1
+                if self.time is not None and not (constant_time and self.depth is not None):
                     del order[1]
                 elif self.depth is not None:
                     del order[0]
-- 
2.43.0


From 61f16f10bdd06630c8c4d30bd95f9364a97bb572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:28 +0000
Subject: [PATCH 29/81] fix: Grid_R interpolates masked data without slices,
 and grids whose node_lon and node_lat are one object

---
 gridded/grids.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 8c36d60..598941e 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -404,11 +404,13 @@ class Grid_R(GridBase):
         points_y = points[:, 1]  # lat
         points_x = points[:, 0]  # lon
         y, x = self.lonlat_to_yx(variable)
+        lon_first = y is self.node_lon
+        if lon_first and y is x:  # the same object for both: only the dimensions can tell
+            lon_first = variable.dimensions[-2] == self.dimensions[1]
 
-        if slices is not None:
-            variable = variable[slices]
-            if np.ma.isMA(variable):
-                variable = variable.filled(0)  # eventually should use Variable fill value
+        variable = variable[:] if slices is None else variable[slices]
+        if np.ma.isMA(variable):
+            variable = variable.filled(0)  # eventually should use Variable fill value
 
         # idx_y = np.digitize(points_y, y) - 1
         # idx_x = np.digitize(points_x, x) - 1
@@ -431,7 +433,7 @@ class Grid_R(GridBase):
         #     return iv
 
         interp_func = RegularGridInterpolator((y, x), variable, method=method, bounds_error=False, fill_value=0)
-        if y is self.node_lon:
+        if lon_first:
             vals = interp_func(points, method=method)
         else:
             vals = interp_func(points[:, ::-1], method=method)
-- 
2.43.0


From 2d7660c3b775c20da505ce900943a9355cd3afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:33 +0000
Subject: [PATCH 30/81] fix: Grid_R.infer_location returns None, rather than
 failing, for shapes of edges it does not have

---
 gridded/grids.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 598941e..b3d8eda 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -460,10 +460,6 @@ class Grid_R(GridBase):
         difference = (var_shape - node_shape).tolist()
         if (difference == [1, 1] or difference == [-1, -1]) and self.center_lon is not None:
             return "center"
-        elif difference == [1, 0] and self.edge1_lon is not None:
-            return "edge1"
-        elif difference == [0, 1] and self.edge2_lon is not None:
-            return "edge2"
         elif difference == [0, 0] and self.node_lon is not None:
             return "node"
         else:
-- 
2.43.0


From a354155c4a764ed0d80c912f4ad3c3e00e9489c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:22 +0000
Subject: [PATCH 31/81] fix: coordinate variables whose names are not in lower
 case can be given in a topology and used with Grid_R

---
 gridded/grids.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index b3d8eda..bb41046 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -5,6 +5,13 @@ from gridded.pyugrid.ugrid import UGrid
 from gridded.utilities import get_dataset, parse_filename_dataset_args
 
 
+def _by_name(variables):
+    """
+    The variables of a file by their names, both as they are and in lower case
+    """
+    return {**{k.lower(): v for k, v in variables.items()}, **variables}
+
+
 class GridBase:
     """
     Base object for grids to share common behavior
@@ -50,7 +57,7 @@ class GridBase:
         create a valid instance.
         """
         gf_vars = dataset.variables if dataset is not None else get_dataset(filename).variables
-        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()])
+        gf_vars = _by_name(gf_vars)
         init_args = {}
         gt = {}
         init_args["filename"] = filename
@@ -62,8 +69,8 @@ class GridBase:
                 if n1 in gf_vars and n2 in gf_vars:
                     init_args[node_attrs[0]] = gf_vars[n1][:]
                     init_args[node_attrs[1]] = gf_vars[n2][:]
-                    gt[node_attrs[0]] = n1
-                    gt[node_attrs[1]] = n2
+                    gt[node_attrs[0]] = gf_vars[n1].name
+                    gt[node_attrs[1]] = gf_vars[n2].name
                     break
             if node_attrs[0] not in init_args:
                 for n in composite_node_names:
@@ -116,7 +123,7 @@ class Grid_U(GridBase, UGrid):
     def _find_required_grid_attrs(cls, filename, dataset=None, grid_topology=None):
 
         gf_vars = dataset.variables if dataset is not None else get_dataset(filename).variables
-        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()])
+        gf_vars = _by_name(gf_vars)
         # Get superset attributes
         init_args, gt = super()._find_required_grid_attrs(
             filename=filename, dataset=dataset, grid_topology=grid_topology
@@ -170,7 +177,7 @@ class Grid_S(GridBase, SGrid):
         # Get superset attributes
         # get_datset is not defined -- this must not be used
         gf_vars = dataset.variables if dataset is not None else get_dataset(filename).variables
-        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()])
+        gf_vars = _by_name(gf_vars)
         init_args, gt = super()._find_required_grid_attrs(filename, dataset=dataset, grid_topology=grid_topology)
 
         # These are the attributes to search for, the keys in a grid_topology
@@ -276,7 +283,7 @@ class Grid_R(GridBase):
         # are dealt with
         # Get superset attributes
         gf_vars = dataset.variables if dataset is not None else get_dataset(filename).variables
-        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()])
+        gf_vars = _by_name(gf_vars)
         init_args, gt = super()._find_required_grid_attrs(filename, dataset=dataset, grid_topology=grid_topology)
 
         # Grid_R only needs node_lon and node_lat.
-- 
2.43.0


From 3af3eb6cdc8a5a0361cba8fda19757cad4ffdf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:49 +0000
Subject: [PATCH 32/81] fix: depth is found for file variables when a constant
 time is passed in or the time dimension has no variable

---
 gridded/variable.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 78c3497..d5a4220 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -21,6 +21,16 @@ from gridded.utilities import (
 log = logging.getLogger(__name__)
 
 
+def _has_depth_dimension(data, grid, time):
+    """
+    Whether the data has a dimension that is neither time nor on the grid
+
+    A constant time (one entry) does not need a dimension of the data.
+    """
+    extra = len(data.shape) - (1 if isinstance(grid, Grid_U) else 2)
+    return extra == 2 or extra == 1 and len(time) == 1 and data.shape[0] != 1
+
+
 class Variable:
     """
     Variable object: represents a field of values associated with the grid.
@@ -258,18 +268,9 @@ class Variable:
                     origin=time_origin,
                     displacement=displacement,
                 )
-        else:
-            timevarname = 1 if len(time) > 1 else 0
 
         if depth is None:
-            istimevar = 0 if timevarname is None else 1
-
-            if (
-                isinstance(grid, (Grid_S, Grid_R))
-                and len(data.shape) == 3 + istimevar
-                or isinstance(grid, Grid_U)
-                and len(data.shape) == 2 + istimevar
-            ):
+            if _has_depth_dimension(data, grid, time):
                 depth = Depth.from_netCDF(grid_file=dg, dataset=ds, time=time, grid=grid, **kwargs)
         if location is None:
             if hasattr(data, "location"):
@@ -1013,18 +1014,9 @@ class VectorVariable:
                     origin=time_origin,
                     displacement=displacement,
                 )
-        else:
-            timevarname = 1 if len(time) > 1 else 0
 
         if depth is None:
-            istimevar = 0 if timevarname is None else 1
-
-            if (
-                isinstance(grid, (Grid_S, Grid_R))
-                and len(data.shape) == 3 + istimevar
-                or isinstance(grid, Grid_U)
-                and len(data.shape) == 2 + istimevar
-            ):
+            if _has_depth_dimension(data, grid, time):
                 depth = Depth.from_netCDF(grid_file=dg, dataset=ds, time=time, grid=grid, **kwargs)
 
         if variables is None:
-- 
2.43.0


From 0f947dd44f29fa429f4d326cef0ca778f0f1d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:54 +0000
Subject: [PATCH 33/81] fix: Variable.from_netCDF keeps the attributes of the
 file's variable with load_all, too

---
 gridded/variable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridded/variable.py b/gridded/variable.py
index d5a4220..d9dd8d7 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -276,6 +276,9 @@ class Variable:
             if hasattr(data, "location"):
                 location = data.location
         if load_all:
+            attributes = dict(kwargs.pop("attributes", None) or {})
+            attributes.update((attr, data.getncattr(attr)) for attr in data.ncattrs())
+            kwargs["attributes"] = attributes
             data = data[:]
         return cls(
             name=name,
-- 
2.43.0


From 26f480dbe2cf8b59a120ccb52014d6f0f506d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:41 +0000
Subject: [PATCH 34/81] fix: a file variable without a time dimension but with
 one level still gets its depth

---
 gridded/variable.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index d9dd8d7..eebc2db 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -21,14 +21,12 @@ from gridded.utilities import (
 log = logging.getLogger(__name__)
 
 
-def _has_depth_dimension(data, grid, time):
+def _has_depth_dimension(data, grid, has_time_dimension):
     """
     Whether the data has a dimension that is neither time nor on the grid
-
-    A constant time (one entry) does not need a dimension of the data.
     """
     extra = len(data.shape) - (1 if isinstance(grid, Grid_U) else 2)
-    return extra == 2 or extra == 1 and len(time) == 1 and data.shape[0] != 1
+    return extra == 2 or extra == 1 and not has_time_dimension
 
 
 class Variable:
@@ -268,9 +266,13 @@ class Variable:
                     origin=time_origin,
                     displacement=displacement,
                 )
+            has_time_dimension = timevarname is not None
+        else:
+            # a constant time (one entry) does not need a dimension of the data
+            has_time_dimension = len(time) > 1 or data.shape[0] == 1
 
         if depth is None:
-            if _has_depth_dimension(data, grid, time):
+            if _has_depth_dimension(data, grid, has_time_dimension):
                 depth = Depth.from_netCDF(grid_file=dg, dataset=ds, time=time, grid=grid, **kwargs)
         if location is None:
             if hasattr(data, "location"):
@@ -1017,9 +1019,13 @@ class VectorVariable:
                     origin=time_origin,
                     displacement=displacement,
                 )
+            has_time_dimension = timevarname is not None
+        else:
+            # a constant time (one entry) does not need a dimension of the data
+            has_time_dimension = len(time) > 1 or data.shape[0] == 1
 
         if depth is None:
-            if _has_depth_dimension(data, grid, time):
+            if _has_depth_dimension(data, grid, has_time_dimension):
                 depth = Depth.from_netCDF(grid_file=dg, dataset=ds, time=time, grid=grid, **kwargs)
 
         if variables is None:
-- 
2.43.0


From faf4a235769a7845006cde24f60a9da3102244e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:43 +0000
Subject: [PATCH 35/81] fix: Grid_R.infer_location does not place data of less
 than two dimensions on the grid

---
 gridded/grids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/grids.py b/gridded/grids.py
index bb41046..bb380c6 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -463,6 +463,8 @@ class Grid_R(GridBase):
         x_len = len(self.node_lon)
         y_len = len(self.node_lat)
         node_shape = np.array((y_len, x_len))
+        if len(variable.shape) < 2:
+            return None
         var_shape = np.array(variable.shape[-2:])
         difference = (var_shape - node_shape).tolist()
         if (difference == [1, 1] or difference == [-1, -1]) and self.center_lon is not None:
-- 
2.43.0


From 9e2993ed9f0b381b19e7746890626818396e3a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:47 +0000
Subject: [PATCH 36/81] fix: Dataset loads variables whose names are words of
 the description of the grid

---
 gridded/gridded.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index a7735a1..f1491b1 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -151,9 +151,11 @@ class Dataset:
         #        It *should* have already gotten the grid and depth and time,
         #        and then the variables can be loaded directly.
         variables = {}
+        # the netcdf variables that are used to define the grid
+        descriptive = {"cf_role", "long_name", "standard_name", "topology_dimension", "grid_type"}
+        grid_attrs = [str(v).split() for attr, v in self.grid.grid_topology.items() if attr not in descriptive]
         for k in ds.variables.keys():
-            # find which netcdf variables are used to define the grid
-            is_not_grid_attr = all([k not in str(v).split() for v in self.grid.grid_topology.values()])
+            is_not_grid_attr = all([k not in v for v in grid_attrs])
             if is_not_grid_attr:
                 ncvar = ds[k]
                 # find the location of the variable
-- 
2.43.0


From 09baf39f1cbddbc67a196ed0da4c6450d8ea4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:51 +0000
Subject: [PATCH 37/81] fix: Dataset.save writes the attributes of the dataset

---
 gridded/gridded.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index f1491b1..d8fc34e 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -221,6 +221,7 @@ class Dataset:
 
         # Save the grid and variables
         self.grid.save(ncds, format="netcdf4", variables=self.variables)
+        ncds.setncatts(self.attributes)
 
         ncds.close()
 
-- 
2.43.0


From bbe03285f185ad09915986cc273a8358e79040db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:56 +0000
Subject: [PATCH 38/81] fix: UGrid.save keeps the names of the variables, their
 fill values and where they are

---
 gridded/pyugrid/ugrid.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index f111b08..a65f509 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1232,19 +1232,15 @@ class UGrid:
                 chunksizes = (len(self.boundaries),)
             else:
                 raise ValueError(f"I don't know how to save a variable located on: {var.location}")
-            print("Saving:", var)
-            print("name is:", var.name)
-            print("var data is:", var.data)
-            print("var data shape is:", var.data.shape)
             data_var = nclocal.createVariable(
-                var.name,
+                name,
                 var.data.dtype,
                 shape,
                 chunksizes=chunksizes,
+                fill_value=var.attributes.get("_FillValue"),
                 # zlib=False,
                 # complevel=0,
             )
-            print("new dat var shape:", shape)
             data_var[:] = var.data[:]
             # Add the standard attributes:
             data_var.location = var.location
@@ -1253,4 +1249,6 @@ class UGrid:
                 data_var.coordinates = coordinates
             # Add the extra attributes.
             for att_name, att_value in var.attributes.items():
-                setattr(data_var, att_name, att_value)
+                # those that say where the data are in this file are already there
+                if att_name not in ("location", "mesh", "coordinates", "_FillValue"):
+                    setattr(data_var, att_name, att_value)
-- 
2.43.0


From 472bb55379bfdb32cfae5c498923e5e91327b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:20 +0000
Subject: [PATCH 39/81] fix: UGrid.save packs the data of variables with a
 scale factor or offset

---
 gridded/pyugrid/ugrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index a65f509..f91a71d 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1241,7 +1241,6 @@ class UGrid:
                 # zlib=False,
                 # complevel=0,
             )
-            data_var[:] = var.data[:]
             # Add the standard attributes:
             data_var.location = var.location
             data_var.mesh = mesh_name
@@ -1252,3 +1251,5 @@ class UGrid:
                 # those that say where the data are in this file are already there
                 if att_name not in ("location", "mesh", "coordinates", "_FillValue"):
                     setattr(data_var, att_name, att_value)
+            # after the attributes, as they may say how the data are packed
+            data_var[:] = var.data[:]
-- 
2.43.0


From ad76d87c919633b040a3ff9e99f0e3a43ebf989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:35 +0000
Subject: [PATCH 40/81] fix: Dataset.save and UGrid.save write the format that
 was asked for

---
 gridded/gridded.py       | 2 +-
 gridded/pyugrid/ugrid.py | 4 ++--
 gridded/utilities.py     | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index d8fc34e..36df95c 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -217,7 +217,7 @@ class Dataset:
             raise ValueError(f"format: {format} not supported. Options are: {format_options}")
 
         # create an ncdataset
-        ncds = get_writable_dataset(filename)
+        ncds = get_writable_dataset(filename, format)
 
         # Save the grid and variables
         self.grid.save(ncds, format="netcdf4", variables=self.variables)
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index f91a71d..d451e0e 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1010,7 +1010,7 @@ class UGrid:
         :param format: format to save -- 'netcdf3' or 'netcdf4'
                        are the only options at this point.
         """
-        self.save(filename, format="netcdf4")
+        self.save(filename, format=format)
 
     def save(self, filepath, format="netcdf4", variables={}):
         """
@@ -1034,7 +1034,7 @@ class UGrid:
 
         mesh_name = self.mesh_name
 
-        nclocal = get_writable_dataset(filepath)
+        nclocal = get_writable_dataset(filepath, format)
 
         nclocal.createDimension(mesh_name + "_num_node", len(self.nodes))
         if self._edges is not None:
diff --git a/gridded/utilities.py b/gridded/utilities.py
index ab5dafc..1810039 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -445,8 +445,8 @@ def get_writable_dataset(ncfile, format="netcdf4"):
         # fixme: check for writable
         return ncfile
     elif isstring(ncfile):  # Fixme: should be pathlike...
-        print("filename is:", ncfile)
-        return nc4.Dataset(ncfile, mode="w", clobber=True, format="NETCDF4")
+        nc_format = {"netcdf3": "NETCDF3_64BIT_OFFSET", "netcdf4": "NETCDF4"}[format]
+        return nc4.Dataset(ncfile, mode="w", clobber=True, format=nc_format)
     else:
         raise ValueError("Must be a string path or a netcdf4 Dataset")
 
-- 
2.43.0


From 372276974869b21e4feba6b5c7d31e9bc41f962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:40 +0000
Subject: [PATCH 41/81] fix: Grid.from_netCDF reads the grid from the dataset
 it is given, not from the file of that name

---
 gridded/grids.py     | 6 +++++-
 gridded/utilities.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index bb380c6..c481b57 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -500,7 +500,11 @@ class Grid:
         Redirect to grid-specific loading routine.
         """
         if issubclass(grid_type, UGrid):
-            return grid_type.from_ncfile(filename=filename, dataset=dataset)
+            if dataset is None:
+                return grid_type.from_ncfile(filename=filename)
+            g = grid_type.from_nc_dataset(dataset)
+            g.filename = filename
+            return g
         elif issubclass(grid_type, SGrid):
             ds = get_dataset(filename, dataset)
             g = grid_type.load_grid(ds)
diff --git a/gridded/utilities.py b/gridded/utilities.py
index 1810039..a2be5e1 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -416,7 +416,8 @@ def parse_filename_dataset_args(
             filename = os.fspath(filename)
         except TypeError:
             pass
-        data_file = grid_file = filename
+        if dataset is None:  # it takes precedence over the filename
+            data_file = grid_file = filename
     if dataset is None:
         if grid_file == data_file:
             ds = dg = get_dataset(grid_file)
-- 
2.43.0


From a512e99c095fa483eec5ec7dd76b5a1405c1b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:23 +0000
Subject: [PATCH 42/81] fix: Dataset.from_netCDF accepts a list of files, as
 documented

---
 gridded/gridded.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index 36df95c..bcea7f0 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -10,6 +10,8 @@ The core class that encapsulates the gridded data model
 
 import warnings
 
+import netCDF4 as nc4
+
 from gridded.grids import Grid
 from gridded.utilities import (
     get_dataset,
@@ -94,7 +96,10 @@ class Dataset:
             raise NotImplementedError("Loading from separate netcdf files is not yet supported")
 
         self.nc_dataset = get_dataset(filename)
-        self.filename = self.nc_dataset.filepath()
+        if isinstance(self.nc_dataset, nc4.MFDataset):  # not a single file
+            self.filename = None if filename is self.nc_dataset else filename
+        else:
+            self.filename = self.nc_dataset.filepath()
         self.grid = Grid.from_netCDF(filename=self.filename,
                                      dataset=self.nc_dataset,
                                      grid_topology=grid_topology)
-- 
2.43.0


From d5bb412d9de7f3edf45d34de98ede6c963d67429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:32 +0000
Subject: [PATCH 43/81] fix: a flexible mesh whose unused face entries hide
 other data than -1 (as after loading from file) no longer crashes the cell
 tree

---
 gridded/pyugrid/ugrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index d451e0e..117bb2b 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -687,7 +687,9 @@ class UGrid:
 
         if self.nodes is None or self.faces is None:
             raise ValueError("Nodes and faces must be defined in order to create and use CellTree")
-        self._cell_tree = CellTree(self.nodes, self.faces)
+        # the cell tree takes no masks: unused entries have to be -1,
+        # whatever the data underneath the mask
+        self._cell_tree = CellTree(self.nodes, np.ma.filled(self.faces, -1))
 
     def interpolation_alphas(self, points, indices=None, _copy=False, _memo=True, _hash=None):
         """
-- 
2.43.0


From 27a1a697a65c59b8c9edfd95e07e1e81f94fe8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:12 +0000
Subject: [PATCH 44/81] fix: an unstated start index of face-face or face-edge
 connectivity is not judged by the number of nodes

---
 gridded/pyugrid/read_netcdf.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 9df0826..d4ca111 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -211,6 +211,7 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
         setattr(grid, defs["grid_attr"], nodes)
 
     # Load assorted connectivity arrays.
+    faces_start_index = 0  # what it was found to be, if not stated
     for defs in grid_defs:
         try:
             try:
@@ -231,10 +232,19 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
             try:
                 start_index = int(var.start_index)
             except AttributeError:
-                if array.max() == grid.nodes.shape[0]:
-                    start_index = 1
+                # Not stated: it is one if an index is beyond the last of what is
+                # indexed. If that does not tell: the same as the faces' own.
+                role = defs["role"]
+                if role.endswith("node_connectivity"):
+                    number, start_index = grid.nodes.shape[0], 0
+                elif role == "face_face_connectivity":
+                    number, start_index = array.shape[0], faces_start_index
                 else:
-                    start_index = 0
+                    number, start_index = None, faces_start_index
+                if number is not None and array.max() == number:
+                    start_index = 1
+                if defs["grid_attr"] == "faces":
+                    faces_start_index = start_index
             if start_index >= 1:
                 array -= start_index
                 # Check for flag value.
-- 
2.43.0


From 30daffd40424c434bd7466e604d6f93d0d8eec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:54 +0000
Subject: [PATCH 45/81] fix: honour grid_type in any case and rectangular names
 in files without a topology; composite node names of a topology

---
 gridded/grids.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index c481b57..6646cc7 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -87,7 +87,7 @@ class GridBase:
                 if n in node_attrs:
                     init_args[n] = gf_vars[v][:]
                 if n in composite_node_names:
-                    v = gf_vars[n][:].reshape(-1, 2)
+                    v = gf_vars[v][:].reshape(-1, 2)
                     init_args[node_attrs[0]] = v[:, 0]
                     init_args[node_attrs[1]] = v[:, 1]
             gt = grid_topology
@@ -614,19 +614,18 @@ class Grid:
                 return Grid_S
         else:
             # no topology, so search dataset for grid_type variable
-            if hasattr(dataset, "grid_type") and dataset.grid_type in sgrid_names + ugrid_names:
-                if dataset.grid_type.lower() in ugrid_names:
-                    return Grid_U
-                elif dataset.grid_type.lower() in rgrid_names:
-                    return Grid_R
-                else:
-                    return Grid_S
+            file_type = str(getattr(dataset, "grid_type", "")).lower()
+            topology = Grid._find_topology_var(None, dataset=dataset)
+            if file_type in ugrid_names:
+                return Grid_U
+            elif file_type in sgrid_names:
+                return Grid_S
+            elif file_type in rgrid_names and topology is None:
+                return Grid_R
             else:
                 # TODO: Determine an effective decision tree for picking if
                 #       a topology variable is present
                 # no grid type explicitly specified. is a topology variable present?
-                topology = Grid._find_topology_var(None, dataset=dataset)
-
                 if topology is not None:
                     if hasattr(topology, "node_coordinates") and not hasattr(topology, "node_dimensions"):
                         return Grid_U
-- 
2.43.0


From 7f907f2f91f52c0c23194bb707df589b1b415e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:59 +0000
Subject: [PATCH 46/81] fix: angles of an SGRID file without cell centers are
 absent rather than an error

---
 gridded/pysgrid/sgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 93a22eb..8758710 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1457,6 +1457,8 @@ class SGridAttributes:
         if not angles:
             # FIXME: Get rid of pair_arrays.
             center_lon, center_lat = self.get_cell_center_lat_lon()
+            if center_lon is None:
+                return None  # the centers are optional
             cell_centers = pair_arrays(center_lon, center_lat)
             centers_start = cell_centers[..., :-1, :]
             centers_end = cell_centers[..., 1:, :]
-- 
2.43.0


From 4e20bcf0f1e2b85bb913d9ab7dccfc6b9c8ad9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:03 +0000
Subject: [PATCH 47/81] fix: padding of SGRID files without vertical dimensions
 or face paddings

---
 gridded/pysgrid/sgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 8758710..4019394 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -254,7 +254,7 @@ class SGrid:
         return msg
 
     def get_all_face_padding(self):
-        if self.face_padding is not None:
+        if self._face_padding is not None:
             all_face_padding = self._face_padding
         else:
             all_face_padding = []
@@ -270,7 +270,7 @@ class SGrid:
 
     def all_padding(self):
         all_padding = self.get_all_face_padding() + self.get_all_edge_padding()
-        if self.vertical_padding is not None:
+        if self._vertical_padding is not None:
             all_padding += self._vertical_padding
         return all_padding
 
-- 
2.43.0


From c655e9f6637cd2794a936473989de1d82eefe70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:07 +0000
Subject: [PATCH 48/81] fix: variables of an SGRID file no longer replace grid
 attributes of the same name

---
 gridded/pysgrid/sgrid.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 4019394..319463d 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -141,6 +141,8 @@ class SGrid:
         self.use_masked_boundary = use_masked_boundary
         self._l_coeffs = None
         self._m_coeffs = None
+        # the variables of the file the grid was loaded from
+        self._file_variables = {}
 
         # used for nearest neighbor interpolation
         self._kd_trees = {}
@@ -420,8 +422,8 @@ class SGrid:
             nc_file.createDimension(dim_name, dim_size)
         # Create variables.
         center_lon, center_lat = self.face_coordinates
-        center_lon_obj = getattr(self, center_lon)
-        center_lat_obj = getattr(self, center_lat)
+        center_lon_obj = self._file_variables[center_lon]
+        center_lat_obj = self._file_variables[center_lat]
         center_lon = nc_file.createVariable(center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions)
         center_lat = nc_file.createVariable(center_lat_obj.variable, center_lat_obj.dtype, center_lat_obj.dimensions)
         center_lon[:] = self.center_lon[:]
@@ -431,13 +433,13 @@ class SGrid:
         except TypeError:
             pass
         else:
-            node_lon_obj = getattr(self, node_lon)
+            node_lon_obj = self._file_variables[node_lon]
             grid_node_lon = nc_file.createVariable(node_lon_obj.variable, node_lon_obj.dtype, node_lon_obj.dimensions)
-            node_lat_obj = getattr(self, node_lat)
+            node_lat_obj = self._file_variables[node_lat]
             grid_node_lat = nc_file.createVariable(node_lat_obj.variable, node_lat_obj.dtype, node_lat_obj.dimensions)
             grid_node_lon[:] = self.node_lon[:]
             grid_node_lat[:] = self.node_lat[:]
-        grid_var_obj = getattr(self, grid_var)
+        grid_var_obj = self._file_variables[grid_var]
         grid_vars = nc_file.createVariable(grid_var_obj.variable, grid_var_obj.dtype)
         grid_vars.cf_role = "grid_topology"
         grid_vars.topology_dimension = self.topology_dimension
@@ -458,7 +460,7 @@ class SGrid:
             if self.angles is not None:
                 grid_angle[:] = self.angles[:]
         for dataset_variable in self.variables:
-            dataset_var_obj = getattr(self, dataset_variable)
+            dataset_var_obj = self._file_variables[dataset_variable]
             try:
                 dataset_grid_var = nc_file.createVariable(
                     dataset_var_obj.variable, dataset_var_obj.dtype, dataset_var_obj.dimensions
@@ -1445,7 +1447,10 @@ class SGridAttributes:
         for nc_variable in nc_variables:
             nc_var = nc_variables[nc_variable]
             sgrid_var = SGridVariable.create_variable(nc_var, sgrid)
-            setattr(sgrid, sgrid_var.variable, sgrid_var)
+            sgrid._file_variables[sgrid_var.variable] = sgrid_var
+            # the grid's own attributes are not to be replaced by variables of the same name
+            if sgrid_var.variable not in vars(sgrid) and not hasattr(type(sgrid), sgrid_var.variable):
+                setattr(sgrid, sgrid_var.variable, sgrid_var)
             dataset_variables.append(nc_var.name)
             if hasattr(nc_var, "grid"):
                 grid_variables.append(nc_var.name)
-- 
2.43.0


From f2dfd05d03c9d2c73ae9bb41e03407e612d5727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:11 +0000
Subject: [PATCH 49/81] fix: explicit dataset, data_file and grid_file take
 precedence over filename, as documented

---
 gridded/utilities.py |  5 +++--
 gridded/variable.py  | 14 ++++++--------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index a2be5e1..f985b36 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -416,8 +416,9 @@ def parse_filename_dataset_args(
             filename = os.fspath(filename)
         except TypeError:
             pass
-        if dataset is None:  # it takes precedence over the filename
-            data_file = grid_file = filename
+        if dataset is None:  # it takes precedence over the filename, as the others do
+            data_file = filename if data_file is None else data_file
+            grid_file = filename if grid_file is None else grid_file
     if dataset is None:
         if grid_file == data_file:
             ds = dg = get_dataset(grid_file)
diff --git a/gridded/variable.py b/gridded/variable.py
index eebc2db..852913f 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -227,13 +227,12 @@ class Variable:
         Grid = cls._default_component_types["grid"]
         Time = cls._default_component_types["time"]
         Depth = cls._default_component_types["depth"]
-        if filename is not None:
-            data_file = filename
-            grid_file = filename
-
         ds, dg = parse_filename_dataset_args(
             filename=filename, dataset=dataset, grid_file=grid_file, data_file=data_file
         )
+        if filename is not None:  # the default: the others take precedence
+            data_file = filename if data_file is None else data_file
+            grid_file = filename if grid_file is None else grid_file
 
         if grid is None:
             grid = Grid.from_netCDF(grid_file, dataset=dg, grid_topology=grid_topology)
@@ -985,13 +984,12 @@ class VectorVariable:
         Time = cls._default_component_types["time"]
         Variable = cls._default_component_types["variable"]
         Depth = cls._default_component_types["depth"]
-        if filename is not None:
-            data_file = filename
-            grid_file = filename
-
         ds, dg = parse_filename_dataset_args(
             filename=filename, dataset=dataset, grid_file=grid_file, data_file=data_file
         )
+        if filename is not None:  # the default: the others take precedence
+            data_file = filename if data_file is None else data_file
+            grid_file = filename if grid_file is None else grid_file
 
         if grid is None:
             grid = Grid.from_netCDF(grid_file, dataset=dg, grid_topology=grid_topology)
-- 
2.43.0


From 86303481cba206fea275c8560714746549282438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:17 +0000
Subject: [PATCH 50/81] fix: variables found by name take precedence over long
 and standard names

---
 gridded/utilities.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index f985b36..136352b 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -468,17 +468,24 @@ def search_netcdf_vars(cls=None, ds=None, dg=None):
     netCDF4.Dataset and a possible grid netCDF4.Dataset for variables that are sought by
     the class
     """
-    vn_search = search_dataset_for_variables_by_varname(ds, cls.default_names)
-    ds_search = search_dataset_for_variables_by_longname(ds, cls.cf_names)
-    found_vars = merge_var_search_dicts(ds_search, vn_search)
+    found_vars = _search_dataset_vars(cls, ds)
     if ds != dg:
-        dg_vn_search = search_dataset_for_variables_by_varname(dg, cls.default_names)
-        dg_ln_search = search_dataset_for_variables_by_longname(dg, cls.cf_names)
-        dg_search = merge_var_search_dicts(dg_ln_search, dg_vn_search)
-        found_vars = merge_var_search_dicts(found_vars, dg_search)
+        found_vars = merge_var_search_dicts(found_vars, _search_dataset_vars(cls, dg))
     return found_vars
 
 
+def _search_dataset_vars(cls, ds):
+    """
+    Search one dataset: the names take precedence over the long and standard names, as
+    variables can share these. A variable that is known by its name is nothing else.
+    """
+    by_name = search_dataset_for_variables_by_varname(ds, cls.default_names)
+    by_longname = search_dataset_for_variables_by_longname(ds, cls.cf_names)
+    known = [v for v in by_name.values() if v is not None]
+    by_longname = {k: None if any(v is n for n in known) else v for k, v in by_longname.items()}
+    return merge_var_search_dicts(by_name, by_longname)
+
+
 def can_create_class(cls, ds=None, dg=None):
     found_vars = search_netcdf_vars(cls, ds, dg)
     # all variables must be found (no None values)
-- 
2.43.0


From 66cda44e2f1ec14076cdbf4018638e3d8dcb08fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:24 +0000
Subject: [PATCH 51/81] fix: paddings of an SGRID file apply to the array axes
 of their dimensions, not in the order stated

---
 gridded/pysgrid/sgrid.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 319463d..dbf9ab0 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -141,6 +141,8 @@ class SGrid:
         self.use_masked_boundary = use_masked_boundary
         self._l_coeffs = None
         self._m_coeffs = None
+        # node dimensions of the file the grid was loaded from, in the order of the arrays
+        self._array_dimensions = None
         # the variables of the file the grid was loaded from
         self._file_variables = {}
 
@@ -239,6 +241,8 @@ class SGrid:
             vertical_dimensions=vertical_dimensions,
             vertical_padding=vertical_padding,
         )
+        if node_coordinates is not None:
+            sgrid._array_dimensions = nc[node_coordinates[0]].dimensions
         sa.get_variable_attributes(sgrid)
         return sgrid
 
@@ -304,6 +308,20 @@ class SGrid:
     def centers(self):
         return np.stack((self.center_lon, self.center_lat), axis=-1)
 
+    def _padding_by_axis(self, paddings, axes):
+        """
+        The padding types read from a file, by axis of the arrays: files state them by the
+        name of the node dimension, in the order (x, y) whatever the order of the arrays.
+
+        :param axes: axes of the paddings, where the order of the dimensions is not known
+        """
+        rv = [None, None]
+        for padding, axis in zip(paddings, axes + tuple(ax for ax in (0, 1) if ax not in axes)):
+            if self._array_dimensions is not None and padding.node_dim in self._array_dimensions:
+                axis = self._array_dimensions.index(padding.node_dim)
+            rv[axis] = padding.padding
+        return tuple(rv)
+
     @property
     def node_padding(self):
         if hasattr(self, "_node_padding") and self._node_padding:
@@ -319,7 +337,7 @@ class SGrid:
     def face_padding(self):
         if hasattr(self, "_face_padding") and self._face_padding:
             if isinstance(self._face_padding[0], GridPadding):
-                return (self._face_padding[0].padding, self._face_padding[1].padding)
+                return self._padding_by_axis(self._face_padding, (0, 1))
             else:
                 return self._face_padding
         elif hasattr(self, "center_lon") and self.center_lon is not None:
@@ -351,7 +369,7 @@ class SGrid:
     def edge1_padding(self):
         if hasattr(self, "_edge1_padding") and self._edge1_padding:
             if isinstance(self._edge1_padding[0], GridPadding):
-                return (self._edge1_padding[0].padding, None)
+                return self._padding_by_axis(self._edge1_padding, (0,))
             else:
                 return self._edge1_padding
         else:
@@ -365,7 +383,7 @@ class SGrid:
     def edge2_padding(self):
         if hasattr(self, "_edge2_padding") and self._edge2_padding:
             if isinstance(self._edge2_padding[0], GridPadding):
-                return (None, self._edge2_padding[0].padding)
+                return self._padding_by_axis(self._edge2_padding, (1,))
             else:
                 return self._edge2_padding
         else:
-- 
2.43.0


From 2d495688c55c6901618dee2d7de5c80f53aba39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:29 +0000
Subject: [PATCH 52/81] fix: high padding of an SGRID file trims the last entry

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index dbf9ab0..e3fd0c6 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -23,7 +23,7 @@ edge2_alternate_names = ["edge2", "v"]
 
 
 class SGrid:
-    padding_slices = {"both": (1, -1), "none": (None, None), "low": (1, None), "high": (None, 1)}
+    padding_slices = {"both": (1, -1), "none": (None, None), "low": (1, None), "high": (None, -1)}
 
     topology_dimension = 2
 
-- 
2.43.0


From 73910e7390a14013d2c1ab611c26569a8113a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 53/81] fix: trim and average edge variables that have a node
 dimension along the edge

---
 gridded/pysgrid/utils.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/gridded/pysgrid/utils.py b/gridded/pysgrid/utils.py
index e52b62c..c3b1a0d 100644
--- a/gridded/pysgrid/utils.py
+++ b/gridded/pysgrid/utils.py
@@ -95,13 +95,9 @@ def determine_variable_slicing(sgrid_obj, nc_variable, method="center"):
     if grid_variables is None:
         grid_variables = []
     var_dims = nc_variable.dimensions
-    node_dims = tuple(sgrid_obj.node_dimensions.split(" "))
-    separate_edge_dim_exists = does_intersection_exist(var_dims, node_dims)
     slice_indices = tuple()
-    if separate_edge_dim_exists:
-        padding = sgrid_obj._face_padding
-    else:
-        padding = sgrid_obj.all_padding()
+    # an edge may have the node dimension along itself, and a padded one of its own across
+    padding = sgrid_obj.all_padding()
     if method == "center":
         for var_dim in var_dims:
             try:
@@ -128,12 +124,8 @@ def infer_avg_axes(sgrid_obj, nc_var_obj):
 
     """
     var_dims = nc_var_obj.dimensions
-    node_dimensions = tuple(sgrid_obj.node_dimensions.split(" "))
-    separate_edge_dim_exists = does_intersection_exist(node_dimensions, var_dims)  # noqa
-    if separate_edge_dim_exists:
-        padding = sgrid_obj.get_all_face_padding()
-    else:
-        padding = sgrid_obj.get_all_face_padding() + sgrid_obj.get_all_edge_padding()  # noqa
+    # an edge may have the node dimension along itself, and a padded one of its own across
+    padding = sgrid_obj.get_all_face_padding() + sgrid_obj.get_all_edge_padding()  # noqa
     # Define center averaging axis for a variable.
     for var_dim in var_dims:
         try:
-- 
2.43.0


From 06bb4904ccfa9ec8472abee9756889fb00918fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 54/81] fix: masks of an SGRID file are told by dimensions, as
 shapes coincide

---
 gridded/pysgrid/sgrid.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index e3fd0c6..c4d8aac 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1529,25 +1529,30 @@ class SGridAttributes:
         return edge2_lon, edge2_lat
 
     def get_masks(self, node, center, edge1, edge2):
-        node_shape = node.shape if node is not None and node.shape else None
-        center_shape = center.shape if center is not None and center.shape else None
-        edge1_shape = edge1.shape if edge1 is not None and edge1.shape else None
-        edge2_shape = edge2.shape if edge2 is not None and edge2.shape else None
+        """
+        The masks of the nodes, centers and edges: those on the dimensions of the coordinates
+        (the shape does not tell, as some of them may have the same one)
+        """
+        coordinates = (
+            (node, self.get_node_coordinates()[1]),
+            (center, self.get_attr_coordinates("face_coordinates")),
+            (edge1, self.get_attr_coordinates("edge1_coordinates")),
+            (edge2, self.get_attr_coordinates("edge2_coordinates")),
+        )
         mask_candidates = [
-            var.name
+            var
             for var in self.nc.variables.values()
             if "mask" in var.name or (hasattr(var, "long_name") and "mask" in var.long_name)
         ]
-        node_mask = center_mask = edge1_mask = edge2_mask = None
-        for mc in mask_candidates:
-            if node_shape and self.nc.variables[mc].shape == node_shape and node_mask is None:
-                node_mask = self.nc.variables[mc]  # do not [:] mask variables. They contain important metadata
-            if center_shape and self.nc.variables[mc].shape == center_shape and center_mask is None:
-                center_mask = self.nc.variables[mc]
-            if edge1_shape and self.nc.variables[mc].shape == edge1_shape and edge1_mask is None:
-                edge1_mask = self.nc.variables[mc]
-            if edge2_shape and self.nc.variables[mc].shape == edge2_shape and edge2_mask is None:
-                edge2_mask = self.nc.variables[mc]
+        masks = []
+        for lon, names in coordinates:
+            mask = None
+            if lon is not None and lon.shape:
+                dims = self.nc[names[0]].dimensions
+                # do not [:] mask variables. They contain important metadata
+                mask = next((var for var in mask_candidates if var.dimensions == dims), None)
+            masks.append(mask)
+        node_mask, center_mask, edge1_mask, edge2_mask = masks
 
         return node_mask, center_mask, edge1_mask, edge2_mask
 
-- 
2.43.0


From e84ec96291161cbc6f5d21e1c23a826f5da6bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:43 +0000
Subject: [PATCH 55/81] fix: accept any blanks in SGRID attributes

---
 gridded/pysgrid/read_netcdf.py | 6 +++---
 gridded/pysgrid/sgrid.py       | 4 ++--
 gridded/pysgrid/utils.py       | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gridded/pysgrid/read_netcdf.py b/gridded/pysgrid/read_netcdf.py
index 03d5869..8ded904 100644
--- a/gridded/pysgrid/read_netcdf.py
+++ b/gridded/pysgrid/read_netcdf.py
@@ -60,7 +60,7 @@ def parse_padding(padding_str, mesh_topology_var):
     :rtype: list.
 
     """
-    p = re.compile(r"([a-zA-Z0-9_]+:) ([a-zA-Z0-9_]+) (\(padding: [a-zA-Z]+\))")
+    p = re.compile(r"([a-zA-Z0-9_]+:)\s+([a-zA-Z0-9_]+)\s+(\(padding:\s*[a-zA-Z]+\s*\))")
     padding_matches = p.findall(padding_str)
     padding_type_list = []
     for padding_match in padding_matches:
@@ -133,7 +133,7 @@ class NetCDFDataset:
 
         """
         nc_vars = self.nc.variables
-        node_dims = node_dimensions.split(" ")
+        node_dims = node_dimensions.split()
         node_dim_set = set(node_dims)
         x_node_coordinate = None
         y_node_coordinate = None
@@ -231,7 +231,7 @@ class NetCDFDataset:
                     else:
                         z_coordinate = pc_name  # this might not always work...
             else:
-                lvc_split = location_var_coordinates.strip().split(" ")
+                lvc_split = location_var_coordinates.split()
                 for lvc in lvc_split:
                     var_coord = nc_vars[lvc]
                     try:
diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index c4d8aac..5763c92 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1441,7 +1441,7 @@ class SGridAttributes:
             location_name = attr_name.split("_")[0]
             attr_coordinates = self.ncd.find_coordinates_by_location(location_name, self.topology_dim)  # noqa
         else:
-            attr_coordinates_val = attr_coordinates_raw.split(" ")
+            attr_coordinates_val = attr_coordinates_raw.split()
             attr_coordinates = tuple(attr_coordinates_val)
         return attr_coordinates
 
@@ -1454,7 +1454,7 @@ class SGridAttributes:
             grid_cell_node_vars = self.ncd.find_node_coordinates(node_dimensions)  # noqa
             node_coordinates = grid_cell_node_vars
         else:
-            node_coordinate_val = node_coordinates.split(" ")
+            node_coordinate_val = node_coordinates.split()
             node_coordinates = tuple(node_coordinate_val)
         return node_dimensions, node_coordinates
 
diff --git a/gridded/pysgrid/utils.py b/gridded/pysgrid/utils.py
index c3b1a0d..8b090e0 100644
--- a/gridded/pysgrid/utils.py
+++ b/gridded/pysgrid/utils.py
@@ -153,7 +153,7 @@ def infer_avg_axes(sgrid_obj, nc_var_obj):
 
 
 def infer_variable_location(sgrid, variable):
-    node_dims_val = sgrid.node_dimensions.split(" ")
+    node_dims_val = sgrid.node_dimensions.split()
     node_dims = tuple(node_dims_val)
     face_dims = tuple([f.face_dim for f in sgrid.get_all_face_padding()])
     try:
-- 
2.43.0


From ed2187aaece74f26b9606ca0f2a06d78a3a2d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:48 +0000
Subject: [PATCH 56/81] fix: saving an SGRID grid keeps edge coordinates, masks
 and their meaning, and files without centers

---
 gridded/pysgrid/sgrid.py | 79 ++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 24 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 5763c92..bbef4cd 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -289,7 +289,8 @@ class SGrid:
         with Dataset(filepath, "w") as nclocal:
             grid_vars = self._save_common_components(nclocal)
             # Add attributes to the grid_topology variable.
-            grid_vars.face_dimensions = self.face_dimensions
+            if self.face_dimensions is not None:
+                grid_vars.face_dimensions = self.face_dimensions
             if self.vertical_dimensions is not None:
                 grid_vars.vertical_dimensions = self.vertical_dimensions
             if self.face_coordinates is not None:
@@ -432,6 +433,41 @@ class SGrid:
             location = None
         return location
 
+    @staticmethod
+    def _save_coordinate(nc_file, file_var, data):
+        """
+        Write a variable of the grid, as it is now (its packing in the original file may not fit)
+        """
+        nc_var = nc_file.createVariable(file_var.variable, data.dtype, file_var.dimensions)
+        for attr in ("standard_name", "long_name", "units", "axis", "coordinates", "grid", "location"):
+            value = getattr(file_var.data, attr, None)
+            if value is not None:
+                nc_var.setncattr(attr, value)
+        nc_var[:] = data
+
+    @staticmethod
+    def _save_mask(nc_file, mask, default_name, dimensions):
+        """
+        Write a mask, with the attributes that say what its values mean
+        """
+        if hasattr(mask, "ncattrs"):
+            if mask.name in nc_file.variables:
+                return
+            nc_var = nc_file.createVariable(
+                mask.name, mask.dtype, mask.dimensions, fill_value=getattr(mask, "_FillValue", None)
+            )
+            nc_var.setncatts({attr: mask.getncattr(attr) for attr in mask.ncattrs() if attr != "_FillValue"})
+            scale, automask = mask.scale, mask.mask
+            mask.set_auto_maskandscale(False)
+            nc_var.set_auto_maskandscale(False)
+            nc_var[:] = mask[:]
+            mask.set_auto_scale(scale)
+            mask.set_auto_mask(automask)
+        else:
+            mask = np.ma.asarray(mask)
+            nc_var = nc_file.createVariable(default_name, "i1" if mask.dtype == bool else mask.dtype, dimensions)
+            nc_var[:] = mask
+
     def _save_common_components(self, nc_file):
         grid_var = self.grid_topology_var
         # Create dimensions.
@@ -439,24 +475,19 @@ class SGrid:
             dim_name, dim_size = grid_dim
             nc_file.createDimension(dim_name, dim_size)
         # Create variables.
-        center_lon, center_lat = self.face_coordinates
-        center_lon_obj = self._file_variables[center_lon]
-        center_lat_obj = self._file_variables[center_lat]
-        center_lon = nc_file.createVariable(center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions)
-        center_lat = nc_file.createVariable(center_lat_obj.variable, center_lat_obj.dtype, center_lat_obj.dimensions)
-        center_lon[:] = self.center_lon[:]
-        center_lat[:] = self.center_lat[:]
-        try:
-            node_lon, node_lat = self.node_coordinates
-        except TypeError:
-            pass
-        else:
-            node_lon_obj = self._file_variables[node_lon]
-            grid_node_lon = nc_file.createVariable(node_lon_obj.variable, node_lon_obj.dtype, node_lon_obj.dimensions)
-            node_lat_obj = self._file_variables[node_lat]
-            grid_node_lat = nc_file.createVariable(node_lat_obj.variable, node_lat_obj.dtype, node_lat_obj.dimensions)
-            grid_node_lon[:] = self.node_lon[:]
-            grid_node_lat[:] = self.node_lat[:]
+        for names, lon, lat, mask, mask_name in (
+            (self.face_coordinates, self.center_lon, self.center_lat, self.center_mask, "center_mask"),
+            (self.node_coordinates, self.node_lon, self.node_lat, self.node_mask, "node_mask"),
+            (self.edge1_coordinates, self.edge1_lon, self.edge1_lat, self.edge1_mask, "edge1_mask"),
+            (self.edge2_coordinates, self.edge2_lon, self.edge2_lat, self.edge2_mask, "edge2_mask"),
+        ):
+            if names is None:
+                continue
+            for name, data in zip(names, (lon, lat)):
+                if data is not None and name not in nc_file.variables:
+                    self._save_coordinate(nc_file, self._file_variables[name], data[:])
+            if mask is not None:
+                self._save_mask(nc_file, mask, mask_name, self._file_variables[names[0]].dimensions)
         grid_var_obj = self._file_variables[grid_var]
         grid_vars = nc_file.createVariable(grid_var_obj.variable, grid_var_obj.dtype)
         grid_vars.cf_role = "grid_topology"
@@ -472,11 +503,9 @@ class SGrid:
             grid_vars.edge1_coordinates = " ".join(self.edge1_coordinates)
         if self.edge2_coordinates is not None:
             grid_vars.edge2_coordinates = " ".join(self.edge2_coordinates)
-        if hasattr(self, "angle"):
-            angle_obj = getattr(self, "angle", None)
-            grid_angle = nc_file.createVariable(angle_obj.variable, angle_obj.dtype, angle_obj.dimensions)
-            if self.angles is not None:
-                grid_angle[:] = self.angles[:]
+        angle_obj = self._file_variables.get("angle")
+        if angle_obj is not None and self.angles is not None:
+            self._save_coordinate(nc_file, angle_obj, self.angles[:])
         for dataset_variable in self.variables:
             dataset_var_obj = self._file_variables[dataset_variable]
             try:
@@ -489,6 +518,8 @@ class SGrid:
                 axes = []
                 if dataset_var_obj.grid is not None:
                     dataset_grid_var.grid = grid_var
+                if dataset_var_obj.location is not None:
+                    dataset_grid_var.location = dataset_var_obj.location
                 if dataset_var_obj.standard_name is not None:
                     dataset_grid_var.standard_name = dataset_var_obj.standard_name  # noqa
                 if dataset_var_obj.coordinates is not None:
-- 
2.43.0


From c2dd9d5b00e33b6e7b4d9477459e40d9685bb241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:39 +0000
Subject: [PATCH 57/81] fix: verdat boundaries whose segments attach before the
 first one

---
 gridded/io/verdat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/io/verdat.py b/gridded/io/verdat.py
index e215f17..b598fd1 100644
--- a/gridded/io/verdat.py
+++ b/gridded/io/verdat.py
@@ -175,7 +175,7 @@ def order_boundary_segments(bound_segs):
                     bound.append(p0)
                     bound_segs.pop(i)
                 elif p0 == bound[0]:
-                    bound.insert(p1)
+                    bound.insert(0, p1)
                     bound_segs.pop(i)
                 elif p1 == bound[0]:
                     bound.insert(0, p0)
-- 
2.43.0


From a7f4fad2ffb8079058aeda6ed3e993a5a09a286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 58/81] fix: save verdat files for data that state no units

---
 gridded/io/verdat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/io/verdat.py b/gridded/io/verdat.py
index b598fd1..c970a4d 100644
--- a/gridded/io/verdat.py
+++ b/gridded/io/verdat.py
@@ -19,6 +19,7 @@ FEET = ("foot", "ft", "feet")
 METER = ("meter", "m", "meters", "metre")
 UNITS_MAP = {u: "FEET" for u in FEET}
 UNITS_MAP.update({u: "METERS" for u in METER})
+UNITS_MAP[""] = ""  # a file may not state the units
 
 
 def load_verdat(filename):
@@ -106,7 +107,7 @@ def save_verdat(ds, filename, depth_var="depth"):
         depth_units = ""
     else:
         depth = ds[depth_var]
-        depth_units = UNITS_MAP[depth.units.strip().lower()]
+        depth_units = UNITS_MAP[(depth.units or "").strip().lower()]
     f_string = "{0:4d}, {1:10.6f}, {2:10.6f}, {3:8.3f}\n"
 
     with open(filename, "w") as outfile:
-- 
2.43.0


From 9767b762aa2cb7b57e4ec8e20a932bc4295c0f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:48 +0000
Subject: [PATCH 59/81] fix: 'river' in flag_meanings means water, as
 documented

---
 gridded/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 136352b..ceb4339 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -52,7 +52,7 @@ def convert_mask_to_numpy_mask(mask_var):
         # CF Conventions 3.5 places no case requirement on flag_meanings, so
         # "Land Water" is valid metadata. Lowercase before the substring test
         # so capitalized words are recognized as water/lake.
-        meaning_mask = [False if ("water" in s.lower() or "lake" in s.lower()) else True for s in fm]
+        meaning_mask = [False if any(wet in s.lower() for wet in ("water", "lake", "river")) else True for s in fm]
         tfmap = dict(zip(fv, meaning_mask))
         for k, v in tfmap.items():
             ret_mask[mask_data == k] = v
-- 
2.43.0


From d004819e8c687bab981bc1494968108005855245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 60/81] fix: comma-separated flag_meanings and flag_values, and
 a single flag value

---
 gridded/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index ceb4339..39b176a 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -33,11 +33,12 @@ def convert_mask_to_numpy_mask(mask_var):
         fm = mask_var.flag_meanings
         fv = mask_var.flag_values
         try:
-            fm = fm.split()
+            fm = fm.replace(",", " ").split()
         except AttributeError:
             pass  # must not be a string -- we assume it's a sequence already
+        fv = fv if isinstance(fv, str) else np.atleast_1d(fv)  # there may be a single one
         try:
-            fv = fv.split()
+            fv = fv.replace(",", " ").split()
         except AttributeError:
             pass
         else:
-- 
2.43.0


From cfc12126d43736af657c5d6e487d1adb2dac78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 61/81] fix: the missing values of a plain mask are masked

---
 gridded/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 39b176a..4f63f71 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -65,7 +65,7 @@ def convert_mask_to_numpy_mask(mask_var):
         for k, v in tfmap.items():
             ret_mask[mask_data == k] = v
     else:
-        ret_mask[:] = mask_data
+        ret_mask[:] = np.ma.filled(mask_data, True)  # missing values are no water
 
     return ret_mask
 
-- 
2.43.0


From ac3cbcdfb159b7f8a0d90f18f5c9f5f33ad81534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:16 +0000
Subject: [PATCH 62/81] fix: UGrid.save writes the units of a variable that has
 them without such an attribute

---
 gridded/pyugrid/ugrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 117bb2b..6a6a152 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1253,5 +1253,7 @@ class UGrid:
                 # those that say where the data are in this file are already there
                 if att_name not in ("location", "mesh", "coordinates", "_FillValue"):
                     setattr(data_var, att_name, att_value)
+            if "units" not in var.attributes and getattr(var, "units", None) is not None:
+                data_var.units = var.units
             # after the attributes, as they may say how the data are packed
             data_var[:] = var.data[:]
-- 
2.43.0


From f97ac5b4920703f52b07136e7157d56a5089256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:20 +0000
Subject: [PATCH 63/81] fix: a coordinate variable as long as some part of the
 grid is not loaded as data on the grid

---
 gridded/gridded.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index bcea7f0..3b32363 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -171,7 +171,10 @@ class Dataset:
                         raise AttributeError("not a valid location name")
                 except AttributeError:
                     # that didn't work, need to try to infer it
-                    location = self.grid.infer_location(ncvar)
+                    # -- but a coordinate variable (e.g. of time) is not data on the grid,
+                    #    even if it is as long as some part of the grid
+                    is_coordinate = ncvar.dimensions == (k,)
+                    location = None if is_coordinate else self.grid.infer_location(ncvar)
                 if location is not None:
                     try:
                         ln = ds[k].long_name
-- 
2.43.0


From 3e84bc4243e9fb282a1ad9cc2ab9cd1e9030a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:25 +0000
Subject: [PATCH 64/81] fix: Grid_R.infer_location ignores location attributes
 that name no location of the grid

---
 gridded/grids.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 6646cc7..b200127 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from gridded import VALID_LOCATIONS
 from gridded.pysgrid.sgrid import SGrid
 from gridded.pyugrid.ugrid import UGrid
 from gridded.utilities import get_dataset, parse_filename_dataset_args
@@ -457,8 +458,9 @@ class Grid_R(GridBase):
         But now we are checking variable dimensions to which part
         of the grid it is on.
         """
-        if hasattr(variable, "location"):
-            return variable.location
+        location = getattr(variable, "location", None)
+        if location is not None and location in VALID_LOCATIONS:
+            return location
 
         x_len = len(self.node_lon)
         y_len = len(self.node_lat)
-- 
2.43.0


From e4efef3673212d31acc21ae869e3088718d44019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:29 +0000
Subject: [PATCH 65/81] fix: Dataset.info for regular grids and for UGrids
 without faces

---
 gridded/grids.py         | 7 +++++++
 gridded/pyugrid/ugrid.py | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index b200127..4a38504 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -354,6 +354,13 @@ class Grid_R(GridBase):
         else:
             return idxs
 
+    @property
+    def info(self):
+        """
+        Summary of information about the grid
+        """
+        return f"Grid_R object:\n    {len(self.node_lon)} longitudes and {len(self.node_lat)} latitudes"
+
     def lonlat_to_yx(self, variable):
         """
         The RegualarGridInterpolator needs to have its two dimensions x and y be associated
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 6a6a152..40d06ee 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -210,7 +210,8 @@ class UGrid:
         """
         msg = [f"UGrid object: {self.mesh_name}"]
         msg.append("Number of nodes: %i" % len(self.nodes))
-        msg.append("Number of faces: %i with %i vertices per face" % (len(self.faces), self.num_vertices))
+        if self.faces is not None:
+            msg.append("Number of faces: %i with %i vertices per face" % (len(self.faces), self.num_vertices))
         if self.boundaries is not None:
             msg.append("Number of boundaries: %i" % len(self.boundaries))
 
-- 
2.43.0


From 53cfb27d0a68d8195703d290dfd44ad6fb8edf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:33 +0000
Subject: [PATCH 66/81] fix: read the attributes of datasets and variables
 divided over several files

---
 gridded/utilities.py | 16 +++++++++++++++-
 gridded/variable.py  |  6 +++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 4f63f71..2e59e0b 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -460,7 +460,21 @@ def get_dataset_attrs(ds):
 
     :param ds: an open netCDF4.Dataset
     """
-    return {name: ds.getncattr(name) for name in ds.ncattrs()}
+    return _get_attributes(ds)
+
+
+def _get_attributes(obj):
+    """
+    get all the attributes of a netCDF4 Dataset or Variable, also of one divided over
+    several files -- netCDF4's classes for those have no working getncattr()
+    """
+    attributes = {}
+    for name in obj.ncattrs():
+        try:
+            attributes[name] = obj.getncattr(name)
+        except AttributeError:
+            attributes[name] = getattr(obj, name)
+    return attributes
 
 
 def search_netcdf_vars(cls=None, ds=None, dg=None):
diff --git a/gridded/variable.py b/gridded/variable.py
index 852913f..03bb4fe 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -12,6 +12,7 @@ from gridded.depth import Depth
 from gridded.grids import Grid, Grid_R, Grid_S, Grid_U
 from gridded.time import Time
 from gridded.utilities import (
+    _get_attributes,
     _reorganize_spatial_data,
     asarraylike,
     get_dataset,
@@ -131,8 +132,7 @@ class Variable:
         self.attributes = {} if attributes is None else attributes
         # if the data is a netcdf variable, pull the attributes from there
         try:
-            for attr in self.data.ncattrs():
-                self.attributes[attr] = data.getncattr(attr)
+            self.attributes.update(_get_attributes(self.data))
         except AttributeError:  # must not be a netcdf variable
             pass  # so just use what was passed in.
         self.surface_boundary_condition = surface_boundary_condition
@@ -278,7 +278,7 @@ class Variable:
                 location = data.location
         if load_all:
             attributes = dict(kwargs.pop("attributes", None) or {})
-            attributes.update((attr, data.getncattr(attr)) for attr in data.ncattrs())
+            attributes.update(_get_attributes(data))
             kwargs["attributes"] = attributes
             data = data[:]
         return cls(
-- 
2.43.0


From e5ab6f912cd782959aafe15c7073695cb455c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:37 +0000
Subject: [PATCH 67/81] fix: load SGRID datasets divided over several files

---
 gridded/pysgrid/read_netcdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/read_netcdf.py b/gridded/pysgrid/read_netcdf.py
index 8ded904..9af023a 100644
--- a/gridded/pysgrid/read_netcdf.py
+++ b/gridded/pysgrid/read_netcdf.py
@@ -119,10 +119,11 @@ def parse_vector_axis(variable_standard_name):
 class NetCDFDataset:
     def __init__(self, nc):
         self.nc = nc
-        # in case a user as a version netcdf C library < 4.1.2
+        # in case a user as a version netcdf C library < 4.1.2 (ValueError),
+        # or a dataset divided over several files (RuntimeError)
         try:
             self._filepath = nc.filepath()
-        except ValueError:
+        except (ValueError, RuntimeError):
             self._filepath = None
         self.sgrid_compliant_file()
 
-- 
2.43.0


From 2d8e09bde0ae6dd829219721af6bfe6f408b750f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:40 +0000
Subject: [PATCH 68/81] fix: regrid_variable for all kinds of grids, locations
 and levels, and for vectors

---
 gridded/utilities.py | 131 ++++++++++++++++++++++++++-----------------
 1 file changed, 79 insertions(+), 52 deletions(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 2e59e0b..1e5e3f9 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -82,13 +82,9 @@ def gen_celltree_mask_from_center_mask(center_mask, sl):
 # 1/16/2024 Jay Hennen: I'm 'privating' this function pending a review and likely rewrite.
 #
 def regrid_variable(grid, o_var, location="node"):
-    from gridded.depth import DepthBase, L_Depth, S_Depth
-    from gridded.grids import Grid_U
-    from gridded.variable import Variable
-
     """
     Takes a Variable or VectorVariable and interpolates the data onto grid.
-    You may pass a location ('nodes', 'faces', 'edge1', 'edge2) and the
+    You may pass a location ('node', 'face' or 'center') and the
     variable will be interpolated there if possible
     If no location is passed, the variable will be interpolated to the
     nodes of this grid. If the Variable's grid and this grid are the same, this
@@ -103,20 +99,38 @@ def regrid_variable(grid, o_var, location="node"):
     Make sure that this is reasonable. If it is not, consider pre-slicing
     the time and depth dimensions of the source Variable to what you need.
     """
+    from gridded.depth import DepthBase, S_Depth
+    from gridded.grids import Grid_R, Grid_U
+    from gridded.variable import Variable, VectorVariable
+
+    if isinstance(o_var, VectorVariable):
+        variables = [regrid_variable(grid, v, location=location) for v in o_var.variables]
+        return VectorVariable(name=f"regridded {o_var.name}", units=o_var.units, variables=variables)
 
-    dest_points = None
+    if "edge" in location:
+        raise NotImplementedError("Cannot regrid variable to edges at this time")
     if location == "node":
         dest_points = grid.nodes
-    if location == "face" or location == "center":
-        if grid.face_coordinates is None and isinstance(grid, Grid_U):
-            grid.build_face_coordinates()
+    elif location == "face" or location == "center":
+        if isinstance(grid, Grid_U):
+            location = "face"
+            if grid.face_coordinates is None:
+                grid.build_face_coordinates()
             dest_points = grid.face_coordinates
         else:
+            location = "center"
+            if grid.center_lon is None:
+                raise ValueError(f"Grid {grid} has no centers")
             dest_points = grid.centers
+    else:
+        raise ValueError(f"Cannot regrid variable to location: {location}")
+
+    if o_var.grid is grid and o_var.location == location:
+        return o_var
+
+    n_shape = dest_points.shape[:-1]
     dest_points = dest_points.reshape(-1, 2)
-    if "edge" in location:
-        raise NotImplementedError("Cannot regrid variable to edges at this time")
-    dest_indices = o_var.grid.locate_faces(dest_points, "node")
+    dest_indices = np.ma.filled(o_var.grid.locate_faces(dest_points), -1)
     if np.all(dest_indices == -1):
         raise ValueError(
             f"Grid {grid} has no destination points overlapping\
@@ -124,46 +138,53 @@ def regrid_variable(grid, o_var, location="node"):
         )
     n_depth = None
     if o_var.depth is not None:
-        if issubclass(o_var.depth.__class__, S_Depth):
+        if isinstance(o_var.depth, S_Depth):
             n_depth = _regrid_s_depth(grid, o_var.depth)
-        elif isinstance(o_var.depth, DepthBase) or isinstance(o_var.depth, L_Depth):
+        elif isinstance(o_var.depth, DepthBase):
             n_depth = o_var.depth
         else:
             raise NotImplementedError("Can only regrid sigma depths for now")
 
-    xy_shp = grid._get_grid_vars(location)[0].shape
-    d_shp = len(n_depth) if n_depth is not None else None
-    t_shp = len(o_var.time) if o_var.time is not None else None
-    n_shape = xy_shp
-    if d_shp:
-        n_shape = (d_shp,) + n_shape
-    if t_shp:
-        n_shape = (t_shp,) + n_shape
-
-    n_data = np.empty(n_shape)
-    location_shp = grid.node_lon.shape
+    # the levels (or layers) stay as they are: each is regridded by itself
+    order = o_var.dimension_ordering
+    levels = [o_var]
+    if "depth" in order:
+        axis = order.index("depth")
+        levels = [
+            Variable(
+                name=f"level{lev_idx}",
+                data=o_var.data[(slice(None),) * axis + (lev_idx,)],
+                grid=o_var.grid,
+                time=o_var.time,
+                location=o_var.location,
+                fill_value=o_var.fill_value,
+            )
+            for lev_idx in range(o_var.data.shape[axis])
+        ]
+        n_shape = (len(levels),) + n_shape
 
     pts = np.zeros((dest_points.shape[0], 3))
     pts[:, 0:2] = dest_points
+    times = [None] if o_var.time is None else o_var.time.data
+    n_data = np.ma.stack([np.ma.stack([lev.at(pts, t)[:, 0] for lev in levels]) for t in times])
     if o_var.time is not None:
-        for t_idx, t in enumerate(o_var.time.data):
-            if n_depth is not None and issubclass(n_depth.__class__, S_Depth):
-                transect = o_var.depth.get_depth_profile(o_var.grid.nodes.reshape(-1, 2),
-                                                         t, data_shape=(len(n_depth),)).T
-                for lev_idx, lev_data in enumerate(transect):
-                    lev = Variable(
-                        name=f"level{lev_idx}", data=lev_data.reshape(o_var.grid.node_lon.shape), grid=o_var.grid
-                    )
-                    zs = lev.at(pts, t)
-                    pts[:, 2] = zs[:, 0]
-                    n_data[t_idx, lev_idx] = o_var.at(pts, t).reshape(location_shp)
-            else:
-                n_data[t_idx] = o_var.at(pts, t).reshape(location_shp)
-    else:
-        n_data = o_var.at(pts, None).reshape(location_shp)
+        n_shape = (len(times),) + n_shape
+    outside = np.all(np.reshape(dest_indices, (len(dest_points), -1)) == -1, axis=1)
+    if isinstance(o_var.grid, Grid_R):  # which has values on its whole rim
+        lon, lat = np.asarray(o_var.grid.node_lon[:]), np.asarray(o_var.grid.node_lat[:])
+        low, high = (lon.min(), lat.min()), (lon.max(), lat.max())
+        outside = np.any((dest_points < low) | (dest_points > high), axis=1)
+    n_data[..., outside] = np.ma.masked
+    n_data = n_data.reshape(n_shape)
 
     n_var = Variable(
-        name=f"regridded {o_var.name}", grid=grid, time=o_var.time, depth=n_depth, data=n_data, units=o_var.units
+        name=f"regridded {o_var.name}",
+        grid=grid,
+        time=o_var.time,
+        depth=n_depth,
+        data=n_data,
+        units=o_var.units,
+        location=location,
     )
     return n_var
 
@@ -172,22 +193,28 @@ def _regrid_s_depth(grid, o_depth):
     """
     Creates a new S_Depth object from an existing one that works on a new grid.
     """
-    o_bathy = o_depth.bathymetry
-    o_zeta = o_depth.zeta
-    n_bathy = regrid_variable(grid, o_bathy)
-    n_zeta = regrid_variable(grid, o_zeta)
+    from gridded.depth import FVCOM_Depth
+    from gridded.grids import Grid_U
+
+    n_terms = dict(o_depth.terms)
+    if isinstance(o_depth, FVCOM_Depth):  # its levels are those of each node
+        if not isinstance(grid, Grid_U):
+            raise NotImplementedError("Can only regrid FVCOM depths onto unstructured grids")
+        for term in ("siglay", "siglev"):
+            sigma = np.asarray(n_terms[term][:]).T
+            n_terms[term] = o_depth.grid.interpolate_var_to_points(grid.nodes, sigma, location="node").T
+    n_bathy = regrid_variable(grid, o_depth.bathymetry)
+    n_zeta = regrid_variable(grid, o_depth.zeta)
     n_depth = o_depth.__class__(
+        name=o_depth.name,
         time=o_depth.time,
         grid=grid,
         bathymetry=n_bathy,
         zeta=n_zeta,
-        terms={
-            "Cs_w": o_depth.Cs_w,
-            "Cs_r": o_depth.Cs_r,
-            "s_w": o_depth.s_w,
-            "s_rho": o_depth.s_rho,
-            "hc": o_depth.hc,
-        },
+        terms=n_terms,
+        vtransform=o_depth.vtransform,
+        surface_boundary_condition=o_depth.default_surface_boundary_condition,
+        bottom_boundary_condition=o_depth.default_bottom_boundary_condition,
     )
     return n_depth
 
-- 
2.43.0


From b6d1879b7e145844616a3c53c5a4de8fe41ffa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:03 +0000
Subject: [PATCH 69/81] fix: edges, neighbours, boundaries, face-edge links and
 face coordinates of flexible meshes

---
 gridded/pyugrid/ugrid.py | 56 ++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 40d06ee..90b6acf 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -825,6 +825,12 @@ class UGrid:
 
     interpolate = interpolate_var_to_points
 
+    def _face_nodes(self):
+        """
+        The nodes of each face, without the unused entries of a flexible mesh.
+        """
+        return [[int(n) for n in face if n >= 0] for face in np.ma.filled(self.faces, -1)]
+
     def build_face_face_connectivity(self):
         """
         Builds the face_face_connectivity array: giving the neighbors of each cell.
@@ -839,10 +845,10 @@ class UGrid:
 
         # Loop through all the faces to find the matching edges:
         edges = {}  # dict to store the edges.
-        for i, face in enumerate(self.faces):
+        for i, face in enumerate(self._face_nodes()):
             # Loop through edges of the cell:
-            for j in range(num_vertices):
-                if j < self.num_vertices - 1:
+            for j in range(len(face)):
+                if j < len(face) - 1:
                     edge = (face[j], face[j + 1])
                 else:
                     edge = (face[-1], face[0])
@@ -883,9 +889,9 @@ class UGrid:
 
         # Loop through all the faces to find all the edges:
         edges = set()  # Use a set so no duplicates.
-        for i, face in enumerate(self.faces):
+        for i, face in enumerate(self._face_nodes()):
             # Loop through edges:
-            for j in range(num_vertices):
+            for j in range(len(face)):
                 edge = (face[j - 1], face[j])
                 if edge[0] > edge[1]:  # Flip them
                     edge = (edge[1], edge[0])
@@ -908,13 +914,14 @@ class UGrid:
         boundaries = []
         if self.face_face_connectivity is None:
             self.build_face_face_connectivity()
-        for i, face in enumerate(self.face_face_connectivity):
-            for j, neighbor in enumerate(face):
+        face_face = np.ma.filled(self.face_face_connectivity, -1)
+        for face, neighbors in zip(self._face_nodes(), face_face):
+            for j, neighbor in enumerate(neighbors[: len(face)]):
                 if neighbor == -1:
-                    if j == self.num_vertices - 1:
-                        bound = (self.faces[i, -1], self.faces[i, 0])
+                    if j == len(face) - 1:
+                        bound = (face[-1], face[0])
                     else:
-                        bound = (self.faces[i, j], self.faces[i, j + 1])
+                        bound = (face[j], face[j + 1])
                     boundaries.append(bound)
         self.boundaries = boundaries
 
@@ -933,9 +940,11 @@ class UGrid:
 
         faces = self.faces
         edges = self.edges.copy()
-        face_edges = np.dstack([faces, np.roll(faces, 1, 1)])
-        if np.ma.isMA(faces) and np.ndim(faces.mask):
-            face_edges.mask = np.dstack([faces.mask, np.roll(faces.mask, 1, 1)])
+        faces = np.ma.filled(faces, -1)
+        following = np.roll(faces, -1, 1)
+        # the first node follows the last one, which in a flexible mesh need not be in the last column
+        following[np.arange(len(faces)), (faces >= 0).sum(axis=1) - 1] = faces[:, 0]
+        face_edges = np.dstack([faces, following])
         face_edges.sort(axis=-1)
         edges.sort(axis=-1)
 
@@ -943,17 +952,11 @@ class UGrid:
 
         face_edge_2d = face_edges.reshape((-1, 2))
 
-        if np.ma.isMA(faces) and faces.mask.any():
-            mask = face_edge_2d.mask.any(-1)
-            connectivity = np.ma.ones(
-                len(face_edge_2d),
-                dtype=face_edge_2d.dtype,
-            )
-            connectivity.mask = mask
-            connectivity[~mask] = tree.query(face_edge_2d[~mask])[1]
-        else:
-            connectivity = tree.query(face_edge_2d)[1]
-        self.face_edge_connectivity = np.roll(connectivity.reshape(faces.shape), -1, -1)
+        distance, connectivity = tree.query(face_edge_2d)
+        mask = distance > 0  # unused entries of a flexible mesh, and edges that are not among the edges
+        if mask.any():
+            connectivity = np.ma.MaskedArray(connectivity, mask=mask)
+        self.face_edge_connectivity = connectivity.reshape(faces.shape)
 
     def build_face_coordinates(self):
         """
@@ -969,7 +972,10 @@ class UGrid:
         Useful if you want this in the output file.
 
         """
-        self.face_coordinates = self.nodes[self.faces].mean(axis=1)
+        if np.ma.filled(self.faces, -1).min(initial=0) < 0:  # a flexible mesh
+            self.face_coordinates = np.array([self.nodes[face].mean(axis=0) for face in self._face_nodes()])
+        else:
+            self.face_coordinates = self.nodes[self.faces].mean(axis=1)
 
     def build_edge_coordinates(self):
         """
-- 
2.43.0


From c0d681345861f0c3beb09d586789bf77af15382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:55 +0000
Subject: [PATCH 70/81] fix: nearest values of data whose place cannot be told
 from its shape

---
 gridded/pysgrid/sgrid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index bbef4cd..d52ccf0 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1012,8 +1012,7 @@ class SGrid:
         else:
             slices = (yslice, xslice)
 
-        if self.infer_location(variable) is not None:
-            variable = variable[slices]
+        variable = variable[slices]
         if len(variable.shape) > 2:
             raise ValueError(
                 "Variable has too many dimensions to \
-- 
2.43.0


From 077374c6211fb7bc4e4a040a8b4a7a6ec6613387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:00 +0000
Subject: [PATCH 71/81] fix: a repeated letter in the units of a vector is not
 a list of units

---
 gridded/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 03bb4fe..199c863 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1168,7 +1168,7 @@ class VectorVariable:
 
         :rtype: string
         """
-        if hasattr(self._units, "__iter__"):
+        if hasattr(self._units, "__iter__") and not isinstance(self._units, str):
             if len(set(self._units)) > 1:
                 return self._units
             else:
-- 
2.43.0


From 3cabaf6174a7eca718a60f0d71bb7127814cbf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:05 +0000
Subject: [PATCH 72/81] fix: a variable does not answer from memory after its
 time axis, mesh or depths changed

---
 gridded/depth.py     | 12 +++++++++++-
 gridded/grids.py     |  4 ++--
 gridded/utilities.py | 13 +++++++++++++
 gridded/variable.py  | 26 +++++++++++++++-----------
 4 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index dd3f46d..7b8f72d 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -6,6 +6,7 @@ import numpy as np
 from gridded.grids import Grid
 from gridded.time import Time
 from gridded.utilities import (
+    CountsEdits,
     can_create_class,
     get_dataset,
     parse_filename_dataset_args,
@@ -13,7 +14,7 @@ from gridded.utilities import (
 )
 
 
-class DepthBase:
+class DepthBase(CountsEdits):
     _instance_count = 0
     _default_component_types = {"time": Time, "grid": Grid, "variable": None}
     #'variable' is None here to avoid import issues. It is set in the __init__.py
@@ -52,6 +53,12 @@ class DepthBase:
     def from_netCDF(cls, surface_index=-1, **kwargs):
         return cls(surface_index=surface_index, **kwargs)
 
+    def _memo_state(self):
+        """
+        What the depth of a point depends on, besides the point and the time
+        """
+        return (self._edits,)
+
     @property
     def surface_index(self):
         # Subclasses are REQUIRED to implement this property in the manner appropriate
@@ -405,6 +412,9 @@ class S_Depth(DepthBase):
         self.default_surface_boundary_condition = surface_boundary_condition
         self.default_bottom_boundary_condition = bottom_boundary_condition
 
+    def _memo_state(self):
+        return (self._edits,) + tuple(getattr(v, "_memo_state", tuple)() for v in (self.bathymetry, self.zeta))
+
     @classmethod
     def from_netCDF(
         cls,
diff --git a/gridded/grids.py b/gridded/grids.py
index 4a38504..1360c17 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -3,7 +3,7 @@ import numpy as np
 from gridded import VALID_LOCATIONS
 from gridded.pysgrid.sgrid import SGrid
 from gridded.pyugrid.ugrid import UGrid
-from gridded.utilities import get_dataset, parse_filename_dataset_args
+from gridded.utilities import CountsEdits, get_dataset, parse_filename_dataset_args
 
 
 def _by_name(variables):
@@ -13,7 +13,7 @@ def _by_name(variables):
     return {**{k.lower(): v for k, v in variables.items()}, **variables}
 
 
-class GridBase:
+class GridBase(CountsEdits):
     """
     Base object for grids to share common behavior
     """
diff --git a/gridded/utilities.py b/gridded/utilities.py
index 1e5e3f9..ffaa4b5 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -13,6 +13,19 @@ import numpy as np
 must_have = ["dtype", "shape", "ndim", "__len__", "__getitem__", "__getattribute__"]
 
 
+class CountsEdits:
+    """
+    Counts the assignments of attributes, so that whoever keeps a result that was computed
+    from the object can tell whether it still holds.
+    """
+
+    _edits = 0
+
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        super().__setattr__("_edits", self._edits + 1)
+
+
 def convert_numpy_datetime64_to_datetime(dt):
     pass
 
diff --git a/gridded/variable.py b/gridded/variable.py
index 199c863..305c85a 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -12,6 +12,7 @@ from gridded.depth import Depth
 from gridded.grids import Grid, Grid_R, Grid_S, Grid_U
 from gridded.time import Time
 from gridded.utilities import (
+    CountsEdits,
     _get_attributes,
     _reorganize_spatial_data,
     asarraylike,
@@ -30,7 +31,7 @@ def _has_depth_dimension(data, grid, has_time_dimension):
     return extra == 2 or extra == 1 and not has_time_dimension
 
 
-class Variable:
+class Variable(CountsEdits):
     """
     Variable object: represents a field of values associated with the grid.
 
@@ -441,17 +442,20 @@ class Variable:
 
     def _get_memo_key(self, _hash, **options):
         """
-        Returns the key of a result in the memo: everything it depends on that can change
-        without an attribute being assigned (in which case the memo is cleared)
+        Returns the key of a result in the memo: everything it depends on
         """
-        time_span = None if self.time is None else (self.time.min_time, self.time.max_time)
-        return (_hash, time_span, repr(sorted(options.items())))
-
-    def __setattr__(self, name, value):
-        super().__setattr__(name, value)
-        # the results in the memo may depend on it
-        if name != "_result_memo" and self.__dict__.get("_result_memo"):
-            self._result_memo.clear()
+        return (_hash, self._memo_state(), repr(sorted(options.items())))
+
+    def _memo_state(self):
+        """
+        What the results depend on, besides the query
+        """
+        return (
+            self._edits,
+            None if self.time is None else tuple(self.time.data),
+            getattr(self.grid, "_edits", 0),
+            getattr(self.depth, "_memo_state", tuple)(),
+        )
 
     def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
         if _copy:
-- 
2.43.0


From 9f54d495e70cc2a3144b4695a4f890f2834f77ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:31 +0000
Subject: [PATCH 73/81] fix: replacing the edges of a mesh drops the face-edge
 connectivity of the old ones

---
 gridded/pyugrid/read_netcdf.py | 10 +++++-----
 gridded/pyugrid/ugrid.py       |  5 +++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index d4ca111..ac12be1 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -72,11 +72,6 @@ grid_defs = [
         "role": "face_face_connectivity",  # Name in mesh variable.
         "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
     },
-    {
-        "grid_attr": "face_edge_connectivity",  # Name in UGrid object.
-        "role": "face_edge_connectivity",  # Name in mesh variable.
-        "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
-    },
     {
         "grid_attr": "boundaries",  # Name in UGrid object.
         "role": "boundary_node_connectivity",  # Name in mesh var.
@@ -87,6 +82,11 @@ grid_defs = [
         "role": "edge_node_connectivity",  # Name in mesh variable.
         "num_ind": 2,  # Number of idx (3 for faces, 2 for segments).
     },
+    {  # after the edges, which it refers to
+        "grid_attr": "face_edge_connectivity",  # Name in UGrid object.
+        "role": "face_edge_connectivity",  # Name in mesh variable.
+        "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
+    },
 ]
 # definitions for various coordinate arrays
 coord_defs = [
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 90b6acf..106391e 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -370,7 +370,8 @@ class UGrid:
             self._edges = np.asanyarray(edges_indexes, dtype=IND_DT)
         else:
             self._edges = None
-            self._face_edge_connectivity = None
+        # Other things are no longer valid.
+        self._face_edge_connectivity = None
 
     @edges.deleter
     def edges(self):
@@ -896,7 +897,7 @@ class UGrid:
                 if edge[0] > edge[1]:  # Flip them
                     edge = (edge[1], edge[0])
                 edges.add(edge)
-        self._edges = np.array(list(edges), dtype=IND_DT)
+        self.edges = np.array(list(edges), dtype=IND_DT)
 
     def build_boundaries(self):
         """
-- 
2.43.0


From f5eb7c4f0608a4e8298930a4f2e89f7d37025f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:37 +0000
Subject: [PATCH 74/81] fix: axis names of an SGRID variable may contain digits

---
 gridded/pysgrid/read_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/read_netcdf.py b/gridded/pysgrid/read_netcdf.py
index 9af023a..a2b3bea 100644
--- a/gridded/pysgrid/read_netcdf.py
+++ b/gridded/pysgrid/read_netcdf.py
@@ -86,7 +86,7 @@ def parse_padding(padding_str, mesh_topology_var):
 
 
 def parse_axes(axes_attr):
-    p = re.compile("([a-zA-Z]: [a-zA-Z_]+)")
+    p = re.compile(r"([a-zA-Z]: +\w+)")
     matches = p.findall(axes_attr)
     x_axis = None
     y_axis = None
-- 
2.43.0


From 4ca929e366630df468ca875687f84740140f127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:01 +0000
Subject: [PATCH 75/81] fix: depth levels are recognised by the standard name
 depth, not by any of its letters

---
 gridded/depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 7b8f72d..556db6c 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -158,7 +158,7 @@ class DepthBase(CountsEdits):
 class L_Depth(DepthBase):
     default_terms = [("depth_levels")]
     default_names = {"depth_levels": ["depth", "depth_levels", "Depth"]}
-    cf_names = {"depth_levels": "depth"}
+    cf_names = {"depth_levels": ["depth"]}
 
     def __init__(self, terms=None, **kwargs):
         super().__init__(**kwargs)
-- 
2.43.0


From 5935ca8d7c0dc49f2e9dd251fb8fa81edd7af38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:11 +0000
Subject: [PATCH 76/81] fix: tell the two kinds of edge apart by the dimensions
 they are padded along

A variable of an SGRID file said to be on an "edge" (or inferred to be) was put on edge2
or edge1 by the position of its padded dimension, which is the other way round where the
arrays are stored (x, y).
---
 gridded/pysgrid/utils.py     | 15 +++++++++++++++
 gridded/pysgrid/variables.py |  9 ++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/gridded/pysgrid/utils.py b/gridded/pysgrid/utils.py
index 8b090e0..1b103d7 100644
--- a/gridded/pysgrid/utils.py
+++ b/gridded/pysgrid/utils.py
@@ -172,6 +172,21 @@ def infer_variable_location(sgrid, variable):
     return inferred_location
 
 
+def infer_edge(sgrid, variable):
+    """
+    Infer which of the edges an edge variable is on, by the node dimension its padded
+    dimension stands for, whatever the order of the variable's dimensions: the cells are
+    counted along the first node dimension on edge2, and along the second on edge1.
+    """
+    node_dims = sgrid.node_dimensions.split()
+    padding = sgrid.get_all_face_padding() + sgrid.get_all_edge_padding()
+    for var_dim in variable.dimensions:
+        for info in padding:
+            if info.face_dim == var_dim and info.node_dim in node_dims:
+                return "edge2" if info.node_dim == node_dims[0] else "edge1"
+    return None
+
+
 def calculate_bearing(lon_lat_1, lon_lat_2):
     """
     return bearing from true north in degrees
diff --git a/gridded/pysgrid/variables.py b/gridded/pysgrid/variables.py
index 202793e..def162d 100644
--- a/gridded/pysgrid/variables.py
+++ b/gridded/pysgrid/variables.py
@@ -9,7 +9,7 @@ from collections import OrderedDict
 import numpy as np
 
 from gridded.pysgrid.read_netcdf import parse_axes, parse_vector_axis
-from gridded.pysgrid.utils import determine_variable_slicing, infer_avg_axes, infer_variable_location
+from gridded.pysgrid.utils import determine_variable_slicing, infer_avg_axes, infer_edge, infer_variable_location
 
 
 class SGridVariable:
@@ -95,12 +95,7 @@ class SGridVariable:
         except AttributeError:
             location = infer_variable_location(sgrid_obj, nc_var_obj)
         if location == "edge":
-            if center_axis == 0:
-                location = "edge2"
-            elif center_axis == 1:
-                location = "edge1"
-            else:
-                location = None
+            location = infer_edge(sgrid_obj, nc_var_obj) if center_axis is not None else None
         try:
             axes = nc_var_obj.axes
         except AttributeError:
-- 
2.43.0


From efe248d46b491aad97aceb19a5e4545e15a94f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:56 +0000
Subject: [PATCH 77/81] fix: take the bottom boundary condition of a depth axis
 by its name

The keyword was misspelled (default_bottom_boundary_conditon), so the condition given to a
depth axis by the documented name was silently ignored.
---
 gridded/depth.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 556db6c..53c5b84 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -25,7 +25,7 @@ class DepthBase(CountsEdits):
         surface_index=-1,
         bottom_index=0,
         default_surface_boundary_condition="extrapolate",
-        default_bottom_boundary_conditon="mask",
+        default_bottom_boundary_condition="mask",
         **kwargs,
     ):
         """
@@ -37,7 +37,10 @@ class DepthBase(CountsEdits):
         self._surface_index = surface_index
         self._bottom_index = bottom_index
         self.default_surface_boundary_condition = default_surface_boundary_condition
-        self.default_bottom_boundary_condition = default_bottom_boundary_conditon
+        # the name used to be misspelled, so both are taken
+        self.default_bottom_boundary_condition = kwargs.get(
+            "default_bottom_boundary_conditon", default_bottom_boundary_condition
+        )
 
     @classmethod
     def _can_create_from_netCDF(
-- 
2.43.0


From 4016c9270fb3c0b7ad7cab1b238fd6550b40356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:41 +0000
Subject: [PATCH 78/81] fix: a mesh of exactly three faces is drawn as it is,
 not transposed

---
 gridded/plotting/mpl_plotting.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gridded/plotting/mpl_plotting.py b/gridded/plotting/mpl_plotting.py
index ef09bc4..7debf87 100644
--- a/gridded/plotting/mpl_plotting.py
+++ b/gridded/plotting/mpl_plotting.py
@@ -47,12 +47,9 @@ def plot_ugrid(axes, grid, nodes=False, node_numbers=False, face_numbers=False):
     """
 
     nodes_lon, nodes_lat = grid.node_lon, grid.node_lat
+    # always (number of faces, vertices) -- as mpl wants them, even if there are just three
     faces = grid.faces
 
-    if faces.shape[0] == 3:
-        # swap order for mpl triangulation
-        faces = faces.T
-
     mpl_tri = Triangulation(nodes_lon, nodes_lat, faces)
 
     axes.triplot(mpl_tri)
-- 
2.43.0


From 0e0f16edf480178369bc595c0ffa5c177f50c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:47 +0000
Subject: [PATCH 79/81] fix: plot_sgrid draws the cell centers and edge points
 when asked to

---
 gridded/plotting/mpl_plotting.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gridded/plotting/mpl_plotting.py b/gridded/plotting/mpl_plotting.py
index 7debf87..e3f5771 100644
--- a/gridded/plotting/mpl_plotting.py
+++ b/gridded/plotting/mpl_plotting.py
@@ -146,6 +146,14 @@ def plot_sgrid(axes, grid, nodes=False, rho_points=False, edge_points=False):
     if nodes:
         axes.plot(nodes_lon, nodes_lat, "ok")
 
+    # plot the centers of the cells and edges -- if they are there.
+    if rho_points and grid.center_lon is not None:
+        axes.plot(np.asarray(grid.center_lon), np.asarray(grid.center_lat), "or")
+    if edge_points:
+        for lon, lat in ((grid.edge1_lon, grid.edge1_lat), (grid.edge2_lon, grid.edge2_lat)):
+            if lon is not None:
+                axes.plot(np.asarray(lon), np.asarray(lat), "ob")
+
     # from ugrid -- needs changes -- maybe (i, j)?
     # if face_numbers:
     #     try:
-- 
2.43.0


From 7a300683f47d45e6c6fc1e604e3304c7f4a33f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:54 +0000
Subject: [PATCH 80/81] fix: plot_sgrid leaves out the nodes that are masked

---
 gridded/plotting/mpl_plotting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gridded/plotting/mpl_plotting.py b/gridded/plotting/mpl_plotting.py
index e3f5771..44b7eb3 100644
--- a/gridded/plotting/mpl_plotting.py
+++ b/gridded/plotting/mpl_plotting.py
@@ -125,11 +125,12 @@ def plot_sgrid(axes, grid, nodes=False, rho_points=False, edge_points=False):
                               (where U and V are in ROMS)
     """
 
-    nodes_lon, nodes_lat = np.asarray(grid.node_lon), np.asarray(grid.node_lat)
+    # nodes that are masked are nowhere: neither drawn nor within the limits
+    nodes_lon, nodes_lat = (np.ma.filled(np.ma.asarray(c, dtype=float), np.nan) for c in (grid.node_lon, grid.node_lat))
 
     # need to set the limits for linecollection
-    axes.set_xlim(nodes_lon.min(), nodes_lon.max())
-    axes.set_ylim(nodes_lat.min(), nodes_lat.max())
+    axes.set_xlim(np.nanmin(nodes_lon), np.nanmax(nodes_lon))
+    axes.set_ylim(np.nanmin(nodes_lat), np.nanmax(nodes_lat))
 
     # plot the grid
     lines = []
-- 
2.43.0


From bf3b03711c0d95deff166003666fa7d3a2ee0f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:17 +0000
Subject: [PATCH 81/81] fix: the cell trees lose no faces

with more than two buckets per split, cell_tree2d can lose a face: points
well inside of it were located in no face at all
---
 gridded/pysgrid/sgrid.py | 5 +++--
 gridded/pyugrid/ugrid.py | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index d52ccf0..b587515 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -978,8 +978,9 @@ class SGrid:
         else:
             lin_nodes = np.ascontiguousarray(np.stack((lon, lat), axis=-1).reshape(-1, 2).astype(np.float64))
 
-        # CellTree needs at least one face
-        tree = CellTree(lin_nodes, lin_faces) if len(lin_faces) > 0 else None
+        # CellTree needs at least one face; with more than two buckets per
+        # split it can lose faces, and points well inside of them are not found
+        tree = CellTree(lin_nodes, lin_faces, num_buckets=2) if len(lin_faces) > 0 else None
         self._cell_tree = (tree, lin_nodes, lin_faces)
         self._cell_tree_use_mask = bool(use_mask)
         # what was located with the previous tree
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 106391e..37b89e9 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -691,7 +691,9 @@ class UGrid:
             raise ValueError("Nodes and faces must be defined in order to create and use CellTree")
         # the cell tree takes no masks: unused entries have to be -1,
         # whatever the data underneath the mask
-        self._cell_tree = CellTree(self.nodes, np.ma.filled(self.faces, -1))
+        # num_buckets: with more than two buckets per split the tree can lose
+        # faces, and points well inside of them are not found
+        self._cell_tree = CellTree(self.nodes, np.ma.filled(self.faces, -1), num_buckets=2)
 
     def interpolation_alphas(self, points, indices=None, _copy=False, _memo=True, _hash=None):
         """
-- 
2.43.0

