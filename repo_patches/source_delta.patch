From 0a2e1b81ef428bf11885864bf9525d403a0813ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 01/49] fix: size the 2D circumball buffer by the number of
 coordinates, not rows

---
 SeismicMesh/generation/cpp/delaunay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/cpp/delaunay.cpp b/SeismicMesh/generation/cpp/delaunay.cpp
index 44be70f..7435745 100644
--- a/SeismicMesh/generation/cpp/delaunay.cpp
+++ b/SeismicMesh/generation/cpp/delaunay.cpp
@@ -143,7 +143,7 @@ namespace py = pybind11;
 py::array circumballs2(
     py::array_t<double, py::array::c_style | py::array::forcecast> vertices) {
   // each triangle has 3 vertices with 2 coordinates each
-  int sz = vertices.shape()[0];
+  int sz = vertices.size();
   std::vector<double> cppvertices(sz);
   std::memcpy(cppvertices.data(), vertices.data(), sz * sizeof(double));
   std::vector<double> circumcenters = c_circumballs2(cppvertices);
-- 
2.43.0


From 8b6cde88f971c44694c3f6178aed1284171099d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 02/49] fix: inverted size assertions in delaunay2/delaunay3

---
 SeismicMesh/generation/cpp/delaunay.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SeismicMesh/generation/cpp/delaunay.cpp b/SeismicMesh/generation/cpp/delaunay.cpp
index 7435745..88e222a 100644
--- a/SeismicMesh/generation/cpp/delaunay.cpp
+++ b/SeismicMesh/generation/cpp/delaunay.cpp
@@ -73,7 +73,7 @@ std::vector<double> c_circumballs3(std::vector<double> &vertices) {
 
 std::vector<int> c_delaunay2(std::vector<double> &x, std::vector<double> &y) {
   int num_points = x.size();
-  assert(y.size() != num_points);
+  assert(y.size() == num_points);
   std::vector<std::pair<Point, unsigned>> points;
   // add index information to form face table later
   for (std::size_t i = 0; i < num_points; ++i) {
@@ -104,8 +104,8 @@ std::vector<int> c_delaunay2(std::vector<double> &x, std::vector<double> &y) {
 std::vector<int> c_delaunay3(std::vector<double> &x, std::vector<double> &y,
                              std::vector<double> &z) {
   int num_points = x.size();
-  assert(y.size() != num_points);
-  assert(z.size() != num_points);
+  assert(y.size() == num_points);
+  assert(z.size() == num_points);
   std::vector<std::pair<Point3, unsigned>> points;
   // add index information to form face table later
   for (std::size_t i = 0; i < num_points; ++i) {
-- 
2.43.0


From f79b15bfe19aa086d35554e03523f60125103944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 03/49] fix: allocate the header row of the export tables in
 where_to2/where_to3

---
 SeismicMesh/migration/cpp/cpputils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index f31bd6d..0b07600 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -167,7 +167,7 @@ std::vector<double> c_where_to2(std::vector<double> &points,
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize(1 + num_points * 3, -1);
+  pointsToMigrate.resize((1 + num_points) * 3, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
@@ -346,7 +346,7 @@ std::vector<double> c_where_to3(std::vector<double> &points,
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize(1 + num_points * 4, -1);
+  pointsToMigrate.resize((1 + num_points) * 4, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
-- 
2.43.0


From 06278b94ce8f2d1471d80fd0f16fbf3abace8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 04/49] fix: exchange ghost points also when a rank has nothing
 to export

---
 SeismicMesh/generation/mesh_generator.py |  2 +-
 SeismicMesh/migration/migration.py       | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 7b73b33..99f8b1e 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -507,7 +507,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
 
         if comm.size > 1:
             # If continuing on, delete ghost points
-            p = np.delete(p, inv[-recv_ix::], axis=0)
+            p = np.delete(p, inv[len(inv) - recv_ix :], axis=0)
 
         # Show the user some progress so they know something is happening
         if comm.rank == 0:
diff --git a/SeismicMesh/migration/migration.py b/SeismicMesh/migration/migration.py
index 8987a72..ac82428 100644
--- a/SeismicMesh/migration/migration.py
+++ b/SeismicMesh/migration/migration.py
@@ -152,12 +152,10 @@ def exchange(comm, rank, size, exports, dim=2):
     NSB = int(exports[0, 0])
     NSA = int(exports[0, 1])
 
-    if NSB == 0 and NSA == 0:
-        return np.array([[]])
-
     tmp = []
     # send points below
-    if NSB != 0 and (rank != 0):  # rank 0 can't send below
+    # (always, even when empty: the neighbor posts a matching receive)
+    if rank != 0:  # rank 0 can't send below
         comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)
 
     # receive points from above
@@ -167,7 +165,7 @@ def exchange(comm, rank, size, exports, dim=2):
             tmp.append(p)
 
     # send points above
-    if NSA != 0 and rank != (size - 1):  # topmost rank can't send to above
+    if rank != (size - 1):  # topmost rank can't send to above
         # all put the topmost rank receive from above
         comm.send(exports[NSB + 1 : NSB + 1 + NSA, 0:dim], dest=rank + 1, tag=11)
 
@@ -178,6 +176,6 @@ def exchange(comm, rank, size, exports, dim=2):
         for p in dat_recv:
             tmp.append(p)
 
-    new_points = np.array(tmp)
+    new_points = np.array(tmp).reshape(-1, dim)
 
     return new_points
-- 
2.43.0


From f206511fbc2450c07bbb46ca4236f28bed5a80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 05/49] fix: reject max_iter == 0 and h0 == 0 instead of
 looping forever

---
 SeismicMesh/generation/mesh_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 99f8b1e..bb3e60c 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -161,10 +161,10 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         h0 = sliver_opts["h0"]
 
     # check h0
-    if h0 < 0:
+    if h0 <= 0:
         raise ValueError("`h0` must be > 0")
 
-    if sliver_opts["max_iter"] < 0:
+    if sliver_opts["max_iter"] <= 0:
         raise ValueError("`max_iter` must be > 0")
     max_iter = sliver_opts["max_iter"]
 
@@ -411,7 +411,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         h0 = gen_opts["h0"]
 
     # check h0
-    if h0 < 0:
+    if h0 <= 0:
         raise ValueError("`h0` must be > 0")
 
     # these parameters originate from the original DistMesh
@@ -436,7 +436,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         dim, geps, bbox, fh, fd, h0, gen_opts, pfix, comm, lsf
     )
 
-    if gen_opts["max_iter"] < 0:
+    if gen_opts["max_iter"] <= 0:
         raise ValueError("`max_iter` must be > 0")
 
     max_iter = gen_opts["max_iter"]
-- 
2.43.0


From 47d2344f9598177b4cc9e366021b1c3c03ccc3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 06/49] fix: merge coincident vertices whose coordinates differ
 in the sign of zero

---
 SeismicMesh/geometry/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 600481b..32ecbb4 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -226,7 +226,8 @@ def fix_mesh(p, t, ptol=2e-13, dim=2, delete_unused=False, fix_orientation=True)
 
     # duplicate vertices
     snap = (p.max(0) - p.min(0)).max() * ptol
-    _, ix, jx = unique_rows(np.round(p / snap) * snap, True, True)
+    # adding zero turns -0.0 into 0.0; rows are compared bytewise
+    _, ix, jx = unique_rows(np.round(p / snap) * snap + 0.0, True, True)
 
     p = p[ix]
     t = jx[t]
-- 
2.43.0


From a53780d27ab99a1e02e18101e57b58c2f454516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 07/49] fix: vertex_to_entities pointers when some vertices are
 unused

---
 SeismicMesh/geometry/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 32ecbb4..2c61bce 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -120,10 +120,9 @@ def vertex_to_entities(vertices, entities, dim=2):
     ve = np.hstack((ve, ext))
     ve = ve[ve[:, 0].argsort(), :]
 
-    idx = np.insert(np.diff(ve[:, 0]), 0, 0)
-    vtoe_pointer = np.argwhere(idx)
-    vtoe_pointer = np.insert(vtoe_pointer, 0, 0)
-    vtoe_pointer = np.append(vtoe_pointer, num_entities * (dim + 1))
+    # vertices that belong to no entity get an empty range
+    num_adjacent = np.bincount(ve[:, 0], minlength=len(vertices))
+    vtoe_pointer = np.insert(np.cumsum(num_adjacent), 0, 0)
 
     vtoe = ve[:, 1]
 
-- 
2.43.0


From 59ec3663af3b1eff89c907b91d1cbb317792cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 08/49] fix: do not normalize the caller's stretch vector in
 place

---
 SeismicMesh/geometry/signed_distance_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 438dc39..ce17f62 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -135,7 +135,7 @@ def _build_stretch(object):
         ), "Length of stretch vector does not equal dimension"
     if object.v is not None:
         object.alpha = np.sqrt(np.dot(object.v, object.v))
-        object.v /= object.alpha
+        object.v = object.v / object.alpha
         _corners = corners(object.bbox)
         vx = np.multiply.outer(np.dot(object.v, _corners.T), object.v)
         tmp = (vx * object.alpha + (_corners - vx)).T
-- 
2.43.0


From 41ffee08f33017d38a3a356d3b5a571aeb7027c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 09/49] fix: reject set operations on domains of different
 dimension

---
 SeismicMesh/geometry/signed_distance_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index ce17f62..1a70512 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -306,7 +306,7 @@ def _loop_call(func, d):
 
 class Union:
     def __init__(self, domains, smoothness=0.0):
-        geom_dim = [d.dim for d in domains]
+        geom_dim = np.array([d.dim for d in domains])
         assert np.all(geom_dim != 2) or np.all(geom_dim != 3)
         self.dim = geom_dim[0]
         self.k = smoothness
@@ -346,7 +346,7 @@ class Union:
 
 class Intersection:
     def __init__(self, domains, smoothness=0.0):
-        geom_dim = [d.dim for d in domains]
+        geom_dim = np.array([d.dim for d in domains])
         assert np.all(geom_dim != 2) or np.all(geom_dim != 3)
         self.dim = geom_dim[0]
         self.k = smoothness
@@ -386,7 +386,7 @@ class Intersection:
 
 class Difference:
     def __init__(self, domains, smoothness=0.0):
-        geom_dim = [d.dim for d in domains]
+        geom_dim = np.array([d.dim for d in domains])
         assert np.all(geom_dim != 2) or np.all(geom_dim != 3)
         self.dim = geom_dim[0]
         self.k = smoothness
-- 
2.43.0


From dbb24dc575a912af60bc709952dcc1001f9b7425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 10/49] fix: replace water velocities also when they only occur
 in the first row

---
 SeismicMesh/sizing/mesh_size_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 40de5de..12a51c2 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -152,7 +152,7 @@ def get_sizing_function_from_segy(
 
         # vp must be in m/s here
         pos = np.where(vp < 1e-3)  # for Vs (water positions in shear velocity data)
-        if len(pos) > 0 and any(pos[0]):
+        if len(pos[0]) > 0:
             if (
                 sz_opts["vp_water"] is None
                 or sz_opts["vp_water"] < 1300
-- 
2.43.0


From 0121bd40eb69114062df0793cb6f4a61da8a781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 11/49] fix: do not modify the velocity_data array of the
 caller

---
 SeismicMesh/sizing/mesh_size_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 12a51c2..cc2bb22 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -142,6 +142,9 @@ def get_sizing_function_from_segy(
                 axes_order_sort=sz_opts["axes_order_sort"],
                 dtype=sz_opts["dtype"],
             )
+        else:
+            # the conversions below must not modify the caller's array
+            vp = np.array(vp)
 
         if sz_opts["units"] == "km-s":
             print("Converting from km-s to m-s...", flush=True)
-- 
2.43.0


From fd842bae8675568b0128c8a7189ee584ae060e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 12/49] fix: foot to meter conversion factor

---
 SeismicMesh/sizing/mesh_size_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index cc2bb22..2616ccf 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -151,7 +151,7 @@ def get_sizing_function_from_segy(
             vp *= 1000.0
         elif sz_opts["units"] == "ft-s":
             print("Converting from ft-s to m-s...", flush=True)
-            vp *= 0.30
+            vp *= 0.3048
 
         # vp must be in m/s here
         pos = np.where(vp < 1e-3)  # for Vs (water positions in shear velocity data)
-- 
2.43.0


From c6a1754976ab8e9a477f5d13fdee4e50c2ae32d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 13/49] fix: velocity-gradient sizing of a homogeneous model is
 not NaN

---
 SeismicMesh/sizing/mesh_size_function.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 2616ccf..6580030 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -444,8 +444,10 @@ def _gradient_sizing(vp, grad, stencil_size):
     win_sqr_mean = ndimage.uniform_filter(vp**2, tuple(window))
     win_var = win_sqr_mean - win_mean**2
 
-    # normalize variance to [0,1]
-    win_var = np.divide(win_var, np.amax(win_var))
+    # normalize variance to [0,1] (a homogeneous model has none)
+    max_var = np.amax(win_var)
+    if max_var > 0:
+        win_var = np.divide(win_var, max_var)
     # win_var /= np.amax(win_var)
     win_var -= np.amin(win_var)
     return grad / (win_var + 0.10)
-- 
2.43.0


From 73cd97388395500d760998b003f4fc9a2a757486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 14/49] fix: plot_sizing_function returns on ranks other than 0

---
 SeismicMesh/sizing/mesh_size_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 6580030..27cc6be 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -357,6 +357,7 @@ def plot_sizing_function(
 
     """
     comm = comm or MPI.COMM_WORLD
+    ax = None
     if comm.rank == 0:
 
         if not isinstance(cell_size, SizeFunction):
-- 
2.43.0


From 8051add54e3637926783a306a04cc9fe8c3fb6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 15/49] fix: dihedral angles of flat cells are not NaN, and
 flat slivers get a finite perturbation

---
 SeismicMesh/generation/mesh_generator.py   | 2 +-
 SeismicMesh/geometry/cpp/fast_geometry.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index bb3e60c..f413ac6 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -251,7 +251,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
 
         # perturb vector is based on INCREASING the sliver's circumsphere radius
         perturb = geometry.calc_circumsphere_grad(p0, p1, p2, p3)
-        perturb[np.isinf(perturb)] = 1.0
+        perturb[~np.isfinite(perturb)] = 1.0
 
         # normalize the perturbation vector
         perturb_norm = np.sum(np.abs(perturb) ** 2, axis=-1) ** (1.0 / 2)
diff --git a/SeismicMesh/geometry/cpp/fast_geometry.cpp b/SeismicMesh/geometry/cpp/fast_geometry.cpp
index cd46759..01f6ca9 100644
--- a/SeismicMesh/geometry/cpp/fast_geometry.cpp
+++ b/SeismicMesh/geometry/cpp/fast_geometry.cpp
@@ -411,7 +411,9 @@ std::vector<double> c_calc_dihedral_angles(std::vector<double> &points,
 
       double cphi =
           (v2Dotv3 - v1Dotv2 * v1Dotv3) / ((norm_v1Crossv2 * norm_v1Crossv3));
-      dh_angles[c * 6 + i] = std::acos(cphi); // in radians
+      // rounding can push the cosine of a flat cell out of [-1, 1]
+      dh_angles[c * 6 + i] =
+          std::acos(std::max(-1.0, std::min(1.0, cphi))); // in radians
     }
   }
   return dh_angles;
-- 
2.43.0


From 03040f7ef863d59081eb5e23846e7da75e9612ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 16/49] fix: bounding box of multi-axis rotations, and corners
 that move with the shape

---
 .../geometry/signed_distance_functions.py     | 81 +++++++------------
 1 file changed, 29 insertions(+), 52 deletions(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 1a70512..98a943b 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -127,6 +127,18 @@ def _translate_back(object, x):
 def _rotate_back(object, x, R_inv):
     return np.dot(R_inv, x.T).T
 
+
+def _stretch(object, x):
+    vx = np.multiply.outer(np.dot(object.v, x.T), object.v)
+    return vx * object.alpha + (x - vx)
+
+
+def _map_corners(object, mapping):
+    # only rectangles and boxes have corners; they move with the shape
+    if getattr(object, "corners", None) is not None:
+        object.corners = mapping(object.corners)
+
+
 def _build_stretch(object):
     sd = object.dim
     if object.v is not None:
@@ -136,9 +148,7 @@ def _build_stretch(object):
     if object.v is not None:
         object.alpha = np.sqrt(np.dot(object.v, object.v))
         object.v = object.v / object.alpha
-        _corners = corners(object.bbox)
-        vx = np.multiply.outer(np.dot(object.v, _corners.T), object.v)
-        tmp = (vx * object.alpha + (_corners - vx)).T
+        tmp = _stretch(object, corners(object.bbox)).T
         if sd == 2:
             object.bbox = (
                 np.min(tmp[0]),
@@ -155,14 +165,13 @@ def _build_stretch(object):
                 np.min(tmp[2]),
                 np.max(tmp[2]),
             )
-        object.corners = corners(object.bbox)
+        _map_corners(object, lambda c: _stretch(object, c))
     return object
 
 
 def _build_rotation(object):
     # object.rotation = [a,b,c] that means rotate by a on x axis, by b on y
     # axis and by c on z axis
-    bbox_x = bbox_y = bbox_z = object.bbox
     if object.dim == 2:
         object.R = np.array(
             [
@@ -172,15 +181,14 @@ def _build_rotation(object):
         )
         object.Rx_inv = object.R.T
         if object.rotation[0] != 0.0:
-            object.corners = corners(object.bbox)
-            tmp = np.dot(object.R, object.corners.T).T
+            tmp = np.dot(object.R, corners(object.bbox).T).T
+            _map_corners(object, lambda c: np.dot(object.R, c.T).T)
             object.bbox = (
                 np.min(tmp[:, 0]),
                 np.max(tmp[:, 0]),
                 np.min(tmp[:, 1]),
                 np.max(tmp[:, 1]),
             )
-            object.corners = corners(object.bbox)
     elif object.dim == 3:
         object.Rx = np.array(
             [
@@ -207,50 +215,18 @@ def _build_rotation(object):
         object.Ry_inv = object.Ry.T
         object.Rz_inv = object.Rz.T
         if  reduce((lambda x, y: x or y), object.rotation):
-            object.corners = corners(object.bbox)
-            tmp_x = tmp_y = tmp_z = 0.0
-            if object.rotation[0] != 0.0:
-                tmp_x = np.dot(object.Rx, object.corners.T).T
-                bbox_x = (
-                    np.min(tmp_x[:, 0]),
-                    np.max(tmp_x[:, 0]),
-                    np.min(tmp_x[:, 1]),
-                    np.max(tmp_x[:, 1]),
-                    np.min(tmp_x[:, 2]),
-                    np.max(tmp_x[:, 2]),
-                )
-            if object.rotation[1] != 0.0:
-                object.corners = corners(object.bbox)
-                tmp_y = np.dot(object.Ry, object.corners.T).T
-                bbox_y = (
-                    np.min(tmp_y[:, 0]),
-                    np.max(tmp_y[:, 0]),
-                    np.min(tmp_y[:, 1]),
-                    np.max(tmp_y[:, 1]),
-                    np.min(tmp_y[:, 2]),
-                    np.max(tmp_y[:, 2]),
-                )
-            if object.rotation[2] != 0.0:
-                object.corners = corners(object.bbox)
-                tmp_z = np.dot(object.Rz, object.corners.T).T
-                bbox_z = (
-                    np.min(tmp_z[:, 0]),
-                    np.max(tmp_z[:, 0]),
-                    np.min(tmp_z[:, 1]),
-                    np.max(tmp_z[:, 1]),
-                    np.min(tmp_z[:, 2]),
-                    np.max(tmp_z[:, 2]),
-                )
-            c = 0
-            object.bbox = []
-            for i,j,k in zip(bbox_x, bbox_y, bbox_z):
-                if c%2 == 0:
-                    object.bbox.append(min(i,j,k))
-                else:
-                    object.bbox.append(max(i,j,k))
-                c+=1
-            object.bbox = tuple(object.bbox)
-            object.corners = corners(object.bbox)
+            # the rotations compose: about z first, then y, then x
+            R = object.Rx @ object.Ry @ object.Rz
+            tmp = np.dot(R, corners(object.bbox).T).T
+            _map_corners(object, lambda c: np.dot(R, c.T).T)
+            object.bbox = (
+                np.min(tmp[:, 0]),
+                np.max(tmp[:, 0]),
+                np.min(tmp[:, 1]),
+                np.max(tmp[:, 1]),
+                np.min(tmp[:, 2]),
+                np.max(tmp[:, 2]),
+            )
     return object
 
 
@@ -277,6 +253,7 @@ def _build_translation(object):
                 object.bbox[4] + v[2],
                 object.bbox[5] + v[2],
             )
+        _map_corners(object, lambda c: c + np.asarray(v))
     return object
 
 
-- 
2.43.0


From 9f0d1e70bf194e01df61efae3c3ef2fd55a26083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 17/49] fix: only constrain corners that lie on the level set

---
 SeismicMesh/generation/mesh_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index f413ac6..1687a60 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -425,7 +425,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
     pfix, nfix = _unpack_pfix(dim, gen_opts, comm)
     if corners is not None and comm.size == 1:
         # keep corners only near level set
-        corners = corners[fd(corners) > -1000 * deps]
+        corners = corners[np.abs(fd(corners)) < 1000 * deps]
         pfix = np.append(pfix, corners, axis=0)
         nfix = len(pfix)
 
-- 
2.43.0


From d3d5c927deeb82087714f95997622663f28e2bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 18/49] fix: keep interior fixed points in place during the
 final smoothing

---
 SeismicMesh/generation/mesh_generator.py | 8 +++++---
 SeismicMesh/geometry/utils.py            | 7 ++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 1687a60..47f3a6b 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -487,7 +487,9 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
                 print_msg1(
                     "Termination reached...maximum number of iterations reached.",
                 )
-            p, t = _termination(p, t, gen_opts, comm, verbose=gen_opts["verbose"])
+            p, t = _termination(
+                p, t, gen_opts, comm, verbose=gen_opts["verbose"], pfix=pfix
+            )
             if comm.rank == 0:
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
@@ -652,7 +654,7 @@ def _parse_kwargs(kwargs):
             )
 
 
-def _termination(p, t, opts, comm, sliver=False, verbose=1):
+def _termination(p, t, opts, comm, sliver=False, verbose=1, pfix=None):
     """Shut it down when reacing `max_iter`"""
     dim = p.shape[1]
     if comm.size > 1 and sliver is False:
@@ -666,7 +668,7 @@ def _termination(p, t, opts, comm, sliver=False, verbose=1):
         )
         # only do Laplacian smoothing if no immersed domains
         if opts["subdomains"] is None and opts["mesh_improvement"]:
-            p, t = geometry.laplacian2_fixed_point(p, t)
+            p, t = geometry.laplacian2_fixed_point(p, t, pfix=pfix)
             # p, t = geometry.laplacian2(p, t, verbose=verbose)
     # perform linting if asked
     if comm.rank == 0 and opts["perform_checks"]:
diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 2c61bce..6fa48ff 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -491,7 +491,7 @@ def _sparse(Ix, J, S, shape=None, dtype=None):
     return spsparse.coo_matrix((S, (II, J)), shape, dtype)
 
 
-def laplacian2_fixed_point(vertices, entities):
+def laplacian2_fixed_point(vertices, entities, pfix=None):
     """Solve the laplacian smoothing problem as a fixed point problem
     solve this once, i.e., (I - A) x = rhs vs.
     repeating this x_{n+1} = A x_n
@@ -500,6 +500,8 @@ def laplacian2_fixed_point(vertices, entities):
     :type vertices: numpy.ndarray[`float` x dim]
     :param entities: the mesh connectivity
     :type entities: numpy.ndarray[`int` x (dim+1)]
+    :param pfix: coordinates that you don't wish to move
+    :type pfix: array-like
 
     :return vertices: updated vertices of mesh
     :rtype: numpy.ndarray[`float` x dim]
@@ -525,6 +527,9 @@ def laplacian2_fixed_point(vertices, entities):
     matrix = matrix.tocsr()
 
     bnd = get_boundary_vertices(entities)
+    if pfix is not None and len(pfix) > 0:
+        ifix = [np.argmin(((vertices - fix) ** 2).sum(1)) for fix in pfix]
+        bnd = np.union1d(bnd, ifix)
 
     # Apply Dirichlet conditions.
     # Set all Dirichlet rows to 0.
-- 
2.43.0


From f032b360a8ae4e5b8076f2762c29aced3162fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 19/49] fix: smoothed difference subtracts every operand from
 the first

---
 SeismicMesh/geometry/signed_distance_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 98a943b..59d3aaf 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -397,7 +397,7 @@ class Difference:
             )
         else:
             d = [d.eval(x) for d in self.domains]
-            return _loop_call(self._smooth_difference, d[::-1])
+            return _loop_call(lambda d1, d2: self._smooth_difference(d2, d1), d)
 
     def show(self, filename=None, samples=10000):
         _show(self, filename=None, samples=samples)
-- 
2.43.0


From 0733d936215f405433f8213d87c63d7ea6e62721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 20/49] fix: reject negative wl or grad also when the other
 rule is disabled

---
 SeismicMesh/sizing/mesh_size_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 27cc6be..4bbe578 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -207,7 +207,7 @@ def get_sizing_function_from_segy(
                 raise ValueError(
                     "Option %s with parameter %s not recognized " % (key, kwargs[key])
                 )
-        if np.any([sz_opts["wl"] > 0, sz_opts["grad"] > 0]):
+        if np.any([sz_opts["wl"] != 0, sz_opts["grad"] != 0]):
             cell_size = np.minimum(
                 _wavelength_sizing(vp, sz_opts["wl"], sz_opts["freq"]),
                 _gradient_sizing(vp, sz_opts["grad"], sz_opts["stencil_size"]),
-- 
2.43.0


From fd98010cd7959d1d3723495b3eb873064c1d6ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 21/49] fix: fixed-point Laplacian smoothing diverges or loses
 accuracy away from the origin

---
 SeismicMesh/geometry/utils.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 6fa48ff..e606115 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -531,23 +531,19 @@ def laplacian2_fixed_point(vertices, entities, pfix=None):
         ifix = [np.argmin(((vertices - fix) ** 2).sum(1)) for fix in pfix]
         bnd = np.union1d(bnd, ifix)
 
-    # Apply Dirichlet conditions.
-    # Set all Dirichlet rows to 0.
-    for b in bnd:
-        matrix.data[matrix.indptr[b] : matrix.indptr[b + 1]] = 0.0
-    # Set the diagonal and RHS.
-    d = matrix.diagonal()
-    d[bnd] = 1.0
-    matrix.setdiag(d)
-
-    rhs = np.zeros((n, 2))
-    rhs[bnd] = vertices[bnd]
-
-    # vertices_new = spsolve(matrix, rhs)
-
-    # use AMG
-    ml = pyamg.ruge_stuben_solver(matrix)
-    vertices_new = np.column_stack([ml.solve(rhs[:, 0]), ml.solve(rhs[:, 1])])
+    # Solve for the displacements of the free vertices only, so that the others
+    # stay put and the accuracy does not depend on where the mesh is located.
+    free = np.setdiff1d(np.arange(n), bnd)
+    vertices_new = np.array(vertices)
+    if len(free) > 0:
+        matrix = matrix[free]
+        rhs = -(matrix @ vertices)
+
+        # use AMG (preconditioned CG: the system is symmetric positive definite)
+        ml = pyamg.ruge_stuben_solver(matrix[:, free])
+        vertices_new[free] += np.column_stack(
+            [ml.solve(rhs[:, d], tol=1e-10, accel="cg") for d in range(2)]
+        )
 
     return vertices_new, entities
 
-- 
2.43.0


From 10c35720d6731760f023c58ed77219624783d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 22/49] fix: the quality of flat entities is zero, not NaN, so
 poor boundary ones are deleted

---
 SeismicMesh/geometry/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index e606115..3364a47 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -269,8 +269,10 @@ def simp_qual(p, t):
     a = length(p[t[:, 1]] - p[t[:, 0]])
     b = length(p[t[:, 2]] - p[t[:, 0]])
     c = length(p[t[:, 2]] - p[t[:, 1]])
-    r = 0.5 * np.sqrt((b + c - a) * (c + a - b) * (a + b - c) / (a + b + c))
-    R = a * b * c / np.sqrt((a + b + c) * (b + c - a) * (c + a - b) * (a + b - c))
+    # rounding can make this slightly negative for flat entities (quality zero)
+    d = np.maximum((b + c - a) * (c + a - b) * (a + b - c), 0.0)
+    r = 0.5 * np.sqrt(d / (a + b + c))
+    R = a * b * c / np.sqrt((a + b + c) * d)
     return 2 * r / R
 
 
-- 
2.43.0


From 20ce3fb22d62b543485e5e506718714bf17a490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 23/49] fix: 3D point-in-cell test loses its sign away from the
 origin, so linting deletes valid cells

---
 SeismicMesh/geometry/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 3364a47..8467428 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -694,8 +694,11 @@ def vertex_in_entity3(vertex, entity):
     :return: vertex_in_entity3: logical flag indicating if it is or isn't.
     :rtype: `boolean`
     """
-    (x, y, z) = vertex
-    (x1, y1, z1, x2, y2, z2, x3, y3, z3, x4, y4, z4) = entity
+    # put the origin at the vertex; far from it the determinants lose their sign
+    (x, y, z) = (0.0, 0.0, 0.0)
+    (x1, y1, z1, x2, y2, z2, x3, y3, z3, x4, y4, z4) = (
+        np.reshape(entity, (4, 3)) - np.asarray(vertex)
+    ).ravel()
     signs = np.zeros(5, dtype=int)
     A = np.array(
         [[x1, y1, z1, 1.0], [x2, y2, z2, 1.0], [x3, y3, z3, 1.0], [x4, y4, z4, 1.0]],
-- 
2.43.0


From 6ed0789ddfe86e0ba735326b9532f3f06514d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 24/49] fix: stop also when max_iter is not a whole number

---
 SeismicMesh/generation/mesh_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 47f3a6b..1f24fdb 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -222,7 +222,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         ele_nums, ix = _calc_dihedral_angles(p, t, min_dh_bound, max_dh_bound)
 
         # Number of iterations reached, stop.
-        if count == (max_iter - 1):
+        if count >= (max_iter - 1):
             print_msg1(
                 "FAILURE: Termination...maximum number of iterations reached. Try increasing max_iter when generating the mesh",
             )
@@ -482,7 +482,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         t = _remove_triangles_outside(p, t, fd, geps)
 
         # Number of iterations reached, stop.
-        if count == (max_iter - 1):
+        if count >= (max_iter - 1):
             if comm.rank == 0:
                 print_msg1(
                     "Termination reached...maximum number of iterations reached.",
-- 
2.43.0


From 75c3e832b6bf67ec75fdde66ef85488603ace564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 25/49] fix: vertices outside a box edge or corner at equal
 distance from its faces are projected back

---
 SeismicMesh/generation/mesh_generator.py | 35 ++++++++++++++----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 1f24fdb..4d6c09b 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -747,13 +747,7 @@ def _improve_level_set_newton(p, t, fd, deps, tol):
     alpha = 1
     for iteration in range(5):
         d = fd(p[bid])
-
-        def _deps_vec(i):
-            a = [0] * dim
-            a[i] = deps
-            return a
-
-        dgrads = [(fd(p[bid] + _deps_vec(i)) - d) / deps for i in range(dim)]
+        dgrads = _level_set_gradient(p[bid], fd, d, deps)
         dgrad2 = sum(dgrad**2 for dgrad in dgrads)
         dgrad2 = np.where(dgrad2 < deps, deps, dgrad2)
         p[bid] -= alpha * (d * np.vstack(dgrads) / dgrad2).T  # Project
@@ -761,6 +755,25 @@ def _improve_level_set_newton(p, t, fd, deps, tol):
     return p
 
 
+def _level_set_gradient(p, fd, d, deps):
+    """Gradient of the level set `fd` (with values `d` at `p`) by finite differences"""
+
+    def _deps_vec(i):
+        a = [0] * p.shape[1]
+        a[i] = deps
+        return a
+
+    dgrads = np.array([(fd(p + _deps_vec(i)) - d) / deps for i in range(p.shape[1])])
+    # outside an edge or corner of a box, equally far from several of its faces,
+    # all forward differences can vanish while the backward ones do not
+    ix = np.all(dgrads == 0.0, axis=0)
+    if ix.any():
+        dgrads[:, ix] = [
+            (d[ix] - fd(p[ix] - _deps_vec(i))) / deps for i in range(p.shape[1])
+        ]
+    return dgrads
+
+
 def _project_points_back_newton(p, fd, deps, hmin, idx):
     """Project points outside the domain back with one iteration of Newton minimization method
     finding the root of f(p)
@@ -773,13 +786,7 @@ def _project_points_back_newton(p, fd, deps, hmin, idx):
     else:
         ix = np.logical_and(d > 0.0, d < hmin / 1.5)
     if ix.any():
-
-        def _deps_vec(i):
-            a = [0] * dim
-            a[i] = deps
-            return a
-
-        dgrads = [(fd(p[ix] + _deps_vec(i)) - d[ix]) / deps for i in range(dim)]
+        dgrads = _level_set_gradient(p[ix], fd, d[ix], deps)
         dgrad2 = sum(dgrad**2 for dgrad in dgrads)
         dgrad2 = np.where(dgrad2 < deps, deps, dgrad2)
         p[ix] -= (d[ix] * np.vstack(dgrads) / dgrad2).T  # Project
-- 
2.43.0


From a4551556bf9269d957fc351ceff6fa98f8bf615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 26/49] fix: the final projection onto the boundary must not
 turn cells over

---
 SeismicMesh/generation/mesh_generator.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 4d6c09b..055fb0e 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -491,7 +491,9 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
                 p, t, gen_opts, comm, verbose=gen_opts["verbose"], pfix=pfix
             )
             if comm.rank == 0:
+                pold = p.copy()
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
+                p = _undo_inversions(p, pold, t)
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
             break
 
@@ -755,6 +757,18 @@ def _improve_level_set_newton(p, t, fd, deps, tol):
     return p
 
 
+def _undo_inversions(p, pold, t):
+    """Shorten the moves from `pold` to `p` that turn cells over"""
+    move = p - pold
+    step = np.ones(len(p))
+    while True:
+        bad = np.unique(t[geometry.simp_vol(p, t) <= 0.0])
+        if not step[bad].any():
+            return p
+        step[bad] = np.where(step[bad] > 0.1, step[bad] / 2, 0.0)
+        p[bad] = pold[bad] + step[bad, None] * move[bad]
+
+
 def _level_set_gradient(p, fd, d, deps):
     """Gradient of the level set `fd` (with values `d` at `p`) by finite differences"""
 
-- 
2.43.0


From 2c7a008222d1ed37e04b2ba2ea13e84e95333615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 27/49] fix: delete vertices left unused by the last removal of
 cells

---
 SeismicMesh/generation/mesh_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 055fb0e..6dd74b3 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -495,6 +495,8 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
                 p = _undo_inversions(p, pold, t)
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
+                # removing cells can leave vertices without any
+                p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
             break
 
         # Compute the forces on the edges
-- 
2.43.0


From 1e250c7cab5feeb7e1816517e2d653402bf7b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 28/49] fix: cells that end up outside are removed also when
 turned over

---
 SeismicMesh/generation/mesh_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 6dd74b3..7b06edb 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -493,8 +493,10 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
             if comm.rank == 0:
                 pold = p.copy()
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
+                # cells that would end up outside go, also if they are turned over
+                inside = _remove_triangles_outside(p, t, fd, h0 * 0.001)
                 p = _undo_inversions(p, pold, t)
-                t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
+                t = inside
                 # removing cells can leave vertices without any
                 p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
             break
-- 
2.43.0


From e99d482d037dd600f066b3ec177469e32e73cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 29/49] fix: the final projection must not turn over cells that
 were flat before it

---
 SeismicMesh/generation/mesh_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 7b06edb..fc01b8d 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -765,8 +765,11 @@ def _undo_inversions(p, pold, t):
     """Shorten the moves from `pold` to `p` that turn cells over"""
     move = p - pold
     step = np.ones(len(p))
+    # the orientation of a flat cell is arbitrary, moving it could turn it over
+    vol = np.abs(geometry.simp_vol(pold, t))
+    flat = vol <= 1e-9 * np.mean(vol)
     while True:
-        bad = np.unique(t[geometry.simp_vol(p, t) <= 0.0])
+        bad = np.unique(t[np.logical_or(flat, geometry.simp_vol(p, t) <= 0.0)])
         if not step[bad].any():
             return p
         step[bad] = np.where(step[bad] > 0.1, step[bad] / 2, 0.0)
-- 
2.43.0


From 4159538653d7e5391d6fbe0605d4d544cbbd98b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 30/49] fix: flat cells may move as long as they stay flat in
 the final projection

---
 SeismicMesh/generation/mesh_generator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index fc01b8d..54d56f0 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -765,11 +765,13 @@ def _undo_inversions(p, pold, t):
     """Shorten the moves from `pold` to `p` that turn cells over"""
     move = p - pold
     step = np.ones(len(p))
-    # the orientation of a flat cell is arbitrary, moving it could turn it over
+    # the orientation of a flat cell is arbitrary, so it has to stay flat
     vol = np.abs(geometry.simp_vol(pold, t))
-    flat = vol <= 1e-9 * np.mean(vol)
+    tol = 1e-9 * np.mean(vol)
+    flat = vol <= tol
     while True:
-        bad = np.unique(t[np.logical_or(flat, geometry.simp_vol(p, t) <= 0.0)])
+        vol = geometry.simp_vol(p, t)
+        bad = np.unique(t[np.where(flat, np.abs(vol) > tol, vol <= 0.0)])
         if not step[bad].any():
             return p
         step[bad] = np.where(step[bad] > 0.1, step[bad] / 2, 0.0)
-- 
2.43.0


From d937ccb907c794a94448667b669eb2a19c6b9ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 31/49] fix: remove all flat boundary cells of 2D meshes

---
 SeismicMesh/generation/mesh_generator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 54d56f0..bbcd128 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -669,6 +669,13 @@ def _termination(p, t, opts, comm, sliver=False, verbose=1, pfix=None):
     # delete and perform laplacian smoothing for big min. quality improvement
     if comm.rank == 0 and dim == 2:
         p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
+        # flat cells along a straight hull can lie behind each other
+        num_entities = 0
+        while len(t) != num_entities:
+            num_entities = len(t)
+            p, t = geometry.delete_boundary_entities(
+                p, t, dim=2, min_qual=1e-6, verbose=0
+            )
         p, t = geometry.delete_boundary_entities(
             p, t, dim=2, min_qual=0.15, verbose=verbose
         )
-- 
2.43.0


From 6a20465e2452c7ae0910c6694bdf2c19acb556d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:39 +0000
Subject: [PATCH 32/49] fix: the final projection may flatten cells that are
 removed afterwards

---
 SeismicMesh/generation/mesh_generator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index bbcd128..f0960b4 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -494,9 +494,9 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
                 pold = p.copy()
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
                 # cells that would end up outside go, also if they are turned over
-                inside = _remove_triangles_outside(p, t, fd, h0 * 0.001)
-                p = _undo_inversions(p, pold, t)
-                t = inside
+                inside = fd(p[t].sum(1) / (dim + 1)) < -h0 * 0.001
+                p = _undo_inversions(p, pold, t, inside)
+                t = t[inside]
                 # removing cells can leave vertices without any
                 p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
             break
@@ -768,17 +768,19 @@ def _improve_level_set_newton(p, t, fd, deps, tol):
     return p
 
 
-def _undo_inversions(p, pold, t):
-    """Shorten the moves from `pold` to `p` that turn cells over"""
+def _undo_inversions(p, pold, t, inside):
+    """Shorten the moves from `pold` to `p` that turn cells over. Cells that
+    are not `inside` afterwards may become flat."""
     move = p - pold
     step = np.ones(len(p))
     # the orientation of a flat cell is arbitrary, so it has to stay flat
     vol = np.abs(geometry.simp_vol(pold, t))
     tol = 1e-9 * np.mean(vol)
     flat = vol <= tol
+    min_vol = np.where(inside, 0.0, -1e-4 * np.mean(vol))
     while True:
         vol = geometry.simp_vol(p, t)
-        bad = np.unique(t[np.where(flat, np.abs(vol) > tol, vol <= 0.0)])
+        bad = np.unique(t[np.where(flat, np.abs(vol) > tol, vol <= min_vol)])
         if not step[bad].any():
             return p
         step[bad] = np.where(step[bad] > 0.1, step[bad] / 2, 0.0)
-- 
2.43.0


From a6cb943358ace93126d65cdc5aa67c3975ea8376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:39 +0000
Subject: [PATCH 33/49] fix: project vertices beyond edges and corners all the
 way back to the boundary

---
 SeismicMesh/generation/mesh_generator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index f0960b4..5c357f1 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -765,6 +765,16 @@ def _improve_level_set_newton(p, t, fd, deps, tol):
         dgrad2 = np.where(dgrad2 < deps, deps, dgrad2)
         p[bid] -= alpha * (d * np.vstack(dgrads) / dgrad2).T  # Project
         alpha /= iteration + 1
+    # close to edges and corners the damped iteration leaves vertices outside
+    for iteration in range(20):
+        d = fd(p[bid])
+        bid, d = bid[d > tol], d[d > tol]
+        if bid.size == 0:
+            break
+        dgrads = _level_set_gradient(p[bid], fd, d, deps)
+        dgrad2 = sum(dgrad**2 for dgrad in dgrads)
+        dgrad2 = np.where(dgrad2 < deps, deps, dgrad2)
+        p[bid] -= (d * np.vstack(dgrads) / dgrad2).T
     return p
 
 
-- 
2.43.0


From d97bc957331d2e3813ab2b6488a770f750a53468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 34/49] fix: the final projection onto the boundary leaves
 fixed points in place

---
 SeismicMesh/generation/mesh_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 5c357f1..aefa10c 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -493,6 +493,10 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
             if comm.rank == 0:
                 pold = p.copy()
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
+                # fixed points stay where they are
+                for fix in pfix[:nfix]:
+                    ix = _closest_node(fix, pold)
+                    p[ix] = pold[ix]
                 # cells that would end up outside go, also if they are turned over
                 inside = fd(p[t].sum(1) / (dim + 1)) < -h0 * 0.001
                 p = _undo_inversions(p, pold, t, inside)
-- 
2.43.0


From 5c6ab5a7a3c76bb2414aab63c181d6ea4bee3944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:49 +0000
Subject: [PATCH 35/49] fix: sliver removal is reproducible: the order of cells
 and of their vertices must not matter

---
 SeismicMesh/generation/mesh_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index aefa10c..7f2ff7c 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -219,6 +219,10 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         # Remove points outside the domain
         t = _remove_triangles_outside(p, t, fd, geps)
 
+        # the order in which CGAL returns cells and their vertices varies
+        t = np.roll(np.sort(t, axis=1), count, axis=1)
+        t = t[np.lexsort(t.T)]
+
         ele_nums, ix = _calc_dihedral_angles(p, t, min_dh_bound, max_dh_bound)
 
         # Number of iterations reached, stop.
-- 
2.43.0


From f7052840fb0fa119cf11e9a9315a67fb31f99707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 36/49] fix: export a point to both neighbours when its cells
 reach both, not only to the one below

---
 SeismicMesh/migration/cpp/cpputils.cpp | 74 +++++++++++---------------
 1 file changed, 30 insertions(+), 44 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index 0b07600..a01c8e2 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -89,11 +89,10 @@ std::vector<double> c_where_to2(std::vector<double> &points,
   int num_faces = faces.size() / 3;
   int num_points = points.size() / 2;
 
-  // Determine which rank to send the vertex (exports)
-  // exports[iv] is either 0 or 1 (0 for block owned by rank-1 and 1 for block
-  // owned by rank+1)
-  std::vector<int> exports;
-  exports.resize(num_points, -1);
+  // Determine which ranks to send the vertex to (block owned by rank-1 and/or
+  // block owned by rank+1)
+  std::vector<char> to_below(num_points, 0);
+  std::vector<char> to_above(num_points, 0);
 
   auto vtoe_map = build_vtoe2(points, faces);
 
@@ -112,6 +111,8 @@ std::vector<double> c_where_to2(std::vector<double> &points,
 
     for (std::size_t ie = 0; ie < vtoe_map[iv].size(); ++ie) {
 
+      if (to_below[iv] && to_above[iv]) break;
+
       int nei_ele = vtoe_map[iv][ie];
 
       // Indices of element into points
@@ -149,40 +150,32 @@ std::vector<double> c_where_to2(std::vector<double> &points,
         double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3);
         Circle circ = Circle(cc, sqr_radius, CGAL::CLOCKWISE);
         // Does this circumball intersect with box above or box below?
-        bool intersects;
-        intersects = CGAL::do_intersect(circ, rect1);
-        if (intersects){
-            exports[iv] = 0;
+        if (!to_below[iv] && CGAL::do_intersect(circ, rect1)) {
+            to_below[iv] = 1;
             kount_below += 1.0;
-            break;
         }
-        intersects = CGAL::do_intersect(circ, rect2);
-        if (intersects){
-            exports[iv] = 1;
+        if (!to_above[iv] && CGAL::do_intersect(circ, rect2)) {
+            to_above[iv] = 1;
             kount_above += 1.0;
-            break;
         }
       }
     }
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize((1 + num_points) * 3, -1);
+  pointsToMigrate.resize((1 + 2 * num_points) * 3, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
 
   for (std::size_t iv = 0; iv < num_points; ++iv) {
-    if (exports[iv] == -1){
-        continue;
-    }
-    if (exports[iv] == 0) {
+    if (to_below[iv]) {
       pointsToMigrate[below_count * 3 + 0 + 3] = points[iv * 2];
       pointsToMigrate[below_count * 3 + 1 + 3] = points[iv * 2 + 1];
       pointsToMigrate[below_count * 3 + 2 + 3] = (double)iv;
       below_count += 1.0;
     }
-    else if (exports[iv] ==1){
+    if (to_above[iv]) {
       pointsToMigrate[kount_below * 3 + above_count * 3 + 0 + 3] =
           points[iv * 2];
       pointsToMigrate[kount_below * 3 + above_count * 3 + 1 + 3] =
@@ -229,7 +222,7 @@ where_to2(py::array_t<double, py::array::c_style | py::array::forcecast> points,
 
   ssize_t sodble = sizeof(double);
   ssize_t ndim = 2;
-  std::vector<ssize_t> shape = {1 + num_points, 3};
+  std::vector<ssize_t> shape = {1 + 2 * num_points, 3};
   std::vector<ssize_t> strides = {sodble * 3, sodble};
 
   // return 2-D NumPy array
@@ -252,11 +245,10 @@ std::vector<double> c_where_to3(std::vector<double> &points,
   int num_faces = faces.size() / 4;
   int num_points = points.size() / 3;
 
-  // Determine which rank to send the vertex (exports)
-  // exports[iv] is either 0 or 1 (0 for block owned by rank-1 and 1 for block
-  // owned by rank+1)
-  std::vector<int> exports;
-  exports.resize(num_points, -1);
+  // Determine which ranks to send the vertex to (block owned by rank-1 and/or
+  // block owned by rank+1)
+  std::vector<char> to_below(num_points, 0);
+  std::vector<char> to_above(num_points, 0);
 
   auto vtoe_map = build_vtoe3(points, faces);
 
@@ -277,6 +269,8 @@ std::vector<double> c_where_to3(std::vector<double> &points,
 
     for (std::size_t ie = 0; ie < vtoe_map[iv].size(); ++ie) {
 
+      if (to_below[iv] && to_above[iv]) break;
+
       int nei_ele = vtoe_map[iv][ie];
 
       // Indices of element into points
@@ -328,41 +322,33 @@ std::vector<double> c_where_to3(std::vector<double> &points,
          double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3, pnm4);
          Sphere sphere = Sphere(cc, sqr_radius, CGAL::CLOCKWISE);
          // Does this circumball intersect with box above or box below?
-         bool intersects;
-         intersects = CGAL::do_intersect(sphere, cube1);
-         if (intersects){
-             exports[iv] = 0;
+         if (!to_below[iv] && CGAL::do_intersect(sphere, cube1)) {
+             to_below[iv] = 1;
              kount_below += 1.0;
-             break;
          }
-         intersects = CGAL::do_intersect(sphere, cube2);
-         if (intersects){
-              exports[iv] = 1;
-              kount_above += 1.0;
-              break;
-          }
+         if (!to_above[iv] && CGAL::do_intersect(sphere, cube2)) {
+             to_above[iv] = 1;
+             kount_above += 1.0;
+         }
         }
      }
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize((1 + num_points) * 4, -1);
+  pointsToMigrate.resize((1 + 2 * num_points) * 4, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
 
   for (std::size_t iv = 0; iv < num_points; ++iv) {
-      if (exports[iv] == -1){
-          continue;
-      }
-    if (exports[iv] == 0) {
+    if (to_below[iv]) {
       pointsToMigrate[below_count * 4 + 0 + 4] = points[iv * 3];
       pointsToMigrate[below_count * 4 + 1 + 4] = points[iv * 3 + 1];
       pointsToMigrate[below_count * 4 + 2 + 4] = points[iv * 3 + 2];
       pointsToMigrate[below_count * 4 + 3 + 4] = (double)iv;
       below_count += 1.0;
     }
-    else if (exports[iv] == 1) {
+    if (to_above[iv]) {
       pointsToMigrate[kount_below * 4 + above_count * 4 + 0 + 4] =
           points[iv * 3];
       pointsToMigrate[kount_below * 4 + above_count * 4 + 1 + 4] =
@@ -413,7 +399,7 @@ where_to3(py::array_t<double, py::array::c_style | py::array::forcecast> points,
 
   ssize_t sodble = sizeof(double);
   ssize_t ndim = 2;
-  std::vector<ssize_t> shape = {1 + num_points, 4};
+  std::vector<ssize_t> shape = {1 + 2 * num_points, 4};
   std::vector<ssize_t> strides = {sodble * 4, sodble};
 
   // return 2-D NumPy array
-- 
2.43.0


From a6540e4f06436259ebc37fe01d5ba3d2311999c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:38 +0000
Subject: [PATCH 37/49] fix: export also the points of cells whose circumball
 contains a neighbour's box

---
 SeismicMesh/migration/cpp/cpputils.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index a01c8e2..383b502 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -81,6 +81,14 @@ double calc_4x4dete(std::vector<double> &m) {
          m[4] * m[1] * m[10] * m[15] + m[0] * m[5] * m[10] * m[15];
 }
 
+// Does the ball bounded by a circle or sphere reach a box? (CGAL's
+// do_intersect is about the circle or sphere itself, so it is false when the
+// box lies strictly inside.)
+template <class Ball, class Box> bool reaches(const Ball &ball, const Box &box) {
+  return CGAL::do_intersect(ball, box) ||
+         ball.has_on_bounded_side(box.vertex(0));
+}
+
 // determine which rank points need to be exported to in 2D
 std::vector<double> c_where_to2(std::vector<double> &points,
                                 std::vector<int> &faces,
@@ -150,11 +158,11 @@ std::vector<double> c_where_to2(std::vector<double> &points,
         double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3);
         Circle circ = Circle(cc, sqr_radius, CGAL::CLOCKWISE);
         // Does this circumball intersect with box above or box below?
-        if (!to_below[iv] && CGAL::do_intersect(circ, rect1)) {
+        if (!to_below[iv] && reaches(circ, rect1)) {
             to_below[iv] = 1;
             kount_below += 1.0;
         }
-        if (!to_above[iv] && CGAL::do_intersect(circ, rect2)) {
+        if (!to_above[iv] && reaches(circ, rect2)) {
             to_above[iv] = 1;
             kount_above += 1.0;
         }
@@ -322,11 +330,11 @@ std::vector<double> c_where_to3(std::vector<double> &points,
          double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3, pnm4);
          Sphere sphere = Sphere(cc, sqr_radius, CGAL::CLOCKWISE);
          // Does this circumball intersect with box above or box below?
-         if (!to_below[iv] && CGAL::do_intersect(sphere, cube1)) {
+         if (!to_below[iv] && reaches(sphere, cube1)) {
              to_below[iv] = 1;
              kount_below += 1.0;
          }
-         if (!to_above[iv] && CGAL::do_intersect(sphere, cube2)) {
+         if (!to_above[iv] && reaches(sphere, cube2)) {
              to_above[iv] = 1;
              kount_above += 1.0;
          }
-- 
2.43.0


From 49e23918e43edd3a6ee5589f89eca776cef15df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:32 +0000
Subject: [PATCH 38/49] fix: blocker puts every point into exactly one of
 num_blocks blocks

---
 SeismicMesh/decomp/blocker.py | 86 +++--------------------------------
 1 file changed, 7 insertions(+), 79 deletions(-)

diff --git a/SeismicMesh/decomp/blocker.py b/SeismicMesh/decomp/blocker.py
index 979d74c..97a7cc2 100644
--- a/SeismicMesh/decomp/blocker.py
+++ b/SeismicMesh/decomp/blocker.py
@@ -7,81 +7,21 @@ def blocker(points, rank, num_blocks, axis=0):
     above and below/left and right to the block depending on axis.
     """
     num_points, dim = points.shape
-    EPS = np.finfo(float).eps
 
     if dim < 2 or dim > 3:
         raise ValueError("Dimensions of points are not supported")
     assert num_points // num_blocks > 1, "too few points for chosen num_blocks"
 
-    x_lims = points[:, 0].min() - EPS, points[:, 0].max() + EPS
-    y_lims = points[:, 1].min() - EPS, points[:, 1].max() + EPS
-    if dim > 2:
-        z_lims = points[:, 2].min() - EPS, points[:, 2].max() + EPS
+    # blocks parallel to x follow each other along y and vice versa
+    x = points[:, {0: 1, 1: 0, 2: 2}[axis]]
+    lims = np.linspace(x.min(), x.max(), num_blocks + 1)
+    # every point belongs to exactly one block
+    ix = np.searchsorted(lims[1:-1], x, side="right")
 
-    if axis == 0:
-        if dim == 2:
-            xx, yy = np.meshgrid(
-                np.linspace(*x_lims, 1, endpoint=False),
-                np.linspace(*y_lims, num_blocks, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / 1
-            dy = (y_lims[1] - y_lims[0]) / num_blocks
-        elif dim == 3:
-            xx, yy, zz = np.meshgrid(
-                np.linspace(*x_lims, 1, endpoint=False),
-                np.linspace(*y_lims, num_blocks, endpoint=False),
-                np.linspace(*z_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / 1
-            dy = (y_lims[1] - y_lims[0]) / num_blocks
-            dz = (z_lims[1] - z_lims[0]) / 1
-
-    elif axis == 1:
-        if dim == 2:
-            xx, yy = np.meshgrid(
-                np.linspace(*x_lims, num_blocks, endpoint=False),
-                np.linspace(*y_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / num_blocks
-            dy = (y_lims[1] - y_lims[0]) / 1
-        elif dim == 3:
-            xx, yy, zz = np.meshgrid(
-                np.linspace(*x_lims, num_blocks, endpoint=False),
-                np.linspace(*y_lims, 1, endpoint=False),
-                np.linspace(*z_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / num_blocks
-            dy = (y_lims[1] - y_lims[0]) / 1
-            dz = (z_lims[1] - z_lims[0]) / 1
-    elif axis == 2:
-        xx, yy, zz = np.meshgrid(
-            np.linspace(*x_lims, 1, endpoint=False),
-            np.linspace(*y_lims, num_blocks, endpoint=False),
-            np.linspace(*z_lims, num_blocks, endpoint=False),
-        )
-
-        dx = (x_lims[1] - x_lims[0]) / 1
-        dy = (y_lims[1] - y_lims[0]) / 1
-        dz = (z_lims[1] - z_lims[0]) / num_blocks
-
-    blocks = []
-    block_extents = []
+    blocks = [points[ix == i] for i in range(num_blocks)]
+    blocks = [block for block in blocks if block.shape[0]]
 
     if dim == 2:
-        for low_x, low_y in zip(xx.ravel(), yy.ravel()):
-            block = points[
-                (points[:, 0] >= low_x)
-                & (points[:, 0] <= low_x + dx)
-                & (points[:, 1] >= low_y)
-                & (points[:, 1] <= low_y + dy)
-            ]
-            if block.shape[0]:
-                blocks.append(block)
-
         block_extents = []
         for block in blocks:
             tmpm = np.amin(block, axis=0)
@@ -89,18 +29,6 @@ def blocker(points, rank, num_blocks, axis=0):
             # min x min y max x max y
             block_extents.append([tmpm[0], tmpm[1], tmpp[0], tmpp[1]])
     elif dim == 3:
-        for low_x, low_y, low_z in zip(xx.ravel(), yy.ravel(), zz.ravel()):
-            block = points[
-                (points[:, 0] >= low_x)
-                & (points[:, 0] <= low_x + dx)
-                & (points[:, 1] >= low_y)
-                & (points[:, 1] <= low_y + dy)
-                & (points[:, 2] >= low_z)
-                & (points[:, 2] <= low_z + dz)
-            ]
-            if block.shape[0]:
-                blocks.append(block)
-
         block_extents = []
         for block in blocks:
             tmpm = np.amin(block, axis=0)
-- 
2.43.0


From dcb2725f2d290f19f65606c4cdd0c6e43324de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:51 +0000
Subject: [PATCH 39/49] fix: restart in parallel with a sizing function that is
 a plain function

---
 SeismicMesh/generation/mesh_generator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 7f2ff7c..0037e1e 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -843,7 +843,7 @@ def _project_points_back_newton(p, fd, deps, hmin, idx):
     return p
 
 
-def _user_defined_points(dim, fh, h0, bbox, points, comm, opts):
+def _user_defined_points(dim, fh, h0, bbox, points, comm, opts, lsf):
     """If the user has supplied initial points"""
     if comm.size > 1:
         # Domain decompose and localize points
@@ -855,7 +855,10 @@ def _user_defined_points(dim, fh, h0, bbox, points, comm, opts):
         else:
             blocks = None
             extents = None
-        fh = migration.localize_sizing_function(fh, h0, bbox, dim, opts["axis"], comm)
+        if lsf:
+            fh = migration.localize_sizing_function(
+                fh, h0, bbox, dim, opts["axis"], comm
+            )
         # send points to each subdomain
         p, extents = migration.localize_points(blocks, extents, comm, dim)
     else:
@@ -919,7 +922,9 @@ def _initialize_points(dim, geps, bbox, fh, fd, h0, opts, pfix, comm, lsf):
             h0, geps, dim, bbox, fh, fd, pfix, comm, opts, lsf
         )
     else:
-        fh, p, extents = _user_defined_points(dim, fh, h0, bbox, points, comm, opts)
+        fh, p, extents = _user_defined_points(
+            dim, fh, h0, bbox, points, comm, opts, lsf
+        )
     return fh, p, extents
 
 
-- 
2.43.0


From ee9d5983030c60bc5bfd40477c418463be38b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:24 +0000
Subject: [PATCH 40/49] fix: parallel restarts decompose along the requested
 axis, with room for the points to move

---
 SeismicMesh/generation/mesh_generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 0037e1e..81b2523 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -849,8 +849,10 @@ def _user_defined_points(dim, fh, h0, bbox, points, comm, opts, lsf):
         # Domain decompose and localize points
         p = None
         if comm.rank == 0:
+            # blocks parallel to x follow each other along y and vice versa
+            parallel_to = {0: 1, 1: 0, 2: 2}[opts["axis"]]
             blocks, extents = decomp.blocker(
-                points=points, rank=comm.rank, num_blocks=comm.size, axis=opts["axis"]
+                points=points, rank=comm.rank, num_blocks=comm.size, axis=parallel_to
             )
         else:
             blocks = None
@@ -860,7 +862,8 @@ def _user_defined_points(dim, fh, h0, bbox, points, comm, opts, lsf):
                 fh, h0, bbox, dim, opts["axis"], comm
             )
         # send points to each subdomain
-        p, extents = migration.localize_points(blocks, extents, comm, dim)
+        p, _ = migration.localize_points(blocks, extents, comm, dim)
+        extents = _form_extents(p, h0, comm, opts)
     else:
         p = points
         extents = None
-- 
2.43.0


From 2b3e4ada2389b4d831721f7db33b7aeed81e530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:58 +0000
Subject: [PATCH 41/49] fix: test the bounding box of the circumball, not of
 the element, before exporting points

---
 SeismicMesh/migration/cpp/cpputils.cpp | 151 +++++++++++--------------
 1 file changed, 63 insertions(+), 88 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index 383b502..914c27a 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -128,44 +128,33 @@ std::vector<double> c_where_to2(std::vector<double> &points,
       int nm2 = faces[nei_ele * 3 + 1];
       int nm3 = faces[nei_ele * 3 + 2];
 
-      // Test if this element has a bounding box that intersects with one of the rectangles
+      // Coordinates of each vertex of element
+      Point pnm1 = Point(points[nm1 * 2], points[nm1 * 2 + 1]);
+      Point pnm2 = Point(points[nm2 * 2], points[nm2 * 2 + 1]);
+      Point pnm3 = Point(points[nm3 * 2], points[nm3 * 2 + 1]);
+      bool isCollinear = CGAL::collinear(pnm1, pnm2, pnm3);
+      // if this happens we cannot test accurately
+      if (isCollinear) {
+        // std::cout<<"point is collinear" << std::endl;
+        continue;
+      }
+      // Calculate circumball of element
+      Point cc = CGAL::circumcenter(pnm1, pnm2, pnm3);
+      double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3);
+      Circle circ = Circle(cc, sqr_radius, CGAL::CLOCKWISE);
+      // Test if this ball has a bounding box that intersects with one of the boxes
       // otherwise go no further
-      std::array<double, 3> ele_x = {points[nm1*2], points[nm2*2], points[nm3*2]};
-      std::array<double, 3> ele_y = {points[nm1*2+1], points[nm2*2+1], points[nm3*2+1]};
-
-      auto min_x = std::min_element(std::begin(ele_x), std::end(ele_x));
-      auto min_y = std::min_element(std::begin(ele_y), std::end(ele_y));
-
-      auto max_x = std::max_element(std::begin(ele_x), std::end(ele_x));
-      auto max_y = std::max_element(std::begin(ele_y), std::end(ele_y));
-
-      CGAL::Bbox_2 ball_bbox = CGAL::Bbox_2(*min_x, *min_y, *max_x, *max_y);
-
-      if(CGAL::do_overlap(ball_bbox, rect1_bbox) or CGAL::do_overlap(ball_bbox, rect2_bbox)){
-
-        // Coordinates of each vertex of element
-        Point pnm1 = Point(points[nm1 * 2], points[nm1 * 2 + 1]);
-        Point pnm2 = Point(points[nm2 * 2], points[nm2 * 2 + 1]);
-        Point pnm3 = Point(points[nm3 * 2], points[nm3 * 2 + 1]);
-        bool isCollinear = CGAL::collinear(pnm1, pnm2, pnm3);
-        // if this happens we cannot test accurately
-        if (isCollinear) {
-          // std::cout<<"point is collinear" << std::endl;
-          continue;
-        }
-        // Calculate circumball of element
-        Point cc = CGAL::circumcenter(pnm1, pnm2, pnm3);
-        double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3);
-        Circle circ = Circle(cc, sqr_radius, CGAL::CLOCKWISE);
-        // Does this circumball intersect with box above or box below?
-        if (!to_below[iv] && reaches(circ, rect1)) {
-            to_below[iv] = 1;
-            kount_below += 1.0;
-        }
-        if (!to_above[iv] && reaches(circ, rect2)) {
-            to_above[iv] = 1;
-            kount_above += 1.0;
-        }
+      CGAL::Bbox_2 ball_bbox = circ.bbox();
+      if (!CGAL::do_overlap(ball_bbox, rect1_bbox) && !CGAL::do_overlap(ball_bbox, rect2_bbox))
+        continue;
+      // Does this circumball intersect with box above or box below?
+      if (!to_below[iv] && reaches(circ, rect1)) {
+          to_below[iv] = 1;
+          kount_below += 1.0;
+      }
+      if (!to_above[iv] && reaches(circ, rect2)) {
+          to_above[iv] = 1;
+          kount_above += 1.0;
       }
     }
   }
@@ -287,58 +276,44 @@ std::vector<double> c_where_to3(std::vector<double> &points,
       int nm3 = faces[nei_ele * 4 + 2];
       int nm4 = faces[nei_ele * 4 + 3];
 
-      // Test if this element has a bounding box that intersects with one of the rectangles
+      // Coordinates of each vertex of element
+      Point3 pnm1 =
+          Point3(points[nm1 * 3], points[nm1 * 3 + 1], points[nm1 * 3 + 2]);
+      Point3 pnm2 =
+          Point3(points[nm2 * 3], points[nm2 * 3 + 1], points[nm2 * 3 + 2]);
+      Point3 pnm3 =
+          Point3(points[nm3 * 3], points[nm3 * 3 + 1], points[nm3 * 3 + 2]);
+      Point3 pnm4 =
+          Point3(points[nm4 * 3], points[nm4 * 3 + 1], points[nm4 * 3 + 2]);
+
+      if (volume(pnm1, pnm2, pnm3, pnm4) == 0) {
+        continue;
+      }
+
+      bool isCoplanar = CGAL::coplanar(pnm1, pnm2, pnm3, pnm4);
+      if (isCoplanar) {
+        // std::cout<<"alert"<<std::endl;
+        continue;
+      }
+
+      // Calculate circumball of element
+      Point3 cc = CGAL::circumcenter(pnm1, pnm2, pnm3, pnm4);
+      double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3, pnm4);
+      Sphere sphere = Sphere(cc, sqr_radius, CGAL::CLOCKWISE);
+      // Test if this ball has a bounding box that intersects with one of the boxes
       // otherwise go no further
-      std::array<double, 4> ele_x = {points[nm1*3], points[nm2*3], points[nm3*3], points[nm4*3]};
-      std::array<double, 4> ele_y = {points[nm1*3+1], points[nm2*3+1], points[nm3*3+1], points[nm4*3+1]};
-      std::array<double, 4> ele_z = {points[nm1*3+2], points[nm2*3+2], points[nm3*3+2], points[nm4*3+2]};
-
-      auto min_x = std::min_element(std::begin(ele_x), std::end(ele_x));
-      auto min_y = std::min_element(std::begin(ele_y), std::end(ele_y));
-      auto min_z = std::min_element(std::begin(ele_z), std::end(ele_z));
-
-      auto max_x = std::max_element(std::begin(ele_x), std::end(ele_x));
-      auto max_y = std::max_element(std::begin(ele_y), std::end(ele_y));
-      auto max_z = std::max_element(std::begin(ele_z), std::end(ele_z));
-
-      CGAL::Bbox_3 sphere_bbox = CGAL::Bbox_3(*min_x, *min_y, *min_z, *max_x, *max_y, *max_z);
-
-      if(CGAL::do_overlap(sphere_bbox, cuboid1_bbox) or CGAL::do_overlap(sphere_bbox, cuboid2_bbox)){
-
-         // Coordinates of each vertex of element
-         Point3 pnm1 =
-             Point3(points[nm1 * 3], points[nm1 * 3 + 1], points[nm1 * 3 + 2]);
-         Point3 pnm2 =
-             Point3(points[nm2 * 3], points[nm2 * 3 + 1], points[nm2 * 3 + 2]);
-         Point3 pnm3 =
-             Point3(points[nm3 * 3], points[nm3 * 3 + 1], points[nm3 * 3 + 2]);
-         Point3 pnm4 =
-             Point3(points[nm4 * 3], points[nm4 * 3 + 1], points[nm4 * 3 + 2]);
-
-         if (volume(pnm1, pnm2, pnm3, pnm4) == 0) {
-           continue;
-         }
-
-         bool isCoplanar = CGAL::coplanar(pnm1, pnm2, pnm3, pnm4);
-         if (isCoplanar) {
-           // std::cout<<"alert"<<std::endl;
-           continue;
-         }
-
-         // Calculate circumball of element
-         Point3 cc = CGAL::circumcenter(pnm1, pnm2, pnm3, pnm4);
-         double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3, pnm4);
-         Sphere sphere = Sphere(cc, sqr_radius, CGAL::CLOCKWISE);
-         // Does this circumball intersect with box above or box below?
-         if (!to_below[iv] && reaches(sphere, cube1)) {
-             to_below[iv] = 1;
-             kount_below += 1.0;
-         }
-         if (!to_above[iv] && reaches(sphere, cube2)) {
-             to_above[iv] = 1;
-             kount_above += 1.0;
-         }
-        }
+      CGAL::Bbox_3 sphere_bbox = sphere.bbox();
+      if (!CGAL::do_overlap(sphere_bbox, cuboid1_bbox) && !CGAL::do_overlap(sphere_bbox, cuboid2_bbox))
+        continue;
+      // Does this circumball intersect with box above or box below?
+      if (!to_below[iv] && reaches(sphere, cube1)) {
+          to_below[iv] = 1;
+          kount_below += 1.0;
+      }
+      if (!to_above[iv] && reaches(sphere, cube2)) {
+          to_above[iv] = 1;
+          kount_above += 1.0;
+      }
      }
   }
 
-- 
2.43.0


From 58193d2f1f27cdbde9fb46e2a6b0de08f8d96312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:58 +0000
Subject: [PATCH 42/49] fix: do not crash on nearly flat elements whose
 circumcenter overflows when exporting points

---
 SeismicMesh/migration/cpp/cpputils.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index 914c27a..d9b2dd7 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -15,6 +15,7 @@
 #include <CGAL/Bbox_3.h>
 
 #include <assert.h>
+#include <cmath>
 #include <vector>
 
 #include <iterator>
@@ -141,6 +142,10 @@ std::vector<double> c_where_to2(std::vector<double> &points,
       // Calculate circumball of element
       Point cc = CGAL::circumcenter(pnm1, pnm2, pnm3);
       double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3);
+      // likewise if the circumcenter of a nearly flat element is not representable
+      if (!std::isfinite(cc.x() + cc.y() + sqr_radius)) {
+        continue;
+      }
       Circle circ = Circle(cc, sqr_radius, CGAL::CLOCKWISE);
       // Test if this ball has a bounding box that intersects with one of the boxes
       // otherwise go no further
@@ -299,6 +304,10 @@ std::vector<double> c_where_to3(std::vector<double> &points,
       // Calculate circumball of element
       Point3 cc = CGAL::circumcenter(pnm1, pnm2, pnm3, pnm4);
       double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3, pnm4);
+      // likewise if the circumcenter of a nearly flat element is not representable
+      if (!std::isfinite(cc.x() + cc.y() + cc.z() + sqr_radius)) {
+        continue;
+      }
       Sphere sphere = Sphere(cc, sqr_radius, CGAL::CLOCKWISE);
       // Test if this ball has a bounding box that intersects with one of the boxes
       // otherwise go no further
-- 
2.43.0


From 940e42dcbe0738e5e99f1113d4e87d38b9690d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 43/49] fix: keep the dummy boxes of the first and last rank
 out of reach of large circumballs

---
 SeismicMesh/migration/migration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/migration/migration.py b/SeismicMesh/migration/migration.py
index ac82428..1430b82 100644
--- a/SeismicMesh/migration/migration.py
+++ b/SeismicMesh/migration/migration.py
@@ -130,12 +130,12 @@ def enqueue(extents, points, faces, rank, size, dim=2):
 
     # add dummy box above if rank==0 or under if rank=size-1
     if rank == size - 1:
-        le = np.append(le, [-999999999] * dim)
-        re = np.append(re, [-999999998] * dim)
+        le = np.append(le, [-2e99] * dim)
+        re = np.append(re, [-1e99] * dim)
 
     if rank == 0:
-        le = np.insert(le, 0, [-999999999] * dim)
-        re = np.insert(re, 0, [-999999998] * dim)
+        le = np.insert(le, 0, [-2e99] * dim)
+        re = np.insert(re, 0, [-1e99] * dim)
 
     if dim == 2:
         exports = cpputils.where_to2(points, faces, le, re, rank)
-- 
2.43.0


From cf22063073372cd39c5a1af07c6780c400f42457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:45 +0000
Subject: [PATCH 44/49] fix: export points on the convex hull that can see a
 neighbour's box

A point of the neighbour beyond a hull facet lies in no circumball, so ranks
with a gap between them triangulated across each other's cells.
---
 SeismicMesh/migration/cpp/cpputils.cpp | 81 ++++++++++++++++++++++++--
 1 file changed, 77 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index d9b2dd7..cecfe44 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -14,6 +14,8 @@
 #include <CGAL/Bbox_2.h>
 #include <CGAL/Bbox_3.h>
 
+#include <algorithm>
+#include <array>
 #include <assert.h>
 #include <cmath>
 #include <vector>
@@ -90,6 +92,69 @@ template <class Ball, class Box> bool reaches(const Ball &ball, const Box &box)
          ball.has_on_bounded_side(box.vertex(0));
 }
 
+// Mark the vertices of those facets of the convex hull of the mesh from which a
+// box can be seen: a point in the box may connect to them although it lies in
+// no circumball.
+template <int DIM>
+void mark_hull(const std::vector<double> &points, const std::vector<int> &faces,
+               const double *llc, const double *urc, std::vector<char> &mark) {
+  // the dummy box of the first and last rank, see enqueue
+  if (urc[0] <= -1e99)
+    return;
+  // facets (sorted) and the vertex opposite to them
+  std::vector<std::array<int, DIM + 1>> facets;
+  facets.reserve(faces.size());
+  for (std::size_t e = 0; e < faces.size(); e += DIM + 1) {
+    for (int k = 0; k <= DIM; ++k) {
+      std::array<int, DIM + 1> facet;
+      for (int j = 0; j < DIM; ++j)
+        facet[j] = faces[e + (k + 1 + j) % (DIM + 1)];
+      std::sort(facet.begin(), facet.begin() + DIM);
+      facet[DIM] = faces[e + k];
+      facets.push_back(facet);
+    }
+  }
+  std::sort(facets.begin(), facets.end());
+  auto same = [](const std::array<int, DIM + 1> &a,
+                 const std::array<int, DIM + 1> &b) {
+    return std::equal(a.begin(), a.begin() + DIM, b.begin());
+  };
+  for (std::size_t i = 0; i < facets.size(); ++i) {
+    // facets of two elements are inside
+    if (i + 1 < facets.size() && same(facets[i], facets[i + 1])) {
+      ++i;
+      continue;
+    }
+    const double *a = &points[facets[i][0] * DIM];
+    const double *b = &points[facets[i][1] * DIM];
+    const double *c = &points[facets[i][DIM - 1] * DIM];
+    const double *opposite = &points[facets[i][DIM] * DIM];
+    double normal[DIM];
+    if (DIM == 2) {
+      normal[0] = b[1] - a[1];
+      normal[1] = a[0] - b[0];
+    } else {
+      for (int k = 0; k < DIM; ++k) {
+        int l = (k + 1) % DIM, m = (k + 2) % DIM;
+        normal[k] = (b[l] - a[l]) * (c[m] - a[m]) - (b[m] - a[m]) * (c[l] - a[l]);
+      }
+    }
+    double inside = 0.0, norm = 0.0, seen = 0.0, diagonal = 0.0;
+    for (int k = 0; k < DIM; ++k)
+      inside += normal[k] * (opposite[k] - a[k]);
+    for (int k = 0; k < DIM; ++k) {
+      double n = inside > 0.0 ? -normal[k] : normal[k];
+      seen += n * ((n > 0.0 ? urc[k] : llc[k]) - a[k]);
+      norm += n * n;
+      diagonal += (urc[k] - llc[k]) * (urc[k] - llc[k]);
+    }
+    if (seen > 1e-9 * std::sqrt(norm * diagonal)) {
+      for (int k = 0; k < DIM; ++k)
+        mark[facets[i][k]] = 1;
+    }
+  }
+}
+
 // determine which rank points need to be exported to in 2D
 std::vector<double> c_where_to2(std::vector<double> &points,
                                 std::vector<int> &faces,
@@ -103,10 +168,14 @@ std::vector<double> c_where_to2(std::vector<double> &points,
   std::vector<char> to_below(num_points, 0);
   std::vector<char> to_above(num_points, 0);
 
+  // points on the convex hull that can see the block below or above
+  mark_hull<2>(points, faces, &llc[0], &urc[0], to_below);
+  mark_hull<2>(points, faces, &llc[2], &urc[2], to_above);
+
   auto vtoe_map = build_vtoe2(points, faces);
 
-  double kount_below = 0.0;
-  double kount_above = 0.0;
+  double kount_below = std::count(to_below.begin(), to_below.end(), 1);
+  double kount_above = std::count(to_above.begin(), to_above.end(), 1);
 
  Rectangle rect1 = Rectangle(Point(llc[0 * 2], llc[0 * 2 + 1]),Point(urc[0 * 2], urc[0 * 2 + 1]));
  Rectangle rect2 = Rectangle(Point(llc[1 * 2], llc[1 * 2 + 1]),Point(urc[1 * 2], urc[1 * 2 + 1]));
@@ -252,10 +321,14 @@ std::vector<double> c_where_to3(std::vector<double> &points,
   std::vector<char> to_below(num_points, 0);
   std::vector<char> to_above(num_points, 0);
 
+  // points on the convex hull that can see the block below or above
+  mark_hull<3>(points, faces, &llc[0], &urc[0], to_below);
+  mark_hull<3>(points, faces, &llc[3], &urc[3], to_above);
+
   auto vtoe_map = build_vtoe3(points, faces);
 
-  double kount_below = 0.0;
-  double kount_above = 0.0;
+  double kount_below = std::count(to_below.begin(), to_below.end(), 1);
+  double kount_above = std::count(to_above.begin(), to_above.end(), 1);
 
   Cuboid cube1 = Cuboid(Point3(llc[0 * 3], llc[0 * 3 + 1], llc[0 * 3 + 2]),
                 Point3(urc[0 * 3], urc[0 * 3 + 1], urc[0 * 3 + 2]));
-- 
2.43.0


From 81d9e90c22cfbf68abca77eb49d083c156c65554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:24 +0000
Subject: [PATCH 45/49] fix: keep the coordinates of the velocity model's nodes
 in double precision

---
 SeismicMesh/sizing/mesh_size_function.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 4bbe578..f43f79b 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -518,12 +518,12 @@ def _get_dimensions(vp, bbox):
 
 
 def _get_vectors(dim, bbox, nz, nx, ny=None):
-    zvec = np.linspace(bbox[0], bbox[1], nz, dtype=np.float32)
-    xvec = np.linspace(bbox[2], bbox[3], nx, dtype=np.float32)
+    zvec = np.linspace(bbox[0], bbox[1], nz)
+    xvec = np.linspace(bbox[2], bbox[3], nx)
     if dim == 2:
         return zvec, xvec
     elif dim == 3:
-        yvec = np.linspace(bbox[4], bbox[5], ny, dtype=np.float32)
+        yvec = np.linspace(bbox[4], bbox[5], ny)
         return zvec, xvec, yvec
     else:
         raise ValueError("Dimension not supported")
-- 
2.43.0


From 9ec2c7821d013b68fb4fa95120bb155da12539bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:24 +0000
Subject: [PATCH 46/49] fix: keep the final projection from merging the
 vertices of a cell

Two vertices of a boundary cell could be projected onto the same corner of
the domain; the cell's volume was then a positive rounding error, so the
move was not undone, and fix_mesh merged the vertices into a cell that
names one vertex twice.
---
 SeismicMesh/generation/mesh_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 81b2523..aed1a92 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -795,7 +795,7 @@ def _undo_inversions(p, pold, t, inside):
     vol = np.abs(geometry.simp_vol(pold, t))
     tol = 1e-9 * np.mean(vol)
     flat = vol <= tol
-    min_vol = np.where(inside, 0.0, -1e-4 * np.mean(vol))
+    min_vol = np.where(inside, tol, -1e-4 * np.mean(vol))
     while True:
         vol = geometry.simp_vol(p, t)
         bad = np.unique(t[np.where(flat, np.abs(vol) > tol, vol <= min_vol)])
-- 
2.43.0


From 91a6f63ddfe9d8bcc8fc1bc7a90618fb7b695ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:39 +0000
Subject: [PATCH 47/49] fix: write the image of a shape to the file name given
 to show()

---
 .../geometry/signed_distance_functions.py     | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 59d3aaf..5ef1478 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -271,7 +271,7 @@ class Repeat:
         return np.maximum(self.domain.eval(q), self.parent.eval(x))
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 def _loop_call(func, d):
@@ -318,7 +318,7 @@ class Union:
             return _loop_call(self._smooth_union, d)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Intersection:
@@ -358,7 +358,7 @@ class Intersection:
             return _loop_call(self._smooth_intersection, d)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Difference:
@@ -400,7 +400,7 @@ class Difference:
             return _loop_call(lambda d1, d2: self._smooth_difference(d2, d1), d)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Disk:
@@ -421,7 +421,7 @@ class Disk:
         return _ddisk(x, self.xc, self.yc, self.r)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Ball:
@@ -445,7 +445,7 @@ class Ball:
         return dball(x, self.xc, self.yc, self.zc, self.r)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Rectangle:
@@ -466,7 +466,7 @@ class Rectangle:
         )
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Cube:
@@ -493,7 +493,7 @@ class Cube:
         )
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Torus:
@@ -517,7 +517,7 @@ class Torus:
         return _length(q) - self.t[1]
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Prism:
@@ -540,7 +540,7 @@ class Prism:
         )
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Cylinder:
@@ -567,7 +567,7 @@ class Cylinder:
         )
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 def _ddisk(p, xc, yc, r):
-- 
2.43.0


From 0deef1d2f45d2aea4c4b499cd45ec56030e55cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:32 +0000
Subject: [PATCH 48/49] fix: show shapes of any scale, not only those of size
 one

The band around the 0-level set and the padding of the sampled box were an
absolute 0.01: a shape measured in metres had no samples in it, and one much
smaller than that was drawn everywhere.
---
 .../geometry/signed_distance_functions.py       | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 5ef1478..365a606 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -8,11 +8,17 @@ from _fast_geometry import drectangle_fast, dblock_fast
 import random
 
 
+def _level_set_width(bbox):
+    """Distance to the 0-level set that is drawn (0.01 for a shape of size 2)"""
+    return 0.005 * max(np.subtract(bbox[1::2], bbox[::2]))
+
+
 def _generate_samples(bbox, dim, N):
     N = int(N)
     points = []
-    _xrange = (bbox[0] - 0.01, bbox[1] + 0.01)
-    _yrange = (bbox[2] - 0.01, bbox[3] + 0.01)
+    pad = _level_set_width(bbox)
+    _xrange = (bbox[0] - pad, bbox[1] + pad)
+    _yrange = (bbox[2] - pad, bbox[3] + pad)
     if dim == 2:
         points.append(
             [
@@ -24,7 +30,7 @@ def _generate_samples(bbox, dim, N):
             ]
         )
     elif dim == 3:
-        _zrange = (bbox[4] - 0.01, bbox[5] + 0.01)
+        _zrange = (bbox[4] - pad, bbox[5] + pad)
         points.append(
             [
                 (
@@ -43,7 +49,8 @@ def _generate_samples(bbox, dim, N):
 def _show(geo, filename=None, samples=10000):
     p = _generate_samples(geo.bbox, geo.dim, N=samples)
     d = geo.eval(p)
-    ix = np.logical_and(d > -0.01, d < 0.01)
+    width = _level_set_width(geo.bbox)
+    ix = np.logical_and(d > -width, d < width)
 
     fig = plt.figure()
     ax = fig.add_subplot(111, projection="3d")
@@ -58,7 +65,7 @@ def _show(geo, filename=None, samples=10000):
         ax.set_zlabel("Z-axis")
     plt.title("Approximate 0-level set")
     fig.colorbar(im, ax=ax)
-    im.set_clim(-0.1, 0.1)
+    im.set_clim(-10 * width, 10 * width)
     ax.set_aspect("auto")
 
     if filename is None:
-- 
2.43.0


From 84ab3d5f5273de516ec36cb4bbee8353961b0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:09 +0000
Subject: [PATCH 49/49] fix: keep a domain that is not a box what it is inside
 a larger model

---
 SeismicMesh/generation/mesh_generator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index aed1a92..4f5626f 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -148,7 +148,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         bbox = _minmax(bbox0, bbox1)
 
     # rebuild the Rectangle or Cube if domain padding
-    if bbox0 != bbox1 and bbox1 is not None:
+    if bbox0 != bbox1 and bbox1 is not None and _is_box(domain):
         fd = geometry.Cube(bbox).eval
 
     if not isinstance(bbox, tuple):
@@ -405,7 +405,9 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         elif dim == 3:
             tmp = geometry.Cube(bbox)
 
-        fd = tmp.eval
+        # any other shape stays what it is inside a larger model
+        if _is_box(domain):
+            fd = tmp.eval
 
     bbox = np.array(bbox).reshape(-1, 2)
 
@@ -568,6 +570,14 @@ def _minmax(bbox0, bbox1):
     return tuple(d)
 
 
+def _is_box(domain):
+    """Whether `domain` is a rectangle or a block with sides along the axes"""
+    if not isinstance(domain, (geometry.Rectangle, geometry.Cube)):
+        return False
+    skewed = domain.v is not None and np.count_nonzero(domain.v) > 1
+    return not (skewed or np.any(domain.rotation))
+
+
 def _check_bbox(bbox):
     if bbox is not None:
         for b in bbox:
-- 
2.43.0

