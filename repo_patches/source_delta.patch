From 307bbebcafda9f47e646ae31ea35d8de138e21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 01/20] fix: import Path so that Lattice.show(savefig=True) can
 save its figure

---
 HamiltonianPy/lattice/lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index a25b7d8..7d2668c 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -12,6 +12,7 @@ __all__ = [
 
 
 from itertools import product
+from pathlib import Path
 
 import matplotlib.pyplot as plt
 import numpy as np
-- 
2.43.0


From d63f6d803cc37c1b8f3af0a98407eb1435bd4d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 02/20] fix: make the polygon module importable as part of the
 package

---
 HamiltonianPy/polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/polygon.py b/HamiltonianPy/polygon.py
index 519d6d9..655ee14 100644
--- a/HamiltonianPy/polygon.py
+++ b/HamiltonianPy/polygon.py
@@ -11,11 +11,12 @@ __all__ = [
 
 from enum import Enum, auto
 
-import line2d
 import matplotlib.pyplot as plt
 import numpy as np
 from scipy.spatial.distance import pdist
 
+from HamiltonianPy import line2d
+
 
 class Location(Enum):
     """
-- 
2.43.0


From 1e6be90fdf9653a9752c361de30325584bc96bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 03/20] fix: do not report points on the extension of a polygon
 edge as boundary, or collinear boundary points as outside

---
 HamiltonianPy/polygon.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/HamiltonianPy/polygon.py b/HamiltonianPy/polygon.py
index 655ee14..39abb99 100644
--- a/HamiltonianPy/polygon.py
+++ b/HamiltonianPy/polygon.py
@@ -145,12 +145,16 @@ class Polygon:
             location0 = line.LocationRelation(point, tol=tol)
             location1 = line.LocationRelation(ref_point, tol=tol)
             if location0 is line2d.Location.ON:
-                tmp = [p0[0], p1[0]]
                 x, y = point
-                if np.min(tmp) <= x <= np.max(tmp):
+                xs, ys = np.transpose([p0, p1])
+                if (
+                    np.min(xs) - tol <= x <= np.max(xs) + tol and
+                    np.min(ys) - tol <= y <= np.max(ys) + tol
+                ):
                     return Location.BOUNDARY
-                else:
-                    return Location.OUTSIDE
+                # The point is on the extension of this edge, the other edges
+                # determine where it is.
+                continue
             if not (location0 is location1):
                 return Location.OUTSIDE
         return Location.INSIDE
-- 
2.43.0


From 88fbbc0e2babbf971e625671c528a04fb0357bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 04/20] fix: count permutations and combinations with exact
 integer arithmetic

---
 HamiltonianPy/tools/PandC.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/tools/PandC.py b/HamiltonianPy/tools/PandC.py
index 34dda1d..00267ce 100644
--- a/HamiltonianPy/tools/PandC.py
+++ b/HamiltonianPy/tools/PandC.py
@@ -40,7 +40,7 @@ def Permutation(n, k, repeat=False):
     if repeat:
         return n ** k
     else:
-        return int(factorial(n) / factorial(n - k))
+        return factorial(n) // factorial(n - k)
 
 
 def Combination(n, k, repeat=False):
@@ -69,6 +69,8 @@ def Combination(n, k, repeat=False):
     assert isinstance(k, int) and 0 <= k <= n
 
     if repeat:
-        return int(factorial(n + k - 1) / factorial(k) / factorial(n - 1))
+        if n == 0:
+            return 1
+        return factorial(n + k - 1) // factorial(k) // factorial(n - 1)
     else:
-        return int(factorial(n) / factorial(k) / factorial(n - k))
+        return factorial(n) // factorial(k) // factorial(n - k)
-- 
2.43.0


From 7a6ea28aec1b4e85356356fa82833d6c8e0a1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 05/20] fix: reject subspace specifiers with duplicate
 single-particle states

---
 HamiltonianPy/hilbertspace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/hilbertspace.py b/HamiltonianPy/hilbertspace.py
index ba75773..ffc9bfd 100644
--- a/HamiltonianPy/hilbertspace.py
+++ b/HamiltonianPy/hilbertspace.py
@@ -65,7 +65,8 @@ def is_valid_states_collection(states):
     single-particle-state collection.
 
     1. `states` must be non-empty tuple, list or set;
-    2. All elements of `states` must be non-negative integer.
+    2. All elements of `states` must be non-negative integer;
+    3. There should be no duplicate elements in `states`.
 
     Returns
     -------
@@ -74,7 +75,8 @@ def is_valid_states_collection(states):
 
     if (
         isinstance(states, (tuple, list, set)) and len(states) > 0 and
-        all(isinstance(state, int) and state >= 0 for state in states)
+        all(isinstance(state, int) and state >= 0 for state in states) and
+        len(set(states)) == len(states)
     ):
         return True
     else:
-- 
2.43.0


From e8d55f0d6b37ca3d5f366c104790ff5fbe754730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 06/20] fix: do not let float-point noise change the identity
 of sites and bonds

---
 HamiltonianPy/bond.py                         | 7 ++++++-
 HamiltonianPy/quantumoperator/quantumstate.py | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/bond.py b/HamiltonianPy/bond.py
index 7d38784..f900058 100644
--- a/HamiltonianPy/bond.py
+++ b/HamiltonianPy/bond.py
@@ -112,7 +112,12 @@ class Bond:
         # Combine the original information of this bond into a tuple.
         # The tuple is then used to calculate the hash code and define the
         # compare logic between different instances.
-        identity = [tuple(int(_ZOOM * coord) for coord in p) for p in [p0, p1]]
+        # Rounding before truncation removes the float-point noise of the
+        # product, e.g. 10000 * 0.0003 == 2.9999999999999996
+        identity = [
+            tuple(int(round(_ZOOM * coord, 4)) for coord in p)
+            for p in [p0, p1]
+        ]
         if not directional:
             identity.sort()
         identity.append(directional)
diff --git a/HamiltonianPy/quantumoperator/quantumstate.py b/HamiltonianPy/quantumoperator/quantumstate.py
index 489039c..528c752 100644
--- a/HamiltonianPy/quantumoperator/quantumstate.py
+++ b/HamiltonianPy/quantumoperator/quantumstate.py
@@ -104,7 +104,11 @@ class SiteID:
         # This internal attribute is useful for calculating the hash value of
         # the instance as well as defining compare logic between instances of
         # this class
-        self._tuple_form = tuple(int(_ZOOM * coord) for coord in site)
+        # Rounding before truncation removes the float-point noise of the
+        # product, e.g. 10000 * 0.0003 == 2.9999999999999996
+        self._tuple_form = tuple(
+            int(round(_ZOOM * coord, 4)) for coord in site
+        )
 
     @property
     def coordinate(self):
-- 
2.43.0


From babb9d637e8d27d229097ad417a67f75e16ad1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 07/20] fix: save the drawn lattice inside the given directory

---
 HamiltonianPy/tools/Draw2DLattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HamiltonianPy/tools/Draw2DLattice.py b/HamiltonianPy/tools/Draw2DLattice.py
index 69f1c03..226dd9e 100644
--- a/HamiltonianPy/tools/Draw2DLattice.py
+++ b/HamiltonianPy/tools/Draw2DLattice.py
@@ -176,7 +176,7 @@ def show(
                 name = "kagome.pdf"
             else:
                 name = which + ".pdf"
-        fig.savefig(path + name, dpi=200)
+        fig.savefig(Path(path) / name, dpi=200)
     plt.close("all")
 
 
-- 
2.43.0


From 0d7c38573b80e67ac0cff799043ecc6eb1d672b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 08/20] fix: restore the number of mkl threads when leaving
 RunTimeEnv

---
 HamiltonianPy/tools/runtimeenv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/tools/runtimeenv.py b/HamiltonianPy/tools/runtimeenv.py
index 52dbef8..44125d1 100644
--- a/HamiltonianPy/tools/runtimeenv.py
+++ b/HamiltonianPy/tools/runtimeenv.py
@@ -63,6 +63,7 @@ class RunTimeEnv:
         Construct the run time environment
         """
 
+        self._old_threads_num = mkl.get_max_threads()
         mkl.set_num_threads(self._threads_num)
 
         if self._rd:
@@ -84,7 +85,7 @@ class RunTimeEnv:
         Close the opened file and restore sys.stdout before exit
         """
 
-        mkl.set_num_threads(mkl.get_max_threads())
+        mkl.set_num_threads(self._old_threads_num)
 
         if self._rd:
             print("=" * 80)
-- 
2.43.0


From 24aaa00623306d6c2993579b9a73e1fbb2cd3ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 09/20] fix: search all the translations that can be reached
 within a given distance

The minimal distance of successive shells of translations does not
increase monotonously for skewed translation vectors or for clusters that
are larger than the unit cell, so stopping at the first shell that is
farther than the reference distance lost bonds and made decompose fail.
---
 HamiltonianPy/lattice/lattice.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 7d2668c..0840b8a 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -267,23 +267,14 @@ class Lattice:
         return np.array(self._points[index], copy=True)
 
     def _guess_scope(self, ref_distance):
-        repeat = self._trans_dim
-        scope = -1
-        while True:
-            inner_mesh = product(range(-scope, scope+1), repeat=repeat)
-            outer_mesh = product(range(-scope-1, scope+2), repeat=repeat)
-            edge_dRs = np.matmul(
-                list(set(outer_mesh).difference(set(inner_mesh))), self._vectors
-            )
-            edge_points = np.reshape(
-                edge_dRs[:, np.newaxis, :] + self._points,
-                newshape=(-1, self._space_dim)
-            )
-            if np.min(cdist(edge_points, self._points)) > ref_distance:
-                break
-            else:
-                scope += 1
-        return scope
+        # If the distance between one point of the cluster and one point of the
+        # cluster translated by dR is no larger than `ref_distance`, then |dR|
+        # is no larger than `ref_distance` plus the diameter of the cluster.
+        # The coefficients of dR with respect to the translation vectors are
+        # dR.dot(bs) / (2 * pi) and hence bounded by |dR| * |bs| / (2 * pi).
+        diameter = np.max(cdist(self._points, self._points))
+        coeffs = np.linalg.norm(self._bs, axis=-1) / (2 * np.pi)
+        return int(np.ceil(np.max(coeffs) * (ref_distance + diameter)))
 
     def _searching(self, database, displaces):
         matches = np.nonzero(database.query(displaces)[0] < _VIEW_AS_ZERO)[0]
-- 
2.43.0


From e31fbf315aa089e6ecb2c0ea7f42f8b762bd5c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 10/20] fix: take all lattice points into account when counting
 neighbor distances

The distances inside the cluster were used as the neighbor distances,
e.g. the next-nearest-neighbor distance of the square(3,1) cluster was 2,
and the answer for the same argument depended on the previous calls.
---
 HamiltonianPy/lattice/lattice.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 0840b8a..35e02c3 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -120,16 +120,14 @@ class Lattice:
             )
 
         # Check is there duplicate points in the given `points`
-        tmp = pdist(points)
-        if np.any(tmp < _VIEW_AS_ZERO):
+        if np.any(pdist(points) < _VIEW_AS_ZERO):
             raise ValueError(
                 "There are duplicate points in the given `points`!"
             )
-        else:
-            dists = np.insert(np.unique(np.rint(tmp * _ZOOM)) / _ZOOM, 0, 0.0)
 
-        # Cache dists as `_all_distances attribute` for later use
-        self._all_distances = dists
+        # All the neighbor distances known so far, the distances between the
+        # points in the cluster are not necessarily the shortest ones.
+        self._all_distances = np.array([0.0])
 
         self.name = name
         self._point_num = point_num
@@ -432,10 +430,15 @@ class Lattice:
         try:
             return self._all_distances[nth]
         except IndexError:
-            sites = self._sites_factory(scope=nth, no_inversion=False)
-            self._all_distances = np.insert(
-                np.unique(np.rint(pdist(sites) * _ZOOM)) / _ZOOM, 0, 0.0
-            )
+            # Repeated translation along the shortest translation vector
+            # gives `nth` different distances that are no larger than `radius`
+            radius = nth * np.min(np.linalg.norm(self._vectors, axis=-1))
+            radius += _VIEW_AS_ZERO
+            sites = self._sites_factory(scope=self._guess_scope(radius))
+            dists = cdist(self._points, sites)
+            self._all_distances = np.unique(
+                np.rint(dists[dists < radius] * _ZOOM)
+            ) / _ZOOM
             return self._all_distances[nth]
 
     def bonds(self, nth, *, only=True, fold=False):
-- 
2.43.0


From e0879f17602d92c26923117be82ff1fc640ac247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 11/20] fix: do not place diagonal terms on the wrong rows when
 the left bases differ from the right ones

---
 HamiltonianPy/quantumoperator/matrixrepr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/HamiltonianPy/quantumoperator/matrixrepr.py b/HamiltonianPy/quantumoperator/matrixrepr.py
index 6f7d194..0e4bf67 100644
--- a/HamiltonianPy/quantumoperator/matrixrepr.py
+++ b/HamiltonianPy/quantumoperator/matrixrepr.py
@@ -218,6 +218,10 @@ def matrix_function(
         shape = (right_dim, right_dim)
     else:
         shape = (left_bases.shape[0], right_dim)
+        # The functions for the diagonal terms assume that the left and right
+        # bases are identical, which is not guaranteed here
+        if special_tag in ("number", "Coulomb"):
+            special_tag = "general"
 
     if special_tag == "hopping":
         core_func = _core_hopping
-- 
2.43.0


From 5c6c9e1765bed251aa61628d6cb044ed28f877f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 12/20] fix: put exactly min_num k-points on the shortest
 segment of a k-path

---
 HamiltonianPy/lattice/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 35e02c3..90dac8a 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -577,7 +577,8 @@ def KPath(points, min_num=100, loop=True, return_indices=True):
     if min_length < 1e-4:
         raise ValueError("Identical adjacent points!")
 
-    sampling_nums = [int(min_num * length / min_length) for length in lengths]
+    # The ratio is exactly 1 for the shortest segment
+    sampling_nums = [int(min_num * (length / min_length)) for length in lengths]
     kpoints = [
         np.linspace(0, 1, num=num, endpoint=False)[:, np.newaxis] * dR + start
         for num, dR, start in zip(sampling_nums, dRs, points)
-- 
2.43.0


From 58214f6b487a29b2e3951ef4b4962280051c7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 13/20] fix: refuse colour strings like '#-1+2 3' whose digits
 are not hexadecimal

---
 HamiltonianPy/tools/colorprint.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/HamiltonianPy/tools/colorprint.py b/HamiltonianPy/tools/colorprint.py
index 52f7ccb..ddd643e 100644
--- a/HamiltonianPy/tools/colorprint.py
+++ b/HamiltonianPy/tools/colorprint.py
@@ -109,9 +109,7 @@ def _color_ctrl_seq_24bits(color=None, fg=True):
             )
     elif isinstance(color, str):
         if color.startswith('#') and len(color) == 7:
-            r = int(color[1:3], base=16)
-            g = int(color[3:5], base=16)
-            b = int(color[5:7], base=16)
+            r, g, b = bytes.fromhex(color[1:])
         else:
             r, g, b = NAME2CODE_24BITS[_color_name(color)]
     else:
-- 
2.43.0


From 89f11d693d90b0d32ad2fd97d378ab358e4189fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 14/20] fix: do not overwrite the log of another RunTimeEnv
 entered in the same second

---
 HamiltonianPy/tools/runtimeenv.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/tools/runtimeenv.py b/HamiltonianPy/tools/runtimeenv.py
index 44125d1..2033faf 100644
--- a/HamiltonianPy/tools/runtimeenv.py
+++ b/HamiltonianPy/tools/runtimeenv.py
@@ -67,8 +67,17 @@ class RunTimeEnv:
         mkl.set_num_threads(self._threads_num)
 
         if self._rd:
-            file_name = "Log {0}.txt".format(strftime("%Y-%m-%d %H-%M-%S"))
-            fp = open(self._path / file_name, 'w', buffering=1)
+            time_stamp = strftime("%Y-%m-%d %H-%M-%S")
+            file_name = "Log {0}.txt".format(time_stamp)
+            serial = 0
+            while True:
+                try:
+                    fp = open(self._path / file_name, 'x', buffering=1)
+                    break
+                except FileExistsError:
+                    # Another log was created within the same second
+                    serial += 1
+                    file_name = "Log {0} ({1}).txt".format(time_stamp, serial)
             self._stdout = sys.stdout
             sys.stdout = self._fp = fp
 
-- 
2.43.0


From 666c1a2ad956c455065b268fff0821050d05435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 15/20] fix: restore stdout and the number of mkl threads when
 entering or leaving RunTimeEnv fails

---
 HamiltonianPy/tools/runtimeenv.py | 40 ++++++++++++++++---------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/HamiltonianPy/tools/runtimeenv.py b/HamiltonianPy/tools/runtimeenv.py
index 2033faf..d4f2bef 100644
--- a/HamiltonianPy/tools/runtimeenv.py
+++ b/HamiltonianPy/tools/runtimeenv.py
@@ -63,9 +63,6 @@ class RunTimeEnv:
         Construct the run time environment
         """
 
-        self._old_threads_num = mkl.get_max_threads()
-        mkl.set_num_threads(self._threads_num)
-
         if self._rd:
             time_stamp = strftime("%Y-%m-%d %H-%M-%S")
             file_name = "Log {0}.txt".format(time_stamp)
@@ -87,6 +84,9 @@ class RunTimeEnv:
                 )
             )
             print("=" * 80, flush=True)
+
+        self._old_threads_num = mkl.get_max_threads()
+        mkl.set_num_threads(self._threads_num)
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
@@ -97,22 +97,24 @@ class RunTimeEnv:
         mkl.set_num_threads(self._old_threads_num)
 
         if self._rd:
-            print("=" * 80)
-            if exc_type is None:
-                print("Non exception has occurred!")
-            else:
-                print("Exc_type: {0}".format(exc_type))
-                print("Exc_value: {0}".format(exc_value))
-                print("Traceback:")
-                print_tb(traceback, file=self._fp)
-            print("=" * 80)
-            print(
-                "Exit run time environment at: {0}".format(
-                    strftime(TIME_FORMAT)
-                ), flush=True
-            )
-            sys.stdout = self._stdout
-            self._fp.close()
+            try:
+                print("=" * 80)
+                if exc_type is None:
+                    print("Non exception has occurred!")
+                else:
+                    print("Exc_type: {0}".format(exc_type))
+                    print("Exc_value: {0}".format(exc_value))
+                    print("Traceback:")
+                    print_tb(traceback, file=self._fp)
+                print("=" * 80)
+                print(
+                    "Exit run time environment at: {0}".format(
+                        strftime(TIME_FORMAT)
+                    ), flush=True
+                )
+            finally:
+                sys.stdout = self._stdout
+                self._fp.close()
         return False
 
 
-- 
2.43.0


From 19d49927fde7e20a138109c2a0f96620e33b6d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 16/20] fix: create the argument types of the compiled
 functions once, so that concurrent first calls are not refused

---
 HamiltonianPy/quantumoperator/matrixrepr.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/HamiltonianPy/quantumoperator/matrixrepr.py b/HamiltonianPy/quantumoperator/matrixrepr.py
index 0e4bf67..b9b6fbb 100644
--- a/HamiltonianPy/quantumoperator/matrixrepr.py
+++ b/HamiltonianPy/quantumoperator/matrixrepr.py
@@ -15,6 +15,15 @@ __all__ = [
 ]
 
 
+# Numba creates the types of the arguments of a call when it first meets them,
+# which is not thread-safe: if several threads call the functions defined below
+# for the first time simultaneously, some of the calls are refused with a
+# TypeError. The types of the C-contiguous arrays which are usually passed to
+# these functions differ from the declared ones and hence are created (and kept
+# alive) here, once and for all.
+_CONTIGUOUS_TYPES = (uint64[:, ::1], uint64[::1])
+
+
 # The core function for calculating the matrix representation of a general term
 @jit(int64[:, :](uint64[:, :], uint64[:], uint64[:]), nopython=True, cache=True)
 def _core_general(term, right_bases, left_bases):
-- 
2.43.0


From 2d21c3d51a0755c28b616f1385ffdb72b7af3f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:03 +0000
Subject: [PATCH 17/20] fix: do not split a neighbour distance on the edge of a
 rounding interval into two distances

---
 HamiltonianPy/lattice/lattice.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 90dac8a..5a1923c 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -436,9 +436,11 @@ class Lattice:
             radius += _VIEW_AS_ZERO
             sites = self._sites_factory(scope=self._guess_scope(radius))
             dists = cdist(self._points, sites)
-            self._all_distances = np.unique(
-                np.rint(dists[dists < radius] * _ZOOM)
-            ) / _ZOOM
+            # Keep only one of the distances which differ by round-off errors,
+            # otherwise they might be rounded to different values
+            dists = np.sort(dists[dists < radius])
+            dists = dists[np.diff(dists, prepend=-1.0) > 1E-4 / _ZOOM]
+            self._all_distances = np.unique(np.rint(dists * _ZOOM)) / _ZOOM
             return self._all_distances[nth]
 
     def bonds(self, nth, *, only=True, fold=False):
-- 
2.43.0


From 595645d45bb8edf2576e21b4217faf7136301a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 18/20] fix: do not let short or unsigned integer coordinates
 wrap around

---
 HamiltonianPy/bond.py            | 6 ++++++
 HamiltonianPy/lattice/lattice.py | 9 +++++++++
 HamiltonianPy/line2d.py          | 6 ++++++
 3 files changed, 21 insertions(+)

diff --git a/HamiltonianPy/bond.py b/HamiltonianPy/bond.py
index f900058..fabd22f 100644
--- a/HamiltonianPy/bond.py
+++ b/HamiltonianPy/bond.py
@@ -104,6 +104,12 @@ class Bond:
         assert p0.shape in ((1, ), (2, ), (3, )), "Invalid shape"
         assert p1.shape == p0.shape, "Shape does not match"
 
+        # Short or unsigned integers would wrap around on subtraction
+        if p0.dtype.kind in "iu":
+            p0 = p0.astype(np.int64)
+        if p1.dtype.kind in "iu":
+            p1 = p1.astype(np.int64)
+
         self._p0 = p0
         self._p1 = p1
         self._dim = p0.shape[0]
diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 5a1923c..141c979 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -113,6 +113,12 @@ class Lattice:
                 "the same space dimension as points!"
             )
 
+        # Short or unsigned integers would wrap around in the calculations
+        if points.dtype.kind in "iu":
+            points = points.astype(np.int64)
+        if vectors.dtype.kind in "iu":
+            vectors = vectors.astype(np.int64)
+
         # Check is there duplicate translation vectors in the given `vectors`
         if np.any(pdist(vectors) < _VIEW_AS_ZERO):
             raise ValueError(
@@ -571,6 +577,9 @@ def KPath(points, min_num=100, loop=True, return_indices=True):
 
     point_num = len(points)
     points = np.concatenate((points, points), axis=0)
+    # Short or unsigned integers would wrap around on subtraction
+    if points.dtype.kind in "iu":
+        points = points.astype(np.int64)
     end = (point_num + 1) if loop else point_num
     dRs = points[1:end] - points[0:end-1]
     lengths = np.linalg.norm(dRs, axis=-1)
diff --git a/HamiltonianPy/line2d.py b/HamiltonianPy/line2d.py
index 4b8f74c..21292b7 100644
--- a/HamiltonianPy/line2d.py
+++ b/HamiltonianPy/line2d.py
@@ -83,6 +83,12 @@ class Line2D:
         assert p0.shape == (2, )
         assert p1.shape == (2, )
 
+        # Short or unsigned integers would wrap around on subtraction
+        if p0.dtype.kind in "iu":
+            p0 = p0.astype(np.int64)
+        if p1.dtype.kind in "iu":
+            p1 = p1.astype(np.int64)
+
         dr = p1 - p0
         if np.all(np.abs(dr) <= tol):
             raise ValueError("The given `p0` and `p1`are identical!")
-- 
2.43.0


From db5b3e4512f15accf225ea07939e96a69c8e55c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 19/20] fix: accept read-only arrays as bases of the Hilbert
 space

---
 HamiltonianPy/quantumoperator/matrixrepr.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/HamiltonianPy/quantumoperator/matrixrepr.py b/HamiltonianPy/quantumoperator/matrixrepr.py
index b9b6fbb..988477e 100644
--- a/HamiltonianPy/quantumoperator/matrixrepr.py
+++ b/HamiltonianPy/quantumoperator/matrixrepr.py
@@ -5,7 +5,7 @@ a Fermionic operator/term in occupation number representation.
 
 
 import numpy as np
-from numba import jit, int64, uint64
+from numba import jit, int64, types, uint64
 from scipy.sparse import csr_matrix
 
 from HamiltonianPy.quantumoperator.constant import CREATION
@@ -21,11 +21,17 @@ __all__ = [
 # TypeError. The types of the C-contiguous arrays which are usually passed to
 # these functions differ from the declared ones and hence are created (and kept
 # alive) here, once and for all.
-_CONTIGUOUS_TYPES = (uint64[:, ::1], uint64[::1])
+_CONTIGUOUS_TYPES = (
+    uint64[:, ::1], uint64[::1], types.Array(uint64, 1, "C", readonly=True)
+)
+
+# The bases are only read by the functions defined below, so that they might be
+# given as writable or read-only (e.g. memory-mapped) arrays.
+_BASES = types.Array(uint64, 1, "A", readonly=True)
 
 
 # The core function for calculating the matrix representation of a general term
-@jit(int64[:, :](uint64[:, :], uint64[:], uint64[:]), nopython=True, cache=True)
+@jit(int64[:, :](uint64[:, :], _BASES, _BASES), nopython=True, cache=True)
 def _core_general(term, right_bases, left_bases):
     term_length = term.shape[0]
     left_dim = left_bases.shape[0]
@@ -71,7 +77,7 @@ def _core_general(term, right_bases, left_bases):
 # '$c_i^{\\dagger} c_j$', `i != j` is assumed.
 # The `term` parameter is assumed of the following form:
 # np.array([[i, 1<<i, 0], [j, 1<<j, 1<<j]], dtype=np.uint64)
-@jit(int64[:, :](uint64[:, :], uint64[:], uint64[:]), nopython=True, cache=True)
+@jit(int64[:, :](uint64[:, :], _BASES, _BASES), nopython=True, cache=True)
 def _core_hopping(term, right_bases, left_bases):
     start = np.min(term[:, 0])
     end = np.max(term[:, 0])
@@ -106,7 +112,7 @@ def _core_hopping(term, right_bases, left_bases):
 # particle-number operator: '$c_i^{\\dagger} c_i$'.
 # The `term` parameter is assumed of the following form:
 # np.array([[i, 1<<i, 0], [i, 1<<i, 1<<i]], dtype=np.uint64)
-@jit(int64[:, :](uint64[:, :], uint64[:]), nopython=True, cache=True)
+@jit(int64[:, :](uint64[:, :], _BASES), nopython=True, cache=True)
 def _core_particle_number(term, bases):
     mask = term[0, 1]
     dim = bases.shape[0]
@@ -130,7 +136,7 @@ def _core_particle_number(term, bases):
 #         [j, 1 << j, 1 << j],
 #     ], dtype=np.uint64
 # )
-@jit(int64[:, :](uint64[:, :], uint64[:]), nopython=True, cache=True)
+@jit(int64[:, :](uint64[:, :], _BASES), nopython=True, cache=True)
 def _core_coulomb(term, bases):
     mask0 = term[0, 1]
     mask1 = term[2, 1]
-- 
2.43.0


From f1fe8baa18c8b69a35c5e91d67c78997a50be2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:56 +0000
Subject: [PATCH 20/20] fix: do not let sums over short integers overflow in
 QuantumAverages

---
 HamiltonianPy/averages.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/HamiltonianPy/averages.py b/HamiltonianPy/averages.py
index 7af2d72..c007674 100644
--- a/HamiltonianPy/averages.py
+++ b/HamiltonianPy/averages.py
@@ -45,6 +45,10 @@ def QuantumAverages(ket, operator):
         The corresponding quantum-mechanical average.
     """
 
+    # The sums over short integers might overflow
+    ket = np.asarray(ket)
+    if ket.dtype.kind in "biu":
+        ket = ket.astype(np.float64)
     return np.vdot(ket, operator.dot(ket)) / np.vdot(ket, ket)
 
 
-- 
2.43.0

