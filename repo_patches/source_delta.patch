From a29314a4792836a0ea71c388b9e39c901327c2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 01/43] fix: similarities solver treats a single inclined
 borehole as inclined

boreholes[0].is_vertical was not called, so that a field of a single
inclined borehole was always solved as a vertical borehole.
---
 pygfunction/solvers/similarities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index 887d144..afae56a 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -921,7 +921,7 @@ class Similarities(_BaseSolver):
 
         else:
             # Outputs for a single borehole
-            if boreholes[0].is_vertical:
+            if boreholes[0].is_vertical():
                 borehole_to_self_vertical = [[0]]
                 borehole_to_self_inclined = []
             else:
-- 
2.43.0


From abbd696a6dfe7d7a7ca6c63b89b558b30cf57fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 02/43] fix: offset of inclined segment pairs counts the unique
 pairs only

k_segment indexes the arrays of unique segment pairs, which are shorter
than k_pair when segment pairs are similar (e.g. horizontal boreholes).
---
 pygfunction/solvers/similarities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index afae56a..1ca06c0 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -369,7 +369,7 @@ class Similarities(_BaseSolver):
             i_segment = np.append(i_segment, i_segment_i)
             j_segment = np.append(j_segment, j_segment_i)
             k_segment = np.append(k_segment, k_segment_i + k0)
-            k0 += len(k_pair)
+            k0 += np.max(k_pair) + 1
         # Evaluate FLS at all time steps
         h = finite_line_source_inclined_vectorized(
             time, alpha, rb1, x1, y1, H1, D1, tilt1, orientation1,
@@ -448,7 +448,7 @@ class Similarities(_BaseSolver):
             i_segment = np.append(i_segment, i_segment_i)
             j_segment = np.append(j_segment, j_segment_i)
             k_segment = np.append(k_segment, k_segment_i + k0)
-            k0 += len(k_pair)
+            k0 += np.max(k_pair) + 1
         # Evaluate FLS at all time steps
         h = finite_line_source_inclined_vectorized(
             time, alpha, rb1, x1, y1, H1, D1, tilt1, orientation1,
-- 
2.43.0


From f78dc723d537741401a896afb7740fa57714231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 03/43] fix: compare relative orientations of inclined borehole
 pairs

Two pairs with the same angles to the line between boreholes are only
similar if the angle between both axes is also the same.
---
 pygfunction/solvers/similarities.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index 1ca06c0..a07941f 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -814,7 +814,17 @@ class Similarities(_BaseSolver):
         cond_theta = (
             abs(sin_b1_cos_dt1_1 - sin_b1_cos_dt1_2) / (abs(sin_b1_cos_dt1_1) + 1e-30) < self.tol
             and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) < self.tol)
-        if cond_H and cond_D and cond_dis and cond_beta and cond_theta:
+        # Equality of the relative orientation between both axes (the angles to
+        # the line between boreholes do not tell its sign)
+        sin_b1_sin_b2_cos_dt12_1 = (
+            np.sin(pair1[0].tilt) * np.sin(pair1[1].tilt)
+            * np.cos(pair1[0].orientation - pair1[1].orientation))
+        sin_b1_sin_b2_cos_dt12_2 = (
+            np.sin(pair2[0].tilt) * np.sin(pair2[1].tilt)
+            * np.cos(pair2[0].orientation - pair2[1].orientation))
+        cond_theta_12 = abs(
+            sin_b1_sin_b2_cos_dt12_1 - sin_b1_sin_b2_cos_dt12_2) < self.tol
+        if cond_H and cond_D and cond_dis and cond_beta and cond_theta and cond_theta_12:
             similarity = True
         else:
             similarity = False
-- 
2.43.0


From e43a8479b4734b9b8dd8c7ac5c786d5ce666192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 04/43] fix: pairs of boreholes with exchanged depths are not
 similar

Exchanging the buried depths of two boreholes of equal lengths leaves the
borehole-to-borehole FLS solution unchanged, but not that of their
segments: such pairs are only similar as reciprocal pairs.
---
 pygfunction/solvers/equivalent.py   | 29 ++++++++++++++++++++++++++++-
 pygfunction/solvers/similarities.py | 29 ++++++++++++++++++++++++++++-
 2 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index f23943c..dcb2239 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -567,6 +567,33 @@ class Equivalent(_BaseSolver):
             similarity = False
         return similarity
 
+    def _compare_ordered_pairs(self, pair1, pair2):
+        """
+        Compare two pairs of boreholes and return True if the two pairs
+        have the same FLS solution for both real and mirror sources, with
+        boreholes of both pairs at the same depths.
+
+        The FLS solution is also the same when the depths of two boreholes of
+        equal lengths are exchanged, but not the solution for their segments.
+
+        Parameters
+        ----------
+        pair1 : Tuple of Borehole objects
+            First pair of boreholes.
+        pair2 : Tuple of Borehole objects
+            Second pair of boreholes.
+
+        Returns
+        -------
+        similarity : bool
+            True if the two pairs have the same FLS solution.
+
+        """
+        return (
+            self._compare_realandimage_pairs(pair1, pair2)
+            and abs(pair1[0].D - pair2[0].D)/(abs(pair1[0].D) + 1e-30) < self.tol
+            and abs(pair1[1].D - pair2[1].D)/(abs(pair1[1].D) + 1e-30) < self.tol)
+
     def _find_axial_borehole_pairs(self, boreholes):
         """
         Find axial (i.e. disregarding the radial distance) similarities between
@@ -588,7 +615,7 @@ class Equivalent(_BaseSolver):
 
         """
         # Compare for the full (real + image) FLS solution
-        compare_pairs = self._compare_realandimage_pairs
+        compare_pairs = self._compare_ordered_pairs
 
         nBoreholes = len(boreholes)
         borehole_to_self = []
diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index a07941f..b61e177 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -669,6 +669,33 @@ class Similarities(_BaseSolver):
             similarity = False
         return similarity
 
+    def _compare_ordered_pairs_vertical(self, pair1, pair2):
+        """
+        Compare two pairs of vertical boreholes and return True if the two pairs
+        have the same FLS solution for both real and mirror sources, with
+        boreholes of both pairs at the same depths.
+
+        The FLS solution is also the same when the depths of two boreholes of
+        equal lengths are exchanged, but not the solution for their segments.
+
+        Parameters
+        ----------
+        pair1 : Tuple of Borehole objects
+            First pair of boreholes.
+        pair2 : Tuple of Borehole objects
+            Second pair of boreholes.
+
+        Returns
+        -------
+        similarity : bool
+            True if the two pairs have the same FLS solution.
+
+        """
+        return (
+            self._compare_realandimage_pairs_vertical(pair1, pair2)
+            and abs(pair1[0].D - pair2[0].D)/(abs(pair1[0].D) + 1e-30) < self.tol
+            and abs(pair1[1].D - pair2[1].D)/(abs(pair1[1].D) + 1e-30) < self.tol)
+
     def _compare_real_pairs_inclined(self, pair1, pair2):
         """
         Compare two pairs of inclined boreholes or segments and return True if
@@ -892,7 +919,7 @@ class Similarities(_BaseSolver):
                     # Compare pairs of boreholes to known unique pairs
                     if borehole_i.is_vertical() and borehole_j.is_vertical():
                         borehole_to_borehole = borehole_to_borehole_vertical
-                        compare_pairs = self._compare_realandimage_pairs_vertical
+                        compare_pairs = self._compare_ordered_pairs_vertical
                     else:
                         borehole_to_borehole = borehole_to_borehole_inclined
                         compare_pairs = self._compare_realandimage_pairs_inclined
-- 
2.43.0


From 54fed3f0a49dc84c753d8ccfc9e55d04c9256b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 05/43] fix: steady-state inclined FLS for aligned boreholes
 and segments

The ratio inside the logarithm was 0/0 (or a difference of nearly equal
numbers) when the emitting line is ahead of the receiving line along the
same axis, e.g. between segments of the same borehole.
---
 pygfunction/heat_transfer.py | 59 +++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 55f3cf9..6da8bca 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -1406,6 +1406,37 @@ def _finite_line_source_steady_state(dis, H1, D1, H2, D2, reaSource, imgSource):
     return h
 
 
+def _inverse_distance_integral(r0, r1, b, H):
+    """
+    Integral of the inverse of the distance between a point and a line.
+
+    Parameters
+    ----------
+    r0 : float or array
+        Distances from the point to the start of the line.
+    r1 : float or array
+        Distances from the point to the end of the line.
+    b : float or array
+        Positions along the line of the projection of the point.
+    H : float or array
+        Lengths of the line.
+
+    Returns
+    -------
+    Integral of 1 / sqrt(r0**2 - 2*b*v + v**2) for v between 0 and H.
+
+    Notes
+    -----
+    Both ratios are equal. The ratio that does not subtract two nearly equal
+    numbers is selected, as is the case for a point aligned with the line.
+
+    """
+    is_closer_to_end = b > 0.5 * H
+    numerator = np.where(is_closer_to_end, r0 + b, r1 + H - b)
+    denominator = np.where(is_closer_to_end, r1 - (H - b), r0 - b)
+    return np.log(numerator / denominator)
+
+
 def _finite_line_source_inclined_steady_state(
         rb1, x1, y1, H1, D1, tilt1, orientation1, x2, y2, H2, D2, tilt2,
         orientation2, reaSource, imgSource, M=11):
@@ -1488,8 +1519,14 @@ def _finite_line_source_inclined_steady_state(
         kRea_2 = sb2 * (np.cos(orientation2) * dx + np.sin(orientation2) * dy) + cb2 * dzRea
         kImg_2 = sb2 * (np.cos(orientation2) * dx + np.sin(orientation2) * dy) - cb2 * dzImg
         h = 0.5 * H1 / H2 * ((
-            np.log((2 * H2 * np.sqrt(rr + dzRea**2 + u**2*H1**2 + H2**2 + 2*u*H1*kRea_1 - 2*H2*kRea_2 - 2*u*H1*H2*kRea_0) + 2*H2**2 - 2*H2*kRea_2 - 2*u*H1*H2*kRea_0) / ((2 * H2 * np.sqrt(rr + dzRea**2 + u**2*H1**2 + 2*u*H1*kRea_1) - 2*H2*kRea_2 - 2*u*H1*H2*kRea_0)))
-            - np.log((2 * H2 * np.sqrt(dx**2 + dy**2 + dzImg**2 + u**2*H1**2 + H2**2 + 2*u*H1*kImg_1 - 2*H2*kImg_2 - 2*u*H1*H2*kImg_0) + 2*H2**2 - 2*H2*kImg_2 - 2*u*H1*H2*kImg_0) / ((2 * H2 * np.sqrt(dx**2 + dy**2 + dzImg**2 + u**2*H1**2 + 2*u*H1*kImg_1) - 2*H2*kImg_2 - 2*u*H1*H2*kImg_0)))
+            _inverse_distance_integral(
+                np.sqrt(rr + dzRea**2 + u**2*H1**2 + 2*u*H1*kRea_1),
+                np.sqrt(rr + dzRea**2 + u**2*H1**2 + H2**2 + 2*u*H1*kRea_1 - 2*H2*kRea_2 - 2*u*H1*H2*kRea_0),
+                kRea_2 + u*H1*kRea_0, H2)
+            - _inverse_distance_integral(
+                np.sqrt(dx**2 + dy**2 + dzImg**2 + u**2*H1**2 + 2*u*H1*kImg_1),
+                np.sqrt(dx**2 + dy**2 + dzImg**2 + u**2*H1**2 + H2**2 + 2*u*H1*kImg_1 - 2*H2*kImg_2 - 2*u*H1*H2*kImg_0),
+                kImg_2 + u*H1*kImg_0, H2)
             ).T @ w).T
     elif reaSource:
         # Real FLS solution
@@ -1498,18 +1535,24 @@ def _finite_line_source_inclined_steady_state(
         kRea_0 = sb1 * sb2 * np.cos(orientation1 - orientation2) + cb1 * cb2
         kRea_1 = sb1 * (np.cos(orientation1) * dx + np.sin(orientation1) * dy) + cb1 * dzRea
         kRea_2 = sb2 * (np.cos(orientation2) * dx + np.sin(orientation2) * dy) + cb2 * dzRea
-        h = 0.5 * H1 / H2 * ((
-            np.log((2 * H2 * np.sqrt(rr + dzRea**2 + u**2*H1**2 + H2**2 + 2*u*H1*kRea_1 - 2*H2*kRea_2 - 2*u*H1*H2*kRea_0) + 2*H2**2 - 2*H2*kRea_2 - 2*u*H1*H2*kRea_0) / ((2 * H2 * np.sqrt(rr + dzRea**2 + u**2*H1**2 + 2*u*H1*kRea_1) - 2*H2*kRea_2 - 2*u*H1*H2*kRea_0)))
-            ).T @ w).T
+        h = 0.5 * H1 / H2 * (
+            _inverse_distance_integral(
+                np.sqrt(rr + dzRea**2 + u**2*H1**2 + 2*u*H1*kRea_1),
+                np.sqrt(rr + dzRea**2 + u**2*H1**2 + H2**2 + 2*u*H1*kRea_1 - 2*H2*kRea_2 - 2*u*H1*H2*kRea_0),
+                kRea_2 + u*H1*kRea_0, H2)
+            .T @ w).T
     elif imgSource:
         # Image FLS solution
         dzImg = D1 + D2
         kImg_0 = sb1 * sb2 * np.cos(orientation1 - orientation2) - cb1 * cb2
         kImg_1 = sb1 * (np.cos(orientation1) * dx + np.sin(orientation1) * dy) + cb1 * dzImg
         kImg_2 = sb2 * (np.cos(orientation2) * dx + np.sin(orientation2) * dy) - cb2 * dzImg
-        h = 0.5 * H1 / H2 * ((
-            - np.log((2 * H2 * np.sqrt(dx**2 + dy**2 + dzImg**2 + u**2*H1**2 + H2**2 + 2*u*H1*kImg_1 - 2*H2*kImg_2 - 2*u*H1*H2*kImg_0) + 2*H2**2 - 2*H2*kImg_2 - 2*u*H1*H2*kImg_0) / ((2 * H2 * np.sqrt(dx**2 + dy**2 + dzImg**2 + u**2*H1**2 + 2*u*H1*kImg_1) - 2*H2*kImg_2 - 2*u*H1*H2*kImg_0)))
-            ).T @ w).T
+        h = -0.5 * H1 / H2 * (
+            _inverse_distance_integral(
+                np.sqrt(dx**2 + dy**2 + dzImg**2 + u**2*H1**2 + 2*u*H1*kImg_1),
+                np.sqrt(dx**2 + dy**2 + dzImg**2 + u**2*H1**2 + H2**2 + 2*u*H1*kImg_1 - 2*H2*kImg_2 - 2*u*H1*H2*kImg_0),
+                kImg_2 + u*H1*kImg_0, H2)
+            .T @ w).T
     else:
         # No heat source
         h = np.zeros(output_shape)
-- 
2.43.0


From 38b3c4836e26bcbc0d6ff93c787b5f83ea9c29c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 06/43] fix: find_duplicates with numpy versions that refuse
 int() of 1d arrays

---
 pygfunction/boreholes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 330ed4b..c122424 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -645,7 +645,7 @@ def find_duplicates(boreField, disp=False):
     # Find distance between each pair of boreholes
     distances = pdist(coordinates, 'euclidean')
     # Find duplicate boreholes
-    duplicate_index = np.argwhere(distances < r_b)
+    duplicate_index = np.flatnonzero(distances < r_b)
     i = n - 2 - np.floor(
         np.sqrt(-8 * duplicate_index + 4 * n * (n - 1) - 7) / 2 - 0.5)
     j = duplicate_index + i + 1 - n * (n - 1) / 2 + (n - i) * ((n - i) - 1) / 2
-- 
2.43.0


From df7d666c2a1f93f09b83f8e07c4afdd6f6239c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:48 +0000
Subject: [PATCH 07/43] fix: equivalent boreholes keep the boreholes of their
 own dimensions

The clusters were listed by group of borehole dimensions but used in the
order of the boreholes, so that fields where boreholes of different
dimensions are not listed one group after the other were represented by
equivalent boreholes made of boreholes of different dimensions.
---
 pygfunction/solvers/equivalent.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index dcb2239..0efe3c6 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -349,8 +349,8 @@ class Equivalent(_BaseSolver):
             data = np.sum(finite_line_source(np.inf, 1., self.boreholes, self.boreholes), axis=1).reshape(-1,1)
             # Split boreholes into groups of same dimensions
             unique_boreholes = self._find_unique_boreholes(self.boreholes)
-            # Initialize empty list of clusters
-            self.clusters = []
+            # Initialize list of clusters (in the order of the boreholes)
+            self.clusters = [0] * self.nBoreholes
             self.nEqBoreholes = 0
             for group in unique_boreholes:
                 if len(group) > 1:
@@ -381,11 +381,11 @@ class Equivalent(_BaseSolver):
                     # Cut the tree to find the borehole groups
                     clusters = cut_tree(
                         clusterization, n_clusters=nClusters)
-                    self.clusters = self.clusters + \
-                        [label + self.nEqBoreholes for label in clusters]
+                    for i, label in zip(group, clusters[:, 0]):
+                        self.clusters[i] = label + self.nEqBoreholes
                 else:
                     nClusters = 1
-                    self.clusters.append(self.nEqBoreholes)
+                    self.clusters[group[0]] = self.nEqBoreholes
                 self.nEqBoreholes += nClusters
         else:
             self.nEqBoreholes = self.nBoreholes
-- 
2.43.0


From 7c56cb67ec2ffece8f167554b2649fef88689d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 08/43] fix: equivalent solver with mass flow rates given per
 borehole

The verification that mass flow rates are equal raised an AttributeError
(and compared flow rates of different rows instead of different boreholes),
and the network of equivalent boreholes needs the total mass flow rate.
---
 pygfunction/gfunction.py          | 2 +-
 pygfunction/solvers/equivalent.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 0edad34..a86e999 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1444,7 +1444,7 @@ class gFunction(object):
             elif not (self.m_flow_borehole is None
                       or np.allclose(
                           self.m_flow_borehole,
-                          self.m_flow_borehole[0])):
+                          self.m_flow_borehole[..., 0:1])):
                 warnings.warn(
                     "\nSolver 'equivalent' is only valid for equal mass flow "
                     "rates into the boreholes. Calculations will use the "
diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index 0efe3c6..c015053 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -855,10 +855,12 @@ class Equivalent(_BaseSolver):
                 "Solver 'equivalent' is only valid for parallel-connected " \
                 "boreholes."
             assert (self.m_flow_borehole is None
-                    or (self.m_flow_borehole.ndim==1 and np.allclose(self.m_flow_borehole, self.m_flow_borehole[0]))
-                    or (self.m_flow_borehole.ndim==2 and np.all([np.allclose(self.m_flow_borehole[:, i], self.m_flow_borehole[0, i]) for i in range(self.nBoreholes)]))), \
+                    or np.allclose(self.m_flow_borehole, self.m_flow_borehole[:, 0:1])), \
                 "Mass flow rates into the network must be equal for all " \
                 "boreholes."
+            # The network of equivalent boreholes uses the total mass flow rate
+            if self.m_flow_borehole is not None:
+                self.m_flow = np.sum(self.m_flow_borehole, axis=1)
             # Use the total network mass flow rate.
             if (type(self.network.m_flow_network) is np.ndarray and \
                 len(self.network.m_flow_network)==len(self.network.b)):
-- 
2.43.0


From 6cb1b031207c08b6daaa07599a7ed894db4436bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 09/43] fix: equivalent solver does not modify the network it
 is given

The total mass flow rate written in network.m_flow_network was not used by
the solver, and changed the results of later uses of the network.
---
 pygfunction/solvers/equivalent.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index c015053..cc79f80 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -861,11 +861,6 @@ class Equivalent(_BaseSolver):
             # The network of equivalent boreholes uses the total mass flow rate
             if self.m_flow_borehole is not None:
                 self.m_flow = np.sum(self.m_flow_borehole, axis=1)
-            # Use the total network mass flow rate.
-            if (type(self.network.m_flow_network) is np.ndarray and \
-                len(self.network.m_flow_network)==len(self.network.b)):
-                self.network.m_flow_network = \
-                    self.network.m_flow_network[0]*len(self.network.b)
             # Verify that all boreholes have the same piping configuration
             # This is best done by comparing the matrix of thermal resistances.
             assert np.all(
-- 
2.43.0


From f5a331187194b523bf71a5362846812b8b035e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:20 +0000
Subject: [PATCH 10/43] fix: saved thermal resistances are not shared with
 callers or between threads

thermal_resistances() kept and returned references to its inputs and outputs:
modifying them changed the results of the next call, and two threads could
read the inputs of one calculation and the outputs of another.
---
 pygfunction/pipes.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index c5ceb5e..2695c21 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 import warnings
+from threading import Lock
 from typing import Union
 
 import numpy as np
@@ -2782,6 +2783,7 @@ class Coaxial(SingleUTube):
 _thermal_resistances_dict = {
     'pos': None, 'r_out': None, 'r_b': None, 'k_s': None, 'k_g': None,
     'R_fp': None, 'J': None, 'R': None, 'Rd': None}
+_thermal_resistances_lock = Lock()
 
 
 def _compare_thermal_resistances_inputs(
@@ -2916,8 +2918,11 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
     if np.isscalar(R_fp):
         R_fp = np.ones(n_p)*R_fp
     # Return saved outputs if inputs are the same as last call
-    if _compare_thermal_resistances_inputs(pos, r_out, r_b, k_s, k_g, R_fp, J):
-        return _thermal_resistances_dict['R'], _thermal_resistances_dict['Rd']
+    with _thermal_resistances_lock:
+        if _compare_thermal_resistances_inputs(
+                pos, r_out, r_b, k_s, k_g, R_fp, J):
+            return (_thermal_resistances_dict['R'].copy(),
+                    _thermal_resistances_dict['Rd'].copy())
 
     R = np.zeros((n_p, n_p))
     if J == 0:
@@ -2960,16 +2965,17 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
                     sum([K[i, j] for j in range(n_p) if not i == j]))
     Rd = 1.0/K
 
-    # Save outputs into dictionary
-    _thermal_resistances_dict['pos'] = pos
-    _thermal_resistances_dict['r_out'] = r_out
-    _thermal_resistances_dict['r_b'] = r_b
-    _thermal_resistances_dict['k_s'] = k_s
-    _thermal_resistances_dict['k_g'] = k_g
-    _thermal_resistances_dict['R_fp'] = R_fp
-    _thermal_resistances_dict['J'] = J
-    _thermal_resistances_dict['R'] = R
-    _thermal_resistances_dict['Rd'] = Rd
+    # Save copies of inputs and outputs into dictionary
+    with _thermal_resistances_lock:
+        _thermal_resistances_dict['pos'] = [(x, y) for (x, y) in pos]
+        _thermal_resistances_dict['r_out'] = np.array(r_out)
+        _thermal_resistances_dict['r_b'] = r_b
+        _thermal_resistances_dict['k_s'] = k_s
+        _thermal_resistances_dict['k_g'] = k_g
+        _thermal_resistances_dict['R_fp'] = np.array(R_fp)
+        _thermal_resistances_dict['J'] = J
+        _thermal_resistances_dict['R'] = R.copy()
+        _thermal_resistances_dict['Rd'] = Rd.copy()
     return R, Rd
 
 
-- 
2.43.0


From b6c2c503adf1fc141e6486361a688fb0f16557e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:40 +0000
Subject: [PATCH 11/43] fix: total and per-circuit mass flow rates are
 different inputs

Stored coefficients calculated for a total mass flow rate were used for mass
flow rates per circuit each equal to this value, and the other way around.
---
 pygfunction/networks.py | 3 ++-
 pygfunction/pipes.py    | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 8b5eb0b..cc158a4 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1215,7 +1215,8 @@ class Network(object):
                             np.all([np.all(np.abs(segment_ratios[i] - stored_segment_ratios[i]) < np.abs(stored_segment_ratios[i])*tol) for i in range(len(segment_ratios))]))
         else:
             check_ratios = False
-        if (np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
+        if (np.shape(m_flow_network*cp_f) == np.shape(stored_m_flow_cp)
+            and np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
             and nSegments == stored_nSegments and check_ratios):
             check = True
         else:
diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 2695c21..533f3f0 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -843,7 +843,8 @@ class _BasePipe(object):
                             np.all(np.abs(segment_ratios - stored_segment_ratios) < np.abs(stored_segment_ratios)*tol))
         else:
             check_ratios = False
-        if (np.all(np.abs(m_flow_borehole*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
+        if (np.shape(m_flow_borehole*cp_f) == np.shape(stored_m_flow_cp)
+            and np.all(np.abs(m_flow_borehole*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
             and nSegments == stored_nSegments
             and check_ratios):
             check = True
@@ -873,6 +874,7 @@ class _BasePipe(object):
         else:
             check_ratios = False
         if (check_ratios
+            and np.shape(m_flow_borehole*cp_f) == np.shape(stored_m_flow_cp)
             and np.all(np.abs(m_flow_borehole*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)):
             check = True
         else:
-- 
2.43.0


From 432c739d42509ecb8782d40b291fe2405cf6ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 12/43] fix: stored coefficients keep copies of the inputs they
 were evaluated for

Arrays of segment ratios and mass flow rates modified in place by the caller
were compared to themselves, and coefficients of the former values returned.
---
 pygfunction/networks.py | 9 +++++----
 pygfunction/pipes.py    | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index cc158a4..8111aad 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from copy import deepcopy
 from typing import Union, List
 
 import numpy as np
@@ -1110,7 +1111,7 @@ class Network(object):
             self._mix_out = np.zeros((1, self.nBoreholes))
             self._mix_out[0, self.iOutlets] = \
                 np.abs(self._m_flow_in) / np.sum(np.abs(self._m_flow_in))
-            self._mixing_m_flow = m_flow_network
+            self._mixing_m_flow = deepcopy(m_flow_network)
         return self._mix_out
 
     def _initialize_coefficients_connectivity(self):
@@ -1183,8 +1184,8 @@ class Network(object):
             coefficients, method_id):
         self._stored_coefficients[method_id] = coefficients
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
-        self._stored_nSegments[method_id] = nSegments
-        self._stored_segment_ratios[method_id] = segment_ratios
+        self._stored_nSegments[method_id] = deepcopy(nSegments)
+        self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
 
         return
 
@@ -1585,7 +1586,7 @@ class _EquivalentNetwork(Network):
             wBoreholes = self.wBoreholes.flatten()
             self._mix_out[0, self.iOutlets] = \
                 m_flow_in * wBoreholes / np.sum(m_flow_in * wBoreholes)
-            self._mixing_m_flow = m_flow_network
+            self._mixing_m_flow = deepcopy(m_flow_network)
         return self._mix_out
 
     def _format_inputs(self, m_flow_network, cp_f, nSegments, segment_ratios):
diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 533f3f0..6d43796 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 import warnings
+from copy import deepcopy
 from threading import Lock
 from typing import Union
 
@@ -825,7 +826,7 @@ class _BasePipe(object):
         self._stored_coefficients[method_id] = coefficients
         self._stored_m_flow_cp[method_id] = m_flow_borehole*cp_f
         self._stored_nSegments[method_id] = nSegments
-        self._stored_segment_ratios[method_id] = segment_ratios
+        self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
 
     def _get_stored_coefficients(self, method_id):
         coefficients = self._stored_coefficients[method_id]
@@ -853,7 +854,7 @@ class _BasePipe(object):
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
             self._m_flow_cp_model_variables = m_flow_borehole*cp_f
             self._nSegments_model_variables = nSegments
-            self._segment_ratios_model_variables = segment_ratios
+            self._segment_ratios_model_variables = deepcopy(segment_ratios)
             check = False
 
         return check
-- 
2.43.0


From 2c322a3aae520e72e8a9cb79881f0ae842de3fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 13/43] fix: network outlet temperature mixes the mass flow
 rates it is given

When the coefficients of borehole outlet temperatures were stored, the mixing
coefficients were evaluated from the flow rates (and direction) of the last
evaluated coefficients instead of the requested ones.
---
 pygfunction/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 8111aad..75a0653 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -843,6 +843,9 @@ class Network(object):
                 m_flow_network, cp_f, nSegments, segment_ratios, method_id):
             a_in, a_b = self._get_stored_coefficients(method_id)
         else:
+            # Update input variables
+            self._format_inputs(
+                m_flow_network, cp_f, nSegments, segment_ratios)
             # Coefficient matrices for borehole outlet temperatures:
             # [T_{f,b,out}] = [b_in]*[T_{f,n,in}] + [b_b]*[T_{b}]
             b_in, b_b = self.coefficients_outlet_temperature(
-- 
2.43.0


From 2de63b138859760cc88ae7b71062cc975a15c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 14/43] fix: mix outlets with the mass flow rate of their own
 circuit

The mass flow rates are listed in the order of the network inlets, which is
not the order of the outlets for all borehole connections.
---
 pygfunction/networks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 75a0653..f54a38c 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1112,8 +1112,9 @@ class Network(object):
         """
         if not self._check_mixing_coefficients(m_flow_network):
             self._mix_out = np.zeros((1, self.nBoreholes))
-            self._mix_out[0, self.iOutlets] = \
-                np.abs(self._m_flow_in) / np.sum(np.abs(self._m_flow_in))
+            # Mass flow rate of the circuit of each outlet
+            m_flow_out = np.abs(self._m_flow_borehole[self.iOutlets])
+            self._mix_out[0, self.iOutlets] = m_flow_out / np.sum(m_flow_out)
             self._mixing_m_flow = deepcopy(m_flow_network)
         return self._mix_out
 
-- 
2.43.0


From f5aaaa83ec170c6f82328d98423a7340b0eae648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:12 +0000
Subject: [PATCH 15/43] fix: network coefficients follow updates of the pipes'
 thermal resistances

Network objects kept returning the stored coefficients of the former
thermal resistances after update_thermal_resistances().
---
 pygfunction/networks.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index f54a38c..e068edc 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1155,6 +1155,7 @@ class Network(object):
         self._stored_m_flow_cp = [np.empty(self.nInlets)*np.nan
                                   for _ in range(nMethods)]
         self._stored_nSegments = [np.nan for _ in range(nMethods)]
+        self._stored_pipe_resistances = [[] for _ in range(nMethods)]
         self._stored_segment_ratios = [np.nan for _ in range(nMethods)]
         self._m_flow_cp_model_variables = np.empty(self.nInlets)*np.nan
         self._nSegments_model_variables = np.nan
@@ -1189,6 +1190,8 @@ class Network(object):
         self._stored_coefficients[method_id] = coefficients
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
         self._stored_nSegments[method_id] = deepcopy(nSegments)
+        self._stored_pipe_resistances[method_id] = \
+            [pipe._Rd for pipe in self.p]
         self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
 
         return
@@ -1220,7 +1223,13 @@ class Network(object):
                             np.all([np.all(np.abs(segment_ratios[i] - stored_segment_ratios[i]) < np.abs(stored_segment_ratios[i])*tol) for i in range(len(segment_ratios))]))
         else:
             check_ratios = False
-        if (np.shape(m_flow_network*cp_f) == np.shape(stored_m_flow_cp)
+        # Thermal resistances of the pipes may have been updated
+        check_pipes = (
+            len(self.p) == len(self._stored_pipe_resistances[method_id])
+            and all([pipe._Rd is Rd for pipe, Rd in zip(
+                self.p, self._stored_pipe_resistances[method_id])]))
+        if (check_pipes
+            and np.shape(m_flow_network*cp_f) == np.shape(stored_m_flow_cp)
             and np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
             and nSegments == stored_nSegments and check_ratios):
             check = True
-- 
2.43.0


From 6770d2ecb925cb7a6aa09c2b5f5e2550b9afc4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:09 +0000
Subject: [PATCH 16/43] fix: boreholes without reversible flow ignore the sign
 of the mass flow rate

---
 pygfunction/pipes.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 6d43796..47375ed 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1637,6 +1637,8 @@ class SingleUTube(_BasePipe):
         self._m_flow_in = m_flow_in
         # Mass flow rate in pipes
         m_flow_pipe = np.array([m_flow_borehole, -m_flow_borehole]).flatten()
+        if not self.reversible_flow:
+            m_flow_pipe = np.array([1., -1.]) * np.abs(m_flow_pipe)
         self._m_flow_pipe = m_flow_pipe
         # Flow direction
         self._is_reversed = m_flow_borehole < 0. and self.reversible_flow
@@ -2207,8 +2209,9 @@ class MultipleUTube(_BasePipe):
             m_flow_pipe = np.tile(
                 np.abs(m_flow_borehole),
                 self.nPipes)
-        self._m_flow_pipe = np.sign(m_flow_borehole) * np.concatenate(
-            (m_flow_pipe, -m_flow_pipe))
+        self._m_flow_pipe = np.concatenate((m_flow_pipe, -m_flow_pipe))
+        if self.reversible_flow:
+            self._m_flow_pipe = np.sign(m_flow_borehole) * self._m_flow_pipe
         # Mass flow rate in each fluid circuit
         m_flow_in = np.atleast_1d(m_flow_borehole)
         self._m_flow_in = m_flow_in
@@ -2485,7 +2488,11 @@ class IndependentMultipleUTube(MultipleUTube):
                 'Incorrect length of mass flow vector.')
         self._m_flow_in = m_flow_in
         # Mass flow rate in pipes
-        self._m_flow_pipe = np.concatenate((m_flow_in, -m_flow_in))
+        if self.reversible_flow:
+            m_flow_pipe = m_flow_in
+        else:
+            m_flow_pipe = np.abs(m_flow_in)
+        self._m_flow_pipe = np.concatenate((m_flow_pipe, -m_flow_pipe))
         # Flow direction
         self._is_reversed = np.logical_and(
             m_flow_borehole < 0.,
-- 
2.43.0


From 8dfcea3dad7622e401fce9455a142e8a2a84d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 17/43] fix: multipole iterations stop on the largest change of
 the multipoles

---
 pygfunction/pipes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 47375ed..72bab31 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -3451,9 +3451,9 @@ def multipole(pos, r_out, r_b, k_s, k_g, R_fp, T_b, q_p, J,
             eps_max = 0.
             F = _F_mk(q_p, P, n_p, J, r_b, r_out, z_p, pikg, sigma)
             P_new = coeff*np.conj(F)
+            diff = np.max(np.abs(P_new-P))
             if it == 1:
-                diff0 = np.max(np.abs(P_new-P)) - np.min(np.abs(P_new-P))
-            diff = np.max(np.abs(P_new-P)) - np.min(np.abs(P_new-P))
+                diff0 = diff
             eps_max = diff / (diff0 + 1e-30)
             P = P_new
     else:
-- 
2.43.0


From c57c692c57c892176fa1a629479b4427293067ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 18/43] fix: linearization of variable mass flow rate
 g-functions

---
 pygfunction/solvers/_base_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index e73eb2f..250bb3c 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -444,7 +444,7 @@ class _BaseSolver:
 
             # Linearize g-function for times under threshold
             if p_long > 0:
-                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1] * self.time[:p_long] / time_threshold
+                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
                 Q_b[:,:,:p_long] = 1 + (Q_b[:,:,p_long-1:p_long] - 1) * self.time[:p_long] / time_threshold
                 T_b[:,:,:p_long] = T_b[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
             if self.nMassFlow == 0:
-- 
2.43.0


From b2a152902db631b2b70aeee7b01c27581a4e8e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 19/43] fix: profiles with uniform temperatures or several mass
 flow rates

---
 pygfunction/gfunction.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index a86e999..d312ee4 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1234,7 +1234,7 @@ class gFunction(object):
                     else:
                         Q_bi = interp1d(
                             self.time,
-                            self.solver.Q_b[i0:i1,:],
+                            self.solver.Q_b[:,i0:i1,:],
                             kind='linear',
                             copy=False,
                             axis=2)(time)
@@ -1337,14 +1337,14 @@ class gFunction(object):
                 if time is None:
                     # If time is None, temperatures are extracted at the last
                     # time step.
-                    T_bi = np.asscalar(self.solver.T_b[-1])
+                    T_bi = self.solver.T_b[-1]
                 else:
                     # Otherwise, temperatures are interpolated.
-                    T_bi = np.asscalar(
-                        interp1d(self.time,
-                                 self.solver.T_b[:],
-                                 kind='linear',
-                                 copy=False)(time))
+                    T_bi = interp1d(
+                        self.time,
+                        self.solver.T_b[:],
+                        kind='linear',
+                        copy=False)(time)
                 T_b.append(np.array(2*[T_bi]))
             else:
                 i0 = self.solver._i0Segments[i]
@@ -1358,11 +1358,6 @@ class gFunction(object):
                         T_bi = self.solver.T_b[:, i0:i1, -1]
                 else:
                     # Otherwise, temperatures are interpolated.
-                    T_bi = interp1d(self.time,
-                                    self.solver.T_b[i0:i1, :],
-                                    kind='linear',
-                                    copy=False,
-                                    axis=1)(time)
                     if self.solver.nMassFlow == 0:
                         T_bi = interp1d(
                             self.time,
@@ -1373,7 +1368,7 @@ class gFunction(object):
                     else:
                         T_bi = interp1d(
                             self.time,
-                            self.solver.T_b[i0:i1,:],
+                            self.solver.T_b[:,i0:i1,:],
                             kind='linear',
                             copy=False,
                             axis=2)(time)
-- 
2.43.0


From f6143ffd18e2d26f3f5772c2bc56b622b301b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 20/43] fix: from_static_params uses the heat capacity at the
 fluid temperature

---
 pygfunction/gfunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index d312ee4..cc04e74 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -425,7 +425,8 @@ class gFunction(object):
 
         if boundary_condition.upper() == 'MIFT':
             boreholes = borefield.to_boreholes()
-            cp_f = Fluid(fluid_str, fluid_concentration_pct).cp
+            cp_f = Fluid(
+                fluid_str, fluid_concentration_pct, fluid_temperature).cp
             boreholes_or_network= Network.from_static_params(
                 boreholes,
                 pipe_type_str,
-- 
2.43.0


From a8638e5891f854ed91184d7dfe0686690996b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:10 +0000
Subject: [PATCH 21/43] fix: geometry checks of coaxial pipes apply to all
 pipes

---
 pygfunction/pipes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 72bab31..81e6d61 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2738,18 +2738,18 @@ class Coaxial(SingleUTube):
             raise ValueError(
                 f'The grout thermal conductivity must be greater than zero. '
                 f'A value of {self.k_g} was provided.')
-        if not np.all(self.R_ff) >= 0.:
+        if not np.all(self.R_ff >= 0.):
             raise ValueError(
                 f'The fluid to fluid thermal resistance must be'
                 f'greater or equal to zero. '
                 f'A value of {self.R_ff} was provided.')
-        if not np.all(self.R_fp) > 0.:
+        if not np.all(self.R_fp > 0.):
             raise ValueError(
                 f'The fluid to outer pipe wall thermal resistance must be'
                 f'greater than zero. A value of {self.R_fp} was provided.')
 
         # Verify that the pipe radius is greater than zero.
-        if not np.all(self.r_in) > 0.:
+        if not np.all(self.r_in > 0.):
             raise ValueError(
                 f'The pipe inner radius must be greater than zero. '
                 f'A value of {self.r_in} was provided.')
@@ -2778,7 +2778,7 @@ class Coaxial(SingleUTube):
         for i in range(len(self.pos)):
             r_pipe = np.sqrt(self.pos[i][0]**2 + self.pos[i][1]**2)
             radii = r_pipe + self.r_out
-            if not np.any(np.greater_equal(self.b.r_b, radii)):
+            if not np.all(np.greater_equal(self.b.r_b, radii)):
                 raise ValueError(
                     f'Pipes must be entirely contained within the borehole. '
                     f'Pipe {i} is partly or entirely outside the '
-- 
2.43.0


From 5a6d7ff5cc8af79066e61a305268d8239b54aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:30 +0000
Subject: [PATCH 22/43] fix: default origin of the deprecated
 staggered_rectangle_field

---
 pygfunction/boreholes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index c122424..05132b5 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -853,11 +853,11 @@ def staggered_rectangle_field(
         # When no origin is supplied, compute the origin to be at the center of
         # the rectangle
         if include_last_borehole:
-            x0 = (N_1 - 1) / 2 * B_1
+            x0 = (N_1 - 0.5) / 2 * B_1
             y0 = (N_2 - 1) / 2 * B_2
         else:
-            x0 = (N_1 - 0.5) / 2 * B_1
-            y0 = (N_2 - 0.5) / 2 * B_2
+            x0 = (N_1 - 1) / 2 * B_1
+            y0 = (N_2 - 1) / 2 * B_2
     else:
         x0, y0 = origin
 
-- 
2.43.0


From 257f863602862f5cc325a159f2f334a13b01e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:30 +0000
Subject: [PATCH 23/43] fix: gFunction uses the flow rate and heat capacity of
 the network of any number type

---
 pygfunction/gfunction.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index cc04e74..2991a39 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1415,12 +1415,16 @@ class gFunction(object):
             # Extract mass flow rate from Network object if provided in the object
             # and none of m_flow_borehole and m_flow_network are provided
             if self.m_flow_borehole is None and self.m_flow_network is None:
-                if type(self.network.m_flow_network) is float:
-                     self.m_flow_network = self.network.m_flow_network
+                if isinstance(
+                        self.network.m_flow_network,
+                        (float, int, np.floating, np.integer)):
+                     self.m_flow_network = float(self.network.m_flow_network)
                 elif type(self.network.m_flow_network) is np.ndarray:
                      self.m_flow_borehole = self.network.m_flow_network
-            if self.cp_f is None and type(self.network.cp_f) is float:
-                self.cp_f = self.network.cp_f
+            if self.cp_f is None and isinstance(
+                    self.network.cp_f,
+                    (float, int, np.floating, np.integer)):
+                self.cp_f = float(self.network.cp_f)
         else:
             self.network = None
             self.boreholes = boreholes_or_network
-- 
2.43.0


From 433798f8457c8b9e57c2d3b6aed0f754540e297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:30 +0000
Subject: [PATCH 24/43] fix: numbers of segments and segment ratios are those
 of the boreholes

---
 pygfunction/solvers/_base_solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index 250bb3c..1ff72e0 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -604,7 +604,7 @@ class _BaseSolver:
             "Time should be a float or an array."
         # self.nSegments can now be an int or list
         assert type(self.nBoreSegments) is list and len(self.nBoreSegments) == \
-               len(self.nBoreSegments) and min(self.nBoreSegments) >= 1, \
+               len(self.boreholes) and min(self.nBoreSegments) >= 1, \
             "The argument for number of segments `nSegments` should be " \
             "of type int or a list of integers. If passed as a list, the " \
             "length of the list should be equal to the number of boreholes" \
@@ -632,6 +632,9 @@ class _BaseSolver:
             f"Data type '{self.dtype}' is not an acceptable data type. \n" \
             f"Please provide one of the following inputs : {acceptable_dtypes}"
         # Check segment ratios
+        assert len(self.segment_ratios) == len(self.boreholes), \
+            "The number of segment ratios vectors should be equal to the " \
+            "number of boreholes in the borefield."
         for j, (ratios, nSegments) in enumerate(
                 zip(self.segment_ratios, self.nBoreSegments)):
             assert len(ratios) == nSegments, \
-- 
2.43.0


From 52debe3ad66467463949064c3e7b5a441d969a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:42 +0000
Subject: [PATCH 25/43] fix: temperature profiles are those of the boreholes of
 the solver

---
 pygfunction/gfunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 2991a39..dfcf385 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1022,7 +1022,7 @@ class gFunction(object):
 
         # If iBoreholes is None, then plot all boreholes
         if iBoreholes is None:
-            iBoreholes = range(len(self.boreholes))
+            iBoreholes = range(len(self.solver.boreholes))
         # Import temperature profiles
         z, T_b = self._temperature_profiles(time, iBoreholes)
 
-- 
2.43.0


From 77513c052f527140fa3f71d4de0351ede2a85b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 26/43] fix: Fluid.append_to_dict formats attributes that are
 not numbers

---
 pygfunction/media.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pygfunction/media.py b/pygfunction/media.py
index a24036e..f7d3697 100644
--- a/pygfunction/media.py
+++ b/pygfunction/media.py
@@ -108,7 +108,12 @@ class Fluid:
             for item in sorted(self.__dict__):
                 dnary[item] = []
         for item in sorted(self.__dict__):
-            dnary[item].append(f'{self.__dict__[item]:.5E}')
+            value = self.__dict__[item]
+            if item in ('fluid', 'name'):
+                # These attributes are not numbers
+                dnary[item].append(f'{value!s}')
+            else:
+                dnary[item].append(f'{value:.5E}')
 
     def density(self):
         """
-- 
2.43.0


From 93fa323d654c1f47d9f08a7fcec1e6eeac6370d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:57 +0000
Subject: [PATCH 27/43] fix: refuse segment ratios that are not positive

---
 pygfunction/solvers/_base_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index 1ff72e0..bed6b14 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -640,6 +640,8 @@ class _BaseSolver:
             assert len(ratios) == nSegments, \
                 f"The length of the segment ratios vectors must correspond to " \
                 f"the number of segments, check borehole {j}."
+            assert np.all(np.asarray(ratios) > 0.), \
+                f"Segment ratios must be greater than 0, check borehole {j}."
             error = np.abs(1. - np.sum(ratios))
             assert(error < 1.0e-6), \
                 f"Defined segment ratios must add up to 1. " \
-- 
2.43.0


From 4f4ca7a565e3bc09222d6b62addbee34a22d7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:57 +0000
Subject: [PATCH 28/43] fix: networks refuse numbers of pipes and segment
 ratios that do not match

---
 pygfunction/networks.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index e068edc..7baa3ad 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -95,6 +95,11 @@ class Network(object):
         self.m_flow_network = m_flow_network
         self.cp_f = cp_f
 
+        # Verify that there is one pipe per borehole
+        if not len(self.p) == self.nBoreholes:
+            raise ValueError(
+                'The number of pipes does not correspond to the number of '
+                'boreholes in the bore field.')
         # Verify that borehole connectivity is valid
         self._verify_bore_connectivity()
         self._find_inlets_outlets()
@@ -1304,6 +1309,9 @@ class Network(object):
         elif isinstance(segment_ratios, np.ndarray):
             self._segment_ratios = [segment_ratios] * self.nBoreholes
         elif isinstance(segment_ratios, list):
+            if not len(segment_ratios) == self.nBoreholes:
+                raise ValueError(
+                    'Incorrect length of the segment ratios list.')
             self._segment_ratios = segment_ratios
         else:
             raise ValueError(
-- 
2.43.0


From 340e13fe0e8a9358d3cd301a25079a2cf3b98eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:02 +0000
Subject: [PATCH 29/43] fix: networks compare the number of segment ratios with
 the remembered one

---
 pygfunction/networks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 7baa3ad..a1221df 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1224,7 +1224,8 @@ class Network(object):
         if stored_segment_ratios is None and segment_ratios is None:
             check_ratios = True
         elif isinstance(stored_segment_ratios, list) and isinstance(segment_ratios, list):
-            check_ratios = (np.all([len(segment_ratios[i]) == len(stored_segment_ratios[i]) for i in range(len(segment_ratios))]) and
+            check_ratios = (len(segment_ratios) == len(stored_segment_ratios) and
+                            np.all([len(segment_ratios[i]) == len(stored_segment_ratios[i]) for i in range(len(segment_ratios))]) and
                             np.all([np.all(np.abs(segment_ratios[i] - stored_segment_ratios[i]) < np.abs(stored_segment_ratios[i])*tol) for i in range(len(segment_ratios))]))
         else:
             check_ratios = False
-- 
2.43.0


From 9f6b73c46202ec8a76ea933ad0636d6cedfc3e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:49 +0000
Subject: [PATCH 30/43] fix: single U-tubes accept a depth given as a number

---
 pygfunction/pipes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 81e6d61..b774464 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1225,6 +1225,8 @@ class SingleUTube(_BasePipe):
         beta12 = self._beta12
 
         # Other parameters
+        is_scalar = np.isscalar(z)
+        z = np.atleast_1d(z)
         nz = len(z)
         z_u = self.b._segment_edges(
             nSegments, segment_ratios=segment_ratios)
@@ -1326,6 +1328,10 @@ class SingleUTube(_BasePipe):
         # Final coefficient
         a_b = C * np.diff(a_b, axis=2)
 
+        # Return 2d arrays if z was supplied as scalar
+        if is_scalar:
+            a_in, a_b = a_in[0], a_b[0]
+
         return a_in, a_b
 
     def update_thermal_resistances(self, R_fp):
-- 
2.43.0


From 1eeba9bb844187aa1a469c9435532d13e2c8eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:24 +0000
Subject: [PATCH 31/43] fix: g-functions at repeated times

---
 pygfunction/solvers/_base_solver.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index bed6b14..10c7c4c 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -221,8 +221,8 @@ class _BaseSolver:
             Values of the g-function
 
         """
-        # Number of time values
-        self.time = time
+        # Number of time values (repeated times are only solved once)
+        self.time, i_time = np.unique(time, return_inverse=True)
         nt = len(self.time)
         # Evaluate threshold time for g-function linearization
         if self.linear_threshold is None:
@@ -452,10 +452,13 @@ class _BaseSolver:
                 Q_b = Q_b[0,:,:]
                 T_b = T_b[0,:,:]
 
+        # Return to the requested time values
+        self.time = time
+        gFunc = gFunc[..., i_time]
         # Store temperature and heat extraction rate profiles
         if self.profiles:
-            self.Q_b = Q_b
-            self.T_b = T_b
+            self.Q_b = Q_b[..., i_time] if np.ndim(Q_b) > 0 else Q_b
+            self.T_b = T_b[..., i_time]
         toc = perf_counter()
         if self.disp: print(f' {toc - tic:.3f} sec')
         return gFunc
-- 
2.43.0


From 5128fb6aae3ec0fba4162c4f79e5f51a5bc740cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:36 +0000
Subject: [PATCH 32/43] fix: heat extraction rates left boreholes with the flow
 direction of another query

---
 pygfunction/pipes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index b774464..0d3567c 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -573,6 +573,9 @@ class _BasePipe(object):
                 m_flow_borehole, cp_f, nSegments, segment_ratios, method_id):
             a_in, a_b = self._get_stored_coefficients(method_id)
         else:
+            # Check if model variables need to be updated
+            self._check_model_variables(
+                m_flow_borehole, cp_f, nSegments, segment_ratios)
             # Update input variables
             self._format_inputs(
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
@@ -640,6 +643,9 @@ class _BasePipe(object):
                 m_flow_borehole, cp_f, nSegments, segment_ratios, method_id):
             a_in, a_b = self._get_stored_coefficients(method_id)
         else:
+            # Check if model variables need to be updated
+            self._check_model_variables(
+                m_flow_borehole, cp_f, nSegments, segment_ratios)
             # Update input variables
             self._format_inputs(
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
-- 
2.43.0


From 4ac92171bace5abb3ebb415a4dc585bed144541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:08 +0000
Subject: [PATCH 33/43] fix: equivalent solver grouped boreholes with different
 pipe connections

---
 pygfunction/gfunction.py          |  2 +-
 pygfunction/pipes.py              | 15 +++++++++++++++
 pygfunction/solvers/equivalent.py |  3 +--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index dfcf385..17f8c25 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1451,7 +1451,7 @@ class gFunction(object):
                     "'similarities' solver instead.")
                 self.method = 'similarities'
             elif not np.all(
-                    [np.allclose(self.network.p[0]._Rd, pipe._Rd)
+                    [self.network.p[0]._is_same_configuration(pipe)
                      for pipe in self.network.p]):
                 warnings.warn(
                     "\nSolver 'equivalent' is only valid for boreholes with "
diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 0d3567c..a0769a8 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -815,6 +815,21 @@ class _BasePipe(object):
 
         return fig
 
+    def _is_same_configuration(self, other):
+        """
+        Returns True if the other pipe has the same piping configuration.
+
+        This compares the types of pipes, their connections, whether their flow
+        is reversible and their delta-circuit thermal resistances.
+
+        """
+        return (
+            type(self) is type(other)
+            and self.reversible_flow == other.reversible_flow
+            and getattr(self, 'config', None) == getattr(other, 'config', None)
+            and np.shape(self._Rd) == np.shape(other._Rd)
+            and np.allclose(self._Rd, other._Rd))
+
     def _initialize_stored_coefficients(self):
         nMethods = 8    # Number of class methods
         self._stored_coefficients = [() for i in range(nMethods)]
diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index cc79f80..11be663 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -862,9 +862,8 @@ class Equivalent(_BaseSolver):
             if self.m_flow_borehole is not None:
                 self.m_flow = np.sum(self.m_flow_borehole, axis=1)
             # Verify that all boreholes have the same piping configuration
-            # This is best done by comparing the matrix of thermal resistances.
             assert np.all(
-                [np.allclose(self.network.p[0]._Rd, pipe._Rd)
+                [self.network.p[0]._is_same_configuration(pipe)
                  for pipe in self.network.p]), \
                 "All boreholes must have the same piping configuration."
         return
-- 
2.43.0


From 7920f44b4c3fc7c4e032de720234e086e2d88759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 34/43] fix: mixed_inlet_temperature ignored the given mass
 flow rate and heat capacity

---
 pygfunction/gfunction.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 17f8c25..195bd83 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1929,9 +1929,15 @@ def mixed_inlet_temperature(
         method='similarities'
     else:
         method='detailed'
+    # Flow rate at the inlet of the network, or of each of its circuits
+    if np.ndim(m_flow_network) == 0:
+        m_flow = {'m_flow_network':float(m_flow_network)}
+    else:
+        m_flow = {'m_flow_borehole':np.asarray(m_flow_network)}
     # Evaluate g-function
     gFunc = gFunction(
         network, alpha, time=time, method=method,
-        boundary_condition=boundary_condition, options=options)
+        boundary_condition=boundary_condition, cp_f=np.ravel(cp_f)[0].item(),
+        options=options, **m_flow)
 
     return gFunc.gFunc
-- 
2.43.0


From 9ade373d45d4ce1b3194276156bc0500f2a98907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:01 +0000
Subject: [PATCH 35/43] fix: steady-state response of a tilted borehole to its
 own image left out its radius

---
 pygfunction/heat_transfer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 6da8bca..a7bf4c1 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -1524,8 +1524,8 @@ def _finite_line_source_inclined_steady_state(
                 np.sqrt(rr + dzRea**2 + u**2*H1**2 + H2**2 + 2*u*H1*kRea_1 - 2*H2*kRea_2 - 2*u*H1*H2*kRea_0),
                 kRea_2 + u*H1*kRea_0, H2)
             - _inverse_distance_integral(
-                np.sqrt(dx**2 + dy**2 + dzImg**2 + u**2*H1**2 + 2*u*H1*kImg_1),
-                np.sqrt(dx**2 + dy**2 + dzImg**2 + u**2*H1**2 + H2**2 + 2*u*H1*kImg_1 - 2*H2*kImg_2 - 2*u*H1*H2*kImg_0),
+                np.sqrt(rr + dzImg**2 + u**2*H1**2 + 2*u*H1*kImg_1),
+                np.sqrt(rr + dzImg**2 + u**2*H1**2 + H2**2 + 2*u*H1*kImg_1 - 2*H2*kImg_2 - 2*u*H1*H2*kImg_0),
                 kImg_2 + u*H1*kImg_0, H2)
             ).T @ w).T
     elif reaSource:
@@ -1544,13 +1544,14 @@ def _finite_line_source_inclined_steady_state(
     elif imgSource:
         # Image FLS solution
         dzImg = D1 + D2
+        rr = np.maximum(dx**2 + dy**2, rb1**2)
         kImg_0 = sb1 * sb2 * np.cos(orientation1 - orientation2) - cb1 * cb2
         kImg_1 = sb1 * (np.cos(orientation1) * dx + np.sin(orientation1) * dy) + cb1 * dzImg
         kImg_2 = sb2 * (np.cos(orientation2) * dx + np.sin(orientation2) * dy) - cb2 * dzImg
         h = -0.5 * H1 / H2 * (
             _inverse_distance_integral(
-                np.sqrt(dx**2 + dy**2 + dzImg**2 + u**2*H1**2 + 2*u*H1*kImg_1),
-                np.sqrt(dx**2 + dy**2 + dzImg**2 + u**2*H1**2 + H2**2 + 2*u*H1*kImg_1 - 2*H2*kImg_2 - 2*u*H1*H2*kImg_0),
+                np.sqrt(rr + dzImg**2 + u**2*H1**2 + 2*u*H1*kImg_1),
+                np.sqrt(rr + dzImg**2 + u**2*H1**2 + H2**2 + 2*u*H1*kImg_1 - 2*H2*kImg_2 - 2*u*H1*H2*kImg_0),
                 kImg_2 + u*H1*kImg_0, H2)
             .T @ w).T
     else:
-- 
2.43.0


From bf82908e6136feccea7a4cb89da2a75794f027e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:11 +0000
Subject: [PATCH 36/43] fix: overflow of the inclined line source between
 segments of one tilted borehole

---
 pygfunction/heat_transfer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index a7bf4c1..7fcb779 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -1214,6 +1214,8 @@ def _finite_line_source_inclined_integrand(
     cb2 = np.cos(tilt2)
     dx = x1 - x2
     dy = y1 - y2
+    # Note: The exponents are equal to zero for collinear heat sources. They are
+    #       bounded so that round-off does not make them grow with s**2.
     if reaSource and imgSource:
         # Full (real + image) FLS solution
         dzRea = D1 - D2
@@ -1227,9 +1229,9 @@ def _finite_line_source_inclined_integrand(
         kImg_2 = sb2 * (np.cos(orientation2) * dx + np.sin(orientation2) * dy) - cb2 * dzImg
         f = lambda s: \
             ((H1 / s * (
-                np.exp(-(rr + dzRea**2) * s**2 + s**2 * (u**2 * H1**2 * (kRea_0**2 - 1) + 2 * u * H1 * (kRea_0 * kRea_2 - kRea_1) + kRea_2**2)) \
+                np.exp(np.minimum(-(rr + dzRea**2) * s**2 + s**2 * (u**2 * H1**2 * (kRea_0**2 - 1) + 2 * u * H1 * (kRea_0 * kRea_2 - kRea_1) + kRea_2**2), 0.)) \
                     * (erf((u *  H1 * kRea_0 + kRea_2) * s) - erf((u * H1 * kRea_0 + kRea_2 - H2) * s))
-                - np.exp(-(rr + dzImg**2) * s**2 + s**2 * (u**2 * H1**2 * (kImg_0**2 - 1) + 2 * u * H1 * (kImg_0 * kImg_2 - kImg_1) + kImg_2**2)) \
+                - np.exp(np.minimum(-(rr + dzImg**2) * s**2 + s**2 * (u**2 * H1**2 * (kImg_0**2 - 1) + 2 * u * H1 * (kImg_0 * kImg_2 - kImg_1) + kImg_2**2), 0.)) \
                     * (erf((u *  H1 * kImg_0 + kImg_2) * s) - erf((u * H1 * kImg_0 + kImg_2 - H2) * s)))).T @ w).T
     elif reaSource:
         # Real FLS solution
@@ -1239,7 +1241,7 @@ def _finite_line_source_inclined_integrand(
         kRea_1 = sb1 * (np.cos(orientation1) * dx + np.sin(orientation1) * dy) + cb1 * dzRea
         kRea_2 = sb2 * (np.cos(orientation2) * dx + np.sin(orientation2) * dy) + cb2 * dzRea
         f = lambda s: \
-            ((H1 / s * np.exp(-(rr + dzRea**2) * s**2 + s**2 * (u**2 * H1**2 * (kRea_0**2 - 1) + 2 * u * H1 * (kRea_0 * kRea_2 - kRea_1) + kRea_2**2)) \
+            ((H1 / s * np.exp(np.minimum(-(rr + dzRea**2) * s**2 + s**2 * (u**2 * H1**2 * (kRea_0**2 - 1) + 2 * u * H1 * (kRea_0 * kRea_2 - kRea_1) + kRea_2**2), 0.)) \
                 * (erf((u *  H1 * kRea_0 + kRea_2) * s) - erf((u * H1 * kRea_0 + kRea_2 - H2) * s))).T @ w).T
     elif imgSource:
         # Image FLS solution
@@ -1248,7 +1250,7 @@ def _finite_line_source_inclined_integrand(
         kImg_1 = sb1 * (np.cos(orientation1) * dx + np.sin(orientation1) * dy) + cb1 * dzImg
         kImg_2 = sb2 * (np.cos(orientation2) * dx + np.sin(orientation2) * dy) - cb2 * dzImg
         f = lambda s: \
-            -((H1 / s * np.exp(-(dx**2 + dy**2 + dzImg**2) * s**2 + s**2 * (u**2 * H1**2 * (kImg_0**2 - 1) + 2 * u * H1 * (kImg_0 * kImg_2 - kImg_1) + kImg_2**2)) \
+            -((H1 / s * np.exp(np.minimum(-(dx**2 + dy**2 + dzImg**2) * s**2 + s**2 * (u**2 * H1**2 * (kImg_0**2 - 1) + 2 * u * H1 * (kImg_0 * kImg_2 - kImg_1) + kImg_2**2), 0.)) \
                 * (erf((u *  H1 * kImg_0 + kImg_2) * s) - erf((u * H1 * kImg_0 + kImg_2 - H2) * s))).T @ w).T
     else:
         # No heat source
-- 
2.43.0


From 9036d0d95ea65ec82ad861feb71f19c05f52885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:19 +0000
Subject: [PATCH 37/43] fix: infinite times are recognized by value rather than
 identity

---
 pygfunction/heat_transfer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 7fcb779..3b8cc86 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -207,7 +207,7 @@ def finite_line_source(
         if borehole1.is_vertical() and borehole2.is_vertical():
             # Boreholes are vertical
             dis = borehole1.distance(borehole2)
-            if time is np.inf:
+            if np.ndim(time) == 0 and np.isinf(time):
                 # Steady-state solution
                 h = _finite_line_source_steady_state(
                     dis, H1, D1, H2, D2, reaSource, imgSource)
@@ -244,7 +244,7 @@ def finite_line_source(
             x2, y2 = borehole2.position()
             tilt2 = borehole2.tilt
             orientation2 = borehole2.orientation
-            if time is np.inf:
+            if np.ndim(time) == 0 and np.isinf(time):
                 # Steady-state solution
                 h = _finite_line_source_inclined_steady_state(
                     rb1, x1, y1, H1, D1, tilt1, orientation1,
@@ -298,7 +298,7 @@ def finite_line_source(
         if (np.all([b.is_vertical() for b in borehole1])
             and np.all([b.is_vertical() for b in borehole2])):
             # All boreholes are vertical
-            if time is np.inf:
+            if np.ndim(time) == 0 and np.isinf(time):
                 # Steady-state solution
                 h = _finite_line_source_steady_state(
                     dis, H1, D1, H2, D2, reaSource, imgSource)
@@ -324,7 +324,7 @@ def finite_line_source(
             tilt2 = np.array([b.tilt for b in borehole2]).reshape(-1, 1)
             orientation2 = np.array([b.orientation for b in borehole2]).reshape(-1, 1)
             r_b = r_b.reshape(1, -1)
-            if time is np.inf:
+            if np.ndim(time) == 0 and np.isinf(time):
                 # Steady-state solution
                 h = _finite_line_source_inclined_steady_state(
                     r_b, x1, y1, H1, D1, tilt1, orientation1,
-- 
2.43.0


From ecceb5dfe82c84af9c719366dba1506252d2ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:37 +0000
Subject: [PATCH 38/43] fix: line source integrals of distant boreholes did not
 converge

The vectorized line sources only had a relative tolerance, which is never
reached when the response is lower than the round-off errors of the integrand
(e.g. boreholes one above the other at early times). The evaluation then went
through the maximum number of subdivisions and took minutes.
---
 pygfunction/heat_transfer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 3b8cc86..6f37a63 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -757,18 +757,22 @@ def finite_line_source_vectorized(
         f = _finite_line_source_integrand(
             dis, H1, D1, H2, D2, reaSource, imgSource)
 
+        # Absolute tolerance: the integrals of distant boreholes are lower than
+        # the round-off errors of the integrand and would never reach a
+        # relative tolerance
+        epsabs = 1e-9 * np.min(H2, initial=np.inf)
         # Evaluate integral
         if isinstance(time, (np.floating, float)):
             # Lower bound of integration
             a = 1.0 / np.sqrt(4.0*alpha*time)
-            h = 0.5 / H2 * quad_vec(f, a, np.inf)[0]
+            h = 0.5 / H2 * quad_vec(f, a, np.inf, epsabs=epsabs)[0]
         else:
             # Lower bound of integration
             a = 1.0 / np.sqrt(4.0*alpha*time)
             # Upper bound of integration
             b = np.concatenate(([np.inf], a[:-1]))
             h = np.cumsum(np.stack(
-                [0.5 / H2 * quad_vec(f, a_i, b_i)[0]
+                [0.5 / H2 * quad_vec(f, a_i, b_i, epsabs=epsabs)[0]
                  for t, a_i, b_i in zip(time, a, b)],
                 axis=-1), axis=-1)
     else:
@@ -871,18 +875,22 @@ def finite_line_source_equivalent_boreholes_vectorized(
     f = _finite_line_source_equivalent_boreholes_integrand(
         dis, wDis, H1, D1, H2, D2, N2, reaSource, imgSource)
 
+    # Absolute tolerance: the integrals of distant boreholes are lower than the
+    # round-off errors of the integrand and would never reach a relative
+    # tolerance
+    epsabs = 1e-9 * np.min(N2 * H2, initial=np.inf)
     # Evaluate integral
     if isinstance(time, (np.floating, float)):
         # Lower bound of integration
         a = 1.0 / np.sqrt(4.0*alpha*time)
-        h = 0.5 / (N2*H2) * quad_vec(f, a, np.inf)[0]
+        h = 0.5 / (N2*H2) * quad_vec(f, a, np.inf, epsabs=epsabs)[0]
     else:
         # Lower bound of integration
         a = 1.0 / np.sqrt(4.0*alpha*time)
         # Upper bound of integration
         b = np.concatenate(([np.inf], a[:-1]))
         h = np.cumsum(np.stack(
-            [0.5 / (N2*H2) * quad_vec(f, a_i, b_i)[0]
+            [0.5 / (N2*H2) * quad_vec(f, a_i, b_i, epsabs=epsabs)[0]
              for t, a_i, b_i in zip(time, a, b)],
             axis=-1), axis=-1)
     return h
-- 
2.43.0


From 3d6431b9b6faee671252a8b73cd62bf0d21ac07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:00 +0000
Subject: [PATCH 39/43] fix: pipes could not be drawn if there were more of
 them than colors

---
 pygfunction/pipes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index a0769a8..6c84844 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -783,6 +783,9 @@ class _BasePipe(object):
 
         # Pipes
         for i in range(self.nPipes):
+            # The colors repeat if there are more pipes than colors
+            color = colors[i % len(colors)]
+
             # Coordinates of pipes
             (x_in, y_in) = self.pos[i]
             (x_out, y_out) = self.pos[i + self.nPipes]
@@ -790,19 +793,19 @@ class _BasePipe(object):
             # Pipe outline (inlet)
             pipe_in_in = plt.Circle(
                 (x_in, y_in), radius=self.r_in,
-                fill=False, linestyle='-', color=colors[i], lw=lw)
+                fill=False, linestyle='-', color=color, lw=lw)
             pipe_in_out = plt.Circle(
                 (x_in, y_in), radius=self.r_out,
-                fill=False, linestyle='-', color=colors[i], lw=lw)
+                fill=False, linestyle='-', color=color, lw=lw)
             ax.text(x_in, y_in, i, ha="center", va="center")
 
             # Pipe outline (outlet)
             pipe_out_in = plt.Circle(
                 (x_out, y_out), radius=self.r_in,
-                fill=False, linestyle='-', color=colors[i], lw=lw)
+                fill=False, linestyle='-', color=color, lw=lw)
             pipe_out_out = plt.Circle(
                 (x_out, y_out), radius=self.r_out,
-                fill=False, linestyle='-', color=colors[i], lw=lw)
+                fill=False, linestyle='-', color=color, lw=lw)
             ax.text(x_out, y_out, i + self.nPipes,
                     ha="center", va="center")
 
-- 
2.43.0


From 910580c94b9f2b79e5cf88a9e1549670507f41a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:42 +0000
Subject: [PATCH 40/43] fix: line source integrals missed the contribution of
 distant boreholes

The adaptive quadrature over s could sample none of the small values of s to
which the response of distant boreholes is limited, and return zero: e.g. the
response at 1e9 s of a borehole at 40 m, evaluated along with a time of 10 s,
was wrong by all of its value. The integrals are evaluated over u = a / s.
---
 pygfunction/heat_transfer.py | 66 ++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 6f37a63..47b55db 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -224,14 +224,14 @@ def finite_line_source(
                 if isinstance(time, (np.floating, float)):
                     # Lower bound of integration
                     a = 1.0 / np.sqrt(4.0*alpha*time)
-                    h = 0.5 / H2 * quad(f, a, np.inf)[0]
+                    h = 0.5 / H2 * _integrate(f, a, np.inf, quad)
                 else:
                     # Lower bound of integration
                     a = 1.0 / np.sqrt(4.0*alpha*time)
                     # Upper bound of integration
                     b = np.concatenate(([np.inf], a[:-1]))
                     h = np.cumsum(np.stack(
-                        [0.5 / H2 * quad(f, a_i, b_i)[0]
+                        [0.5 / H2 * _integrate(f, a_i, b_i, quad)
                          for t, a_i, b_i in zip(time, a, b)],
                         axis=-1), axis=-1)
         else:
@@ -267,14 +267,14 @@ def finite_line_source(
                 if isinstance(time, (np.floating, float)):
                     # Lower bound of integration
                     a = 1.0 / np.sqrt(4.0*alpha*time)
-                    h = 0.5 / H2 * quad(f, a, np.inf)[0]
+                    h = 0.5 / H2 * _integrate(f, a, np.inf, quad)
                 else:
                     # Lower bound of integration
                     a = 1.0 / np.sqrt(4.0*alpha*time)
                     # Upper bound of integration
                     b = np.concatenate(([np.inf], a[:-1]))
                     h = np.cumsum(np.stack(
-                        [0.5 / H2 * quad(f, a_i, b_i)[0]
+                        [0.5 / H2 * _integrate(f, a_i, b_i, quad)
                          for t, a_i, b_i in zip(time, a, b)],
                         axis=-1), axis=-1)
 
@@ -765,14 +765,14 @@ def finite_line_source_vectorized(
         if isinstance(time, (np.floating, float)):
             # Lower bound of integration
             a = 1.0 / np.sqrt(4.0*alpha*time)
-            h = 0.5 / H2 * quad_vec(f, a, np.inf, epsabs=epsabs)[0]
+            h = 0.5 / H2 * _integrate(f, a, np.inf, quad_vec, epsabs=epsabs)
         else:
             # Lower bound of integration
             a = 1.0 / np.sqrt(4.0*alpha*time)
             # Upper bound of integration
             b = np.concatenate(([np.inf], a[:-1]))
             h = np.cumsum(np.stack(
-                [0.5 / H2 * quad_vec(f, a_i, b_i, epsabs=epsabs)[0]
+                [0.5 / H2 * _integrate(f, a_i, b_i, quad_vec, epsabs=epsabs)
                  for t, a_i, b_i in zip(time, a, b)],
                 axis=-1), axis=-1)
     else:
@@ -883,14 +883,15 @@ def finite_line_source_equivalent_boreholes_vectorized(
     if isinstance(time, (np.floating, float)):
         # Lower bound of integration
         a = 1.0 / np.sqrt(4.0*alpha*time)
-        h = 0.5 / (N2*H2) * quad_vec(f, a, np.inf, epsabs=epsabs)[0]
+        h = 0.5 / (N2*H2) * _integrate(
+            f, a, np.inf, quad_vec, epsabs=epsabs)
     else:
         # Lower bound of integration
         a = 1.0 / np.sqrt(4.0*alpha*time)
         # Upper bound of integration
         b = np.concatenate(([np.inf], a[:-1]))
         h = np.cumsum(np.stack(
-            [0.5 / (N2*H2) * quad_vec(f, a_i, b_i, epsabs=epsabs)[0]
+            [0.5 / (N2*H2) * _integrate(f, a_i, b_i, quad_vec, epsabs=epsabs)
              for t, a_i, b_i in zip(time, a, b)],
             axis=-1), axis=-1)
     return h
@@ -1062,7 +1063,8 @@ def finite_line_source_inclined_vectorized(
         if isinstance(time, (np.floating, float)):
             # Lower bound of integration
             a = 1.0 / np.sqrt(4.0*alpha*time)
-            h = 0.5 / H2 * quad_vec(f, a, np.inf, epsabs=1e-4, epsrel=1e-6)[0]
+            h = 0.5 / H2 * _integrate(
+                f, a, np.inf, quad_vec, epsabs=1e-4, epsrel=1e-6)
         else:
             # Lower bound of integration
             a = 1.0 / np.sqrt(4.0*alpha*time)
@@ -1070,8 +1072,8 @@ def finite_line_source_inclined_vectorized(
             b = np.concatenate(([np.inf], a[:-1]))
             h = np.cumsum(
                 np.stack(
-                    [0.5 / H2 * quad_vec(
-                        f, a_i, b_i, epsabs=1e-4, epsrel=1e-6)[0]
+                    [0.5 / H2 * _integrate(
+                        f, a_i, b_i, quad_vec, epsabs=1e-4, epsrel=1e-6)
                      for i, (a_i, b_i) in enumerate(zip(a, b))],
                     axis=-1),
                 axis=-1)
@@ -1083,6 +1085,48 @@ def finite_line_source_inclined_vectorized(
     return h
 
 
+def _integrate(f, a, b, quadrature, **kwargs):
+    """
+    Integral of a finite line source integrand.
+
+    The integral is evaluated over `u = a / s` instead of `s`. The integrand
+    extends over several orders of magnitude of `s`, and the contribution of
+    distant boreholes may be limited to values of `s` close to `a`. The nodes
+    of a quadrature over `s` may all miss this contribution.
+
+    Parameters
+    ----------
+    f : callable
+        Integrand, function of `s`.
+    a : float
+        Lower bound of the integral.
+    b : float
+        Upper bound of the integral (can be infinite).
+    quadrature : callable
+        Quadrature function (e.g. ``scipy.integrate.quad``).
+    **kwargs
+        Keyword arguments of the quadrature function.
+
+    Returns
+    -------
+    float or array
+        Value of the integral.
+
+    """
+    if a == b:
+        # Repeated times, or times of zero
+        return 0. * f(1.)
+    if b == 0. or np.isinf(a):
+        return -_integrate(f, b, a, quadrature, **kwargs)
+    if a == 0.:
+        # Infinite times
+        s = min(b, 1e-3)
+        return (
+            quadrature(f, 0., s, **kwargs)[0]
+            + _integrate(f, s, b, quadrature, **kwargs))
+    return quadrature(lambda u: f(a / u) * a / u**2, a / b, 1., **kwargs)[0]
+
+
 def _finite_line_source_integrand(dis, H1, D1, H2, D2, reaSource, imgSource):
     """
     Integrand of the finite line source solution.
-- 
2.43.0


From 6da8b921f7048d86fee34857a8ff166011dcaed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:44 +0000
Subject: [PATCH 41/43] fix: line source functions refused integer lengths

The smallest of an array of integers could not be compared with infinity.
---
 pygfunction/heat_transfer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 47b55db..93b0504 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -760,7 +760,7 @@ def finite_line_source_vectorized(
         # Absolute tolerance: the integrals of distant boreholes are lower than
         # the round-off errors of the integrand and would never reach a
         # relative tolerance
-        epsabs = 1e-9 * np.min(H2, initial=np.inf)
+        epsabs = np.min(np.multiply(1e-9, H2), initial=np.inf)
         # Evaluate integral
         if isinstance(time, (np.floating, float)):
             # Lower bound of integration
@@ -878,7 +878,7 @@ def finite_line_source_equivalent_boreholes_vectorized(
     # Absolute tolerance: the integrals of distant boreholes are lower than the
     # round-off errors of the integrand and would never reach a relative
     # tolerance
-    epsabs = 1e-9 * np.min(N2 * H2, initial=np.inf)
+    epsabs = np.min(1e-9 * N2 * H2, initial=np.inf)
     # Evaluate integral
     if isinstance(time, (np.floating, float)):
         # Lower bound of integration
-- 
2.43.0


From ce1382fbd856fb376f3bc39ed3782443ccc0f34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:50 +0000
Subject: [PATCH 42/43] fix: false convergence of line source integrals

The extrapolations of the adaptive quadrature (over u = a / s, or over s up to
infinity) converged to wrong values at isolated times: e.g. 4.0977 instead of
4.0904 for a 179 m long real source at 1.6 m and 1.06e10 s. The integrals are
evaluated over v = ln(s / a), in which the integrand is smooth, and with a
smaller tolerance.
---
 pygfunction/heat_transfer.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 93b0504..56abe5b 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -224,14 +224,16 @@ def finite_line_source(
                 if isinstance(time, (np.floating, float)):
                     # Lower bound of integration
                     a = 1.0 / np.sqrt(4.0*alpha*time)
-                    h = 0.5 / H2 * _integrate(f, a, np.inf, quad)
+                    h = 0.5 / H2 * _integrate(
+                        f, a, np.inf, quad, epsabs=1e-10, epsrel=1e-10)
                 else:
                     # Lower bound of integration
                     a = 1.0 / np.sqrt(4.0*alpha*time)
                     # Upper bound of integration
                     b = np.concatenate(([np.inf], a[:-1]))
                     h = np.cumsum(np.stack(
-                        [0.5 / H2 * _integrate(f, a_i, b_i, quad)
+                        [0.5 / H2 * _integrate(
+                            f, a_i, b_i, quad, epsabs=1e-10, epsrel=1e-10)
                          for t, a_i, b_i in zip(time, a, b)],
                         axis=-1), axis=-1)
         else:
@@ -267,14 +269,16 @@ def finite_line_source(
                 if isinstance(time, (np.floating, float)):
                     # Lower bound of integration
                     a = 1.0 / np.sqrt(4.0*alpha*time)
-                    h = 0.5 / H2 * _integrate(f, a, np.inf, quad)
+                    h = 0.5 / H2 * _integrate(
+                        f, a, np.inf, quad, epsabs=1e-10, epsrel=1e-10)
                 else:
                     # Lower bound of integration
                     a = 1.0 / np.sqrt(4.0*alpha*time)
                     # Upper bound of integration
                     b = np.concatenate(([np.inf], a[:-1]))
                     h = np.cumsum(np.stack(
-                        [0.5 / H2 * _integrate(f, a_i, b_i, quad)
+                        [0.5 / H2 * _integrate(
+                            f, a_i, b_i, quad, epsabs=1e-10, epsrel=1e-10)
                          for t, a_i, b_i in zip(time, a, b)],
                         axis=-1), axis=-1)
 
@@ -1089,10 +1093,10 @@ def _integrate(f, a, b, quadrature, **kwargs):
     """
     Integral of a finite line source integrand.
 
-    The integral is evaluated over `u = a / s` instead of `s`. The integrand
-    extends over several orders of magnitude of `s`, and the contribution of
-    distant boreholes may be limited to values of `s` close to `a`. The nodes
-    of a quadrature over `s` may all miss this contribution.
+    The integral is evaluated over `v = ln(s / a)` instead of `s`. The
+    integrand extends over several orders of magnitude of `s`, and the
+    contribution of distant boreholes may be limited to values of `s` close to
+    `a`. The nodes of a quadrature over `s` may all miss this contribution.
 
     Parameters
     ----------
@@ -1124,7 +1128,13 @@ def _integrate(f, a, b, quadrature, **kwargs):
         return (
             quadrature(f, 0., s, **kwargs)[0]
             + _integrate(f, s, b, quadrature, **kwargs))
-    return quadrature(lambda u: f(a / u) * a / u**2, a / b, 1., **kwargs)[0]
+
+    def g(v):
+        # The integrand is zero well before the overflow of the exponential
+        s = a * np.exp(min(v, 300.))
+        return f(s) * s
+
+    return quadrature(g, 0., np.log(b / a), **kwargs)[0]
 
 
 def _finite_line_source_integrand(dis, H1, D1, H2, D2, reaSource, imgSource):
-- 
2.43.0


From 63a6d401c7aef3623db058fee5a246f28e84b198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:52 +0000
Subject: [PATCH 43/43] fix: integral of the error function lost its accuracy
 for small arguments

The rounding errors of 1 - exp(-x**2) exceeded the integral (100 % at 1e-8) and
their division by s**2 made responses at infinite times given along with other
times take up to a minute to evaluate.
---
 pygfunction/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/utilities.py b/pygfunction/utilities.py
index 953f802..efb295e 100644
--- a/pygfunction/utilities.py
+++ b/pygfunction/utilities.py
@@ -37,7 +37,7 @@ def erfint(x):
         Integral of the error function.
 
     """
-    return x * erf(x) - 1.0 / np.sqrt(np.pi) * (1.0 - np.exp(-x**2))
+    return x * erf(x) + np.expm1(-x**2) / np.sqrt(np.pi)
 
 
 def exp1(x):
-- 
2.43.0

