From 499c250ca885d95e516da4016df86d783bb64f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:42 +0000
Subject: [PATCH 001/152] fix: keep quaternions of exact half turns (zero
 scalar part) instead of zeroing them

---
 hexrd/core/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index 33d0ba2..37ffe38 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -113,7 +113,7 @@ def _quat_to_scipy_rotation(q: NDArray[np.float64]) -> R:
 def _scipy_rotation_to_quat(r: R) -> NDArray[np.float64]:
     quat = np.roll(np.atleast_2d(r.as_quat()), 1, axis=1).T
     # Fix quat would work, but it does too much.  Only need to check positive
-    quat *= np.sign(quat[0, :])
+    quat[:, quat[0, :] < 0] *= -1
     return quat
 
 
-- 
2.43.0


From ad0ba946de7235768953262a294bfadad2c42ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:42 +0000
Subject: [PATCH 002/152] fix: misorientation returns one quaternion per
 orientation when equivalents tie

---
 hexrd/core/rotations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index 37ffe38..db745cd 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -238,10 +238,8 @@ def misorientation(q1, q2, symmetries=None):
     qmax = sclEqvMis.max(0)
 
     # remap indices to use in eqvMis
-    qmaxInd = (sclEqvMis == qmax).nonzero()
-    qmaxInd = np.c_[qmaxInd[0], qmaxInd[1]]
-
-    eqvMisColInd = np.sort(qmaxInd[:, 0] + qmaxInd[:, 1] * p * m)
+    #   - exactly one per class, even when several equivalents tie
+    eqvMisColInd = sclEqvMis.argmax(0) + np.arange(n) * p * m
 
     # store Rmin in q
     mis = eqvMis[np.ix_(list(range(4)), eqvMisColInd)]
-- 
2.43.0


From 0b17d520cc61f066bc19c3b6837faf110b269552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:42 +0000
Subject: [PATCH 003/152] fix: RotMatEuler.rmat accepts array-like angles in
 degrees

---
 hexrd/core/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index db745cd..8bdfa7f 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -883,7 +883,7 @@ class RotMatEuler(object):
         """
         angs_in = self.angles
         if self.units == 'degrees':
-            angs_in = conversion_to_dict['radians'] * angs_in
+            angs_in = conversion_to_dict['radians'] * np.asarray(angs_in)
         self._rmat = make_rmat_euler(angs_in, self.axes_order, self.extrinsic)
         return self._rmat
 
-- 
2.43.0


From f945b849f86c19f13bbbbb0d9213a07ff2dab6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:42 +0000
Subject: [PATCH 004/152] fix: angularDifference is right for angles more than
 a period apart

---
 hexrd/core/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index 8bdfa7f..350902c 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -1168,7 +1168,7 @@ def angularDifference_opt(angList0, angList1, units=angularUnits):
     *) Default angular range in the code is [-pi, pi]
     """
     period = periodDict[units]
-    d = np.abs(angList1 - angList0)
+    d = np.mod(np.abs(angList1 - angList0), period)
     return np.minimum(d, period - d)
 
 
-- 
2.43.0


From 87dd7cd978a6e939ffdaabd1babbd51c287b7fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:01 +0000
Subject: [PATCH 005/152] fix: quatAverage of two quaternions no longer fails
 on a squeezed array

---
 hexrd/core/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index 350902c..04c19c3 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -473,7 +473,7 @@ def quatAverage(q_in, qsym):
             )
             q_bar = quatProduct(
                 q_in[:, 0].reshape(4, 1),
-                quatOfExpMap(0.5 * ma * unitVector(mq[1:].reshape(3, 1))),
+                quatOfExpMap(0.5 * ma * unitVector(mq[1:].reshape(3, 1))).reshape(4, 1),
             )
     else:
         # use first quat as initial guess
-- 
2.43.0


From 42f17a14c713913cc71f8a6fcd1149482155804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 006/152] fix: rotate_vecs_about_axis accepts a length-1 angle
 or axis for many vectors, as documented

---
 hexrd/core/transforms/new_capi/rotate_vecs_about_axis.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/transforms/new_capi/rotate_vecs_about_axis.c b/hexrd/core/transforms/new_capi/rotate_vecs_about_axis.c
index 5ebed5e..9983933 100644
--- a/hexrd/core/transforms/new_capi/rotate_vecs_about_axis.c
+++ b/hexrd/core/transforms/new_capi/rotate_vecs_about_axis.c
@@ -74,8 +74,8 @@ python_rotate_vecs_about_axis(PyObject *self, PyObject *args)
     nangs = angles.dims[0];
     naxis = axis.dims[1];
     nvecs = vecs.dims[1];
-    if ((nangs && nangs != nvecs) ||
-        (naxis && naxis != nvecs))
+    if ((nangs > 1 && nangs != nvecs) ||
+        (naxis > 1 && naxis != nvecs))
         goto fail_dimensions;
 
     nangs = nangs?nangs:1;
-- 
2.43.0


From 31445eeab38fdd5256afde75f27447db61db53fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 007/152] fix: C++ gvecToDetectorXY intersects the detector
 plane, not a plane through the lab origin

---
 hexrd/core/transforms/cpp_sublibrary/src/transforms.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/transforms/cpp_sublibrary/src/transforms.cpp b/hexrd/core/transforms/cpp_sublibrary/src/transforms.cpp
index d3f219f..0f0d84d 100644
--- a/hexrd/core/transforms/cpp_sublibrary/src/transforms.cpp
+++ b/hexrd/core/transforms/cpp_sublibrary/src/transforms.cpp
@@ -305,7 +305,8 @@ gvecToDetectorXY(const Eigen::MatrixXd &gVec_c, const Eigen::Matrix3d &rMat_d,
     Eigen::Matrix3d rMat_sc = rMat_s.block<3, 3>(i * 3, 0) * rMat_c;
 
     result.row(i) = gvecToDetectorXYOne(gVec_c.row(i), rMat_d, rMat_sc, tVec_d,
-                                        bHat_l, nVec_l, nVec_l.dot(P0_l), P0_l)
+                                        bHat_l, nVec_l,
+                                        nVec_l.dot(tVec_d - P0_l), P0_l)
                         .transpose();
   }
 
-- 
2.43.0


From b90214c07e9756474e6aa31d2f814e362509c83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:52 +0000
Subject: [PATCH 008/152] fix: makeGVector normalises each G-vector (column),
 not each component row

---
 hexrd/core/transforms/xfcapi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/transforms/xfcapi.py b/hexrd/core/transforms/xfcapi.py
index 0cc167c..5632bb4 100644
--- a/hexrd/core/transforms/xfcapi.py
+++ b/hexrd/core/transforms/xfcapi.py
@@ -169,7 +169,7 @@ def makeGVector(
     """
     if hkl.shape[0] != 3:
         raise ValueError('hkl input must be (3, n)')
-    return unit_vector(np.dot(bMat, hkl))
+    return unit_vector(np.dot(bMat, hkl).T).T
 
 
 def gvec_to_xy(
-- 
2.43.0


From c5d98dbfeefe2f04dec12a9b133e8fdcc8401d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:16 +0000
Subject: [PATCH 009/152] fix: skew, symm and vectorOfSkewMatrix no longer
 reshape the caller's array in place

---
 hexrd/core/matrixutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/matrixutil.py b/hexrd/core/matrixutil.py
index b64cd89..472c487 100644
--- a/hexrd/core/matrixutil.py
+++ b/hexrd/core/matrixutil.py
@@ -294,7 +294,7 @@ def skew(A):
             raise RuntimeError(
                 "this function only works for square arrays; yours is (%d, %d)" % (m, n)
             )
-        A.resize(1, m, n)
+        A = A.reshape(1, m, n)
     elif A.ndim == 3:
         m = A.shape[1]
         n = A.shape[2]
@@ -320,7 +320,7 @@ def symm(A):
             raise RuntimeError(
                 "this function only works for square arrays; yours is (%d, %d)" % (m, n)
             )
-        A.resize(1, m, n)
+        A = A.reshape(1, m, n)
     elif A.ndim == 3:
         m = A.shape[1]
         n = A.shape[2]
@@ -379,7 +379,7 @@ def vectorOfSkewMatrix(W):
         if W.shape[0] != 3 or W.shape[0] != 3:
             raise RuntimeError('input is not (3, 3)')
         stackdim = 1
-        W.resize(1, 3, 3)
+        W = W.reshape(1, 3, 3)
     elif W.ndim == 3:
         if W.shape[1] != 3 or W.shape[2] != 3:
             raise RuntimeError('input is not (3, 3)')
-- 
2.43.0


From 443702eaeacbaebd759000ce54664925887e7774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:16 +0000
Subject: [PATCH 010/152] fix: cellIndices bins integer points on the last edge
 like float ones

---
 hexrd/core/gridutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/gridutil.py b/hexrd/core/gridutil.py
index 39da717..e007a72 100644
--- a/hexrd/core/gridutil.py
+++ b/hexrd/core/gridutil.py
@@ -65,7 +65,7 @@ def cellIndices(edges, points_1d):
 
     assert len(edges) >= 2, "must have at least 2 edges"
 
-    points_1d = np.r_[points_1d].flatten()
+    points_1d = np.asarray(np.r_[points_1d], dtype=float).flatten()
     delta = float(edges[1] - edges[0])
 
     if delta > 0:
-- 
2.43.0


From 7a301c06e48249e30ac2d673045180133350f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:42 +0000
Subject: [PATCH 011/152] fix: Dexela_2923 distortion does not truncate integer
 coordinates

---
 hexrd/core/distortion/dexela_2923.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hexrd/core/distortion/dexela_2923.py b/hexrd/core/distortion/dexela_2923.py
index 8a60351..d04f924 100644
--- a/hexrd/core/distortion/dexela_2923.py
+++ b/hexrd/core/distortion/dexela_2923.py
@@ -37,6 +37,7 @@ class Dexela_2923(DistortionABC, metaclass=_RegisterDistortionClass):
         if self.is_trivial:
             return xy_in
         else:
+            xy_in = np.asarray(xy_in, dtype=float)
             xy_out = np.empty_like(xy_in)
             _dexela_2923_distortion(xy_out, xy_in, np.asarray(self.params))
             return xy_out
@@ -45,6 +46,7 @@ class Dexela_2923(DistortionABC, metaclass=_RegisterDistortionClass):
         if self.is_trivial:
             return xy_in
         else:
+            xy_in = np.asarray(xy_in, dtype=float)
             xy_out = np.empty_like(xy_in)
             _dexela_2923_inverse_distortion(xy_out, xy_in, np.asarray(self.params))
             return xy_out
-- 
2.43.0


From 925f2441a6b25ea9fbdfb3d3da626b3127d16d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:42 +0000
Subject: [PATCH 012/152] fix: computeIntersection stays accurate when line1 is
 very short, so polygon clipping stays inside the clip polygon

---
 hexrd/core/gridutil.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/gridutil.py b/hexrd/core/gridutil.py
index e007a72..4ee1949 100644
--- a/hexrd/core/gridutil.py
+++ b/hexrd/core/gridutil.py
@@ -229,11 +229,12 @@ def computeIntersection(line1, line2):
     if denom == 0:
         return []
 
-    subterm1 = x1 * y2 - y1 * x2
-    subterm2 = x3 * y4 - y3 * x4
+    # parametrize along line1: differences first, so that a very short line1
+    # (e.g. nearly coincident polygon vertices) does not lose all precision
+    t = ((x1 - x3) * (y3 - y4) - (y1 - y3) * (x3 - x4)) / denom
 
-    intersection[0] = (subterm1 * (x3 - x4) - subterm2 * (x1 - x2)) / denom
-    intersection[1] = (subterm1 * (y3 - y4) - subterm2 * (y1 - y2)) / denom
+    intersection[0] = x1 + t * (x2 - x1)
+    intersection[1] = y1 + t * (y2 - y1)
     return intersection
 
 
-- 
2.43.0


From 1639051a3b818defa78bfb35772fb31021ddb1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:42 +0000
Subject: [PATCH 013/152] fix: GE_41RT.apply_inverse inverts apply at the
 centre and where the radius grows, instead of returning NaN

---
 hexrd/core/distortion/ge_41rt.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/hexrd/core/distortion/ge_41rt.py b/hexrd/core/distortion/ge_41rt.py
index 4e3d0ee..043c463 100644
--- a/hexrd/core/distortion/ge_41rt.py
+++ b/hexrd/core/distortion/ge_41rt.py
@@ -141,4 +141,21 @@ class GE_41RT(DistortionABC, metaclass=_RegisterDistortionClass):
             xy_out = inverse_distortion.ge_41rt_inverse_distortion(
                 xy_in, float(RHO_MAX), np.asarray(self.params[:3])
             )
+            # the closed form needs a radius that shrinks; elsewhere (it gives
+            # NaN there, or loses its precision where the radial term
+            # vanishes) solve for the radius iteratively
+            rho = np.hypot(xy_in[:, 0], xy_in[:, 1])
+            eta = np.arctan2(xy_in[:, 1], xy_in[:, 0])
+            p = self.params
+            p_eta = p[0] * np.cos(2 * eta) + p[1] * np.cos(4 * eta) + p[2]
+            bad = np.isnan(xy_out).any(axis=1) & (p_eta > 0)
+            bad |= np.abs(p_eta) < 1e-8
+            bad &= np.isfinite(rho) & (rho > 0)
+            if np.any(bad):
+                rho_in = inverse_distortion_numpy(
+                    rho[bad], eta[bad], float(RHO_MAX), p
+                )
+                xy_out[bad, 0] = rho_in * np.cos(eta[bad])
+                xy_out[bad, 1] = rho_in * np.sin(eta[bad])
+            xy_out[(rho == 0) & np.isnan(xy_out).any(axis=1)] = 0.0
             return xy_out
-- 
2.43.0


From f6aef6c0865dd1d4cfe8b0b3e64e6c4cb4a4a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 014/152] fix: PlanarDetector.angles_to_cart keeps the sign of
 chi and omega taken from rmat_s

---
 hexrd/core/instrument/planar_detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/instrument/planar_detector.py b/hexrd/core/instrument/planar_detector.py
index 97f0802..f008ab5 100644
--- a/hexrd/core/instrument/planar_detector.py
+++ b/hexrd/core/instrument/planar_detector.py
@@ -74,8 +74,8 @@ class PlanarDetector(Detector):
         # !!! WARNING: API ambiguity
         # !!! this assumes rmat_s was made from the composition
         # !!! rmat_s = R(Xl, chi) * R(Yl, ome)
-        chi = np.arccos(rmat_s[1, 1])
-        ome = np.arccos(rmat_s[0, 0])
+        chi = np.arctan2(rmat_s[2, 1], rmat_s[1, 1])
+        ome = np.arctan2(rmat_s[0, 2], rmat_s[0, 0])
 
         angs = np.hstack([tth_eta, np.tile(ome, (len(tth_eta), 1))])
         gvec = angles_to_gvec(angs, beam_vec=self.bvec, eta_vec=self.evec, chi=chi)
-- 
2.43.0


From 63efde88e3e2e586da9606b74b17bb738d282769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 015/152] fix: CylindricalDetector.angles_to_cart uses
 lab-frame directions for any rmat_s and honours apply_distortion

---
 hexrd/core/instrument/cylindrical_detector.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/hexrd/core/instrument/cylindrical_detector.py b/hexrd/core/instrument/cylindrical_detector.py
index fa9c2f3..03f6a49 100644
--- a/hexrd/core/instrument/cylindrical_detector.py
+++ b/hexrd/core/instrument/cylindrical_detector.py
@@ -85,14 +85,10 @@ class CylindricalDetector(Detector):
         if tvec_c is None:
             tvec_c = ct.zeros_3
 
-        # get chi and ome from rmat_s
-        # !!! WARNING: API ambiguity
-        # !!! this assumes rmat_s was made from the composition
-        # !!! rmat_s = R(Xl, chi) * R(Yl, ome)
-        chi = np.arccos(rmat_s[1, 1])
-        ome = np.arccos(rmat_s[0, 0])
-
-        angs = np.hstack([tth_eta, np.tile(ome, (len(tth_eta), 1))])
+        # the diffracted beam directions are in the lab frame: rmat_s only
+        # matters for the position of the grain
+        chi = 0.0
+        angs = np.hstack([tth_eta, np.zeros((len(tth_eta), 1))])
         kwargs = {
             'beamVec': self.bvec,
             'etaVec': self.evec,
@@ -109,7 +105,7 @@ class CylindricalDetector(Detector):
             self.radius,
             self.physical_size,
             self.angle_extent,
-            self.distortion,
+            self.distortion if apply_distortion else None,
         )
 
         proj_func = xrdutil.utils._project_on_detector_cylinder
-- 
2.43.0


From 596368c7a1795a59eb6c5bfb9bc53bde4a82b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 016/152] fix: interpolate_nearest takes the pixel the point
 falls in

---
 hexrd/core/instrument/detector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 78df625..b118c51 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1117,8 +1117,9 @@ class Detector:
         xy_clip, on_panel = self.clip_to_panel(xy, buffer_edges=True)
 
         # get pixel indices of clipped points
-        i_src = cellIndices(self.row_pixel_vec, xy_clip[:, 1])
-        j_src = cellIndices(self.col_pixel_vec, xy_clip[:, 0])
+        ij_src = self.cartToPixel(xy_clip, pixels=True)
+        i_src = _fix_indices(ij_src[:, 0], 0, self.rows - 1)
+        j_src = _fix_indices(ij_src[:, 1], 0, self.cols - 1)
 
         # next interpolate across cols
         int_vals = img[i_src, j_src]
-- 
2.43.0


From 9ac3e9f75b305f7376070d7dbe21ebf1b9e3a365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 017/152] fix: make_powder_rings returns (n, 2) coordinates for
 a ring with a single point too

---
 hexrd/core/instrument/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index b118c51..f8f6365 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1518,7 +1518,7 @@ class Detector:
                 )
             else:
                 patch_valid_angs = these_angs[patch_is_on, :2]
-                patch_valid_xys = patch_xys[:, -1, :].squeeze()
+                patch_valid_xys = patch_xys[:, -1, :]
 
             # form output arrays
             valid_ang.append(patch_valid_angs)
-- 
2.43.0


From 9ef3f72c511858b8cd0515704481c619b1b1a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 018/152] fix: pixel_eta_gradient handles the branch cut in the
 first and last rows and columns (one-sided differences)

---
 hexrd/core/instrument/cylindrical_detector.py | 15 ++++++++++++++-
 hexrd/core/instrument/planar_detector.py      | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/instrument/cylindrical_detector.py b/hexrd/core/instrument/cylindrical_detector.py
index 03f6a49..3651552 100644
--- a/hexrd/core/instrument/cylindrical_detector.py
+++ b/hexrd/core/instrument/cylindrical_detector.py
@@ -389,4 +389,17 @@ def _pixel_eta_gradient(origin, **pixel_angle_kwargs):
 
 
 def _fix_branch_cut_in_gradients(pgarray):
-    return np.min(np.abs(np.stack([pgarray - np.pi, pgarray, pgarray + np.pi])), axis=0)
+    return np.min(
+        np.abs(
+            np.stack(
+                [
+                    pgarray - 2 * np.pi,
+                    pgarray - np.pi,
+                    pgarray,
+                    pgarray + np.pi,
+                    pgarray + 2 * np.pi,
+                ]
+            )
+        ),
+        axis=0,
+    )
diff --git a/hexrd/core/instrument/planar_detector.py b/hexrd/core/instrument/planar_detector.py
index f008ab5..74f9ea3 100644
--- a/hexrd/core/instrument/planar_detector.py
+++ b/hexrd/core/instrument/planar_detector.py
@@ -271,4 +271,17 @@ def _pixel_eta_gradient(
 
 
 def _fix_branch_cut_in_gradients(pgarray):
-    return np.min(np.abs(np.stack([pgarray - np.pi, pgarray, pgarray + np.pi])), axis=0)
+    return np.min(
+        np.abs(
+            np.stack(
+                [
+                    pgarray - 2 * np.pi,
+                    pgarray - np.pi,
+                    pgarray,
+                    pgarray + np.pi,
+                    pgarray + 2 * np.pi,
+                ]
+            )
+        ),
+        axis=0,
+    )
-- 
2.43.0


From 7c77e69b6d9a438c702f1c80665a319554f249bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 019/152] fix: filter/coating transmission of a planar detector
 uses the detector's eta vector

---
 hexrd/core/instrument/planar_detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/planar_detector.py b/hexrd/core/instrument/planar_detector.py
index 74f9ea3..d677da2 100644
--- a/hexrd/core/instrument/planar_detector.py
+++ b/hexrd/core/instrument/planar_detector.py
@@ -176,7 +176,7 @@ class PlanarDetector(Detector):
             (tth.flatten(), eta.flatten(), np.zeros(tth.flatten().shape))
         ).T
 
-        dvecs = angles_to_dvec(angs, beam_vec=bvec)
+        dvecs = angles_to_dvec(angs, beam_vec=bvec, eta_vec=self.evec)
 
         secb = 1.0 / np.dot(dvecs, det_normal).reshape(self.shape)
 
-- 
2.43.0


From e80a10a84c940047660c18c2dec362b2a14187b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:58 +0000
Subject: [PATCH 020/152] fix: a clockwise omega range no longer turns the
 ranges after it clockwise

---
 hexrd/hedm/xrdutil/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 77c9c45..688b00f 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -523,11 +523,9 @@ def _filter_hkls_eta_ome(
             xfcapi.validate_angle_ranges(angles[:, 1], etas[0], etas[1]),
         )
 
-    ccw = True
     angMask_ome = np.zeros(len(angles), dtype=bool)
     for omes in ome_range:
-        if omes[1] - omes[0] < 0:
-            ccw = False
+        ccw = omes[1] >= omes[0]
         angMask_ome = np.logical_or(
             angMask_ome,
             xfcapi.validate_angle_ranges(angles[:, 2], omes[0], omes[1], ccw=ccw),
-- 
2.43.0


From 3ccc4b8ef8704bf2265d4387cf1b6ef300c12d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:58 +0000
Subject: [PATCH 021/152] fix: angularPixelSize takes (row, column) pixel sizes
 as its callers pass them

---
 hexrd/hedm/xrdutil/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 688b00f..81e0927 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -783,7 +783,7 @@ def angularPixelSize(
 
     xy_expanded = np.empty((len(xy_det) * 4, 2), dtype=xy_det.dtype)
     xy_expanded = _expand_pixels(
-        xy_det, xy_pixelPitch[0], xy_pixelPitch[1], xy_expanded
+        xy_det, xy_pixelPitch[1], xy_pixelPitch[0], xy_expanded
     )
 
     rmat_b = xfcapi.make_beam_rmat(beamVec, etaVec)
-- 
2.43.0


From 083d37e9345a0c031f76018c760444045c33dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:24 +0000
Subject: [PATCH 022/152] fix: memoize makes cached arrays inside tuples and
 lists readonly too

---
 hexrd/core/utils/decorators.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index b9aa391..adc2626 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -76,11 +76,13 @@ def memoize(func=None, maxsize=2):
                     cache.popitem(last=False)
 
                 output = func(*args, **kwargs)
-                if isinstance(output, np.ndarray):
-                    # Make the array readonly so that caller functions *cannot*
-                    # modify the cached output array. Otherwise, we run into
-                    # hard-to-track-down bugs.
-                    output.flags.writeable = False
+                # Make arrays (also those in a tuple or list) readonly so that
+                # caller functions *cannot* modify the cached output array.
+                # Otherwise, we run into hard-to-track-down bugs.
+                items = output if isinstance(output, (tuple, list)) else [output]
+                for item in items:
+                    if isinstance(item, np.ndarray):
+                        item.flags.writeable = False
 
                 # This inserts the item on the right (most recently used)
                 cache[key] = output
-- 
2.43.0


From 4ae3286f05844fca9c168c25c40fd84f22f0b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:24 +0000
Subject: [PATCH 023/152] fix: memoized detector maps are recomputed after the
 distortion parameters change in place

---
 hexrd/core/utils/decorators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index adc2626..07aa6d0 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -13,6 +13,8 @@ import numba
 import numpy as np
 import xxhash
 
+from hexrd.core.distortion.distortionabc import DistortionABC
+
 
 def undoc(func):
     """Mark a function or class as undocumented.
@@ -119,6 +121,9 @@ def _make_hashable(items):
             return _make_hashable(x)
         elif isinstance(x, dict):
             return _make_hashable(sorted(x.items()))
+        elif isinstance(x, DistortionABC):
+            # These are mutable: the parameters decide the result
+            return (type(x), convert(getattr(x, 'params', ())))
         return x
 
     return tuple(map(convert, items))
-- 
2.43.0


From 21b61a5839b65f7c2fc9f870c0df4c9f482cdb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:09 +0000
Subject: [PATCH 024/152] fix: CylindricalDetector finds its cylinder
 projection functions again (angles_to_cart, beam_position)

---
 hexrd/hedm/xrdutil/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 81e0927..1e58951 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -40,7 +40,13 @@ from hexrd.core import matrixutil as mutil
 from hexrd.core import rotations as rot
 from hexrd.core import gridutil as gutil
 
-from hexrd.hed.xrdutil.utils import _project_on_detector_plane
+from hexrd.hed.xrdutil.utils import (
+    _clip_to_cylindrical_detector,
+    _dewarp_from_cylinder,
+    _project_on_detector_cylinder,
+    _project_on_detector_plane,
+    _unitvec_to_cylinder,
+)
 from hexrd.core.material.crystallography import processWavelength, PlaneData
 
 from hexrd.core.transforms import xfcapi
-- 
2.43.0


From f45024cd6b7bf098dc27dcd053a675e64add012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:01 +0000
Subject: [PATCH 025/152] fix: a single direction on a cylindrical detector
 gives a 1-d mask and (n, 2) coordinates

---
 hexrd/hed/xrdutil/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/hed/xrdutil/utils.py b/hexrd/hed/xrdutil/utils.py
index a81f434..c2c07fe 100644
--- a/hexrd/hed/xrdutil/utils.py
+++ b/hexrd/hed/xrdutil/utils.py
@@ -266,7 +266,7 @@ def _clip_to_cylindrical_detector(
     tvec = np.atleast_2d(tVec_d).T
 
     # ycomp = uvwp - np.tile(tVec_d,[num, 1])
-    mask1 = np.squeeze(np.abs(dp) > size[0] * 0.5)
+    mask1 = (np.abs(dp) > size[0] * 0.5)[:, 0]
     uvwp[mask1, :] = np.nan
 
     # next get rid of points that fall outside
@@ -276,7 +276,7 @@ def _clip_to_cylindrical_detector(
     ang[np.abs(ang) > 1.0] = np.sign(ang[np.abs(ang) > 1.0])
 
     ang = np.arccos(ang)
-    mask2 = np.squeeze(ang >= angle_extent)
+    mask2 = (ang >= angle_extent)[:, 0]
     mask = np.logical_or(mask1, mask2)
     res = uvw.copy()
     res[mask, :] = np.nan
-- 
2.43.0


From 2dd19a9adfb7dab002ca8f94ac4016866c9a2171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 026/152] fix: PlaneData exclusions given as indices or ranges
 refer to the current hkl order

---
 hexrd/core/material/crystallography.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index 435d342..e474de6 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -921,11 +921,11 @@ class PlaneData(object):
             else:
                 if len(exclusions.shape) == 1:
                     # treat exclusions as indices
-                    excl[self.tThSortInv[exclusions]] = True
+                    excl[self.tThSort[exclusions]] = True
                 elif len(exclusions.shape) == 2:
                     # treat exclusions as ranges of indices
                     for r in exclusions:
-                        excl[self.tThSortInv[r[0] : r[1]]] = True
+                        excl[self.tThSort[r[0] : r[1]]] = True
                 else:
                     raise RuntimeError(f'Unclear behavior for shape {exclusions.shape}')
         self._exclusions = excl
-- 
2.43.0


From f3d9b0345b068ec7eceb2f27672a93f5bde2e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 027/152] fix: PlaneData includes the hkls that its exclusion
 mask leaves in

---
 hexrd/core/material/crystallography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index e474de6..fab4abc 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -1326,7 +1326,7 @@ class PlaneData(object):
     def _thisHKL(self, iHKLr: int) -> bool:
         hklData = self.hklDataList[iHKLr]
         if self._exclusions is not None:
-            if self._exclusions[self.tThSortInv[iHKLr]]:
+            if self._exclusions[self.tThSort[iHKLr]]:
                 return False
         if self._tThMax is not None:
             if hklData['tTheta'] > self._tThMax or np.isnan(hklData['tTheta']):
-- 
2.43.0


From 2b11e592cee25e08c97e011fa2b181b5b3c96183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 028/152] fix: PlaneData hkl ids are looked up with exclusions
 in the same order

---
 hexrd/core/material/crystallography.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index fab4abc..0a9dd48 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -1526,7 +1526,7 @@ class PlaneData(object):
         else:
             hklList = self.getSymHKLs()  # !!! list, reduced by exclusions
             intl_hklIDs = np.asarray([i['hklID'] for i in self.hklDataList])
-            intl_hklIDs_sorted = intl_hklIDs[~self.exclusions[self.tThSortInv]]
+            intl_hklIDs_sorted = intl_hklIDs[~self.exclusions]
             dHKLInv = {}
             for iHKL, symHKLs in enumerate(hklList):
                 idx = intl_hklIDs_sorted[iHKL] if master else iHKL
@@ -1604,7 +1604,7 @@ class PlaneData(object):
             #     RuntimeError, and if allHKLs=True and the hkl_id is
             #     excluded, it also raises a RuntimeError
             all_hkl_ids = np.asarray([i['hklID'] for i in self.hklDataList])
-            sorted_excl = self.exclusions[self.tThSortInv]
+            sorted_excl = self.exclusions
             idx = np.zeros(len(self.hklDataList), dtype=int)
             for i, hkl_id in enumerate(hkl_ids):
                 # find ordinal index of current hklID
-- 
2.43.0


From bd968b31a3ea69a72c9a45349188ec03a2501d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 029/152] fix: PlaneData exclusion mask leaves out unreachable
 hkls when tThMax is set, as the hkl list does

---
 hexrd/core/material/crystallography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index 0a9dd48..f5b13df 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -903,7 +903,7 @@ class PlaneData(object):
             retval[:] = self._exclusions[self.tThSort]
         if self._tThMax is not None:
             for iHKLr, hklData in enumerate(self.hklDataList):
-                if hklData['tTheta'] > self._tThMax:
+                if hklData['tTheta'] > self._tThMax or np.isnan(hklData['tTheta']):
                     retval[iHKLr] = True
         return retval
 
-- 
2.43.0


From c9e8d40b348a4927ceb62b2979490a76a3fefb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 030/152] fix: PlaneData.nHKLs follows changes of tThMax

---
 hexrd/core/material/crystallography.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index f5b13df..8e755fe 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -886,6 +886,7 @@ class PlaneData(object):
     @tThMax.setter
     def tThMax(self, t_th_max: Union[float, valunits.valWUnit]) -> None:
         self._tThMax = toFloat(t_th_max, 'radians')
+        self.nHKLs = np.sum(np.logical_not(self.exclusions))
 
     @property
     def exclusions(self) -> NDArray[np.bool_]:
@@ -929,7 +930,7 @@ class PlaneData(object):
                 else:
                     raise RuntimeError(f'Unclear behavior for shape {exclusions.shape}')
         self._exclusions = excl
-        self.nHKLs = np.sum(np.logical_not(self._exclusions))
+        self.nHKLs = np.sum(np.logical_not(self.exclusions))
 
     def exclude(
         self,
-- 
2.43.0


From 7f6e55d72d8fce929a32ab259b9ed131b1707927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:13 +0000
Subject: [PATCH 031/152] fix: a-glide absences of the cubic space groups
 follow the cyclic conditions of Pa-3

---
 hexrd/core/material/spacegroup.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hexrd/core/material/spacegroup.py b/hexrd/core/material/spacegroup.py
index f454f16..28c87ce 100644
--- a/hexrd/core/material/spacegroup.py
+++ b/hexrd/core/material/spacegroup.py
@@ -801,12 +801,9 @@ def omitglideplaneabsences(sgnum, hkllist, plane, ip):
             mask5 = np.mod(hkllist[:, 1] + 100, 2) != 0
             mask6 = np.mod(hkllist[:, 2] + 100, 2) != 0
             if plane == 'a':
-                mask1 = np.logical_or(
-                    np.logical_and(mask1, mask5), np.logical_and(mask1, mask6)
-                )
-                mask2 = np.logical_or(
-                    np.logical_and(mask2, mask4), np.logical_and(mask2, mask6)
-                )
+                # 0kl: k, h0l: l, hk0: h odd (cyclic permutations, Pa-3)
+                mask1 = np.logical_and(mask1, mask5)
+                mask2 = np.logical_and(mask2, mask6)
                 mask3 = np.logical_and(mask3, mask4)
                 mask = np.logical_not(np.logical_or(mask1, np.logical_or(mask2, mask3)))
             elif plane == 'b':
-- 
2.43.0


From 722a89c80afc76fea8dffe0eb2ec21ed152f3b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:13 +0000
Subject: [PATCH 032/152] fix: MakeStiffnessMatrix keeps the stiffness it was
 given (GPa)

---
 hexrd/core/material/unitcell.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 419bec2..6decfa7 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -1103,7 +1103,6 @@ class unitcell:
                 C[i, j] = C[j, i]
 
         self.stiffness = C
-        self.compliance = np.linalg.inv(C)
 
     def inside_spheretriangle(self, conn, dir3, hemisphere, switch):
         """
-- 
2.43.0


From 624d562479192213b76a02d80bfdcab54bf63224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:13 +0000
Subject: [PATCH 033/152] fix: GeneratePGSYM closes the group for generators
 that do not commute (d3)

---
 hexrd/core/material/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/material/symmetry.py b/hexrd/core/material/symmetry.py
index c4b46e6..acd9593 100644
--- a/hexrd/core/material/symmetry.py
+++ b/hexrd/core/material/symmetry.py
@@ -349,7 +349,7 @@ def GeneratePGSYM(pgsym):
     k1 = 0
     while k1 < nsym:
         g1 = np.squeeze(SYM_GEN_PG[k1, :, :])
-        k2 = k1
+        k2 = 0
         while k2 < nsym:
             g2 = np.squeeze(SYM_GEN_PG[k2, :, :])
             gnew = np.dot(g1, g2)
-- 
2.43.0


From ffb59a9be0c1a40100bbf4571f015dcedc3b6d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:13 +0000
Subject: [PATCH 034/152] fix: anisotropic displacement factors are in the
 units of U (A^2)

---
 hexrd/core/material/unitcell.py | 3 ++-
 hexrd/powder/wppf/phase.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 6decfa7..2382b4c 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -144,7 +144,8 @@ class unitcell:
                 [[U[0], U[3], U[4]], [U[3], U[1], U[5]], [U[4], U[5], U[2]]]
             )
 
-            self.betaij[:, :, i] *= 2.0 * np.pi**2 * self._aij
+            # U is in A^2, aij in nm^-2
+            self.betaij[:, :, i] *= 2.0e-2 * np.pi**2 * self._aij
 
     def calcmatrices(self):
         a = self.a
diff --git a/hexrd/powder/wppf/phase.py b/hexrd/powder/wppf/phase.py
index 96a0bcd..0709a3b 100644
--- a/hexrd/powder/wppf/phase.py
+++ b/hexrd/powder/wppf/phase.py
@@ -619,7 +619,8 @@ class Material_Rietveld(Material_LeBail):
                 [[U[0], U[3], U[4]], [U[3], U[1], U[5]], [U[4], U[5], U[2]]]
             )
 
-            self.betaij[:, :, i] *= 2.0 * np.pi**2 * self.aij
+            # U is in A^2, aij in nm^-2
+            self.betaij[:, :, i] *= 2.0e-2 * np.pi**2 * self.aij
 
     def CalcWavelength(self):
         # wavelength in nm
-- 
2.43.0


From 4b49ccbd3afaf782c66ece5532b64727017c80b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:13 +0000
Subject: [PATCH 035/152] fix: unit cell absorption length and anisotropic
 betaij follow lattice and energy edits

---
 hexrd/core/material/unitcell.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 2382b4c..6da88af 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -1450,8 +1450,11 @@ class unitcell:
         self.calcmatrices()
         self.init_max_g_index()
         self.CalcMaxGIndex()
+        if getattr(self, "aniU", False):
+            self.calcBetaij()
         if hasattr(self, "numat"):
             self.CalcDensity()
+            self.calc_absorption_length()
 
     @property
     def lparms_reduced(self):
@@ -1575,6 +1578,8 @@ class unitcell:
     def voltage(self, v):
         self._voltage = v
         self.CalcWavelength()
+        if hasattr(self, "density"):
+            self.calc_absorption_length()
 
     @property
     def wavelength(self):
-- 
2.43.0


From e17c6a4731b421ff29501b66e07fc3efb4d9c56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:13 +0000
Subject: [PATCH 036/152] fix: CalcOrbit does not count positions again that
 differ by a lattice vector

---
 hexrd/core/material/unitcell.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 6da88af..38901b2 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -535,7 +535,17 @@ class unitcell:
         # using wigner-sietz notation
         r = np.hstack((r, 1.0))
 
-        asym_pos = np.broadcast_to(r[0:3], [1, 3])
+        def reduce(rr):
+            # reduce to fundamental unitcell with fractional
+            # coordinates between 0-1
+            rr = np.modf(rr)[0]
+            rr[rr < 0.0] += 1.0
+            rr[np.abs(rr) < 1.0e-6] = 0.0
+            rr[np.abs(rr - 1.0) < 1.0e-6] = 0.0
+            return rr
+
+        r0 = reduce(r[0:3]) if reduceToUC else r[0:3]
+        asym_pos = np.broadcast_to(r0, [1, 3])
 
         for symmat in self.SYM_SG:
             # get new position
@@ -543,16 +553,15 @@ class unitcell:
             rr = rnew[0:3]
 
             if reduceToUC:
-                # reduce to fundamental unitcell with fractional
-                # coordinates between 0-1
-                rr = np.modf(rr)[0]
-                rr[rr < 0.0] += 1.0
-                rr[np.abs(rr) < 1.0e-6] = 0.0
+                rr = reduce(rr)
 
             # check if this is new
             isnew = True
             for j in range(n):
                 v = rr - asym_pos[j]
+                if reduceToUC:
+                    # the positions are periodic
+                    v = v - np.round(v)
                 dist = self.CalcLength(v, "d")
                 if dist < 1e-3:
                     isnew = False
-- 
2.43.0


From 1d4a249777efbc3b2729c6fa621e7e3f2b598554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 037/152] fix: CIF files that name the space group by its Hall
 symbol can be read

---
 hexrd/core/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index 8dda950..2de8fd3 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -609,7 +609,7 @@ class Material(object):
         elif skey is sgkey[2]:
             hall = cifdata[sgkey[2]]
             hall = hall.replace(" ", "")
-            sgnum = Hall_to_sgnum[HM]
+            sgnum = Hall_to_sgnum[hall]
         elif skey is sgkey[3]:
             sgnum = int(cifdata[sgkey[3]])
 
-- 
2.43.0


From 7144b4748920d52f6ebe3a185d585ca75e46d150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 038/152] fix: Material.remove_duplicate_atoms keeps the
 displacement factors of the remaining atoms

---
 hexrd/core/material/material.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index 2de8fd3..4dc5a08 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -434,6 +434,7 @@ class Material(object):
         self.atominfo = self.unitcell.atom_pos
         self.atomtype = self.unitcell.atom_type
         self.charge = self.unitcell.chargestates
+        self.U = self.unitcell.U
         self._hkls_changed()
 
     def vt(self, temperature=None):
-- 
2.43.0


From 949a647b03bbcf6157b81ecadb6cd1d035da1b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 039/152] fix: Material honours the units of its beam energy

---
 hexrd/core/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index 4dc5a08..db5febb 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -274,7 +274,7 @@ class Material(object):
             self._atominfo,
             self._U,
             self._dmin.getVal('nm'),
-            self._beamEnergy.value,
+            self._beamEnergy.getVal('keV'),
             self._sgsetting,
         )
 
@@ -1262,7 +1262,7 @@ class Material(object):
         @TODO make voltage valWUnit instance so this that we dont have to
         track this manually inn the future
         '''
-        self.unitcell.voltage = self.beamEnergy.value * 1e3
+        self.unitcell.voltage = self.beamEnergy.getVal('keV') * 1e3
         self.planeData.wavelength = keV
         self._hkls_changed()
 
-- 
2.43.0


From 3dc8f505235251de4e6795375d0a5c052204df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 040/152] fix: calc_lp_factor includes the thermal expansion of
 the cell

---
 hexrd/core/material/material.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index db5febb..92b4c60 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -541,9 +541,8 @@ class Material(object):
         constants by. only the lengths will be modified, the
         angles will be kept constant.
         '''
-        vt = self.vt(temperature=temperature)
         vpt = self.calc_volume(pressure=pressure, temperature=temperature)
-        return (vpt / vt) ** (1.0 / 3.0)
+        return (vpt / self.v0) ** (1.0 / 3.0)
 
     def calc_lp_at_PT(self, pressure=None, temperature=None):
         '''calculate the lattice parameters for a given
-- 
2.43.0


From c57988796c22854092ab6c394ee74c199322df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 041/152] fix: JCPDS_extend.matches_material returns True for a
 match

---
 hexrd/core/material/jcpds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hexrd/core/material/jcpds.py b/hexrd/core/material/jcpds.py
index 202b296..76c5daa 100644
--- a/hexrd/core/material/jcpds.py
+++ b/hexrd/core/material/jcpds.py
@@ -291,6 +291,8 @@ class JCPDS_extend:
             if not np.isclose(v1, v2):
                 return False
 
+        return True
+
     def write_lattice_params_to_material(self, mat):
         self.verify_symmetry_match(mat)
         mat.latticeParameters = self.lattice_params
-- 
2.43.0


From 010471f77c0f303702472c7a2e4c0536c7861a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 042/152] fix: calculate_coherent_scattering_factor uses exp(-b
 s^2)

---
 hexrd/core/material/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/material/utils.py b/hexrd/core/material/utils.py
index e8a71c2..f6e469a 100644
--- a/hexrd/core/material/utils.py
+++ b/hexrd/core/material/utils.py
@@ -238,7 +238,7 @@ def calculate_coherent_scattering_factor(
     sfact = constants.scatfac[element]
     fe = sfact[5]
     for jj in range(5):
-        fe += sfact[jj] * np.exp(-sfact[jj + 6] * s)
+        fe += sfact[jj] * np.exp(-sfact[jj + 6] * s**2)
     return fe
 
 
-- 
2.43.0


From a48565edb7791e4a83de5353079c93b6087f5da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 043/152] fix: calculate_incoherent_scattering_factor finds its
 table

---
 hexrd/core/material/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/material/utils.py b/hexrd/core/material/utils.py
index f6e469a..f274692 100644
--- a/hexrd/core/material/utils.py
+++ b/hexrd/core/material/utils.py
@@ -247,7 +247,7 @@ def calculate_incoherent_scattering_factor(
     Q: NDArray[np.float64],
 ) -> NDArray[np.float64]:
 
-    resource = importlib.resources.files(hexrd.resources) / 'Anomalous.h5'
+    resource = importlib.resources.files(hexrd.core.resources) / 'Anomalous.h5'
     with importlib.resources.as_file(resource) as data_path:
         with h5py.File(data_path, 'r') as f:
             compton_table = f[element]['compton'][()]
-- 
2.43.0


From 405ee1f810c67025693dc365596a1aa2b6471c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 044/152] fix: calc_volume keeps the root at zero pressure

Rounding can put the root V/V0 = 1 slightly above one, where the bounds
dropped it and the spurious root at small volume was returned instead.
---
 hexrd/core/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index 92b4c60..b7c4880 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -529,7 +529,7 @@ class Material(object):
             res = res[np.isreal(res)]
             res = 1 / np.real(res) ** 3
 
-            mask = np.logical_and(res >= 0.0, res <= 1.0)
+            mask = np.logical_and(res >= 0.0, res <= 1.0 + 1e-10)
             res = res[mask]
             if len(res) == 0:
                 return vt
-- 
2.43.0


From fa6060490c30d23b42a831f09dbcc7d51352a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 045/152] fix: unwrap_dict_to_h5 does not empty the dictionary
 it writes

Callers pass shallow copies, so nested dictionaries (e.g. image series metadata
saved to a frame cache) were emptied by writing them.
---
 hexrd/core/utils/hdf5.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hexrd/core/utils/hdf5.py b/hexrd/core/utils/hdf5.py
index 99e934c..43171ab 100644
--- a/hexrd/core/utils/hdf5.py
+++ b/hexrd/core/utils/hdf5.py
@@ -22,8 +22,7 @@ def unwrap_dict_to_h5(grp, d, asattr=False):
     None.
 
     """
-    while len(d) > 0:
-        key, item = d.popitem()
+    for key, item in d.items():
         if isinstance(item, dict):
             subgrp = grp.create_group(key)
             unwrap_dict_to_h5(subgrp, item, asattr=asattr)
-- 
2.43.0


From 977aa8dee2dc8bc7b587e252a0339da5558fcbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 046/152] fix: image files with empty frames and one other
 frame do not return the empty frame

---
 hexrd/core/imageseries/load/imagefiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/load/imagefiles.py b/hexrd/core/imageseries/load/imagefiles.py
index a9b127a..0673a94 100644
--- a/hexrd/core/imageseries/load/imagefiles.py
+++ b/hexrd/core/imageseries/load/imagefiles.py
@@ -141,7 +141,7 @@ number of files: %s
                 dtp = self._checkvalue(dtp, info.dtype, "inconsistent image dtypes")
             fcl = self._checkvalue(fcl, info.fabioclass, "inconsistent image types")
             nf += info.nframes
-            if info.nframes > 1:
+            if info.nframes > 1 or info.empty > 0:
                 self._singleframes = False
 
         self._nframes = nf
-- 
2.43.0


From 9e991791b61e731d7916f7a2e28979d9a99d3fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 047/152] fix: single-frame files among multi-frame image files
 are read from themselves

For a single-frame image, fabio's getframe(i) opens the file numbered i of the
file series instead.
---
 hexrd/core/imageseries/load/imagefiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/load/imagefiles.py b/hexrd/core/imageseries/load/imagefiles.py
index 0673a94..1814e97 100644
--- a/hexrd/core/imageseries/load/imagefiles.py
+++ b/hexrd/core/imageseries/load/imagefiles.py
@@ -223,7 +223,7 @@ number of files: %s
     def _load_data(self, filename, frame=None):
         """Load data from a file, including processing if needed"""
         with fabio.open(filename) as img:
-            if frame is None:
+            if frame is None or img.nframes == 1:
                 data = img.data
             else:
                 # Fabio does some arithmetic with the frame number.
-- 
2.43.0


From 4c6cc81c4f60e581cf80aa12114650696d3fd2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 048/152] fix: raw images may have a header longer than a frame

---
 hexrd/core/imageseries/load/rawimage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/load/rawimage.py b/hexrd/core/imageseries/load/rawimage.py
index 1dd06c1..25988d6 100644
--- a/hexrd/core/imageseries/load/rawimage.py
+++ b/hexrd/core/imageseries/load/rawimage.py
@@ -56,7 +56,7 @@ class RawImageSeriesAdapter(ImageSeriesAdapter):
     def _get_length(self):
         """Read file and determine length"""
         nbytes = os.path.getsize(self.fname)
-        if nbytes % self._frame_bytes == self.skipbytes:
+        if (nbytes - self.skipbytes) % self._frame_bytes == 0:
             nframes = (nbytes - self.skipbytes) // self._frame_bytes
         else:
             msg = (
-- 
2.43.0


From 2d9e8f77ed8d0edb6add6b3a4558a1318e8735ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 049/152] fix: subtracting an unsigned dark image does not wrap
 around below zero

---
 hexrd/core/imageseries/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/process.py b/hexrd/core/imageseries/process.py
index efdef17..06974c1 100644
--- a/hexrd/core/imageseries/process.py
+++ b/hexrd/core/imageseries/process.py
@@ -127,7 +127,8 @@ class ProcessedImageSeries(ImageSeries):
         # Method 1 was the slowest, and method 4 was the fastest, perhaps
         # because it creates fewer copies of the data.
         ret = img - dark
-        ret[ret < 0] = 0
+        # compare the inputs: differences of unsigned images wrap around
+        ret[img < dark] = 0
         return ret
 
     def _rectangle_optimized(self, img_key, r):
-- 
2.43.0


From 6f615943bd734b100d2838c67a68f6feccb65cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 050/152] fix: the shape of an fch5 frame cache is a tuple

As an array it broke the buffered aggregate statistics.
---
 hexrd/core/imageseries/load/framecache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/imageseries/load/framecache.py b/hexrd/core/imageseries/load/framecache.py
index 51cab3c..e89e4da 100644
--- a/hexrd/core/imageseries/load/framecache.py
+++ b/hexrd/core/imageseries/load/framecache.py
@@ -101,8 +101,8 @@ class FrameCacheImageSeriesAdapter(ImageSeriesAdapter):
                     "Framecache version is not " f"supported: {version}"
                 )
 
-            self._shape = file["shape"][()]
-            self._nframes = file["nframes"][()]
+            self._shape = tuple(int(x) for x in file["shape"][()])
+            self._nframes = int(file["nframes"][()])
             self._dtype = np.dtype(h5py_read_string(file["dtype"]))
             self._meta = {}
             unwrap_h5_to_dict(file["metadata"], self._meta)
-- 
2.43.0


From a18a43d3aee8320f7911fc20c208507b135302c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 051/152] fix: processed image series can be restricted to a
 rectangle again

get_region of a ProcessedImageSeries raised AttributeError.
---
 hexrd/core/imageseries/process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hexrd/core/imageseries/process.py b/hexrd/core/imageseries/process.py
index 06974c1..e4b40de 100644
--- a/hexrd/core/imageseries/process.py
+++ b/hexrd/core/imageseries/process.py
@@ -209,6 +209,9 @@ class ProcessedImageSeries(ImageSeries):
         """list of operations to apply"""
         return self._oplist
 
+    def get_region(self, frame_idx, region):
+        return self._rectangle(self[frame_idx], region)
+
     def set_option(self, key: str, value: Any):
         self._imser.set_option(key, value)
 
-- 
2.43.0


From 6edaf20ff8824e5474bff9ed0ba9aee52dba8bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:57 +0000
Subject: [PATCH 052/152] fix: the first image of average_iter is not changed
 by later ones

---
 hexrd/core/imageseries/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/stats.py b/hexrd/core/imageseries/stats.py
index 433bfb4..46e82d9 100644
--- a/hexrd/core/imageseries/stats.py
+++ b/hexrd/core/imageseries/stats.py
@@ -164,7 +164,8 @@ def average_iter(
     if stop == 0:
         if nf > 1:
             s0, stop = 1, stops[1]
-        yield img
+        # Copy so later in-place accumulation can't mutate the yielded array.
+        yield img.copy()
 
     for i in range(1, nf):
         img += ims[i]
-- 
2.43.0


From 1416d76f37f50452e9e08ca7b1d4ccc6f8b4bd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 053/152] fix: angular resolutions are evaluated at (x, y) of
 the pixels, not (y, x)

---
 hexrd/core/instrument/hedm_instrument.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 7ee65be..00ae039 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -449,7 +449,7 @@ def pixel_resolution(instr):
     ang_ps_full = []
     for panel in instr.detectors.values():
         angps = panel.angularPixelSize(
-            np.stack(panel.pixel_coords, axis=0)
+            np.stack(panel.pixel_coords[::-1], axis=0)
             .reshape(2, np.cumprod(panel.shape)[-1])
             .T
         )
@@ -483,7 +483,7 @@ def max_resolution(instr):
     max_eta = np.inf
     for panel in instr.detectors.values():
         angps = panel.angularPixelSize(
-            np.stack(panel.pixel_coords, axis=0)
+            np.stack(panel.pixel_coords[::-1], axis=0)
             .reshape(2, np.cumprod(panel.shape)[-1])
             .T
         )
-- 
2.43.0


From eea6e62c3bb2ccb69a7d63d9b24c950316642028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 054/152] fix: chunked instruments are not shifted by half a
 pixel

---
 hexrd/core/instrument/hedm_instrument.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 00ae039..c1d82a7 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -209,7 +209,8 @@ def chunk_instrument(instr, rects, labels, use_roi=False):
 
             row_col_dim = np.diff(rect)  # (2, 1)
             shape = tuple(row_col_dim.flatten())
-            center = rect[:, 0].reshape(2, 1) + 0.5 * row_col_dim
+            # !!! pixel indices refer to pixel centers
+            center = rect[:, 0].reshape(2, 1) + 0.5 * (row_col_dim - 1)
 
             sp_tvec = np.concatenate(
                 [panel.pixelToCart(center.T).flatten(), np.zeros(1)]
-- 
2.43.0


From 99b60331915956f49b5c10da538dff7b8df9646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 055/152] fix: a 3-d array of images can be shared between
 panels

---
 hexrd/core/instrument/hedm_instrument.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index c1d82a7..bb03dee 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -330,8 +330,8 @@ def _parse_imgser_dict(
                 ncols = roi[1][1] - roi[1][0]
                 n_images = len(images_in)
                 ims = np.empty((n_images, nrows, ncols), dtype=images_in.dtype)
-                for i, image in images_in:  # TODO: Is this meant to be an enumerate?
-                    ims[i, :, :] = images_in[
+                for i, image in enumerate(images_in):
+                    ims[i, :, :] = image[
                         roi[0][0] : roi[0][1], roi[1][0] : roi[1][1]
                     ]
             else:
-- 
2.43.0


From 677c5ce52168a49dc150ae1286273c2f53e2ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:21 +0000
Subject: [PATCH 056/152] fix: simulateGVecs does not call a removed function

---
 hexrd/hedm/xrdutil/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 1e58951..41aceb5 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -690,7 +690,7 @@ def simulateGVecs(
         op_idx = np.where(on_panel)[0]
 
         valid_ang = allAngs[op_idx, :]
-        valid_ang[:, 2] = xfcapi.mapAngle(valid_ang[:, 2], ome_period)
+        valid_ang[:, 2] = rot.mapAngle(valid_ang[:, 2], ome_period)
         valid_ids = allHKLs[op_idx, 0]
         valid_hkl = allHKLs[op_idx, 1:]
         valid_xy = det_xy[op_idx, :]
-- 
2.43.0


From 1df714334c5b689d5b829079268f17896affa3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:21 +0000
Subject: [PATCH 057/152] fix: reflection patches find the pixels of panels
 with non-square pixels

---
 hexrd/hedm/xrdutil/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 41aceb5..30441c9 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -864,8 +864,8 @@ def make_reflection_patches(
         -0.5 * np.r_[frame_ncols * pixel_size[1], frame_nrows * pixel_size[0]],
         0.5 * np.r_[frame_ncols * pixel_size[1], frame_nrows * pixel_size[0]],
     )
-    row_edges = np.arange(frame_nrows + 1)[::-1] * pixel_size[1] + panel_dims[0][1]
-    col_edges = np.arange(frame_ncols + 1) * pixel_size[0] + panel_dims[0][0]
+    row_edges = np.arange(frame_nrows + 1)[::-1] * pixel_size[0] + panel_dims[0][1]
+    col_edges = np.arange(frame_ncols + 1) * pixel_size[1] + panel_dims[0][0]
 
     # handle distortion
     distortion = None
-- 
2.43.0


From 2eebcff90d0ca58e580a17b393c8e7432fcaf717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:21 +0000
Subject: [PATCH 058/152] fix: pull_spots works with an omega tolerance of one
 frame or less

---
 hexrd/core/instrument/hedm_instrument.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index bb03dee..e85e760 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -1804,15 +1804,11 @@ class HEDMInstrument(object):
         delta_omega = oims0.omega[0, 1] - oims0.omega[0, 0]
 
         # make omega grid for frame expansion around reference frame in DEGREES
-        ndiv_ome, ome_grid = make_tolerance_grid(
-            delta_omega, ome_tol, 1, adjust_window=True
-        )
+        _, ome_grid = make_tolerance_grid(delta_omega, ome_tol, 1, adjust_window=True)
 
         # generate structuring element for connected component labeling
-        if ndiv_ome == 1:
-            label_struct = ndimage.generate_binary_structure(2, 2)
-        else:
-            label_struct = ndimage.generate_binary_structure(3, 3)
+        # !!! patch data are 3-d (omega, eta, tth) even for a single division
+        label_struct = ndimage.generate_binary_structure(3, 3)
 
         sim_results = self.simulate_rotation_series(
             plane_data,
-- 
2.43.0


From 0031b0f8297e2dda7343143173f62b2a33df86ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:21 +0000
Subject: [PATCH 059/152] fix: pull_spots tests patches against the panel with
 the instrument's beam vector

---
 hexrd/core/instrument/hedm_instrument.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index e85e760..fbf9b18 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -2081,6 +2081,7 @@ class HEDMInstrument(object):
             tVec_c,
             self.tvec,
             panel.distortion,
+            self.beam_vector,
         )
 
         _, on_panel = panel.clip_to_panel(det_xy, buffer_edges=True)
-- 
2.43.0


From bdb3aa547a724722c71c8260cb58bdc9f876087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:21 +0000
Subject: [PATCH 060/152] fix: pull_spots can write HDF5 output

---
 hexrd/core/instrument/hedm_instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index fbf9b18..58b7a78 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -1820,7 +1820,7 @@ class HEDMInstrument(object):
 
         if write_hdf5:
             writer_hdf5 = GrainDataWriter_h5(
-                Path(dirname) / str(filename),
+                str(Path(dirname) / filename),
                 self.write_config(),
                 grain_params,
             )
-- 
2.43.0


From afc30b3a3dcf61572a86b4d89e69594ba19c554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:21 +0000
Subject: [PATCH 061/152] fix: the wavelength given to simulate_rotation_series
 is in angstrom for the plane data too

---
 hexrd/core/instrument/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index f8f6365..3d4056d 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1637,7 +1637,7 @@ class Detector:
         else:
             # TODO: This function should not be modifying input arguments
             if plane_data.wavelength != wavelength:
-                plane_data.wavelength = ct.keVToAngstrom(wavelength)
+                plane_data.wavelength = wavelength
         assert not np.any(
             np.isnan(plane_data.getTTh())
         ), "plane data exclusions incompatible with wavelength"
-- 
2.43.0


From c58d4252daf0eef3e03c393ebbbe615f4c6faac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:52 +0000
Subject: [PATCH 062/152] fix: simulateGVecs keeps angles, hkls and positions
 aligned when some reflections miss the detector plane

---
 hexrd/hedm/xrdutil/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 30441c9..f6fe537 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -664,7 +664,7 @@ def simulateGVecs(
         ang_ps = np.array([])
     else:
         # ??? preallocate for speed?
-        det_xy, rMat_ss, _ = _project_on_detector_plane(
+        det_xy, rMat_ss, on_plane = _project_on_detector_plane(
             allAngs,
             rMat_d,
             rMat_c,
@@ -675,6 +675,8 @@ def simulateGVecs(
             distortion,
             beamVec=beam_vector,
         )
+        # !!! only the reflections that hit the detector plane are projected
+        allAngs, allHKLs = allAngs[on_plane], allHKLs[on_plane]
 
         on_panel = np.logical_and(
             np.logical_and(
-- 
2.43.0


From 5bec8aa8d869df90a96996a9324b1e974e3ea6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 063/152] fix: compute_areas is right for cells that are not
 parallelograms

---
 hexrd/core/gridutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hexrd/core/gridutil.py b/hexrd/core/gridutil.py
index 4ee1949..9600442 100644
--- a/hexrd/core/gridutil.py
+++ b/hexrd/core/gridutil.py
@@ -161,6 +161,7 @@ def compute_areas(xy_eval_vtx, conn):
             v1x = vtx_x - vtx0x
             v1y = vtx_y - vtx0y
             acc += v0x * v1y - v1x * v0y
+            v0x, v0y = v1x, v1y
 
         areas[i] = 0.5 * acc
     return areas
-- 
2.43.0


From 2f69bca95adb509c3f43948e23b6b61470a5e01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 064/152] fix: extract_polar_maps finds the active hkls

---
 hexrd/core/instrument/hedm_instrument.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 58b7a78..2eff416 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -1121,7 +1121,9 @@ class HEDMInstrument(object):
                 raise TypeError("active_hkls must be an iterable with __len__")
 
             # these are all active reflection unique hklIDs
-            active_hklIDs = plane_data.getHKLID(plane_data.hkls, master=True)
+            active_hklIDs = np.asarray(
+                plane_data.getHKLID(plane_data.hkls, master=True)
+            )
 
             # find indices
             idx = np.zeros_like(active_hkls, dtype=int)
-- 
2.43.0


From 838c1ef1c85358a0841e9fc09ea72456709b492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:25 +0000
Subject: [PATCH 065/152] fix: fit_pk_parms_1d bounds the background of
 pseudo-Voigt fits by its own guess

The split pseudo-Voigt used the mixing parameter, and a negative intercept
left an empty interval.
---
 hexrd/core/fitting/fitpeak.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/fitting/fitpeak.py b/hexrd/core/fitting/fitpeak.py
index 263ff03..dc55c8b 100644
--- a/hexrd/core/fitting/fitpeak.py
+++ b/hexrd/core/fitting/fitpeak.py
@@ -229,17 +229,20 @@ def fit_pk_parms_1d(p0, x, f, pktype='pvoigt'):
             xtol=xtol,
         )
     elif pktype == 'pvoigt':
-        lb = [p0[0] * 0.5, np.min(x), 0.0, 0.0, 0.0, None]
-        ub = [p0[0] * 2.0, np.max(x), 4.0 * p0[2], 1.0, 2.0 * p0[4], None]
+        # the intercept at x = 0 is negative for many sloped backgrounds
+        bg_lb, bg_ub = sorted([0.0, 2.0 * p0[4]])
+        lb = [p0[0] * 0.5, np.min(x), 0.0, 0.0, bg_lb, None]
+        ub = [p0[0] * 2.0, np.max(x), 4.0 * p0[2], 1.0, bg_ub, None]
 
         fitArgs = (x, f, pktype, weight, lb, ub)
         p, outflag = optimize.leastsq(
             fit_pk_obj_1d_bnded, p0, args=fitArgs, ftol=ftol, xtol=xtol
         )
     elif pktype == 'split_pvoigt':
+        bg_lb, bg_ub = sorted([0.0, 2.0 * p0[-2]])
         # fmt: off
-        lb = [p0[0]*0.5, np.min(x), 0., 0., 0., 0., 0., None]
-        ub = [p0[0]*2.0, np.max(x), 4.*p0[2], 4.*p0[2], 1., 1., 2.*p0[4], None]
+        lb = [p0[0]*0.5, np.min(x), 0., 0., 0., 0., bg_lb, None]
+        ub = [p0[0]*2.0, np.max(x), 4.*p0[2], 4.*p0[2], 1., 1., bg_ub, None]
         # fmt: on
         fitArgs = (x, f, pktype, weight, lb, ub)
         p, outflag = optimize.leastsq(
-- 
2.43.0


From 5ab3cda7d904ca4a321f66a490518a49d3429f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:55 +0000
Subject: [PATCH 066/152] fix: convolve accepts arrays that need a type or
 layout conversion with numpy 2

---
 hexrd/core/convolution/convolve.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/hexrd/core/convolution/convolve.py b/hexrd/core/convolution/convolve.py
index 3a48e6d..e4ea82c 100644
--- a/hexrd/core/convolution/convolve.py
+++ b/hexrd/core/convolution/convolve.py
@@ -75,11 +75,9 @@ def _copy_input_if_needed(
                 # ``np.nan`` is a ``float`` and there is no conversion to an
                 # ``int`` type. Therefore, a pre-fill copy is needed for non
                 # ``float`` masked arrays. ``subok=True`` is needed to retain
-                # ``np.ma.maskedarray.filled()``. ``copy=False`` allows the fill
+                # ``np.ma.maskedarray.filled()``. ``asanyarray`` allows the fill
                 # to act as the copy if type and order are already correct.
-                output = np.array(
-                    input, dtype=dtype, copy=False, order=order, subok=True
-                )
+                output = np.asanyarray(input, dtype=dtype, order=order)
                 output = output.filled(fill_value)
             else:
                 # Since we're making a copy, we might as well use `subok=False` to save,
@@ -92,11 +90,10 @@ def _copy_input_if_needed(
                 # mask != 0 yields a bool mask for all ints/floats/bool
                 output[mask != 0] = fill_value
         else:
-            # The call below is synonymous with np.asanyarray(array, ftype=float, order='C')
-            # The advantage of `subok=True` is that it won't copy when array is an ndarray subclass. If it
-            # is and `subok=False` (default), then it will copy even if `copy=False`. This uses less memory
-            # when ndarray subclasses are passed in.
-            output = np.array(input, dtype=dtype, copy=False, order=order, subok=True)
+            # This won't copy when array is an ndarray subclass of the right
+            # type and order (np.array with copy=False raises with numpy 2
+            # when a copy is needed).
+            output = np.asanyarray(input, dtype=dtype, order=order)
     except (TypeError, ValueError) as e:
         raise TypeError(
             'input should be a Numpy array or something '
-- 
2.43.0


From a0ca5e1f7ef1c870982f7da83ea5cc6b6f0db612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:33 +0000
Subject: [PATCH 067/152] fix: angular ranges of paintGrid are checked for
 overlap whatever their number and order

Four or more ranges raised a broadcasting error, three could be refused
in the wrong order, and two overlapping ones were accepted.
---
 hexrd/hedm/indexer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index 7b657a8..3d01a4c 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -461,7 +461,8 @@ def _normalize_ranges(
         new_result[-1] = offset + two_pi
         result = new_result
 
-    if not np.all(starts[1:] > stops[0:-2]):
+    # the limits of sorted, disjoint ranges increase (touching is allowed)
+    if np.any(np.diff(result) < -1e-8):
         raise ValueError("Angle ranges overlap")
 
     return result
-- 
2.43.0


From a9b1e8cc8fe0aaa5db8d811d8e869a864d408ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:33 +0000
Subject: [PATCH 068/152] fix: the default threshold of paintGrid ignores the
 NaNs of a map

A single masked bin made the threshold NaN and every score zero.
---
 hexrd/hedm/indexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index 3d01a4c..fe32f0b 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -232,8 +232,8 @@ def paintGrid(
         for i in range(nHKLS):
             threshold[i] = np.mean(
                 np.r_[
-                    np.mean(etaOmeMaps.dataStore[i]),
-                    np.median(etaOmeMaps.dataStore[i]),
+                    np.nanmean(etaOmeMaps.dataStore[i]),
+                    np.nanmedian(etaOmeMaps.dataStore[i]),
                 ]
             )
     elif threshold is not None and not hasattr(threshold, "__len__"):
-- 
2.43.0


From 119b45afff727367bee5fd1bfdc069bbda369c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:33 +0000
Subject: [PATCH 069/152] fix: paintGrid scores fewer orientations than
 processes

A chunk size of zero made the pool return None for every orientation.
---
 hexrd/hedm/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index fe32f0b..2e2c573 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -295,7 +295,7 @@ def paintGrid(
 
     if multiProcMode:
         nCPUs = nCPUs or nCPUs_DFLT
-        chunksize = min(quats.shape[1] // nCPUs, 10)
+        chunksize = max(1, min(quats.shape[1] // nCPUs, 10))
         logger.debug(
             "using multiprocessing with %d processes and a chunk size of %d",
             nCPUs,
-- 
2.43.0


From 5eeb15dbc5fd5f7d2c463fb36e4630e582ccf9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:43 +0000
Subject: [PATCH 070/152] fix: eta-omega maps of several omega wedges can be
 made with numpy 2

A one-element array no longer converts to float.
---
 hexrd/hedm/instrument/generate_eta_omega_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/instrument/generate_eta_omega_maps.py b/hexrd/hedm/instrument/generate_eta_omega_maps.py
index 298631e..321fd2d 100644
--- a/hexrd/hedm/instrument/generate_eta_omega_maps.py
+++ b/hexrd/hedm/instrument/generate_eta_omega_maps.py
@@ -86,7 +86,7 @@ class GenerateEtaOmeMaps:
             #     the omegas attribute?
             owedges = this_det_ims.omegawedges.wedges
             ostart = owedges[0]['ostart']  # !!! DEGREES
-            ostop = float(mapAngle(owedges[-1]['ostop'], ome_period, units='degrees'))
+            ostop = mapAngle(owedges[-1]['ostop'], ome_period, units='degrees')[0]
             # compute total nsteps
             # FIXME: need check for roundoff badness
             nsteps = int((ostop - ostart) / delta_ome)
-- 
2.43.0


From 2cc8b25ab3833c4ada50167efaf36b94433783a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:43 +0000
Subject: [PATCH 071/152] fix: eta-omega maps of several omega wedges keep
 their last bin

The number of steps was truncated, so roundoff dropped a bin.
---
 hexrd/hedm/instrument/generate_eta_omega_maps.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hexrd/hedm/instrument/generate_eta_omega_maps.py b/hexrd/hedm/instrument/generate_eta_omega_maps.py
index 321fd2d..17a14aa 100644
--- a/hexrd/hedm/instrument/generate_eta_omega_maps.py
+++ b/hexrd/hedm/instrument/generate_eta_omega_maps.py
@@ -88,8 +88,7 @@ class GenerateEtaOmeMaps:
             ostart = owedges[0]['ostart']  # !!! DEGREES
             ostop = mapAngle(owedges[-1]['ostop'], ome_period, units='degrees')[0]
             # compute total nsteps
-            # FIXME: need check for roundoff badness
-            nsteps = int((ostop - ostart) / delta_ome)
+            nsteps = int(round((ostop - ostart) / delta_ome))
             ome_edges_full = np.linspace(ostart, ostop, num=nsteps + 1, endpoint=True)
             omegas_array = np.vstack([ome_edges_full[:-1], ome_edges_full[1:]]).T
             ome_centers = np.average(omegas_array, axis=1)
-- 
2.43.0


From a886a6679ad111046b6113f33361713757ba635b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:04 +0000
Subject: [PATCH 072/152] fix: whole numbers in the translations and tilts of
 an instrument are accepted

An integer array was passed on to the compiled transforms, which refuse it.
---
 hexrd/core/instrument/detector.py        | 8 ++++----
 hexrd/core/instrument/hedm_instrument.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 3d4056d..5819d6c 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -298,8 +298,8 @@ class Detector:
                 (roi[1], roi[1] + self._cols),
             )
 
-        self._tvec = np.array(tvec).flatten()
-        self._tilt = np.array(tilt).flatten()
+        self._tvec = np.array(tvec, dtype=float).flatten()
+        self._tilt = np.array(tilt, dtype=float).flatten()
 
         self._bvec = np.array(bvec).flatten()
         self._xrs_dist = xrs_dist
@@ -482,7 +482,7 @@ class Detector:
 
     @tvec.setter
     def tvec(self, x):
-        x = np.array(x).flatten()
+        x = np.array(x, dtype=float).flatten()
         if len(x) != 3:
             raise ValueError('tvec must be a 3-element array-like')
         self._tvec = x
@@ -495,7 +495,7 @@ class Detector:
     def tilt(self, x):
         if len(x) != 3:
             raise ValueError('tilt must be a 3-element array-like')
-        self._tilt = np.array(x).squeeze()
+        self._tilt = np.array(x, dtype=float).squeeze()
 
     @property
     def bvec(self):
diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 2eff416..f463d00 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -705,7 +705,7 @@ class HEDMInstrument(object):
                 self._detectors[det_id] = DetectorClass(**kwargs)
 
             assert instrument_config is not None
-            self._tvec = np.r_[instrument_config['oscillation_stage']['translation']]
+            self.tvec = instrument_config['oscillation_stage']['translation']
             self._chi = instrument_config['oscillation_stage']['chi']
         else:
             # Default instrument
@@ -789,7 +789,7 @@ class HEDMInstrument(object):
 
     @tvec.setter
     def tvec(self, x):
-        x = np.array(x).flatten()
+        x = np.array(x, dtype=float).flatten()
         assert len(x) == 3, 'input must have length = 3'
         self._tvec = x
 
-- 
2.43.0


From 5932fcc13533977beb556cc0f4a0785ef9a67187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:22 +0000
Subject: [PATCH 073/152] fix: map-based indexing scores orientations with the
 chi angle of the instrument

Trial orientations were generated with chi but scored as if it were zero.
---
 hexrd/hedm/findorientations.py | 1 +
 hexrd/hedm/indexer.py          | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/hexrd/hedm/findorientations.py b/hexrd/hedm/findorientations.py
index 5747672..7c4df78 100644
--- a/hexrd/hedm/findorientations.py
+++ b/hexrd/hedm/findorientations.py
@@ -826,6 +826,7 @@ def find_orientations(
             threshold=on_map_threshold,
             doMultiProc=ncpus > 1,
             nCPUs=ncpus,
+            chi=instr.chi,
         )
         logger.info("\t\t...took %f seconds", timeit.default_timer() - start)
     completeness = np.array(completeness)
diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index 2e2c573..9a6596d 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -73,7 +73,7 @@ omega_period_DFLT: NDArray[np.float64] = np.radians(np.r_[-180.0, 180.0])
 class PaintGridParams(TypedDict):
     """Typed parameters dictionary shared across paintGrid workers.
 
-    The first 18 fields are populated by :func:`paintGrid` and passed to
+    The first 19 fields are populated by :func:`paintGrid` and passed to
     :func:`paintgrid_init`.  The final two fields (``valid_eta_spans`` and
     ``valid_ome_spans``) are computed and added by :func:`paintgrid_init`
     before any worker calls :func:`paintGridThis`.
@@ -96,6 +96,7 @@ class PaintGridParams(TypedDict):
     etaOmeMaps: NDArray[np.float64]
     bMat: NDArray[np.float64]
     threshold: NDArray[np.float64]
+    chi: float
     valid_eta_spans: NDArray[np.float64]
     valid_ome_spans: NDArray[np.float64]
 
@@ -121,6 +122,7 @@ def paintGrid(
     doMultiProc: bool = False,
     nCPUs: int | None = None,
     debug: bool = False,
+    chi: float = 0.0,
 ) -> list[float]:
     r"""
     Spherical map-based indexing algorithm, i.e. paintGrid.
@@ -174,6 +176,8 @@ def paintGrid(
         ``multiprocessing.cpu_count()`` when ``None``.
     debug : bool, optional
         debugging mode flag.  Currently unused; reserved for future use.
+    chi : float, optional
+        the inclination angle of the rotation axis in radians.  Default is 0.
 
     Raises
     ------
@@ -334,6 +338,7 @@ def paintGrid(
         "etaOmeMaps": np.stack(etaOmeMaps.dataStore),
         "bMat": bMat,
         "threshold": np.asarray(threshold),
+        "chi": chi,
     }
 
     # do the mapping
@@ -656,7 +661,7 @@ def paintGridThis(quat: NDArray[np.float64]) -> float:
 
     # Compute the oscillation angles of all the symHKLs at once
     oangs_pair = xfcapi.oscill_angles_of_hkls(
-        symHKLs, 0.0, rMat, bMat, wavelength
+        symHKLs, paramMP["chi"], rMat, bMat, wavelength
     )
     return _filter_and_count_hits(
         oangs_pair[0],
-- 
2.43.0


From ba4215d7bcebd499c0a3c535cb219284f3d0894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:09 +0000
Subject: [PATCH 074/152] fix: eta-omega maps of several wedges that close a
 full turn survive roundoff

---
 hexrd/hedm/instrument/generate_eta_omega_maps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hexrd/hedm/instrument/generate_eta_omega_maps.py b/hexrd/hedm/instrument/generate_eta_omega_maps.py
index 17a14aa..34e6b37 100644
--- a/hexrd/hedm/instrument/generate_eta_omega_maps.py
+++ b/hexrd/hedm/instrument/generate_eta_omega_maps.py
@@ -87,6 +87,9 @@ class GenerateEtaOmeMaps:
             owedges = this_det_ims.omegawedges.wedges
             ostart = owedges[0]['ostart']  # !!! DEGREES
             ostop = mapAngle(owedges[-1]['ostop'], ome_period, units='degrees')[0]
+            if ostop - ostart < 0.5 * delta_ome:
+                # roundoff mapped the end of a full turn to its start
+                ostop += 360.0
             # compute total nsteps
             nsteps = int(round((ostop - ostart) / delta_ome))
             ome_edges_full = np.linspace(ostart, ostop, num=nsteps + 1, endpoint=True)
-- 
2.43.0


From 00b7aee91a6255c0ec9f9cb08d5fb45c493d0345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:13 +0000
Subject: [PATCH 075/152] fix: selected grains are fitted from their own row of
 the grains table

---
 hexrd/hedm/fitgrains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hexrd/hedm/fitgrains.py b/hexrd/hedm/fitgrains.py
index 4904cea..6db49e7 100644
--- a/hexrd/hedm/fitgrains.py
+++ b/hexrd/hedm/fitgrains.py
@@ -106,8 +106,9 @@ def fit_grain_FF_reduced(grain_id):
 
     return_pull_spots_data: bool = paramMP.get('return_pull_spots_data', False)
 
-    grain = grains_table[grain_id]
-    grain_params = grain[3:15]
+    # the rows of the table can be a selection of the grains
+    grain_row = np.where(grains_table[:, 0].astype(int) == grain_id)[0][0]
+    grain_params = grains_table[grain_row, 3:15]
 
     for tols in zip(tth_tol, eta_tol, ome_tol):
         complvec, results = instrument.pull_spots(
-- 
2.43.0


From 7ed9fc4aed3975bff38a3e7b4587e9dead07ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:13 +0000
Subject: [PATCH 076/152] fix: reflections listed in an overlap table are left
 out of grain fits

---
 hexrd/hedm/fitgrains.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hexrd/hedm/fitgrains.py b/hexrd/hedm/fitgrains.py
index 6db49e7..6c171c8 100644
--- a/hexrd/hedm/fitgrains.py
+++ b/hexrd/hedm/fitgrains.py
@@ -130,7 +130,7 @@ def fit_grain_FF_reduced(grain_id):
         )
 
         culled_results, num_refl_valid, completeness = determine_valid_reflections(
-            results, instrument, analysis_dirname
+            results, instrument, analysis_dirname, grain_id
         )
 
         # ======= DO LEASTSQ FIT =======
@@ -216,7 +216,9 @@ def fit_grain_FF_reduced(grain_id):
     return result
 
 
-def determine_valid_reflections(results, instrument, analysis_dirname):
+def determine_valid_reflections(
+    results, instrument, analysis_dirname, grain_id=None
+):
     """Process results from `pull_spots()`
 
     PARAMETERS
@@ -227,6 +229,8 @@ def determine_valid_reflections(results, instrument, analysis_dirname):
        the HEDM instrument
     analysis_dirname: str or Path
        the analysis output directory
+    grain_id: int, optional
+       the id of the grain in the overlap tables
 
     RETURNS
     -------
@@ -286,8 +290,7 @@ def determine_valid_reflections(results, instrument, analysis_dirname):
                     these_overlaps = np.where(this_table[:, 0] == grain_id)[0]
                     if len(these_overlaps) > 0:
                         mark_these = np.array(this_table[these_overlaps, 1], dtype=int)
-                        otidx = [np.where(refl_ids == mt)[0] for mt in mark_these]
-                        overlaps[otidx] = True
+                        overlaps |= np.isin(refl_ids, mark_these)
             idx = np.logical_and(idx, ~overlaps)
             # logger.info("found overlap table for '%s'", det_key)
         except (IOError, IndexError):
-- 
2.43.0


From 0d66c6fce585430a033c64234c261e41d7df7cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:13 +0000
Subject: [PATCH 077/152] fix: refits compare measured and fitted spots of
 distorted panels in the same coordinates

---
 hexrd/hedm/fitgrains.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hexrd/hedm/fitgrains.py b/hexrd/hedm/fitgrains.py
index 6c171c8..46e2799 100644
--- a/hexrd/hedm/fitgrains.py
+++ b/hexrd/hedm/fitgrains.py
@@ -351,6 +351,9 @@ def refine_valid_reflections(
 
         x = presults[0]
         xyo_det = np.atleast_2d(np.vstack([np.r_[x[7], x[6][-1]] for x in presults]))
+        if panel.distortion is not None:
+            # the fit is calculated in undistorted coordinates
+            xyo_det[:, :2] = panel.distortion.apply(xyo_det[:, :2])
 
         xpix_tol = tol_xy * panel.pixel_size_col
         ypix_tol = tol_xy * panel.pixel_size_row
-- 
2.43.0


From 6a9a16c52bb51bf603276333302e0b89dffca8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:13 +0000
Subject: [PATCH 078/152] fix: infeasible grain parameters are refused for
 every panel

---
 hexrd/hedm/fitting/grains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/fitting/grains.py b/hexrd/hedm/fitting/grains.py
index 61c7b8b..b41e583 100644
--- a/hexrd/hedm/fitting/grains.py
+++ b/hexrd/hedm/fitting/grains.py
@@ -342,7 +342,7 @@ def objFuncFitGrain(
     meas_xyo_all = np.vstack(meas_xyo_all)
 
     npts = len(meas_xyo_all)
-    if np.any(np.isnan(calc_xy)):
+    if np.any(np.isnan(calc_xy_all)):
         raise RuntimeError(
             "infeasible pFull: may want to scale" + "back finite difference step size"
         )
-- 
2.43.0


From 6bb307f57d28e01832b22ae76fcf16c4468fa448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:13 +0000
Subject: [PATCH 079/152] fix: distortion parameters of one detector are not
 mixed with those of another

---
 hexrd/core/fitting/calibration/lmfit_param_handling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/fitting/calibration/lmfit_param_handling.py b/hexrd/core/fitting/calibration/lmfit_param_handling.py
index dc359e2..059e002 100644
--- a/hexrd/core/fitting/calibration/lmfit_param_handling.py
+++ b/hexrd/core/fitting/calibration/lmfit_param_handling.py
@@ -381,12 +381,13 @@ def update_unconstrained_detector_parameters(instr, params, euler_convention):
             rad = params[f'{det}_radius'].value
             detector.radius = rad
 
-        distortion_str = f'{det}_distortion_param'
-        if any(distortion_str in p for p in params):
+        distortion_str = f'{det}_distortion_param_'
+        names = [p for p in params if p.startswith(distortion_str)]
+        if names:
             if detector.distortion is None:
                 raise RuntimeError(f"distortion discrepancy for '{det}'!")
             else:
-                names = np.sort([p for p in params if distortion_str in p])
+                names.sort(key=lambda x: int(x[len(distortion_str) :]))
                 distortion = np.r_[[params[n].value for n in names]]
                 try:
                     detector.distortion.params = distortion
-- 
2.43.0


From 142e8bf3f8591a550c77fdfa42578bd999d8c65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:14 +0000
Subject: [PATCH 080/152] fix: invalid engineering constraints are reported as
 such

---
 hexrd/core/fitting/calibration/instrument.py    | 2 +-
 hexrd/core/fitting/calibration/structureless.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/fitting/calibration/instrument.py b/hexrd/core/fitting/calibration/instrument.py
index eebff01..c53a281 100644
--- a/hexrd/core/fitting/calibration/instrument.py
+++ b/hexrd/core/fitting/calibration/instrument.py
@@ -152,7 +152,7 @@ class InstrumentCalibrator:
             'TARDIS',
         ]
         if v not in valid_settings:
-            valid_str = ', '.join(map(valid_settings, str))
+            valid_str = ', '.join(map(str, valid_settings))
             msg = (
                 f'Invalid engineering constraint "{v}". Valid constraints '
                 f'are: "{valid_str}"'
diff --git a/hexrd/core/fitting/calibration/structureless.py b/hexrd/core/fitting/calibration/structureless.py
index 424b4a7..4b8b88a 100644
--- a/hexrd/core/fitting/calibration/structureless.py
+++ b/hexrd/core/fitting/calibration/structureless.py
@@ -206,7 +206,7 @@ class StructurelessCalibrator:
             'TARDIS',
         ]
         if v not in valid_settings:
-            valid_str = ', '.join(map(valid_settings, str))
+            valid_str = ', '.join(map(str, valid_settings))
             msg = (
                 f'Invalid engineering constraint "{v}". Valid constraints '
                 f'are: "{valid_str}"'
-- 
2.43.0


From 7b3ab256511960292618d4a3fffc13e99b33e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:14 +0000
Subject: [PATCH 081/152] fix: grain calibration uses the beam direction of the
 instrument

---
 hexrd/hedm/fitting/calibration/grain.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/fitting/calibration/grain.py b/hexrd/hedm/fitting/calibration/grain.py
index 117ebce..15bfacf 100644
--- a/hexrd/hedm/fitting/calibration/grain.py
+++ b/hexrd/hedm/fitting/calibration/grain.py
@@ -178,7 +178,14 @@ def sxcal_obj_func(
                 chi, np.ascontiguousarray(calc_omes_tmp)
             )
             calc_xy_tmp = xfcapi.gvec_to_xy(
-                ghat_c.T, rmat_d, rmat_s_arr, rmat_c, tvec_d, tvec_s, tvec_c
+                ghat_c.T,
+                rmat_d,
+                rmat_s_arr,
+                rmat_c,
+                tvec_d,
+                tvec_s,
+                tvec_c,
+                beam_vec=bvec,
             )
             if np.any(np.isnan(calc_xy_tmp)):
                 logger.warning(
-- 
2.43.0


From ec884daafa34f487dceff90750617e0f93285f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 082/152] fix: tilts about the lab origin do not depend on the
 order in which they were reached

---
 hexrd/core/fitting/calibration/lmfit_param_handling.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hexrd/core/fitting/calibration/lmfit_param_handling.py b/hexrd/core/fitting/calibration/lmfit_param_handling.py
index 059e002..ebb8c0a 100644
--- a/hexrd/core/fitting/calibration/lmfit_param_handling.py
+++ b/hexrd/core/fitting/calibration/lmfit_param_handling.py
@@ -25,6 +25,7 @@ from .relative_constraints import (
     RelativeConstraintsSystem,
     RelativeConstraintsType,
     RelativeConstraintsNone,
+    RotationCenter,
 )
 from hexrd.core.fitting.calibration.relative_constraints import (
     RelativeConstraintsType,
@@ -466,6 +467,9 @@ def update_system_constrained_detector_parameters(
     rotation_center = relative_constraints.center_of_rotation(instr)
     prefix = 'system'
     constraint_params = relative_constraints.params
+    if relative_constraints.rotation_center == RotationCenter.lab_origin:
+        # The detectors were translated after they were tilted
+        rotation_center = rotation_center + constraint_params['translation']
 
     _update_constrained_detector_parameters(
         detectors,
@@ -490,6 +494,9 @@ def update_group_constrained_detector_parameters(
         rotation_center = relative_constraints.center_of_rotation(instr, group)
         prefix = group.replace('-', '_')
         constraint_params = relative_constraints.params[group]
+        if relative_constraints.rotation_center == RotationCenter.lab_origin:
+            # The detectors were translated after they were tilted
+            rotation_center = rotation_center + constraint_params['translation']
 
         _update_constrained_detector_parameters(
             detectors,
-- 
2.43.0


From b6d20a8624fae0dce569728c568e98cb115d493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 083/152] fix: grain and Laue calibrations accept detectors
 without picks

---
 hexrd/core/fitting/calibration/laue.py  | 4 ++--
 hexrd/hedm/fitting/calibration/grain.py | 4 ++--
 hexrd/laue/fitting/calibration/laue.py  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hexrd/core/fitting/calibration/laue.py b/hexrd/core/fitting/calibration/laue.py
index 1fe67bc..5eb770a 100644
--- a/hexrd/core/fitting/calibration/laue.py
+++ b/hexrd/core/fitting/calibration/laue.py
@@ -436,8 +436,8 @@ class LaueCalibrator(AbstractGrainCalibrator):
         pick_xys_dict = {}
         for det_key in self.instr.detectors:
             # find valid reflections and recast hkls to int
-            xys = np.asarray(data_dict['pick_xys'][det_key], dtype=float)
-            hkls = np.asarray(data_dict['hkls'][det_key], dtype=int)
+            xys = np.asarray(data_dict['pick_xys'][det_key], dtype=float).reshape(-1, 2)
+            hkls = np.asarray(data_dict['hkls'][det_key], dtype=int).reshape(-1, 3)
 
             valid_idx = ~np.isnan(xys[:, 0])
 
diff --git a/hexrd/hedm/fitting/calibration/grain.py b/hexrd/hedm/fitting/calibration/grain.py
index 15bfacf..121e9a3 100644
--- a/hexrd/hedm/fitting/calibration/grain.py
+++ b/hexrd/hedm/fitting/calibration/grain.py
@@ -59,8 +59,8 @@ class GrainCalibrator(AbstractGrainCalibrator):
         pick_xys_dict = {}
         for det_key in self.instr.detectors:
             # find valid reflections and recast hkls to int
-            xys = np.asarray(data_dict['pick_xys'][det_key], dtype=float)
-            hkls = np.asarray(data_dict['hkls'][det_key], dtype=int)
+            xys = np.asarray(data_dict['pick_xys'][det_key], dtype=float).reshape(-1, 3)
+            hkls = np.asarray(data_dict['hkls'][det_key], dtype=int).reshape(-1, 3)
 
             valid_idx = ~np.isnan(xys[:, 0])
 
diff --git a/hexrd/laue/fitting/calibration/laue.py b/hexrd/laue/fitting/calibration/laue.py
index 7d58f05..a2698c9 100644
--- a/hexrd/laue/fitting/calibration/laue.py
+++ b/hexrd/laue/fitting/calibration/laue.py
@@ -444,8 +444,8 @@ class LaueCalibrator(AbstractGrainCalibrator):
         pick_xys_dict = {}
         for det_key in self.instr.detectors:
             # find valid reflections and recast hkls to int
-            xys = np.asarray(data_dict['pick_xys'][det_key], dtype=float)
-            hkls = np.asarray(data_dict['hkls'][det_key], dtype=int)
+            xys = np.asarray(data_dict['pick_xys'][det_key], dtype=float).reshape(-1, 2)
+            hkls = np.asarray(data_dict['hkls'][det_key], dtype=int).reshape(-1, 3)
 
             valid_idx = ~np.isnan(xys[:, 0])
 
-- 
2.43.0


From 1fc5398469f73322de531138fab6c2c4d7c5cddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 084/152] fix: several grains of one material can be calibrated
 together

---
 hexrd/core/fitting/calibration/abstract_grain.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/fitting/calibration/abstract_grain.py b/hexrd/core/fitting/calibration/abstract_grain.py
index 5ee41ed..7bacb52 100644
--- a/hexrd/core/fitting/calibration/abstract_grain.py
+++ b/hexrd/core/fitting/calibration/abstract_grain.py
@@ -12,6 +12,7 @@ from hexrd.core.utils.hkl import hkl_to_str, str_to_hkl
 from .calibrator import Calibrator
 from .lmfit_param_handling import (
     create_grain_params,
+    grain_param_names,
     DEFAULT_EULER_CONVENTION,
     rename_to_avoid_collision,
 )
@@ -47,8 +48,17 @@ class AbstractGrainCalibrator(Calibrator):
         pass
 
     def create_lmfit_params(self, current_params):
+        # Several grains of one material need different names. The number
+        # goes last: lmfit does not accept names that start with a digit.
+        taken = {x[0] for x in current_params}
+        stem = base_name = self.name.replace('-', '_')
+        i = 1
+        while taken.intersection(grain_param_names(base_name)):
+            i += 1
+            base_name = f'{stem}_{i}'
+
         params = create_grain_params(
-            self.name,
+            base_name,
             self.grain_params_euler,
             refinements=self.default_refinements,
         )
-- 
2.43.0


From 79775e5953b90b11533bbb102d4608e36400fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 085/152] fix: Laue calibration residuals use the sample
 translation of the instrument

---
 hexrd/core/fitting/calibration/laue.py | 1 +
 hexrd/laue/fitting/calibration/laue.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/hexrd/core/fitting/calibration/laue.py b/hexrd/core/fitting/calibration/laue.py
index 5eb770a..7fe4d8b 100644
--- a/hexrd/core/fitting/calibration/laue.py
+++ b/hexrd/core/fitting/calibration/laue.py
@@ -515,6 +515,7 @@ def sxcal_obj_func(
             [hkls_idx[det_key], bmat],
             minEnergy=energy_cutoffs[0],
             maxEnergy=energy_cutoffs[1],
+            tvec_s=instr.tvec,
             grain_params=grain_params,
             beam_vec=instr.beam_vector,
         )
diff --git a/hexrd/laue/fitting/calibration/laue.py b/hexrd/laue/fitting/calibration/laue.py
index a2698c9..095b8db 100644
--- a/hexrd/laue/fitting/calibration/laue.py
+++ b/hexrd/laue/fitting/calibration/laue.py
@@ -523,6 +523,7 @@ def sxcal_obj_func(
             [hkls_idx[det_key], bmat],
             minEnergy=energy_cutoffs[0],
             maxEnergy=energy_cutoffs[1],
+            tvec_s=instr.tvec,
             grain_params=grain_params,
             beam_vec=instr.beam_vector,
         )
-- 
2.43.0


From 3aea1faf2fd227f9254f612abadba6560fe31068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 086/152] fix: grain calibrators accept the default Euler
 convention

---
 hexrd/core/fitting/calibration/abstract_grain.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/fitting/calibration/abstract_grain.py b/hexrd/core/fitting/calibration/abstract_grain.py
index 7bacb52..59a1988 100644
--- a/hexrd/core/fitting/calibration/abstract_grain.py
+++ b/hexrd/core/fitting/calibration/abstract_grain.py
@@ -109,6 +109,14 @@ class AbstractGrainCalibrator(Calibrator):
     def strain_param_names(self) -> list[str]:
         return self.param_names[6:]
 
+    @property
+    def _euler_kwargs(self) -> dict:
+        # The convention can be given as (axes_order, extrinsic) as well
+        if isinstance(self.euler_convention, dict):
+            return self.euler_convention
+        axes_order, extrinsic = self.euler_convention
+        return {'axes_order': axes_order, 'extrinsic': extrinsic}
+
     @property
     def grain_params_euler(self):
         # Grain parameters with orientation set using Euler angle convention
@@ -116,7 +124,7 @@ class AbstractGrainCalibrator(Calibrator):
             return self.grain_params
 
         grain_params = self.grain_params.copy()
-        rme = RotMatEuler(np.zeros(3), **self.euler_convention)
+        rme = RotMatEuler(np.zeros(3), **self._euler_kwargs)
         rme.rmat = xfcapi.make_rmat_of_expmap(grain_params[:3])
         grain_params[:3] = np.degrees(rme.angles)
         return grain_params
@@ -130,7 +138,7 @@ class AbstractGrainCalibrator(Calibrator):
                 np.zeros(
                     3,
                 ),
-                **self.euler_convention
+                **self._euler_kwargs
             )
             rme.angles = np.radians(grain_params[:3])
             phi, n = angleAxisOfRotMat(rme.rmat)
-- 
2.43.0


From dc2647115df3205ee6543aff9783137c68b8168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 087/152] fix: grains are fitted with beams whose energy varies
 with position

---
 hexrd/hedm/fitting/grains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/fitting/grains.py b/hexrd/hedm/fitting/grains.py
index b41e583..a11900e 100644
--- a/hexrd/hedm/fitting/grains.py
+++ b/hexrd/hedm/fitting/grains.py
@@ -229,7 +229,7 @@ def objFuncFitGrain(
         wavelength,
         energy_correction,
         tVec_s,
-        tVec_c,
+        gFull[3:6],
     )
 
     # loop over instrument panels
-- 
2.43.0


From e462d9f562a901beb424c5b35729f38c214b274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 088/152] fix: the 2theta tolerance given to a powder
 calibrator is used

---
 hexrd/core/fitting/calibration/powder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/fitting/calibration/powder.py b/hexrd/core/fitting/calibration/powder.py
index 019c7de..957c527 100644
--- a/hexrd/core/fitting/calibration/powder.py
+++ b/hexrd/core/fitting/calibration/powder.py
@@ -51,7 +51,7 @@ class PowderCalibrator(Calibrator):
         if tth_tol is not None:
             # This modifies the width on the plane data. Default to whatever
             # is on the plane data, so only set it if it is not None.
-            self.tth_tol = tth_tol
+            self.plane_data.tThWidth = np.radians(tth_tol)
 
         self.eta_tol = eta_tol
         self.fwhm_estimate = fwhm_estimate
-- 
2.43.0


From 97fb33e2b29f15baaa0691e305d28994b468d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 089/152] fix: the strain broadening terms of trigonal P
 crystals are found

---
 hexrd/powder/wppf/wppfsupport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/powder/wppf/wppfsupport.py b/hexrd/powder/wppf/wppfsupport.py
index 9ec37a7..f504af0 100644
--- a/hexrd/powder/wppf/wppfsupport.py
+++ b/hexrd/powder/wppf/wppfsupport.py
@@ -570,7 +570,7 @@ def _required_shkl_names(mat):
         this is a trigonal group so the hexagonal
         constants are valid
         """
-        latticetype = "haxagonal"
+        latticetype = "hexagonal"
         trig_ptype = True
 
     rqd_index = _rqd_shkl[latticetype][0]
-- 
2.43.0


From 377e1fe186c36e9de5fc43b2849910d8c320bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 090/152] fix: equivalent hexagonal and trigonal reflections
 have the same strain broadening

---
 hexrd/powder/wppf/wppfsupport.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hexrd/powder/wppf/wppfsupport.py b/hexrd/powder/wppf/wppfsupport.py
index f504af0..d4553e1 100644
--- a/hexrd/powder/wppf/wppfsupport.py
+++ b/hexrd/powder/wppf/wppfsupport.py
@@ -591,20 +591,20 @@ _rqd_shkl = {
     "cubic": [(0, 3), ((0, 1, 1.0), (0, 2, 1.0), (3, 4, 1.0), (3, 5, 1.0))],
     "hexagonal": [
         (0, 2, 4),
-        ((0, 1, 1.0), (0, 6, 2.0), (0, 9, 2.0), (0, 3, 3.0), (4, 5, 1.0), (4, 14, 1.0)),
+        ((0, 1, 1.0), (0, 6, 1.0), (0, 9, 1.0), (0, 3, 1.0), (4, 5, 1.0), (4, 14, 0.75)),
     ],
     "trigonal": [
         (0, 2, 4, 10),
         (
             (0, 1, 1.0),
-            (0, 6, 2.0),
-            (0, 9, 2.0),
-            (0, 3, 3.0),
+            (0, 6, 1.0),
+            (0, 9, 1.0),
+            (0, 3, 1.0),
             (4, 5, 1.0),
-            (4, 14, 1.0),
+            (4, 14, 0.75),
             (10, 8, -1.0),
-            (10, 12, 1.5),
-            (10, 13, -1.5),
+            (10, 12, 0.75),
+            (10, 13, -0.75),
         ),
     ],
     "tetragonal": [(0, 2, 3, 4), ((0, 1, 1.0), (4, 5, 1.0))],
-- 
2.43.0


From 195f93aaf84f7890f7b93a4ce0e161737bdb4ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 091/152] fix: the axial divergence weight of Finger, Cox and
 Jephcoat vanishes at the end of the profile

---
 hexrd/powder/wppf/peakfunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hexrd/powder/wppf/peakfunctions.py b/hexrd/powder/wppf/peakfunctions.py
index 8a50fad..e86a51b 100644
--- a/hexrd/powder/wppf/peakfunctions.py
+++ b/hexrd/powder/wppf/peakfunctions.py
@@ -400,14 +400,14 @@ def _func_W(HoL, SoL, tau, tau_min, tau_infl, tth):
         if tau >= 0.0 and tau <= tau_infl:
             res = 2.0 * min(HoL, SoL)
         elif tau > tau_infl and tau <= tau_min:
-            res = HoL + SoL + _func_h(tau, tth)
+            res = HoL + SoL - _func_h(tau, tth)
         else:
             res = 0.0
     else:
         if tau <= 0.0 and tau >= tau_infl:
             res = 2.0 * min(HoL, SoL)
         elif tau < tau_infl and tau >= tau_min:
-            res = HoL + SoL + _func_h(tau, tth)
+            res = HoL + SoL - _func_h(tau, tth)
         else:
             res = 0.0
     return res
@@ -453,7 +453,7 @@ def pvfcj(
 
     tau = tau_min * xn
 
-    cx = np.cos(tau)
+    cx = np.cos(tth_r - tau)
     res = np.zeros(tth_list.shape)
     den = 0.0
 
-- 
2.43.0


From 53a467308b396685f0b87e0f671d2a3fa2be5a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 092/152] fix: Le Bail intensities are not read outside of the
 masked profile

---
 hexrd/powder/wppf/peakfunctions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/hexrd/powder/wppf/peakfunctions.py b/hexrd/powder/wppf/peakfunctions.py
index e86a51b..88c100f 100644
--- a/hexrd/powder/wppf/peakfunctions.py
+++ b/hexrd/powder/wppf/peakfunctions.py
@@ -1061,7 +1061,6 @@ def calc_Iobs_pvfcj(
         )
 
         y = Ic * pv
-        y = y[mask]
 
         Iobs[ii] = np.trapezoid(yo * y / yc, tth_list_mask)
 
@@ -1113,7 +1112,6 @@ def calc_Iobs_pvtch(
         pv = pvoight_wppf(uvw, p, xy, xs, shkl, eta_mixing, t, d, g, tth_list_mask)
 
         y = Ic * pv
-        y = y[mask]
 
         Iobs[ii] = np.trapezoid(yo * y / yc, tth_list_mask)
 
@@ -1180,7 +1178,6 @@ def calc_Iobs_pvpink(
         )
 
         y = Ic * pv
-        y = y[mask]
 
         Iobs[ii] = np.trapezoid(yo * y / yc, tth_list_mask)
 
@@ -1245,7 +1242,6 @@ def calc_Iobs_pvexponential(
         )
 
         y = Ic * pv
-        y = y[mask]
 
         Iobs[ii] = np.trapezoid(yo * y / yc, tth_list_mask)
 
@@ -1310,7 +1306,6 @@ def calc_Iobs_pvheating(
         )
 
         y = Ic * pv
-        y = y[mask]
 
         Iobs[ii] = np.trapezoid(yo * y / yc, tth_list_mask)
 
-- 
2.43.0


From 2e151d3aa1672d65f361956b53df519cbd51c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 093/152] fix: split profiles are not doubled at their centre

---
 hexrd/powder/wppf/peakfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/powder/wppf/peakfunctions.py b/hexrd/powder/wppf/peakfunctions.py
index 88c100f..894a145 100644
--- a/hexrd/powder/wppf/peakfunctions.py
+++ b/hexrd/powder/wppf/peakfunctions.py
@@ -258,7 +258,7 @@ def _split_unit_gaussian(p, x):
     sigma_r = fwhm_r / gauss_width_fact
 
     heav_l = _heaviside(x0 - x, 1.0)
-    heav_r = _heaviside(x - x0, 1.0)
+    heav_r = _heaviside(x - x0, 0.0)
 
     p_l = np.array([x0, fwhm_l])
     p_r = np.array([x0, fwhm_r])
@@ -305,7 +305,7 @@ def _split_unit_pv(p, x):
     fwhm_l_r = p[4]
 
     heav_l = _heaviside(x0 - x, 1.0)
-    heav_r = _heaviside(x - x0, 1.0)
+    heav_r = _heaviside(x - x0, 0.0)
 
     eta_l, fwhm_l = _mixing_factor_pv(fwhm_g_l, fwhm_l_l)
     eta_r, fwhm_r = _mixing_factor_pv(fwhm_g_r, fwhm_l_r)
-- 
2.43.0


From d39475f1a0acf8b1ed9a7b7615efcd66b7f44ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 094/152] fix: the Rietveld polarization factor follows its
 parameter and the lattice

---
 hexrd/powder/wppf/WPPF.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hexrd/powder/wppf/WPPF.py b/hexrd/powder/wppf/WPPF.py
index 886dfc2..ca70ec9 100644
--- a/hexrd/powder/wppf/WPPF.py
+++ b/hexrd/powder/wppf/WPPF.py
@@ -1860,6 +1860,7 @@ class Rietveld(AbstractWPPF):
         will replace part of the code in the computespectrum
         function
         '''
+        self.PolarizationFactor()
         Ic = {}
         for iph, p in enumerate(self.phases):
             Ic[p] = {}
-- 
2.43.0


From 2c23715b8319d2d34d73e08895ca53da2d7eb696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 095/152] fix: Rietveld structure factors belong to the
 reflections of the measured range

---
 hexrd/powder/wppf/WPPF.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hexrd/powder/wppf/WPPF.py b/hexrd/powder/wppf/WPPF.py
index ca70ec9..9e042f1 100644
--- a/hexrd/powder/wppf/WPPF.py
+++ b/hexrd/powder/wppf/WPPF.py
@@ -1826,9 +1826,12 @@ class Rietveld(AbstractWPPF):
                 w = l[0].getVal("nm")
                 w_int = l[1]
                 tth = self.tth[p][k]
-                # allowed = self.phases[p][k].wavelength_allowed_hkls
-                # limit = self.limit[p][k]
-                self.sf[p][k], self.sf_raw[p][k] = self.phases[p][k].CalcXRSF(w, w_int)
+                allowed = self.phases[p][k].wavelength_allowed_hkls
+                limit = self.limit[p][k]
+                sf, sf_raw = self.phases[p][k].CalcXRSF(w, w_int)
+                # keep the factors of the reflections in `self.tth`
+                self.sf[p][k] = sf[allowed][limit]
+                self.sf_raw[p][k] = sf_raw[allowed][limit]
 
                 self.extinction[p][k] = self.phases[p][k].calc_extinction(
                     10.0 * w,
-- 
2.43.0


From a824d0b9c02a2cc36cceadc391d996fb49072534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 096/152] fix: Rietveld multiplicities of non-centrosymmetric
 crystals count Friedel mates

---
 hexrd/powder/wppf/phase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hexrd/powder/wppf/phase.py b/hexrd/powder/wppf/phase.py
index 0709a3b..380554e 100644
--- a/hexrd/powder/wppf/phase.py
+++ b/hexrd/powder/wppf/phase.py
@@ -691,7 +691,10 @@ class Material_Rietveld(Material_LeBail):
         return v_out
 
     def getMultiplicity(self, hkls):
-        return np.array([self.CalcStar(g, 'r').shape[0] for g in hkls])
+        # powder rings hold the Friedel mates of all crystals
+        return np.array(
+            [self.CalcStar(g, 'r', applyLaue=True).shape[0] for g in hkls]
+        )
 
     def CalcPositions(self):
         """
-- 
2.43.0


From 2153b2c60848bb2029b9937e28d03260e8663e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 097/152] fix: refined atom positions of a Rietveld phase move
 its atoms

---
 hexrd/powder/wppf/WPPF.py  | 3 ++-
 hexrd/powder/wppf/phase.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/hexrd/powder/wppf/WPPF.py b/hexrd/powder/wppf/WPPF.py
index 9e042f1..da50b19 100644
--- a/hexrd/powder/wppf/WPPF.py
+++ b/hexrd/powder/wppf/WPPF.py
@@ -1740,7 +1740,7 @@ class Rietveld(AbstractWPPF):
                     else:
                         dw = f"{p}_{elem}{atom_label[i]}_dw"
 
-                    atominfo_vary = force or any(
+                    atominfo_vary = atominfo_vary or any(
                         params[name].vary for name in (nx, ny, nz, oc)
                     )
                     x = params[nx].value
@@ -1771,6 +1771,7 @@ class Rietveld(AbstractWPPF):
                     updated_lp = True
 
                 if atominfo_vary:
+                    mat.CalcPositions()
                     updated_atominfo = True
 
         if updated_lp:
diff --git a/hexrd/powder/wppf/phase.py b/hexrd/powder/wppf/phase.py
index 380554e..82269b8 100644
--- a/hexrd/powder/wppf/phase.py
+++ b/hexrd/powder/wppf/phase.py
@@ -567,10 +567,10 @@ class Material_Rietveld(Material_LeBail):
         self.wavelength = material_obj.unitcell.wavelength
 
         # asymmetric atomic positions
-        self.atom_pos = material_obj.unitcell.atom_pos
+        self.atom_pos = np.array(material_obj.unitcell.atom_pos)
 
         # Debye-Waller factors including anisotropic ones
-        self.U = material_obj.unitcell.U
+        self.U = np.array(material_obj.unitcell.U)
         self.aniU = False
         if self.U.ndim > 1:
             self.aniU = True
-- 
2.43.0


From 304ae723b6e788b065a591e1525925a839ac3818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 098/152] fix: a Spectrum can be given as the measured spectrum
 of a powder fit

---
 hexrd/powder/wppf/WPPF.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hexrd/powder/wppf/WPPF.py b/hexrd/powder/wppf/WPPF.py
index da50b19..e214ba0 100644
--- a/hexrd/powder/wppf/WPPF.py
+++ b/hexrd/powder/wppf/WPPF.py
@@ -346,10 +346,11 @@ class AbstractWPPF(ABC):
                 """
                 self._spectrum_expt = [expt_spectrum]
                 # self._spectrum_expt.nan_to_zero()
-                self.global_index = [(0, expt_spectrum.shape[0])]
+                self.global_shape = expt_spectrum.x.shape[0]
+                self.global_index = [(0, self.global_shape)]
                 self.global_mask = np.zeros(
                     [
-                        expt_spectrum.shape[0],
+                        self.global_shape,
                     ],
                     dtype=bool,
                 )
-- 
2.43.0


From 3a303bbc53af625d39a803db3235b4d5446665e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 099/152] fix: Sabine's Laue extinction factor is continuous

---
 hexrd/powder/wppf/xtal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/powder/wppf/xtal.py b/hexrd/powder/wppf/xtal.py
index acd6a9a..8fec94c 100644
--- a/hexrd/powder/wppf/xtal.py
+++ b/hexrd/powder/wppf/xtal.py
@@ -199,7 +199,7 @@ def _calc_laue_factor(x, tth):
     if x <= 1.0:
         El = 1.0 - 0.5 * x + 0.25 * x**2 - (5.0 / 48.0) * x**3 + (7.0 / 192.0) * x**4
     else:
-        El = (2.0 / np.pi / x) ** 2 * (
+        El = np.sqrt(2.0 / np.pi / x) * (
             1.0
             - (1 / 8.0 / x)
             - (3.0 / 128.0) * (1.0 / x) ** 2
-- 
2.43.0


From bc42d6d7b06429060a21425ebc471e584ed79360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:07 +0000
Subject: [PATCH 100/152] fix: the background given to a Spectrum is subtracted

---
 hexrd/powder/wppf/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/powder/wppf/spectrum.py b/hexrd/powder/wppf/spectrum.py
index fab744b..ab9a9f7 100644
--- a/hexrd/powder/wppf/spectrum.py
+++ b/hexrd/powder/wppf/spectrum.py
@@ -59,10 +59,10 @@ class Spectrum:
         np.savetxt(filename, data[0], header=header)
 
     def set_background(self, Spectrum):
-        self.bkg_spectrum = Spectrum
+        self.bkg_Spectrum = Spectrum
 
     def reset_background(self):
-        self.bkg_spectrum = None
+        self.bkg_Spectrum = None
 
     def set_smoothing(self, amount):
         self.smoothing = amount
-- 
2.43.0


From 76981f634f90e98cfc77d9d95715135d1167bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:45 +0000
Subject: [PATCH 101/152] fix: pink beam profiles are convolutions with
 back-to-back exponentials

---
 hexrd/core/fitting/peakfunctions.py | 8 ++++----
 hexrd/powder/wppf/peakfunctions.py  | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hexrd/core/fitting/peakfunctions.py b/hexrd/core/fitting/peakfunctions.py
index 6dee7ec..f4c5343 100644
--- a/hexrd/core/fitting/peakfunctions.py
+++ b/hexrd/core/fitting/peakfunctions.py
@@ -483,9 +483,9 @@ def _gaussian_pink_beam(p, x):
     g = np.zeros(x.shape)
     zmask = np.abs(del_tth) > 5.0
 
-    g[~zmask] = (0.5 * (alpha * beta) / (alpha + beta)) * np.exp(u[~zmask]) * t1[
-        ~zmask
-    ] + np.exp(v[~zmask]) * t2[~zmask]
+    g[~zmask] = (0.5 * (alpha * beta) / (alpha + beta)) * (
+        np.exp(u[~zmask]) * t1[~zmask] + np.exp(v[~zmask]) * t2[~zmask]
+    )
     mask = np.isnan(g)
     g[mask] = 0.0
     g *= A / g.max()
@@ -511,7 +511,7 @@ def _lorentzian_pink_beam(p, x):
 
     del_tth = x - x0
 
-    p = -alpha * del_tth + 1j * 0.5 * alpha * fwhm_l
+    p = alpha * del_tth + 1j * 0.5 * alpha * fwhm_l
     q = -beta * del_tth + 1j * 0.5 * beta * fwhm_l
 
     y = np.zeros(x.shape)
diff --git a/hexrd/powder/wppf/peakfunctions.py b/hexrd/powder/wppf/peakfunctions.py
index 894a145..e3054b5 100644
--- a/hexrd/powder/wppf/peakfunctions.py
+++ b/hexrd/powder/wppf/peakfunctions.py
@@ -520,7 +520,7 @@ def _gaussian_pink_beam(alpha, beta, fwhm_g, tth, tth_list):
     t2 = erfc(z)
     g = np.zeros(tth_list.shape)
 
-    g = (0.5 * (alpha * beta) / (alpha + beta)) * np.exp(u) * t1 + np.exp(v) * t2
+    g = (0.5 * (alpha * beta) / (alpha + beta)) * (np.exp(u) * t1 + np.exp(v) * t2)
     mask = np.isnan(g)
     g[mask] = 0.0
 
@@ -538,7 +538,7 @@ def _lorentzian_pink_beam(alpha, beta, fwhm_l, tth, tth_list):
     Von Dreele et. al., J. Appl. Cryst. (2021). 54, 3–6
     """
     del_tth = tth_list - tth
-    p = -alpha * del_tth + 1j * 0.5 * alpha * fwhm_l
+    p = alpha * del_tth + 1j * 0.5 * alpha * fwhm_l
     q = -beta * del_tth + 1j * 0.5 * beta * fwhm_l
 
     f1 = exp1exp(p)
-- 
2.43.0


From 54f951de0f0283a31778b33d7b70ea8b290569bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 102/152] fix: strain broadening terms of a phase are not taken
 from the phase before it

---
 hexrd/powder/wppf/WPPF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/powder/wppf/WPPF.py b/hexrd/powder/wppf/WPPF.py
index e214ba0..329f2c1 100644
--- a/hexrd/powder/wppf/WPPF.py
+++ b/hexrd/powder/wppf/WPPF.py
@@ -227,9 +227,9 @@ class AbstractWPPF(ABC):
         them using the params arg. else use values from
         the parameter class
         """
-        shkl_dict = {}
         for p in self.phases:
             for k in self.phases.wavelength:
+                shkl_dict = {}
                 phase = self._get_phase(p, k)
                 shkl_name = phase.valid_shkl
                 eq_const = phase.eq_constraints
-- 
2.43.0


From 975c5348ac42393f526a56712d3ddf5beff94ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 103/152] fix: March-Dollase parameters of all phases are
 updated

---
 hexrd/powder/wppf/WPPF.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/hexrd/powder/wppf/WPPF.py b/hexrd/powder/wppf/WPPF.py
index 329f2c1..af2f9f1 100644
--- a/hexrd/powder/wppf/WPPF.py
+++ b/hexrd/powder/wppf/WPPF.py
@@ -1775,21 +1775,18 @@ class Rietveld(AbstractWPPF):
                     mat.CalcPositions()
                     updated_atominfo = True
 
+            # In case March-Dollase texture parameters were used, we can
+            # update those here
+            name = f"{p}_p_md"
+            if name in params:
+                self.texture_model[p].P_MD = params[name].value
+
         if updated_lp:
             self.calctth()
 
         if updated_lp or updated_atominfo:
             self.calcsf()
 
-        """
-        In case March-Dollase texture parameters were used, we can
-        update those here
-        """
-        name = f"{pre}p_md"
-        if name in params:
-            val = params[name].value
-            self.texture_model[p].P_MD = val
-
         self.phases.phase_fraction = pf / np.sum(pf)
 
     def on_smoothing_modified(self):
-- 
2.43.0


From bc33adbcc53ab77009026c6320dce267d823b2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 104/152] fix: Rietveld atoms outside of the unit cell are
 counted once

---
 hexrd/powder/wppf/phase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hexrd/powder/wppf/phase.py b/hexrd/powder/wppf/phase.py
index 82269b8..74a06b3 100644
--- a/hexrd/powder/wppf/phase.py
+++ b/hexrd/powder/wppf/phase.py
@@ -708,7 +708,7 @@ class Material_Rietveld(Material_LeBail):
         for i in range(self.atom_ntype):
             n = 1
             r = self.atom_pos[i, 0:3]
-            r = np.hstack((r, 1.0))
+            r = np.hstack((np.mod(r, 1.0), 1.0))
 
             asym_pos.append(np.broadcast_to(r[0:3], [1, 3]))
 
@@ -726,7 +726,8 @@ class Material_Rietveld(Material_LeBail):
                 # check if this is new
                 isnew = True
                 for j in range(n):
-                    if np.sum(np.abs(rr - asym_pos[i][j, :])) < 1e-4:
+                    diff = rr - asym_pos[i][j, :]
+                    if np.sum(np.abs(diff - np.round(diff))) < 1e-4:
                         isnew = False
                         break
 
-- 
2.43.0


From 199116b012faf037f2365c08be74809b18652d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 105/152] fix: Rietveld phases can contain elements beyond
 uranium

---
 hexrd/powder/wppf/phase.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hexrd/powder/wppf/phase.py b/hexrd/powder/wppf/phase.py
index 74a06b3..d733949 100644
--- a/hexrd/powder/wppf/phase.py
+++ b/hexrd/powder/wppf/phase.py
@@ -749,9 +749,17 @@ class Material_Rietveld(Material_LeBail):
             for i in range(0, self.atom_ntype):
                 Z = self.atom_type[i]
                 elem = constants.ptableinverse[Z]
-                gid = fid.get('/' + elem)
-                data = np.array(gid.get('data'))
-                data = data[:, [7, 1, 2]]
+                if Z <= 92:
+                    gid = fid.get('/' + elem)
+                    data = np.array(gid.get('data'))
+                    data = data[:, [7, 1, 2]]
+                else:
+                    # not tabulated: no anomalous scattering,
+                    # the same as for the unit cell
+                    wav = np.linspace(1.16e2, 2.86399992e-03, 189)
+                    data = np.vstack(
+                        (wav, np.full_like(wav, Z), np.zeros_like(wav))
+                    ).T
                 f_anomalous_data.append(data)
 
         n = max([x.shape[0] for x in f_anomalous_data])
@@ -791,8 +799,9 @@ class Material_Rietveld(Material_LeBail):
             Z = self.atom_type[i]
             elem = constants.ptableinverse[Z]
             scatfac[i, :] = constants.scatfac[elem]
-            frel[i] = constants.frel[elem]
-            fNT[i] = constants.fNT[elem]
+            if Z <= 92:
+                frel[i] = constants.frel[elem]
+                fNT[i] = constants.fNT[elem]
 
         self.asym_pos_arr = np.zeros([self.numat.max(), self.atom_ntype, 3])
         for i in range(0, self.atom_ntype):
-- 
2.43.0


From 1d94beefa2cea35ecababd45e4fc915554a98498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:16 +0000
Subject: [PATCH 106/152] fix: pinhole distortions are computed, on the side of
 the pinhole that faces the point

---
 hexrd/hed/xrdutil/phutil.py | 40 +++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/hexrd/hed/xrdutil/phutil.py b/hexrd/hed/xrdutil/phutil.py
index e50b8ea..c038e41 100644
--- a/hexrd/hed/xrdutil/phutil.py
+++ b/hexrd/hed/xrdutil/phutil.py
@@ -312,6 +312,22 @@ tth_corr_sample_layer = tth_corr_layer
 tth_corr_map_sample_layer = tth_corr_map_layer
 
 
+def _pinhole_axis(bvec):
+    """The direction of the pinhole axis, downstream"""
+    return np.array([0.0, 0.0, np.sign(bvec[2])])
+
+
+def _pinhole_edge(eta, axis, pinhole_thickness, pinhole_radius):
+    """The point of the back (downstream) edge opposite of the azimuth eta"""
+    return np.array(
+        [
+            -pinhole_radius * np.cos(eta),
+            -pinhole_radius * np.sin(eta),
+            0.5 * pinhole_thickness * axis[2],
+        ]
+    )
+
+
 def tth_corr_pinhole(
     panel, xy_pts, pinhole_thickness, pinhole_radius, return_nominal=True
 ):
@@ -346,7 +362,8 @@ def tth_corr_pinhole(
 
     # first we need the reference etas of the points wrt the pinhole axis
     cp_det = copy.deepcopy(panel)
-    cp_det.bvec = np.sign(cp_det.bvec[2]) * ct.beam_vec  # !!! [0, 0, -1]
+    cp_det.bvec = _pinhole_axis(panel.bvec)
+    cp_det.evec = ct.lab_x
     ref_angs, _ = cp_det.cart_to_angles(
         xy_pts, rmat_s=None, tvec_s=None, tvec_c=None, apply_distortion=True
     )
@@ -362,11 +379,11 @@ def tth_corr_pinhole(
     for i, (pxy, reta) in enumerate(zip(xy_pts, ref_eta)):
         # !!! JHE used pinhole center, but the back surface
         #     seems to hew a bit closer to JRR's solution
-        origin = -pinhole_radius * np.array(
-            [np.cos(reta), np.sin(reta), 0.5 * pinhole_thickness]
+        origin = _pinhole_edge(reta, cp_det.bvec, pinhole_thickness, pinhole_radius)
+        angs, _ = panel.cart_to_angles(
+            np.atleast_2d(pxy), tvec_c=origin, apply_distortion=True
         )
-        angs, _ = panel.cart_to_angles(np.atleast_2d(pxy), tvec_c=origin)
-        pin_tth[i] = angs[:, 0]
+        pin_tth[i] = angs[0, 0]
     tth_corr = pin_tth - nom_tth
     if return_nominal:
         return np.vstack([nom_tth - tth_corr, nom_angs[:, 1]]).T
@@ -399,7 +416,8 @@ def tth_corr_map_pinhole(instrument, pinhole_thickness, pinhole_radius):
     The follows a slightly modified version of Jon Eggert's pinhole correction.
     """
     cp_instr = copy.deepcopy(instrument)
-    cp_instr.beam_vector = np.sign(cp_det.bvec[2]) * ct.beam_vec  # !!! [0, 0, -1]
+    cp_instr.beam_vector = _pinhole_axis(instrument.beam_vector)
+    cp_instr.eta_vector = ct.lab_x
 
     tth_corr = dict.fromkeys(instrument.detectors)
     for det_key, panel in instrument.detectors.items():
@@ -414,11 +432,13 @@ def tth_corr_map_pinhole(instrument, pinhole_thickness, pinhole_radius):
         for i, (pxy, reta) in enumerate(zip(pcrds, ref_peta)):
             # !!! JHE used pinhole center, but the back surface
             #     seems to hew a bit closer to JRR's solution
-            origin = -pinhole_radius * np.array(
-                [np.cos(reta), np.sin(reta), 0.5 * pinhole_thickness]
+            origin = _pinhole_edge(
+                reta, cp_instr.beam_vector, pinhole_thickness, pinhole_radius
+            )
+            angs, _ = panel.cart_to_angles(
+                np.atleast_2d(pxy), tvec_c=origin, apply_distortion=True
             )
-            angs, _ = panel.cart_to_angles(np.atleast_2d(pxy), tvec_c=origin)
-            new_ptth[i] = angs[:, 0]
+            new_ptth[i] = angs[0, 0]
         tth_corr[det_key] = new_ptth.reshape(panel.shape) - nom_ptth
     return tth_corr
 
-- 
2.43.0


From 8fbf56011110b78063fe19f0248b71c1c2dffa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:16 +0000
Subject: [PATCH 107/152] fix: transmission through the sample follows the
 azimuth reference of the panel

---
 hexrd/core/instrument/detector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 5819d6c..697c66c 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1754,7 +1754,7 @@ class Detector:
             (tth.flatten(), eta.flatten(), np.zeros(tth.flatten().shape))
         ).T
 
-        dvecs = angles_to_dvec(angs, beam_vec=bvec)
+        dvecs = angles_to_dvec(angs, beam_vec=bvec, eta_vec=self.evec)
 
         cosb = np.dot(dvecs, sample_normal)
         '''angles for which secb <= 0 or close are diffracted beams
@@ -1798,7 +1798,7 @@ class Detector:
             (tth.flatten(), eta.flatten(), np.zeros(tth.flatten().shape))
         ).T
 
-        dvecs = angles_to_dvec(angs, beam_vec=bvec)
+        dvecs = angles_to_dvec(angs, beam_vec=bvec, eta_vec=self.evec)
 
         cosb = np.dot(dvecs, sample_normal)
         '''angles for which secb <= 0 or close are diffracted beams
@@ -1844,7 +1844,7 @@ class Detector:
             (tth.flatten(), eta.flatten(), np.zeros(tth.flatten().shape))
         ).T
 
-        dvecs = angles_to_dvec(angs, beam_vec=bvec)
+        dvecs = angles_to_dvec(angs, beam_vec=bvec, eta_vec=self.evec)
 
         cosb = np.dot(dvecs, sample_normal)
         '''angles for which secb <= 0 or close are diffracted beams
-- 
2.43.0


From c83fd6da827c39774a496f64fe76f04684f68585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:16 +0000
Subject: [PATCH 108/152] fix: transmission is defined where incident and
 diffracted beam pass the sample alike

---
 hexrd/core/instrument/detector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 697c66c..f92319c 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1883,9 +1883,10 @@ class Detector:
         # in microns^-1
         mu_s = 1.0 / physics_package.sample_absorption_length(energy)
         x = mu_s * thickness_s
-        pre = 1.0 / x / (secb - seca)
-        num = np.exp(-x * seca) - np.exp(-x * secb)
-        return pre * num
+        dx = x * (secb - seca)
+        # equal paths in and out of the sample: the limit for dx = 0
+        safe = np.where(dx == 0, 1.0, dx)
+        return np.exp(-x * seca) * np.where(dx == 0, 1.0, -np.expm1(-safe) / safe)
 
     def calc_transmission_window(
         self,
-- 
2.43.0


From 56beb30368e1b220de4828cce47d5747f4f9a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:16 +0000
Subject: [PATCH 109/152] fix: Compton scattering of the window is attenuated
 by the window, and uses the formulas of the layers

---
 hexrd/core/instrument/detector.py | 40 +++++++++++++++++++------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index f92319c..9dd9c66 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -711,11 +711,13 @@ class Detector:
 
         q = self.pixel_Q(energy)
         inc_s = calculate_incoherent_scattering(
-            physics_package.sample_material, q.flatten()
+            _layer_formula(physics_package, 'sample'),
+            q.flatten(),
         ).reshape(self.shape)
 
         inc_w = calculate_incoherent_scattering(
-            physics_package.window_material, q.flatten()
+            _layer_formula(physics_package, 'window'),
+            q.flatten(),
         ).reshape(self.shape)
 
         t_s = self.calc_compton_physics_package_transmission(
@@ -1912,9 +1914,12 @@ class Detector:
         pp_layer: str,
     ) -> NDArray[np.float64]:
         if pp_layer == 'sample':
-            formula = physics_package.sample_material
+            formula = _layer_formula(physics_package, 'sample')
             density = physics_package.sample_density
             thickness = physics_package.sample_thickness
+            if thickness <= 0:
+                return np.ones(self.shape)
+
             mu = 1.0 / physics_package.sample_absorption_length(energy)
             mu_prime = 1.0 / self.pixel_compton_attenuation_length(
                 energy,
@@ -1922,24 +1927,24 @@ class Detector:
                 formula,
             )
         elif pp_layer == 'window':
-            formula = physics_package.window_material
+            formula = _layer_formula(physics_package, 'window')
             if formula is None:
                 return np.ones(self.shape)
 
             density = physics_package.window_density
             thickness = physics_package.window_thickness
-            mu = 1.0 / physics_package.sample_absorption_length(energy)
+            if thickness <= 0:
+                return np.ones(self.shape)
+
+            mu = 1.0 / physics_package.window_absorption_length(energy)
             mu_prime = 1.0 / self.pixel_compton_attenuation_length(
                 energy, density, formula
             )
 
-        if thickness <= 0:
-            return np.ones(self.shape)
-
         x1 = mu * thickness * seca
-        x2 = mu_prime * thickness * secb
-        num = np.exp(-x1) - np.exp(-x2)
-        return -num / (x1 - x2)
+        dx = mu_prime * thickness * secb - x1
+        safe = np.where(dx == 0, 1.0, dx)
+        return np.exp(-x1) * np.where(dx == 0, 1.0, -np.expm1(-safe) / safe)
 
     def calc_compton_transmission_sample(
         self,
@@ -1958,12 +1963,11 @@ class Detector:
         energy: np.floating,
         physics_package: AbstractPhysicsPackage,
     ) -> NDArray[np.float64]:
-        formula = physics_package.window_material
-        if formula is None:
-            return np.ones(self.shape)
-
+        formula = _layer_formula(physics_package, 'window')
         density = physics_package.window_density  # in g/cc
         thickness_w = physics_package.window_thickness  # in microns
+        if formula is None or np.isclose(thickness_w, 0):
+            return np.ones(self.shape)
 
         mu_w_prime = 1.0 / self.pixel_compton_attenuation_length(
             energy, density, formula
@@ -2045,6 +2049,12 @@ class Detector:
 # =============================================================================
 
 
+def _layer_formula(physics_package: AbstractPhysicsPackage, layer: str):
+    # The material name is the formula unless there is a chemical formula
+    formula = getattr(physics_package, f'{layer}_formula', None)
+    return formula or getattr(physics_package, f'{layer}_material')
+
+
 def _fix_indices(idx, lo, hi):
     nidx = np.array(idx)
     off_lo = nidx < lo
-- 
2.43.0


From 656eb6325bcba13fe50130ac3371a16294ff5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:16 +0000
Subject: [PATCH 110/152] fix: incoherent intensities of the elements of a
 compound add up

---
 hexrd/core/material/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/material/utils.py b/hexrd/core/material/utils.py
index f274692..d5ec0dc 100644
--- a/hexrd/core/material/utils.py
+++ b/hexrd/core/material/utils.py
@@ -304,5 +304,5 @@ def calculate_incoherent_scattering(
     norm_elemental_abundances = normalize_composition(formula)
     res: NDArray[np.float64] = np.zeros_like(Q, dtype=np.float64)
     for key, value in norm_elemental_abundances.items():
-        res += (value * calculate_incoherent_scattering_factor(key, Q)) ** 2
+        res += value * calculate_incoherent_scattering_factor(key, Q)
     return res
-- 
2.43.0


From de19292bc988ac74e6f7986ef34bb0390b6b96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 111/152] fix: polar views follow the azimuth reference, and
 the sample position on cylindrical panels

---
 hexrd/core/projections/polar.py | 7 +++++--
 hexrd/hed/xrdutil/utils.py      | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/projections/polar.py b/hexrd/core/projections/polar.py
index 26de5a1..3e4bb66 100644
--- a/hexrd/core/projections/polar.py
+++ b/hexrd/core/projections/polar.py
@@ -227,7 +227,7 @@ class PolarView:
             return _project_on_detector_plane
 
     def _args_project_on_detector(self, gvec_angs, detector):
-        kwargs = {'beamVec': detector.bvec}
+        kwargs = {'beamVec': detector.bvec, 'etaVec': detector.evec}
         arg = (
             gvec_angs,
             detector.rmat,
@@ -239,9 +239,12 @@ class PolarView:
             detector.distortion,
         )
         if detector.detector_type == 'cylindrical':
+            # the diffracted beam directions are in the lab frame
+            chi = 0.0
+            kwargs['tVec_s'] = self.tvec
             arg = (
                 gvec_angs,
-                self.chi,
+                chi,
                 detector.tvec,
                 detector.caxis,
                 detector.paxis,
diff --git a/hexrd/hed/xrdutil/utils.py b/hexrd/hed/xrdutil/utils.py
index c2c07fe..58aa95d 100644
--- a/hexrd/hed/xrdutil/utils.py
+++ b/hexrd/hed/xrdutil/utils.py
@@ -73,12 +73,15 @@ def _project_on_detector_plane(
     tVec_s: np.ndarray,
     distortion: Optional[DistortionABC] = None,
     beamVec: np.ndarray = constants.beam_vec,
+    etaVec: np.ndarray = constants.eta_vec,
 ) -> tuple[np.ndarray, np.ndarray, np.ndarray]:
     """
     utility routine for projecting a list of (tth, eta, ome) onto the
     detector plane parameterized by the args
     """
-    gVec_cs = xfcapi.angles_to_gvec(allAngs, chi=chi, rmat_c=rMat_c, beam_vec=beamVec)
+    gVec_cs = xfcapi.angles_to_gvec(
+        allAngs, chi=chi, rmat_c=rMat_c, beam_vec=beamVec, eta_vec=etaVec
+    )
 
     rMat_ss = xfcapi.make_sample_rmat(chi, allAngs[:, 2])
 
-- 
2.43.0


From ab7af047a79e3f8c7005901ee89bd10efef10de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 112/152] fix: mapping and vector type of a spherical view can
 be set, and are used for polar images

---
 hexrd/core/projections/spherical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/projections/spherical.py b/hexrd/core/projections/spherical.py
index f576404..136713a 100644
--- a/hexrd/core/projections/spherical.py
+++ b/hexrd/core/projections/spherical.py
@@ -43,6 +43,7 @@ class SphericalView:
     def mapping(self, s):
         if s not in self.MAPPING_TYPES:
             raise RuntimeError("mapping specification '%s' is invalid" % s)
+        self._mapping = s
 
     @property
     def vector_type(self):
@@ -52,6 +53,8 @@ class SphericalView:
     def vector_type(self, s):
         if s not in self.VECTOR_TYPES:
             raise RuntimeError("vector type specification '%s' is invalid" % s)
+        self._vector_type = s
+        self.invert_z = s == 'q'
 
     @property
     def output_dim(self):
@@ -176,8 +179,8 @@ class SphericalView:
 
         ppts = zproject_sph_angles(
             angs,
-            method='stereographic',
-            source='d',
+            method=self.mapping,
+            source=self.vector_type,
             invert_z=self.invert_z,
             rmat=self.rmat,
         )
-- 
2.43.0


From 4ce9ff1b2347d580e6f302bf2cdecaf529416477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 113/152] fix: eta-omega maps are projected with etas along the
 rows

---
 hexrd/core/projections/spherical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/projections/spherical.py b/hexrd/core/projections/spherical.py
index 136713a..e09e87d 100644
--- a/hexrd/core/projections/spherical.py
+++ b/hexrd/core/projections/spherical.py
@@ -95,8 +95,8 @@ class SphericalView:
 
         # make grid of output pixel values
         oc, ec = np.meshgrid(
-            np.arange(nrows_in)[::skip],
             np.arange(ncols_in)[::skip],
+            np.arange(nrows_in)[::skip],
             indexing='ij',
         )
 
@@ -133,8 +133,8 @@ class SphericalView:
             # compute piecewise affine transform
             src = np.vstack(
                 [
-                    ec.flatten(),
-                    oc.flatten(),
+                    oc.flatten()[nmask],
+                    ec.flatten()[nmask],
                 ]
             ).T
             dst = np.vstack(
@@ -153,7 +153,7 @@ class SphericalView:
             if len(map_ids) == 1:
                 return wimg
             else:
-                wimgs.append[wimg]
+                wimgs.append(wimg)
         return wimgs
 
     def warp_polar_image(self, pimg, skip=10):
-- 
2.43.0


From f832d71d4a76f7489934a74301e7679de29c3d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:26 +0000
Subject: [PATCH 114/152] fix: inverted scattering vectors can be projected,
 without changing the given vectors

---
 hexrd/hedm/xrdutil/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index f6fe537..af660f5 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -206,7 +206,7 @@ def zproject_sph_angles(
         spts_s = np.dot(spts_s, rmat.T)
 
     if invert_z:
-        spts_s[:, 2] = -spts_s[:, 2]
+        spts_s = spts_s * np.array([1.0, 1.0, -1.0])
 
     # filter based on hemisphere
     if use_mask:
-- 
2.43.0


From 9e6baacc31cd47e166908533f39c4d647edf8e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 115/152] fix: round-off does not shift or drop bins of a polar
 view

---
 hexrd/core/projections/polar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/projections/polar.py b/hexrd/core/projections/polar.py
index 3e4bb66..4081ef0 100644
--- a/hexrd/core/projections/polar.py
+++ b/hexrd/core/projections/polar.py
@@ -460,7 +460,9 @@ def bin_polar_view(
     eta_mi = np.degrees(polar_obj.eta_min)
     eta_ma = np.degrees(polar_obj.eta_max)
 
-    nspec = int((eta_ma - eta_mi) / azimuthal_interval) - 1
+    # angles may be off by round-off
+    nspec = int(np.round((eta_ma - eta_mi) / azimuthal_interval, 8)) - 1
+    nspec = max(nspec, 0)
 
     pv_binned = np.zeros((nspec, pv.shape[1]))
 
@@ -471,8 +473,8 @@ def bin_polar_view(
         start = ((i + 1) * azimuthal_interval - integration_range) / eta_step
         stop = ((i + 1) * azimuthal_interval + integration_range) / eta_step
 
-        start = int(start)
-        stop = int(stop)
+        start = int(np.round(start, 8))
+        stop = int(np.round(stop, 8))
 
         # Ignore any warnings about empty slices
         with warnings.catch_warnings():
-- 
2.43.0


From 8cb12bc44f0ab86d59a2ad3722441dd7d4cbe276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:50 +0000
Subject: [PATCH 116/152] fix: values set in a missing block of a configuration
 are kept

---
 hexrd/core/config/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/config/config.py b/hexrd/core/config/config.py
index db2d889..3bf02b9 100644
--- a/hexrd/core/config/config.py
+++ b/hexrd/core/config/config.py
@@ -54,9 +54,10 @@ class Config(object):
         args, item = args[:-1], args[-1]
         temp = self._cfg
         for arg in args:
-            temp = temp.get(arg, {})
-            # intermediate block may be None:
-            temp = {} if temp is None else temp
+            # intermediate block may be None or missing:
+            if temp.get(arg, None) is None:
+                temp[arg] = {}
+            temp = temp[arg]
         if temp.get(item, null) != val:
             temp[item] = val
             self._dirty = True
-- 
2.43.0


From a6cf34d24ea3168a330c8557b6ed6cc6face624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:50 +0000
Subject: [PATCH 117/152] fix: a configuration can be saved after its working
 directory was set

---
 hexrd/core/config/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/config/root.py b/hexrd/core/config/root.py
index 61fea33..97571fc 100644
--- a/hexrd/core/config/root.py
+++ b/hexrd/core/config/root.py
@@ -37,7 +37,7 @@ class RootConfig(Config):
         val = Path(val)
         if not val.is_dir():
             raise IOError('"working_dir": "%s" does not exist' % str(val))
-        self.set('working_dir', val)
+        self.set('working_dir', str(val))
 
     @property
     def analysis_name(self):
-- 
2.43.0


From d5c61c59575563cddf222bf5a29a97fa99491397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:50 +0000
Subject: [PATCH 118/152] fix: empty sections of a configuration file inherit
 everything

---
 hexrd/core/config/__init__.py | 2 ++
 hexrd/hedm/config/__init__.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/hexrd/core/config/__init__.py b/hexrd/core/config/__init__.py
index 075f339..a0c1714 100644
--- a/hexrd/core/config/__init__.py
+++ b/hexrd/core/config/__init__.py
@@ -29,6 +29,8 @@ def open(file_name=None):
     with open_file(file_name) as f:
         res = []
         for cfg in yaml.load_all(f, Loader=yaml.SafeLoader):
+            # a section may be empty
+            cfg = {} if cfg is None else cfg
             try:
                 # take the previous config section and update with values
                 # from the current one
diff --git a/hexrd/hedm/config/__init__.py b/hexrd/hedm/config/__init__.py
index 7dca7e8..f87f28c 100644
--- a/hexrd/hedm/config/__init__.py
+++ b/hexrd/hedm/config/__init__.py
@@ -31,6 +31,8 @@ def open(file_name=None) -> list['root.RootConfig']:
     with open_file(file_name) as f:
         res: list[config.Config] = []
         for cfg in yaml.load_all(f, Loader=yaml.SafeLoader):
+            # a section may be empty
+            cfg = {} if cfg is None else cfg
             try:
                 # take the previous config section and update with values
                 # from the current one
-- 
2.43.0


From 301a2ea8387c3ab5a41b09ed103949766f4cc148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:50 +0000
Subject: [PATCH 119/152] fix: arrays with the bytes of a unicode escape
 survive JSON

---
 hexrd/core/utils/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/utils/json.py b/hexrd/core/utils/json.py
index f11f827..c1a59b0 100644
--- a/hexrd/core/utils/json.py
+++ b/hexrd/core/utils/json.py
@@ -25,7 +25,7 @@ class NumpyEncoder(json.JSONEncoder):
                 np.save(bytes_io, obj, allow_pickle=False)
                 data = bytes_io.getvalue()
 
-            return {ndarray_key: data.decode('raw_unicode_escape')}
+            return {ndarray_key: data.decode('latin-1')}
 
         return super().default(obj)
 
@@ -40,7 +40,7 @@ class NumpyDecoder(json.JSONDecoder):
 
     def object_hook(self, obj):
         if ndarray_key in obj:
-            data = obj[ndarray_key].encode('raw_unicode_escape')
+            data = obj[ndarray_key].encode('latin-1')
             with io.BytesIO(data) as bytes_io:
                 return np.load(bytes_io)
 
-- 
2.43.0


From 3a386c1142d6858e6c575ee13c237e3e33982470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:50 +0000
Subject: [PATCH 120/152] fix: 0-d arrays are written to YAML as scalars

---
 hexrd/core/utils/yaml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/utils/yaml.py b/hexrd/core/utils/yaml.py
index 89f1eff..33ae35c 100644
--- a/hexrd/core/utils/yaml.py
+++ b/hexrd/core/utils/yaml.py
@@ -14,7 +14,8 @@ class NumpyToNativeDumper(yaml.SafeDumper):
 
     def represent_data(self, data):
         if isinstance(data, np.ndarray):
-            return self.represent_list(data.tolist())
+            # 0-d arrays are scalars
+            return self.represent_data(data.tolist())
         elif isinstance(data, (np.generic, np.number)):
             item = data.item()
             if isinstance(item, (np.generic, np.number)):
-- 
2.43.0


From 9469e0c5ac7b9d9004417a2145908a7357010743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:06 +0000
Subject: [PATCH 121/152] fix: arrays with dots in their keys do not overwrite
 each other

---
 hexrd/core/config/dumper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/config/dumper.py b/hexrd/core/config/dumper.py
index f0f01cd..cc3a2bd 100644
--- a/hexrd/core/config/dumper.py
+++ b/hexrd/core/config/dumper.py
@@ -41,11 +41,12 @@ class NumPyIncludeDumper(yaml.Dumper):
 
     def ndarray_representer(self, data):
         path = _dict_path_by_id(self._dct, id(data))
-        path = Path(*path)
         if path is None:
             raise ValueError("Unable to determine array path.")
 
-        array_path = self._basedir / path.with_suffix('.npy')
+        # keys may contain a dot
+        path = Path(*path)
+        array_path = self._basedir / path.with_name(path.name + '.npy')
         array_path.parent.mkdir(parents=True, exist_ok=True)
 
         np.save(array_path, data)
-- 
2.43.0


From ca182802040cbd954d0c17a06279fa87022726ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:06 +0000
Subject: [PATCH 122/152] fix: arrays of strings are written to HDF5 as
 strings, not as their printout

---
 hexrd/core/utils/hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/utils/hdf5.py b/hexrd/core/utils/hdf5.py
index 43171ab..fc01610 100644
--- a/hexrd/core/utils/hdf5.py
+++ b/hexrd/core/utils/hdf5.py
@@ -47,7 +47,8 @@ def unwrap_dict_to_h5(grp, d, asattr=False):
                         if isinstance(item, np.ndarray) and np.issubdtype(
                             item.dtype, 'U'
                         ):
-                            item = str(item)  # hdf5 files do not support unicode arrays
+                            # hdf5 files do not support unicode arrays
+                            item = item.tolist()
                         grp.create_dataset(key, data=item)
 
 
-- 
2.43.0


From 511f865ce2ddc975e6c26dc9e42bfa40a82c3560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:06 +0000
Subject: [PATCH 123/152] fix: memoized functions tell arrays of different
 types apart

---
 hexrd/core/utils/decorators.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index 07aa6d0..3deadf5 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -69,8 +69,7 @@ def memoize(func=None, maxsize=2):
             nonlocal misses
             nonlocal hits
 
-            all_args = list(args) + sorted(kwargs.items())
-            key = _make_hashable(all_args)
+            key = _make_hashable((args, kwargs))
             if key not in cache:
                 # Make sure the current size is less than the max size
                 while len(cache) >= maxsize:
@@ -116,7 +115,12 @@ def _make_hashable(items):
             # Create an sha1 of the data, and throw in a string
             # and the shape.
             x = np.ascontiguousarray(x)
-            return ('__type_np.ndarray', x.shape, xxhash.xxh3_128_hexdigest(x))
+            return (
+                '__type_np.ndarray',
+                x.dtype.str,
+                x.shape,
+                xxhash.xxh3_128_hexdigest(x),
+            )
         elif isinstance(x, (list, tuple)):
             return _make_hashable(x)
         elif isinstance(x, dict):
-- 
2.43.0


From 600e8dfae8348b27d6953dbe99f1ce108bf2957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:16 +0000
Subject: [PATCH 124/152] fix: memoized functions tell dictionaries and lists
 apart

---
 hexrd/core/utils/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index 3deadf5..54b0063 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -124,7 +124,7 @@ def _make_hashable(items):
         elif isinstance(x, (list, tuple)):
             return _make_hashable(x)
         elif isinstance(x, dict):
-            return _make_hashable(sorted(x.items()))
+            return ('__type_dict', _make_hashable(sorted(x.items())))
         elif isinstance(x, DistortionABC):
             # These are mutable: the parameters decide the result
             return (type(x), convert(getattr(x, 'params', ())))
-- 
2.43.0


From 5b83c3f47a99f06b42a06e7c760298b066da5b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:16 +0000
Subject: [PATCH 125/152] fix: a single configuration can be saved and opened
 again

---
 hexrd/core/config/__init__.py | 2 +-
 hexrd/hedm/config/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/config/__init__.py b/hexrd/core/config/__init__.py
index a0c1714..9bfe595 100644
--- a/hexrd/core/config/__init__.py
+++ b/hexrd/core/config/__init__.py
@@ -49,4 +49,4 @@ def save(config_list, file_name):
         if len(res) > 1:
             yaml.safe_dump_all(res, f)
         else:
-            yaml.safe_dump(res, f)
+            yaml.safe_dump(res[0], f)
diff --git a/hexrd/hedm/config/__init__.py b/hexrd/hedm/config/__init__.py
index f87f28c..a4f599d 100644
--- a/hexrd/hedm/config/__init__.py
+++ b/hexrd/hedm/config/__init__.py
@@ -51,4 +51,4 @@ def save(config_list, file_name):
         if len(res) > 1:
             yaml.safe_dump_all(res, f)
         else:
-            yaml.safe_dump(res, f)
+            yaml.safe_dump(res[0], f)
-- 
2.43.0


From 63081d18debde5968abda94a3c45a1c776c18491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:11 +0000
Subject: [PATCH 126/152] fix: image series with plain metadata can be written
 to HDF5

---
 hexrd/core/imageseries/save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/save.py b/hexrd/core/imageseries/save.py
index aa65d59..20f9afa 100644
--- a/hexrd/core/imageseries/save.py
+++ b/hexrd/core/imageseries/save.py
@@ -176,7 +176,7 @@ class WriteH5(Writer):
 
         # add metadata
         for k, v in list(self._meta.items()):
-            if np.issubdtype(v.dtype, 'U'):
+            if hasattr(v, 'dtype') and np.issubdtype(v.dtype, 'U'):
                 # HDF5 can't handle unicode strings.
                 # Turn it into a regular string.
                 v = v.astype('S')
-- 
2.43.0


From ebc698afbc88c3ba21d33471c3172d5a792e1d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:12 +0000
Subject: [PATCH 127/152] fix: harmonic texture model can be built for trigonal
 crystals (-3m)

---
 hexrd/powder/wppf/texture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/powder/wppf/texture.py b/hexrd/powder/wppf/texture.py
index 34b8e47..5a5933b 100644
--- a/hexrd/powder/wppf/texture.py
+++ b/hexrd/powder/wppf/texture.py
@@ -607,7 +607,7 @@ def get_num_sym_harm(ell, sym='oh'):
         return int(ell / 4) + 1
     elif sym == 's6':
         return 2 * int(ell / 3) + 1
-    elif sym == 'd3h':
+    elif sym == 'd3d':
         return int(ell / 3) + 1
     elif sym == 'c6h':
         return 2 * int(ell / 6) + 1
-- 
2.43.0


From 018cea1a95ea8cab057f43ccf59400a45821d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:12 +0000
Subject: [PATCH 128/152] fix: degrees of th harmonics end at 16 like those of
 oh

---
 hexrd/powder/wppf/texture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/powder/wppf/texture.py b/hexrd/powder/wppf/texture.py
index 5a5933b..27adbeb 100644
--- a/hexrd/powder/wppf/texture.py
+++ b/hexrd/powder/wppf/texture.py
@@ -448,7 +448,7 @@ def check_degrees(ell, sym):
     if np.mod(ell, 2) != 0:
         msg = f'only even degrees allowed due to' f'inversion symmetry'
         raise ValueError(msg)
-    if sym in ['td', 'oh']:
+    if sym in ['th', 'oh']:
         if ell > 16:
             msg = f'maximum degree available is 16'
             raise ValueError(msg)
-- 
2.43.0


From c85e4879a7de41a5dbddd02db5762468cb12803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:12 +0000
Subject: [PATCH 129/152] fix: texture index accounts for the norm of the
 harmonics of cyclic symmetries

---
 hexrd/powder/wppf/texture.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/hexrd/powder/wppf/texture.py b/hexrd/powder/wppf/texture.py
index 27adbeb..c3eb01e 100644
--- a/hexrd/powder/wppf/texture.py
+++ b/hexrd/powder/wppf/texture.py
@@ -625,6 +625,17 @@ def get_num_sym_harm(ell, sym='oh'):
         return 2 * ell + 1
 
 
+def get_sym_harm_norms(ell, sym='oh'):
+    """Squared norm over the sphere of each harmonic of calc_sym_sph_harm"""
+    num = get_num_sym_harm(ell, sym=sym)
+    if sym in ['ci', 'c2h', 's6', 'c4h', 'c6h', 'monoclinic', 'triclinic']:
+        # real and imaginary parts of Ylm, except for m = 0
+        norms = np.full(num, 0.5)
+        norms[num // 2] = 1.0
+        return norms
+    return np.ones(num)
+
+
 class MarchDollaseModel:
     """this class implements the well known March Dollase
     texture model for axisymmetric textures. the functional
@@ -1256,10 +1267,12 @@ class HarmonicModel:
         for ell in range(2, self.ell_max + 1, 2):
             nc = get_num_sym_harm(ell, sym=self.csym)
             ns = get_num_sym_harm(ell, sym=self.ssym)
+            cnorms = get_sym_harm_norms(ell, sym=self.csym)
+            snorms = get_sym_harm_norms(ell, sym=self.ssym)
             for ii in range(ns):
                 for jj in range(nc):
                     pname = f'{phase}_c_{ell}_{ii}_{jj}'
-                    pre = 1 / (2 * ell + 1)
+                    pre = snorms[ii] * cnorms[jj] / (2 * ell + 1)
                     J += pre * (params[pname].value ** 2)
         return J
 
-- 
2.43.0


From f7cba1a2e66c2be19aad86f9eab1c0e578a88d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:12 +0000
Subject: [PATCH 130/152] fix: harmonic texture model follows the symmetry axes
 of monoclinic and -31m crystals

---
 hexrd/powder/wppf/texture.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hexrd/powder/wppf/texture.py b/hexrd/powder/wppf/texture.py
index c3eb01e..bdb3f62 100644
--- a/hexrd/powder/wppf/texture.py
+++ b/hexrd/powder/wppf/texture.py
@@ -983,7 +983,8 @@ class HarmonicModel:
     def convert_hkls_to_cartesian(self, hkls):
         """
         this routine converts hkls in the crystallographic frame to
-        the cartesian frame and normalizes them
+        the cartesian frame and normalizes them. The symmetrized harmonics
+        have the main axis along z, and the two-folds of -3m along x.
         """
         hkls_c = np.atleast_2d(np.empty(hkls.shape))
 
@@ -991,6 +992,13 @@ class HarmonicModel:
             v = self.material.TransSpace(g, "r", "c")
             v = v / np.linalg.norm(v)
             hkls_c[ii, :] = v
+
+        if self.csym == 'c2h':
+            # unique axis b, along y
+            hkls_c = hkls_c[:, [2, 0, 1]]
+        elif self.material.sgnum in (149, 151, 153, 157, 159, 162, 163):
+            # two-folds (or mirror normals) along [210] rather than [100]
+            hkls_c = np.stack([hkls_c[:, 1], -hkls_c[:, 0], hkls_c[:, 2]], axis=1)
         return hkls_c
 
     def get_c_matrix(self, params, ell):
-- 
2.43.0


From 0653122409c63d287712902968e09b574f1fb16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:12 +0000
Subject: [PATCH 131/152] fix: harmonic texture factors follow changes of the
 lattice parameters and of the degree

---
 hexrd/powder/wppf/texture.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/hexrd/powder/wppf/texture.py b/hexrd/powder/wppf/texture.py
index bdb3f62..1e68940 100644
--- a/hexrd/powder/wppf/texture.py
+++ b/hexrd/powder/wppf/texture.py
@@ -1130,23 +1130,22 @@ class HarmonicModel:
                     eta_grid,
                 )
 
-            '''also pre-compute the spherical harmonics if they are
-            not already precomputed
+            '''also pre-compute the spherical harmonics. the directions
+            of the hkls change with the lattice parameters
             '''
             if not hasattr(self, 'sph_c_rings'):
                 self.sph_c_rings = {}
 
-            if hkey not in self.sph_c_rings:
-                self.sph_c_rings[hkey] = {}
+            self.sph_c_rings[hkey] = {}
 
-                theta = np.array([self.hkl_angles_rings[hkey][0]])
-                phi = np.array([self.hkl_angles_rings[hkey][1]])
+            theta = np.array([self.hkl_angles_rings[hkey][0]])
+            phi = np.array([self.hkl_angles_rings[hkey][1]])
 
-                for ell in range(2, self.ell_max + 1, 2):
-                    Ylm = calc_sym_sph_harm(ell, theta, phi, sym=self.csym)
-                    for jj in range(Ylm.shape[1]):
-                        kname = f'c_{ell}_{jj}'
-                        self.sph_c_rings[hkey][kname] = Ylm[:, jj]
+            for ell in range(2, self.ell_max + 1, 2):
+                Ylm = calc_sym_sph_harm(ell, theta, phi, sym=self.csym)
+                for jj in range(Ylm.shape[1]):
+                    kname = f'c_{ell}_{jj}'
+                    self.sph_c_rings[hkey][kname] = Ylm[:, jj]
 
             if calc_type == 'texture_factor':
                 if not hasattr(self, 'sph_s_rings'):
-- 
2.43.0


From 8956e46731d5f66d16af1c05bd2e051cc3bd9996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:12 +0000
Subject: [PATCH 132/152] fix: pole figure data of the caller are not modified,
 and may be integers

---
 hexrd/powder/wppf/texture.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hexrd/powder/wppf/texture.py b/hexrd/powder/wppf/texture.py
index 1e68940..7171b9a 100644
--- a/hexrd/powder/wppf/texture.py
+++ b/hexrd/powder/wppf/texture.py
@@ -1832,6 +1832,7 @@ class HarmonicModel:
             return
 
         for ii, (k, v) in enumerate(val.items()):
+            v = np.array(v, dtype=float)
             norm = np.linalg.norm(v[:, 0:3], axis=1)
             v[:, 0:3] = v[:, 0:3] / np.tile(norm, [3, 1]).T
 
-- 
2.43.0


From 13ea9e2e47cbdad60d8fec4d5341c6ebc45a2da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:12 +0000
Subject: [PATCH 133/152] fix: inverse pole figures accept arrays of directions
 and the default resolution

---
 hexrd/powder/wppf/texture.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hexrd/powder/wppf/texture.py b/hexrd/powder/wppf/texture.py
index 7171b9a..d026812 100644
--- a/hexrd/powder/wppf/texture.py
+++ b/hexrd/powder/wppf/texture.py
@@ -1928,8 +1928,8 @@ class InversePoleFigures:
         """
         if samplingtype.lower() == "equiangular":
             angs = []
-            for tth in range(0, 91, resolution):
-                for eta in range(0, 360, resolution):
+            for tth in np.arange(0, 90 + 1e-6, resolution):
+                for eta in np.arange(0, 360 - 1e-6, resolution):
                     angs.append([np.radians(tth), np.radians(eta)])
                     if tth == 0:
                         break
@@ -1969,12 +1969,12 @@ class InversePoleFigures:
             else:
                 msg = f"unknown direction."
                 raise ValueError(msg)
-        elif isinstance(val, np.array):
+        elif isinstance(val, np.ndarray):
             v = np.atleast_2d(val)
             if v.shape[1] != 3:
                 msg = (
                     f"incorrect shape for sample_dir input.\n"
-                    f"expected nx3, got {val.shape[0]}x{val.shape[1]}"
+                    f"expected nx3, got {v.shape[0]}x{v.shape[1]}"
                 )
                 raise ValueError(msg)
             self._sample_dir = v
-- 
2.43.0


From 42a3162a0c7be8156219d5902341dce0d4b20e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:07 +0000
Subject: [PATCH 134/152] fix: March-Dollase factors follow changes of the
 lattice parameters

---
 hexrd/powder/wppf/texture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/powder/wppf/texture.py b/hexrd/powder/wppf/texture.py
index d026812..f68ed16 100644
--- a/hexrd/powder/wppf/texture.py
+++ b/hexrd/powder/wppf/texture.py
@@ -786,14 +786,14 @@ class MarchDollaseModel:
             msg = 'HKL must be a list or numpy.ndarray'
             raise TypeError(msg)
         self._HKL = hkl
-        self._HKL_length = self.material.CalcLength(self._HKL, 'r')
 
         if hasattr(self, '_P_MD'):
             self.get_texture_factor()
 
     @property
     def HKL_length(self) -> float:
-        return self._HKL_length
+        # the lattice parameters may have changed
+        return self.material.CalcLength(self._HKL, 'r')
 
     @property
     def P_MD(self) -> float:
-- 
2.43.0


From cd6b21169e71974973252d2acb87c92e5864829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:30 +0000
Subject: [PATCH 135/152] fix: kernel of a batch of one orientation keeps its
 shape with symmetry

---
 hexrd/phase_transition/texture/kernels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hexrd/phase_transition/texture/kernels.py b/hexrd/phase_transition/texture/kernels.py
index c9c10a8..de6fc4b 100644
--- a/hexrd/phase_transition/texture/kernels.py
+++ b/hexrd/phase_transition/texture/kernels.py
@@ -438,6 +438,7 @@ class DeLaValleePoussinKernel(SO3Kernel):
                 total = total + self._kernel_values(omega)
 
         result = total / (sample_ops.shape[0] * crystal_ops.shape[0])
+        result = result.reshape(np.broadcast_shapes(R1.shape[:-2], R2.shape[:-2]))
         if result.ndim == 0:
             return float(result)
         return result
-- 
2.43.0


From a419631c57fc86ef545f9248be58cf03ce0208b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:44 +0000
Subject: [PATCH 136/152] fix: orthorhombic orientation sampling is not empty

---
 hexrd/hedm/sampleOrientations/rfz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/sampleOrientations/rfz.py b/hexrd/hedm/sampleOrientations/rfz.py
index 04f1df3..fd695c1 100644
--- a/hexrd/hedm/sampleOrientations/rfz.py
+++ b/hexrd/hedm/sampleOrientations/rfz.py
@@ -42,7 +42,7 @@ def insideDihedralFZ(ro, FZorder):
 
     if c1:
         if FZorder == 2:
-            c2 = np.logical_and(np.abs(rod[0]) <= 1.0, np.abs(rod[1]) <= 1.0)
+            return np.logical_and(np.abs(rod[0]) <= 1.0, np.abs(rod[1]) <= 1.0)
 
         elif FZorder == 3:
             srt = np.sqrt(3.0) / 2.0
-- 
2.43.0


From e8683ad357c9a28f32dfd0590d2c984586a2ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:44 +0000
Subject: [PATCH 137/152] fix: trigonal orientation sampling uses the two-fold
 axes of the d3d symmetry group

---
 hexrd/hedm/sampleOrientations/rfz.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hexrd/hedm/sampleOrientations/rfz.py b/hexrd/hedm/sampleOrientations/rfz.py
index fd695c1..8018db1 100644
--- a/hexrd/hedm/sampleOrientations/rfz.py
+++ b/hexrd/hedm/sampleOrientations/rfz.py
@@ -45,10 +45,12 @@ def insideDihedralFZ(ro, FZorder):
             return np.logical_and(np.abs(rod[0]) <= 1.0, np.abs(rod[1]) <= 1.0)
 
         elif FZorder == 3:
+            # two-fold axes along a1, a2 and a3, with a1 along x, as in the
+            # symmetry operations of the d3d Laue group
             srt = np.sqrt(3.0) / 2.0
-            c2 = np.abs(srt * rod[0] + 0.5 * rod[1]) <= 1.0
-            c3 = np.abs(srt * rod[0] - 0.5 * rod[1]) <= 1.0
-            c4 = np.abs(rod[1]) <= 1.0
+            c2 = np.abs(0.5 * rod[0] + srt * rod[1]) <= 1.0
+            c3 = np.abs(0.5 * rod[0] - srt * rod[1]) <= 1.0
+            c4 = np.abs(rod[0]) <= 1.0
             return np.logical_and(c2, np.logical_and(c3, c4))
 
         elif FZorder == 4:
-- 
2.43.0


From 044a907a19c39ec2b31131136c6b3c3a8b587162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:44 +0000
Subject: [PATCH 138/152] fix: sampling type of orientations is not case
 sensitive

---
 hexrd/hedm/sampleOrientations/sampleRFZ.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/hedm/sampleOrientations/sampleRFZ.py b/hexrd/hedm/sampleOrientations/sampleRFZ.py
index 888feae..1a01995 100644
--- a/hexrd/hedm/sampleOrientations/sampleRFZ.py
+++ b/hexrd/hedm/sampleOrientations/sampleRFZ.py
@@ -143,9 +143,9 @@ class sampleRFZ:
 
     @property
     def shift(self):
-        if self.sampling_type == 'default':
+        if self.sampling_type.lower() == 'default':
             return 0.0
-        elif self.sampling_type == 'special':
+        elif self.sampling_type.lower() == 'special':
             return 0.5
 
     @property
-- 
2.43.0


From b888fb8c111e28bfea75794d710f1434982ca4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:32 +0000
Subject: [PATCH 139/152] fix: monoclinic symmetry operations stay in the
 crystal frame, IPF colours follow the b axis

---
 hexrd/core/material/unitcell.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 38901b2..303b7df 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -480,22 +480,18 @@ class unitcell:
         the standard setting for the monoclinic system has the b-axis aligned
         with the 2-fold axis. this needs to be accounted for when reduction to
         the standard stereographic triangle is performed. the siplest way is to
-        rotate all symmetry elements by 90 about the x-axis
+        rotate all symmetry elements and directions by 90 about the x-axis when
+        they are reduced. SYM_PG_c and SYM_PG_c_laue stay in the crystal frame
 
         the supergroups for the monoclinic groups are orthorhombic so they need
         not be rotated as they have the c* axis already aligned with the z-axis
         SS 12/10/2020
         """
+        self.rmat_sst = np.eye(3)
         if self.latticeType == "monoclinic":
-            om = np.array([[1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, -1.0, 0.0]])
-
-            for i, s in enumerate(self.SYM_PG_c):
-                ss = np.dot(om, np.dot(s, om.T))
-                self.SYM_PG_c[i, :, :] = ss
-
-            for i, s in enumerate(self.SYM_PG_c_laue):
-                ss = np.dot(om, np.dot(s, om.T))
-                self.SYM_PG_c_laue[i, :, :] = ss
+            self.rmat_sst = np.array(
+                [[1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, -1.0, 0.0]]
+            )
         """
         for the triclinic group c1, the supergroups are the monoclinic group m
         therefore we need to rotate the mirror to be perpendicular to the z-axis
@@ -1255,13 +1251,13 @@ class unitcell:
         connectivity = self.sphere_sector.connectivity[switch]
 
         if switch == "pg":
-            sym = self.SYM_PG_c
+            sym = self.rmat_sst @ self.SYM_PG_c @ self.rmat_sst.T
 
         elif switch == "super":
             sym = self.SYM_PG_supergroup
 
         elif switch == "laue":
-            sym = self.SYM_PG_c_laue
+            sym = self.rmat_sst @ self.SYM_PG_c_laue @ self.rmat_sst.T
 
         elif switch == "superlaue":
             sym = self.SYM_PG_supergroup_laue
@@ -1320,6 +1316,9 @@ class unitcell:
            replaceing barycenter to pi-theta)
         """
 
+        # monoclinic crystals: b along the z-axis of the standard triangle
+        dir3 = np.dot(np.atleast_2d(dir3), self.rmat_sst.T)
+
         if laueswitch:
             """
             this is the case where we color orientations based on the laue group
-- 
2.43.0


From 2889b3967a513d4d132c2e63bd477a9fec53cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:32 +0000
Subject: [PATCH 140/152] fix: IPF colours of -1 and -3 crystals are the same
 for opposite directions

---
 hexrd/core/material/unitcell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 303b7df..f809872 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -1326,7 +1326,8 @@ class unitcell:
             introduces inversion symmetry. For other probes, this is not the case.
             """
             dir3_red = self.reduce_dirvector(dir3, switch="laue")
-            dir3_red_supergroup = self.reduce_dirvector(dir3, switch="superlaue")
+            # the supergroups of -1 and -3 lack the inversion
+            dir3_red_supergroup = self.reduce_dirvector(dir3_red, switch="superlaue")
             switch = "superlaue"
 
         else:
-- 
2.43.0


From 68236db28265fcf0033148f05fa4a6ed2c7ab311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:32 +0000
Subject: [PATCH 141/152] fix: IPF colours of -31m crystals

---
 hexrd/core/material/unitcell.py      | 6 +++++-
 hexrd/hedm/ipfcolor/sphere_sector.py | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index f809872..db049b4 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -1646,7 +1646,8 @@ class unitcell:
         """
         self.sphere_sector = sphere_sector.sector(
             self._pointGroup,
-            self._laueGroup,
+            # mirrors parallel to a1 rather than perpendicular to it
+            "d3d_31m" if self.sgnum in _sgnum_31m else self._laueGroup,
             self._supergroup,
             self._supergroup_laue,
         )
@@ -1827,6 +1828,9 @@ def _sgrange(min, max):
     return tuple(range(min, max + 1))  # inclusive range
 
 
+# space groups with Laue group -31m
+_sgnum_31m = (149, 151, 153, 157, 159, 162, 163)
+
 """
 11/20/2020 SS added supergroup to the list which is used
 for coloring the fundamental zone IPF
diff --git a/hexrd/hedm/ipfcolor/sphere_sector.py b/hexrd/hedm/ipfcolor/sphere_sector.py
index 450fdfc..5594cb9 100644
--- a/hexrd/hedm/ipfcolor/sphere_sector.py
+++ b/hexrd/hedm/ipfcolor/sphere_sector.py
@@ -199,6 +199,13 @@ pg2vertex = {
             np.atleast_2d(np.array([0, 1, 2])).T,
             'upper'],
 
+    # second setting of d3d (-31m)
+    'd3d_31m': [1, np.array([[0., 0., 1.],
+                             [1., 0., 0.],
+                             [0.5, np.sqrt(3.)/2., 0.]]).T,
+                np.atleast_2d(np.array([0, 1, 2])).T,
+                'upper'],
+
     'c6': [1, np.array([[0., 0., 1.],
                         [1., 0., 0.],
                         [0.5, np.sqrt(3.)/2., 0.]]).T,
-- 
2.43.0


From 6526db831d62abecd1bf523a8cb12e0513c3cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:32 +0000
Subject: [PATCH 142/152] fix: reduction of a single direction to the
 fundamental sector; null vectors are rejected

---
 hexrd/core/material/unitcell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index db049b4..75f07b7 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -1208,8 +1208,8 @@ class unitcell:
         """
         check if the dimensions of the dir3 array is to spec
         """
-        idx = np.arange(dir3.shape[0], dtype=np.int32)
         dir3 = np.ascontiguousarray(np.atleast_2d(dir3))
+        idx = np.arange(dir3.shape[0], dtype=np.int32)
         if dir3.ndim != 2:
             raise RuntimeError("reduce_dirvector: invalid shape of dir3 array")
 
@@ -1225,7 +1225,7 @@ class unitcell:
         if np.all(np.abs(np.linalg.norm(dir3, axis=1) - 1.0) < eps):
             dir3n = dir3
         else:
-            if np.all(np.linalg.norm(dir3) > eps):
+            if np.all(np.linalg.norm(dir3, axis=1) > eps):
                 dir3n = dir3 / np.tile(np.linalg.norm(dir3, axis=1), [3, 1]).T
             else:
                 raise RuntimeError(
-- 
2.43.0


From fa54ff534bdfb45855ca33f661d1a368ee3fa2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:52 +0000
Subject: [PATCH 143/152] fix: nearfield simulate_diffractions could not run
 and wrote outside its images

It looked for _project_on_detector_plane in a package that does not
export it, laid the packed stack out as columns x packed rows while the
pixels are written as rows x packed columns (out of bounds for a
detector that is not square), paired the projected points with the
angles of reflections that miss the detector, and mapped omega into
(-pi, pi) whatever the omega period of the experiment.
---
 hexrd/hedm/grainmap/nfutil.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hexrd/hedm/grainmap/nfutil.py b/hexrd/hedm/grainmap/nfutil.py
index 28d9e52..268e0db 100644
--- a/hexrd/hedm/grainmap/nfutil.py
+++ b/hexrd/hedm/grainmap/nfutil.py
@@ -28,6 +28,7 @@ from hexrd.core import material
 from hexrd.core import rotations
 from hexrd.core.transforms import xfcapi
 from hexrd.core import valunits
+from hexrd.hed.xrdutil import _project_on_detector_plane
 from hexrd.hedm import xrdutil
 
 from skimage.morphology import dilation as ski_dilation
@@ -511,15 +512,15 @@ def simulate_diffractions(grain_params, experiment, controller):
     # use a packed array for the image_stack
     array_dims = (
         experiment.nframes,
-        experiment.ncols,
-        ((experiment.nrows - 1) // 8) + 1,
+        experiment.nrows,
+        ((experiment.ncols - 1) // 8) + 1,
     )
     image_stack = np.zeros(array_dims, dtype=np.uint8)
 
     count = len(grain_params)
     subprocess = 'simulate diffractions'
 
-    _project = xrdutil._project_on_detector_plane
+    _project = _project_on_detector_plane
     rD = experiment.rMat_d
     chi = experiment.chi
     tD = experiment.tVec_d
@@ -530,7 +531,7 @@ def simulate_diffractions(grain_params, experiment, controller):
         (-np.pi, np.pi),
     ]
     ome_range = experiment.ome_range
-    ome_period = (-np.pi, np.pi)
+    ome_period = experiment.ome_period
 
     full_hkls = xrdutil._fetch_hkls_from_planedata(experiment.plane_data)
     bMat = experiment.plane_data.latVecOps['B']
@@ -553,10 +554,11 @@ def simulate_diffractions(grain_params, experiment, controller):
         all_angs[:, 2] = rotations.mapAngle(all_angs[:, 2], ome_period)
 
         proj_pts = _project(all_angs, rD, rC, chi, tD, tC, tS, distortion)
-        det_xy = proj_pts[0]
+        # only the reflections that hit the detector plane are projected
+        det_xy, _, on_plane = proj_pts
         _write_pixels(
             det_xy,
-            all_angs[:, 2],
+            all_angs[on_plane, 2],
             image_stack,
             experiment.base,
             experiment.inv_deltas,
-- 
2.43.0


From 1abf8cfcb8ddc68108c399ee0e12aaa7750feb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:52 +0000
Subject: [PATCH 144/152] fix: nearfield test_orientations failed in parallel
 with a limited number of voxels

The workers computed their last chunk past the limit on the number of
coordinates, so the result did not fit.
---
 hexrd/hedm/grainmap/nfutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/grainmap/nfutil.py b/hexrd/hedm/grainmap/nfutil.py
index 268e0db..54d36fc 100644
--- a/hexrd/hedm/grainmap/nfutil.py
+++ b/hexrd/hedm/grainmap/nfutil.py
@@ -765,7 +765,7 @@ def test_orientations(
                 image_stack,
                 all_angles,
                 precomp,
-                test_crds,
+                test_crds[:n_coords],
                 experiment,
             ),
         ) as pool:
-- 
2.43.0


From 0ccd1020629def7be9eef57c0877bd86f4aefb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:52 +0000
Subject: [PATCH 145/152] fix: process_raw_confidence did not remap the last
 grain

The highest grain index in the map kept its own number instead of that
of the far-field grain.
---
 hexrd/hedm/grainmap/nfutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/grainmap/nfutil.py b/hexrd/hedm/grainmap/nfutil.py
index 54d36fc..fb4263d 100644
--- a/hexrd/hedm/grainmap/nfutil.py
+++ b/hexrd/hedm/grainmap/nfutil.py
@@ -1457,7 +1457,7 @@ def process_raw_confidence(
         max_grain_no = np.max(grain_map)
         grain_map_copy = copy.copy(grain_map)
         logger.info('Remapping grain ids to ff...')
-        for ii in np.arange(max_grain_no):
+        for ii in np.arange(max_grain_no + 1):
             this_grain = np.where(grain_map == ii)
             grain_map_copy[this_grain] = id_remap[ii]
         grain_map = grain_map_copy
-- 
2.43.0


From b22b58cee66d3b86cead5793293593d1c7eca542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:53 +0000
Subject: [PATCH 146/152] fix: gen_nf_cleaned_image_stack failed with its
 default arguments

Only an array was accepted as process_args, whose default is a list.
---
 hexrd/hedm/grainmap/nfutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/grainmap/nfutil.py b/hexrd/hedm/grainmap/nfutil.py
index fb4263d..0447fd3 100644
--- a/hexrd/hedm/grainmap/nfutil.py
+++ b/hexrd/hedm/grainmap/nfutil.py
@@ -1175,7 +1175,7 @@ def gen_nf_cleaned_image_stack(
 
     if process_type == 'gaussian':
         sigma = process_args[0]
-        size = process_args[1].astype(int)  # needs to be int
+        size = int(process_args[1])  # needs to be int
 
         for ii in np.arange(img_nums.shape[0]):
             logger.info(f'Image #: {ii}')
-- 
2.43.0


From 1d55a43cdffd661153096b97072d7e177aaf5aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:53 +0000
Subject: [PATCH 147/152] fix: gen_trial_exp_data labelled trial orientations
 with other grains

The map from trial orientation to far-field grain was tiled although
the orientations of a grain follow one another, and had the wrong length
unless the grid had three steps per axis.  A grains.out file with a
single grain could not be used.
---
 hexrd/hedm/grainmap/nfutil.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hexrd/hedm/grainmap/nfutil.py b/hexrd/hedm/grainmap/nfutil.py
index 0447fd3..3fa8ab8 100644
--- a/hexrd/hedm/grainmap/nfutil.py
+++ b/hexrd/hedm/grainmap/nfutil.py
@@ -1249,7 +1249,7 @@ def gen_trial_exp_data(
 
     logger.info('Loading Grain Data...')
     # gen_grain_data
-    ff_data = np.loadtxt(grain_out_file)
+    ff_data = np.loadtxt(grain_out_file, ndmin=2)
 
     # ff_data=np.atleast_2d(ff_data[2,:])
 
@@ -1274,8 +1274,6 @@ def gen_trial_exp_data(
     mis_amt = misorientation_bnd * np.pi / 180.0
     spacing = misorientation_spacing * np.pi / 180.0
 
-    mis_steps = int(misorientation_bnd / misorientation_spacing)
-
     ori_pts = np.arange(-mis_amt, (mis_amt + (spacing * 0.999)), spacing)
     num_ori_grid_pts = ori_pts.shape[0] ** 3
     num_oris = exp_maps.shape[0]
@@ -1429,10 +1427,8 @@ def gen_trial_exp_data(
     experiment.clip_vals = clip_vals
     experiment.bsp = beam_stop_parms
 
-    if mis_steps == 0:
-        nf_to_ff_id_map = cut
-    else:
-        nf_to_ff_id_map = np.tile(cut, 3**3 * mis_steps)
+    # the trial orientations of a grain follow one another
+    nf_to_ff_id_map = np.repeat(cut, num_ori_grid_pts)
 
     return experiment, nf_to_ff_id_map
 
-- 
2.43.0


From bd2f906f02e9620a8ab2d8967b981b814c7e9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:53 +0000
Subject: [PATCH 148/152] fix: gen_attenuation_rads failed without a dark field

The default, None, was asked for its length.
---
 hexrd/hedm/grainmap/tomoutil.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hexrd/hedm/grainmap/tomoutil.py b/hexrd/hedm/grainmap/tomoutil.py
index 275cb79..d7f20f7 100644
--- a/hexrd/hedm/grainmap/tomoutil.py
+++ b/hexrd/hedm/grainmap/tomoutil.py
@@ -84,8 +84,7 @@ def gen_attenuation_rads(
     # Reconstructs a single tompgrahy layer to find the extent of the sample
     tomo_img_nums = np.arange(tomo_img_start, tomo_img_start + tomo_num_imgs, 1)
 
-    # if tdf==None:
-    if len(tdf) == None:
+    if tdf is None:
         tdf = np.zeros([nrows, ncols])
 
     rad_stack = np.zeros([tomo_num_imgs, nrows, ncols])
-- 
2.43.0


From 79246b416fc9492be85aa841f7958cfbc48e1fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:53 +0000
Subject: [PATCH 149/152] fix: threshold_and_clean_tomo_layer left out the last
 object and the last hole

---
 hexrd/hedm/grainmap/tomoutil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/hedm/grainmap/tomoutil.py b/hexrd/hedm/grainmap/tomoutil.py
index d7f20f7..f57589f 100644
--- a/hexrd/hedm/grainmap/tomoutil.py
+++ b/hexrd/hedm/grainmap/tomoutil.py
@@ -166,7 +166,7 @@ def threshold_and_clean_tomo_layer(
     labeled_img, num_labels = img.label(binary_recon)
 
     logger.info('Cleaning and removing Noise...')
-    for ii in np.arange(1, num_labels):
+    for ii in np.arange(1, num_labels + 1):
         obj1 = np.where(labeled_img == ii)
         if obj1[0].shape[0] < noise_obj_size:
             binary_recon[obj1[0], obj1[1]] = 0
@@ -174,7 +174,7 @@ def threshold_and_clean_tomo_layer(
     labeled_img, num_labels = img.label(binary_recon != 1)
 
     logger.info('Closing Holes...')
-    for ii in np.arange(1, num_labels):
+    for ii in np.arange(1, num_labels + 1):
 
         obj1 = np.where(labeled_img == ii)
         if obj1[0].shape[0] >= 1 and obj1[0].shape[0] < min_hole_size:
-- 
2.43.0


From a156601bfd130d43a6b52db36c31555d051de090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:53 +0000
Subject: [PATCH 150/152] fix: crop_and_rebin_tomo_layer returned nothing when
 there was nothing to crop

---
 hexrd/hedm/grainmap/tomoutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/grainmap/tomoutil.py b/hexrd/hedm/grainmap/tomoutil.py
index f57589f..3d3de75 100644
--- a/hexrd/hedm/grainmap/tomoutil.py
+++ b/hexrd/hedm/grainmap/tomoutil.py
@@ -223,7 +223,8 @@ def crop_and_rebin_tomo_layer(
         )
     )
 
-    binary_recon_bin = binary_recon_bin[cut_edge:-cut_edge, cut_edge:-cut_edge]
+    last_row, last_col = (n - cut_edge for n in binary_recon_bin.shape)
+    binary_recon_bin = binary_recon_bin[cut_edge:last_row, cut_edge:last_col]
 
     if circular_mask_rad is not None:
         center = binary_recon_bin.shape[0] / 2
-- 
2.43.0


From b240839fa6937bc2e791bd33091abdc0b4596f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:53 +0000
Subject: [PATCH 151/152] fix: nearfield test_orientations failed for an
 orientation without reflections

No reflection within the omega range and the detector gave a flat, empty
array of angles; such a grain has confidence 0.
---
 hexrd/hedm/grainmap/nfutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/grainmap/nfutil.py b/hexrd/hedm/grainmap/nfutil.py
index 3fa8ab8..d1917fb 100644
--- a/hexrd/hedm/grainmap/nfutil.py
+++ b/hexrd/hedm/grainmap/nfutil.py
@@ -839,7 +839,8 @@ def evaluate_diffraction_angles(experiment, controller=None):
             ome_period=ome_period,
             distortion=None,
         )
-        all_angles.append(sim_results[2])
+        # no reflections at all come as a flat, empty array
+        all_angles.append(sim_results[2].reshape(-1, 3))
         controller.update(i + 1)
     controller.finish(subprocess)
 
-- 
2.43.0


From 46098f3b6c41b4d687e30b2b01eccf559822536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:18 +0000
Subject: [PATCH 152/152] fix: gen_trial_exp_data gave no stack of rotations
 for a single orientation

experiment.rMat_c is indexed per orientation, but was one matrix when
there is only one.
---
 hexrd/hedm/grainmap/nfutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/grainmap/nfutil.py b/hexrd/hedm/grainmap/nfutil.py
index d1917fb..6a9918e 100644
--- a/hexrd/hedm/grainmap/nfutil.py
+++ b/hexrd/hedm/grainmap/nfutil.py
@@ -1296,7 +1296,8 @@ def gen_trial_exp_data(
 
     n_grains = exp_maps.shape[0]
 
-    rMat_c = rotations.rotMatOfExpMap(exp_maps.T)
+    # a single orientation comes as one matrix, not as a stack
+    rMat_c = rotations.rotMatOfExpMap(exp_maps.T).reshape(-1, 3, 3)
 
     logger.info('Loading Instrument Data...')
     ome_period_deg = (
-- 
2.43.0

