From 1e5ffc2bdd2589ab55f972bb7dd1271cb7e7fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 01/60] fix: EKF.predict_update saves and linearizes at the
 predicted state, and accepts z=None

---
 filterpy/kalman/EKF.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 5e83aec..fc42a7d 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -203,6 +203,10 @@ class ExtendedKalmanFilter(object):
         """
         #pylint: disable=too-many-locals
 
+        if z is None:
+            self.predict(u)
+            return
+
         if not isinstance(args, tuple):
             args = (args,)
 
@@ -219,17 +223,16 @@ class ExtendedKalmanFilter(object):
         R = self.R
         x = self.x
 
-        H = HJacobian(x, *args)
-
         # predict step
         x = dot(F, x) + dot(B, u)
         P = dot(F, P).dot(F.T) + Q
 
         # save prior
-        self.x_prior = np.copy(self.x)
-        self.P_prior = np.copy(self.P)
+        self.x_prior = np.copy(x)
+        self.P_prior = np.copy(P)
 
-        # update step
+        # update step; linearize about the predicted state
+        H = HJacobian(x, *args)
         PHT = dot(P, H.T)
         self.S = dot(H, PHT) + R
         self.SI = linalg.inv(self.S)
-- 
2.43.0


From 888bc588422e48244c1fdb7c8db0bb03285aab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 02/60] fix: IMMEstimator.update(None) no longer changes the
 mode probabilities

---
 filterpy/kalman/IMM.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index 84808fa..efaf34e 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -169,6 +169,11 @@ class IMMEstimator(object):
             measurement for this update.
         """
 
+        if z is None:
+            self.x_post = self.x.copy()
+            self.P_post = self.P.copy()
+            return
+
         # run update on each filter, and save the likelihood
         for i, f in enumerate(self.filters):
             f.update(z)
-- 
2.43.0


From 7d27b0ecfb015a40bd5d6bae5d376d0c321ee91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 03/60] fix: MMAEFilterBank.update(None) no longer changes the
 filter probabilities

---
 filterpy/kalman/mmae.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index f28d9de..4d5b1b7 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -177,6 +177,11 @@ class MMAEFilterBank(object):
             one call, otherwise  self.H will be used.
         """
 
+        if z is None:
+            self.x_post = self.x.copy()
+            self.P_post = self.P.copy()
+            return
+
         if H is None:
             H = self.H
 
-- 
2.43.0


From 709e60bbfcd02d115d0e068bf9da8bfbacb8b816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 04/60] fix: MMAEFilterBank covariance mixes every filter about
 the blended state

---
 filterpy/kalman/mmae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 4d5b1b7..528c285 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -206,8 +206,8 @@ class MMAEFilterBank(object):
             for f, p in zip(self.filters, self.p):
                 self.x += np.dot(f.x, p)
 
-        for x, f, p in zip(self.x, self.filters, self.p):
-            y = f.x - x
+        for f, p in zip(self.filters, self.p):
+            y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
 
-- 
2.43.0


From 24a1a26d5be50d7f9b0923c793b29ef043afce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 05/60] fix: MMAEFilterBank keeps its own float copy of the
 initial probabilities

---
 filterpy/kalman/mmae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 528c285..6f1ce16 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -110,7 +110,7 @@ class MMAEFilterBank(object):
             raise ValueError('dim_x must be >= 1')
 
         self.filters = filters
-        self.p = np.asarray(p)
+        self.p = np.array(p, dtype=float)
         self.dim_x = dim_x
         if H is None:
             self.H = None
-- 
2.43.0


From 1ccac6ab558705a819b17d32ad7562311ddd6de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 06/60] fix: MMAEFilterBank.predict updates the bank's estimate
 and prior

---
 filterpy/kalman/mmae.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 6f1ce16..1240009 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -153,6 +153,9 @@ class MMAEFilterBank(object):
         for f in self.filters:
             f.predict(u)
 
+        # compute estimated state and covariance of the bank of filters.
+        self._compute_state_estimate()
+
         # save prior
         self.x_prior = self.x.copy()
         self.P_prior = self.P.copy()
@@ -193,6 +196,16 @@ class MMAEFilterBank(object):
         self.p /= sum(self.p) # normalize
 
         # compute estimated state and covariance of the bank of filters.
+        self._compute_state_estimate()
+
+        # save measurement and posterior state
+        self.z = deepcopy(z)
+        self.x_post = self.x.copy()
+        self.P_post = self.P.copy()
+
+    def _compute_state_estimate(self):
+        """ blends the filters into the bank's estimate, weighted by p."""
+
         self.P = np.zeros(self.filters[0].P.shape)
 
         # state can be in form [x,y,z,...] or [[x, y, z,...]].T
@@ -210,12 +223,6 @@ class MMAEFilterBank(object):
             y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
-
-        # save measurement and posterior state
-        self.z = deepcopy(z)
-        self.x_post = self.x.copy()
-        self.P_post = self.P.copy()
-
     def __repr__(self):
         return '\n'.join([
             'MMAEFilterBank object',
-- 
2.43.0


From a35fa9385d3f113b4f448aefe8e8d265a2606909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 07/60] fix: SquareRootKalmanFilter.P_post returns the
 posterior

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index d776182..f24833c 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -300,7 +300,7 @@ class SquareRootKalmanFilter(object):
     @property
     def P_post(self):
         """ covariance matrix of the posterior"""
-        return dot(self._P1_2_prior, self._P1_2_prior.T)
+        return dot(self._P1_2_post, self._P1_2_post.T)
 
     @property
     def P1_2(self):
-- 
2.43.0


From e08fbc0f5e4031ab51034e614afa6721a61a8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 08/60] fix: updates do not write into the array the caller
 assigned to x

---
 filterpy/kalman/kalman_filter.py | 2 +-
 filterpy/kalman/square_root.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 994b596..78495f1 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -813,7 +813,7 @@ class KalmanFilter(object):
 
         # x = x + K_i @ y_i
         # update state estimation with residual scaled by the kalman gain
-        self.x += dot(K_i, y_i)
+        self.x = self.x + dot(K_i, y_i)
 
         # compute the posterior covariance
         self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(K_i, R_i), K_i.T)
diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index f24833c..e7aec86 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -216,7 +216,7 @@ class SquareRootKalmanFilter(object):
 
         # x = x + Ky
         # predict new x with residual scaled by the kalman gain
-        self.x += dot(self.K, self.y)
+        self.x = self.x + dot(self.K, self.y)
         self._P1_2 = r_decomp[dim_z:, dim_z:].T
 
         self.z = deepcopy(z)
-- 
2.43.0


From 9c2d0eec769fdee9e8d96adc6d0c9664624cdb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 09/60] fix: InformationFilter computes the likelihood of the
 residual in measurement space

---
 filterpy/kalman/information_filter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 46724d3..3357d3a 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -23,7 +23,6 @@ import math
 import sys
 import numpy as np
 from numpy import dot, zeros, eye
-from filterpy.stats import logpdf
 from filterpy.common import pretty_str, reshape_z
 
 
@@ -232,7 +231,15 @@ class InformationFilter(object):
             self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
 
             if self.compute_log_likelihood:
-                self.log_likelihood = logpdf(x=self.y, cov=self.S)
+                # y ~ N(0, HPH' + R), written with the information matrices
+                y = np.ravel(self.y)
+                y_post = np.ravel(z - dot(H, self.x))
+                self.log_likelihood = -0.5 * (
+                    dot(y, dot(R_inv, y_post))
+                    + self.dim_z*math.log(2*math.pi)
+                    + np.linalg.slogdet(self.S)[1]
+                    - np.linalg.slogdet(P_inv)[1]
+                    - np.linalg.slogdet(R_inv)[1])
                 self.likelihood = math.exp(self.log_likelihood)
                 if self.likelihood == 0:
                     self.likelihood = sys.float_info.min
-- 
2.43.0


From 02845fba76e31ffcc7a97733be79aff1f866a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 10/60] fix: InformationFilter.update shapes and checks z
 before it changes the state

---
 filterpy/kalman/information_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 3357d3a..ea3f3d1 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -201,6 +201,8 @@ class InformationFilter(object):
         elif np.isscalar(R_inv):
             R_inv = eye(self.dim_z) * R_inv
 
+        z = reshape_z(z, self.dim_z, np.ndim(self.x))
+
         # rename for readability and a tiny extra bit of speed
         H = self.H
         H_T = H.T
@@ -228,8 +230,6 @@ class InformationFilter(object):
             self.x = x + dot(self.K, self.y)
             self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
 
-            self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
-
             if self.compute_log_likelihood:
                 # y ~ N(0, HPH' + R), written with the information matrices
                 y = np.ravel(self.y)
-- 
2.43.0


From 0206e8fe94ba1ff0bd56f1330fdadd2eda93150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 11/60] fix: a rejected InformationFilter.F assignment leaves F
 and its inverse consistent

---
 filterpy/kalman/information_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index ea3f3d1..4fad592 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -377,8 +377,9 @@ class InformationFilter(object):
     @F.setter
     def F(self, value):
         """State Transition matrix"""
+        F_inv = self.inv(value)
         self._F = value
-        self._F_inv = self.inv(self._F)
+        self._F_inv = F_inv
 
     @property
     def P(self):
-- 
2.43.0


From 0575d5d61b9b59d73216154ef2d6adb29f6fc135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:55 +0000
Subject: [PATCH 12/60] fix: batch_filter accepts None among vector
 measurements

---
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 filterpy/kalman/fading_memory.py       | 2 +-
 filterpy/kalman/kalman_filter.py       | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 9ed320e..c2ec121 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -185,7 +185,7 @@ class HInfinityFilter(object):
             `covariance[k, :, :]` is the covariance at step `k`.
         """
 
-        n = np.size(Zs, 0)
+        n = len(Zs)
 
         # mean estimates from H-Infinity Filter
         means = zeros((n, self.dim_x, 1))
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 36c9dcc..2bce646 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -314,7 +314,7 @@ class FadingKalmanFilter(object):
             In other words `covariance[k,:,:]` is the covariance at step `k`.
         """
 
-        n = np.size(zs, 0)
+        n = len(zs)
         if Rs is None:
             Rs = [None] * n
 
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 78495f1..e1e8a80 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -937,7 +937,7 @@ class KalmanFilter(object):
         """
 
         #pylint: disable=too-many-statements
-        n = np.size(zs, 0)
+        n = len(zs)
         if Fs is None:
             Fs = [self.F] * n
         if Qs is None:
@@ -1741,7 +1741,7 @@ def batch_filter(x, P, zs, Fs, Qs, Hs, Rs, Bs=None, us=None,
 
     """
 
-    n = np.size(zs, 0)
+    n = len(zs)
     dim_x = x.shape[0]
 
     # mean estimates from Kalman Filter
-- 
2.43.0


From 875224c8de87c90dee6b78673e5d4bee065ddd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:55 +0000
Subject: [PATCH 13/60] fix: KalmanFilter.batch_filter defaults for Hs and us
 match its documentation

---
 filterpy/kalman/kalman_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index e1e8a80..27b0904 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -943,13 +943,15 @@ class KalmanFilter(object):
         if Qs is None:
             Qs = [self.Q] * n
         if Hs is None:
-            Hs = [self.H] * n
+            Hs = [None] * n
+        elif isinstance(Hs, np.ndarray) and Hs.ndim == 2:
+            Hs = [Hs] * n
         if Rs is None:
             Rs = [self.R] * n
         if Bs is None:
             Bs = [self.B] * n
         if us is None:
-            us = [0] * n
+            us = [None] * n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From 9feede9e93176fffe01527a57ada2beeb4591e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:55 +0000
Subject: [PATCH 14/60] fix: HInfinityFilter.batch_filter runs without a saver

---
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index c2ec121..9968eb7 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -157,7 +157,7 @@ class HInfinityFilter(object):
         self.x = dot(self.F, self.x) + dot(self.B, u)
 
 
-    def batch_filter(self, Zs,update_first=False, saver=False):
+    def batch_filter(self, Zs,update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
 
         Parameters
-- 
2.43.0


From 6d6426769b5f592828a4fa34cbbf325df5a60444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 15/60] fix: UKF.batch_filter accepts a missing first
 measurement and a scalar dts, as documented

---
 filterpy/kalman/UKF.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index f8baf19..b45ce49 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -595,7 +595,9 @@ class UnscentedKalmanFilter(object):
         except TypeError:
             raise TypeError('zs must be list-like')
 
-        if self._dim_z == 1:
+        if z is None:
+            pass
+        elif self._dim_z == 1:
             if not(isscalar(z) or (z.ndim == 1 and len(z) == 1)):
                 raise TypeError('zs must be a list of scalars or 1D, 1 element arrays')
         else:
@@ -610,6 +612,8 @@ class UnscentedKalmanFilter(object):
 
         if dts is None:
             dts = [self._dt] * z_n
+        elif isscalar(dts):
+            dts = [dts] * z_n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From 0471057a7ed2b5693d84d539d32c0cbaefded892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 16/60] fix: UKF.rts_smoother uses the per-step Qs, and the dts
 of the step it smooths across

---
 filterpy/kalman/UKF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index b45ce49..d00313a 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -719,10 +719,10 @@ class UnscentedKalmanFilter(object):
             # create sigma points from state estimate, pass through state func
             sigmas = self.points_fn.sigma_points(xs[k], ps[k])
             for i in range(num_sigmas):
-                sigmas_f[i] = self.fx(sigmas[i], dts[k])
+                sigmas_f[i] = self.fx(sigmas[i], dts[k+1])
 
             xb, Pb = UT(
-                sigmas_f, self.Wm, self.Wc, self.Q,
+                sigmas_f, self.Wm, self.Wc, Qs[k+1],
                 self.x_mean, self.residual_x)
 
             # compute cross variance
-- 
2.43.0


From 145ab5f5c3a4db38a4eef623aa4ef305cb9218f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 17/60] fix: procedural rts_smoother uses the transition into
 each step, as batch_filter does

---
 filterpy/kalman/kalman_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 27b0904..77e74bd 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1850,11 +1850,11 @@ def rts_smoother(Xs, Ps, Fs, Qs):
     x, P, pP = Xs.copy(), Ps.copy(), Ps.copy()
 
     for k in range(n-2, -1, -1):
-        pP[k] = dot(dot(Fs[k], P[k]), Fs[k].T) + Qs[k]
+        pP[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
 
         #pylint: disable=bad-whitespace
-        K[k]  = dot(dot(P[k], Fs[k].T), linalg.inv(pP[k]))
-        x[k] += dot(K[k], x[k+1] - dot(Fs[k], x[k]))
+        K[k]  = dot(dot(P[k], Fs[k+1].T), linalg.inv(pP[k]))
+        x[k] += dot(K[k], x[k+1] - dot(Fs[k+1], x[k]))
         P[k] += dot(dot(K[k], P[k+1] - pP[k]), K[k].T)
 
     return (x, P, K, pP)
-- 
2.43.0


From bd067819db412a25f82e0f7505691cd6d735cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 18/60] fix: CubatureKalmanFilter redraws its cubature points
 from the prior, so Q reaches the gain

---
 filterpy/kalman/CubatureKalmanFilter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index bae2a1a..ed371e1 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -322,6 +322,9 @@ class CubatureKalmanFilter(object):
 
         self.x, self.P = ckf_transform(self.sigmas_f, self.Q)
 
+        # update cubature points to reflect the prior, including the noise Q
+        self.sigmas_f = spherical_radial_sigmas(self.x, self.P)
+
         # save prior
         self.x_prior = self.x.copy()
         self.P_prior = self.P.copy()
-- 
2.43.0


From 77e0559c5c1b2bc7ddae0f8aa1507af7ca0eddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 19/60] fix: CubatureKalmanFilter.update accepts z of shape
 (dim_z,), as documented

---
 filterpy/kalman/CubatureKalmanFilter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index ed371e1..930f5f0 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -26,7 +26,7 @@ import numpy as np
 from numpy import eye, zeros, dot, isscalar
 from scipy.linalg import inv, cholesky
 from filterpy.stats import logpdf
-from filterpy.common import pretty_str, outer_product_sum
+from filterpy.common import pretty_str, outer_product_sum, reshape_z
 
 
 def spherical_radial_sigmas(x, P):
@@ -362,6 +362,8 @@ class CubatureKalmanFilter(object):
         elif isscalar(R):
             R = eye(self.dim_z) * R
 
+        z = reshape_z(z, self.dim_z, 2)   # zp is a column
+
         for k in range(self._num_sigmas):
             self.sigmas_h[k] = self.hx(self.sigmas_f[k], *hx_args)
 
-- 
2.43.0


From 07ea6edf36d8ea677a76a3db7e2de9481e2f7348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 20/60] fix: a failing predict leaves the UKF and CKF estimates
 and sigma points unchanged

---
 filterpy/kalman/CubatureKalmanFilter.py |  8 +++++---
 filterpy/kalman/UKF.py                  | 22 +++++++++++++++-------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 930f5f0..afc8ff2 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -317,13 +317,15 @@ class CubatureKalmanFilter(object):
         sigmas = spherical_radial_sigmas(self.x, self.P)
 
         # evaluate cubature points
+        sigmas_f = zeros(self.sigmas_f.shape)
         for k in range(self._num_sigmas):
-            self.sigmas_f[k] = self.fx(sigmas[k], dt, *fx_args)
+            sigmas_f[k] = self.fx(sigmas[k], dt, *fx_args)
 
-        self.x, self.P = ckf_transform(self.sigmas_f, self.Q)
+        x, P = ckf_transform(sigmas_f, self.Q)
 
         # update cubature points to reflect the prior, including the noise Q
-        self.sigmas_f = spherical_radial_sigmas(self.x, self.P)
+        self.sigmas_f = spherical_radial_sigmas(x, P)
+        self.x, self.P = x, P
 
         # save prior
         self.x_prior = self.x.copy()
diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index d00313a..b32b57a 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -397,14 +397,20 @@ class UnscentedKalmanFilter(object):
             UT = unscented_transform
 
         # calculate sigma points for given mean and covariance
-        self.compute_process_sigmas(dt, fx, **fx_args)
+        sigmas_f = self.sigmas_f
+        try:
+            self.compute_process_sigmas(dt, fx, **fx_args)
 
-        #and pass sigmas through the unscented transform to compute prior
-        self.x, self.P = UT(self.sigmas_f, self.Wm, self.Wc, self.Q,
-                            self.x_mean, self.residual_x)
+            #and pass sigmas through the unscented transform to compute prior
+            x, P = UT(self.sigmas_f, self.Wm, self.Wc, self.Q,
+                      self.x_mean, self.residual_x)
 
-        # update sigma points to reflect the new variance of the points
-        self.sigmas_f = self.points_fn.sigma_points(self.x, self.P)
+            # update sigma points to reflect the new variance of the points
+            sigmas_f = self.points_fn.sigma_points(x, P)
+        finally:
+            # the previous sigma points, if any of the above failed
+            self.sigmas_f = sigmas_f
+        self.x, self.P = x, P
 
         # save prior
         self.x_prior = np.copy(self.x)
@@ -518,8 +524,10 @@ class UnscentedKalmanFilter(object):
         # calculate sigma points for given mean and covariance
         sigmas = self.points_fn.sigma_points(self.x, self.P)
 
+        sigmas_f = zeros(self.sigmas_f.shape)
         for i, s in enumerate(sigmas):
-            self.sigmas_f[i] = fx(s, dt, **fx_args)
+            sigmas_f[i] = fx(s, dt, **fx_args)
+        self.sigmas_f = sigmas_f
 
     def batch_filter(self, zs, Rs=None, dts=None, UT=None, saver=None):
         """
-- 
2.43.0


From 0448bd8d32082567333099723101a1fb98a7f264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 21/60] fix: a failing EnsembleKalmanFilter.predict leaves the
 ensemble unchanged

---
 filterpy/kalman/ensemble_kalman_filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/ensemble_kalman_filter.py b/filterpy/kalman/ensemble_kalman_filter.py
index 83b9bb5..25f72fe 100644
--- a/filterpy/kalman/ensemble_kalman_filter.py
+++ b/filterpy/kalman/ensemble_kalman_filter.py
@@ -276,11 +276,12 @@ class EnsembleKalmanFilter(object):
         """ Predict next position. """
 
         N = self.N
+        sigmas = zeros(self.sigmas.shape)
         for i, s in enumerate(self.sigmas):
-            self.sigmas[i] = self.fx(s, self.dt)
+            sigmas[i] = self.fx(s, self.dt)
 
         e = multivariate_normal(self._mean, self.Q, N)
-        self.sigmas += e
+        self.sigmas = sigmas + e
 
         self.x = np.mean(self.sigmas, axis=0)
         self.P = outer_product_sum(self.sigmas - self.x) / (N - 1)
-- 
2.43.0


From 62df3af1e175532ea9a67212989cbedfc90f36b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 22/60] fix: Saver.save copies property values, and records
 nothing if one of them raises

---
 filterpy/common/helpers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 108a3ae..f5d1b58 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -126,8 +126,8 @@ class Saver(object):
         # force all attributes to be computed. this is only necessary
         # if the class uses properties that compute data only when
         # accessed
-        for prop in self.properties:
-            self._DL[prop[0]].append(getattr(kf, prop[0]))
+        props = [(prop[0], copy.deepcopy(getattr(kf, prop[0])))
+                 for prop in self.properties]
 
         v = copy.deepcopy(kf.__dict__)
 
@@ -145,6 +145,11 @@ class Saver(object):
             if ig in v:
                 del v[ig]
 
+        # nothing is recorded until everything has been computed, so that
+        # the lists stay the same length if the filter raises
+        for key, value in props:
+            self._DL[key].append(value)
+
         for key in list(v.keys()):
             self._DL[key].append(v[key])
 
-- 
2.43.0


From 666e328ff27ddbeb932dc4b56c2dc981f7f1a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 23/60] fix: residual_resample draws the rest from the
 fractional part of N*weights

---
 filterpy/monte_carlo/resampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index e657871..3d33a10 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -67,7 +67,9 @@ def residual_resample(weights):
 
     # use multinormal resample on the residual to fill up the rest. This
     # maximizes the variance of the samples
-    residual = weights - num_copies     # get fractional part
+    residual = N*np.asarray(weights) - num_copies     # get fractional part
+    if k == N:
+        return indexes
     residual /= sum(residual)           # normalize
     cumulative_sum = np.cumsum(residual)
     cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
-- 
2.43.0


From 2925d551065848bc753512b5f58ffdd71ccc0aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 24/60] fix: multinomial and residual resampling never select a
 particle of zero weight

---
 filterpy/monte_carlo/resampling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index 3d33a10..9452ddf 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -72,8 +72,8 @@ def residual_resample(weights):
         return indexes
     residual /= sum(residual)           # normalize
     cumulative_sum = np.cumsum(residual)
-    cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
-    indexes[k:N] = np.searchsorted(cumulative_sum, random(N-k))
+    cumulative_sum = cumulative_sum / cumulative_sum[-1]  # avoid round-off errors
+    indexes[k:N] = np.searchsorted(cumulative_sum, random(N-k), side='right')
 
     return indexes
 
@@ -174,5 +174,5 @@ def multinomial_resample(weights):
         index of the zeroth resample is indexes[0], etc.
     """
     cumulative_sum = np.cumsum(weights)
-    cumulative_sum[-1] = 1.  # avoid round-off errors: ensures sum is exactly one
-    return np.searchsorted(cumulative_sum, random(len(weights)))
+    cumulative_sum = cumulative_sum / cumulative_sum[-1]  # avoid round-off errors
+    return np.searchsorted(cumulative_sum, random(len(weights)), side='right')
-- 
2.43.0


From a0638e4d126df7e0b27059afeeb3b696ab0d259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 25/60] fix: stratified and systematic resampling survive
 round-off in the weights and draws

---
 filterpy/monte_carlo/resampling.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index 9452ddf..76e1fb7 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -104,8 +104,12 @@ def stratified_resample(weights):
     # make N subdivisions, and chose a random position within each one
     positions = (random(N) + range(N)) / N
 
+    # avoid round-off errors: every position is below the last cumulative sum
+    positions = np.minimum(positions, np.nextafter(1., 0.))
+
     indexes = np.zeros(N, 'i')
     cumulative_sum = np.cumsum(weights)
+    cumulative_sum = cumulative_sum / cumulative_sum[-1]
     i, j = 0, 0
     while i < N:
         if positions[i] < cumulative_sum[j]:
@@ -140,8 +144,12 @@ def systematic_resample(weights):
     # make N subdivisions, and choose positions with a consistent random offset
     positions = (random() + np.arange(N)) / N
 
+    # avoid round-off errors: every position is below the last cumulative sum
+    positions = np.minimum(positions, np.nextafter(1., 0.))
+
     indexes = np.zeros(N, 'i')
     cumulative_sum = np.cumsum(weights)
+    cumulative_sum = cumulative_sum / cumulative_sum[-1]
     i, j = 0, 0
     while i < N:
         if positions[i] < cumulative_sum[j]:
-- 
2.43.0


From cde5f81d31e639567f5c0c48197ece47907112e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 26/60] fix: LeastSquaresFilter.update stores the residual it
 documents

---
 filterpy/leastsq/least_squares.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 2610b14..3e61e5e 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -152,6 +152,8 @@ class LeastSquaresFilter(object):
             x[0] += (K[0] * y) + (x[1] * dt) + (.5 * dt**2 * x[2])
             x[1] += (K[1] * y) + (x[2] * dt)
             x[2] += (K[2] * y)
+
+        self.y = y
         return self.x
 
     def errors(self):
-- 
2.43.0


From 459bce4c026d513db6831d9b2644ba86e8a2722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 27/60] fix: FadingMemoryFilter does not truncate its state to
 the integer type of x0

---
 filterpy/memory/fading_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 8b2f66e..7979dc1 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -108,7 +108,7 @@ class FadingMemoryFilter(object):
             self.x = np.zeros(order+1)
             self.x[0] = x0
         else:
-            self.x = np.copy(x0)
+            self.x = np.array(x0, dtype=float)
 
         self.dt = dt
         self.order = order
-- 
2.43.0


From e07a7054e48005e21133eef5a0c3bda372b1c7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 28/60] fix: GHKFilter.batch_filter filters with ddx and k

---
 filterpy/gh/gh_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 260109f..416e703 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -716,6 +716,7 @@ class GHKFilter(object):
 
         x = self.x
         dx = self.dx
+        ddx = self.ddx
         n = len(data)
 
         results = np.zeros((n+1, 2))
@@ -727,14 +728,17 @@ class GHKFilter(object):
 
         # optimization to avoid n computations of h / dt
         h_dt = self.h / self.dt
+        k_dt = 2*self.k / self.dt**2
 
         for i, z in enumerate(data):
             #prediction step
-            x_est = x + (dx*self.dt)
+            x_est = x + (dx*self.dt) + .5*ddx*self.dt**2
+            dx_est = dx + ddx*self.dt
 
             # update step
             residual = z - x_est
-            dx = dx    + h_dt   * residual # i.e. dx = dx + h * residual / dt
+            ddx = ddx  + k_dt   * residual
+            dx = dx_est + h_dt  * residual # i.e. dx = dx + h * residual / dt
             x  = x_est + self.g * residual
 
             results[i+1, 0] = x
-- 
2.43.0


From d15361ebe5eb82f8ec251d6532bb8a678c575798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 29/60] fix: procedural update and update_steadystate accept a
 float state, as documented

---
 filterpy/kalman/kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 77e74bd..2948877 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1473,7 +1473,7 @@ def update(x, P, z, R, H=None, return_all=False):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
@@ -1561,7 +1561,7 @@ def update_steadystate(x, z, K, H=None):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
-- 
2.43.0


From 4c62916bac8ab98f3c1f0722e16f3c3b4da41a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 30/60] fix: procedural update reports a singular system
 uncertainty instead of inverting it elementwise

---
 filterpy/kalman/kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 2948877..9d853e1 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1483,9 +1483,9 @@ def update(x, P, z, R, H=None, return_all=False):
 
 
     # map system uncertainty into kalman gain
-    try:
+    if np.ndim(S) == 2:
         K = dot(dot(P, H.T), linalg.inv(S))
-    except:
+    else:
         # can't invert a 1D array, annoyingly
         K = dot(dot(P, H.T), 1./S)
 
-- 
2.43.0


From 4ace9d17b338d56197ebe7a3a7a0d8bf34ab01cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 31/60] fix: compare_kf returns the attributes that differ

---
 filterpy/common/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index f5d1b58..8f8d1e4 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -471,7 +471,7 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
             different_keys.append(attr)
 
     if len(different_keys) > 0:
-        return different
+        return different_keys
     else:
         return None
 
-- 
2.43.0


From 732192251deca848fb694772fb8c3705d10bb4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:07 +0000
Subject: [PATCH 32/60] fix: discrete_bayes predict and update work with
 integer beliefs

---
 filterpy/discrete_bayes/discrete_bayes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filterpy/discrete_bayes/discrete_bayes.py b/filterpy/discrete_bayes/discrete_bayes.py
index 084ba8c..40e8f54 100644
--- a/filterpy/discrete_bayes/discrete_bayes.py
+++ b/filterpy/discrete_bayes/discrete_bayes.py
@@ -85,7 +85,7 @@ def update(likelihood, prior):
         posterior = update(likelihood, prior)
     """
 
-    posterior = prior * likelihood
+    posterior = np.asarray(prior, dtype=float) * likelihood
     return normalize(posterior)
 
 
@@ -121,6 +121,7 @@ def predict(pdf, offset, kernel, mode='wrap', cval=0.):
         prior = predict(belief, offset=2, kernel=[.1, .8, .1])
     """
 
+    pdf = np.asarray(pdf, dtype=float)
     if mode == 'wrap':
         return convolve(np.roll(pdf, offset), kernel, mode='wrap')
 
-- 
2.43.0


From 848ae23b2605b51f6af00fc5a75901588c53311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:07 +0000
Subject: [PATCH 33/60] fix: UKF.rts_smoother adds states with state_add

---
 filterpy/kalman/UKF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index b32b57a..5e92fcc 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -744,7 +744,7 @@ class UnscentedKalmanFilter(object):
             K = dot(Pxb, self.inv(Pb))
 
             # update the smoothed estimates
-            xs[k] += dot(K, self.residual_x(xs[k+1], xb))
+            xs[k] = self.state_add(xs[k], dot(K, self.residual_x(xs[k+1], xb)))
             ps[k] += dot(K, ps[k+1] - Pb).dot(K.T)
             Ks[k] = K
 
-- 
2.43.0


From d920f6e1fc3b212635bf69172f3720743be9bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 34/60] fix: a CubatureKalmanFilter can be printed and recorded
 before its first measurement

---
 filterpy/kalman/CubatureKalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index afc8ff2..91ec4d1 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -256,7 +256,7 @@ class CubatureKalmanFilter(object):
         self.fx = fx
         self.x_mean = x_mean_fn
         self.z_mean = z_mean_fn
-        self.y = 0
+        self.y = zeros((dim_z, 1))
         self.z = np.array([[None]*self.dim_z]).T
         self.S = np.zeros((dim_z, dim_z)) # system uncertainty
         self.SI = np.zeros((dim_z, dim_z)) # inverse system uncertainty
-- 
2.43.0


From 377fe7db090fcdd11991314f0dcc668f56099377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:21 +0000
Subject: [PATCH 35/60] fix: InformationFilter.predict leaves the estimate
 alone when it fails

---
 filterpy/kalman/information_filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 4fad592..43477e6 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -278,8 +278,10 @@ class InformationFilter(object):
             self._no_information = True
 
         if invertable:
+            # compute everything that can fail before changing the state
+            P_inv = self.inv(AI + self.Q)
             self.x = dot(self._F, self.x) + dot(self.B, u)
-            self.P_inv = self.inv(AI + self.Q)
+            self.P_inv = P_inv
 
             # save priors
             self.P_inv_prior = np.copy(self.P_inv)
-- 
2.43.0


From 8b390f9a8c655f3ec94dc88af7488a55b6c91a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:33 +0000
Subject: [PATCH 36/60] fix: SquareRootKalmanFilter.predict leaves the estimate
 alone when it fails

---
 filterpy/kalman/square_root.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index e7aec86..b2bef4e 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -236,11 +236,11 @@ class SquareRootKalmanFilter(object):
             to create the control input into the system.
         """
 
+        # P = FPF' + Q; factor before changing the state as this can fail
+        _, P2 = qr(np.hstack([dot(self.F, self._P1_2), self._Q1_2]).T)
+
         # x = Fx + Bu
         self.x = dot(self.F, self.x) + dot(self.B, u)
-
-        # P = FPF' + Q
-        _, P2 = qr(np.hstack([dot(self.F, self._P1_2), self._Q1_2]).T)
         self._P1_2 = P2[:self.dim_x, :self.dim_x].T
 
         # copy prior
-- 
2.43.0


From 2966efcdb8d5152d227c25574924a0e4dfc05d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 37/60] fix: EKF.predict_update(None) records the prediction as
 the posterior

---
 filterpy/kalman/EKF.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index fc42a7d..6053dca 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -205,6 +205,9 @@ class ExtendedKalmanFilter(object):
 
         if z is None:
             self.predict(u)
+            self.z = np.array([[None]*self.dim_z]).T
+            self.x_post = self.x.copy()
+            self.P_post = self.P.copy()
             return
 
         if not isinstance(args, tuple):
-- 
2.43.0


From e333b8ead674e3a95e050ac79b569ffcbfbd6adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:19 +0000
Subject: [PATCH 38/60] fix: a failing EKF.predict_update does not record a
 prior

---
 filterpy/kalman/EKF.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 6053dca..a906653 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -230,10 +230,6 @@ class ExtendedKalmanFilter(object):
         x = dot(F, x) + dot(B, u)
         P = dot(F, P).dot(F.T) + Q
 
-        # save prior
-        self.x_prior = np.copy(x)
-        self.P_prior = np.copy(P)
-
         # update step; linearize about the predicted state
         H = HJacobian(x, *args)
         PHT = dot(P, H.T)
@@ -247,7 +243,9 @@ class ExtendedKalmanFilter(object):
         I_KH = self._I - dot(self.K, H)
         self.P = dot(I_KH, P).dot(I_KH.T) + dot(self.K, R).dot(self.K.T)
 
-        # save measurement and posterior state
+        # save prior, measurement and posterior state
+        self.x_prior = np.copy(x)
+        self.P_prior = np.copy(P)
         self.z = deepcopy(z)
         self.x_post = self.x.copy()
         self.P_post = self.P.copy()
-- 
2.43.0


From 2a1f51f870421497e49149df1c4070e444c6c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:56 +0000
Subject: [PATCH 39/60] fix: procedural update reports the likelihood of the
 measurement under the prior

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 9d853e1..645d553 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1505,7 +1505,7 @@ def update(x, P, z, R, H=None, return_all=False):
 
     if return_all:
         # compute log likelihood
-        log_likelihood = logpdf(z, dot(H, x), S)
+        log_likelihood = logpdf(y, cov=S)
         return x, P, y, K, S, log_likelihood
     return x, P
 
-- 
2.43.0


From 86db2d29e7405f28b63c646b5938cf4e8a2dbf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:56 +0000
Subject: [PATCH 40/60] fix: log_likelihood_of uses the prior the last update
 met, as its S does

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 645d553..d4d1416 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1259,7 +1259,7 @@ class KalmanFilter(object):
 
         if z is None:
             return log(sys.float_info.min)
-        return logpdf(z, dot(self.H, self.x), self.S)
+        return logpdf(z, dot(self.H, self.x_prior), self.S)
 
     @alpha.setter
     def alpha(self, value):
-- 
2.43.0


From d9f2924ee6fdd9212b24bd2d94a6e08fdc8bbe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 41/60] fix: a missing measurement leaves the KalmanFilter
 residual and likelihoods of the last one alone

---
 filterpy/kalman/kalman_filter.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index d4d1416..6fe53e5 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -516,7 +516,6 @@ class KalmanFilter(object):
             self.z = np.array([[None]*self.dim_z]).T
             self.x_post = self.x.copy()
             self.P_post = self.P.copy()
-            self.y = zeros((self.dim_z, 1))
             return
 
         if R is None:
@@ -645,7 +644,6 @@ class KalmanFilter(object):
             self.z = np.array([[None]*self.dim_z]).T
             self.x_post = self.x.copy()
             self.P_post = self.P.copy()
-            self.y = zeros((self.dim_z, 1))
             return
 
         z = reshape_z(z, self.dim_z, self.x.ndim)
@@ -706,7 +704,6 @@ class KalmanFilter(object):
             self.z = np.array([[None]*self.dim_z]).T
             self.x_post = self.x.copy()
             self.P_post = self.P.copy()
-            self.y = zeros((self.dim_z, 1))
             return
 
         if R is None:
-- 
2.43.0


From 26486ada530739575d6a60b5a4bdeb499bb43353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:29 +0000
Subject: [PATCH 42/60] fix: order-1 fading-memory filter's stated variance and
 truncation error ignored dt

---
 filterpy/memory/fading_memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 7979dc1..72cc043 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -120,10 +120,10 @@ class FadingMemoryFilter(object):
 
         elif order == 1:
             p11 = (1-beta) * (1+4*beta+5*beta**2) / (1+beta)**3
-            p22 = 2*(1-beta)**3 / (1+beta)**3
+            p22 = 2*(1-beta)**3 / ((1+beta)**3 * dt**2)
             self.P = np.array([p11, p22], dtype=float)
 
-            e = 2*dt*2 * (beta / (1-beta))**2
+            e = 2*dt**2 * (beta / (1-beta))**2
             de = dt*((1+3*beta)/(1-beta))
             self.e = np.array([e, de], dtype=float)
 
-- 
2.43.0


From b4057df164131f28b0b48fbc8aa63e249a4e2174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:18 +0000
Subject: [PATCH 43/60] fix: CubatureKalmanFilter uses the mean and residual
 functions it is given

x_mean_fn, z_mean_fn and residual_x were stored and never called, so states
and measurements containing angles were averaged and subtracted as plain
numbers.
---
 filterpy/kalman/CubatureKalmanFilter.py | 28 +++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 91ec4d1..2aae32f 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -61,7 +61,7 @@ def spherical_radial_sigmas(x, P):
     return sigmas
 
 
-def ckf_transform(Xs, Q):
+def ckf_transform(Xs, Q, mean_fn=None, residual_fn=None):
     """
     Compute mean and covariance of array of cubature points.
 
@@ -74,6 +74,13 @@ def ckf_transform(Xs, Q):
     Q : ndarray
         Noise covariance
 
+    mean_fn : callable (sigma_points, weights), optional
+        Computes the mean of the points, if they cannot simply be averaged.
+
+    residual_fn : callable (x, y), optional
+        Computes the difference of two points, if they cannot simply be
+        subtracted.
+
     Returns
     -------
 
@@ -86,11 +93,18 @@ def ckf_transform(Xs, Q):
 
     m, n = Xs.shape
 
-    x = sum(Xs, 0)[:, None] / m
+    if mean_fn is None:
+        x = sum(Xs, 0)[:, None] / m
+    else:
+        x = np.reshape(mean_fn(Xs, np.full(m, 1. / m)), (n, 1))
     P = np.zeros((n, n))
     xf = x.flatten()
     for k in range(m):
-        P += np.outer(Xs[k], Xs[k]) - np.outer(xf, xf)
+        if mean_fn is None and residual_fn in (None, np.subtract):
+            P += np.outer(Xs[k], Xs[k]) - np.outer(xf, xf)
+        else:
+            y = Xs[k] - xf if residual_fn is None else residual_fn(Xs[k], xf)
+            P += np.outer(y, y)
 
     P *= 1 / m
     P += Q
@@ -321,7 +335,7 @@ class CubatureKalmanFilter(object):
         for k in range(self._num_sigmas):
             sigmas_f[k] = self.fx(sigmas[k], dt, *fx_args)
 
-        x, P = ckf_transform(sigmas_f, self.Q)
+        x, P = ckf_transform(sigmas_f, self.Q, self.x_mean, self.residual_x)
 
         # update cubature points to reflect the prior, including the noise Q
         self.sigmas_f = spherical_radial_sigmas(x, P)
@@ -370,14 +384,16 @@ class CubatureKalmanFilter(object):
             self.sigmas_h[k] = self.hx(self.sigmas_f[k], *hx_args)
 
         # mean and covariance of prediction passed through unscented transform
-        zp, self.S = ckf_transform(self.sigmas_h, R)
+        zp, self.S = ckf_transform(self.sigmas_h, R, self.z_mean, self.residual_z)
         self.SI = inv(self.S)
 
         # compute cross variance of the state and the measurements
         m = self._num_sigmas  # literaure uses m for scaling factor
         xf = self.x.flatten()
         zpf = zp.flatten()
-        Pxz = outer_product_sum(self.sigmas_f - xf, self.sigmas_h - zpf) / m
+        dx = np.array([self.residual_x(s, xf) for s in self.sigmas_f])
+        dz = np.array([self.residual_z(s, zpf) for s in self.sigmas_h])
+        Pxz = outer_product_sum(dx, dz) / m
 
         self.K = dot(Pxz, self.SI)        # Kalman gain
         self.y = self.residual_z(z, zp)   # residual
-- 
2.43.0


From 2f1adfa68484fcd0570f81d63bb35db069f9733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 44/60] fix: compare_kf works on filters with attributes that
 are not numeric

---
 filterpy/common/helpers.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 8f8d1e4..89053e6 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -442,11 +442,32 @@ def outer_product_sum(A, B=None):
     return np.sum(outer, axis=0)
 
 
+def _is_numeric(value):
+    try:
+        return np.asarray(value).dtype.kind in 'biufc'
+    except ValueError: # ragged sequence
+        return False
+
+
+def _is_different(v1, v2, **kwargs):
+    """ True if v1 and v2 have different numeric values"""
+
+    if not (_is_numeric(v1) and _is_numeric(v2)):
+        # e.g. a measurement that is still None in one of the filters
+        return _is_numeric(v1) != _is_numeric(v2)
+
+    try:
+        return not np.allclose(v1, v2, **kwargs)
+    except ValueError: # shapes that cannot be broadcast
+        return True
+
+
 def compare_kf(kf1, kf2, log=True, **kwargs):
     """Compare two Kalman filters.
 
     For each variable each object has in common (x, P, S, K, etc) compare
-    them using np.allclose().
+    them using np.allclose(). Variables that are not numeric (functions,
+    sigma points objects, etc) are not compared.
 
     Prints a report if `log` is true, and returns a list of names if any
     are different, otherwise prints nothing and returns None.
@@ -462,7 +483,7 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
         if attr[0] == "_":
             continue
 
-        if not np.allclose(v1[attr], v2[attr], **kwargs):
+        if _is_different(v1[attr], v2[attr], **kwargs):
             if log:
                 print(attr, "is different")
                 print(pretty_str(attr, v1[attr]))
-- 
2.43.0


From f891bd9c50ff2230d7bad1ae3202dafeab36db5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 45/60] fix: FixedLagSmoother accepts integer states with a
 control input

---
 filterpy/kalman/fixed_lag_smoother.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index d265fa1..b743aad 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -173,7 +173,7 @@ class FixedLagSmoother(object):
         # predict step of normal Kalman filter
         x_pre = dot(F, x)
         if u is not None:
-            x_pre += dot(B, u)
+            x_pre = x_pre + dot(B, u)
 
         P = dot(F, P).dot(F.T) + Q
 
@@ -270,7 +270,7 @@ class FixedLagSmoother(object):
             # predict step of normal Kalman filter
             x_pre = dot(F, x)
             if us is not None:
-                x_pre += dot(B, us[k])
+                x_pre = x_pre + dot(B, us[k])
 
             P = dot(F, P).dot(F.T) + Q
 
-- 
2.43.0


From 490cd2ef6c7fd6f5f1caa5f3318de6b3da85cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 46/60] fix: IMMEstimator does not become NaN when a mode
 cannot be reached

---
 filterpy/kalman/IMM.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index efaf34e..75aa4a7 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -251,7 +251,12 @@ class IMMEstimator(object):
         self.cbar = dot(self.mu, self.M)
         for i in range(self.N):
             for j in range(self.N):
-                self.omega[i, j] = (self.M[i, j]*self.mu[i]) / self.cbar[j]
+                if self.cbar[j] > 0:
+                    self.omega[i, j] = (self.M[i, j]*self.mu[i]) / self.cbar[j]
+                else:
+                    # mode j cannot be reached, so there is nothing to mix;
+                    # its filter carries on with its own estimate
+                    self.omega[i, j] = float(i == j)
 
     def __repr__(self):
         return '\n'.join([
-- 
2.43.0


From 07f24070bc4533615ef3c6ae2ca8375d3f506cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 47/60] fix: GHFilterOrder.update does not write into an array
 assigned to x

---
 filterpy/gh/gh_filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 416e703..8b991aa 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -139,6 +139,9 @@ class GHFilterOrder(object):
         or treatable as the same type as self.x[0].
         """
 
+        # the array may be the caller's own, so never write into it
+        self.x = np.array(self.x, dtype=float)
+
         if self.order == 0:
             if g is None:
                 g = self.g
-- 
2.43.0


From d0efafa7347d086b13cc3f9543b0d9f9fd6b0c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 48/60] fix: FadingMemoryFilter.update does not write into an
 array assigned to x

---
 filterpy/memory/fading_memory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 72cc043..dc143c4 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -161,6 +161,9 @@ class FadingMemoryFilter(object):
         (or treatable as the same type) as self.x[0].
         """
 
+        # the array may be the caller's own, so never write into it
+        self.x = np.array(self.x, dtype=float)
+
         if self.order == 0:
             G = 1 - self.beta
             self.x = self.x + dot(G, (z - self.x))
-- 
2.43.0


From 1da8a1f155c29dcaf6da5f9b984a64cb0f90fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 49/60] fix: MMAEFilterBank.update does not write into an array
 assigned to p

---
 filterpy/kalman/mmae.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 1240009..1ce6c31 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -188,6 +188,9 @@ class MMAEFilterBank(object):
         if H is None:
             H = self.H
 
+        # the array may be the caller's own, so never write into it
+        self.p = np.array(self.p, dtype=float)
+
         # new probability is recursively defined as prior * likelihood
         for i, f in enumerate(self.filters):
             f.update(z, R, H)
-- 
2.43.0


From 4c08504e39c042837f86b648cc24561977fd8227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 50/60] fix: IMMEstimator.predict uses the M and mu assigned
 since the last update

---
 filterpy/kalman/IMM.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index 75aa4a7..e02385d 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -203,6 +203,10 @@ class IMMEstimator(object):
             to create the control input into the system.
         """
 
+        # the transition matrix or the mode probabilities may have been
+        # assigned since the last update
+        self._compute_mixing_probabilities()
+
         # compute mixed initial conditions
         xs, Ps = [], []
         for i, (f, w) in enumerate(zip(self.filters, self.omega.T)):
-- 
2.43.0


From cda3531a8dc1748b5eefdaedeb8c4b0c907c3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 51/60] fix: IMM estimates handed out earlier are not
 overwritten by the next step

---
 filterpy/kalman/IMM.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index e02385d..e1c52e4 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -238,11 +238,12 @@ class IMMEstimator(object):
         Computes the IMM's mixed state estimate from each filter using
         the the mode probability self.mu to weight the estimates.
         """
-        self.x.fill(0)
+        # new arrays: the caller may hold the previous estimate
+        self.x = zeros(self.x.shape)
         for f, mu in zip(self.filters, self.mu):
             self.x += f.x * mu
 
-        self.P.fill(0)
+        self.P = zeros(self.P.shape)
         for f, mu in zip(self.filters, self.mu):
             y = f.x - self.x
             self.P += mu * (outer(y, y) + f.P)
-- 
2.43.0


From f629c29e5f1e352557f7cf5fab7dd4b81af3b9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 52/60] fix: least-squares estimates handed out earlier are not
 overwritten by the next update

---
 filterpy/leastsq/least_squares.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 3e61e5e..8fcde5f 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -123,8 +123,8 @@ class LeastSquaresFilter(object):
         # rename for readability
         n = self.n
         dt = self.dt
-        x = self.x
-        K = self.K
+        x = self.x = self.x.copy()
+        K = self.K = self.K.copy()
         y = self.y
 
         if self._order == 0:
-- 
2.43.0


From 18fdffbd29ee1e6db7ca54fd721fb22d50457589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 53/60] fix: LeastSquaresFilter.errors can be asked before
 enough samples are in

---
 filterpy/leastsq/least_squares.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 8fcde5f..6663ec9 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -188,7 +188,8 @@ class LeastSquaresFilter(object):
                 error[0] = sigma * sqrt(2*(2*n-1) / (n*(n+1)))
                 error[1] = sigma * sqrt(12. / (n*(n*n-1)*dt*dt))
             std[0] = sigma * sqrt((2*(2*n-1)) / (n*(n+1)))
-            std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
+            if n > 1:
+                std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
 
         elif order == 2:
             dt2 = dt * dt
@@ -200,9 +201,10 @@ class LeastSquaresFilter(object):
                 error[2] = sigma * sqrt(720/(n*(n*n-1)*(n*n-4)*dt2*dt2))
 
             std[0] = sigma * sqrt((3*(3*n*n - 3*n + 2)) / (n*(n+1)*(n+2)))
-            std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
-                                       (n*(n*n - 1)*(n*n - 4)))
-            std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
+            if n >= 3:
+                std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
+                                           (n*(n*n - 1)*(n*n - 4)))
+                std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
 
         return error, std
 
-- 
2.43.0


From 5e644975dfea4879206b50e3fd3b152bd52ca867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 54/60] fix: KalmanFilter.update_sequential accepts a
 one-dimensional state

---
 filterpy/kalman/kalman_filter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 6fe53e5..cba914f 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -791,8 +791,9 @@ class KalmanFilter(object):
 
         # y_i = z_i - H_i @ x
         # error (residual) between measurement and prediction
-        y_i = z_i - dot(H_i, self.x)
-        self.y[start:stop] = y_i
+        # (a column here, whichever form the state and residual have)
+        y_i = z_i - np.reshape(dot(H_i, self.x), [length, 1])
+        self.y[start:stop] = np.reshape(y_i, self.y[start:stop].shape)
 
         # common subexpression for speed
         PHT = dot(self.P, H_i.T)
@@ -810,13 +811,13 @@ class KalmanFilter(object):
 
         # x = x + K_i @ y_i
         # update state estimation with residual scaled by the kalman gain
-        self.x = self.x + dot(K_i, y_i)
+        self.x = self.x + np.reshape(dot(K_i, y_i), self.x.shape)
 
         # compute the posterior covariance
         self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(K_i, R_i), K_i.T)
 
         # save measurement component #i and the posterior state
-        self.z[start:stop] = z_i
+        self.z[start:stop] = np.reshape(z_i, self.z[start:stop].shape)
         self.x_post = self.x.copy()
         self.P_post = self.P.copy()
 
-- 
2.43.0


From 474fc1346aa305f84d452605d2c21ce912c366fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 55/60] fix: the g-h trackers record the measurement they
 document

---
 filterpy/gh/gh_filter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 8b991aa..3939363 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -23,6 +23,7 @@ for more information.
 from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
 
+from copy import deepcopy
 import numpy as np
 from numpy import dot
 from filterpy.common import pretty_str
@@ -161,8 +162,6 @@ class GHFilterOrder(object):
             self.x[0] = x + dxdt + g*self.y
             self.x[1] = dx       + h*self.y / self.dt
 
-            self.z = z
-
         else: # order == 2
             if g is None:
                 g = self.g
@@ -183,6 +182,8 @@ class GHFilterOrder(object):
             self.x[1] = dx + ddx*self.dt      + h*self.y / self.dt
             self.x[2] = ddx                 + 2*k*self.y / (self.dt**2)
 
+        self.z = deepcopy(z)
+
     def __repr__(self):
         return '\n'.join([
             'GHFilterOrder object',
@@ -376,6 +377,7 @@ class GHFilter(object):
         self.y = z - self.x_prediction
         self.dx = self.dx_prediction + h * self.y / self.dt
         self.x  = self.x_prediction  + g * self.y
+        self.z = deepcopy(z)
 
         return (self.x, self.dx)
 
@@ -679,6 +681,7 @@ class GHKFilter(object):
         self.ddx = self.ddx_prediction + 2*k*self.y / dt_sqr
         self.dx  = self.dx_prediction  + h * self.y / dt
         self.x   = self.x_prediction   + g * self.y
+        self.z = deepcopy(z)
 
         return (self.x, self.dx)
 
-- 
2.43.0


From d51df804a74d639c3ef451a33aee941c3957ec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 56/60] fix: ExtendedKalmanFilter.predict_update predicts
 through predict_x, which users override

---
 filterpy/kalman/EKF.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index a906653..07a5117 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -219,15 +219,15 @@ class ExtendedKalmanFilter(object):
         if np.isscalar(z) and self.dim_z == 1:
             z = np.asarray([z], float)
 
-        F = self.F
-        B = self.B
         P = self.P
         Q = self.Q
         R = self.R
-        x = self.x
+        x_old = self.x
 
-        # predict step
-        x = dot(F, x) + dot(B, u)
+        # predict step; predict_x() may be overridden, and the update can fail
+        self.predict_x(u)
+        x, self.x = self.x, x_old
+        F = self.F
         P = dot(F, P).dot(F.T) + Q
 
         # update step; linearize about the predicted state
-- 
2.43.0


From 203f40083440fe8551b18ceefd8b00564ab0f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:54 +0000
Subject: [PATCH 57/60] fix: FixedLagSmoother smooths with the covariance of
 the prediction

The gains of the lagged estimates are the steady state ones: the cross
covariance starts at the covariance of the predicted state and moves on by
F(I - KH). The loop started from the updated covariance and used F - KH,
which made the smoothed estimates worse than the filtered ones unless F
was close to the identity.
---
 filterpy/kalman/fixed_lag_smoother.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index b743aad..e7cd1e2 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -176,6 +176,7 @@ class FixedLagSmoother(object):
             x_pre = x_pre + dot(B, u)
 
         P = dot(F, P).dot(F.T) + Q
+        P_pre = P
 
         # update step of normal Kalman filter
         self.y = z - dot(H, x_pre)
@@ -194,10 +195,10 @@ class FixedLagSmoother(object):
 
         #compute invariants
         HTSI = dot(H.T, SI)
-        F_LH = (F - dot(K, H)).T
+        F_LH = dot(F, I_KH).T
 
         if k >= N:
-            PS = P.copy() # smoothed P for step i
+            PS = P_pre # smoothed P for step i
             for i in range(N):
                 K = dot(PS, HTSI)  # smoothed gain
                 PS = dot(PS, F_LH) # smoothed covariance
@@ -273,6 +274,7 @@ class FixedLagSmoother(object):
                 x_pre = x_pre + dot(B, us[k])
 
             P = dot(F, P).dot(F.T) + Q
+            P_pre = P
 
             # update step of normal Kalman filter
             y = z - dot(H, x_pre)
@@ -292,10 +294,10 @@ class FixedLagSmoother(object):
 
             #compute invariants
             HTSI = dot(H.T, SI)
-            F_LH = (F - dot(K, H)).T
+            F_LH = dot(F, I_KH).T
 
             if k >= N:
-                PS = P.copy() # smoothed P for step i
+                PS = P_pre # smoothed P for step i
                 for i in range(N):
                     K = dot(PS, HTSI)  # smoothed gain
                     PS = dot(PS, F_LH) # smoothed covariance
-- 
2.43.0


From 2cbe86813fcfb4bac9ded1cf148b7f25c5de6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:21 +0000
Subject: [PATCH 58/60] fix: IMMEstimator.predict advances the mode
 probabilities

The transition of the modes was applied when a measurement arrived, not when
the states made it. The predicted estimate was weighed with the probabilities
from before the transition, two predictions in a row (a missing measurement)
made one transition only, and two measurements of one instant made two.
---
 filterpy/kalman/IMM.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index e1c52e4..91c98d9 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -179,8 +179,8 @@ class IMMEstimator(object):
             f.update(z)
             self.likelihood[i] = f.likelihood
 
-        # update mode probabilities from total probability * likelihood
-        self.mu = self.cbar * self.likelihood
+        # update mode probabilities from probability * likelihood
+        self.mu = self.mu * self.likelihood
         self.mu /= np.sum(self.mu)  # normalize
 
         self._compute_mixing_probabilities()
@@ -228,6 +228,9 @@ class IMMEstimator(object):
             f.P = Ps[i].copy()
             f.predict(u)
 
+        # the modes have made a transition along with the states
+        self.mu = self.cbar / np.sum(self.cbar)
+
         # compute mixed IMM state and covariance and save posterior estimate
         self._compute_state_estimate()
         self.x_prior = self.x.copy()
-- 
2.43.0


From 83e68246502a7aec631973155abcb7d5aff6548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:21 +0000
Subject: [PATCH 59/60] fix: CubatureKalmanFilter.update uses points of the
 current estimate

A second update after one prediction, or one after the state was assigned,
used the cubature points of the prediction, and the covariance became
negative.
---
 filterpy/kalman/CubatureKalmanFilter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 2aae32f..c93ff82 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -380,6 +380,10 @@ class CubatureKalmanFilter(object):
 
         z = reshape_z(z, self.dim_z, 2)   # zp is a column
 
+        # cubature points of the current estimate, which an earlier update
+        # may have changed since the last prediction
+        self.sigmas_f = spherical_radial_sigmas(self.x, self.P)
+
         for k in range(self._num_sigmas):
             self.sigmas_h[k] = self.hx(self.sigmas_f[k], *hx_args)
 
-- 
2.43.0


From 3767929215db5beee8468b69f86a0e65d13dc077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:21 +0000
Subject: [PATCH 60/60] fix: CubatureKalmanFilter.update keeps the shape of a
 flat state

---
 filterpy/kalman/CubatureKalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index c93ff82..b06ee68 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -402,7 +402,7 @@ class CubatureKalmanFilter(object):
         self.K = dot(Pxz, self.SI)        # Kalman gain
         self.y = self.residual_z(z, zp)   # residual
 
-        self.x = self.x + dot(self.K, self.y)
+        self.x = self.x + np.reshape(dot(self.K, self.y), np.shape(self.x))
         self.P = self.P - dot(self.K, self.S).dot(self.K.T) # pylint: disable=no-member
 
 
-- 
2.43.0

