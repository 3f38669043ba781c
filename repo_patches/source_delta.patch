From bc8d4599d5d609765e0873d05b72ba134cd7aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:26 +0000
Subject: [PATCH 01/55] fix: predict_steadystate without an input keeps the
 shape of x when B is set

---
 filterpy/kalman/kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 994b596..f03e5fc 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -560,7 +560,7 @@ class KalmanFilter(object):
         self.x_post = self.x.copy()
         self.P_post = self.P.copy()
 
-    def predict_steadystate(self, u=0, B=None):
+    def predict_steadystate(self, u=None, B=None):
         """
         Predict state (prior) using the Kalman filter state propagation
         equations. Only x is updated, P is left unchanged. See
@@ -583,7 +583,7 @@ class KalmanFilter(object):
             B = self.B
 
         # x = Fx + Bu
-        if B is not None:
+        if B is not None and u is not None:
             self.x = dot(self.F, self.x) + dot(B, u)
         else:
             self.x = dot(self.F, self.x)
-- 
2.43.0


From 05b71ef2b4e1900a96106b61f74246c541e39631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:26 +0000
Subject: [PATCH 02/55] fix: KalmanFilter.batch_filter without inputs keeps the
 shape of x when B is set

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index f03e5fc..0ed5236 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -949,7 +949,7 @@ class KalmanFilter(object):
         if Bs is None:
             Bs = [self.B] * n
         if us is None:
-            us = [0] * n
+            us = [None] * n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From de23f4939fac67ca1e75f88ef892cb8f765bad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:26 +0000
Subject: [PATCH 03/55] fix: update_sequential no longer modifies the array
 assigned to x in place

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 0ed5236..4e25cfd 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -813,7 +813,7 @@ class KalmanFilter(object):
 
         # x = x + K_i @ y_i
         # update state estimation with residual scaled by the kalman gain
-        self.x += dot(K_i, y_i)
+        self.x = self.x + dot(K_i, y_i)
 
         # compute the posterior covariance
         self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(K_i, R_i), K_i.T)
-- 
2.43.0


From 88f38280cc5289fec8f7421af441afcb166f2dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:26 +0000
Subject: [PATCH 04/55] fix: stand-alone update computes the log-likelihood of
 z under the prediction

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 4e25cfd..c67d76f 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1503,7 +1503,7 @@ def update(x, P, z, R, H=None, return_all=False):
 
     if return_all:
         # compute log likelihood
-        log_likelihood = logpdf(z, dot(H, x), S)
+        log_likelihood = logpdf(z, Hx, S)
         return x, P, y, K, S, log_likelihood
     return x, P
 
-- 
2.43.0


From 2c13c5ca49ac2c031dcbd538fc1da5238095b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:26 +0000
Subject: [PATCH 05/55] fix: stand-alone rts_smoother uses the model of step
 k+1 to smooth step k

---
 filterpy/kalman/kalman_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index c67d76f..fe7d7bb 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1848,11 +1848,11 @@ def rts_smoother(Xs, Ps, Fs, Qs):
     x, P, pP = Xs.copy(), Ps.copy(), Ps.copy()
 
     for k in range(n-2, -1, -1):
-        pP[k] = dot(dot(Fs[k], P[k]), Fs[k].T) + Qs[k]
+        pP[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
 
         #pylint: disable=bad-whitespace
-        K[k]  = dot(dot(P[k], Fs[k].T), linalg.inv(pP[k]))
-        x[k] += dot(K[k], x[k+1] - dot(Fs[k], x[k]))
+        K[k]  = dot(dot(P[k], Fs[k+1].T), linalg.inv(pP[k]))
+        x[k] += dot(K[k], x[k+1] - dot(Fs[k+1], x[k]))
         P[k] += dot(dot(K[k], P[k+1] - pP[k]), K[k].T)
 
     return (x, P, K, pP)
-- 
2.43.0


From 32d5fae12e67908ef67ffe6e5a1fc25578eb302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 06/55] fix: stand-alone update and update_steadystate accept
 scalar x as documented

---
 filterpy/kalman/kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index fe7d7bb..f821796 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1471,7 +1471,7 @@ def update(x, P, z, R, H=None, return_all=False):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
@@ -1559,7 +1559,7 @@ def update_steadystate(x, z, K, H=None):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
-- 
2.43.0


From 3c439fe88a56e39e310c6de998e749319fa392ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 07/55] fix: test_matrix_dimensions reports the shape of Q, not
 of P

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index f821796..32886a0 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1342,7 +1342,7 @@ class KalmanFilter(object):
 
         assert Q.shape == (self.dim_x, self.dim_x), \
                "Shape of Q must be ({},{}), but is {}".format(
-                   self.dim_x, self.dim_x, P.shape)
+                   self.dim_x, self.dim_x, Q.shape)
 
         assert F.shape == (self.dim_x, self.dim_x), \
                "Shape of F must be ({},{}), but is {}".format(
-- 
2.43.0


From 58e648399b0312ac566ffab5d6414a657eb1929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:35 +0000
Subject: [PATCH 08/55] fix: batch_filter accepts a missing measurement (None)
 among vector measurements

---
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 filterpy/kalman/fading_memory.py       | 2 +-
 filterpy/kalman/information_filter.py  | 2 +-
 filterpy/kalman/kalman_filter.py       | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 9ed320e..c2ec121 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -185,7 +185,7 @@ class HInfinityFilter(object):
             `covariance[k, :, :]` is the covariance at step `k`.
         """
 
-        n = np.size(Zs, 0)
+        n = len(Zs)
 
         # mean estimates from H-Infinity Filter
         means = zeros((n, self.dim_x, 1))
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 36c9dcc..2bce646 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -314,7 +314,7 @@ class FadingKalmanFilter(object):
             In other words `covariance[k,:,:]` is the covariance at step `k`.
         """
 
-        n = np.size(zs, 0)
+        n = len(zs)
         if Rs is None:
             Rs = [None] * n
 
diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 46724d3..2af4249 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -330,7 +330,7 @@ class InformationFilter(object):
         # this is a copy of the code from kalman_filter, it has not been
         # turned into the information filter yet. DO NOT USE.
 
-        n = np.size(zs, 0)
+        n = len(zs)
         if Rs is None:
             Rs = [None] * n
 
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 32886a0..a0906ca 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -937,7 +937,7 @@ class KalmanFilter(object):
         """
 
         #pylint: disable=too-many-statements
-        n = np.size(zs, 0)
+        n = len(zs)
         if Fs is None:
             Fs = [self.F] * n
         if Qs is None:
@@ -1741,7 +1741,7 @@ def batch_filter(x, P, zs, Fs, Qs, Hs, Rs, Bs=None, us=None,
 
     """
 
-    n = np.size(zs, 0)
+    n = len(zs)
     dim_x = x.shape[0]
 
     # mean estimates from Kalman Filter
-- 
2.43.0


From 66bb59e5fd961a7b9941fee2bbed6a4279647079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 09/55] fix: ExtendedKalmanFilter prediction without input
 keeps the shape of x when B is set

---
 filterpy/kalman/EKF.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 5e83aec..8c4b449 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -222,7 +222,9 @@ class ExtendedKalmanFilter(object):
         H = HJacobian(x, *args)
 
         # predict step
-        x = dot(F, x) + dot(B, u)
+        x = dot(F, x)
+        if not (np.isscalar(u) and u == 0):
+            x = x + dot(B, u)
         P = dot(F, P).dot(F.T) + Q
 
         # save prior
@@ -348,7 +350,9 @@ class ExtendedKalmanFilter(object):
         need to do this, for example, if the usual Taylor expansion to
         generate F is not providing accurate results for you.
         """
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if not (np.isscalar(u) and u == 0):
+            self.x = self.x + dot(self.B, u)
 
     def predict(self, u=0):
         """
-- 
2.43.0


From 9940dcfc438cc0e43a129686caaf4c4df5556b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 10/55] fix: ExtendedKalmanFilter.predict_update linearises and
 records the prior at the prediction, and accepts a missing measurement

---
 filterpy/kalman/EKF.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 8c4b449..1793334 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -219,8 +219,6 @@ class ExtendedKalmanFilter(object):
         R = self.R
         x = self.x
 
-        H = HJacobian(x, *args)
-
         # predict step
         x = dot(F, x)
         if not (np.isscalar(u) and u == 0):
@@ -228,10 +226,19 @@ class ExtendedKalmanFilter(object):
         P = dot(F, P).dot(F.T) + Q
 
         # save prior
-        self.x_prior = np.copy(self.x)
-        self.P_prior = np.copy(self.P)
+        self.x_prior = np.copy(x)
+        self.P_prior = np.copy(P)
+
+        if z is None:
+            self.x = x
+            self.P = P
+            self.z = np.array([[None]*self.dim_z]).T
+            self.x_post = self.x.copy()
+            self.P_post = self.P.copy()
+            return
 
         # update step
+        H = HJacobian(x, *args)
         PHT = dot(P, H.T)
         self.S = dot(H, PHT) + R
         self.SI = linalg.inv(self.S)
-- 
2.43.0


From b08a6b647f037068fe496b1e63c724229bbdc5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 11/55] fix: ExtendedKalmanFilter initialises K with the shape
 of the gain

---
 filterpy/kalman/EKF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 1793334..87b5ad3 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -149,7 +149,7 @@ class ExtendedKalmanFilter(object):
         # gain and residual are computed during the innovation step. We
         # save them so that in case you want to inspect them for various
         # purposes
-        self.K = np.zeros(self.x.shape) # kalman gain
+        self.K = np.zeros((dim_x, dim_z)) # kalman gain
         self.y = zeros((dim_z, 1))
         self.S = np.zeros((dim_z, dim_z))   # system uncertainty
         self.SI = np.zeros((dim_z, dim_z))  # inverse system uncertainty
-- 
2.43.0


From 124fc8aeca062c4217b184754e9efc72bbf0a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 12/55] fix: FadingKalmanFilter prediction without input keeps
 the shape of x when B is set

---
 filterpy/kalman/fading_memory.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 2bce646..5d410d7 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -264,7 +264,9 @@ class FadingKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if not (np.isscalar(u) and u == 0):
+            self.x = self.x + dot(self.B, u)
 
         # P = FPF' + Q
         self.P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
@@ -367,7 +369,9 @@ class FadingKalmanFilter(object):
             State vector and covariance array of the prediction.
         """
 
-        x = dot(self.F, self.x) + dot(self.B, u)
+        x = dot(self.F, self.x)
+        if not (np.isscalar(u) and u == 0):
+            x = x + dot(self.B, u)
         P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
         return (x, P)
 
-- 
2.43.0


From 4ed7cdcba9623913a0b39ad87db595eb88ad214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 13/55] fix: SquareRootKalmanFilter prediction without input
 keeps the shape of x when B is set

---
 filterpy/kalman/square_root.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index d776182..882caf4 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -237,7 +237,9 @@ class SquareRootKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if not (np.isscalar(u) and u == 0):
+            self.x = self.x + dot(self.B, u)
 
         # P = FPF' + Q
         _, P2 = qr(np.hstack([dot(self.F, self._P1_2), self._Q1_2]).T)
-- 
2.43.0


From 4dd954c9a26f918efd4a6225447717edd05137ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 14/55] fix: InformationFilter prediction without input keeps
 the shape of x when B is set

---
 filterpy/kalman/information_filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 2af4249..1e5eb47 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -271,7 +271,9 @@ class InformationFilter(object):
             self._no_information = True
 
         if invertable:
-            self.x = dot(self._F, self.x) + dot(self.B, u)
+            self.x = dot(self._F, self.x)
+            if not (np.isscalar(u) and u == 0):
+                self.x = self.x + dot(self.B, u)
             self.P_inv = self.inv(AI + self.Q)
 
             # save priors
-- 
2.43.0


From 520e953485b8e4e9431a5cb2f51e1d55601c09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 15/55] fix: HInfinityFilter prediction without input keeps the
 shape of x when B is set

---
 filterpy/hinfinity/hinfinity_filter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index c2ec121..3226caa 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -154,7 +154,9 @@ class HInfinityFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if not (np.isscalar(u) and u == 0):
+            self.x = self.x + dot(self.B, u)
 
 
     def batch_filter(self, Zs,update_first=False, saver=False):
@@ -230,7 +232,10 @@ class HInfinityFilter(object):
         x : ndarray
             State vector of the prediction.
         """
-        return dot(self.F, self.x) + dot(self.B, u)
+        x = dot(self.F, self.x)
+        if not (np.isscalar(u) and u == 0):
+            x = x + dot(self.B, u)
+        return x
 
 
     def residual_of(self, z):
-- 
2.43.0


From 8ed411e7781b0df15a010e7285230a671a5a2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 16/55] fix: SquareRootKalmanFilter.P_post reports the
 posterior covariance

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index 882caf4..ef147d1 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -302,7 +302,7 @@ class SquareRootKalmanFilter(object):
     @property
     def P_post(self):
         """ covariance matrix of the posterior"""
-        return dot(self._P1_2_prior, self._P1_2_prior.T)
+        return dot(self._P1_2_post, self._P1_2_post.T)
 
     @property
     def P1_2(self):
-- 
2.43.0


From e943f1f4dc8a98b7bf7f90641cd8bf7897d184a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 17/55] fix: SquareRootKalmanFilter validates dim_x

---
 filterpy/kalman/square_root.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index ef147d1..b7945ad 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -125,12 +125,12 @@ class SquareRootKalmanFilter(object):
     """
 
     def __init__(self, dim_x, dim_z, dim_u=0):
-        if dim_z < 1:
+        if dim_x < 1:
             raise ValueError('dim_x must be 1 or greater')
         if dim_z < 1:
-            raise ValueError('dim_x must be 1 or greater')
+            raise ValueError('dim_z must be 1 or greater')
         if dim_u < 0:
-            raise ValueError('dim_x must be 0 or greater')
+            raise ValueError('dim_u must be 0 or greater')
 
         self.dim_x = dim_x
         self.dim_z = dim_z
-- 
2.43.0


From 5d950b8c985b8726edc247484bb9de1a530417c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 18/55] fix: SquareRootKalmanFilter.update no longer modifies
 the array assigned to x in place

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index b7945ad..ada52af 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -216,7 +216,7 @@ class SquareRootKalmanFilter(object):
 
         # x = x + Ky
         # predict new x with residual scaled by the kalman gain
-        self.x += dot(self.K, self.y)
+        self.x = self.x + dot(self.K, self.y)
         self._P1_2 = r_decomp[dim_z:, dim_z:].T
 
         self.z = deepcopy(z)
-- 
2.43.0


From 84f2a67251ad34872aca42ab30576061fa1181b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 19/55] fix: HInfinityFilter stores the gain it computes

---
 filterpy/hinfinity/hinfinity_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 3226caa..abef4d7 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -124,6 +124,7 @@ class HInfinityFilter(object):
         PL = dot(P, L)
 
         K = dot(F, PL).dot(HTVI)
+        self.K = K
 
         self.y = z - dot(H, x)
 
-- 
2.43.0


From 39e560dc0ade1313cfeb8802eaf13beda092eb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 20/55] fix: HInfinityFilter.batch_filter works without a saver

---
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index abef4d7..10174f0 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -160,7 +160,7 @@ class HInfinityFilter(object):
             self.x = self.x + dot(self.B, u)
 
 
-    def batch_filter(self, Zs,update_first=False, saver=False):
+    def batch_filter(self, Zs,update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
 
         Parameters
-- 
2.43.0


From 3940c9175ab898fc44bae1445e1f846bcfe545cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:23 +0000
Subject: [PATCH 21/55] fix: InformationFilter.update evaluates the likelihood
 with the innovation covariance

---
 filterpy/kalman/information_filter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 1e5eb47..cd9786a 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -23,7 +23,6 @@ import math
 import sys
 import numpy as np
 from numpy import dot, zeros, eye
-from filterpy.stats import logpdf
 from filterpy.common import pretty_str, reshape_z
 
 
@@ -232,7 +231,11 @@ class InformationFilter(object):
             self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
 
             if self.compute_log_likelihood:
-                self.log_likelihood = logpdf(x=self.y, cov=self.S)
+                # inverse of the innovation covariance HPH' + R
+                SI = R_inv - dot(R_inv, H).dot(self.K)
+                d2 = float(dot(self.y.T, SI).dot(self.y))
+                self.log_likelihood = 0.5 * (
+                    np.linalg.slogdet(SI)[1] - self.dim_z*math.log(2*math.pi) - d2)
                 self.likelihood = math.exp(self.log_likelihood)
                 if self.likelihood == 0:
                     self.likelihood = sys.float_info.min
-- 
2.43.0


From c60cf195fabedd75ea8345fa88fe5fe8738fd324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 22/55] fix: textual representations print the attribute each
 label names

---
 filterpy/gh/gh_filter.py               | 4 ++--
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 filterpy/kalman/EKF.py                 | 2 +-
 filterpy/kalman/UKF.py                 | 2 +-
 filterpy/kalman/fading_memory.py       | 4 ++--
 filterpy/kalman/fixed_lag_smoother.py  | 4 ++--
 filterpy/kalman/mmae.py                | 2 +-
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 260109f..f68c65b 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -838,7 +838,7 @@ class GHKFilter(object):
 
     def __repr__(self):
         return '\n'.join([
-            'GHFilter object',
+            'GHKFilter object',
             pretty_str('dt', self.dt),
             pretty_str('g', self.g),
             pretty_str('h', self.h),
@@ -848,7 +848,7 @@ class GHKFilter(object):
             pretty_str('ddx', self.ddx),
             pretty_str('x_prediction', self.x_prediction),
             pretty_str('dx_prediction', self.dx_prediction),
-            pretty_str('ddx_prediction', self.dx_prediction),
+            pretty_str('ddx_prediction', self.ddx_prediction),
             pretty_str('y', self.y),
             pretty_str('z', self.z)
             ])
diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 10174f0..167718e 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -285,7 +285,7 @@ class HInfinityFilter(object):
             pretty_str('dim_x', self.dim_x),
             pretty_str('dim_z', self.dim_z),
             pretty_str('dim_u', self.dim_u),
-            pretty_str('gamma', self.dim_u),
+            pretty_str('gamma', self.gamma),
             pretty_str('x', self.x),
             pretty_str('P', self.P),
             pretty_str('F', self.F),
diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 87b5ad3..1abc2e5 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -422,7 +422,7 @@ class ExtendedKalmanFilter(object):
 
     def __repr__(self):
         return '\n'.join([
-            'KalmanFilter object',
+            'ExtendedKalmanFilter object',
             pretty_str('x', self.x),
             pretty_str('P', self.P),
             pretty_str('x_prior', self.x_prior),
diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index f8baf19..0270131 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -792,7 +792,7 @@ class UnscentedKalmanFilter(object):
             pretty_str('likelihood', self.likelihood),
             pretty_str('mahalanobis', self.mahalanobis),
             pretty_str('sigmas_f', self.sigmas_f),
-            pretty_str('h', self.sigmas_h),
+            pretty_str('sigmas_h', self.sigmas_h),
             pretty_str('Wm', self.Wm),
             pretty_str('Wc', self.Wc),
             pretty_str('residual_x', self.residual_x),
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 5d410d7..36ebcd9 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -448,8 +448,8 @@ class FadingKalmanFilter(object):
     def __repr__(self):
         return '\n'.join([
             'FadingKalmanFilter object',
-            pretty_str('dim_x', self.x),
-            pretty_str('dim_z', self.x),
+            pretty_str('dim_x', self.dim_x),
+            pretty_str('dim_z', self.dim_z),
             pretty_str('dim_u', self.dim_u),
             pretty_str('x', self.x),
             pretty_str('P', self.P),
diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index d265fa1..5be5d28 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -313,8 +313,8 @@ class FixedLagSmoother(object):
     def __repr__(self):
         return '\n'.join([
             'FixedLagSmoother object',
-            pretty_str('dim_x', self.x),
-            pretty_str('dim_z', self.x),
+            pretty_str('dim_x', self.dim_x),
+            pretty_str('dim_z', self.dim_z),
             pretty_str('N', self.N),
             pretty_str('x', self.x),
             pretty_str('x_s', self.x_s),
diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index f28d9de..8a1b879 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -217,5 +217,5 @@ class MMAEFilterBank(object):
             pretty_str('dim_x', self.dim_x),
             pretty_str('x', self.x),
             pretty_str('P', self.P),
-            pretty_str('log-p', self.p),
+            pretty_str('p', self.p),
             ])
-- 
2.43.0


From c2ac0f5c2f84cb465f6bb196a9464d075e28c39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 23/55] fix: MMAEFilterBank covariance uses the deviation of
 each filter from the bank state

---
 filterpy/kalman/mmae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 8a1b879..ade3043 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -201,8 +201,8 @@ class MMAEFilterBank(object):
             for f, p in zip(self.filters, self.p):
                 self.x += np.dot(f.x, p)
 
-        for x, f, p in zip(self.x, self.filters, self.p):
-            y = f.x - x
+        for f, p in zip(self.filters, self.p):
+            y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
 
-- 
2.43.0


From 30b31d55f4367c9cb708ff696ba73fdfc90edfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 24/55] fix: MMAEFilterBank keeps its own floating point copy
 of the probabilities

---
 filterpy/kalman/mmae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index ade3043..64ea0c4 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -110,7 +110,7 @@ class MMAEFilterBank(object):
             raise ValueError('dim_x must be >= 1')
 
         self.filters = filters
-        self.p = np.asarray(p)
+        self.p = np.array(p, dtype=float)
         self.dim_x = dim_x
         if H is None:
             self.H = None
-- 
2.43.0


From 5633f8c326e1565625946feba5000a8341cb95df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 25/55] fix: FixedLagSmoother stores the Kalman gain

---
 filterpy/kalman/fixed_lag_smoother.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index 5be5d28..371ca7e 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -184,6 +184,7 @@ class FixedLagSmoother(object):
         SI = inv(self.S)
 
         K = dot(P, H.T).dot(SI)
+        self.K = K
 
         x = x_pre + dot(K, self.y)
 
-- 
2.43.0


From 03bd45ee5a7620444522226d39f62bca15f44c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 26/55] fix: UnscentedKalmanFilter.rts_smoother uses the
 caller's process noise and the time step from k to k+1

---
 filterpy/kalman/UKF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 0270131..3dc839d 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -715,10 +715,10 @@ class UnscentedKalmanFilter(object):
             # create sigma points from state estimate, pass through state func
             sigmas = self.points_fn.sigma_points(xs[k], ps[k])
             for i in range(num_sigmas):
-                sigmas_f[i] = self.fx(sigmas[i], dts[k])
+                sigmas_f[i] = self.fx(sigmas[i], dts[k+1])
 
             xb, Pb = UT(
-                sigmas_f, self.Wm, self.Wc, self.Q,
+                sigmas_f, self.Wm, self.Wc, Qs[k+1],
                 self.x_mean, self.residual_x)
 
             # compute cross variance
-- 
2.43.0


From c1b9e807b1f9f5ec0c893deeb2426294a309f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 27/55] fix: UnscentedKalmanFilter.batch_filter accepts a
 missing first measurement

---
 filterpy/kalman/UKF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 3dc839d..cfb9351 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -595,7 +595,9 @@ class UnscentedKalmanFilter(object):
         except TypeError:
             raise TypeError('zs must be list-like')
 
-        if self._dim_z == 1:
+        if z is None:
+            pass
+        elif self._dim_z == 1:
             if not(isscalar(z) or (z.ndim == 1 and len(z) == 1)):
                 raise TypeError('zs must be a list of scalars or 1D, 1 element arrays')
         else:
-- 
2.43.0


From 004b10e64c0168e3711f45844e1c8768d115fe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 28/55] fix: CubatureKalmanFilter uses the mean and residual
 functions it accepts

---
 filterpy/kalman/CubatureKalmanFilter.py | 34 ++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index bae2a1a..81df8cb 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -61,7 +61,7 @@ def spherical_radial_sigmas(x, P):
     return sigmas
 
 
-def ckf_transform(Xs, Q):
+def ckf_transform(Xs, Q, mean_fn=None, residual_fn=None):
     """
     Compute mean and covariance of array of cubature points.
 
@@ -74,6 +74,14 @@ def ckf_transform(Xs, Q):
     Q : ndarray
         Noise covariance
 
+    mean_fn : callable (sigma_points, weights), optional
+        Function that computes the mean of the points. If not provided
+        the arithmetic mean is used.
+
+    residual_fn : callable (x, y), optional
+        Function that computes the residual between a point and the mean.
+        If not provided the points are subtracted.
+
     Returns
     -------
 
@@ -86,11 +94,21 @@ def ckf_transform(Xs, Q):
 
     m, n = Xs.shape
 
-    x = sum(Xs, 0)[:, None] / m
+    if mean_fn is None:
+        x = sum(Xs, 0)[:, None] / m
+    else:
+        x = np.reshape(mean_fn(Xs, np.full(m, 1. / m)), (n, 1))
     P = np.zeros((n, n))
     xf = x.flatten()
     for k in range(m):
-        P += np.outer(Xs[k], Xs[k]) - np.outer(xf, xf)
+        if mean_fn is None and (residual_fn is None or residual_fn is np.subtract):
+            P += np.outer(Xs[k], Xs[k]) - np.outer(xf, xf)
+        else:
+            if residual_fn is None:
+                y = Xs[k] - xf
+            else:
+                y = residual_fn(Xs[k], xf)
+            P += np.outer(y, y)
 
     P *= 1 / m
     P += Q
@@ -320,7 +338,8 @@ class CubatureKalmanFilter(object):
         for k in range(self._num_sigmas):
             self.sigmas_f[k] = self.fx(sigmas[k], dt, *fx_args)
 
-        self.x, self.P = ckf_transform(self.sigmas_f, self.Q)
+        self.x, self.P = ckf_transform(
+            self.sigmas_f, self.Q, self.x_mean, self.residual_x)
 
         # save prior
         self.x_prior = self.x.copy()
@@ -363,14 +382,17 @@ class CubatureKalmanFilter(object):
             self.sigmas_h[k] = self.hx(self.sigmas_f[k], *hx_args)
 
         # mean and covariance of prediction passed through unscented transform
-        zp, self.S = ckf_transform(self.sigmas_h, R)
+        zp, self.S = ckf_transform(
+            self.sigmas_h, R, self.z_mean, self.residual_z)
         self.SI = inv(self.S)
 
         # compute cross variance of the state and the measurements
         m = self._num_sigmas  # literaure uses m for scaling factor
         xf = self.x.flatten()
         zpf = zp.flatten()
-        Pxz = outer_product_sum(self.sigmas_f - xf, self.sigmas_h - zpf) / m
+        Pxz = outer_product_sum(
+            np.array([self.residual_x(s, xf) for s in self.sigmas_f]),
+            np.array([self.residual_z(s, zpf) for s in self.sigmas_h])) / m
 
         self.K = dot(Pxz, self.SI)        # Kalman gain
         self.y = self.residual_z(z, zp)   # residual
-- 
2.43.0


From 59ed329930e4271ef8e3a1d02d7d0fdab17c9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 29/55] fix: GHKFilter variance reduction factors use the right
 denominators and time step

---
 filterpy/gh/gh_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index f68c65b..9b6b7c4 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -771,7 +771,7 @@ class GHKFilter(object):
         k = self.k
         gh2 = 2*g + h
         return ((g*k*(gh2-4)+ h*(g*gh2+2*h)) /
-                (2*k - (g*(h+k)*(gh2-4))))
+                ((2*k - g*(h+k)) * (gh2-4)))
 
 
     def bias_error(self, dddx):
@@ -829,8 +829,8 @@ class GHKFilter(object):
         hg4 = 4- 2*g - h
         ghk = g*h + g*k - 2*k
 
-        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*k - g*(h+k) * hg4)
-        vdx = (2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) / (2*hg4*ghk)
+        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*hg4*ghk)
+        vdx = (2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) / ((self.dt**2)*hg4*ghk)
         vddx = 8*h*(k**2) / ((self.dt**4)*hg4*ghk)
 
         return (vx, vdx, vddx)
-- 
2.43.0


From c2e821adbe2954c11d341631f6e2ab1504705e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 30/55] fix: GHKFilter.batch_filter runs the g-h-k recursion

---
 filterpy/gh/gh_filter.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 9b6b7c4..a7fcb06 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -682,10 +682,10 @@ class GHKFilter(object):
 
     def batch_filter(self, data, save_predictions=False):
         """
-        Performs g-h filter with a fixed g and h.
+        Performs g-h-k filter with a fixed g, h and k.
 
-        Uses self.x and self.dx to initialize the filter, but DOES NOT
-        alter self.x and self.dx during execution, allowing you to use this
+        Uses self.x, self.dx and self.ddx to initialize the filter, but DOES
+        NOT alter them during execution, allowing you to use this
         class multiple times without reseting self.x and self.dx. I'm not sure
         how often you would need to do that, but the capability is there.
         More exactly, none of the class member variables are modified
@@ -716,6 +716,7 @@ class GHKFilter(object):
 
         x = self.x
         dx = self.dx
+        ddx = self.ddx
         n = len(data)
 
         results = np.zeros((n+1, 2))
@@ -725,16 +726,19 @@ class GHKFilter(object):
         if save_predictions:
             predictions = np.zeros(n)
 
-        # optimization to avoid n computations of h / dt
+        # optimization to avoid n computations of h / dt and 2k / dt**2
         h_dt = self.h / self.dt
+        k_dt2 = 2*self.k / self.dt**2
 
         for i, z in enumerate(data):
             #prediction step
-            x_est = x + (dx*self.dt)
+            x_est = x + (dx*self.dt) + .5*ddx*self.dt**2
+            dx_est = dx + ddx*self.dt
 
             # update step
             residual = z - x_est
-            dx = dx    + h_dt   * residual # i.e. dx = dx + h * residual / dt
+            ddx = ddx   + k_dt2  * residual # i.e. ddx = ddx + 2k * residual / dt**2
+            dx = dx_est + h_dt   * residual # i.e. dx = dx + h * residual / dt
             x  = x_est + self.g * residual
 
             results[i+1, 0] = x
-- 
2.43.0


From 83e74de5777f44cc4c9201a2f71b95081b10d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 31/55] fix: g-h filters store the last measurement

---
 filterpy/gh/gh_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index a7fcb06..e5d18b6 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -144,6 +144,7 @@ class GHFilterOrder(object):
                 g = self.g
             self.y = z - self.x[0]
             self.x += dot(g, self.y)
+            self.z = z
 
         elif self.order == 1:
             if g is None:
@@ -179,6 +180,7 @@ class GHFilterOrder(object):
             self.x[0] = x + dxdt + 0.5*ddx*T2 + g*self.y
             self.x[1] = dx + ddx*self.dt      + h*self.y / self.dt
             self.x[2] = ddx                 + 2*k*self.y / (self.dt**2)
+            self.z = z
 
     def __repr__(self):
         return '\n'.join([
@@ -371,6 +373,7 @@ class GHFilter(object):
 
         # update step
         self.y = z - self.x_prediction
+        self.z = z
         self.dx = self.dx_prediction + h * self.y / self.dt
         self.x  = self.x_prediction  + g * self.y
 
@@ -672,6 +675,7 @@ class GHKFilter(object):
 
         # update step
         self.y = z - self.x_prediction
+        self.z = z
 
         self.ddx = self.ddx_prediction + 2*k*self.y / dt_sqr
         self.dx  = self.dx_prediction  + h * self.y / dt
-- 
2.43.0


From 90fbcfdc9f270b499a54f4710929e906b6b7b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 32/55] fix: FadingMemoryFilter order 1 truncation error and
 velocity variance scale with the time step

---
 filterpy/memory/fading_memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 8b2f66e..2cdebc8 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -120,10 +120,10 @@ class FadingMemoryFilter(object):
 
         elif order == 1:
             p11 = (1-beta) * (1+4*beta+5*beta**2) / (1+beta)**3
-            p22 = 2*(1-beta)**3 / (1+beta)**3
+            p22 = 2*(1-beta)**3 / ((1+beta)**3 * dt**2)
             self.P = np.array([p11, p22], dtype=float)
 
-            e = 2*dt*2 * (beta / (1-beta))**2
+            e = 2*dt**2 * (beta / (1-beta))**2
             de = dt*((1+3*beta)/(1-beta))
             self.e = np.array([e, de], dtype=float)
 
-- 
2.43.0


From 0f62b76592e6bdb448fb5835a2be3f06f3e37e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 33/55] fix: FadingMemoryFilter accepts an integer initial
 state

---
 filterpy/memory/fading_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 2cdebc8..72cc043 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -108,7 +108,7 @@ class FadingMemoryFilter(object):
             self.x = np.zeros(order+1)
             self.x[0] = x0
         else:
-            self.x = np.copy(x0)
+            self.x = np.array(x0, dtype=float)
 
         self.dt = dt
         self.order = order
-- 
2.43.0


From ba88b497cc6f408d5421b2d0ce7861f010a270ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 34/55] fix: LeastSquaresFilter.errors before enough
 measurements returns zeros instead of failing

---
 filterpy/leastsq/least_squares.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 2610b14..0074423 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -185,8 +185,8 @@ class LeastSquaresFilter(object):
             if n > 1:
                 error[0] = sigma * sqrt(2*(2*n-1) / (n*(n+1)))
                 error[1] = sigma * sqrt(12. / (n*(n*n-1)*dt*dt))
-            std[0] = sigma * sqrt((2*(2*n-1)) / (n*(n+1)))
-            std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
+                std[0] = sigma * sqrt((2*(2*n-1)) / (n*(n+1)))
+                std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
 
         elif order == 2:
             dt2 = dt * dt
@@ -197,10 +197,10 @@ class LeastSquaresFilter(object):
                                         (n*(n*n-1)*(n*n-4)*dt2))
                 error[2] = sigma * sqrt(720/(n*(n*n-1)*(n*n-4)*dt2*dt2))
 
-            std[0] = sigma * sqrt((3*(3*n*n - 3*n + 2)) / (n*(n+1)*(n+2)))
-            std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
-                                       (n*(n*n - 1)*(n*n - 4)))
-            std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
+                std[0] = sigma * sqrt((3*(3*n*n - 3*n + 2)) / (n*(n+1)*(n+2)))
+                std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
+                                           (n*(n*n - 1)*(n*n - 4)))
+                std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
 
         return error, std
 
-- 
2.43.0


From 3a7a8666f3a0ab05456d563bc61b322f2c54abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 35/55] fix: LeastSquaresFilter stores the residual

---
 filterpy/leastsq/least_squares.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 0074423..56efe79 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -129,7 +129,7 @@ class LeastSquaresFilter(object):
 
         if self._order == 0:
             K[0] = 1. / n
-            y = z - x
+            y = z - x[0]
             x[0] += K[0] * y
 
         elif self._order == 1:
@@ -152,6 +152,7 @@ class LeastSquaresFilter(object):
             x[0] += (K[0] * y) + (x[1] * dt) + (.5 * dt**2 * x[2])
             x[1] += (K[1] * y) + (x[2] * dt)
             x[2] += (K[2] * y)
+        self.y = y
         return self.x
 
     def errors(self):
-- 
2.43.0


From b79c572606030774505be320b83eab605a74c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 36/55] fix: compare_kf returns the list of different
 attributes and compares attributes that are not numeric

---
 filterpy/common/helpers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 108a3ae..351c0b1 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -457,7 +457,12 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
         if attr[0] == "_":
             continue
 
-        if not np.allclose(v1[attr], v2[attr], **kwargs):
+        try:
+            same = np.allclose(v1[attr], v2[attr], **kwargs)
+        except (TypeError, ValueError):  # not numeric, or shapes differ
+            same = np.array_equal(v1[attr], v2[attr])
+
+        if not same:
             if log:
                 print(attr, "is different")
                 print(pretty_str(attr, v1[attr]))
@@ -466,7 +471,7 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
             different_keys.append(attr)
 
     if len(different_keys) > 0:
-        return different
+        return different_keys
     else:
         return None
 
-- 
2.43.0


From 1f273fef24479e709152c3b5ddf187f722dc732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 37/55] fix: Saver stores a copy of each property value

---
 filterpy/common/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 351c0b1..e4d6f6e 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -127,7 +127,7 @@ class Saver(object):
         # if the class uses properties that compute data only when
         # accessed
         for prop in self.properties:
-            self._DL[prop[0]].append(getattr(kf, prop[0]))
+            self._DL[prop[0]].append(copy.deepcopy(getattr(kf, prop[0])))
 
         v = copy.deepcopy(kf.__dict__)
 
-- 
2.43.0


From 6bde803e2a33faa276cd575d458d2c4a319f1dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 38/55] fix: residual_resample draws the remainder by the
 fractional parts of N*w

---
 filterpy/monte_carlo/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index e657871..05f2817 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -67,7 +67,7 @@ def residual_resample(weights):
 
     # use multinormal resample on the residual to fill up the rest. This
     # maximizes the variance of the samples
-    residual = weights - num_copies     # get fractional part
+    residual = N*np.asarray(weights) - num_copies     # get fractional part
     residual /= sum(residual)           # normalize
     cumulative_sum = np.cumsum(residual)
     cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
-- 
2.43.0


From 62b4a82d34fc2446d188597fbc28aaaed68ad49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 39/55] fix: stratified and systematic resampling cannot run
 past the last weight by round-off

---
 filterpy/monte_carlo/resampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index 05f2817..3d6f6f6 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -104,6 +104,7 @@ def stratified_resample(weights):
 
     indexes = np.zeros(N, 'i')
     cumulative_sum = np.cumsum(weights)
+    cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
     i, j = 0, 0
     while i < N:
         if positions[i] < cumulative_sum[j]:
@@ -140,6 +141,7 @@ def systematic_resample(weights):
 
     indexes = np.zeros(N, 'i')
     cumulative_sum = np.cumsum(weights)
+    cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
     i, j = 0, 0
     while i < N:
         if positions[i] < cumulative_sum[j]:
-- 
2.43.0


From 665332774237c41b0489ae83d76fb72f05a83673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 40/55] fix: rand_student_t uses a chi-square variate with df
 degrees of freedom

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index b303012..725d3ca 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -1131,7 +1131,7 @@ def rand_student_t(df, mu=0, std=1):
     """
 
     x = random.gauss(0, std)
-    y = 2.0*random.gammavariate(0.5 * df, 2.0)
+    y = random.gammavariate(0.5 * df, 2.0)
     return x / (math.sqrt(y / df)) + mu
 
 
-- 
2.43.0


From 3500376651d7d2e8d8055d2b52278e96cd5f9d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 41/55] fix: plot_gaussian passes its arguments to
 plot_gaussian_pdf by name

---
 filterpy/stats/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index 725d3ca..4c8e439 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -665,8 +665,9 @@ def plot_gaussian(mean=0., variance=1.,
                   'A Gaussian can be plotted as a PDF or CDF. This '\
                   'plots a PDF. Use plot_gaussian_pdf() instead,',
                   DeprecationWarning)
-    return plot_gaussian_pdf(mean, variance, ax, mean_line, xlim, ylim, xlabel,
-                             ylabel, label)
+    return plot_gaussian_pdf(mean=mean, variance=variance, ax=ax,
+                             mean_line=mean_line, xlim=xlim, ylim=ylim,
+                             xlabel=xlabel, ylabel=ylabel, label=label)
 
 
 def covariance_ellipse(P, deviations=1):
-- 
2.43.0


From 69bc151e947be2f01d0256a0bfbe5755ed13a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 42/55] fix: CubatureKalmanFilter.update accepts the documented
 1-D measurement for dim_z > 1

---
 filterpy/kalman/CubatureKalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 81df8cb..1e1c712 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -395,7 +395,7 @@ class CubatureKalmanFilter(object):
             np.array([self.residual_z(s, zpf) for s in self.sigmas_h])) / m
 
         self.K = dot(Pxz, self.SI)        # Kalman gain
-        self.y = self.residual_z(z, zp)   # residual
+        self.y = self.residual_z(np.reshape(z, zp.shape), zp)   # residual
 
         self.x = self.x + dot(self.K, self.y)
         self.P = self.P - dot(self.K, self.S).dot(self.K.T) # pylint: disable=no-member
-- 
2.43.0


From a2de4261f7fbd65b7ab576d97c569f72a0703ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 43/55] fix: CubatureKalmanFilter can be printed and saved
 before the first update

---
 filterpy/kalman/CubatureKalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 1e1c712..529d8f4 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -274,7 +274,7 @@ class CubatureKalmanFilter(object):
         self.fx = fx
         self.x_mean = x_mean_fn
         self.z_mean = z_mean_fn
-        self.y = 0
+        self.y = zeros((dim_z, 1))
         self.z = np.array([[None]*self.dim_z]).T
         self.S = np.zeros((dim_z, dim_z)) # system uncertainty
         self.SI = np.zeros((dim_z, dim_z)) # inverse system uncertainty
-- 
2.43.0


From db7bd71a878d1c7aae1e26712c481af831c77a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 44/55] fix: IMMEstimator.update(None) leaves the estimate
 unchanged as documented

---
 filterpy/kalman/IMM.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index 84808fa..20d860b 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -169,6 +169,13 @@ class IMMEstimator(object):
             measurement for this update.
         """
 
+        if z is None:
+            for f in self.filters:
+                f.update(None)
+            self.x_post = self.x.copy()
+            self.P_post = self.P.copy()
+            return
+
         # run update on each filter, and save the likelihood
         for i, f in enumerate(self.filters):
             f.update(z)
-- 
2.43.0


From 78a9cf8de30ba8f8330ce273c87b93b7609cd489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 45/55] fix: MMAEFilterBank.update(None) leaves the estimate
 unchanged as documented

---
 filterpy/kalman/mmae.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 64ea0c4..45ff7af 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -180,6 +180,14 @@ class MMAEFilterBank(object):
         if H is None:
             H = self.H
 
+        if z is None:
+            for f in self.filters:
+                f.update(None)
+            self.z = None
+            self.x_post = self.x.copy()
+            self.P_post = self.P.copy()
+            return
+
         # new probability is recursively defined as prior * likelihood
         for i, f in enumerate(self.filters):
             f.update(z, R, H)
-- 
2.43.0


From 9d0f89852a0a6b5ce41fe67d84f464ae7a2fde09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 46/55] fix: UnscentedKalmanFilter.batch_filter accepts the
 documented scalar dts

---
 filterpy/kalman/UKF.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index cfb9351..bd87825 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -612,6 +612,8 @@ class UnscentedKalmanFilter(object):
 
         if dts is None:
             dts = [self._dt] * z_n
+        elif isscalar(dts):
+            dts = [dts] * z_n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From 9e76bb032c978a774b89fbfb5310aeb768d7edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 47/55] fix: KalmanFilter.update_sequential supports the
 documented 1-D state

---
 filterpy/kalman/kalman_filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index a0906ca..da86caf 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -794,8 +794,8 @@ class KalmanFilter(object):
 
         # y_i = z_i - H_i @ x
         # error (residual) between measurement and prediction
-        y_i = z_i - dot(H_i, self.x)
-        self.y[start:stop] = y_i
+        y_i = z_i - np.reshape(dot(H_i, self.x), [length, 1])
+        self.y[start:stop] = np.reshape(y_i, self.y[start:stop].shape)
 
         # common subexpression for speed
         PHT = dot(self.P, H_i.T)
@@ -813,13 +813,13 @@ class KalmanFilter(object):
 
         # x = x + K_i @ y_i
         # update state estimation with residual scaled by the kalman gain
-        self.x = self.x + dot(K_i, y_i)
+        self.x = self.x + np.reshape(dot(K_i, y_i), self.x.shape)
 
         # compute the posterior covariance
         self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(K_i, R_i), K_i.T)
 
         # save measurement component #i and the posterior state
-        self.z[start:stop] = z_i
+        self.z[start:stop] = np.reshape(z_i, self.z[start:stop].shape)
         self.x_post = self.x.copy()
         self.P_post = self.P.copy()
 
-- 
2.43.0


From 6fec627aae376f6fee12a292ee5b2153a4157e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 48/55] fix: KalmanFilter.update_sequential no longer leaves
 the likelihood of an earlier measurement

---
 filterpy/kalman/kalman_filter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index da86caf..e5d16e3 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -809,6 +809,12 @@ class KalmanFilter(object):
             K_i = dot(PHT, linalg.inv(S_i))
 
         self.K[:,start:stop] = K_i
+
+        # the innovation of this part is not correlated with those of the others
+        for S, S_part in ((self.S, S_i), (self.SI, linalg.inv(S_i))):
+            S[start:stop, :] = 0.
+            S[:, start:stop] = 0.
+            S[start:stop, start:stop] = S_part
         I_KH = self._I - np.dot(K_i, H_i)
 
         # x = x + K_i @ y_i
@@ -823,6 +829,11 @@ class KalmanFilter(object):
         self.x_post = self.x.copy()
         self.P_post = self.P.copy()
 
+        # set to None to force recompute
+        self._log_likelihood = None
+        self._likelihood = None
+        self._mahalanobis = None
+
     def batch_filter(self, zs, Fs=None, Qs=None, Hs=None,
                      Rs=None, Bs=None, us=None, update_first=False,
                      saver=None):
-- 
2.43.0


From 1d856fff42e940f230367d2775cb11f7bfc431b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 49/55] fix: stand-alone batch_filter accepts a missing input
 as documented

---
 filterpy/kalman/kalman_filter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index e5d16e3..35544ae 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1768,8 +1768,14 @@ def batch_filter(x, P, zs, Fs, Qs, Hs, Rs, Bs=None, us=None,
     covariances_p = zeros((n, dim_x, dim_x))
 
     if us is None:
-        us = [0.] * n
-        Bs = [0.] * n
+        us = [None] * n
+    if Bs is None:
+        Bs = [None] * n
+
+    # a time step without an input or a control matrix has no control term
+    no_control = [B is None or u is None for B, u in zip(Bs, us)]
+    Bs = [0. if skip else B for B, skip in zip(Bs, no_control)]
+    us = [0. if skip else u for u, skip in zip(us, no_control)]
 
     if update_first:
         for i, (z, F, Q, H, R, B, u) in enumerate(zip(zs, Fs, Qs, Hs, Rs, Bs, us)):
-- 
2.43.0


From 5bfc68306295443b11a1788d605aa8d3fe137755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 50/55] fix: KalmanFilter.batch_filter uses a single matrix Hs
 for all epochs as documented

---
 filterpy/kalman/kalman_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 35544ae..e003e03 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -955,6 +955,10 @@ class KalmanFilter(object):
             Qs = [self.Q] * n
         if Hs is None:
             Hs = [self.H] * n
+        elif isinstance(Hs, np.ndarray) and Hs.shape == (self.dim_z, self.dim_x):
+            Hs = [Hs] * n
+        elif len(Hs) == 1:
+            Hs = [Hs[0]] * n
         if Rs is None:
             Rs = [self.R] * n
         if Bs is None:
-- 
2.43.0


From 5f6d5c254c71a839ad7775c4e40fb52973d428f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 51/55] fix: ExtendedKalmanFilter.predict_update ignored an
 overridden predict_x

---
 filterpy/kalman/EKF.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 1abc2e5..6ad5230 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -212,26 +212,13 @@ class ExtendedKalmanFilter(object):
         if np.isscalar(z) and self.dim_z == 1:
             z = np.asarray([z], float)
 
-        F = self.F
-        B = self.B
+        # predict step
+        self.predict(u)
+        x = self.x
         P = self.P
-        Q = self.Q
         R = self.R
-        x = self.x
-
-        # predict step
-        x = dot(F, x)
-        if not (np.isscalar(u) and u == 0):
-            x = x + dot(B, u)
-        P = dot(F, P).dot(F.T) + Q
-
-        # save prior
-        self.x_prior = np.copy(x)
-        self.P_prior = np.copy(P)
 
         if z is None:
-            self.x = x
-            self.P = P
             self.z = np.array([[None]*self.dim_z]).T
             self.x_post = self.x.copy()
             self.P_post = self.P.copy()
-- 
2.43.0


From 41b9e8b25bf4a56d4a4f8de647e18f712b63661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 52/55] fix: RTS smoothers failed on integer means and
 covariances

---
 filterpy/kalman/UKF.py           | 2 +-
 filterpy/kalman/kalman_filter.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index bd87825..20a6a5b 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -712,7 +712,7 @@ class UnscentedKalmanFilter(object):
 
         num_sigmas = self._num_sigmas
 
-        xs, ps = Xs.copy(), Ps.copy()
+        xs, ps = np.array(Xs, float), np.array(Ps, float)
         sigmas_f = zeros((num_sigmas, dim_x))
 
         for k in reversed(range(n-1)):
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index e003e03..64d51f0 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1077,7 +1077,7 @@ class KalmanFilter(object):
         # smoother gain
         K = zeros((n, dim_x, dim_x))
 
-        x, P, Pp = Xs.copy(), Ps.copy(), Ps.copy()
+        x, P, Pp = np.array(Xs, float), np.array(Ps, float), np.array(Ps, float)
         for k in range(n-2, -1, -1):
             Pp[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
 
@@ -1866,7 +1866,7 @@ def rts_smoother(Xs, Ps, Fs, Qs):
 
     # smoother gain
     K = zeros((n, dim_x, dim_x))
-    x, P, pP = Xs.copy(), Ps.copy(), Ps.copy()
+    x, P, pP = np.array(Xs, float), np.array(Ps, float), np.array(Ps, float)
 
     for k in range(n-2, -1, -1):
         pP[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
-- 
2.43.0


From 7625196572b6a31b7356ed7fd09374e9969071b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 53/55] fix: FixedLagSmoother failed for integer x and F with
 an input

---
 filterpy/kalman/fixed_lag_smoother.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index 371ca7e..e572387 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -173,7 +173,7 @@ class FixedLagSmoother(object):
         # predict step of normal Kalman filter
         x_pre = dot(F, x)
         if u is not None:
-            x_pre += dot(B, u)
+            x_pre = x_pre + dot(B, u)
 
         P = dot(F, P).dot(F.T) + Q
 
@@ -271,7 +271,7 @@ class FixedLagSmoother(object):
             # predict step of normal Kalman filter
             x_pre = dot(F, x)
             if us is not None:
-                x_pre += dot(B, us[k])
+                x_pre = x_pre + dot(B, us[k])
 
             P = dot(F, P).dot(F.T) + Q
 
-- 
2.43.0


From be6b1a3a417d76328f118d21ab8ba9a48eaffbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 54/55] fix: stand-alone predict without an input keeps the
 shape of x when B is given

---
 filterpy/kalman/kalman_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 64d51f0..78fd5e9 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1630,7 +1630,9 @@ def predict(x, P, F=1, Q=0, u=0, B=1, alpha=1.):
 
     if np.isscalar(F):
         F = np.array(F)
-    x = dot(F, x) + dot(B, u)
+    x = dot(F, x)
+    if not (np.isscalar(u) and u == 0):
+        x = x + dot(B, u)
     P = (alpha * alpha) * dot(dot(F, P), F.T) + Q
 
     return x, P
@@ -1670,7 +1672,9 @@ def predict_steadystate(x, F=1, u=0, B=1):
 
     if np.isscalar(F):
         F = np.array(F)
-    x = dot(F, x) + dot(B, u)
+    x = dot(F, x)
+    if not (np.isscalar(u) and u == 0):
+        x = x + dot(B, u)
 
     return x
 
-- 
2.43.0


From 8d00e368641c527cc713eb10374b6bd0f586cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 55/55] fix: update_sequential ignored the configured inverse
 function

---
 filterpy/kalman/kalman_filter.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 78fd5e9..fe65dd4 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -803,15 +803,13 @@ class KalmanFilter(object):
         # project system uncertainty into the measurement subspace
         S_i = dot(H_i, PHT) + R_i
 
-        if length == 1:
-            K_i = PHT * (1.0 / S_i)
-        else:
-            K_i = dot(PHT, linalg.inv(S_i))
+        SI_i = self.inv(S_i)
+        K_i = dot(PHT, SI_i)
 
         self.K[:,start:stop] = K_i
 
         # the innovation of this part is not correlated with those of the others
-        for S, S_part in ((self.S, S_i), (self.SI, linalg.inv(S_i))):
+        for S, S_part in ((self.S, S_i), (self.SI, SI_i)):
             S[start:stop, :] = 0.
             S[:, start:stop] = 0.
             S[start:stop, start:stop] = S_part
-- 
2.43.0

