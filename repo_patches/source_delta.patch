From 0c32161eb4a6e488b8e91c6683482d9d341572db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:35 +0000
Subject: [PATCH 01/12] fix: EllStable scales only the diagonal factor when
 scaling is not deferred

Multiplying the whole storage by kappa also scaled the unit-lower factor L,
so with no_defer_trick the second and later updates worked on a different
ellipsoid and could cut off feasible points.
---
 src/ellalgo/ell_stable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index d0786f1..7b02588 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -253,6 +253,7 @@ class EllStable(SearchSpace[ArrayType]):
         self._kappa *= delta
 
         if self.no_defer_trick:
-            self._mq *= self._kappa
+            # only the diagonal factor carries the scale; L must stay unit lower
+            self._mq[np.diag_indices(self._ndim)] *= self._kappa
             self._kappa = 1.0
         return status
-- 
2.43.0


From 545368eb5403c726a71f11b112a9bc94ff926bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:35 +0000
Subject: [PATCH 02/12] fix: EllStable no longer truncates cuts with an integer
 gradient

The working vectors were copies of the gradient and inherited its integer
dtype, so every intermediate result was silently truncated.
---
 src/ellalgo/ell_stable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 7b02588..132deab 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -193,6 +193,7 @@ class EllStable(SearchSpace[ArrayType]):
             CutStatus.Success
         """
         g, beta = cut
+        g = np.array(g, dtype=float)  # integer gradients must not truncate below
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
         inv_lower_g = g.copy()  # initially
-- 
2.43.0


From 08b5113a57e743b216d5e21c2a3eeb8a40bbfccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:35 +0000
Subject: [PATCH 03/12] fix: EllStable rejects a zero gradient like Ell instead
 of producing NaN

---
 src/ellalgo/ell_stable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 132deab..6a42fb2 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -194,6 +194,8 @@ class EllStable(SearchSpace[ArrayType]):
         """
         g, beta = cut
         g = np.array(g, dtype=float)  # integer gradients must not truncate below
+        if np.all(g == 0.0):
+            raise ValueError("Gradient cannot be a zero vector.")
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
         inv_lower_g = g.copy()  # initially
@@ -213,6 +215,8 @@ class EllStable(SearchSpace[ArrayType]):
         # calculate omega: n
         gg_t = inv_lower_g * inv_diag_inv_lower_g
         omega = sum(gg_t)
+        if omega == 0.0:
+            return CutStatus.NoEffect
 
         self._tsq = self._kappa * omega  # need for helper
 
-- 
2.43.0


From b4d97041c1b0e04330ee8b9b5b4cb8f9eb64dfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:35 +0000
Subject: [PATCH 04/12] fix: EllStable handles cuts that flatten the ellipsoid
 (sigma == 1)

Equality (beta0 == beta1) and tangent cuts give sigma == 1; the rank-one
update then divided by zero (ZeroDivisionError, or NaN factors when the
first component of the transformed gradient is zero).
---
 src/ellalgo/ell_stable.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 6a42fb2..0f45937 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -239,17 +239,20 @@ class EllStable(SearchSpace[ArrayType]):
 
         # rank-one update: 3*n + (n-1)*n/2
         # r = self._sigma / omega
-        mu = sigma / (1.0 - sigma)
-        if mu == 0.0:
+        if sigma == 0.0:
             return status
-        oldt = omega / mu  # initially
+        # sigma >= 1: the ellipsoid becomes flat along g (e.g. an equality cut)
+        oldt = omega * (1.0 - sigma) / sigma if sigma < 1.0 else 0.0  # initially
         v = g.copy()
         for j in range(self._ndim):
             p = v[j]
             temp = inv_diag_inv_lower_g[j]
             newt = oldt + p * temp
-            beta2 = temp / newt
-            self._mq[j, j] *= oldt / newt  # update invD
+            if newt == 0.0:  # nothing accumulated yet: this factor is unchanged
+                beta2 = 0.0
+            else:
+                beta2 = temp / newt
+                self._mq[j, j] *= oldt / newt  # update invD
             for k in range(j + 1, self._ndim):
                 v[k] -= self._mq[j, k]
                 self._mq[k, j] += beta2 * v[k]
-- 
2.43.0


From 1bc9fa728d093dfddafd5a8e599a55ef57197e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 05/12] fix: ellipsoid updates no longer write into arrays
 owned by the caller

The centre was updated in place, so the array given to the constructor (and
any point handed out by xc() or returned as a solution) changed under the
caller, two spaces built from one start point shared their centre, and an
integer start point raised a casting error.
---
 src/ellalgo/ell.py        | 2 +-
 src/ellalgo/ell_stable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index ca45145..8f6f6f4 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -253,7 +253,7 @@ class Ell(SearchSpace[ArrayType]):
         rho, sigma, delta = result
 
         # Update center point: xc -= (rho/omega) * grad_t
-        self._xc -= (rho / omega) * grad_t
+        self._xc = self._xc - (rho / omega) * grad_t
         # Update matrix: M -= (sigma/omega) * grad_t * grad_t^T
         self._mq -= (sigma / omega) * np.outer(grad_t, grad_t)
         # Update scaling factor
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 0f45937..251b018 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -235,7 +235,7 @@ class EllStable(SearchSpace[ArrayType]):
 
         # print(g_t)
         # calculate xc: n
-        self._xc -= (rho / omega) * g_t
+        self._xc = self._xc - (rho / omega) * g_t
 
         # rank-one update: 3*n + (n-1)*n/2
         # r = self._sigma / omega
-- 
2.43.0


From 057f404eca201fd7900a578ce5dbff53094e1892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 06/12] fix: parallel cuts report NoSoln/NoEffect instead of an
 invalid ellipsoid

A pair whose second plane misses the ellipsoid (beta1 < -tau) leaves nothing,
yet was applied with a negative scale factor; a pair too shallow to help
(tau^2 + n*beta0*beta1 < 0) was applied by the non-quantized update with a
negative sigma, giving an ellipsoid that loses allowed points.
---
 src/ellalgo/ell_calc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ellalgo/ell_calc.py b/src/ellalgo/ell_calc.py
index a667d89..186f61c 100644
--- a/src/ellalgo/ell_calc.py
+++ b/src/ellalgo/ell_calc.py
@@ -158,6 +158,10 @@ class EllCalc:
         b1sq = beta1 * beta1
         if beta1 > 0.0 and tsq <= b1sq:
             return self.calc_bias_cut(beta0, tsq)
+        if beta1 < 0.0 and tsq < b1sq:
+            return (CutStatus.NoSoln, None)  # second plane misses the ellipsoid
+        if tsq + self._n_f * (beta0 * beta1) < 0.0:
+            return (CutStatus.NoEffect, None)  # both planes too shallow
         return (
             CutStatus.Success,
             self.helper.calc_parallel_bias_cut(beta0, beta1, tsq),
@@ -251,6 +255,8 @@ class EllCalc:
         b1sq = beta1 * beta1
         if beta1 > 0.0 and tsq <= b1sq:
             return self.calc_bias_cut_q(beta0, tsq)
+        if beta1 < 0.0 and tsq < b1sq:
+            return (CutStatus.NoSoln, None)  # second plane misses the ellipsoid
         b0b1 = beta0 * beta1
         eta = tsq + self._n_f * b0b1
         if eta <= 0.0:  # for discrete optimization
-- 
2.43.0


From 9cf5f17a66e49430b2cf59bff893b1245ff22b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 07/12] fix: Ell treats a direction that rounds to negative
 width as flat

After an equality cut g^T M g may round to a tiny negative number, and the
next cut along g raised 'math domain error'.
---
 src/ellalgo/ell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index 8f6f6f4..7e594dd 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -238,7 +238,7 @@ class Ell(SearchSpace[ArrayType]):
         grad_t = self._mq @ grad  # n^2 multiplications
         # Calculate grad^T * (M * grad)
         omega = grad.dot(grad_t)  # n multiplications
-        if omega == 0.0:
+        if omega <= 0.0:  # flat along grad (may round below zero)
             return CutStatus.NoEffect
         # Update tsq measure
         self._tsq = self._kappa * omega
-- 
2.43.0


From da71138368e9685d4a6fae1de26b788f27e1d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 08/12] fix: conjugate_gradient accepts an initial guess that
 already solves the system

With b = 0 (or an exact x0) the first direction is zero and the solver raised
'did not converge'; an integer x0 raised a casting error.
---
 src/ellalgo/conjugate_gradient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/conjugate_gradient.py b/src/ellalgo/conjugate_gradient.py
index c0b6321..4f9cb57 100644
--- a/src/ellalgo/conjugate_gradient.py
+++ b/src/ellalgo/conjugate_gradient.py
@@ -58,12 +58,14 @@ def conjugate_gradient(
             dimension
         )  # Initialize solution vector with zeros if no initial guess
     else:
-        solution = x0.copy()  # Use provided initial guess
+        solution = np.array(x0, dtype=float)  # Use (a copy of) the initial guess
 
     # Initial residual calculation: residual = b - A*solution
     residual = b - np.dot(A, solution)
     direction = residual.copy()  # Initial search direction is set to residual
     residual_norm_sq = np.dot(residual, residual)  # Squared norm of residual
+    if np.sqrt(residual_norm_sq) < tol:
+        return solution  # The initial guess already solves the system
 
     for iteration in range(max_iter):
         A_direction = np.dot(A, direction)  # Matrix-vector product for line search
-- 
2.43.0


From ed234076504f96f79575bbfac062ae40e58f2ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 09/12] fix: cutting_plane_optim_q keeps its own copy of the
 best point

An oracle may return the queried centre (or a buffer it reuses) as the
evaluation point; the remembered best point then changed with later updates.
---
 src/ellalgo/cutting_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/cutting_plane.py b/src/ellalgo/cutting_plane.py
index aa022eb..ea0a2ce 100644
--- a/src/ellalgo/cutting_plane.py
+++ b/src/ellalgo/cutting_plane.py
@@ -276,7 +276,7 @@ def cutting_plane_optim_q(
         cut, x_q, gamma1, more_alt = omega.assess_optim_q(space_q.xc(), gamma, retry)
         if gamma1 is not None:  # Improved objective value
             gamma = gamma1
-            x_best = x_q
+            x_best = copy.copy(x_q)
         # Update search space with quantized cut
         status = space_q.update_q(cut)
         if status == CutStatus.Success:
-- 
2.43.0


From 7f73394236fb704381472432bbb90de4b6d4354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:40 +0000
Subject: [PATCH 10/12] fix: ellipsoids started from an integer diagonal keep a
 floating-point shape

---
 src/ellalgo/ell.py        | 2 +-
 src/ellalgo/ell_stable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index 7e594dd..5c68a3a 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -83,7 +83,7 @@ class Ell(SearchSpace[ArrayType]):
         else:
             # Case 2: val is a list/array, create diagonal matrix
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(np.asarray(val, dtype=float))
 
     def xc(self) -> ArrayType:
         """
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 251b018..e07e952 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -76,7 +76,7 @@ class EllStable(SearchSpace[ArrayType]):
             self._mq = np.eye(ndim)
         else:
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(np.asarray(val, dtype=float))
 
     def xc(self) -> ArrayType:
         """
-- 
2.43.0


From 8810d01df356a69c700454006a979b7294d9b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:06 +0000
Subject: [PATCH 11/12] fix: LMIOldOracle accepts an integer constant matrix
 like LMIOracle

---
 src/ellalgo/oracles/lmi_old_oracle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/oracles/lmi_old_oracle.py b/src/ellalgo/oracles/lmi_old_oracle.py
index e9b6a10..b354d1c 100644
--- a/src/ellalgo/oracles/lmi_old_oracle.py
+++ b/src/ellalgo/oracles/lmi_old_oracle.py
@@ -76,7 +76,7 @@ class LMIOldOracle(OracleFeas):
             True
         """
         n = len(xc)
-        A = self.mat_f0.copy()
+        A = np.array(self.mat_f0, dtype=float)
         A -= sum(self.mat_f[k] * xc[k] for k in range(n))
         if not self.ldlt_mgr.factorize(A):
             ep = self.ldlt_mgr.witness()
-- 
2.43.0


From 44ff6779eaa6a6ea046e229fb4571d19a23f3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:06 +0000
Subject: [PATCH 12/12] fix: ProfitRbOracle keeps integer elasticities from
 truncating their uncertainty

---
 src/ellalgo/oracles/profit_oracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ellalgo/oracles/profit_oracle.py b/src/ellalgo/oracles/profit_oracle.py
index 0506c69..7d3d27b 100644
--- a/src/ellalgo/oracles/profit_oracle.py
+++ b/src/ellalgo/oracles/profit_oracle.py
@@ -15,7 +15,6 @@ All oracles return cutting planes (subgradient + violation) that the
 cutting-plane algorithm uses to iteratively narrow the search space.
 """
 
-import copy
 import math
 from typing import Optional, Tuple
 
@@ -240,7 +239,7 @@ class ProfitRbOracle(OracleOptim):
         - Decreases effective α, β when y > 0 (conservative adjustment)
         - Increases effective α, β when y ≤ 0 (worst-case scenario)
         """
-        a_rb = copy.copy(self.elasticities)
+        a_rb = np.array(self.elasticities, dtype=float)
         for i in [0, 1]:
             a_rb[i] += -self.uie[i] if xc[i] > 0.0 else self.uie[i]
         self.omega.elasticities = a_rb
-- 
2.43.0

