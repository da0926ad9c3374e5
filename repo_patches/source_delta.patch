From 9b1ea56beb2e4ac51b449c3b269da27e30308be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:16 +0000
Subject: [PATCH 01/10] fix: build the K x K extrapolation matrix in Anderson
 acceleration

U holds one difference of iterates per row, so the normal matrix of the
extrapolation problem is U U^T. With U^T U the system had the size of the
working set, and solving it for K unknowns indexed out of bounds whenever the
working set was smaller than K.
---
 src/solvers/anderson_bcd/mod.rs | 2 +-
 src/solvers/anderson_cd/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/anderson_bcd/mod.rs b/src/solvers/anderson_bcd/mod.rs
index 6b84b73..7989282 100644
--- a/src/solvers/anderson_bcd/mod.rs
+++ b/src/solvers/anderson_bcd/mod.rs
@@ -158,7 +158,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view()); // TODO: change into LAPACK inversion
 
         match _res {
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 6a1b00e..8c31418 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -147,7 +147,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view());
 
         match _res {
-- 
2.43.0


From da94ced0daaffe5f2ea587514451c86f084bc50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:16 +0000
Subject: [PATCH 02/10] fix: pivot in solve_lin_sys when a diagonal entry is
 null

A regular matrix whose elimination meets a null pivot was either reported as
singular or, worse, "solved" with a vector that does not satisfy the system.
---
 src/utils/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index ff74f94..3fa5c85 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -127,6 +127,17 @@ pub mod helpers {
 
         // Echelon form
         for i in 0..size - 1 {
+            // A null pivot is swapped with a non-null one further down its column
+            if system[[i, i]] == F::zero() {
+                for p in i + 1..size {
+                    if system[[p, i]] != F::zero() {
+                        for k in 0..size + 1 {
+                            system.swap([i, k], [p, k]);
+                        }
+                        break;
+                    }
+                }
+            }
             for j in i..size - 1 {
                 if system[[i, i]] == F::zero() {
                     continue;
-- 
2.43.0


From d6d7199cd79a34e693b3448187708cd63a8d4a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:16 +0000
Subject: [PATCH 03/10] fix: block_soft_thresholding returned NaN for a null
 row and threshold 0

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 3fa5c85..8a6ba58 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -22,7 +22,7 @@ pub mod prox_funcs {
     /// [`MultiTaskPenalty::L21`].
     pub fn block_soft_thresholding<F: Float>(x: ArrayView1<F>, threshold: F) -> Array1<F> {
         let norm_x = x.map(|&xi| xi.powi(2)).sum().sqrt();
-        if norm_x < threshold {
+        if norm_x <= threshold {
             return Array1::<F>::zeros(x.len());
         }
         let scale = F::one() - threshold / norm_x;
-- 
2.43.0


From cb94daac217c2b9b6be30d8c5a8050bed5493e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:16 +0000
Subject: [PATCH 04/10] fix: prox_05 returned NaN at 0 for a null threshold

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 8a6ba58..d69d228 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -32,7 +32,7 @@ pub mod prox_funcs {
     /// This function implements the proximal operator of [`Penalty::L05`].
     pub fn prox_05<F: Float>(x: F, threshold: F) -> F {
         let t = F::cast(F::cast(3. / 2.) * threshold.powf(F::cast(2. / 3.)));
-        if x.abs() < t {
+        if x.abs() <= t {
             return F::zero();
         }
         x * F::cast(2. / 3.)
-- 
2.43.0


From 118e668aa2c07ac0a957650821d2cd185039b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:16 +0000
Subject: [PATCH 05/10] fix: BlockL1PlusL2 used the squared gradient norm for
 null rows

---
 src/penalties/block_separable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index 5ef9964..dceb13b 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -169,7 +169,7 @@ impl<F: Float> MultiTaskPenalty<F> for BlockL1PlusL2<F> {
                             .sqrt()
                     }
                     false => {
-                        let norm_grad_j = grad_idx.dot(&grad_idx);
+                        let norm_grad_j = grad_idx.dot(&grad_idx).sqrt();
                         F::max(F::zero(), norm_grad_j - self.alpha * self.l21_ratio)
                     }
                 }
-- 
2.43.0


From 1b5b1d5c78d5cf625b38d47ad26c34050a9c7945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:16 +0000
Subject: [PATCH 06/10] fix: BlockMCP subdifferential distance ignored the
 gradient

---
 src/penalties/block_separable/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index dceb13b..7423eb7 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -270,7 +270,13 @@ impl<F: Float> MultiTaskPenalty<F> for BlockMCP<F> {
                         if norm_W_j < self.alpha * self.gamma {
                             // distance of -grad_j to alpha * W[j] / ||W_j|| - W[j] / gamma
                             let scale = self.alpha / norm_W_j - F::one() / self.gamma;
-                            W_j.map(|&W_ij| (W_ij * scale).powi(2)).sum().sqrt()
+                            grad_idx
+                                .iter()
+                                .zip(W_j)
+                                .fold(F::zero(), |sum, (&grad_ij, &w_ij)| {
+                                    sum + (grad_ij + scale * w_ij).powi(2)
+                                })
+                                .sqrt()
                         } else {
                             // distance of -grad_j to 0
                             grad_idx.dot(&grad_idx).sqrt()
-- 
2.43.0


From a26b19b161755b1264740b7dbd14ffa7d44812df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:31 +0000
Subject: [PATCH 07/10] fix: BlockMCParams accepted gamma below 1

---
 src/estimators/hyperparams.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estimators/hyperparams.rs b/src/estimators/hyperparams.rs
index 17f659d..d6cf52d 100644
--- a/src/estimators/hyperparams.rs
+++ b/src/estimators/hyperparams.rs
@@ -711,6 +711,8 @@ impl<F: Float> ParamGuard for BlockMCParams<F> {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
+        } else if self.0.gamma < F::one() {
+            Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
         } else if self.0.tolerance.is_negative() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
-- 
2.43.0


From 59a571fde85df719434a440656ba075c5d0488c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:31 +0000
Subject: [PATCH 08/10] fix: MCP estimators validated alpha in place of gamma

---
 python/sparseglm/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index ade3d82..e3ad756 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -269,7 +269,7 @@ class MCPRegressor(Estimator):
             use_accel=use_accel, verbose=verbose)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or gamma < 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
@@ -358,7 +358,7 @@ class BlockMCPRegressor(Estimator):
             use_accel=use_accel, max_epochs=max_epochs)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or gamma < 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
-- 
2.43.0


From 2d21f88f09414d0c0adff6a7c03376b1cfaddd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:31 +0000
Subject: [PATCH 09/10] fix: elastic net estimators validated alpha in place of
 l1_ratio

---
 python/sparseglm/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index e3ad756..8c4d317 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -459,7 +459,7 @@ class ElasticNet(Estimator):
         else:
             self.alpha = alpha
 
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or l1_ratio < 0 or l1_ratio > 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
@@ -547,7 +547,7 @@ class MultiTaskElasticNet(Estimator):
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or l1_ratio < 0 or l1_ratio > 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
-- 
2.43.0


From b8761f3489d11107856521f7ba2892f61e8b248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:31 +0000
Subject: [PATCH 10/10] fix: Estimator.predict raised on every fitted estimator

---
 python/sparseglm/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 8c4d317..9091cb3 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -44,7 +44,7 @@ class Estimator(BaseEstimator):
 
     def predict(self, X):
         """Predicts the test set."""
-        if not self.coef_:
+        if self.coef_ is None:
             raise Exception("Estimator must be fitted before inference.")
         return X @ self.coef_.T
 
-- 
2.43.0

