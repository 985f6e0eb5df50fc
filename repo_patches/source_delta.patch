From 625a30511d596d4c3fd2e6317109080eb81bc768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 01/55] fix: let FastMCD partition the data when alpha is an
 integer

---
 robpy/covariance/mcd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index cbc70be..7ca4f31 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -102,6 +102,7 @@ class FastMCD(RobustCovariance):
             self.location_ = X.mean(0)
             return np.cov(X, rowvar=False)
         self.rng = np.random.default_rng(self.random_seed)
+        self._n_obs = X.shape[0]
         # partition data (n_partitions > 1 can speed up algorithm for large datasets)
         partitions = self._partition_data(X)
         self.logger.info(f"Partitioned data into {len(partitions)} partitions")
@@ -197,6 +198,9 @@ class FastMCD(RobustCovariance):
         n, p = X.shape
         if self.alpha is None:
             return int((n + p + 1) / 2)
+        elif isinstance(self.alpha, int) and n < getattr(self, "_n_obs", n):
+            # X is a partition of the data: keep the same proportion of observations
+            return max(int(self.alpha * n / self._n_obs), int((n + p + 1) / 2))
         elif isinstance(self.alpha, int) and (n / 2 <= self.alpha <= n):
             if self.alpha < int((n + p + 1) / 2):
                 warnings.warn(
-- 
2.43.0


From 71c8a1b55197d612c6d6a3ed1af48afa2086e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 02/55] fix: iterate the MCD C-steps until the determinant
 stops decreasing

---
 robpy/covariance/mcd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 7ca4f31..db1a766 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -130,7 +130,7 @@ class FastMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant) < self.tolerance
                 ):
                     break
                 subset = new_subset
@@ -344,7 +344,7 @@ class DetMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant) < self.tolerance
                 ):
                     break
                 subset = new_subset
-- 
2.43.0


From b40bc2abe9723db2db2f63488759a1a1418e86f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 03/55] fix: let the covariance estimators handle data with a
 single feature

---
 robpy/covariance/base.py     |  4 ++--
 robpy/covariance/mcd.py      | 10 +++++-----
 robpy/covariance/wrapping.py |  2 +-
 robpy/utils/distance.py      |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/robpy/covariance/base.py b/robpy/covariance/base.py
index f5b24ea..70777df 100644
--- a/robpy/covariance/base.py
+++ b/robpy/covariance/base.py
@@ -75,11 +75,11 @@ class RobustCovariance(EmpiricalCovariance):
             self.location_ = np.zeros(X.shape[1])
         else:
             self.location_ = X.mean(0)
-        covariance = self.calculate_covariance(X)
+        covariance = np.atleast_2d(self.calculate_covariance(X))
         self._set_covariance(covariance)
         if self.store_precision:
             self.precision_ = pinvh(covariance)
-        self.default_covariance_ = np.cov(X, rowvar=False)
+        self.default_covariance_ = np.atleast_2d(np.cov(X, rowvar=False))
         self._robust_distances = mahalanobis_distance(
             X, location=self.location_, covariance=self.covariance_
         )
diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index db1a766..83fef68 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -252,14 +252,14 @@ class FastMCD(RobustCovariance):
 
         """
         mu = X[indices].mean(axis=0)
-        cov = np.cov(X[indices], rowvar=False)
+        cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
         det = np.linalg.det(cov)
         if ensure_non_singular:
             while math.isclose(det, 0):
                 new_index = self.rng.choice(np.delete(np.arange(X.shape[0]), indices))
                 indices = np.append(indices, new_index)
                 mu = X[indices].mean(axis=0)
-                cov = np.cov(X[indices], rowvar=False)
+                cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
                 det = np.linalg.det(cov)
         return HSubset(indices, mu, cov, det, n_c_steps=n_c_steps)
 
@@ -416,7 +416,7 @@ class DetMCD(RobustCovariance):
         estimates_sigma = []
         estimates_mu = []
         for S in estimates_S:
-            _, E = np.linalg.eigh(S)
+            _, E = np.linalg.eigh(np.atleast_2d(S))
             E = E[:, np.arange(p - 1, -1, -1)]
             B = Z @ E
             L = np.diag(np.power(self._Qn_scale(B), 2))
@@ -487,14 +487,14 @@ class DetMCD(RobustCovariance):
             Hsubset.
         """
         mu = X[indices].mean(axis=0)
-        cov = np.cov(X[indices], rowvar=False)
+        cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
         det = np.linalg.det(cov)
         if ensure_non_singular:
             while math.isclose(det, 0):
                 new_index = np.random.choice(np.delete(np.arange(X.shape[0]), indices))
                 indices = np.append(indices, new_index)
                 mu = X[indices].mean(axis=0)
-                cov = np.cov(X[indices], rowvar=False)
+                cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
                 det = np.linalg.det(cov)
         return HSubset(indices, mu, cov, det, n_c_steps=n_c_steps)
 
diff --git a/robpy/covariance/wrapping.py b/robpy/covariance/wrapping.py
index 56e1d00..b5256e7 100644
--- a/robpy/covariance/wrapping.py
+++ b/robpy/covariance/wrapping.py
@@ -77,5 +77,5 @@ class WrappingCovariance(RobustCovariance):
         X_transformed = wrapping_transformation(
             X, b=self.b, c=self.c, q1=self.q1, q2=self.q2, rescale=True
         )
-        self.correlation_ = np.corrcoef(X_transformed, rowvar=False)
+        self.correlation_ = np.atleast_2d(np.corrcoef(X_transformed, rowvar=False))
         return np.cov(X_transformed, rowvar=False)
diff --git a/robpy/utils/distance.py b/robpy/utils/distance.py
index 3358c86..a067016 100644
--- a/robpy/utils/distance.py
+++ b/robpy/utils/distance.py
@@ -18,7 +18,7 @@ def mahalanobis_distance(
     """
     if isinstance(data, pd.DataFrame):
         data = data.values
-    cov_inv = np.linalg.inv(covariance)
+    cov_inv = np.linalg.inv(np.atleast_2d(covariance))
 
     centered_data = data - location.flatten()
     return np.sqrt(np.sum(centered_data.dot(cov_inv) * centered_data, axis=1))
-- 
2.43.0


From a65bd309fdf178e01df5c4f9d8a29e539d6d76e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 04/55] fix: give observations at the coordinatewise median a
 zero spatial sign in DetMCD

---
 robpy/covariance/mcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 83fef68..29ad489 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -403,7 +403,7 @@ class DetMCD(RobustCovariance):
         S2 = np.corrcoef(R, rowvar=False)
         S3 = np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False)
         znorm = np.sqrt(np.sum(Z * Z, axis=1))
-        w = 1 / znorm
+        w = 1 / np.where(znorm == 0, np.inf, znorm)  # spatial sign of the centre is zero
         S4 = np.dot((Z * w[:, np.newaxis]).T, (Z * w[:, np.newaxis])) / n
         idx = np.argsort(znorm)[: math.ceil(n / 2)]
         S5 = np.cov(Z[idx, :], rowvar=False)
-- 
2.43.0


From ff8f457c1bc7008ac3f68f184e75ceb43a39aa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 05/55] fix: give observations at the L1-median a zero spatial
 sign in PCALocantore

---
 robpy/pca/spca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 11cc106..a90a852 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -37,7 +37,7 @@ class PCALocantore(RobustPCA):
         self.location_ = l1median(X)
         centered_X = X - self.location_
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        w = 1 / d
+        w = 1 / np.where(d == 0, np.inf, d)  # spatial sign of the centre is zero
         spatial_sign_covariance = (
             np.dot((centered_X * w[:, np.newaxis]).T, (centered_X * w[:, np.newaxis])) / n
         )
-- 
2.43.0


From 2af11be9aed4116273e48e8a9322605252c8d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 06/55] fix: let the L1-median terminate when an iterate hits
 an observation, at any data scale

---
 robpy/utils/median.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index cfdef98..0507b94 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -11,16 +11,28 @@ def l1median(X: np.ndarray) -> float:
     References:
         - Fritz, H., Filzmoser, P., & Croux, C. (2012). A comparison of algorithms for the
           multivariate L1-median. Computational Statistics, 27, 393-410.
+        - Vardi, Y., & Zhang, C. H. (2000). The multivariate L1-median and associated data depth.
+          Proceedings of the National Academy of Sciences, 97(4), 1423-1426.
     """
-    epsilon = 1e-7
+    center = np.median(X, axis=0)
+    X = X - center
+    spread = np.median(np.sum(np.abs(X), axis=1))
+    if spread == 0:  # more than half of the observations coincide
+        return center
+    epsilon = 1e-7 * spread
     mu_0 = np.mean(X, axis=0)
     while True:
         centered_X = X - mu_0
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        W = 1 / d
+        W = np.where(d > epsilon, 1 / np.maximum(d, epsilon), 0)
         mu_1 = np.sum((X * W[:, np.newaxis]).T / np.sum(W), axis=1)
+        n_coinciding = np.sum(d <= epsilon)
+        if n_coinciding > 0:  # step of Vardi & Zhang (2000) when mu_0 is an observation
+            gradient_norm = np.linalg.norm(np.sum(centered_X * W[:, np.newaxis], axis=0))
+            step = max(0, 1 - n_coinciding / gradient_norm) if gradient_norm > 0 else 0
+            mu_1 = mu_0 + step * (mu_1 - mu_0)
         if np.sum(np.abs(mu_0 - mu_1)) < epsilon:
-            return mu_1
+            return mu_1 + center
         else:
             mu_0 = mu_1
 
-- 
2.43.0


From a7d815510de759b38f450a39600089169cb0c398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 07/55] fix: draw distinct Stahel-Donoho directions when a
 random seed is given

---
 robpy/utils/outlyingness.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index 977c90b..1ed9f2d 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -32,10 +32,11 @@ def stahel_donoho(
         - Stahel, W. A. (1981). Robuste schätzungen: infinitesimale optimalität und schätzungen von
           kovarianzmatrizen (Doctoral dissertation, ETH Zurich).
     """
-    # step 1: get random directions
+    # step 1: get random directions (one generator, so that a seed yields n_dir distinct draws)
+    rng = np.random.default_rng(random_seed)
     D = np.hstack(
         [
-            _get_random_direction(X, n_points=n_points, random_seed=random_seed).reshape(-1, 1)
+            _get_random_direction(X, n_points=n_points, random_seed=rng).reshape(-1, 1)
             for _ in range(n_dir)
         ]
     )  # (n_features, n_dir)
@@ -54,7 +55,7 @@ def stahel_donoho(
 def _get_random_direction(
     X: np.ndarray,
     n_points: int = 2,
-    random_seed: int | None = None,
+    random_seed: int | np.random.Generator | None = None,
 ) -> np.ndarray:
     """Get direction orthogonal to the hyperplane spanned by random points in X.
 
-- 
2.43.0


From 3a20108fd2392f561f7ff037d22c96d5104fb715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 08/55] fix: keep Stahel-Donoho outlyingness defined for
 duplicated observations and flat directions

---
 robpy/utils/outlyingness.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index 1ed9f2d..b61a5b7 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -45,9 +45,15 @@ def stahel_donoho(
 
     # step 3: outlyingness
     # to do: let scale and loc estimators be passed as arguments
+    deviations = np.abs(projections - np.median(projections, axis=0))
+    scales = median_abs_deviation(projections, axis=0)
     return np.max(
-        np.abs(projections - np.median(projections, axis=0))
-        / median_abs_deviation(projections, axis=0),
+        np.divide(
+            deviations,
+            scales,
+            out=np.where(deviations > 0, np.inf, 0.0),  # no spread in this direction
+            where=scales > 0,
+        ),
         axis=1,
     )
 
@@ -79,4 +85,5 @@ def _get_random_direction(
         # U of SVD gives orthogonal basis, last vector is perpendicular to hyperplane
         d = np.linalg.svd(vectors)[-1][-1]
 
-    return d / np.linalg.norm(d)
+    norm = np.linalg.norm(d)
+    return d / norm if norm > 0 else d
-- 
2.43.0


From 4ced6ced841aaac3c239ad117ee76448e2ce649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 09/55] fix: pass ROBPCA's random seed on to its final MCD step

---
 robpy/pca/robpca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index a94a407..862807f 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -105,7 +105,7 @@ class ROBPCA(RobustPCA):
         self.components_ = eigvecs_v[:, sorted_eig_v_idx[:k]]
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
-            mcd = FastMCD().fit(self.transform(X))
+            mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
             _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
-- 
2.43.0


From bd0ecf09a2a44a169f6212e8ced2b4c5877d658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 10/55] fix: centre ROBPCA robustly instead of at the classical
 mean

---
 robpy/pca/robpca.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 862807f..dba6a64 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -55,7 +55,6 @@ class ROBPCA(RobustPCA):
         # step 1: singular value decomposition = applying standard PCA
         pca = PCA()
         X = pca.fit_transform(X)
-        self.location_ = np.mean(X, axis=0)
         loadings = pca.components_.T
         # step 2: stahel donoho outlyingness --> h subset
         outlyingness = stahel_donoho(X, random_seed=self.random_seed)
@@ -82,6 +81,7 @@ class ROBPCA(RobustPCA):
             h = np.max([int(self.alpha * X.shape[0]), int((X.shape[0] + 10 + 1) / 2)])
 
         h_index = np.argsort(outlyingness)[:h]
+        self.location_ = np.mean(X[h_index], axis=0)
         h_cov = np.cov(X[h_index], rowvar=False)
         # step 3: project on k-dimensional subspace
         eigvals_h, eigvecs_h = np.linalg.eigh(h_cov)
@@ -98,6 +98,7 @@ class ROBPCA(RobustPCA):
         # step 4: orthogonal distance
         orth_dist = np.linalg.norm((X - self.location_) - X_proj, axis=1)
         v_index = np.argwhere(orth_dist < get_od_cutoff(orth_dist)).flatten()
+        self.location_ = np.mean(X[v_index], axis=0)
         cov_v = np.cov(X[v_index], rowvar=False)
         eigvals_v, eigvecs_v = np.linalg.eigh(cov_v)
         k = min(k, np.linalg.matrix_rank(cov_v, hermitian=True))
@@ -106,12 +107,12 @@ class ROBPCA(RobustPCA):
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
             mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
+            self.location_ = self.location_ + self.components_ @ mcd.location_
             _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
         # step 6: transform back to original X
         self.n_components = k
-        X = pca.inverse_transform(X)
         self.components_ = loadings @ self.components_
-        self.location_ = np.mean(X, axis=0)
+        self.location_ = pca.inverse_transform(self.location_.reshape(1, -1)).flatten()
         return self
-- 
2.43.0


From 2282f8d29a265fa9faa6908970cbb7520335cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 11/55] fix: keep ROBPCA's explained variances in line with the
 retained components

---
 robpy/pca/robpca.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index dba6a64..ab8ffc8 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -113,6 +113,8 @@ class ROBPCA(RobustPCA):
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
         # step 6: transform back to original X
         self.n_components = k
+        self.explained_variance_ = self.explained_variance_[:k]
+        self.explained_variance_ratio = self.explained_variance_ratio[:k]
         self.components_ = loadings @ self.components_
         self.location_ = pca.inverse_transform(self.location_.reshape(1, -1)).flatten()
         return self
-- 
2.43.0


From db5e5fb93941520a2ba41edf07390d28f99d21b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 12/55] fix: weight the intercept along with the slopes in
 MMRegression

---
 robpy/regression/mm.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index fc2a958..61a034a 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -52,9 +52,7 @@ class MMRegression(RobustRegression):
             residuals = y - self.model.predict(X)
             scaled_residuals = residuals / self._scale
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
-            self.model = LinearRegression().fit(
-                np.sqrt(weights).reshape(-1, 1) * X, np.sqrt(weights) * y
-            )
+            self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - self.model.predict(X)
             self.n_iter = i + 1
             if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
-- 
2.43.0


From d1562c883ae7cc535ecbc29f94f0dd73d4600c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 13/55] fix: give zero residuals full weight in MMRegression

---
 robpy/regression/mm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 61a034a..9b5e92c 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -51,6 +51,7 @@ class MMRegression(RobustRegression):
         for i in range(self.max_iterations):
             residuals = y - self.model.predict(X)
             scaled_residuals = residuals / self._scale
+            scaled_residuals[scaled_residuals == 0] = np.finfo(np.float64).eps  # avoid 0 / 0
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
             self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - self.model.predict(X)
-- 
2.43.0


From 995d8b70d6762eae3d752c1c420402c254ea5a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 14/55] fix: let MMRegression start from estimators that
 predict a column

---
 robpy/regression/mm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 9b5e92c..9bf01c1 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -49,12 +49,12 @@ class MMRegression(RobustRegression):
         self._scale = self.model.scale
         self.n_iter = 0
         for i in range(self.max_iterations):
-            residuals = y - self.model.predict(X)
+            residuals = y - np.ravel(self.model.predict(X))
             scaled_residuals = residuals / self._scale
             scaled_residuals[scaled_residuals == 0] = np.finfo(np.float64).eps  # avoid 0 / 0
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
             self.model = LinearRegression().fit(X, y, sample_weight=weights)
-            new_residuals = y - self.model.predict(X)
+            new_residuals = y - np.ravel(self.model.predict(X))
             self.n_iter = i + 1
             if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
                 break
-- 
2.43.0


From 35de33f18738b57900343698c4e61f87ba17622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 15/55] fix: reweight FastLTS with a robust residual scale

---
 robpy/regression/lts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index fcb2ce7..fb5911d 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -137,7 +137,8 @@ class FastLTSRegression(RobustRegression):
         )
         if self.reweighting:
             residuals = y.reshape(-1, 1) - self.predict(X)
-            mask = (np.abs(residuals / np.std(residuals)) <= norm.ppf(0.9875)).flatten()
+            robust_scale = np.median(np.abs(residuals)) / norm.ppf(0.75)
+            mask = (np.abs(residuals) <= norm.ppf(0.9875) * robust_scale).flatten()
             self.model = LinearRegression().fit(X[mask, :], y[mask])
             new_subset = np.arange(X.shape[0])[mask]
             best_loss = self._get_loss_value(X, y, new_subset, self.model)
-- 
2.43.0


From d2cbc512c19d1b949fb80f3314f269cd75cac3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 16/55] fix: always add the intercept column in SRegression

---
 robpy/regression/s.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index f06d0b5..ed132b7 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -85,7 +85,7 @@ class SRegression(RobustRegression):
 
         X, y = _convert_input_to_array(X, y)
         if self.fit_intercept:
-            X = add_constant(X)
+            X = add_constant(X, has_constant="add")
         models, scales = self._get_initial_models(X, y)
         self.logger.info(f"Fitted {len(models)} initial models.")
         best_idx = np.argsort(scales)[: self.n_best_subsets]
@@ -130,7 +130,7 @@ class SRegression(RobustRegression):
             raise NotFittedError
         X, _ = _convert_input_to_array(X)
         if self.fit_intercept:
-            X = add_constant(X)
+            X = add_constant(X, has_constant="add")
         return self.model.predict(X)
 
     def _get_scale(self, s0: float, residuals: np.ndarray):
-- 
2.43.0


From 41c934a043fe64b803e8811e6cef2784a7f15bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 17/55] fix: keep the initial fit in MMRegression when its
 scale is zero

---
 robpy/regression/mm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 9bf01c1..9a321d1 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -48,6 +48,8 @@ class MMRegression(RobustRegression):
         self.model = self.initial_estimator.fit(X, y)
         self._scale = self.model.scale
         self.n_iter = 0
+        if self._scale == 0:  # the initial estimator fits the majority of the data exactly
+            return self
         for i in range(self.max_iterations):
             residuals = y - np.ravel(self.model.predict(X))
             scaled_residuals = residuals / self._scale
-- 
2.43.0


From 0ef4d29b3b3268b108b4cee977f077e611ba4aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 18/55] fix: use an attainable constant in SRegression's
 M-scale equation

---
 robpy/regression/s.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index ed132b7..48e4e6d 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -17,7 +17,7 @@ class SRegression(RobustRegression):
         n_initial_i_steps: int = 2,
         n_best_subsets: int = 5,
         max_scale_iterations: int = 2,
-        b: float = 0.5,
+        b: float = 0.1995,
         fit_intercept: bool = True,
         relative_tolerance: float = 1e-7,
         scale_tolerance: float = 1e-10,
@@ -45,7 +45,8 @@ class SRegression(RobustRegression):
                 Number of iterative steps to derive M-scale estimates (`r` in the original paper).
                 Defaults to 2.
             b (float, optional):
-                constant on the RHS of the M scale equation. Defaults to 0.5.
+                constant on the RHS of the M scale equation. Defaults to 0.1995, the expected value
+                of the default rho at the standard normal model and half of its maximum.
             fit_intercept (bool, optional):
                 Whether an intercept should be included in the linear regression. Defaults to True.
             relative_tolerance (float, optional):
-- 
2.43.0


From 5be9e7697e6142618d8b5badb843fa11db5c644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 19/55] fix: accept DataFrame, Series and 1-d input in
 outlier_map

---
 robpy/regression/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/regression/base.py b/robpy/regression/base.py
index c3dec59..0fefba8 100644
--- a/robpy/regression/base.py
+++ b/robpy/regression/base.py
@@ -80,6 +80,7 @@ class RobustRegression(RegressorMixin, BaseEstimator):
               points. Journal of the American Statistical Association,  85(411), 633–651.
         """
 
+        X, y = _convert_input_to_array(X, y)
         residuals = y.reshape(-1, 1) - self.predict(X).reshape(-1, 1)
         standardized_residuals = (
             residuals
-- 
2.43.0


From 969945981db58f1c2898b27b3584e85c21339d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 20/55] fix: let RobustPowerTransformer extend its lambda range
 and be cloned

---
 robpy/preprocessing/transfo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 776a8cf..9effaea 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -42,7 +42,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
         self.method = method
         self.standardize = standardize
-        self.lambda_range = list(lambda_range)
+        self.lambda_range = lambda_range
         self.quantile = quantile
         self.nsteps = nsteps
         self.logger = logging.getLogger("RobustPowerTransformer")
@@ -154,7 +154,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range, dtype=float)
         converged = False
         while not converged:
             if self.standardize:
@@ -185,7 +185,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range, dtype=float)
         converged = False
         while not converged:
             if self.standardize:
-- 
2.43.0


From ce9b6969bfac0bb80f2f4a0382c9ce65caa30fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 21/55] fix: standardize once in RobustPowerTransformer,
 whatever the number of lambda ranges tried

---
 robpy/preprocessing/transfo.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 9effaea..37b6384 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -156,12 +156,12 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
         lambdarange = np.array(self.lambda_range, dtype=float)
         converged = False
+        if self.standardize:
+            scale_boxcox = np.median(x)
+            x = x / scale_boxcox
+        else:
+            scale_boxcox = None
         while not converged:
-            if self.standardize:
-                scale_boxcox = np.median(x)
-                x = x / scale_boxcox
-            else:
-                scale_boxcox = None
             lambda_raw = self._calculate_lambda_0(x, "boxcox_rect", lambdarange)
             lambda_rew, mu_rew_boxcox, sd_rew_boxcox = self._reweighted_max_likelihood_robust(
                 x,
@@ -187,13 +187,13 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
         lambdarange = np.array(self.lambda_range, dtype=float)
         converged = False
+        if self.standardize:
+            loc_yeojohnson = np.median(x)
+            scale_yeojohnson = median_abs_deviation(x, scale="normal")
+            x = (x - loc_yeojohnson) / scale_yeojohnson
+        else:
+            loc_yeojohnson, scale_yeojohnson = None, None
         while not converged:
-            if self.standardize:
-                loc_yeojohnson = np.median(x)
-                scale_yeojohnson = median_abs_deviation(x, scale="normal")
-                x = (x - loc_yeojohnson) / scale_yeojohnson
-            else:
-                loc_yeojohnson, scale_yeojohnson = None, None
             lambda_raw = self._calculate_lambda_0(x, "yeojohnson_rect", lambdarange)
             (
                 lambda_rew,
-- 
2.43.0


From cd167786d599a1f64f1a0396516a69353ea85ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 22/55] fix: do not truncate power-transformed integers

---
 robpy/preprocessing/transfo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 37b6384..d148d3b 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -263,7 +263,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             raise ValueError(
                 "Data values should be strictly positive for a Box-Cox transformation."
             )
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x - 1.0
@@ -341,7 +341,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.log(1.0 + x[positive_mask])
@@ -366,7 +366,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
     ):
         """Rectified Yeo-Johnson transformation."""
 
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x
@@ -454,7 +454,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation inversed."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.exp(x[positive_mask]) - 1.0
-- 
2.43.0


From a386029d34736289fbce5f133210303eb6b7f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 23/55] fix: make every DataCleaner.transform independent of
 the previous ones

---
 robpy/preprocessing/data_cleaner.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 49d6d82..33e9f24 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -167,16 +167,18 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _set_missing_cols_and_rows(self, X: pd.DataFrame):
         """Clean missing values."""
-        if self.clean_na_first == "automatic":
-            self.clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
+        clean_na_first = self.clean_na_first
+        if clean_na_first == "automatic":
+            clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
+        self.cols_missings, self.rows_missings = [], []  # forget any previous transform
 
         X = X.replace([np.inf, -np.inf], np.nan).drop(
             columns=self.non_numeric_cols + self.cols_discrete + self.cols_bad_scale
         )
-        if self.clean_na_first == "columns":
+        if clean_na_first == "columns":
             self._set_missing_cols(X)
             self._set_missing_rows(X)
-        elif self.clean_na_first == "rows":
+        elif clean_na_first == "rows":
             self._set_missing_rows(X)
             self._set_missing_cols(X)
         else:
-- 
2.43.0


From 5659b49b2c9d50a814f04b53173106413b89ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 24/55] fix: let DataCleaner drop categorical and string
 columns

---
 robpy/preprocessing/data_cleaner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 33e9f24..5f6e1cf 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -158,7 +158,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
     def _get_non_numeric_columns_to_drop(self, X: pd.DataFrame):
         """Store non-numeric columns to drop."""
         self.non_numeric_cols = X.columns[
-            X.apply(lambda s: pd.to_numeric(s.fillna(0), errors="coerce")).isna().any()
+            X.apply(lambda s: pd.to_numeric(s.astype(object).where(s.notna(), 0), errors="coerce")).isna().any()
         ].tolist()
 
     def _set_row_numbers_cols(self, X: pd.DataFrame):
-- 
2.43.0


From c0e686eb7caaa88bdfc6f801bda93412fc7bda90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 25/55] fix: drop only the offending rows in DataCleaner when
 index labels repeat

---
 robpy/preprocessing/data_cleaner.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 5f6e1cf..247b873 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -97,7 +97,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             ),
         )
 
-        X = X.drop(index=self.rows_missings)
+        X = X[~self._rows_missings_mask]
 
         self.logger.info(f"The final data has {X.shape[0]} rows and {X.shape[1]} columns.")
 
@@ -171,6 +171,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         if clean_na_first == "automatic":
             clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
         self.cols_missings, self.rows_missings = [], []  # forget any previous transform
+        self._rows_missings_mask = np.zeros(len(X), dtype=bool)
 
         X = X.replace([np.inf, -np.inf], np.nan).drop(
             columns=self.non_numeric_cols + self.cols_discrete + self.cols_bad_scale
@@ -205,12 +206,13 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _set_missing_cols(self, X: pd.DataFrame):
         """Remove columns with too many missings"""
-        if hasattr(self, "rows_missings"):
-            X = X.drop(index=self.rows_missings)
+        X = X[~self._rows_missings_mask]
         self.cols_missings = X.columns[X.isna().mean() >= self.max_missing_frac_cols].tolist()
 
     def _set_missing_rows(self, X: pd.DataFrame):
         """Remove rows with too many missings"""
         if hasattr(self, "cols_missings"):
             X = X.drop(columns=self.cols_missings)
-        self.rows_missings = X.index[X.isna().mean(axis=1) >= self.max_missing_frac_rows].tolist()
+        # index labels need not be unique, so keep a mask of the rows as well
+        self._rows_missings_mask = (X.isna().mean(axis=1) >= self.max_missing_frac_rows).values
+        self.rows_missings = X.index[self._rows_missings_mask].tolist()
-- 
2.43.0


From da3a2882f93ab7c47fad9566b556699b3ca24914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 26/55] fix: return a finite UnivariateMCD when h observations
 coincide

---
 robpy/univariate/mcd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/univariate/mcd.py b/robpy/univariate/mcd.py
index 11a439b..e8a00dc 100644
--- a/robpy/univariate/mcd.py
+++ b/robpy/univariate/mcd.py
@@ -63,6 +63,8 @@ class UnivariateMCD(RobustScale):
         return raw_var, raw_loc
 
     def _reweighting(self, X: np.ndarray):
+        if self.raw_variance_ == 0:  # at least h observations coincide
+            return self.raw_variance_, self.raw_location_
         distances = (X - self.raw_location_) ** 2 / self.raw_variance_
         mask = distances < chi2.ppf(0.975, df=1)
         loc = np.mean(X[mask])
-- 
2.43.0


From 56e2a8995c0f253566576addda8807fbb035f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 27/55] fix: return a finite Tau estimate when the MAD is zero

---
 robpy/univariate/tau.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robpy/univariate/tau.py b/robpy/univariate/tau.py
index ca73465..3922c65 100644
--- a/robpy/univariate/tau.py
+++ b/robpy/univariate/tau.py
@@ -41,6 +41,9 @@ class Tau(RobustScale):
         """
         n = len(X)
         sigma0 = median_abs_deviation(X)
+        if sigma0 == 0:  # at least half of the observations coincide
+            self.location_, self.scale_ = np.median(X), 0.0
+            return
         weights = self._weight_function((X - np.median(X)) / sigma0)
         self.location_ = np.sum(X * weights) / np.sum(weights)
         self.scale_ = sigma0 * np.sqrt(
-- 
2.43.0


From e6b443bc76c65bb4996ad41f638c3d01fda03891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 28/55] fix: raise the documented ValueError when an unfitted
 DDC is used

---
 robpy/outliers/ddc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index b09026c..fb3abe0 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -55,6 +55,7 @@ class DDC(OutlierMixin):
         self.cutoff = np.sqrt(chi2.ppf(chi2_quantile, df=1))
         self.min_correlation = min_correlation
         self.scale_estimator = scale_estimator
+        self.is_fitted_ = False
 
     def fit(self, X: pd.DataFrame, y=None, verbose: bool = False):
         self._check_data_conditions(X)
-- 
2.43.0


From edeca87a30a55b3a7ce617d1717750f4fe424685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 29/55] fix: let DDC predict from the columns that
 min_correlation selects

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index fb3abe0..966d239 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -396,7 +396,7 @@ class DDC(OutlierMixin):
             weights = np.repeat(
                 [
                     [
-                        np.abs(r) * (np.abs(r) >= 0.5) * (idx != i)
+                        np.abs(r) * (np.abs(r) >= self.min_correlation) * (idx != i)
                         for idx, r in enumerate(self.robust_correlation_[:, i])
                     ]
                 ],
-- 
2.43.0


From dca5f594524e36622953d43144d87097fb3ab946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 30/55] fix: do not let a CellMCD fit change its own alpha

---
 robpy/covariance/cellmcd.py      | 14 +++++++-------
 robpy/covariance/initial_ddcw.py |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 5c01467..b26b276 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -80,7 +80,7 @@ class CellMCD(RobustCovariance):
                     f"h = alpha*n is too small and therefore set to [n/2] + 1"
                     f" ({(int(n / 2) + 1.0) / n})."
                 )
-            self.alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
+            self.alpha_ = np.max([self.alpha, (int(n / 2) + 1.0) / n])
         else:
             raise ValueError(f"alpha must a float between 0.5 and 1, but received {self.alpha}.")
 
@@ -97,7 +97,7 @@ class CellMCD(RobustCovariance):
         self._check_data(X_scaled)
 
         # Step 2: calculate the initial estimates
-        ddcw = InitialDDCW(alpha=self.alpha, min_eigenvalue=self.min_eigenvalue)
+        ddcw = InitialDDCW(alpha=self.alpha_, min_eigenvalue=self.min_eigenvalue)
         ddcw.fit(X_scaled)
         initial_location = ddcw.location_
         initial_cov = ddcw.covariance_
@@ -352,7 +352,7 @@ class CellMCD(RobustCovariance):
         """
         n, p = X_scaled.shape
 
-        h = round(self.alpha * n)
+        h = round(self.alpha_ * n)
         initial_W = np.ones([n, p])
         initial_W[np.isnan(X_scaled)] = 0
         objective_values = np.full(self.max_c_steps + 1, np.nan)
@@ -644,17 +644,17 @@ class CellMCD(RobustCovariance):
 
         cutoff = np.sqrt(chi2.ppf(self.quantile, 1))
         n_marginal_outliers = np.sum(np.abs(X) > cutoff, axis=0) / X.shape[0]
-        if np.max(n_marginal_outliers) > 1 - self.alpha:
+        if np.max(n_marginal_outliers) > 1 - self.alpha_:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of "
+                f"\nAt least one variable has more than {100 * (1 - self.alpha_)}% of "
                 "marginal  outliers."
             )
 
         X[np.abs(X) > cutoff] = np.nan
         n_bad_values = np.isnan(X).sum(axis=0) / X.shape[0]
-        if np.max(n_bad_values) > 1 - self.alpha:
+        if np.max(n_bad_values) > 1 - self.alpha_:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of nan's or "
+                f"\nAt least one variable has more than {100 * (1 - self.alpha_)}% of nan's or "
                 "marginal outliers."
             )
 
diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index a309e70..9343ede 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -55,14 +55,14 @@ class InitialDDCW(RobustCovariance):
                     f"h = alpha*n is too small and therefore set to [n/2] + 1"
                     f" ({(int(n / 2) + 1.0) / n})."
                 )
-            self.alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
+            self.alpha_ = np.max([self.alpha, (int(n / 2) + 1.0) / n])
         else:
             raise ValueError(f"alpha must a float between 0.5 and 1, but received {self.alpha}.")
 
         # DDC with constraint -> imputed and rescaled Zimp:
         ddc = DDC(chi2_quantile=0.9, scale_estimator=OneStepWrapping()).fit(pd.DataFrame(X))
         W = np.copy(ddc.cellwise_outliers_)
-        flagged_too_many = np.where(np.sum(W, axis=0) / X.shape[0] > 1 - self.alpha)[0]
+        flagged_too_many = np.where(np.sum(W, axis=0) / X.shape[0] > 1 - self.alpha_)[0]
         for i in flagged_too_many:
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
-- 
2.43.0


From 9a6fbd1293255d2f628dd3f8528f37ffb939c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 31/55] fix: use the marginal variances for rows without any
 clean cell in CellMCD

---
 robpy/covariance/cellmcd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index b26b276..0bb0d1a 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -330,7 +330,7 @@ class CellMCD(RobustCovariance):
 
             else:  # all missings in the w-pattern
                 predictions, conditional_variances = self._predict_all_missing(
-                    predictions, conditional_variances, row_idx_w, mu, sigma_inv
+                    predictions, conditional_variances, row_idx_w, mu, sigma
                 )
 
         return predictions, conditional_variances
@@ -624,12 +624,12 @@ class CellMCD(RobustCovariance):
         conditional_variances: np.ndarray,
         row_idx_w: np.array,
         mu: np.array,
-        sigma_inv: np.ndarray,
+        sigma: np.ndarray,
     ):
         """Make predictions when all values in the w-pattern are missing."""
         for index in row_idx_w:
             predictions[index, :] = mu
-            conditional_variances[index, :] = np.diag(sigma_inv)
+            conditional_variances[index, :] = np.diag(sigma)
 
         return predictions, conditional_variances
 
-- 
2.43.0


From 2025ae6c10596e4d5ba23bea636117d8c4cabbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 32/55] fix: count the differences in Qn without rounding
 errors, which made it loop forever

---
 robpy/univariate/qn.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/robpy/univariate/qn.py b/robpy/univariate/qn.py
index 949f7a5..435ca11 100644
--- a/robpy/univariate/qn.py
+++ b/robpy/univariate/qn.py
@@ -1,5 +1,7 @@
 import numpy as np
 
+from typing import Callable
+
 from robpy.univariate.base import RobustScale, LocationOrScaleEstimator
 from robpy.utils.median import weighted_median
 
@@ -60,8 +62,8 @@ class Qn(RobustScale):
             jhelp = (left + weight // 2).astype(int)
             work = y - y[n - jhelp]
             trial = weighted_median(work, weight)
-            P = np.searchsorted(-np.flip(y), trial - y, "left", np.arange(n))
-            Q = np.searchsorted(-np.flip(y), trial - y, "right", np.arange(n)) + 1
+            P = _count_differences(y, lambda differences: differences < trial)
+            Q = _count_differences(y, lambda differences: differences <= trial) + 1
             if knew <= np.sum(P):
                 right = P
                 nR = np.sum(P)
@@ -91,6 +93,21 @@ class Qn(RobustScale):
         self.location_ = self.location_func(X)
 
 
+def _count_differences(y: np.ndarray, is_below: Callable[[np.ndarray], np.ndarray]) -> np.ndarray:
+    """
+    Counts for every element of the sorted array y how many of its differences with the elements
+    of y are below a threshold. The bisection evaluates the differences themselves, such that the
+    counts are not affected by rounding errors.
+    """
+    n = len(y)
+    low, high = np.zeros(n, dtype=int), np.full(n, n)
+    while np.any(low < high):
+        mid = (low + high) // 2
+        below = (low < high) & is_below(y - y[n - 1 - mid])
+        low, high = np.where(below, mid + 1, low), np.where(below, high, mid)
+    return low
+
+
 def _get_small_sample_dn(n: int):
     """
     Calculates the correction factor for the Qn estimator at small samples.
-- 
2.43.0


From 3f135bd6cee58af6222b92dc6d564750e7c02b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 33/55] fix: let InitialDDCW handle data that span a single
 direction

---
 robpy/covariance/initial_ddcw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index 9343ede..02eddba 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -97,6 +97,7 @@ class InitialDDCW(RobustCovariance):
             ),
             rowvar=False,
         )
+        Zimp_proj_wrapped_cov = np.atleast_2d(Zimp_proj_wrapped_cov)  # one eigenvector: 0-dim
         cov = eigenvectors @ Zimp_proj_wrapped_cov @ eigenvectors.T  # back to original axis system
         cov = covariance_to_correlation(cov)
         cov = (truncated_covariance(cov, self.min_eigenvalue) * ddc.scale_).T * ddc.scale_
@@ -129,6 +130,7 @@ class InitialDDCW(RobustCovariance):
             ),
             rowvar=False,
         )
+        Zimp_proj_wrapped_cov = np.atleast_2d(Zimp_proj_wrapped_cov)  # one eigenvector: 0-dim
         cov = eigenvectors @ Zimp_proj_wrapped_cov @ eigenvectors.T  # back to original axis system
         cov = covariance_to_correlation(cov)
         cov = (truncated_covariance(cov, self.min_eigenvalue) * ddc.scale_).T * ddc.scale_
-- 
2.43.0


From 1a8a8c34d3044550a3bf9c947eaf96053d27cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 34/55] fix: cap the flagged cells per column at 1 - alpha in
 InitialDDCW

---
 robpy/covariance/initial_ddcw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index 02eddba..c283d85 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -66,7 +66,7 @@ class InitialDDCW(RobustCovariance):
         for i in flagged_too_many:
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
-            W[ordering[0 : int(n * 0.25)], i] = True
+            W[ordering[0 : int(n * (1 - self.alpha_))], i] = True
         Zimp = np.copy(X)
         Zimp[np.logical_or(W, np.isnan(X))] = ddc.impute(
             pd.DataFrame(X), impute_outliers=True
-- 
2.43.0


From 495daacba57675606a893ea86c4204117a6db538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 35/55] fix: compare the automatic power transforms on the data
 they were fitted to

---
 robpy/preprocessing/transfo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index d148d3b..971679a 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -71,7 +71,9 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 scale_yeojohnson,
             ) = self._fit_yeojohnson(x_sorted)
             if self.method == "auto":
-                crit_val_yeojohnson = self._robnormality(x, "yeojohnson", lambda_yeojohnson)
+                # lambda belongs to the standardized data, and so does its objective value
+                x_pre = (x - loc_yeojohnson) / scale_yeojohnson if self.standardize else x
+                crit_val_yeojohnson = self._robnormality(x_pre, "yeojohnson", lambda_yeojohnson)
 
         if self.method == "auto":
             if crit_val_boxcox < crit_val_yeojohnson:
-- 
2.43.0


From 58abb0b3f0550b2325f5e7ec0907dbd5322e27cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 36/55] fix: keep method='auto' of the power transformer across
 fits

---
 robpy/preprocessing/transfo.py | 35 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 971679a..f90eb15 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -57,12 +57,12 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         self._get_method(x)
         x_sorted = np.sort(x)
 
-        if self.method in ["boxcox", "auto"]:
+        if self.method_ in ["boxcox", "auto"]:
             lambda_boxcox, mu_rew_boxcox, sd_rew_boxcox, scale_boxcox = self._fit_boxcox(x_sorted)
-            if self.method == "auto":
+            if self.method_ == "auto":
                 crit_val_boxcox = self._robnormality(x, "boxcox", lambda_boxcox)
 
-        if self.method in ["yeojohnson", "auto"]:
+        if self.method_ in ["yeojohnson", "auto"]:
             (
                 lambda_yeojohnson,
                 mu_rew_yeojohnson,
@@ -70,18 +70,18 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 loc_yeojohnson,
                 scale_yeojohnson,
             ) = self._fit_yeojohnson(x_sorted)
-            if self.method == "auto":
+            if self.method_ == "auto":
                 # lambda belongs to the standardized data, and so does its objective value
                 x_pre = (x - loc_yeojohnson) / scale_yeojohnson if self.standardize else x
                 crit_val_yeojohnson = self._robnormality(x_pre, "yeojohnson", lambda_yeojohnson)
 
-        if self.method == "auto":
+        if self.method_ == "auto":
             if crit_val_boxcox < crit_val_yeojohnson:
-                self.method = "boxcox"
+                self.method_ = "boxcox"
             else:
-                self.method = "yeojohnson"
+                self.method_ = "yeojohnson"
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if self.standardize:
                 self.scale_pre = scale_boxcox
                 self.location_post = mu_rew_boxcox
@@ -104,7 +104,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError(
                     "The data is not strictly positive. Box-Cox transformation "
@@ -132,7 +132,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if self.standardize:
                 x = x * self.scale_post + self.location_post
             x = self._handle_bounds(x)
@@ -222,13 +222,13 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
 
         lower_bound, upper_bound = None, None
 
-        if self.method == "boxcox" and self.lambda_rew > 0.0:
+        if self.method_ == "boxcox" and self.lambda_rew > 0.0:
             lower_bound = -1.0 / np.abs(self.lambda_rew)
-        elif self.method == "boxcox" and self.lambda_rew < 0.0:
+        elif self.method_ == "boxcox" and self.lambda_rew < 0.0:
             upper_bound = 1.0 / np.abs(self.lambda_rew)
-        elif self.method == "yeojohnson" and self.lambda_rew > 2.0:
+        elif self.method_ == "yeojohnson" and self.lambda_rew > 2.0:
             lower_bound = -1.0 / np.abs(self.lambda_rew - 2.0)
-        elif self.method == "yeojohnson" and self.lambda_rew < 0.0:
+        elif self.method_ == "yeojohnson" and self.lambda_rew < 0.0:
             upper_bound = 1.0 / np.abs(self.lambda_rew)
 
         return lower_bound, upper_bound
@@ -239,7 +239,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         if lower_bound is not None and np.min(x) < lower_bound:
             new_bound = 0.95 * lower_bound
             self.logger.info(
-                f"Some (standardized) values in x are below the range of the {self.method} "
+                f"Some (standardized) values in x are below the range of the {self.method_} "
                 f"transformation. These values were replaced by {new_bound} so they "
                 "can be transformed back."
             )
@@ -248,7 +248,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         if upper_bound is not None and np.max(x) > upper_bound:
             new_bound = 0.95 * upper_bound
             self.logger.info(
-                f"Some (standardized) values in x are above the range of the {self.method} "
+                f"Some (standardized) values in x are above the range of the {self.method_} "
                 f"transformation. These values were replaced by {new_bound} so they "
                 "can be transformed back."
             )
@@ -588,12 +588,13 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         return lambda_est
 
     def _get_method(self, x: np.ndarray):
+        self.method_ = self.method  # "auto" is resolved by the fit
         if self.method == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError("The data is not strictly positive. Box-Cox cannot be applied.")
         elif self.method == "auto":
             if np.min(x) <= 0:
-                self.method = "yeojohnson"
+                self.method_ = "yeojohnson"
         elif self.method != "yeojohnson":
             raise ValueError(
                 'The only supported methods of transformation are "boxcox", "yeojohnson" or "auto".'
-- 
2.43.0


From fd977906945a32377b4f66eca351d2e60c4b9bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 37/55] fix: method "auto" judged Box-Cox on the unscaled data,
 where large units cancel all digits

---
 robpy/preprocessing/transfo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index f90eb15..2ee8286 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -60,7 +60,8 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         if self.method_ in ["boxcox", "auto"]:
             lambda_boxcox, mu_rew_boxcox, sd_rew_boxcox, scale_boxcox = self._fit_boxcox(x_sorted)
             if self.method_ == "auto":
-                crit_val_boxcox = self._robnormality(x, "boxcox", lambda_boxcox)
+                x_pre = x / scale_boxcox if self.standardize else x
+                crit_val_boxcox = self._robnormality(x_pre, "boxcox", lambda_boxcox)
 
         if self.method_ in ["yeojohnson", "auto"]:
             (
-- 
2.43.0


From 0c9fc2470bdc95f163001bb7b7c8985cdb8186ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 38/55] fix: ROBPCA kept no observation when at least half of
 the orthogonal distances are exactly zero

---
 robpy/pca/robpca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index ab8ffc8..380abe0 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -97,7 +97,7 @@ class ROBPCA(RobustPCA):
         X_proj = (X - self.location_) @ h_components @ h_components.T
         # step 4: orthogonal distance
         orth_dist = np.linalg.norm((X - self.location_) - X_proj, axis=1)
-        v_index = np.argwhere(orth_dist < get_od_cutoff(orth_dist)).flatten()
+        v_index = np.argwhere(orth_dist <= get_od_cutoff(orth_dist)).flatten()
         self.location_ = np.mean(X[v_index], axis=0)
         cov_v = np.cov(X[v_index], rowvar=False)
         eigvals_v, eigvecs_v = np.linalg.eigh(cov_v)
-- 
2.43.0


From faf92e2c0e0b18be195812fcc04667d2d34df886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 39/55] fix: S-regression cycled forever when an iteration fits
 the majority exactly

---
 robpy/regression/s.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 48e4e6d..8921f6d 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -158,8 +158,11 @@ class SRegression(RobustRegression):
         if initial_scale is None:
             initial_scale = np.median(np.abs(residuals)) / 0.6745
         new_scale = self._get_scale(s0=initial_scale, residuals=residuals)
-        residuals[residuals == 0] = np.finfo(np.float64).eps  # avoid divide by 0 errors
-        weights = self.rho.psi(residuals / new_scale) / (residuals / new_scale)
+        if new_scale == 0:  # the majority is fitted exactly: keep to those observations
+            weights = (residuals == 0).astype(float)
+        else:
+            residuals[residuals == 0] = np.finfo(np.float64).eps  # avoid divide by 0 errors
+            weights = self.rho.psi(residuals / new_scale) / (residuals / new_scale)
         model = WLS(endog=y, exog=X, weights=weights).fit()
         model.weights = weights
         return model, new_scale
-- 
2.43.0


From 19eab6f1d35aacf37ad3e7928472c22b60b6ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 40/55] fix: MM-regressions shared one initial estimator, so a
 later fit could change an earlier model

---
 robpy/regression/mm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 9a321d1..d7cdeaa 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import numpy as np
 import pandas as pd
 
+from sklearn.base import clone
 from sklearn.exceptions import NotFittedError
 from sklearn.linear_model import LinearRegression
 
@@ -45,7 +46,7 @@ class MMRegression(RobustRegression):
 
     def fit(self, X: np.ndarray | pd.DataFrame, y: np.ndarray | pd.Series) -> MMRegression:
         X, y = _convert_input_to_array(X, y)
-        self.model = self.initial_estimator.fit(X, y)
+        self.model = clone(self.initial_estimator).fit(X, y)
         self._scale = self.model.scale
         self.n_iter = 0
         if self._scale == 0:  # the initial estimator fits the majority of the data exactly
-- 
2.43.0


From b646fe3d65787b04cffb13c38931cce45b6f7106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 41/55] fix: MM-regression stopped on an absolute change of the
 residuals, unconverged for small units

---
 robpy/regression/mm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index d7cdeaa..17285f9 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -32,7 +32,7 @@ class MMRegression(RobustRegression):
                 Maximum number of iterations. Defaults to 500.
             epsilon (float, optional):
                 If the absolute difference between all the new and old residuals in an iteration
-                is below epsilon, we stop the computation. Defautls to 1e-7.
+                is below epsilon times the scale, we stop the computation. Defautls to 1e-7.
 
         References:
             - Yohai, V. J. (1987). High breakdown-point and high efficiency robust estimates for
@@ -59,7 +59,7 @@ class MMRegression(RobustRegression):
             self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - np.ravel(self.model.predict(X))
             self.n_iter = i + 1
-            if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
+            if np.max(np.abs(new_residuals - residuals)) < self.epsilon * self._scale:
                 break
         return self
 
-- 
2.43.0


From 819b34e650c6454faad2d710904c8e7784c4ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 42/55] fix: S-regression rejected exactly fitted observations
 when the scale is below machine epsilon

---
 robpy/regression/s.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 8921f6d..ecbb82a 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -161,8 +161,9 @@ class SRegression(RobustRegression):
         if new_scale == 0:  # the majority is fitted exactly: keep to those observations
             weights = (residuals == 0).astype(float)
         else:
-            residuals[residuals == 0] = np.finfo(np.float64).eps  # avoid divide by 0 errors
-            weights = self.rho.psi(residuals / new_scale) / (residuals / new_scale)
+            scaled = residuals / new_scale
+            weights = np.ones_like(scaled)  # psi(x) / x -> 1 for x -> 0
+            np.divide(self.rho.psi(scaled), scaled, out=weights, where=scaled != 0)
         model = WLS(endog=y, exog=X, weights=weights).fit()
         model.weights = weights
         return model, new_scale
-- 
2.43.0


From f500737a7ddd5fa2af0cef24284d40b28ece6be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 43/55] fix: MM-regression iterated on rounding errors when the
 initial fit is exact

---
 robpy/regression/mm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 17285f9..a2bfe82 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -49,7 +49,8 @@ class MMRegression(RobustRegression):
         self.model = clone(self.initial_estimator).fit(X, y)
         self._scale = self.model.scale
         self.n_iter = 0
-        if self._scale == 0:  # the initial estimator fits the majority of the data exactly
+        # up to rounding, the initial estimator fits the majority of the data exactly
+        if self._scale <= 10 * np.finfo(np.float64).eps * np.median(np.abs(y)):
             return self
         for i in range(self.max_iterations):
             residuals = y - np.ravel(self.model.predict(X))
-- 
2.43.0


From 368cf15817547474e4d8165a407f6201833ad896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 44/55] fix: RobustScaler took the target of a pipeline for its
 ignore_nan flag

---
 robpy/preprocessing/scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/preprocessing/scaling.py b/robpy/preprocessing/scaling.py
index 68f99d0..c76946f 100644
--- a/robpy/preprocessing/scaling.py
+++ b/robpy/preprocessing/scaling.py
@@ -31,7 +31,7 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         self.with_centering = with_centering
         self.with_scaling = with_scaling
 
-    def fit(self, X: np.ndarray | pd.DataFrame, ignore_nan: bool = False):
+    def fit(self, X: np.ndarray | pd.DataFrame, y=None, ignore_nan: bool = False):
         if isinstance(X, pd.DataFrame):
             X = X.values
         if len(X.shape) == 1:
-- 
2.43.0


From 20e8bb1cdb133404e7bc609f2175a09469a997e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 45/55] fix: L1-median (and so PCALocantore) never returned
 when the data had a missing value

---
 robpy/utils/median.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index 0507b94..56db084 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -14,6 +14,8 @@ def l1median(X: np.ndarray) -> float:
         - Vardi, Y., & Zhang, C. H. (2000). The multivariate L1-median and associated data depth.
           Proceedings of the National Academy of Sciences, 97(4), 1423-1426.
     """
+    if not np.all(np.isfinite(X)):  # the iterations below would never converge
+        raise ValueError("The data X contains NaN or infinite values.")
     center = np.median(X, axis=0)
     X = X - center
     spread = np.median(np.sum(np.abs(X), axis=1))
-- 
2.43.0


From 8a0fb7f5643901e1c2f0924c4f5e6736ae5e9952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 46/55] fix: CellMCD truncated the imputed values of integer
 data

---
 robpy/covariance/cellmcd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 0bb0d1a..df4a665 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -72,6 +72,7 @@ class CellMCD(RobustCovariance):
         self.verbosity = verbosity
 
     def calculate_covariance(self, X: np.ndarray) -> np.ndarray:
+        X = np.array(X, dtype=float)  # imputed values of integer data need not be integer
         # check that alpha creates a h-subset larger than [n/2]+1
         n = X.shape[0]
         if 0.5 <= self.alpha <= 1:
-- 
2.43.0


From 2e31a72594aaa5a5f3dba8b306b1d9bf4ba89dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 47/55] fix: InitialDDCW truncated the imputed cells of integer
 data

---
 robpy/covariance/initial_ddcw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index c283d85..e076f46 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -67,7 +67,7 @@ class InitialDDCW(RobustCovariance):
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
             W[ordering[0 : int(n * (1 - self.alpha_))], i] = True
-        Zimp = np.copy(X)
+        Zimp = np.array(X, dtype=float)
         Zimp[np.logical_or(W, np.isnan(X))] = ddc.impute(
             pd.DataFrame(X), impute_outliers=True
         ).to_numpy()[np.logical_or(W, np.isnan(X))]
-- 
2.43.0


From 719defce0071b6938a84c23bb86898af0f9d6103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 48/55] fix: inverse_submatrix ignored the order of a complete
 set of indices

---
 robpy/utils/general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/utils/general.py b/robpy/utils/general.py
index eb8cd84..8d669fb 100644
--- a/robpy/utils/general.py
+++ b/robpy/utils/general.py
@@ -25,7 +25,7 @@ def inverse_submatrix(A: np.ndarray, A_inv: np.ndarray, indices: np.array) -> np
         )
     elif n_submatrix < p and n_submatrix <= p / 2.0:  # don't use the trick
         result = np.linalg.inv(A[np.ix_(indices, indices)])
-    else:  # submatrix is the original matrix
-        result = A_inv
+    else:  # submatrix is the original matrix, possibly in another order
+        result = A_inv[np.ix_(indices, indices)]
 
     return result
-- 
2.43.0


From 0006b10002dd1f3136f8e812ce2cfb9ef345d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 49/55] fix: DDC with verbose=True divided by zero for fewer
 than ten columns

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 966d239..15187e9 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -335,7 +335,7 @@ class DDC(OutlierMixin):
         """
         correlation = np.ones((X.shape[1], X.shape[1]))
         for i in range(X.shape[1]):
-            if verbose and i % (X.shape[1] // 10) == 0:
+            if verbose and i % max(X.shape[1] // 10, 1) == 0:
                 print(
                     f"Correlation: Processing column {i + 1} of {X.shape[1]} "
                     f"({((i + 1) / X.shape[1]):.1%})"
-- 
2.43.0


From 941893a733440711b888252a03036df8a45849c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:55 +0000
Subject: [PATCH 50/55] fix: let the power transformer extend any search range,
 it looped forever for a range with an edge at 1

---
 robpy/preprocessing/transfo.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 2ee8286..8d91d48 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -176,9 +176,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             )
             converged = np.min(np.abs(lambda_rew - lambdarange)) > np.diff(lambdarange) * 0.05
             if not converged:
-                lambdarange = 1 + (lambdarange - 1) * (
-                    1 + (abs(lambda_rew - lambdarange) == min(abs(lambda_rew - lambdarange)))
-                )
+                lambdarange = self._extend_range(lambdarange, lambda_rew)
 
         return lambda_rew, mu_rew_boxcox, sd_rew_boxcox, scale_boxcox
 
@@ -212,12 +210,20 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             )
             converged = np.min(np.abs(lambda_rew - lambdarange)) > np.diff(lambdarange) * 0.05
             if not converged:
-                lambdarange = 1 + (lambdarange - 1) * (
-                    1 + (abs(lambda_rew - lambdarange) == min(abs(lambda_rew - lambdarange)))
-                )
+                lambdarange = self._extend_range(lambdarange, lambda_rew)
 
         return lambda_rew, mu_rew_yeojohnson, sd_rew_yeojohnson, loc_yeojohnson, scale_yeojohnson
 
+    @staticmethod
+    def _extend_range(lambdarange: np.ndarray, lambda_rew: float) -> np.ndarray:
+        """Moves the edge of the search range next to lambda outwards: to twice its distance from
+        1 or, when it does not lie on its own side of 1, by the width of the range."""
+        distance = abs(lambda_rew - lambdarange)
+        outwards = np.array([-1, 1])
+        step = outwards * (lambdarange - 1)
+        step = np.where(step > 0, step, np.diff(lambdarange))
+        return lambdarange + outwards * step * (distance == min(distance))
+
     def _calculate_bounds(self):
         """Calculates the bounds of the range of the power transformation."""
 
-- 
2.43.0


From 12ced651bf1ae9ffefa9a57b7891c180ca63256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 51/55] fix: refuse missing values in
 RobustPowerTransformer.fit instead of returning an arbitrary lambda

---
 robpy/preprocessing/transfo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 8d91d48..2b0ef0d 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -54,6 +54,8 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
+        if np.isnan(x).any():
+            raise ValueError("The data contains NaN, the transformation cannot be fitted.")
         self._get_method(x)
         x_sorted = np.sort(x)
 
-- 
2.43.0


From 38d66a9a179f10ecc98aaec6bd08a531d0c58cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:15 +0000
Subject: [PATCH 52/55] fix: DDC crashed when two columns have a single
 complete row in common

---
 robpy/outliers/ddc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 15187e9..b46a7a2 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -362,6 +362,9 @@ class DDC(OutlierMixin):
                     xy, np.array([0, 0]), np.array([[1, xy_corr], [xy_corr, 1]])
                 )
                 xy_subset = xy[distances < self.cutoff, :]
+                if len(xy_subset) < 2 or np.any(np.ptp(xy_subset, axis=0) == 0):
+                    correlation[i, j] = correlation[j, i] = 0  # too few observations in common
+                    continue
                 correlation[i, j] = correlation[j, i] = np.corrcoef(xy_subset, rowvar=False)[0, 1]
         return correlation
 
-- 
2.43.0


From 48a4822f8bf02b23882e9d563f2a9fc773745800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:15 +0000
Subject: [PATCH 53/55] fix: DDC.cellmap crashed for colour limits below 2.5

---
 robpy/outliers/ddc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index b46a7a2..05c2c09 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -16,11 +16,12 @@ from robpy.univariate.base import RobustScale
 
 def get_custom_cmap(vmax_clip: float, neutral_color: str = "#f7f286") -> matplotlib.colors.Colormap:
     norm = matplotlib.colors.Normalize(-vmax_clip, vmax_clip)
+    neutral = min(2.5, vmax_clip)  # smaller residuals are not coloured
     colors = [
         [norm(-vmax_clip), "#4652a3"],
-        [norm(-(vmax_clip + 2.5) / 2), "#8d6d8c"],
-        [norm(-2.5), neutral_color],
-        [norm(2.5), neutral_color],
+        [norm(-(vmax_clip + neutral) / 2), "#8d6d8c"],
+        [norm(-neutral), neutral_color],
+        [norm(neutral), neutral_color],
         [norm(vmax_clip), "#ec2123"],
     ]
     return matplotlib.colors.LinearSegmentedColormap.from_list("", colors)
-- 
2.43.0


From 5067bc67725dc4cfef701a299ea52ebd41f59588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:06 +0000
Subject: [PATCH 54/55] fix: SRegression could cycle forever when the scale
 tolerance is coarse for the units of the response

---
 robpy/regression/s.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index ecbb82a..77ccb39 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -8,6 +8,9 @@ from statsmodels.regression.linear_model import RegressionResultsWrapper
 from robpy.regression.base import RobustRegression, _convert_input_to_array
 from robpy.utils.rho import BaseRho, TukeyBisquare
 
+# The i-steps can cycle when scale_tolerance is coarse for the units of the residuals
+MAX_I_STEPS = 1000
+
 
 class SRegression(RobustRegression):
     def __init__(
@@ -113,7 +116,7 @@ class SRegression(RobustRegression):
                     best_models.append(previous_m)
                     best_scales.append(previous_s)
                     break
-                if self._converged(previous_m.params, m.params):
+                if self._converged(previous_m.params, m.params) or n_iter >= MAX_I_STEPS:
                     m.n_iter = n_iter
                     best_models.append(m)
                     best_scales.append(s)
-- 
2.43.0


From 8c69f574e8a06148929a80fd9b3919ba7b31ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:01 +0000
Subject: [PATCH 55/55] fix: FastMCD crashed without initial C-steps

---
 robpy/covariance/mcd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 29ad489..6ca6fdb 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -118,8 +118,8 @@ class FastMCD(RobustCovariance):
             best_subsets.extend(sorted(subsets, key=lambda x: x.determinant)[: self.n_best_subsets])
         self.logger.info(f"Selecting {self.n_best_subsets} best subsets from {len(best_subsets)}")
         # perform additional c-steps on the best subsets
-        best_subsets = [
-            self._perform_multiple_c_steps(subset, X, n_iterations=self.n_initial_c_steps)
+        best_subsets = [  # at least one, such that they have h elements
+            self._perform_multiple_c_steps(subset, X, n_iterations=max(self.n_initial_c_steps, 1))
             for subset in best_subsets
         ]
         best_subsets = sorted(best_subsets, key=lambda x: x.determinant)[: self.n_best_subsets]
-- 
2.43.0

