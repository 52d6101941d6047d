From 63054dd8deb762f1fd24f4a6ad1c1fea8f8e41f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 01/72] fix: UnivariateMCD returns the exact fit instead of NaN
 when h observations coincide

---
 robpy/univariate/mcd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/univariate/mcd.py b/robpy/univariate/mcd.py
index 11a439b..0db3550 100644
--- a/robpy/univariate/mcd.py
+++ b/robpy/univariate/mcd.py
@@ -63,6 +63,8 @@ class UnivariateMCD(RobustScale):
         return raw_var, raw_loc
 
     def _reweighting(self, X: np.ndarray):
+        if self.raw_variance_ == 0:  # exact fit: at least h observations coincide
+            return 0.0, self.raw_location_
         distances = (X - self.raw_location_) ** 2 / self.raw_variance_
         mask = distances < chi2.ppf(0.975, df=1)
         loc = np.mean(X[mask])
-- 
2.43.0


From fee67c679e221d5173362697a86dcc00afea2785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 02/72] fix: Tau returns the median and scale 0 instead of NaN
 when the MAD is zero

---
 robpy/univariate/tau.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robpy/univariate/tau.py b/robpy/univariate/tau.py
index ca73465..e18b9e5 100644
--- a/robpy/univariate/tau.py
+++ b/robpy/univariate/tau.py
@@ -41,6 +41,10 @@ class Tau(RobustScale):
         """
         n = len(X)
         sigma0 = median_abs_deviation(X)
+        if sigma0 == 0:  # at least half of the observations coincide
+            self.location_ = np.median(X)
+            self.scale_ = 0.0
+            return
         weights = self._weight_function((X - np.median(X)) / sigma0)
         self.location_ = np.sum(X * weights) / np.sum(weights)
         self.scale_ = sigma0 * np.sqrt(
-- 
2.43.0


From a759aac7b175860e9044600060c5afe2c5f2e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 03/72] fix: OneStepWrapping returns the coinciding value
 instead of NaN when the initial scale is zero

---
 robpy/univariate/onestep_m.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robpy/univariate/onestep_m.py b/robpy/univariate/onestep_m.py
index 24f46f9..0791e88 100644
--- a/robpy/univariate/onestep_m.py
+++ b/robpy/univariate/onestep_m.py
@@ -111,6 +111,10 @@ class OneStepWrapping(RobustScale):
 
         # initial estimates: univariate MCD
         initial_estimates = UnivariateMCD().fit(X)
+        if initial_estimates.scale == 0:  # at least half of the observations coincide
+            self.location_ = initial_estimates.location
+            self.scale_ = initial_estimates.scale
+            return
 
         # one step M estimator for location using hyperbolic tangent weight function:
         X_standardized = (X - initial_estimates.location) / initial_estimates.scale
-- 
2.43.0


From 8228a44eee5d948266574b5d1c2cc5770b6ff007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 04/72] fix: FastMCD and DetMCD concentrate until convergence
 (the stopping rule had the wrong sign)

---
 robpy/covariance/mcd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index cbc70be..23460b0 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -129,7 +129,7 @@ class FastMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant) < self.tolerance
                 ):
                     break
                 subset = new_subset
@@ -340,7 +340,7 @@ class DetMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant) < self.tolerance
                 ):
                     break
                 subset = new_subset
-- 
2.43.0


From f7e1ef703e4a9580a0021bcd457aa11a0a9c60d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 05/72] fix: FastMCD accepts an integer alpha when the data are
 partitioned

---
 robpy/covariance/mcd.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 23460b0..c289af9 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -110,8 +110,11 @@ class FastMCD(RobustCovariance):
         # perform initial c steps on all initial subsets
         for data in partitions:
             subsets = self._get_initial_subsets(data, n_initial_subsets)
+            h = self._get_h_partition(data, X)
             subsets = [
-                self._perform_multiple_c_steps(subset, data, n_iterations=self.n_initial_c_steps)
+                self._perform_multiple_c_steps(
+                    subset, data, n_iterations=self.n_initial_c_steps, h=h
+                )
                 for subset in subsets
             ]
             best_subsets.extend(sorted(subsets, key=lambda x: x.determinant)[: self.n_best_subsets])
@@ -168,19 +171,20 @@ class FastMCD(RobustCovariance):
         return self._rescale_factor * best_subset.scale
 
     def _perform_multiple_c_steps(
-        self, subset: HSubset, X: np.ndarray, n_iterations: int
+        self, subset: HSubset, X: np.ndarray, n_iterations: int, h: int | None = None
     ) -> HSubset:
         for _ in range(n_iterations):
-            subset = self._perform_c_step(subset, X)
+            subset = self._perform_c_step(subset, X, h=h)
         return subset
 
-    def _perform_c_step(self, subset: HSubset, X: np.ndarray) -> HSubset:
+    def _perform_c_step(self, subset: HSubset, X: np.ndarray, h: int | None = None) -> HSubset:
         """
         Perform a single C-step on the subset of the data
 
         Args:
             subset (HSubset): indices of the current subset.
             X (np.ndarray): data.
+            h (int | None, optional): size of the new subset. If None, it is derived from alpha.
 
         Returns:
             HSubset: indices for new h subset.
@@ -188,7 +192,8 @@ class FastMCD(RobustCovariance):
         # Calculate the Mahalanobis distances
         mahalanobis = mahalanobis_distance(X, subset.location, subset.scale)
         # Find the alpha (h_size) smallest distances
-        h = self._get_h(X)
+        if h is None:
+            h = self._get_h(X)
         idx = np.argsort(mahalanobis)[:h]
 
         return self._get_subset(indices=idx, X=X, n_c_steps=subset.n_c_steps + 1)
@@ -220,6 +225,14 @@ class FastMCD(RobustCovariance):
                 f" a float between 0.5 and 1, but received {self.alpha}."
             )
 
+    def _get_h_partition(self, data: np.ndarray, X: np.ndarray) -> int:
+        """Size of the h subset within a partition: an integer alpha refers to all of X."""
+        h = self._get_h(X)
+        if isinstance(self.alpha, int):
+            n, p = data.shape
+            return np.max([int(h * n / X.shape[0]), int((n + p + 1) / 2)])
+        return self._get_h(data)
+
     def _partition_data(self, X: np.ndarray) -> list[np.ndarray]:
         if self.n_partitions is None:
             n_partitions = 5 if X.shape[0] > 600 else 1
-- 
2.43.0


From 00e2286720c57069762b5465b099ae1f8c683b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 06/72] fix: DetMCD does not fail when an observation equals
 the coordinatewise median

---
 robpy/covariance/mcd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index c289af9..8ecf60d 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -412,7 +412,8 @@ class DetMCD(RobustCovariance):
         S2 = np.corrcoef(R, rowvar=False)
         S3 = np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False)
         znorm = np.sqrt(np.sum(Z * Z, axis=1))
-        w = 1 / znorm
+        # the spatial sign of an observation at the coordinatewise median is zero
+        w = np.divide(1, znorm, out=np.zeros_like(znorm), where=znorm > 0)
         S4 = np.dot((Z * w[:, np.newaxis]).T, (Z * w[:, np.newaxis])) / n
         idx = np.argsort(znorm)[: math.ceil(n / 2)]
         S5 = np.cov(Z[idx, :], rowvar=False)
-- 
2.43.0


From 6a81530ddb796c25f68a4b97d24ff1aa92b7fa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 07/72] fix: LTS reweights with the robust residual scale
 instead of the classical standard deviation

---
 robpy/regression/lts.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index fcb2ce7..a94362d 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -137,7 +137,8 @@ class FastLTSRegression(RobustRegression):
         )
         if self.reweighting:
             residuals = y.reshape(-1, 1) - self.predict(X)
-            mask = (np.abs(residuals / np.std(residuals)) <= norm.ppf(0.9875)).flatten()
+            robust_scale = get_consistency_factor(h / X.shape[0]) * self._scale
+            mask = (np.abs(residuals) <= norm.ppf(0.9875) * robust_scale).flatten()
             self.model = LinearRegression().fit(X[mask, :], y[mask])
             new_subset = np.arange(X.shape[0])[mask]
             best_loss = self._get_loss_value(X, y, new_subset, self.model)
@@ -316,6 +317,17 @@ class FastLTSRegression(RobustRegression):
         return h_subset_idx, lr_model
 
 
+def get_consistency_factor(coverage: float) -> float:
+    """
+    Factor that makes the root mean of the smallest squared residuals consistent for the error scale
+    at the normal distribution, when a fraction `coverage` of the residuals is used.
+    """
+    if coverage >= 1:
+        return 1.0
+    q = norm.ppf((1 + coverage) / 2)
+    return 1 / np.sqrt(1 - 2 * q * norm.pdf(q) / coverage)
+
+
 def get_correction_factor(p: int, n: int, alpha: float) -> float:
     """
     Calculate the small sample correction factor for the scale resulting from LTS regression when
-- 
2.43.0


From 27c8dab31e51319ee54a5e7f664829609369d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 08/72] fix: LTS and S-regression no longer reseed NumPy's
 global random state

---
 robpy/regression/lts.py | 5 ++---
 robpy/regression/s.py   | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index a94362d..39a52f3 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -170,7 +170,6 @@ class FastLTSRegression(RobustRegression):
         Returns:
             List of models, List of losses and List of h subsets.
         """
-        np.random.seed(self.random_state)
         lr_models = []
         losses = []
         h_subsets = []
@@ -215,8 +214,8 @@ class FastLTSRegression(RobustRegression):
             LinearRegression: A Linear Regression model fitted on a random subset.
         """
         n_obs, n_features = X.shape  # n, p
-        np.random.seed(random_state)
-        subset_idx = np.random.choice(n_obs, n_features + 1, replace=False)
+        rng = np.random.RandomState(random_state)
+        subset_idx = rng.choice(n_obs, n_features + 1, replace=False)
         lr_model = LinearRegression().fit(X[subset_idx], y[subset_idx])
         return lr_model
 
diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index f06d0b5..455f21b 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -167,8 +167,8 @@ class SRegression(RobustRegression):
         models = []
         scales = []
         for seed in range(self.random_state, self.random_state + self.n_initial_subsets):
-            np.random.seed(seed)
-            sample_idx = np.random.choice(X.shape[0], X.shape[1] + 1, replace=False)
+            rng = np.random.RandomState(seed)
+            sample_idx = rng.choice(X.shape[0], X.shape[1] + 1, replace=False)
             model = WLS(y[sample_idx], X[sample_idx]).fit()
             residuals = model.predict(X) - y
             scale = np.median(np.abs(residuals)) / 0.6745
-- 
2.43.0


From dd91070418ced8603c331ca5e88ed462d47a73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 09/72] fix: SRegression's default b admits a solution of the
 M-scale equation of the default rho

---
 robpy/regression/s.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 455f21b..f2bdf19 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -17,7 +17,7 @@ class SRegression(RobustRegression):
         n_initial_i_steps: int = 2,
         n_best_subsets: int = 5,
         max_scale_iterations: int = 2,
-        b: float = 0.5,
+        b: float = 0.1994,
         fit_intercept: bool = True,
         relative_tolerance: float = 1e-7,
         scale_tolerance: float = 1e-10,
@@ -45,7 +45,8 @@ class SRegression(RobustRegression):
                 Number of iterative steps to derive M-scale estimates (`r` in the original paper).
                 Defaults to 2.
             b (float, optional):
-                constant on the RHS of the M scale equation. Defaults to 0.5.
+                constant on the RHS of the M scale equation. Must be smaller than the maximum of rho.
+                Defaults to 0.1994, half of the maximum of the default rho (50% breakdown value).
             fit_intercept (bool, optional):
                 Whether an intercept should be included in the linear regression. Defaults to True.
             relative_tolerance (float, optional):
-- 
2.43.0


From 7b57d08b5331c128c74e7036eade3074d4d02f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 10/72] fix: SRegression predicts single rows and rows with
 constant columns (intercept column was skipped)

---
 robpy/regression/s.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index f2bdf19..4ccbc43 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -86,7 +86,7 @@ class SRegression(RobustRegression):
 
         X, y = _convert_input_to_array(X, y)
         if self.fit_intercept:
-            X = add_constant(X)
+            X = add_constant(X, has_constant="add")
         models, scales = self._get_initial_models(X, y)
         self.logger.info(f"Fitted {len(models)} initial models.")
         best_idx = np.argsort(scales)[: self.n_best_subsets]
@@ -131,7 +131,7 @@ class SRegression(RobustRegression):
             raise NotFittedError
         X, _ = _convert_input_to_array(X)
         if self.fit_intercept:
-            X = add_constant(X)
+            X = add_constant(X, has_constant="add")
         return self.model.predict(X)
 
     def _get_scale(self, s0: float, residuals: np.ndarray):
-- 
2.43.0


From c3a246bed993fc34e42bb10a68a8e9708dab7edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 11/72] fix: SRegression iterates the M-scale to a solution of
 its scale equation

---
 robpy/regression/s.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 4ccbc43..3b1b321 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -54,8 +54,8 @@ class SRegression(RobustRegression):
                 (difference in beta norm should be higher than
                 relative_tolerance * max(relative_tolerance, beta_norm)). Defaults to 1e-7.
             scale_tolerance (float, optional):
-                If the difference between 2 subsequent scale estimates is below this threshold,
-                the iterations are stopped and it is assumed the scale estimate converged.
+                If the relative difference between 2 subsequent scale estimates is below this
+                threshold, the iterations are stopped and it is assumed the scale estimate converged.
                 Defaults to 1e-10.
             random_state (int, optional):
                 Can be used to provide a random state. Defaults to 101.
@@ -101,7 +101,9 @@ class SRegression(RobustRegression):
             n_iter = 0
             while True:
                 try:
-                    m, s = self._i_step(X, y, (previous_m.predict(X) - y).flatten())
+                    m, s = self._i_step(
+                        X, y, (previous_m.predict(X) - y).flatten(), initial_scale=previous_s
+                    )
                     n_iter += 1
                 except np.linalg.LinAlgError:
                     self.logger.warning(
@@ -109,11 +111,15 @@ class SRegression(RobustRegression):
                         f"Starting scale was: {previous_s}. Failed iteration = {n_iter}."
                         f"Storing model after last successfull i-step."
                     )
-                    m.n_iter = n_iter
+                    previous_m.n_iter = n_iter
                     best_models.append(previous_m)
                     best_scales.append(previous_s)
                     break
-                if self._converged(previous_m.params, m.params):
+                scale_converged = np.abs(s - previous_s) <= self.relative_tolerance * previous_s
+                exact_fit = s <= np.finfo(np.float64).eps * np.max(np.abs(y))
+                if exact_fit or (
+                    scale_converged and self._converged(previous_m.params, m.params)
+                ):
                     m.n_iter = n_iter
                     best_models.append(m)
                     best_scales.append(s)
@@ -137,7 +143,7 @@ class SRegression(RobustRegression):
     def _get_scale(self, s0: float, residuals: np.ndarray):
         for i in range(self.max_scale_iterations):
             new_s = s0 * np.sqrt(np.mean(self.rho.rho(residuals / s0)) / self.b)
-            if np.abs(s0 - new_s) < self.scale_tolerance:
+            if np.abs(s0 - new_s) < self.scale_tolerance * s0:
                 break
             s0 = new_s
         return new_s
-- 
2.43.0


From 867484f3918ed7478b588e2b07497a1c9ef46018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 12/72] fix: SRegression handles exact fits (zero residuals got
 weight zero, zero scale dropped the best start)

---
 robpy/regression/s.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 3b1b321..fa62e01 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -164,8 +164,9 @@ class SRegression(RobustRegression):
         if initial_scale is None:
             initial_scale = np.median(np.abs(residuals)) / 0.6745
         new_scale = self._get_scale(s0=initial_scale, residuals=residuals)
-        residuals[residuals == 0] = np.finfo(np.float64).eps  # avoid divide by 0 errors
-        weights = self.rho.psi(residuals / new_scale) / (residuals / new_scale)
+        scaled_residuals = residuals / new_scale
+        scaled_residuals[scaled_residuals == 0] = np.finfo(np.float64).eps  # avoid 0 / 0
+        weights = self.rho.psi(scaled_residuals) / scaled_residuals
         model = WLS(endog=y, exog=X, weights=weights).fit()
         model.weights = weights
         return model, new_scale
@@ -179,6 +180,11 @@ class SRegression(RobustRegression):
             model = WLS(y[sample_idx], X[sample_idx]).fit()
             residuals = model.predict(X) - y
             scale = np.median(np.abs(residuals)) / 0.6745
+            if scale == 0:  # exact fit of at least half of the observations
+                model.weights = (residuals == 0).astype(float)
+                models.append(model)
+                scales.append(scale)
+                continue
             try:
                 for _ in range(self.n_initial_i_steps):
                     model, scale = self._i_step(X, y, residuals)
-- 
2.43.0


From 1d5101f3da4e4d746defb0908ccaeed4a817ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 13/72] fix: MMRegression's weighted least squares also weights
 the intercept

---
 robpy/regression/mm.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index fc2a958..61a034a 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -52,9 +52,7 @@ class MMRegression(RobustRegression):
             residuals = y - self.model.predict(X)
             scaled_residuals = residuals / self._scale
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
-            self.model = LinearRegression().fit(
-                np.sqrt(weights).reshape(-1, 1) * X, np.sqrt(weights) * y
-            )
+            self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - self.model.predict(X)
             self.n_iter = i + 1
             if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
-- 
2.43.0


From 53fe60db80c7d4d64236dcfd1ab8f5c3df432841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 14/72] fix: MMRegression handles residuals that are exactly
 zero and exact initial fits

---
 robpy/regression/mm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 61a034a..b0e7ff2 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import copy
+
 import numpy as np
 import pandas as pd
 
@@ -45,12 +47,15 @@ class MMRegression(RobustRegression):
 
     def fit(self, X: np.ndarray | pd.DataFrame, y: np.ndarray | pd.Series) -> MMRegression:
         X, y = _convert_input_to_array(X, y)
-        self.model = self.initial_estimator.fit(X, y)
+        self.model = copy(self.initial_estimator.fit(X, y))
         self._scale = self.model.scale
         self.n_iter = 0
+        if self._scale == 0:  # exact fit: nothing left to iterate
+            return self
         for i in range(self.max_iterations):
             residuals = y - self.model.predict(X)
             scaled_residuals = residuals / self._scale
+            scaled_residuals[scaled_residuals == 0] = np.finfo(np.float64).eps  # avoid 0 / 0
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
             self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - self.model.predict(X)
-- 
2.43.0


From defa576e65c66ea2e4d186726d487bd66053e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 15/72] fix: SRegression and MMRegression accept column-vector
 targets and predictions

---
 robpy/regression/mm.py | 5 +++--
 robpy/regression/s.py  | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index b0e7ff2..9825772 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -47,18 +47,19 @@ class MMRegression(RobustRegression):
 
     def fit(self, X: np.ndarray | pd.DataFrame, y: np.ndarray | pd.Series) -> MMRegression:
         X, y = _convert_input_to_array(X, y)
+        y = y.ravel()
         self.model = copy(self.initial_estimator.fit(X, y))
         self._scale = self.model.scale
         self.n_iter = 0
         if self._scale == 0:  # exact fit: nothing left to iterate
             return self
         for i in range(self.max_iterations):
-            residuals = y - self.model.predict(X)
+            residuals = y - self.model.predict(X).ravel()
             scaled_residuals = residuals / self._scale
             scaled_residuals[scaled_residuals == 0] = np.finfo(np.float64).eps  # avoid 0 / 0
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
             self.model = LinearRegression().fit(X, y, sample_weight=weights)
-            new_residuals = y - self.model.predict(X)
+            new_residuals = y - self.model.predict(X).ravel()
             self.n_iter = i + 1
             if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
                 break
diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index fa62e01..d942823 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -85,6 +85,7 @@ class SRegression(RobustRegression):
         self.logger.setLevel(verbosity)
 
         X, y = _convert_input_to_array(X, y)
+        y = y.ravel()
         if self.fit_intercept:
             X = add_constant(X, has_constant="add")
         models, scales = self._get_initial_models(X, y)
-- 
2.43.0


From 6b8c03058745e786ce6243657770ca4f7166b594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 16/72] fix: SRegression and MMRegression stop at an exact fit
 instead of iterating on rounding errors

---
 robpy/regression/mm.py |  4 ++--
 robpy/regression/s.py  | 25 +++++++++++++++----------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 9825772..904afbe 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -9,7 +9,7 @@ from sklearn.exceptions import NotFittedError
 from sklearn.linear_model import LinearRegression
 
 from robpy.regression.base import RobustRegression, _convert_input_to_array
-from robpy.regression.s import SRegression
+from robpy.regression.s import SRegression, _is_exact_fit
 from robpy.utils.rho import BaseRho, TukeyBisquare
 
 
@@ -51,7 +51,7 @@ class MMRegression(RobustRegression):
         self.model = copy(self.initial_estimator.fit(X, y))
         self._scale = self.model.scale
         self.n_iter = 0
-        if self._scale == 0:  # exact fit: nothing left to iterate
+        if _is_exact_fit(self._scale, y):  # exact fit: nothing left to iterate
             return self
         for i in range(self.max_iterations):
             residuals = y - self.model.predict(X).ravel()
diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index d942823..2250df1 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -9,6 +9,11 @@ from robpy.regression.base import RobustRegression, _convert_input_to_array
 from robpy.utils.rho import BaseRho, TukeyBisquare
 
 
+def _is_exact_fit(scale: float, y: np.ndarray) -> bool:
+    """Whether a residual scale is zero up to rounding errors."""
+    return scale <= 10 * np.finfo(np.float64).eps * np.max(np.abs(y))
+
+
 class SRegression(RobustRegression):
     def __init__(
         self,
@@ -101,6 +106,11 @@ class SRegression(RobustRegression):
             previous_s = scales[idx]
             n_iter = 0
             while True:
+                if _is_exact_fit(previous_s, y):  # only rounding errors left to iterate on
+                    previous_m.n_iter = n_iter
+                    best_models.append(previous_m)
+                    best_scales.append(previous_s)
+                    break
                 try:
                     m, s = self._i_step(
                         X, y, (previous_m.predict(X) - y).flatten(), initial_scale=previous_s
@@ -117,10 +127,7 @@ class SRegression(RobustRegression):
                     best_scales.append(previous_s)
                     break
                 scale_converged = np.abs(s - previous_s) <= self.relative_tolerance * previous_s
-                exact_fit = s <= np.finfo(np.float64).eps * np.max(np.abs(y))
-                if exact_fit or (
-                    scale_converged and self._converged(previous_m.params, m.params)
-                ):
+                if scale_converged and self._converged(previous_m.params, m.params):
                     m.n_iter = n_iter
                     best_models.append(m)
                     best_scales.append(s)
@@ -180,14 +187,12 @@ class SRegression(RobustRegression):
             sample_idx = rng.choice(X.shape[0], X.shape[1] + 1, replace=False)
             model = WLS(y[sample_idx], X[sample_idx]).fit()
             residuals = model.predict(X) - y
-            scale = np.median(np.abs(residuals)) / 0.6745
-            if scale == 0:  # exact fit of at least half of the observations
-                model.weights = (residuals == 0).astype(float)
-                models.append(model)
-                scales.append(scale)
-                continue
+            model.weights = np.isin(np.arange(len(y)), sample_idx).astype(float)
             try:
                 for _ in range(self.n_initial_i_steps):
+                    scale = np.median(np.abs(residuals)) / 0.6745
+                    if _is_exact_fit(scale, y):  # of at least half of the observations
+                        break
                     model, scale = self._i_step(X, y, residuals)
                     residuals = model.resid
                 models.append(model)
-- 
2.43.0


From 9066b1eb5e4675e898dbd752eb1970e774c772d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 17/72] fix: distance-distance plot's classical distances use
 the classical mean

---
 robpy/covariance/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/base.py b/robpy/covariance/base.py
index f5b24ea..3abadbf 100644
--- a/robpy/covariance/base.py
+++ b/robpy/covariance/base.py
@@ -84,7 +84,7 @@ class RobustCovariance(EmpiricalCovariance):
             X, location=self.location_, covariance=self.covariance_
         )
         self._mahalanobis_distances = mahalanobis_distance(
-            X, location=self.location_, covariance=self.default_covariance_
+            X, location=X.mean(0), covariance=self.default_covariance_
         )
 
         return self
-- 
2.43.0


From a55a7ca4525302352eb6dd622231612f4821a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 18/72] fix: Qn classifies its trial value exactly (rounding
 made the search loop forever)

---
 robpy/univariate/qn.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/robpy/univariate/qn.py b/robpy/univariate/qn.py
index 949f7a5..eb444fd 100644
--- a/robpy/univariate/qn.py
+++ b/robpy/univariate/qn.py
@@ -60,8 +60,8 @@ class Qn(RobustScale):
             jhelp = (left + weight // 2).astype(int)
             work = y - y[n - jhelp]
             trial = weighted_median(work, weight)
-            P = np.searchsorted(-np.flip(y), trial - y, "left", np.arange(n))
-            Q = np.searchsorted(-np.flip(y), trial - y, "right", np.arange(n)) + 1
+            P = _count_differences(y, trial, np.less)
+            Q = _count_differences(y, trial, np.less_equal) + 1
             if knew <= np.sum(P):
                 right = P
                 nR = np.sum(P)
@@ -91,6 +91,21 @@ class Qn(RobustScale):
         self.location_ = self.location_func(X)
 
 
+def _count_differences(y: np.ndarray, trial: float, compare: np.ufunc) -> np.ndarray:
+    """
+    For each element of the sorted array y, count (by bisection) how many elements it differs from
+    by less than (or at most) the trial value. The differences are formed in the same way as the
+    trial value itself, so that rounding cannot classify the trial value on the wrong side.
+    """
+    n = len(y)
+    low, high = np.zeros(n, dtype=int), np.full(n, n)
+    while (low < high).any():
+        mid = (low + high) // 2
+        below = (low < high) & compare(y - y[np.maximum(n - 1 - mid, 0)], trial)
+        low, high = np.where(below, mid + 1, low), np.where(below, high, mid)
+    return low
+
+
 def _get_small_sample_dn(n: int):
     """
     Calculates the correction factor for the Qn estimator at small samples.
-- 
2.43.0


From e50ff5bdeea93dae25f3c5c84230df1b22cc1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 19/72] fix: the MCD convergence tolerance is relative to the
 determinant (absolute, it depended on the units of the data)

---
 robpy/covariance/mcd.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 8ecf60d..965ec6e 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -67,7 +67,8 @@ class FastMCD(RobustCovariance):
               This can speed up the algorithm for large datasets (n > 600 suggested in paper).
               If None, 5 partitions are used if n > 600, otherwise 1 partition is used.
             tolerance (float, optional):
-              Minimum difference in determinant between two iterations to stop the C-step.
+              Minimum relative difference in determinant between two iterations to stop the
+              C-step.
               Defaults to 1e-8.
             correct_covariance (bool, optional):
               Whether to apply a consistency correction to the raw covariance estimate.
@@ -132,7 +133,8 @@ class FastMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (subset.determinant - new_subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant)
+                    <= self.tolerance * abs(subset.determinant)
                 ):
                     break
                 subset = new_subset
@@ -306,7 +308,8 @@ class DetMCD(RobustCovariance):
                 If None or an integer below [(n+p+1)/2], h is set to [(n+p+1)/2].
                 Defaults to None.
             tolerance (float, optional):
-                Minimum difference in determinant between two iterations to stop the C-step.
+                Minimum relative difference in determinant between two iterations to stop the
+                C-step.
                 Defaults to 1e-8.
             correct_covariance (bool, optional):
                 Whether to apply a consistency correction to the raw covariance estimate.
@@ -353,7 +356,8 @@ class DetMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (subset.determinant - new_subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant)
+                    <= self.tolerance * abs(subset.determinant)
                 ):
                     break
                 subset = new_subset
-- 
2.43.0


From e7393fc0b40f395331a79506867d44583979e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 20/72] fix: DataCleaner keeps clean_na_first="automatic"
 instead of overwriting it at the first transform

---
 robpy/preprocessing/data_cleaner.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 49d6d82..50d5e98 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -167,16 +167,17 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _set_missing_cols_and_rows(self, X: pd.DataFrame):
         """Clean missing values."""
-        if self.clean_na_first == "automatic":
-            self.clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
+        clean_na_first = self.clean_na_first
+        if clean_na_first == "automatic":
+            clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
 
         X = X.replace([np.inf, -np.inf], np.nan).drop(
             columns=self.non_numeric_cols + self.cols_discrete + self.cols_bad_scale
         )
-        if self.clean_na_first == "columns":
+        if clean_na_first == "columns":
             self._set_missing_cols(X)
             self._set_missing_rows(X)
-        elif self.clean_na_first == "rows":
+        elif clean_na_first == "rows":
             self._set_missing_rows(X)
             self._set_missing_cols(X)
         else:
-- 
2.43.0


From 301f124605000b1378cf600486bc9cbad4e6e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 21/72] fix: DataCleaner drops rows by position and forgets the
 missingness of earlier transforms

---
 robpy/preprocessing/data_cleaner.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 50d5e98..4b872fa 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -97,7 +97,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             ),
         )
 
-        X = X.drop(index=self.rows_missings)
+        X = X.loc[~self._rows_missings_mask]
 
         self.logger.info(f"The final data has {X.shape[0]} rows and {X.shape[1]} columns.")
 
@@ -171,6 +171,9 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         if clean_na_first == "automatic":
             clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
 
+        # nothing is dropped yet: results of an earlier transform must not influence this one
+        self.cols_missings = []
+        self._rows_missings_mask = np.zeros(X.shape[0], dtype=bool)
         X = X.replace([np.inf, -np.inf], np.nan).drop(
             columns=self.non_numeric_cols + self.cols_discrete + self.cols_bad_scale
         )
@@ -204,12 +207,11 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _set_missing_cols(self, X: pd.DataFrame):
         """Remove columns with too many missings"""
-        if hasattr(self, "rows_missings"):
-            X = X.drop(index=self.rows_missings)
+        X = X.loc[~self._rows_missings_mask]
         self.cols_missings = X.columns[X.isna().mean() >= self.max_missing_frac_cols].tolist()
 
     def _set_missing_rows(self, X: pd.DataFrame):
         """Remove rows with too many missings"""
-        if hasattr(self, "cols_missings"):
-            X = X.drop(columns=self.cols_missings)
-        self.rows_missings = X.index[X.isna().mean(axis=1) >= self.max_missing_frac_rows].tolist()
+        X = X.drop(columns=self.cols_missings)
+        self._rows_missings_mask = (X.isna().mean(axis=1) >= self.max_missing_frac_rows).to_numpy()
+        self.rows_missings = X.index[self._rows_missings_mask].tolist()
-- 
2.43.0


From e0a150ba7b3afa700b4182ddf9cafb2447ab2ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 22/72] fix: DataCleaner does not count infinities as distinct
 values of a discrete column

---
 robpy/preprocessing/data_cleaner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 4b872fa..a78de6d 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -191,7 +191,8 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _get_discrete_columns_to_drop(self, X: pd.DataFrame):
         """Store columns with a small number of unique values (discrete columns) to drop."""
-        self.cols_discrete = X.columns[X.nunique() <= self.min_unique_values].tolist()
+        n_unique = X.replace([np.inf, -np.inf], np.nan).nunique()
+        self.cols_discrete = X.columns[n_unique <= self.min_unique_values].tolist()
 
     def _get_bad_scale_columns_to_drop(self, X: pd.DataFrame):
         """Store columns with a scale smaller than min_abs_scale to drop."""
-- 
2.43.0


From ebcd173ccfcaf76a59624c4586aba889def93bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 23/72] fix: RobustPowerTransformer keeps method='auto' instead
 of overwriting it at the first fit

---
 robpy/preprocessing/transfo.py | 40 +++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 776a8cf..cc31a3f 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -54,15 +54,15 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
-        self._get_method(x)
+        self.method_ = self._get_method(x)
         x_sorted = np.sort(x)
 
-        if self.method in ["boxcox", "auto"]:
+        if self.method_ in ["boxcox", "auto"]:
             lambda_boxcox, mu_rew_boxcox, sd_rew_boxcox, scale_boxcox = self._fit_boxcox(x_sorted)
-            if self.method == "auto":
+            if self.method_ == "auto":
                 crit_val_boxcox = self._robnormality(x, "boxcox", lambda_boxcox)
 
-        if self.method in ["yeojohnson", "auto"]:
+        if self.method_ in ["yeojohnson", "auto"]:
             (
                 lambda_yeojohnson,
                 mu_rew_yeojohnson,
@@ -70,16 +70,16 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 loc_yeojohnson,
                 scale_yeojohnson,
             ) = self._fit_yeojohnson(x_sorted)
-            if self.method == "auto":
+            if self.method_ == "auto":
                 crit_val_yeojohnson = self._robnormality(x, "yeojohnson", lambda_yeojohnson)
 
-        if self.method == "auto":
+        if self.method_ == "auto":
             if crit_val_boxcox < crit_val_yeojohnson:
-                self.method = "boxcox"
+                self.method_ = "boxcox"
             else:
-                self.method = "yeojohnson"
+                self.method_ = "yeojohnson"
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if self.standardize:
                 self.scale_pre = scale_boxcox
                 self.location_post = mu_rew_boxcox
@@ -102,7 +102,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError(
                     "The data is not strictly positive. Box-Cox transformation "
@@ -130,7 +130,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if self.standardize:
                 x = x * self.scale_post + self.location_post
             x = self._handle_bounds(x)
@@ -220,13 +220,13 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
 
         lower_bound, upper_bound = None, None
 
-        if self.method == "boxcox" and self.lambda_rew > 0.0:
+        if self.method_ == "boxcox" and self.lambda_rew > 0.0:
             lower_bound = -1.0 / np.abs(self.lambda_rew)
-        elif self.method == "boxcox" and self.lambda_rew < 0.0:
+        elif self.method_ == "boxcox" and self.lambda_rew < 0.0:
             upper_bound = 1.0 / np.abs(self.lambda_rew)
-        elif self.method == "yeojohnson" and self.lambda_rew > 2.0:
+        elif self.method_ == "yeojohnson" and self.lambda_rew > 2.0:
             lower_bound = -1.0 / np.abs(self.lambda_rew - 2.0)
-        elif self.method == "yeojohnson" and self.lambda_rew < 0.0:
+        elif self.method_ == "yeojohnson" and self.lambda_rew < 0.0:
             upper_bound = 1.0 / np.abs(self.lambda_rew)
 
         return lower_bound, upper_bound
@@ -237,7 +237,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         if lower_bound is not None and np.min(x) < lower_bound:
             new_bound = 0.95 * lower_bound
             self.logger.info(
-                f"Some (standardized) values in x are below the range of the {self.method} "
+                f"Some (standardized) values in x are below the range of the {self.method_} "
                 f"transformation. These values were replaced by {new_bound} so they "
                 "can be transformed back."
             )
@@ -246,7 +246,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         if upper_bound is not None and np.max(x) > upper_bound:
             new_bound = 0.95 * upper_bound
             self.logger.info(
-                f"Some (standardized) values in x are above the range of the {self.method} "
+                f"Some (standardized) values in x are above the range of the {self.method_} "
                 f"transformation. These values were replaced by {new_bound} so they "
                 "can be transformed back."
             )
@@ -585,15 +585,15 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
 
         return lambda_est
 
-    def _get_method(self, x: np.ndarray):
+    def _get_method(self, x: np.ndarray) -> str:
         if self.method == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError("The data is not strictly positive. Box-Cox cannot be applied.")
         elif self.method == "auto":
             if np.min(x) <= 0:
-                self.method = "yeojohnson"
+                return "yeojohnson"
         elif self.method != "yeojohnson":
             raise ValueError(
                 'The only supported methods of transformation are "boxcox", "yeojohnson" or "auto".'
             )
-        return self
+        return self.method
-- 
2.43.0


From 022584d4af98b954b823b63b3e4b631b1b7fd130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:29 +0000
Subject: [PATCH 24/72] fix: RobustPowerTransformer widens lambda_range when
 the estimate is near its bounds (it raised TypeError)

---
 robpy/preprocessing/transfo.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index cc31a3f..c8f90a5 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -154,14 +154,14 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range, dtype=float)
         converged = False
+        if self.standardize:
+            scale_boxcox = np.median(x)
+            x = x / scale_boxcox
+        else:
+            scale_boxcox = None
         while not converged:
-            if self.standardize:
-                scale_boxcox = np.median(x)
-                x = x / scale_boxcox
-            else:
-                scale_boxcox = None
             lambda_raw = self._calculate_lambda_0(x, "boxcox_rect", lambdarange)
             lambda_rew, mu_rew_boxcox, sd_rew_boxcox = self._reweighted_max_likelihood_robust(
                 x,
@@ -185,15 +185,15 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range, dtype=float)
         converged = False
+        if self.standardize:
+            loc_yeojohnson = np.median(x)
+            scale_yeojohnson = median_abs_deviation(x, scale="normal")
+            x = (x - loc_yeojohnson) / scale_yeojohnson
+        else:
+            loc_yeojohnson, scale_yeojohnson = None, None
         while not converged:
-            if self.standardize:
-                loc_yeojohnson = np.median(x)
-                scale_yeojohnson = median_abs_deviation(x, scale="normal")
-                x = (x - loc_yeojohnson) / scale_yeojohnson
-            else:
-                loc_yeojohnson, scale_yeojohnson = None, None
             lambda_raw = self._calculate_lambda_0(x, "yeojohnson_rect", lambdarange)
             (
                 lambda_rew,
-- 
2.43.0


From 88f35165f40832d5f340dacbeeb05d8293ec59ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 25/72] fix: RobustPowerTransformer does not truncate the
 transform of integer data

---
 robpy/preprocessing/transfo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index c8f90a5..9e468f2 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -263,7 +263,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             raise ValueError(
                 "Data values should be strictly positive for a Box-Cox transformation."
             )
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x - 1.0
@@ -341,7 +341,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.log(1.0 + x[positive_mask])
@@ -366,7 +366,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
     ):
         """Rectified Yeo-Johnson transformation."""
 
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x
@@ -454,7 +454,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation inversed."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.exp(x[positive_mask]) - 1.0
-- 
2.43.0


From 725162a963d25528c0a007bab648cfb3f439abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:53 +0000
Subject: [PATCH 26/72] fix: RobustPowerTransformer's method='auto' evaluates
 the Yeo-Johnson objective on the data its lambda belongs to

---
 robpy/preprocessing/transfo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 9e468f2..59e81fb 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -71,7 +71,8 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 scale_yeojohnson,
             ) = self._fit_yeojohnson(x_sorted)
             if self.method_ == "auto":
-                crit_val_yeojohnson = self._robnormality(x, "yeojohnson", lambda_yeojohnson)
+                x_pre = (x - loc_yeojohnson) / scale_yeojohnson if self.standardize else x
+                crit_val_yeojohnson = self._robnormality(x_pre, "yeojohnson", lambda_yeojohnson)
 
         if self.method_ == "auto":
             if crit_val_boxcox < crit_val_yeojohnson:
-- 
2.43.0


From 014787b418fcbb817bca2406eb5ffc82b38de9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 27/72] fix: RobustPowerTransformer's reweighting standardises
 robustly (outliers masked themselves in the second step)

---
 robpy/preprocessing/transfo.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 59e81fb..e52823c 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -542,10 +542,9 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             w = np.abs(zt) <= np.sqrt(chi2.ppf(quantile, 1))
             lambda_rew = self._estimate_max_likelihood(x[w], transf, lambdarange)
             if transf == "boxcox":
-                xt = self._transf_boxcox(x, lambda_rew, standardize_too=False)[0]
+                xt, zt = self._transf_boxcox(x, lambda_rew, standardize_too=True)
             elif transf == "yeojohnson":
-                xt = self._transf_yeojohnson(x, lambda_rew, standardize_too=False)[0]
-            zt = (xt - np.mean(xt)) / np.std(xt)
+                xt, zt = self._transf_yeojohnson(x, lambda_rew, standardize_too=True)
 
         mu_rew = np.mean(xt[w])
         sd_rew = np.std(xt[w])
-- 
2.43.0


From d81f5c53ebeea27600f309c2f24e82acab164a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 28/72] fix: DDC weights the predictors by min_correlation
 instead of a fixed 0.5

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index b09026c..84ddb77 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -395,7 +395,7 @@ class DDC(OutlierMixin):
             weights = np.repeat(
                 [
                     [
-                        np.abs(r) * (np.abs(r) >= 0.5) * (idx != i)
+                        np.abs(r) * (np.abs(r) >= self.min_correlation) * (idx != i)
                         for idx, r in enumerate(self.robust_correlation_[:, i])
                     ]
                 ],
-- 
2.43.0


From 1ff54d571bbc36ca341e619cdad3cbe6612e48db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 29/72] fix: DDC fits data with rows that are missing
 altogether

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 84ddb77..d1f3efa 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -185,7 +185,7 @@ class DDC(OutlierMixin):
         """
         raw_t_values_ = np.nanmean(chi2.cdf(standardized_residuals**2, df=1), axis=1)
         if fit:
-            self.t_scale_est = CellwiseOneStepM().fit(raw_t_values_)
+            self.t_scale_est = CellwiseOneStepM().fit(raw_t_values_, ignore_nan=True)
         standardized_t_values_ = (
             raw_t_values_ - self.t_scale_est.location
         ) / self.t_scale_est.scale
-- 
2.43.0


From 8da24c6e4f0bcd5d4a1897c39d3d375a79c07984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 30/72] fix: DDC treats columns with fewer than two joint
 observations as uncorrelated

---
 robpy/outliers/ddc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index d1f3efa..65a805d 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -361,6 +361,9 @@ class DDC(OutlierMixin):
                     xy, np.array([0, 0]), np.array([[1, xy_corr], [xy_corr, 1]])
                 )
                 xy_subset = xy[distances < self.cutoff, :]
+                if len(xy_subset) < 2:
+                    correlation[i, j] = correlation[j, i] = 0
+                    continue
                 correlation[i, j] = correlation[j, i] = np.corrcoef(xy_subset, rowvar=False)[0, 1]
         return correlation
 
-- 
2.43.0


From b1653cc41049506a0d09bd42a45924dfda5aa023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 31/72] fix: CellMCD returns the weights that belong to its
 estimates when the last C-step is rejected

---
 robpy/covariance/cellmcd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 5c01467..a53a539 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -450,6 +450,7 @@ class CellMCD(RobustCovariance):
         This is done per column."""
 
         n = W.shape[0]
+        W = W.copy()  # the caller may still return the old W, when this step is rejected
         ordering = np.argsort(np.sum(W, axis=0), kind="stable")
         for j in ordering:
             delta = self._calculate_delta(X, W, sigma, sigma_inv, mu, j)
-- 
2.43.0


From e805c47bf8843397b10d6abc77e758a7601b152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 32/72] fix: CellMCD's conditional variances of rows without
 any clean cell are the variances, not the precisions

---
 robpy/covariance/cellmcd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index a53a539..5be6d2f 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -330,7 +330,7 @@ class CellMCD(RobustCovariance):
 
             else:  # all missings in the w-pattern
                 predictions, conditional_variances = self._predict_all_missing(
-                    predictions, conditional_variances, row_idx_w, mu, sigma_inv
+                    predictions, conditional_variances, row_idx_w, mu, sigma
                 )
 
         return predictions, conditional_variances
@@ -625,12 +625,12 @@ class CellMCD(RobustCovariance):
         conditional_variances: np.ndarray,
         row_idx_w: np.array,
         mu: np.array,
-        sigma_inv: np.ndarray,
+        sigma: np.ndarray,
     ):
         """Make predictions when all values in the w-pattern are missing."""
         for index in row_idx_w:
             predictions[index, :] = mu
-            conditional_variances[index, :] = np.diag(sigma_inv)
+            conditional_variances[index, :] = np.diag(sigma)
 
         return predictions, conditional_variances
 
-- 
2.43.0


From fc3abc8177d239634b765ccdfef32cdc9cd56c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 33/72] fix: CellMCD flags cells at the configured quantile
 instead of a fixed 0.99

---
 robpy/covariance/cellmcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 5be6d2f..0025f80 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -358,7 +358,7 @@ class CellMCD(RobustCovariance):
         objective_values = np.full(self.max_c_steps + 1, np.nan)
         step = 0
         q = (
-            chi2.ppf(0.99, 1) - np.log(np.diag(initial_cov_inv)) + np.log(2 * np.pi)
+            chi2.ppf(self.quantile, 1) - np.log(np.diag(initial_cov_inv)) + np.log(2 * np.pi)
         )  # equation (21)
         penalty = np.sum(q * np.sum(1 - initial_W, axis=0))
         objective_values[step] = (
-- 
2.43.0


From 9ed82f6c69451edf1011ce0c5f1f6f76159089cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 34/72] fix: fitting CellMCD or InitialDDCW no longer
 overwrites the alpha parameter

---
 robpy/covariance/cellmcd.py      | 14 +++++++-------
 robpy/covariance/initial_ddcw.py |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 0025f80..cb69364 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -80,7 +80,7 @@ class CellMCD(RobustCovariance):
                     f"h = alpha*n is too small and therefore set to [n/2] + 1"
                     f" ({(int(n / 2) + 1.0) / n})."
                 )
-            self.alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
+            self.alpha_ = np.max([self.alpha, (int(n / 2) + 1.0) / n])
         else:
             raise ValueError(f"alpha must a float between 0.5 and 1, but received {self.alpha}.")
 
@@ -97,7 +97,7 @@ class CellMCD(RobustCovariance):
         self._check_data(X_scaled)
 
         # Step 2: calculate the initial estimates
-        ddcw = InitialDDCW(alpha=self.alpha, min_eigenvalue=self.min_eigenvalue)
+        ddcw = InitialDDCW(alpha=self.alpha_, min_eigenvalue=self.min_eigenvalue)
         ddcw.fit(X_scaled)
         initial_location = ddcw.location_
         initial_cov = ddcw.covariance_
@@ -352,7 +352,7 @@ class CellMCD(RobustCovariance):
         """
         n, p = X_scaled.shape
 
-        h = round(self.alpha * n)
+        h = round(self.alpha_ * n)
         initial_W = np.ones([n, p])
         initial_W[np.isnan(X_scaled)] = 0
         objective_values = np.full(self.max_c_steps + 1, np.nan)
@@ -645,17 +645,17 @@ class CellMCD(RobustCovariance):
 
         cutoff = np.sqrt(chi2.ppf(self.quantile, 1))
         n_marginal_outliers = np.sum(np.abs(X) > cutoff, axis=0) / X.shape[0]
-        if np.max(n_marginal_outliers) > 1 - self.alpha:
+        if np.max(n_marginal_outliers) > 1 - self.alpha_:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of "
+                f"\nAt least one variable has more than {100 * (1 - self.alpha_)}% of "
                 "marginal  outliers."
             )
 
         X[np.abs(X) > cutoff] = np.nan
         n_bad_values = np.isnan(X).sum(axis=0) / X.shape[0]
-        if np.max(n_bad_values) > 1 - self.alpha:
+        if np.max(n_bad_values) > 1 - self.alpha_:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of nan's or "
+                f"\nAt least one variable has more than {100 * (1 - self.alpha_)}% of nan's or "
                 "marginal outliers."
             )
 
diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index a309e70..9343ede 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -55,14 +55,14 @@ class InitialDDCW(RobustCovariance):
                     f"h = alpha*n is too small and therefore set to [n/2] + 1"
                     f" ({(int(n / 2) + 1.0) / n})."
                 )
-            self.alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
+            self.alpha_ = np.max([self.alpha, (int(n / 2) + 1.0) / n])
         else:
             raise ValueError(f"alpha must a float between 0.5 and 1, but received {self.alpha}.")
 
         # DDC with constraint -> imputed and rescaled Zimp:
         ddc = DDC(chi2_quantile=0.9, scale_estimator=OneStepWrapping()).fit(pd.DataFrame(X))
         W = np.copy(ddc.cellwise_outliers_)
-        flagged_too_many = np.where(np.sum(W, axis=0) / X.shape[0] > 1 - self.alpha)[0]
+        flagged_too_many = np.where(np.sum(W, axis=0) / X.shape[0] > 1 - self.alpha_)[0]
         for i in flagged_too_many:
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
-- 
2.43.0


From 0952e6c71b2a346dac0eecffc66448bfc13adb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 35/72] fix: CellMCD rejects columns with too many cells beyond
 3 instead of failing inside the C-steps

---
 robpy/covariance/cellmcd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index cb69364..d00eccb 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -643,7 +643,8 @@ class CellMCD(RobustCovariance):
 
         X = np.copy(X_scaled)
 
-        cutoff = np.sqrt(chi2.ppf(self.quantile, 1))
+        # cells beyond 3 are set aside by the algorithm, whatever the quantile
+        cutoff = min(np.sqrt(chi2.ppf(self.quantile, 1)), 3)
         n_marginal_outliers = np.sum(np.abs(X) > cutoff, axis=0) / X.shape[0]
         if np.max(n_marginal_outliers) > 1 - self.alpha_:
             raise ValueError(
-- 
2.43.0


From 4162b2fa3858bdea195f8e15b6bd76482d2da6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 36/72] fix: InitialDDCW handles data of which a single
 principal direction exceeds min_eigenvalue

---
 robpy/covariance/initial_ddcw.py | 36 ++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index 9343ede..ad5fd4e 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -88,14 +88,16 @@ class InitialDDCW(RobustCovariance):
         Zimp_proj_scaler.scales_[
             Zimp_proj_scaler.scales_ < self.min_eigenvalue
         ] = self.min_eigenvalue
-        Zimp_proj_wrapped_cov = np.cov(
-            wrapping_transformation(
-                Zimp_proj,
-                location_estimator=lambda *args, **kwargs: Zimp_proj_scaler.locations_,
-                scale_estimator=lambda *args, **kwargs: Zimp_proj_scaler.scales_,
-                rescale=True,
-            ),
-            rowvar=False,
+        Zimp_proj_wrapped_cov = np.atleast_2d(
+            np.cov(
+                wrapping_transformation(
+                    Zimp_proj,
+                    location_estimator=lambda *args, **kwargs: Zimp_proj_scaler.locations_,
+                    scale_estimator=lambda *args, **kwargs: Zimp_proj_scaler.scales_,
+                    rescale=True,
+                ),
+                rowvar=False,
+            )
         )
         cov = eigenvectors @ Zimp_proj_wrapped_cov @ eigenvectors.T  # back to original axis system
         cov = covariance_to_correlation(cov)
@@ -120,14 +122,16 @@ class InitialDDCW(RobustCovariance):
         Zimp_proj_scaler.scales_[
             Zimp_proj_scaler.scales_ < self.min_eigenvalue
         ] = self.min_eigenvalue
-        Zimp_proj_wrapped_cov = np.cov(
-            wrapping_transformation(
-                Zimp_proj,
-                location_estimator=lambda *args, **kwargs: Zimp_proj_scaler.locations_,
-                scale_estimator=lambda *args, **kwargs: Zimp_proj_scaler.scales_,
-                rescale=True,
-            ),
-            rowvar=False,
+        Zimp_proj_wrapped_cov = np.atleast_2d(
+            np.cov(
+                wrapping_transformation(
+                    Zimp_proj,
+                    location_estimator=lambda *args, **kwargs: Zimp_proj_scaler.locations_,
+                    scale_estimator=lambda *args, **kwargs: Zimp_proj_scaler.scales_,
+                    rescale=True,
+                ),
+                rowvar=False,
+            )
         )
         cov = eigenvectors @ Zimp_proj_wrapped_cov @ eigenvectors.T  # back to original axis system
         cov = covariance_to_correlation(cov)
-- 
2.43.0


From 9649689d47eb72311f3590de49162e494f6fc04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 37/72] fix: stahel_donoho with a random seed draws different
 directions (it drew the same one n_dir times)

---
 robpy/utils/outlyingness.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index 977c90b..fdac4cb 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -33,9 +33,10 @@ def stahel_donoho(
           kovarianzmatrizen (Doctoral dissertation, ETH Zurich).
     """
     # step 1: get random directions
+    rng = np.random.default_rng(random_seed)
     D = np.hstack(
         [
-            _get_random_direction(X, n_points=n_points, random_seed=random_seed).reshape(-1, 1)
+            _get_random_direction(X, n_points=n_points, random_seed=rng).reshape(-1, 1)
             for _ in range(n_dir)
         ]
     )  # (n_features, n_dir)
@@ -54,14 +55,15 @@ def stahel_donoho(
 def _get_random_direction(
     X: np.ndarray,
     n_points: int = 2,
-    random_seed: int | None = None,
+    random_seed: int | np.random.Generator | None = None,
 ) -> np.ndarray:
     """Get direction orthogonal to the hyperplane spanned by random points in X.
 
     Args:
         X (np.ndarray): data matrix (n x p).
         n_points (int, optional): number of points to determine the hyperplane. Defaults to 2.
-        random_seed (int | None, optional): can be used to provide a random seed. Defaults to None.
+        random_seed (int | np.random.Generator | None, optional): can be used to provide a random
+            seed or generator. Defaults to None.
 
     Returns:
         np.ndarray: vector of shape (p, ) indicating the direction.
-- 
2.43.0


From fe455c0d80e8b0076192e6c132557a76a3a0b295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 38/72] fix: stahel_donoho ignores undefined directions
 (duplicated rows made all outlyingness NaN)

---
 robpy/utils/outlyingness.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index fdac4cb..7f72649 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -45,7 +45,9 @@ def stahel_donoho(
 
     # step 3: outlyingness
     # to do: let scale and loc estimators be passed as arguments
-    return np.max(
+    # nanmax: coinciding points determine no direction and points on a hyperplane which contains
+    # the majority of the data are not outlying in the direction orthogonal to it
+    return np.nanmax(
         np.abs(projections - np.median(projections, axis=0))
         / median_abs_deviation(projections, axis=0),
         axis=1,
-- 
2.43.0


From 91b214c23f15819889b5caaa3a2bf3371ce8e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 39/72] fix: l1median terminates when an iterate equals an
 observation (division by zero looped forever)

---
 robpy/utils/median.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index cfdef98..172ca42 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -11,14 +11,24 @@ def l1median(X: np.ndarray) -> float:
     References:
         - Fritz, H., Filzmoser, P., & Croux, C. (2012). A comparison of algorithms for the
           multivariate L1-median. Computational Statistics, 27, 393-410.
+        - Vardi, Y., & Zhang, C. H. (2000). The multivariate L1-median and associated data depth.
+          Proceedings of the National Academy of Sciences, 97(4), 1423-1426.
     """
     epsilon = 1e-7
     mu_0 = np.mean(X, axis=0)
     while True:
         centered_X = X - mu_0
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        W = 1 / d
-        mu_1 = np.sum((X * W[:, np.newaxis]).T / np.sum(W), axis=1)
+        away = d > 0
+        n_hit = np.sum(~away)  # number of observations that equal the current iterate
+        if n_hit == len(d):
+            return mu_0
+        W = 1 / d[away]
+        mu_1 = np.sum((X[away] * W[:, np.newaxis]).T / np.sum(W), axis=1)
+        if n_hit > 0:  # modification of Vardi and Zhang (2000)
+            r = np.linalg.norm(np.sum(centered_X[away] * W[:, np.newaxis], axis=0))
+            gamma = min(1, n_hit / r) if r > 0 else 1
+            mu_1 = (1 - gamma) * mu_1 + gamma * mu_0
         if np.sum(np.abs(mu_0 - mu_1)) < epsilon:
             return mu_1
         else:
-- 
2.43.0


From c524493bf998e63a968cc166ea8b5035f62fd1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 40/72] fix: l1median's tolerance is relative to the data
 (absolute, it returned the mean of small and never finished on large data)

---
 robpy/utils/median.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index 172ca42..ff19280 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -14,8 +14,10 @@ def l1median(X: np.ndarray) -> float:
         - Vardi, Y., & Zhang, C. H. (2000). The multivariate L1-median and associated data depth.
           Proceedings of the National Academy of Sciences, 97(4), 1423-1426.
     """
-    epsilon = 1e-7
     mu_0 = np.mean(X, axis=0)
+    # relative to the spread of the data, but not below the rounding errors in the iterates
+    spread = np.mean(np.sqrt(np.sum((X - mu_0) ** 2, axis=1)))
+    epsilon = max(1e-7 * spread, 8 * np.finfo(float).eps * np.sum(np.abs(mu_0)))
     while True:
         centered_X = X - mu_0
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
@@ -29,7 +31,7 @@ def l1median(X: np.ndarray) -> float:
             r = np.linalg.norm(np.sum(centered_X[away] * W[:, np.newaxis], axis=0))
             gamma = min(1, n_hit / r) if r > 0 else 1
             mu_1 = (1 - gamma) * mu_1 + gamma * mu_0
-        if np.sum(np.abs(mu_0 - mu_1)) < epsilon:
+        if np.sum(np.abs(mu_0 - mu_1)) <= epsilon:
             return mu_1
         else:
             mu_0 = mu_1
-- 
2.43.0


From e0d983485434df83305bfd23fcbd9d0d1f198031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 41/72] fix: PCALocantore handles observations that equal the
 spatial median

---
 robpy/pca/spca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 11cc106..4542b03 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -37,7 +37,7 @@ class PCALocantore(RobustPCA):
         self.location_ = l1median(X)
         centered_X = X - self.location_
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        w = 1 / d
+        w = np.divide(1, d, out=np.zeros_like(d), where=d > 0)  # the spatial sign of 0 is 0
         spatial_sign_covariance = (
             np.dot((centered_X * w[:, np.newaxis]).T, (centered_X * w[:, np.newaxis])) / n
         )
-- 
2.43.0


From 38074c96147a020fdc15141184991f3f043dc407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 42/72] fix: ROBPCA's final MCD step uses random_seed

---
 robpy/pca/robpca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index a94a407..862807f 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -105,7 +105,7 @@ class ROBPCA(RobustPCA):
         self.components_ = eigvecs_v[:, sorted_eig_v_idx[:k]]
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
-            mcd = FastMCD().fit(self.transform(X))
+            mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
             _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
-- 
2.43.0


From 69fc393489b36ca83dac3759ce9021456702fa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 43/72] fix: k_min_var_explained=1 keeps all components
 (rounding of the cumulated ratio selected one)

---
 robpy/pca/robpca.py | 3 ++-
 robpy/pca/spca.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 862807f..ae040a5 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -86,7 +86,8 @@ class ROBPCA(RobustPCA):
         # step 3: project on k-dimensional subspace
         eigvals_h, eigvecs_h = np.linalg.eigh(h_cov)
         sorted_eig_h_idx = np.argsort(eigvals_h)[::-1]
-        var_explained_ratio = eigvals_h[sorted_eig_h_idx].cumsum() / eigvals_h.sum()
+        var_explained_ratio = eigvals_h[sorted_eig_h_idx].cumsum()
+        var_explained_ratio = var_explained_ratio / var_explained_ratio[-1]
         if self.n_components is None:
             k = np.argmax(var_explained_ratio >= self.k_min_var_explained) + 1
         else:
diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 4542b03..4bff515 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -44,7 +44,8 @@ class PCALocantore(RobustPCA):
         _, eigenvectors = np.linalg.eigh(spatial_sign_covariance)
         self.components_ = np.fliplr(eigenvectors)
         eigenvalues = np.square(median_abs_deviation(self.transform(X), axis=0, scale="normal"))
-        var_explained_ratio = eigenvalues.cumsum() / eigenvalues.sum()
+        var_explained_ratio = eigenvalues.cumsum()
+        var_explained_ratio = var_explained_ratio / var_explained_ratio[-1]
         if self.n_components is None:
             self.n_components = np.argmax(var_explained_ratio >= self.k_min_var_explained) + 1
         self.components_ = self.components_[:, : self.n_components]
-- 
2.43.0


From eebb853f77ca1ff5fc755b61b846642e47e56c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 44/72] fix: fitting a robust PCA no longer overwrites the
 n_components parameter (a refit kept the first choice)

---
 robpy/pca/base.py   |  4 ++--
 robpy/pca/robpca.py |  5 +++--
 robpy/pca/spca.py   | 15 +++++++++------
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/robpy/pca/base.py b/robpy/pca/base.py
index 27ac2b3..0ff9e42 100644
--- a/robpy/pca/base.py
+++ b/robpy/pca/base.py
@@ -13,7 +13,7 @@ class RobustPCA(_BasePCA):
 
         Args:
             n_components (int | None, optional):
-                Number of components to select. If None, it is set during fit.
+                Number of components to select. If None, it is chosen during fit.
 
         """
         self.n_components = n_components
@@ -84,7 +84,7 @@ class RobustPCA(_BasePCA):
         ax.scatter(score_distances, orthogonal_distances)
         ax.set_xlabel("Score distance")
         ax.set_ylabel("Orthogonal distance")
-        score_cutoff = np.sqrt(float(chi2.ppf(0.975, self.n_components)))
+        score_cutoff = np.sqrt(float(chi2.ppf(0.975, self.n_components_)))
         od_cutoff = get_od_cutoff(orthogonal_distances)
         ax.axvline(score_cutoff, color="r", linestyle="--")
         ax.axhline(od_cutoff, color="r", linestyle="--")
diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index ae040a5..a6e5cba 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -26,7 +26,8 @@ class ROBPCA(RobustPCA):
 
         Args:
             n_components (int | None, optional):
-                Number of components to select. If None, it is set during fit. Defaults to None.
+                Number of components to select. If None, it is chosen during fit. The number of
+                selected components is available as n_components_. Defaults to None.
             k_min_var_explained (float, optional): Minimum variance explained by the components.
                 Only used if n_components is None. Defaults to 0.8.
             alpha (float, optional): Coverage parameter, determines the robustness and efficiency
@@ -111,7 +112,7 @@ class ROBPCA(RobustPCA):
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
         # step 6: transform back to original X
-        self.n_components = k
+        self.n_components_ = k
         X = pca.inverse_transform(X)
         self.components_ = loadings @ self.components_
         self.location_ = np.mean(X, axis=0)
diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 4bff515..55b5bd3 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -18,8 +18,8 @@ class PCALocantore(RobustPCA):
 
         Args:
             n_components (int | None, optional):
-                Number of components to select. If None, it is set during fit to explain the
-                minimum variance.
+                Number of components to select. If None, it is chosen during fit to explain the
+                minimum variance. The number of selected components is available as n_components_.
             k_min_var_explained (float, optional):
                 Minimum variance explained by the components.
                 Only used if n_components is None. Defaults to 0.8.
@@ -47,8 +47,11 @@ class PCALocantore(RobustPCA):
         var_explained_ratio = eigenvalues.cumsum()
         var_explained_ratio = var_explained_ratio / var_explained_ratio[-1]
         if self.n_components is None:
-            self.n_components = np.argmax(var_explained_ratio >= self.k_min_var_explained) + 1
-        self.components_ = self.components_[:, : self.n_components]
-        self.explained_variance_ = eigenvalues[: self.n_components]
-        self.explained_variance_ratio_ = var_explained_ratio[: self.n_components]
+            k = np.argmax(var_explained_ratio >= self.k_min_var_explained) + 1
+        else:
+            k = min(self.n_components, self.components_.shape[1])
+        self.n_components_ = k
+        self.components_ = self.components_[:, :k]
+        self.explained_variance_ = eigenvalues[:k]
+        self.explained_variance_ratio_ = var_explained_ratio[:k]
         return self
-- 
2.43.0


From 0be6d3f01568084f175118da3f0c2708ed955dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 45/72] fix: ROBPCA centres at the mean of its clean
 observations (it used the classical mean of all)

---
 robpy/pca/robpca.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index a6e5cba..413942e 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -56,7 +56,6 @@ class ROBPCA(RobustPCA):
         # step 1: singular value decomposition = applying standard PCA
         pca = PCA()
         X = pca.fit_transform(X)
-        self.location_ = np.mean(X, axis=0)
         loadings = pca.components_.T
         # step 2: stahel donoho outlyingness --> h subset
         outlyingness = stahel_donoho(X, random_seed=self.random_seed)
@@ -83,6 +82,7 @@ class ROBPCA(RobustPCA):
             h = np.max([int(self.alpha * X.shape[0]), int((X.shape[0] + 10 + 1) / 2)])
 
         h_index = np.argsort(outlyingness)[:h]
+        self.location_ = np.mean(X[h_index], axis=0)
         h_cov = np.cov(X[h_index], rowvar=False)
         # step 3: project on k-dimensional subspace
         eigvals_h, eigvecs_h = np.linalg.eigh(h_cov)
@@ -100,6 +100,7 @@ class ROBPCA(RobustPCA):
         # step 4: orthogonal distance
         orth_dist = np.linalg.norm((X - self.location_) - X_proj, axis=1)
         v_index = np.argwhere(orth_dist < get_od_cutoff(orth_dist)).flatten()
+        self.location_ = np.mean(X[v_index], axis=0)
         cov_v = np.cov(X[v_index], rowvar=False)
         eigvals_v, eigvecs_v = np.linalg.eigh(cov_v)
         k = min(k, np.linalg.matrix_rank(cov_v, hermitian=True))
@@ -108,12 +109,12 @@ class ROBPCA(RobustPCA):
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
             mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
+            self.location_ = self.location_ + self.components_ @ mcd.location_
             _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
         # step 6: transform back to original X
         self.n_components_ = k
-        X = pca.inverse_transform(X)
         self.components_ = loadings @ self.components_
-        self.location_ = np.mean(X, axis=0)
+        self.location_ = pca.mean_ + loadings @ self.location_
         return self
-- 
2.43.0


From 2f0eb000e3c5bca3ef21aa06546741c10328488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 46/72] fix: ROBPCA reports the variances of its own components
 (those of the h-subset's components, of another number, were reported)

---
 robpy/pca/robpca.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 413942e..a8ee188 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -93,8 +93,6 @@ class ROBPCA(RobustPCA):
             k = np.argmax(var_explained_ratio >= self.k_min_var_explained) + 1
         else:
             k = self.n_components
-        self.explained_variance_ = eigvals_h[sorted_eig_h_idx[:k]]
-        self.explained_variance_ratio = self.explained_variance_[:k].cumsum() / eigvals_h.sum()
         h_components = eigvecs_h[:, sorted_eig_h_idx[:k]]  # (p, k)
         X_proj = (X - self.location_) @ h_components @ h_components.T
         # step 4: orthogonal distance
@@ -106,15 +104,18 @@ class ROBPCA(RobustPCA):
         k = min(k, np.linalg.matrix_rank(cov_v, hermitian=True))
         sorted_eig_v_idx = np.argsort(eigvals_v)[::-1]
         self.components_ = eigvecs_v[:, sorted_eig_v_idx[:k]]
+        self.explained_variance_ = eigvals_v[sorted_eig_v_idx[:k]]
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
             mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
             self.location_ = self.location_ + self.components_ @ mcd.location_
-            _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
+            eigvals_mcd, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
+            self.explained_variance_ = np.flip(eigvals_mcd[-k:])
         # step 6: transform back to original X
         self.n_components_ = k
+        self.explained_variance_ratio = var_explained_ratio[:k]
         self.components_ = loadings @ self.components_
         self.location_ = pca.mean_ + loadings @ self.location_
         return self
-- 
2.43.0


From 3f24d6757b6be16408ae961e12f108c80f6f43eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 47/72] fix: ROBPCA keeps the h-subset's directions when they
 span the data (rounding errors decided on the outliers)

---
 robpy/pca/robpca.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index a8ee188..925142b 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -83,7 +83,7 @@ class ROBPCA(RobustPCA):
 
         h_index = np.argsort(outlyingness)[:h]
         self.location_ = np.mean(X[h_index], axis=0)
-        h_cov = np.cov(X[h_index], rowvar=False)
+        h_cov = np.atleast_2d(np.cov(X[h_index], rowvar=False))
         # step 3: project on k-dimensional subspace
         eigvals_h, eigvecs_h = np.linalg.eigh(h_cov)
         sorted_eig_h_idx = np.argsort(eigvals_h)[::-1]
@@ -97,9 +97,12 @@ class ROBPCA(RobustPCA):
         X_proj = (X - self.location_) @ h_components @ h_components.T
         # step 4: orthogonal distance
         orth_dist = np.linalg.norm((X - self.location_) - X_proj, axis=1)
-        v_index = np.argwhere(orth_dist < get_od_cutoff(orth_dist)).flatten()
+        if k < np.linalg.matrix_rank(X):
+            v_index = np.argwhere(orth_dist <= get_od_cutoff(orth_dist)).flatten()
+        else:  # no orthogonal complement: all distances are rounding errors
+            v_index = h_index
         self.location_ = np.mean(X[v_index], axis=0)
-        cov_v = np.cov(X[v_index], rowvar=False)
+        cov_v = np.atleast_2d(np.cov(X[v_index], rowvar=False))
         eigvals_v, eigvecs_v = np.linalg.eigh(cov_v)
         k = min(k, np.linalg.matrix_rank(cov_v, hermitian=True))
         sorted_eig_v_idx = np.argsort(eigvals_v)[::-1]
-- 
2.43.0


From 8970f66f9600ab3ea9b262bb5851a89728dbf4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 48/72] fix: inverse_submatrix respects the order of the
 indices when all are selected

---
 robpy/utils/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/utils/general.py b/robpy/utils/general.py
index eb8cd84..26b1686 100644
--- a/robpy/utils/general.py
+++ b/robpy/utils/general.py
@@ -26,6 +26,6 @@ def inverse_submatrix(A: np.ndarray, A_inv: np.ndarray, indices: np.array) -> np
     elif n_submatrix < p and n_submatrix <= p / 2.0:  # don't use the trick
         result = np.linalg.inv(A[np.ix_(indices, indices)])
     else:  # submatrix is the original matrix
-        result = A_inv
+        result = A_inv[np.ix_(indices, indices)]
 
     return result
-- 
2.43.0


From ffacb75838ec81a394ce9e8ce485a47aefbeb85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 49/72] fix: l1median recognises an iterate that equals an
 observation up to rounding (it stopped there)

---
 robpy/utils/median.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index ff19280..6fe4c0e 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -21,7 +21,7 @@ def l1median(X: np.ndarray) -> float:
     while True:
         centered_X = X - mu_0
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        away = d > 0
+        away = d > epsilon
         n_hit = np.sum(~away)  # number of observations that equal the current iterate
         if n_hit == len(d):
             return mu_0
-- 
2.43.0


From 9fa08da00c9b314a717f3b7914f8b41d0b58e631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 50/72] fix: stahel_donoho gives the majority outlyingness 0
 when every direction has scale 0 (it was NaN, ranking last)

---
 robpy/utils/outlyingness.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index 7f72649..33d45cc 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -51,6 +51,7 @@ def stahel_donoho(
         np.abs(projections - np.median(projections, axis=0))
         / median_abs_deviation(projections, axis=0),
         axis=1,
+        initial=0,
     )
 
 
-- 
2.43.0


From 8f4306a3879a39a0e8a4a2ecb2a5cfe54c2bbe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 51/72] fix: MMRegression fits a copy of its initial estimator
 (the shared default or the caller's own estimator was refitted)

---
 robpy/regression/mm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 904afbe..d5767ab 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from copy import copy
+from copy import deepcopy
 
 import numpy as np
 import pandas as pd
@@ -48,7 +48,7 @@ class MMRegression(RobustRegression):
     def fit(self, X: np.ndarray | pd.DataFrame, y: np.ndarray | pd.Series) -> MMRegression:
         X, y = _convert_input_to_array(X, y)
         y = y.ravel()
-        self.model = copy(self.initial_estimator.fit(X, y))
+        self.model = deepcopy(self.initial_estimator).fit(X, y)
         self._scale = self.model.scale
         self.n_iter = 0
         if _is_exact_fit(self._scale, y):  # exact fit: nothing left to iterate
-- 
2.43.0


From 28f8068af590d3b41bbf2998777e051de8983f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 52/72] fix: RobustScaler fits copies of its scale estimator
 (the shared default or the caller's own estimator was refitted)

---
 robpy/preprocessing/scaling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robpy/preprocessing/scaling.py b/robpy/preprocessing/scaling.py
index 68f99d0..31bb73f 100644
--- a/robpy/preprocessing/scaling.py
+++ b/robpy/preprocessing/scaling.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import numpy as np
 import pandas as pd
 from sklearn.base import (
@@ -40,7 +42,7 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         self.scales_ = np.ones(X.shape[1])
 
         for feature_idx in range(X.shape[1]):
-            fitted_estimator = self.scale_estimator.fit(X[:, feature_idx], ignore_nan)
+            fitted_estimator = deepcopy(self.scale_estimator).fit(X[:, feature_idx], ignore_nan)
             if self.with_centering:
                 self.locations_[feature_idx] = fitted_estimator.location
             if self.with_scaling:
-- 
2.43.0


From 66ca2a7d60a4c57091c796d96dcbb944a079e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 53/72] fix: DDC fits copies of its scale estimator (the shared
 default or the caller's own estimator was refitted)

---
 robpy/outliers/ddc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 65a805d..d03bd67 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import numpy as np
 import pandas as pd
 import seaborn as sns
@@ -312,7 +314,9 @@ class DDC(OutlierMixin):
     def _fit_scaler(self, X: pd.DataFrame):
         self.location_, self.scale_ = [], []
         for i in range(X.shape[1]):
-            est = self.scale_estimator.fit(X.iloc[:, i].to_numpy()[~np.isnan(X.iloc[:, i])])
+            est = deepcopy(self.scale_estimator).fit(
+                X.iloc[:, i].to_numpy()[~np.isnan(X.iloc[:, i])]
+            )
             self.location_.append(est.location)
             self.scale_.append(est.scale)
 
-- 
2.43.0


From c4eccacb11a4dbd1fa2d2ccb0b10d67775894d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 54/72] fix: DDC raises the documented ValueError when it is
 used before fit

---
 robpy/outliers/ddc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index d03bd67..7e3d55e 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -57,6 +57,7 @@ class DDC(OutlierMixin):
         self.cutoff = np.sqrt(chi2.ppf(chi2_quantile, df=1))
         self.min_correlation = min_correlation
         self.scale_estimator = scale_estimator
+        self.is_fitted_ = False
 
     def fit(self, X: pd.DataFrame, y=None, verbose: bool = False):
         self._check_data_conditions(X)
-- 
2.43.0


From a2c263683ee148394c8d27c9bec14854ee223054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 55/72] fix: SRegression raises ValueError for data with NaN
 (it failed later, with MissingDataError or on an empty list of models)

---
 robpy/regression/s.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 2250df1..e4dde6b 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -91,6 +91,8 @@ class SRegression(RobustRegression):
 
         X, y = _convert_input_to_array(X, y)
         y = y.ravel()
+        if np.isnan(X).any() or np.isnan(y).any():
+            raise ValueError("The data contains NaN and S-regression cannot handle missing values.")
         if self.fit_intercept:
             X = add_constant(X, has_constant="add")
         models, scales = self._get_initial_models(X, y)
-- 
2.43.0


From c6845a336fccdc0a3f8bf9ba19e8f202b033254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 56/72] fix: PCALocantore names the missing values it cannot
 handle (the eigendecomposition failed on them)

---
 robpy/pca/spca.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 55b5bd3..18b3e57 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -33,6 +33,8 @@ class PCALocantore(RobustPCA):
         self.k_min_var_explained = k_min_var_explained
 
     def fit(self, X: np.ndarray) -> PCALocantore:
+        if np.isnan(np.asarray(X)).any():
+            raise ValueError("The data X contains NaN and PCALocantore cannot handle missing values.")
         n = len(X)
         self.location_ = l1median(X)
         centered_X = X - self.location_
-- 
2.43.0


From 1f105a9156218a23b070a64590a99bca2ad1f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 57/72] fix: outlier_map accepts the data frames, series and
 single features that fit accepts

---
 robpy/regression/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/regression/base.py b/robpy/regression/base.py
index c3dec59..0fefba8 100644
--- a/robpy/regression/base.py
+++ b/robpy/regression/base.py
@@ -80,6 +80,7 @@ class RobustRegression(RegressorMixin, BaseEstimator):
               points. Journal of the American Statistical Association,  85(411), 633–651.
         """
 
+        X, y = _convert_input_to_array(X, y)
         residuals = y.reshape(-1, 1) - self.predict(X).reshape(-1, 1)
         standardized_residuals = (
             residuals
-- 
2.43.0


From 19642ffb62b1c60a8ca07d42dfce9b6dac96d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 58/72] fix: FastMCD and outlier_map handle a single variable
 (simple regression had no outlier map)

---
 robpy/covariance/base.py | 2 +-
 robpy/covariance/mcd.py  | 8 ++++----
 robpy/regression/base.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/robpy/covariance/base.py b/robpy/covariance/base.py
index 3abadbf..fa3d6de 100644
--- a/robpy/covariance/base.py
+++ b/robpy/covariance/base.py
@@ -79,7 +79,7 @@ class RobustCovariance(EmpiricalCovariance):
         self._set_covariance(covariance)
         if self.store_precision:
             self.precision_ = pinvh(covariance)
-        self.default_covariance_ = np.cov(X, rowvar=False)
+        self.default_covariance_ = np.atleast_2d(np.cov(X, rowvar=False))
         self._robust_distances = mahalanobis_distance(
             X, location=self.location_, covariance=self.covariance_
         )
diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 965ec6e..4be5145 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -101,7 +101,7 @@ class FastMCD(RobustCovariance):
         if self.alpha == 1 or self.alpha == X.shape[0]:
             self.logger.warning(f"Default covariance is returned as alpha is {self.alpha}.")
             self.location_ = X.mean(0)
-            return np.cov(X, rowvar=False)
+            return np.atleast_2d(np.cov(X, rowvar=False))
         self.rng = np.random.default_rng(self.random_seed)
         # partition data (n_partitions > 1 can speed up algorithm for large datasets)
         partitions = self._partition_data(X)
@@ -153,7 +153,7 @@ class FastMCD(RobustCovariance):
             distances = mahalanobis_distance(X, best_subset.location, scale)
             self._mask = distances < np.sqrt(chi2.ppf(0.975, X.shape[1]))
             self.location_ = X[self._mask].mean(axis=0)
-            scale = np.cov(X[self._mask], rowvar=False)
+            scale = np.atleast_2d(np.cov(X[self._mask], rowvar=False))
             if self.correct_covariance:
                 # See Croux & Haesbroeck 1999 and R code for robustbase>covMcd>MCDCons
                 # (https://rdrr.io/cran/robustbase/src/R/covMcd.R)
@@ -263,14 +263,14 @@ class FastMCD(RobustCovariance):
 
         """
         mu = X[indices].mean(axis=0)
-        cov = np.cov(X[indices], rowvar=False)
+        cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
         det = np.linalg.det(cov)
         if ensure_non_singular:
             while math.isclose(det, 0):
                 new_index = self.rng.choice(np.delete(np.arange(X.shape[0]), indices))
                 indices = np.append(indices, new_index)
                 mu = X[indices].mean(axis=0)
-                cov = np.cov(X[indices], rowvar=False)
+                cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
                 det = np.linalg.det(cov)
         return HSubset(indices, mu, cov, det, n_c_steps=n_c_steps)
 
diff --git a/robpy/regression/base.py b/robpy/regression/base.py
index 0fefba8..4887302 100644
--- a/robpy/regression/base.py
+++ b/robpy/regression/base.py
@@ -96,7 +96,7 @@ class RobustRegression(RegressorMixin, BaseEstimator):
             covariance = mcd.covariance_
             location = mcd.location_
         else:
-            covariance = np.cov(X, rowvar=False)
+            covariance = np.atleast_2d(np.cov(X, rowvar=False))
             location = np.mean(X, axis=0)
         distances = mahalanobis_distance(X, location=location, covariance=covariance)
 
-- 
2.43.0


From ca6014c619e688226237ff3095d36acc31232f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 59/72] fix: CellMCD keeps its own copy of the data it was
 fitted on (plots showed later changes by the caller)

---
 robpy/covariance/cellmcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index d00eccb..db7a845 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -132,7 +132,7 @@ class CellMCD(RobustCovariance):
         self.X_imputed = X_imputed
         self.residuals = residuals
         self.covariance_ = cov
-        self.X = X
+        self.X = X.copy()
 
         return cov
 
-- 
2.43.0


From 191fea2a9bedababc89bc65f32ce0b71526db936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 60/72] fix: PCALocantore accepts data frames, as ROBPCA and
 the other estimators do

---
 robpy/pca/spca.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 18b3e57..b8529a2 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import numpy as np
+import pandas as pd
 
 from robpy.pca.base import RobustPCA
 from robpy.utils.median import l1median
@@ -32,8 +33,10 @@ class PCALocantore(RobustPCA):
         super().__init__(n_components=n_components)
         self.k_min_var_explained = k_min_var_explained
 
-    def fit(self, X: np.ndarray) -> PCALocantore:
-        if np.isnan(np.asarray(X)).any():
+    def fit(self, X: np.ndarray | pd.DataFrame) -> PCALocantore:
+        if isinstance(X, pd.DataFrame):
+            X = X.values
+        if np.isnan(X).any():
             raise ValueError("The data X contains NaN and PCALocantore cannot handle missing values.")
         n = len(X)
         self.location_ = l1median(X)
-- 
2.43.0


From 9efd39e48f9d446504ea8bcaea364e631c7bc3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 61/72] fix: RobustScaler stays unfitted when its fit raises
 (transform answered with half-set locations and scales)

---
 robpy/preprocessing/scaling.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/scaling.py b/robpy/preprocessing/scaling.py
index 31bb73f..08f3481 100644
--- a/robpy/preprocessing/scaling.py
+++ b/robpy/preprocessing/scaling.py
@@ -38,15 +38,16 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             X = X.values
         if len(X.shape) == 1:
             X = X.reshape(-1, 1)
-        self.locations_ = np.zeros(X.shape[1])
-        self.scales_ = np.ones(X.shape[1])
+        locations, scales = np.zeros(X.shape[1]), np.ones(X.shape[1])
 
         for feature_idx in range(X.shape[1]):
             fitted_estimator = deepcopy(self.scale_estimator).fit(X[:, feature_idx], ignore_nan)
             if self.with_centering:
-                self.locations_[feature_idx] = fitted_estimator.location
+                locations[feature_idx] = fitted_estimator.location
             if self.with_scaling:
-                self.scales_[feature_idx] = fitted_estimator.scale
+                scales[feature_idx] = fitted_estimator.scale
+        # set only now: a fit that raised must not leave a scaler that transforms
+        self.locations_, self.scales_ = locations, scales
 
         return self
 
-- 
2.43.0


From d5c0e6efca51c1bd02b80590fccdd7cc98332af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 62/72] fix: cellmap accepts vmax_clip below 2.5 (the color map
 had its neutral zone outside its range and raised)

---
 robpy/outliers/ddc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 7e3d55e..3601f89 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -18,11 +18,12 @@ from robpy.univariate.base import RobustScale
 
 def get_custom_cmap(vmax_clip: float, neutral_color: str = "#f7f286") -> matplotlib.colors.Colormap:
     norm = matplotlib.colors.Normalize(-vmax_clip, vmax_clip)
+    neutral = min(2.5, vmax_clip)  # residuals up to here get the neutral color
     colors = [
         [norm(-vmax_clip), "#4652a3"],
-        [norm(-(vmax_clip + 2.5) / 2), "#8d6d8c"],
-        [norm(-2.5), neutral_color],
-        [norm(2.5), neutral_color],
+        [norm(-(vmax_clip + neutral) / 2), "#8d6d8c"],
+        [norm(-neutral), neutral_color],
+        [norm(neutral), neutral_color],
         [norm(vmax_clip), "#ec2123"],
     ]
     return matplotlib.colors.LinearSegmentedColormap.from_list("", colors)
-- 
2.43.0


From 10c3c13c7a0d81a73e6c0d975345ae547ff6addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 63/72] fix: WrappingCovariance takes its location from the
 wrapped data (it kept the mean of the raw data, which any outlier moves)

---
 robpy/covariance/wrapping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/covariance/wrapping.py b/robpy/covariance/wrapping.py
index 56e1d00..5d0e72a 100644
--- a/robpy/covariance/wrapping.py
+++ b/robpy/covariance/wrapping.py
@@ -77,5 +77,7 @@ class WrappingCovariance(RobustCovariance):
         X_transformed = wrapping_transformation(
             X, b=self.b, c=self.c, q1=self.q1, q2=self.q2, rescale=True
         )
+        if not self.assume_centered:
+            self.location_ = X_transformed.mean(axis=0)
         self.correlation_ = np.corrcoef(X_transformed, rowvar=False)
         return np.cov(X_transformed, rowvar=False)
-- 
2.43.0


From 5ff1c65f7533e4dfef5991a31cabb2a8bb6e1ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:07 +0000
Subject: [PATCH 64/72] fix: KendallTau centres at the medians that go with its
 Qn scales (it kept the mean, which any outlier moves)

---
 robpy/covariance/kendall.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robpy/covariance/kendall.py b/robpy/covariance/kendall.py
index b3b7bf0..b7626af 100644
--- a/robpy/covariance/kendall.py
+++ b/robpy/covariance/kendall.py
@@ -13,7 +13,10 @@ class KendallTau(RobustCovariance):
 
     def calculate_covariance(self, X) -> np.ndarray:
         p = X.shape[1]
-        scales = [Qn().fit(col).scale for col in X.T]
+        estimators = [Qn().fit(col) for col in X.T]
+        scales = [estimator.scale for estimator in estimators]
+        if not self.assume_centered:
+            self.location_ = np.array([estimator.location for estimator in estimators])
         cor = np.ones(shape=(p, p))
         cov = np.ones(shape=(p, p))
         for i in range(p):
-- 
2.43.0


From 6767f85995b0f8d441a2f5edf368c5c0f18bd999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:12 +0000
Subject: [PATCH 65/72] fix: RobustPowerTransformer keeps the lambda_range it
 is given (a copy made sklearn.base.clone raise)

---
 robpy/preprocessing/transfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index e52823c..042ff78 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -42,7 +42,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
         self.method = method
         self.standardize = standardize
-        self.lambda_range = list(lambda_range)
+        self.lambda_range = lambda_range
         self.quantile = quantile
         self.nsteps = nsteps
         self.logger = logging.getLogger("RobustPowerTransformer")
-- 
2.43.0


From a06cd13b4ed6c3acfdcfa7aaa37432eaa170f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:15 +0000
Subject: [PATCH 66/72] fix: PCA inverse_transform and get_feature_names_out
 use the p x k components (the inherited ones expect k x p and raise)

---
 robpy/pca/base.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/robpy/pca/base.py b/robpy/pca/base.py
index 0ff9e42..0bd0acd 100644
--- a/robpy/pca/base.py
+++ b/robpy/pca/base.py
@@ -60,6 +60,22 @@ class RobustPCA(_BasePCA):
         """
         return self.transform(X) @ self.components_.T
 
+    def inverse_transform(self, X: np.ndarray) -> np.ndarray:
+        """Transform scores back to the original space.
+
+        Args:
+            X (np.ndarray): Scores (n x k).
+
+        Returns:
+            np.ndarray: The points of the subspace that have these scores (n x p).
+        """
+        return X @ self.components_.T + self.location_
+
+    @property
+    def _n_features_out(self) -> int:
+        """Number of transformed features: components_ has one column per component."""
+        return self.components_.shape[1]
+
     def plot_outlier_map(
         self,
         X: np.ndarray | pd.DataFrame,
-- 
2.43.0


From 1ac298a9eb27dc9a70f0a7b5c0f2776c40984f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 67/72] fix: DDC.fit(verbose=True) works with fewer than ten
 columns (it divided by zero)

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 3601f89..1e8453b 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -340,7 +340,7 @@ class DDC(OutlierMixin):
         """
         correlation = np.ones((X.shape[1], X.shape[1]))
         for i in range(X.shape[1]):
-            if verbose and i % (X.shape[1] // 10) == 0:
+            if verbose and i % max(1, X.shape[1] // 10) == 0:
                 print(
                     f"Correlation: Processing column {i + 1} of {X.shape[1]} "
                     f"({((i + 1) / X.shape[1]):.1%})"
-- 
2.43.0


From cf07ef46d2255df0d9f2daf3b7d2450ce53ad52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:08 +0000
Subject: [PATCH 68/72] fix: default estimators and rho functions are made per
 object (a shared default object was reconfigured for every later
 MMRegression, SRegression, RobustScaler and DDC)

---
 robpy/outliers/ddc.py          | 5 +++--
 robpy/preprocessing/scaling.py | 5 +++--
 robpy/regression/mm.py         | 9 +++++----
 robpy/regression/s.py          | 5 +++--
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 1e8453b..517eef7 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -34,7 +34,7 @@ class DDC(OutlierMixin):
         self,
         chi2_quantile: float = 0.99,
         min_correlation: float = 0.5,
-        scale_estimator: RobustScale = CellwiseOneStepM(),
+        scale_estimator: RobustScale | None = None,
     ):
         """
         Implementation of the Detecting Deviating Cells (DDC) algorithm. Based on the R
@@ -57,7 +57,8 @@ class DDC(OutlierMixin):
         self.chi2_quantile = chi2_quantile
         self.cutoff = np.sqrt(chi2.ppf(chi2_quantile, df=1))
         self.min_correlation = min_correlation
-        self.scale_estimator = scale_estimator
+        # made per object: a shared default would be reconfigured for every other object
+        self.scale_estimator = CellwiseOneStepM() if scale_estimator is None else scale_estimator
         self.is_fitted_ = False
 
     def fit(self, X: pd.DataFrame, y=None, verbose: bool = False):
diff --git a/robpy/preprocessing/scaling.py b/robpy/preprocessing/scaling.py
index 08f3481..dfda55a 100644
--- a/robpy/preprocessing/scaling.py
+++ b/robpy/preprocessing/scaling.py
@@ -15,7 +15,7 @@ from robpy.univariate.mcd import UnivariateMCD
 class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
     def __init__(
         self,
-        scale_estimator: RobustScale = UnivariateMCD(),
+        scale_estimator: RobustScale | None = None,
         with_centering: bool = True,
         with_scaling: bool = True,
     ):
@@ -29,7 +29,8 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             with_scaling (boolean, optional):
                 Whether to scale the data. Defaults to True.
         """
-        self.scale_estimator = scale_estimator
+        # made per object: a shared default would be reconfigured for every other object
+        self.scale_estimator = UnivariateMCD() if scale_estimator is None else scale_estimator
         self.with_centering = with_centering
         self.with_scaling = with_scaling
 
diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index d5767ab..546d50c 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -16,8 +16,8 @@ from robpy.utils.rho import BaseRho, TukeyBisquare
 class MMRegression(RobustRegression):
     def __init__(
         self,
-        initial_estimator: RobustRegression = SRegression(),
-        rho: BaseRho = TukeyBisquare(c=3.44),
+        initial_estimator: RobustRegression | None = None,
+        rho: BaseRho | None = None,
         max_iterations: int = 500,
         epsilon: float = 1e-7,
     ):
@@ -39,8 +39,9 @@ class MMRegression(RobustRegression):
             - Yohai, V. J. (1987). High breakdown-point and high efficiency robust estimates for
               regression. The Annals of statistics, 15(2), 642-656.
         """
-        self.initial_estimator = initial_estimator
-        self.rho = rho
+        # defaults are made per object: a shared one would be reconfigured for every other object
+        self.initial_estimator = SRegression() if initial_estimator is None else initial_estimator
+        self.rho = TukeyBisquare(c=3.44) if rho is None else rho
         self.max_iterations = max_iterations
         self.epsilon = epsilon
         self.model = None
diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index e4dde6b..d4374ba 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -17,7 +17,7 @@ def _is_exact_fit(scale: float, y: np.ndarray) -> bool:
 class SRegression(RobustRegression):
     def __init__(
         self,
-        rho: BaseRho = TukeyBisquare(c=1.547),
+        rho: BaseRho | None = None,
         n_initial_subsets: int = 500,
         n_initial_i_steps: int = 2,
         n_best_subsets: int = 5,
@@ -73,7 +73,8 @@ class SRegression(RobustRegression):
               A Fast Algorithm for S-Regression Estimates.
               Journal of Computational and Graphical Statistics, 15(2), 414–427.
         """
-        self.rho = rho
+        # made per object: a shared default would be reconfigured for every other object
+        self.rho = TukeyBisquare(c=1.547) if rho is None else rho
         self.n_initial_subsets = n_initial_subsets
         self.n_initial_i_steps = n_initial_i_steps
         self.n_best_subsets = n_best_subsets
-- 
2.43.0


From ad438052bff162ed4a1aca9bacfe65cb09ad5b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:08 +0000
Subject: [PATCH 69/72] fix: RobustPowerTransformer documents the default
 method it has

---
 robpy/preprocessing/transfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 042ff78..ebea960 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -29,7 +29,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             method (Literal str, optional): Method used for the power transformation.
                 Can be "boxcox" for Box-Cox, "yeojohnson" for Yeo-Johnson, or "auto"
                 for the solution with the lowest objective function. Box-Cox can only be used for
-                strictly positive features. Defaults to "auto".
+                strictly positive features. Defaults to "yeojohnson".
             standardize (boolean, optional): Whether to standardize the features before and after
                 the power transformation. Defaults to True.
             quantile (float, optional): Quantile used to calculate the weights. Defaults to 0.99.
-- 
2.43.0


From 945ab4f3a88d584f0cb97a23a33b632b396c460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:08 +0000
Subject: [PATCH 70/72] fix: InitialDDCW keeps the most deviating observed
 cells of a heavily flagged column (missing cells took their places)

---
 robpy/covariance/initial_ddcw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index ad5fd4e..8771c76 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -64,7 +64,7 @@ class InitialDDCW(RobustCovariance):
         W = np.copy(ddc.cellwise_outliers_)
         flagged_too_many = np.where(np.sum(W, axis=0) / X.shape[0] > 1 - self.alpha_)[0]
         for i in flagged_too_many:
-            ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
+            ordering = np.argsort(-np.abs(ddc.standardized_residuals_[:, i]))  # missing last
             W[:, i] = [False for _ in range(n)]
             W[ordering[0 : int(n * 0.25)], i] = True
         Zimp = np.copy(X)
-- 
2.43.0


From d3a96a629010a6be311bd7c9a7a2704e9945c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:08 +0000
Subject: [PATCH 71/72] fix: InitialDDCW measures the distances of the
 standardised cases with the covariance of the standardised data (it had the
 units of the data)

---
 robpy/covariance/initial_ddcw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index 8771c76..ba281d7 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -101,7 +101,7 @@ class InitialDDCW(RobustCovariance):
         )
         cov = eigenvectors @ Zimp_proj_wrapped_cov @ eigenvectors.T  # back to original axis system
         cov = covariance_to_correlation(cov)
-        cov = (truncated_covariance(cov, self.min_eigenvalue) * ddc.scale_).T * ddc.scale_
+        cov = truncated_covariance(cov, self.min_eigenvalue)  # in the units of Z
 
         # temporary points: delete casewise outliers
         U = np.minimum(np.maximum(Z, -2), 2)
-- 
2.43.0


From f17163674858d6eefbab876a5a99fb57ffe0e924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:08 +0000
Subject: [PATCH 72/72] fix: InitialDDCW sets outlying cases aside when cells
 are missing too (one missing cell made every distance incomparable)

---
 robpy/covariance/initial_ddcw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index ba281d7..07dd3cc 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -104,7 +104,7 @@ class InitialDDCW(RobustCovariance):
         cov = truncated_covariance(cov, self.min_eigenvalue)  # in the units of Z
 
         # temporary points: delete casewise outliers
-        U = np.minimum(np.maximum(Z, -2), 2)
+        U = np.minimum(np.maximum(np.where(np.isnan(Z), Zimp_original, Z), -2), 2)
         RD = mahalanobis_distance(U, np.zeros(p), cov) ** 2
         U_outlying_cases = np.where(RD / np.median(RD) * chi2.ppf(0.5, p) > chi2.ppf(0.99, p))[0]
         Z = np.delete(Z, U_outlying_cases, axis=0)
-- 
2.43.0

