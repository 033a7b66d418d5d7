From 4b385695f6fd6e29f2915186b0ee5581c5401504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:00 +0000
Subject: [PATCH 01/17] fix: discard cached CVX expressions left by a failed or
 interrupted fit

The cache of CVX expressions was only emptied after a successful solve.
When a fit failed or was interrupted, the next fit of the same estimator
reused expressions bound to the old variables. Depending on the risk
measure it then failed or silently returned different weights.
Empty the cache at the start of each fit.
---
 src/skfolio/optimization/convex/_distributionally_robust.py | 1 +
 src/skfolio/optimization/convex/_mean_risk.py               | 1 +
 src/skfolio/optimization/convex/_risk_budgeting.py          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/skfolio/optimization/convex/_distributionally_robust.py b/src/skfolio/optimization/convex/_distributionally_robust.py
index d173810..e7ea739 100644
--- a/src/skfolio/optimization/convex/_distributionally_robust.py
+++ b/src/skfolio/optimization/convex/_distributionally_robust.py
@@ -337,6 +337,7 @@ class DistributionallyRobustCVaR(ConvexOptimization):
 
         # Used to avoid adding multiple times similar constrains linked to identical
         # risk models
+        self._clear_models_cache()
         self.prior_estimator_ = check_estimator(
             self.prior_estimator,
             default=EmpiricalPrior(),
diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 731b8fc..18ae446 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -772,6 +772,7 @@ class MeanRisk(ConvexOptimization):
         self._validation()
         # Used to avoid adding multiple times similar constrains linked to identical
         # risk models
+        self._clear_models_cache()
         self.prior_estimator_ = check_estimator(
             self.prior_estimator,
             default=EmpiricalPrior(),
diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 6e3c779..01cee70 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -461,6 +461,7 @@ class RiskBudgeting(ConvexOptimization):
 
         # Used to avoid adding multiple times similar constrains linked to identical
         # risk models
+        self._clear_models_cache()
         self.prior_estimator_ = check_estimator(
             self.prior_estimator,
             default=EmpiricalPrior(),
-- 
2.43.0


From d9cd23594416568c4faf91687c0240f884ad0ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:00 +0000
Subject: [PATCH 02/17] fix: do not modify the cv splitter passed to stacking
 and nested clusters

Fitting set `random_state` on the splitter object given by the user.
Set it on a copy instead.
---
 src/skfolio/optimization/cluster/_nco.py       | 1 +
 src/skfolio/optimization/ensemble/_stacking.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index 7ba3eb3..319766a 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -328,6 +328,7 @@ class NestedClustersOptimization(BaseOptimization):
         else:
             cv = sks.check_cv(self.cv)
             if hasattr(cv, "random_state") and cv.random_state is None:
+                cv = deepcopy(cv)
                 cv.random_state = np.random.RandomState()
             # noinspection PyCallingNonCallable
             cv_predictions = skp.Parallel(n_jobs=self.n_jobs)(
diff --git a/src/skfolio/optimization/ensemble/_stacking.py b/src/skfolio/optimization/ensemble/_stacking.py
index 5c957a9..2b5235b 100644
--- a/src/skfolio/optimization/ensemble/_stacking.py
+++ b/src/skfolio/optimization/ensemble/_stacking.py
@@ -311,6 +311,7 @@ class StackingOptimization(BaseOptimization, BaseComposition):
         else:
             cv = sks.check_cv(self.cv)
             if hasattr(cv, "random_state") and cv.random_state is None:
+                cv = deepcopy(cv)
                 cv.random_state = np.random.RandomState()
             # noinspection PyCallingNonCallable
             cv_predictions = skp.Parallel(n_jobs=self.n_jobs)(
-- 
2.43.0


From 8f42d3932ef693dfdf3d7e8f56f81e73e4080f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:00 +0000
Subject: [PATCH 03/17] fix: keep stationary_bootstrap from reseeding the
 global NumPy generator

The bootstrap seeded and consumed the process-wide generator, which changed
the random numbers of unrelated code and made a seeded bootstrap depend on
other threads. Use a local generator with the same stream.
---
 src/skfolio/utils/bootstrap.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/skfolio/utils/bootstrap.py b/src/skfolio/utils/bootstrap.py
index d8a6d75..1821867 100644
--- a/src/skfolio/utils/bootstrap.py
+++ b/src/skfolio/utils/bootstrap.py
@@ -96,7 +96,7 @@ def stationary_bootstrap(
            The sample returns of shape (reps, nb observations, nb assets)
 
     """
-    np.random.seed(seed=seed)
+    rng = np.random.RandomState(seed)
     n_observations, n_assets = returns.shape
     x = np.vstack((returns, returns))
     # Loop over reps bootstraps
@@ -105,10 +105,8 @@ def stationary_bootstrap(
             [optimal_block_size(returns[:, i]) for i in range(n_assets)]
         )
 
-    indices = np.random.randint(
-        n_observations, size=(n_bootstrap_samples, n_observations)
-    )
-    cond = np.random.rand(n_bootstrap_samples, n_observations) >= 1.0 / block_size
+    indices = rng.randint(n_observations, size=(n_bootstrap_samples, n_observations))
+    cond = rng.rand(n_bootstrap_samples, n_observations) >= 1.0 / block_size
     # TODO: don't use loop
     for i in range(n_bootstrap_samples):
         for j in range(1, n_observations):
-- 
2.43.0


From 7f52af91e38625414359c4747c8a50ccc48e7830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:00 +0000
Subject: [PATCH 04/17] fix: make the mutual information dependence of vine
 copulas reproducible

The estimate drew its tie-breaking noise from the global NumPy generator, so
the fitted vine structure depended on unrelated random draws.
---
 src/skfolio/distribution/multivariate/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/multivariate/_utils.py b/src/skfolio/distribution/multivariate/_utils.py
index 40c8028..b764141 100644
--- a/src/skfolio/distribution/multivariate/_utils.py
+++ b/src/skfolio/distribution/multivariate/_utils.py
@@ -624,7 +624,9 @@ def _dependence(X, dependence_method: DependenceMethod) -> float:
         case DependenceMethod.KENDALL_TAU:
             dep = st.kendalltau(X[:, 0], X[:, 1]).statistic
         case DependenceMethod.MUTUAL_INFORMATION:
-            dep = sf.mutual_info_regression(X[:, 0].reshape(-1, 1), X[:, 1])[0]
+            dep = sf.mutual_info_regression(
+                X[:, 0].reshape(-1, 1), X[:, 1], random_state=0
+            )[0]
         case DependenceMethod.WASSERSTEIN_DISTANCE:
             dep = st.wasserstein_distance(X[:, 0], X[:, 1])
         case _:
-- 
2.43.0


From 68ebff1ac98698f4a6a8e0d46cdb5c23fe5a8433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:21 +0000
Subject: [PATCH 05/17] fix: draw the noise of SyntheticData from the
 distribution's random state

With conditional sampling the added white noise came from the global NumPy
generator, so a seeded distribution estimator still gave results that
differed from call to call.
---
 src/skfolio/prior/_synthetic_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_synthetic_data.py b/src/skfolio/prior/_synthetic_data.py
index 37d3b5d..95ad49b 100644
--- a/src/skfolio/prior/_synthetic_data.py
+++ b/src/skfolio/prior/_synthetic_data.py
@@ -9,6 +9,7 @@ import inspect
 import numpy as np
 import numpy.typing as npt
 import sklearn.base as skb
+import sklearn.utils as sku
 import sklearn.utils.metadata_routing as skm
 import sklearn.utils.validation as skv
 
@@ -194,7 +195,10 @@ class SyntheticData(BasePrior):
         # constant. To avoid null variance, we add a small white noise.
         constant_returns = np.var(synthetic_data, axis=0) < 1e-14
         if np.any(constant_returns):
-            noise = 1e-6 * np.random.randn(len(synthetic_data), 1)
+            rng = sku.check_random_state(
+                getattr(self.distribution_estimator_, "random_state", None)
+            )
+            noise = 1e-6 * rng.randn(len(synthetic_data), 1)
             synthetic_data[:, constant_returns] += noise
 
         # Fit empirical posterior estimator
-- 
2.43.0


From 9c07bcea22de93b7c5d090dc418c1a985cc18743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:21 +0000
Subject: [PATCH 06/17] fix: do not overwrite zeros in the view_confidences and
 risk_budget arrays

Both were replaced by a small number in the array given by the user.
---
 src/skfolio/optimization/convex/_risk_budgeting.py | 2 +-
 src/skfolio/prior/_black_litterman.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 01cee70..32ba6a1 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -492,7 +492,7 @@ class RiskBudgeting(ConvexOptimization):
                 fill_value=1e-10,
                 name="risk_budget",
             )
-            risk_budget[risk_budget == 0] = 1e-10
+            risk_budget = np.where(risk_budget == 0, 1e-10, risk_budget)
 
         # Variables
         w = cp.Variable(n_assets)
diff --git a/src/skfolio/prior/_black_litterman.py b/src/skfolio/prior/_black_litterman.py
index f7068df..150b090 100644
--- a/src/skfolio/prior/_black_litterman.py
+++ b/src/skfolio/prior/_black_litterman.py
@@ -238,7 +238,7 @@ class BlackLitterman(BasePrior):
                 raise ValueError(
                     "all values of view_confidences must be between 0 and 1"
                 )
-            view_confidences[view_confidences == 0] = 1e-16
+            view_confidences = np.where(view_confidences == 0, 1e-16, view_confidences)
             alphas = 1 / view_confidences - 1
             omega = np.diag(
                 np.diag(
-- 
2.43.0


From 05c3209c9bf993d3103293ff9fccb486c200e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:21 +0000
Subject: [PATCH 07/17] fix: do not rescale the implied_vol array of the caller

Fitting ImpliedCovariance divided the given array in place, so fitting twice
with the same data gave two different results.
---
 src/skfolio/moments/covariance/_implied_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_implied_covariance.py b/src/skfolio/moments/covariance/_implied_covariance.py
index 787999d..7581259 100644
--- a/src/skfolio/moments/covariance/_implied_covariance.py
+++ b/src/skfolio/moments/covariance/_implied_covariance.py
@@ -275,7 +275,7 @@ class ImpliedCovariance(BaseCovariance):
         X = skv.validate_data(self, X)
         _, n_assets = X.shape
         implied_vol = check_implied_vol(implied_vol=implied_vol, X=X)
-        implied_vol /= np.sqrt(self.annualized_factor)
+        implied_vol = implied_vol / np.sqrt(self.annualized_factor)
 
         if self.volatility_risk_premium_adj is not None:
             if np.isscalar(self.volatility_risk_premium_adj):
-- 
2.43.0


From a85f99b713b270c6f629b80385b18797c131208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:21 +0000
Subject: [PATCH 08/17] fix: make a fitted MaximumDiversification picklable

It kept a function defined inside `fit`, which pickle cannot serialise.
---
 .../optimization/convex/_maximum_diversification.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/skfolio/optimization/convex/_maximum_diversification.py b/src/skfolio/optimization/convex/_maximum_diversification.py
index ab98cdd..b7a6070 100644
--- a/src/skfolio/optimization/convex/_maximum_diversification.py
+++ b/src/skfolio/optimization/convex/_maximum_diversification.py
@@ -424,11 +424,12 @@ class MaximumDiversification(MeanRisk):
         # `X` is unchanged and only `feature_names_in_` is performed
         _ = skv.validate_data(self, X, skip_check_array=True)
 
-        def func(w, obj):
-            """Weighted volatilities."""
-            covariance = obj.prior_estimator_.prior_model_.covariance
-            return np.sqrt(np.diag(covariance)) @ w
-
-        self.overwrite_expected_return = func
+        self.overwrite_expected_return = _weighted_volatilities
         super().fit(X, y, **fit_params)
         return self
+
+
+def _weighted_volatilities(w, obj):
+    """Weighted volatilities."""
+    covariance = obj.prior_estimator_.prior_model_.covariance
+    return np.sqrt(np.diag(covariance)) @ w
-- 
2.43.0


From a657f7eabb37b5471b1a0fad437008878f19f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:21 +0000
Subject: [PATCH 09/17] fix: make StudentTCopula.cdf follow random_state

The quasi-Monte Carlo integration drew from the global NumPy generator even
when a random state was given.
---
 src/skfolio/distribution/copula/_student_t.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skfolio/distribution/copula/_student_t.py b/src/skfolio/distribution/copula/_student_t.py
index 1440c92..51e8ed3 100644
--- a/src/skfolio/distribution/copula/_student_t.py
+++ b/src/skfolio/distribution/copula/_student_t.py
@@ -264,6 +264,7 @@ class StudentTCopula(BaseBivariateCopula):
             loc=np.array([0, 0]),
             shape=np.array([[1, self.rho_], [self.rho_, 1]]),
             df=self.dof_,
+            random_state=self.random_state,
         )
         return cdf
 
-- 
2.43.0


From 8115d74d6497428ee94dfe6e0ef64ba81a386f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:21 +0000
Subject: [PATCH 10/17] fix: handle a failed solve when raise_on_failure is
 False

A single optimization whose solve failed raised IndexError instead of only
warning. Set `weights_` and `problem_values_` to None in that case.
---
 src/skfolio/optimization/convex/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 46419a3..00fd0e7 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1170,7 +1170,10 @@ class ConvexOptimization(BaseOptimization, ABC):
                 stacklevel=2,
             )
 
-        if n_optimizations == 1:
+        if n_optimizations == 1 and len(all_weights) == 0:
+            self.weights_ = None
+            self.problem_values_ = None
+        elif n_optimizations == 1:
             self.weights_ = all_weights[0]
             self.problem_values_ = all_problem_values[0]
         else:
-- 
2.43.0


From ab33c3f9c1009701c59e6097c04b2ff5c73d353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:30 +0000
Subject: [PATCH 11/17] fix: make downloaded datasets safe against interruption
 and concurrency

The dataset was written straight to its final name. A process killed or a disk
error during the write left a truncated file that every later call tried to
load. Two processes downloading the same dataset removed each other's archive.
Download and convert in a private temporary folder, then rename.
---
 src/skfolio/datasets/_base.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/skfolio/datasets/_base.py b/src/skfolio/datasets/_base.py
index e39b591..17d95bd 100644
--- a/src/skfolio/datasets/_base.py
+++ b/src/skfolio/datasets/_base.py
@@ -12,6 +12,7 @@ import gzip
 import os
 import shutil
 import sys
+import tempfile
 import urllib.request as ur
 from importlib import resources
 from pathlib import Path
@@ -157,11 +158,15 @@ def download_dataset(
     if not download_if_missing:
         raise OSError("Data not found and `download_if_missing` is False")
 
-    archive_path = os.path.join(data_home, os.path.basename(url))
-    ur.urlretrieve(url, archive_path)
-    df = load_gzip_compressed_csv_data(archive_path)
-    joblib.dump(df, filepath, compress=6)
-    os.remove(archive_path)
+    # Work in a private folder and publish the complete file in one step, so that
+    # an interrupted or a concurrent download never leaves a truncated dataset.
+    with tempfile.TemporaryDirectory(dir=data_home) as temp_dir:
+        archive_path = os.path.join(temp_dir, os.path.basename(url))
+        ur.urlretrieve(url, archive_path)
+        df = load_gzip_compressed_csv_data(archive_path)
+        temp_filepath = os.path.join(temp_dir, os.path.basename(filepath))
+        joblib.dump(df, temp_filepath, compress=6)
+        os.replace(temp_filepath, filepath)
     return df
 
 
-- 
2.43.0


From 1550a0c7e15a4e3fca7c280865200f4d9cf1c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:51 +0000
Subject: [PATCH 12/17] fix: select asset columns from X only, not from the
 targets

`cross_val_predict` with `column_indices` and `NestedClustersOptimization`
applied the indices of the assets to the columns of `y` as well. With factor
returns as `y` this raised IndexError or silently used the wrong factors.
---
 src/skfolio/model_selection/_validation.py | 2 +-
 src/skfolio/utils/tools.py                 | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/skfolio/model_selection/_validation.py b/src/skfolio/model_selection/_validation.py
index 9c99ad2..8968ada 100644
--- a/src/skfolio/model_selection/_validation.py
+++ b/src/skfolio/model_selection/_validation.py
@@ -130,7 +130,7 @@ def cross_val_predict(
     """
     params = {} if params is None else params
 
-    X, y = safe_split(X, y, indices=column_indices, axis=1)
+    X, _ = safe_split(X, indices=column_indices, axis=1)
     X, y = sku.indexable(X, y)
 
     if _routing_enabled():
diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 2b3aadb..6cebe46 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -595,7 +595,7 @@ def fit_single_estimator(
         Parameters that will be passed to `estimator.fit`.
 
     indices : ndarray of int, optional
-        Rows or columns to select from X and y.
+        Rows to select from X and y or columns to select from X.
         The default (`None`) is to select the entire data.
 
     axis : int, default=0
@@ -610,7 +610,10 @@ def fit_single_estimator(
     fit_params = fit_params if fit_params is not None else {}
     fit_params = _check_method_params(X, params=fit_params, indices=indices, axis=axis)
 
-    X, y = safe_split(X, y, indices=indices, axis=axis)
+    if axis == 1:
+        X, _ = safe_split(X, indices=indices, axis=axis)
+    else:
+        X, y = safe_split(X, y, indices=indices, axis=axis)
     estimator.fit(X, y, **fit_params)
     return estimator
 
@@ -665,7 +668,7 @@ def fit_and_predict(
     fit_params = fit_params if fit_params is not None else {}
     fit_params = _check_method_params(X, params=fit_params, indices=train)
 
-    X, y = safe_split(X, y, indices=column_indices, axis=1)
+    X, _ = safe_split(X, indices=column_indices, axis=1)
     X_train, y_train = safe_split(X, y, indices=train, axis=0)
     if y_train is None:
         estimator.fit(X_train, **fit_params)
-- 
2.43.0


From b6f975c074f8e29e55b920b573421de5acf846e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:05 +0000
Subject: [PATCH 13/17] fix: accept several targets in
 NestedClustersOptimization

Fitting with factor returns as `y` raised ValueError because the targets were
validated as a single column.
---
 src/skfolio/optimization/cluster/_nco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index 319766a..dd0a33f 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -357,7 +357,7 @@ class NestedClustersOptimization(BaseOptimization):
         # We validate and convert to numpy array only after inner-estimator fitting to
         # keep the assets names in case they are used in the estimator.
         if y is not None:
-            X, y = skv.validate_data(self, X, y)
+            X, y = skv.validate_data(self, X, y, multi_output=True)
             y_pred = y[test_indices]
         else:
             X = skv.validate_data(self, X)
-- 
2.43.0


From 3f0abafa9ba231606d199162c2dba5947ca62b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:52 +0000
Subject: [PATCH 14/17] fix: stop counting node visits after an interrupted
 vine copula sampling

An interrupt while the counting pass was being switched off left it enabled
in some trees, and every later query of the vine copula then used NaN values.
---
 src/skfolio/distribution/multivariate/_vine_copula.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index 5f97db1..020cb8d 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -646,6 +646,8 @@ class VineCopula(BaseMultivariateDist):
     def clear_cache(self, clear_count: bool = True):
         """Clear cached intermediate results in the vine trees."""
         for tree in self.trees_:
+            # Counting may still be enabled if a previous sampling was interrupted.
+            tree.is_count_visits = False
             tree.clear_cache(clear_count=clear_count)
         for edge in self.trees_[-1].edges:
             edge.ref_node.clear_cache(clear_count=clear_count)
-- 
2.43.0


From 4b1f5f96fbd41f230b983c7e42c83c130ae2bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:29 +0000
Subject: [PATCH 15/17] fix: keep MultiPeriodPortfolio consistent when append
 fails or lists are shared

A failing append left the new portfolio in the component list without its
returns. Copies and the list passed to the constructor shared the component
list, so appending to one changed the others.
---
 .../portfolio/_multi_period_portfolio.py      | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index 0ebad1d..185315a 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -500,8 +500,9 @@ class MultiPeriodPortfolio(BasePortfolio):
         """
         returns = []
         observations = []
-        if portfolios is None:
-            portfolios = []
+        # The list is copied so that later changes to the list passed in do not alter
+        # the MultiPeriodPortfolio.
+        portfolios = [] if portfolios is None else list(portfolios)
         if len(portfolios) != 0:
             for item in portfolios:
                 if not isinstance(item, BasePortfolio | Portfolio):
@@ -643,16 +644,21 @@ class MultiPeriodPortfolio(BasePortfolio):
                     f"Portfolios observations should not overlap: {prev_last_date} ->"
                     f" {start_date} "
                 )
-        self._loaded = False
-        self._portfolios.append(portfolio)
+        # Everything that can fail is done before the first assignment, and the list is
+        # replaced because it can be shared with copies.
+        portfolios = [*self._portfolios, portfolio]
         if len(self.observations) == 0:
             # We don"t concatenate an empty array as we cannot know the dtype before.
-            self.observations = portfolio.observations
-            self.returns = portfolio.returns
+            observations = portfolio.observations
+            returns = portfolio.returns
         else:
-            self.observations = np.concatenate(
+            observations = np.concatenate(
                 [self.observations, portfolio.observations], axis=0
             )
-            self.returns = np.concatenate([self.returns, portfolio.returns], axis=0)
+            returns = np.concatenate([self.returns, portfolio.returns], axis=0)
+        self._loaded = False
+        self._portfolios = portfolios
+        self.observations = observations
+        self.returns = returns
         self._loaded = True
         self.clear()
-- 
2.43.0


From 6b60a7a50f49d59fcc81c6e4ad1d636bb93622ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:33 +0000
Subject: [PATCH 16/17] fix: leave portfolios unchanged when
 Population.set_portfolio_params is rejected

A rejected value left the parameters set before it, and the portfolios
before it, changed. Also return the population as documented.
---
 src/skfolio/population/_population.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 683116e..325b8a0 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -106,9 +106,13 @@ class Population(list):
                     f"Valid parameters are: {valid_params!r}."
                 )
 
-        for portfolio in self:
-            for key, value in params.items():
-                setattr(portfolio, key, value)
+        # Values are first tried on copies so that a rejected value leaves all the
+        # portfolios unchanged.
+        for portfolios in ([portfolio.copy() for portfolio in self], self):
+            for portfolio in portfolios:
+                for key, value in params.items():
+                    setattr(portfolio, key, value)
+        return self
 
     @staticmethod
     def _validate_item(
-- 
2.43.0


From 90a96264e87342b5b346d88c80672d6e1c6314b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:35 +0000
Subject: [PATCH 17/17] fix: allow scorers made from a measure to be pickled

A search or cross-validation object holding such a scorer could not be
saved with pickle or joblib because the score function was a closure.
---
 src/skfolio/metrics/_scorer.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/skfolio/metrics/_scorer.py b/src/skfolio/metrics/_scorer.py
index 202a4d5..91aae0a 100644
--- a/src/skfolio/metrics/_scorer.py
+++ b/src/skfolio/metrics/_scorer.py
@@ -17,6 +17,21 @@ from skfolio.optimization import BaseOptimization
 from skfolio.portfolio import Portfolio
 
 
+class _MeasureScore:
+    """Score function returning a measure of the predicted portfolio.
+
+    Defined at module level so that the scorers can be pickled.
+    """
+
+    __name__ = "score_func"
+
+    def __init__(self, measure: skt.Measure):
+        self._measure = measure
+
+    def __call__(self, pred: Portfolio) -> float:
+        return getattr(pred, self._measure.value)
+
+
 class _PortfolioScorer:
     """Portfolio Scorer wrapper."""
 
@@ -117,10 +132,7 @@ def make_scorer(
                 greater_is_better = True
             else:
                 greater_is_better = False
-
-        def score_func(pred: Portfolio) -> float:
-            """Score function."""
-            return getattr(pred, measure.value)
+        score_func = _MeasureScore(measure)
 
     sign = 1 if greater_is_better else -1
     return _PortfolioScorer(score_func, sign, kwargs)
-- 
2.43.0

