From 5adbe76ddbd5da80946ec69bba6ea558a7632239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:56 +0000
Subject: [PATCH 01/63] fix: purge the end of the training set in WalkForward
 with a train offset

With a date offset as train_size, purged_size was subtracted from the end of
the test set and the training set was not purged.
---
 src/skfolio/model_selection/_walk_forward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index a8993f1..9d35748 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -428,13 +428,13 @@ def _split_from_period_with_train_offset(
                 return
             test_indices = np.arange(idx[i], n_samples)
         else:
-            test_indices = np.arange(idx[i], idx[i + test_size] - purged_size)
+            test_indices = np.arange(idx[i], idx[i + test_size])
 
         if expend_train:
             train_start = 0
         else:
             train_start = train_idx[i]
-        train_indices = np.arange(train_start, idx[i])
+        train_indices = np.arange(train_start, idx[i] - purged_size)
         yield train_indices, test_indices
 
         i += test_size
-- 
2.43.0


From e3186986c1b4f3a1a597f7ba9a79c1cce20f3b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:56 +0000
Subject: [PATCH 02/63] fix: count the calendar splits in
 WalkForward.get_n_splits

When freq is provided the sizes are numbers of periods (or an offset), so the
count cannot be derived from the number of observations.
---
 src/skfolio/model_selection/_walk_forward.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index 9d35748..c3a57fb 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -293,6 +293,8 @@ class WalkForward(sks.BaseCrossValidator):
         """
         if X is None:
             raise ValueError("The 'X' parameter should not be None.")
+        if self.freq is not None:
+            return sum(1 for _ in self.split(X, y, groups))
         X, y = sku.indexable(X, y)
         n_samples = X.shape[0]
         n = n_samples - self.train_size - self.purged_size
-- 
2.43.0


From e7387c669408e53e3e99fa3db04c016b7f1eb4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:56 +0000
Subject: [PATCH 03/63] fix: ignore WalkForward periods that start outside the
 index

With freq_offset a period start can fall before the first or after the last
observation. It was mapped to -1, which yielded empty sets or selected the
last observation as a training sample.
---
 src/skfolio/model_selection/_walk_forward.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index c3a57fb..14465e6 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -366,6 +366,8 @@ def _split_from_period_without_train_offset(
         date_range += freq_offset
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
+    # Periods starting outside the index have no matching observation
+    idx = idx[idx != -1]
     n = len(idx)
     i = 0
     while True:
@@ -414,6 +416,9 @@ def _split_from_period_with_train_offset(
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
     train_idx = ts_index.get_indexer(date_range - train_size, method="ffill")
+    # Periods starting outside the index have no matching observation
+    train_idx = train_idx[idx != -1]
+    idx = idx[idx != -1]
 
     n = len(idx)
 
-- 
2.43.0


From fa4ac9c445500143db44f4f41aeb99463f17db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:56 +0000
Subject: [PATCH 04/63] fix: keep every trailing observation in the last
 CombinatorialPurgedCV fold

When the remainder of the division by n_folds exceeded the fold size, the last
observations belonged to no fold and were never tested.
---
 src/skfolio/model_selection/_combinatorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/model_selection/_combinatorial.py b/src/skfolio/model_selection/_combinatorial.py
index 4c78c13..bb7b79d 100644
--- a/src/skfolio/model_selection/_combinatorial.py
+++ b/src/skfolio/model_selection/_combinatorial.py
@@ -279,7 +279,7 @@ class CombinatorialPurgedCV(BaseCombinatorialCV):
             )
 
         fold_index_num = np.arange(n_samples) // (n_samples // self.n_folds)
-        fold_index_num[fold_index_num == self.n_folds] = self.n_folds - 1
+        fold_index_num[fold_index_num >= self.n_folds] = self.n_folds - 1
 
         index_train_test = np.zeros((n_samples, self.n_splits))
         for i in range(self.n_splits):
-- 
2.43.0


From b83a70a51bf706f24b01186520708f30b7187dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:39 +0000
Subject: [PATCH 05/63] fix: evaluate the EVaR in a scale-free and
 overflow-safe way

The search started from the worst loss divided by 50, which is zero or
negative when no observation is a loss and can overflow otherwise. It returned
NaN or values below the CVaR. The worst loss and the range of the losses are
now factored out before minimizing.
---
 src/skfolio/measures/_measures.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/skfolio/measures/_measures.py b/src/skfolio/measures/_measures.py
index 43d25e9..84f0bdc 100644
--- a/src/skfolio/measures/_measures.py
+++ b/src/skfolio/measures/_measures.py
@@ -387,19 +387,24 @@ def evar(returns: np.ndarray, beta: float = 0.95) -> float:
         EVaR.
     """
 
+    # The worst loss and the range are factored out to avoid exp overflow
+    worst = np.max(-returns)
+    scale = worst - np.min(-returns)
+    if scale == 0:
+        return worst
+    losses = (-returns - worst) / scale
+
     def func(x: float) -> float:
-        return entropic_risk_measure(returns=returns, theta=x, beta=beta)
-
-    # The lower bound is chosen to avoid exp overflow
-    lower_bound = np.max(-returns) / 100
-    result = sco.minimize(
-        func,
-        x0=np.array([lower_bound * 2]),
-        method="SLSQP",
-        bounds=[(lower_bound, np.inf)],
-        tol=1e-10,
+        # x is the logarithm of the risk aversion of the rescaled losses
+        theta = np.exp(x)
+        return theta * (np.log1p(np.mean(np.expm1(losses / theta))) - np.log1p(-beta))
+
+    result = sco.minimize_scalar(
+        func, bounds=(-20.0, 15.0), method="bounded", options={"xatol": 1e-10}
     )
-    return result.fun
+    # The infimum is reached for a vanishing risk aversion when the probability of the
+    # worst loss is larger than `1 - beta`
+    return worst + scale * min(result.fun, 0.0)
 
 
 def get_cumulative_returns(returns: np.ndarray, compounded: bool = False) -> np.ndarray:
-- 
2.43.0


From c247a3c34fdee1d09668b93b04635ae5772c1c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:39 +0000
Subject: [PATCH 06/63] fix: scale the tracking error limit in ratio
 maximization

The ratio is maximized on homogenized weights, so the limit has to be
multiplied by the homogenization factor like the other limits.
---
 src/skfolio/optimization/convex/_mean_risk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 731b8fc..a4cbc4b 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -902,7 +902,7 @@ class MeanRisk(ConvexOptimization):
             )
             constraints += [
                 tracking_error * self._scale_constraints
-                <= self.max_tracking_error * self._scale_constraints
+                <= self.max_tracking_error * factor * self._scale_constraints
             ]
 
         # Turnover
-- 
2.43.0


From 2e41e6ad6d86da75871a79922c762b87822e45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:39 +0000
Subject: [PATCH 07/63] fix: start each convex fit with an empty expression
 cache

A fit that failed left its expressions in the cache. The next fit of the same
estimator then skipped the drawdown constraints.
---
 src/skfolio/optimization/convex/_distributionally_robust.py | 1 +
 src/skfolio/optimization/convex/_mean_risk.py               | 1 +
 src/skfolio/optimization/convex/_risk_budgeting.py          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/skfolio/optimization/convex/_distributionally_robust.py b/src/skfolio/optimization/convex/_distributionally_robust.py
index d173810..c5df88b 100644
--- a/src/skfolio/optimization/convex/_distributionally_robust.py
+++ b/src/skfolio/optimization/convex/_distributionally_robust.py
@@ -332,6 +332,7 @@ class DistributionallyRobustCVaR(ConvexOptimization):
         """
         routed_params = skm.process_routing(self, "fit", **fit_params)
 
+        self._clear_models_cache()
         # `X` is unchanged and only `feature_names_in_` is performed
         _ = skv.validate_data(self, X, skip_check_array=True)
 
diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index a4cbc4b..4bcd9ba 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -765,6 +765,7 @@ class MeanRisk(ConvexOptimization):
         """
         routed_params = skm.process_routing(self, "fit", **fit_params)
 
+        self._clear_models_cache()
         # `X` is unchanged and only `feature_names_in_` is performed
         _ = skv.validate_data(self, X, skip_check_array=True)
 
diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 6e3c779..bd32ee5 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -453,6 +453,7 @@ class RiskBudgeting(ConvexOptimization):
         """
         routed_params = skm.process_routing(self, "fit", **fit_params)
 
+        self._clear_models_cache()
         # `X` is unchanged and only `feature_names_in_` is performed
         _ = skv.validate_data(self, X, skip_check_array=True)
 
-- 
2.43.0


From 9c319eb5768cec4c5a086bdd7dfd124275900d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:42 +0000
Subject: [PATCH 08/63] fix: scale the variance and semi-variance limits in
 ratio maximization

---
 src/skfolio/optimization/convex/_mean_risk.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 4bcd9ba..5dee5da 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -1003,9 +1003,24 @@ class MeanRisk(ConvexOptimization):
                 risk_i, constraints_i = risk_func(**args)
                 constraints += constraints_i
                 if risk_limit is not None:
+                    limited_risk = risk_i
+                    if (
+                        self.objective_function == ObjectiveFunction.MAXIMIZE_RATIO
+                        and r_m in [RiskMeasure.VARIANCE, RiskMeasure.SEMI_VARIANCE]
+                        and "covariance_uncertainty_set" not in args
+                    ):
+                        # The (semi) variance is homogeneous of degree 2, so the
+                        # limit is set on its square root, which is of degree 1.
+                        limited_risk, constraints_i = (
+                            self._standard_deviation_risk(**args)
+                            if r_m == RiskMeasure.VARIANCE
+                            else self._semi_deviation_risk(**args)
+                        )
+                        constraints += constraints_i
+                        risk_limit = np.sqrt(risk_limit)
                     parameter = cp.Parameter(nonneg=True)
                     constraints += [
-                        risk_i * self._scale_constraints
+                        limited_risk * self._scale_constraints
                         <= parameter * factor * self._scale_constraints
                     ]
                     parameters_values.append((parameter, risk_limit))
-- 
2.43.0


From 32da75d32d3a57e5342df678590650d22492a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:42 +0000
Subject: [PATCH 09/63] fix: report the worst-case variance of ratio
 maximization once scaled

---
 src/skfolio/optimization/convex/_base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 46419a3..d652494 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1139,6 +1139,11 @@ class ConvexOptimization(BaseOptimization, ABC):
                     self.risk_measure
                     in [RiskMeasure.VARIANCE, RiskMeasure.SEMI_VARIANCE]
                     and "risk" in problem_values
+                    # The worst-case variance is homogeneous of degree 1
+                    and not (
+                        self.risk_measure == RiskMeasure.VARIANCE
+                        and self.covariance_uncertainty_set_estimator is not None
+                    )
                 ):
                     problem_values["risk"] /= factor.value
 
-- 
2.43.0


From 75ddd9c6bd1342ffc45485a3a11a335cb9df710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:42 +0000
Subject: [PATCH 10/63] fix: support transaction costs with the Gini mean
 difference

---
 src/skfolio/optimization/convex/_base.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index d652494..be228dd 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -2115,11 +2115,9 @@ class ConvexOptimization(BaseOptimization, ABC):
         expression : tuple[cvxpy Expression , list[cvxpy Expression]]
             CVXPY Expression and Constraints the Ulcer Index risk measure.
         """
+        # The transaction costs and management fees are the same for all observations
+        # and the GMD is unchanged by a shift of the returns.
         ptf_returns = self._cvx_returns(prior_model=prior_model, w=w)
-        ptf_transaction_cost = self._cvx_transaction_cost(
-            prior_model=prior_model, w=w, factor=factor
-        )
-        ptf_management_fee = self._cvx_management_fee(prior_model=prior_model, w=w)
         observation_nb = prior_model.returns.shape[0]
         x = cp.Variable((observation_nb, 1))
         y = cp.Variable((observation_nb, 1))
@@ -2130,8 +2128,6 @@ class ConvexOptimization(BaseOptimization, ABC):
         # noinspection PyTypeChecker
         constraints = [
             ptf_returns * self._scale_constraints
-            - ptf_transaction_cost * self._scale_constraints
-            - ptf_management_fee * self._scale_constraints
             == cp.reshape(z, (observation_nb,), order="F") * self._scale_constraints,
             z @ gmd_w.T <= ones @ x.T + y @ ones.T,
         ]
-- 
2.43.0


From 8023e1675f8cdc46ef03dcb55068ea1403e75a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:42 +0000
Subject: [PATCH 11/63] fix: reject parameter lists of different lengths in
 convex optimizations

---
 src/skfolio/optimization/convex/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index be228dd..859cc7a 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1095,7 +1095,7 @@ class ConvexOptimization(BaseOptimization, ABC):
             # If the parameter value is a list, each element is the parameter value of
             # a distinct optimization. Therefore, each list must have same length.
             sizes = [len(v) for p, v in parameters_values if not np.isscalar(v)]
-            if not np.all(sizes):
+            if len(set(sizes)) > 1:
                 raise ValueError(
                     "All list elements from `parameters_values` should have same length"
                 )
-- 
2.43.0


From 23982f40377244519f889bb9a86f7fde545fc06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:42 +0000
Subject: [PATCH 12/63] fix: return NaN weights when a single optimization
 fails without raising

---
 src/skfolio/optimization/convex/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 859cc7a..1dcc98e 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1175,7 +1175,11 @@ class ConvexOptimization(BaseOptimization, ABC):
                 stacklevel=2,
             )
 
-        if n_optimizations == 1:
+        if n_optimizations == 1 and len(all_weights) == 0:
+            # The optimization failed and `raise_on_failure` is False
+            self.weights_ = np.full(w.shape, np.nan)
+            self.problem_values_ = {}
+        elif n_optimizations == 1:
             self.weights_ = all_weights[0]
             self.problem_values_ = all_problem_values[0]
         else:
-- 
2.43.0


From a74855695e13510807d77d661ba4f3d302693f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:42 +0000
Subject: [PATCH 13/63] fix: convert cost, fee and previous weight mappings in
 hierarchical clustering

---
 .../optimization/cluster/hierarchical/_base.py  | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index 6fbd4a8..abb38fa 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -299,13 +299,16 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             The risk measure of a theoretical portfolio defined by the weights
             vector.
         """
-        ptf = Portfolio(
-            X=prior_model.returns,
-            weights=weights,
-            transaction_costs=self.transaction_costs,
-            management_fees=self.management_fees,
-            previous_weights=self.previous_weights,
-        )
+        # The prior returns have no asset names so the inputs are converted to arrays
+        params = {
+            name: None
+            if getattr(self, name) is None
+            else self._clean_input(
+                getattr(self, name), n_assets=len(weights), fill_value=0, name=name
+            )
+            for name in ["transaction_costs", "management_fees", "previous_weights"]
+        }
+        ptf = Portfolio(X=prior_model.returns, weights=weights, **params)
         if self.risk_measure in [RiskMeasure.VARIANCE, RiskMeasure.STANDARD_DEVIATION]:
             risk = ptf.variance_from_assets(assets_covariance=prior_model.covariance)
             if self.risk_measure == RiskMeasure.STANDARD_DEVIATION:
-- 
2.43.0


From e3f44b5a3b2c609e8c863952822275f32b7ef7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:42 +0000
Subject: [PATCH 14/63] fix: allow set_params to replace an estimator of a
 composition

---
 src/skfolio/optimization/ensemble/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/ensemble/_base.py b/src/skfolio/optimization/ensemble/_base.py
index 544c455..aef3609 100644
--- a/src/skfolio/optimization/ensemble/_base.py
+++ b/src/skfolio/optimization/ensemble/_base.py
@@ -57,7 +57,7 @@ class BaseComposition(skb.BaseEstimator, ABC):
             # elements of length 2
             with suppress(TypeError):
                 item_names, _ = zip(*items, strict=True)
-                for name in params:
+                for name in list(params):
                     if "__" not in name and name in item_names:
                         self._replace_estimator(attr, name, params.pop(name))
 
-- 
2.43.0


From 719db093224429b26aa065555c7edab54228f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:42 +0000
Subject: [PATCH 15/63] fix: apply the absolute parameter of DropCorrelated

---
 src/skfolio/pre_selection/_drop_correlated.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/pre_selection/_drop_correlated.py b/src/skfolio/pre_selection/_drop_correlated.py
index cb293c8..7bd5bde 100644
--- a/src/skfolio/pre_selection/_drop_correlated.py
+++ b/src/skfolio/pre_selection/_drop_correlated.py
@@ -80,6 +80,8 @@ class DropCorrelated(skf.SelectorMixin, skb.BaseEstimator):
 
         n_assets = X.shape[1]
         corr = np.corrcoef(X.T)
+        if self.absolute:
+            corr = np.abs(corr)
         mean_corr = corr.mean(axis=0)
 
         triu_idx = np.triu_indices(n_assets, 1)
-- 
2.43.0


From 249f60377e0f2e1c17e3b6200b1f9245707fa5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:42 +0000
Subject: [PATCH 16/63] fix: compute the optimal number of clusters of two
 assets

---
 src/skfolio/utils/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/utils/stats.py b/src/skfolio/utils/stats.py
index d2a405b..706359b 100644
--- a/src/skfolio/utils/stats.py
+++ b/src/skfolio/utils/stats.py
@@ -488,6 +488,8 @@ def compute_optimal_n_clusters(distance: np.ndarray, linkage_matrix: np.ndarray)
     dispersion = np.array(dispersion)
     gaps = np.roll(dispersion, -2) + dispersion - 2 * np.roll(dispersion, -1)
     gaps = gaps[:-2]
+    if len(gaps) == 0:
+        return max_clusters
     # k=0 represents one cluster
     k = np.argmax(gaps) + 2
     return k
-- 
2.43.0


From 47a1be4d6d33ae05648f66267d1d005c919c4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:42 +0000
Subject: [PATCH 17/63] fix: leave the view confidences of BlackLitterman
 unchanged in fit

---
 src/skfolio/prior/_black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_black_litterman.py b/src/skfolio/prior/_black_litterman.py
index f7068df..21f2cc8 100644
--- a/src/skfolio/prior/_black_litterman.py
+++ b/src/skfolio/prior/_black_litterman.py
@@ -233,7 +233,7 @@ class BlackLitterman(BasePrior):
             )
         else:
             # Idzorek's method using Jay Walters closed form solution
-            view_confidences = np.asarray(self.view_confidences)
+            view_confidences = np.array(self.view_confidences, dtype=float)
             if np.any(view_confidences < 0) or np.any(view_confidences > 1):
                 raise ValueError(
                     "all values of view_confidences must be between 0 and 1"
-- 
2.43.0


From 8135a63490e0b41ce82f3bbaa046a4af3a5594ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:42 +0000
Subject: [PATCH 18/63] fix: leave the implied volatilities unchanged in
 ImpliedCovariance.fit

---
 src/skfolio/moments/covariance/_implied_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_implied_covariance.py b/src/skfolio/moments/covariance/_implied_covariance.py
index 787999d..7581259 100644
--- a/src/skfolio/moments/covariance/_implied_covariance.py
+++ b/src/skfolio/moments/covariance/_implied_covariance.py
@@ -275,7 +275,7 @@ class ImpliedCovariance(BaseCovariance):
         X = skv.validate_data(self, X)
         _, n_assets = X.shape
         implied_vol = check_implied_vol(implied_vol=implied_vol, X=X)
-        implied_vol /= np.sqrt(self.annualized_factor)
+        implied_vol = implied_vol / np.sqrt(self.annualized_factor)
 
         if self.volatility_risk_premium_adj is not None:
             if np.isscalar(self.volatility_risk_premium_adj):
-- 
2.43.0


From eca9a5f2a57edce93ef168e7f46ebd2aeb9fe8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:42 +0000
Subject: [PATCH 19/63] fix: reject negative implied volatilities

---
 src/skfolio/moments/covariance/_implied_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_implied_covariance.py b/src/skfolio/moments/covariance/_implied_covariance.py
index 7581259..f09a482 100644
--- a/src/skfolio/moments/covariance/_implied_covariance.py
+++ b/src/skfolio/moments/covariance/_implied_covariance.py
@@ -452,6 +452,6 @@ def check_implied_vol(implied_vol: npt.ArrayLike, X: npt.ArrayLike) -> np.ndarra
                 f"expected {(n_observations, n_assets)}"
             )
 
-    skv.check_non_negative((n_observations, n_assets), "`implied_vol`")
+    skv.check_non_negative(implied_vol, "`implied_vol`")
     # noinspection PyTypeChecker
     return implied_vol
-- 
2.43.0


From 5bd2d90ef89ff64b6dda1ed66b4542d89ff04c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:42 +0000
Subject: [PATCH 20/63] fix: leave the fitted moments unchanged in the
 log-normal EmpiricalPrior

---
 src/skfolio/prior/_empirical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/prior/_empirical.py b/src/skfolio/prior/_empirical.py
index 871d20c..7a16239 100644
--- a/src/skfolio/prior/_empirical.py
+++ b/src/skfolio/prior/_empirical.py
@@ -183,8 +183,8 @@ class EmpiricalPrior(BasePrior):
 
             # Using the property of aggregation across time we scale this distribution
             # to the investment horizon by the “square-root rule”.
-            mu *= self.investment_horizon
-            covariance *= self.investment_horizon
+            mu = mu * self.investment_horizon
+            covariance = covariance * self.investment_horizon
 
             # We convert it into a distribution of linear returns over the investment
             # horizon
-- 
2.43.0


From 59aa97f8233511f41fb46d1aeeba23b5f69e4a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:42 +0000
Subject: [PATCH 21/63] fix: format infinite measures

---
 src/skfolio/utils/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 2b3aadb..859ab86 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -519,7 +519,7 @@ def format_measure(x: float, percent: bool = False) -> str:
     formatted : str
         Formatted string.
     """
-    if np.isnan(x):
+    if not np.isfinite(x):
         return str(x)
     if percent:
         xn = x * 100
-- 
2.43.0


From 1312c835307f275be48cdf4c2189ccbd1e6451a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:42 +0000
Subject: [PATCH 22/63] fix: route the fit parameters of SyntheticData to its
 distribution estimator

---
 src/skfolio/prior/_synthetic_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_synthetic_data.py b/src/skfolio/prior/_synthetic_data.py
index 37d3b5d..7881004 100644
--- a/src/skfolio/prior/_synthetic_data.py
+++ b/src/skfolio/prior/_synthetic_data.py
@@ -136,7 +136,7 @@ class SyntheticData(BasePrior):
     def get_metadata_routing(self):
         # noinspection PyTypeChecker
         router = skm.MetadataRouter(owner=self.__class__.__name__).add(
-            distance_estimator=self.distribution_estimator,
+            distribution_estimator=self.distribution_estimator,
             method_mapping=skm.MethodMapping().add(caller="fit", callee="fit"),
         )
         return router
-- 
2.43.0


From dc9e8cf6bbfc31b1588b0125055a649c4e8b84d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:42 +0000
Subject: [PATCH 23/63] fix: keep MultiPeriodPortfolio consistent when its
 portfolio list changes

---
 src/skfolio/portfolio/_multi_period_portfolio.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index 0ebad1d..f784210 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -524,7 +524,7 @@ class MultiPeriodPortfolio(BasePortfolio):
                         )
                     prev_p = p
         self._loaded = False
-        self._portfolios = portfolios
+        self._portfolios = list(portfolios)
         self.returns = np.asarray(returns)
         self.observations = np.asarray(observations)
         self._loaded = True
@@ -635,10 +635,15 @@ class MultiPeriodPortfolio(BasePortfolio):
         portfolio : Portfolio
             The Portfolio to append.
         """
+        if not isinstance(portfolio, BasePortfolio | Portfolio):
+            raise TypeError(
+                "`portfolio` must be of type `Portfolio`, got"
+                f" {type(portfolio).__name__}"
+            )
         if self.check_observations_order and len(self) != 0:
             start_date = portfolio.observations[0]
             prev_last_date = self[-1].observations[-1]
-            if start_date < prev_last_date:
+            if start_date <= prev_last_date:
                 raise ValueError(
                     f"Portfolios observations should not overlap: {prev_last_date} ->"
                     f" {start_date} "
-- 
2.43.0


From 09a2e3426cedf54c47ab43d0f1b09f8eda6cade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:51 +0000
Subject: [PATCH 24/63] fix: keep the parameters of MultiPeriodPortfolio in
 arithmetic operations

---
 .../portfolio/_multi_period_portfolio.py      | 52 +++++++++----------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index f784210..5390700 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -16,7 +16,7 @@ import pandas as pd
 import skfolio.typing as skt
 from skfolio.portfolio._base import BasePortfolio
 from skfolio.portfolio._portfolio import Portfolio
-from skfolio.utils.tools import deduplicate_names
+from skfolio.utils.tools import args_names, deduplicate_names
 
 
 class MultiPeriodPortfolio(BasePortfolio):
@@ -396,38 +396,30 @@ class MultiPeriodPortfolio(BasePortfolio):
         return value in self._portfolios
 
     def __neg__(self):
-        return self.__class__(
-            portfolios=[-p for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self.__class__(portfolios=[-p for p in self], **self._get_params())
 
     def __abs__(self):
         return self.__class__(
             portfolios=[abs(p) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
+            **self._get_params(),
         )
 
     def __round__(self, n: int):
         return self.__class__(
             portfolios=[p.__round__(n) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
+            **self._get_params(),
         )
 
     def __floor__(self):
         return self.__class__(
             portfolios=[np.floor(p) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
+            **self._get_params(),
         )
 
     def __trunc__(self):
         return self.__class__(
             portfolios=[np.trunc(p) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
+            **self._get_params(),
         )
 
     def __add__(self, other):
@@ -440,8 +432,7 @@ class MultiPeriodPortfolio(BasePortfolio):
             raise TypeError("Cannot add two MultiPeriodPortfolio of different sizes")
         return self.__class__(
             portfolios=[p1 + p2 for p1, p2 in zip(self, other, strict=True)],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
+            **self._get_params(),
         )
 
     def __sub__(self, other):
@@ -456,8 +447,7 @@ class MultiPeriodPortfolio(BasePortfolio):
             )
         return self.__class__(
             portfolios=[p1 - p2 for p1, p2 in zip(self, other, strict=True)],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
+            **self._get_params(),
         )
 
     def __mul__(self, other: numbers.Number | list[numbers.Number] | np.ndarray):
@@ -465,9 +455,7 @@ class MultiPeriodPortfolio(BasePortfolio):
             portfolios = [p * other for p in self]
         else:
             portfolios = [p * a for p, a in zip(self, other, strict=True)]
-        return self.__class__(
-            portfolios=portfolios, tag=self.tag, fitness_measures=self.fitness_measures
-        )
+        return self.__class__(portfolios=portfolios, **self._get_params())
 
     __rmul__ = __mul__
 
@@ -476,20 +464,30 @@ class MultiPeriodPortfolio(BasePortfolio):
             portfolios = [p // other for p in self]
         else:
             portfolios = [p // a for p, a in zip(self, other, strict=True)]
-        return self.__class__(
-            portfolios=portfolios, tag=self.tag, fitness_measures=self.fitness_measures
-        )
+        return self.__class__(portfolios=portfolios, **self._get_params())
 
     def __truediv__(self, other: numbers.Number | list[numbers.Number] | np.ndarray):
         if np.isscalar(other):
             portfolios = [p / other for p in self]
         else:
             portfolios = [p / a for p, a in zip(self, other, strict=True)]
-        return self.__class__(
-            portfolios=portfolios, tag=self.tag, fitness_measures=self.fitness_measures
-        )
+        return self.__class__(portfolios=portfolios, **self._get_params())
 
     # Private method
+    def _get_params(self) -> dict:
+        """Get the parameters, except the portfolios and the name.
+
+        Returns
+        -------
+        params : dict
+            Parameters of the MultiPeriodPortfolio.
+        """
+        return {
+            arg: getattr(self, arg)
+            for arg in args_names(self.__init__)
+            if arg not in ["portfolios", "name"]
+        }
+
     def _set_portfolios(self, portfolios: list[Portfolio] | None = None) -> None:
         """Set the returns, observations and portfolios list.
 
-- 
2.43.0


From 255d4517bb7bf770524821bd8ec9b5175bcf8420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:51 +0000
Subject: [PATCH 25/63] fix: do not share the portfolio list between
 MultiPeriodPortfolio copies

---
 src/skfolio/portfolio/_multi_period_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index 5390700..d0cf363 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -647,7 +647,7 @@ class MultiPeriodPortfolio(BasePortfolio):
                     f" {start_date} "
                 )
         self._loaded = False
-        self._portfolios.append(portfolio)
+        self._portfolios = [*self._portfolios, portfolio]
         if len(self.observations) == 0:
             # We don"t concatenate an empty array as we cannot know the dtype before.
             self.observations = portfolio.observations
-- 
2.43.0


From 30676b078ca48e721886c91398bdd7acce4138a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:30 +0000
Subject: [PATCH 26/63] fix: annualize the Sharpe and Sortino ratios net of the
 risk-free rate

---
 src/skfolio/portfolio/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/portfolio/_base.py b/src/skfolio/portfolio/_base.py
index 7ae67dd..d6800e5 100644
--- a/src/skfolio/portfolio/_base.py
+++ b/src/skfolio/portfolio/_base.py
@@ -774,11 +774,11 @@ class BasePortfolio:
         elif isinstance(measure, RatioMeasure):
             # ratio
             if measure.is_annualized:
-                mean = self.annualized_mean
+                excess_mean = self.annualized_factor * (self.mean - self.risk_free_rate)
             else:
-                mean = self.mean
+                excess_mean = self.mean - self.risk_free_rate
             risk = getattr(self, str(measure.linked_risk_measure.value))
-            value = (mean - self.risk_free_rate) / risk
+            value = excess_mean / risk
         else:
             raise ValueError(f"{measure} is not a Measure.")
         return value
-- 
2.43.0


From 722d5546f8603026f4f351b9f9da4716ff9680c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:30 +0000
Subject: [PATCH 27/63] fix: reject equations with a misplaced or repeated
 comparison operator

---
 src/skfolio/utils/equations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index aa0122e..6b9d4be 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -421,6 +421,10 @@ def _string_to_equation(
             break
         sign = 1
         if e in _COMPARISON_OPERATORS:
+            if i == 1 or comparison_sign is not None:
+                raise EquationToMatrixError(
+                    f"{err_msg}: the character '{e}' is wrongly positioned"
+                )
             if e in _INEQUALITY_OPERATORS:
                 is_inequality = True
             else:
-- 
2.43.0


From 798492726b9677c58895139a657673a5b366746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:30 +0000
Subject: [PATCH 28/63] fix: report a group multiplied by a non-number as an
 invalid equation

---
 src/skfolio/utils/equations.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index 6b9d4be..783b596 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -459,10 +459,9 @@ def _string_to_equation(
                 e = next(iterator, None)
                 try:
                     number = float(e)
-                except ValueError:
-                    raise GroupNotFoundError(
-                        f"{err_msg}: the group '{e}' is missing from the groups"
-                        f" {groups}"
+                except (TypeError, ValueError):
+                    raise EquationToMatrixError(
+                        f"{err_msg}: the group cannot be multiplied by '{e}'"
                     ) from None
 
                 left += number * sign * arr
-- 
2.43.0


From 001cd490f97d1becfb8f93c17dedf14ab0d55f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:30 +0000
Subject: [PATCH 29/63] fix: keep deduplicated names unique

---
 src/skfolio/utils/tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 859ab86..7a40a6b 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -720,8 +720,11 @@ def deduplicate_names(names: npt.ArrayLike) -> list[str]:
     counts = {}
     for i, col in enumerate(names):
         cur_count = counts.get(col, 0)
-        if cur_count > 0:
-            names[i] = f"{col}_{cur_count}"
+        while cur_count > 0:
+            counts[col] = cur_count + 1
+            col = f"{col}_{cur_count}"
+            cur_count = counts.get(col, 0)
+        names[i] = col
         counts[col] = cur_count + 1
     return names
 
-- 
2.43.0


From 742c400f4dc41de66a27f98330898a3dd784b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:41 +0000
Subject: [PATCH 30/63] fix: return the fitted estimator from
 LoadingMatrixRegression.fit

---
 src/skfolio/prior/_factor_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skfolio/prior/_factor_model.py b/src/skfolio/prior/_factor_model.py
index 165bf91..28154e7 100644
--- a/src/skfolio/prior/_factor_model.py
+++ b/src/skfolio/prior/_factor_model.py
@@ -140,6 +140,7 @@ class LoadingMatrixRegression(BaseLoadingMatrix):
                 for i in range(n_assets)
             ]
         )
+        return self
 
 
 class FactorModel(BasePrior):
-- 
2.43.0


From f2b89cd19e3bd6a480bbe8a4c666e191250318bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:54 +0000
Subject: [PATCH 31/63] fix: return the population from set_portfolio_params

---
 src/skfolio/population/_population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 683116e..be7b09b 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -109,6 +109,7 @@ class Population(list):
         for portfolio in self:
             for key, value in params.items():
                 setattr(portfolio, key, value)
+        return self
 
     @staticmethod
     def _validate_item(
-- 
2.43.0


From 551e9752827165269a5b1c70c0ed0e66999190ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:35 +0000
Subject: [PATCH 32/63] fix: accept a single number as the previous weights of
 a portfolio

---
 src/skfolio/portfolio/_portfolio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/portfolio/_portfolio.py b/src/skfolio/portfolio/_portfolio.py
index 1530a45..b233251 100644
--- a/src/skfolio/portfolio/_portfolio.py
+++ b/src/skfolio/portfolio/_portfolio.py
@@ -477,6 +477,8 @@ class Portfolio(BasePortfolio):
 
         if previous_weights is None:
             previous_weights = np.zeros(n_assets)
+        elif np.isscalar(previous_weights):
+            previous_weights = np.full(n_assets, previous_weights)
         else:
             previous_weights = input_to_array(
                 items=previous_weights,
-- 
2.43.0


From 98c039ee1743b72085a32c9adffbf1ee0ed711d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:06 +0000
Subject: [PATCH 33/63] fix: accept maximum weights that sum to one up to
 rounding in hierarchical optimizers

---
 src/skfolio/optimization/cluster/hierarchical/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index abb38fa..17a9eb5 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -375,7 +375,7 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             )
             if np.any(max_weights > 1):
                 raise ValueError("`max_weights` must be less than or equal to 1.0")
-            if np.sum(max_weights) < 1:
+            if np.sum(max_weights) < 1 - 1e-12:
                 raise ValueError(
                     "The sum of `max_weights` must be greater than or equal to 1.0"
                 )
-- 
2.43.0


From 089238bddbedf6d8e86c45517cd6296c379ba928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:06 +0000
Subject: [PATCH 34/63] fix: refuse minimum weights that sum to more than one
 in hierarchical optimizers

---
 src/skfolio/optimization/cluster/hierarchical/_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index 17a9eb5..67f0e2b 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -363,6 +363,10 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             )
             if np.any(min_weights < 0):
                 raise ValueError("`min_weights` must be strictly positive")
+            if np.sum(min_weights) > 1 + 1e-12:
+                raise ValueError(
+                    "The sum of `min_weights` must be less than or equal to 1.0"
+                )
 
         if self.max_weights is None:
             max_weights = np.ones(n_assets)
-- 
2.43.0


From 5727d12e0120f0c0e22cb9e18683ac465e13697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:15 +0000
Subject: [PATCH 35/63] fix: do not change the caller's risk budget

---
 src/skfolio/optimization/convex/_risk_budgeting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index bd32ee5..b207761 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -492,7 +492,7 @@ class RiskBudgeting(ConvexOptimization):
                 fill_value=1e-10,
                 name="risk_budget",
             )
-            risk_budget[risk_budget == 0] = 1e-10
+            risk_budget = np.where(risk_budget == 0, 1e-10, risk_budget)
 
         # Variables
         w = cp.Variable(n_assets)
-- 
2.43.0


From 5d02a5dd29aa2ffaf99417bfda0204d3b82ef876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:58 +0000
Subject: [PATCH 36/63] fix: hierarchical risk parity weights are NaN when the
 bounds exclude a whole cluster

---
 src/skfolio/optimization/cluster/hierarchical/_hrp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_hrp.py b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
index fded2bb..4d63986 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_hrp.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
@@ -424,6 +424,9 @@ def _apply_weight_constraints_to_split_factor(
     value : float
         The transformed split factor alpha incorporating the weight constraints.
     """
+    if weights[left_cluster[0]] == 0:
+        # The upper bounds exclude the whole cluster, there is nothing to split
+        return alpha
     alpha = min(
         np.sum(max_weights[left_cluster]) / weights[left_cluster[0]],
         max(np.sum(min_weights[left_cluster]) / weights[left_cluster[0]], alpha),
-- 
2.43.0


From ecaa10e36162b7ba732d1988cc53df60922eb81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:28 +0000
Subject: [PATCH 37/63] fix: empirical covariance of a single asset

---
 src/skfolio/moments/covariance/_empirical_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_empirical_covariance.py b/src/skfolio/moments/covariance/_empirical_covariance.py
index a74d6eb..9fe75ec 100644
--- a/src/skfolio/moments/covariance/_empirical_covariance.py
+++ b/src/skfolio/moments/covariance/_empirical_covariance.py
@@ -96,6 +96,6 @@ class EmpiricalCovariance(BaseCovariance):
         X = skv.validate_data(self, X)
         if self.window_size is not None:
             X = X[-int(self.window_size) :]
-        covariance = np.cov(X.T, ddof=self.ddof)
+        covariance = np.atleast_2d(np.cov(X.T, ddof=self.ddof))
         self._set_covariance(covariance)
         return self
-- 
2.43.0


From bd087d36185bd21433fe5e3d4256f50f48267ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:19 +0000
Subject: [PATCH 38/63] fix: nested clusters with named costs and no
 cross-validation

---
 src/skfolio/optimization/cluster/_nco.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index 7ba3eb3..6fdbd14 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -27,7 +27,7 @@ from skfolio.measures import RatioMeasure
 from skfolio.model_selection import BaseCombinatorialCV, cross_val_predict
 from skfolio.optimization._base import BaseOptimization
 from skfolio.optimization.convex import MeanRisk
-from skfolio.utils.tools import check_estimator, fit_single_estimator
+from skfolio.utils.tools import check_estimator, fit_single_estimator, safe_indexing
 
 
 class NestedClustersOptimization(BaseOptimization):
@@ -353,6 +353,7 @@ class NestedClustersOptimization(BaseOptimization):
                     np.concatenate([test for _, test in cv.split(X, y)])
                 )
 
+        named_X = X
         # We validate and convert to numpy array only after inner-estimator fitting to
         # keep the assets names in case they are used in the estimator.
         if y is not None:
@@ -370,7 +371,9 @@ class NestedClustersOptimization(BaseOptimization):
             else:
                 if cv_predictions is None:
                     fitted_inner_estimator = next(fitted_inner_estimators)
-                    pred = fitted_inner_estimator.predict(X[test_indices, cluster_ids])
+                    pred = fitted_inner_estimator.predict(
+                        safe_indexing(named_X, indices=cluster_ids, axis=1)
+                    )
                 else:
                     pred = next(cv_predictions)
                     if isinstance(self.cv, BaseCombinatorialCV):
-- 
2.43.0


From cbab8fce251890086127d4ec122b8a50ad7bfa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:52 +0000
Subject: [PATCH 39/63] fix: synthetic data with constant conditioning ignored
 the random state

The white noise added to constant conditioned assets was drawn from the
global generator, so a seeded fit could not be reproduced.
---
 src/skfolio/prior/_synthetic_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_synthetic_data.py b/src/skfolio/prior/_synthetic_data.py
index 7881004..4f0a7f0 100644
--- a/src/skfolio/prior/_synthetic_data.py
+++ b/src/skfolio/prior/_synthetic_data.py
@@ -9,6 +9,7 @@ import inspect
 import numpy as np
 import numpy.typing as npt
 import sklearn.base as skb
+import sklearn.utils as sku
 import sklearn.utils.metadata_routing as skm
 import sklearn.utils.validation as skv
 
@@ -194,7 +195,12 @@ class SyntheticData(BasePrior):
         # constant. To avoid null variance, we add a small white noise.
         constant_returns = np.var(synthetic_data, axis=0) < 1e-14
         if np.any(constant_returns):
-            noise = 1e-6 * np.random.randn(len(synthetic_data), 1)
+            rng = sku.check_random_state(
+                getattr(self.distribution_estimator_, "random_state", None)
+            )
+            # Independent stream from the one used in the sampling
+            rng = np.random.RandomState(rng.randint(np.iinfo(np.int32).max))
+            noise = 1e-6 * rng.randn(len(synthetic_data), 1)
             synthetic_data[:, constant_returns] += noise
 
         # Fit empirical posterior estimator
-- 
2.43.0


From 17a97f6e6cbbbe2d5cb8729d0e222f4abf3372de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:27 +0000
Subject: [PATCH 40/63] fix: stationary bootstrap no longer reseeds the global
 generator

Fitting a bootstrap uncertainty set reset the caller's NumPy random state,
and concurrent fits in threads disturbed each other. The samples of a given
seed are unchanged.
---
 src/skfolio/utils/bootstrap.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/skfolio/utils/bootstrap.py b/src/skfolio/utils/bootstrap.py
index d8a6d75..3b4f4b9 100644
--- a/src/skfolio/utils/bootstrap.py
+++ b/src/skfolio/utils/bootstrap.py
@@ -7,6 +7,7 @@
 # Riskfolio-Lib, Copyright (c) 2020-2023, Dany Cajas, Licensed under BSD 3 clause.
 
 import numpy as np
+import sklearn.utils as sku
 
 __all__ = ["stationary_bootstrap"]
 
@@ -96,7 +97,7 @@ def stationary_bootstrap(
            The sample returns of shape (reps, nb observations, nb assets)
 
     """
-    np.random.seed(seed=seed)
+    rng = sku.check_random_state(seed)
     n_observations, n_assets = returns.shape
     x = np.vstack((returns, returns))
     # Loop over reps bootstraps
@@ -105,10 +106,8 @@ def stationary_bootstrap(
             [optimal_block_size(returns[:, i]) for i in range(n_assets)]
         )
 
-    indices = np.random.randint(
-        n_observations, size=(n_bootstrap_samples, n_observations)
-    )
-    cond = np.random.rand(n_bootstrap_samples, n_observations) >= 1.0 / block_size
+    indices = rng.randint(n_observations, size=(n_bootstrap_samples, n_observations))
+    cond = rng.rand(n_bootstrap_samples, n_observations) >= 1.0 / block_size
     # TODO: don't use loop
     for i in range(n_bootstrap_samples):
         for j in range(1, n_observations):
-- 
2.43.0


From 5f6eeec611e41d98a87d563a34b08f53ee8b2b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:27 +0000
Subject: [PATCH 41/63] fix: walk-forward with a negative frequency offset
 dropped the last period

Periods anchored after the last observation but shifted back into the index
were ignored, so a complete test window was missing or the last one too long.
---
 src/skfolio/model_selection/_walk_forward.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index 14465e6..bf361ba 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -360,10 +360,12 @@ def _split_from_period_without_train_offset(
     end = ts_index[-1]
     if freq_offset is not None:
         start = min(start, start - freq_offset)
+        end = max(end, end - freq_offset)
 
     date_range = pd.date_range(start=start, end=end, freq=freq)
     if freq_offset is not None:
         date_range += freq_offset
+        date_range = date_range[date_range <= ts_index[-1]]
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
     # Periods starting outside the index have no matching observation
@@ -409,10 +411,12 @@ def _split_from_period_with_train_offset(
     end = ts_index[-1]
     if freq_offset is not None:
         start = min(start, start - freq_offset)
+        end = max(end, end - freq_offset)
 
     date_range = pd.date_range(start=start, end=end, freq=freq)
     if freq_offset is not None:
         date_range += freq_offset
+        date_range = date_range[date_range <= ts_index[-1]]
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
     train_idx = ts_index.get_indexer(date_range - train_size, method="ffill")
-- 
2.43.0


From 7e8144f61522186744b94e3d5fe68f4e72ffb400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:32 +0000
Subject: [PATCH 42/63] fix: denoised covariance compared the noise density
 with the kernel density at the wrong points

---
 src/skfolio/moments/covariance/_denoise_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_denoise_covariance.py b/src/skfolio/moments/covariance/_denoise_covariance.py
index 85ac854..4e20cb6 100644
--- a/src/skfolio/moments/covariance/_denoise_covariance.py
+++ b/src/skfolio/moments/covariance/_denoise_covariance.py
@@ -163,7 +163,7 @@ class DenoiseCovariance(BaseCovariance):
                 e_val.reshape(-1, 1)
             )
             # noinspection PyUnresolvedReferences
-            pdf_1 = np.exp(kde.score_samples(pdf_0.reshape(-1, 1)))
+            pdf_1 = np.exp(kde.score_samples(e_val_lin.reshape(-1, 1)))
             return np.sum((pdf_1 - pdf_0) ** 2)
 
         # noinspection PyTypeChecker
-- 
2.43.0


From 335574103f99b42f947b7bd9dc3c4d4bbf286127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:32 +0000
Subject: [PATCH 43/63] fix: denoised covariance failed with as many assets as
 observations

---
 src/skfolio/moments/covariance/_denoise_covariance.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/moments/covariance/_denoise_covariance.py b/src/skfolio/moments/covariance/_denoise_covariance.py
index 4e20cb6..e11bdd7 100644
--- a/src/skfolio/moments/covariance/_denoise_covariance.py
+++ b/src/skfolio/moments/covariance/_denoise_covariance.py
@@ -154,10 +154,13 @@ class DenoiseCovariance(BaseCovariance):
                 x_var * (1 + (1.0 / q) ** 0.5) ** 2,
             )
             e_val_lin = np.linspace(e_min, e_max, 1000)
-            pdf_0 = (
+            # The density is null at both ends of its support
+            pdf_0 = np.zeros_like(e_val_lin)
+            e_in = e_val_lin[1:-1]
+            pdf_0[1:-1] = (
                 q
-                / (2 * np.pi * x_var * e_val_lin)
-                * ((e_max - e_val_lin) * (e_val_lin - e_min)) ** 0.5
+                / (2 * np.pi * x_var * e_in)
+                * ((e_max - e_in) * (e_in - e_min)) ** 0.5
             )
             kde = skn.KernelDensity(kernel="gaussian", bandwidth=0.01).fit(
                 e_val.reshape(-1, 1)
-- 
2.43.0


From a68b7d5e09c7a91b31464e1328584f4897b8bc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:32 +0000
Subject: [PATCH 44/63] fix: distance correlation of independent assets was
 undefined when rounding made it negative

---
 src/skfolio/distance/_distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/distance/_distance.py b/src/skfolio/distance/_distance.py
index 2be51f2..fa96e8b 100644
--- a/src/skfolio/distance/_distance.py
+++ b/src/skfolio/distance/_distance.py
@@ -389,7 +389,7 @@ class DistanceCorrelation(BaseDistance):
         y = scd.squareform(scd.pdist(y.reshape(-1, 1)))
         x = x - x.mean(axis=0)[np.newaxis, :] - x.mean(axis=1)[:, np.newaxis] + x.mean()
         y = y - y.mean(axis=0)[np.newaxis, :] - y.mean(axis=1)[:, np.newaxis] + y.mean()
-        value = np.sqrt((x * y).sum()) / np.sqrt(
+        value = np.sqrt(max(0.0, (x * y).sum())) / np.sqrt(
             np.sqrt((x**2).sum()) * np.sqrt((y**2).sum())
         )
         return value
-- 
2.43.0


From a203fcb4d807ca2725e3b446595c690f4d4928b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:47 +0000
Subject: [PATCH 45/63] fix: denoised covariance compared every pair of density
 points instead of matching ones

---
 src/skfolio/moments/covariance/_denoise_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_denoise_covariance.py b/src/skfolio/moments/covariance/_denoise_covariance.py
index e11bdd7..a803779 100644
--- a/src/skfolio/moments/covariance/_denoise_covariance.py
+++ b/src/skfolio/moments/covariance/_denoise_covariance.py
@@ -167,7 +167,7 @@ class DenoiseCovariance(BaseCovariance):
             )
             # noinspection PyUnresolvedReferences
             pdf_1 = np.exp(kde.score_samples(e_val_lin.reshape(-1, 1)))
-            return np.sum((pdf_1 - pdf_0) ** 2)
+            return np.sum((pdf_1 - pdf_0.ravel()) ** 2)
 
         # noinspection PyTypeChecker
         res = sco.minimize(_marchenko, x0=0.5, bounds=((1e-5, 1 - 1e-5),))
-- 
2.43.0


From 29e107b01b9c9c7f4e124b512d103c026e9affa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:39 +0000
Subject: [PATCH 46/63] fix: non-dominated selection added a front after
 reaching the minimum number of assets

---
 src/skfolio/pre_selection/_select_non_dominated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/pre_selection/_select_non_dominated.py b/src/skfolio/pre_selection/_select_non_dominated.py
index 59b8ec8..91dfc73 100644
--- a/src/skfolio/pre_selection/_select_non_dominated.py
+++ b/src/skfolio/pre_selection/_select_non_dominated.py
@@ -147,7 +147,7 @@ class SelectNonDominated(skf.SelectorMixin, skb.BaseEstimator):
         while i < len(fronts):
             if (
                 self.min_n_assets is not None
-                and len(new_assets_idx) > self.min_n_assets
+                and len(new_assets_idx) >= max(1, self.min_n_assets)
             ):
                 break
             for idx in fronts[i]:
-- 
2.43.0


From 532cd2f90e081b55fce8e82b41b4ade36e9495e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:39 +0000
Subject: [PATCH 47/63] fix: dropping correlated assets failed on a single
 asset

---
 src/skfolio/pre_selection/_drop_correlated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/pre_selection/_drop_correlated.py b/src/skfolio/pre_selection/_drop_correlated.py
index 7bd5bde..9ba6ad6 100644
--- a/src/skfolio/pre_selection/_drop_correlated.py
+++ b/src/skfolio/pre_selection/_drop_correlated.py
@@ -79,7 +79,7 @@ class DropCorrelated(skf.SelectorMixin, skb.BaseEstimator):
             raise ValueError("`threshold` must be between -1 and 1")
 
         n_assets = X.shape[1]
-        corr = np.corrcoef(X.T)
+        corr = np.atleast_2d(np.corrcoef(X.T))
         if self.absolute:
             corr = np.abs(corr)
         mean_corr = corr.mean(axis=0)
-- 
2.43.0


From d720fefda589fec5c93568135f77d23a549e8a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:20 +0000
Subject: [PATCH 48/63] fix: missing factor prices counted in the missing
 assets threshold of prices_to_returns

---
 src/skfolio/preprocessing/_returns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/preprocessing/_returns.py b/src/skfolio/preprocessing/_returns.py
index 130bc4d..75b643e 100644
--- a/src/skfolio/preprocessing/_returns.py
+++ b/src/skfolio/preprocessing/_returns.py
@@ -105,7 +105,7 @@ def prices_to_returns(
         nan_threshold = float(nan_threshold)
         if not 0 < nan_threshold <= 1:
             raise ValueError("`nan_threshold` must be between 0 and 1")
-        count_nan = df.isna().sum(axis=1)
+        count_nan = df.iloc[:, :n_assets].isna().sum(axis=1)
         to_drop = count_nan[count_nan > n_assets * nan_threshold].index
         if len(to_drop) > 0:
             df.drop(to_drop, axis=0, inplace=True)
-- 
2.43.0


From abfaaacb71f7a5c225592e14a133e023b7cfdd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:20 +0000
Subject: [PATCH 49/63] fix: prices_to_returns dropped inner observations when
 missing prices are not filled

---
 src/skfolio/preprocessing/_returns.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/preprocessing/_returns.py b/src/skfolio/preprocessing/_returns.py
index 75b643e..f35ee32 100644
--- a/src/skfolio/preprocessing/_returns.py
+++ b/src/skfolio/preprocessing/_returns.py
@@ -114,8 +114,11 @@ def prices_to_returns(
     if fill_nan:
         df.ffill(inplace=True)
     # Drop rows according to drop_inceptions_nan
-    # noinspection PyTypeChecker
-    df.dropna(how="any" if drop_inceptions_nan else "all", inplace=True)
+    if drop_inceptions_nan:
+        # Only the observations before the last inception
+        df = df[df.notna().cummax().all(axis=1)].copy()
+    else:
+        df.dropna(how="all", inplace=True)
     # Drop column if all its values are missing
     df.dropna(axis=1, how="all", inplace=True)
 
-- 
2.43.0


From a3443a246fb3af055771f2e2550257eaaf4d528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:20 +0000
Subject: [PATCH 50/63] fix: Joe inverse conditional probability stopped before
 converging for small tail values

---
 src/skfolio/distribution/copula/_joe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/copula/_joe.py b/src/skfolio/distribution/copula/_joe.py
index 1935d3f..8988602 100644
--- a/src/skfolio/distribution/copula/_joe.py
+++ b/src/skfolio/distribution/copula/_joe.py
@@ -600,7 +600,8 @@ def _base_inverse_partial_derivative(
             / w
         )
         x_new = np.clip(x_new, 0.0, 1.0)
-        diff = np.max(np.abs(x_new - x))
+        # convergence is assessed on the solution u as x can be very small
+        diff = np.max(np.abs(np.power(x_new, 1.0 / theta) - np.power(x, 1.0 / theta)))
         x = x_new
         if diff < tol:
             break
-- 
2.43.0


From bf0d6bd18d7cb120e31a39b06741edb8cd144b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:55 +0000
Subject: [PATCH 51/63] fix: select_bivariate_copula failed with an independent
 copula among the candidates

---
 src/skfolio/distribution/copula/_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/copula/_selection.py b/src/skfolio/distribution/copula/_selection.py
index 19785b7..fa27153 100644
--- a/src/skfolio/distribution/copula/_selection.py
+++ b/src/skfolio/distribution/copula/_selection.py
@@ -94,7 +94,7 @@ def select_bivariate_copula(
                 "The candidate copula must inherit from `BaseBivariateCopula`"
             )
         copula = sk.clone(copula)
-        if copula.itau and copula.kendall_tau is None:
+        if getattr(copula, "itau", False) and copula.kendall_tau is None:
             # Faster computation by reusing kendall tau if itau
             copula.kendall_tau = kendall_tau
         copula.fit(X)
-- 
2.43.0


From 6855e56cb826f5543bea7378d26e2e6a82cd6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:04:06 +0000
Subject: [PATCH 52/63] fix: vine sampling ignored the orientation of rotated
 pair copulas

---
 .../distribution/multivariate/_vine_copula.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index 5f97db1..e1ae057 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -1203,9 +1203,9 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
                     edge, x, is_count
                 )
             else:
-                x = np.stack([node.v, edge.node1.pseudo_values]).T
+                x = np.stack([edge.node1.pseudo_values, node.v]).T
                 edge.node2.pseudo_values = _inverse_partial_derivative(
-                    edge, x, is_count
+                    edge, x, is_count, first_margin=True
                 )
         else:
             is_left1, is_left2 = edge.node1.ref.shared_node_is_left(edge.node2.ref)
@@ -1218,8 +1218,8 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
                     edge.node1.u = u
                 queue.appendleft((edge.node1, not is_left1))
             else:
-                x = np.stack([node.v, edge.node1.v if is_left1 else edge.node1.u]).T
-                u = _inverse_partial_derivative(edge, x, is_count)
+                x = np.stack([edge.node1.v if is_left1 else edge.node1.u, node.v]).T
+                u = _inverse_partial_derivative(edge, x, is_count, first_margin=True)
                 if is_left2:
                     edge.node2.v = u
                 else:
@@ -1228,12 +1228,12 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
 
 
 def _inverse_partial_derivative(
-    edge: Edge, X: np.ndarray, is_count: bool
+    edge: Edge, X: np.ndarray, is_count: bool, first_margin: bool = False
 ) -> np.ndarray:
     """Inverse partial derivative of an Edge copula."""
     if is_count:
         return np.array([np.nan])
-    return edge.copula.inverse_partial_derivative(X)
+    return edge.copula.inverse_partial_derivative(X, first_margin=first_margin)
 
 
 def _kde_trace(
-- 
2.43.0


From 4dfc27b63518b2efe132b8789c0944516e9399fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:04:06 +0000
Subject: [PATCH 53/63] fix: vine conditioning with an open bound failed
 without fitted marginals

---
 src/skfolio/distribution/multivariate/_vine_copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index e1ae057..2873f19 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -802,7 +802,7 @@ class VineCopula(BaseMultivariateDist):
                     u_min = 0.0 if np.isneginf(min_value) else dist.cdf(min_value)
                     u_max = 1.0 if np.isposinf(max_value) else dist.cdf(max_value)
                 else:
-                    u_min, u_max = min_value, max_value
+                    u_min, u_max = max(min_value, 0.0), min(max_value, 1.0)
 
                 # Sample uniformly in the transformed interval.
                 samples = rng.uniform(low=u_min, high=u_max, size=n_samples)
-- 
2.43.0


From 4c0a031640ee442de41e0009ae80bab4679cb807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:08 +0000
Subject: [PATCH 54/63] fix: portfolio scorers failed when a target is passed
 to the search

---
 src/skfolio/metrics/_scorer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/metrics/_scorer.py b/src/skfolio/metrics/_scorer.py
index 202a4d5..816ef02 100644
--- a/src/skfolio/metrics/_scorer.py
+++ b/src/skfolio/metrics/_scorer.py
@@ -34,7 +34,9 @@ class _PortfolioScorer:
             f"{kwargs_string})"
         )
 
-    def __call__(self, estimator: BaseOptimization, X: npt.ArrayLike) -> float:
+    def __call__(
+        self, estimator: BaseOptimization, X: npt.ArrayLike, y=None
+    ) -> float:
         """Compute the score of the estimator prediction on X.
 
         Parameters
@@ -45,6 +47,9 @@ class _PortfolioScorer:
         X : array-like of shape (n_observations, n_assets)
             Test data that will be fed to estimator.predict.
 
+        y : Ignored
+            Not used, present for API consistency by convention.
+
         Returns
         -------
         score : float
-- 
2.43.0


From 4131bccd7f13dd8a48bfaef4190b31eec283e818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:17 +0000
Subject: [PATCH 55/63] fix: datasets could not be downloaded to a relative
 data directory

The archive was saved relative to the working directory but read relative to
the package data folder.
---
 src/skfolio/datasets/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/datasets/_base.py b/src/skfolio/datasets/_base.py
index e39b591..ef51677 100644
--- a/src/skfolio/datasets/_base.py
+++ b/src/skfolio/datasets/_base.py
@@ -157,7 +157,9 @@ def download_dataset(
     if not download_if_missing:
         raise OSError("Data not found and `download_if_missing` is False")
 
-    archive_path = os.path.join(data_home, os.path.basename(url))
+    archive_path = os.path.abspath(
+        os.path.join(data_home, os.path.basename(url))
+    )
     ur.urlretrieve(url, archive_path)
     df = load_gzip_compressed_csv_data(archive_path)
     joblib.dump(df, filepath, compress=6)
-- 
2.43.0


From 5ad5c7355af657277fa489b563ba54a4904e59d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:17 +0000
Subject: [PATCH 56/63] fix: interrupted save left an unreadable dataset in the
 cache

The dataset was written in place. A save that stopped half way left a file that
every later load took for the dataset and failed to read. It is now written to a
temporary file and renamed once complete.
---
 src/skfolio/datasets/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/datasets/_base.py b/src/skfolio/datasets/_base.py
index ef51677..ab04c07 100644
--- a/src/skfolio/datasets/_base.py
+++ b/src/skfolio/datasets/_base.py
@@ -162,7 +162,9 @@ def download_dataset(
     )
     ur.urlretrieve(url, archive_path)
     df = load_gzip_compressed_csv_data(archive_path)
-    joblib.dump(df, filepath, compress=6)
+    tmp_path = f"{filepath}.tmp"
+    joblib.dump(df, tmp_path, compress=6)
+    os.replace(tmp_path, filepath)
     os.remove(archive_path)
     return df
 
-- 
2.43.0


From 60e8605849509d3a7956c138e4f60959b60bc1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:21 +0000
Subject: [PATCH 57/63] fix: warn instead of raising when a group of
 group_cardinalities is missing

---
 src/skfolio/optimization/convex/_base.py | 6 ++++--
 src/skfolio/utils/equations.py           | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 1dcc98e..b0a418e 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -2182,7 +2182,8 @@ def _mip_weight_constraints_no_short_threshold(
             group_cardinalities=group_cardinalities,
             raise_if_group_missing=False,
         )
-        constraints.append(a_card @ is_invested_bool - b_card <= 0)
+        if len(a_card) != 0:
+            constraints.append(a_card @ is_invested_bool - b_card <= 0)
 
     if isinstance(factor, cp.Variable):
         is_invested_factor = cp.Variable(n_assets, nonneg=True)
@@ -2258,7 +2259,8 @@ def _mip_weight_constraints_threshold_short(
             group_cardinalities=group_cardinalities,
             raise_if_group_missing=False,
         )
-        constraints.append(a_card @ is_invested_bool - b_card <= 0)
+        if len(a_card) != 0:
+            constraints.append(a_card @ is_invested_bool - b_card <= 0)
 
     M = 1e3
     # Big M method to activate or deactivate constraints
diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index 783b596..aa632a1 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -182,7 +182,7 @@ def group_cardinalities_to_matrix(
             a_inequality.append(arr)
             b_inequality.append(card)
 
-        except GroupNotFoundError as e:
+        except (GroupNotFoundError, EquationToMatrixError) as e:
             if raise_if_group_missing:
                 raise
             warnings.warn(str(e), stacklevel=2)
-- 
2.43.0


From 4ae55dd79ed7730261e9fccd45e723f5ea86efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:22 +0000
Subject: [PATCH 58/63] fix: keep a zero threshold_short or threshold_long as a
 threshold

---
 src/skfolio/optimization/convex/_base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index b0a418e..b0ca32a 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -717,8 +717,6 @@ class ConvexOptimization(BaseOptimization, ABC):
                 fill_value=0,
                 name="threshold_long",
             )
-            if np.all(threshold_long == 0):
-                threshold_long = None
 
         if threshold_short is not None:
             threshold_short = self._clean_input(
@@ -727,8 +725,6 @@ class ConvexOptimization(BaseOptimization, ABC):
                 fill_value=0,
                 name="threshold_short",
             )
-            if np.all(threshold_short == 0):
-                threshold_short = None
 
         if groups is not None:
             groups = input_to_array(
-- 
2.43.0


From 5f1da7ee27f6598b759a3869ddadfe0cfc19baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:56 +0000
Subject: [PATCH 59/63] fix: nested clusters select columns of the assets only,
 not of the targets

---
 src/skfolio/optimization/cluster/_nco.py | 2 +-
 src/skfolio/utils/tools.py               | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index 6fdbd14..d73c2d4 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -357,7 +357,7 @@ class NestedClustersOptimization(BaseOptimization):
         # We validate and convert to numpy array only after inner-estimator fitting to
         # keep the assets names in case they are used in the estimator.
         if y is not None:
-            X, y = skv.validate_data(self, X, y)
+            X, y = skv.validate_data(self, X, y, multi_output=True)
             y_pred = y[test_indices]
         else:
             X = skv.validate_data(self, X)
diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 7a40a6b..6c68188 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -254,10 +254,11 @@ def safe_split(
         Indexed targets.
     """
     X_subset = safe_indexing(X, indices=indices, axis=axis)
-    if y is not None:
+    if y is not None and axis == 0:
         y_subset = safe_indexing(y, indices=indices, axis=axis)
     else:
-        y_subset = None
+        # The columns of the targets are not assets
+        y_subset = y
     return X_subset, y_subset
 
 
-- 
2.43.0


From 567f7b0c2cfeb45242e486e6112cd442a1dd95b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:13 +0000
Subject: [PATCH 60/63] fix: idx of the cumulative returns plot of a population
 selects observations

---
 src/skfolio/population/_population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index be7b09b..5ecf2ed 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -600,10 +600,11 @@ class Population(list):
             yaxis_title = title
             title = f"{title} (non-compounded)"
 
-        df = pd.concat(cumulative_returns, axis=1).iloc[:, idx]
+        df = pd.concat(cumulative_returns, axis=1)
         # Sort index because pd.concat unsort NaNs at the end
         df.sort_index(inplace=True)
         df.columns = deduplicate_names(names)
+        df = df.iloc[idx]
 
         fig = df.plot(backend="plotly")
         fig.update_layout(
-- 
2.43.0


From 7ea5c7369b0c86832800d049107161ef38e48930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:13 +0000
Subject: [PATCH 61/63] fix: distribution plot of a population accepts tags of
 different sizes

---
 src/skfolio/population/_population.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 5ecf2ed..9d0c413 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -524,8 +524,11 @@ class Population(list):
                 values.append(self.measures(measure=measure))
                 labels.append(measure.value)
 
-        df = pd.DataFrame(np.array(values).T, columns=labels).melt(
-            var_name="Population"
+        df = pd.DataFrame(
+            {
+                "Population": np.repeat(labels, [len(v) for v in values]),
+                "value": np.concatenate(values),
+            }
         )
         fig = px.histogram(
             df,
-- 
2.43.0


From a439ee6c795e1623ff5d86a1873d2cfe7c7f688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:13 +0000
Subject: [PATCH 62/63] fix: surface plot of a population accepts ratio
 measures

---
 src/skfolio/population/_population.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 9d0c413..2736645 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -810,8 +810,7 @@ class Population(list):
                                 str(e)
                                 + ": %{"
                                 + v
-                                + ":"
-                                + (",.3%" if not e.is_ratio else None)
+                                + (":,.3%" if not e.is_ratio else ":.3f")
                                 + "}"
                                 for e, v in [(x, "x"), (y, "y"), (z, "z")]
                             ]
-- 
2.43.0


From 0cad25bbc8042992d23762b9bc74c163c194ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:13 +0000
Subject: [PATCH 63/63] fix: vine plots accept asset names as subset and models
 fitted without names

---
 src/skfolio/distribution/multivariate/_base.py |  6 ++++--
 .../distribution/multivariate/_vine_copula.py  | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/skfolio/distribution/multivariate/_base.py b/src/skfolio/distribution/multivariate/_base.py
index 279b236..833d1be 100644
--- a/src/skfolio/distribution/multivariate/_base.py
+++ b/src/skfolio/distribution/multivariate/_base.py
@@ -13,6 +13,7 @@ import plotly.graph_objects as go
 import sklearn.utils as sku
 
 from skfolio.distribution._base import BaseDistribution
+from skfolio.utils.tools import default_asset_names
 
 
 class BaseMultivariateDist(BaseDistribution, ABC):
@@ -176,6 +177,7 @@ class BaseMultivariateDist(BaseDistribution, ABC):
         """
         traces = []
         n_assets = self.n_features_in_
+        assets_names = getattr(self, "feature_names_in_", default_asset_names(n_assets))
         if X is not None:
             X = np.asarray(X)
             if X.ndim != 2:
@@ -195,7 +197,7 @@ class BaseMultivariateDist(BaseDistribution, ABC):
             traces.append(
                 go.Splom(
                     dimensions=[
-                        {"label": self.feature_names_in_[i], "values": X[:, i]}
+                        {"label": assets_names[i], "values": X[:, i]}
                         for i in range(n_assets)
                     ],
                     showupperhalf=False,
@@ -216,7 +218,7 @@ class BaseMultivariateDist(BaseDistribution, ABC):
         traces.append(
             go.Splom(
                 dimensions=[
-                    {"label": self.feature_names_in_[i], "values": sample[:, i]}
+                    {"label": assets_names[i], "values": sample[:, i]}
                     for i in range(n_assets)
                 ],
                 showupperhalf=False,
diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index 2873f19..523cce5 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -65,7 +65,11 @@ from skfolio.distribution.univariate import (
     StudentT,
     select_univariate_dist,
 )
-from skfolio.utils.tools import input_to_array, validate_input_list
+from skfolio.utils.tools import (
+    default_asset_names,
+    input_to_array,
+    validate_input_list,
+)
 
 _UNIFORM_SAMPLE_EPSILON = 1e-14
 
@@ -1050,7 +1054,13 @@ class VineCopula(BaseMultivariateDist):
             A figure with overlaid univariate distributions for each asset.
         """
         n_assets = self.n_features_in_
-        subset = subset or list(range(n_assets))
+        assets_names = getattr(self, "feature_names_in_", default_asset_names(n_assets))
+        subset = validate_input_list(
+            items=subset or list(range(n_assets)),
+            n_assets=n_assets,
+            assets_names=assets_names,
+            name="subset",
+        )
         colors = px.colors.qualitative.Plotly
         if X is not None:
             X = np.asarray(X)
@@ -1078,7 +1088,7 @@ class VineCopula(BaseMultivariateDist):
                     x=samples[:, s],
                     opacity=1.0,
                     color=colors[i % len(colors)],
-                    name=f"{self.feature_names_in_[s]} Generated",
+                    name=f"{assets_names[s]} Generated",
                     visible=True if i == 0 else "legendonly",
                 )
             )
@@ -1090,7 +1100,7 @@ class VineCopula(BaseMultivariateDist):
                         x=X[:, s],
                         opacity=0.6,
                         color=colors[i % len(colors)],
-                        name=f"{self.feature_names_in_[s]} Empirical",
+                        name=f"{assets_names[s]} Empirical",
                         visible=True if i == 0 else "legendonly",
                     )
                 )
-- 
2.43.0

