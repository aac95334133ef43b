From 8cdddbc54f23255868bf993d37ec242e4ff496d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:28 +0000
Subject: [PATCH 01/50] fix: scale the tracking error limit with the
 homogenization factor

With the MAXIMIZE_RATIO objective the weights are divided by the factor
after the optimization, so the limit has to be multiplied by it.
---
 src/skfolio/optimization/convex/_mean_risk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 731b8fc..a4cbc4b 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -902,7 +902,7 @@ class MeanRisk(ConvexOptimization):
             )
             constraints += [
                 tracking_error * self._scale_constraints
-                <= self.max_tracking_error * self._scale_constraints
+                <= self.max_tracking_error * factor * self._scale_constraints
             ]
 
         # Turnover
-- 
2.43.0


From 75f49cd65d4ed6e5a5cf83a807c079beff12a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:28 +0000
Subject: [PATCH 02/50] fix: respect variance and semi-variance limits when
 maximizing a ratio

The squared risk measures are 2-homogeneous in the rescaled weights while
the limit is multiplied by the factor once, so the limit was not applied
to the final weights. Bound the square root of these measures instead.
---
 src/skfolio/optimization/convex/_mean_risk.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index a4cbc4b..5d39f2f 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -1002,9 +1002,24 @@ class MeanRisk(ConvexOptimization):
                 risk_i, constraints_i = risk_func(**args)
                 constraints += constraints_i
                 if risk_limit is not None:
+                    limited_risk = risk_i
+                    if isinstance(factor, cp.Variable) and risk_func in (
+                        self._variance_risk,
+                        self._semi_variance_risk,
+                    ):
+                        # The squared risk measures are 2-homogeneous whereas the
+                        # limit scales with the factor: we limit the square root.
+                        root_func = (
+                            self._standard_deviation_risk
+                            if r_m == RiskMeasure.VARIANCE
+                            else self._semi_deviation_risk
+                        )
+                        limited_risk, constraints_i = root_func(**args)
+                        constraints += constraints_i
+                        risk_limit = np.sqrt(risk_limit)
                     parameter = cp.Parameter(nonneg=True)
                     constraints += [
-                        risk_i * self._scale_constraints
+                        limited_risk * self._scale_constraints
                         <= parameter * factor * self._scale_constraints
                     ]
                     parameters_values.append((parameter, risk_limit))
-- 
2.43.0


From 2ca95d273745fcb4aa5802975c99bd52843c8cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:13 +0000
Subject: [PATCH 03/50] fix: scale transaction costs with the factor in risk
 budgeting

The optimization variable is normalized by the factor afterwards, but the
costs inside the risk compared it with the unscaled previous weights, so
the latter had no influence on the result.
---
 src/skfolio/optimization/convex/_risk_budgeting.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 6e3c779..80946e0 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -536,10 +536,7 @@ class RiskBudgeting(ConvexOptimization):
             elif arg_name == "w":
                 args[arg_name] = w
             elif arg_name == "factor":
-                if self.risk_measure in [RiskMeasure.FIRST_LOWER_PARTIAL_MOMENT]:
-                    args[arg_name] = factor
-                else:
-                    args[arg_name] = cp.Constant(1)
+                args[arg_name] = factor
             else:
                 args[arg_name] = getattr(self, arg_name)
         risk, constraints_i = risk_func(**args)
-- 
2.43.0


From 963911c253489c9b04f46777f03b54a675ae4995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:38 +0000
Subject: [PATCH 04/50] fix: keep the risk-free rate out of the first lower
 partial moment

The constraint of the first lower partial moment added the risk-free rate to the
shortfall below the minimum acceptable return. A non-zero rate therefore changed
the measure that was minimised and limited.
---
 src/skfolio/optimization/convex/_base.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 46419a3..af44f57 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1557,7 +1557,6 @@ class ConvexOptimization(BaseOptimization, ABC):
         prior_model: PriorModel,
         w: cp.Variable,
         min_acceptable_return: skt.Target,
-        factor: skt.Factor,
     ) -> skt.RiskResult:
         """Expression and Constraints of the First Lower Partial Moment risk measure.
 
@@ -1573,10 +1572,6 @@ class ConvexOptimization(BaseOptimization, ABC):
             The minimum acceptable return used to distinguish "downside" and "upside"
             returns for the computation of lower partial moments.
 
-        factor : cvxpy Variable | cvxpy Constant
-            Additional variable used for the optimization of some objective function
-            like the ratio maximization.
-
         Returns
         -------
         expression : tuple[cvxpy Expression , list[cvxpy Expression]]
@@ -1590,8 +1585,7 @@ class ConvexOptimization(BaseOptimization, ABC):
         v = cp.Variable(n_observations, nonneg=True)
         risk = cp.sum(v) / n_observations
         constraints = [
-            self.risk_free_rate * factor * self._scale_constraints
-            - ptf_min_acceptable_return * self._scale_constraints
+            -ptf_min_acceptable_return * self._scale_constraints
             <= v * self._scale_constraints
         ]
         return risk, constraints
-- 
2.43.0


From 627a1c789ccdfa2d22509ccea3a65b558e9bef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:36 +0000
Subject: [PATCH 05/50] fix: report the worst case variance on the scale of the
 weights

The worst case variance is 1-homogeneous in the rescaled weights, but its problem
value was divided by the factor twice, as if it were the plain variance.
---
 src/skfolio/optimization/convex/_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index af44f57..a758d57 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1135,9 +1135,15 @@ class ConvexOptimization(BaseOptimization, ABC):
                     problem.value / self._scale_objective.value
                 )
 
+                # The worst case variance is 1-homogeneous
+                is_worst_case_variance = (
+                    self.risk_measure == RiskMeasure.VARIANCE
+                    and self.covariance_uncertainty_set_estimator is not None
+                )
                 if (
                     self.risk_measure
                     in [RiskMeasure.VARIANCE, RiskMeasure.SEMI_VARIANCE]
+                    and not is_worst_case_variance
                     and "risk" in problem_values
                 ):
                     problem_values["risk"] /= factor.value
-- 
2.43.0


From 72871915f4db2783b1ceb111a7bfcf5578f5b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:18 +0000
Subject: [PATCH 06/50] fix: make DropCorrelated use its absolute option

The option was accepted but never read, so strongly negatively correlated assets
were kept even with absolute=True.
---
 src/skfolio/pre_selection/_drop_correlated.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/pre_selection/_drop_correlated.py b/src/skfolio/pre_selection/_drop_correlated.py
index cb293c8..7bd5bde 100644
--- a/src/skfolio/pre_selection/_drop_correlated.py
+++ b/src/skfolio/pre_selection/_drop_correlated.py
@@ -80,6 +80,8 @@ class DropCorrelated(skf.SelectorMixin, skb.BaseEstimator):
 
         n_assets = X.shape[1]
         corr = np.corrcoef(X.T)
+        if self.absolute:
+            corr = np.abs(corr)
         mean_corr = corr.mean(axis=0)
 
         triu_idx = np.triu_indices(n_assets, 1)
-- 
2.43.0


From 49b536391e500cb34e2c0733928b07aeae9bd64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:41 +0000
Subject: [PATCH 07/50] fix: return the estimator from
 LoadingMatrixRegression.fit

The method is documented to return the fitted estimator but returned None.
---
 src/skfolio/prior/_factor_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skfolio/prior/_factor_model.py b/src/skfolio/prior/_factor_model.py
index 165bf91..28154e7 100644
--- a/src/skfolio/prior/_factor_model.py
+++ b/src/skfolio/prior/_factor_model.py
@@ -140,6 +140,7 @@ class LoadingMatrixRegression(BaseLoadingMatrix):
                 for i in range(n_assets)
             ]
         )
+        return self
 
 
 class FactorModel(BasePrior):
-- 
2.43.0


From 2202f0eb928dd5cfff13f98e38b482a097cfc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:06 +0000
Subject: [PATCH 08/50] fix: raise the not-fitted error from distribution
 queries

Scoring an unfitted univariate distribution, counting its parameters and the
multivariate plots failed with an unrelated attribute error.
---
 src/skfolio/distribution/multivariate/_base.py        | 2 ++
 src/skfolio/distribution/multivariate/_vine_copula.py | 1 +
 src/skfolio/distribution/univariate/_base.py          | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/src/skfolio/distribution/multivariate/_base.py b/src/skfolio/distribution/multivariate/_base.py
index 279b236..8221ee6 100644
--- a/src/skfolio/distribution/multivariate/_base.py
+++ b/src/skfolio/distribution/multivariate/_base.py
@@ -11,6 +11,7 @@ import numpy as np
 import numpy.typing as npt
 import plotly.graph_objects as go
 import sklearn.utils as sku
+import sklearn.utils.validation as skv
 
 from skfolio.distribution._base import BaseDistribution
 
@@ -174,6 +175,7 @@ class BaseMultivariateDist(BaseDistribution, ABC):
         fig : plotly.graph_objects.Figure
             A figure object containing the scatter matrix.
         """
+        skv.check_is_fitted(self)
         traces = []
         n_assets = self.n_features_in_
         if X is not None:
diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index 5f97db1..a2ef554 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -1049,6 +1049,7 @@ class VineCopula(BaseMultivariateDist):
         fig : plotly.graph_objects.Figure
             A figure with overlaid univariate distributions for each asset.
         """
+        skv.check_is_fitted(self)
         n_assets = self.n_features_in_
         subset = subset or list(range(n_assets))
         colors = px.colors.qualitative.Plotly
diff --git a/src/skfolio/distribution/univariate/_base.py b/src/skfolio/distribution/univariate/_base.py
index 7d4fef5..08169d6 100644
--- a/src/skfolio/distribution/univariate/_base.py
+++ b/src/skfolio/distribution/univariate/_base.py
@@ -42,6 +42,7 @@ class BaseUnivariateDist(BaseDistribution, ABC):
     @property
     def n_params(self) -> int:
         """Number of model parameters."""
+        skv.check_is_fitted(self)
         return len(self._scipy_params)
 
     @property
@@ -110,6 +111,7 @@ class BaseUnivariateDist(BaseDistribution, ABC):
         density : ndarray of shape (n_observations,)
             Log-likelihood values for each observation in X.
         """
+        skv.check_is_fitted(self)
         X = self._validate_X(X, reset=False)
         log_density = self._scipy_model.logpdf(X, **self._scipy_params).ravel()
         return log_density
-- 
2.43.0


From 10d15a03768b89ebf4cfdbd7761a3c6ffbdd2601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:22 +0000
Subject: [PATCH 09/50] fix: raise the not-fitted error from the representation
 of copulas

Asking an unfitted copula for its fitted representation failed with an unrelated
attribute error.
---
 src/skfolio/distribution/copula/_clayton.py   | 1 +
 src/skfolio/distribution/copula/_gaussian.py  | 1 +
 src/skfolio/distribution/copula/_gumbel.py    | 1 +
 src/skfolio/distribution/copula/_joe.py       | 1 +
 src/skfolio/distribution/copula/_student_t.py | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/skfolio/distribution/copula/_clayton.py b/src/skfolio/distribution/copula/_clayton.py
index 7eed65d..beecbe1 100644
--- a/src/skfolio/distribution/copula/_clayton.py
+++ b/src/skfolio/distribution/copula/_clayton.py
@@ -387,6 +387,7 @@ class ClaytonCopula(BaseBivariateCopula):
     @property
     def fitted_repr(self) -> str:
         """String representation of the fitted copula."""
+        skv.check_is_fitted(self)
         return (
             f"{self.__class__.__name__}(theta={self.theta_:0.2f}, rot={self.rotation_})"
         )
diff --git a/src/skfolio/distribution/copula/_gaussian.py b/src/skfolio/distribution/copula/_gaussian.py
index 5632ea0..52daea9 100644
--- a/src/skfolio/distribution/copula/_gaussian.py
+++ b/src/skfolio/distribution/copula/_gaussian.py
@@ -346,6 +346,7 @@ class GaussianCopula(BaseBivariateCopula):
     @property
     def fitted_repr(self) -> str:
         """String representation of the fitted copula."""
+        skv.check_is_fitted(self)
         return f"{self.__class__.__name__}(rho={self.rho_:0.3f})"
 
 
diff --git a/src/skfolio/distribution/copula/_gumbel.py b/src/skfolio/distribution/copula/_gumbel.py
index 1fb167b..98d8cbe 100644
--- a/src/skfolio/distribution/copula/_gumbel.py
+++ b/src/skfolio/distribution/copula/_gumbel.py
@@ -393,6 +393,7 @@ class GumbelCopula(BaseBivariateCopula):
     @property
     def fitted_repr(self) -> str:
         """String representation of the fitted copula."""
+        skv.check_is_fitted(self)
         return (
             f"{self.__class__.__name__}(theta={self.theta_:0.2f}, rot={self.rotation_})"
         )
diff --git a/src/skfolio/distribution/copula/_joe.py b/src/skfolio/distribution/copula/_joe.py
index 1935d3f..0918bf9 100644
--- a/src/skfolio/distribution/copula/_joe.py
+++ b/src/skfolio/distribution/copula/_joe.py
@@ -410,6 +410,7 @@ class JoeCopula(BaseBivariateCopula):
     @property
     def fitted_repr(self) -> str:
         """String representation of the fitted copula."""
+        skv.check_is_fitted(self)
         return (
             f"{self.__class__.__name__}(theta={self.theta_:0.2f}, rot={self.rotation_})"
         )
diff --git a/src/skfolio/distribution/copula/_student_t.py b/src/skfolio/distribution/copula/_student_t.py
index 1440c92..9a09bdc 100644
--- a/src/skfolio/distribution/copula/_student_t.py
+++ b/src/skfolio/distribution/copula/_student_t.py
@@ -415,6 +415,7 @@ class StudentTCopula(BaseBivariateCopula):
     @property
     def fitted_repr(self) -> str:
         """String representation of the fitted copula."""
+        skv.check_is_fitted(self)
         return f"{self.__class__.__name__}(rho={self.rho_:0.3f}, dof={self.dof_:0.2f})"
 
 
-- 
2.43.0


From 153f5ca82377b08418c0706f3317bf80a29d340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:03 +0000
Subject: [PATCH 10/50] fix: leave the implied volatilities of the caller
 unchanged

---
 src/skfolio/moments/covariance/_implied_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_implied_covariance.py b/src/skfolio/moments/covariance/_implied_covariance.py
index 787999d..7581259 100644
--- a/src/skfolio/moments/covariance/_implied_covariance.py
+++ b/src/skfolio/moments/covariance/_implied_covariance.py
@@ -275,7 +275,7 @@ class ImpliedCovariance(BaseCovariance):
         X = skv.validate_data(self, X)
         _, n_assets = X.shape
         implied_vol = check_implied_vol(implied_vol=implied_vol, X=X)
-        implied_vol /= np.sqrt(self.annualized_factor)
+        implied_vol = implied_vol / np.sqrt(self.annualized_factor)
 
         if self.volatility_risk_premium_adj is not None:
             if np.isscalar(self.volatility_risk_premium_adj):
-- 
2.43.0


From 1d3de0173292ba243ffdf6d58d3b52a1c0a4253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:03 +0000
Subject: [PATCH 11/50] fix: leave the risk budget of the caller unchanged

---
 src/skfolio/optimization/convex/_risk_budgeting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 80946e0..249477c 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -491,7 +491,7 @@ class RiskBudgeting(ConvexOptimization):
                 fill_value=1e-10,
                 name="risk_budget",
             )
-            risk_budget[risk_budget == 0] = 1e-10
+            risk_budget = np.where(risk_budget == 0, 1e-10, risk_budget)
 
         # Variables
         w = cp.Variable(n_assets)
-- 
2.43.0


From 33277cef84e4f0ef348413eda5c2c268aba3986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:03 +0000
Subject: [PATCH 12/50] fix: leave the view confidences of the caller unchanged

---
 src/skfolio/prior/_black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_black_litterman.py b/src/skfolio/prior/_black_litterman.py
index f7068df..21f2cc8 100644
--- a/src/skfolio/prior/_black_litterman.py
+++ b/src/skfolio/prior/_black_litterman.py
@@ -233,7 +233,7 @@ class BlackLitterman(BasePrior):
             )
         else:
             # Idzorek's method using Jay Walters closed form solution
-            view_confidences = np.asarray(self.view_confidences)
+            view_confidences = np.array(self.view_confidences, dtype=float)
             if np.any(view_confidences < 0) or np.any(view_confidences > 1):
                 raise ValueError(
                     "all values of view_confidences must be between 0 and 1"
-- 
2.43.0


From b3edebd14de36772e40bfc130cf03a3c8c821c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:03 +0000
Subject: [PATCH 13/50] fix: keep the fitted moments of the nested estimators

---
 src/skfolio/prior/_empirical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/prior/_empirical.py b/src/skfolio/prior/_empirical.py
index 871d20c..7a16239 100644
--- a/src/skfolio/prior/_empirical.py
+++ b/src/skfolio/prior/_empirical.py
@@ -183,8 +183,8 @@ class EmpiricalPrior(BasePrior):
 
             # Using the property of aggregation across time we scale this distribution
             # to the investment horizon by the “square-root rule”.
-            mu *= self.investment_horizon
-            covariance *= self.investment_horizon
+            mu = mu * self.investment_horizon
+            covariance = covariance * self.investment_horizon
 
             # We convert it into a distribution of linear returns over the investment
             # horizon
-- 
2.43.0


From 35102f4943a914941dc901810b8d2b014c936472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:03 +0000
Subject: [PATCH 14/50] fix: leave the cross-validation object of the caller
 unchanged

---
 src/skfolio/optimization/cluster/_nco.py       | 2 +-
 src/skfolio/optimization/ensemble/_stacking.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index 7ba3eb3..7fc3d82 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -326,7 +326,7 @@ class NestedClustersOptimization(BaseOptimization):
             cv_predictions = None
             test_indices = slice(None)
         else:
-            cv = sks.check_cv(self.cv)
+            cv = deepcopy(sks.check_cv(self.cv))
             if hasattr(cv, "random_state") and cv.random_state is None:
                 cv.random_state = np.random.RandomState()
             # noinspection PyCallingNonCallable
diff --git a/src/skfolio/optimization/ensemble/_stacking.py b/src/skfolio/optimization/ensemble/_stacking.py
index 5c957a9..3dbc6ae 100644
--- a/src/skfolio/optimization/ensemble/_stacking.py
+++ b/src/skfolio/optimization/ensemble/_stacking.py
@@ -309,7 +309,7 @@ class StackingOptimization(BaseOptimization, BaseComposition):
                 [estimator.predict(X) for estimator in self.estimators_]
             ).T
         else:
-            cv = sks.check_cv(self.cv)
+            cv = deepcopy(sks.check_cv(self.cv))
             if hasattr(cv, "random_state") and cv.random_state is None:
                 cv.random_state = np.random.RandomState()
             # noinspection PyCallingNonCallable
-- 
2.43.0


From c086588cbd223c97af1b96117043909a78e585b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:05 +0000
Subject: [PATCH 15/50] fix: keep the portfolio list of the caller out of the
 multi-period portfolio

---
 src/skfolio/portfolio/_multi_period_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index 0ebad1d..8c6adee 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -524,7 +524,7 @@ class MultiPeriodPortfolio(BasePortfolio):
                         )
                     prev_p = p
         self._loaded = False
-        self._portfolios = portfolios
+        self._portfolios = list(portfolios)
         self.returns = np.asarray(returns)
         self.observations = np.asarray(observations)
         self._loaded = True
-- 
2.43.0


From 7f4e90fc43f9d97734ceeff753295a3690cd18bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:05 +0000
Subject: [PATCH 16/50] fix: refuse an appended portfolio that repeats the last
 observation

---
 src/skfolio/portfolio/_multi_period_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index 8c6adee..ce02530 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -638,7 +638,7 @@ class MultiPeriodPortfolio(BasePortfolio):
         if self.check_observations_order and len(self) != 0:
             start_date = portfolio.observations[0]
             prev_last_date = self[-1].observations[-1]
-            if start_date < prev_last_date:
+            if start_date <= prev_last_date:
                 raise ValueError(
                     f"Portfolios observations should not overlap: {prev_last_date} ->"
                     f" {start_date} "
-- 
2.43.0


From 1ed1220c046037da36f476dff6f3c7e3ca671a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:14 +0000
Subject: [PATCH 17/50] fix: start every fit with an empty cache of convex
 models

---
 src/skfolio/optimization/convex/_distributionally_robust.py | 1 +
 src/skfolio/optimization/convex/_mean_risk.py               | 1 +
 src/skfolio/optimization/convex/_risk_budgeting.py          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/skfolio/optimization/convex/_distributionally_robust.py b/src/skfolio/optimization/convex/_distributionally_robust.py
index d173810..e7ea739 100644
--- a/src/skfolio/optimization/convex/_distributionally_robust.py
+++ b/src/skfolio/optimization/convex/_distributionally_robust.py
@@ -337,6 +337,7 @@ class DistributionallyRobustCVaR(ConvexOptimization):
 
         # Used to avoid adding multiple times similar constrains linked to identical
         # risk models
+        self._clear_models_cache()
         self.prior_estimator_ = check_estimator(
             self.prior_estimator,
             default=EmpiricalPrior(),
diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 5d39f2f..ce8afaa 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -772,6 +772,7 @@ class MeanRisk(ConvexOptimization):
         self._validation()
         # Used to avoid adding multiple times similar constrains linked to identical
         # risk models
+        self._clear_models_cache()
         self.prior_estimator_ = check_estimator(
             self.prior_estimator,
             default=EmpiricalPrior(),
diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 249477c..ec6d805 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -461,6 +461,7 @@ class RiskBudgeting(ConvexOptimization):
 
         # Used to avoid adding multiple times similar constrains linked to identical
         # risk models
+        self._clear_models_cache()
         self.prior_estimator_ = check_estimator(
             self.prior_estimator,
             default=EmpiricalPrior(),
-- 
2.43.0


From 17165e325b67b2256f27398aaf6c2399b7fbb92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:37 +0000
Subject: [PATCH 18/50] fix: declare the distribution estimator under its own
 name for metadata routing

---
 src/skfolio/prior/_synthetic_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_synthetic_data.py b/src/skfolio/prior/_synthetic_data.py
index 37d3b5d..7881004 100644
--- a/src/skfolio/prior/_synthetic_data.py
+++ b/src/skfolio/prior/_synthetic_data.py
@@ -136,7 +136,7 @@ class SyntheticData(BasePrior):
     def get_metadata_routing(self):
         # noinspection PyTypeChecker
         router = skm.MetadataRouter(owner=self.__class__.__name__).add(
-            distance_estimator=self.distribution_estimator,
+            distribution_estimator=self.distribution_estimator,
             method_mapping=skm.MethodMapping().add(caller="fit", callee="fit"),
         )
         return router
-- 
2.43.0


From d8906ed8c1be6ca623f4bf3469e4513ec2ee0ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:37 +0000
Subject: [PATCH 19/50] fix: route metadata to the loading matrix estimator

---
 src/skfolio/prior/_factor_model.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/skfolio/prior/_factor_model.py b/src/skfolio/prior/_factor_model.py
index 28154e7..b6050ba 100644
--- a/src/skfolio/prior/_factor_model.py
+++ b/src/skfolio/prior/_factor_model.py
@@ -220,9 +220,16 @@ class FactorModel(BasePrior):
 
     def get_metadata_routing(self):
         # noinspection PyTypeChecker
-        router = skm.MetadataRouter(owner=self.__class__.__name__).add(
-            factor_prior_estimator=self.factor_prior_estimator,
-            method_mapping=skm.MethodMapping().add(caller="fit", callee="fit"),
+        router = (
+            skm.MetadataRouter(owner=self.__class__.__name__)
+            .add(
+                factor_prior_estimator=self.factor_prior_estimator,
+                method_mapping=skm.MethodMapping().add(caller="fit", callee="fit"),
+            )
+            .add(
+                loading_matrix_estimator=self.loading_matrix_estimator,
+                method_mapping=skm.MethodMapping().add(caller="fit", callee="fit"),
+            )
         )
         return router
 
@@ -272,7 +279,9 @@ class FactorModel(BasePrior):
         factor_returns = self.factor_prior_estimator_.prior_model_.returns
 
         # Fitting loading matrix estimator
-        self.loading_matrix_estimator_.fit(X, y)
+        self.loading_matrix_estimator_.fit(
+            X, y, **routed_params.loading_matrix_estimator.fit
+        )
         loading_matrix = self.loading_matrix_estimator_.loading_matrix_
         intercepts = self.loading_matrix_estimator_.intercepts_
 
-- 
2.43.0


From 6de2a0afa3058adc1285cc4644ba40cf3fb40663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:39 +0000
Subject: [PATCH 20/50] fix: select the columns of the metadata together with
 those of the returns

---
 src/skfolio/model_selection/_validation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/model_selection/_validation.py b/src/skfolio/model_selection/_validation.py
index 9c99ad2..eabe4b6 100644
--- a/src/skfolio/model_selection/_validation.py
+++ b/src/skfolio/model_selection/_validation.py
@@ -21,7 +21,7 @@ import sklearn.utils.parallel as skp
 from skfolio.model_selection._combinatorial import BaseCombinatorialCV
 from skfolio.population import Population
 from skfolio.portfolio import MultiPeriodPortfolio
-from skfolio.utils.tools import fit_and_predict, safe_split
+from skfolio.utils.tools import fit_and_predict, safe_indexing, safe_split
 
 
 def _routing_enabled():
@@ -176,6 +176,15 @@ def cross_val_predict(
         routed_params.splitter = sku.Bunch(split={})
         routed_params.estimator = sku.Bunch(fit=params)
 
+    fit_params = {
+        name: (
+            safe_indexing(value, indices=column_indices, axis=1)
+            if np.ndim(value) > 1
+            else value
+        )
+        for name, value in routed_params.estimator.fit.items()
+    }
+
     cv = sks.check_cv(cv, y)
     splits = list(cv.split(X, y, **routed_params.splitter.split))
 
@@ -210,7 +219,7 @@ def cross_val_predict(
             y,
             train=train,
             test=test,
-            fit_params=routed_params.estimator.fit,
+            fit_params=fit_params,
             method=method,
         )
         for train, test in splits
-- 
2.43.0


From c7f416c1b88fc991813a8aacdc9f82d9ea979944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:45 +0000
Subject: [PATCH 21/50] fix: keep every setting of a multi-period portfolio in
 its arithmetic

---
 .../portfolio/_multi_period_portfolio.py      | 62 +++++--------------
 1 file changed, 17 insertions(+), 45 deletions(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index ce02530..53e7c11 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -16,7 +16,7 @@ import pandas as pd
 import skfolio.typing as skt
 from skfolio.portfolio._base import BasePortfolio
 from skfolio.portfolio._portfolio import Portfolio
-from skfolio.utils.tools import deduplicate_names
+from skfolio.utils.tools import args_names, deduplicate_names
 
 
 class MultiPeriodPortfolio(BasePortfolio):
@@ -396,39 +396,19 @@ class MultiPeriodPortfolio(BasePortfolio):
         return value in self._portfolios
 
     def __neg__(self):
-        return self.__class__(
-            portfolios=[-p for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._rebuild([-p for p in self])
 
     def __abs__(self):
-        return self.__class__(
-            portfolios=[abs(p) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._rebuild([abs(p) for p in self])
 
     def __round__(self, n: int):
-        return self.__class__(
-            portfolios=[p.__round__(n) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._rebuild([p.__round__(n) for p in self])
 
     def __floor__(self):
-        return self.__class__(
-            portfolios=[np.floor(p) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._rebuild([np.floor(p) for p in self])
 
     def __trunc__(self):
-        return self.__class__(
-            portfolios=[np.trunc(p) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._rebuild([np.trunc(p) for p in self])
 
     def __add__(self, other):
         if not isinstance(other, self.__class__):
@@ -438,11 +418,7 @@ class MultiPeriodPortfolio(BasePortfolio):
             )
         if len(self) != len(other):
             raise TypeError("Cannot add two MultiPeriodPortfolio of different sizes")
-        return self.__class__(
-            portfolios=[p1 + p2 for p1, p2 in zip(self, other, strict=True)],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._rebuild([p1 + p2 for p1, p2 in zip(self, other, strict=True)])
 
     def __sub__(self, other):
         if not isinstance(other, self.__class__):
@@ -454,20 +430,14 @@ class MultiPeriodPortfolio(BasePortfolio):
             raise TypeError(
                 "Cannot subtract two MultiPeriodPortfolio of different sizes"
             )
-        return self.__class__(
-            portfolios=[p1 - p2 for p1, p2 in zip(self, other, strict=True)],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._rebuild([p1 - p2 for p1, p2 in zip(self, other, strict=True)])
 
     def __mul__(self, other: numbers.Number | list[numbers.Number] | np.ndarray):
         if np.isscalar(other):
             portfolios = [p * other for p in self]
         else:
             portfolios = [p * a for p, a in zip(self, other, strict=True)]
-        return self.__class__(
-            portfolios=portfolios, tag=self.tag, fitness_measures=self.fitness_measures
-        )
+        return self._rebuild(portfolios)
 
     __rmul__ = __mul__
 
@@ -476,20 +446,22 @@ class MultiPeriodPortfolio(BasePortfolio):
             portfolios = [p // other for p in self]
         else:
             portfolios = [p // a for p, a in zip(self, other, strict=True)]
-        return self.__class__(
-            portfolios=portfolios, tag=self.tag, fitness_measures=self.fitness_measures
-        )
+        return self._rebuild(portfolios)
 
     def __truediv__(self, other: numbers.Number | list[numbers.Number] | np.ndarray):
         if np.isscalar(other):
             portfolios = [p / other for p in self]
         else:
             portfolios = [p / a for p, a in zip(self, other, strict=True)]
-        return self.__class__(
-            portfolios=portfolios, tag=self.tag, fitness_measures=self.fitness_measures
-        )
+        return self._rebuild(portfolios)
 
     # Private method
+    def _rebuild(self, portfolios: list[Portfolio]) -> "MultiPeriodPortfolio":
+        """Multi-period portfolio with the same settings and other portfolios."""
+        args = {arg: getattr(self, arg) for arg in args_names(self.__init__)}
+        args["portfolios"] = portfolios
+        return self.__class__(**args)
+
     def _set_portfolios(self, portfolios: list[Portfolio] | None = None) -> None:
         """Set the returns, observations and portfolios list.
 
-- 
2.43.0


From b16892100534ab04561250082e87cf25d71db14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:45 +0000
Subject: [PATCH 22/50] fix: refuse to append anything but a portfolio to a
 multi-period portfolio

---
 src/skfolio/portfolio/_multi_period_portfolio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index 53e7c11..14a2412 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -607,6 +607,11 @@ class MultiPeriodPortfolio(BasePortfolio):
         portfolio : Portfolio
             The Portfolio to append.
         """
+        if not isinstance(portfolio, BasePortfolio):
+            raise TypeError(
+                "`portfolio` must be of type `Portfolio`, got"
+                f" {type(portfolio).__name__}"
+            )
         if self.check_observations_order and len(self) != 0:
             start_date = portfolio.observations[0]
             prev_last_date = self[-1].observations[-1]
-- 
2.43.0


From 1eefebc3208c00305fd5cd015eccca922de09003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:45 +0000
Subject: [PATCH 23/50] fix: keep a multi-period portfolio unchanged when
 appending to its copy

---
 src/skfolio/portfolio/_multi_period_portfolio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index 14a2412..ce0b93b 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -621,7 +621,8 @@ class MultiPeriodPortfolio(BasePortfolio):
                     f" {start_date} "
                 )
         self._loaded = False
-        self._portfolios.append(portfolio)
+        # a new list, as copies share the current one
+        self._portfolios = [*self._portfolios, portfolio]
         if len(self.observations) == 0:
             # We don"t concatenate an empty array as we cannot know the dtype before.
             self.observations = portfolio.observations
-- 
2.43.0


From e3e4a8c799b7c72cfe4f8de3927d49e2a8166c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:46 +0000
Subject: [PATCH 24/50] fix: validate the items added to a population with the
 in-place operator

---
 src/skfolio/population/_population.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 683116e..7e6f055 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -62,6 +62,10 @@ class Population(list):
             )
         return self.__class__(super().__add__(other))
 
+    def __iadd__(self, other: BasePortfolio) -> "Population":
+        self.extend(other)
+        return self
+
     def insert(self, index, item: BasePortfolio) -> None:
         """Insert portfolio before index."""
         super().insert(index, self._validate_item(item))
-- 
2.43.0


From 07b2bdc19ff504b3884792b4ec9c8c508f50515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:46 +0000
Subject: [PATCH 25/50] fix: annualise the risk-free rate in the annualised
 ratios

---
 src/skfolio/portfolio/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_base.py b/src/skfolio/portfolio/_base.py
index 7ae67dd..0981686 100644
--- a/src/skfolio/portfolio/_base.py
+++ b/src/skfolio/portfolio/_base.py
@@ -775,10 +775,12 @@ class BasePortfolio:
             # ratio
             if measure.is_annualized:
                 mean = self.annualized_mean
+                risk_free_rate = self.risk_free_rate * self.annualized_factor
             else:
                 mean = self.mean
+                risk_free_rate = self.risk_free_rate
             risk = getattr(self, str(measure.linked_risk_measure.value))
-            value = (mean - self.risk_free_rate) / risk
+            value = (mean - risk_free_rate) / risk
         else:
             raise ValueError(f"{measure} is not a Measure.")
         return value
-- 
2.43.0


From 54827423d1b72501af30c42bf77c0cbda69d97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:56 +0000
Subject: [PATCH 26/50] fix: apply the purge before the test set in
 offset-based walk-forward splits

With a train size given as an offset, the purged observations were taken
from the end of the test set and none were left out between the training
set and the test set.
---
 src/skfolio/model_selection/_walk_forward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index a8993f1..9d35748 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -428,13 +428,13 @@ def _split_from_period_with_train_offset(
                 return
             test_indices = np.arange(idx[i], n_samples)
         else:
-            test_indices = np.arange(idx[i], idx[i + test_size] - purged_size)
+            test_indices = np.arange(idx[i], idx[i + test_size])
 
         if expend_train:
             train_start = 0
         else:
             train_start = train_idx[i]
-        train_indices = np.arange(train_start, idx[i])
+        train_indices = np.arange(train_start, idx[i] - purged_size)
         yield train_indices, test_indices
 
         i += test_size
-- 
2.43.0


From c4023b8c753811ecdb85c74d33dfa7da3541c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:56 +0000
Subject: [PATCH 27/50] fix: ignore walk-forward dates shifted outside of the
 index

With a frequency offset, dates after the end or before the start of the
index were given position -1, which produced empty or overlapping sets
and the invalid index -1.
---
 src/skfolio/model_selection/_walk_forward.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index 9d35748..22af6ab 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -364,6 +364,8 @@ def _split_from_period_without_train_offset(
         date_range += freq_offset
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
+    # Dates shifted outside of the index have no position (-1)
+    idx = idx[idx != -1]
     n = len(idx)
     i = 0
     while True:
@@ -411,6 +413,8 @@ def _split_from_period_with_train_offset(
         date_range += freq_offset
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
+    # Dates shifted outside of the index have no position (-1)
+    date_range, idx = date_range[idx != -1], idx[idx != -1]
     train_idx = ts_index.get_indexer(date_range - train_size, method="ffill")
 
     n = len(idx)
-- 
2.43.0


From 5ec2e599467b3314f943751abd825365e83a56c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:56 +0000
Subject: [PATCH 28/50] fix: count the splits of calendar-based walk-forward

The number of splits ignored the frequency, so it did not match the
splits produced and failed when the train size was an offset.
---
 src/skfolio/model_selection/_walk_forward.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index 22af6ab..86e650d 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -294,6 +294,8 @@ class WalkForward(sks.BaseCrossValidator):
         if X is None:
             raise ValueError("The 'X' parameter should not be None.")
         X, y = sku.indexable(X, y)
+        if self.freq is not None:
+            return sum(1 for _ in self.split(X, y))
         n_samples = X.shape[0]
         n = n_samples - self.train_size - self.purged_size
 
-- 
2.43.0


From 10273bfb26c11a381fb4041cbf94e2e7ce3ff276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:50 +0000
Subject: [PATCH 29/50] fix: give every observation a fold in combinatorial
 cross-validation

With few observations per fold, the observations left over could exceed
the size of a fold. Those beyond it were in no fold and never tested.
---
 src/skfolio/model_selection/_combinatorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/model_selection/_combinatorial.py b/src/skfolio/model_selection/_combinatorial.py
index 4c78c13..bb7b79d 100644
--- a/src/skfolio/model_selection/_combinatorial.py
+++ b/src/skfolio/model_selection/_combinatorial.py
@@ -279,7 +279,7 @@ class CombinatorialPurgedCV(BaseCombinatorialCV):
             )
 
         fold_index_num = np.arange(n_samples) // (n_samples // self.n_folds)
-        fold_index_num[fold_index_num == self.n_folds] = self.n_folds - 1
+        fold_index_num[fold_index_num >= self.n_folds] = self.n_folds - 1
 
         index_train_test = np.zeros((n_samples, self.n_splits))
         for i in range(self.n_splits):
-- 
2.43.0


From f94eec570ee7c05436c404617379c7cc8b19afbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:40 +0000
Subject: [PATCH 30/50] fix: select assets without selecting columns of the
 target data

Selecting columns of X used the same positions on the columns of y.
y holds factors or a benchmark, so these columns are not those of X.
---
 src/skfolio/utils/tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 2b3aadb..5887c3a 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -238,7 +238,7 @@ def safe_split(
         Data to be indexed.
 
     indices : ndarray of int, optional
-        Rows or columns to select from X and y.
+        Rows to select from X and y or columns to select from X.
         The default (`None`) is to select the entire data.
 
     axis : int, default=0
@@ -254,10 +254,11 @@ def safe_split(
         Indexed targets.
     """
     X_subset = safe_indexing(X, indices=indices, axis=axis)
-    if y is not None:
+    if y is not None and axis == 0:
         y_subset = safe_indexing(y, indices=indices, axis=axis)
     else:
-        y_subset = None
+        # The columns of y (factors or benchmark) are not the ones of X
+        y_subset = y
     return X_subset, y_subset
 
 
-- 
2.43.0


From 4380697d6b1685f60f88d565a0c0f599b61d0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:40 +0000
Subject: [PATCH 31/50] fix: accept several targets in
 NestedClustersOptimization

The factors given as y were rejected as soon as they had more than one
column.
---
 src/skfolio/optimization/cluster/_nco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index 7fc3d82..f6c3070 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -356,7 +356,7 @@ class NestedClustersOptimization(BaseOptimization):
         # We validate and convert to numpy array only after inner-estimator fitting to
         # keep the assets names in case they are used in the estimator.
         if y is not None:
-            X, y = skv.validate_data(self, X, y)
+            X, y = skv.validate_data(self, X, y, multi_output=True)
             y_pred = y[test_indices]
         else:
             X = skv.validate_data(self, X)
-- 
2.43.0


From dd4b32138e4f7daa59b8fb9722b19017b7388716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:24 +0000
Subject: [PATCH 32/50] fix: keep the stationary bootstrap from reseeding the
 global generator

---
 src/skfolio/utils/bootstrap.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/skfolio/utils/bootstrap.py b/src/skfolio/utils/bootstrap.py
index d8a6d75..1821867 100644
--- a/src/skfolio/utils/bootstrap.py
+++ b/src/skfolio/utils/bootstrap.py
@@ -96,7 +96,7 @@ def stationary_bootstrap(
            The sample returns of shape (reps, nb observations, nb assets)
 
     """
-    np.random.seed(seed=seed)
+    rng = np.random.RandomState(seed)
     n_observations, n_assets = returns.shape
     x = np.vstack((returns, returns))
     # Loop over reps bootstraps
@@ -105,10 +105,8 @@ def stationary_bootstrap(
             [optimal_block_size(returns[:, i]) for i in range(n_assets)]
         )
 
-    indices = np.random.randint(
-        n_observations, size=(n_bootstrap_samples, n_observations)
-    )
-    cond = np.random.rand(n_bootstrap_samples, n_observations) >= 1.0 / block_size
+    indices = rng.randint(n_observations, size=(n_bootstrap_samples, n_observations))
+    cond = rng.rand(n_bootstrap_samples, n_observations) >= 1.0 / block_size
     # TODO: don't use loop
     for i in range(n_bootstrap_samples):
         for j in range(1, n_observations):
-- 
2.43.0


From 1257d3cf86f564d21f1ae2072b5014fb34af5c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:24 +0000
Subject: [PATCH 33/50] fix: draw the noise of synthetic data from the seed of
 its distribution

---
 src/skfolio/prior/_synthetic_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_synthetic_data.py b/src/skfolio/prior/_synthetic_data.py
index 7881004..e716802 100644
--- a/src/skfolio/prior/_synthetic_data.py
+++ b/src/skfolio/prior/_synthetic_data.py
@@ -9,6 +9,7 @@ import inspect
 import numpy as np
 import numpy.typing as npt
 import sklearn.base as skb
+import sklearn.utils as sku
 import sklearn.utils.metadata_routing as skm
 import sklearn.utils.validation as skv
 
@@ -194,7 +195,10 @@ class SyntheticData(BasePrior):
         # constant. To avoid null variance, we add a small white noise.
         constant_returns = np.var(synthetic_data, axis=0) < 1e-14
         if np.any(constant_returns):
-            noise = 1e-6 * np.random.randn(len(synthetic_data), 1)
+            rng = sku.check_random_state(
+                getattr(self.distribution_estimator_, "random_state", None)
+            )
+            noise = 1e-6 * rng.randn(len(synthetic_data), 1)
             synthetic_data[:, constant_returns] += noise
 
         # Fit empirical posterior estimator
-- 
2.43.0


From 3220d770420c3b342379fdf838f601fbdf60f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:24 +0000
Subject: [PATCH 34/50] fix: repair the Black & Litterman posterior covariance

---
 src/skfolio/prior/_black_litterman.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/prior/_black_litterman.py b/src/skfolio/prior/_black_litterman.py
index 21f2cc8..f8ddcd8 100644
--- a/src/skfolio/prior/_black_litterman.py
+++ b/src/skfolio/prior/_black_litterman.py
@@ -16,6 +16,7 @@ from skfolio.moments import EquilibriumMu
 from skfolio.prior._base import BasePrior, PriorModel
 from skfolio.prior._empirical import EmpiricalPrior
 from skfolio.utils.equations import equations_to_matrix
+from skfolio.utils.stats import cov_nearest
 from skfolio.utils.tools import check_estimator, input_to_array
 
 
@@ -260,6 +261,7 @@ class BlackLitterman(BasePrior):
             + self.tau * prior_covariance
             - _v @ np.linalg.solve(_a, _v.T)
         )
+        posterior_covariance = cov_nearest(posterior_covariance)
         self.prior_model_ = PriorModel(
             mu=posterior_mu, covariance=posterior_covariance, returns=prior_returns
         )
-- 
2.43.0


From 7bb0202ad1e5ea9d84c75b92fa7a33f4f4bf48c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:24 +0000
Subject: [PATCH 35/50] fix: repair the log-normal covariance of the empirical
 prior

---
 src/skfolio/prior/_empirical.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/skfolio/prior/_empirical.py b/src/skfolio/prior/_empirical.py
index 7a16239..c098dc9 100644
--- a/src/skfolio/prior/_empirical.py
+++ b/src/skfolio/prior/_empirical.py
@@ -11,6 +11,7 @@ import sklearn.utils.validation as skv
 
 from skfolio.moments import BaseCovariance, BaseMu, EmpiricalCovariance, EmpiricalMu
 from skfolio.prior._base import BasePrior, PriorModel
+from skfolio.utils.stats import cov_nearest
 from skfolio.utils.tools import check_estimator
 
 
@@ -190,6 +191,12 @@ class EmpiricalPrior(BasePrior):
             # horizon
             mu = np.exp(mu + 0.5 * np.diag(covariance))
             covariance = np.outer(mu, mu) * (np.exp(covariance) - 1)
+            if self.covariance_estimator_.nearest:
+                covariance = cov_nearest(
+                    covariance,
+                    higham=self.covariance_estimator_.higham,
+                    higham_max_iteration=self.covariance_estimator_.higham_max_iteration,
+                )
 
         # we validate and convert to numpy after all models have been fitted to keep
         # features names information.
-- 
2.43.0


From 276d9183e7cab43a7fffcc71e5e441a56d1e0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:24 +0000
Subject: [PATCH 36/50] fix: match costs and fees to assets by name in
 hierarchical optimizers

---
 .../cluster/hierarchical/_base.py             | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index 6fbd4a8..1e71e21 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -299,12 +299,34 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             The risk measure of a theoretical portfolio defined by the weights
             vector.
         """
+        # The returns of the prior model have no assets names
+        n_assets = prior_model.returns.shape[1]
+        transaction_costs = self._clean_input(
+            self.transaction_costs,
+            n_assets=n_assets,
+            fill_value=0,
+            name="transaction_costs",
+        )
+        management_fees = self._clean_input(
+            self.management_fees,
+            n_assets=n_assets,
+            fill_value=0,
+            name="management_fees",
+        )
+        previous_weights = self.previous_weights
+        if previous_weights is not None:
+            previous_weights = self._clean_input(
+                previous_weights,
+                n_assets=n_assets,
+                fill_value=0,
+                name="previous_weights",
+            )
         ptf = Portfolio(
             X=prior_model.returns,
             weights=weights,
-            transaction_costs=self.transaction_costs,
-            management_fees=self.management_fees,
-            previous_weights=self.previous_weights,
+            transaction_costs=transaction_costs,
+            management_fees=management_fees,
+            previous_weights=previous_weights,
         )
         if self.risk_measure in [RiskMeasure.VARIANCE, RiskMeasure.STANDARD_DEVIATION]:
             risk = ptf.variance_from_assets(assets_covariance=prior_model.covariance)
-- 
2.43.0


From 8a786ab909db1d5a92e9ce5334cc57cba570867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:24 +0000
Subject: [PATCH 37/50] fix: reject predictions on assets other than the fitted
 ones

---
 src/skfolio/optimization/_base.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/skfolio/optimization/_base.py b/src/skfolio/optimization/_base.py
index 34fceb9..ac86ac0 100644
--- a/src/skfolio/optimization/_base.py
+++ b/src/skfolio/optimization/_base.py
@@ -13,6 +13,7 @@ from sklearn.utils.validation import check_is_fitted
 from skfolio.measures import RatioMeasure
 from skfolio.population import Population
 from skfolio.portfolio import Portfolio
+from skfolio.utils.tools import get_feature_names
 
 # Copyright (c) 2023
 # Author: Hugo Delatte <delatte.hugo@gmail.com>
@@ -78,6 +79,18 @@ class BaseOptimization(skb.BaseEstimator, ABC):
         """
         check_is_fitted(self, "weights_")
 
+        # The weights are only valid for the assets of the fit, in the same order
+        assets_names = get_feature_names(X)
+        if (
+            assets_names is not None
+            and hasattr(self, "feature_names_in_")
+            and not np.array_equal(assets_names, self.feature_names_in_)
+        ):
+            raise ValueError(
+                "The assets names of `X` should match those that were passed during"
+                " fit, in the same order"
+            )
+
         if self.portfolio_params is None:
             ptf_kwargs = {}
         else:
-- 
2.43.0


From bce4150394e415ae04f916f063221ee140e61ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:24 +0000
Subject: [PATCH 38/50] fix: accept a single number as previous weights of a
 portfolio

---
 src/skfolio/portfolio/_portfolio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/portfolio/_portfolio.py b/src/skfolio/portfolio/_portfolio.py
index 1530a45..5825140 100644
--- a/src/skfolio/portfolio/_portfolio.py
+++ b/src/skfolio/portfolio/_portfolio.py
@@ -477,6 +477,8 @@ class Portfolio(BasePortfolio):
 
         if previous_weights is None:
             previous_weights = np.zeros(n_assets)
+        elif np.isscalar(previous_weights):
+            previous_weights = previous_weights * np.ones(n_assets)
         else:
             previous_weights = input_to_array(
                 items=previous_weights,
-- 
2.43.0


From 2619077fb8f716b08d0ceb20c4b653489fc00ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:03 +0000
Subject: [PATCH 39/50] fix: record the names of the fitted assets in
 InverseVolatility and prefit stacking

---
 src/skfolio/optimization/ensemble/_stacking.py | 2 ++
 src/skfolio/optimization/naive/_naive.py       | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/skfolio/optimization/ensemble/_stacking.py b/src/skfolio/optimization/ensemble/_stacking.py
index 3dbc6ae..6d19d08 100644
--- a/src/skfolio/optimization/ensemble/_stacking.py
+++ b/src/skfolio/optimization/ensemble/_stacking.py
@@ -305,6 +305,8 @@ class StackingOptimization(BaseOptimization, BaseComposition):
         # we need to set the random state of the cv if there is one and we
         # need to take a copy.
         if self.cv in ["prefit", "ignore"]:
+            # `X` is unchanged and only `feature_names_in_` is performed
+            _ = skv.validate_data(self, X, skip_check_array=True)
             X_pred = np.array(
                 [estimator.predict(X) for estimator in self.estimators_]
             ).T
diff --git a/src/skfolio/optimization/naive/_naive.py b/src/skfolio/optimization/naive/_naive.py
index 8f6253d..5d52311 100644
--- a/src/skfolio/optimization/naive/_naive.py
+++ b/src/skfolio/optimization/naive/_naive.py
@@ -91,6 +91,9 @@ class InverseVolatility(BaseOptimization):
         """
         routed_params = skm.process_routing(self, "fit", **fit_params)
 
+        # `X` is unchanged and only `feature_names_in_` is performed
+        _ = skv.validate_data(self, X, skip_check_array=True)
+
         # fitting prior estimator
         self.prior_estimator_ = check_estimator(
             self.prior_estimator,
-- 
2.43.0


From edbfeb34d929cf95d9da876818308dd6ddfed630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:42 +0000
Subject: [PATCH 40/50] fix: reject textual constraints with several
 comparisons

---
 src/skfolio/utils/equations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index aa0122e..f4eee4b 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -421,6 +421,10 @@ def _string_to_equation(
             break
         sign = 1
         if e in _COMPARISON_OPERATORS:
+            if comparison_sign is not None:
+                raise EquationToMatrixError(
+                    f"{err_msg}: only one comparison operator is allowed"
+                )
             if e in _INEQUALITY_OPERATORS:
                 is_inequality = True
             else:
-- 
2.43.0


From bbc8ae5ccb8c0f258a3048c67ce7c01215eedf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:42 +0000
Subject: [PATCH 41/50] fix: reject a product of two groups instead of dropping
 the constraint

---
 src/skfolio/utils/equations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index f4eee4b..2c97fa1 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -457,6 +457,10 @@ def _string_to_equation(
             elif e in _MUL_OPERATORS:
                 # next can only a number
                 e = next(iterator, None)
+                if e is None or e in _OPERATORS or is_group(e):
+                    raise EquationToMatrixError(
+                        f"{err_msg}: the character '{e}' is wrongly positioned"
+                    )
                 try:
                     number = float(e)
                 except ValueError:
-- 
2.43.0


From ea7cb0ea9c99c9b3077dcb6b0496a52b57c1c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:42 +0000
Subject: [PATCH 42/50] fix: stop selecting assets once the minimum number is
 reached

---
 src/skfolio/pre_selection/_select_non_dominated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/pre_selection/_select_non_dominated.py b/src/skfolio/pre_selection/_select_non_dominated.py
index 59b8ec8..1c8f772 100644
--- a/src/skfolio/pre_selection/_select_non_dominated.py
+++ b/src/skfolio/pre_selection/_select_non_dominated.py
@@ -147,7 +147,7 @@ class SelectNonDominated(skf.SelectorMixin, skb.BaseEstimator):
         while i < len(fronts):
             if (
                 self.min_n_assets is not None
-                and len(new_assets_idx) > self.min_n_assets
+                and len(new_assets_idx) >= self.min_n_assets
             ):
                 break
             for idx in fronts[i]:
-- 
2.43.0


From 56d39f1f938eb9598aac59bbd8adf7d146712bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:40 +0000
Subject: [PATCH 43/50] fix: sample the second variable of a vine edge with its
 own inverse h-function

---
 .../distribution/multivariate/_vine_copula.py    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index a2ef554..649997e 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -1201,26 +1201,26 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
             if is_left:
                 x = np.stack([node.u, edge.node2.pseudo_values]).T
                 edge.node1.pseudo_values = _inverse_partial_derivative(
-                    edge, x, is_count
+                    edge, x, is_count, first_margin=False
                 )
             else:
-                x = np.stack([node.v, edge.node1.pseudo_values]).T
+                x = np.stack([edge.node1.pseudo_values, node.v]).T
                 edge.node2.pseudo_values = _inverse_partial_derivative(
-                    edge, x, is_count
+                    edge, x, is_count, first_margin=True
                 )
         else:
             is_left1, is_left2 = edge.node1.ref.shared_node_is_left(edge.node2.ref)
             if is_left:
                 x = np.stack([node.u, edge.node2.v if is_left2 else edge.node2.u]).T
-                u = _inverse_partial_derivative(edge, x, is_count)
+                u = _inverse_partial_derivative(edge, x, is_count, first_margin=False)
                 if is_left1:
                     edge.node1.v = u
                 else:
                     edge.node1.u = u
                 queue.appendleft((edge.node1, not is_left1))
             else:
-                x = np.stack([node.v, edge.node1.v if is_left1 else edge.node1.u]).T
-                u = _inverse_partial_derivative(edge, x, is_count)
+                x = np.stack([edge.node1.v if is_left1 else edge.node1.u, node.v]).T
+                u = _inverse_partial_derivative(edge, x, is_count, first_margin=True)
                 if is_left2:
                     edge.node2.v = u
                 else:
@@ -1229,12 +1229,12 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
 
 
 def _inverse_partial_derivative(
-    edge: Edge, X: np.ndarray, is_count: bool
+    edge: Edge, X: np.ndarray, is_count: bool, first_margin: bool
 ) -> np.ndarray:
     """Inverse partial derivative of an Edge copula."""
     if is_count:
         return np.array([np.nan])
-    return edge.copula.inverse_partial_derivative(X)
+    return edge.copula.inverse_partial_derivative(X, first_margin=first_margin)
 
 
 def _kde_trace(
-- 
2.43.0


From ea5b0228847eca2fb7bb7ab15820428ed3544a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:40 +0000
Subject: [PATCH 44/50] fix: accept open conditioning bounds when vine
 marginals are not fitted

---
 src/skfolio/distribution/multivariate/_vine_copula.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index 649997e..93114de 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -802,7 +802,8 @@ class VineCopula(BaseMultivariateDist):
                     u_min = 0.0 if np.isneginf(min_value) else dist.cdf(min_value)
                     u_max = 1.0 if np.isposinf(max_value) else dist.cdf(max_value)
                 else:
-                    u_min, u_max = min_value, max_value
+                    # Without fitted marginals, X is already on the uniform scale
+                    u_min, u_max = max(min_value, 0.0), min(max_value, 1.0)
 
                 # Sample uniformly in the transformed interval.
                 samples = rng.uniform(low=u_min, high=u_max, size=n_samples)
-- 
2.43.0


From 2a553642181f165ca68450063e837c0f8532d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:50 +0000
Subject: [PATCH 45/50] fix: read a downloaded dataset from a relative
 data_home

---
 src/skfolio/datasets/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/datasets/_base.py b/src/skfolio/datasets/_base.py
index e39b591..031e5e8 100644
--- a/src/skfolio/datasets/_base.py
+++ b/src/skfolio/datasets/_base.py
@@ -157,7 +157,8 @@ def download_dataset(
     if not download_if_missing:
         raise OSError("Data not found and `download_if_missing` is False")
 
-    archive_path = os.path.join(data_home, os.path.basename(url))
+    # An absolute path is needed to read a file outside of the data module.
+    archive_path = os.path.abspath(os.path.join(data_home, os.path.basename(url)))
     ur.urlretrieve(url, archive_path)
     df = load_gzip_compressed_csv_data(archive_path)
     joblib.dump(df, filepath, compress=6)
-- 
2.43.0


From 6ff15ba5903ff80126260d4884ed8768b85d926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:50 +0000
Subject: [PATCH 46/50] fix: never leave a truncated dataset in the cache

---
 src/skfolio/datasets/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/datasets/_base.py b/src/skfolio/datasets/_base.py
index 031e5e8..f06f9a1 100644
--- a/src/skfolio/datasets/_base.py
+++ b/src/skfolio/datasets/_base.py
@@ -161,7 +161,11 @@ def download_dataset(
     archive_path = os.path.abspath(os.path.join(data_home, os.path.basename(url)))
     ur.urlretrieve(url, archive_path)
     df = load_gzip_compressed_csv_data(archive_path)
-    joblib.dump(df, filepath, compress=6)
+    # Write to a temporary file first, so that an interrupted call never leaves a
+    # truncated dataset in the cache.
+    temp_path = f"{filepath}.{os.getpid()}.tmp"
+    joblib.dump(df, temp_path, compress=6)
+    os.replace(temp_path, filepath)
     os.remove(archive_path)
     return df
 
-- 
2.43.0


From 7a546b2697d92e857bb5fbd7b4287c79c40d04a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:50 +0000
Subject: [PATCH 47/50] fix: count only missing asset prices against
 nan_threshold

---
 src/skfolio/preprocessing/_returns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/preprocessing/_returns.py b/src/skfolio/preprocessing/_returns.py
index 130bc4d..d00caec 100644
--- a/src/skfolio/preprocessing/_returns.py
+++ b/src/skfolio/preprocessing/_returns.py
@@ -105,7 +105,7 @@ def prices_to_returns(
         nan_threshold = float(nan_threshold)
         if not 0 < nan_threshold <= 1:
             raise ValueError("`nan_threshold` must be between 0 and 1")
-        count_nan = df.isna().sum(axis=1)
+        count_nan = df[X.columns].isna().sum(axis=1)
         to_drop = count_nan[count_nan > n_assets * nan_threshold].index
         if len(to_drop) > 0:
             df.drop(to_drop, axis=0, inplace=True)
-- 
2.43.0


From ad9f28c77d1a3598ad0edd98f8c7772df05bbc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:41:53 +0000
Subject: [PATCH 48/50] fix: reject min_weights that add up to more than one in
 hierarchical optimization

---
 src/skfolio/optimization/cluster/hierarchical/_base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index 1e71e21..2b2610d 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -382,6 +382,11 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             )
             if np.any(min_weights < 0):
                 raise ValueError("`min_weights` must be strictly positive")
+            sum_min_weights = np.sum(min_weights)
+            if sum_min_weights > 1 and not np.isclose(sum_min_weights, 1):
+                raise ValueError(
+                    "The sum of `min_weights` must be less than or equal to 1.0"
+                )
 
         if self.max_weights is None:
             max_weights = np.ones(n_assets)
-- 
2.43.0


From 99d4babc42405b6d1a64c850ba96a8b09e7b997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:41:53 +0000
Subject: [PATCH 49/50] fix: no undefined weights in hierarchical risk parity
 when max_weights excludes a cluster

---
 src/skfolio/optimization/cluster/hierarchical/_hrp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_hrp.py b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
index fded2bb..cd7f183 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_hrp.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
@@ -424,6 +424,10 @@ def _apply_weight_constraints_to_split_factor(
     value : float
         The transformed split factor alpha incorporating the weight constraints.
     """
+    # A cluster without weight (`max_weights` of zero) has nothing to split.
+    if weights[left_cluster[0]] == 0:
+        return alpha
+
     alpha = min(
         np.sum(max_weights[left_cluster]) / weights[left_cluster[0]],
         max(np.sum(min_weights[left_cluster]) / weights[left_cluster[0]], alpha),
-- 
2.43.0


From c218efd585e2b756d2e1a3a9e60aad38e12eb155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:24 +0000
Subject: [PATCH 50/50] fix: replace a stacked estimator by name in set_params
 without a RuntimeError

---
 src/skfolio/optimization/ensemble/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/ensemble/_base.py b/src/skfolio/optimization/ensemble/_base.py
index 544c455..aef3609 100644
--- a/src/skfolio/optimization/ensemble/_base.py
+++ b/src/skfolio/optimization/ensemble/_base.py
@@ -57,7 +57,7 @@ class BaseComposition(skb.BaseEstimator, ABC):
             # elements of length 2
             with suppress(TypeError):
                 item_names, _ = zip(*items, strict=True)
-                for name in params:
+                for name in list(params):
                     if "__" not in name and name in item_names:
                         self._replace_estimator(attr, name, params.pop(name))
 
-- 
2.43.0

