From a6863061c0199b7c47b4049a4dd8e130f1090852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 01/26] fix: do not normalise the caller's market_weights in
 place in BlackLittermanProcessor

---
 pyvallocation/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 549c53f..7480d51 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1346,7 +1346,7 @@ class BlackLittermanProcessor:
             weights = np.asarray(market_weights, dtype=float).ravel()
             if weights.size != n_assets:
                 raise ValueError("market_weights length mismatch.")
-            weights /= weights.sum()
+            weights = weights / weights.sum()
             self._pi = risk_aversion * self._sigma @ weights.reshape(-1, 1)
             src = "\\delta \\Sigma w"
         elif prior_mean is not None:
-- 
2.43.0


From 3953d6ebdacd2cc6cbf608f30c1a868eb99b7e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 02/26] fix: copy view dictionaries so rank_mean no longer
 inserts into the caller's mean_views

---
 pyvallocation/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 7480d51..f34888c 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -585,7 +585,7 @@ class FlexibleViewsProcessor:
             if vec_like is None:
                 return {}
             if isinstance(vec_like, dict):
-                return vec_like
+                return dict(vec_like)
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != len(self.assets):
                 raise ValueError(f"`{name}` must have length {len(self.assets)} matching the number of assets.")
-- 
2.43.0


From a55e66d1bc72935bba24e647ac2988ce900006aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 03/26] fix: keep the min_risk selector's risk_label across
 repeated calls

---
 pyvallocation/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 625ca2b..4bf7362 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -981,6 +981,7 @@ def _build_selector(
         return _tangency
 
     if key in {"min_risk", "minimum_risk"}:
+        risk_label = selector_kwargs.pop("risk_label", None)
 
         def _min(frontier: "PortfolioFrontier") -> pd.Series:
             """Select the minimum-risk portfolio.
@@ -991,7 +992,6 @@ def _build_selector(
             Returns:
                 pd.Series: Minimum-risk portfolio weights.
             """
-            risk_label = selector_kwargs.pop("risk_label", None)
             weights, *_ = frontier.min_risk(risk_label=risk_label)
             return weights.rename(label)
 
-- 
2.43.0


From 8ec200db17c7a2b5916c14787c71f34e2ea75372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 04/26] fix: max_sharpe enforces non-homogeneous bounds and
 equality constraints

---
 pyvallocation/optimization.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 77e65fe..94fafb5 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -449,7 +449,8 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
 
            \min_{y}\; y^\top \Sigma\, y
            \quad\text{s.t.}\quad
-           (\mu - r_f)^\top y = 1,\; G\,y \le 0,\; A\,y = 0
+           (\mu - r_f)^\top y = 1,\; (G - h\mathbf{1}^\top)\,y \le 0,\;
+           (A - b\mathbf{1}^\top)\,y = 0
 
         The optimal weights are ``w = y / \mathbf{1}^\top y``.
 
@@ -470,33 +471,26 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         A_rows = [mu_excess.reshape(1, -1)]
         b_vals = [1.0]
         if self._A is not None:
-            # User equalities become homogeneous: A y = 0 (since we normalize later).
-            # Non-homogeneous constraints (b != 0) cannot be enforced in this
-            # reformulation (Cornuejols-Tutuncu) and are skipped with a warning.
+            # With w = y / 1'y, A w = b is equivalent to (A - b 1') y = 0.
             A_np = np.asarray(self._A)
             b_np = np.asarray(self._b).ravel()
-            for row_idx in range(A_np.shape[0]):
-                if not np.isclose(b_np[row_idx], 0.0, atol=1e-12):
-                    _LOGGER.warning(
-                        "max_sharpe: equality b[%d]=%.4g is non-homogeneous; "
-                        "skipping (cannot be enforced in Cornuejols-Tutuncu "
-                        "reformulation).",
-                        row_idx, b_np[row_idx],
-                    )
-                    continue
-                A_rows.append(A_np[row_idx:row_idx+1])
+            for row in A_np - b_np[:, None]:
+                if np.allclose(row, 0.0, atol=1e-12):
+                    continue  # budget row 1'w = 1, implied by the normalisation
+                A_rows.append(row.reshape(1, -1))
                 b_vals.append(0.0)
 
         A_mat = matrix(np.vstack(A_rows))
         b_vec = matrix(np.array(b_vals, dtype=float))
 
-        # Inequalities: G y <= 0 (homogeneous version of G w <= h)
+        # Inequalities: 1'y >= 0 and, as above, G w <= h  <=>  (G - h 1') y <= 0
+        G_rows = [-np.ones((1, N))]
         if self._G is not None:
-            G_mat = matrix(np.asarray(self._G, dtype=float))
-            h_vec = matrix(np.zeros(np.asarray(self._G).shape[0]))
-        else:
-            G_mat = None
-            h_vec = None
+            h_np = np.asarray(self._h, dtype=float).ravel()
+            G_rows.append(np.asarray(self._G, dtype=float) - h_np[:, None])
+        G_np = np.vstack(G_rows)
+        G_mat = matrix(G_np)
+        h_vec = matrix(np.zeros(G_np.shape[0]))
 
         sol = solvers.qp(P, q, G_mat, h_vec, A_mat, b_vec)
         if sol["status"] != "optimal":
-- 
2.43.0


From fdac5a3e0eb9c691511829c26091ac477e3f8dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 05/26] fix: build the inequality right-hand side as floats so
 integer bounds reach the solvers

---
 pyvallocation/utils/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/constraints.py b/pyvallocation/utils/constraints.py
index c5bc199..0084e05 100644
--- a/pyvallocation/utils/constraints.py
+++ b/pyvallocation/utils/constraints.py
@@ -361,7 +361,7 @@ def build_G_h_A_b(
 
     G = _stack(G_rows)
     h = (
-        np.asarray(h_vals)
+        np.asarray(h_vals, float)
         if h_vals
         else (None if return_none_if_empty else np.zeros(0))
     )
-- 
2.43.0


From f067710f8b088eb7277ea9b8399533820fdfaa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 06/26] fix: include the implicit budget row when bounding the
 relaxed risk parity return target

---
 pyvallocation/optimization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 94fafb5..eaad256 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1280,11 +1280,15 @@ class RelaxedRiskParity(_BaseOptimization):
         h_lp_vals.append(np.zeros(n, dtype=float))
         G_lp = np.vstack(G_lp_rows)
         h_lp = np.hstack(h_lp_vals)
+        ones = np.ones(n, dtype=float)
         if A_user is None:
-            A_lp = np.ones((1, n), dtype=float)
+            A_lp = ones[None, :]
             b_lp = np.array([1.0], dtype=float)
-        else:
+        elif any(np.allclose(row, ones, atol=1e-8, rtol=1e-8) for row in A_user):
             A_lp, b_lp = A_user, b_user
+        else:  # same implicit budget row as in ``solve``
+            A_lp = np.vstack((ones, A_user))
+            b_lp = np.hstack((1.0, b_user))
 
         sol_lp = solvers.lp(
             matrix(-self._mean),
-- 
2.43.0


From c01979ebeb7d50d560342fe7fdc5a4d808840b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 07/26] fix: drawdown_quantile matches labelled weights to the
 invariant columns

---
 pyvallocation/utils/performance.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index e5d1fab..26bf3a8 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -294,6 +294,11 @@ def drawdown_quantile(
     if reprice is None:
         reprice = _reprice_exp
 
+    if isinstance(weights, (pd.Series, pd.DataFrame)) and isinstance(invariants, pd.DataFrame):
+        if list(weights.index) != list(invariants.columns):
+            weights = weights.reindex(invariants.columns)
+            if np.asarray(weights.isna()).any():
+                raise ValueError("Weight labels do not match invariant column names.")
     w = np.asarray(weights, dtype=float).ravel()
     paths = simulate_paths(
         invariants, horizon=horizon, n_paths=n_paths,
-- 
2.43.0


From d7992b7071295a8d82b9536f7890e2a9ff2b459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 08/26] fix: scenario_pnl rejects weights whose labels do not
 match the scenarios

---
 pyvallocation/utils/performance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 26bf3a8..d0da6d3 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -66,10 +66,14 @@ def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
     if isinstance(weights, pd.Series):
         if columns is not None and list(weights.index) != columns:
             weights = weights.reindex(columns)
+            if weights.isna().any():
+                raise ValueError("Weight labels do not match scenario asset names.")
         w = weights.to_numpy(dtype=float).reshape(-1, 1)
     elif isinstance(weights, pd.DataFrame):
         if columns is not None and list(weights.index) != columns:
             weights = weights.reindex(columns)
+            if weights.isna().any().any():
+                raise ValueError("Weight labels do not match scenario asset names.")
         w = weights.to_numpy(dtype=float)
     else:
         arr_w = np.asarray(weights, dtype=float)
-- 
2.43.0


From 9c95e63392f3587cff71bad718897d1b27c6afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 09/26] fix: stress_invariants matches labelled weights to the
 repriced columns in the stressed branch

---
 pyvallocation/stress.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index a073219..418a552 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -528,7 +528,8 @@ def stress_invariants(
             ens = compute_effective_number_scenarios(p)
             return mean_r, stdev_r, var_r, cvar_r, ens
 
-        w_arr = np.asarray(weights, float).ravel() if not isinstance(weights, pd.Series) else weights.values
+        W, _, _ = _align_weights(weights, list(pnl_df.columns) if isinstance(pnl_df, pd.DataFrame) else None)
+        w_arr = W.ravel()
         m_n = _metrics(pnl_nom, nom_probs, w_arr)
         m_s = _metrics(pnl_stressed, stressed_probs, w_arr)
         ci = int(round(confidence * 100))
-- 
2.43.0


From 457728bed1fb10a6d9fe8bc8a332f90a1623dede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 10/26] fix: BlackLittermanProcessor matches labelled priors to
 the assets of prior_cov

---
 pyvallocation/views.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index f34888c..0486ed2 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1339,6 +1339,20 @@ class BlackLittermanProcessor:
             raise ValueError("risk_aversion must be positive.")
         self._tau: float = float(tau)
 
+        def _match_assets(values, name):
+            """Put a labelled vector into the asset order of ``prior_cov``."""
+            if not (self._is_pandas and isinstance(values, pd.Series)):
+                return values
+            if list(values.index) == self._assets:
+                return values
+            if set(values.index) != set(self._assets):
+                raise ValueError(f"`{name}` labels do not match `prior_cov`.")
+            return values.reindex(self._assets)
+
+        pi = _match_assets(pi, "pi")
+        market_weights = _match_assets(market_weights, "market_weights")
+        prior_mean = _match_assets(prior_mean, "prior_mean")
+
         if pi is not None:
             self._pi = np.asarray(pi, dtype=float).reshape(-1, 1)
             src = "user \\pi"
-- 
2.43.0


From 3b8f3ea4415154c614bd5798e143f989a3f23486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 11/26] fix: FlexibleViewsProcessor matches a labelled
 prior_cov to the assets of prior_mean

---
 pyvallocation/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 0486ed2..0abb04b 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -528,6 +528,10 @@ class FlexibleViewsProcessor:
                 self._use_pandas = False
 
             if isinstance(prior_cov, pd.DataFrame):
+                if self._use_pandas and list(prior_cov.index) != self.assets:
+                    if set(prior_cov.index) != set(self.assets):
+                        raise ValueError("`prior_cov` labels do not match `prior_mean`.")
+                    prior_cov = prior_cov.loc[self.assets, self.assets]
                 cov = prior_cov.values.astype(float)
                 if not self._use_pandas:
                     self.assets = list(prior_cov.index)
-- 
2.43.0


From eaaffcafa538332eb428d4a0dc2cce4400a6ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:43 +0000
Subject: [PATCH 12/26] fix: NIWPosterior.update matches labelled sample
 moments to the prior's assets

---
 pyvallocation/bayesian.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 392d28e..2c2464a 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -350,6 +350,20 @@ class NIWPosterior:
                 "Posterior already computed. Create a new NIWPosterior for a fresh update."
             )
 
+        # Match labelled samples to the prior's assets
+        if self._asset_index is not None:
+            names = list(self._asset_index)
+            if isinstance(sample_mu, pd.Series) and list(sample_mu.index) != names:
+                if set(sample_mu.index) != set(names):
+                    raise ValueError("Index of sample_mu must match index of prior_mu.")
+                sample_mu = sample_mu.reindex(names)
+            if isinstance(sample_sigma, pd.DataFrame) and (
+                list(sample_sigma.index) != names or list(sample_sigma.columns) != names
+            ):
+                if set(sample_sigma.index) != set(names) or set(sample_sigma.columns) != set(names):
+                    raise ValueError("Index/columns of sample_sigma must match index of prior_mu.")
+                sample_sigma = sample_sigma.loc[names, names]
+
         # Convert pandas inputs if present
         if isinstance(sample_mu, pd.Series):
             smu = sample_mu.values.astype(float)
-- 
2.43.0


From 98038a231cb0d6b944cfd3749358287c8de350f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 13/26] fix: transaction cost inputs are matched to the asset
 names on both routes

---
 pyvallocation/portfolioapi.py | 41 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 40eb604..cb839eb 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1111,32 +1111,31 @@ class PortfolioWrapper:
             bounds=bounds,
         )
 
+    def _cost_vector(self, values, name: str) -> np.ndarray:
+        """Return one cost input as a vector in asset order, matching labels when both sides have them."""
+        names = self.dist.asset_names
+        if isinstance(values, pd.Series) and names is not None and list(values.index) != list(names):
+            if set(values.index) != set(names):
+                raise ValueError(f"`{name}` labels do not match the asset names.")
+            values = values.reindex(names)
+        vector = np.asarray(values, dtype=float).ravel()
+        if vector.shape != (self.dist.N,):
+            raise ValueError(
+                f"`{name}` must have shape ({self.dist.N},), got {vector.shape}"
+            )
+        return vector
+
     def _apply_transaction_costs(self, costs: TransactionCosts) -> None:
         """Set transaction cost attributes from a :class:`TransactionCosts` instance.
 
         Args:
             costs: Transaction cost specification.
         """
-        iw = np.asarray(costs.initial_weights, dtype=float).ravel()
-        if iw.shape != (self.dist.N,):
-            raise ValueError(
-                f"`initial_weights` must have shape ({self.dist.N},), got {iw.shape}"
-            )
-        self.initial_weights = iw
+        self.initial_weights = self._cost_vector(costs.initial_weights, "initial_weights")
         if costs.market_impact_costs is not None:
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel()
-            if mic.shape != (self.dist.N,):
-                raise ValueError(
-                    f"`market_impact_costs` must have shape ({self.dist.N},), got {mic.shape}"
-                )
-            self.market_impact_costs = mic
+            self.market_impact_costs = self._cost_vector(costs.market_impact_costs, "market_impact_costs")
         if costs.proportional_costs is not None:
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel()
-            if pc.shape != (self.dist.N,):
-                raise ValueError(
-                    f"`proportional_costs` must have shape ({self.dist.N},), got {pc.shape}"
-                )
-            self.proportional_costs = pc
+            self.proportional_costs = self._cost_vector(costs.proportional_costs, "proportional_costs")
 
     def _resolve_constraints(
         self,
@@ -1165,9 +1164,9 @@ class PortfolioWrapper:
                 G, h, A, b = self.G, self.h, self.A, self.b
 
         if costs is not None:
-            iw = np.asarray(costs.initial_weights, dtype=float).ravel()
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel() if costs.market_impact_costs is not None else None
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel() if costs.proportional_costs is not None else None
+            iw = self._cost_vector(costs.initial_weights, "initial_weights")
+            mic = self._cost_vector(costs.market_impact_costs, "market_impact_costs") if costs.market_impact_costs is not None else None
+            pc = self._cost_vector(costs.proportional_costs, "proportional_costs") if costs.proportional_costs is not None else None
         else:
             iw = self.initial_weights
             mic = self.market_impact_costs
-- 
2.43.0


From ca71e0e96f30ee77d9a0f4052ca8a5d1abeb6523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 14/26] fix: log2simple and simple2log match a labelled
 covariance to the labels of the mean

---
 pyvallocation/utils/projection.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 41ed005..4a39a89 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -107,6 +107,28 @@ def _wrap_matrix(x_np, template):
     )
 
 
+def _match_labels(mu, cov):
+    """Return ``cov`` with its rows and columns in the label order of ``mu``.
+
+    Args:
+        mu: Mean vector.
+        cov: Covariance matrix.
+
+    Returns:
+        ArrayLike: ``cov`` unchanged unless both inputs are labelled in different orders.
+
+    Raises:
+        ValueError: If the two inputs carry different labels.
+    """
+    if isinstance(mu, pd.Series) and isinstance(cov, pd.DataFrame):
+        names = list(mu.index)
+        if list(cov.index) != names or list(cov.columns) != names:
+            if set(cov.index) != set(names) or set(cov.columns) != set(names):
+                raise ValueError("Mean and covariance labels do not match.")
+            return cov.loc[names, names]
+    return cov
+
+
 def log2simple(mu_g, cov_g):
     r"""\mu,\Sigma of log-returns -> \mu,\Sigma of simple returns (vectorised, pandas-aware).
 
@@ -117,6 +139,7 @@ def log2simple(mu_g, cov_g):
     Returns:
         Tuple[ArrayLike, ArrayLike]: Mean and covariance in simple-return units.
     """
+    cov_g = _match_labels(mu_g, cov_g)
     mu_g_np = _to_numpy(mu_g)
     cov_g_np = _to_numpy(cov_g)
 
@@ -142,6 +165,7 @@ def simple2log(mu_r, cov_r):
     Returns:
         Tuple[ArrayLike, ArrayLike]: Mean and covariance in log-return units.
     """
+    cov_r = _match_labels(mu_r, cov_r)
     mu_r_np = _to_numpy(mu_r)
     cov_r_np = _to_numpy(cov_r)
 
-- 
2.43.0


From 7098962f0f93796fd3f1a3212d74104e294bcd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 15/26] fix: portfolio risk functions match labelled weights to
 the labels of the covariance or scenarios

---
 pyvallocation/utils/functions.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 3a49518..ea25566 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -16,6 +16,28 @@ def _ensure_weights_matrix(w: np.ndarray | pd.Series | pd.DataFrame) -> np.ndarr
     arr = np.asarray(w, dtype=float)
     return arr.reshape(-1, 1) if arr.ndim == 1 else arr
 
+def _match_labels(w, labels):
+    """Return weights in the order of ``labels`` when both sides are labelled.
+
+    Args:
+        w: Weights vector or matrix.
+        labels: Asset labels of the other operand, or ``None`` when it has none.
+
+    Returns:
+        ArrayLike: Weights in the order of ``labels``.
+
+    Raises:
+        ValueError: If the weights carry different labels.
+    """
+    if labels is None or not isinstance(w, (pd.Series, pd.DataFrame)):
+        return w
+    names = list(labels)
+    if list(w.index) == names:
+        return w
+    if set(w.index) != set(names):
+        raise ValueError("Weight labels do not match the asset labels.")
+    return w.reindex(names)
+
 def portfolio_variance(
     w: np.ndarray | pd.Series,
     cov: np.ndarray | pd.DataFrame,
@@ -30,7 +52,7 @@ def portfolio_variance(
     Returns:
         Scalar variance (single portfolio) or ``(M,)`` array for multiple portfolios.
     """
-    W = _ensure_weights_matrix(w)
+    W = _ensure_weights_matrix(_match_labels(w, cov.index if isinstance(cov, pd.DataFrame) else None))
     cov_np = np.asarray(cov, dtype=float)
     quad = np.sum((W.T @ cov_np) * W.T, axis=1)
     return quad.item() if quad.size == 1 else quad
@@ -78,6 +100,7 @@ def portfolio_cvar(
     elif not isinstance(demean, bool):
         raise ValueError("demean must be either True or False.")
 
+    w = _match_labels(w, R.columns if isinstance(R, pd.DataFrame) else None)
     R_arr = np.asarray(R, dtype=float)
     p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(p, dtype=float).reshape(-1, 1)
 
@@ -139,6 +162,7 @@ def portfolio_var(
     elif not isinstance(demean, bool):
         raise ValueError("demean must be either True or False.")
 
+    w = _match_labels(w, R.columns if isinstance(R, pd.DataFrame) else None)
     R_arr = np.asarray(R, dtype=float)
     p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(p, dtype=float).reshape(-1, 1)
 
-- 
2.43.0


From 668c9b166dff5fc97a8b0b12244450e90186fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 16/26] fix: constant-correlation Ledoit-Wolf intensity
 weighted by the average covariance depended on the units of the returns

---
 pyvallocation/moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 2503484..90c4d68 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -374,7 +374,8 @@ def shrink_covariance_ledoit_wolf(
     if target == "identity":
         rho_hat = diag_pi
     else:
-        rho_hat = diag_pi + ((F - np.diag(np.diag(F))).sum() / (N * (N - 1))) * off_pi
+        # weight by the average correlation (dimensionless), so the intensity does not depend on the units of R
+        rho_hat = diag_pi + r_bar * off_pi
 
     gamma_hat = np.linalg.norm(S_arr - F, "fro") ** 2
     kappa = (pi_hat - rho_hat) / gamma_hat
-- 
2.43.0


From ab54b6f1db951a66196f94854aef50c5a2fdd06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:15 +0000
Subject: [PATCH 17/26] fix: Tyler covariance clipped small returns at an
 absolute level, so it depended on the units of the returns

---
 pyvallocation/moments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 90c4d68..47b7aa7 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -656,6 +656,7 @@ def robust_covariance_tyler(
     trace_target = np.trace(sample_cov) / max(N, 1)
     if trace_target <= 0.0:
         trace_target = 1.0
+    X = X / np.sqrt(trace_target)
     if isinstance(target, str):
         if target != "identity":
             raise ValueError("`target` must be 'identity' or an array-like.")
-- 
2.43.0


From 9212ebba927e7941f631fafff1dd623cd73f2adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:21 +0000
Subject: [PATCH 18/26] fix: Huber mean stopped at an absolute tolerance, so it
 depended on the units of the returns

---
 pyvallocation/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 47b7aa7..4674033 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -1020,7 +1020,7 @@ def robust_mean_huber(
             denom = np.maximum(np.abs(residuals), 1e-12)
             weights = np.minimum(1.0, tau / denom)
             mu_new = np.sum(weights * x) / np.sum(weights)
-            if abs(mu_new - mu) <= tol * (abs(mu) + 1.0):
+            if abs(mu_new - mu) <= tol * (abs(mu) + scale):
                 mu = float(mu_new)
                 break
             mu = float(mu_new)
-- 
2.43.0


From 640dff2d15d750022e7eb81b35a264cad4773889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 19/26] fix: discrete allocation rejected exact allocations of
 large amounts because its rounding tolerance was absolute

---
 pyvallocation/discrete_allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 847eb63..04a9dc5 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -177,7 +177,7 @@ def _build_result(inputs: DiscreteAllocationInput, raw_shares: pd.Series) -> Dis
     portfolio_value = float(values.sum())
     leftover = float(inputs.total_value - portfolio_value)
     # Numerical noise guard
-    if leftover < 0 and abs(leftover) < 1e-8:
+    if leftover < 0 and abs(leftover) < 1e-8 * inputs.total_value:
         leftover = 0.0
     elif leftover < 0:
         raise RuntimeError("Allocation exceeded available funds by more than tolerance.")
-- 
2.43.0


From d664ac507d4861ef7e992a4ac1219e7fbd8c8351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:23 +0000
Subject: [PATCH 20/26] fix: rank_mean silently dropped the ranking of a pair
 that also carried a mean view

---
 pyvallocation/views.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 0abb04b..160f7fd 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -614,6 +614,13 @@ class FlexibleViewsProcessor:
                 pair = (rank_mean[i], rank_mean[i + 1])
                 if pair not in self.mean_views:
                     self.mean_views[pair] = (">=", 0.0)
+                elif pair[::-1] not in self.mean_views:
+                    # keep the view on this spread and rank through its reverse
+                    self.mean_views[pair[::-1]] = ("<=", 0.0)
+                else:
+                    raise ValueError(
+                        f"`rank_mean` conflicts with the mean views already stated on {pair}."
+                    )
 
         self.sequential = bool(sequential)
 
-- 
2.43.0


From 56256a689ece7d1a81f1ae24942cf117b1fc5ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:22 +0000
Subject: [PATCH 21/26] fix: robust optimisation with proportional costs always
 raised (objective built from a nested tuple)

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index eaad256..d4046d3 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -856,7 +856,7 @@ class RobustOptimizer(_BaseOptimization):
         penalty = kw.get("lam", kw.get("gamma_mu"))
 
         c = np.hstack(
-            (-self._mean, penalty, (self._costs, self._costs) if self._has_costs else [])
+            (-self._mean, penalty, np.hstack((self._costs, self._costs)) if self._has_costs else [])
         )
 
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
-- 
2.43.0


From 252782fcf8c9b6b79aaf8f0b4e2b4ab49dc87a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:12 +0000
Subject: [PATCH 22/26] fix: robust optimisation measured the mean uncertainty
 with the transposed Cholesky factor (|L w| instead of |L'w|)

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index d4046d3..bfaba99 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -862,7 +862,7 @@ class RobustOptimizer(_BaseOptimization):
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
         G_soc = np.zeros((n + 1, n_vars))
         G_soc[0, n] = -1
-        G_soc[1:, :n] = -self._s_sqrt
+        G_soc[1:, :n] = -self._s_sqrt.T
         h_soc = np.zeros(n + 1)
 
         # --- linear inequalities ----------------------------------- #
-- 
2.43.0


From c936cbd7245fbda94366c1c8f1ae4e10e3e33a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:17 +0000
Subject: [PATCH 23/26] fix: relaxed risk parity bounded portfolio volatility
 with the transposed Cholesky factor

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index bfaba99..c3d4f88 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1139,7 +1139,7 @@ class RelaxedRiskParity(_BaseOptimization):
 
         G1 = np.zeros((n + 1, n_vars), dtype=float)
         G1[0, q_idx] = -1.0
-        G1[1:, x_slice] = -self._chol
+        G1[1:, x_slice] = -self._chol.T
         G_soc_all.append(G1)
         h_soc_all.append(np.zeros(n + 1, dtype=float))
         soc_dims.append(n + 1)
-- 
2.43.0


From e102816f993c40a9ecfaed4572619776b28d2d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:15 +0000
Subject: [PATCH 24/26] fix: exact mean-uncertainty conversion scales the
 covariance linearly with the horizon

---
 pyvallocation/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 2c2464a..8634f6a 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -772,7 +772,7 @@ class RobustBayesPosterior:
         mu_log = mu_np * annualization_factor
         s_mu_log = s_mu_np * (annualization_factor ** 2)
         if exact:
-            sigma_log = sigma_np * (annualization_factor ** 2)
+            sigma_log = sigma_np * annualization_factor
             scale = np.exp(mu_log + 0.5 * np.diag(sigma_log))
         else:
             scale = np.exp(mu_log)
-- 
2.43.0


From 77d3c80c63ba1106d7583662b21316e2fa430c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:17 +0000
Subject: [PATCH 25/26] fix: report CVaR with its sign so a portfolio whose
 tail is a gain is not ranked as risky

---
 pyvallocation/portfolioapi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index cb839eb..96700c5 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -780,7 +780,7 @@ class PortfolioWrapper:
                     if self.dist.probabilities is not None
                     else generate_uniform_probabilities(scen.shape[0])
                 )
-                alt[f"CVaR ({int(confidence*100)}%)"] = np.abs(
+                alt[f"CVaR ({int(confidence*100)}%)"] = (
                     np.asarray(portfolio_cvar(weights, scen, probs, confidence=confidence))
                 ).reshape(-1)
             except Exception as exc:  # pragma: no cover
@@ -1370,7 +1370,7 @@ class PortfolioWrapper:
         )
         weights = optimizer.efficient_frontier(num_portfolios)
         returns = mu_for_frontier @ weights
-        risks = np.abs(np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))).reshape(-1)
+        risks = np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)).reshape(-1)
         raw_risks = risks.copy()
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
@@ -1537,7 +1537,7 @@ class PortfolioWrapper:
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
             try:
-                alt_cvar = np.abs(np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95))).reshape(-1)
+                alt_cvar = np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95)).reshape(-1)
                 alternate_risks["CVaR (95%)"] = alt_cvar
             except Exception as exc:  # pragma: no cover
                 logger.debug("Unable to compute CVaR overlay for robust frontier: %s", exc)
@@ -1663,7 +1663,7 @@ class PortfolioWrapper:
             ) from e
 
         actual_return = mu_for_cvar @ weights
-        risk = float(np.abs(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)))
+        risk = float(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))
 
         w_series = pd.Series(weights, index=self.dist.asset_names, name=f"CVaR Portfolio (Return >= {return_target:.4f})")
 
-- 
2.43.0


From 48142d9bbe981eb2975c59bfe59da8ed05fc4e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:00 +0000
Subject: [PATCH 26/26] fix: state the volatility of a robust frontier in
 simple returns

robust_lambda_frontier reported the weights' returns in simple-return
space, but took the volatility overlay from the log-space covariance of
the posterior.
---
 pyvallocation/portfolioapi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 96700c5..49ea947 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1499,13 +1499,13 @@ class PortfolioWrapper:
         weights_arr = np.asarray(weights, dtype=float)
         risks_arr = np.asarray(risks, dtype=float)
         # Convert returns to simple space for reporting
-        mu_r, _ = self._report_mu_cov()
+        mu_r, cov_r = self._report_mu_cov()
         returns_arr = mu_r @ weights_arr
         metadata = [{"lambda": float(lam)} for lam in lambda_list]
 
         alternate_risks: Dict[str, np.ndarray] = {}
         if return_cov is None and self._uncertainty_cov is not None:
-            return_cov = self.dist.cov  # Sigma_ce lives in dist.cov after from_robust_posterior
+            return_cov = cov_r  # Sigma_ce lives in dist.cov after from_robust_posterior
         if return_cov is not None:
             try:
                 cov_ref = return_cov
-- 
2.43.0

