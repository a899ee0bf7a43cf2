From 3f62ee0801baf5edf0760dd8220533a81c0eb9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 01/49] fix: report NaN t-statistics and p-values when the
 standard error is zero or undefined

---
 diff_diff/diagnostics.py   | 4 ++--
 diff_diff/sun_abraham.py   | 8 ++++----
 diff_diff/synthetic_did.py | 5 +++--
 diff_diff/triple_diff.py   | 2 +-
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 123a7de..8d704ba 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -662,7 +662,7 @@ def permutation_test(
     ci_upper = np.percentile(valid_effects, (1 - alpha / 2) * 100)
 
     # T-stat from original estimate
-    t_stat = original_att / se if se > 0 else 0.0
+    t_stat = original_att / se if se > 0 else np.nan
 
     return PlaceboTestResults(
         test_type="permutation",
@@ -783,7 +783,7 @@ def leave_one_out_test(
     # Statistics of LOO distribution
     mean_effect = np.mean(valid_effects)
     se = np.std(valid_effects, ddof=1) if len(valid_effects) > 1 else 0.0
-    t_stat = mean_effect / se if se > 0 else 0.0
+    t_stat = mean_effect / se if se > 0 else np.nan
 
     # Use t-distribution for p-value
     df = len(valid_effects) - 1 if len(valid_effects) > 1 else 1
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index cb7313f..393ed07 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -600,7 +600,7 @@ class SunAbraham:
             coef_index_map,
         )
 
-        overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+        overall_t = overall_att / overall_se if overall_se > 0 else np.nan
         overall_p = compute_p_value(overall_t)
         overall_ci = compute_confidence_interval(overall_att, overall_se, self.alpha)
 
@@ -623,7 +623,7 @@ class SunAbraham:
 
             # Update results with bootstrap inference
             overall_se = bootstrap_results.overall_att_se
-            overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+            overall_t = overall_att / overall_se if overall_se > 0 else np.nan
             overall_p = bootstrap_results.overall_att_p_value
             overall_ci = bootstrap_results.overall_att_ci
 
@@ -640,7 +640,7 @@ class SunAbraham:
                     eff_val = event_study_effects[e]["effect"]
                     se_val = event_study_effects[e]["se"]
                     event_study_effects[e]["t_stat"] = (
-                        eff_val / se_val if se_val > 0 else 0.0
+                        eff_val / se_val if se_val > 0 else np.nan
                     )
 
         # Convert cohort effects to storage format
@@ -878,7 +878,7 @@ class SunAbraham:
             agg_var = float(weight_vec @ vcov_subset @ weight_vec)
             agg_se = np.sqrt(max(agg_var, 0))
 
-            t_stat = agg_effect / agg_se if agg_se > 0 else 0.0
+            t_stat = agg_effect / agg_se if agg_se > 0 else np.nan
             p_val = compute_p_value(t_stat)
             ci = compute_confidence_interval(agg_effect, agg_se, self.alpha)
 
diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index dca934b..8c5ac78 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -336,8 +336,9 @@ class SyntheticDiD(DifferenceInDifferences):
             else:
                 p_value = compute_p_value(t_stat)
         else:
-            t_stat = 0.0
-            p_value = 1.0
+            # Zero or undefined SE: the statistic is undefined, not a null effect
+            t_stat = np.nan
+            p_value = np.nan
 
         # Confidence interval
         conf_int = compute_confidence_interval(att, se, self.alpha)
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 126d30b..f6869bf 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -598,7 +598,7 @@ class TripleDifference:
             )
 
         # Compute inference
-        t_stat = att / se if se > 0 else 0.0
+        t_stat = att / se if se > 0 else np.nan
         df = n_obs - 8  # Approximate df (8 cell means)
         if covariates:
             df -= len(covariates)
-- 
2.43.0


From c42f29367f0823aff4688af4db67a66f20efaabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 02/49] fix: within-transform the treatment x time interaction
 in TwoWayFixedEffects

---
 diff_diff/twfe.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 45b08d6..0266fe7 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -96,19 +96,36 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         # Use unit-level clustering if not specified (use local variable to avoid mutation)
         cluster_var = self.cluster if self.cluster is not None else unit
 
-        # Demean data (within transformation for fixed effects)
-        data_demeaned = self._within_transform(data, outcome, unit, time, covariates)
-
         # Create treatment × post interaction
         # For staggered designs, we'd need to identify treatment timing per unit
         # For now, assume standard 2-period design
-        data_demeaned["_treatment_post"] = (
-            data_demeaned[treatment] * data_demeaned[time]
+        data_interacted = data.assign(_treatment_post=data[treatment] * data[time])
+
+        # Demean data (within transformation for fixed effects). The interaction is
+        # demeaned too: the fixed effects must be partialled out of the regressor as
+        # well as of the outcome for the coefficient to be the two-way FE estimate.
+        data_demeaned = self._within_transform(
+            data_interacted, outcome, unit, time, (covariates or []) + ["_treatment_post"]
         )
 
         # Extract variables for regression
         y = data_demeaned[f"{outcome}_demeaned"].values
-        X_list = [data_demeaned["_treatment_post"].values]
+        treatment_post = data_demeaned["_treatment_post_demeaned"].values
+        raw_treatment_post = data_demeaned["_treatment_post"].values
+        scale = max(np.max(np.abs(raw_treatment_post)), 1.0)
+        if np.max(np.abs(treatment_post)) <= 1e-10 * scale:
+            # Absorbed by the fixed effects (e.g. every unit has the same treatment
+            # path): there is no two-way FE estimate. Say so, and keep the coefficient
+            # on the untransformed interaction.
+            warnings.warn(
+                "The treatment × time interaction has no variation within units and "
+                "periods, so the treatment effect is not identified under two-way "
+                "fixed effects.",
+                UserWarning,
+                stacklevel=2,
+            )
+            treatment_post = raw_treatment_post
+        X_list = [treatment_post]
 
         if covariates:
             for cov in covariates:
-- 
2.43.0


From 39bcd8aa5d2d2bf43218d224c487bc56bd5e28f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 03/49] fix: treat an infinite first-treatment period as
 never-treated in CallawaySantAnna and SunAbraham

---
 diff_diff/staggered.py   | 4 ++++
 diff_diff/sun_abraham.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index f01400e..6518d6a 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -635,6 +635,10 @@ class CallawaySantAnna(
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
 
+        # Never-treated units may be coded 0 or inf; use a single code internally so
+        # that inf is not mistaken for a treatment cohort
+        df[first_treat] = df[first_treat].replace(np.inf, 0)
+
         # Standardize the first_treat column name for internal use
         # This avoids hardcoding column names in internal methods
         df['first_treat'] = df[first_treat]
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 393ed07..ee124c3 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -486,6 +486,10 @@ class SunAbraham:
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
 
+        # Never-treated units may be coded 0 or inf; use a single code internally so
+        # that inf is not mistaken for a treatment cohort
+        df[first_treat] = df[first_treat].replace(np.inf, 0)
+
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
         treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0])
-- 
2.43.0


From 5881f6e50d5c1189f0963d1c437035c0fbfe8e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 04/49] fix: resample rows by position in the SunAbraham
 bootstrap

---
 diff_diff/sun_abraham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index ee124c3..e3562ec 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1012,7 +1012,7 @@ class SunAbraham:
             # Create bootstrap sample efficiently
             # Build index array for all selected units
             boot_indices = np.concatenate([
-                df.index[df[unit] == u].values for u in boot_units
+                np.flatnonzero((df[unit] == u).values) for u in boot_units
             ])
             df_b = df.iloc[boot_indices].copy()
 
-- 
2.43.0


From 44756fd5125f15a83688bae9ea5e58a0168388de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 05/49] fix: report NaN instead of 0 when SunAbraham has no
 post-treatment effect

---
 diff_diff/sun_abraham.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index e3562ec..f41f103 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -919,7 +919,8 @@ class SunAbraham:
         ]
 
         if not post_effects:
-            return 0.0, 0.0
+            # No post-treatment effects estimated: the overall ATT is undefined
+            return np.nan, np.nan
 
         # Weight by number of treated observations at each relative time
         post_weights = []
-- 
2.43.0


From 597e1ec0a000678a5ce4ce4e066ca0e6da4eba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 06/49] fix: CallawaySantAnna IPW standard errors use the
 variance of the (weighted) control mean

---
 diff_diff/staggered.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 6518d6a..5a99542 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -919,7 +919,6 @@ class CallawaySantAnna(
         """
         n_t = len(treated_change)
         n_c = len(control_change)
-        n_total = n_treated + n_control
 
         if X_treated is not None and X_control is not None and X_treated.shape[1] > 0:
             # Covariate-adjusted IPW estimation
@@ -961,7 +960,7 @@ class CallawaySantAnna(
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
 
             # Variance of weighted control mean
-            weighted_var_c = np.sum(weights_control * (control_change - np.sum(weights_control * control_change)) ** 2)
+            weighted_var_c = np.sum((weights_control * (control_change - np.sum(weights_control * control_change))) ** 2)
 
             se = np.sqrt(var_t / n_t + weighted_var_c) if (n_t > 0 and n_c > 0) else 0.0
 
@@ -971,15 +970,13 @@ class CallawaySantAnna(
             inf_func = np.concatenate([inf_treated, inf_control])
         else:
             # Unconditional IPW (reduces to difference in means)
-            p_treat = n_treated / n_total  # unconditional propensity score
-
             att = np.mean(treated_change) - np.mean(control_change)
 
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
             var_c = np.var(control_change, ddof=1) if n_c > 1 else 0.0
 
-            # Adjusted variance for IPW
-            se = np.sqrt(var_t / n_t + var_c * (1 - p_treat) / (n_c * p_treat)) if (n_t > 0 and n_c > 0 and p_treat > 0) else 0.0
+            # Constant propensity score: variance of a difference in means
+            se = np.sqrt(var_t / n_t + var_c / n_c) if (n_t > 0 and n_c > 0) else 0.0
 
             # Influence function (for aggregation)
             inf_treated = (treated_change - np.mean(treated_change)) / n_t
-- 
2.43.0


From 7ee528a8da5eb3fdd60a27dcdd38b3a2251da20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 07/49] fix: exact Goodman-Bacon weights reproduce the two-way
 fixed-effects estimate

---
 diff_diff/bacon.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 8f09d9f..c643d2f 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -610,7 +610,6 @@ class BaconDecomposition:
         from Goodman-Bacon (2021) which accounts for within-group variance
         of the treatment indicator in each 2x2 comparison window.
         """
-        n_total_obs = len(df)
         n_total_units = df[unit].nunique()
 
         for comp in comparisons:
@@ -663,12 +662,6 @@ class BaconDecomposition:
                 comp.weight = 0.0
                 continue
 
-            # Number of observations in this 2x2 sample
-            n_22 = len(df_22)
-
-            # Sample share of this comparison
-            sample_share = n_22 / n_total_obs
-
             # Group shares within the 2x2
             n_k_share = n_k / (n_k + n_l)
 
@@ -682,14 +675,14 @@ class BaconDecomposition:
             # D = 0 for all periods for control units in this window
             D_k = T_post / T_window  # proportion treated for treated group
 
-            # Within-comparison variance of treatment
-            # Var(D) = n_k/(n_k+n_l) * D_k * (1-D_k) for the 2x2
-            var_D_22 = n_k_share * D_k * (1 - D_k)
+            # Within-comparison variance of (double-demeaned) treatment
+            # Var(D) = n_kl * (1-n_kl) * D_k * (1-D_k) for the 2x2
+            var_D_22 = n_k_share * (1 - n_k_share) * D_k * (1 - D_k)
 
-            # Exact weight: proportional to sample share * variance
-            # Scale by (n_k + n_l) / n_total_units to account for subsample
-            unit_share = (n_k + n_l) / n_total_units
-            comp.weight = sample_share * var_D_22 * unit_share
+            # Exact weight: squared share of the panel covered by the comparison
+            # (units and periods) times the variance of treatment within it
+            panel_share = ((n_k + n_l) / n_total_units) * (T_window / len(time_periods))
+            comp.weight = panel_share ** 2 * var_D_22
 
     def _compute_treated_vs_never(
         self,
-- 
2.43.0


From fb917717b3048a62f06dee6825d7b5154b713ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 08/49] fix: SyntheticDiD bootstrap p-value no longer compares
 the estimate with draws centred on it

---
 diff_diff/synthetic_did.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 8c5ac78..f54a035 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -328,8 +328,9 @@ class SyntheticDiD(DifferenceInDifferences):
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            # Use placebo distribution for p-value if available
-            if len(placebo_effects) > 0:
+            # Use the placebo distribution (centred on zero) for the p-value if
+            # available; bootstrap estimates are centred on the ATT itself
+            if inference_method == "placebo" and len(placebo_effects) > 0:
                 # Two-sided p-value from placebo distribution
                 p_value = np.mean(np.abs(placebo_effects) >= np.abs(att))
                 p_value = max(p_value, 1.0 / (len(placebo_effects) + 1))
-- 
2.43.0


From 31f4441561db1875bfebbfad0f5967ae3446f2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 09/49] fix: doubly robust TripleDifference normalises its cell
 means and uses the outcome model

The cell-period means divided by the overall share of the cell, so with
different numbers of observations per period the estimate was not the triple
difference and moved when a constant was added to the outcome; with covariates
the fitted values cancelled, leaving an unnormalised weighting estimator.
---
 diff_diff/triple_diff.py | 85 +++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 53 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index f6869bf..e1d4b92 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -947,25 +947,27 @@ class TripleDifference:
         if X is not None and X.shape[1] > 0:
             # Fit outcome models for each cell
             mu_fitted = np.zeros(n)
+            # Mean prediction of each cell-time model for the effectively treated
+            mu_treated = {}
 
-            for cell_mask, cell_name in [
-                (cell_1, "cell_1"), (cell_2, "cell_2"),
-                (cell_3, "cell_3"), (cell_4, "cell_4")
-            ]:
+            for c, cell_mask in enumerate([cell_1, cell_2, cell_3, cell_4]):
                 for t_val in [0, 1]:
                     mask = cell_mask & (T == t_val)
+                    mu_fitted[mask] = np.mean(y[mask])
+                    mu_treated[c, t_val] = np.mean(y[mask])
                     if np.sum(mask) > 1:
-                        X_cell = np.column_stack([X[mask], T[mask]])
                         try:
-                            _, fitted, _ = _linear_regression(
-                                X_cell, y[mask],
+                            beta, fitted, _ = _linear_regression(
+                                X[mask], y[mask],
                                 rank_deficient_action=self.rank_deficient_action,
                             )
                             mu_fitted[mask] = fitted
+                            X_treated = X[cell_1 & (T == t_val)]
+                            # Dropped (collinear) columns have NaN coefficients
+                            beta = np.nan_to_num(beta)
+                            mu_treated[c, t_val] = np.mean(beta[0] + X_treated @ beta[1:])
                         except Exception:
-                            mu_fitted[mask] = np.mean(y[mask])
-                    elif np.sum(mask) == 1:
-                        mu_fitted[mask] = y[mask]
+                            pass
 
             # Propensity scores
             try:
@@ -995,11 +997,13 @@ class TripleDifference:
         else:
             # No covariates: use cell means as predictions
             mu_fitted = np.zeros(n)
-            for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
+            mu_treated = {}
+            for c, cell_mask in enumerate([cell_1, cell_2, cell_3, cell_4]):
                 for t_val in [0, 1]:
                     mask = cell_mask & (T == t_val)
                     if np.sum(mask) > 0:
                         mu_fitted[mask] = np.mean(y[mask])
+                        mu_treated[c, t_val] = np.mean(y[mask])
 
             # Unconditional probabilities
             p_cell_1 = np.full(n, np.mean(cell_1))
@@ -1015,52 +1019,27 @@ class TripleDifference:
         p_cell_4 = np.clip(p_cell_4, self.pscore_trim, 1 - self.pscore_trim)
 
         # Step 2: Doubly robust estimator
-        # For each cell, compute the augmented IPW term:
-        # (Y - mu(X)) * weight + mu(X)
+        # For each cell and period: prediction of its outcome model for the effectively
+        # treated plus the reweighted mean residual (weights normalised within the cell,
+        # so that the estimate does not depend on the level of the outcome or on how
+        # many observations each period has)
 
         pre_mask = T == 0
         post_mask = T == 1
 
-        # Influence function components for each observation
-        n_1 = np.sum(cell_1)
-        p_ref = n_1 / n
-
-        # Cell 1 (G=1, P=1) - effectively treated
-        inf_11 = np.zeros(n)
-        inf_11[cell_1] = (y[cell_1] - mu_fitted[cell_1]) / p_ref
-        # Add outcome model contribution
-        inf_11 += mu_fitted * cell_1.astype(float) / p_ref
-
-        # Cell 2 (G=1, P=0)
-        w_10 = cell_2.astype(float) * (p_cell_1 / p_cell_2)
-        inf_10 = w_10 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 2 (vectorized)
-        inf_10[cell_2] += mu_fitted[cell_2] * (p_cell_1[cell_2] / p_cell_2[cell_2]) / p_ref
-
-        # Cell 3 (G=0, P=1)
-        w_01 = cell_3.astype(float) * (p_cell_1 / p_cell_3)
-        inf_01 = w_01 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 3 (vectorized)
-        inf_01[cell_3] += mu_fitted[cell_3] * (p_cell_1[cell_3] / p_cell_3[cell_3]) / p_ref
-
-        # Cell 4 (G=0, P=0)
-        w_00 = cell_4.astype(float) * (p_cell_1 / p_cell_4)
-        inf_00 = w_00 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 4 (vectorized)
-        inf_00[cell_4] += mu_fitted[cell_4] * (p_cell_1[cell_4] / p_cell_4[cell_4]) / p_ref
-
-        # Compute cell-time means using DR formula
-        def dr_mean(inf_vals, t_mask):
-            return np.mean(inf_vals[t_mask])
-
-        y_11_pre = dr_mean(inf_11, pre_mask)
-        y_11_post = dr_mean(inf_11, post_mask)
-        y_10_pre = dr_mean(inf_10, pre_mask)
-        y_10_post = dr_mean(inf_10, post_mask)
-        y_01_pre = dr_mean(inf_01, pre_mask)
-        y_01_post = dr_mean(inf_01, post_mask)
-        y_00_pre = dr_mean(inf_00, pre_mask)
-        y_00_post = dr_mean(inf_00, post_mask)
+        def dr_mean(c, cell_mask, p_cell, t_val):
+            mask = cell_mask & (T == t_val)
+            w = p_cell_1[mask] / p_cell[mask]
+            return mu_treated[c, t_val] + np.sum(w * (y[mask] - mu_fitted[mask])) / np.sum(w)
+
+        y_11_pre = dr_mean(0, cell_1, p_cell_1, 0)
+        y_11_post = dr_mean(0, cell_1, p_cell_1, 1)
+        y_10_pre = dr_mean(1, cell_2, p_cell_2, 0)
+        y_10_post = dr_mean(1, cell_2, p_cell_2, 1)
+        y_01_pre = dr_mean(2, cell_3, p_cell_3, 0)
+        y_01_post = dr_mean(2, cell_3, p_cell_3, 1)
+        y_00_pre = dr_mean(3, cell_4, p_cell_4, 0)
+        y_00_post = dr_mean(3, cell_4, p_cell_4, 1)
 
         # DDD estimate
         att = (
-- 
2.43.0


From 0946b6694ec28259894d87abb02134cd5ad62685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 10/49] fix: TripleDifference IPW standard error uses
 deviations from the cell means

Outcome levels entered the influence function, so the standard error grew
with any constant added to the outcome.
---
 diff_diff/triple_diff.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index e1d4b92..e4578d7 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -1124,29 +1124,22 @@ class TripleDifference:
         n = len(y)
         post_mask = T == 1
 
-        # Influence function for IPW estimator (vectorized)
+        # Influence function of each cell-period weighted mean: outcomes enter as
+        # deviations from that mean, so the level of the outcome does not matter
         inf_func = np.zeros(n)
 
-        n_ref = np.sum(cell_1)
-        p_ref = n_ref / n
-
-        # Sign: +1 for post, -1 for pre
-        sign = np.where(post_mask, 1.0, -1.0)
-
-        # Cell 1 (G=1, P=1): sign * (y - att) / p_ref
-        inf_func[cell_1] = sign[cell_1] * (y[cell_1] - att) / p_ref
-
-        # Cell 2 (G=1, P=0): -sign * y * (p_cell_1 / p_cell_2) / p_ref
-        w_2 = p_cell_1[cell_2] / p_cell_2[cell_2]
-        inf_func[cell_2] = -sign[cell_2] * y[cell_2] * w_2 / p_ref
-
-        # Cell 3 (G=0, P=1): -sign * y * (p_cell_1 / p_cell_3) / p_ref
-        w_3 = p_cell_1[cell_3] / p_cell_3[cell_3]
-        inf_func[cell_3] = -sign[cell_3] * y[cell_3] * w_3 / p_ref
-
-        # Cell 4 (G=0, P=0): sign * y * (p_cell_1 / p_cell_4) / p_ref
-        w_4 = p_cell_1[cell_4] / p_cell_4[cell_4]
-        inf_func[cell_4] = sign[cell_4] * y[cell_4] * w_4 / p_ref
+        for cell, p_cell, cell_sign in [
+            (cell_1, p_cell_1, 1.0),
+            (cell_2, p_cell_2, -1.0),
+            (cell_3, p_cell_3, -1.0),
+            (cell_4, p_cell_4, 1.0),
+        ]:
+            for period_mask, sign in [(T == 1, 1.0), (T == 0, -1.0)]:
+                mask = cell & period_mask
+                w = p_cell_1[mask] / p_cell[mask]
+                w = w / np.sum(w)
+                y_mean = np.sum(w * y[mask])
+                inf_func[mask] = cell_sign * sign * n * w * (y[mask] - y_mean)
 
         var_inf = np.var(inf_func, ddof=1)
         se = np.sqrt(var_inf / n)
-- 
2.43.0


From 04d02d0db3d529d458fd600a89fa475b4f2231eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 11/49] fix: TripleDifference honours the cluster column in its
 standard errors

The documented cluster parameter only changed the reported number of clusters.
---
 diff_diff/triple_diff.py | 48 ++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index e4578d7..8c59769 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -580,21 +580,28 @@ class TripleDifference:
         n_control_eligible = int(np.sum((G == 0) & (P == 1)))
         n_control_ineligible = int(np.sum((G == 0) & (P == 0)))
 
+        # Cluster identifiers for cluster-robust standard errors
+        cluster_ids = None
+        if self.cluster is not None:
+            if self.cluster not in data.columns:
+                raise ValueError(f"Cluster column '{self.cluster}' not found in data")
+            cluster_ids = data[self.cluster].values
+
         # Compute cell means for diagnostics
         group_means = self._compute_cell_means(y, G, P, T)
 
         # Estimate ATT based on method
         if self.estimation_method == "reg":
             att, se, r_squared, pscore_stats = self._regression_adjustment(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
         elif self.estimation_method == "ipw":
             att, se, r_squared, pscore_stats = self._ipw_estimation(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
         else:  # doubly robust
             att, se, r_squared, pscore_stats = self._doubly_robust(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
 
         # Compute inference
@@ -723,6 +730,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using regression adjustment.
@@ -762,6 +770,7 @@ class TripleDifference:
         reg = LinearRegression(
             include_intercept=False,  # Intercept already in design_matrix
             robust=self.robust,
+            cluster_ids=cluster_ids,
             alpha=self.alpha,
             rank_deficient_action=self.rank_deficient_action,
         ).fit(design_matrix, y)
@@ -781,6 +790,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using inverse probability weighting.
@@ -914,7 +924,7 @@ class TripleDifference:
         # For simplicity, use influence function approach
         se = self._compute_ipw_se(
             y, G, P, T, cell_1, cell_2, cell_3, cell_4,
-            p_cell_1, p_cell_2, p_cell_3, p_cell_4, att
+            p_cell_1, p_cell_2, p_cell_3, p_cell_4, att, cluster_ids
         )
 
         return att, se, None, pscore_stats
@@ -926,6 +936,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using doubly robust estimation.
@@ -1062,15 +1073,22 @@ class TripleDifference:
 
         # Variance components for each of the 8 cells
         var_components = []
+        inf_func = np.zeros(n)
         for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
             for t_mask in [pre_mask, post_mask]:
                 v, n_cell = cell_var(cell_mask, t_mask, y)
                 if n_cell > 0:
                     var_components.append(v / n_cell)
+                    mask = cell_mask & t_mask
+                    inf_func[mask] = n / n_cell * (y[mask] - np.mean(y[mask]))
 
-        # Total variance is sum of components (assuming independence)
-        total_var = sum(var_components)
-        se = np.sqrt(total_var)
+        if cluster_ids is not None:
+            sign = (2 * T - 1) * (2 * G - 1) * (2 * P - 1)
+            se = np.sqrt(self._cluster_var(sign * inf_func, cluster_ids))
+        else:
+            # Total variance is sum of components (assuming independence)
+            total_var = sum(var_components)
+            se = np.sqrt(total_var)
 
         # R-squared from outcome regression
         if X is not None:
@@ -1082,6 +1100,18 @@ class TripleDifference:
 
         return att, se, r_squared, pscore_stats
 
+    @staticmethod
+    def _cluster_var(inf_func: np.ndarray, cluster_ids: np.ndarray) -> float:
+        """Cluster-robust variance of the mean of an influence function."""
+        sums = pd.Series(inf_func).groupby(cluster_ids).sum().values
+        n_clusters = len(sums)
+        if n_clusters < 2:
+            raise ValueError(
+                f"Need at least 2 clusters for cluster-robust SEs, got {n_clusters}"
+            )
+        n = len(inf_func)
+        return n_clusters / (n_clusters - 1) * np.sum(sums**2) / n**2
+
     def _compute_se(
         self,
         X: np.ndarray,
@@ -1119,6 +1149,7 @@ class TripleDifference:
         p_cell_3: np.ndarray,
         p_cell_4: np.ndarray,
         att: float,
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> float:
         """Compute standard error for IPW estimator using influence function."""
         n = len(y)
@@ -1141,6 +1172,9 @@ class TripleDifference:
                 y_mean = np.sum(w * y[mask])
                 inf_func[mask] = cell_sign * sign * n * w * (y[mask] - y_mean)
 
+        if cluster_ids is not None:
+            return np.sqrt(self._cluster_var(inf_func, cluster_ids))
+
         var_inf = np.var(inf_func, ddof=1)
         se = np.sqrt(var_inf / n)
 
-- 
2.43.0


From 94cd60c577f619fd274d7c1112475ad9702fc74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 12/49] fix: TROP bootstrap and jackknife weights are computed
 from the resampled panel

---
 diff_diff/trop.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index a6e2fdc..7282e30 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2287,8 +2287,13 @@ class TROP:
         np.ndarray
             Weight matrix (n_periods x n_units) for observation (i, t).
         """
-        # Use pre-computed structures when available
-        if self._precomputed is not None:
+        # Use pre-computed structures when they describe this panel (not a bootstrap or
+        # jackknife sample, whose units differ from those of the original data)
+        if (
+            self._precomputed is not None
+            and self._precomputed["Y"] is Y
+            and self._precomputed["D"] is D
+        ):
             # Time weights from pre-computed time distance matrix
             # time_dist_matrix[t, s] = |t - s|
             time_weights = np.exp(-lambda_time * self._precomputed["time_dist_matrix"][t, :])
-- 
2.43.0


From 6917bf0e7e75640921fa42e2561c15b48b21ec1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 13/49] fix: TROP reports the cross-validation score of the
 selected parameters when they are infinite

---
 diff_diff/trop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 7282e30..28910d1 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2075,9 +2075,12 @@ class TROP:
 
             # Compute final score for the optimized parameters
             try:
+                # (infinite grid values mean "disabled", converted as in the search)
                 best_score = self._loocv_score_obs_specific(
                     Y, D, control_mask, control_unit_idx,
-                    lambda_time, lambda_unit, lambda_nn,
+                    0.0 if np.isinf(lambda_time) else lambda_time,
+                    0.0 if np.isinf(lambda_unit) else lambda_unit,
+                    1e10 if np.isinf(lambda_nn) else lambda_nn,
                     n_units, n_periods
                 )
                 # Only accept finite scores - infinite means all fits failed
-- 
2.43.0


From 9854cf950025c0f760d6414fd3db3bc45988cf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 14/49] fix: TROP confidence intervals use the reference
 distribution of the p-value

---
 diff_diff/trop.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 28910d1..f632a30 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1511,8 +1511,9 @@ class TROP:
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            df = max(1, n_treated_obs - 1)
+            p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=df))
+            conf_int = compute_confidence_interval(att, se, self.alpha, df=df)
         else:
             t_stat = np.nan
             p_value = np.nan
@@ -2191,8 +2192,9 @@ class TROP:
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            df = max(1, n_treated_obs - 1)
+            p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=df))
+            conf_int = compute_confidence_interval(att, se, self.alpha, df=df)
         else:
             # When SE is undefined/zero, ALL inference fields should be NaN
             t_stat = np.nan
-- 
2.43.0


From df949fb63a12d9c2928c1e9063b72d900756964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 15/49] fix: HonestDiD and PreTrendsPower select the
 event-study block of the coefficient covariance

HonestDiD took the leading rows of MultiPeriodDiD's full coefficient covariance
(intercept, treatment and period dummies) as that of the post-period effects, and
both classes recognised interaction terms only when the treatment column is
called 'treated'.
---
 diff_diff/honest_did.py | 24 +++++++++++++++++-------
 diff_diff/pretrends.py  | 20 ++++++++++----------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 81c8caf..ccdb576 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -562,10 +562,20 @@ def _extract_event_study_params(
         num_post_periods = len(post_periods)
         num_pre_periods = len(pre_periods) if pre_periods else 0
 
-        # Get vcov if available
-        if results.vcov is not None:
-            sigma = results.vcov
-        else:
+        # Get vcov of the post-period effects. Fitted results store the vcov of all
+        # regression coefficients, so select the interaction terms.
+        sigma = results.vcov
+        names = list(results.coefficients or {})
+        if sigma is not None and len(names) == sigma.shape[0]:
+            post_idx = [
+                k for p in post_periods for k, name in enumerate(names)
+                if name.endswith(f":period_{p}")
+            ]
+            if len(post_idx) == num_post_periods:
+                sigma = sigma[np.ix_(post_idx, post_idx)]
+        if sigma is None or sigma.shape[0] not in (
+            num_post_periods, num_pre_periods + num_post_periods
+        ):
             # Construct diagonal vcov from SEs
             sigma = np.diag(np.array(ses) ** 2)
 
@@ -1251,9 +1261,9 @@ class HonestDiD:
                 # Look for pre-period coefficients
                 pre_effects = []
                 for period in pre_periods:
-                    key = f"treated:period_{period}"
-                    if key in results.coefficients:
-                        pre_effects.append(abs(results.coefficients[key]))
+                    for name, coef in results.coefficients.items():
+                        if name.endswith(f":period_{period}"):
+                            pre_effects.append(abs(coef))
 
                 if pre_effects:
                     return max(pre_effects)
diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index d9bc1c6..0668702 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -570,10 +570,13 @@ class PreTrendsPower:
             # (excludes the reference period which is omitted from estimation)
             if hasattr(results, 'coefficients') and results.coefficients:
                 # Find which pre-periods have estimated coefficients
-                estimated_pre_periods = [
-                    p for p in all_pre_periods
-                    if f"treated:period_{p}" in results.coefficients
-                ]
+                # (interaction terms are named "<treatment>:period_<p>")
+                coef_keys = list(results.coefficients.keys())
+                period_keys = {
+                    p: key for p in all_pre_periods for key in coef_keys
+                    if key.endswith(f":period_{p}")
+                }
+                estimated_pre_periods = [p for p in all_pre_periods if p in period_keys]
 
                 if len(estimated_pre_periods) == 0:
                     raise ValueError(
@@ -586,7 +589,7 @@ class PreTrendsPower:
 
                 # Extract effects for estimated periods only
                 effects = np.array([
-                    results.coefficients[f"treated:period_{p}"]
+                    results.coefficients[period_keys[p]]
                     for p in estimated_pre_periods
                 ])
 
@@ -602,12 +605,9 @@ class PreTrendsPower:
                 # Extract vcov for estimated pre-periods
                 # Build mapping from period to vcov index
                 if results.vcov is not None:
-                    # Get ordered list of all coefficient keys
-                    coef_keys = list(results.coefficients.keys())
+                    # Coefficient keys are in vcov order
                     pre_indices = [
-                        coef_keys.index(f"treated:period_{p}")
-                        for p in estimated_pre_periods
-                        if f"treated:period_{p}" in coef_keys
+                        coef_keys.index(period_keys[p]) for p in estimated_pre_periods
                     ]
                     if len(pre_indices) == n_pre and results.vcov.shape[0] > max(pre_indices):
                         vcov = results.vcov[np.ix_(pre_indices, pre_indices)]
-- 
2.43.0


From e510b8d766291f099706b2f2b6d13c98bff87d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 16/49] fix: PreTrendsPowerResults.power_at uses the fitted
 pattern of custom violations

---
 diff_diff/pretrends.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 0668702..dc835d4 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -73,6 +73,8 @@ class PreTrendsPowerResults:
         Standard errors of pre-period effects.
     vcov : np.ndarray
         Variance-covariance matrix of pre-period effects.
+    violation_weights : np.ndarray, optional
+        Violation pattern (unit L2 norm) used in the computation.
     """
 
     power: float
@@ -89,6 +91,7 @@ class PreTrendsPowerResults:
     pre_period_ses: np.ndarray = field(repr=False)
     vcov: np.ndarray = field(repr=False)
     original_results: Optional[Any] = field(default=None, repr=False)
+    violation_weights: Optional[np.ndarray] = field(default=None, repr=False)
 
     def __repr__(self) -> str:
         return (
@@ -225,7 +228,9 @@ class PreTrendsPowerResults:
 
         # Reconstruct violation weights based on violation type
         # Must match PreTrendsPower._get_violation_weights() exactly
-        if self.violation_type == "linear":
+        if self.violation_weights is not None:
+            weights = self.violation_weights
+        elif self.violation_type == "linear":
             # Linear trend: weights decrease toward treatment
             # [n-1, n-2, ..., 1, 0] for n pre-periods
             weights = np.arange(-n_pre + 1, 1, dtype=float)
@@ -907,6 +912,7 @@ class PreTrendsPower:
             pre_period_ses=ses,
             vcov=vcov,
             original_results=results,
+            violation_weights=weights,
         )
 
     def power_at(
-- 
2.43.0


From 63d6e513dfc7d69f51c4036cf8fb587792d6f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 17/49] fix: HonestDiD sensitivity breakdown value for grids
 that start above zero or are unsorted

---
 diff_diff/honest_did.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index ccdb576..50c8535 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1363,30 +1363,29 @@ class HonestDiD:
             # Always significant - no breakdown
             return None
 
-        if all(includes_zero):
-            # Never significant - breakdown at 0
-            return 0.0
-
-        # Find first transition point
-        for i, (inc, M) in enumerate(zip(includes_zero, M_values)):
-            if inc and (i == 0 or not includes_zero[i - 1]):
-                # Binary search between M_values[i-1] and M_values[i]
-                if i == 0:
-                    return 0.0
-
-                lo, hi = M_values[i - 1], M_values[i]
+        # Intervals widen with M: search between the largest M known to exclude
+        # zero and the smallest grid value that includes it
+        hi = min(M for M, inc in zip(M_values, includes_zero) if inc)
+        below = [M for M, inc in zip(M_values, includes_zero) if not inc and M < hi]
 
-                for _ in range(20):  # 20 iterations for precision
-                    mid = (lo + hi) / 2
-                    result = self.fit(results, M=mid)
-                    if result.ci_lb <= 0 <= result.ci_ub:
-                        hi = mid
-                    else:
-                        lo = mid
+        if below:
+            lo = max(below)
+        else:
+            result = self.fit(results, M=0)
+            if result.ci_lb <= 0 <= result.ci_ub:
+                # Never significant - breakdown at 0
+                return 0.0
+            lo = 0.0
 
-                return (lo + hi) / 2
+        for _ in range(20):  # 20 iterations for precision
+            mid = (lo + hi) / 2
+            result = self.fit(results, M=mid)
+            if result.ci_lb <= 0 <= result.ci_ub:
+                hi = mid
+            else:
+                lo = mid
 
-        return None
+        return (lo + hi) / 2
 
     def breakdown_value(
         self,
-- 
2.43.0


From 0b3b1da7c6c6ad4f49c141b7229c913a8d0b52b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 18/49] fix: required sample size achieves the requested power

The panel design used twice the variance of the estimator, and the control
group was rounded down, so the returned design could detect only a larger
effect than requested.
---
 diff_diff/power.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index b8aa10d..028ba26 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -681,10 +681,10 @@ class PowerAnalysis:
             design_effect = 1 + (T - 1) * rho
 
             # Var = sigma^2 * (1/n_t + 1/n_c) * design_effect / T
-            # For balanced: Var = 2 * sigma^2 / N * design_effect / T
+            #     = sigma^2 / N * (1/(p*(1-p))) * design_effect / T
 
             n_total = (
-                2 * sigma**2 * (z_alpha + z_beta)**2 * design_effect
+                sigma**2 * (z_alpha + z_beta)**2 * design_effect
                 / (effect_size**2 * treat_frac * (1 - treat_frac) * T)
             )
 
@@ -741,6 +741,9 @@ class PowerAnalysis:
 
         n_treated = max(2, int(np.ceil(n_total * treat_frac)))
         n_control = max(2, n_total - n_treated)
+        if n_total < MAX_SAMPLE_SIZE:
+            # Round both groups up so that the design reaches the target power
+            n_control = max(n_control, int(np.ceil(n_total * (1 - treat_frac))))
         n_total = n_treated + n_control
 
         # Compute actual power achieved
-- 
2.43.0


From 5bb7312ae6b215ef44de179b8404fd440314213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 19/49] fix: simulate_power works with CallawaySantAnna and
 estimates the effect with TwoWayFixedEffects

Callaway-Sant'Anna results were read under names they do not have, so every
simulation failed; TwoWayFixedEffects was given the period number as its
post indicator.
---
 diff_diff/power.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index 028ba26..91390c6 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -1089,7 +1089,7 @@ def simulate_power(
                         data,
                         outcome="outcome",
                         treatment="treated",
-                        time="period",
+                        time="post",
                         unit="unit",
                         **est_kwargs
                     )
@@ -1129,10 +1129,16 @@ def simulate_power(
                     )
 
                 # Extract results
-                att = result.att if hasattr(result, 'att') else result.avg_att
-                se = result.se if hasattr(result, 'se') else result.avg_se
-                p_val = result.p_value if hasattr(result, 'p_value') else result.avg_p_value
-                ci = result.conf_int if hasattr(result, 'conf_int') else result.avg_conf_int
+                if hasattr(result, "att"):
+                    prefix = ""
+                elif hasattr(result, "avg_att"):
+                    prefix = "avg_"
+                else:
+                    prefix = "overall_"
+                att = getattr(result, prefix + "att")
+                se = getattr(result, prefix + "se")
+                p_val = getattr(result, prefix + "p_value")
+                ci = getattr(result, prefix + "conf_int")
 
                 estimates.append(att)
                 ses.append(se)
-- 
2.43.0


From 0496a7adda695bd1252d99e7618c0a6df79378f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 20/49] fix: treatment-candidate trend slopes do not depend on
 row order

---
 diff_diff/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 3f80cfe..26f225d 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1165,7 +1165,7 @@ def _suggest_treatment_candidates(
     candidate_info = []
 
     for unit in all_units:
-        unit_data = pre_data[pre_data[unit_column] == unit]
+        unit_data = pre_data[pre_data[unit_column] == unit].sort_values(time_column)
 
         if len(unit_data) == 0:
             continue
-- 
2.43.0


From 61727c21e4804741c82ae827972d12a53859a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 21/49] fix: permutation p-value counts assignments that tie
 with the original estimate

---
 diff_diff/diagnostics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 8d704ba..6277b8d 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -650,8 +650,11 @@ def permutation_test(
                 stacklevel=2
             )
 
-    # Compute p-value: proportion of |permuted| >= |original|
-    p_value = np.mean(np.abs(valid_effects) >= np.abs(original_att))
+    # Compute p-value: proportion of |permuted| >= |original|. Assignments that
+    # reproduce the original estimate (e.g. the mirror-image assignment) tie with
+    # it only up to floating-point error and must count as at least as extreme.
+    abs_original = np.abs(original_att)
+    p_value = np.mean(np.abs(valid_effects) >= abs_original - 1e-8 * abs_original)
 
     # Ensure p-value is at least 1/(n_permutations + 1)
     p_value = max(p_value, 1 / (len(valid_effects) + 1))
-- 
2.43.0


From 9b5357a8ee92f4ed7c4ae170d06693f97afc6294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 22/49] fix: fake-group placebo test drops actually treated
 units

---
 diff_diff/diagnostics.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 6277b8d..ad2bffb 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -317,6 +317,7 @@ def run_placebo_test(
             fake_treated_units=fake_treatment_group,
             post_periods=post_periods,
             alpha=alpha,
+            treatment=treatment,
             **estimator_kwargs
         )
 
@@ -459,6 +460,7 @@ def placebo_group_test(
     fake_treated_units: List[Any],
     post_periods: Optional[List[Any]] = None,
     alpha: float = 0.05,
+    treatment: Optional[str] = None,
     **estimator_kwargs
 ) -> PlaceboTestResults:
     """
@@ -484,6 +486,10 @@ def placebo_group_test(
         List of post-treatment period values.
     alpha : float, default=0.05
         Significance level.
+    treatment : str, optional
+        Actual treatment indicator column (0/1). If given, units that are
+        ever treated are dropped, so only never-treated data are used. If
+        None, ``data`` must already contain never-treated units only.
     **estimator_kwargs
         Arguments passed to DifferenceInDifferences.
 
@@ -502,6 +508,11 @@ def placebo_group_test(
         mid = len(all_periods) // 2
         post_periods = all_periods[mid:]
 
+    # Keep only never-treated units
+    if treatment is not None:
+        ever_treated = data.loc[data[treatment] == 1, unit].unique()
+        data = data[~data[unit].isin(ever_treated)]
+
     # Create fake treatment indicator
     fake_data = data.copy()
     fake_data["_fake_treated"] = fake_data[unit].isin(fake_treated_units).astype(int)
-- 
2.43.0


From 9d4340569391801e287d94d6a14dcbe1b5e92692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 23/49] fix: parallel-trends check reports no standard error
 when a group has two observations

---
 diff_diff/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 010d011..1a3ac42 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -587,6 +587,10 @@ def check_parallel_trends(
         slope = np.sum((time_norm - mean_t) * (outcome_values - mean_y)) / time_var
 
         # Compute standard error of slope
+        # Two points fit exactly: no residual variation to estimate a standard error from
+        if n <= 2:
+            return slope, np.nan
+
         y_hat = mean_y + slope * (time_norm - mean_t)
         residuals = outcome_values - y_hat
         mse = np.sum(residuals ** 2) / (n - 2)
-- 
2.43.0


From 4a2fa0da007867b92fba3906496025f3a61c7cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 24/49] fix: placebo timing and group tests report the interval
 at the requested alpha

---
 diff_diff/diagnostics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index ad2bffb..cca998d 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -417,7 +417,7 @@ def placebo_timing_test(
     pre_data["_fake_post"] = (pre_data[time] >= fake_treatment_period).astype(int)
 
     # Fit DiD on pre-treatment data with fake post
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results = did.fit(
         pre_data,
         outcome=outcome,
@@ -428,7 +428,7 @@ def placebo_timing_test(
     # Also fit on full data for comparison
     data_with_post = data.copy()
     data_with_post["_post"] = data_with_post[time].isin(post_periods).astype(int)
-    did_full = DifferenceInDifferences(**estimator_kwargs)
+    did_full = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results_full = did_full.fit(
         data_with_post,
         outcome=outcome,
@@ -519,7 +519,7 @@ def placebo_group_test(
     fake_data["_post"] = fake_data[time].isin(post_periods).astype(int)
 
     # Fit DiD
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results = did.fit(
         fake_data,
         outcome=outcome,
-- 
2.43.0


From ca382a39486ed789a74e9941bf41403eea57ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 25/49] fix: refitting without the wild bootstrap no longer
 reports an earlier fit's bootstrap

---
 diff_diff/estimators.py | 1 +
 diff_diff/twfe.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 83fc72b..01c2d0f 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -299,6 +299,7 @@ class DifferenceInDifferences:
         att = coefficients[att_idx]
 
         # Get inference - either from bootstrap or analytical
+        self._bootstrap_results = None  # Drop any bootstrap run of an earlier fit
         if self.inference == "wild_bootstrap" and self.cluster is not None:
             # Override with wild cluster bootstrap inference
             se, p_value, conf_int, t_stat, vcov, _ = self._run_wild_bootstrap_inference(
diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 0266fe7..5586ddf 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -211,6 +211,7 @@ class TwoWayFixedEffects(DifferenceInDifferences):
                     )
 
         # Get inference - either from bootstrap or analytical
+        self._bootstrap_results = None  # Drop any bootstrap run of an earlier fit
         if self.inference == "wild_bootstrap":
             # Override with wild cluster bootstrap inference
             se, p_value, conf_int, t_stat, vcov, _ = self._run_wild_bootstrap_inference(
-- 
2.43.0


From 22f9283c16e4acba81ebf71ae9bf9a02c26f994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 26/49] fix: CallawaySantAnna.set_params(bootstrap_weights=...)
 takes effect

---
 diff_diff/staggered.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 5a99542..7c1f239 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -1104,6 +1104,11 @@ class CallawaySantAnna(
                 setattr(self, key, value)
             else:
                 raise ValueError(f"Unknown parameter: {key}")
+        # bootstrap_weight_type is the deprecated alias of bootstrap_weights
+        if "bootstrap_weights" in params:
+            self.bootstrap_weight_type = self.bootstrap_weights
+        elif "bootstrap_weight_type" in params:
+            self.bootstrap_weights = self.bootstrap_weight_type
         return self
 
     def summary(self) -> str:
-- 
2.43.0


From f3f72ee0ead65f42b5bbaff245e6428ea20366f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 27/49] fix: PreTrendsPower.set_params accepts array-like
 violation_weights like the constructor

---
 diff_diff/pretrends.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index dc835d4..610de4d 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -480,6 +480,8 @@ class PreTrendsPower:
         for key, value in params.items():
             if key == "power":
                 self.target_power = value
+            elif key == "violation_weights":
+                self.violation_weights = np.asarray(value) if value is not None else None
             elif hasattr(self, key):
                 setattr(self, key, value)
             else:
-- 
2.43.0


From ece4b2d592387771a7f6df58b394bac7ef457c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 28/49] fix: BaconDecomposition.set_params rejects unknown
 parameters

---
 diff_diff/bacon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index c643d2f..7d6056a 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -865,6 +865,9 @@ class BaconDecomposition:
 
     def set_params(self, **params) -> "BaconDecomposition":
         """Set estimator parameters (sklearn-compatible)."""
+        for key in params:
+            if key != "weights":
+                raise ValueError(f"Unknown parameter: {key}")
         if "weights" in params:
             if params["weights"] not in ("approximate", "exact"):
                 raise ValueError(
-- 
2.43.0


From 80250dfeabbc3ec7a04f39bb77ec9566e95449d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 29/49] fix: confidence levels in summaries are not truncated
 to whole percents

---
 diff_diff/diagnostics.py       | 2 +-
 diff_diff/honest_did.py        | 2 +-
 diff_diff/results.py           | 6 +++---
 diff_diff/staggered_results.py | 2 +-
 diff_diff/sun_abraham.py       | 2 +-
 diff_diff/triple_diff.py       | 2 +-
 diff_diff/trop.py              | 2 +-
 diff_diff/utils.py             | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index cca998d..fae99e4 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -85,7 +85,7 @@ class PlaceboTestResults:
 
     def summary(self) -> str:
         """Generate formatted summary of placebo test results."""
-        conf_level = int((1 - self.alpha) * 100)
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         lines = [
             "=" * 65,
diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 50c8535..b6c5aed 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -240,7 +240,7 @@ class HonestDiDResults:
         str
             Formatted summary.
         """
-        conf_level = int((1 - self.alpha) * 100)
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         method_names = {
             "smoothness": "Smoothness (Delta^SD)",
diff --git a/diff_diff/results.py b/diff_diff/results.py
index 213d09f..75340bf 100644
--- a/diff_diff/results.py
+++ b/diff_diff/results.py
@@ -83,7 +83,7 @@ class DiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 70,
@@ -324,7 +324,7 @@ class MultiPeriodDiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 80,
@@ -562,7 +562,7 @@ class SyntheticDiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/staggered_results.py b/diff_diff/staggered_results.py
index 617a839..a629667 100644
--- a/diff_diff/staggered_results.py
+++ b/diff_diff/staggered_results.py
@@ -137,7 +137,7 @@ class CallawaySantAnnaResults:
             Formatted summary.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 85,
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index f41f103..b27fe93 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -108,7 +108,7 @@ class SunAbrahamResults:
             Formatted summary.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 85,
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 8c59769..64de59e 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -136,7 +136,7 @@ class TripleDifferenceResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index f632a30..38a6eb6 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -196,7 +196,7 @@ class TROPResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 1a3ac42..5e9e0aa 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -202,7 +202,7 @@ class WildBootstrapResults:
             f"Bootstrap SE:        {self.se:.6f}",
             f"Bootstrap p-value:   {self.p_value:.4f}",
             f"Original t-stat:     {self.t_stat_original:.4f}",
-            f"CI ({int((1-self.alpha)*100)}%):           [{self.ci_lower:.6f}, {self.ci_upper:.6f}]",
+            f"CI ({(1 - self.alpha) * 100:g}%):           [{self.ci_lower:.6f}, {self.ci_upper:.6f}]",
             f"Number of clusters:  {self.n_clusters}",
             f"Bootstrap reps:      {self.n_bootstrap}",
             f"Weight type:         {self.weight_type}",
-- 
2.43.0


From 86625c89cd407250d87c6718e1695cf636c67b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 30/49] fix: an undefined robust interval does not count as
 excluding zero

---
 diff_diff/honest_did.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index b6c5aed..b3d756b 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -146,6 +146,11 @@ DeltaType = Union[DeltaSD, DeltaRM, DeltaSDRM]
 # =============================================================================
 
 
+def _excludes_zero(ci_lb: float, ci_ub: float) -> bool:
+    """Whether a confidence interval excludes zero (an undefined one does not)."""
+    return bool(ci_lb > 0 or ci_ub < 0)
+
+
 @dataclass
 class HonestDiDResults:
     """
@@ -197,7 +202,7 @@ class HonestDiDResults:
     )
 
     def __repr__(self) -> str:
-        sig = "" if self.ci_lb <= 0 <= self.ci_ub else "*"
+        sig = "*" if self.is_significant else ""
         return (
             f"HonestDiDResults(bounds=[{self.lb:.4f}, {self.ub:.4f}], "
             f"CI=[{self.ci_lb:.4f}, {self.ci_ub:.4f}]{sig}, "
@@ -207,7 +212,7 @@ class HonestDiDResults:
     @property
     def is_significant(self) -> bool:
         """Check if CI excludes zero (effect is robust to violations)."""
-        return not (self.ci_lb <= 0 <= self.ci_ub)
+        return _excludes_zero(self.ci_lb, self.ci_ub)
 
     @property
     def significance_stars(self) -> str:
@@ -443,7 +448,7 @@ class SensitivityResults:
                 "ub": ub,
                 "ci_lb": ci_lb,
                 "ci_ub": ci_ub,
-                "is_significant": not (ci_lb <= 0 <= ci_ub),
+                "is_significant": _excludes_zero(ci_lb, ci_ub),
             })
         return pd.DataFrame(rows)
 
@@ -1357,7 +1362,7 @@ class HonestDiD:
         Uses binary search for precision.
         """
         # Check if any CI includes zero
-        includes_zero = [ci_lb <= 0 <= ci_ub for ci_lb, ci_ub in ci_list]
+        includes_zero = [not _excludes_zero(ci_lb, ci_ub) for ci_lb, ci_ub in ci_list]
 
         if not any(includes_zero):
             # Always significant - no breakdown
@@ -1372,7 +1377,7 @@ class HonestDiD:
             lo = max(below)
         else:
             result = self.fit(results, M=0)
-            if result.ci_lb <= 0 <= result.ci_ub:
+            if not result.is_significant:
                 # Never significant - breakdown at 0
                 return 0.0
             lo = 0.0
@@ -1380,7 +1385,7 @@ class HonestDiD:
         for _ in range(20):  # 20 iterations for precision
             mid = (lo + hi) / 2
             result = self.fit(results, M=mid)
-            if result.ci_lb <= 0 <= result.ci_ub:
+            if not result.is_significant:
                 hi = mid
             else:
                 lo = mid
@@ -1412,12 +1417,12 @@ class HonestDiD:
         """
         # Check at M=0
         result_0 = self.fit(results, M=0)
-        if result_0.ci_lb <= 0 <= result_0.ci_ub:
+        if not result_0.is_significant:
             return 0.0
 
         # Check if significant even for large M
         result_large = self.fit(results, M=10)
-        if not (result_large.ci_lb <= 0 <= result_large.ci_ub):
+        if result_large.is_significant:
             return None  # Always significant
 
         # Binary search
@@ -1426,7 +1431,7 @@ class HonestDiD:
         while hi - lo > tol:
             mid = (lo + hi) / 2
             result = self.fit(results, M=mid)
-            if result.ci_lb <= 0 <= result.ci_ub:
+            if not result.is_significant:
                 hi = mid
             else:
                 lo = mid
-- 
2.43.0


From da26c46c89f6c088475d464bfbd957ef61877232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 31/49] fix: SensitivityResults repr shows a breakdown value of
 zero

---
 diff_diff/honest_did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index b3d756b..32e4dd7 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -382,7 +382,7 @@ class SensitivityResults:
     alpha: float = 0.05
 
     def __repr__(self) -> str:
-        breakdown_str = f"{self.breakdown_M:.4f}" if self.breakdown_M else "None"
+        breakdown_str = f"{self.breakdown_M:.4f}" if self.breakdown_M is not None else "None"
         return (
             f"SensitivityResults(n_M={len(self.M_values)}, "
             f"breakdown_M={breakdown_str})"
-- 
2.43.0


From fb9191858d20ff7eeacbf53a03e18efb75c55d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 32/49] fix: placebo summaries state the significance level
 that was used

---
 diff_diff/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index fae99e4..675498d 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -143,14 +143,14 @@ class PlaceboTestResults:
 
         if self.is_significant:
             lines.append(
-                "WARNING: Significant placebo effect detected (p < 0.05)."
+                f"WARNING: Significant placebo effect detected (p < {self.alpha:g})."
             )
             lines.append(
                 "This suggests potential violations of the parallel trends assumption."
             )
         else:
             lines.append(
-                "No significant placebo effect detected (p >= 0.05)."
+                f"No significant placebo effect detected (p >= {self.alpha:g})."
             )
             lines.append(
                 "This is consistent with the parallel trends assumption."
-- 
2.43.0


From c645217ef81703fc17f922006044b2188a067182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 33/49] fix: draw honest intervals that do not contain the
 point estimate

plot_honest_event_study drew the robust interval as an error bar around the
point estimate, so an interval that lies on one side of a period's estimate
gave a negative error and matplotlib raised ValueError. Centre the bar on the
interval instead.
---
 diff_diff/visualization.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/diff_diff/visualization.py b/diff_diff/visualization.py
index 3ba3a80..04c2784 100644
--- a/diff_diff/visualization.py
+++ b/diff_diff/visualization.py
@@ -842,13 +842,16 @@ def plot_honest_event_study(
         linewidth=1, alpha=0.6, label='Standard CI'
     )
 
-    # Plot honest CIs (thicker, foreground)
-    yerr_honest = [
-        [e - lower for e, lower in zip(effects, honest_ci_lower)],
-        [u - e for e, u in zip(effects, honest_ci_upper)]
+    # Plot honest CIs (thicker, foreground), centered on the interval itself: a
+    # robust interval need not contain the period's point estimate
+    honest_mid = [
+        (lower + u) / 2 for lower, u in zip(honest_ci_lower, honest_ci_upper)
+    ]
+    honest_half = [
+        (u - lower) / 2 for lower, u in zip(honest_ci_lower, honest_ci_upper)
     ]
     ax.errorbar(
-        x_vals, effects, yerr=yerr_honest,
+        x_vals, honest_mid, yerr=honest_half,
         fmt='none', color=honest_color, capsize=capsize,
         linewidth=2, label=f'Honest CI (M={honest_results.M:.2f})'
     )
-- 
2.43.0


From 64774509d3b368bbcccab133301cd42efbc4cd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 34/49] fix: label the true effect of a simulation as such in
 plot_power_curve

For SimulationPowerResults the marked line is the true effect, but its legend
entry called it the MDE.
---
 diff_diff/visualization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/visualization.py b/diff_diff/visualization.py
index 04c2784..917499d 100644
--- a/diff_diff/visualization.py
+++ b/diff_diff/visualization.py
@@ -1317,6 +1317,8 @@ def plot_power_curve(
             "Install it with: pip install matplotlib"
         )
 
+    mde_label = "MDE"
+
     # Extract data from results if provided
     if results is not None:
         if isinstance(results, pd.DataFrame):
@@ -1339,6 +1341,7 @@ def plot_power_curve(
             if mde is None and hasattr(results, "true_effect"):
                 # Mark true effect on plot
                 mde = results.true_effect
+                mde_label = "True effect"
         elif hasattr(results, "mde"):
             # PowerResults - create curve data
             raise ValueError(
@@ -1400,7 +1403,7 @@ def plot_power_curve(
             linestyle=":",
             linewidth=1.5,
             alpha=0.7,
-            label=f"MDE = {mde:.3f}"
+            label=f"{mde_label} = {mde:.3f}"
         )
 
         # Mark intersection point
-- 
2.43.0


From 2844fc03f779552957640135428edc2767b64f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 35/49] fix: mark the right power for unsorted curves

np.interp needs increasing x values; plot_power_curve and plot_pretrends_power
passed the values in the order given, so the marked point was off the curve.
---
 diff_diff/visualization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/diff_diff/visualization.py b/diff_diff/visualization.py
index 917499d..66d9455 100644
--- a/diff_diff/visualization.py
+++ b/diff_diff/visualization.py
@@ -1412,9 +1412,11 @@ def plot_power_curve(
             idx = effect_sizes.index(mde)
             power_at_mde = powers[idx]
         else:
-            # Interpolate
+            # Interpolate (np.interp needs increasing x values)
             effect_arr = np.array(effect_sizes)
             power_arr = np.array(powers)
+            order = np.argsort(effect_arr)
+            effect_arr, power_arr = effect_arr[order], power_arr[order]
             if effect_arr.min() <= mde <= effect_arr.max():
                 power_at_mde = np.interp(mde, effect_arr, power_arr)
             else:
@@ -1654,6 +1656,9 @@ def plot_pretrends_power(
             # Find power at MDV (interpolate)
             M_arr = np.array(M_values)
             power_arr = np.array(powers)
+            # np.interp needs increasing x values
+            order = np.argsort(M_arr)
+            M_arr, power_arr = M_arr[order], power_arr[order]
             if M_arr.min() <= mdv <= M_arr.max():
                 power_at_mdv = np.interp(mdv, M_arr, power_arr)
                 ax.scatter(
-- 
2.43.0


From 34da44c09a63bd318302b96037c3a2875e91ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 36/49] fix: plot_pretrends_power draws the target power of the
 results

The default 0.80 hid the results' own target power, so a curve computed for
another target was drawn with an 80% line and label.
---
 diff_diff/visualization.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/diff_diff/visualization.py b/diff_diff/visualization.py
index 66d9455..ebeeaf3 100644
--- a/diff_diff/visualization.py
+++ b/diff_diff/visualization.py
@@ -1460,7 +1460,7 @@ def plot_pretrends_power(
     M_values: Optional[List[float]] = None,
     powers: Optional[List[float]] = None,
     mdv: Optional[float] = None,
-    target_power: float = 0.80,
+    target_power: Optional[float] = None,
     figsize: Tuple[float, float] = (10, 6),
     title: str = "Pre-Trends Test Power Curve",
     xlabel: str = "Violation Magnitude (M)",
@@ -1493,8 +1493,9 @@ def plot_pretrends_power(
         Power values (y-axis). Required if results is None.
     mdv : float, optional
         Minimum detectable violation to mark on the plot.
-    target_power : float, default=0.80
-        Target power level to show as horizontal line.
+    target_power : float, optional
+        Target power level to show as horizontal line. If None, uses the
+        target power of ``results`` when it has one, and 0.80 otherwise.
     figsize : tuple, default=(10, 6)
         Figure size (width, height) in inches.
     title : str
@@ -1597,6 +1598,8 @@ def plot_pretrends_power(
             # Single PreTrendsPowerResults - create a simple plot
             if mdv is None:
                 mdv = results.mdv
+            if target_power is None:
+                target_power = results.target_power
             # Create minimal curve around MDV
             if np.isfinite(mdv):
                 M_values = [0, mdv * 0.5, mdv, mdv * 1.5, mdv * 2]
@@ -1614,6 +1617,9 @@ def plot_pretrends_power(
             "Must provide either 'results' or both 'M_values' and 'powers'"
         )
 
+    if target_power is None:
+        target_power = 0.80
+
     # Create figure if needed
     if ax is None:
         fig, ax = plt.subplots(figsize=figsize)
-- 
2.43.0


From 8b0524b05ce981f03e520f0f932ed4dfe8ee03d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 37/49] fix: wild cluster bootstrap imposes the null hypothesis

The bootstrap data were generated from the unrestricted fit, so the bootstrap
t statistics were centered at the observed one instead of zero and the p-value
was about one half whatever the effect. Re-estimate the model with the tested
coefficient fixed at the null (the documented WCR procedure) for the t
statistics, and keep the coefficient distribution used for the standard error
and the interval centered at the estimate, also for a non-zero null.
---
 diff_diff/utils.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 5e9e0aa..f112b74 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -437,7 +437,7 @@ def wild_bootstrap_se(
     n = X.shape[0]
 
     # Step 1: Compute original coefficient and cluster-robust SE
-    beta_hat, _, vcov_original = _solve_ols_linalg(
+    beta_hat, residuals_full, vcov_original = _solve_ols_linalg(
         X, y, cluster_ids=cluster_ids, return_vcov=True
     )
     original_coef = beta_hat[coefficient_index]
@@ -445,16 +445,18 @@ def wild_bootstrap_se(
     t_stat_original = (original_coef - null_hypothesis) / se_original
 
     # Step 2: Impose null hypothesis (restricted estimation)
-    # Create restricted y: y_restricted = y - X[:, coef_index] * null_hypothesis
-    # This imposes the null that the coefficient equals null_hypothesis
-    y_restricted = y - X[:, coefficient_index] * null_hypothesis
-
-    # Fit restricted model (but we need to drop the column for the restricted coef)
-    # Actually, for WCR bootstrap we keep all columns but impose the null via residuals
-    # Re-estimate with the restricted dependent variable
-    beta_restricted, residuals_restricted, _ = _solve_ols_linalg(
-        X, y_restricted, return_vcov=False
-    )
+    # Fix the tested coefficient at its hypothesized value and re-estimate the
+    # others, so that the bootstrap data satisfy the null
+    X_restricted = np.delete(X, coefficient_index, axis=1)
+    null_part = X[:, coefficient_index] * null_hypothesis
+    if X_restricted.shape[1] > 0:
+        _, residuals_restricted, _ = _solve_ols_linalg(
+            X_restricted, y - null_part, return_vcov=False
+        )
+    else:
+        residuals_restricted = y - null_part
+    fitted_restricted = y - residuals_restricted
+    fitted_full = y - residuals_full
 
     # Create cluster-to-observation mapping for efficiency
     cluster_map = {c: np.where(cluster_ids == c)[0] for c in unique_clusters}
@@ -473,14 +475,13 @@ def wild_bootstrap_se(
         for g, indices in enumerate(cluster_indices):
             obs_weights[indices] = cluster_weights[g]
 
-        # Construct bootstrap sample: y* = X @ beta_restricted + e_restricted * weights
-        y_star = X @ beta_restricted + residuals_restricted * obs_weights
+        # Construct bootstrap sample: y* = fitted_restricted + e_restricted * weights
+        y_star = fitted_restricted + residuals_restricted * obs_weights
 
         # Estimate bootstrap coefficients with cluster-robust SE
-        beta_star, residuals_star, vcov_star = _solve_ols_linalg(
+        beta_star, _, vcov_star = _solve_ols_linalg(
             X, y_star, cluster_ids=cluster_ids, return_vcov=True
         )
-        bootstrap_coefs[b] = beta_star[coefficient_index]
         se_star = np.sqrt(vcov_star[coefficient_index, coefficient_index])
 
         # Compute bootstrap t-statistic (under null hypothesis)
@@ -489,6 +490,13 @@ def wild_bootstrap_se(
         else:
             bootstrap_t_stats[b] = 0.0
 
+        # Coefficient distribution for the SE and the interval: same weights on
+        # the unrestricted residuals, which centers it at the estimate
+        beta_full, _, _ = _solve_ols_linalg(
+            X, fitted_full + residuals_full * obs_weights, return_vcov=False
+        )
+        bootstrap_coefs[b] = beta_full[coefficient_index]
+
     # Step 4: Compute bootstrap p-value
     # P-value is proportion of |t*| >= |t_original|
     p_value = np.mean(np.abs(bootstrap_t_stats) >= np.abs(t_stat_original))
-- 
2.43.0


From a16dd0db1472a063dae6437763d40b6167b5772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 38/49] fix: count wild bootstrap draws that reproduce the
 sample as ties

Draws with equal weights in all clusters reproduce the original t statistic;
rounding decided whether they counted as at least as extreme, so with five
clusters the p-value could be 0.001 where 2/32 is the smallest possible.
---
 diff_diff/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index f112b74..6ab69d0 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -499,7 +499,9 @@ def wild_bootstrap_se(
 
     # Step 4: Compute bootstrap p-value
     # P-value is proportion of |t*| >= |t_original|
-    p_value = np.mean(np.abs(bootstrap_t_stats) >= np.abs(t_stat_original))
+    # (draws that reproduce the original sample tie with it up to rounding)
+    threshold = np.abs(t_stat_original) * (1 - 1e-8)
+    p_value = np.mean(np.abs(bootstrap_t_stats) >= threshold)
 
     # Ensure p-value is at least 1/(n_bootstrap+1) to avoid exact zero
     p_value = float(max(float(p_value), 1 / (n_bootstrap + 1)))
-- 
2.43.0


From 0e0cef9de152652dce5ee3c5be0d80a2b7ae79c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:39 +0000
Subject: [PATCH 39/49] fix: wild bootstrap inference with collinear covariates

A covariate that is collinear and dropped (with a warning) made the wild
bootstrap raise on the singular design, although the treatment effect is
identified; a dropped treatment term would have had p = 1/(B+1). Use the
rank-aware solver for the stored covariance and leave the p-value undefined
when the statistic is.
---
 diff_diff/estimators.py |  7 +++++--
 diff_diff/utils.py      | 11 ++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 01c2d0f..3b0cf9a 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -20,7 +20,6 @@ import pandas as pd
 from diff_diff.linalg import (
     LinearRegression,
     compute_r_squared,
-    compute_robust_vcov,
     solve_ols,
 )
 from diff_diff.results import DiDResults, MultiPeriodDiDResults, PeriodEffect
@@ -434,7 +433,11 @@ class DifferenceInDifferences:
         t_stat = bootstrap_results.t_stat_original
 
         # Also compute vcov for storage (using cluster-robust for consistency)
-        vcov = compute_robust_vcov(X, residuals, cluster_ids)
+        # (NaN for dropped columns, as in the analytical path)
+        _, _, vcov = solve_ols(
+            X, y, cluster_ids=cluster_ids, return_vcov=True,
+            rank_deficient_action="silent"
+        )
 
         return se, p_value, conf_int, t_stat, vcov, bootstrap_results
 
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 6ab69d0..d35e370 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -451,7 +451,8 @@ def wild_bootstrap_se(
     null_part = X[:, coefficient_index] * null_hypothesis
     if X_restricted.shape[1] > 0:
         _, residuals_restricted, _ = _solve_ols_linalg(
-            X_restricted, y - null_part, return_vcov=False
+            X_restricted, y - null_part, return_vcov=False,
+            rank_deficient_action="silent"
         )
     else:
         residuals_restricted = y - null_part
@@ -480,7 +481,8 @@ def wild_bootstrap_se(
 
         # Estimate bootstrap coefficients with cluster-robust SE
         beta_star, _, vcov_star = _solve_ols_linalg(
-            X, y_star, cluster_ids=cluster_ids, return_vcov=True
+            X, y_star, cluster_ids=cluster_ids, return_vcov=True,
+            rank_deficient_action="silent"
         )
         se_star = np.sqrt(vcov_star[coefficient_index, coefficient_index])
 
@@ -493,7 +495,8 @@ def wild_bootstrap_se(
         # Coefficient distribution for the SE and the interval: same weights on
         # the unrestricted residuals, which centers it at the estimate
         beta_full, _, _ = _solve_ols_linalg(
-            X, fitted_full + residuals_full * obs_weights, return_vcov=False
+            X, fitted_full + residuals_full * obs_weights, return_vcov=False,
+            rank_deficient_action="silent"
         )
         bootstrap_coefs[b] = beta_full[coefficient_index]
 
@@ -505,6 +508,8 @@ def wild_bootstrap_se(
 
     # Ensure p-value is at least 1/(n_bootstrap+1) to avoid exact zero
     p_value = float(max(float(p_value), 1 / (n_bootstrap + 1)))
+    if np.isnan(t_stat_original):
+        p_value = np.nan  # Nothing to compare the draws with
 
     # Step 5: Compute bootstrap SE and confidence interval
     # SE from standard deviation of bootstrap coefficient distribution
-- 
2.43.0


From 5e65a0fb67a1e5d47c2ebf5174cf9f721b9c9aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 40/49] fix: fall back to the cache or the constructed data
 when a download is cut off

---
 diff_diff/datasets.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index d676a5c..c842d45 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -8,10 +8,10 @@ All datasets are downloaded from public sources and cached locally
 for subsequent use.
 """
 
+from http.client import HTTPException
 from io import StringIO
 from pathlib import Path
 from typing import Dict
-from urllib.error import HTTPError, URLError
 from urllib.request import urlopen
 
 import numpy as np
@@ -42,9 +42,9 @@ def _download_with_cache(
     try:
         with urlopen(url, timeout=30) as response:
             content = response.read().decode("utf-8")
-            cache_path.write_text(content)
-            return content
-    except (HTTPError, URLError) as e:
+    except (OSError, HTTPException) as e:
+        # OSError covers URLError and HTTPError as well as timeouts and
+        # connections lost while the response is being read
         if cache_path.exists():
             # Use cached version if download fails
             return cache_path.read_text()
@@ -53,6 +53,9 @@ def _download_with_cache(
             "Check your internet connection or try again later."
         ) from e
 
+    cache_path.write_text(content)
+    return content
+
 
 def clear_cache() -> None:
     """Clear the local dataset cache."""
-- 
2.43.0


From 67d922df71ad040e674cacd29bdab26b0bbfca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 41/49] fix: an interrupted or failed cache write no longer
 breaks later loads

---
 diff_diff/datasets.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index c842d45..8479bdc 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -8,6 +8,7 @@ All datasets are downloaded from public sources and cached locally
 for subsequent use.
 """
 
+import os
 from http.client import HTTPException
 from io import StringIO
 from pathlib import Path
@@ -24,10 +25,23 @@ _CACHE_DIR = Path.home() / ".cache" / "diff_diff" / "datasets"
 
 def _get_cache_path(name: str) -> Path:
     """Get the cache path for a dataset."""
-    _CACHE_DIR.mkdir(parents=True, exist_ok=True)
     return _CACHE_DIR / f"{name}.csv"
 
 
+def _write_cache(cache_path: Path, content: str) -> None:
+    """Cache a download, all of it or nothing; a cache that cannot be written is no error."""
+    tmp_path = cache_path.with_name(f"{cache_path.name}.{os.getpid()}.tmp")
+    try:
+        cache_path.parent.mkdir(parents=True, exist_ok=True)
+        try:
+            tmp_path.write_text(content)
+            os.replace(tmp_path, cache_path)
+        finally:
+            tmp_path.unlink(missing_ok=True)
+    except OSError:
+        pass
+
+
 def _download_with_cache(
     url: str,
     name: str,
@@ -53,7 +67,7 @@ def _download_with_cache(
             "Check your internet connection or try again later."
         ) from e
 
-    cache_path.write_text(content)
+    _write_cache(cache_path, content)
     return content
 
 
-- 
2.43.0


From 5e634f3f467afb328670a1176599f730b98e8092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 42/49] fix: relative-magnitude bounds skip pre-period effects
 that were not estimated

---
 diff_diff/honest_did.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 32e4dd7..f6677d1 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1267,7 +1267,8 @@ class HonestDiD:
                 pre_effects = []
                 for period in pre_periods:
                     for name, coef in results.coefficients.items():
-                        if name.endswith(f":period_{period}"):
+                        # Dropped (collinear) coefficients are NaN: not estimated
+                        if name.endswith(f":period_{period}") and np.isfinite(coef):
                             pre_effects.append(abs(coef))
 
                 if pre_effects:
@@ -1287,6 +1288,7 @@ class HonestDiD:
                         for t in results.event_study_effects
                         if t < 0
                         and results.event_study_effects[t].get('n_groups', 1) > 0
+                        and np.isfinite(results.event_study_effects[t]['effect'])
                     ]
                     if pre_effects:
                         return max(pre_effects)
-- 
2.43.0


From 55d7493f864a7e471cb13100b83f3d9824d91568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 43/49] fix: two-way within transformation is exact on
 unbalanced panels

Subtracting unit and period means and adding the grand mean back is the
projection off both sets of dummies only on balanced panels.  TWFE,
SunAbraham and the Bacon benchmark therefore reported something else than
the two-way fixed-effects regression on unbalanced panels.
---
 diff_diff/utils.py | 68 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 11 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index d35e370..d93dc0c 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1422,6 +1422,43 @@ def demean_by_group(
     return data, n_effects
 
 
+def absorb_fixed_effects(columns: pd.DataFrame, groups: List[pd.Series]) -> pd.DataFrame:
+    """
+    Residuals of columns from the regression on dummies for every grouping.
+
+    Exact for unbalanced data, where removing the group means of one grouping
+    after the other is not. Follows Frisch-Waugh-Lovell: remove the means of the
+    first grouping, then project off the dummies of the others with their means
+    removed as well.
+
+    Parameters
+    ----------
+    columns : pd.DataFrame
+        Columns to transform.
+    groups : list of pd.Series
+        Group membership for each absorbed fixed effect, in the rows of columns.
+
+    Returns
+    -------
+    pd.DataFrame
+        Transformed columns, same shape and labels as the input.
+    """
+    keys = [g.to_numpy() for g in groups]
+    within = columns - columns.groupby(keys[0], sort=False).transform("mean")
+    if len(keys) > 1:
+        dummies = pd.concat(
+            [
+                pd.get_dummies(pd.Series(key, index=columns.index), prefix=i, drop_first=True)
+                for i, key in enumerate(keys[1:])
+            ],
+            axis=1,
+        ).astype(float)
+        dummies = dummies - dummies.groupby(keys[0], sort=False).transform("mean")
+        coefficients = np.linalg.lstsq(dummies.to_numpy(), within.to_numpy(), rcond=None)[0]
+        within = within - dummies.to_numpy() @ coefficients
+    return within
+
+
 def within_transform(
     data: pd.DataFrame,
     variables: List[str],
@@ -1433,7 +1470,9 @@ def within_transform(
     """
     Apply two-way within transformation to remove unit and time fixed effects.
 
-    Computes: y_it - y_i. - y_.t + y_.. for each variable.
+    Computes: y_it - y_i. - y_.t + y_.. for each variable (for unbalanced panels,
+    the residual from the regression on unit and time dummies, which this formula
+    equals only in the balanced case).
 
     This is the standard fixed effects transformation for panel data that
     removes both unit-specific and time-specific effects.
@@ -1478,23 +1517,30 @@ def within_transform(
     unit_grouper = data.groupby(unit, sort=False)
     time_grouper = data.groupby(time, sort=False)
 
+    # Subtracting unit and time means is only the projection off both sets of
+    # dummies when every unit-period cell has the same number of rows
+    cell_sizes = data.groupby([unit, time]).size()
+    balanced = (
+        len(cell_sizes) == data[unit].nunique() * data[time].nunique()
+        and cell_sizes.nunique() == 1
+    )
+    def _demean(var: str) -> pd.Series:
+        if not balanced:
+            return absorb_fixed_effects(data[[var]], [data[unit], data[time]])[var]
+        unit_means = unit_grouper[var].transform("mean")
+        time_means = time_grouper[var].transform("mean")
+        grand_mean = data[var].mean()
+        return data[var] - unit_means - time_means + grand_mean
+
     if inplace:
         # Modify columns in place
         for var in variables:
-            unit_means = unit_grouper[var].transform("mean")
-            time_means = time_grouper[var].transform("mean")
-            grand_mean = data[var].mean()
-            data[var] = data[var] - unit_means - time_means + grand_mean
+            data[var] = _demean(var)
     else:
         # Build all demeaned columns at once to avoid DataFrame fragmentation
         demeaned_data = {}
         for var in variables:
-            unit_means = unit_grouper[var].transform("mean")
-            time_means = time_grouper[var].transform("mean")
-            grand_mean = data[var].mean()
-            demeaned_data[f"{var}{suffix}"] = (
-                data[var] - unit_means - time_means + grand_mean
-            ).values
+            demeaned_data[f"{var}{suffix}"] = _demean(var).values
 
         # Add all columns at once
         demeaned_df = pd.DataFrame(demeaned_data, index=data.index)
-- 
2.43.0


From a6e60251600a9c4db56eea0ce7dabf0b006c2113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:00 +0000
Subject: [PATCH 44/49] fix: absorbed fixed effects are removed from every
 regressor

absorb= demeaned the outcome and the covariates but not treatment, period
and their interaction, which equals the fixed-effects regression only on
balanced panels without covariates that vary across absorbed groups.
---
 diff_diff/estimators.py | 45 +++++++++++++++--------------------------
 diff_diff/utils.py      | 38 ++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+), 29 deletions(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 3b0cf9a..0959c3e 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -27,7 +27,7 @@ from diff_diff.utils import (
     WildBootstrapResults,
     compute_confidence_interval,
     compute_p_value,
-    demean_by_group,
+    absorb_from_design,
     validate_binary,
     wild_bootstrap_se,
 )
@@ -227,25 +227,9 @@ class DifferenceInDifferences:
                 if ab not in data.columns:
                     raise ValueError(f"Absorb column '{ab}' not found in data")
 
-        # Handle absorbed fixed effects (within-transformation)
         working_data = data.copy()
-        absorbed_vars = []
-        n_absorbed_effects = 0
 
-        if absorb:
-            # Apply within-transformation for each absorbed variable
-            # Only demean outcome and covariates, NOT treatment/time indicators
-            # Treatment is typically time-invariant (within unit), and time is
-            # unit-invariant, so demeaning them would create multicollinearity
-            vars_to_demean = [outcome] + (covariates or [])
-            for ab_var in absorb:
-                working_data, n_fe = demean_by_group(
-                    working_data, vars_to_demean, ab_var, inplace=True
-                )
-                n_absorbed_effects += n_fe
-                absorbed_vars.append(ab_var)
-
-        # Extract variables (may be demeaned if absorb was used)
+        # Extract variables
         y = working_data[outcome].values.astype(float)
         d = working_data[treatment].values.astype(float)
         t = working_data[time].values.astype(float)
@@ -267,12 +251,18 @@ class DifferenceInDifferences:
         if fixed_effects:
             for fe in fixed_effects:
                 # Create dummies, drop first category to avoid multicollinearity
-                # Use working_data to be consistent with absorbed FE if both are used
                 dummies = pd.get_dummies(working_data[fe], prefix=fe, drop_first=True)
                 for col in dummies.columns:
                     X = np.column_stack([X, dummies[col].values.astype(float)])
                     var_names.append(col)
 
+        # Absorb fixed effects from the outcome and every regressor (within-transformation)
+        n_absorbed_effects = 0
+        if absorb:
+            X, y, n_absorbed_effects = absorb_from_design(
+                X, y, [working_data[ab] for ab in absorb], n_main=3
+            )
+
         # Extract ATT index (coefficient on interaction term)
         att_idx = 3  # Index of interaction term
         att_var_name = f"{treatment}:{time}"
@@ -829,17 +819,7 @@ class MultiPeriodDiD(DifferenceInDifferences):
                 if ab not in data.columns:
                     raise ValueError(f"Absorb column '{ab}' not found in data")
 
-        # Handle absorbed fixed effects (within-transformation)
         working_data = data.copy()
-        n_absorbed_effects = 0
-
-        if absorb:
-            vars_to_demean = [outcome] + (covariates or [])
-            for ab_var in absorb:
-                working_data, n_fe = demean_by_group(
-                    working_data, vars_to_demean, ab_var, inplace=True
-                )
-                n_absorbed_effects += n_fe
 
         # Extract outcome and treatment
         y = working_data[outcome].values.astype(float)
@@ -885,6 +865,13 @@ class MultiPeriodDiD(DifferenceInDifferences):
                     X = np.column_stack([X, dummies[col].values.astype(float)])
                     var_names.append(col)
 
+        # Absorb fixed effects from the outcome and every regressor (within-transformation)
+        n_absorbed_effects = 0
+        if absorb:
+            X, y, n_absorbed_effects = absorb_from_design(
+                X, y, [working_data[ab] for ab in absorb], n_main=2 + len(non_ref_periods)
+            )
+
         # Fit OLS using unified backend
         # Pass cluster_ids to solve_ols for proper vcov computation
         # This handles rank-deficient matrices by returning NaN for dropped columns
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index d93dc0c..5440e34 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1459,6 +1459,44 @@ def absorb_fixed_effects(columns: pd.DataFrame, groups: List[pd.Series]) -> pd.D
     return within
 
 
+def absorb_from_design(
+    X: np.ndarray, y: np.ndarray, groups: List[pd.Series], n_main: int
+) -> Tuple[np.ndarray, np.ndarray, int]:
+    """
+    Absorb fixed effects from both sides of a regression.
+
+    The first n_main columns (intercept and main effects) are kept as they are
+    when the absorbed effects span them: they are orthogonal to the transformed
+    columns then and change no other coefficient.
+
+    Parameters
+    ----------
+    X : np.ndarray
+        Design matrix, intercept first.
+    y : np.ndarray
+        Outcome.
+    groups : list of pd.Series
+        Group membership for each absorbed fixed effect.
+    n_main : int
+        Number of leading columns of X kept when spanned by the absorbed effects.
+
+    Returns
+    -------
+    X, y : np.ndarray
+        Transformed design and outcome.
+    n_effects : int
+        Number of absorbed effects not already counted as a column of X.
+    """
+    design = absorb_fixed_effects(pd.DataFrame(X), groups).to_numpy(copy=True)
+    spanned = np.abs(design).max(axis=0) <= 1e-10 * np.abs(X).max(axis=0)
+    design[:, spanned] = 0.0
+    kept = [j for j in range(n_main) if spanned[j]]
+    design[:, kept] = X[:, kept]
+    outcome = absorb_fixed_effects(pd.DataFrame({"y": y}), groups)["y"].to_numpy()
+    n_effects = sum(g.nunique() - 1 for g in groups) - (len(kept) - 1)
+    return design, outcome, n_effects
+
+
 def within_transform(
     data: pd.DataFrame,
     variables: List[str],
-- 
2.43.0


From 2ee982fc770fddc04412579dba8b98e8641ab444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:31 +0000
Subject: [PATCH 45/49] fix: absorbed fixed effects count in the residual
 degrees of freedom of the variance

With absorb= the classical and HC1 variances divided by n - k as if nothing
had been absorbed, so standard errors were too small (by 30% in a two-period
panel) although the t distribution already used the smaller df.  Redundant
effects of nested groupings are not counted.
---
 diff_diff/estimators.py | 11 +++++++++--
 diff_diff/utils.py      | 26 +++++++++++++++++---------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 0959c3e..9e4869f 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -296,6 +296,10 @@ class DifferenceInDifferences:
             )
         else:
             # Use analytical inference from LinearRegression
+            if n_absorbed_effects and cluster_ids is None:
+                # Absorbed effects count in the residual degrees of freedom
+                scale = (reg.df_ + n_absorbed_effects) / reg.df_ if reg.df_ > 0 else np.nan
+                reg.vcov_ = reg.vcov_ * scale
             vcov = reg.vcov_
             inference = reg.get_inference(att_idx)
             se = inference.se
@@ -896,8 +900,7 @@ class MultiPeriodDiD(DifferenceInDifferences):
         # For non-robust, non-clustered case, we need homoskedastic vcov
         # solve_ols returns HC1 by default, so compute homoskedastic if needed
         if not self.robust and self.cluster is None:
-            n = len(y)
-            mse = np.sum(residuals**2) / (n - k_effective)
+            mse = np.sum(residuals**2) / df
             # Use solve() instead of inv() for numerical stability
             # Only compute for identified columns (non-NaN coefficients)
             identified_mask = ~np.isnan(coefficients)
@@ -911,6 +914,10 @@ class MultiPeriodDiD(DifferenceInDifferences):
                 vcov = np.full((X.shape[1], X.shape[1]), np.nan)
                 vcov[np.ix_(identified_mask, identified_mask)] = vcov_reduced
 
+        elif n_absorbed_effects and self.cluster is None:
+            # Absorbed effects count in the HC1 small-sample factor
+            vcov = vcov * ((df + n_absorbed_effects) / df if df > 0 else np.nan)
+
         # Extract period-specific treatment effects
         period_effects = {}
         effect_values = []
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 5440e34..b883953 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1422,7 +1422,9 @@ def demean_by_group(
     return data, n_effects
 
 
-def absorb_fixed_effects(columns: pd.DataFrame, groups: List[pd.Series]) -> pd.DataFrame:
+def absorb_fixed_effects(
+    columns: pd.DataFrame, groups: List[pd.Series]
+) -> Tuple[pd.DataFrame, int]:
     """
     Residuals of columns from the regression on dummies for every grouping.
 
@@ -1440,10 +1442,13 @@ def absorb_fixed_effects(columns: pd.DataFrame, groups: List[pd.Series]) -> pd.D
 
     Returns
     -------
-    pd.DataFrame
+    within : pd.DataFrame
         Transformed columns, same shape and labels as the input.
+    n_effects : int
+        Number of absorbed effects beyond the intercept, without redundant ones.
     """
     keys = [g.to_numpy() for g in groups]
+    n_effects = groups[0].nunique() - 1
     within = columns - columns.groupby(keys[0], sort=False).transform("mean")
     if len(keys) > 1:
         dummies = pd.concat(
@@ -1454,9 +1459,12 @@ def absorb_fixed_effects(columns: pd.DataFrame, groups: List[pd.Series]) -> pd.D
             axis=1,
         ).astype(float)
         dummies = dummies - dummies.groupby(keys[0], sort=False).transform("mean")
-        coefficients = np.linalg.lstsq(dummies.to_numpy(), within.to_numpy(), rcond=None)[0]
+        coefficients, _, rank, _ = np.linalg.lstsq(
+            dummies.to_numpy(), within.to_numpy(), rcond=None
+        )
         within = within - dummies.to_numpy() @ coefficients
-    return within
+        n_effects += int(rank)
+    return within, n_effects
 
 
 def absorb_from_design(
@@ -1487,14 +1495,14 @@ def absorb_from_design(
     n_effects : int
         Number of absorbed effects not already counted as a column of X.
     """
-    design = absorb_fixed_effects(pd.DataFrame(X), groups).to_numpy(copy=True)
+    within, n_effects = absorb_fixed_effects(pd.DataFrame(X), groups)
+    design = within.to_numpy(copy=True)
     spanned = np.abs(design).max(axis=0) <= 1e-10 * np.abs(X).max(axis=0)
     design[:, spanned] = 0.0
     kept = [j for j in range(n_main) if spanned[j]]
     design[:, kept] = X[:, kept]
-    outcome = absorb_fixed_effects(pd.DataFrame({"y": y}), groups)["y"].to_numpy()
-    n_effects = sum(g.nunique() - 1 for g in groups) - (len(kept) - 1)
-    return design, outcome, n_effects
+    outcome = absorb_fixed_effects(pd.DataFrame({"y": y}), groups)[0]["y"].to_numpy()
+    return design, outcome, n_effects - (len(kept) - 1)
 
 
 def within_transform(
@@ -1564,7 +1572,7 @@ def within_transform(
     )
     def _demean(var: str) -> pd.Series:
         if not balanced:
-            return absorb_fixed_effects(data[[var]], [data[unit], data[time]])[var]
+            return absorb_fixed_effects(data[[var]], [data[unit], data[time]])[0][var]
         unit_means = unit_grouper[var].transform("mean")
         time_means = time_grouper[var].transform("mean")
         grand_mean = data[var].mean()
-- 
2.43.0


From b87797394ad96980c8d8797122813f92f4482169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:31 +0000
Subject: [PATCH 46/49] fix: SunAbraham estimates every observed relative
 period

Relative periods beyond +-20 were dropped from the saturated regression, so those
observations silently joined the reference period and biased every other effect.
---
 diff_diff/sun_abraham.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index b27fe93..edf95fd 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -537,18 +537,16 @@ class SunAbraham:
 
         all_rel_times_sorted = sorted(all_rel_times)
 
-        # Filter to reasonable range
-        min_rel = max(min(all_rel_times_sorted), -20)  # cap at -20
-        max_rel = min(max(all_rel_times_sorted), 20)   # cap at +20
-
         # Reference period: last pre-treatment period (typically -1)
         self._reference_period = -1 - self.anticipation
 
-        # Get relative periods to estimate (excluding reference)
+        # Relative periods to estimate: every observed one except the reference.
+        # A relative period left out of the saturated regression would silently join
+        # the reference period and bias every other effect.
         rel_periods_to_estimate = [
             e
             for e in all_rel_times_sorted
-            if min_rel <= e <= max_rel and e != self._reference_period
+            if e != self._reference_period
         ]
 
         # Determine cluster variable
-- 
2.43.0


From b596c269c9a690360c32fd6920f156548ac5606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:53 +0000
Subject: [PATCH 47/49] fix: constructed data sets do not reseed numpy's global
 generator

Loading a bundled data set while its source is unreachable called
np.random.seed, which reset the caller's own stream of random numbers.  The
tables are now drawn from a generator of their own, with the same values.
---
 diff_diff/datasets.py | 58 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index 8479bdc..6d99db8 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -177,7 +177,7 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     Uses aggregated data that preserves the key DiD estimates.
     """
     # Representative sample based on published summary statistics
-    np.random.seed(1994)  # Card-Krueger publication year, for reproducibility
+    rng = np.random.RandomState(1994)  # Card-Krueger publication year, for reproducibility
 
     stores = []
     store_id = 1
@@ -188,8 +188,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 85, "kfc": 62, "roys": 48, "wendys": 36}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(20.44, 8.5)
-            emp_post = emp_pre + np.random.normal(0.59, 7.0)  # Change ≈ 0.59
+            emp_pre = rng.normal(20.44, 8.5)
+            emp_post = emp_pre + rng.normal(0.59, 7.0)  # Change ≈ 0.59
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -199,8 +199,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.61, 0.35), 2),
-                "wage_post": round(np.random.normal(5.08, 0.12), 2),
+                "wage_pre": round(rng.normal(4.61, 0.35), 2),
+                "wage_post": round(rng.normal(5.08, 0.12), 2),
             })
             store_id += 1
 
@@ -210,8 +210,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 30, "kfc": 20, "roys": 14, "wendys": 15}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(23.33, 8.2)
-            emp_post = emp_pre + np.random.normal(-2.16, 7.0)  # Change ≈ -2.16
+            emp_pre = rng.normal(23.33, 8.2)
+            emp_post = emp_pre + rng.normal(-2.16, 7.0)  # Change ≈ -2.16
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -221,8 +221,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.63, 0.35), 2),
-                "wage_post": round(np.random.normal(4.62, 0.35), 2),
+                "wage_pre": round(rng.normal(4.63, 0.35), 2),
+                "wage_post": round(rng.normal(4.62, 0.35), 2),
             })
             store_id += 1
 
@@ -322,7 +322,7 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2013)  # Cheng-Hoekstra publication year, for reproducibility
+    rng = np.random.RandomState(2013)  # Cheng-Hoekstra publication year, for reproducibility
 
     # States and their Castle Doctrine adoption years
     # 0 = never adopted during the study period
@@ -345,9 +345,9 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baseline characteristics
-        base_homicide = np.random.uniform(3.0, 8.0)
-        pop = np.random.randint(500000, 20000000)
-        base_income = np.random.uniform(30000, 50000)
+        base_homicide = rng.uniform(3.0, 8.0)
+        pop = rng.randint(500000, 20000000)
+        base_income = rng.uniform(30000, 50000)
 
         for year in range(2000, 2011):
             # Time trend
@@ -359,15 +359,15 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
             else:
                 treatment_effect = 0
 
-            homicide = max(0, base_homicide + time_effect + treatment_effect + np.random.normal(0, 0.5))
+            homicide = max(0, base_homicide + time_effect + treatment_effect + rng.normal(0, 0.5))
 
             data.append({
                 "state": state,
                 "year": year,
                 "first_treat": first_treat,
                 "homicide_rate": round(homicide, 2),
-                "population": pop + year * 10000 + np.random.randint(-5000, 5000),
-                "income": round(base_income * (1 + 0.02 * (year - 2000)) + np.random.normal(0, 1000), 0),
+                "population": pop + year * 10000 + rng.randint(-5000, 5000),
+                "income": round(base_income * (1 + 0.02 * (year - 2000)) + rng.normal(0, 1000), 0),
                 "treated": int(first_treat > 0 and year >= first_treat),
             })
 
@@ -471,7 +471,7 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2006)  # Stevenson-Wolfers publication year, for reproducibility
+    rng = np.random.RandomState(2006)  # Stevenson-Wolfers publication year, for reproducibility
 
     # State adoption years for unilateral divorce (from Wolfers 2006)
     # 0 = never adopted or adopted before 1968
@@ -494,9 +494,9 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baselines
-        base_divorce = np.random.uniform(2.0, 6.0)
-        base_lfp = np.random.uniform(0.35, 0.55)
-        base_suicide = np.random.uniform(4.0, 8.0)
+        base_divorce = rng.uniform(2.0, 6.0)
+        base_lfp = rng.uniform(0.35, 0.55)
+        base_suicide = rng.uniform(4.0, 8.0)
 
         for year in range(1968, 1989):
             # Time trends
@@ -529,11 +529,11 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
                 "year": year,
                 "first_treat": first_treat if first_treat >= 1968 else 0,
                 "divorce_rate": round(max(0, base_divorce + time_trend + divorce_effect +
-                                          np.random.normal(0, 0.3)), 2),
+                                          rng.normal(0, 0.3)), 2),
                 "female_lfp": round(min(1, max(0, base_lfp + 0.01 * (year - 1968) +
-                                               lfp_effect + np.random.normal(0, 0.02))), 3),
+                                               lfp_effect + rng.normal(0, 0.02))), 3),
                 "suicide_rate": round(max(0, base_suicide + suicide_effect +
-                                          np.random.normal(0, 0.5)), 2),
+                                          rng.normal(0, 0.5)), 2),
             })
 
     df = pd.DataFrame(data)
@@ -618,7 +618,7 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     This replicates the simulated dataset used in Callaway-Sant'Anna tutorials.
     """
-    np.random.seed(2021)  # Callaway-Sant'Anna publication year, for reproducibility
+    rng = np.random.RandomState(2021)  # Callaway-Sant'Anna publication year, for reproducibility
 
     n_counties = 500
     years = [2003, 2004, 2005, 2006, 2007]
@@ -629,9 +629,9 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     data = []
     for county in range(1, n_counties + 1):
-        first_treat = np.random.choice(cohorts, p=cohort_probs)
-        base_lpop = np.random.normal(12.0, 1.0)
-        base_lemp = base_lpop - np.random.uniform(1.5, 2.5)
+        first_treat = rng.choice(cohorts, p=cohort_probs)
+        base_lpop = rng.normal(12.0, 1.0)
+        base_lemp = base_lpop - rng.uniform(1.5, 2.5)
 
         for year in years:
             time_effect = (year - 2003) * 0.02
@@ -650,8 +650,8 @@ def _construct_mpdta_data() -> pd.DataFrame:
             data.append({
                 "countyreal": county,
                 "year": year,
-                "lpop": round(base_lpop + np.random.normal(0, 0.05), 4),
-                "lemp": round(base_lemp + time_effect + te + np.random.normal(0, 0.02), 4),
+                "lpop": round(base_lpop + rng.normal(0, 0.05), 4),
+                "lemp": round(base_lemp + time_effect + te + rng.normal(0, 0.02), 4),
                 "first_treat": first_treat,
                 "treat": int(first_treat > 0),
             })
-- 
2.43.0


From d42e099b78c9a51d64c297bcc8fc0d4b7e16e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:08 +0000
Subject: [PATCH 48/49] fix: SunAbraham weighs cohorts by the units observed at
 the relative time

The interaction weights used each cohort's size in the whole panel, not its
number of units at the relative time (n_{g,e}), so effects were mis-weighted
when units of a cohort are missing in some periods.
---
 diff_diff/sun_abraham.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index edf95fd..ad9c3b9 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -835,9 +835,9 @@ class SunAbraham:
         event_study_effects: Dict[int, Dict[str, Any]] = {}
         cohort_weights: Dict[int, Dict[Any, float]] = {}
 
-        # Get cohort sizes
-        unit_cohorts = df.groupby(unit)[first_treat].first()
-        cohort_sizes = unit_cohorts[unit_cohorts > 0].value_counts().to_dict()
+        # Units of each cohort observed at each relative time (n_{g,e})
+        treated_rows = df[df[first_treat] > 0]
+        cell_sizes = treated_rows.groupby([first_treat, "_rel_time"])[unit].nunique().to_dict()
 
         for e in rel_periods:
             # Get cohorts that have observations at this relative time
@@ -853,7 +853,7 @@ class SunAbraham:
             weights = {}
             total_size = 0
             for g in cohorts_at_e:
-                n_g = cohort_sizes.get(g, 0)
+                n_g = cell_sizes.get((g, e), 0)
                 weights[g] = n_g
                 total_size += n_g
 
-- 
2.43.0


From fec055b27ea00ee17549ea7f0594a80fdca15b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:58 +0000
Subject: [PATCH 49/49] fix: simulate_power keeps the adoption dates a data
 generator supplies

With CallawaySantAnna the first_treat column of a custom (staggered) data
generator was overwritten by one common treatment date.
---
 diff_diff/power.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index 91390c6..bffad8f 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -1104,12 +1104,13 @@ def simulate_power(
                         **est_kwargs
                     )
                 elif estimator_name == "CallawaySantAnna":
-                    # Need to create first_treat column for staggered
+                    # Custom generators may supply staggered adoption themselves.
                     # For standard generate_did_data, convert to first_treat format
-                    data = data.copy()
-                    data["first_treat"] = np.where(
-                        data["treated"] == 1, treatment_period, 0
-                    )
+                    if "first_treat" not in data.columns:
+                        data = data.copy()
+                        data["first_treat"] = np.where(
+                            data["treated"] == 1, treatment_period, 0
+                        )
                     result = estimator.fit(
                         data,
                         outcome="outcome",
-- 
2.43.0

