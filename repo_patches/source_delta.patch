From a2275eadca39b466863fcd0e7bfee562e424c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 1/9] fix: interpolate simulated continuation values on the
 model's experience grid

The solution is computed on model_spec.exp_grid, but the simulation assumed
equally spaced grid points.
---
 soepy/simulate/simulate_auxiliary.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 3ddada2..cc940ff 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -139,7 +139,9 @@ def simulate_agents_over_periods(
         # Interpolate continuation values on the experience grid.
         continuation_grid = emaxs[idx, :, :NUM_CHOICES]
         continuation_grid = np.transpose(continuation_grid, (0, 2, 1))
-        continuation_values = _interp_uniform_grid(continuation_grid, stock[:, None])
+        continuation_values = _interp_on_grid(
+            continuation_grid, stock[:, None], np.asarray(model_spec.exp_grid)
+        )
 
         non_cons_util_agents = non_consumption_utilities[idx]
 
@@ -322,8 +324,8 @@ def simulate_agents_over_periods(
     return data
 
 
-def _interp_uniform_grid(values, stock):
-    """Interpolate along the last axis on a uniform [0,1] grid.
+def _interp_on_grid(values, stock, grid):
+    """Interpolate along the last axis on the experience grid.
 
     Parameters
     ----------
@@ -331,14 +333,15 @@ def _interp_uniform_grid(values, stock):
         Shape (..., n_grid)
     stock : np.ndarray
         Shape (...) matching the leading dimensions of values.
+    grid : np.ndarray
+        Shape (n_grid,), increasing.
     """
 
-    n_grid = values.shape[-1]
-    u = np.clip(stock, 0.0, 1.0) * (n_grid - 1)
+    stock = np.clip(stock, grid[0], grid[-1])
 
-    idx_lo = np.floor(u).astype(int)
-    idx_hi = np.minimum(idx_lo + 1, n_grid - 1)
-    w = u - idx_lo
+    idx_hi = np.clip(np.searchsorted(grid, stock, side="right"), 1, len(grid) - 1)
+    idx_lo = idx_hi - 1
+    w = (stock - grid[idx_lo]) / (grid[idx_hi] - grid[idx_lo])
 
     take_lo = np.take_along_axis(values, idx_lo[..., None], axis=-1)[..., 0]
     take_hi = np.take_along_axis(values, idx_hi[..., None], axis=-1)[..., 0]
-- 
2.43.0


From e1379135efb6210a73db770d7798c005082e7502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 2/9] fix: apply elasticity_scale to simulated non-employment
 resources

The solution scales the systematic wage that benefits are based on; the
simulation only scaled the wage of those employed.
---
 soepy/simulate/simulate_auxiliary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index cc940ff..f9253c6 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -163,8 +163,10 @@ def simulate_agents_over_periods(
             )
         )
 
+        # Same scaling of the systematic wage as in the solution.
+        log_wage_agents = log_wage_agents + np.log(float(model_spec.elasticity_scale))
+
         wages = np.exp(log_wage_agents + draws_sim[period, : len(current_states)])
-        wages = wages * float(model_spec.elasticity_scale)
 
         female_income = wages[:, None] * HOURS[None, 1:]
 
-- 
2.43.0


From a596122c1520af36ad2b57d19131c8254339f90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 3/9] fix: order type shares by name like the type-specific
 parameters

theta_p and theta_f are sorted by name, the shares were taken in row order.
---
 soepy/pre_processing/model_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index b05e736..d07a98e 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -49,7 +49,7 @@ def expand_model_params_dict(model_params_dict):
     # Extract the values of the type shares
     try:
         type_shares_non_baseline = [
-            _ for k, _ in model_params_dict["shares"].items() if "share" in k
+            v for k, v in sorted(model_params_dict["shares"].items()) if "share" in k
         ]
 
         num_types = len(type_shares_non_baseline) + 1
-- 
2.43.0


From c35db05e653ff86d83d2d5da86e14969e9a68a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 4/9] fix: do not tie part-time erziehungsgeld to child
 benefits in the solution

The simulation grants erziehungsgeld irrespective of the amount of child
benefits; with child benefits of zero the solution did not.
---
 soepy/solve/validation_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soepy/solve/validation_solve.py b/soepy/solve/validation_solve.py
index 55238b4..013592e 100644
--- a/soepy/solve/validation_solve.py
+++ b/soepy/solve/validation_solve.py
@@ -54,7 +54,7 @@ def _get_max_aggregated_utilities(
             erziehungsgeld_inc_married,
             erziehungsgeld,
         )
-        net_income = net_income + jnp.where((child_benefits > 0) & (j == 1), eg, 0.0)
+        net_income = net_income + jnp.where(j == 1, eg, 0.0)
 
         child_costs = child_care_costs[child_care_bin, j - 1]
 
-- 
2.43.0


From a0e7364fe260f5f9d0820871994d296654914382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 5/9] fix: read the exogenous tables by label instead of row
 position

Shuffled rows were assigned to the wrong period, education level or age.
---
 soepy/exogenous_processes/children.py   | 4 ++--
 soepy/exogenous_processes/education.py  | 2 +-
 soepy/exogenous_processes/experience.py | 2 +-
 soepy/exogenous_processes/partner.py    | 6 +++---
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/soepy/exogenous_processes/children.py b/soepy/exogenous_processes/children.py
index 1c0e9ab..220ccef 100644
--- a/soepy/exogenous_processes/children.py
+++ b/soepy/exogenous_processes/children.py
@@ -21,7 +21,7 @@ def define_child_age_update_rule(model_spec, states):
 def gen_prob_child_vector(model_spec):
     """Generate probability of childbirth for each period and lagged choice."""
 
-    exog_child_info_df = pd.read_pickle(model_spec.child_info_file_name)
+    exog_child_info_df = pd.read_pickle(model_spec.child_info_file_name).sort_index()
 
     exog_child_info_df = exog_child_info_df.iloc[
         exog_child_info_df.index.get_level_values("period") < model_spec.num_periods
@@ -43,7 +43,7 @@ def gen_prob_child_vector(model_spec):
 def gen_prob_child_init_age_vector(model_spec):
     """Generate shares of initial child ages by education level."""
 
-    child_age_shares = pd.read_pickle(model_spec.child_age_shares_file_name)
+    child_age_shares = pd.read_pickle(model_spec.child_age_shares_file_name).sort_index()
 
     prob_child_age = []
     for educ_level in range(model_spec.num_educ_levels):
diff --git a/soepy/exogenous_processes/education.py b/soepy/exogenous_processes/education.py
index 055b92c..325545c 100644
--- a/soepy/exogenous_processes/education.py
+++ b/soepy/exogenous_processes/education.py
@@ -7,7 +7,7 @@ def gen_prob_educ_level_vector(model_spec):
     """Generates a vector of probabilities reflecting the fractions of individuals
     with low, middle, and high levels of education in the SOEP data."""
 
-    prob_educ_level = pd.read_pickle(model_spec.educ_shares_file_name)
+    prob_educ_level = pd.read_pickle(model_spec.educ_shares_file_name).sort_index()
 
     prob_educ_level = list(prob_educ_level["educ_shares"])
 
diff --git a/soepy/exogenous_processes/experience.py b/soepy/exogenous_processes/experience.py
index e8979a2..04a2a2c 100644
--- a/soepy/exogenous_processes/experience.py
+++ b/soepy/exogenous_processes/experience.py
@@ -24,7 +24,7 @@ def gen_prob_init_exp_component_vector(model_spec, model_spec_exp_file_key):
     ft/pt experience of 0, 1, 2, 3, and 4 years in the model's first period.
     Shares differ by the level of education of the individuals."""
 
-    exp_shares = pd.read_pickle(model_spec_exp_file_key)
+    exp_shares = pd.read_pickle(model_spec_exp_file_key).sort_index()
 
     init_exp = []
     for educ_level in range(model_spec.num_educ_levels):
diff --git a/soepy/exogenous_processes/partner.py b/soepy/exogenous_processes/partner.py
index d096380..e9ea913 100644
--- a/soepy/exogenous_processes/partner.py
+++ b/soepy/exogenous_processes/partner.py
@@ -12,7 +12,7 @@ def gen_prob_partner(model_spec):
     # in every period
     exog_partner_separation_info_df = pd.read_pickle(
         model_spec.partner_separation_info_file_name
-    )
+    ).sort_index()
 
     exog_partner_separation_info_df = exog_partner_separation_info_df.loc[
         (range(model_spec.num_periods), slice(None)), :
@@ -22,7 +22,7 @@ def gen_prob_partner(model_spec):
     # in every period
     exog_partner_arrival_info_df = pd.read_pickle(
         model_spec.partner_arrival_info_file_name
-    )
+    ).sort_index()
 
     exog_partner_arrival_info_df = exog_partner_arrival_info_df.loc[
         (range(model_spec.num_periods), slice(None)), :
@@ -46,5 +46,5 @@ def gen_prob_partner_present_vector(model_spec):
     a partner present in the household in the model's first period.
     Shares differ by the level of education of the individuals."""
 
-    partner_shares = pd.read_pickle(model_spec.partner_shares_file_name)
+    partner_shares = pd.read_pickle(model_spec.partner_shares_file_name).sort_index()
     return partner_shares.to_numpy().flatten()
-- 
2.43.0


From 6f7cb1dd83fc6e1ac0c00abc8247edb085dc96da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 6/9] fix: keep unobserved types in numerical order

With more than ten types, sorting by name placed type 10 before type 2, so
the Type label in the simulated data did not match the parameter names.
---
 soepy/pre_processing/model_processing.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index d07a98e..e177156 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -49,7 +49,9 @@ def expand_model_params_dict(model_params_dict):
     # Extract the values of the type shares
     try:
         type_shares_non_baseline = [
-            v for k, v in sorted(model_params_dict["shares"].items()) if "share" in k
+            v
+            for k, v in sorted(model_params_dict["shares"].items(), key=_type_number)
+            if "share" in k
         ]
 
         num_types = len(type_shares_non_baseline) + 1
@@ -77,6 +79,12 @@ def expand_model_params_dict(model_params_dict):
     return model_params_dict
 
 
+def _type_number(param):
+    """Type index at the end of a parameter name, e.g. 10 for theta_p10."""
+    name, _ = param
+    return int(name[len(name.rstrip("0123456789")) :] or 0)
+
+
 def group_parameters(model_params_dict_expanded):
     """Groups the parameters to be estimates
     in flat dictionary structure"""
@@ -140,7 +148,9 @@ def group_parameters(model_params_dict_expanded):
         model_params_dict_flat["theta_" + i] = np.array(
             [
                 v
-                for k, v in sorted(model_params_dict_expanded["hetrg_unobs"].items())
+                for k, v in sorted(
+                    model_params_dict_expanded["hetrg_unobs"].items(), key=_type_number
+                )
                 if "{}".format("theta_" + i) in k
             ],
             dtype=float,
-- 
2.43.0


From 5fa9ef73daaf7d9edc3c532a1f94b6239c97f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:56 +0000
Subject: [PATCH 7/9] fix: reject parameters that lack the tastes of an
 unobserved type

A missing theta silently gave that type the tastes of another one.
---
 soepy/pre_processing/model_processing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index e177156..51d8448 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -155,6 +155,10 @@ def group_parameters(model_params_dict_expanded):
             ],
             dtype=float,
         )
+        if len(model_params_dict_flat["theta_" + i]) != len(
+            model_params_dict_flat["type_shares"]
+        ):
+            raise ValueError(f"Specify theta_{i} for each unobserved type.")
 
     return model_params_dict_flat
 
-- 
2.43.0


From 691efde9df5aba2702610cb23213d96f24322631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 8/9] fix: refuse birth probabilities outside zero and one

Values in the first row reach the solution only, so nothing else rejected them.
---
 soepy/exogenous_processes/children.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soepy/exogenous_processes/children.py b/soepy/exogenous_processes/children.py
index 220ccef..752c478 100644
--- a/soepy/exogenous_processes/children.py
+++ b/soepy/exogenous_processes/children.py
@@ -36,6 +36,9 @@ def gen_prob_child_vector(model_spec):
         0 : min(model_spec.last_child_bearing_period + 1, model_spec.num_periods)
     ]
 
+    if not np.all((prob_child >= 0) & (prob_child <= 1)):
+        raise ValueError("Birth probabilities must lie between zero and one.")
+
     assert len(prob_child) == model_spec.num_periods
     return prob_child
 
-- 
2.43.0


From 31a1eff4211dee257197058eb5f60e4f623fcb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 9/9] fix: keep periods, ages and experience above 127 in the
 short panel

---
 soepy/simulate/constants_sim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soepy/simulate/constants_sim.py b/soepy/simulate/constants_sim.py
index 705a6c3..4817b73 100644
--- a/soepy/simulate/constants_sim.py
+++ b/soepy/simulate/constants_sim.py
@@ -47,7 +47,7 @@ DATA_FORMATS_SIM = {
 }
 
 # Minimal dataset used in estimation/regressions.
-LABELS_SPARSE_INT8 = [
+LABELS_SPARSE_INT = [
     "Period",
     "Education_Level",
     "Lagged_Choice",
@@ -63,7 +63,7 @@ DATA_FORMATS_OTHER = {
     "Wage_Observed": float,
     "Experience_Stock": float,
 }
-LABELS_DATA_SPARSE = [*LABELS_SPARSE_INT8, *DATA_FORMATS_OTHER.keys()]
+LABELS_DATA_SPARSE = [*LABELS_SPARSE_INT, *DATA_FORMATS_OTHER.keys()]
 
-DATA_FORMATS_INT8 = {key: np.int8 for key in LABELS_SPARSE_INT8}
-DATA_FORMATS_SPARSE = {**DATA_FORMATS_INT8, **DATA_FORMATS_OTHER}
+DATA_FORMATS_INT = {key: np.int16 for key in LABELS_SPARSE_INT}
+DATA_FORMATS_SPARSE = {**DATA_FORMATS_INT, **DATA_FORMATS_OTHER}
-- 
2.43.0

