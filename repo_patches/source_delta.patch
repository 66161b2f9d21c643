From 0e1f63022e6885c31b9a7f3b63adeb50f1de2d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:15 +0000
Subject: [PATCH 01/39] fix: repeat observed factors for all mixture components
 in sigma points

Models that combine observed factors with more than one mixture component
raised a reshape error in the predict step.
---
 skillmodels/kalman_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/kalman_filters.py b/skillmodels/kalman_filters.py
index c84a73a..a509dd0 100644
--- a/skillmodels/kalman_filters.py
+++ b/skillmodels/kalman_filters.py
@@ -261,7 +261,7 @@ def _calculate_sigma_points(states, upper_chols, scaling_factor, observed_factor
     sigma_points = sigma_points.at[:, :, 1 : n_fac + 1].add(scaled_upper_chols)
     sigma_points = sigma_points.at[:, :, n_fac + 1 :].add(-scaled_upper_chols)
 
-    observed_part = observed_factors.repeat(n_sigma, axis=0).reshape(
+    observed_part = observed_factors.repeat(n_mixtures * n_sigma, axis=0).reshape(
         n_obs, n_mixtures, n_sigma, n_observed
     )
 
-- 
2.43.0


From da9dc7dc1e6ab6a20c0025953b5bb7b5059545d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:52 +0000
Subject: [PATCH 02/39] fix: keep observed factors of individuals with missing
 controls

A missing control sets all measurements of the individual and period to NaN.
The observed factors were overwritten as well, such that the likelihood
became NaN.
---
 skillmodels/process_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 9222005..2baa870 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -34,11 +34,12 @@ def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
     df = _add_copies_of_anchoring_outcome(df, anchoring_info)
     _check_data(df, update_info, labels, purpose=purpose)
     n_obs = int(len(df) / len(labels["periods"]))
+    # observed factors are not affected by missing controls
+    observed_data = _generate_observed_factor_array(df, labels, n_obs)
     df = _handle_controls_with_missings(df, labels["controls"], update_info)
     if purpose == "estimation":
         meas_data = _generate_measurements_array(df, update_info, n_obs)
     control_data = _generate_controls_array(df, labels, n_obs)
-    observed_data = _generate_observed_factor_array(df, labels, n_obs)
 
     if purpose == "estimation":
         out = (meas_data, control_data, observed_data)
-- 
2.43.0


From 5df9bade53d5eba5f7f03cc1739452c59ff4bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:52 +0000
Subject: [PATCH 03/39] fix: do not require measurements and anchoring outcomes
 for simulation

Simulating from data that only contains controls and observed factors raised
a KeyError. In estimation a missing anchoring outcome is now reported like any
other missing variable.
---
 skillmodels/process_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 2baa870..976d1ee 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -36,8 +36,8 @@ def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
     n_obs = int(len(df) / len(labels["periods"]))
     # observed factors are not affected by missing controls
     observed_data = _generate_observed_factor_array(df, labels, n_obs)
-    df = _handle_controls_with_missings(df, labels["controls"], update_info)
     if purpose == "estimation":
+        df = _handle_controls_with_missings(df, labels["controls"], update_info)
         meas_data = _generate_measurements_array(df, update_info, n_obs)
     control_data = _generate_controls_array(df, labels, n_obs)
 
@@ -84,7 +84,9 @@ def _add_copies_of_anchoring_outcome(df, anchoring_info):
     df = df.copy()
     for factor in anchoring_info["factors"]:
         outcome = anchoring_info["outcomes"][factor]
-        df[f"{outcome}_{factor}"] = df[outcome]
+        # if the outcome is missing this will be reported in _check_data
+        if outcome in df.columns:
+            df[f"{outcome}_{factor}"] = df[outcome]
     return df
 
 
-- 
2.43.0


From 257caab92829ca1d75e5c7683d69a5656948d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:19 +0000
Subject: [PATCH 04/39] fix: ignore unused index levels when balancing the
 panel

If the periods or ids of a dataset with MultiIndex were filtered before the
estimation, the unused levels shifted the period codes, such that measurements
were assigned to the wrong periods or dropped.
---
 skillmodels/process_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 976d1ee..33be6db 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -67,6 +67,7 @@ def pre_process_data(df, periods):
 
     # replace existing codes for periods and
     df.index.names = ["id", "period"]
+    df.index = df.index.remove_unused_levels()
     for level in [0, 1]:
         df.index = df.index.set_levels(range(len(df.index.levels[level])), level=level)
 
-- 
2.43.0


From c0512c8d7c19da151cdb599ab0b67aca2d8d24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:04 +0000
Subject: [PATCH 05/39] fix: match anchoring parameters to factors if outcomes
 are in different order

Anchoring scaling factors and constants were assigned to the wrong factors if
the anchoring outcomes were not specified in the order of the latent factors.
---
 skillmodels/process_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index b573870..ce7f32f 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -160,7 +160,14 @@ def _process_anchoring(model_dict):
     if "anchoring" in model_dict:
         anchinfo.update(model_dict["anchoring"])
         anchinfo["anchoring"] = True
-        anchinfo["factors"] = list(anchinfo["outcomes"])
+        # parsing of anchoring parameters relies on the order of latent factors
+        latent_factors = list(model_dict["factors"])
+        anchinfo["factors"] = sorted(
+            anchinfo["outcomes"],
+            key=lambda fac: latent_factors.index(fac)
+            if fac in latent_factors
+            else len(latent_factors),
+        )
 
     return anchinfo
 
-- 
2.43.0


From b19ca7120337f442585ce035327df01403a47158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:03 +0000
Subject: [PATCH 06/39] fix: allow transition functions that do not depend on
 any factor

Custom transition functions do not have to use states or factors as arguments.
If none of them did, calling the combined function raised a TypeError.
---
 skillmodels/process_model.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index ce7f32f..87e3e4a 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -1,4 +1,5 @@
 from functools import partial
+from inspect import signature
 
 import numpy as np
 import pandas as pd
@@ -220,6 +221,7 @@ def _get_transition_info(model_dict, labels):
         functions=functions, targets=[f"__next_{fac}__" for fac in latent_factors]
     )
 
+    transition_function = _accept_params_and_states(transition_function)
     transition_function = jax_array_output(transition_function)
 
     transition_function = vmap(transition_function, in_axes=(None, 0))
@@ -227,6 +229,7 @@ def _get_transition_info(model_dict, labels):
     individual_functions = {}
     for factor in latent_factors:
         func = concatenate_functions(functions=functions, targets=f"__next_{factor}__")
+        func = _accept_params_and_states(func)
         func = vmap(func, in_axes=(None, 0))
         individual_functions[factor] = func
 
@@ -239,6 +242,22 @@ def _get_transition_info(model_dict, labels):
     return out
 
 
+def _accept_params_and_states(func):
+    """Make func callable with params and states, even if it ignores the states.
+
+    The signature of concatenated functions only contains the arguments that are
+    needed. The states are not needed if no custom transition function depends on them.
+
+    """
+    if "states" in signature(func).parameters:
+        return func
+
+    def wrapper_accept_params_and_states(params, states):
+        return func(params)
+
+    return wrapper_accept_params_and_states
+
+
 def _get_update_info(model_dict, dimensions, labels, anchoring_info):
     """Construct a DataFrame with information on each Kalman update.
 
-- 
2.43.0


From 36fb07204527861cfadb8cfad6acb1d3180d7ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:12 +0000
Subject: [PATCH 07/39] fix: support models with a single period

---
 skillmodels/constraints.py         |  4 ++-
 skillmodels/likelihood_function.py | 48 ++++++++++++++++++++++++------
 skillmodels/parse_params.py        |  8 +++--
 3 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/skillmodels/constraints.py b/skillmodels/constraints.py
index 6e4ae29..8f7c5ad 100644
--- a/skillmodels/constraints.py
+++ b/skillmodels/constraints.py
@@ -64,7 +64,9 @@ def add_bounds(params_df, bounds_distance=0.0):
         if "lower_bound" not in df.columns:
             df["lower_bound"] = -np.inf
         df.loc["meas_sds", "lower_bound"] = bounds_distance
-        df.loc["shock_sds", "lower_bound"] = bounds_distance
+        # models with only one period do not have shocks
+        if "shock_sds" in df.index.get_level_values("category"):
+            df.loc["shock_sds", "lower_bound"] = bounds_distance
 
         cholcov_index = df.query("category == 'initial_cholcovs'").index.tolist()
         ind_tups = [tup for tup in cholcov_index if _is_diagonal_entry(tup)]
diff --git a/skillmodels/likelihood_function.py b/skillmodels/likelihood_function.py
index b846209..d8804d7 100644
--- a/skillmodels/likelihood_function.py
+++ b/skillmodels/likelihood_function.py
@@ -343,6 +343,43 @@ def _scan_body(
         update_kwargs,
     )
 
+    if len(pardict["shock_sds"]) == 0:
+        # models with only one period do not have transitions
+        filtered_states = states
+    else:
+        states, upper_chols, filtered_states = _conditional_predict(
+            states=states,
+            upper_chols=upper_chols,
+            t=t,
+            is_predict_iteration=loop_args["is_predict_iteration"],
+            pardict=pardict,
+            sigma_scaling_factor=sigma_scaling_factor,
+            sigma_weights=sigma_weights,
+            transition_info=transition_info,
+            observed_factors=observed_factors,
+        )
+
+    new_state = {
+        "states": states,
+        "upper_chols": upper_chols,
+        "log_mixture_weights": log_mixture_weights,
+    }
+
+    static_out = {"loglikes": loglikes, **info, "states": filtered_states}
+    return new_state, static_out
+
+
+def _conditional_predict(
+    states,
+    upper_chols,
+    t,
+    is_predict_iteration,
+    pardict,
+    sigma_scaling_factor,
+    sigma_weights,
+    transition_info,
+    observed_factors,
+):
     # ==================================================================================
     # create arguments needed for predict step
     # ==================================================================================
@@ -366,20 +403,13 @@ def _scan_body(
     # Do a predict step or a do-nothing fake predict step
     # ==================================================================================
     states, upper_chols, filtered_states = lax.cond(
-        loop_args["is_predict_iteration"],
+        is_predict_iteration,
         functools.partial(_one_arg_predict, **fixed_kwargs),
         functools.partial(_one_arg_no_predict, **fixed_kwargs),
         predict_kwargs,
     )
 
-    new_state = {
-        "states": states,
-        "upper_chols": upper_chols,
-        "log_mixture_weights": log_mixture_weights,
-    }
-
-    static_out = {"loglikes": loglikes, **info, "states": filtered_states}
-    return new_state, static_out
+    return states, upper_chols, filtered_states
 
 
 def _one_arg_measurement_update(kwargs, debug):
diff --git a/skillmodels/parse_params.py b/skillmodels/parse_params.py
index 382dd30..43faec9 100644
--- a/skillmodels/parse_params.py
+++ b/skillmodels/parse_params.py
@@ -200,10 +200,12 @@ def _get_transition_params(params, info, labels):
     """Create a list of arrays with transition equation parameters."""
     trans_params = {}
     t_info = info["transition"]
-    n_periods = len(labels["periods"])
+    n_transitions = len(labels["periods"]) - 1
     for factor in labels["latent_factors"]:
-        ilocs = t_info[factor]
-        trans_params[factor] = params[ilocs].reshape(n_periods - 1, -1)
+        flat = params[t_info[factor]]
+        # do not infer the second dimension to support models with one period
+        n_coeffs = len(flat) // max(n_transitions, 1)
+        trans_params[factor] = flat.reshape(n_transitions, n_coeffs)
     return trans_params
 
 
-- 
2.43.0


From a44bada4917f6dd7e6deacf5aa6e4d79f1838e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:46 +0000
Subject: [PATCH 08/39] fix: label debug data of mixture models with the
 correct individuals

---
 skillmodels/process_debug_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index b923d93..7267a72 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -95,7 +95,8 @@ def _create_post_update_states(filtered_states, factors, update_info):
     for (period, meas), data in zip(update_info.index, filtered_states):
         df = _convert_state_array_to_df(data, factors)
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        n_obs, n_mixtures, _ = data.shape
+        df["id"] = np.arange(n_obs).repeat(n_mixtures)
         df["measurement"] = meas
         to_concat.append(df)
 
@@ -164,7 +165,7 @@ def _process_residuals(residuals, update_info):
         df = pd.DataFrame(data.reshape(-1, 1), columns=["residual"])
         df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        df["id"] = np.arange(n_obs).repeat(n_mixtures)
         df["measurement"] = meas
         to_concat.append(df)
     return pd.concat(to_concat)
-- 
2.43.0


From 4d15af43e3c6062787d1d97673870d89377bf15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 09/39] fix: do not constrain transition parameters of stages
 if there are none

---
 skillmodels/constraints.py         | 17 +++++++++++++++--
 skillmodels/likelihood_function.py |  1 +
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/skillmodels/constraints.py b/skillmodels/constraints.py
index 8f7c5ad..02adda4 100644
--- a/skillmodels/constraints.py
+++ b/skillmodels/constraints.py
@@ -6,7 +6,14 @@ import numpy as np
 import skillmodels.transition_functions as tf
 
 
-def get_constraints(dimensions, labels, anchoring_info, update_info, normalizations):
+def get_constraints(
+    dimensions,
+    labels,
+    anchoring_info,
+    update_info,
+    normalizations,
+    transition_info=None,
+):
     """Generate the estimagic constraints implied by the model specification.
 
     Args:
@@ -20,6 +27,8 @@ def get_constraints(dimensions, labels, anchoring_info, update_info, normalizati
             in the likelihood function. See :ref:`update_info`.
         normalizations (dict): Nested dictionary with information on normalized factor
             loadings and intercepts for each factor. See :ref:`normalizations`.
+        transition_info (dict): Information about the transition equations. If given,
+            it is used to find out if there are any transition parameters.
 
     Returns:
         list: List of estimagic compatible constraints.
@@ -29,7 +38,11 @@ def get_constraints(dimensions, labels, anchoring_info, update_info, normalizati
 
     constr += _get_normalization_constraints(normalizations, labels["latent_factors"])
     constr += _get_mixture_weights_constraints(dimensions["n_mixtures"])
-    constr += _get_stage_constraints(labels["stagemap"], labels["stages"])
+    stage_constr = _get_stage_constraints(labels["stagemap"], labels["stages"])
+    if transition_info is not None and not any(transition_info["param_names"].values()):
+        # without transition parameters there are only constraints on shock_sds
+        stage_constr = [c for c in stage_constr if c["locs"][0][0] != "transition"]
+    constr += stage_constr
     constr += _get_constant_factors_constraints(labels)
     constr += _get_initial_states_constraints(
         dimensions["n_mixtures"], labels["latent_factors"]
diff --git a/skillmodels/likelihood_function.py b/skillmodels/likelihood_function.py
index d8804d7..8f9181e 100644
--- a/skillmodels/likelihood_function.py
+++ b/skillmodels/likelihood_function.py
@@ -152,6 +152,7 @@ def get_maximization_inputs(model_dict, data, jacobian_type="jacrev"):
         anchoring_info=model["anchoring"],
         update_info=model["update_info"],
         normalizations=model["normalizations"],
+        transition_info=model["transition_info"],
     )
 
     params_template = pd.DataFrame(columns=["value"], index=p_index)
-- 
2.43.0


From 1868992dc576337ba3a2ac7830ba51d24e9b8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:14 +0000
Subject: [PATCH 10/39] fix: finite derivatives of log_ces with respect to
 weights that are zero

---
 skillmodels/transition_functions.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/skillmodels/transition_functions.py b/skillmodels/transition_functions.py
index 1297029..2557b34 100644
--- a/skillmodels/transition_functions.py
+++ b/skillmodels/transition_functions.py
@@ -85,16 +85,25 @@ def log_ces(states, params):
     gammas = params[:-1]
     scaling_factor = 1 / phi
 
-    # note: once the b argument is supported in jax.scipy.special.logsumexp, we can set
-    # b = gammas instead of adding the log of gammas to sigma_points * phi
-
-    # the log step for gammas underflows for gamma = 0, but this is handled correctly
-    # by logsumexp and does not raise a warning.
-    unscaled = jax.scipy.special.logsumexp(jnp.log(gammas) + states * phi)
+    unscaled = _weighted_logsumexp(states * phi, weights=gammas)
     result = unscaled * scaling_factor
     return result
 
 
+def _weighted_logsumexp(exponents, weights):
+    """Calculate log(sum(weights * exp(exponents))) without over- or underflow.
+
+    In contrast to adding the log of the weights to the exponents, this has finite
+    derivatives with respect to weights that are zero. In contrast to the b argument of
+    jax.scipy.special.logsumexp, these derivatives are also not set to zero.
+
+    """
+    shift = jax.lax.stop_gradient(jnp.where(weights > 0, exponents, -jnp.inf).max())
+    # only terms that have a weight of zero can have large exponents after the shift
+    shifted = jnp.minimum(exponents - shift, 500)
+    return shift + jnp.log(jnp.sum(weights * jnp.exp(shifted)))
+
+
 def params_log_ces(factors):
     """Index tuples for the log_ces production function."""
     return factors + ["phi"]
@@ -162,12 +171,7 @@ def log_ces_general(states, params):
     gammas = params[:n]
     sigmas = params[n : 2 * n]
 
-    # note: once the b argument is supported in jax.scipy.special.logsumexp, we can set
-    # b = gammas instead of adding the log of gammas to sigma_points * phi
-
-    # the log step for gammas underflows for gamma = 0, but this is handled correctly
-    # by logsumexp and does not raise a warning.
-    unscaled = jax.scipy.special.logsumexp(jnp.log(gammas) + states * sigmas)
+    unscaled = _weighted_logsumexp(states * sigmas, weights=gammas)
     result = unscaled * tfp
     return result
 
-- 
2.43.0


From db2ab72dd457d3d362c0d51d9c1503e83d60a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 11/39] fix: support factor names that are no valid python
 identifiers

---
 skillmodels/correlation_heatmap.py | 15 ++++++---------
 skillmodels/parse_params.py        |  5 +++--
 skillmodels/process_model.py       | 17 +++++++++++++++--
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 18471b4..565efaa 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -297,9 +297,8 @@ def _get_measurement_data_for_single_period(
     measurements = []
 
     for fac in latent_factors:
-        measurements += period_info.query(
-            f"{fac} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        is_measurement = period_info[fac] & (period_info["purpose"] == "measurement")
+        measurements += period_info[is_measurement]["variable"].to_list()
     for fac in observed_factors:
         measurements.append(fac)
     df = data.query(f"{update_info.index.names[0]}=={period}")[measurements]
@@ -397,9 +396,8 @@ def _get_quasi_factor_scores_data_for_single_period(
     period_info = update_info.loc[period].reset_index()
     to_concat = []
     for factor in latent_factors:
-        period_factor_measurements = period_info.query(
-            f"{factor} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        is_measurement = period_info[factor] & (period_info["purpose"] == "measurement")
+        period_factor_measurements = period_info[is_measurement]["variable"].to_list()
         df = data.query(f"{update_info.index.names[0]}=={period}")[
             period_factor_measurements
         ]
@@ -515,9 +513,8 @@ def _get_factor_scores_data_for_single_period(
     leave_out_meas = loadings_count[loadings_count > 1].index.to_list()
     to_concat = []
     for factor in latent_factors:
-        period_factor_measurements = period_info.query(
-            f"{factor} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        is_measurement = period_info[factor] & (period_info["purpose"] == "measurement")
+        period_factor_measurements = period_info[is_measurement]["variable"].to_list()
         period_factor_measurements = [
             m for m in period_factor_measurements if m not in leave_out_meas
         ]
diff --git a/skillmodels/parse_params.py b/skillmodels/parse_params.py
index 43faec9..222df38 100644
--- a/skillmodels/parse_params.py
+++ b/skillmodels/parse_params.py
@@ -52,8 +52,9 @@ def create_parsing_info(params_index, update_info, labels, anchoring):
     # "trans_coeffs"
     pos_dict = {}
     for factor in labels["latent_factors"]:
-        helper = pd.DataFrame(index=params_index)
-        loc = helper.query(f"category == 'transition' & name1 == '{factor}'").index
+        is_category = params_index.get_level_values("category") == "transition"
+        is_factor = params_index.get_level_values("name1") == factor
+        loc = params_index[is_category & is_factor]
         pos_dict[factor] = _get_positional_selector_from_loc(range_sr, loc)
 
     parsing_info["transition"] = pos_dict
diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index 87e3e4a..f0d9576 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -4,7 +4,6 @@ from inspect import signature
 import numpy as np
 import pandas as pd
 from dags import concatenate_functions
-from dags.signature import rename_arguments
 from jax import vmap
 from pandas import DataFrame
 
@@ -185,7 +184,7 @@ def _get_transition_info(model_dict, labels):
         if isinstance(spec, str):
             func = getattr(tf, spec)
             if spec == "constant":
-                func = rename_arguments(func, mapper={"state": factor})
+                func = _get_constant_function(all_factors.index(factor))
             func_list.append(extract_params(func, key=factor))
             param_names.append(getattr(tf, f"params_{spec}")(all_factors))
         elif callable(spec):
@@ -242,6 +241,20 @@ def _get_transition_info(model_dict, labels):
     return out
 
 
+def _get_constant_function(pos):
+    """Apply the constant transition function to the state at position pos.
+
+    Selecting the state by position works for factor names that are not valid names of
+    function arguments.
+
+    """
+
+    def constant(states, params):
+        return tf.constant(states[pos], params)
+
+    return constant
+
+
 def _accept_params_and_states(func):
     """Make func callable with params and states, even if it ignores the states.
 
-- 
2.43.0


From 19e87c68fe7d0027562d9ea1c650a2696afb266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:12 +0000
Subject: [PATCH 12/39] fix: make the section estimation_options optional, as
 documented

---
 skillmodels/process_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index f0d9576..07d0f29 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -75,7 +75,7 @@ def get_dimensions(model_dict):
         "n_periods": max(all_n_periods),
         # plus 1 for the constant
         "n_controls": len(model_dict.get("controls", [])) + 1,
-        "n_mixtures": model_dict["estimation_options"].get("n_mixtures", 1),
+        "n_mixtures": model_dict.get("estimation_options", {}).get("n_mixtures", 1),
     }
     dims["n_all_factors"] = dims["n_latent_factors"] + dims["n_observed_factors"]
     return dims
-- 
2.43.0


From 37fc9bd789badc5f15b04683210b56e84258508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:12 +0000
Subject: [PATCH 13/39] fix: check that ignore_constant_when_anchoring is a
 bool

---
 skillmodels/check_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 06dea4f..4b743a3 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -72,6 +72,8 @@ def _check_anchoring(anchoring):
         report.append("anchoring['use_constant'] must be a bool.")
     if not isinstance(anchoring["free_loadings"], bool):
         report.append("anchoring['free_loadings'] must be a bool.")
+    if not isinstance(anchoring["ignore_constant_when_anchoring"], bool):
+        report.append("anchoring['ignore_constant_when_anchoring'] must be a bool.")
     return report
 
 
-- 
2.43.0


From 7d2c396d38c3b12b0ad6cbcce95f8538608f7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:12 +0000
Subject: [PATCH 14/39] fix: reject anchoring outcomes of factors that are not
 in the model

---
 skillmodels/check_model.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 4b743a3..eac01bf 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -30,6 +30,7 @@ def check_model(model_dict, labels, dimensions, anchoring):
         labels["stagemap"], labels["stages"], dimensions["n_periods"]
     )
     report += _check_anchoring(anchoring)
+    report += _check_anchored_factors(anchoring, labels["latent_factors"])
     report += _check_measurements(model_dict, labels["latent_factors"])
     report += _check_normalizations(model_dict, labels["latent_factors"])
 
@@ -77,6 +78,17 @@ def _check_anchoring(anchoring):
     return report
 
 
+def _check_anchored_factors(anchoring, latent_factors):
+    report = []
+    if isinstance(anchoring["outcomes"], dict):
+        for factor in anchoring["outcomes"]:
+            if factor not in latent_factors:
+                report.append(
+                    f"Only latent factors can be anchored. Check outcome of {factor}."
+                )
+    return report
+
+
 def _check_measurements(model_dict, factors):
     report = []
     for factor in factors:
-- 
2.43.0


From 05a8220af7dd7a5b3ed6e0c670d9e2bba80c99ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:52 +0000
Subject: [PATCH 15/39] fix: do transitions of periods without any measurement
 in the likelihood

---
 skillmodels/likelihood_function.py | 42 ++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/skillmodels/likelihood_function.py b/skillmodels/likelihood_function.py
index 8f9181e..9a5c46d 100644
--- a/skillmodels/likelihood_function.py
+++ b/skillmodels/likelihood_function.py
@@ -72,7 +72,10 @@ def get_maximization_inputs(model_dict, data, jacobian_type="jacrev"):
     update_info = model["update_info"]
     is_measurement_iteration = (update_info["purpose"] == "measurement").to_numpy()
     _periods = pd.Series(update_info.index.get_level_values("period").to_numpy())
-    is_predict_iteration = ((_periods - _periods.shift(-1)) == -1).to_numpy()
+    # number of transitions before the first update and after each update. It is larger
+    # than one if there are periods without updates.
+    n_initial_predicts = int(_periods.iloc[0])
+    n_predicts = (_periods.shift(-1) - _periods).fillna(0).astype(int).to_numpy()
     last_period = model["labels"]["periods"][-1]
     # iteration_to_period is used as an indexer to loop over arrays of different lengths
     # in a lax.scan. It needs to work for arrays of length n_periods and not raise
@@ -92,7 +95,8 @@ def get_maximization_inputs(model_dict, data, jacobian_type="jacrev"):
         labels=model["labels"],
         estimation_options=model["estimation_options"],
         is_measurement_iteration=is_measurement_iteration,
-        is_predict_iteration=is_predict_iteration,
+        n_initial_predicts=n_initial_predicts,
+        n_predicts=n_predicts,
         iteration_to_period=iteration_to_period,
         observed_factors=observed_factors,
     )
@@ -185,7 +189,8 @@ def _log_likelihood_jax(
     labels,
     estimation_options,
     is_measurement_iteration,
-    is_predict_iteration,
+    n_initial_predicts,
+    n_predicts,
     iteration_to_period,
     debug,
     observed_factors,
@@ -238,6 +243,20 @@ def _log_likelihood_jax(
         params, parsing_info, dimensions, labels, n_obs
     )
 
+    # transitions of periods before the first update
+    for t in range(n_initial_predicts):
+        states, upper_chols, _ = _conditional_predict(
+            states=states,
+            upper_chols=upper_chols,
+            t=t,
+            is_predict_iteration=True,
+            pardict=pardict,
+            sigma_scaling_factor=sigma_scaling_factor,
+            sigma_weights=sigma_weights,
+            transition_info=transition_info,
+            observed_factors=observed_factors,
+        )
+
     carry = {
         "states": states,
         "upper_chols": upper_chols,
@@ -251,7 +270,7 @@ def _log_likelihood_jax(
         "meas_sds": pardict["meas_sds"],
         "measurements": measurements,
         "is_measurement_iteration": is_measurement_iteration,
-        "is_predict_iteration": is_predict_iteration,
+        "n_predicts": n_predicts,
     }
 
     _body = functools.partial(
@@ -262,6 +281,7 @@ def _log_likelihood_jax(
         sigma_weights=sigma_weights,
         transition_info=transition_info,
         observed_factors=observed_factors,
+        max_predicts=max(n_predicts),
         debug=debug,
     )
 
@@ -313,6 +333,7 @@ def _scan_body(
     sigma_weights,
     transition_info,
     observed_factors,
+    max_predicts,
     debug,
 ):
     # ==================================================================================
@@ -344,15 +365,14 @@ def _scan_body(
         update_kwargs,
     )
 
-    if len(pardict["shock_sds"]) == 0:
-        # models with only one period do not have transitions
-        filtered_states = states
-    else:
-        states, upper_chols, filtered_states = _conditional_predict(
+    filtered_states = states
+    # periods without updates lead to more than one transition between two updates
+    for step in range(max_predicts):
+        states, upper_chols, _ = _conditional_predict(
             states=states,
             upper_chols=upper_chols,
-            t=t,
-            is_predict_iteration=loop_args["is_predict_iteration"],
+            t=t + step,
+            is_predict_iteration=loop_args["n_predicts"] > step,
             pardict=pardict,
             sigma_scaling_factor=sigma_scaling_factor,
             sigma_weights=sigma_weights,
-- 
2.43.0


From 6877e9cb287e03f9a4817d20f94439daa7a925db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:52 +0000
Subject: [PATCH 16/39] fix: label filtered states correctly if there are
 periods without measurements

---
 skillmodels/process_debug_data.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index 7267a72..70f5201 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -126,17 +126,14 @@ def _create_filtered_states(filtered_states, log_mixture_weights, update_info, f
 
     agg_states = (filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)
 
-    keep = []
-    for i, (period, measurement) in enumerate(update_info.index):
-        last_measurement = update_info.query(
-            f"purpose == 'measurement' & period == {period}"
-        ).index[-1][1]
-
-        if measurement == last_measurement:
-            keep.append(i)
+    # there are no filtered states for periods without measurements
+    keep = {}
+    for i, ((period, _), purpose) in enumerate(update_info["purpose"].items()):
+        if purpose == "measurement":
+            keep[period] = i
 
     to_concat = []
-    for period, i in enumerate(keep):
+    for period, i in keep.items():
         df = pd.DataFrame(data=agg_states[i], columns=factors)
         df["period"] = period
         df["id"] = np.arange(len(df))
-- 
2.43.0


From a50b830dafd7368cdb969ba90b6796efb1b1ded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:52 +0000
Subject: [PATCH 17/39] fix: simulate models that have periods without
 measurements

---
 skillmodels/simulate_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skillmodels/simulate_data.py b/skillmodels/simulate_data.py
index 1b662fb..0c1af39 100644
--- a/skillmodels/simulate_data.py
+++ b/skillmodels/simulate_data.py
@@ -237,6 +237,10 @@ def _simulate_dataset(
     observed_data_by_period = []
 
     for t in range(n_periods):
+        if t not in update_info.index:
+            # there are no measurements in this period
+            observed_data_by_period.append(pd.DataFrame({"period": [t] * n_obs}))
+            continue
         meas = pd.DataFrame(
             data=measurements_from_states(
                 latent_states[t],
-- 
2.43.0


From 776225b3b8a38235d976a385f524f9a4628b7989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:11 +0000
Subject: [PATCH 18/39] fix: number periods in sorted order if the index has
 unused levels

---
 skillmodels/process_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 33be6db..b632437 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -66,8 +66,10 @@ def pre_process_data(df, periods):
     df["__old_period__"] = df.index.get_level_values(1)
 
     # replace existing codes for periods and
-    df.index.names = ["id", "period"]
-    df.index = df.index.remove_unused_levels()
+    # constructing a new index leaves sorted levels without unused values
+    df.index = pd.MultiIndex.from_arrays(
+        [df.index.get_level_values(level) for level in [0, 1]], names=["id", "period"]
+    )
     for level in [0, 1]:
         df.index = df.index.set_levels(range(len(df.index.levels[level])), level=level)
 
-- 
2.43.0


From 012429494e7bcd7aae32e14813eb5a1efcc7b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:59 +0000
Subject: [PATCH 19/39] fix: allow removing controls from a model without
 controls

---
 skillmodels/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/utilities.py b/skillmodels/utilities.py
index 03994df..b8de7b4 100644
--- a/skillmodels/utilities.py
+++ b/skillmodels/utilities.py
@@ -157,7 +157,7 @@ def remove_controls(controls, model_dict, params=None):
 
     """
     out = deepcopy(model_dict)
-    out["controls"] = _remove_from_list(out["controls"], controls)
+    out["controls"] = _remove_from_list(out.get("controls", []), controls)
     if out["controls"] == []:
         out = _remove_from_dict(out, "controls")
 
-- 
2.43.0


From 9d7be154843acaa662c81ff543fb0189b6684b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:59 +0000
Subject: [PATCH 20/39] fix: remove periods without measurements if empty lists
 are spelled out

---
 skillmodels/utilities.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/skillmodels/utilities.py b/skillmodels/utilities.py
index b8de7b4..f4bf37a 100644
--- a/skillmodels/utilities.py
+++ b/skillmodels/utilities.py
@@ -5,7 +5,6 @@ import numpy as np
 import pandas as pd
 
 from skillmodels.params_index import get_params_index
-from skillmodels.process_model import get_dimensions
 from skillmodels.process_model import process_model
 
 
@@ -86,8 +85,13 @@ def remove_factors(factors, model_dict, params=None):
         if out["anchoring"]["outcomes"] == {}:
             out = _remove_from_dict(out, "anchoring")
 
-    # Remove periods if necessary
-    new_n_periods = get_dimensions(out)["n_periods"]
+    # Remove periods if necessary. Empty lists at the end are equivalent to shorter lists
+    n_periods = [1]
+    for factor in out["factors"].values():
+        for period, measurements in enumerate(factor["measurements"]):
+            if measurements:
+                n_periods.append(period + 1)
+    new_n_periods = max(n_periods)
     out = reduce_n_periods(out, new_n_periods)
 
     if params is not None:
-- 
2.43.0


From 29b9fed5fac5c8c1ddd743ebd0e741dbfdf4c20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:26 +0000
Subject: [PATCH 21/39] fix: do not share normalizations between original and
 reduced specification

---
 skillmodels/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/utilities.py b/skillmodels/utilities.py
index f4bf37a..e94bacb 100644
--- a/skillmodels/utilities.py
+++ b/skillmodels/utilities.py
@@ -245,7 +245,7 @@ def reduce_n_periods(model_dict, new_n_periods, params=None):
             out["factors"][factor]["measurements"], new_n_periods
         )
 
-        norminfo = model_dict["factors"][factor].get("normalizations", {})
+        norminfo = out["factors"][factor].get("normalizations", {})
         if "loadings" in norminfo:
             out["factors"][factor]["normalizations"][
                 "loadings"
-- 
2.43.0


From 193fe9f9290538c8148064ddf1daee557a8b7958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:21 +0000
Subject: [PATCH 22/39] fix: select periods by index level even if the data has
 a column called period

---
 skillmodels/correlation_heatmap.py | 24 +++++++++++++++---------
 skillmodels/process_data.py        | 18 +++++++++++-------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 565efaa..318c0f8 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -301,7 +301,7 @@ def _get_measurement_data_for_single_period(
         measurements += period_info[is_measurement]["variable"].to_list()
     for fac in observed_factors:
         measurements.append(fac)
-    df = data.query(f"{update_info.index.names[0]}=={period}")[measurements]
+    df = _get_period_data(data, update_info, period)[measurements]
     return df
 
 
@@ -398,15 +398,13 @@ def _get_quasi_factor_scores_data_for_single_period(
     for factor in latent_factors:
         is_measurement = period_info[factor] & (period_info["purpose"] == "measurement")
         period_factor_measurements = period_info[is_measurement]["variable"].to_list()
-        df = data.query(f"{update_info.index.names[0]}=={period}")[
-            period_factor_measurements
-        ]
+        df = _get_period_data(data, update_info, period)[period_factor_measurements]
         df = (df - df.mean()) / df.std()
         sr = df.mean(axis=1)
         sr.name = f"{factor}"
         to_concat.append(sr)
     for factor in observed_factors:
-        df = data.query(f"{update_info.index.names[0]}=={period}")[factor]
+        df = _get_period_data(data, update_info, period)[factor]
         to_concat.append(df)
     df = pd.concat(to_concat, axis=1)
     return df
@@ -518,16 +516,14 @@ def _get_factor_scores_data_for_single_period(
         period_factor_measurements = [
             m for m in period_factor_measurements if m not in leave_out_meas
         ]
-        df = data.query(f"{update_info.index.names[0]}=={period}")[
-            period_factor_measurements
-        ]
+        df = _get_period_data(data, update_info, period)[period_factor_measurements]
         for m in period_factor_measurements:
             df[m] = (df[m] - intercepts.loc[m]) / loadings.loc[(m, factor)]
         sr = df.mean(axis=1)
         sr.name = f"{factor}"
         to_concat.append(sr)
     for factor in observed_factors:
-        df = data.query(f"{update_info.index.names[0]}=={period}")[factor]
+        df = _get_period_data(data, update_info, period)[factor]
         to_concat.append(df)
     df = pd.concat(to_concat, axis=1)
     return df
@@ -566,6 +562,16 @@ def _get_factor_scores_data_for_multiple_periods(
     return df
 
 
+def _get_period_data(data, update_info, period):
+    """Select the rows of one period, even if there is a column called period."""
+    name = update_info.index.names[0]
+    if name in data.index.names:
+        periods = data.index.get_level_values(name)
+    else:
+        periods = data[name]
+    return data[periods == period]
+
+
 def _process_factors(model, factors):
     "Process factors to get a tuple of lists."
     if not factors:
diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index b632437..cb4f817 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -83,6 +83,11 @@ def pre_process_data(df, periods):
     return df
 
 
+def _get_period_data(df, period):
+    """Select the rows of one period, even if there is a column called period."""
+    return df[df.index.get_level_values("period") == period]
+
+
 def _add_copies_of_anchoring_outcome(df, anchoring_info):
     df = df.copy()
     for factor in anchoring_info["factors"]:
@@ -96,7 +101,7 @@ def _add_copies_of_anchoring_outcome(df, anchoring_info):
 def _check_data(df, update_info, labels, purpose):
     var_report = pd.DataFrame(index=update_info.index[:0], columns=["problem"])
     for period in labels["periods"]:
-        period_data = df.query(f"period == {period}")
+        period_data = _get_period_data(df, period)
         for cont in labels["controls"]:
             if cont not in period_data.columns or period_data[cont].isnull().all():
                 var_report.loc[(period, cont), "problem"] = "Variable is missing"
@@ -127,7 +132,7 @@ def _handle_controls_with_missings(df, controls, update_info):
     periods = update_info.index.get_level_values(0).unique().tolist()
     problematic_index = df.index[:0]
     for period in periods:
-        period_data = df.query(f"period == {period}")
+        period_data = _get_period_data(df, period)
         control_data = period_data[controls]
         meas_data = period_data[get_period_measurements(update_info, period)]
         problem = control_data.isnull().any(axis=1) & meas_data.notnull().any(axis=1)
@@ -145,21 +150,20 @@ def _handle_controls_with_missings(df, controls, update_info):
 def _generate_measurements_array(df, update_info, n_obs):
     arr = np.zeros((len(update_info), n_obs))
     for k, (period, var) in enumerate(update_info.index):
-        arr[k] = df.query(f"period == {period}")[var].to_numpy()
+        arr[k] = _get_period_data(df, period)[var].to_numpy()
     return jnp.array(arr)
 
 
 def _generate_controls_array(df, labels, n_obs):
     arr = np.zeros((len(labels["periods"]), n_obs, len(labels["controls"])))
     for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[labels["controls"]].to_numpy()
+        arr[period] = _get_period_data(df, period)[labels["controls"]].to_numpy()
     return jnp.array(arr)
 
 
 def _generate_observed_factor_array(df, labels, n_obs):
     arr = np.zeros((len(labels["periods"]), n_obs, len(labels["observed_factors"])))
     for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[
-            labels["observed_factors"]
-        ].to_numpy()
+        period_data = _get_period_data(df, period)
+        arr[period] = period_data[labels["observed_factors"]].to_numpy()
     return jnp.array(arr)
-- 
2.43.0


From de7bfef1840774f820293dc6f5ebc3850062714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:54 +0000
Subject: [PATCH 23/39] fix: correlations for models with periods without
 measurements

---
 skillmodels/correlation_heatmap.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 318c0f8..73aa635 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -293,7 +293,7 @@ def _get_measurement_data_for_single_period(
 
     """
 
-    period_info = update_info.loc[period].reset_index()
+    period_info = _get_period_info(update_info, period)
     measurements = []
 
     for fac in latent_factors:
@@ -393,7 +393,7 @@ def _get_quasi_factor_scores_data_for_single_period(
         df (pd.DataFrame): Processed DataFrame to calculate correlations over.
 
     """
-    period_info = update_info.loc[period].reset_index()
+    period_info = _get_period_info(update_info, period)
     to_concat = []
     for factor in latent_factors:
         is_measurement = period_info[factor] & (period_info["purpose"] == "measurement")
@@ -501,12 +501,14 @@ def _get_factor_scores_data_for_single_period(
         df (pd.DataFrame): Processed DataFrame to calculate correlations over.
 
     """
-    period_info = update_info.loc[period].reset_index()
+    period_info = _get_period_info(update_info, period)
     params = params.query(f"period=={period}").droplevel("period")
-    loadings = params.loc["loadings"]["value"]
-    intercepts = (
-        params.loc["controls"].query("name2 == 'constant'").droplevel("name2")["value"]
-    )
+    category = params.index.get_level_values("category")
+    params = params.droplevel("category")["value"]
+    loadings = params[category == "loadings"]
+    intercepts = params[category == "controls"]
+    is_constant = intercepts.index.get_level_values("name2") == "constant"
+    intercepts = intercepts[is_constant].droplevel("name2")
     loadings_count = loadings.astype(bool).groupby("name1").sum()
     leave_out_meas = loadings_count[loadings_count > 1].index.to_list()
     to_concat = []
@@ -572,6 +574,12 @@ def _get_period_data(data, update_info, period):
     return data[periods == period]
 
 
+def _get_period_info(update_info, period):
+    """Select the update info of one period, which might not have any measurements."""
+    is_period = update_info.index.get_level_values(0) == period
+    return update_info[is_period].droplevel(0).reset_index()
+
+
 def _process_factors(model, factors):
     "Process factors to get a tuple of lists."
     if not factors:
-- 
2.43.0


From 7d067abcfba24dd5c08518916ac18cd09d4173f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:16 +0000
Subject: [PATCH 24/39] fix: do not repeat measurements of several factors in
 correlation tables

---
 skillmodels/correlation_heatmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 73aa635..6e970cb 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -298,7 +298,10 @@ def _get_measurement_data_for_single_period(
 
     for fac in latent_factors:
         is_measurement = period_info[fac] & (period_info["purpose"] == "measurement")
-        measurements += period_info[is_measurement]["variable"].to_list()
+        for meas in period_info[is_measurement]["variable"]:
+            # measurements can be related to several factors
+            if meas not in measurements:
+                measurements.append(meas)
     for fac in observed_factors:
         measurements.append(fac)
     df = _get_period_data(data, update_info, period)[measurements]
-- 
2.43.0


From 3d3b95c11325dffe5fff4d896eba81030a35e52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:41 +0000
Subject: [PATCH 25/39] fix: do not divide by loadings of zero in factor scores

---
 skillmodels/correlation_heatmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 6e970cb..b40e641 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -519,7 +519,9 @@ def _get_factor_scores_data_for_single_period(
         is_measurement = period_info[factor] & (period_info["purpose"] == "measurement")
         period_factor_measurements = period_info[is_measurement]["variable"].to_list()
         period_factor_measurements = [
-            m for m in period_factor_measurements if m not in leave_out_meas
+            m
+            for m in period_factor_measurements
+            if m not in leave_out_meas and loadings.loc[(m, factor)] != 0
         ]
         df = _get_period_data(data, update_info, period)[period_factor_measurements]
         for m in period_factor_measurements:
-- 
2.43.0


From f4875286e78839c74e1e41b0b5c5a833ee379286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:26 +0000
Subject: [PATCH 26/39] fix: default color limits of trimmed heatmaps and
 tables with undefined correlations

---
 skillmodels/correlation_heatmap.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index b40e641..ba0f22b 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -737,7 +737,7 @@ def _get_heatmap_kwargs(
 
     """
     if zmax is None:
-        zmax = np.abs(corr.to_numpy())[np.tril_indices_from(corr, k=-1)].max()
+        zmax = _get_default_zmax(corr)
     if zmin is None:
         zmin = -zmax
     if zmid is None:
@@ -754,6 +754,19 @@ def _get_heatmap_kwargs(
     return default_heatmap_kwargs
 
 
+def _get_default_zmax(corr):
+    """Get the maximum absolute value of the displayed correlations.
+
+    The diagonal is identified by the labels because the first row and last column
+    are not there in trimmed heatmaps. Undefined correlations are ignored.
+
+    """
+    is_off_diagonal = corr.index.to_numpy()[:, np.newaxis] != corr.columns.to_numpy()
+    values = np.abs(corr.to_numpy())[is_off_diagonal]
+    values = values[~np.isnan(values)]
+    return values.max() if len(values) > 0 else 1
+
+
 def _process_axes_tick_args(args):
     if isinstance(args, (tuple, list)):
         args = {"x": args[0], "y": args[1]}
-- 
2.43.0


From f1544808515fb11abcc1b0d57660c9aae99640da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:57 +0000
Subject: [PATCH 27/39] fix: use default ranges of observed factors if ranges
 of latent factors are given

---
 skillmodels/visualize_transition_equations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 023f1d5..5927d1e 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -314,10 +314,11 @@ def _get_dictionary_with_plots(
 
 
 def _get_state_ranges(state_ranges, states_data, all_factors):
-    """Create state ranges if none is given"""
-    if state_ranges is None:
-        state_ranges = create_state_ranges(states_data, all_factors)
-    return state_ranges
+    """Create state ranges of all factors for which none is given"""
+    default_ranges = create_state_ranges(states_data, all_factors)
+    if state_ranges is not None:
+        default_ranges.update(state_ranges)
+    return default_ranges
 
 
 def _get_pardict(model, params):
-- 
2.43.0


From 89bed427083fd8a999db247c56ef26992a86eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:57 +0000
Subject: [PATCH 28/39] fix: average transition plots with more draws than
 individuals

---
 skillmodels/visualize_transition_equations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 5927d1e..06c0c06 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -447,7 +447,9 @@ def _prepare_data_for_one_plot_average_2d(
     period_data = states_data.query(f"period == {period}")[all_factors].reset_index()
 
     sampled_factors = [factor for factor in all_factors if factor != input_factor]
-    draws = period_data[sampled_factors].sample(n=n_draws)
+    draws = period_data[sampled_factors].sample(
+        n=n_draws, replace=n_draws > len(period_data)
+    )
     input_min = state_ranges[input_factor].loc[period]["minimum"]
     input_max = state_ranges[input_factor].loc[period]["maximum"]
 
-- 
2.43.0


From 2d452d3331392d4e2e2a4f892d6568c9a60a3dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:36 +0000
Subject: [PATCH 29/39] fix: do not swap the axes of density contours

---
 skillmodels/visualize_factor_distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 9f1ee6d..3db93a4 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -341,7 +341,8 @@ def bivariate_density_contours(
                 contour = go.Contour(
                     x=x[:, 0],
                     y=y[0, :],
-                    z=z,
+                    # rows of z belong to y, columns to x
+                    z=z.T,
                     line={"color": getattr(px.colors.qualitative, lines_colorscale)[i]},
                 )
                 fig.add_trace(contour)
-- 
2.43.0


From 524193e051abba0c917d597c8f51816494d56eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:58 +0000
Subject: [PATCH 30/39] fix: match observed factors and states in density plots
 by individual and period

---
 skillmodels/visualize_factor_distributions.py | 60 +++++++++----------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 3db93a4..d4b2aa9 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -10,6 +10,7 @@ from plotly.subplots import make_subplots
 from scipy.stats import gaussian_kde
 
 from skillmodels.filtered_states import get_filtered_states
+from skillmodels.process_data import pre_process_data
 from skillmodels.process_model import process_model
 from skillmodels.utils_plotting import get_layout_kwargs
 from skillmodels.utils_plotting import get_make_subplot_kwargs
@@ -210,7 +211,7 @@ def univariate_densities(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     scenarios = df["scenario"].unique()
     plots_dict = {}
@@ -314,7 +315,7 @@ def bivariate_density_contours(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data=data, factors=factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     contour_kwargs = _process_contour_kwargs(
@@ -430,7 +431,7 @@ def bivariate_density_surfaces(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     layout_kwargs = _process_layout_kwargs_3d(
@@ -475,26 +476,22 @@ def bivariate_density_surfaces(
 
 def _process_data(states, period, factors, observed_states=None):
     if isinstance(states, pd.DataFrame):
-        to_concat = []
-        for fac in factors:
-            if fac in states:
-                to_concat.append(states.query(f"period == {period}")[fac])
-        data = pd.concat(to_concat, axis=1)
-        data["scenario"] = "none"
-    else:
-        if not isinstance(states, dict):
-            states = {i: df for i, df in enumerate(states)}
-        to_concat = []
-        for name, df in states.items():
-            df = df.query(f"period == {period}")[factors]
-            df["scenario"] = name
-            to_concat.append(df)
-        data = pd.concat(to_concat)
-    data = data.reset_index()
-    if observed_states is not None:
-        data = pd.concat(
-            [data, observed_states.query(f"period == {period}").reset_index()], axis=1
-        )
+        states = {"none": states}
+    elif not isinstance(states, dict):
+        states = {i: df for i, df in enumerate(states)}
+    to_concat = []
+    for name, df in states.items():
+        df = df.query(f"period == {period}")
+        data = df[[fac for fac in factors if fac in df]].copy()
+        if observed_states is not None:
+            ids = df["id"] if "id" in df else df.index.get_level_values("id")
+            is_period = observed_states.index.get_level_values("period") == period
+            period_data = observed_states[is_period].droplevel("period").reindex(ids)
+            for fac in period_data:
+                data[fac] = period_data[fac].to_numpy()
+        data["scenario"] = name
+        to_concat.append(data)
+    data = pd.concat(to_concat).reset_index(drop=True)
     return data
 
 
@@ -623,14 +620,15 @@ def _get_factors(factors, observed_factors, model):
     return factors
 
 
-def _get_data_observed_factors(data, factors):
-    """Get data with observed factors if any."""
-    to_concat = []
-    for fac in factors:
-        if fac in data:
-            to_concat.append(data[fac])
-    if len(to_concat) >= 1:
-        observed_states = pd.DataFrame(pd.concat(to_concat))
+def _get_data_observed_factors(data, factors, model):
+    """Get data with observed factors if any.
+
+    The data have the same ids and periods as the filtered states.
+
+    """
+    selected = [fac for fac in factors if fac in model["labels"]["observed_factors"]]
+    if selected:
+        observed_states = pre_process_data(data, model["labels"]["periods"])[selected]
     else:
         observed_states = None
     return observed_states
-- 
2.43.0


From b4ff3a172bafa1b1de9af6bc5490ffdfb40dc112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:17 +0000
Subject: [PATCH 31/39] fix: do not modify factor mappings when combining plots

---
 skillmodels/visualize_factor_distributions.py | 8 ++------
 skillmodels/visualize_transition_equations.py | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index d4b2aa9..94f53db 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -591,12 +591,8 @@ def _process_layout_kwargs_3d(layout_kwargs, showgrids, showaxlines, showlabels)
 def _process_factor_mapping_dist(mapper, factors):
     """Process mapper to return dictionary with old and new factor names"""
     if mapper is None:
-        mapper = {fac: fac for fac in factors}
-    else:
-        for fac in factors:
-            if fac not in mapper:
-                mapper[fac] = fac
-    return mapper
+        mapper = {}
+    return {**{fac: fac for fac in factors}, **mapper}
 
 
 def _get_ordered_factors(factor_order, factors):
diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 06c0c06..11d838d 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -474,12 +474,8 @@ def _process_factor_mapping_trans(factor_mapper, output_factors, input_factors):
     """Process mapper to return dictionary with old and new factor names"""
     all_factors = input_factors + output_factors
     if factor_mapper is None:
-        factor_mapper = {fac: fac for fac in all_factors}
-    else:
-        for fac in all_factors:
-            if fac not in factor_mapper:
-                factor_mapper[fac] = fac
-    return factor_mapper
+        factor_mapper = {}
+    return {**{fac: fac for fac in all_factors}, **factor_mapper}
 
 
 def _process_orders(columns, rows, plots_dict):
-- 
2.43.0


From c160f8d58b7fe91b51a214849b74b4ddf3b388c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:36 +0000
Subject: [PATCH 32/39] fix: combine distribution plots if a surface plot is
 empty

---
 skillmodels/visualize_factor_distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 94f53db..9f1ad2e 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -131,7 +131,8 @@ def combine_distribution_plots(
                 if surface_plots is not None:
                     plot = surface_plots[(fac1, fac2)]
                     camera = {"eye": {"x": eye_x, "y": eye_y, "z": eye_z}}
-                    fig.add_trace(plot.data[0], col=col + 1, row=row + 1)
+                    for d in plot.data:
+                        fig.add_trace(d, col=col + 1, row=row + 1)
                     fig.update_scenes(camera=camera, row=row + 1, col=col + 1)
                     fig.update_scenes(
                         xaxis={"title": "", "showgrid": True}, row=row + 1, col=col + 1
-- 
2.43.0


From dea7ad3c21971f71cb94c89772979da6c0b047c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:57 +0000
Subject: [PATCH 33/39] fix: combine distribution plots with custom axis titles

---
 skillmodels/visualize_factor_distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 9f1ad2e..f4847a1 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -108,12 +108,12 @@ def combine_distribution_plots(
                     d.update({"showlegend": False})
                     fig.add_trace(d, col=col + 1, row=row + 1)
                     fig.update_xaxes(
-                        title=factor_names[plot.layout.xaxis.title.text],
+                        title=factor_names[fac1],
                         col=col + 1,
                         row=row + 1,
                     )
                     fig.update_yaxes(
-                        title=factor_names[plot.layout.yaxis.title.text],
+                        title=factor_names[fac2],
                         col=col + 1,
                         row=row + 1,
                     )
-- 
2.43.0


From 04fde5a39eeb6c0023803e05d0255ea802cec670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:49 +0000
Subject: [PATCH 34/39] fix: univariate densities for lists of states

---
 skillmodels/visualize_factor_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index f4847a1..f9a8f74 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -214,7 +214,7 @@ def univariate_densities(
     )
     observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
-    scenarios = df["scenario"].unique()
+    scenarios = df["scenario"].unique().tolist()
     plots_dict = {}
     distplot_kwargs = _process_distplot_kwargs(
         show_curve,
-- 
2.43.0


From 2a6d910208ced25b8a33590385a86eff71fb8b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:01 +0000
Subject: [PATCH 35/39] fix: reject names of anchoring equations that clash
 with measurements

---
 skillmodels/check_model.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index eac01bf..0adebe0 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -32,6 +32,7 @@ def check_model(model_dict, labels, dimensions, anchoring):
     report += _check_anchoring(anchoring)
     report += _check_anchored_factors(anchoring, labels["latent_factors"])
     report += _check_measurements(model_dict, labels["latent_factors"])
+    report += _check_anchoring_update_names(model_dict, anchoring)
     report += _check_normalizations(model_dict, labels["latent_factors"])
 
     report = "\n".join(report)
@@ -108,6 +109,27 @@ def _check_measurements(model_dict, factors):
     return report
 
 
+def _check_anchoring_update_names(model_dict, anchoring):
+    """Check that the names of anchoring updates do not clash with other names."""
+    if not isinstance(anchoring["outcomes"], dict):
+        return []
+    report = []
+    taken = []
+    for info in model_dict["factors"].values():
+        if _is_list_of(info["measurements"], list):
+            for meas_list in info["measurements"]:
+                taken += meas_list
+    for factor, outcome in anchoring["outcomes"].items():
+        name = f"{outcome}_{factor}"
+        if name in taken:
+            report.append(
+                f"The name {name} is needed to anchor {factor} with {outcome} but it "
+                "is also the name of a measurement or of another anchoring equation."
+            )
+        taken.append(name)
+    return report
+
+
 def _check_normalizations(model_dict, factors):
     report = []
     for factor in factors:
-- 
2.43.0


From 43c4c282c093e84370ebb19489c468b4b571e5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:12 +0000
Subject: [PATCH 36/39] fix: reject duplicated names of factors and controls

---
 skillmodels/check_model.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 0adebe0..1fba4bf 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -29,6 +29,7 @@ def check_model(model_dict, labels, dimensions, anchoring):
     report = _check_stagemap(
         labels["stagemap"], labels["stages"], dimensions["n_periods"]
     )
+    report += _check_labels_are_unique(labels)
     report += _check_anchoring(anchoring)
     report += _check_anchored_factors(anchoring, labels["latent_factors"])
     report += _check_measurements(model_dict, labels["latent_factors"])
@@ -56,6 +57,18 @@ def _check_stagemap(stagemap, stages, n_periods):
     return report
 
 
+def _check_labels_are_unique(labels):
+    report = []
+    for category in ["all_factors", "controls"]:
+        names = labels[category]
+        duplicates = sorted({str(name) for name in names if names.count(name) > 1})
+        if duplicates:
+            report.append(
+                f"Names of {category} must be unique. Duplicates are: {duplicates}."
+            )
+    return report
+
+
 def _check_anchoring(anchoring):
     report = []
     if not isinstance(anchoring["anchoring"], bool):
-- 
2.43.0


From 4cefcd30ece6a95ff055a0046885d92a6eb4c660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:37 +0000
Subject: [PATCH 37/39] fix: make the values of the parameter template numeric

The value column had object dtype. Filling the template in place (entry by
entry, category by category or with update_parameter_values) kept it and the
likelihood functions then raised a TypeError.
---
 skillmodels/likelihood_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/likelihood_function.py b/skillmodels/likelihood_function.py
index 9a5c46d..de416e0 100644
--- a/skillmodels/likelihood_function.py
+++ b/skillmodels/likelihood_function.py
@@ -159,7 +159,7 @@ def get_maximization_inputs(model_dict, data, jacobian_type="jacrev"):
         transition_info=model["transition_info"],
     )
 
-    params_template = pd.DataFrame(columns=["value"], index=p_index)
+    params_template = pd.DataFrame(columns=["value"], index=p_index, dtype=float)
     params_template = add_bounds(
         params_template, model["estimation_options"]["bounds_distance"]
     )
-- 
2.43.0


From a6e0a43b93a36cf4d1dc22c09097da88940b5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:31 +0000
Subject: [PATCH 38/39] fix: do not constrain custom functions named like
 built-in functions

A custom transition function called constant had its shock standard deviations
fixed to zero and one called log_ces was subject to a probability constraint on
parameters that do not exist.
---
 skillmodels/process_model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index 07d0f29..3cbf56d 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -202,7 +202,15 @@ def _get_transition_info(model_dict, labels):
                 )
             func_list.append(extract_params(spec, key=factor, names=names))
 
-    function_names = [f.__name__ for f in func_list]
+    function_names = []
+    for factor, func in zip(latent_factors, func_list):
+        name = func.__name__
+        # constraints of built-in functions do not apply to custom functions that happen
+        # to have the same name.
+        is_custom = callable(model_dict["factors"][factor]["transition_function"])
+        if is_custom and hasattr(tf, name):
+            name = f"custom_{name}"
+        function_names.append(name)
 
     functions = {
         f"__next_{fac}__": func for fac, func in zip(latent_factors, func_list)
-- 
2.43.0


From 8f816c89e3c4da48bd3e191983e96be038854033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:09 +0000
Subject: [PATCH 39/39] fix: reject names of anchoring equations that clash
 with other variables

The copy of the outcome silently replaced the control, observed factor or other
outcome of that name.
---
 skillmodels/check_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 1fba4bf..74d7608 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -127,7 +127,9 @@ def _check_anchoring_update_names(model_dict, anchoring):
     if not isinstance(anchoring["outcomes"], dict):
         return []
     report = []
-    taken = []
+    taken = list(model_dict.get("controls", []))
+    taken += list(model_dict.get("observed_factors", []))
+    taken += list(anchoring["outcomes"].values())
     for info in model_dict["factors"].values():
         if _is_list_of(info["measurements"], list):
             for meas_list in info["measurements"]:
@@ -137,7 +139,7 @@ def _check_anchoring_update_names(model_dict, anchoring):
         if name in taken:
             report.append(
                 f"The name {name} is needed to anchor {factor} with {outcome} but it "
-                "is also the name of a measurement or of another anchoring equation."
+                "is also the name of another variable or of another anchoring equation."
             )
         taken.append(name)
     return report
-- 
2.43.0

