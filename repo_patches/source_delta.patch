From 4c7fffcc1e2a0734edcbca8f22642befb6a9087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 01/95] fix: multinomial inverse transform overwrote its input
 (the controlling uniform sample)

---
 pelicun/uq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 22e743f..e2061d9 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2469,6 +2469,9 @@ class MultinomialRandomVariable(RandomVariable):
         """
         p_cum = np.cumsum(self.theta)[:-1]
 
+        # do not modify the array that was passed in
+        values = np.array(values, dtype=float)
+
         for i, p_i in enumerate(p_cum):
             values[values < p_i] = 10 + i
         values[values <= 1.0] = 10 + len(p_cum)
-- 
2.43.0


From d9c9ec7200263c1a2c772f789d0f21f05e67fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 02/95] fix: multinomial weights that sum to 1.0 were rejected
 because of round-off

---
 pelicun/uq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index e2061d9..3d442b8 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2437,7 +2437,7 @@ class MultinomialRandomVariable(RandomVariable):
             msg = f'{self.distribution} RVs do not support truncation'
             raise NotImplementedError(msg)
         self.distribution = 'multinomial'
-        if np.sum(theta) > 1.00:
+        if np.sum(theta) > 1.00 + 1.0e-10:  # allow for round-off
             msg = (
                 f'The set of p values provided for a multinomial '
                 f'distribution shall sum up to less than or equal to 1.0. '
-- 
2.43.0


From 9b44ad891105a04c6db6c274bc6c18476685bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 03/95] fix: normal variables with a negative mean or with
 variable parameters returned NaN or failed

---
 pelicun/uq.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 3d442b8..f1036ef 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1655,8 +1655,8 @@ class Normal_STD(NormalRandomVariable):
         anchor: BaseRandomVariable | None = None,
     ) -> None:
         """Instantiate a Normal_STD random variable."""
-        mean, std = theta[:2]
-        theta = np.array([mean, std])
+        # the parameters are the columns of a 2D (variable) theta
+        theta = np.asarray(theta)[..., :2]
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
@@ -1688,15 +1688,16 @@ class Normal_COV(NormalRandomVariable):
           If the specified mean is zero.
 
         """
-        mean, cov = theta[:2]
+        theta = np.asarray(theta)
+        mean, cov = theta[..., 0], theta[..., 1]
 
         almost_zero = 1e-40
-        if np.abs(mean) < almost_zero:
+        if np.any(np.abs(mean) < almost_zero):
             msg = 'The mean of Normal_COV RVs cannot be zero.'
             raise ValueError(msg)
 
-        std = mean * cov
-        theta = np.array([mean, std])
+        std = np.abs(mean) * cov
+        theta = np.stack([mean, std], axis=-1)
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
-- 
2.43.0


From 7fe4adf06ef153e7213c4f59d47bd09da163c12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 04/95] fix: truncation limits replaced the bounds of uniform
 variables instead of narrowing them

---
 pelicun/uq.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index f1036ef..9b98da3 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1882,8 +1882,10 @@ class UniformRandomVariable(RandomVariable):
         if np.isnan(b):
             b = np.inf
 
-        if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+        # truncation can only narrow down the range, on either side
+        tr_a, tr_b = self.truncation_limits
+        a = np.fmax(a, tr_a)
+        b = np.fmin(b, tr_b)
 
         return uniform.cdf(values, loc=a, scale=(b - a))
 
@@ -1912,8 +1914,10 @@ class UniformRandomVariable(RandomVariable):
         if np.isnan(b):
             b = np.inf
 
-        if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+        # truncation can only narrow down the range, on either side
+        tr_a, tr_b = self.truncation_limits
+        a = np.fmax(a, tr_a)
+        b = np.fmin(b, tr_b)
 
         return uniform.ppf(values, loc=a, scale=(b - a))
 
-- 
2.43.0


From 62ce1d921f271ec2e4f743b7102dfd1aa0648cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 05/95] fix: CDF of lognormal variables truncated at a
 non-positive lower limit was NaN

---
 pelicun/uq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 9b98da3..ac509d0 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1751,6 +1751,7 @@ class LogNormalRandomVariable(RandomVariable):
 
             # Replace NaN values
             a = np.nan_to_num(a, nan=FIRST_POSITIVE_NUMBER)
+            a[a <= 0] = FIRST_POSITIVE_NUMBER
             b = np.nan_to_num(b, nan=np.inf)
 
             p_a, p_b = (
-- 
2.43.0


From 20c1dd9eb852a6bb20209ae9b75369972835d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 06/95] fix: scaling a distribution with integer parameters
 truncated the results

---
 pelicun/uq.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index ac509d0..9886843 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -108,14 +108,13 @@ def scale_distribution(
 
     """
     if truncation_limits is not None:
-        truncation_limits = truncation_limits.copy()
-        truncation_limits *= scale_factor
+        truncation_limits = truncation_limits * scale_factor
 
     # undefined family is considered deterministic
     if pd.isna(family):
         family = 'deterministic'
 
-    theta_new = np.full_like(theta, np.nan)
+    theta_new = np.full_like(theta, np.nan, dtype=np.result_type(theta, float))
     if family == 'normal_std':
         theta_new[0] = theta[0] * scale_factor  # mean
         theta_new[1] = theta[1] * scale_factor  # STD
-- 
2.43.0


From b0fc3a9d57a477387edc3f98b9f5942d649080d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 07/95] fix: models with Weibull parameters could not be loaded
 because their units were not converted

---
 pelicun/uq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 9886843..4695a40 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -127,6 +127,10 @@ def scale_distribution(
         theta_new[0] = theta[0] * scale_factor
         theta_new[1] = theta[1]  # because it is log std
 
+    elif family == 'weibull':
+        theta_new[0] = theta[0] * scale_factor  # scale
+        theta_new[1] = theta[1]  # because it is the shape parameter
+
     elif family == 'uniform':
         theta_new[0] = theta[0] * scale_factor
         theta_new[1] = theta[1] * scale_factor
-- 
2.43.0


From f993d9b755c349c0aa13e0ac8f63cf6a92eeb851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 08/95] fix: multilinear capacities failed for components with
 more than one block

---
 pelicun/model/damage_model.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 73ccac9..433afc1 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1511,6 +1511,21 @@ class DamageModel_DS(DamageModel_Base):
                         ]
                     )
 
+                    # parse theta values for multilinear_CDF
+                    if family == 'multilinear_CDF':
+                        theta = np.column_stack(  # type: ignore
+                            (
+                                np.array(
+                                    theta[0].split('|')[0].split(','),
+                                    dtype=float,
+                                ),
+                                np.array(
+                                    theta[0].split('|')[1].split(','),
+                                    dtype=float,
+                                ),
+                            )
+                        )
+
                     for block_i, _ in enumerate(blocks):
                         frg_rv_tag = (
                             'FRG-'
@@ -1540,21 +1555,6 @@ class DamageModel_DS(DamageModel_Base):
                         else:
                             anchor = anchor_rvs[block_i]
 
-                        # parse theta values for multilinear_CDF
-                        if family == 'multilinear_CDF':
-                            theta = np.column_stack(  # type: ignore
-                                (
-                                    np.array(
-                                        theta[0].split('|')[0].split(','),
-                                        dtype=float,
-                                    ),
-                                    np.array(
-                                        theta[0].split('|')[1].split(','),
-                                        dtype=float,
-                                    ),
-                                )
-                            )
-
                         rv = uq.rv_class_map(family)(  # type: ignore
                             name=frg_rv_tag,
                             theta=theta,
-- 
2.43.0


From 234018162d471243364a37027de38b4959af04a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 09/95] fix: limit states beyond the ninth were evaluated in
 the wrong order

---
 pelicun/model/damage_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 433afc1..2e6872f 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1123,7 +1123,11 @@ class DamageModel_DS(DamageModel_Base):
         )
 
         # get a list of limit state ids among all components in the damage model
-        ls_list = dmg_eval.columns.get_level_values(5).unique()
+        # in increasing order of severity
+        ls_list = sorted(
+            dmg_eval.columns.get_level_values(5).unique(),
+            key=lambda ls_id: (len(ls_id), ls_id),
+        )
 
         # for each consecutive limit state...
         for ls_id in ls_list:
@@ -1443,6 +1447,9 @@ class DamageModel_DS(DamageModel_Base):
                     if 'LS' in val:
                         limit_states.append(val[2:])  # noqa: PERF401
 
+                # in increasing order of severity
+                limit_states.sort(key=lambda ls_id: (len(ls_id), ls_id))
+
                 ds_id = 0
 
                 frg_rv_set_tags: list = [[] for b in blocks]
-- 
2.43.0


From 8d31e97cb1ef3eca27350273bff644abfb662192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 10/95] fix: damage process tasks numbered above nine were
 executed out of order

---
 pelicun/model/damage_model.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 2e6872f..fb9c3c3 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -308,8 +308,11 @@ class DamageModel(PelicunModel):
         if dmg_process is not None:
             self.log.msg('Applying damage processes.')
 
-            # Sort the damage processes tasks
-            dmg_process = {key: dmg_process[key] for key in sorted(dmg_process)}
+            # Sort the damage processes tasks by their number
+            dmg_process = {
+                key: dmg_process[key]
+                for key in sorted(dmg_process, key=_dmg_task_order)
+            }
 
             # Perform damage tasks in the sorted order
             for task in dmg_process.items():
@@ -2028,6 +2031,27 @@ class DamageModel_DS(DamageModel_Base):
         return res
 
 
+def _dmg_task_order(task_name: str) -> tuple[float, str]:
+    """
+    Get the sort key of a task in a damage process.
+
+    Parameters
+    ----------
+    task_name: str
+        Name of the task, e.g., `10_CMP.A`. The number in the
+        beginning determines the order of the tasks.
+
+    Returns
+    -------
+    tuple
+        The number of the task and its name. Tasks without a number
+        are placed at the end.
+
+    """
+    number = base.float_or_None(task_name.split('_')[0])
+    return (np.inf if number is None else number), task_name
+
+
 def _is_for_ds_model(data: pd.DataFrame) -> bool:
     """
     Check if data are for `ds_model`.
-- 
2.43.0


From a83d3543c2768335da4bbb454a617005396cb13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 11/95] fix: listing all damage states failed without damage
 state weights or with states triggered by damage processes

---
 pelicun/model/damage_model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index fb9c3c3..eb244db 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1990,14 +1990,13 @@ class DamageModel_DS(DamageModel_Base):
                 # check if the given limit state is defined
                 if not pd.isna(cmp_data[ls, 'Theta_0']):
                     # check if there is only one damage state
-                    if pd.isna(cmp_data[ls, 'DamageStateWeights']):
+                    ds_weights = cmp_data.get((ls, 'DamageStateWeights'))
+                    if pd.isna(ds_weights):
                         ds_count += 1
 
                     else:
                         # or if there are more than one, how many
-                        ds_count += len(
-                            cmp_data[ls, 'DamageStateWeights'].split('|')
-                        )
+                        ds_count += len(ds_weights.split('|'))
 
             # get the list of valid cmp-loc-dir-uid sets
             if cmp_id not in damaged_components:
@@ -2019,9 +2018,12 @@ class DamageModel_DS(DamageModel_Base):
 
         # Fill the result DataFrame with zeros and reorder its columns to have
         # the damage states at the lowest like - matching the dmg_sample input
+        # Note that damage processes can trigger damage states that are not
+        # defined in the damage model parameters.
+        columns = res.columns.reorder_levels([1, 2, 3, 4, 0])  # type: ignore
         res = pd.DataFrame(
             0.0,
-            columns=res.columns.reorder_levels([1, 2, 3, 4, 0]),  # type: ignore
+            columns=columns.union(dmg_sample.columns, sort=False),
             index=dmg_sample.index,
         )
 
-- 
2.43.0


From 5e1178ba29fd5d3523b097b404196c91a4f6a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 12/95] fix: realization-specific capacity adjustments failed
 for deterministic capacities

---
 pelicun/uq.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 4695a40..d0ef9e1 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2405,7 +2405,23 @@ class DeterministicRandomVariable(UtilityRandomVariable):
         ndarray
           Sample array containing the deterministic value.
 
+        Raises
+        ------
+        ValueError
+          If a value is specified for each realization and the number of
+          values does not match the sample size.
+
         """
+        if self.theta.ndim > 1:
+            # one row of parameters for each realization
+            if len(self.theta) != sample_size:
+                msg = (
+                    'Number of elements in `theta` variable should be equal to '
+                    f'the sample size: {len(self.theta)} != {sample_size}.'
+                )
+                raise ValueError(msg)
+            return self.theta[:, 0].copy()
+
         return np.full(sample_size, self.theta[0])
 
 
-- 
2.43.0


From f28b8e29e0f814537b88439e202b1499453cbb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 13/95] fix: components without a demand expression failed next
 to components that have one

---
 pelicun/model/demand_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f100010..8baadba 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1290,6 +1290,9 @@ def _get_required_demand_type(
         # Utility Demand: if there is an `Expression`, then load the
         # rest of the demand types.
         expression = model_parameters.loc[cmp, :].get(('Demand', 'Expression'))
+        if pd.isna(expression):
+            # other components might have expressions, but not this one
+            expression = None
         if expression is not None:
             # get the number of variables in the expression using
             # the numexpr library
-- 
2.43.0


From 4bbe0eac037b1cfdc2f37a900d358115fb287a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 14/95] fix: demand expressions failed when two of their terms
 referred to the same demand

---
 pelicun/model/demand_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 8baadba..006d7af 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1481,8 +1481,8 @@ def _assemble_required_demand_data(
         if expression is not None:
             # build a dict of values
             value_dict = {}
-            for i, edp_value in enumerate(edp_values.values()):
-                value_dict[f'X{i + 1}'] = edp_value
+            for i, edp in enumerate(edps):
+                value_dict[f'X{i + 1}'] = edp_values[edp]
             demand = ne.evaluate(
                 _clean_up_expression(expression), local_dict=value_dict
             )
-- 
2.43.0


From df7d8a7e8842447f8ffacedc75e0f2e5b9f96b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 15/95] fix: missing demand directions were not reported as
 such

---
 pelicun/model/demand_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 006d7af..8544758 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1575,13 +1575,13 @@ def _verify_edps_available(available_edps: dict, required: set) -> None:
                 raise ValueError(msg)
             # if non-directional demand is requested, ensure there
             # are entries (all directions accepted)
-            num_entries = len(available_edps[edp_type, location])
-            if edp[2] == '0' and num_entries == 0:
+            available_directions = available_edps[edp_type, location]
+            if direction == '0' and len(available_directions) == 0:
                 msg = (
                     f'Unable to locate any `{edp_type}` '
                     f'at location {location} and direction {direction}.'
                 )
                 raise ValueError(msg)
-            if edp[2] != '0' and num_entries == 0:
+            if direction != '0' and direction not in available_directions:
                 msg = f'Unable to locate `{edp_type}-{location}-{direction}`.'
                 raise ValueError(msg)
-- 
2.43.0


From d7bfc856bdf19aeb792e8377a72994c8ad4711f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 16/95] fix: repair consequences failed when economies of scale
 do not apply across floors

---
 pelicun/model/loss_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 062fcab..6167e65 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1942,8 +1942,8 @@ class RepairModel_DS(RepairModel_Base):
             eco_columns = ['cmp', 'loc']
 
         else:
-            eco_levels = [0, 1, 4]
-            eco_columns = ['cmp', 'loc', 'ds']
+            eco_levels = [0, 4, 1]
+            eco_columns = ['cmp', 'ds', 'loc']
 
         eco_group = dmg_quantities.T.groupby(level=eco_levels)
         eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
@@ -2486,7 +2486,7 @@ class RepairModel_DS(RepairModel_Base):
                     result.columns = result.columns.droplevel('del')
 
                 # name the remaining column header levels
-                if eco_qnt.columns.names == ['cmp', 'ds', 'loc']:
+                if 'loc' in eco_qnt.columns.names:
                     result.columns.names = ['cmp', 'ds', 'loc']
                 else:
                     result.columns.names = ['cmp', 'ds']
-- 
2.43.0


From 3a9d2c0f09d6b545ead38e70233eae66ef0fc719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 17/95] fix: undamaged quantities counted towards economies of
 scale across damage states

---
 pelicun/model/loss_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 6167e65..d032f73 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1945,7 +1945,12 @@ class RepairModel_DS(RepairModel_Base):
             eco_levels = [0, 4, 1]
             eco_columns = ['cmp', 'ds', 'loc']
 
-        eco_group = dmg_quantities.T.groupby(level=eco_levels)
+        # only damaged quantities are repaired, the quantities without damage
+        # do not contribute to the economies of scale
+        damaged_quantities = dmg_quantities.loc[
+            :, dmg_quantities.columns.get_level_values('ds') != '0'
+        ]
+        eco_group = damaged_quantities.T.groupby(level=eco_levels)
         eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
         assert eco_qnt.columns.names == eco_columns
 
-- 
2.43.0


From d3559c8fb23a3336bd3b282fef5f7d1cef536763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 18/95] fix: repair consequences failed when a damage state
 with consequences was not realized

---
 pelicun/model/loss_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index d032f73..0eaf26a 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2014,6 +2014,8 @@ class RepairModel_DS(RepairModel_Base):
         )
         dmg_quantities = dmg_quantities.sort_index(axis=1)
 
+        realized_damage_states = set(dmg_quantities.columns.droplevel([2, 3, 4]))
+
         if std_sample is not None:
             std_dvs = std_sample.columns.unique(level=0)
         else:
@@ -2044,6 +2046,10 @@ class RepairModel_DS(RepairModel_Base):
                     .loc[:, component]
                     .columns.unique(level=0)
                 ):
+                    # skip the damage states that were not realized
+                    if (component, ds) not in realized_damage_states:
+                        continue
+
                     loc_list = []
 
                     for loc_id, loc in enumerate(
-- 
2.43.0


From 36c715b619f134a4d1f0308c425558cc8b47f9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 19/95] fix: loss calculation failed when none of the realized
 damage has consequences

---
 pelicun/model/loss_model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 0eaf26a..ec7c846 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2137,6 +2137,14 @@ class RepairModel_DS(RepairModel_Base):
                     for loss_cmp_i, dmg_cmp_i, ds, loc in cmp_list
                 ]
 
+        if not res_list:
+            self.sample = None
+            self.log.msg(
+                'None of the damage has consequences---DV sample is set to None.',
+                prepend_timestamp=False,
+            )
+            return
+
         lvl_names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
         dv_sample = pd.concat(res_list, axis=1, keys=key_list, names=lvl_names)
 
-- 
2.43.0


From 33a28ac22085e01ab518a2406a2c4edbacf8beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 20/95] fix: deterministic consequences failed because of their
 truncation limits

---
 pelicun/model/loss_model.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index ec7c846..22fe593 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2312,7 +2312,7 @@ class RepairModel_DS(RepairModel_Base):
                                     f'{ds}-{loc}-{direction}-{uid}'
                                 ),
                                 theta=np.array(ds_theta),
-                                truncation_limits=np.array([0.0, np.nan]),
+                                truncation_limits=_non_negative_limits(ds_family),
                             )
                         )
                         rv_count += 1
@@ -2878,7 +2878,7 @@ class RepairModel_LF(RepairModel_Base):
                         f'{component}-{location}-{direction}-{uid}-{block}'
                     ),
                     theta=np.array(theta),
-                    truncation_limits=np.array([0.0, np.nan]),
+                    truncation_limits=_non_negative_limits(family),
                 )
             )
             rv_count += 1
@@ -2918,6 +2918,27 @@ class RepairModel_LF(RepairModel_Base):
         return None
 
 
+def _non_negative_limits(family: str) -> np.ndarray | None:
+    """
+    Return the truncation limits that keep a consequence non-negative.
+
+    Parameters
+    ----------
+    family: str
+        Distribution family of the consequence.
+
+    Returns
+    -------
+    ndarray or None
+        Truncation limits, or None for deterministic consequences,
+        which do not support truncation.
+
+    """
+    if family == 'deterministic':
+        return None
+    return np.array([0.0, np.nan])
+
+
 def _prep_constant_median_DV(median: float) -> Callable:  # noqa: N802
     """
     Return a constant median Decision Variable (DV) function.
-- 
2.43.0


From e44b9fd7a3a32674fb3fd4c42bf85b0df9a94f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 21/95] fix: unit conversion rounded multilinear functions to
 six digits

---
 pelicun/model/pelicun_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/pelicun_model.py b/pelicun/model/pelicun_model.py
index 767a8e1..0563a7e 100644
--- a/pelicun/model/pelicun_model.py
+++ b/pelicun/model/pelicun_model.py
@@ -242,7 +242,7 @@ class PelicunModel:
                     if len(arg) > 0:
                         theta[a_i] = '|'.join(
                             [
-                                ','.join([f'{val:g}' for val in vals])
+                                ','.join([f'{val:.15g}' for val in vals])
                                 for vals in (theta[a_i], arg)
                             ]
                         )
-- 
2.43.0


From bb84736c0848d825d3396d11c17d30634131679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 22/95] fix: repair consequences failed for components with
 both constant and random damage state consequences

---
 pelicun/model/loss_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 22fe593..54d6b97 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2024,9 +2024,11 @@ class RepairModel_DS(RepairModel_Base):
         for decision_variable in self.decision_variables:  # noqa: PLR1702
             if decision_variable in std_dvs:
                 assert isinstance(std_sample, pd.DataFrame)
-                prob_cmp_list = std_sample[decision_variable].columns.unique(level=0)
+                prob_cmp_ds_list = set(
+                    std_sample[decision_variable].columns.droplevel([2, 3, 4])
+                )
             else:
-                prob_cmp_list = []
+                prob_cmp_ds_list = set()
 
             cmp_list: list[tuple[Any, ...]] = []
 
@@ -2070,7 +2072,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_ds_list:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
@@ -2091,7 +2093,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds, loc)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_ds_list:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
-- 
2.43.0


From d13f436055499a73a77dbb838a2c9b4e8bedcf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 23/95] fix: loss function calculation added a Blocks column to
 the asset model

---
 pelicun/model/loss_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 54d6b97..0002317 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2572,7 +2572,7 @@ class RepairModel_LF(RepairModel_Base):
         # If `Blocks` information is unspecified add one block per
         # component.
         if 'Blocks' not in cmp_marginal_params.columns:
-            cmp_marginal_params['Blocks'] = 1
+            cmp_marginal_params = cmp_marginal_params.assign(Blocks=1)
         blocks = cmp_marginal_params.loc[index, 'Blocks'].to_dict()
 
         performance_group_dict = {}
-- 
2.43.0


From 5e0c0e9e908d48e930a1be975016fb90f1a1aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 24/95] fix: loss functions failed for components mapped to a
 loss function with a different name

---
 pelicun/model/loss_model.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 0002317..6f67937 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2576,10 +2576,14 @@ class RepairModel_LF(RepairModel_Base):
         blocks = cmp_marginal_params.loc[index, 'Blocks'].to_dict()
 
         performance_group_dict = {}
+        # maps each `cmp`-`decision_variable` to its loss parameters
+        consequence_ids: dict = {}
         for (component, location, direction, uid), num_blocks in blocks.items():
             for decision_variable in self.decision_variables:
-                if (component, decision_variable) in self.missing:
+                consequence_id = (loss_map[component], decision_variable)
+                if consequence_id not in self.loss_params.index:
                     continue
+                consequence_ids[component, decision_variable] = consequence_id
                 performance_group_dict[
                     (component, decision_variable), location, direction, uid
                 ] = num_blocks
@@ -2598,9 +2602,14 @@ class RepairModel_LF(RepairModel_Base):
         )
         performance_group.index.names = ['cmp', 'loc', 'dir', 'uid']
 
+        # Multiple components can be mapped to the same consequence.
+        component_loss_params = self.loss_params.loc[
+            list(consequence_ids.values())
+        ].set_axis(pd.MultiIndex.from_tuples(consequence_ids), axis=0)
+
         required_edps = base.invert_mapping(
             _get_required_demand_type(
-                self.loss_params, performance_group, demand_offset
+                component_loss_params, performance_group, demand_offset
             )
         )
 
@@ -2772,12 +2781,12 @@ class RepairModel_LF(RepairModel_Base):
         ), blocks in performance_group['Blocks'].items():
             consequence = loss_map[component]
             edp = required_edps[
-                (consequence, decision_variable), location, direction, uid
+                (component, decision_variable), location, direction, uid
             ]
             edp_values = demand_dict[edp]
             assert self.loss_params is not None
             loss_function_str = self.loss_params.loc[
-                (component, decision_variable), ('LossFunction', 'Theta_0')
+                (consequence, decision_variable), ('LossFunction', 'Theta_0')
             ]
             assert isinstance(loss_function_str, str)
             try:
-- 
2.43.0


From 4f506ebbbb4e894e0a209b9c4b54a34c4b94305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 25/95] fix: unit conversion rounded the breakpoints of
 multilinear functions

---
 pelicun/model/pelicun_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/pelicun_model.py b/pelicun/model/pelicun_model.py
index 0563a7e..63735b1 100644
--- a/pelicun/model/pelicun_model.py
+++ b/pelicun/model/pelicun_model.py
@@ -242,7 +242,12 @@ class PelicunModel:
                     if len(arg) > 0:
                         theta[a_i] = '|'.join(
                             [
-                                ','.join([f'{val:.15g}' for val in vals])
+                                ','.join(
+                                    [
+                                        np.format_float_positional(val, trim='-')
+                                        for val in vals
+                                    ]
+                                )
                                 for vals in (theta[a_i], arg)
                             ]
                         )
-- 
2.43.0


From f09f753be072e9a400d9581a401a24f45586dede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 26/95] fix: the quantity unit of loss functions was ignored

---
 pelicun/model/loss_model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 6f67937..8eb1a4e 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2706,12 +2706,20 @@ class RepairModel_LF(RepairModel_Base):
         column = 'LossFunction'
         params = self.loss_params[column].copy()
         assert isinstance(params, pd.DataFrame)
-        self.loss_params.loc[:, column] = self._convert_marginal_params(
+        params = self._convert_marginal_params(
             params,
             units,
             arg_units,
             divide_units=False,
-        ).to_numpy()
+        )
+        # losses are defined for the given quantity of the component
+        if ('Quantity', 'Unit') in self.loss_params.columns:
+            params = self._convert_marginal_params(
+                params,
+                self.loss_params['Quantity', 'Unit'],
+                inverse_conversion=True,
+            )
+        self.loss_params.loc[:, column] = params.to_numpy()
         return
 
     def _calc_median_consequence(
-- 
2.43.0


From aaf5477079c1be366741f84e52a0f32a1efb6baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 27/95] fix: loss calculation failed for damaged components
 with loss functions

---
 pelicun/model/loss_model.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 8eb1a4e..2189372 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1925,6 +1925,16 @@ class RepairModel_DS(RepairModel_Base):
             )
             return
 
+        # If there are no consequences for damage states there are no losses
+        if self.loss_params is None:
+            self.sample = None
+            self.log.msg(
+                'There are no damage state consequences---'
+                'DV sample is set to None.',
+                prepend_timestamp=False,
+            )
+            return
+
         # calculate the quantities for economies of scale
         self.log.msg('\nAggregating damage quantities...', prepend_timestamp=False)
 
@@ -2399,13 +2409,21 @@ class RepairModel_DS(RepairModel_Base):
                 if (loss_cmp_name, decision_variable) in self.missing:
                     continue
 
+                # If loss parameters are missing for this particular
+                # loss model, they will exist in the other(s).
+                assert self.loss_params is not None
+                if (
+                    loss_cmp_name,
+                    decision_variable,
+                ) not in self.loss_params.index:
+                    continue
+
                 if loss_cmp_id not in eco_qnt.columns.get_level_values(0).unique():
                     continue
 
                 ds_list = []
                 sub_medians = []
 
-                assert self.loss_params is not None
                 for ds in self.loss_params.columns.get_level_values(0).unique():
                     if not ds.startswith('DS'):
                         continue
-- 
2.43.0


From d478422fad5ac9e56ea4bf65278ac113d91eca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 28/95] fix: retrieving the loss sample altered the sample of
 the loss function model

---
 pelicun/model/loss_model.py | 69 +++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 2189372..ef1b5ec 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -119,31 +119,7 @@ class LossModel(PelicunModel):
             The combined loss sample.
 
         """
-        # Handle `None` cases
-
-        if self.ds_model.sample is None and self.lf_model.sample is None:
-            return None
-
-        if self.ds_model.sample is None:
-            return self.lf_model.sample
-
-        if self.lf_model.sample is None:
-            return self.ds_model.sample
-
-        # If both are not None, combine
-
-        ds_model_levels = self.ds_model.sample.columns.names
-
-        # add a `ds` level to the lf_model sample
-        new_index = self.lf_model.sample.columns.to_frame(index=False)
-        # add
-        new_index['ds'] = 'N/A'
-        # reorder
-        new_index = new_index[ds_model_levels]
-        new_multiindex = pd.MultiIndex.from_frame(new_index)
-        self.lf_model.sample.columns = new_multiindex
-
-        return pd.concat((self.ds_model.sample, self.lf_model.sample), axis=1)
+        return _combine_samples(self.ds_model.sample, self.lf_model.sample)
 
     @property
     def loss_params(self) -> pd.DataFrame | None:
@@ -2955,6 +2931,49 @@ class RepairModel_LF(RepairModel_Base):
         return None
 
 
+def _combine_samples(
+    ds_sample: pd.DataFrame | None, lf_sample: pd.DataFrame | None
+) -> pd.DataFrame | None:
+    """
+    Combine the samples of the two loss models.
+
+    Parameters
+    ----------
+    ds_sample: pd.DataFrame or None
+        Losses of damage-state driven components.
+    lf_sample: pd.DataFrame or None
+        Losses of loss-function driven components.
+
+    Returns
+    -------
+    pd.DataFrame or None
+        The combined loss sample.
+
+    """
+    # Handle `None` cases
+
+    if ds_sample is None and lf_sample is None:
+        return None
+
+    if ds_sample is None:
+        return lf_sample
+
+    if lf_sample is None:
+        return ds_sample
+
+    # If both are not None, combine
+
+    # add a `ds` level to the lf_model sample
+    new_index = lf_sample.columns.to_frame(index=False)
+    # add
+    new_index['ds'] = 'N/A'
+    # reorder
+    new_index = new_index[list(ds_sample.columns.names)]
+    lf_sample = lf_sample.set_axis(pd.MultiIndex.from_frame(new_index), axis=1)
+
+    return pd.concat((ds_sample, lf_sample), axis=1)
+
+
 def _non_negative_limits(family: str) -> np.ndarray | None:
     """
     Return the truncation limits that keep a consequence non-negative.
-- 
2.43.0


From c5fbadea8902b8325d65d2a6ba1de9854839b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 29/95] fix: aggregated losses ignored the exclusivity of
 replacement consequences

---
 pelicun/model/loss_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index ef1b5ec..a9bf256 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -894,7 +894,8 @@ class LossModel(PelicunModel):
 
         # levels to preserve (this aggregates `ds` for the ds_model)
         column_levels = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']
-        combined_sample = self.sample
+        combined_sample = _combine_samples(ds_sample, lf_sample)
+        assert combined_sample is not None
         sample = (
             combined_sample.T.groupby(level=column_levels).sum().T.sort_index(axis=1)
         )
-- 
2.43.0


From 874ec2f5db80920487e8adbca5aabb8ef00beb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 30/95] fix: aggregating losses failed when there were no
 losses

---
 pelicun/model/loss_model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index a9bf256..5753bc8 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -877,7 +877,17 @@ class LossModel(PelicunModel):
 
         if ds_sample is None and lf_sample is None:
             self.log.msg('There are no losses.')
-            return pd.DataFrame(0.00, index=[0], columns=_construct_columns())
+            demand_sample = self._asmnt.demand.sample
+            index = [0] if demand_sample is None else range(len(demand_sample))
+            df_agg = pd.DataFrame(0.00, index=index, columns=_construct_columns())
+            if not future:
+                return df_agg
+            dvs = [] if replacement_configuration is None else (
+                list(replacement_configuration[0].RV)
+            )
+            return df_agg, pd.DataFrame(
+                data=False, index=df_agg.index, columns=dvs, dtype=bool
+            )
 
         #
         #  handle `replacement`, regardless of whether
-- 
2.43.0


From 0d24a820cc05fc18b71daffeccbc2839a65afb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 31/95] fix: replacement thresholds failed for decision
 variables without a threshold or without losses

---
 pelicun/model/loss_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 5753bc8..d35d2d6 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1394,6 +1394,11 @@ class LossModel(PelicunModel):
 
         sample_dvs = replacement_consequence_rv_reg.RV.keys()
         for sample_dv in sample_dvs:
+            # No threshold can be exceeded without a threshold or losses.
+            if sample_dv not in replacement_ratios or (
+                sample_dv not in sample.columns.get_level_values('dv')
+            ):
+                continue
             sub_sample = sample.loc[:, sample_dv]
             if 'replacement' in sub_sample.columns.get_level_values('loss'):
                 # If `replacement` already exists as a consequence,
-- 
2.43.0


From 0a9096f3ddf8f602b66f32101e9b6c633053b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 32/95] fix: aggregating losses failed for decision variables
 that are not in title case

---
 pelicun/model/loss_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index d35d2d6..eb3eae9 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1343,7 +1343,8 @@ class LossModel(PelicunModel):
             for x in df_agg.columns.get_level_values(0)
         ]
         assert self.dv_units is not None
-        column_units = [self.dv_units[x.title()] for x in column_measures]
+        dv_by_measure = {x.lower(): x for x in self.decision_variables}
+        column_units = [self.dv_units[dv_by_measure[x]] for x in column_measures]
         dv_units = pd.Series(column_units, index=df_agg.columns, name='Units')
         res = file_io.save_to_csv(
             df_agg,
-- 
2.43.0


From 58de70f9dac844c4932a62640cabe89b22086cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 33/95] fix: loss combination depended on the hash order of the
 components and covered only one group of locations

---
 pelicun/model/loss_model.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index eb3eae9..24c5489 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1143,22 +1143,25 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_parameters,
             ) in combination_data.items():
-                # determine if the components to combine are part of
-                # an available group
-                target_group: dict | None = None
-                for available_group in potential_groups[decision_variable]:
-                    # check if `components_to_combine` is a subset of
-                    # that available group
-                    if frozenset(components_to_combine) <= available_group:
-                        target_group = available_group
-                        break
-                assert target_group is not None
+                # identify the locations where all of the components to
+                # combine are available
+                target_loc_dir_uids = [
+                    loc_dir_uid
+                    for available_group, loc_dir_uids in potential_groups[
+                        decision_variable
+                    ].items()
+                    if frozenset(components_to_combine) <= available_group
+                    for loc_dir_uid in loc_dir_uids
+                ]
                 # construct relevant loss sample columns
-                for loc_dir_uid in potential_groups[decision_variable][target_group]:
+                for loc_dir_uid in target_loc_dir_uids:
                     cols = [
                         (decision_variable, dmg_to_loss[x], x, *loc_dir_uid)
-                        for x in target_group
+                        for x in components_to_combine
                     ]
+                    # losses can only be combined once
+                    if any(col not in dsample for col in cols):
+                        continue
                     values = np.column_stack([dsample[col] for col in cols])
                     # define/get interpolation function
                     if (
-- 
2.43.0


From 819ec2b8ba4243815855d7bb2064bb22005df4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 34/95] fix: combination tables of more than two components
 failed

---
 pelicun/model/loss_model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 24c5489..35dd125 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1288,9 +1288,15 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_array,
             ) in combination_data.items():
-                combination_index = (
-                    combination_array[:, 0],
-                    combination_array[0, :],
+                # the domain of each component is along its own axis
+                combination_index = tuple(
+                    combination_array[
+                        tuple(
+                            slice(None) if i == axis else 0
+                            for i in range(combination_array.ndim)
+                        )
+                    ]
+                    for axis in range(combination_array.ndim)
                 )
                 loss_combination_converted[decision_variable][
                     components_to_combine
-- 
2.43.0


From a7d938edfefbb6630e7a23a4e662ab3be2ba70ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 35/95] fix: aggregating losses failed for decision variables
 without loss model parameters

---
 pelicun/file_io.py          | 3 ++-
 pelicun/model/loss_model.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 518758a..4f55270 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -192,7 +192,8 @@ def save_to_csv(  # noqa: C901
 
         labels_to_keep = []
 
-        for unit_name in units.unique():
+        # (labels without a unit are saved without conversion)
+        for unit_name in units.dropna().unique():
             labels = units.loc[units == unit_name].index.to_numpy()
 
             unit_factor = 1.0 / unit_conversion_factors[unit_name]
diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 35dd125..3835aa1 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1353,7 +1353,10 @@ class LossModel(PelicunModel):
         ]
         assert self.dv_units is not None
         dv_by_measure = {x.lower(): x for x in self.decision_variables}
-        column_units = [self.dv_units[dv_by_measure[x]] for x in column_measures]
+        # (decision variables might not have any loss model parameters)
+        column_units = [
+            self.dv_units.get(dv_by_measure[x], np.nan) for x in column_measures
+        ]
         dv_units = pd.Series(column_units, index=df_agg.columns, name='Units')
         res = file_io.save_to_csv(
             df_agg,
-- 
2.43.0


From de955ac35fa0a7a039b591defead97b46d11b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 36/95] fix: saving integer-valued samples failed when their
 unit needs conversion

---
 pelicun/file_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 4f55270..7209350 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -206,7 +206,9 @@ def save_to_csv(  # noqa: C901
                         active_labels.append(label)  # noqa: PERF401
 
                 if len(active_labels) > 0:
-                    data.loc[:, active_labels] *= unit_factor
+                    # (assigning entire columns, because integer columns
+                    # cannot store the results in place)
+                    data[active_labels] = data[active_labels] * unit_factor
 
             else:  # elif orientation == 1:
                 for label in labels:
-- 
2.43.0


From 5691debc8d79d09ec2fd4a3387e5277e44f0595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 37/95] fix: missing loss parameters were taken from lower
 priority definitions

---
 pelicun/model/loss_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 3835aa1..76a20f2 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1660,7 +1660,9 @@ class RepairModel_Base(PelicunModel):
 
         # drop redefinitions of components
         data = (
-            data.groupby(level=[0, 1]).first().transform(lambda x: x.fillna(np.nan))
+            data.groupby(level=[0, 1])
+            .first(skipna=False)
+            .transform(lambda x: x.fillna(np.nan))
         )
         # note: .groupby introduces None entries. We replace them with
         # NaN for consistency.
-- 
2.43.0


From 0320960ab323ec6e124f99f23ad2da5c7a0da529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 38/95] fix: units of loss parameters were converted again when
 more parameters were loaded

---
 pelicun/model/loss_model.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 76a20f2..6d6d9da 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1614,6 +1614,7 @@ class RepairModel_Base(PelicunModel):
 
     __slots__ = [
         'consequence',
+        'converted',
         'decision_variables',
         'loss_map',
         'loss_params',
@@ -1639,6 +1640,8 @@ class RepairModel_Base(PelicunModel):
         self.decision_variables: tuple[str, ...] = ()
         self.loss_map: pd.DataFrame | None = None
         self.missing: set = set()
+        # parameters that are already in base units
+        self.converted: set = set()
 
     def load_model_parameters(self, data: pd.DataFrame) -> None:
         """
@@ -1749,6 +1752,27 @@ class RepairModel_Base(PelicunModel):
             return set(cmp_list)
         return set()
 
+    def get_units(self, column: str) -> pd.Series:
+        """
+        Get the units of the parameters that are not in base units.
+
+        Parameters
+        ----------
+        column: str
+            First level of the column with the units, e.g., `DV`.
+
+        Returns
+        -------
+        pd.Series
+            Units of the loss parameters. Those that have been
+            converted to base units earlier have no unit.
+
+        """
+        assert self.loss_params is not None
+        return self.loss_params[column, 'Unit'].mask(
+            self.loss_params.index.isin(self.converted)
+        )
+
     @abstractmethod
     def convert_loss_parameter_units(self) -> None:
         """Convert previously loaded loss parameters to base units."""
@@ -2176,7 +2200,7 @@ class RepairModel_DS(RepairModel_Base):
         """Convert previously loaded loss parameters to base units."""
         if self.loss_params is None:
             return
-        units = self.loss_params['DV', 'Unit']
+        units = self.get_units('DV')
         arg_units = self.loss_params['Quantity', 'Unit']
         for column in self.loss_params.columns.unique(level=0):
             if not column.startswith('DS'):
@@ -2186,6 +2210,7 @@ class RepairModel_DS(RepairModel_Base):
             self.loss_params.loc[:, column] = self._convert_marginal_params(
                 params, units, arg_units
             ).to_numpy()
+        self.converted = set(self.loss_params.index)
 
     def drop_unused_damage_states(self) -> None:
         """
@@ -2726,7 +2751,7 @@ class RepairModel_LF(RepairModel_Base):
         """Convert previously loaded loss parameters to base units."""
         if self.loss_params is None:
             return
-        units = self.loss_params['DV', 'Unit']
+        units = self.get_units('DV')
         arg_units = self.loss_params['Demand', 'Unit']
         column = 'LossFunction'
         params = self.loss_params[column].copy()
@@ -2741,10 +2766,11 @@ class RepairModel_LF(RepairModel_Base):
         if ('Quantity', 'Unit') in self.loss_params.columns:
             params = self._convert_marginal_params(
                 params,
-                self.loss_params['Quantity', 'Unit'],
+                self.get_units('Quantity'),
                 inverse_conversion=True,
             )
         self.loss_params.loc[:, column] = params.to_numpy()
+        self.converted = set(self.loss_params.index)
         return
 
     def _calc_median_consequence(
-- 
2.43.0


From 107435a2bddc87e3549a6ba870108735eb2cce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 39/95] fix: residual drift inference removed the method from
 the settings of the caller

---
 pelicun/assessment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 8de1988..a605367 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -731,6 +731,8 @@ class DLCalculationAssessment(AssessmentBase):
         if residual_drift_inference:
             # `method` is guaranteed to exist because it is confirmed when
             # parsing the configuration file.
+            # (the settings of the caller are left as they are)
+            residual_drift_inference = dict(residual_drift_inference)
             rid_inference_method = residual_drift_inference.pop('method')
 
             if rid_inference_method == 'FEMA P-58':
-- 
2.43.0


From b9166ca1256202daf9ea694c06177c87ce815bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 40/95] fix: demand cloning mismatched units and duplicated
 existing demands

---
 pelicun/model/demand_model.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 8544758..cdd73c7 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1117,14 +1117,27 @@ class DemandModel(PelicunModel):
                 new_column_values = demand_cloning[column]
                 column_index.extend([i] * len(new_column_values))
                 column_values.extend(new_column_values)
-        # copy the columns
-        self.sample = self.sample.iloc[:, column_index]
-        # update the column index
-        self.sample.columns = pd.MultiIndex.from_tuples(column_values)
-        # update units
-        self.user_units = self.user_units.iloc[column_index]  # type: ignore
+
+        # the copies must not duplicate columns that are kept
+        if len(set(column_values)) != len(column_values):
+            msg = (
+                'The demand cloning configuration lists target columns that '
+                'already exist in the demand sample.'
+            )
+            raise ValueError(msg)
+
+        # copy the columns (units are matched by label, they are not
+        # necessarily in the same order)
         assert self.user_units is not None
-        self.user_units.index = self.sample.columns
+        new_units = self.user_units.reindex(self.sample.columns).iloc[column_index]
+        new_sample = self.sample.iloc[:, column_index]
+        # update the column index
+        new_sample.columns = pd.MultiIndex.from_tuples(
+            column_values, names=self.sample.columns.names
+        )
+        new_units.index = new_sample.columns
+        self.sample = new_sample
+        self.user_units = new_units
 
     def generate_sample(self, config: dict) -> None:
         """
-- 
2.43.0


From e5c81228e2578b76230fee7c7f15bdccf79f974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 41/95] fix: fitting a distribution overwrote the limits and
 truncated integer data

---
 pelicun/uq.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index d0ef9e1..11aa6fb 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -777,9 +777,11 @@ def fit_distribution_to_sample(  # noqa: C901
         If NaN values are produced during standard normal space transformation
 
     """
-    samples = np.atleast_2d(raw_sample)
-    tr_limits = np.atleast_2d(truncation_limits)
-    det_limits = np.atleast_2d(detection_limits)
+    # (integers cannot store the transformed data, and the limits are copied
+    # because they are also transformed below)
+    samples = np.atleast_2d(np.asarray(raw_sample, dtype=float))
+    tr_limits = np.atleast_2d(np.array(truncation_limits, dtype=float))
+    det_limits = np.atleast_2d(np.array(detection_limits, dtype=float))
     dist_list = np.atleast_1d(distribution)
     n_dims, n_samples = samples.shape
 
-- 
2.43.0


From 9e110ffdf6ad538e52a029b00021a4101b9eb15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 42/95] fix: fitting distributions depended on the magnitude of
 the sample

---
 pelicun/uq.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 11aa6fb..30e2cb6 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -822,6 +822,16 @@ def fit_distribution_to_sample(  # noqa: C901
             else:
                 sig_init[d_i] = np.std(samples[d_i])
 
+    # Work with samples that have the order of magnitude that the optimization
+    # below assumes. The parameters are scaled back in the end.
+    scale = np.ones(n_dims)
+    scale[sig_init > 0.0] = 10.0 ** np.trunc(np.log10(sig_init[sig_init > 0.0]))
+    samples = samples / scale[:, np.newaxis]
+    tr_limits /= scale[:, np.newaxis]
+    det_limits /= scale[:, np.newaxis]
+    mu_init /= scale
+    sig_init /= scale
+
     # replace zero standard dev with negligible standard dev
     sig_zero_id = np.where(sig_init == 0.0)[0]
     sig_init[sig_zero_id] = (
@@ -889,8 +899,8 @@ def fit_distribution_to_sample(  # noqa: C901
                 np.zeros(inits[dim].size),
                 args=(
                     inits_i,
-                    bnd_lower[dim],
-                    bnd_upper[dim],
+                    bnd_lower[2 * dim : 2 * dim + 2],
+                    bnd_upper[2 * dim : 2 * dim + 2],
                     samples[dim : dim + 1],
                     [
                         dist_list[dim],
@@ -977,6 +987,9 @@ def fit_distribution_to_sample(  # noqa: C901
                 'uncorrelated demands.'
             )
 
+    # scale the parameters back to the order of magnitude of the samples
+    theta *= scale[:, np.newaxis]
+
     for d_i, distr in enumerate(dist_list):
         # Convert mean back to linear space if the distribution is lognormal
         if distr == 'lognormal':
-- 
2.43.0


From 264e9e099100d55448f60728f6e6744e8ea17dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 43/95] fix: fitting percentiles failed without a percentile
 above the median

---
 pelicun/uq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 30e2cb6..8cc28fb 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1100,6 +1100,9 @@ def fit_distribution_to_percentiles(
 
     median_id = np.argmin(np.abs(percentiles_np - 0.5))
     extreme_id = np.argmax(percentiles_np - 0.5)
+    if percentiles_np[extreme_id] <= 0.5:
+        # there is nothing above the median, so use the other end
+        extreme_id = np.argmin(percentiles_np)
 
     for family in families:
         inits = [
-- 
2.43.0


From e9c486428ed2e599cb5d5a3a58152cdb9d12fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 44/95] fix: fitting censored demands failed when a trial
 correlation matrix was singular

---
 pelicun/uq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 8cc28fb..6c48d6f 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -674,7 +674,11 @@ def _neg_log_likelihood(  # noqa: C901
         cen_likelihood = 1.0
 
     # take the product of likelihoods calculated in each dimension
-    scale = _mvn_scale(std_samples.T, rho_hat)
+    try:
+        scale = _mvn_scale(std_samples.T, rho_hat)
+    except ValueError:
+        # the correlation matrix is singular (or indefinite, due to round-off)
+        return 1e10
     # TODO(AZ): We can almost surely replace the product of likelihoods
     # with a call to mvn()
     likelihoods = np.prod(likelihoods, axis=0) * scale
-- 
2.43.0


From 7bd63d87591a587e72097041b94b3fc0cc4726fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 45/95] fix: calibration limits were scaled again by the units
 of more specific settings

---
 pelicun/model/demand_model.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index cdd73c7..ae82e21 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -582,7 +582,9 @@ class DemandModel(PelicunModel):
             # load the distribution family
             cal_df.loc[list(cols), 'Family'] = settings['DistributionFamily']
 
-            # load limits
+            # load limits, scaled by the unit they are given in
+            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
+
             for lim in (
                 'CensorLower',
                 'CensorUpper',
@@ -592,18 +594,7 @@ class DemandModel(PelicunModel):
                 if lim in settings:
                     val = parse_str_to_float(settings[lim], lim)
                     if not pd.isna(val):
-                        cal_df.loc[list(cols), lim] = val
-
-            # scale the censor and truncation limits, if needed
-            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
-
-            rows_to_scale = [
-                'CensorLower',
-                'CensorUpper',
-                'TruncateLower',
-                'TruncateUpper',
-            ]
-            cal_df.loc[idx[cols, :, :], rows_to_scale] *= scale_factor  # type: ignore
+                        cal_df.loc[list(cols), lim] = val * scale_factor
 
             # load the prescribed additional uncertainty
             if 'AddUncertainty' in settings:
-- 
2.43.0


From 074b6f2a0d9918680b04157025dbf750e75291f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 46/95] fix: added uncertainty was not converted for normal
 demands

---
 pelicun/model/demand_model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index ae82e21..0f72a87 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -603,7 +603,11 @@ class DemandModel(PelicunModel):
                 )
 
                 # scale the sig value if the target distribution family is normal
-                if settings['DistributionFamily'] == 'normal':
+                if settings['DistributionFamily'] in {
+                    'normal',
+                    'normal_cov',
+                    'normal_std',
+                }:
                     sig_increase *= scale_factor
 
                 cal_df.loc[list(cols), 'SigIncrease'] = sig_increase
@@ -776,6 +780,10 @@ class DemandModel(PelicunModel):
             )
             sig_0 = model_params.loc[:, 'Theta_1'].to_numpy()
 
+            # (Theta_1 is a coefficient of variation for these families)
+            cov_mask = model_params['Family'].isin(['normal', 'normal_cov'])
+            sig_inc[cov_mask] /= np.abs(model_params.loc[cov_mask, 'Theta_0'])
+
             model_params.loc[:, 'Theta_1'] = np.sqrt(
                 sig_0**2.0 + sig_inc**2.0,  # type: ignore
             )
-- 
2.43.0


From 65b601dc3f535915ea12f6cdbbcfebf8cd0d88f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 47/95] fix: empirical demand data of an earlier calibration
 was kept

---
 pelicun/model/demand_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 0f72a87..3ac450e 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -729,6 +729,8 @@ class DemandModel(PelicunModel):
         assert isinstance(demand_sample, pd.DataFrame)
         if empirical_edps:
             self.empirical_data = demand_sample.loc[:, empirical_edps].copy()
+        else:
+            self.empirical_data = None
 
         # remove the empirical demands from the samples used for calibration
         demand_sample = demand_sample.drop(empirical_edps, axis=1)
-- 
2.43.0


From bbce05f7cb9105b77c7cfdd828efded2f0d4d02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 48/95] fix: random samples of losses depended on the hash seed
 with the fill policies of the loss map

---
 pelicun/model/loss_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 6d6d9da..a84f385 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -216,8 +216,8 @@ class LossModel(PelicunModel):
             msg = 'Please provide a loss map and/or a loss map extension policy.'
             raise ValueError(msg)
 
-        # get a list of unique component IDs
-        cmp_set = set(self._asmnt.asset.list_unique_component_ids())
+        # get a list of unique component IDs (always in the same order)
+        cmp_list = self._asmnt.asset.list_unique_component_ids()
 
         if loss_map_path is not None:
             self.log.msg('Loss map is provided.', prepend_timestamp=False)
@@ -248,7 +248,7 @@ class LossModel(PelicunModel):
 
         if loss_map_policy in {'fill', 'fill_all'}:
             # Populate missing rows with cmp_id -> cmp_id
-            for component in cmp_set:
+            for component in cmp_list:
                 if component not in loss_map.index:
                     if loss_map_policy == 'fill' and component == 'excessiveRID':
                         continue
-- 
2.43.0


From 41ed95151e536c1631a2ba3f4387bdad35eea38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 49/95] fix: cost and time were not correlated for components
 with Cost in their name

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index a84f385..bf620fe 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2372,7 +2372,7 @@ class RepairModel_DS(RepairModel_Base):
                 loc = rv_tag.split('-')[3]
                 direction = rv_tag.split('-')[4]
                 uid = rv_tag.split('-')[5]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
@@ -2966,7 +2966,7 @@ class RepairModel_LF(RepairModel_Base):
                 direction = split[4]
                 uid = split[5]
                 block = split[6]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
-- 
2.43.0


From ca0d65bb034a2fe5dd5a5ee79dec81c3ffd4fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 50/95] fix: correlation matrices that are not positive
 semidefinite changed the marginal distributions

---
 pelicun/uq.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 6c48d6f..e7c65ad 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2661,7 +2661,12 @@ class RandomVariableSet:
             )
             s_diag = np.diagflat(np.sqrt(s_mat))
 
-            nc_rv = (n_rv.T @ s_diag @ u_mat.T).T
+            # a matrix that is not positive semidefinite cannot be
+            # realized; make sure at least the marginals are preserved
+            transform = u_mat @ s_diag
+            transform /= np.linalg.norm(transform, axis=1, keepdims=True)
+
+            nc_rv = transform @ n_rv
 
             uc_rv = norm.cdf(nc_rv)
 
-- 
2.43.0


From a74cbe0687e87c421ef717c236bd58eb71ed2ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 51/95] fix: the configuration passed to an assessment was
 modified

---
 pelicun/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index 7a00ec0..8c48374 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -43,6 +43,7 @@
 from __future__ import annotations
 
 import argparse
+import copy
 import json
 import pprint
 import sys
@@ -194,7 +195,10 @@ class Options:
         self.sampling_method: str | None = None
         self.list_all_ds: bool | None = None
 
-        merged_config_options = merge_default_config(user_config_options)
+        # (the settings of the user are not to be modified)
+        merged_config_options = merge_default_config(
+            copy.deepcopy(user_config_options)
+        )
 
         self.seed = merged_config_options['Seed']
         self.sampling_method = merged_config_options['Sampling']['SamplingMethod']
-- 
2.43.0


From e660f67c45526515c7f447c483a8aa02895aca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 52/95] fix: demand models could not be saved or got wrong
 units when another sample was available

---
 pelicun/model/demand_model.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 3ac450e..c127a79 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -95,6 +95,7 @@ class DemandModel(PelicunModel):
 
     __slots__ = [
         '_RVs',
+        '_marginal_units',
         'calibrated',
         'correlation',
         'empirical_data',
@@ -119,6 +120,8 @@ class DemandModel(PelicunModel):
         self.correlation: pd.DataFrame | None = None
         self.empirical_data: pd.DataFrame | None = None
         self.user_units: pd.Series | None = None
+        # units of the marginals (the sample can have other variables)
+        self._marginal_units: pd.Series | None = None
         self.calibrated = False
 
         self._RVs: uq.RandomVariableRegistry | None = None
@@ -800,6 +803,7 @@ class DemandModel(PelicunModel):
         ]
 
         self.marginal_params = model_params
+        self._marginal_units = self.user_units
 
         self.log.msg(
             '\nCalibrated demand model marginal distributions:\n'
@@ -831,7 +835,7 @@ class DemandModel(PelicunModel):
             file_io.save_to_csv(
                 self.empirical_data,
                 Path(file_prefix + '_empirical.csv'),
-                units=self.user_units,
+                units=self._marginal_units,
                 unit_conversion_factors=self._asmnt.unit_conversion_factors,
                 log=self._asmnt.log,
             )
@@ -840,11 +844,11 @@ class DemandModel(PelicunModel):
         # treatment, so we can't rely on file_io's universal unit
         # conversion functionality. We do it manually here instead.
         assert isinstance(self.marginal_params, pd.DataFrame)
-        assert isinstance(self.user_units, pd.Series)
+        assert isinstance(self._marginal_units, pd.Series)
         marginal_params_user_units = self._convert_marginal_params(
-            self.marginal_params.copy(), self.user_units, inverse_conversion=True
+            self.marginal_params.copy(), self._marginal_units, inverse_conversion=True
         )
-        marginal_params_user_units['Units'] = self.user_units
+        marginal_params_user_units['Units'] = self._marginal_units
 
         file_io.save_to_csv(
             marginal_params_user_units,
@@ -948,6 +952,7 @@ class DemandModel(PelicunModel):
 
         self.marginal_params = marginal_params
         self.user_units = units
+        self._marginal_units = units
 
         self.log.msg('Demand model successfully loaded.', prepend_timestamp=False)
 
@@ -1227,6 +1232,8 @@ class DemandModel(PelicunModel):
 
         sample.columns.names = ['type', 'loc', 'dir']
         self.sample = sample
+        if self._marginal_units is not None:
+            self.user_units = self._marginal_units
 
         if config.get('DemandCloning', False):
             self.clone_demands(config['DemandCloning'])
-- 
2.43.0


From fe120e8136c215ae5c549d2d3a6ca95c25b56383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 53/95] fix: empirical data was ignored and a missing
 correlation file not accepted when a demand model is loaded

---
 pelicun/model/demand_model.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index c127a79..0f9ebba 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -896,19 +896,27 @@ class DemandModel(PelicunModel):
             msg = f'Invalid data_source type: {type(data_source)}.'
             raise TypeError(msg)
 
+        # the files with empirical data and correlations are optional
+        if (
+            isinstance(empirical_data_source, str)
+            and not Path(empirical_data_source).exists()
+        ):
+            empirical_data_source = None
+        if (
+            isinstance(correlation_data_source, str)
+            and not Path(correlation_data_source).exists()
+        ):
+            correlation_data_source = None
+
         if empirical_data_source is not None:
-            if (
-                isinstance(empirical_data_source, str)
-                and Path(empirical_data_source).exists()
-            ):
-                empirical_data = file_io.load_data(
-                    empirical_data_source,
-                    self._asmnt.unit_conversion_factors,
-                    log=self._asmnt.log,
-                )
-                assert isinstance(empirical_data, pd.DataFrame)
-                self.empirical_data = empirical_data
-                self.empirical_data.columns.names = ['type', 'loc', 'dir']
+            empirical_data = file_io.load_data(
+                empirical_data_source,
+                self._asmnt.unit_conversion_factors,
+                log=self._asmnt.log,
+            )
+            assert isinstance(empirical_data, pd.DataFrame)
+            self.empirical_data = empirical_data
+            self.empirical_data.columns.names = ['type', 'loc', 'dir']
         else:
             self.empirical_data = None
 
-- 
2.43.0


From 2b3a7e2b31af0c04634a6f8ed0b5dbb93fadbbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 54/95] fix: losses of an earlier calculation were kept when no
 loss function applies

---
 pelicun/model/loss_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index bf620fe..1810a3f 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2604,6 +2604,9 @@ class RepairModel_LF(RepairModel_Base):
 
 
         """
+        # drop the results of an earlier calculation
+        self.sample = None
+
         if self.loss_params is None:
             return
 
-- 
2.43.0


From 88d81b0e43890d6c0d9b70fbf902675c6322de6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 55/95] fix: rows of the same component with different units
 were all converted with the first unit

---
 pelicun/model/asset_model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 7fafa8c..730e150 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -305,6 +305,11 @@ class AssetModel(PelicunModel):
         }
         >>> model.load_cmp_model(data_dict)
 
+        Raises
+        ------
+        ValueError
+            If a component has no unit.
+
         """
         self.log.div()
         self.log.msg('Loading component model...')
@@ -333,7 +338,8 @@ class AssetModel(PelicunModel):
         # group units by cmp id to avoid redundant entries
         self.cmp_units = units.copy().groupby(level=0).first()
 
-        marginal_params = pd.concat([marginal_params, units], axis=1)
+        # (each row is converted with its own unit)
+        marginal_params = pd.concat([marginal_params, units.rename('Units')], axis=1)
 
         cmp_marginal_param_dct: dict[str, list[Any]] = {
             'Family': [],
@@ -362,7 +368,10 @@ class AssetModel(PelicunModel):
                         * num_vals
                     )
                 elif col == 'Units':
-                    cmp_marginal_param.extend([self.cmp_units[row.Index]] * num_vals)
+                    if pd.isna(row.Units):
+                        msg = f'No unit specified for component {row.Index}.'
+                        raise ValueError(msg)
+                    cmp_marginal_param.extend([row.Units] * num_vals)
                 elif col == 'Family':
                     cmp_marginal_param.extend([getattr(row, col, np.nan)] * num_vals)
                 else:
-- 
2.43.0


From 321e67ca492dfabff8af6220cdf19e2bead0428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 56/95] fix: values in unknown units were loaded without
 conversion

---
 pelicun/file_io.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 7209350..5fc2dc5 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -455,6 +455,9 @@ def load_data(  # noqa: C901
     TypeError
         If `data_source` is neither a string nor a DataFrame, a
         TypeError is raised.
+    ValueError
+        If the values need to be converted and a unit is not among the
+        known ones.
 
     """
     if isinstance(data_source, pd.DataFrame):
@@ -498,11 +501,20 @@ def load_data(  # noqa: C901
             if log:
                 log.msg('Converting units...', prepend_timestamp=False)
 
+            unknown_units = sorted(
+                {
+                    str(unit)
+                    for unit in units
+                    if not pd.isna(unit) and unit not in unit_conversion_factors
+                }
+            )
+            if unknown_units:
+                msg = f'Specified unit not recognized: {", ".join(unknown_units)}'
+                raise ValueError(msg)
+
             conversion_factors = units.map(
                 lambda unit: (
-                    1.00
-                    if pd.isna(unit)
-                    else unit_conversion_factors.get(unit, 1.00)
+                    1.00 if pd.isna(unit) else unit_conversion_factors[unit]
                 )
             )
 
-- 
2.43.0


From 3f7077c44040eac037dd051abc22560da38a749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 57/95] fix: integer collapse limits failed

---
 pelicun/assessment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index a605367..5f91829 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -659,7 +659,7 @@ class DLCalculationAssessment(AssessmentBase):
 
             for dem_type, limit in collapse_limits.items():
                 assert isinstance(dem_type, str)
-                assert isinstance(limit, (str, float))
+                assert isinstance(limit, (str, float, int))
                 nlevels_with_event_id = 4
                 if raw_demands.columns.nlevels == nlevels_with_event_id:
                     dem_to_drop += raw_demands.loc[
-- 
2.43.0


From dba790f2fd07a2b27a3e78ffcd06b6c00e38d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 58/95] fix: loss samples that were loaded could not be saved
 again or loaded without unique identifiers

---
 pelicun/model/loss_model.py | 103 ++++++++++++++++++++++++++----------
 1 file changed, 76 insertions(+), 27 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 1810a3f..f25f8ef 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -710,19 +710,9 @@ class LossModel(PelicunModel):
             self.log.msg('Saving loss sample...')
 
         assert self.sample is not None
-        assert self.loss_params is not None
-
-        cmp_units = self.loss_params['DV', 'Unit'].sort_index()
-        dv_units = pd.Series(
-            index=self.sample.columns, name='Units', dtype='object'
-        ).sort_index()
-
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
-
-        for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
-                dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
+        dv_units = _get_sample_units(
+            self.sample, self.loss_params, self.ds_model._loaded_units  # noqa: SLF001
+        )
 
         res = file_io.save_to_csv(
             self.sample,
@@ -1781,7 +1771,20 @@ class RepairModel_Base(PelicunModel):
 class RepairModel_DS(RepairModel_Base):
     """Repair consequences for components with damage states."""
 
-    __slots__ = ['RV_reg']
+    __slots__ = ['RV_reg', '_loaded_units']
+
+    def __init__(self, assessment: AssessmentBase) -> None:
+        """
+        Initialize RepairModel_DS objects.
+
+        Parameters
+        ----------
+        assessment: AssessmentBase
+            Parent assessment object.
+
+        """
+        super().__init__(assessment)
+        self._loaded_units: pd.Series | None = None
 
     def save_sample(
         self, filepath: str | None = None, *, save_units: bool = False
@@ -1824,18 +1827,9 @@ class RepairModel_DS(RepairModel_Base):
             self.log.msg('Saving loss sample...')
 
         assert self.sample is not None
-        assert self.loss_params is not None
-        cmp_units = self.loss_params['DV', 'Unit'].sort_index()
-        dv_units = pd.Series(
-            index=self.sample.columns, name='Units', dtype='object'
-        ).sort_index()
-
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
-
-        for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
-                dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
+        dv_units = _get_sample_units(
+            self.sample, self.loss_params, self._loaded_units
+        )
 
         res = file_io.save_to_csv(
             self.sample,
@@ -1896,7 +1890,7 @@ class RepairModel_DS(RepairModel_Base):
         )
         assert isinstance(sample, pd.DataFrame)
         assert isinstance(units, pd.Series)
-        units.index.names = names
+        units.index.names = names[: units.index.nlevels]
         # Obtain the DV units
         # Note: we don't need to check for consistency (all rows
         # having the same unit) since the units are extracted from a
@@ -1926,6 +1920,14 @@ class RepairModel_DS(RepairModel_Base):
 
         self.sample = sample
 
+        # keep the units (there might not be any loss parameters)
+        unit_dict = units.to_dict()
+        self._loaded_units = pd.Series(
+            [unit_dict.get(column[: units.index.nlevels]) for column in sample],
+            index=sample.columns,
+            dtype='object',
+        )
+
         self.log.msg('Loss sample successfully loaded.', prepend_timestamp=False)
 
         return dv_units
@@ -3034,6 +3036,53 @@ def _combine_samples(
     return pd.concat((ds_sample, lf_sample), axis=1)
 
 
+def _get_sample_units(
+    sample: pd.DataFrame,
+    loss_params: pd.DataFrame | None,
+    loaded_units: pd.Series | None,
+) -> pd.Series:
+    """
+    Determine the units of a loss sample.
+
+    Parameters
+    ----------
+    sample: pd.DataFrame
+        Loss sample.
+    loss_params: pd.DataFrame or None
+        Loss parameters, which provide the units of the results.
+    loaded_units: pd.Series or None
+        Units of the columns of a sample that was loaded. They are
+        only used if the loss parameters do not provide any.
+
+    Returns
+    -------
+    pd.Series
+        Units of the columns of the sample.
+
+    Raises
+    ------
+    ValueError
+        If no units are available.
+
+    """
+    if loss_params is None and loaded_units is None:
+        msg = 'The units of the loss sample are not available.'
+        raise ValueError(msg)
+
+    param_units = {} if loss_params is None else loss_params['DV', 'Unit'].to_dict()
+    sample_units = {} if loaded_units is None else loaded_units.to_dict()
+
+    return pd.Series(
+        [
+            param_units.get((column[1], column[0]), sample_units.get(column))
+            for column in sample
+        ],
+        index=sample.columns,
+        name='Units',
+        dtype='object',
+    ).sort_index()
+
+
 def _non_negative_limits(family: str) -> np.ndarray | None:
     """
     Return the truncation limits that keep a consequence non-negative.
-- 
2.43.0


From 64750555cfff7f84ee1dc79008d21d26ac75e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 59/95] fix: damage samples that were loaded could not be saved
 without an asset model

---
 pelicun/model/damage_model.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index eb244db..af60ff1 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -68,7 +68,7 @@ idx = base.idx
 class DamageModel(PelicunModel):
     """Manages damage information used in assessments."""
 
-    __slots__ = ['ds_model', 'missing_components']
+    __slots__ = ['ds_model', '_loaded_units', 'missing_components']
 
     def __init__(self, assessment: AssessmentBase) -> None:
         """
@@ -84,6 +84,7 @@ class DamageModel(PelicunModel):
 
         self.ds_model: DamageModel_DS = DamageModel_DS(assessment)
         self.missing_components: list[str] = []
+        self._loaded_units: pd.Series | None = None
 
     @property
     def _damage_models(self) -> tuple[DamageModel_DS]:
@@ -380,12 +381,18 @@ class DamageModel(PelicunModel):
             return None
 
         cmp_units = self._asmnt.asset.cmp_units
+        if cmp_units is None:
+            # the sample was loaded without an asset model
+            cmp_units = self._loaded_units
+        assert cmp_units is not None
         qnt_units = pd.Series(
-            index=self.ds_model.sample.columns, name='Units', dtype='object'
+            self.ds_model.sample.columns.get_level_values('cmp').map(
+                cmp_units.to_dict()
+            ),
+            index=self.ds_model.sample.columns,
+            name='Units',
+            dtype='object',
         )
-        assert cmp_units is not None
-        for cmp in cmp_units.index:
-            qnt_units.loc[cmp] = cmp_units.loc[cmp]
 
         res = file_io.save_to_csv(
             self.ds_model.sample,
@@ -421,11 +428,15 @@ class DamageModel(PelicunModel):
         self.log.div()
         self.log.msg('Loading damage sample...')
 
-        data = file_io.load_data(
-            filepath, self._asmnt.unit_conversion_factors, log=self._asmnt.log
+        data, units = file_io.load_data(
+            filepath,
+            self._asmnt.unit_conversion_factors,
+            return_units=True,
+            log=self._asmnt.log,
         )
         assert isinstance(data, pd.DataFrame)
         self.ds_model.sample = data
+        self._loaded_units = None if units is None else units.groupby(level=0).first()
 
         # set the names of the columns
         self.ds_model.sample.columns.names = ['cmp', 'loc', 'dir', 'uid', 'ds']
-- 
2.43.0


From c731dcb979e5cb2b2c17902a56cbf66ab7828eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 60/95] fix: demand samples without units could not be loaded

---
 pelicun/model/demand_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 0f9ebba..2b4571c 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -279,6 +279,11 @@ class DemandModel(PelicunModel):
             log=self._asmnt.log,
         )
         assert isinstance(demand_data, pd.DataFrame)
+        if units is None:
+            # base units are assumed
+            units = pd.Series(
+                np.nan, index=demand_data.columns, name='Units', dtype='object'
+            )
         assert isinstance(units, pd.Series)
 
         parsed_data = demand_data.copy()
-- 
2.43.0


From 7d44261516fe4a0daa07de1bd30d574d9677a21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 61/95] fix: demand models without correlation could not be
 loaded and were mixed with files of earlier models

---
 pelicun/model/demand_model.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 2b4571c..3e6bdd4 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -834,8 +834,17 @@ class DemandModel(PelicunModel):
         self.log.div()
         self.log.msg('Saving demand model...')
 
+        # files of an earlier model are not parts of this one
+        for suffix in ('_correlation.csv', '_empirical.csv'):
+            Path(file_prefix + suffix).unlink(missing_ok=True)
+
         # save the correlation and empirical data
-        file_io.save_to_csv(self.correlation, Path(file_prefix + '_correlation.csv'))
+        # (without fitted distributions, there is no correlation)
+        has_correlation = self.correlation is not None and not self.correlation.empty
+        file_io.save_to_csv(
+            self.correlation if has_correlation else None,
+            Path(file_prefix + '_correlation.csv'),
+        )
         if self.empirical_data is not None:
             file_io.save_to_csv(
                 self.empirical_data,
-- 
2.43.0


From 3b76f2a9ea314250ee01cedd438d9445984e6f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 62/95] fix: ranges and keywords inside lists of locations and
 directions were rejected

---
 pelicun/model/pelicun_model.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pelicun/model/pelicun_model.py b/pelicun/model/pelicun_model.py
index 63735b1..9871d76 100644
--- a/pelicun/model/pelicun_model.py
+++ b/pelicun/model/pelicun_model.py
@@ -330,15 +330,18 @@ class PelicunModel:
         except ValueError as exc:
             stories = self._asmnt.stories
 
+            # (the items of a list can be ranges or keywords)
+            if ',' in loc_str:
+                return np.concatenate(
+                    [self._get_locations(item.strip()) for item in loc_str.split(',')]
+                )
+
             if '--' in loc_str:
                 s_low, s_high = loc_str.split('--')
                 s_low = self._get_locations(s_low)[0]
                 s_high = self._get_locations(s_high)[0]
                 return np.arange(int(s_low), int(s_high) + 1).astype(str)
 
-            if ',' in loc_str:
-                return np.array(loc_str.split(','), dtype=int).astype(str)
-
             if loc_str == 'all':
                 assert stories is not None
                 return np.arange(1, stories + 1).astype(str)
@@ -409,7 +412,7 @@ class PelicunModel:
 
         """
         if pd.isna(dir_str):
-            return np.ones(1).astype(str)
+            return np.array(['1'])
 
         try:
             res = str(int(float(dir_str)))  # type: ignore
@@ -417,10 +420,12 @@ class PelicunModel:
 
         except ValueError as exc:
             if ',' in dir_str:  # type: ignore
-                return np.array(
-                    dir_str.split(','),  # type: ignore
-                    dtype=int,
-                ).astype(str)  # type: ignore
+                return np.concatenate(
+                    [
+                        self._get_directions(item.strip())
+                        for item in dir_str.split(',')  # type: ignore
+                    ]
+                )
 
             if '--' in dir_str:  # type: ignore
                 d_low, d_high = dir_str.split('--')  # type: ignore
-- 
2.43.0


From 31e67d1ca4279016da5fac311a3722008d6e2b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 63/95] fix: component rows without direction failed

---
 pelicun/model/asset_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 730e150..31631a7 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -354,7 +354,9 @@ class AssetModel(PelicunModel):
         index_list = []
         for row in marginal_params.itertuples():
             locs = self._get_locations(str(row.Location))
-            dirs = self._get_directions(str(row.Direction))
+            dirs = self._get_directions(
+                None if pd.isna(row.Direction) else str(row.Direction)
+            )
             indices = list(product((row.Index,), locs, dirs))
             num_vals = len(indices)
             for col, cmp_marginal_param in cmp_marginal_param_dct.items():
-- 
2.43.0


From e97f752ae1407e627825a65ebb6af482e21e6cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 64/95] fix: lists could not be checked for being specified

---
 pelicun/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index 8c48374..b49fb54 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -1850,7 +1850,7 @@ def is_unspecified(d: dict[str, Any], path: str) -> bool:
     value = get(d, path, default=None)
     if value is None:
         return True
-    if pd.isna(value):
+    if pd.api.types.is_scalar(value) and pd.isna(value):
         return True
     if value == {}:
         return True
-- 
2.43.0


From 79029f7f915bf5ed98f666e81ca9d187806118cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 65/95] fix: lengths could be converted to areas

---
 pelicun/settings/default_units.json | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/settings/default_units.json b/pelicun/settings/default_units.json
index 3931968..0f8ca17 100644
--- a/pelicun/settings/default_units.json
+++ b/pelicun/settings/default_units.json
@@ -13,7 +13,9 @@
     "in": 0.0254,
     "inch": 0.0254,
     "ft": 0.3048,
-    "mile": 1609.344,
+    "mile": 1609.344
+  },
+  "area": {
     "m2": 1.0,
     "mm2": 1e-06,
     "cm2": 0.0001,
-- 
2.43.0


From 7bbf3f7010c3d7852507f2446cbb8238e501df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 66/95] fix: tables with variables along the rows were saved
 without unit conversion

---
 pelicun/file_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 5fc2dc5..5221f12 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -187,8 +187,9 @@ def save_to_csv(  # noqa: C901
 
         # if the orientation is 1, we might not need to scale all columns
         if orientation == 1:
-            cols_to_scale_bool = [dt in {float, int} for dt in data.dtypes]
-            cols_to_scale = data.columns[cols_to_scale_bool]
+            cols_to_scale = data.select_dtypes(include=[np.number]).columns
+            # (integer columns cannot store the results in place)
+            data[cols_to_scale] = data[cols_to_scale].astype(float)
 
         labels_to_keep = []
 
@@ -216,7 +217,7 @@ def save_to_csv(  # noqa: C901
                         active_labels.append(label)  # noqa: PERF401
 
                 if len(active_labels) > 0:
-                    data.loc[np.array(active_labels), np.array(cols_to_scale)] *= (
+                    data.loc[data.index.isin(active_labels), cols_to_scale] *= (
                         unit_factor
                     )
 
-- 
2.43.0


From c236423d5a4798bed95bda875aa728d890559b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 67/95] fix: output settings of a run were carried over to
 later runs in the same process

---
 pelicun/tools/DL_calculation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 463c3c6..a8b2c5e 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -42,6 +42,7 @@
 from __future__ import annotations
 
 import argparse
+import copy
 import json
 import os
 import sys
@@ -791,9 +792,9 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
         # if detailed results are not requested, add a lean output config
         if detailed_results is False:
-            update(config_ap, 'DL/Outputs', regional_out_config)
+            update(config_ap, 'DL/Outputs', copy.deepcopy(regional_out_config))
         else:
-            update(config_ap, 'DL/Outputs', full_out_config)
+            update(config_ap, 'DL/Outputs', copy.deepcopy(full_out_config))
             # add output settings from regional output config
             if is_unspecified(config_ap, 'DL/Outputs/Settings'):
                 update(config_ap, 'DL/Outputs/Settings', {})
@@ -833,7 +834,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # provide all outputs if the files are not specified
     if is_unspecified(config, 'DL/Outputs'):
-        update(config, 'DL/Outputs', full_out_config)
+        update(config, 'DL/Outputs', copy.deepcopy(full_out_config))
 
     # provide outputs in CSV by default
     if is_unspecified(config, 'DL/Outputs/Format'):
@@ -853,7 +854,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # add empty Settings to output config to simplify code below
     if is_unspecified(config, 'DL/Outputs/Settings'):
-        update(config, 'DL/Outputs/Settings', pbe_settings)
+        update(config, 'DL/Outputs/Settings', copy.deepcopy(pbe_settings))
 
     if is_unspecified(config, 'DL/Demands'):
         msg = 'Demand configuration missing.'
-- 
2.43.0


From 93c7874fe459d1ea5398f1b604841d65db195922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 68/95] fix: built-in damage processes were modified by the
 first assessment that used them

---
 pelicun/assessment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 5f91829..eeee330 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -42,6 +42,7 @@
 
 from __future__ import annotations
 
+import copy
 import json
 from pathlib import Path
 from typing import TYPE_CHECKING, Any
@@ -1166,7 +1167,9 @@ class DLCalculationAssessment(AssessmentBase):
         dmg_process = None
         if damage_process_approach is not None:  # noqa: PLR1702
             if damage_process_approach in default_damage_processes:
-                dmg_process = default_damage_processes[damage_process_approach]
+                dmg_process = copy.deepcopy(
+                    default_damage_processes[damage_process_approach]
+                )
 
                 # For Hazus Earthquake, we need to specify the component ids
                 if damage_process_approach in {
-- 
2.43.0


From 53b18244c16037eea642c0d8af7b07ca972048e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 69/95] fix: helper modules of an auto-population script were
 used for later scripts in other folders

---
 pelicun/auto.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/pelicun/auto.py b/pelicun/auto.py
index e0e5b2e..76908eb 100644
--- a/pelicun/auto.py
+++ b/pelicun/auto.py
@@ -125,17 +125,31 @@ def auto_populate(
 
     # load the auto population module
     asp = Path(auto_script_path).resolve()
-    sys.path.insert(0, str(asp.parent) + '/')
-    spec = importlib.util.spec_from_file_location(f'auto_script_{unique_id}', asp)
-    module = importlib.util.module_from_spec(spec)
-    spec.loader.exec_module(module)
-    auto_populate_ext = module.auto_populate
-
-    # auto_script = importlib.__import__(asp.name[:-3], globals(), locals(), [], 0)
-    # auto_populate_ext = auto_script.auto_populate
-
-    # generate the DL input data
-    aim_ap, dl_ap, comp = auto_populate_ext(aim=config_autopopulated)
+    script_folder = str(asp.parent) + '/'
+    loaded_modules = set(sys.modules)
+    sys.path.insert(0, script_folder)
+    try:
+        spec = importlib.util.spec_from_file_location(
+            f'auto_script_{unique_id}', asp
+        )
+        module = importlib.util.module_from_spec(spec)
+        spec.loader.exec_module(module)
+        auto_populate_ext = module.auto_populate
+
+        # auto_script = importlib.__import__(asp.name[:-3], globals(), locals(), [], 0)
+        # auto_populate_ext = auto_script.auto_populate
+
+        # generate the DL input data
+        aim_ap, dl_ap, comp = auto_populate_ext(aim=config_autopopulated)
+
+    finally:
+        # forget the modules next to the script, so that a script in another
+        # folder can have modules with the same name
+        sys.path.remove(script_folder)
+        for name in set(sys.modules) - loaded_modules:
+            module_file = getattr(sys.modules[name], '__file__', None)
+            if module_file and asp.parent in Path(module_file).resolve().parents:
+                del sys.modules[name]
 
     # assemble the extended config
     config_autopopulated['GeneralInformation'].update(aim_ap)
-- 
2.43.0


From 5ca7ef8787bd6c1e3c44abd5b96f7d9bc90a3a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 70/95] fix: JSON outputs of an earlier run were left behind in
 the output folder

---
 pelicun/tools/DL_calculation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index a8b2c5e..35a37a2 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -121,6 +121,7 @@ known_output_files = [
     'DL_summary.csv',
     'DL_summary_stats.csv',
 ]
+known_output_files += [f'{name[:-3]}json' for name in known_output_files]
 
 full_out_config = {
     'Demand': {'Sample': True, 'Statistics': True},
-- 
2.43.0


From 59124daf7f5549669dd786789a7cd905825c923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 71/95] fix: statistics were saved as text in JSON files

---
 pelicun/tools/DL_calculation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 35a37a2..4e380bd 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1058,7 +1058,8 @@ def _create_json_files_if_requested(
                 axis=1,
             )
 
-            data = data.drop(units_key, axis=0)
+            # the row of units turned every column into text
+            data = data.drop(units_key, axis=0).astype(float)
 
             out_dict = convert_df_to_dict(data)
 
-- 
2.43.0


From db41658189b9f76e661d4255fecc108e049f8e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 72/95] fix: default outputs of an assessment without losses
 were rejected

---
 pelicun/tools/DL_calculation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 4e380bd..6bbb4c3 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -837,6 +837,12 @@ def _parse_config_file(  # noqa: C901, PLR0912
     if is_unspecified(config, 'DL/Outputs'):
         update(config, 'DL/Outputs', copy.deepcopy(full_out_config))
 
+        # only the results of requested calculations are available
+        if is_unspecified(config, 'DL/Damage'):
+            update(config, 'DL/Outputs/Damage', {})
+        if is_unspecified(config, 'DL/Losses'):
+            update(config, 'DL/Outputs/Loss', {})
+
     # provide outputs in CSV by default
     if is_unspecified(config, 'DL/Outputs/Format'):
         update(config, 'DL/Outputs/Format', {'CSV': True, 'JSON': False})
-- 
2.43.0


From 2f4a615786f91df23221b97fb4073581a7713a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 73/95] fix: JSON outputs of an assessment without damage
 failed

---
 pelicun/tools/DL_calculation.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 6bbb4c3..a0e65b3 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1041,15 +1041,14 @@ def _create_json_files_if_requested(
     for filename in out_files:
         filename_json = filename[:-3] + 'json'
 
+        data = pd.read_csv(output_path / filename, index_col=0)
+
+        # the summary is empty when only demands and assets are evaluated
         if (
             get(config, 'DL/Outputs/Settings/SimpleIndexInJSON', default=False)
-            is True
-        ):
-            data = pd.read_csv(output_path / filename, index_col=0)
-        else:
-            data = convert_to_MultiIndex(
-                pd.read_csv(output_path / filename, index_col=0), axis=1
-            )
+            is not True
+        ) and not data.columns.empty:
+            data = convert_to_MultiIndex(data, axis=1)
 
         # Check for units information (case-insensitive)
         units_key = None
-- 
2.43.0


From 60078a35cd521ba2972398202d811a52e5c63e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 74/95] fix: assessment options failed with auto-population
 scripts that define none

---
 pelicun/tools/DL_calculation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index a0e65b3..93248ea 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -760,6 +760,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
             # extend options defined via the auto-population script to
             # include those in the original `config`
             config_ap['Applications']['DL']['ApplicationData'].pop('Options')
+            update(config_ap, 'DL/Options', {}, only_if_empty_or_none=True)
             update_vals(
                 config_ap['DL']['Options'],
                 assessment_options,
-- 
2.43.0


From 134ece33468586619bec60cbd6e76fc40121c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 75/95] fix: config files without damage and loss data failed
 with an unrelated error

---
 pelicun/tools/DL_calculation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 93248ea..c259e80 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -650,6 +650,13 @@ def _parse_config_file(  # noqa: C901, PLR0912
     if is_unspecified(config, 'DL'):
         dl_method = get(config, 'Applications/DL/ApplicationData/DL_Method')
 
+        if dl_method is None:
+            msg = (
+                'No `DL` entry and no `DL_Method` in config file. '
+                'Cannot configure the damage and loss calculation.'
+            )
+            raise PelicunInvalidConfigError(msg)
+
         if dl_method == 'User-provided Models':
             if custom_model_dir is not None:
                 dl_model_folder = custom_model_dir
-- 
2.43.0


From b7abb61228ca30b4c60e3fca87be5378388d7bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 76/95] fix: intensity measures were mixed up in regional
 simulations unless listed alphabetically

---
 pelicun/tools/regional_sim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 7c85eef..8284d32 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -485,7 +485,10 @@ def process_buildings_chunk(
 
     grid_point_locations = grid_points[['Longitude', 'Latitude']].to_numpy()
 
-    grid_data_sorted = grid_data.sort_index(axis=1)
+    # arrange the data by grid point and the order of IMs in the config file
+    grid_data_sorted = grid_data[
+        [(grid_point, im) for grid_point in grid_points.index for im in im_list]
+    ]
 
     n_realizations = grid_data_sorted.shape[0]
     n_sources = grid_data_sorted.columns.unique(level=0).size
-- 
2.43.0


From 7f79258712e8622b62e6c345486316f60de3cffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 77/95] fix: regional simulations failed when a building was
 not damaged in any realization

---
 pelicun/tools/regional_sim.py | 74 ++++++++++++++++++++++++++++++++++-
 1 file changed, 72 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 8284d32..75c065e 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -203,6 +203,58 @@ def tqdm_joblib(tqdm_object: tqdm) -> contextlib.Generator[None, None, None]:
         tqdm_object.close()
 
 
+def _list_undamaged_buildings(assessment: Assessment) -> list[int]:
+    """
+    List the buildings that are not damaged in any of the realizations.
+
+    Such buildings are not included in the loss sample.
+
+    Parameters
+    ----------
+    assessment : Assessment
+        Pelicun Assessment object with damage already calculated
+
+    Returns
+    -------
+    list[int]
+        IDs of the undamaged buildings
+    """
+    damage_sample = assessment.damage.save_sample()
+
+    # the undamaged state is not considered here
+    damaged = (damage_sample > 0.0).any() & (
+        damage_sample.columns.get_level_values('ds').astype(int) > 0
+    )
+    damaged = damaged.groupby(level='loc').any()
+
+    return [int(loc) for loc in damaged.index[~damaged]]
+
+
+def _add_undamaged_buildings(
+    losses: pd.DataFrame, undamaged: list[int]
+) -> pd.DataFrame:
+    """
+    Add zero losses for the buildings that are not damaged.
+
+    Parameters
+    ----------
+    losses : pd.DataFrame
+        Losses, with realizations as rows and building IDs as columns
+    undamaged : list[int]
+        IDs of the undamaged buildings
+
+    Returns
+    -------
+    pd.DataFrame
+        Losses with the undamaged buildings included
+    """
+    to_add = [bldg_id for bldg_id in undamaged if bldg_id not in losses.columns]
+
+    return pd.concat(
+        [losses, pd.DataFrame(0.0, index=losses.index, columns=to_add)], axis=1
+    )
+
+
 def _calculate_losses_hazus_eq(
     assessment: Assessment, dl_method: str, bldg_df_chunk: pd.DataFrame
 ) -> (pd.DataFrame, pd.DataFrame):
@@ -305,6 +357,15 @@ def _calculate_losses_hazus_eq(
 
         assessment.loss.calculate()
 
+        # undamaged buildings have no losses
+        undamaged = _list_undamaged_buildings(assessment)
+
+        if set(building_ids).issubset(undamaged):
+            no_loss = pd.DataFrame(0.0, index=dmg_subset.index, columns=building_ids)
+            for results in loss_results.values():
+                results.append(no_loss)
+            continue
+
         repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
 
         # aggregate across uid
@@ -335,6 +396,7 @@ def _calculate_losses_hazus_eq(
         for DV_type in ['Cost', 'Time']:  # noqa: N806
             grp_repair_dv = grp_repair[DV_type].copy()
             grp_repair_dv.columns = grp_repair_dv.columns.astype(int)
+            grp_repair_dv = _add_undamaged_buildings(grp_repair_dv, undamaged)
 
             # we did not preserve the units for now; we can add them here if needed
             loss_results[DV_type].append(grp_repair_dv.loc[:, building_ids])
@@ -383,6 +445,14 @@ def _calculate_losses_general(
 
     assessment.loss.calculate()
 
+    # undamaged buildings have no losses
+    undamaged = _list_undamaged_buildings(assessment)
+    damage_sample = assessment.damage.save_sample()
+
+    if len(undamaged) == damage_sample.columns.unique(level='loc').size:
+        no_loss = pd.DataFrame(0.0, index=undamaged, columns=damage_sample.index)
+        return no_loss, no_loss.copy() if 'Time' in decision_variables else None
+
     repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
 
     # aggregate across uid
@@ -414,12 +484,12 @@ def _calculate_losses_general(
     # prepare the output
     repair_costs = grp_repair['Cost']
     repair_costs.columns = repair_costs.columns.astype(int)
-    repair_costs = repair_costs.T
+    repair_costs = _add_undamaged_buildings(repair_costs, undamaged).T
 
     if 'Time' in decision_variables:
         repair_times = grp_repair['Time']
         repair_times.columns = repair_times.columns.astype(int)
-        repair_times = repair_times.T
+        repair_times = _add_undamaged_buildings(repair_times, undamaged).T
     else:
         repair_times = None
 
-- 
2.43.0


From 73e4be977169b5a639f6a740308497491228e9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 78/95] fix: interrupted model library updates left a mixture
 of versions

---
 pelicun/tools/dlml.py | 178 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 153 insertions(+), 25 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 013b228..f2fbcea 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -47,6 +47,7 @@ import logging
 import os
 import re
 import shlex
+import shutil
 import sys
 import warnings
 from datetime import datetime, timedelta
@@ -545,6 +546,70 @@ def _download_file(url: str, local_path: Union[str, Path]) -> None:  # noqa: UP0
         raise RuntimeError(msg) from e
 
 
+def _read_model_file_list(model_file_list: Path) -> list[str]:
+    """
+    Read the paths of the model files from a model file list.
+
+    Parameters
+    ----------
+    model_file_list: Path
+        Path to the model file list
+
+    Returns
+    -------
+    list[str]
+        The paths of the model files, relative to the library.
+    """
+    with model_file_list.open('r') as f:
+        return [
+            line.strip() for line in f if line.strip() and not line.startswith('#')
+        ]
+
+
+def _install_staged_files(
+    staging_dir: Path,
+    target_dir: Path,
+    obsolete_files: list[str],
+    cache_data: dict[str, Any] | None,
+) -> None:
+    """
+    Replace the installed model files with the downloaded ones.
+
+    The model file list is removed first and put in place last, so that
+    an interrupted replacement is recognized as a missing installation.
+
+    Parameters
+    ----------
+    staging_dir: Path
+        Directory with the downloaded files
+    target_dir: Path
+        The DLML data directory
+    obsolete_files: list[str]
+        Installed model files that are not part of the new version
+    cache_data: dict, optional
+        The cache data that describes the new version
+    """
+    staged_files = [path for path in staging_dir.rglob('*') if path.is_file()]
+    staged_list = staging_dir / 'model_files.txt'
+    if staged_list in staged_files:
+        (target_dir / 'model_files.txt').unlink(missing_ok=True)
+
+    for file_path in obsolete_files:
+        (target_dir / file_path).unlink(missing_ok=True)
+
+    for staged_file in staged_files:
+        if staged_file != staged_list:
+            target_file = target_dir / staged_file.relative_to(staging_dir)
+            target_file.parent.mkdir(parents=True, exist_ok=True)
+            staged_file.replace(target_file)
+
+    if cache_data is not None:
+        save_cache(str(target_dir / '.dlml_cache.json'), cache_data)
+
+    if staged_list in staged_files:
+        staged_list.replace(target_dir / 'model_files.txt')
+
+
 def download_data_files(  # noqa: C901
     version: str = 'latest',
     commit: Optional[str] = None,  # noqa: UP007
@@ -575,6 +640,12 @@ def download_data_files(  # noqa: C901
     # Cache file path
     cache_file = target_data_abs_dir / '.dlml_cache.json'
 
+    # Without the model file list, the installation is incomplete and the
+    # cache does not describe it
+    model_file_list = target_data_abs_dir / 'model_files.txt'
+    if cache_file.exists() and not model_file_list.exists():
+        cache_file.unlink()
+
     # Load cache if using caching
     cache_data = load_cache(str(cache_file)) if use_cache else {}
 
@@ -608,22 +679,69 @@ def download_data_files(  # noqa: C901
             )
             changed_files = _get_changed_files(old_commit_sha, commit_sha, headers)
 
+    # Download the files to a staging directory and replace the installed ones
+    # only after every download succeeded
+    staging_dir = target_data_abs_dir / f'.dlml_download_{os.getpid()}'
+    shutil.rmtree(staging_dir, ignore_errors=True)
+    try:
+        _download_and_install(
+            commit_sha,
+            cache_meta,
+            cache_data,
+            changed_files,
+            staging_dir,
+            record_version=use_cache or cache_file.exists(),
+        )
+    finally:
+        shutil.rmtree(staging_dir, ignore_errors=True)
+
+
+def _download_and_install(
+    commit_sha: str,
+    cache_meta: dict[str, Any],
+    cache_data: dict[str, Any],
+    changed_files: set[str] | None,
+    staging_dir: Path,
+    *,
+    record_version: bool,
+) -> None:
+    """
+    Download the model files of a commit and install them.
+
+    Parameters
+    ----------
+    commit_sha: str
+        The commit to download
+    cache_meta: dict
+        Version metadata of the commit
+    cache_data: dict
+        The cache data of the installed version
+    changed_files: set[str], optional
+        Files that differ between the installed version and the commit.
+        If it is not known, every file is downloaded.
+    staging_dir: Path
+        Directory to download the files to
+    record_version: bool
+        Whether the installed version is to be recorded in the cache
+
+    Raises
+    ------
+    RuntimeError
+        If the model file list cannot be read
+    """
+    target_data_abs_dir = get_dlml_data_dir()
+
     # Get the model file list
     model_file_list_url = f'{get_raw_repo_url()}/{commit_sha}/model_files.txt'
 
-    model_file_local_path = target_data_abs_dir / 'model_files.txt'
+    model_file_local_path = staging_dir / 'model_files.txt'
     _download_file(model_file_list_url, str(model_file_local_path))
 
     logger.info('Successfully downloaded model file list.')
 
     # Read the model list and download model files
     try:
-        with model_file_local_path.open('r') as f:
-            files_to_download = [
-                line.strip()
-                for line in f
-                if line.strip() and not line.startswith('#')
-            ]
+        files_to_download = _read_model_file_list(model_file_local_path)
     except FileNotFoundError as e:
         msg = f'Model file list not found at {model_file_local_path}'
         raise RuntimeError(msg) from e
@@ -639,18 +757,17 @@ def download_data_files(  # noqa: C901
 
     file_download_base_url = f'{get_raw_repo_url()}/{commit_sha}'
 
-    # Initialize cache for this commit if using caching
-    if use_cache:
-        # Keep track of files that should exist
-        new_cache = {
-            'commit_sha': commit_sha,
-            'last_updated': datetime.now().isoformat(),  # noqa: DTZ005
-            'files': {},
-        }
+    # Initialize cache for this commit
+    # Keep track of files that should exist
+    new_cache = {
+        'commit_sha': commit_sha,
+        'last_updated': datetime.now().isoformat(),  # noqa: DTZ005
+        'files': {},
+    }
 
-        # Add version metadata for tracking
-        new_cache['version'] = cache_meta['version']
-        new_cache['download_type'] = cache_meta['download_type']
+    # Add version metadata for tracking
+    new_cache['version'] = cache_meta['version']
+    new_cache['download_type'] = cache_meta['download_type']
 
     # Count total files for progress reporting
     total_files = len(files_to_download)
@@ -675,7 +792,7 @@ def download_data_files(  # noqa: C901
             is_unchanged_on_remote = (changed_files is not None) and (
                 file_path not in changed_files
             )
-            if use_cache and is_unchanged_on_remote:
+            if is_unchanged_on_remote:
                 cached_hash = cache_data.get('files', {}).get(file_path)
                 if cached_hash:
                     current_hash = get_file_hash(str(local_path))
@@ -690,16 +807,27 @@ def download_data_files(  # noqa: C901
             # Download the file if it's not in cache
             pbar.set_description(f'Downloading {local_path.name}')
             remote_url = f'{file_download_base_url}/{file_path}'
-            _download_file(remote_url, str(local_path))
+            staged_path = staging_dir / file_path
+            _download_file(remote_url, str(staged_path))
 
-            if use_cache:
-                new_cache['files'][file_path] = get_file_hash(str(local_path))
+            new_cache['files'][file_path] = get_file_hash(str(staged_path))
 
             pbar.update(1)
 
-    # Save the new cache
-    if use_cache:
-        save_cache(str(cache_file), new_cache)
+    # Model files of the installed version that are not part of the new one
+    try:
+        installed_files = _read_model_file_list(
+            target_data_abs_dir / 'model_files.txt'
+        )
+    except (OSError, ValueError):
+        installed_files = []
+
+    _install_staged_files(
+        staging_dir,
+        target_data_abs_dir,
+        obsolete_files=sorted(set(installed_files) - set(files_to_download)),
+        cache_data=new_cache if record_version else None,
+    )
 
     logger.info(
         f'DLML model data download complete. Downloaded {total_files - skipped_count} files, skipped {skipped_count} unchanged files.'
-- 
2.43.0


From c1247924c4c7b1f85f2ec95e1f8808a0ec75f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 79/95] fix: model files with special characters in their path
 could not be downloaded

---
 pelicun/tools/dlml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index f2fbcea..2d62f8e 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -53,6 +53,7 @@ import warnings
 from datetime import datetime, timedelta
 from pathlib import Path
 from typing import Any, Dict, Optional, Union
+from urllib.parse import quote
 
 import requests
 from packaging import version
@@ -806,7 +807,7 @@ def _download_and_install(
 
             # Download the file if it's not in cache
             pbar.set_description(f'Downloading {local_path.name}')
-            remote_url = f'{file_download_base_url}/{file_path}'
+            remote_url = f'{file_download_base_url}/{quote(file_path)}'
             staged_path = staging_dir / file_path
             _download_file(remote_url, str(staged_path))
 
-- 
2.43.0


From 1f69f7778eb05c83350b46505eb473bd257ca653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 80/95] fix: model library update missed files of diverged
 commits and of large changes

---
 pelicun/tools/dlml.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 2d62f8e..8c8fdc7 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -208,7 +208,14 @@ def _get_changed_files(
             response.raise_for_status()
             compare_data = response.json()
 
-        return {file_info['filename'] for file_info in compare_data.get('files', [])}
+        # The files of diverged commits are compared to their common ancestor,
+        # and no more than 300 files are listed.
+        files = compare_data.get('files', [])
+        if compare_data.get('status') == 'diverged' or len(files) >= 300:  # noqa: PLR2004
+            logger.info('The list of changed files is not available.')
+            return None
+
+        return {file_info['filename'] for file_info in files}
 
     except requests.exceptions.RequestException as e:
         logger.warning(f'Could not get commit comparison from GitHub API: {e}')
-- 
2.43.0


From 90137a4091ba1d7635692c9fb3d61b8f6940ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 81/95] fix: model library versions were not checked after a
 check with a wrong clock

---
 pelicun/tools/dlml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 8c8fdc7..c0e25ce 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -296,7 +296,7 @@ def check_dlml_version() -> Dict[str, Union[bool, str, None]]:  # noqa: UP007, U
     if last_version_check:
         try:
             last_check_time = datetime.fromisoformat(last_version_check)
-            if now - last_check_time < timedelta(days=1):
+            if timedelta(0) <= now - last_check_time < timedelta(days=1):
                 # Return cached version check result
                 return {
                     'update_available': cache_data.get('update_available', False),
-- 
2.43.0


From 1bbfc1cd3313dceafc5169ed67be7b34fafe7491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 82/95] fix: model library version check failed on unexpected
 replies, damaged caches and read-only libraries

---
 pelicun/tools/dlml.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index c0e25ce..77d2d41 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -241,10 +241,12 @@ def load_cache(cache_file: Union[str, Path]) -> Dict[str, Any]:  # noqa: UP007,
     if path.exists():
         try:
             with path.open('r') as f:
-                return json.load(f)
-        except (OSError, json.JSONDecodeError):
+                cache_data = json.load(f)
+        except (OSError, ValueError):
             # If the cache file is corrupted, return an empty cache
             return {}
+        if isinstance(cache_data, dict):
+            return cache_data
     return {}
 
 
@@ -368,7 +370,7 @@ def check_dlml_version() -> Dict[str, Union[bool, str, None]]:  # noqa: UP007, U
 
     except requests.exceptions.RequestException as e:
         result['error'] = f'Failed to check for updates: {e}'
-    except (ValueError, TypeError, KeyError, json.JSONDecodeError) as e:
+    except (ValueError, TypeError, KeyError, AttributeError) as e:
         result['error'] = f'Version check error: {e}'
 
     # Update cache with version check results
@@ -384,7 +386,11 @@ def check_dlml_version() -> Dict[str, Union[bool, str, None]]:  # noqa: UP007, U
 
     # Save updated cache
     if target_data_abs_dir.exists():
-        save_cache(str(cache_file), cache_data)
+        try:
+            save_cache(str(cache_file), cache_data)
+        except OSError as e:
+            # The result is not cached if the directory is not writable
+            logger.info(f'Could not save the result of the version check: {e}')
 
     return result
 
-- 
2.43.0


From 15fb3abe4e396f707a5621cb069461f3c94fee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 83/95] fix: a branch was installed as the requested version
 when a tag lookup failed

---
 pelicun/tools/dlml.py | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 77d2d41..d5215ed 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -395,6 +395,35 @@ def check_dlml_version() -> Dict[str, Union[bool, str, None]]:  # noqa: UP007, U
     return result
 
 
+def _resolve_tag_from_commits(tag_name: str, headers: dict) -> str | None:
+    """
+    Resolve a tag to a commit SHA without the Git refs API.
+
+    Parameters
+    ----------
+    tag_name: str
+        The tag to resolve
+    headers: dict
+        Headers to use for the GitHub API request.
+
+    Returns
+    -------
+    str | None
+        The full commit SHA, or None if it is not available.
+    """
+    try:
+        response = requests.get(
+            f'{get_api_repo_url()}/commits/{tag_name}',
+            headers=headers,
+            timeout=(10, 60),
+        )
+        response.raise_for_status()
+        commit_sha = response.json()['sha']
+    except (requests.exceptions.RequestException, KeyError, TypeError):
+        return None
+    return commit_sha if isinstance(commit_sha, str) else None
+
+
 def _resolve_version_to_commit_sha(  # noqa: C901
     headers: dict,
     version: str | None = None,
@@ -508,9 +537,13 @@ def _resolve_version_to_commit_sha(  # noqa: C901
             tag_obj_response.raise_for_status()
             commit_sha = tag_obj_response.json().get('object', {}).get('sha')
         else:  # Fallback
-            commit_sha = release_data.get('target_commitish')
+            commit_sha = _resolve_tag_from_commits(tag_name, headers)
     except requests.exceptions.RequestException:
         # Fallback if API fails
+        commit_sha = _resolve_tag_from_commits(tag_name, headers)
+
+    if not commit_sha:
+        # Last resort, this may be a branch name
         commit_sha = release_data.get('target_commitish')
 
     if not commit_sha:
-- 
2.43.0


From 7e3f2a5c1d41d1c2b6f56c991bf2513b79e1d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 84/95] fix: model library kept the old version on record when
 the same data was installed as another version

---
 pelicun/tools/dlml.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index d5215ed..56cdb42 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -717,6 +717,17 @@ def download_data_files(  # noqa: C901
         # Check if we already have the latest data
         if old_commit_sha == commit_sha:
             logger.info(f'Already have the latest data for commit {commit_sha[:7]}.')
+            if cache_data.get('version') != cache_meta['version']:
+                # The same data is available under another version, too
+                save_cache(
+                    str(cache_file),
+                    {
+                        **cache_meta,
+                        'commit_sha': commit_sha,
+                        'last_updated': cache_data.get('last_updated'),
+                        'files': cache_data.get('files', {}),
+                    },
+                )
             return
 
         # Determine which files have changed if we are updating
-- 
2.43.0


From a9d1e3968eba18ad956a0b4cee4507093fcac06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 85/95] fix: documented command for library updates without
 cache was rejected

---
 pelicun/cli.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pelicun/cli.py b/pelicun/cli.py
index 8323520..308d3ec 100644
--- a/pelicun/cli.py
+++ b/pelicun/cli.py
@@ -184,7 +184,15 @@ Examples:
     parser_dlml.set_defaults(func=dlml_update)
 
     # Parse the arguments from the command line
-    args = parser.parse_args()
+    args, extra_args = parser.parse_known_args()
+
+    # Before Python 3.12.7, argparse does not recognize an optional positional
+    # argument that is separated from the other ones by an option.
+    if args.subcommand == 'dlml' and len(extra_args) == 1:
+        if args.target == 'latest' and not extra_args[0].startswith('-'):
+            args.target = extra_args.pop()
+    if extra_args:
+        parser.error(f'unrecognized arguments: {" ".join(extra_args)}')
 
     # Call the function associated with the chosen subcommand
     if args.subcommand == 'regional_sim':
-- 
2.43.0


From d88798abfb25e3bc18c56f7eba701063db008374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 86/95] fix: read a component ID that contains DMG from a loss
 map as it is

---
 pelicun/model/loss_model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index f25f8ef..43456a4 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -231,14 +231,19 @@ class LossModel(PelicunModel):
             )
             assert isinstance(loss_map, pd.DataFrame)
             # <backwards compatibility>
-            if np.any(['DMG' in x for x in loss_map.index]):  # type: ignore
+            if (
+                isinstance(loss_map.index, pd.MultiIndex)
+                and 'DMG' in loss_map.index.get_level_values(0)
+            ):
                 self.log.warning(
                     'The `DMG-` flag in the loss_map index is deprecated '
                     'and no longer necessary. '
                     'Please do not prepend `DMG-` before the component '
                     'names in the loss map.'
                 )
-                loss_map.index = pd.Index([x[1] for x in loss_map.index])
+                loss_map.index = pd.Index(
+                    [x[1] if x[0] == 'DMG' else x[0] for x in loss_map.index]
+                )
 
         else:
             self.log.msg('Using default loss map.', prepend_timestamp=False)
-- 
2.43.0


From cbb66af9ec977e287e1073713029d65a93ebdd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 87/95] fix: keep the loss model a user-defined loss map gives
 for collapse

---
 pelicun/assessment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index eeee330..35f4012 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1421,8 +1421,9 @@ class DLCalculationAssessment(AssessmentBase):
 
         # prepare additional loss map entries, if needed
         if 'DMG-collapse' not in loss_map.index:
-            loss_map.loc['collapse', 'Repair'] = 'replacement'
-            loss_map.loc['irreparable', 'Repair'] = 'replacement'
+            for damage in ('collapse', 'irreparable'):
+                if damage not in loss_map.index:
+                    loss_map.loc[damage, 'Repair'] = 'replacement'
 
         if decision_variables:
             self.loss.decision_variables = decision_variables
-- 
2.43.0


From 7de2d033bb515e3f7cba6c2ac8ad40302bed4b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 88/95] fix: residual drifts estimated for a sample that has
 them already led to duplicate demands

---
 pelicun/assessment.py         | 6 +++++-
 pelicun/model/demand_model.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 35f4012..f96d296 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -759,7 +759,11 @@ class DLCalculationAssessment(AssessmentBase):
                     name='Units',
                 )
                 rid_sample = pd.concat([rid, rid_units.to_frame().T])
-                demand_sample = pd.concat([demand_sample, rid_sample], axis=1)
+                # estimates replace the RID values that are already there
+                is_estimated = demand_sample.columns.isin(rid.columns)
+                demand_sample = pd.concat(
+                    [demand_sample.loc[:, ~is_estimated], rid_sample], axis=1
+                )
 
             else:
                 msg = (
diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 3e6bdd4..6f5e6b4 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -475,6 +475,10 @@ class DemandModel(PelicunModel):
         pid = demand_sample['PID']
         rid = self.estimate_RID(pid, params, method)
         rid_units = pd.Series('unitless', index=rid.columns)
+        # estimates replace the RID values that are already in the sample
+        is_estimated = demand_sample.columns.isin(rid.columns)
+        demand_sample = demand_sample.loc[:, ~is_estimated]
+        demand_units = demand_units.loc[demand_sample.columns]
         demand_sample_ext = pd.concat([demand_sample, rid], axis=1)
         units_ext = pd.concat([demand_units, rid_units])
         demand_sample_ext.loc['Units', :] = units_ext
-- 
2.43.0


From db0ba67559d056cf0f4c60914a55638f9649633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:22 +0000
Subject: [PATCH 89/95] fix: blank first limit state of a component no longer
 fails the damage calculation

---
 pelicun/model/damage_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index af60ff1..c264a5e 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1571,7 +1571,8 @@ class DamageModel_DS(DamageModel_Base):
                         # Anchor all other limit state random variables to
                         # the first one to consider the perfect correlation
                         # between capacities in each LS
-                        if ls_id == limit_states[0]:
+                        if len(anchor_rvs) <= block_i:
+                            # first limit state that is defined
                             anchor = None
                         else:
                             anchor = anchor_rvs[block_i]
@@ -1588,7 +1589,7 @@ class DamageModel_DS(DamageModel_Base):
                         # add the RV to the set of correlated variables
                         frg_rv_set_tags[block_i].append(frg_rv_tag)
 
-                        if ls_id == limit_states[0]:
+                        if anchor is None:
                             anchor_rvs.append(rv)
 
                         # Now add the LS->DS assignments
-- 
2.43.0


From 684aae1728f0f3082f6dd12fe5fdc43b74698bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:19 +0000
Subject: [PATCH 90/95] fix: demand expressions that do not use every demand of
 the component failed

---
 pelicun/model/demand_model.py | 42 +++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 6f5e6b4..f1f0af1 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1341,16 +1341,12 @@ def _get_required_demand_type(
             # other components might have expressions, but not this one
             expression = None
         if expression is not None:
-            # get the number of variables in the expression using
-            # the numexpr library
-            parsed_expr = ne.NumExpr(_clean_up_expression(expression))
-            num_terms = len(parsed_expr.input_names)
             demand_parameters_list = []
-            for i in range(num_terms):
-                if i == 0:
+            for term in _expression_terms(expression):
+                if term == 1:
                     index_lvl0 = 'Demand'
                 else:
-                    index_lvl0 = f'Demand{i + 1}'
+                    index_lvl0 = f'Demand{term}'
                 demand_parameters_list.append(
                     (
                         model_parameters.loc[cmp, (index_lvl0, 'Type')],
@@ -1528,8 +1524,8 @@ def _assemble_required_demand_data(
         if expression is not None:
             # build a dict of values
             value_dict = {}
-            for i, edp in enumerate(edps):
-                value_dict[f'X{i + 1}'] = edp_values[edp]
+            for term, edp in zip(_expression_terms(expression), edps):
+                value_dict[f'X{term}'] = edp_values[edp]
             demand = ne.evaluate(
                 _clean_up_expression(expression), local_dict=value_dict
             )
@@ -1538,6 +1534,34 @@ def _assemble_required_demand_data(
     return demand_dict
 
 
+def _expression_terms(expression: str) -> list[int]:
+    """
+    Get the numbers of the demands used in an expression.
+
+    Parameters
+    ----------
+    expression: str
+        Mathematical expression with variables X1, X2, etc.
+
+    Returns
+    -------
+    list of int
+        Numbers of the variables in the expression, in ascending order.
+
+    Raises
+    ------
+    ValueError
+        If the expression contains any other variable.
+
+    """
+    names = ne.NumExpr(_clean_up_expression(expression)).input_names
+    invalid = [name for name in names if not re.fullmatch(r'X[1-9][0-9]*', name)]
+    if invalid:
+        msg = f'Invalid variables in expression `{expression}`: {invalid}'
+        raise ValueError(msg)
+    return sorted(int(name[1:]) for name in names)
+
+
 def _clean_up_expression(expression: str) -> str:
     """
     Clean up a mathematical expression in a string.
-- 
2.43.0


From efafb2801572046a3471c6e26c995fb70eb9f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 91/95] fix: calibration settings for a single spectral period
 were ignored

---
 pelicun/model/demand_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f1f0af1..69bd46e 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -586,7 +586,7 @@ class DemandModel(PelicunModel):
                 cols_lst = []
 
                 for d_type in active_d_types:
-                    if d_type.split('_')[0] == demand_type:
+                    if demand_type in {d_type, d_type.split('_')[0]}:
                         cols_lst.append(d_type)  # noqa: PERF401
 
                 cols = tuple(cols_lst)
@@ -667,7 +667,8 @@ class DemandModel(PelicunModel):
         parse_settings(cal_df, config['ALL'], demand_type='ALL')
 
         # then parse the additional settings and make the necessary adjustments
-        for demand_type in config:  # noqa: PLC0206
+        # (settings for a specific period come after those for all periods)
+        for demand_type in sorted(config, key=lambda x: '_' in x):
             if demand_type != 'ALL':
                 parse_settings(cal_df, config[demand_type], demand_type=demand_type)
 
-- 
2.43.0


From 4b94c180c3941c930f070bad07fd7fc07fdbb65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:24 +0000
Subject: [PATCH 92/95] fix: collapse limits on floor accelerations could not
 be evaluated

The collapse groups are created at the locations of the demands, but the
default demand offset of floor accelerations and velocities moved them one
floor down, so that the analysis was rejected (or used the floor below).
---
 pelicun/assessment.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index f96d296..fb25644 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1038,7 +1038,6 @@ class DLCalculationAssessment(AssessmentBase):
                 coll_cmp_name = 'collapse'
 
             adf.loc[coll_cmp_name, ('Demand', 'Directional')] = 1
-            adf.loc[coll_cmp_name, ('Demand', 'Offset')] = 0
 
             coll_dem = collapse_fragility['DemandType']
 
@@ -1047,6 +1046,11 @@ class DLCalculationAssessment(AssessmentBase):
             else:
                 coll_dem_spec = None
 
+            # the groups are located where the demands are
+            adf.loc[coll_cmp_name, ('Demand', 'Offset')] = (
+                -self.options.demand_offset.get(coll_dem, 0)
+            )
+
             coll_dem_name = None
             for demand_name, demand_short in EDP_to_demand_type.items():
                 if demand_short == coll_dem:
-- 
2.43.0


From e4e68c5468bf984190c5500fd0b4103c89f4afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:19 +0000
Subject: [PATCH 93/95] fix: default replacement times failed when several
 databases define the same consequences

---
 pelicun/assessment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index fb25644..b375147 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1357,8 +1357,9 @@ class DLCalculationAssessment(AssessmentBase):
             custom_model_dir,
         )
 
-        # remove duplicates from conseq_df
-        conseq_df = conseq_df.loc[conseq_df.index.unique(), :]
+        # remove duplicates from conseq_df, and keep the ones that the
+        # loss model uses: the last database takes precedence
+        conseq_df = conseq_df.loc[~conseq_df.index.duplicated(keep='last'), :]
 
         # add the replacement consequence to the data
         adf = pd.DataFrame(
-- 
2.43.0


From 37cdd4b0b3f496c554c02837e07bb1f8d4ffee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 94/95] fix: resolve former names of the default model
 libraries

---
 pelicun/file_io.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 5221f12..013a44e 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -86,8 +86,8 @@ legacy_names = {
     'damage_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings',
     'damage_DB_Hazus_EQ_story': 'Hazus Earthquake - Stories',
     'damage_DB_Hazus_EQ_trnsp': 'Hazus Earthquake - Transportation',
-    'damage_DB_Hazus_EQ_water': 'Hazus Earthquake - Water',
-    'damage_DB_Hazus_EQ_power': 'Hazus Earthquake - Power',
+    'damage_DB_Hazus_EQ_water': 'Hazus Earthquake - Potable Water',
+    'damage_DB_Hazus_EQ_power': 'Hazus Earthquake - Electric Power',
     'damage_DB_SimCenter_Hazus_HU_bldg': 'Hazus Hurricane Wind',
     'loss_repair_DB_FEMA_P58_2nd': 'FEMA P-58',
     'loss_repair_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings',
@@ -367,7 +367,13 @@ def substitute_default_path(
                             'documentation for more details.'
                         )
 
-                    method_name = legacy_names[file_name.split('.')[0]]
+                    # (the names listed above have even older variants)
+                    legacy_name = (
+                        file_name.split('.')[0]
+                        .replace('fragility_DB', 'damage_DB')
+                        .replace('bldg_repair_DB', 'loss_repair_DB')
+                    )
+                    method_name = legacy_names[legacy_name]
                     if file_name.startswith(('fragility', 'damage')):
                         data_type = 'fragility'
                     else:
-- 
2.43.0


From c41965079804d3d96f87349f91ca196ce92a5f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:53 +0000
Subject: [PATCH 95/95] fix: accept configurations with a component sample file

---
 pelicun/settings/input_schema.json | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pelicun/settings/input_schema.json b/pelicun/settings/input_schema.json
index 346a9b0..819c605 100644
--- a/pelicun/settings/input_schema.json
+++ b/pelicun/settings/input_schema.json
@@ -169,8 +169,17 @@
               "type": "string"
             }
           },
-          "required": [
-            "ComponentAssignmentFile"
+          "anyOf": [
+            {
+              "required": [
+                "ComponentAssignmentFile"
+              ]
+            },
+            {
+              "required": [
+                "ComponentSampleFile"
+              ]
+            }
           ]
         },
         "Damage": {
-- 
2.43.0

