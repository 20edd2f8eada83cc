From 18f6f3bebcde8be95b8d50ba551fdc224f3481c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 01/72] fix: do not share the built-in output requests between
 runs

The default output and settings dictionaries were placed in the
configuration by reference and then edited, so one run changed the
defaults used by later runs in the same process.
---
 pelicun/tools/DL_calculation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 463c3c6..5316584 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -45,6 +45,7 @@ import argparse
 import json
 import os
 import sys
+from copy import deepcopy
 from pathlib import Path
 from time import gmtime, strftime
 from typing import Hashable
@@ -791,9 +792,9 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
         # if detailed results are not requested, add a lean output config
         if detailed_results is False:
-            update(config_ap, 'DL/Outputs', regional_out_config)
+            update(config_ap, 'DL/Outputs', deepcopy(regional_out_config))
         else:
-            update(config_ap, 'DL/Outputs', full_out_config)
+            update(config_ap, 'DL/Outputs', deepcopy(full_out_config))
             # add output settings from regional output config
             if is_unspecified(config_ap, 'DL/Outputs/Settings'):
                 update(config_ap, 'DL/Outputs/Settings', {})
@@ -833,7 +834,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # provide all outputs if the files are not specified
     if is_unspecified(config, 'DL/Outputs'):
-        update(config, 'DL/Outputs', full_out_config)
+        update(config, 'DL/Outputs', deepcopy(full_out_config))
 
     # provide outputs in CSV by default
     if is_unspecified(config, 'DL/Outputs/Format'):
@@ -853,7 +854,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # add empty Settings to output config to simplify code below
     if is_unspecified(config, 'DL/Outputs/Settings'):
-        update(config, 'DL/Outputs/Settings', pbe_settings)
+        update(config, 'DL/Outputs/Settings', deepcopy(pbe_settings))
 
     if is_unspecified(config, 'DL/Demands'):
         msg = 'Demand configuration missing.'
-- 
2.43.0


From 3b77ad9b7ee37094d8dc51ea6794a21b259c203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 02/72] fix: keep the caller's residual drift settings intact

---
 pelicun/assessment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 8de1988..42bc9b9 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -731,6 +731,7 @@ class DLCalculationAssessment(AssessmentBase):
         if residual_drift_inference:
             # `method` is guaranteed to exist because it is confirmed when
             # parsing the configuration file.
+            residual_drift_inference = residual_drift_inference.copy()
             rid_inference_method = residual_drift_inference.pop('method')
 
             if rid_inference_method == 'FEMA P-58':
-- 
2.43.0


From 70d7995cf5049a03c7386ccba6c33395fd7e1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 03/72] fix: do not modify the predefined damage processes

The component ids of one asset were written into the module-level
templates and affected every later assessment in the same process.
---
 pelicun/assessment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 42bc9b9..dee3fd0 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -42,6 +42,7 @@
 
 from __future__ import annotations
 
+import copy
 import json
 from pathlib import Path
 from typing import TYPE_CHECKING, Any
@@ -1165,7 +1166,9 @@ class DLCalculationAssessment(AssessmentBase):
         dmg_process = None
         if damage_process_approach is not None:  # noqa: PLR1702
             if damage_process_approach in default_damage_processes:
-                dmg_process = default_damage_processes[damage_process_approach]
+                dmg_process = copy.deepcopy(
+                    default_damage_processes[damage_process_approach]
+                )
 
                 # For Hazus Earthquake, we need to specify the component ids
                 if damage_process_approach in {
-- 
2.43.0


From 478ffa80c3fd11e1e94d7769c6afab5f85ca18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 04/72] fix: keep the controlling sample when evaluating a
 multinomial RV

The uniform sample was overwritten in place, which also corrupted the
sample of every variable anchored to the multinomial one.
---
 pelicun/uq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 22e743f..b57813c 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2468,6 +2468,7 @@ class MultinomialRandomVariable(RandomVariable):
 
         """
         p_cum = np.cumsum(self.theta)[:-1]
+        values = values.copy()
 
         for i, p_i in enumerate(p_cum):
             values[values < p_i] = 10 + i
-- 
2.43.0


From 1909b1430d0bf2dad832049835bfa4bb206a3814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 05/72] fix: do not log-transform the caller's data when
 fitting a distribution

---
 pelicun/uq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index b57813c..b5fdb38 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -775,8 +775,8 @@ def fit_distribution_to_sample(  # noqa: C901
 
     """
     samples = np.atleast_2d(raw_sample)
-    tr_limits = np.atleast_2d(truncation_limits)
-    det_limits = np.atleast_2d(detection_limits)
+    tr_limits = np.atleast_2d(truncation_limits).copy()
+    det_limits = np.atleast_2d(detection_limits).copy()
     dist_list = np.atleast_1d(distribution)
     n_dims, n_samples = samples.shape
 
-- 
2.43.0


From 558db0ba4fe5baf390dd3d5ce9af44d0a3a243ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 06/72] fix: do not replace NaN limits in the caller's arrays

---
 pelicun/uq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index b5fdb38..8df783d 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -196,12 +196,12 @@ def mvn_orthotope_density(
     if np.all(np.isnan(lower)):
         lower = -np.ones(ndim) * np.inf
     else:
-        lower = np.atleast_1d(lower)
+        lower = np.atleast_1d(lower).copy()
 
     if np.all(np.isnan(upper)):
         upper = np.ones(ndim) * np.inf
     else:
-        upper = np.atleast_1d(upper)
+        upper = np.atleast_1d(upper).copy()
 
     # replace None with np.inf
     lower[np.where(np.isnan(lower))[0]] = -np.inf
-- 
2.43.0


From c0c6ffec973ea42d7571422f65540c8fa854a313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 07/72] fix: do not write the default options into the caller's
 config

---
 pelicun/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index 7a00ec0..a64fe9e 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -43,6 +43,7 @@
 from __future__ import annotations
 
 import argparse
+import copy
 import json
 import pprint
 import sys
@@ -194,7 +195,9 @@ class Options:
         self.sampling_method: str | None = None
         self.list_all_ds: bool | None = None
 
-        merged_config_options = merge_default_config(user_config_options)
+        merged_config_options = merge_default_config(
+            copy.deepcopy(user_config_options)
+        )
 
         self.seed = merged_config_options['Seed']
         self.sampling_method = merged_config_options['Sampling']['SamplingMethod']
-- 
2.43.0


From 0ede46e4473df6d273db004dd07c4387e66d7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 08/72] fix: reading the combined loss sample no longer
 relabels the loss function sample

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 062fcab..a28a346 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -141,9 +141,9 @@ class LossModel(PelicunModel):
         # reorder
         new_index = new_index[ds_model_levels]
         new_multiindex = pd.MultiIndex.from_frame(new_index)
-        self.lf_model.sample.columns = new_multiindex
+        lf_model_sample = self.lf_model.sample.set_axis(new_multiindex, axis=1)
 
-        return pd.concat((self.ds_model.sample, self.lf_model.sample), axis=1)
+        return pd.concat((self.ds_model.sample, lf_model_sample), axis=1)
 
     @property
     def loss_params(self) -> pd.DataFrame | None:
-- 
2.43.0


From 1aa877caec259a3a1df773d9744d2050b4e9655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 09/72] fix: do not add a column to the asset model when
 calculating losses

---
 pelicun/model/loss_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index a28a346..5cfdca0 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2551,7 +2551,7 @@ class RepairModel_LF(RepairModel_Base):
         # If `Blocks` information is unspecified add one block per
         # component.
         if 'Blocks' not in cmp_marginal_params.columns:
-            cmp_marginal_params['Blocks'] = 1
+            cmp_marginal_params = cmp_marginal_params.assign(Blocks=1)
         blocks = cmp_marginal_params.loc[index, 'Blocks'].to_dict()
 
         performance_group_dict = {}
-- 
2.43.0


From a4290a5455bdd843ca5fe4bbe79fff047854ccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 10/72] fix: reject unknown sampling methods explicitly

---
 pelicun/uq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 8df783d..6f95bbd 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2843,7 +2843,7 @@ class RandomVariableRegistry:
         rv_count = len(rv_id)
 
         # Generate controlling samples from a uniform distribution for free RVs
-        if 'LHS' in method:
+        if method in {'LHS', 'LHS_midpoint'}:
             bin_low = np.array(
                 [self._rng.permutation(sample_size) for i in range(rv_count)]
             )
@@ -2859,6 +2859,10 @@ class RandomVariableRegistry:
         elif method == 'MonteCarlo':
             u_rv = self._rng.random(size=[rv_count, sample_size])
 
+        else:
+            msg = f'Unsupported sampling method: {method}'
+            raise ValueError(msg)
+
         # Assign the controlling samples to the RVs
         for rv_name, rvid in rv_id.items():
             self.RV[rv_name].uni_sample = u_rv[rvid]
-- 
2.43.0


From 0a647079b3ea5c848e3d636c5fcdf0550ce488b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 11/72] fix: reject unknown neighbor weighting schemes
 explicitly

---
 pelicun/tools/NNR.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/tools/NNR.py b/pelicun/tools/NNR.py
index dc036e9..149a202 100644
--- a/pelicun/tools/NNR.py
+++ b/pelicun/tools/NNR.py
@@ -180,6 +180,10 @@ def NNR(  # noqa: N802, C901
             dist_weights = 1.0 / dist_list
             weights = np.array(dist_weights) / np.sum(dist_weights)
 
+        else:
+            msg = f'Unsupported weighting scheme: {weight}'
+            raise ValueError(msg)
+
         if sample_size > 0:
             # get the sample of neighbor indices
             neighbor_sample = np.where(
-- 
2.43.0


From 134f52de811de27ac96c07ce73f298e0532c05a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 12/72] fix: fill the loss map in the order of the asset model

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 5cfdca0..381752e 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -241,7 +241,7 @@ class LossModel(PelicunModel):
             raise ValueError(msg)
 
         # get a list of unique component IDs
-        cmp_set = set(self._asmnt.asset.list_unique_component_ids())
+        cmp_list = self._asmnt.asset.list_unique_component_ids()
 
         if loss_map_path is not None:
             self.log.msg('Loss map is provided.', prepend_timestamp=False)
@@ -272,7 +272,7 @@ class LossModel(PelicunModel):
 
         if loss_map_policy in {'fill', 'fill_all'}:
             # Populate missing rows with cmp_id -> cmp_id
-            for component in cmp_set:
+            for component in cmp_list:
                 if component not in loss_map.index:
                     if loss_map_policy == 'fill' and component == 'excessiveRID':
                         continue
-- 
2.43.0


From 1971d6554abad9b1613479ad38b1190d24f7cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 13/72] fix: pass combined losses in the order of the
 combination table

---
 pelicun/model/loss_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 381752e..6e76014 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1170,7 +1170,7 @@ class LossModel(PelicunModel):
                 for loc_dir_uid in potential_groups[decision_variable][target_group]:
                     cols = [
                         (decision_variable, dmg_to_loss[x], x, *loc_dir_uid)
-                        for x in target_group
+                        for x in components_to_combine
                     ]
                     values = np.column_stack([dsample[col] for col in cols])
                     # define/get interpolation function
-- 
2.43.0


From c975e0990baa209c2b1328849faa31c2c9cdbc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 14/72] fix: label regional intensity measures in the order of
 the grid data

---
 pelicun/tools/regional_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 7c85eef..5769b10 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -481,7 +481,8 @@ def process_buildings_chunk(
     # 3 Event-to-Building Mapping
     # Map event IMs to building centroids using the nearest neighbor method
 
-    im_list = list(im_types.keys())
+    # use the order of the intensity measures in the sorted grid data below
+    im_list = sorted(im_types.keys())
 
     grid_point_locations = grid_points[['Longitude', 'Latitude']].to_numpy()
 
-- 
2.43.0


From 7b60b9e89da26bd5b86ef0d7045eb60b0ec9233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 15/72] fix: list components without damage parameters in a
 reproducible order

---
 pelicun/model/damage_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 73ccac9..38849dd 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -452,7 +452,7 @@ class DamageModel(PelicunModel):
 
         missing_components = [
             component
-            for component in cmp_set
+            for component in sorted(cmp_set)
             if component not in available_components
         ]
 
-- 
2.43.0


From 411a1fd337eb400f023ebd68334e9598fbde4da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 16/72] fix: reject unknown units when loading data

---
 pelicun/file_io.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 518758a..348b604 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -452,6 +452,8 @@ def load_data(  # noqa: C901
     TypeError
         If `data_source` is neither a string nor a DataFrame, a
         TypeError is raised.
+    ValueError
+        If the data uses a unit that has no conversion factor.
 
     """
     if isinstance(data_source, pd.DataFrame):
@@ -495,12 +497,17 @@ def load_data(  # noqa: C901
             if log:
                 log.msg('Converting units...', prepend_timestamp=False)
 
+            unknown_units = [
+                unit
+                for unit in units.dropna().unique()
+                if unit not in unit_conversion_factors
+            ]
+            if unknown_units:
+                msg = f'Unknown unit: {", ".join(map(str, unknown_units))}'
+                raise ValueError(msg)
+
             conversion_factors = units.map(
-                lambda unit: (
-                    1.00
-                    if pd.isna(unit)
-                    else unit_conversion_factors.get(unit, 1.00)
-                )
+                lambda unit: 1.00 if pd.isna(unit) else unit_conversion_factors[unit]
             )
 
             if orientation == 1:
-- 
2.43.0


From 4327ae151249560d34c8ae4c2b61e21f18926a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 17/72] fix: scale calibration limits only by the unit they are
 given in

---
 pelicun/model/demand_model.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f100010..0dee0f7 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -582,6 +582,9 @@ class DemandModel(PelicunModel):
             # load the distribution family
             cal_df.loc[list(cols), 'Family'] = settings['DistributionFamily']
 
+            # limits are provided in the specified unit
+            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
+
             # load limits
             for lim in (
                 'CensorLower',
@@ -592,18 +595,7 @@ class DemandModel(PelicunModel):
                 if lim in settings:
                     val = parse_str_to_float(settings[lim], lim)
                     if not pd.isna(val):
-                        cal_df.loc[list(cols), lim] = val
-
-            # scale the censor and truncation limits, if needed
-            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
-
-            rows_to_scale = [
-                'CensorLower',
-                'CensorUpper',
-                'TruncateLower',
-                'TruncateUpper',
-            ]
-            cal_df.loc[idx[cols, :, :], rows_to_scale] *= scale_factor  # type: ignore
+                        cal_df.loc[list(cols), lim] = val * scale_factor
 
             # load the prescribed additional uncertainty
             if 'AddUncertainty' in settings:
-- 
2.43.0


From dfb62066d1667ee6ccb5f8c778e12180ddc4c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 18/72] fix: convert each component quantity from the unit
 given in its own row

---
 pelicun/model/asset_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 7fafa8c..9dad7ba 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -362,7 +362,9 @@ class AssetModel(PelicunModel):
                         * num_vals
                     )
                 elif col == 'Units':
-                    cmp_marginal_param.extend([self.cmp_units[row.Index]] * num_vals)
+                    cmp_marginal_param.extend(
+                        [getattr(row, str(units.name))] * num_vals
+                    )
                 elif col == 'Family':
                     cmp_marginal_param.extend([getattr(row, col, np.nan)] * num_vals)
                 else:
-- 
2.43.0


From 36a17dd15f3de434f289c7229440cf6277ccd8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 19/72] fix: add the prescribed uncertainty to normal demands
 in the same unit

---
 pelicun/model/demand_model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 0dee0f7..1fc0fb1 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -604,7 +604,11 @@ class DemandModel(PelicunModel):
                 )
 
                 # scale the sig value if the target distribution family is normal
-                if settings['DistributionFamily'] == 'normal':
+                if settings['DistributionFamily'] in {
+                    'normal',
+                    'normal_cov',
+                    'normal_std',
+                }:
                     sig_increase *= scale_factor
 
                 cal_df.loc[list(cols), 'SigIncrease'] = sig_increase
@@ -777,6 +781,12 @@ class DemandModel(PelicunModel):
             )
             sig_0 = model_params.loc[:, 'Theta_1'].to_numpy()
 
+            # the dispersion of normal demands is a coefficient of
+            # variation while the increase is a standard deviation
+            mean = np.abs(model_params.loc[:, 'Theta_0'].to_numpy())
+            is_cov = model_params['Family'].isin(['normal', 'normal_cov']).to_numpy()
+            sig_inc[is_cov & (mean > 0.0)] /= mean[is_cov & (mean > 0.0)]
+
             model_params.loc[:, 'Theta_1'] = np.sqrt(
                 sig_0**2.0 + sig_inc**2.0,  # type: ignore
             )
-- 
2.43.0


From b21f96d7c360c02dd21fefbc9380c23ab2c7ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 20/72] fix: do not complete loss parameters from a
 lower-priority definition

---
 pelicun/model/loss_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 6e76014..3ed66bc 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1655,7 +1655,9 @@ class RepairModel_Base(PelicunModel):
 
         # drop redefinitions of components
         data = (
-            data.groupby(level=[0, 1]).first().transform(lambda x: x.fillna(np.nan))
+            data.groupby(level=[0, 1])
+            .first(skipna=False)
+            .transform(lambda x: x.fillna(np.nan))
         )
         # note: .groupby introduces None entries. We replace them with
         # NaN for consistency.
-- 
2.43.0


From 88a0efd5698ea6d7865a8e7676ec0b8b6365987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 21/72] fix: convert loss parameters to base units only once

---
 pelicun/model/loss_model.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 3ed66bc..2edf592 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1609,6 +1609,7 @@ class RepairModel_Base(PelicunModel):
 
     __slots__ = [
         'consequence',
+        'converted',
         'decision_variables',
         'loss_map',
         'loss_params',
@@ -1629,6 +1630,7 @@ class RepairModel_Base(PelicunModel):
         super().__init__(assessment)
 
         self.loss_params: pd.DataFrame | None = None
+        self.converted: pd.Index | None = None
         self.sample: pd.DataFrame | None = None
         self.consequence = 'Repair'
         self.decision_variables: tuple[str, ...] = ()
@@ -1744,6 +1746,26 @@ class RepairModel_Base(PelicunModel):
             return set(cmp_list)
         return set()
 
+    def _get_units_to_convert(self) -> pd.Series:
+        """
+        Get the units of the parameters that need to be converted.
+
+        Loss parameters that are already in base units because they
+        were loaded and converted earlier are assigned a NaN unit.
+
+        Returns
+        -------
+        Series
+            Units of the decision variables.
+
+        """
+        assert self.loss_params is not None
+        units = self.loss_params['DV', 'Unit']
+        if self.converted is not None:
+            units = units.mask(self.loss_params.index.isin(self.converted))
+        self.converted = self.loss_params.index
+        return units
+
     @abstractmethod
     def convert_loss_parameter_units(self) -> None:
         """Convert previously loaded loss parameters to base units."""
@@ -2140,7 +2162,7 @@ class RepairModel_DS(RepairModel_Base):
         """Convert previously loaded loss parameters to base units."""
         if self.loss_params is None:
             return
-        units = self.loss_params['DV', 'Unit']
+        units = self._get_units_to_convert()
         arg_units = self.loss_params['Quantity', 'Unit']
         for column in self.loss_params.columns.unique(level=0):
             if not column.startswith('DS'):
@@ -2673,7 +2695,7 @@ class RepairModel_LF(RepairModel_Base):
         """Convert previously loaded loss parameters to base units."""
         if self.loss_params is None:
             return
-        units = self.loss_params['DV', 'Unit']
+        units = self._get_units_to_convert()
         arg_units = self.loss_params['Demand', 'Unit']
         column = 'LossFunction'
         params = self.loss_params[column].copy()
-- 
2.43.0


From 14efcffccacc0a2ecf65f9d115eebd7f4befc067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 22/72] fix: load the empirical demand data given as a table
 and forget the previous one

---
 pelicun/model/demand_model.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 1fc0fb1..df6b0e9 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -893,19 +893,18 @@ class DemandModel(PelicunModel):
             msg = f'Invalid data_source type: {type(data_source)}.'
             raise TypeError(msg)
 
-        if empirical_data_source is not None:
-            if (
-                isinstance(empirical_data_source, str)
-                and Path(empirical_data_source).exists()
-            ):
-                empirical_data = file_io.load_data(
-                    empirical_data_source,
-                    self._asmnt.unit_conversion_factors,
-                    log=self._asmnt.log,
-                )
-                assert isinstance(empirical_data, pd.DataFrame)
-                self.empirical_data = empirical_data
-                self.empirical_data.columns.names = ['type', 'loc', 'dir']
+        if isinstance(empirical_data_source, pd.DataFrame) or (
+            isinstance(empirical_data_source, str)
+            and Path(empirical_data_source).exists()
+        ):
+            empirical_data = file_io.load_data(
+                empirical_data_source,
+                self._asmnt.unit_conversion_factors,
+                log=self._asmnt.log,
+            )
+            assert isinstance(empirical_data, pd.DataFrame)
+            self.empirical_data = empirical_data
+            self.empirical_data.columns.names = ['type', 'loc', 'dir']
         else:
             self.empirical_data = None
 
-- 
2.43.0


From ee2bc457474cccdd2c0bb69b39859b62824361d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 23/72] fix: keep the standard deviation of normal variables
 with negative mean positive

---
 pelicun/uq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 6f95bbd..624a4cd 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1695,7 +1695,7 @@ class Normal_COV(NormalRandomVariable):
             msg = 'The mean of Normal_COV RVs cannot be zero.'
             raise ValueError(msg)
 
-        std = mean * cov
+        std = np.abs(mean) * cov
         theta = np.array([mean, std])
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
-- 
2.43.0


From bfd63bf4976bf0aae3bc17de29fddbfcde7a0239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 24/72] fix: handle truncation limits of lognormal variables
 below zero

---
 pelicun/uq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 624a4cd..3c58a0c 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1750,7 +1750,9 @@ class LogNormalRandomVariable(RandomVariable):
 
             # Replace NaN values
             a = np.nan_to_num(a, nan=FIRST_POSITIVE_NUMBER)
+            a = np.maximum(a, FIRST_POSITIVE_NUMBER)
             b = np.nan_to_num(b, nan=np.inf)
+            b = np.maximum(b, FIRST_POSITIVE_NUMBER)
 
             p_a, p_b = (
                 norm.cdf((np.log(lim) - np.log(theta)) / beta) for lim in (a, b)
@@ -1803,6 +1805,7 @@ class LogNormalRandomVariable(RandomVariable):
             a = np.nan_to_num(a, nan=FIRST_POSITIVE_NUMBER)
             a[a <= 0] = FIRST_POSITIVE_NUMBER
             b = np.nan_to_num(b, nan=np.inf)
+            b = np.maximum(b, FIRST_POSITIVE_NUMBER)
 
             p_a, p_b = (
                 norm.cdf((np.log(lim) - np.log(theta)) / beta) for lim in (a, b)
-- 
2.43.0


From 3454daf55dbe9f80db761129b97802258331c223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 25/72] fix: truncate uniform variables instead of replacing
 their bounds

---
 pelicun/uq.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 3c58a0c..e7b37bc 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1885,7 +1885,9 @@ class UniformRandomVariable(RandomVariable):
             b = np.inf
 
         if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+            lower, upper = self.truncation_limits
+            a, b = np.fmax(a, lower), np.fmin(b, upper)
+            self._ensure_positive_probability_difference(b, a)
 
         return uniform.cdf(values, loc=a, scale=(b - a))
 
@@ -1915,7 +1917,9 @@ class UniformRandomVariable(RandomVariable):
             b = np.inf
 
         if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+            lower, upper = self.truncation_limits
+            a, b = np.fmax(a, lower), np.fmin(b, upper)
+            self._ensure_positive_probability_difference(b, a)
 
         return uniform.ppf(values, loc=a, scale=(b - a))
 
-- 
2.43.0


From b0a0b1f0a5b8e38480862444b242436e402c4caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:05 +0000
Subject: [PATCH 26/72] fix: use the parameter bounds of the fitted variable in
 marginal fits

---
 pelicun/uq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index e7b37bc..7d0e598 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -884,8 +884,8 @@ def fit_distribution_to_sample(  # noqa: C901
                 np.zeros(inits[dim].size),
                 args=(
                     inits_i,
-                    bnd_lower[dim],
-                    bnd_upper[dim],
+                    bnd_lower[2 * dim : 2 * dim + 2],
+                    bnd_upper[2 * dim : 2 * dim + 2],
                     samples[dim : dim + 1],
                     [
                         dist_list[dim],
-- 
2.43.0


From 457cd56395725d23b84aeadd345b56b22fba567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 27/72] fix: keep the marginals when correlations need the
 singular value decomposition

A correlation matrix that is not positive semidefinite gave correlated
standard normal numbers without unit variance, so the marginal
distribution of every variable in the set was wrong.
---
 pelicun/uq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 7d0e598..8c52599 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2619,7 +2619,11 @@ class RandomVariableSet:
             )
             s_diag = np.diagflat(np.sqrt(s_mat))
 
-            nc_rv = (n_rv.T @ s_diag @ u_mat.T).T
+            # scale the rows to preserve the standard normal marginals
+            l_mat = u_mat @ s_diag
+            l_mat = l_mat / np.linalg.norm(l_mat, axis=1, keepdims=True)
+
+            nc_rv = l_mat @ n_rv
 
             uc_rv = norm.cdf(nc_rv)
 
-- 
2.43.0


From 8ae1a51fa74ccb4bad93f5f37baf9c07d30613ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 28/72] fix: evaluate limit states in increasing order

Limit states were evaluated in their order of appearance among the
components of a batch (and numbered as text), so a lower limit state
could overwrite the damage state of a higher one.
---
 pelicun/model/damage_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 38849dd..dc444f0 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1122,8 +1122,9 @@ class DamageModel_DS(DamageModel_Base):
             dtype='int64',
         )
 
-        # get a list of limit state ids among all components in the damage model
-        ls_list = dmg_eval.columns.get_level_values(5).unique()
+        # get a list of limit state ids among all components in the damage
+        # model, in increasing order
+        ls_list = sorted(dmg_eval.columns.get_level_values(5).unique(), key=int)
 
         # for each consecutive limit state...
         for ls_id in ls_list:
@@ -1442,6 +1443,7 @@ class DamageModel_DS(DamageModel_Base):
                 for val in frg_params.index.get_level_values(0).unique():
                     if 'LS' in val:
                         limit_states.append(val[2:])  # noqa: PERF401
+                limit_states.sort(key=int)
 
                 ds_id = 0
 
-- 
2.43.0


From 83a9f0f94b2976c272c748508be1c98d69225510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 29/72] fix: allow multilinear fragilities with several blocks

The parameters of a multilinear CDF were parsed again for every block,
so any component with more than one block raised an exception.
---
 pelicun/model/damage_model.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index dc444f0..45e2885 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1513,6 +1513,21 @@ class DamageModel_DS(DamageModel_Base):
                         ]
                     )
 
+                    # parse theta values for multilinear_CDF
+                    if family == 'multilinear_CDF':
+                        theta = np.column_stack(  # type: ignore
+                            (
+                                np.array(
+                                    theta[0].split('|')[0].split(','),
+                                    dtype=float,
+                                ),
+                                np.array(
+                                    theta[0].split('|')[1].split(','),
+                                    dtype=float,
+                                ),
+                            )
+                        )
+
                     for block_i, _ in enumerate(blocks):
                         frg_rv_tag = (
                             'FRG-'
@@ -1542,21 +1557,6 @@ class DamageModel_DS(DamageModel_Base):
                         else:
                             anchor = anchor_rvs[block_i]
 
-                        # parse theta values for multilinear_CDF
-                        if family == 'multilinear_CDF':
-                            theta = np.column_stack(  # type: ignore
-                                (
-                                    np.array(
-                                        theta[0].split('|')[0].split(','),
-                                        dtype=float,
-                                    ),
-                                    np.array(
-                                        theta[0].split('|')[1].split(','),
-                                        dtype=float,
-                                    ),
-                                )
-                            )
-
                         rv = uq.rv_class_map(family)(  # type: ignore
                             name=frg_rv_tag,
                             theta=theta,
-- 
2.43.0


From ac3c351075f2b500bf9550fb05f9468275181676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 30/72] fix: anchor capacities to the first defined limit state

A component without a first limit state raised an exception, because
only the first limit state of the table could be the anchor.
---
 pelicun/model/damage_model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 45e2885..149bce4 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1550,12 +1550,12 @@ class DamageModel_DS(DamageModel_Base):
                         # SimCenter Message Board if you are interested in
                         # such a feature.
                         # Anchor all other limit state random variables to
-                        # the first one to consider the perfect correlation
+                        # the first defined one to consider the perfect correlation
                         # between capacities in each LS
-                        if ls_id == limit_states[0]:
-                            anchor = None
-                        else:
+                        if block_i < len(anchor_rvs):
                             anchor = anchor_rvs[block_i]
+                        else:
+                            anchor = None
 
                         rv = uq.rv_class_map(family)(  # type: ignore
                             name=frg_rv_tag,
@@ -1569,7 +1569,7 @@ class DamageModel_DS(DamageModel_Base):
                         # add the RV to the set of correlated variables
                         frg_rv_set_tags[block_i].append(frg_rv_tag)
 
-                        if ls_id == limit_states[0]:
+                        if anchor is None:
                             anchor_rvs.append(rv)
 
                         # Now add the LS->DS assignments
-- 
2.43.0


From e61076725a203c2f01d8f68b559ae1ca451b8c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 31/72] fix: allow components without a demand expression next
 to ones with it

---
 pelicun/model/demand_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index df6b0e9..e68b914 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1291,6 +1291,9 @@ def _get_required_demand_type(
         # Utility Demand: if there is an `Expression`, then load the
         # rest of the demand types.
         expression = model_parameters.loc[cmp, :].get(('Demand', 'Expression'))
+        if pd.isna(expression):
+            # other components might have one
+            expression = None
         if expression is not None:
             # get the number of variables in the expression using
             # the numexpr library
-- 
2.43.0


From c00c4b16bce8a401226a3f096422c63a09bcd2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 32/72] fix: run damage process tasks in the order of their
 numbers

---
 pelicun/model/damage_model.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 149bce4..c7181ae 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -308,8 +308,11 @@ class DamageModel(PelicunModel):
         if dmg_process is not None:
             self.log.msg('Applying damage processes.')
 
-            # Sort the damage processes tasks
-            dmg_process = {key: dmg_process[key] for key in sorted(dmg_process)}
+            # Sort the damage processes tasks by the number in front
+            dmg_process = {
+                key: dmg_process[key]
+                for key in sorted(dmg_process, key=_damage_task_order)
+            }
 
             # Perform damage tasks in the sorted order
             for task in dmg_process.items():
@@ -2023,6 +2026,27 @@ class DamageModel_DS(DamageModel_Base):
         return res
 
 
+def _damage_task_order(task_key: str) -> tuple[float, str]:
+    """
+    Get the sort key of a damage process task.
+
+    Parameters
+    ----------
+    task_key: str
+        Key of the task in the damage process, e.g., `'1_CMP.A'`. The
+        number in the beginning defines the order of the tasks.
+
+    Returns
+    -------
+    tuple
+        Order of the task and its name. Tasks without a number come
+        last.
+
+    """
+    number = task_key.split('_')[0]
+    return (int(number) if number.isdigit() else np.inf, task_key)
+
+
 def _is_for_ds_model(data: pd.DataFrame) -> bool:
     """
     Check if data are for `ds_model`.
-- 
2.43.0


From 3c7b153b350f11d3650bede4bef521ab9849548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 33/72] fix: accept underscores in the component names of
 damage processes

---
 pelicun/model/damage_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index c7181ae..2aeac57 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1753,7 +1753,7 @@ class DamageModel_DS(DamageModel_Base):
             self.log.msg(f'Applying task {task}...', prepend_timestamp=True)
 
         # parse task
-        source_cmp = task[0].split('_')[1]  # source component
+        source_cmp = task[0].split('_', 1)[1]  # source component
         events = task[1]  # prescribed events
 
         # check for the `-LOC` suffix. If this is the case, we need to
@@ -1795,7 +1795,7 @@ class DamageModel_DS(DamageModel_Base):
 
             for target_info in target_infos:
                 # get the target component and event type
-                target_cmp, target_event = target_info.split('_')
+                target_cmp, target_event = target_info.rsplit('_', 1)
 
                 if (target_cmp != 'ALL') and (
                     target_cmp not in self.ds_sample.columns.get_level_values('cmp')
-- 
2.43.0


From 1466eed8462f1532b505e229a13e3914a58ab742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 34/72] fix: list all damage states when no limit state has
 weights

---
 pelicun/model/damage_model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 2aeac57..9ab5689 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1985,14 +1985,13 @@ class DamageModel_DS(DamageModel_Base):
                 # check if the given limit state is defined
                 if not pd.isna(cmp_data[ls, 'Theta_0']):
                     # check if there is only one damage state
-                    if pd.isna(cmp_data[ls, 'DamageStateWeights']):
+                    ds_weights = cmp_data.get((ls, 'DamageStateWeights'))
+                    if pd.isna(ds_weights):
                         ds_count += 1
 
                     else:
                         # or if there are more than one, how many
-                        ds_count += len(
-                            cmp_data[ls, 'DamageStateWeights'].split('|')
-                        )
+                        ds_count += len(ds_weights.split('|'))
 
             # get the list of valid cmp-loc-dir-uid sets
             if cmp_id not in damaged_components:
-- 
2.43.0


From 4a3246cc9913a62c8a797c0a40ac3c0ee2e16681 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 35/72] fix: apply economies of scale without aggregating
 across floors

The aggregated quantities had their levels in an order that the rest of the
calculation does not support, so the calculation failed unless quantities
were aggregated across floors. When aggregating across damage states, it
failed if one of the damage states with loss parameters did not occur.
---
 pelicun/model/loss_model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 2edf592..91024eb 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1966,8 +1966,8 @@ class RepairModel_DS(RepairModel_Base):
             eco_columns = ['cmp', 'loc']
 
         else:
-            eco_levels = [0, 1, 4]
-            eco_columns = ['cmp', 'loc', 'ds']
+            eco_levels = [0, 4, 1]
+            eco_columns = ['cmp', 'ds', 'loc']
 
         eco_group = dmg_quantities.T.groupby(level=eco_levels)
         eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
@@ -2065,6 +2065,10 @@ class RepairModel_DS(RepairModel_Base):
                 ):
                     loc_list = []
 
+                    # skip damage states that do not occur in the component
+                    if (component, ds) not in dmg_quantities.columns:
+                        continue
+
                     for loc_id, loc in enumerate(
                         dmg_quantities.loc[
                             :, (component, ds)  # type: ignore
@@ -2510,7 +2514,7 @@ class RepairModel_DS(RepairModel_Base):
                     result.columns = result.columns.droplevel('del')
 
                 # name the remaining column header levels
-                if eco_qnt.columns.names == ['cmp', 'ds', 'loc']:
+                if 'loc' in eco_qnt.columns.names:
                     result.columns.names = ['cmp', 'ds', 'loc']
                 else:
                     result.columns.names = ['cmp', 'ds']
-- 
2.43.0


From 91a432fde7f32d45a67260ba2425470e988fabc1 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 36/72] fix: leave undamaged quantities out of economies of
 scale

With AcrossDamageStates the quantity in the undamaged state was added to the
damaged quantity that determines the unit consequence.
---
 pelicun/model/loss_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 91024eb..bd77635 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1969,7 +1969,9 @@ class RepairModel_DS(RepairModel_Base):
             eco_levels = [0, 4, 1]
             eco_columns = ['cmp', 'ds', 'loc']
 
-        eco_group = dmg_quantities.T.groupby(level=eco_levels)
+        # the undamaged quantity does not contribute to economies of scale
+        damaged = dmg_quantities.columns.get_level_values('ds') != '0'
+        eco_group = dmg_quantities.loc[:, damaged].T.groupby(level=eco_levels)
         eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
         assert eco_qnt.columns.names == eco_columns
 
-- 
2.43.0


From 5cc0786b6d8ec36c334f28c5da26dcac51da004f Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 37/72] fix: allow damage states without a loss distribution
 next to ones with it

---
 pelicun/model/loss_model.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index bd77635..6ebdee0 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2043,9 +2043,12 @@ class RepairModel_DS(RepairModel_Base):
         for decision_variable in self.decision_variables:  # noqa: PLR1702
             if decision_variable in std_dvs:
                 assert isinstance(std_sample, pd.DataFrame)
-                prob_cmp_list = std_sample[decision_variable].columns.unique(level=0)
+                prob_cmp_ds_list = {
+                    (column[0], column[1])
+                    for column in std_sample[decision_variable].columns
+                }
             else:
-                prob_cmp_list = []
+                prob_cmp_ds_list = set()
 
             cmp_list: list[tuple[Any, ...]] = []
 
@@ -2089,7 +2092,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_ds_list:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
@@ -2110,7 +2113,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds, loc)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_ds_list:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
-- 
2.43.0


From af0d1af14b667cafdf9f54514fae00bd132c2609 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 38/72] fix: use the loss function of the consequence assigned
 by the loss map

Components with loss functions were evaluated with the loss function and the
demand of the consequence that has the same name as the component.
---
 pelicun/model/loss_model.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 6ebdee0..76f19bb 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2590,7 +2590,8 @@ class RepairModel_LF(RepairModel_Base):
         performance_group_dict = {}
         for (component, location, direction, uid), num_blocks in blocks.items():
             for decision_variable in self.decision_variables:
-                if (component, decision_variable) in self.missing:
+                loss_case = (loss_map[component], decision_variable)
+                if loss_case in self.missing:
                     continue
                 performance_group_dict[
                     (component, decision_variable), location, direction, uid
@@ -2610,10 +2611,15 @@ class RepairModel_LF(RepairModel_Base):
         )
         performance_group.index.names = ['cmp', 'loc', 'dir', 'uid']
 
+        # Each component uses the loss parameters of the consequence
+        # that the loss map assigns to it.
+        cases = performance_group.index.unique(level='cmp')
+        case_params = self.loss_params.loc[
+            [(loss_map[component], dv) for component, dv in cases]
+        ].set_axis(pd.MultiIndex.from_tuples(cases), axis=0)
+
         required_edps = base.invert_mapping(
-            _get_required_demand_type(
-                self.loss_params, performance_group, demand_offset
-            )
+            _get_required_demand_type(case_params, performance_group, demand_offset)
         )
 
         available_edps = (
@@ -2784,12 +2790,12 @@ class RepairModel_LF(RepairModel_Base):
         ), blocks in performance_group['Blocks'].items():
             consequence = loss_map[component]
             edp = required_edps[
-                (consequence, decision_variable), location, direction, uid
+                (component, decision_variable), location, direction, uid
             ]
             edp_values = demand_dict[edp]
             assert self.loss_params is not None
             loss_function_str = self.loss_params.loc[
-                (component, decision_variable), ('LossFunction', 'Theta_0')
+                (consequence, decision_variable), ('LossFunction', 'Theta_0')
             ]
             assert isinstance(loss_function_str, str)
             try:
-- 
2.43.0


From 898421736fd07e0fce044e83c6608d1a217a215d Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 39/72] fix: support the deterministic family in loss models

---
 pelicun/model/loss_model.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 76f19bb..c11ff3b 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2326,7 +2326,7 @@ class RepairModel_DS(RepairModel_Base):
                                     f'{ds}-{loc}-{direction}-{uid}'
                                 ),
                                 theta=np.array(ds_theta),
-                                truncation_limits=np.array([0.0, np.nan]),
+                                truncation_limits=_loss_truncation(ds_family),
                             )
                         )
                         rv_count += 1
@@ -2898,7 +2898,7 @@ class RepairModel_LF(RepairModel_Base):
                         f'{component}-{location}-{direction}-{uid}-{block}'
                     ),
                     theta=np.array(theta),
-                    truncation_limits=np.array([0.0, np.nan]),
+                    truncation_limits=_loss_truncation(family),
                 )
             )
             rv_count += 1
@@ -2938,6 +2938,27 @@ class RepairModel_LF(RepairModel_Base):
         return None
 
 
+def _loss_truncation(family: str) -> np.ndarray | None:
+    """
+    Get the truncation limits of a loss distribution.
+
+    Parameters
+    ----------
+    family: str
+        Family of the loss distribution.
+
+    Returns
+    -------
+    ndarray or None
+        Limits that rule out negative losses. Deterministic variables
+        do not support truncation.
+
+    """
+    if family == 'deterministic':
+        return None
+    return np.array([0.0, np.nan])
+
+
 def _prep_constant_median_DV(median: float) -> Callable:  # noqa: N802
     """
     Return a constant median Decision Variable (DV) function.
-- 
2.43.0


From 519caec6e51778e5f6eb50446e547a50020c2e60 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 40/72] fix: correlate cost and time of components with Cost in
 their names

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index c11ff3b..e9916a0 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2342,7 +2342,7 @@ class RepairModel_DS(RepairModel_Base):
                 loc = rv_tag.split('-')[3]
                 direction = rv_tag.split('-')[4]
                 uid = rv_tag.split('-')[5]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
@@ -2916,7 +2916,7 @@ class RepairModel_LF(RepairModel_Base):
                 direction = split[4]
                 uid = split[5]
                 block = split[6]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
-- 
2.43.0


From 2970b71acd337e5b3d2f2ccfdfc79db98609415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 41/72] fix: exclude other losses when replacement occurs

---
 pelicun/model/loss_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index e9916a0..c775ed5 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -918,10 +918,15 @@ class LossModel(PelicunModel):
 
         # levels to preserve (this aggregates `ds` for the ds_model)
         column_levels = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']
-        combined_sample = self.sample
-        sample = (
-            combined_sample.T.groupby(level=column_levels).sum().T.sort_index(axis=1)
+        # (using the copies, where `replacement` is exclusive)
+        combined_sample = pd.concat(
+            [
+                model_sample.T.groupby(level=column_levels).sum()
+                for model_sample in (ds_sample, lf_sample)
+                if model_sample is not None
+            ]
         )
+        sample = combined_sample.groupby(level=column_levels).sum().T.sort_index(axis=1)
 
         #
         # perform loss combinations (special non-additive
-- 
2.43.0


From 62f511a2f3dcefdfdd8739028cd037fb1352b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 42/72] fix: support decision variables without a replacement
 threshold

---
 pelicun/model/loss_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index c775ed5..5719e56 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1412,6 +1412,12 @@ class LossModel(PelicunModel):
 
         sample_dvs = replacement_consequence_rv_reg.RV.keys()
         for sample_dv in sample_dvs:
+            # Only the decision variables that have losses and an
+            # associated threshold can trigger replacement.
+            if sample_dv not in replacement_ratios or sample_dv not in (
+                sample.columns.get_level_values('dv')
+            ):
+                continue
             sub_sample = sample.loc[:, sample_dv]
             if 'replacement' in sub_sample.columns.get_level_values('loss'):
                 # If `replacement` already exists as a consequence,
-- 
2.43.0


From 6dfc52ca1ed1586ac5ad35d35679715ad5d2bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 43/72] fix: return the exceedance information when there are
 no losses

---
 pelicun/model/loss_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 5719e56..0a6a369 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -901,7 +901,10 @@ class LossModel(PelicunModel):
 
         if ds_sample is None and lf_sample is None:
             self.log.msg('There are no losses.')
-            return pd.DataFrame(0.00, index=[0], columns=_construct_columns())
+            df_agg = pd.DataFrame(0.00, index=[0], columns=_construct_columns())
+            if not future:
+                return df_agg
+            return df_agg, pd.DataFrame(index=df_agg.index, dtype=bool)
 
         #
         #  handle `replacement`, regardless of whether
-- 
2.43.0


From 92df8f4e2df7d563c420132d7a5739a20c298910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 44/72] fix: combine losses wherever the components are
 combinable

---
 pelicun/model/loss_model.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 0a6a369..0b56eb9 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1166,16 +1166,21 @@ class LossModel(PelicunModel):
             ) in combination_data.items():
                 # determine if the components to combine are part of
                 # an available group
-                target_group: dict | None = None
+                target_groups = []
                 for available_group in potential_groups[decision_variable]:
                     # check if `components_to_combine` is a subset of
                     # that available group
                     if frozenset(components_to_combine) <= available_group:
-                        target_group = available_group
-                        break
-                assert target_group is not None
+                        target_groups.append(available_group)
+                assert target_groups
                 # construct relevant loss sample columns
-                for loc_dir_uid in potential_groups[decision_variable][target_group]:
+                for loc_dir_uid in [
+                    loc_dir_uid
+                    for target_group in target_groups
+                    for loc_dir_uid in potential_groups[decision_variable][
+                        target_group
+                    ]
+                ]:
                     cols = [
                         (decision_variable, dmg_to_loss[x], x, *loc_dir_uid)
                         for x in components_to_combine
-- 
2.43.0


From a38e72bb33d7ed447d1966305ec497740d4c33ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 45/72] fix: combine the losses of more than two components

---
 pelicun/model/loss_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 0b56eb9..5c39106 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1311,9 +1311,14 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_array,
             ) in combination_data.items():
-                combination_index = (
-                    combination_array[:, 0],
-                    combination_array[0, :],
+                # domain of each component, where the others are at the
+                # start of theirs
+                num_components = combination_array.ndim
+                combination_index = tuple(
+                    np.moveaxis(combination_array, axis, 0)[
+                        (slice(None), *[0] * (num_components - 1))
+                    ]
+                    for axis in range(num_components)
                 )
                 loss_combination_converted[decision_variable][
                     components_to_combine
-- 
2.43.0


From 8059de81ae1c90afaf3c2af954f6c7b7210dfd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 46/72] fix: find the unit of decision variables in any letter
 case

---
 pelicun/model/loss_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 5c39106..66fb6bb 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1374,7 +1374,8 @@ class LossModel(PelicunModel):
             for x in df_agg.columns.get_level_values(0)
         ]
         assert self.dv_units is not None
-        column_units = [self.dv_units[x.title()] for x in column_measures]
+        dv_names = {x.lower(): x for x in self.decision_variables}
+        column_units = [self.dv_units[dv_names[x]] for x in column_measures]
         dv_units = pd.Series(column_units, index=df_agg.columns, name='Units')
         res = file_io.save_to_csv(
             df_agg,
-- 
2.43.0


From b73c42851f2a0c700dfb87f1acfe5c10634f3dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 47/72] fix: load loss samples without unique identifiers

---
 pelicun/model/loss_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 66fb6bb..ad8dd70 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1914,7 +1914,8 @@ class RepairModel_DS(RepairModel_Base):
         )
         assert isinstance(sample, pd.DataFrame)
         assert isinstance(units, pd.Series)
-        units.index.names = names
+        # (the `uid` level is optional)
+        units.index.names = names[: units.index.nlevels]
         # Obtain the DV units
         # Note: we don't need to check for consistency (all rows
         # having the same unit) since the units are extracted from a
-- 
2.43.0


From 84b472b40e6a8578d30419761ff380ba5e09cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 48/72] fix: mark the model data as installed after all files
 are downloaded

---
 pelicun/tools/dlml.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 013b228..4104d31 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -611,21 +611,25 @@ def download_data_files(  # noqa: C901
     # Get the model file list
     model_file_list_url = f'{get_raw_repo_url()}/{commit_sha}/model_files.txt'
 
+    # The model file list marks a complete installation. Keep it under a
+    # different name until all files are available.
     model_file_local_path = target_data_abs_dir / 'model_files.txt'
-    _download_file(model_file_list_url, str(model_file_local_path))
+    pending_list_path = target_data_abs_dir / 'model_files.txt.part'
+    _download_file(model_file_list_url, str(pending_list_path))
 
     logger.info('Successfully downloaded model file list.')
 
     # Read the model list and download model files
     try:
-        with model_file_local_path.open('r') as f:
-            files_to_download = [
-                line.strip()
-                for line in f
-                if line.strip() and not line.startswith('#')
-            ]
+        with pending_list_path.open('r') as f:
+            model_file_lines = f.readlines()
+        files_to_download = [
+            line.strip()
+            for line in model_file_lines
+            if line.strip() and not line.startswith('#')
+        ]
     except FileNotFoundError as e:
-        msg = f'Model file list not found at {model_file_local_path}'
+        msg = f'Model file list not found at {pending_list_path}'
         raise RuntimeError(msg) from e
     except Exception as e:
         msg = f'Error reading model file list: {e}'
@@ -697,6 +701,11 @@ def download_data_files(  # noqa: C901
 
             pbar.update(1)
 
+    # All files are available, put the model file list in place
+    with model_file_local_path.open('w') as f:
+        f.writelines(model_file_lines)
+    pending_list_path.unlink(missing_ok=True)
+
     # Save the new cache
     if use_cache:
         save_cache(str(cache_file), new_cache)
-- 
2.43.0


From 081cd49e54de5772d3c4735ffbb2c8587eaaec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 49/72] fix: drop the cache before files of another version are
 downloaded

---
 pelicun/tools/dlml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 4104d31..d82a1d1 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -656,6 +656,9 @@ def download_data_files(  # noqa: C901
         new_cache['version'] = cache_meta['version']
         new_cache['download_type'] = cache_meta['download_type']
 
+    # The cache does not describe the local files while they are changing
+    cache_file.unlink(missing_ok=True)
+
     # Count total files for progress reporting
     total_files = len(files_to_download)
     logger.info(f'Checking {total_files} files for updates.')
-- 
2.43.0


From 12cbe1fdf115d1f215ba32c6cd032229ce44d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 50/72] fix: do not rely on incomplete comparisons of data
 versions

---
 pelicun/tools/dlml.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index d82a1d1..f55ec38 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -65,6 +65,9 @@ logger = logging.getLogger('pelicun.dlml')
 # --- Module-level path constants ---
 PELICUN_ROOT_DIR = Path(__file__).resolve().parent.parent
 
+# The GitHub API lists at most this many files when it compares commits
+MAX_COMPARED_FILES = 300
+
 
 def get_api_repo_url() -> str:
     """
@@ -183,7 +186,8 @@ def _get_changed_files(
     Returns
     -------
     set[str] | None
-        A set of changed filenames, or None if the API call fails.
+        A set of changed filenames, or None if the API call fails or does not
+        provide all of them.
     """
     compare_url = f'{get_api_repo_url()}/compare/{base_commit}...{head_commit}'
 
@@ -206,7 +210,19 @@ def _get_changed_files(
             response.raise_for_status()
             compare_data = response.json()
 
-        return {file_info['filename'] for file_info in compare_data.get('files', [])}
+        changed_files = compare_data.get('files', [])
+
+        # The comparison does not include all changes if the histories have
+        # diverged or there are more files than GitHub lists.
+        if (
+            compare_data.get('status') == 'diverged'
+            or len(changed_files) >= MAX_COMPARED_FILES
+        ):
+            logger.warning('The commit comparison from GitHub is incomplete.')
+            logger.warning('Will proceed by re-downloading all necessary files.')
+            return None
+
+        return {file_info['filename'] for file_info in changed_files}
 
     except requests.exceptions.RequestException as e:
         logger.warning(f'Could not get commit comparison from GitHub API: {e}')
-- 
2.43.0


From 30b6766711300e7e9301a7e940ea5d668096e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 51/72] fix: keep downloaded files inside the data directory

---
 pelicun/tools/dlml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index f55ec38..4f3934d 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -651,6 +651,11 @@ def download_data_files(  # noqa: C901
         msg = f'Error reading model file list: {e}'
         raise RuntimeError(msg) from e
 
+    for file_path in files_to_download:
+        if Path(file_path).anchor or '..' in Path(file_path).parts:
+            msg = f'Model file is outside of the data directory: {file_path}'
+            raise RuntimeError(msg)
+
     if changed_files is not None:
         relevant_changed_files = {
             file for file in files_to_download if file in changed_files
-- 
2.43.0


From 517e72fa27196447aea2cbd6f6295eaacc67c4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 52/72] fix: treat any unreadable cache file as an empty cache

---
 pelicun/tools/dlml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 4f3934d..afb5e98 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -248,10 +248,11 @@ def load_cache(cache_file: Union[str, Path]) -> Dict[str, Any]:  # noqa: UP007,
     if path.exists():
         try:
             with path.open('r') as f:
-                return json.load(f)
-        except (OSError, json.JSONDecodeError):
+                cache_data = json.load(f)
+        except (OSError, ValueError):
             # If the cache file is corrupted, return an empty cache
             return {}
+        return cache_data if isinstance(cache_data, dict) else {}
     return {}
 
 
-- 
2.43.0


From 56cae635f6093fee8c287961e00acb2f1d69c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 53/72] fix: use the available data when the version check
 cannot be saved

---
 pelicun/tools/dlml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index afb5e98..e48dd70 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -839,6 +839,8 @@ def check_dlml_data() -> None:
 
         except (
             requests.exceptions.RequestException,
+            OSError,
+            AttributeError,
             ValueError,
             TypeError,
             KeyError,
-- 
2.43.0


From 3b231495ff5bb288a4f6c3046bd4de11cb833c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 54/72] fix: do not store branch names as the version of the
 data

---
 pelicun/tools/dlml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index e48dd70..cc8d226 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -668,8 +668,11 @@ def download_data_files(  # noqa: C901
     # Initialize cache for this commit if using caching
     if use_cache:
         # Keep track of files that should exist
+        # (a branch can move, it does not identify the data)
         new_cache = {
-            'commit_sha': commit_sha,
+            'commit_sha': (
+                commit_sha if re.fullmatch('[0-9a-fA-F]{7,64}', commit_sha) else None
+            ),
             'last_updated': datetime.now().isoformat(),  # noqa: DTZ005
             'files': {},
         }
-- 
2.43.0


From 07aa4172583bd0348fca93513853d56924850ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 55/72] fix: report zero losses for buildings without damage in
 regional_sim

---
 pelicun/tools/regional_sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 5769b10..10989ee 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -600,6 +600,8 @@ def process_buildings_chunk(
             'LogFile': 'pelicun_log.txt',
             'Verbose': True,
             'NonDirectionalMultipliers': {'ALL': 1.0},
+            # keep the buildings that are not damaged in any realization
+            'ListAllDamageStates': True,
         }
     )
 
-- 
2.43.0


From 8bce33a256de874c3d9b05a8611d8382a7685465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 56/72] fix: write the statistics as numbers in the JSON
 results

---
 pelicun/tools/DL_calculation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 5316584..c03c8cd 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1057,7 +1057,8 @@ def _create_json_files_if_requested(
                 axis=1,
             )
 
-            data = data.drop(units_key, axis=0)
+            # the units row makes the entire table load as text
+            data = data.drop(units_key, axis=0).astype(float)
 
             out_dict = convert_df_to_dict(data)
 
-- 
2.43.0


From 0e71ef474ddb65ef074b510aac690de8a83edabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 57/72] fix: remove the JSON results of earlier calculations

---
 pelicun/tools/DL_calculation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index c03c8cd..41f3bf6 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1548,7 +1548,7 @@ def _remove_existing_files(output_path: Path, known_output_files: list[str]) ->
         The path to the output folder where files are located.
     known_output_files : list of str
         A list of filenames that are expected to exist and should be
-        removed from the output folder.
+        removed from the output folder, together with their JSON versions.
 
     Raises
     ------
@@ -1561,8 +1561,10 @@ def _remove_existing_files(output_path: Path, known_output_files: list[str]) ->
     # Initialize the output folder - i.e., remove existing output files from
     # there
     files = os.listdir(output_path)
+    # every output file might also have a JSON version
+    known_json_files = [filename[:-3] + 'json' for filename in known_output_files]
     for filename in files:
-        if filename in known_output_files:
+        if filename in known_output_files or filename in known_json_files:
             try:
                 (output_path / filename).unlink()
             except OSError as exc:
-- 
2.43.0


From 1b642efe90a77d0202f936ccdeebc16c31d35ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:45 +0000
Subject: [PATCH 58/72] fix: do not request default outputs of calculations
 that are not run

---
 pelicun/tools/DL_calculation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 41f3bf6..6c11c2f 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -836,6 +836,12 @@ def _parse_config_file(  # noqa: C901, PLR0912
     if is_unspecified(config, 'DL/Outputs'):
         update(config, 'DL/Outputs', deepcopy(full_out_config))
 
+        # except for the outputs of calculations that are not requested
+        if is_unspecified(config, 'DL/Damage'):
+            update(config, 'DL/Outputs/Damage', {})
+        if is_unspecified(config, 'DL/Losses'):
+            update(config, 'DL/Outputs/Loss', {})
+
     # provide outputs in CSV by default
     if is_unspecified(config, 'DL/Outputs/Format'):
         update(config, 'DL/Outputs/Format', {'CSV': True, 'JSON': False})
-- 
2.43.0


From 2d91da8fae22f1fffbc4caea16303361173950f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:45 +0000
Subject: [PATCH 59/72] fix: leave tables without labels unchanged in
 convert_to_MultiIndex

---
 pelicun/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/base.py b/pelicun/base.py
index a64fe9e..15d5cf1 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -847,6 +847,10 @@ def convert_to_MultiIndex(  # noqa: N802
         msg = f'Invalid axis parameter: {axis}'
         raise ValueError(msg)
 
+    # there is nothing to convert without labels
+    if not index_labels:
+        return data
+
     max_lbl_len = np.max([len(labels) for labels in index_labels])
 
     for l_i, labels in enumerate(index_labels):
-- 
2.43.0


From 0d8227fc35eed2a577fe16f435103bc26630e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 60/72] fix: options of a request are kept when the
 auto-population script has none

---
 pelicun/tools/DL_calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 6c11c2f..3988d8c 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -759,6 +759,8 @@ def _parse_config_file(  # noqa: C901, PLR0912
             # extend options defined via the auto-population script to
             # include those in the original `config`
             config_ap['Applications']['DL']['ApplicationData'].pop('Options')
+            if is_unspecified(config_ap, 'DL/Options'):
+                update(config_ap, 'DL/Options', {})
             update_vals(
                 config_ap['DL']['Options'],
                 assessment_options,
-- 
2.43.0


From 1d108c6b9e333f3a6e5ae8195707f4e5a44ced9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 61/72] fix: accept whole numbers as collapse limits

---
 pelicun/assessment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index dee3fd0..eae9282 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -660,7 +660,7 @@ class DLCalculationAssessment(AssessmentBase):
 
             for dem_type, limit in collapse_limits.items():
                 assert isinstance(dem_type, str)
-                assert isinstance(limit, (str, float))
+                assert isinstance(limit, (str, float, int))
                 nlevels_with_event_id = 4
                 if raw_demands.columns.nlevels == nlevels_with_event_id:
                     dem_to_drop += raw_demands.loc[
-- 
2.43.0


From 39d3e0dae6ae3d9f646b4faf6c28b9d3ddfd59b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 62/72] fix: undefined replacement consequences are removed

---
 pelicun/assessment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index eae9282..d767a00 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1721,7 +1721,7 @@ def _loss__add_replacement_energy(
 
     else:
         # for everything else, remove this consequence
-        adf = adf.drop(ren)
+        adf.drop(ren, inplace=True)
 
 
 def _loss__add_replacement_carbon(
@@ -1782,7 +1782,7 @@ def _loss__add_replacement_carbon(
 
     else:
         # for everything else, remove this consequence
-        adf = adf.drop(rcarb)
+        adf.drop(rcarb, inplace=True)
 
 
 def _loss__add_replacement_time(
-- 
2.43.0


From c1df7055a62ad371887bb56a475aa8b7ad5c5c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 63/72] fix: repeated consequences are removed when looking up
 the replacement time

---
 pelicun/assessment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index d767a00..bf88804 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1348,8 +1348,9 @@ class DLCalculationAssessment(AssessmentBase):
             custom_model_dir,
         )
 
-        # remove duplicates from conseq_df
-        conseq_df = conseq_df.loc[conseq_df.index.unique(), :]
+        # remove duplicates from conseq_df, the last definition takes
+        # precedence (see `consequence_db`)
+        conseq_df = conseq_df.loc[~conseq_df.index.duplicated(keep='last'), :]
 
         # add the replacement consequence to the data
         adf = pd.DataFrame(
-- 
2.43.0


From 111a24e99d486f2db02430bf869e94e4663f46c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 64/72] fix: loss models that the user maps to collapse are
 kept

---
 pelicun/assessment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index bf88804..b816cd6 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1421,8 +1421,9 @@ class DLCalculationAssessment(AssessmentBase):
 
         # prepare additional loss map entries, if needed
         if 'DMG-collapse' not in loss_map.index:
-            loss_map.loc['collapse', 'Repair'] = 'replacement'
-            loss_map.loc['irreparable', 'Repair'] = 'replacement'
+            for driver in ('collapse', 'irreparable'):
+                if driver not in loss_map.index:
+                    loss_map.loc[driver, 'Repair'] = 'replacement'
 
         if decision_variables:
             self.loss.decision_variables = decision_variables
-- 
2.43.0


From b5161efcf77b1cfedeb596f2ac7ffa6c375ee936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 65/72] fix: a loss map can be used without a custom model
 folder

---
 pelicun/assessment.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index b816cd6..237249d 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1412,7 +1412,6 @@ class DLCalculationAssessment(AssessmentBase):
             )
 
         elif loss_map_approach == 'User Defined':
-            assert custom_model_dir is not None
             loss_map = _loss__map_user(custom_model_dir, loss_map_path)
 
         else:
@@ -1950,14 +1949,14 @@ def _loss__add_replacement_cost(
 
 
 def _loss__map_user(
-    custom_model_dir: str, loss_map_path: str | None = None
+    custom_model_dir: str | None, loss_map_path: str | None = None
 ) -> pd.DataFrame:
     """
     Load a user-defined loss map from a specified path.
 
     Parameters
     ----------
-    custom_model_dir : str
+    custom_model_dir : str or None
         Directory containing custom models.
     loss_map_path : str, optional
         Path to the loss map file. The path can include a placeholder
@@ -1972,11 +1971,22 @@ def _loss__map_user(
     Raises
     ------
     ValueError
-        If `loss_map_path` is not provided.
+        If `loss_map_path` is not provided, or if it includes
+        CustomDLDataFolder and `custom_model_dir` is not provided.
 
     """
     if loss_map_path is not None:
-        loss_map_path = loss_map_path.replace('CustomDLDataFolder', custom_model_dir)
+        if 'CustomDLDataFolder' in loss_map_path:
+            if custom_model_dir is None:
+                msg = (
+                    'When `loss_map_path` includes CustomDLDataFolder, '
+                    '`custom_model_dir` needs to be specified as well.'
+                )
+                raise ValueError(msg)
+
+            loss_map_path = loss_map_path.replace(
+                'CustomDLDataFolder', custom_model_dir
+            )
 
     else:
         msg = 'Missing loss map path.'
-- 
2.43.0


From 4d6dac1a1c1073dceabe5e9a7ab57bdd9521a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 66/72] fix: components without a direction are placed in the
 default direction

---
 pelicun/model/asset_model.py   | 4 +++-
 pelicun/model/pelicun_model.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 9dad7ba..7f0f379 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -348,7 +348,9 @@ class AssetModel(PelicunModel):
         index_list = []
         for row in marginal_params.itertuples():
             locs = self._get_locations(str(row.Location))
-            dirs = self._get_directions(str(row.Direction))
+            dirs = self._get_directions(
+                None if pd.isna(row.Direction) else str(row.Direction)
+            )
             indices = list(product((row.Index,), locs, dirs))
             num_vals = len(indices)
             for col, cmp_marginal_param in cmp_marginal_param_dct.items():
diff --git a/pelicun/model/pelicun_model.py b/pelicun/model/pelicun_model.py
index 767a8e1..99ddf11 100644
--- a/pelicun/model/pelicun_model.py
+++ b/pelicun/model/pelicun_model.py
@@ -404,7 +404,7 @@ class PelicunModel:
 
         """
         if pd.isna(dir_str):
-            return np.ones(1).astype(str)
+            return np.array(['1'])
 
         try:
             res = str(int(float(dir_str)))  # type: ignore
-- 
2.43.0


From 600547bdef24e414e02d305508cd85de690f6ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 67/72] fix: demand models without correlations can be loaded
 after they are saved

---
 pelicun/model/demand_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index e68b914..f9dfd41 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -908,7 +908,11 @@ class DemandModel(PelicunModel):
         else:
             self.empirical_data = None
 
-        if correlation_data_source is not None:
+        correlation = None
+        if isinstance(correlation_data_source, pd.DataFrame) or (
+            isinstance(correlation_data_source, str)
+            and Path(correlation_data_source).exists()
+        ):
             correlation = file_io.load_data(
                 correlation_data_source,
                 self._asmnt.unit_conversion_factors,
@@ -916,6 +920,9 @@ class DemandModel(PelicunModel):
                 log=self._asmnt.log,
             )
             assert isinstance(correlation, pd.DataFrame)
+
+        # There is no correlation if all demands are empirical
+        if correlation is not None and not correlation.empty:
             self.correlation = correlation
             self.correlation.index = self.correlation.index.set_names(
                 ['type', 'loc', 'dir']
-- 
2.43.0


From a40fa43deb9d8b7d782a77e9bde375251f940d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 68/72] fix: a new calibration does not keep the empirical data
 of an earlier one

---
 pelicun/model/demand_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f9dfd41..7c2c57c 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -730,6 +730,9 @@ class DemandModel(PelicunModel):
         assert isinstance(demand_sample, pd.DataFrame)
         if empirical_edps:
             self.empirical_data = demand_sample.loc[:, empirical_edps].copy()
+        else:
+            # there could be data from an earlier calibration
+            self.empirical_data = None
 
         # remove the empirical demands from the samples used for calibration
         demand_sample = demand_sample.drop(empirical_edps, axis=1)
-- 
2.43.0


From 12e72afba1eff45b65a629ff8c09d298e2bb5970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:22 +0000
Subject: [PATCH 69/72] fix: damage without repair consequences leaves no
 losses instead of stopping the calculation

---
 pelicun/model/loss_model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index ad8dd70..7c4a526 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2186,6 +2186,16 @@ class RepairModel_DS(RepairModel_Base):
                 ]
 
         lvl_names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
+
+        # none of the damage states that occurred have consequences
+        if not res_list:
+            self.sample = None
+            self.log.msg(
+                'There are no losses---DV sample is set to None.',
+                prepend_timestamp=False,
+            )
+            return
+
         dv_sample = pd.concat(res_list, axis=1, keys=key_list, names=lvl_names)
 
         dv_sample = dv_sample.fillna(0).convert_dtypes()
-- 
2.43.0


From 244a4f5b0baebc651c6e322464dc695d0479fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:24 +0000
Subject: [PATCH 70/72] fix: consequences that only another loss model defines
 do not stop the calculation

---
 pelicun/model/loss_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 7c4a526..c5a1cea 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2450,10 +2450,16 @@ class RepairModel_DS(RepairModel_Base):
                 if loss_cmp_id not in eco_qnt.columns.get_level_values(0).unique():
                     continue
 
+                # If loss parameters are missing for that consequence,
+                # for this particular loss model, they will exist in
+                # the other(s).
+                assert self.loss_params is not None
+                if (loss_cmp_name, decision_variable) not in self.loss_params.index:
+                    continue
+
                 ds_list = []
                 sub_medians = []
 
-                assert self.loss_params is not None
                 for ds in self.loss_params.columns.get_level_values(0).unique():
                     if not ds.startswith('DS'):
                         continue
-- 
2.43.0


From f686fb676a4bbbcd55c4fe49503f78ff05909064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:58 +0000
Subject: [PATCH 71/72] fix: loss samples are saved also if some consequences
 did not occur

---
 pelicun/model/loss_model.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index c5a1cea..cb2fcd5 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -741,11 +741,15 @@ class LossModel(PelicunModel):
             index=self.sample.columns, name='Units', dtype='object'
         ).sort_index()
 
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
+        valid_ids = set(
+            zip(
+                dv_units.index.get_level_values(0),
+                dv_units.index.get_level_values(1),
+            )
+        )
 
         for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
+            if (dv_type, cmp_id) in valid_ids:
                 dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
 
         res = file_io.save_to_csv(
@@ -1848,11 +1852,15 @@ class RepairModel_DS(RepairModel_Base):
             index=self.sample.columns, name='Units', dtype='object'
         ).sort_index()
 
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
+        valid_ids = set(
+            zip(
+                dv_units.index.get_level_values(0),
+                dv_units.index.get_level_values(1),
+            )
+        )
 
         for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
+            if (dv_type, cmp_id) in valid_ids:
                 dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
 
         res = file_io.save_to_csv(
-- 
2.43.0


From 45401dd5d7d4a03e7ff8764b6769a9f551134d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:22 +0000
Subject: [PATCH 72/72] fix: losses can be calculated with loss functions only

---
 pelicun/model/loss_model.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index cb2fcd5..d74deaa 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2327,8 +2327,11 @@ class RepairModel_DS(RepairModel_Base):
                 # If loss parameters are missing for that consequence,
                 # for this particular loss model, they will exist in
                 # the other(s).
-                assert self.loss_params is not None
-                if (consequence, decision_variable) not in self.loss_params.index:
+                if (
+                    self.loss_params is None
+                    or (consequence, decision_variable)
+                    not in self.loss_params.index
+                ):
                     continue
 
                 # load the corresponding parameters
@@ -2461,8 +2464,11 @@ class RepairModel_DS(RepairModel_Base):
                 # If loss parameters are missing for that consequence,
                 # for this particular loss model, they will exist in
                 # the other(s).
-                assert self.loss_params is not None
-                if (loss_cmp_name, decision_variable) not in self.loss_params.index:
+                if (
+                    self.loss_params is None
+                    or (loss_cmp_name, decision_variable)
+                    not in self.loss_params.index
+                ):
                     continue
 
                 ds_list = []
-- 
2.43.0

