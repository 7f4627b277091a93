From 46c47cfa75ca2d41da1fca81c111c4e7079240bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 01/52] fix: previous duration counts only the trailing run of
 previous values

---
 flixOpt/features.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index f05d7d2..f02901d 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -603,7 +603,9 @@ class OnOffModel(ElementModel):
 
         # Find the indexes where value=`0` in a 1D-array
         zero_indices = np.where(np.isclose(binary_values, 0, atol=CONFIG.modeling.EPSILON))[0]
-        length_of_last_duration = zero_indices[-1] + 1 if zero_indices.size > 0 else len(binary_values)
+        length_of_last_duration = len(binary_values) - 1 - zero_indices[-1] if zero_indices.size > 0 else len(binary_values)
+        if length_of_last_duration == 0:
+            return 0
 
         if not np.isscalar(binary_values) and np.isscalar(dt_in_hours):
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours)
@@ -612,7 +614,7 @@ class OnOffModel(ElementModel):
             if length_of_last_duration > len(dt_in_hours):  # check that lengths are compatible
                 raise TypeError(
                     f'When trying to calculate the consecutive duration, the length of the last duration '
-                    f'({len(length_of_last_duration)}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
+                    f'({length_of_last_duration}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
                     f'as {binary_values=}'
                 )
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours[-length_of_last_duration:])
-- 
2.43.0


From 06993456fcec5ea8cad93684c1ffc0546ee127e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 02/52] fix: scalar previous flow rates of a component describe
 one previous time step

---
 flixOpt/features.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index f02901d..32077f5 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -563,11 +563,8 @@ class OnOffModel(ElementModel):
         if not previous_values:
             return np.array([0])
         else:  # Convert to 2D-array and compute binary on/off states
-            previous_values = np.array(previous_values)
-            if previous_values.ndim > 1:
-                return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
-            else:
-                return (~np.isclose(previous_values, 0, atol=epsilon)).astype(int)
+            previous_values = np.array([np.atleast_1d(values) for values in previous_values])
+            return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
 
     @classmethod
     def get_consecutive_duration(
-- 
2.43.0


From a03e8761f457893fdd52124d344d2ebd841bd627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 03/52] fix: sum over a subset of indices of a variable

---
 flixOpt/math_modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 4fe7d70..086098b 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1129,7 +1129,7 @@ class PyomoModel(ModelingLanguage):
     def _summand_math_expression(self, summand: Summand, at_index: int = 0) -> 'pyo.Expression':
         pyomo_variable = self.mapping[summand.variable]
         if isinstance(summand, SumOfSummand):
-            return sum(pyomo_variable[summand.indices[j]] * summand.factor_vec[j] for j in summand.indices)
+            return sum(pyomo_variable[index] * factor for index, factor in zip(summand.indices, summand.factor_vec, strict=True))
 
         # Ausdruck für i-te Gleichung (falls Skalar, dann immer gleicher Ausdruck ausgegeben)
         if summand.length == 1:
-- 
2.43.0


From ee341f31a6c851b568a5d1d2798a3f7f46097691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 04/52] fix: 'lastValueOfSim' equates the initial charge state
 with the final one

---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index c716551..6a559ef 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -496,7 +496,7 @@ class StorageModel(ComponentModel):
             elif self.element.initial_charge_state == 'lastValueOfSim':
                 # eq: Q_Ladezustand(1) - Q_Ladezustand(end) = 0;
                 eq_initial.add_summand(self.charge_state, 1, system_model.indices[0])
-                eq_initial.add_summand(self.charge_state, -1, system_model.indices[-1])
+                eq_initial.add_summand(self.charge_state, -1, indices_charge_state[-1])
             else:
                 raise Exception(f'initial_charge_state has undefined value: {self.element.initial_charge_state}')
                 # TODO: Validation in Storage Class, not in Model
-- 
2.43.0


From b51a1666b9d6ff65e4aa9c1c265d70be8f853314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 05/52] fix: final charge state limits apply to storages with a
 free initial charge state

---
 flixOpt/components.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 6a559ef..af61abe 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -480,9 +480,8 @@ class StorageModel(ComponentModel):
             self.sub_models.append(self._investment)
             self._investment.do_modeling(system_model)
 
-        # Initial charge state
-        if self.element.initial_charge_state is not None:
-            self._model_initial_and_final_charge_state(system_model)
+        # Initial and final charge state
+        self._model_initial_and_final_charge_state(system_model)
 
     def _model_initial_and_final_charge_state(self, system_model):
         indices_charge_state = range(system_model.indices.start, system_model.indices.stop + 1)  # additional
-- 
2.43.0


From 68a84c1006b7e73166e4bb58f5d50a54e1c25ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 06/52] fix: an optional investment with a lower bound is not
 forced

---
 flixOpt/components.py | 8 +++++++-
 flixOpt/elements.py   | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index af61abe..dd5963a 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -523,8 +523,14 @@ class StorageModel(ComponentModel):
                 relative_upper_bound * self.element.capacity_in_flow_hours,
             )
         else:
+            # An optional investment must be able to stay away: its lower bound is modeled by the InvestmentModel
             return (
-                relative_lower_bound * self.element.capacity_in_flow_hours.minimum_size,
+                relative_lower_bound
+                * (
+                    0
+                    if self.element.capacity_in_flow_hours.optional
+                    else self.element.capacity_in_flow_hours.minimum_size
+                ),
                 relative_upper_bound * self.element.capacity_in_flow_hours.maximum_size,
             )
 
diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index e2402d6..46ebc76 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -307,7 +307,9 @@ class FlowModel(ElementModel):
             'flow_rate',
             self,
             system_model.nr_of_time_steps,
-            lower_bound=self.absolute_flow_rate_bounds[0] if self.element.on_off_parameters is None else 0,
+            lower_bound=self.absolute_flow_rate_bounds[0]
+            if self.element.on_off_parameters is None and not (self.with_investment and self.element.size.optional)
+            else 0,
             upper_bound=self.absolute_flow_rate_bounds[1] if self.element.on_off_parameters is None else None,
             previous_values=self.element.previous_flow_rate,
         )
-- 
2.43.0


From 26e5b41bbfc85315eade2967b18acf2d7e5ce6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 07/52] fix: a size of 0 is not replaced by the default size

---
 flixOpt/elements.py  | 2 +-
 flixOpt/features.py  | 4 ++--
 flixOpt/interface.py | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 46ebc76..4c0ea99 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -217,7 +217,7 @@ class Flow(Element):
             previous flow rate of the component.
         """
         super().__init__(label, meta_data=meta_data)
-        self.size = size or CONFIG.modeling.BIG  # Default size
+        self.size = size if size is not None else CONFIG.modeling.BIG  # Default size
         self.relative_minimum = relative_minimum
         self.relative_maximum = relative_maximum
         self.fixed_relative_profile = fixed_relative_profile
diff --git a/flixOpt/features.py b/flixOpt/features.py
index 32077f5..d2e9f86 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -60,7 +60,7 @@ class InvestmentModel(ElementModel):
 
     def do_modeling(self, system_model: SystemModel):
         invest_parameters = self._invest_parameters
-        if invest_parameters.fixed_size and not invest_parameters.optional:
+        if invest_parameters.fixed_size is not None and not invest_parameters.optional:
             self.size = create_variable('size', self, 1, fixed_value=invest_parameters.fixed_size)
         else:
             lower_bound = 0 if invest_parameters.optional else invest_parameters.minimum_size
@@ -117,7 +117,7 @@ class InvestmentModel(ElementModel):
             self._segments.do_modeling(system_model)
 
     def _create_bounds_for_optional_investment(self, system_model: SystemModel):
-        if self._invest_parameters.fixed_size:
+        if self._invest_parameters.fixed_size is not None:
             # eq: investment_size = isInvested * fixed_size
             eq_is_invested = create_equation('is_invested', self, 'eq')
             eq_is_invested.add_summand(self.size, -1)
diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index 17ac02b..fbf7c8f 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -76,7 +76,7 @@ class InvestParameters(Interface):
         self.specific_effects: EffectValuesInvest = specific_effects or {}
         self.effects_in_segments = effects_in_segments
         self._minimum_size = minimum_size
-        self._maximum_size = maximum_size or CONFIG.modeling.BIG  # default maximum
+        self._maximum_size = maximum_size if maximum_size is not None else CONFIG.modeling.BIG  # default maximum
 
     def transform_data(self):
         from .effects import as_effect_dict
@@ -87,11 +87,11 @@ class InvestParameters(Interface):
 
     @property
     def minimum_size(self):
-        return self.fixed_size or self._minimum_size
+        return self.fixed_size if self.fixed_size is not None else self._minimum_size
 
     @property
     def maximum_size(self):
-        return self.fixed_size or self._maximum_size
+        return self.fixed_size if self.fixed_size is not None else self._maximum_size
 
 
 class OnOffParameters(Interface):
-- 
2.43.0


From 0a5322c1e894c4e67c879f8a0d56e295febceff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 08/52] fix: accept arrays as effects per switch on and per
 running hour

---
 flixOpt/interface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index fbf7c8f..d782acd 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -139,8 +139,12 @@ class OnOffParameters(Interface):
         force_switch_on : bool
             force creation of switch on variable, even if there is no switch_on_total_max
         """
-        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = effects_per_switch_on or {}
-        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = effects_per_running_hour or {}
+        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_switch_on if effects_per_switch_on is not None else {}
+        )
+        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_running_hour if effects_per_running_hour is not None else {}
+        )
         self.on_hours_total_min: Skalar = on_hours_total_min
         self.on_hours_total_max: Skalar = on_hours_total_max
         self.consecutive_on_hours_min: Numeric_TS = consecutive_on_hours_min
-- 
2.43.0


From 713e7603811535a0eccc615f45f3d218d2c6101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 09/52] fix: do not remove the standard effect from the user's
 effect dict

---
 flixOpt/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 1b359b8..db8e2e2 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -218,7 +218,7 @@ def effect_values_to_time_series(
     if nested_values is None:
         return None
     else:
-        standard_value = nested_values.pop(None, None)
+        standard_value = nested_values.get(None)  # None is skipped in nested_values_to_time_series()
         transformed_values = nested_values_to_time_series(nested_values, label_suffix, parent_element)
         if standard_value is not None:
             transformed_values[None] = _create_time_series(
-- 
2.43.0


From 0b13ebfbd3a7b15eda2df65cf715daee0a4e8531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 10/52] fix: Transmission with absolute losses of 0 needs no on
 variable

---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index dd5963a..4731261 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -364,7 +364,7 @@ class TransmissionModel(ComponentModel):
         efficiency = 1 if self.element.relative_losses is None else (1 - self.element.relative_losses.active_data)
         eq_transmission.add_summand(in_flow.model.flow_rate, efficiency)
         eq_transmission.add_summand(out_flow.model.flow_rate, -1)
-        if self.element.absolute_losses is not None:
+        if self.element.absolute_losses is not None and in_flow.model._on is not None:
             eq_transmission.add_summand(in_flow.model._on.on, -1 * self.element.absolute_losses.active_data)
         return eq_transmission
 
-- 
2.43.0


From b802b5cefbe896db68af58ee0c2c27931d20a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 11/52] fix: results() of a calculation that is solved again
 are not outdated

---
 flixOpt/calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 5a7a16f..a405361 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -165,6 +165,7 @@ class FullCalculation(Calculation):
         self._define_path_names(save_results)
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
+        self._results = None  # Results of a prior solve are outdated
         self.system_model.solve(solver)
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
@@ -295,6 +296,7 @@ class AggregatedCalculation(Calculation):
         self._define_path_names(save_results)
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
+        self._results = None  # Results of a prior solve are outdated
         self.system_model.solve(solver)
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
-- 
2.43.0


From e8683246aaa48164dcf3b9fd610600a705220481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 12/52] fix: SegmentedCalculation respects its time_indices

---
 flixOpt/calculation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index a405361..2bc1c53 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -375,7 +375,7 @@ class SegmentedCalculation(Calculation):
             if self.sub_calculations:
                 self._transfer_start_values(name_of_segment)
             time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices.start}...{time_indices.stop - 1}):')
+            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
             calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
             # TODO: Add Before Values if available
             self.sub_calculations.append(calculation)
@@ -507,9 +507,10 @@ class SegmentedCalculation(Calculation):
             if isinstance(comp, Storage):
                 comp.initial_charge_state = self._original_start_values[comp]
 
-    def _get_indices(self, segment_index: int) -> range:
+    def _get_indices(self, segment_index: int) -> Union[range, List[int]]:
+        time_indices = range(self._total_length) if self.time_indices is None else self.time_indices
         start = segment_index * self.segment_length
-        return range(start, min(start + self.segment_length + self.overlap_length, self._total_length))
+        return time_indices[start : min(start + self.segment_length + self.overlap_length, self._total_length)]
 
     @property
     def segment_length_with_overlap(self):
-- 
2.43.0


From 5924396f4c525bcac289d2de3eedb76585c1868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 13/52] fix: start values of a segment if the overlap of the
 prior segment was cut off

---
 flixOpt/calculation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 2bc1c53..0e5c52d 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -485,7 +485,8 @@ class SegmentedCalculation(Calculation):
         This function gets the last values of the previous solved segment and
         inserts them as start values for the nest segment
         """
-        final_index_of_prior_segment = -(1 + self.overlap_length)
+        # The overlap of the prior segment might have been cut off, so count from the start
+        final_index_of_prior_segment = self.segment_length - 1
         start_values_of_this_segment = {}
         for flow in self.flow_system.flows.values():
             flow.previous_flow_rate = flow.model.flow_rate.result[
@@ -494,7 +495,7 @@ class SegmentedCalculation(Calculation):
             start_values_of_this_segment[flow.label_full] = flow.previous_flow_rate
         for comp in self.flow_system.components.values():
             if isinstance(comp, Storage):
-                comp.initial_charge_state = comp.model.charge_state.result[final_index_of_prior_segment]
+                comp.initial_charge_state = comp.model.charge_state.result[final_index_of_prior_segment + 1]
                 start_values_of_this_segment[comp.label_full] = comp.initial_charge_state
 
         self._transfered_start_values[segment_name] = start_values_of_this_segment
-- 
2.43.0


From 426ee86fb9b70de71e01ec509fd1ef5d4b21bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 14/52] fix: restore the start values if a segment of a
 SegmentedCalculation fails

---
 flixOpt/calculation.py | 47 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 0e5c52d..5a0449a 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -370,29 +370,30 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
 
-        for i in range(self.number_of_segments):
-            name_of_segment = f'Segment_{i + 1}'
-            if self.sub_calculations:
-                self._transfer_start_values(name_of_segment)
-            time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
-            calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
-            # TODO: Add Before Values if available
-            self.sub_calculations.append(calculation)
-            calculation.do_modeling()
-            invest_elements = [
-                model.element.label_full
-                for model in calculation.system_model.sub_models
-                if isinstance(model, InvestmentModel)
-            ]
-            if invest_elements:
-                logger.critical(
-                    f'Investments are not supported in Segmented Calculation! '
-                    f'Following elements Contain Investments: {invest_elements}'
-                )
-            calculation.solve(solver, save_results=False)
-
-        self._reset_start_values()
+        try:
+            for i in range(self.number_of_segments):
+                name_of_segment = f'Segment_{i + 1}'
+                if self.sub_calculations:
+                    self._transfer_start_values(name_of_segment)
+                time_indices = self._get_indices(i)
+                logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
+                calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
+                # TODO: Add Before Values if available
+                self.sub_calculations.append(calculation)
+                calculation.do_modeling()
+                invest_elements = [
+                    model.element.label_full
+                    for model in calculation.system_model.sub_models
+                    if isinstance(model, InvestmentModel)
+                ]
+                if invest_elements:
+                    logger.critical(
+                        f'Investments are not supported in Segmented Calculation! '
+                        f'Following elements Contain Investments: {invest_elements}'
+                    )
+                calculation.solve(solver, save_results=False)
+        finally:  # Also if a segment could not be solved
+            self._reset_start_values()
 
         for calc in self.sub_calculations:
             for key, value in calc.durations.items():
-- 
2.43.0


From 892cd2cb30d0867e95a59610e4de5a2438cf92f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 15/52] fix: reject different buses with the same label

---
 flixOpt/flow_system.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 42c2fbe..35ad69f 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -80,6 +80,7 @@ class FlowSystem:
         for new_component in new_components:
             logger.info(f'Registered new Component: {new_component.label}')
             self._check_if_element_is_unique(new_component)  # check if already exists:
+            self._check_if_buses_are_unique(new_component)
             new_component.register_component_in_flows()  # Komponente in Flow registrieren
             new_component.register_flows_in_bus()  # Flows in Bus registrieren:
             self.components[new_component.label] = new_component  # Add to existing components
@@ -225,6 +226,20 @@ class FlowSystem:
         if element.label_full in self.all_elements:
             raise Exception(f'Label of Element {element.label} already used in another element!')
 
+    def _check_if_buses_are_unique(self, component: Component) -> None:
+        """
+        checks that the label of every bus used by a component identifies exactly one bus
+
+        Parameters
+        ----------
+        component : Component
+            new component to check
+        """
+        buses = self.buses
+        for flow in component.inputs + component.outputs:
+            if buses.setdefault(flow.bus.label, flow.bus) is not flow.bus:
+                raise Exception(f'Label of Bus {flow.bus.label} already used by another Bus!')
+
     def get_time_data_from_indices(
         self, time_indices: Optional[Union[List[int], range]] = None
     ) -> Tuple[np.ndarray, np.ndarray, np.ndarray, np.float64]:
-- 
2.43.0


From b270418ad4184bd543d568626bd41556da373410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 16/52] fix: last_time_step_hours is given in hours for every
 unit of the time series

---
 flixOpt/flow_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 35ad69f..bf4f3dd 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -52,6 +52,8 @@ class FlowSystem:
         if self.time_series.dtype == np.dtype('datetime64[ns]'):
             self.time_series = self.time_series.astype('datetime64[us]')
 
+        if isinstance(last_time_step_hours, (int, float)):  # hours, independent of the unit of the time_series
+            last_time_step_hours = np.timedelta64(round(last_time_step_hours * 3600 * 1e6), 'us')
         self.last_time_step_hours = (
             self.time_series[-1] - self.time_series[-2] if last_time_step_hours is None else last_time_step_hours
         )
-- 
2.43.0


From 9b52b1f42d356074064b70be901d347668bd8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 17/52] fix: save calculations with a daily time series

---
 flixOpt/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 1196e75..ed7d780 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -7,7 +7,7 @@ import inspect
 import json
 import logging
 import pathlib
-from datetime import datetime
+from datetime import date
 from io import StringIO
 from typing import TYPE_CHECKING, Any, Dict, List, Literal, Optional, Union
 
@@ -610,7 +610,7 @@ def copy_and_convert_datatypes(data: Any, use_numpy: bool = True, use_element_la
 
     elif isinstance(data, (int, float, str, bool, type(None))):
         return data
-    elif isinstance(data, datetime):
+    elif isinstance(data, date):  # Includes datetime
         return data.isoformat()
 
     elif isinstance(data, (tuple, set)):
-- 
2.43.0


From dffede46f2cdf31a192a23de4b98432ef79ab8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 18/52] fix: accept TimeSeriesData as relative_minimum and
 relative_maximum of a Flow

---
 flixOpt/elements.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 4c0ea99..9cfdac8 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -8,7 +8,7 @@ from typing import Dict, List, Optional, Tuple, Union
 import numpy as np
 
 from .config import CONFIG
-from .core import Numeric, Numeric_TS, Skalar
+from .core import Numeric, Numeric_TS, Skalar, TimeSeriesData
 from .effects import EffectValues, effect_values_to_time_series
 from .features import InvestmentModel, OnOffModel, PreventSimultaneousUsageModel
 from .interface import InvestParameters, OnOffParameters
@@ -258,7 +258,11 @@ class Flow(Element):
 
     def _plausibility_checks(self) -> None:
         # TODO: Incorporate into Variable? (Lower_bound can not be greater than upper bound
-        if np.any(self.relative_minimum > self.relative_maximum):
+        relative_minimum, relative_maximum = (
+            value.data if isinstance(value, TimeSeriesData) else value
+            for value in (self.relative_minimum, self.relative_maximum)
+        )
+        if np.any(np.greater(relative_minimum, relative_maximum)):
             raise Exception(self.label_full + ': Take care, that relative_minimum <= relative_maximum!')
 
         if (
-- 
2.43.0


From f1a0caad40d116459ceb1b69b040f96620f701f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 19/52] fix: accept TimeSeriesData in CHP, HeatPumpWithSource
 and CoolingTower

---
 flixOpt/linear_converters.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flixOpt/linear_converters.py b/flixOpt/linear_converters.py
index 65e6e88..80ba02f 100644
--- a/flixOpt/linear_converters.py
+++ b/flixOpt/linear_converters.py
@@ -167,7 +167,7 @@ class CoolingTower(LinearConverter):
             label,
             inputs=[P_el, Q_th],
             outputs=[],
-            conversion_factors=[{P_el: 1, Q_th: -specific_electricity_demand}],
+            conversion_factors=[{P_el: -1, Q_th: specific_electricity_demand}],
             on_off_parameters=on_off_parameters,
             meta_data=meta_data,
         )
@@ -232,7 +232,8 @@ class CHP(LinearConverter):
 
         check_bounds(eta_th, 'eta_th', self.label_full, 0, 1)
         check_bounds(eta_el, 'eta_el', self.label_full, 0, 1)
-        check_bounds(eta_el + eta_th, 'eta_th+eta_el', self.label_full, 0, 1)
+        eta_total = sum(eta.data if isinstance(eta, TimeSeriesData) else eta for eta in (eta_el, eta_th))
+        check_bounds(eta_total, 'eta_th+eta_el', self.label_full, 0, 1)
 
 
 class HeatPumpWithSource(LinearConverter):
@@ -265,7 +266,11 @@ class HeatPumpWithSource(LinearConverter):
 
         # super:
         electricity = {P_el: COP, Q_th: 1}
-        heat_source = {Q_ab: COP / (COP - 1), Q_th: 1}
+        if isinstance(COP, TimeSeriesData):
+            source_factor = TimeSeriesData(COP.data / (COP.data - 1), COP.agg_group, COP.agg_weight)
+        else:
+            source_factor = COP / (COP - 1)
+        heat_source = {Q_ab: source_factor, Q_th: 1}
 
         super().__init__(
             label,
-- 
2.43.0


From 2b14249d451f9f622d54f00dac6eab04fe40369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 20/52] fix: merge a partial user config with the default
 config

---
 flixOpt/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flixOpt/config.py b/flixOpt/config.py
index 5ba7dec..09aecc2 100644
--- a/flixOpt/config.py
+++ b/flixOpt/config.py
@@ -102,14 +102,16 @@ class CONFIG:
         # Default config file
         default_config_path = os.path.join(os.path.dirname(__file__), 'config.yaml')
 
+        with open(default_config_path, 'r') as file:
+            new_config = yaml.safe_load(file)
+
         if user_config_file is None:
-            with open(default_config_path, 'r') as file:
-                new_config = yaml.safe_load(file)
+            pass
         elif not os.path.exists(user_config_file):
             raise FileNotFoundError(f'Config file not found: {user_config_file}')
         else:
             with open(user_config_file, 'r') as user_file:
-                new_config = yaml.safe_load(user_file)
+                new_config = merge_configs(new_config, yaml.safe_load(user_file) or {})
 
         # Convert the merged config to ConfigSchema
         config_data = dataclass_from_dict_with_validation(ConfigSchema, new_config)
-- 
2.43.0


From ab45c07136343de7c3feddab7724ae69dcdd0630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 21/52] fix: time series of segmented conversion factors have
 unique labels

---
 flixOpt/components.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 4731261..8b6006b 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -100,10 +100,10 @@ class LinearConverter(Component):
             for flow, segments in self.segmented_conversion_factors.items():
                 segmented_conversion_factors[flow] = [
                     (
-                        _create_time_series('Stuetzstelle', segment[0], self),
-                        _create_time_series('Stuetzstelle', segment[1], self),
+                        _create_time_series(f'{flow.label}_Stuetzstelle_{i}_0', segment[0], self),
+                        _create_time_series(f'{flow.label}_Stuetzstelle_{i}_1', segment[1], self),
                     )
-                    for segment in segments
+                    for i, segment in enumerate(segments)
                 ]
             self.segmented_conversion_factors = segmented_conversion_factors
 
-- 
2.43.0


From 10d5c65a90116cbb28c36e2081dd4a1782e43b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 22/52] fix: aggregation without periods to equate needs no
 equations

---
 flixOpt/aggregation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index d2869d9..027cf32 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -388,11 +388,13 @@ class AggregationModel(ElementModel):
 
     def equate_indices(
         self, variable: Variable, indices: Tuple[np.ndarray, np.ndarray], system_model: SystemModel
-    ) -> Equation:
+    ) -> Optional[Equation]:
         # Gleichung:
         # eq1: x(p1,t) - x(p3,t) = 0 # wobei p1 und p3 im gleichen Cluster sind und t = 0..N_p
         length = len(indices[0])
         assert len(indices[0]) == len(indices[1]), 'The length of the indices must match!!'
+        if length == 0:  # No period is represented by another one
+            return
 
         eq = create_equation(f'Equate_indices_of_{variable.label}', self)
         eq.add_summand(variable, 1, indices_of_variable=indices[0])
-- 
2.43.0


From 8797fccae7cf61bde19e4df38b48193e31cda641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 23/52] fix: label the 15 minute steps of a heat map with hour
 and minute

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index b377114..77785cb 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -565,7 +565,7 @@ def heat_map_data_from_df(
         ('W', 'D'): ('%Y-w%W', '%w_%A'),  # week and day of week (with prefix for proper sorting)
         ('W', 'h'): ('%Y-w%W', '%w_%A %H:00'),
         ('D', 'h'): ('%Y-%m-%d', '%H:00'),  # Day and hour
-        ('D', '15min'): ('%Y-%m-%d', '%H:%MM'),  # Day and hour
+        ('D', '15min'): ('%Y-%m-%d', '%H:%M'),  # Day and hour
         ('h', '15min'): ('%Y-%m-%d %H:00', '%M'),  # minute of hour
         ('h', 'min'): ('%Y-%m-%d %H:00', '%M'),  # minute of hour
     }
-- 
2.43.0


From 41dab89744b2e002a2d186bd1f3d8fc8e5fbdcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 24/52] fix: round binary results of the solver instead of
 truncating them

---
 flixOpt/math_modeling.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 086098b..3cd7f82 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1012,12 +1012,10 @@ class PyomoModel(ModelingLanguage):
         math_model.result_of_objective = self.model.objective.expr()
         for variable in math_model.variables:
             raw_results = self.mapping[variable].get_values().values()  # .values() of dict, because {0:0.1, 1:0.3,...}
-            if variable.is_binary:
-                dtype = np.int8  # geht das vielleicht noch kleiner ???
-            else:
-                dtype = float
             # transform to np-array (fromiter() is 5-7x faster than np.array(list(...)) )
-            result = np.fromiter(raw_results, dtype=dtype)
+            result = np.fromiter(raw_results, dtype=float)
+            if variable.is_binary:  # Solvers return binaries within a tolerance, so don't truncate (0.9999999 -> 0)
+                result = np.rint(result).astype(np.int8)  # geht das vielleicht noch kleiner ???
             # Falls skalar:
             if len(result) == 1:
                 variable.result = result[0]
-- 
2.43.0


From f7ff3ab7370cf478689e2385538bc2c4d1476afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 25/52] fix: allow negative profiles and limits of flows with
 investment

---
 flixOpt/elements.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 9cfdac8..18e968c 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -307,14 +307,17 @@ class FlowModel(ElementModel):
 
     def do_modeling(self, system_model: SystemModel):
         # eq relative_minimum(t) * size <= flow_rate(t) <= relative_maximum(t) * size
+        lower_bound, upper_bound = self.absolute_flow_rate_bounds
+        if self.element.on_off_parameters is not None:
+            lower_bound, upper_bound = 0, None
+        elif self.with_investment and self.element.size.optional:  # no flow if not invested
+            lower_bound, upper_bound = np.minimum(0, lower_bound), np.maximum(0, upper_bound)
         self.flow_rate = create_variable(
             'flow_rate',
             self,
             system_model.nr_of_time_steps,
-            lower_bound=self.absolute_flow_rate_bounds[0]
-            if self.element.on_off_parameters is None and not (self.with_investment and self.element.size.optional)
-            else 0,
-            upper_bound=self.absolute_flow_rate_bounds[1] if self.element.on_off_parameters is None else None,
+            lower_bound=lower_bound,
+            upper_bound=upper_bound,
             previous_values=self.element.previous_flow_rate,
         )
 
@@ -408,8 +411,11 @@ class FlowModel(ElementModel):
             return rel_min * size, rel_max * size
         if size.fixed_size is not None:
             return rel_min * size.fixed_size, rel_max * size.fixed_size
-        return rel_min * size.minimum_size, rel_max * size.maximum_size
-
+        # the smaller the size the lower the bound, except for negative relative values
+        return (
+            np.minimum(rel_min * size.minimum_size, rel_min * size.maximum_size),
+            np.maximum(rel_max * size.minimum_size, rel_max * size.maximum_size),
+        )
 
     @property
     def relative_flow_rate_bounds(self) -> Tuple[Numeric, Numeric]:
-- 
2.43.0


From 7e458797c598c6012860e521a4af2336ccf077cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:33 +0000
Subject: [PATCH 26/52] fix: start a repeated segmented calculation from the
 first segment

---
 flixOpt/calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 5a0449a..05d1604 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -369,6 +369,8 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{"":#^80}')
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
+        self.sub_calculations = []  # Segments of a prior (maybe failed) run are outdated
+        self._transfered_start_values = {}
 
         try:
             for i in range(self.number_of_segments):
-- 
2.43.0


From ff50631ffe8449dd5b4dc0b00e81680f71589334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:44 +0000
Subject: [PATCH 27/52] fix: penalise a period freedom of a single pair of
 equated steps

---
 flixOpt/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index db8e2e2..8f39439 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -387,7 +387,7 @@ class EffectCollectionModel(ElementModel):
         factor: Numeric,
     ) -> None:
         assert variable is not None, 'A Variable must be passed to add a share to penalty! Else its a constant Penalty!'
-        self.penalty.add_share(self._system_model, name, variable, factor, True)
+        self.penalty.add_share(self._system_model, name, variable, factor, share_as_sum=variable.length > 1)
 
     def add_share_between_effects(self):
         for origin_effect in self.element.effects.values():
-- 
2.43.0


From 00fffba7ed1d51f546ba1e8c8be138ab9ca5ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:11 +0000
Subject: [PATCH 28/52] fix: last_time_step_hours given as numpy number

---
 flixOpt/flow_system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index bf4f3dd..5b910d1 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -52,7 +52,9 @@ class FlowSystem:
         if self.time_series.dtype == np.dtype('datetime64[ns]'):
             self.time_series = self.time_series.astype('datetime64[us]')
 
-        if isinstance(last_time_step_hours, (int, float)):  # hours, independent of the unit of the time_series
+        if isinstance(last_time_step_hours, (int, float, np.number)) and not isinstance(
+            last_time_step_hours, np.timedelta64
+        ):  # hours, independent of the unit of the time_series
             last_time_step_hours = np.timedelta64(round(last_time_step_hours * 3600 * 1e6), 'us')
         self.last_time_step_hours = (
             self.time_series[-1] - self.time_series[-2] if last_time_step_hours is None else last_time_step_hours
-- 
2.43.0


From 7595936a80e88ed4cc2c22595480871e93300eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 29/52] fix: solve a calculation after another one was modelled
 on the same flow system

---
 flixOpt/structure.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index ed7d780..5671219 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -121,27 +121,25 @@ class SystemModel(MathModel):
     def description_of_variables(self, structured: bool = True) -> Dict[str, Union[str, List[str]]]:
         return {
             'Components': {
-                label: comp.model.description_of_variables(structured)
-                for label, comp in self.flow_system.components.items()
+                model.element.label: model.description_of_variables(structured) for model in self.component_models
             },
             'Buses': {
-                label: bus.model.description_of_variables(structured) for label, bus in self.flow_system.buses.items()
+                model.element.label: model.description_of_variables(structured) for model in self.bus_models
             },
-            'Effects': self.flow_system.effect_collection.model.description_of_variables(structured),
+            'Effects': self.effect_collection_model.description_of_variables(structured),
             'Others': {model.element.label: model.description_of_variables(structured) for model in self.other_models},
         }
 
     def description_of_constraints(self, structured: bool = True) -> Dict[str, Union[str, List[str]]]:
         return {
             'Components': {
-                label: comp.model.description_of_constraints(structured)
-                for label, comp in self.flow_system.components.items()
+                model.element.label: model.description_of_constraints(structured) for model in self.component_models
             },
             'Buses': {
-                label: bus.model.description_of_constraints(structured) for label, bus in self.flow_system.buses.items()
+                model.element.label: model.description_of_constraints(structured) for model in self.bus_models
             },
             'Objective': self.objective.description(),
-            'Effects': self.flow_system.effect_collection.model.description_of_constraints(structured),
+            'Effects': self.effect_collection_model.description_of_constraints(structured),
             'Others': {
                 model.element.label: model.description_of_constraints(structured) for model in self.other_models
             },
@@ -163,21 +161,22 @@ class SystemModel(MathModel):
         main_results = {}
         effect_results = {}
         main_results['Effects'] = effect_results
-        for effect in self.flow_system.effect_collection.effects.values():
+        # Not the models of the elements, as they might have been replaced by another calculation in the meantime
+        for effect, model in self.effect_collection_model._effect_models.items():
             effect_results[f'{effect.label} [{effect.unit}]'] = {
-                'operation': float(effect.model.operation.sum.result),
-                'invest': float(effect.model.invest.sum.result),
-                'sum': float(effect.model.all.sum.result),
+                'operation': float(model.operation.sum.result),
+                'invest': float(model.invest.sum.result),
+                'sum': float(model.all.sum.result),
             }
         main_results['penalty'] = float(self.effect_collection_model.penalty.sum.result)
         main_results['Objective'] = self.result_of_objective
         main_results['lower bound'] = self.solver.best_bound
         buses_with_excess = []
         main_results['buses with excess'] = buses_with_excess
-        for bus in self.flow_system.buses.values():
-            if bus.with_excess:
-                if np.sum(bus.model.excess_input.result) > 1e-3 or np.sum(bus.model.excess_output.result) > 1e-3:
-                    buses_with_excess.append(bus.label)
+        for model in self.bus_models:
+            if model.element.with_excess:
+                if np.sum(model.excess_input.result) > 1e-3 or np.sum(model.excess_output.result) > 1e-3:
+                    buses_with_excess.append(model.element.label)
 
         invest_decisions = {'invested': {}, 'not invested': {}}
         main_results['Invest-Decisions'] = invest_decisions
-- 
2.43.0


From d6833e6e01a0738ac840cd82882bd672f7b1dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:05 +0000
Subject: [PATCH 30/52] fix: time series of conversion factors have unique
 labels

---
 flixOpt/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 8b6006b..910f165 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -110,10 +110,10 @@ class LinearConverter(Component):
     def _transform_conversion_factors(self) -> List[Dict[Flow, TimeSeries]]:
         """macht alle Faktoren, die nicht TimeSeries sind, zu TimeSeries"""
         list_of_conversion_factors = []
-        for conversion_factor in self.conversion_factors:
+        for i, conversion_factor in enumerate(self.conversion_factors):
             transformed_dict = {}
             for flow, values in conversion_factor.items():
-                transformed_dict[flow] = _create_time_series(f'{flow.label}_factor', values, self)
+                transformed_dict[flow] = _create_time_series(f'{flow.label}_factor_{i}', values, self)
             list_of_conversion_factors.append(transformed_dict)
         return list_of_conversion_factors
 
-- 
2.43.0


From 526bc54037a2d26fdba19974b2eabdc11c84b1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 31/52] fix: reject circular shares between effects that were
 set after creation

---
 flixOpt/effects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 8f39439..4fe624c 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -132,6 +132,7 @@ class Effect(Element):
             )
 
     def transform_data(self):
+        self._plausibility_checks()  # shares of other effects might have been set after the creation of this effect
         self.minimum_operation_per_hour = _create_time_series(
             'minimum_operation_per_hour', self.minimum_operation_per_hour, self
         )
-- 
2.43.0


From 68a9a970d558cdb161e5746c8866f29191d34438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 32/52] fix: check the buses and sizes of a Transmission

---
 flixOpt/components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 910f165..2ebfc4f 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -291,6 +291,8 @@ class Transmission(Component):
         self.relative_losses = relative_losses
         self.absolute_losses = absolute_losses
 
+        self._plausibility_checks()
+
     def _plausibility_checks(self):
         # check buses:
         if self.in2 is not None:
-- 
2.43.0


From c9ec5d1c48e8be2616de20e76b5947a8dd379759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 33/52] fix: empty sections of a configuration file override
 nothing, other non-sections are rejected

---
 flixOpt/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flixOpt/config.py b/flixOpt/config.py
index 09aecc2..0b70c21 100644
--- a/flixOpt/config.py
+++ b/flixOpt/config.py
@@ -23,6 +23,8 @@ def merge_configs(defaults: dict, overrides: dict) -> dict:
         if isinstance(value, dict) and key in defaults and isinstance(defaults[key], dict):
             # Recursively merge nested dictionaries
             defaults[key] = merge_configs(defaults[key], value)
+        elif value is None and isinstance(defaults.get(key), dict):
+            continue  # An empty section does not override anything
         else:
             # Override the default value
             defaults[key] = value
@@ -46,6 +48,8 @@ def dataclass_from_dict_with_validation(cls, data: dict):
         # If the field type is a dataclass and the value is a dict, recursively initialize
         if is_dataclass(field_type) and isinstance(field_value, dict):
             kwargs[field_name] = dataclass_from_dict_with_validation(field_type, field_value)
+        elif is_dataclass(field_type):
+            raise TypeError(f'Section {field_name!r} of the configuration must contain key: value pairs, got {field_value=}')
         else:
             kwargs[field_name] = field_value  # Pass as-is if no special handling is needed
 
-- 
2.43.0


From dcfb756e22ed128abbfdb1bb6c49adba71c32fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 34/52] fix: a configuration whose log file can not be opened
 leaves the configuration in use untouched

---
 flixOpt/config.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/flixOpt/config.py b/flixOpt/config.py
index 0b70c21..9fb377c 100644
--- a/flixOpt/config.py
+++ b/flixOpt/config.py
@@ -120,13 +120,18 @@ class CONFIG:
         # Convert the merged config to ConfigSchema
         config_data = dataclass_from_dict_with_validation(ConfigSchema, new_config)
 
+        # Fails if the log file can not be used, so it is done before anything is stored
+        setup_logging(
+            default_level=config_data.logging.level,
+            log_file=config_data.logging.file,
+            use_rich_handler=config_data.logging.rich,
+        )
+
         # Store the configuration in the class as class attributes
         cls.logging = config_data.logging
         cls.modeling = config_data.modeling
         cls.config_name = config_data.config_name
 
-        setup_logging(default_level=cls.logging.level, log_file=cls.logging.file, use_rich_handler=cls.logging.rich)
-
     @classmethod
     def to_dict(cls):
         """
@@ -235,14 +240,19 @@ def setup_logging(
 ):
     """Setup logging configuration"""
     logger = logging.getLogger('flixOpt')  # Use a specific logger name for your package
-    logger.setLevel(get_logging_level_by_name(default_level))
+    level = get_logging_level_by_name(default_level)
+    # Create the new handlers before touching the logger, as this might fail
+    handlers = [_get_logging_handler(use_rich_handler=use_rich_handler)]
+    if log_file is not None:
+        handlers.append(_get_logging_handler(log_file, use_rich_handler=False))
+
+    logger.setLevel(level)
     # Clear existing handlers
     if logger.hasHandlers():
         logger.handlers.clear()
 
-    logger.addHandler(_get_logging_handler(use_rich_handler=use_rich_handler))
-    if log_file is not None:
-        logger.addHandler(_get_logging_handler(log_file, use_rich_handler=False))
+    for handler in handlers:
+        logger.addHandler(handler)
 
     return logger
 
-- 
2.43.0


From d1b6c1f949910f29d62953dea5bb21f1c80e3ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 35/52] fix: numpy booleans, strings and time stamps in
 nanoseconds are converted for saving

---
 flixOpt/structure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 5671219..17734ed 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -606,6 +606,10 @@ def copy_and_convert_datatypes(data: Any, use_numpy: bool = True, use_element_la
         return int(data)
     elif isinstance(data, np.floating):
         return float(data)
+    elif isinstance(data, np.datetime64):  # Nanoseconds can not be represented by datetime
+        return copy_and_convert_datatypes(data.astype('datetime64[us]').item(), use_numpy, use_element_label)
+    elif isinstance(data, (np.bool_, np.str_)):
+        return data.item()
 
     elif isinstance(data, (int, float, str, bool, type(None))):
         return data
@@ -628,6 +632,8 @@ def copy_and_convert_datatypes(data: Any, use_numpy: bool = True, use_element_la
             return [copy_and_convert_datatypes(item, use_numpy, use_element_label) for item in data]
 
     elif isinstance(data, np.ndarray):
+        if np.issubdtype(data.dtype, np.datetime64):  # Nanoseconds can not be represented by datetime
+            data = data.astype('datetime64[us]')
         if not use_numpy:
             return copy_and_convert_datatypes(data.tolist(), use_numpy, use_element_label)
         elif use_numpy and np.issubdtype(data.dtype, np.number):
-- 
2.43.0


From 392a735d7032e8d375a4e634d965a82a61079516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 36/52] fix: flattening a dictionary loses no value if joined
 keys coincide

---
 flixOpt/results.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/flixOpt/results.py b/flixOpt/results.py
index d88ea6c..85466f7 100644
--- a/flixOpt/results.py
+++ b/flixOpt/results.py
@@ -513,21 +513,18 @@ def flatten_dict(d, parent_key='', sep='__'):
     Returns:
         dict: A flattened dictionary.
     """
-    items = []
+    items = {}
     for k, v in d.items():
         new_key = f'{parent_key}{sep}{k}' if parent_key else k  # Combine parent key and current key
-        if isinstance(v, dict):  # If the value is a nested dictionary, recurse
-            items.extend(flatten_dict(v, new_key, sep=sep).items())
-        else:  # Otherwise, just add the key-value pair
-            if new_key not in items:
-                items.append((new_key, v))
-            else:
-                for i in range(100000):
-                    new_key = f'{new_key}_#{i}'
-                    if new_key not in items:
-                        items.append((new_key, v))
-                        break
-    return dict(items)
+        # If the value is a nested dictionary, recurse. Otherwise, just add the key-value pair
+        new_items = flatten_dict(v, new_key, sep=sep) if isinstance(v, dict) else {new_key: v}
+        for key, value in new_items.items():
+            unique_key, i = key, 0
+            while unique_key in items:
+                unique_key = f'{key}_#{i}'
+                i += 1
+            items[unique_key] = value
+    return items
 
 
 if __name__ == '__main__':
-- 
2.43.0


From f44d5bf5e9689e7572427c744d4902f0be414870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 37/52] fix: saved data of storages and transmissions contain
 whether simultaneous flows are prevented

---
 flixOpt/components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 2ebfc4f..e2c8301 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -196,6 +196,7 @@ class Storage(Component):
             meta_data=meta_data,
         )
 
+        self.prevent_simultaneous_charge_and_discharge = prevent_simultaneous_charge_and_discharge
         self.charging = charging
         self.discharging = discharging
         self.capacity_in_flow_hours = capacity_in_flow_hours
@@ -283,6 +284,7 @@ class Transmission(Component):
             if in2 is None or prevent_simultaneous_flows_in_both_directions is False
             else [in1, in2],
         )
+        self.prevent_simultaneous_flows_in_both_directions = prevent_simultaneous_flows_in_both_directions
         self.in1 = in1
         self.out1 = out1
         self.in2 = in2
-- 
2.43.0


From 4ee60229ae0d705b8d113e62f8104398e6aefa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 38/52] fix: saved data are those of the saved calculation, not
 of the last one modeled

---
 flixOpt/calculation.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 05d1604..0482125 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -91,7 +91,14 @@ class Calculation:
             self._paths['results'] = path / f'{self.name}_results.json'
             self._paths['infos'] = path / f'{self.name}_infos.yaml'
 
+    def _activate_time_series(self):
+        """Makes the data of this calculation the active data (of the time series of the flow_system)"""
+        for time_series in self.flow_system.all_time_series:
+            time_series.clear_indices_and_aggregated_data()
+            time_series.activate_indices(self.time_indices)
+
     def _save_solve_infos(self):
+        self._activate_time_series()  # Another calculation or segment might have been modeled in the meantime
         t_start = timeit.default_timer()
         indent = 4 if len(self.flow_system.time_series) < 50 else None
         with open(self._paths['results'], 'w', encoding='utf-8') as f:
@@ -292,6 +299,16 @@ class AggregatedCalculation(Calculation):
         self.durations['modeling'] = round(timeit.default_timer() - t_start, 2)
         return self.system_model
 
+    def _activate_time_series(self):
+        super()._activate_time_series()
+        if self.aggregation_parameters.aggregate_data_and_fix_non_binary_vars:
+            self.time_series_collection.insert_data(  # Converting it into a dict with labels as keys
+                {
+                    col: np.array(values)
+                    for col, values in self.aggregation.aggregated_data.to_dict(orient='list').items()
+                }
+            )
+
     def solve(self, solver: Solver, save_results: Union[bool, str, pathlib.Path] = False):
         self._define_path_names(save_results)
         t_start = timeit.default_timer()
@@ -436,6 +453,7 @@ class SegmentedCalculation(Calculation):
             return all_results
 
     def _save_solve_infos(self):
+        self._activate_time_series()  # The data of the last segment is active
         t_start = timeit.default_timer()
         indent = 4 if len(self.flow_system.time_series) < 50 else None
         with open(self._paths['results'], 'w', encoding='utf-8') as f:
-- 
2.43.0


From b49e3f61e2c3c9421789d0ecc47f2d5e081af774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 39/52] fix: buses without excess are part of the loaded
 results of a segmented calculation

---
 flixOpt/results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flixOpt/results.py b/flixOpt/results.py
index 85466f7..7685e51 100644
--- a/flixOpt/results.py
+++ b/flixOpt/results.py
@@ -110,7 +110,8 @@ class CalculationResults:
         if not bus_results.keys() == bus_infos.keys():
             logger.warning(f'Missing Bus or mismatched keys: {bus_results.keys() ^ bus_infos.keys()}')
 
-        for bus_label in bus_results.keys():
+        # Buses without any results (without excess) might be missing in the results
+        for bus_label in {**bus_results, **bus_infos}.keys():
             infos, results = bus_infos.get(bus_label, {}), bus_results.get(bus_label, {})
             inputs = [
                 flow
-- 
2.43.0


From 6cb313a934f850fada80d4d0b23b93b4aea2be83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 40/52] fix: a solve without a solution doesnt report the
 values of a previous solve

---
 flixOpt/math_modeling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 3cd7f82..270cec5 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1006,6 +1006,9 @@ class PyomoModel(ModelingLanguage):
     def solve(self, math_model: MathModel, solver: Solver):
         if self._counter == 0:
             raise Exception(' First, call .translate_model(). Else PyomoModel cant solve()')
+        for pyomo_var in self.model.component_data_objects(pyo.Var):
+            if not pyomo_var.fixed:  # If no solution is found, no values of a previous solve must remain
+                pyomo_var.set_value(None)
         solver.solve(self)
 
         # write results
-- 
2.43.0


From 8ad160dfe88143e5b5ca1a15d9c867759d3c3237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 41/52] fix: CBC without an integer solution doesnt report the
 values of the relaxed problem

---
 flixOpt/math_modeling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 270cec5..73a7680 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -926,6 +926,9 @@ class CbcSolver(Solver):
                 logfile=self.logfile_name,
                 options={'ratio': self.mip_gap, 'sec': self.time_limit_seconds},
             )
+            if self._results.solver.termination_condition == pyo.TerminationCondition.intermediateNonInteger:
+                # CBC returns the values of the relaxed problem in that case
+                raise RuntimeError('CBC was stopped before it found an integer solution')
             self.objective = modeling_language.model.objective.expr()
             self.termination_message: Optional[str] = f'Not Implemented for {self.__class__.__name__} yet'
             self.best_bound = self._results['Problem'][0]['Lower bound']
-- 
2.43.0


From d972e01d614ea593241bf7d9a7fd5fb2c3d81071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 42/52] fix: results of calculations solved with CPLEX can be
 saved

---
 flixOpt/math_modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 73a7680..8d70ca3 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -830,7 +830,7 @@ class CplexSolver(Solver):
                 modeling_language.model,
                 tee=self.solver_output_to_console,
                 keepfiles=True,
-                logfile=self.logfile_name,
+                logfile=None if self.logfile_name is None else str(self.logfile_name),
                 options={'mipgap': self.mip_gap, 'timelimit': self.time_limit_seconds},
             )
 
-- 
2.43.0


From 58f80f756b4f3368e5d739f9056719b495323fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 43/52] fix: HiGHS doesnt write a file named None if results
 arent saved

---
 flixOpt/math_modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 8d70ca3..ab76468 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -873,7 +873,7 @@ class HighsSolver(Solver):
             self._solver.highs_options = {
                 'mip_rel_gap': self.mip_gap,
                 'time_limit': self.time_limit_seconds,
-                'log_file': str(self.logfile_name),
+                'log_file': '' if self.logfile_name is None else str(self.logfile_name),
                 # "log_to_console": self.solver_output_to_console,
                 'threads': self.threads,
                 'parallel': 'on',
-- 
2.43.0


From 5967b23105e6623ddfe9856955bcf57815f72e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 44/52] fix: an aggregation weight of zero isnt treated as a
 weight of one

---
 flixOpt/aggregation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index 027cf32..5bbe5c1 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -243,8 +243,9 @@ class TimeSeriesCollection:
         group_size = dict(Counter(groups))
         self.group_weights = {group: 1 / size for group, size in group_size.items()}
         for time_series in self.time_series_list:
+            weight = time_series.aggregation_weight
             time_series.aggregation_weight = self.group_weights.get(
-                time_series.aggregation_group, time_series.aggregation_weight or 1
+                time_series.aggregation_group, weight if weight is not None else 1
             )
 
     def _unique_labels(self):
-- 
2.43.0


From d3bbe3f7a379be9a374aa7b9a03613d1796bd1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 45/52] fix: create_datetime_array rejects frequencies it cant
 read instead of using an interval of one

---
 flixOpt/flow_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 5b910d1..fafe4b5 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -352,7 +352,7 @@ def create_datetime_array(
     """
     # Parse the frequency and interval
     unit = freq[-1]  # Get the time unit (e.g., 'h', 'm', 's')
-    interval = int(freq[:-1]) if freq[:-1].isdigit() else 1  # Default to interval=1 if not specified
+    interval = int(freq[:-1]) if freq[:-1] else 1  # Default to interval=1 if not specified
     step_size = np.timedelta64(interval, unit)  # Create the timedelta step size
 
     # Convert the start time to a datetime64 object
-- 
2.43.0


From ee4d8a4b72504c2464d66b62d6688b38de4da4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 46/52] fix: plotting areas doesnt alter the data handed over

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index 77785cb..e882484 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -120,7 +120,7 @@ def with_plotly(
                 )
             )
     elif mode == 'area':
-        data[(data > -1e-5) & (data < 1e-5)] = 0  # Preventing issues with plotting
+        data = data.mask((data > -1e-5) & (data < 1e-5), 0)  # Preventing issues with plotting
         # Split columns into positive, negative, and mixed categories
         positive_columns = list(data.columns[(data >= 0).all()])
         negative_columns = list(data.columns[(data <= 0).all()])
-- 
2.43.0


From 47f07df1199b6932f41a35548470456f2ab7838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 47/52] fix: columns without values arent drawn twice in area
 plots

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index e882484..7da91e8 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -123,7 +123,7 @@ def with_plotly(
         data = data.mask((data > -1e-5) & (data < 1e-5), 0)  # Preventing issues with plotting
         # Split columns into positive, negative, and mixed categories
         positive_columns = list(data.columns[(data >= 0).all()])
-        negative_columns = list(data.columns[(data <= 0).all()])
+        negative_columns = [col for col in data.columns[(data <= 0).all()] if col not in positive_columns]
         mixed_columns = list(set(data.columns) - set(positive_columns + negative_columns))
         if mixed_columns:
             logger.warning(
-- 
2.43.0


From 28c8a73586ef87dbac5750ad6f3290f84b714d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 48/52] fix: visualize_network returns the network also if its
 saved or shown

---
 flixOpt/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index 7da91e8..c1af3c2 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -710,3 +710,5 @@ def visualize_network(
             logger.warning(
                 f'Showing the network in the Browser went wrong. Open it manually. Its saved under {path}: {e}'
             )
+
+    return net
-- 
2.43.0


From 0c0fdeea31a93b422baf0a3da6088456b3ec25fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 49/52] fix: the overview of the size of an element's model
 works and counts the inequations of sub models

---
 flixOpt/structure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 17734ed..5184b86 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -420,9 +420,9 @@ class ElementModel:
         all_vars, all_eqs, all_ineqs = self.all_variables, self.all_equations, self.all_inequations
         return {
             'no of Euations': len(all_eqs),
-            'no of Equations single': sum(eq.nr_of_single_equations for eq in all_eqs.values()),
+            'no of Equations single': sum(eq.length for eq in all_eqs.values()),
             'no of Inequations': len(all_ineqs),
-            'no of Inequations single': sum(ineq.nr_of_single_equations for ineq in all_ineqs.values()),
+            'no of Inequations single': sum(ineq.length for ineq in all_ineqs.values()),
             'no of Variables': len(all_vars),
             'no of Variables single': sum(var.length for var in all_vars.values()),
         }
@@ -469,9 +469,10 @@ class ElementModel:
     def all_inequations(self) -> Dict[str, Inequation]:
         all_ineqs = self.inequations.copy()
         for sub_model in self.sub_models:
-            for key in sub_model.all_inequations:
+            for key, value in sub_model.all_inequations.items():
                 if key in all_ineqs:
                     raise KeyError(f"Duplicate key found: '{key}' in both main model and submodel!")
+                all_ineqs[key] = value
         return all_ineqs
 
     @property
-- 
2.43.0


From d1e5897248f52b7a215c1f1cdc6df4cd0dfd3195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 50/52] fix: the plain list of constraints contains the
 inequations too

---
 flixOpt/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 5184b86..76f15e3 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -413,7 +413,7 @@ class ElementModel:
 
             return descriptions
         else:
-            return [eq.description() for eq in self.all_equations.values()]
+            return [constr.description() for constr in self.all_constraints.values()]
 
     @property
     def overview_of_model_size(self) -> Dict[str, int]:
-- 
2.43.0


From 6fdde5c8b740f6664cc161ccda9f379314f9dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 51/52] fix: the objective is named as such in the description
 of the model

---
 flixOpt/math_modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index ab76468..7917dfb 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -270,7 +270,7 @@ class Equation(_Constraint):
         equation_nr = min(at_index, self.length - 1)
 
         # Name and index as str
-        if self.is_objective == 'objective':
+        if self.is_objective:
             name, index_str = 'OBJ', ''
         else:
             name, index_str = f'EQ {self.label}', f'[{equation_nr + 1}/{self.length}]'
-- 
2.43.0


From 1fe0fafafd2c65febb2ea6855a4a54f4b977e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 52/52] fix: labels of flows and effects that would hide other
 results are rejected

---
 flixOpt/structure.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 76f15e3..179cd66 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -62,6 +62,8 @@ class SystemModel(MathModel):
             component_model.do_modeling(self)
         for bus_model in self.bus_models:  # Buses after Components, because FlowModels are created in ComponentModels
             bus_model.do_modeling(self)
+        for model in self.sub_models:
+            model.check_labels_of_results()
 
     def solve(self, solver: Solver, excess_threshold: Union[int, float] = 0.1):
         """
@@ -490,6 +492,13 @@ class ElementModel:
             **{model.label: model.results() for model in self.sub_models},
         }
 
+    def check_labels_of_results(self) -> None:
+        """Results of equal labels would replace each other"""
+        labels = [var.label_short for var in self.variables.values()] + [model.label for model in self.sub_models]
+        duplicates = sorted({label for label in labels if labels.count(label) > 1})
+        if duplicates:
+            raise ValueError(f'{duplicates} can not be used as a label in {self.label_full}, as results are named so!')
+
     @property
     def label_full(self) -> str:
         return f'{self.element.label_full}__{self._label}' if self._label else self.element.label_full
-- 
2.43.0

