From db688226d006f756c086aa2e3ad94ba9c3f5f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:27 +0000
Subject: [PATCH 01/33] fix: honour a random variable test_seed of 0

---
 gerabaldi/models/random_vars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index 3944970..a809aec 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -30,7 +30,7 @@ class RandomVar:
         if dist_type:
             self._dist_type = dist_type
         # Test seed is used to make the random variable sampling reproducible for testing purposes only
-        if test_seed:
+        if test_seed is not None:
             self._generator = getattr(np.random.default_rng(seed=test_seed), self._dist_type)
         else:
             self._generator = getattr(np.random.default_rng(), self._dist_type)
-- 
2.43.0


From 92b0d2bb34a70aa3aa68b2bcb77d33f8f8481f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:27 +0000
Subject: [PATCH 02/33] fix: make condition sampling order independent of hash
 randomization

---
 gerabaldi/models/devices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 8c09506..a1bee5a 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1115,8 +1115,9 @@ class DegPrmMdl(LatentMdl):
                 depends_conds.extend([arg for arg in self.mech_mdl(mech).compute_args if arg in conditions])
         else:
             depends_conds.extend([arg for arg in self.cond_mdl.compute_args if arg in conditions])
-        # There is a chance to have overlapping environmental condition dependencies, so remove any duplicates
-        return [*set(depends_conds)]
+        # There is a chance to have overlapping environmental condition dependencies, so remove any duplicates. The order
+        # must not depend on string hashing as it determines the order in which random variations are sampled
+        return list(dict.fromkeys(depends_conds))
 
 
 class CircPrmMdl(LatentMdl):
-- 
2.43.0


From b725585b86b37e928fb3e87b59bb7fb84fdb8dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:28 +0000
Subject: [PATCH 03/33] fix: silence expected minimize divisions without
 changing process-wide warning filters

---
 gerabaldi/math/minimize.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gerabaldi/math/minimize.py b/gerabaldi/math/minimize.py
index 9f8d449..6edc4c4 100644
--- a/gerabaldi/math/minimize.py
+++ b/gerabaldi/math/minimize.py
@@ -3,7 +3,6 @@
 
 """Minimization algorithm implementation leveraged for the Gerabaldi package."""
 
-import warnings
 import numpy as np
 
 from gerabaldi.helpers import logger
@@ -80,8 +79,7 @@ def minimize(func, extra_args: dict, bounds, precision=1e-5, mach_eps=MACH_64BIT
 
         further_boundary = np.where(np.greater_equal(x, m), a, b)
         # Numpy's 'where' has to be greedy thus p / q is always evaluated, 'use_para' is always false if q is 0
-        with warnings.catch_warnings():
-            warnings.filterwarnings('ignore', message='invalid value encountered in divide')
+        with np.errstate(invalid='ignore'):
             step = np.where(use_para, p / q, GF2 * (further_boundary - x))
         u_tent = x + step
 
-- 
2.43.0


From a7bac3a61e42f5735b4dd9a9d32bbac37a728db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:50 +0000
Subject: [PATCH 04/33] fix: simulate devices with unmeasured parameters and
 states holding more than the test measures

---
 gerabaldi/models/devices.py | 10 ++++++----
 gerabaldi/sim.py            |  9 +++++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index a1bee5a..6752086 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1305,17 +1305,19 @@ class DeviceMdl:
             The initial state of all parameter instances across devices, chips, and lots
         """
         latents, init_mech_vals, init_prm_vals = {}, {}, {}
+        # Copy to avoid adding any unmeasured parameters to the caller's dictionary
+        sample_counts = dict(sample_counts)
         for prm in self.prm_mdl_list:
+            # In case the parameter is not directly measured and instead used in calculating other parameters,
+            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
+            if prm not in sample_counts:
+                sample_counts[prm] = max(sample_counts.values(), default=1)
             # First generate the latent variable values for each model
             latents[prm] = self.prm_mdl(prm).gen_latent_vals(sample_counts[prm], num_chps, num_lots)
             # Now initialize the degradation mechanism progression
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_mech_vals[prm] = self.prm_mdl(prm).gen_init_mech_vals(sample_counts[prm], num_chps, num_lots)
             # Then initialize the un-aged values for the device parameters
-            # In case the parameter is not directly measured and instead used in calculating other parameters,
-            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
-            if prm not in sample_counts:
-                sample_counts[prm] = max(sample_counts.values())
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_prm_vals[prm] = self.prm_mdl(prm).init_mdl.gen_init_vals(sample_counts[prm], num_chps, num_lots)
         # Return a simulation state containing all the generated initial information about the devices to be tested
diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index d35eb2b..1b084cc 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -50,10 +50,11 @@ def gen_init_state(
         The constructed initial state for the test containing initial parameter and sampled latent variable values
     """
     # First determine the source that will determine how many instances/devices for each parameter to initialize
-    if quantity_info and not dev_counts:
+    if quantity_info is not None and not dev_counts:
         devs, chps, lots = quantity_info.dev_counts, quantity_info.num_chps, quantity_info.num_lots
     elif dev_counts:
-        devs, chps, lots = dev_counts, num_chps, num_lots
+        # Copy to avoid adding the parameters required by circuit parameters to the caller's dictionary
+        devs, chps, lots = dev_counts.copy(), num_chps, num_lots
     else:
         raise UserConfigError(
             'The number of devices for each parameter must be specified either manually or by report.'
@@ -223,6 +224,10 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
 
     # Prepare the simulation data persistence structure
     sim_state = gen_init_state(dev_mdl, quantity_info=test_report) if not init_state else deepcopy(init_state)
+    # The state determines how many instances of each degrading parameter there are, which can be more than are measured
+    for prm, mech_vals in sim_state.curr_deg_mech_vals.items():
+        for vals in mech_vals.values():
+            test_report.dev_counts[prm] = vals.shape[2]
 
     # We now execute the test step by step, sequentially performing measurements and stress intervals in order
     # Note that sim_state and test_report are mutated as the test progresses, the other data structures are untouched
-- 
2.43.0


From 7a744003644abe62f8586be80f45eb315cda620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:50 +0000
Subject: [PATCH 05/33] fix: accept numeric elapsed times as documented when
 generating initial state

---
 gerabaldi/sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 1b084cc..ae06ffb 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -83,7 +83,8 @@ def gen_init_state(
     # Now initialize the physical state and override the elapsed time if specified
     init_state = dev_mdl.gen_init_state(devs, chps, lots)
     if elapsed_time != 0:
-        init_state.elapsed = elapsed_time
+        # Stress durations are added to the elapsed time as the test progresses, thus must be a timedelta
+        init_state.elapsed = elapsed_time if isinstance(elapsed_time, timedelta) else _convert_time(elapsed_time, None)
     return init_state
 
 
-- 
2.43.0


From a27a8fbf24329f149e7dede1da7ad0cfc3a95e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:50 +0000
Subject: [PATCH 06/33] fix: select measured circuit parameter samples by
 device instead of by lot

---
 gerabaldi/models/devices.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 6752086..e31728e 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1182,7 +1182,9 @@ class CircPrmMdl(LatentMdl):
             elif arg in degraded_prm_vals:
                 arg_vals[arg] = degraded_prm_vals[arg]
 
-        return self.compute(**arg_vals)[:][:][:num_samples]
+        # Only the first 'num_samples' devices on each chip are measured, devices being the last array dimension
+        arg_vals = {arg: val[:, :, :num_samples] if np.ndim(val) == 3 else val for arg, val in arg_vals.items()}
+        return self.compute(**arg_vals)
 
     def get_required_prms(self, mdl_prm_list):
         """
-- 
2.43.0


From 589cb0fc4931572559626deabf34e159b9682169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:50 +0000
Subject: [PATCH 07/33] fix: export latent variables for CBI without
 re-centring their distributions

---
 gerabaldi/models/devices.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index e31728e..775f6fe 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 
 import inspect
 import numpy as np
+from copy import copy
 from typing import Callable
 
 from gerabaldi.math import minimize
@@ -219,16 +220,17 @@ class LatentVar:
                 raise NotImplementedError(f'Requested target CBI framework {target_framework} is not yet supported.')
 
             # If a deterministic value was used we may still be able to convert the variable to a probabilistic form
-            old_centre = None
+            dev_vrtn_mdl = self.dev_vrtn_mdl
             if self.deter_val:
                 # If the dev_vrtn_mdl distribution has a "centre" we can set the centre to the deterministic value and
                 # proceed, however if the distribution is bimodal, uniform, etc. an error must be raised.
-                old_centre = self.dev_vrtn_mdl.get_centre()
-                self.dev_vrtn_mdl.set_centre(self.deter_val, op)
+                # A copy is used as the variable itself must not change, regardless of how the export proceeds.
+                dev_vrtn_mdl = copy(self.dev_vrtn_mdl)
+                dev_vrtn_mdl.set_centre(self.deter_val, op)
 
             # Normal probabilistic model export, only incorporate the stochastic layers if used
             if self._chp_vrtns and self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 if target_framework == 'pymc':
@@ -236,18 +238,15 @@ class LatentVar:
                 else:
                     cbi_dist = op(op(dev, chp), lot)
             elif self._chp_vrtns and not self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 cbi_dist = pymc.Deterministic(self.name, op(dev, chp)) if target_framework == 'pymc' else op(dev, chp)
             elif not self._chp_vrtns and self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 cbi_dist = pymc.Deterministic(self.name, op(dev, lot)) if target_framework == 'pymc' else op(dev, lot)
             else:
-                cbi_dist = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-            # Return the dev_vrtn_mdl centre value to previous if it was changed to avoid any method side effects
-            if old_centre:
-                self.dev_vrtn_mdl.set_centre(old_centre)
+                cbi_dist = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
             return cbi_dist
         else:
             raise UserConfigError(f'Cannot export deterministic latent variable {self.name} for CBI use.')
-- 
2.43.0


From 1493faba2ca3a5730aba4fdf17509ea02f62ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:51 +0000
Subject: [PATCH 08/33] fix: replace the default log handler when a custom one
 is configured

---
 gerabaldi/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 09af102..e877190 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -77,10 +77,11 @@ def configure_logger(
     existing_stream_handler = None
     existing_file_handler = None
     for handler in logger.handlers:
-        if type(handler) is logging.StreamHandler and type(handler) is not logging.FileHandler:
-            existing_stream_handler = handler
-        elif type(handler) is logging.FileHandler:
+        # File handlers are a type of stream handler, and the default handler is a subclass of the stream handler
+        if isinstance(handler, logging.FileHandler):
             existing_file_handler = handler
+        elif isinstance(handler, logging.StreamHandler):
+            existing_stream_handler = handler
 
     # If the user provided a custom stream handler, remove the default one, add the custom one
     if stream_handler:
-- 
2.43.0


From 6a2ff534467fe03fecf96bce4c753d4aec058ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:51 +0000
Subject: [PATCH 09/33] fix: let instruments with limited precision report
 undefined values

---
 gerabaldi/models/phys_envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 58b006d..4f8bca3 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -84,7 +84,7 @@ class MeasInstrument:
             # The calculation for determining the sig figs -> decimal places is pretty standard and widely explained
             # Ternary operator is used to handle special cases that cause the rounding to fail otherwise
             meas_vals = meas_vals.apply(
-                lambda x: x if x == 0 or np.isinf(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
+                lambda x: x if x == 0 or not np.isfinite(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
             )
         if self._range:
             # If the measured value exceeds the measurement range then force it to the limit
-- 
2.43.0


From c6d8e0e7c0f5d8e7223151a0d78c49b3344dff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:51 +0000
Subject: [PATCH 10/33] fix: keep degrading under long stress for mechanisms
 with small time units

---
 gerabaldi/models/devices.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 775f6fe..06ad11c 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -8,13 +8,14 @@ from __future__ import annotations
 import inspect
 import numpy as np
 from copy import copy
+from datetime import timedelta
 from typing import Callable
 
 from gerabaldi.math import minimize
 from gerabaldi.models.random_vars import RandomVar, Deterministic
 from gerabaldi.models.states import SimState
 from gerabaldi.exceptions import InvalidTypeError, UserConfigError
-from gerabaldi.helpers import logger, _on_demand_import, _loop_compute
+from gerabaldi.helpers import logger, _convert_time, _on_demand_import, _loop_compute
 
 # Optional imports are loaded using a helper function that suppresses import errors until attempted use
 pymc = _on_demand_import('pymc')
@@ -402,6 +403,10 @@ class MechMdl(LatentMdl):
         """
         return np.full((num_lots, num_chps, num_devs), self.unitary)
 
+    def _max_equiv_time(self) -> float:
+        # Upper bound for equivalent stress times, no shorter for small time units than the 1e10 hours used by default
+        return 1e10 * max(1.0, _convert_time(timedelta(hours=1), self.time_unit))
+
     def calc_equiv_strs_time(self, deg_val, init_val, strs_conds, latents, dims):
         raise NotImplementedError('Mechanism does not define how to compute value changes under time-varying stress')
 
@@ -440,7 +445,7 @@ class MechMdl(LatentMdl):
         """
         # To support degradation mechanisms that exhibit threshold behaviours, we first identify whether some samples
         # won't degrade under the current stress conditions based on the failure to find a valid equivalent stress time
-        no_deg_mask = np.where(times > 9e9, pre_deg_vals, np.inf)
+        no_deg_mask = np.where(times > 0.9 * self._max_equiv_time(), pre_deg_vals, np.inf)
 
         # Add the stress time to the argument dict
         arg_vals = {'time': times}
@@ -548,7 +553,7 @@ class DegMechMdl(MechMdl):
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
         return minimize(residue, extra_args={'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents},
-                        bounds=(1e-3, 1e10), maxiter=50, log_gold=True)
+                        bounds=(1e-3, self._max_equiv_time()), maxiter=50, log_gold=True)
 
 
 class FailMechMdl(MechMdl):
-- 
2.43.0


From a1ba7b1cd61a2931fa08a09e21461519763191eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:51 +0000
Subject: [PATCH 11/33] fix: hold degradation that exceeds what milder stress
 conditions can produce

---
 gerabaldi/models/devices.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 06ad11c..c0489fa 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -537,8 +537,7 @@ class DegMechMdl(MechMdl):
             The amount of time required to reach the current value of degradation under the specified stress conditions
         """
 
-        # Computes the absolute difference between the target value and the calculated value using a given time
-        def residue(time, curr_deg_val, conds, ltnts):
+        def deg_at(time, conds, ltnts):
             arg_vals = {'time': time}
             for arg in self.compute_args:
                 if arg in ltnts:
@@ -547,13 +546,21 @@ class DegMechMdl(MechMdl):
                     arg_vals[arg] = conds[arg]
             # Calculate the degradation for the sample
             try:
-                return abs(curr_deg_val - self.compute(**arg_vals))
+                return self.compute(**arg_vals)
             except ValueError:
-                return abs(curr_deg_val - _loop_compute(self.compute, arg_vals, dims))
+                return _loop_compute(self.compute, arg_vals, dims)
+
+        # Computes the absolute difference between the target value and the calculated value using a given time
+        def residue(time, curr_deg_val, conds, ltnts):
+            return abs(curr_deg_val - deg_at(time, conds, ltnts))
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
-        return minimize(residue, extra_args={'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents},
-                        bounds=(1e-3, self._max_equiv_time()), maxiter=50, log_gold=True)
+        times = minimize(residue, extra_args={'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents},
+                         bounds=(1e-3, self._max_equiv_time()), maxiter=50, log_gold=True)
+        # When the conditions can't produce as much degradation as already present (e.g. saturation, thresholds) the
+        # search settles on some arbitrary time, in this case there is no valid equivalent stress time
+        found = np.abs(np.subtract(deg_at(times, strs_conds, latents), init_val))
+        return np.where(found < 0.999 * np.abs(np.subtract(deg_val, init_val)), self._max_equiv_time(), times)[()]
 
 
 class FailMechMdl(MechMdl):
-- 
2.43.0


From e36020fb1afff1ad82650b0604f7ca0e41d781ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:52 +0000
Subject: [PATCH 12/33] fix: export and load reports without losing precision
 or reinterpreting text

Exported values were cut to 10 decimal places, and on load pandas tried to parse
step names and other text as numbers or dates.
---
 gerabaldi/models/reports.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 1aab807..c15b79b 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -73,8 +73,8 @@ class SimReport:
                     raise FileNotFoundError(msg) from e
             self.test_name = report_json['Test Name']
             self.test_description = report_json['Description']
-            self.measurements = pd.read_json(report_json['Measurements'])
-            self.test_summary = pd.read_json(report_json['Test Summary'])
+            self.measurements = self._frame_from_json(report_json['Measurements'])
+            self.test_summary = self._frame_from_json(report_json['Test Summary'])
             # Convert the times back to time deltas
             units = report_json['Time Units'].lower()
             self.time_unit = units
@@ -88,6 +88,18 @@ class SimReport:
             self.measurements, self.test_summary = None, None
             self.num_chps, self.num_lots, self.dev_counts = None, None, None
 
+    @staticmethod
+    def _frame_to_json(frame: pd.DataFrame) -> str:
+        # The pandas to_json method is not used as it drops all but the first few decimal places of the values
+        return json.dumps(frame.astype(object).where(frame.notna(), None).to_dict())
+
+    @staticmethod
+    def _frame_from_json(frame_json: str) -> pd.DataFrame:
+        # The pandas read_json method is not used as it tries to parse text such as step names as numbers or dates
+        frame = pd.DataFrame(json.loads(frame_json))
+        frame.index = frame.index.astype(int)
+        return frame
+
     @staticmethod
     def format_measurements(
         measured_vals: list | pd.Series | np.ndarray,
@@ -202,12 +214,12 @@ class SimReport:
 
         meas_cpy = self.measurements.copy()
         meas_cpy['time'] = meas_cpy['time'].apply(_convert_time, units=units, axis=1)
-        report_json['Measurements'] = meas_cpy.to_json()
+        report_json['Measurements'] = self._frame_to_json(meas_cpy)
         strs_cpy = self.test_summary.copy()
         strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
         strs_cpy['start time'] = strs_cpy['start time'].apply(_convert_time, units=units, axis=1)
         strs_cpy['end time'] = strs_cpy['end time'].apply(_convert_time, units=units, axis=1)
-        report_json['Test Summary'] = strs_cpy.to_json()
+        report_json['Test Summary'] = self._frame_to_json(strs_cpy)
 
         if file:
             # Make the directory if it doesn't yet exist, otherwise the file open will fail
-- 
2.43.0


From b7aed5643872c5e0dd4e006b758aab7bb54f4ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:10 +0000
Subject: [PATCH 13/33] fix: keep report times correct when converting or
 exporting converted reports

Raw times were converted a second time as if they were timedeltas (and vice versa), a
rejected unit was still recorded as the report's unit, and reports without measurements
could not be exported.
---
 gerabaldi/models/reports.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index c15b79b..21a5cfc 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -78,16 +78,29 @@ class SimReport:
             # Convert the times back to time deltas
             units = report_json['Time Units'].lower()
             self.time_unit = units
-            self.measurements['time'] = self.measurements['time'].apply(_convert_time, units=units, axis=1)
-            self.test_summary['start time'] = self.test_summary['start time'].apply(_convert_time, units=units, axis=1)
-            self.test_summary['end time'] = self.test_summary['end time'].apply(_convert_time, units=units, axis=1)
-            self.test_summary['duration'] = self.test_summary['duration'].apply(_convert_time, units=units, axis=1)
+            self._convert_frame_times(self.measurements, ['time'], lambda time: _convert_time(time, units))
+            self._convert_frame_times(
+                self.test_summary, ['duration', 'start time', 'end time'], lambda time: _convert_time(time, units)
+            )
         # Allow for empty report initializations, though is not an expected use case
         else:
             self.test_name, self.test_description = name, description
             self.measurements, self.test_summary = None, None
             self.num_chps, self.num_lots, self.dev_counts = None, None, None
 
+    @staticmethod
+    def _convert_frame_times(frame: pd.DataFrame, columns: list, convert):
+        # Reports without any rows do not have any of the columns
+        for column in columns:
+            if column in frame:
+                frame[column] = frame[column].apply(convert)
+
+    def _raw_time(self, time: timedelta | float, units: str) -> float:
+        # Times are either timedelta objects or, once converted, raw values in the time unit of the report
+        if not isinstance(time, timedelta):
+            time = _convert_time(time, self.time_unit)
+        return _convert_time(time, units)
+
     @staticmethod
     def _frame_to_json(frame: pd.DataFrame) -> str:
         # The pandas to_json method is not used as it drops all but the first few decimal places of the values
@@ -213,12 +226,12 @@ class SimReport:
         report_json['Time Units'] = units
 
         meas_cpy = self.measurements.copy()
-        meas_cpy['time'] = meas_cpy['time'].apply(_convert_time, units=units, axis=1)
+        self._convert_frame_times(meas_cpy, ['time'], lambda time: self._raw_time(time, units))
         report_json['Measurements'] = self._frame_to_json(meas_cpy)
         strs_cpy = self.test_summary.copy()
-        strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
-        strs_cpy['start time'] = strs_cpy['start time'].apply(_convert_time, units=units, axis=1)
-        strs_cpy['end time'] = strs_cpy['end time'].apply(_convert_time, units=units, axis=1)
+        self._convert_frame_times(
+            strs_cpy, ['duration', 'start time', 'end time'], lambda time: self._raw_time(time, units)
+        )
         report_json['Test Summary'] = self._frame_to_json(strs_cpy)
 
         if file:
@@ -238,5 +251,8 @@ class SimReport:
         if units is None:
             logger.warn('Converted report time units not explicitly provided, defaulting to hours.')
             units = 'hours'
+        # Ensure the units are valid before changing anything
+        _convert_time(timedelta(), units)
+        # The measurement times may have already been converted to another unit, so only change the unit once done
+        self._convert_frame_times(self.measurements, ['time'], lambda time: self._raw_time(time, units))
         self.time_unit = units
-        self.measurements['time'] = self.measurements['time'].apply(lambda time: _convert_time(time, self.time_unit))
-- 
2.43.0


From 73cb4df77d936172dcc5b51e0942c02a77413e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:10 +0000
Subject: [PATCH 14/33] fix: create all missing parent directories when
 exporting a report

---
 gerabaldi/models/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 21a5cfc..84ca9f7 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -237,7 +237,7 @@ class SimReport:
         if file:
             # Make the directory if it doesn't yet exist, otherwise the file open will fail
             data_dir = file.rpartition('/')[0]
-            Path(data_dir).mkdir(exist_ok=True)
+            Path(data_dir).mkdir(parents=True, exist_ok=True)
             with open(file, 'w') as f:
                 json.dump(report_json, f)
             logger.info(f'Successfully exported test report {self.test_name} to file.')
-- 
2.43.0


From e53fd7874d2801df27f755dbea342437bb3abcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:11 +0000
Subject: [PATCH 15/33] fix: tolerate optional packages that fail to import
 with other errors

Broken installations of optional packages raise more than import errors (e.g. OSError for
a missing shared library, AttributeError for an incompatible dependency), which made the
whole library unusable instead of only the features requiring the package.
---
 gerabaldi/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index e877190..2a40014 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -129,7 +129,7 @@ def _convert_time(time, units, **kwargs):
 def _on_demand_import(module: str, pypi_name: str = None):
     try:
         return importlib.import_module(module)
-    except (ImportError, SystemError) as e:
+    except Exception as e:
         # Module name and pypi package name do not always match, we want to tell the user the package to install
         if not pypi_name:
             pypi_name = module
-- 
2.43.0


From 856e48356dcdba4d3d4cf27a04a08268222d916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:08 +0000
Subject: [PATCH 16/33] fix: accept the stress time in the default
 non-degrading mechanism equation

Simulating a mechanism model without an equation always raised a TypeError.
---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index c0489fa..22d4281 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -373,7 +373,7 @@ class MechMdl(LatentMdl):
     ):
         if not mech_eqn:
             # Default is a non-degrading model, parameter stays the same (i.e. 'fresh') regardless of stress and time
-            def no_wear_out():
+            def no_wear_out(time):
                 return unitary_val
 
             mech_eqn = no_wear_out
-- 
2.43.0


From c6b77c690d782b253415b9718676b4e1ec457ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:31 +0000
Subject: [PATCH 17/33] fix: let several simulations share one test
 specification

Simulations kept their position in the test within the specification itself, so a nested,
concurrent or aborted simulation of the same specification skipped or repeated steps.
---
 gerabaldi/sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index ae06ffb..497d652 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -232,7 +232,8 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
 
     # We now execute the test step by step, sequentially performing measurements and stress intervals in order
     # Note that sim_state and test_report are mutated as the test progresses, the other data structures are untouched
-    for i, step in enumerate(test_def):
+    # Loop over the steps directly, as the test specification's own iterator can only be used by one loop at a time
+    for i, step in enumerate(test_def.steps):
         # Check whether the next step is a measurement or period of stress
         if type(step) is StrsSpec:
             _sim_stress_step(step, sim_state, dev_mdl, test_env, test_report, i)
-- 
2.43.0


From 0cca49a383abc67927e5c1a78f01318e7e350867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:31 +0000
Subject: [PATCH 18/33] fix: reject stress steps with negative durations

The simulated clock ran backwards and degradation was evaluated at negative times.
---
 gerabaldi/sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 497d652..038670d 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -91,6 +91,10 @@ def gen_init_state(
 def _sim_stress_step(
     step: StrsSpec, sim_state: SimState, dev_mdl: DeviceMdl, test_env: PhysTestEnv, report: SimReport, step_id: int
 ):
+    # Stress durations can be specified as any timedelta, but time cannot stand still or run backwards
+    if step.duration <= timedelta():
+        raise UserConfigError(f"Stress step '{step.name}' cannot have a time duration of 0 or less.")
+
     # 1. Build the stochastically-adjusted set of stress conditions
     # Only need to generate stress conditions for device parameters that degrade, get the list of those parameters
     deg_prm_list = [prm for prm in dev_mdl.prm_mdl_list if type(dev_mdl.prm_mdl(prm)) is DegPrmMdl]
-- 
2.43.0


From c5104c8237faafa146018c816bc0f3bd0131e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:58 +0000
Subject: [PATCH 19/33] fix: find equivalent stress times of equations that are
 flat over a range of times

---
 gerabaldi/models/devices.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 22d4281..f17fae1 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -552,7 +552,11 @@ class DegMechMdl(MechMdl):
 
         # Computes the absolute difference between the target value and the calculated value using a given time
         def residue(time, curr_deg_val, conds, ltnts):
-            return abs(curr_deg_val - deg_at(time, conds, ltnts))
+            deg = deg_at(time, conds, ltnts)
+            # Equations can be flat over a range of times (e.g. saturation, thresholds), so a negligible slope is included
+            # to steer the search towards longer times if there is too little degradation, and shorter times if too much
+            excess = np.sign(np.abs(np.subtract(deg, init_val)) - np.abs(np.subtract(curr_deg_val, init_val)))
+            return abs(curr_deg_val - deg) * (1 + (1e-12 * excess * np.log10(time)))
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
         times = minimize(residue, extra_args={'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents},
-- 
2.43.0


From 9369fc2c2501de60eb79e4fb0600a8095810f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:38 +0000
Subject: [PATCH 20/33] fix: pass scalars of any numeric type to equations
 evaluated device by device

---
 gerabaldi/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 2a40014..cb34d67 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -177,7 +177,8 @@ def _get_single_index(vals: dict, i: int, j: int, k: int) -> dict:
             new[key] = _get_single_index(vals[key], i, j, k)
         elif type(val) in [np.ndarray, list]:
             new[key] = val[i][j][k]
-        elif type(val) in [int, float, np.float64, tuple]:
+        else:
+            # Any other value, such as a unitary value of any numeric type, is the same for all items
             new[key] = val
     return new
 
-- 
2.43.0


From 6cbe6b50a7ced2467c057da6ee0d8ebadcdcbdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:38 +0000
Subject: [PATCH 21/33] fix: let one instrument or variation model serve
 several parameters of an environment

---
 gerabaldi/models/phys_envs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 4f8bca3..e31957f 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -328,18 +328,20 @@ class PhysTestEnv:
         if env_vrtns is None:
             env_vrtns = []
         elif type(env_vrtns) is dict:
-            # If passed as a dictionary, set the object names and transform to list
+            # If passed as a dictionary, set the object names; the same object may be used for several conditions
             for prm in env_vrtns:
                 env_vrtns[prm].name = prm
-            env_vrtns = [env_vrtns[prm] for prm in env_vrtns]
+                setattr(self, prm + '_var', env_vrtns[prm])
+            env_vrtns = []
         if meas_instms is None:
             meas_instms = []
         elif type(meas_instms) is dict:
             for prm in meas_instms:
                 meas_instms[prm].name = prm
-            meas_instms = [meas_instms[prm] for prm in meas_instms]
+                setattr(self, prm + '_instm', meas_instms[prm])
+            meas_instms = []
 
-        # Create attributes for each parameter
+        # Create attributes for each parameter passed in a list
         for prm in env_vrtns:
             setattr(self, prm.name + '_var', prm)
         for prm in meas_instms:
-- 
2.43.0


From 41da62ff38c034f9a0790ec218010ac025fb0638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:03 +0000
Subject: [PATCH 22/33] fix: simulate from states whose elapsed time is a
 number of hours

---
 gerabaldi/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 038670d..8dde103 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -229,6 +229,9 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
 
     # Prepare the simulation data persistence structure
     sim_state = gen_init_state(dev_mdl, quantity_info=test_report) if not init_state else deepcopy(init_state)
+    # Stress durations are added to the elapsed time as the test progresses, thus must be a timedelta
+    if not isinstance(sim_state.elapsed, timedelta):
+        sim_state.elapsed = _convert_time(sim_state.elapsed, None)
     # The state determines how many instances of each degrading parameter there are, which can be more than are measured
     for prm, mech_vals in sim_state.curr_deg_mech_vals.items():
         for vals in mech_vals.values():
-- 
2.43.0


From ce0c21d9ab993c7fbe2a48e9f61a03b36bf0f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:04 +0000
Subject: [PATCH 23/33] fix: tolerate rounding when deciding whether a stress
 can reach the present degradation

A mechanism value barely above its unitary value (e.g. 1 + 3e-13 after a microsecond of stress) is only known
to within floating point rounding, which was taken for a stress unable to reach it: the mechanism then stayed
frozen for the whole of the next stress.
---
 gerabaldi/models/devices.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index f17fae1..6a18d0f 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -564,7 +564,10 @@ class DegMechMdl(MechMdl):
         # When the conditions can't produce as much degradation as already present (e.g. saturation, thresholds) the
         # search settles on some arbitrary time, in this case there is no valid equivalent stress time
         found = np.abs(np.subtract(deg_at(times, strs_conds, latents), init_val))
-        return np.where(found < 0.999 * np.abs(np.subtract(deg_val, init_val)), self._max_equiv_time(), times)[()]
+        # Degradation that is tiny compared to the value it is part of is only known to within the floating point rounding
+        rounding = 1e-14 * np.maximum(np.abs(deg_val), np.abs(init_val))
+        too_little = found < (0.999 * np.abs(np.subtract(deg_val, init_val))) - rounding
+        return np.where(too_little, self._max_equiv_time(), times)[()]
 
 
 class FailMechMdl(MechMdl):
-- 
2.43.0


From e457f1536f57d9a4375fb84adcc491915aa4e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:08 +0000
Subject: [PATCH 24/33] fix: round very small readings to significant figures
 instead of losing them

---
 gerabaldi/models/phys_envs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index e31957f..4b2e3a1 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -5,7 +5,6 @@
 
 from __future__ import annotations
 
-from math import floor, log10
 import numpy as np
 import pandas as pd
 
@@ -81,10 +80,10 @@ class MeasInstrument:
             meas_vals = meas_vals.add(self._error.sample(len(meas_vals)))
         if self._precision:
             # This line allows for rounding to significant figures instead of to a decimal place
-            # The calculation for determining the sig figs -> decimal places is pretty standard and widely explained
+            # Going through scientific notation avoids scaling by a power of ten that overflows for very small values
             # Ternary operator is used to handle special cases that cause the rounding to fail otherwise
             meas_vals = meas_vals.apply(
-                lambda x: x if x == 0 or not np.isfinite(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
+                lambda x: x if x == 0 or not np.isfinite(x) else type(x)(float(f'{x:.{self._precision - 1}e}'))
             )
         if self._range:
             # If the measured value exceeds the measurement range then force it to the limit
-- 
2.43.0


From a4602c03776e2166d3ef5ce9895f4088d9b0c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:49 +0000
Subject: [PATCH 25/33] fix: refuse steps the simulator cannot run instead of
 skipping them silently

---
 gerabaldi/sim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 8dde103..8fd7c2a 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -10,7 +10,7 @@ from datetime import timedelta
 from copy import deepcopy
 
 from gerabaldi.models import *
-from gerabaldi.exceptions import MissingParamError, UserConfigError
+from gerabaldi.exceptions import InvalidTypeError, MissingParamError, UserConfigError
 from gerabaldi.helpers import logger, _convert_time
 
 __all__ = ['simulate', 'gen_init_state']
@@ -246,6 +246,8 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
             _sim_stress_step(step, sim_state, dev_mdl, test_env, test_report, i)
         elif type(step) is MeasSpec:
             _sim_meas_step(step, sim_state, dev_mdl, test_env, test_report, i)
+        else:
+            raise InvalidTypeError(f'Step {i} of test {test_def.name} is neither a stress nor a measurement specification.')
 
     logger.info('Simulation complete!')
     return test_report
-- 
2.43.0


From 959bf34ef716db436b55568fce8b285b3ff3a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:49 +0000
Subject: [PATCH 26/33] fix: hand time units down to mechanisms of derived
 classes

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 6a18d0f..9ae2052 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -892,7 +892,7 @@ class DegPrmMdl(LatentMdl):
     def propagate_time_unit(self, dev_time_unit: str = None) -> None:
         time_unit = self.time_unit if self.time_unit else dev_time_unit
         for mech in self.mech_mdl_list:
-            if type(self.mech_mdl(mech)) in (DegMechMdl, FailMechMdl):
+            if isinstance(self.mech_mdl(mech), MechMdl):
                 self.mech_mdl(mech).set_time_unit(time_unit)
 
     def mech_mdl(self, mdl):
-- 
2.43.0


From 1c31dc3852dc031249d4b86904606bdaaa3d724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:10 +0000
Subject: [PATCH 27/33] fix: size parameters without mechanisms or with
 constant initial values by the devices of the test

---
 gerabaldi/models/devices.py | 2 +-
 gerabaldi/sim.py            | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 9ae2052..d255b5e 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -805,7 +805,7 @@ class InitValMdl(LatentMdl):
         # Can either generate the dev and lot variations here, or they could be provided as method arguments
         latents = self.gen_latent_vals(num_devs, num_chps, num_lots)
         # Compute the initial values using the model's specified equation
-        return self.compute(**latents)
+        return np.full((num_lots, num_chps, num_devs), self.compute(**latents))
 
 
 class DegPrmMdl(LatentMdl):
diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 8fd7c2a..bae0a79 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -233,9 +233,8 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
     if not isinstance(sim_state.elapsed, timedelta):
         sim_state.elapsed = _convert_time(sim_state.elapsed, None)
     # The state determines how many instances of each degrading parameter there are, which can be more than are measured
-    for prm, mech_vals in sim_state.curr_deg_mech_vals.items():
-        for vals in mech_vals.values():
-            test_report.dev_counts[prm] = vals.shape[2]
+    for prm, vals in sim_state.curr_prm_vals.items():
+        test_report.dev_counts[prm] = vals.shape[2]
 
     # We now execute the test step by step, sequentially performing measurements and stress intervals in order
     # Note that sim_state and test_report are mutated as the test progresses, the other data structures are untouched
-- 
2.43.0


From 6dd432397418760ebaa2516f74d90c2625ddb970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:45 +0000
Subject: [PATCH 28/33] fix: name layer distributions set on an already named
 latent variable

---
 gerabaldi/models/devices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index d255b5e..d997346 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -165,6 +165,9 @@ class LatentVar:
             if not self._lot_vrtns:
                 value = Deterministic(self._unitary)
         super().__setattr__(name, value)
+        # Layers set on a latent that already has a name have to be named like those it was built with
+        if name in ['dev_vrtn_mdl', 'chp_vrtn_mdl', 'lot_vrtn_mdl'] and getattr(self, 'name', None) is not None:
+            self.name = self.name
 
     def gen_latent_vals(self, num_devs: int = 1, num_chps: int = 1, num_lots: int = 1) -> np.ndarray:
         """
-- 
2.43.0


From c6bc22391cfd0edff06bcd9c4ec3fd2419c66a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:14 +0000
Subject: [PATCH 29/33] fix: keep instruments of a parameter named meas apart
 from the lookup method

---
 gerabaldi/models/phys_envs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 4b2e3a1..6170855 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -337,14 +337,14 @@ class PhysTestEnv:
         elif type(meas_instms) is dict:
             for prm in meas_instms:
                 meas_instms[prm].name = prm
-                setattr(self, prm + '_instm', meas_instms[prm])
+                setattr(self, f'_{prm}_instm', meas_instms[prm])
             meas_instms = []
 
         # Create attributes for each parameter passed in a list
         for prm in env_vrtns:
             setattr(self, prm.name + '_var', prm)
         for prm in meas_instms:
-            setattr(self, prm.name + '_instm', prm)
+            setattr(self, f'_{prm.name}_instm', prm)
 
     def meas_instm(self, prm: str) -> MeasInstrument:
         """
@@ -360,7 +360,7 @@ class PhysTestEnv:
         MeasDevice
             A device to measure the parameter, either one previously defined for it or an ideal one if none exists
         """
-        return getattr(self, prm + '_instm', MeasInstrument(prm))
+        return getattr(self, f'_{prm}_instm', MeasInstrument(prm))
 
     def vrtn_mdl(self, prm: str) -> EnvVrtnMdl:
         """
-- 
2.43.0


From 99bee8397a64fa8d5c2f62066c862167892ef993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:43 +0000
Subject: [PATCH 30/33] fix: keep a test condition named time from replacing
 the stress time of mechanisms

---
 gerabaldi/models/devices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index d997346..eddb01b 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -456,7 +456,7 @@ class MechMdl(LatentMdl):
         for arg in self.compute_args:
             if arg in latents:
                 arg_vals[arg] = latents[arg]
-            elif arg in strs_conds:
+            elif arg in strs_conds and arg != 'time':
                 arg_vals[arg] = strs_conds[arg]
         # Calculate the degradation for all samples
         try:
@@ -545,7 +545,7 @@ class DegMechMdl(MechMdl):
             for arg in self.compute_args:
                 if arg in ltnts:
                     arg_vals[arg] = ltnts[arg]
-                elif arg in conds:
+                elif arg in conds and arg != 'time':
                     arg_vals[arg] = conds[arg]
             # Calculate the degradation for the sample
             try:
-- 
2.43.0


From 557c0726454044540ee1c50db8e09a00162f8841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:42 +0000
Subject: [PATCH 31/33] fix: let latent variables and environmental variation
 models be copied and pickled

---
 gerabaldi/models/devices.py   | 5 +++++
 gerabaldi/models/phys_envs.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index eddb01b..f9a48b0 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -169,6 +169,11 @@ class LatentVar:
         if name in ['dev_vrtn_mdl', 'chp_vrtn_mdl', 'lot_vrtn_mdl'] and getattr(self, 'name', None) is not None:
             self.name = self.name
 
+    def __setstate__(self, state):
+        # The settings of a copied or unpickled variable fit together already, so they are not handled as edits
+        for name, value in state[1].items():
+            super().__setattr__(name, value)
+
     def gen_latent_vals(self, num_devs: int = 1, num_chps: int = 1, num_lots: int = 1) -> np.ndarray:
         """
         Generate stochastic samples of the variable for the specified number of individual samples, devices, and lots.
diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 6170855..0d94fe9 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -204,6 +204,11 @@ class EnvVrtnMdl:
                 value = Deterministic(self._unitary)
         super().__setattr__(name, value)
 
+    def __setstate__(self, state):
+        # The settings of a copied or unpickled model fit together already, so they are not handled as edits
+        for name, value in state[1].items():
+            super().__setattr__(name, value)
+
     def gen_batch_vrtn(self, base_val: float) -> np.ndarray:
         """
         Generate a stochastic variation value for the environmental condition at the batch stochastic layer
-- 
2.43.0


From f14b84e4ff6da95415df87b3d86f8b38ce61706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:42 +0000
Subject: [PATCH 32/33] fix: let models with equations be copied

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index f9a48b0..0c7027a 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -277,7 +277,7 @@ class LatentMdl:
                 return x
 
         self.compute = mdl_eqn
-        self.compute_args = inspect.signature(self.compute).parameters.keys()
+        self.compute_args = list(inspect.signature(self.compute).parameters)
         # Define 'true'/underlying values for equation inputs used to simulate degradation
         # No latent variable values should be specified when performing model inference
         self.latent_vars = []
-- 
2.43.0


From cab3670fc496eb2e365e5d6f5c15f455c9517245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:43 +0000
Subject: [PATCH 33/33] fix: give the copy of a random variable a generator of
 its own

---
 gerabaldi/models/random_vars.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index a809aec..cdfcd8d 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -31,9 +31,9 @@ class RandomVar:
             self._dist_type = dist_type
         # Test seed is used to make the random variable sampling reproducible for testing purposes only
         if test_seed is not None:
-            self._generator = getattr(np.random.default_rng(seed=test_seed), self._dist_type)
+            self._generator = np.random.default_rng(seed=test_seed)
         else:
-            self._generator = getattr(np.random.default_rng(), self._dist_type)
+            self._generator = np.random.default_rng()
 
     def _get_dist_params(self, target: str = 'pymc'):
         if target == 'pymc':
@@ -59,7 +59,7 @@ class RandomVar:
         numpy.ndarray
             A 1D array containing the sampled values
         """
-        return self._generator(size=quantity, **self._get_dist_params('numpy'))
+        return getattr(self._generator, self._dist_type)(size=quantity, **self._get_dist_params('numpy'))
 
     def get_cbi_form(self, target_framework: str = 'pymc', observed: np.ndarray = None):
         """
-- 
2.43.0

