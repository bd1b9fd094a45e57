From 72b7a9cc1fbf245849ccc5efe9f77956af7a77cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 01/75] fix: decode strings when loading HDF5 files

h5py >= 3 hands out variable length strings as bytes, so every loaded string was
"b'...'" (and string valued Series contained bytes). No Autotuner could be reloaded.
---
 qtune/storage.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 783a523..3054c3f 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -45,6 +45,10 @@ def _get_dtype(arr):
     return arr.dtype
 
 
+def _decode(text: Union[str, bytes]) -> str:
+    return text.decode('utf-8') if isinstance(text, bytes) else text
+
+
 def _import_all():
     import qtune.autotuner
     import qtune.evaluator
@@ -247,12 +251,16 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
 
             if hdf5_obj.attrs['#type'] == 'Series':
                 idx = hdf5_obj.attrs['index']
-                result = pd.Series(data=np.asarray(hdf5_obj), index=idx)
+                data = np.asarray(hdf5_obj)
+                if data.dtype == 'O':
+                    # h5py >= 3 returns variable length strings as bytes
+                    data = np.array([_decode(entry) for entry in data], dtype=object)
+                result = pd.Series(data=data, index=idx)
                 deserialized[hdf5_obj.id] = result
                 return result
 
             if hdf5_obj.attrs['#type'] == 'str':
-                result = str(np.asarray(hdf5_obj))
+                result = _decode(hdf5_obj[()])
                 deserialized[hdf5_obj.id] = result
                 return result
 
-- 
2.43.0


From 366e2d7ee6fb6874234a58a1b5f703e1d9dee9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 02/75] fix: do not confuse short-lived objects with the same
 id when writing HDF5

Objects created by to_hdf5() (e.g. the gradient of a KalmanGradient) were freed while
their id was still registered, so later objects reusing the id were stored as
references to unrelated data.
---
 qtune/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index 3054c3f..84e0299 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -111,6 +111,8 @@ def _to_hdf5(hdf5_parent_group: h5py.Group, name, obj, serialized):
         serialized[id(obj)] = hdf5_group
 
         data = obj.to_hdf5()
+        # identity is only meaningful while the object lives: keep temporaries created by to_hdf5 alive
+        serialized.setdefault('#alive', []).append(data)
         for key, value in data.items():
             _to_hdf5(hdf5_group, key, value, serialized)
         return
-- 
2.43.0


From 32f9ae2979da0729bd27164e70e0cf09a85cc48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 03/75] fix: do not write a debug dump when loading an HDF5
 file fails

A ValueError of a constructor was masked by the attempt to pickle the arguments to
D:\temp.txt.
---
 qtune/storage.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 84e0299..0a05d0f 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -213,11 +213,7 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
             try:
                 deserialized[hdf5_obj.id] = cls(**kwargs)
             except ValueError:
-                import logging
                 logging.getLogger().error(hdf5_obj.name)
-                import pickle
-                with open(r'D:\temp.txt', 'wb') as f:
-                    pickle.dump(kwargs, f)
                 logging.getLogger().error(kwargs)
 
                 raise
-- 
2.43.0


From 61757d64512b1306b24640499d2cb92af7ba5fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 04/75] fix: AsynchronousHDF5Writer.join no longer blocks
 forever after a failed write

The worker stops at the first failing write. If it did so after join() found it alive,
Queue.join() waited for tasks nobody was going to process.
---
 qtune/storage.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 0a05d0f..8409c35 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -353,7 +353,6 @@ class AsynchronousHDF5Writer:
         """Stop writing and join thread."""
         if self._worker.is_alive():
             self._queue.put(None)
-            self._queue.join()
 
         elif self._queue.qsize():
             warnings.warn("Storage queue contains data but the writer worker is already dead.")
-- 
2.43.0


From 057a3e179e40abc7292d95ad8848b7728366814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 05/75] fix: recognise the reserved experiment in the
 multiprocess HDF5 writer

The placeholder of the experiment lost its identity when pickled, so the experiment was
stored as an integer instead of a reserved entry and the file could not be loaded.
---
 qtune/experiment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/experiment.py b/qtune/experiment.py
index 82646e4..9c72f53 100644
--- a/qtune/experiment.py
+++ b/qtune/experiment.py
@@ -88,4 +88,5 @@ class Experiment:
         raise NotImplementedError()
 
     def __deepcopy__(self, memodict={}):
-        return id(self)
+        # numpy scalar: keeps its identity if several references are pickled together (multiprocess writer)
+        return np.int64(id(self))
-- 
2.43.0


From d9ed8976ca06110a991c2ce1cd1b601d58fd9877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 06/75] fix: NewtonSolver keeps parameters without desired
 value invariant

The required difference of a parameter with desired value NaN was minus its current
value, i.e. it was driven to zero instead of being left invariant.
---
 qtune/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index f32e986..95a5e5a 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -229,7 +229,7 @@ class NewtonSolver(Solver):
         # our jacobian is sufficiently accurate
         # nan targets are replaced with the current values
 
-        required_diff = self.target.desired.add(-1 * self._current_values, fill_value=0).fillna(0)
+        required_diff = (self.target.desired - self._current_values).fillna(0)
 
         jacobian = self.jacobian[self._current_position.index]
 
-- 
2.43.0


From 802f443b4e6a744b88c6375185be416ec10f9b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 07/75] fix: NewtonSolver passes each gradient estimator the
 variance of its own parameter

The values were selected by name but the variances by position.
---
 qtune/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 95a5e5a..4b35460 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -245,7 +245,8 @@ class NewtonSolver(Solver):
     def update_after_step(self, position: pd.Series, values: pd.Series, variances: pd.Series):
         for estimator, value, value_index, variance in zip(self._gradient_estimators,
                                                            values[self._current_values.index],
-                                                           self._current_values.index, variances):
+                                                           self._current_values.index,
+                                                           variances[self._current_values.index]):
             if not math.isnan(self.target.desired[value_index]):
                 estimator.update(position, value, variance, is_new_position=True)
         self._current_position = position[self._current_position.index]
-- 
2.43.0


From a13dd0b6e681ce28aafbabc0c330e76fbe8e6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 08/75] fix: allow targets with parameters which are not
 evaluated by the tuner

Parameters which should be left invariant are appended to the target with the desired
value NaN, but evaluating such a tuner raised a KeyError.
---
 qtune/parameter_tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index fb394b9..7bfaf57 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -161,7 +161,8 @@ class ParameterTuner(metaclass=HDF5Serializable):
             parameter, variance = evaluator.evaluate()
             parameters.append(parameter)
             variances.append(variance)
-        return pd.concat(parameters)[self.parameters], pd.concat(variances)[self.parameters]
+        # parameters of the target which are kept invariant do not have to be evaluated
+        return pd.concat(parameters).reindex(self.parameters), pd.concat(variances).reindex(self.parameters)
 
     def is_tuned(self, voltages: pd.Series) -> bool:
         """
-- 
2.43.0


From 29f9668dc08eadb6422d90eb1b079f170e3de120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 09/75] fix: reload parameter tuners with invariant parameters
 in their target

The last values only contain the parameters with a complete target, but on reloading
they were required to contain every parameter of the target.
---
 qtune/parameter_tuner.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 7bfaf57..a624083 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -59,9 +59,9 @@ class ParameterTuner(metaclass=HDF5Serializable):
         self._last_evaluation_failed = last_evaluation_failed
         self._evaluatable_voltages = evaluatable_voltages or []
 
+        not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
+                                        axis='columns').dropna().index
         if last_parameter_values is None:
-            not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
-                                            axis='columns').dropna().index
             self._last_parameter_values = pd.Series(index=not_na_index)
         else:
             # commented code was used for a debug attempt of the asynchron reader
@@ -71,18 +71,16 @@ class ParameterTuner(metaclass=HDF5Serializable):
             # storage_path = r'D:\debug_%d.txt' % random.randint(0,10000)
             # with open(storage_path, 'wb') as file:
             #     file.write(data)
-            assert set(self.target.dropna(how='all').index).issubset(set(last_parameter_values.index))
+            assert set(not_na_index).issubset(set(last_parameter_values.index))
             self._last_parameter_values = last_parameter_values
 
             # import os
             # os.remove(storage_path)
 
         if last_parameters_variances is None:
-            not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
-                                            axis='columns').dropna().index
             self._last_parameters_variances = pd.Series(index=not_na_index)
         else:
-            assert set(self.target.index).issubset(set(last_parameters_variances.index))
+            assert set(not_na_index).issubset(set(last_parameters_variances.index))
             self._last_parameters_variances = last_parameters_variances
 
         self._evaluators = tuple(evaluators)
-- 
2.43.0


From 60c109f05903878e0ceef6044686cc7e91238e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 10/75] fix: ParameterTuner.last_voltages setter updates the
 voltages

The gate names were intersected with the voltage values, so a restart never updated the
last voltages.
---
 qtune/parameter_tuner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index a624083..8f761e0 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -105,7 +105,9 @@ class ParameterTuner(metaclass=HDF5Serializable):
         if self.last_voltages is None or self.last_voltages.empty:
             self._last_voltage = new_voltages
         else:
-            index_intersection = self.last_voltages.index.intersection(new_voltages)
+            index_intersection = self.last_voltages.index.intersection(new_voltages.index)
+            # the current object may also be listed in the tuned or evaluatable voltages
+            self._last_voltage = self._last_voltage.copy()
             self._last_voltage[index_intersection] = new_voltages[index_intersection]
 
     @property
-- 
2.43.0


From 5e9dbb441cd2d6e87f3e4bf442eaab3eada5f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 11/75] fix: GradientEstimator.current_position setter updates
 the position

The gate names were intersected with the voltage values, so a restart left the finite
differences estimator at its old position.
---
 qtune/gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index a699a6a..a32c61e 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -44,7 +44,7 @@ class GradientEstimator(metaclass=HDF5Serializable):
 
     @current_position.setter
     def current_position(self, new_positions: pd.Series):
-        index_intersection = new_positions.index.intersection(self.current_position)
+        index_intersection = new_positions.index.intersection(self.current_position.index)
         self._current_position[index_intersection] = new_positions[index_intersection]
 
     def change_position(self, new_position: pd.Series):
-- 
2.43.0


From ab9708c12d598e35e38abc4b5dd57ea48bbb9b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 12/75] fix: evaluate the parameters again after a restart or a
 change of the targets

If the current tuner had just been evaluated, the first tuner of the hierarchy was asked
for new voltages without evaluating it at the new voltages or against the new targets.
---
 qtune/autotuner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index cfed351..b0e6841 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -216,6 +216,7 @@ class Autotuner(metaclass=HDF5Serializable):
         for i, target_change in enumerate(target_changes):
             self.tuning_hierarchy[i].target = target_change
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
 
     def __getstate__(self):
@@ -294,6 +295,7 @@ class Autotuner(metaclass=HDF5Serializable):
         """ Reads new voltages and communicates them to the member classes. This function can be called when the
         experiment has been configured manually."""
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
         current_voltages = self._experiment.read_gate_voltages()
         for par_tuner in self.tuning_hierarchy:
-- 
2.43.0


From 7a6e37aeefd7b134725c00646eef4bd7090ba42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 13/75] fix: SubsetTuner evaluates again after finishing its
 queued steps early

If the distance to the suggested position dropped to the maximal step size while steps
were still queued, the queue was never emptied and the parameters never evaluated again.
---
 qtune/parameter_tuner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 8f761e0..be406cd 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -273,6 +273,9 @@ class SubsetTuner(ParameterTuner):
                 self._number_queued_steps = min(number_of_steps, self._maximal_step_number)
             self._number_queued_steps -= 1
             step *= self._maximal_step_size / np.linalg.norm(step)
+        else:
+            # the remaining step is done at once
+            self._number_queued_steps = 0
 
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
-- 
2.43.0


From b7ea8017ee457e4ef2fe16f8a65c1672b3a48981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 14/75] fix: SubsetTuner only changes its own gates

A gradient estimator which knows more gates than the tuner may change suggests a position
including these gates. While steps are queued its position is outdated, so the gates of
other tuners were set back to old voltages.
---
 qtune/parameter_tuner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index be406cd..bba6044 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -263,6 +263,7 @@ class SubsetTuner(ParameterTuner):
             return 0.5 * (self._evaluatable_voltages[-1] + self._last_voltage)
 
         solver_voltage = self._solver.suggest_next_position(tuned_parameters)
+        solver_voltage = solver_voltage[solver_voltage.index.intersection(self._tunable_gates)]
         new_voltages = pd.Series(self._last_voltage).copy(deep=True)
         new_voltages[solver_voltage.index] = solver_voltage
         step = new_voltages - self._last_voltage
-- 
2.43.0


From a04a36fb247a13f413fa96b4b8e81d3eb2a56da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 15/75] fix: discard the queued steps of a SubsetTuner on
 restart

The steps were queued for the voltages before the restart and were continued without
evaluating the parameters at the new voltages.
---
 qtune/parameter_tuner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index bba6044..6f120b0 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -281,6 +281,10 @@ class SubsetTuner(ParameterTuner):
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
 
+    def restart(self, new_voltages):
+        self._number_queued_steps = 0
+        super().restart(new_voltages)
+
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
-- 
2.43.0


From 29094f867b2a7d756c35f52d071d92643c1d693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 16/75] fix: store the tuned voltages and evaluation failure of
 the SensingDotTuner

After reloading, the tuner forgot that its last evaluation failed and had no tuned
voltages to recover to.
---
 qtune/parameter_tuner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 6f120b0..46bf8e4 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -410,7 +410,9 @@ class SensingDotTuner(ParameterTuner):
                     expensive_evaluators=self._expensive_evaluators,
                     gates=self._tunable_gates,
                     solver=self.solver,
+                    tuned_voltages=self._tuned_voltages,
                     last_voltage=self._last_voltage,
                     last_parameter_values=self._last_parameter_values,
                     last_parameters_variances=self._last_parameters_variances,
+                    last_evaluation_failed=self._last_evaluation_failed,
                     cheap_evaluation_only=self.cheap_evaluation_only)
-- 
2.43.0


From 9551d1e4ded7dcb0f3e8be11a58da6f045abbda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 17/75] fix: store all constructor arguments of the evaluators

The flank of the sensing dot evaluators, the sample rate of LeadTunnelTimePrefitVersion and
the transition width of LeadTransition were reset to their defaults by reloading.
---
 qtune/evaluator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 008e6d9..c1be1db 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -199,6 +199,7 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
+                    sample_rate=self.sample_rate,
                     evaluation_arguments=self.evaluation_arguments)
 
 
@@ -574,7 +575,7 @@ class LeadTransition(Evaluator):
                     transition_positions=self.transition_positions,
                     shifting_gates=self._shifting_gates,
                     charge_diagram_width=self._charge_diagram_width,
-                    transition_width=.2e-3)
+                    transition_width=self.transition_width)
 
 
 class SensingDot1D(Evaluator):
@@ -594,7 +595,7 @@ class SensingDot1D(Evaluator):
                  optimal_signal=None,
                  optimal_position=None,
                  name='SensingDot1D',
-                 rising_flank=Optional[bool]):
+                 rising_flank: Optional[bool]=None):
         self._sweeping_gate = sweeping_gate
         self.current_signal = current_signal
         self.optimal_signal = optimal_signal
@@ -661,7 +662,8 @@ class SensingDot1D(Evaluator):
                     sweeping_gate=self._sweeping_gate,
                     current_signal=self.current_signal,
                     optimal_signal=self.optimal_signal,
-                    optimal_position=self.optimal_position)
+                    optimal_position=self.optimal_position,
+                    rising_flank=self._rising_flank)
 
 
 class SensingDot2D(Evaluator):
@@ -765,7 +767,8 @@ class SensingDot2D(Evaluator):
         return dict(super().to_hdf5(),
                     sweeping_gates=self._sweeping_gates,
                     scan_range=self._scan_range,
-                    new_voltages=self._new_voltages)
+                    new_voltages=self._new_voltages,
+                    rising_flank=self._rising_flank)
 
 
 class AveragingEvaluator(Evaluator):
-- 
2.43.0


From 87e3d56f43d1c69729815c387b998d439fe8cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 18/75] fix: SensingDot1D evaluation

numpy.polynomial has no poly1d and arrays can not be indexed by a float, so the
evaluation always failed.
---
 qtune/evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index c1be1db..fcce360 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -643,7 +643,7 @@ class SensingDot1D(Evaluator):
         raw_x_data = np.squeeze(raw_data[0])
         raw_y_data = np.squeeze(raw_data[1])
         coef = np.polynomial.polynomial.polyfit(raw_x_data, raw_y_data, deg=10)
-        polynomial_approximation = np.polynomial.poly1d(coef[::-1])
+        polynomial_approximation = np.poly1d(coef[::-1])
         derivative_approximation = np.diff(polynomial_approximation(raw_x_data))
         cutoff = len(raw_x_data) // 16
         if self._rising_flank:
@@ -653,7 +653,7 @@ class SensingDot1D(Evaluator):
             steepest_point = np.argmin(derivative_approximation[cutoff:-cutoff])
             self.optimal_signal = np.min(derivative_approximation)
         self.optimal_position = raw_x_data[steepest_point + cutoff]
-        self.current_signal = derivative_approximation[0.5 * self.measurements[0].options['N_points']]
+        self.current_signal = derivative_approximation[int(0.5 * self.measurements[0].options['N_points'])]
 
         return self.current_signal, self.optimal_signal, self.optimal_position
 
-- 
2.43.0


From fe66dac00e7a23385756bfdf7e960d83115f1b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 19/75] fix: LeadTransition restores the gate voltages if the
 measurement fails

---
 qtune/evaluator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index fcce360..8d9ece9 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -540,9 +540,11 @@ class LeadTransition(Evaluator):
         raw_data = []
         for measurement, shift_gate in zip(self.measurements, self._shifting_gates):
             shift = pd.Series(-1. * self._charge_diagram_width, [shift_gate])
-            self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
-            raw_data.append(self.experiment.measure(measurement))
-            self.experiment.set_gate_voltages(current_gate_voltages)
+            try:
+                self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
+                raw_data.append(self.experiment.measure(measurement))
+            finally:
+                self.experiment.set_gate_voltages(current_gate_voltages)
         transition_positions, error = self.process_raw_data(raw_data=raw_data)
 
         # TODO: this should be obsolete
-- 
2.43.0


From 5b7839ae191f0aa7032968b1afdbb1af832e5299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 20/75] fix: append autotuners whose gradients are not
 estimated yet to the History

The class pd.Series was used instead of an empty instance.
---
 qtune/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index c074e76..6139bbd 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -560,11 +560,11 @@ def extract_gradients_from_hierarchy(tuning_hierarchy) -> (Dict[str, pd.Series],
         if isinstance(tuner.solver, qtune.solver.NewtonSolver):
             for i, grad_est in enumerate(tuner.solver.gradient_estimators):
                 if grad_est.estimate() is None:
-                    gradients[tuner.solver.target.index[i]] = pd.Series
+                    gradients[tuner.solver.target.index[i]] = pd.Series(dtype=float)
                 else:
                     gradients[tuner.solver.target.index[i]] = grad_est.estimate()
                 if grad_est.covariance() is None:
-                    covariances[tuner.solver.target.index[i]] = pd.Series
+                    covariances[tuner.solver.target.index[i]] = pd.DataFrame()
                 else:
                     covariances[tuner.solver.target.index[i]] = grad_est.covariance()
     return gradients, covariances
-- 
2.43.0


From 8f40a57ba430e0d779e59dc1430cc0e9381e982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 21/75] fix: history.read_files returns the data

list.sort returns None.
---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 6139bbd..130dd9f 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -116,7 +116,7 @@ def read_files(file_or_files, reserved=None):
 
                 data.append((entry, entry_data))
 
-    return data.sort(key=operator.itemgetter(0))
+    return sorted(data, key=operator.itemgetter(0))
 
 
 class History:
-- 
2.43.0


From b683764dbc5a2033d8dddd4a0750ac9c1c721aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 22/75] fix: History ignores subdirectories of the HDF5 library

A reloaded Autotuner stores its states in a subdirectory of the library it was loaded
from, which made it impossible to load that library again.
---
 qtune/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 130dd9f..e5efe37 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -332,7 +332,8 @@ class History:
         """
         with qtune.storage.ParallelHDF5Reader(reserved={'experiment': self.experiment}, multiprocess=False) as reader:
             directory_content = [os.path.join(path, file)
-                                 for file in sorted(os.listdir(path))]
+                                 for file in sorted(os.listdir(path))
+                                 if os.path.isfile(os.path.join(path, file))]
             for file, loaded_data in zip(directory_content, reader.read_iter(directory_content)):
                 autotuner = loaded_data['autotuner']
                 self.append_autotuner(autotuner, file)
-- 
2.43.0


From 0b8ab9612589cb3fa7bad4228033900024f4e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 23/75] fix: History returns the gradients of exactly the
 requested parameter

The names were not matched as a whole, so the gradients of parameters whose name ends with
the requested name were mixed in, and get_gradient_covariances returned only NaN.
---
 qtune/history.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index e5efe37..7678143 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -209,8 +209,8 @@ class History:
         :param parameter_name: Parameter of the gradient of interest.
         :return: Gradient history.
         """
-        regex = re.compile(self._gradient_name.format(parameter_name=parameter_name,
-                                                      gate_name=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_name.format(parameter_name=re.escape(parameter_name),
+                                                            gate_name=r'([^#]+)') + '$')
         return self._data_frame.filter(regex=regex).rename(lambda name: regex.findall(name)[0], axis='columns')
 
     def get_gradient_covariances(self, parameter_name) -> pd.DataFrame:
@@ -219,13 +219,14 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: Gradient covariance history.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'([\w\s\d]+)',
-                                                                 gate_name_2=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'([^#]+)',
+                                                                       gate_name_2=r'([^#]+)') + '$')
         df = self._data_frame.filter(regex=regex)
         df = df[sorted(df.columns, key=regex.findall)]
+        df.columns = pd.MultiIndex.from_tuples([regex.match(name).groups() for name in df.columns])
 
-        return pd.DataFrame(df, columns=pd.MultiIndex.from_tuples(map(regex.findall, df.columns)))
+        return df
 
     def get_gradient_variances(self, parameter_name) -> pd.DataFrame:
         """
@@ -233,9 +234,9 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: History of the diagonal of the covariance matrix.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'(?P<gatename>[\w\s\d]+)',
-                                                                 gate_name_2=r'(?P=gatename)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'(?P<gatename>[^#]+)',
+                                                                       gate_name_2=r'(?P=gatename)') + '$')
         return self._data_frame.filter(regex=regex).rename(columns=lambda name: regex.search(name).group('gatename'))
 
     def read_autotuner_to_data_frame(self, autotuner: qtune.autotuner.Autotuner, start: int = 0,
-- 
2.43.0


From 4d9dc02ce876188ba2117aa29cde086ca16f6dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 24/75] fix: symmetric finite differences with a given current
 position

The measurement at the current position was taken for the first half of a symmetric pair.
The mirrored position is the current position itself, so the gradient calculation failed.
---
 qtune/gradient.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index a32c61e..954ef17 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -189,6 +189,11 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 self._stored_measurements.append((position[self._current_position.index], value, variance))
 
         elif self._current_estimate is None:
+            if self._symmetric_calculation and \
+                    (position[self._current_position.index] == self._current_position).all():
+                # the base point is not part of any symmetric pair
+                return
+
             self._stored_measurements.append((position[self._current_position.index], value, variance))
 
             positions, values, variances = zip(*self._stored_measurements)
-- 
2.43.0


From f7a1f196a275b32a030d6facdf016af23b31c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 25/75] fix: NelderMeadSolver starts a new iteration after each
 completed move

After an expansion, contraction or shrink the solver repeated this move forever instead of
reflecting the new worst point, shrunk points did not replace the simplex and the centroid
included the worst point.
---
 qtune/solver.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 4b35460..522bddb 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -374,7 +374,8 @@ class NelderMeadSolver(Solver):
         positions = self.get_positions()
         worst_position = positions[-1]
 
-        m = pd.DataFrame(positions).mean(axis=0)
+        # the centroid does not include the worst point
+        m = pd.DataFrame(positions[:-1]).mean(axis=0)
         r = 2 * m - worst_position
         s = m + 2 * (m - worst_position)
         c = m + (r - m) / 2
@@ -450,6 +451,7 @@ class NelderMeadSolver(Solver):
                 self._insert_into_simplex(position, values)
             else:
                 self._insert_into_simplex(reflected_pos, reflected_val)
+            self._state = self.State.start_iteration
 
         elif self._state == self.State.contract_outside:
             reflected_pos, reflected_val = self._reflected_point
@@ -458,6 +460,7 @@ class NelderMeadSolver(Solver):
             contraction_cost = self.cost_function(values)
             if contraction_cost < reflection_cost:
                 self._insert_into_simplex(position, values)
+                self._state = self.State.start_iteration
 
             else:
                 self._state = self.State.shrink
@@ -468,6 +471,7 @@ class NelderMeadSolver(Solver):
             contraction_cost = self.cost_function(values)
             if contraction_cost < worst_cost:
                 self._insert_into_simplex(position, values)
+                self._state = self.State.start_iteration
 
             else:
                 self._state = self.State.shrink
@@ -476,9 +480,10 @@ class NelderMeadSolver(Solver):
             self._shrunk_points.append((position, values))
 
             if len(self._shrunk_points) == len(self._current_position):
-                for shrink_point in self._shrunk_points:
-                    self._insert_into_simplex(*shrink_point)
+                self._simplex = self._simplex[:1] + self._shrunk_points
+                self._simplex = self._get_sorted_simplex()
                 self._shrunk_points = []
+                self._state = self.State.start_iteration
 
         else:
             # we just got a point without requesting it
-- 
2.43.0


From 8ecf13221e6c34c62e9c5bfe32f0acd8e8988f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 26/75] fix: store and reload the NelderMeadSolver

The default cost function can not be written to HDF5 and the stored state was not a valid
argument of the constructor.
---
 qtune/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 522bddb..fd0841b 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -285,7 +285,7 @@ class NelderMeadSolver(Solver):
                  current_values: pd.Series,
                  reflected_point: Optional[Tuple[pd.Series, pd.Series]] = None,
                  shrunk_points: Optional[Sequence[Tuple[pd.Series, pd.Series]]] = None,
-                 cost_function: Callable = lambda v: np.sum(v * v),
+                 cost_function: Optional[Callable] = None,
                  state='built_up'):
         """
 
@@ -345,7 +345,7 @@ class NelderMeadSolver(Solver):
         if self._cost_function:
             return self._cost_function(values)
         else:
-            np.sum(values * values)
+            return np.sum(values * values)
 
     def get_costs(self):
         return [self.cost_function(values) for _, values in self.simplex]
@@ -507,7 +507,7 @@ class NelderMeadSolver(Solver):
                     reflected_point=self._reflected_point,
                     shrunk_points=self._shrunk_points,
                     cost_function=self._cost_function,
-                    state=str(self._state))
+                    state=self._state.value)
 
 
 class ForwardingSolver(Solver):
-- 
2.43.0


From 96ac2249a613e1196101738b321494e6950081ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 27/75] fix: NelderMeadSolver.suggest_next_position accepts the
 tuned parameters

The parameter tuners pass them to every solver.
---
 qtune/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index fd0841b..4a685b6 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -370,7 +370,7 @@ class NelderMeadSolver(Solver):
         self._simplex = self._get_sorted_simplex()
         self._simplex.pop()
 
-    def suggest_next_position(self) -> pd.Series:
+    def suggest_next_position(self, tuned_parameters=None) -> pd.Series:
         positions = self.get_positions()
         worst_position = positions[-1]
 
-- 
2.43.0


From aedcd57fb65752bfa058c2dd832acac5e7d8f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 28/75] fix: GUI logs to its logger

The name of the logger was used like a logger, so start, step and pause failed.
---
 qtune/gui.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 41ac735..53267ef 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -559,14 +559,14 @@ class GUI(QtWidgets.QMainWindow):
         self._stop_btn = stop_btn
         self._step_btn = step_btn
 
+        self._logger = logger
+
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
         self._stop = False
         self._thread.start()
 
-        self._logger = logger
-
         self._plot_organizer = []
         self._parameter_windows = []
         self._gradient_windows = []
@@ -684,13 +684,13 @@ class GUI(QtWidgets.QMainWindow):
 
     def _join_worker(self):
         if self._thread.is_alive():
-            self._logger.info('Joining thread')
+            self.logger.info('Joining thread')
         self._stop = True
         self._thread.join()
 
     def restart_thread(self):
         self._join_worker()
-        self._logger.info('Restarting thread')
+        self.logger.info('Restarting thread')
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
@@ -707,7 +707,7 @@ class GUI(QtWidgets.QMainWindow):
                     try:
 
                         if self.auto_tuner.is_tuning_complete():
-                            self._logger.info('Tuning completed')
+                            self.logger.info('Tuning completed')
                             self.pause()
                         else:
                             self.auto_tuner.iterate()
@@ -718,10 +718,10 @@ class GUI(QtWidgets.QMainWindow):
                             self._update_plots.emit()
 
                     except Exception:
-                        self._logger.exception('Error during auto tuner iteration: Pausing...')
+                        self.logger.exception('Error during auto tuner iteration: Pausing...')
                         self.pause()
                 else:
-                    self._logger.error('No Autotuner: Pausing...')
+                    self.logger.error('No Autotuner: Pausing...')
                     self.pause()
 
                 self._stepped = False
@@ -731,14 +731,14 @@ class GUI(QtWidgets.QMainWindow):
 
     def start(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
         elif self._continuous:
-            self._logger.info('Already started')
+            self.logger.info('Already started')
 
         else:
-            self._logger.info('Starting worker thread')
+            self.logger.info('Starting worker thread')
 
         self._continuous = True
         self._start_btn.setEnabled(False)
@@ -747,19 +747,19 @@ class GUI(QtWidgets.QMainWindow):
 
     def step(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
-        self._logger.info('Order worker to do one step')
+        self.logger.info('Order worker to do one step')
         self._stepped = True
 
     def pause(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread already dead')
+            self.logger.warning('Worker thread already dead')
         elif self._continuous:
-            self._logger.info('Pausing worker thread')
+            self.logger.info('Pausing worker thread')
         elif not self._stepped:
-            self._logger.info('Already paused')
+            self.logger.info('Already paused')
 
         self._continuous = False
         self._stepped = False
-- 
2.43.0


From 2d628cf102cd913476848ba68e473cf3c6512264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 29/75] fix: closing the GUI stops a continuously running
 worker

Because of the operator precedence the stop flag was ignored in continuous mode, so close
waited for the worker forever.
---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 53267ef..0b74b9c 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -702,7 +702,7 @@ class GUI(QtWidgets.QMainWindow):
             while not (self._stop or self._continuous or self._stepped):
                 time.sleep(0.05)
 
-            while self._continuous or self._stepped and not self._stop:
+            while (self._continuous or self._stepped) and not self._stop:
                 if self.auto_tuner:
                     try:
 
-- 
2.43.0


From 23f51c9f1bc614bb78126b48b2e87a85c6218f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 30/75] fix: recognise the inaccurately set base point of
 symmetric finite differences

---
 qtune/gradient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 954ef17..0a4a9cd 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -189,9 +189,9 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 self._stored_measurements.append((position[self._current_position.index], value, variance))
 
         elif self._current_estimate is None:
-            if self._symmetric_calculation and \
-                    (position[self._current_position.index] == self._current_position).all():
-                # the base point is not part of any symmetric pair
+            displacement = (position[self._current_position.index] - self._current_position).abs()
+            if self._symmetric_calculation and (displacement < 1e-2 * self._epsilon.abs()).all():
+                # the base point (as accurate as the gates can be set) is not part of any symmetric pair
                 return
 
             self._stored_measurements.append((position[self._current_position.index], value, variance))
-- 
2.43.0


From 741064c46d54c45b338af42d6e4eafb3ae10852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 31/75] fix: a repeated measurement replaces the previous one
 in finite differences

---
 qtune/gradient.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 0a4a9cd..e10d7e3 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -130,6 +130,10 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
     def change_position(self, new_position: pd.Series):
         self._current_position[new_position.index] = new_position
 
+    def _same_position(self, position_1: pd.Series, position_2: pd.Series) -> bool:
+        """Compares the positions with respect to the step size as gates can be set with finite accuracy only."""
+        return bool(((position_1 - position_2).abs() < 1e-2 * self._epsilon.abs()).all())
+
     def estimate(self) -> pd.Series:
         return self._current_estimate
 
@@ -189,12 +193,15 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 self._stored_measurements.append((position[self._current_position.index], value, variance))
 
         elif self._current_estimate is None:
-            displacement = (position[self._current_position.index] - self._current_position).abs()
-            if self._symmetric_calculation and (displacement < 1e-2 * self._epsilon.abs()).all():
-                # the base point (as accurate as the gates can be set) is not part of any symmetric pair
+            position_in_order = position[self._current_position.index]
+            if self._symmetric_calculation and self._same_position(position_in_order, self._current_position):
+                # the base point is not part of any symmetric pair
                 return
 
-            self._stored_measurements.append((position[self._current_position.index], value, variance))
+            # a repeated measurement (e.g. after a change of other gates) replaces the previous one
+            self._stored_measurements = [measurement for measurement in self._stored_measurements
+                                         if not self._same_position(position_in_order, measurement[0])]
+            self._stored_measurements.append((position_in_order, value, variance))
 
             positions, values, variances = zip(*self._stored_measurements)
 
-- 
2.43.0


From 4d8cc2fb5b673b72d7abc663269d1cb1a4259263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:55 +0000
Subject: [PATCH 32/75] fix: covariance of asymmetric finite differences
 includes the common base point

---
 qtune/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qtune/util.py b/qtune/util.py
index a46e05d..fcfd649 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -189,11 +189,12 @@ def calculate_gradient_non_orthogonal(positions: Sequence[np.ndarray],
 
     if variances:
         if n_points == n_dim + 1:
-            diff_variances = np.stack(variances[1:]) + variances[0]
+            # all differences share the base point and are therefore correlated
+            diff_covariance = np.diag(np.stack(variances[1:])) + variances[0]
         else:
-            diff_variances = np.stack(variances[1::2]) + np.stack(variances[::2])
+            diff_covariance = np.diag(np.stack(variances[1::2]) + np.stack(variances[::2]))
 
-        gradient_covariance = inverted_volt_diffs.T @ np.diag(diff_variances) @ inverted_volt_diffs
+        gradient_covariance = inverted_volt_diffs.T @ diff_covariance @ inverted_volt_diffs
         return gradient, gradient_covariance
 
     return gradient
-- 
2.43.0


From 7657b1fc5ad372a08c0758923612213deaf5dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:55 +0000
Subject: [PATCH 33/75] fix: find_lead_transition does not modify its input

---
 qtune/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/util.py b/qtune/util.py
index fcfd649..6b9836f 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -74,7 +74,7 @@ def find_lead_transition(data: np.ndarray, center: float, scan_range: float, npo
     if len(data.shape) == 2:
         y = np.mean(data, 0)
     elif len(data.shape) == 1:
-        y = data
+        y = data.copy()
     else:
         print('data must be a one or two dimensional array!')
         return np.nan
-- 
2.43.0


From a7e2cb92319f64f83533e84e514abaa384370dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 34/75] fix: linearly dependent positions raise an
 EvaluationError despite rounding errors

---
 qtune/util.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/qtune/util.py b/qtune/util.py
index 6b9836f..201bae3 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -129,6 +129,15 @@ def find_stepes_point_sensing_dot(data: np.ndarray, scan_range=5e-3, npoints=128
     return detuning
 
 
+def _invert_voltage_diff(voltage_diff: np.ndarray, positions: Sequence[np.ndarray]) -> np.ndarray:
+    """Inverts the matrix of voltage differences. The differences are considered linearly dependent if they are so
+    within the floating point accuracy of the positions."""
+    accuracy = 4 * len(voltage_diff) * np.finfo(float).eps * np.max(np.abs(np.stack(positions)))
+    if np.linalg.matrix_rank(voltage_diff, tol=accuracy) < len(voltage_diff):
+        raise EvaluationError('The measured positions are linearly dependent.')
+    return np.linalg.inv(voltage_diff)
+
+
 # def gradient_min_evaluations(parameters: List(np.ndarray, ...), voltage_points: List(np.ndarray, ...)):
 def gradient_min_evaluations(parameters, voltage_points):
     """
@@ -150,11 +159,7 @@ def gradient_min_evaluations(parameters, voltage_points):
     else:
         raise RuntimeError("Invalid number of points", parameters, voltage_points)
 
-    try:
-        gradient = np.dot(parameter_diff, np.linalg.inv(voltage_diff))
-    except np.linalg.LinAlgError as err:
-        raise EvaluationError() from err
-    return gradient
+    return np.dot(parameter_diff, _invert_voltage_diff(voltage_diff, voltage_points))
 
 
 def calculate_gradient_non_orthogonal(positions: Sequence[np.ndarray],
@@ -180,10 +185,7 @@ def calculate_gradient_non_orthogonal(positions: Sequence[np.ndarray],
     else:
         raise RuntimeError("Invalid number of points", positions, values)
 
-    try:
-        inverted_volt_diffs = np.linalg.inv(voltage_diff)
-    except np.linalg.LinAlgError as err:
-        raise EvaluationError() from err
+    inverted_volt_diffs = _invert_voltage_diff(voltage_diff, positions)
 
     gradient = parameter_diff @ inverted_volt_diffs
 
-- 
2.43.0


From fc5b92eed37acda92d54b0f06f04ccda519a2489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:47 +0000
Subject: [PATCH 35/75] fix: SensingDotTuner recovers from failed expensive
 evaluations

---
 qtune/parameter_tuner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 46bf8e4..3dc4c09 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -373,6 +373,10 @@ class SensingDotTuner(ParameterTuner):
                 self._last_parameter_values[current_parameter.index] = current_parameter[current_parameter.index]
                 self._last_parameters_variances[current_parameter.index] = variances[current_parameter.index]
 
+                if current_parameter.isnull().values.any():
+                    self._last_evaluation_failed = True
+                    return False
+
             self.solver.update_after_step(voltages, current_parameter, variances)
             return False
         else:
-- 
2.43.0


From 81b711ac1e518303adecf564f8969887cc716461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:06 +0000
Subject: [PATCH 36/75] fix: NelderMeadSolver builds up a non degenerate
 simplex if the starting point is measured again

---
 qtune/solver.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 4a685b6..7398cd0 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -416,7 +416,13 @@ class NelderMeadSolver(Solver):
         values = values[self._current_values.index]
 
         if len(self.simplex) < len(self.current_position) + 1:
-            self.simplex.append((position, values))
+            # a repeated measurement (e.g. of the starting point) replaces the previous one
+            for i, (old_position, _) in enumerate(self.simplex):
+                if ((position - old_position).abs() < 1e-2 * self._span.abs()).all():
+                    self.simplex[i] = (position, values)
+                    break
+            else:
+                self.simplex.append((position, values))
 
             if len(self.simplex) == len(self.current_position) + 1:
                 self._simplex = self._get_sorted_simplex()
-- 
2.43.0


From 606c830ca60482ff761efaba16d8a33450b5982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 37/75] fix: restart and target changes of the NelderMeadSolver

---
 qtune/solver.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/qtune/solver.py b/qtune/solver.py
index 7398cd0..0b79b74 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -332,6 +332,15 @@ class NelderMeadSolver(Solver):
     def target(self):
         return self._target
 
+    @target.setter
+    def target(self, changes: Dict[str, pd.Series]):
+        Solver.target.fset(self, changes)
+        # the order of the points depends on the target
+        self._shrunk_points = []
+        if self._state != self.State.build_up:
+            self._simplex = self._get_sorted_simplex()
+            self._state = self.State.start_iteration
+
     @property
     def simplex(self) -> Deque[Tuple[pd.Series, pd.Series]]:
         """Sorted chronologically if state=built_up otherwise sorted by cost"""
@@ -354,10 +363,23 @@ class NelderMeadSolver(Solver):
     def current_position(self) -> pd.Series:
         return self._current_position
 
+    @current_position.setter
+    def current_position(self, new_position: pd.Series):
+        # the current object may also be part of the simplex
+        self._current_position = self._current_position.copy()
+        Solver.current_position.fset(self, new_position)
+
     @property
     def current_values(self) -> pd.Series:
         return self._current_values
 
+    def restart(self, new_position):
+        # build up a new simplex around the new position
+        self._simplex = []
+        self._shrunk_points = []
+        self._state = self.State.build_up
+        super().restart(new_position)
+
     def _get_sorted_simplex(self) -> list:
         def get_entry_cost(entry):
             _, values = entry
-- 
2.43.0


From fb631177d51b50dae59f2a1b8f19723c03c7f8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 38/75] fix: discard the queued steps of a SubsetTuner when its
 target changes

---
 qtune/parameter_tuner.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 3dc4c09..d25901b 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -220,6 +220,12 @@ class SubsetTuner(ParameterTuner):
     def tunable_gates(self):
         return self._tunable_gates
 
+    @ParameterTuner.target.setter
+    def target(self, changes):
+        # the queued steps lead to the previous target
+        self._number_queued_steps = 0
+        self.solver.target = changes
+
     def is_tuned(self, voltages: pd.Series) -> bool:
         """
         Checks if the parameters agree with the target within the tolarance.
-- 
2.43.0


From 8f304bc796f81e4d8eaa74e6d31dea2378ad5b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:49 +0000
Subject: [PATCH 39/75] fix: a restart discards the measurements of an
 unfinished finite difference estimation

---
 qtune/gradient.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index e10d7e3..006fe5b 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -226,6 +226,12 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
             self._current_estimate = gradient
             self._covariance = covariance
 
+    def restart(self, new_position):
+        if self._current_estimate is None:
+            # the previous measurements were taken around another position
+            self._stored_measurements = []
+        super().restart(new_position)
+
     def to_hdf5(self):
         return dict(current_position=self._current_position,
                     epsilon=self._epsilon,
-- 
2.43.0


From a0d2118430d16a50b4487d8d6cdb39d38813921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:32 +0000
Subject: [PATCH 40/75] fix: load an array referenced several times as one
 shared object

---
 qtune/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index 8409c35..460e4b5 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -271,6 +271,8 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
         if isinstance(result, h5py.Reference):
             return _from_hdf5(root, result, deserialized)
         else:
+            if isinstance(result, np.ndarray):
+                deserialized[hdf5_obj.id] = result
             return result
 
     else:
-- 
2.43.0


From dd6c3181e71c1c5aa8e2ea2058a1756b06ac9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:32 +0000
Subject: [PATCH 41/75] fix: write several objects with reserved objects to the
 same HDF5 file

---
 qtune/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 460e4b5..2301630 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -175,7 +175,8 @@ def to_hdf5(filename_or_handle: Union[str, h5py.Group], name: str, obj,
     serialized = dict()
 
     for key, value in reserved.items():
-        dset = root.create_dataset(name=key, dtype='f')
+        # a file which already contains objects contains the placeholders as well
+        dset = root[key] if key in root else root.create_dataset(name=key, dtype='f')
         serialized[id(value)] = dset
         dset.attrs["#type"] = "#reserved"
 
-- 
2.43.0


From 42b26c1bb4ac7d308b7f1c717fc4283c59dd29d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 42/75] fix: LeadTransition evaluates each line scan with the
 options of its own measurement

---
 qtune/evaluator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 8d9ece9..2a751ee 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -557,15 +557,15 @@ class LeadTransition(Evaluator):
         error = pd.Series()
         self._raw_x_data = []
         self._raw_y_data = []
-        for data, gate in zip(raw_data, self._shifting_gates):
+        for data, gate, measurement in zip(raw_data, self._shifting_gates, self.measurements):
             if len(data.shape) == 2:
                 data = data.mean(0)
             transition_pos = \
-                qtune.util.new_find_lead_transition_index(data, int(.2e-3 / self.measurements[0].options["range"] *
-                                                          self.measurements[0].options["N_points"]))
-            x_data = np.linspace(start=self._measurements[0].options['center'] - self.measurements[0].options['range'],
-                                 stop=self._measurements[0].options['center'] + self.measurements[0].options['range'],
-                                 num=self.measurements[0].options['N_points'])
+                qtune.util.new_find_lead_transition_index(data, int(.2e-3 / measurement.options["range"] *
+                                                          measurement.options["N_points"]))
+            x_data = np.linspace(start=measurement.options['center'] - measurement.options['range'],
+                                 stop=measurement.options['center'] + measurement.options['range'],
+                                 num=measurement.options['N_points'])
             self._raw_x_data.append(x_data)
             self._raw_y_data.append(data)
             self.transition_positions["position_" + gate] = x_data[transition_pos]
-- 
2.43.0


From f117abaded4a321bc4a3f0ef52be8c717146c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:26 +0000
Subject: [PATCH 43/75] fix: reload finite difference estimators with stored
 measurements

---
 qtune/gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 006fe5b..06764bb 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -114,8 +114,8 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
         self._covariance = covariance
 
         if stored_measurements is not None:
-            for measurement in stored_measurements:
-                pd.testing.assert_index_equal(measurement.index, epsilon.index)
+            for position, *_ in stored_measurements:
+                pd.testing.assert_index_equal(position.index, self._epsilon.index)
         self._stored_measurements = stored_measurements or []
 
         # only for debugging purposes
-- 
2.43.0


From 2804bced26a050123d6479fa4ed7c1d440a59375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:21 +0000
Subject: [PATCH 44/75] fix: LeadTunnelTimeByLeadScan models the fall with the
 fall time

---
 qtune/evaluator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 2a751ee..616017a 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -324,18 +324,20 @@ def func_lead_times_v2(x, height: float, t_fall: float, t_rise: float, begin_ris
     x = np.squeeze(x)
     n_points = len(x)
     y = np.zeros((n_points, ))
-    c = np.cosh(.5 * half_time / t_rise)
-    s = np.sinh(.5 * half_time / t_rise)
+    c_rise = np.cosh(.5 * half_time / t_rise)
+    s_rise = np.sinh(.5 * half_time / t_rise)
+    c_fall = np.cosh(.5 * half_time / t_fall)
+    s_fall = np.sinh(.5 * half_time / t_fall)
     for i in range(n_points):
         if exp_begin_rise <= x[i] <= begin_fall:
             e = np.exp(.5*(begin_fall - 2. * x[i]) / t_rise)
             signed_height = height
-            y[i] = offset + .5 * signed_height * (c - e) / s
+            y[i] = offset + .5 * signed_height * (c_rise - e) / s_rise
 
         elif x[i] <= begin_rise:
             e = np.exp(.5*(1. * begin_fall - 2. * (x[i] + x[n_points - 1])) / t_fall)
             signed_height = -1. * height
-            y[i] = offset + .5 * signed_height * (c - e) / s
+            y[i] = offset + .5 * signed_height * (c_fall - e) / s_fall
         elif begin_fall < x[i] < exp_begin_fall:
             y[i] = offset_linear + x[i] * slope
         elif begin_rise < x[i] < exp_begin_rise:
@@ -343,7 +345,7 @@ def func_lead_times_v2(x, height: float, t_fall: float, t_rise: float, begin_ris
         else:
             e = np.exp(.5*(half_time + 2. * begin_fall - 2. * x[i]) / t_fall)
             signed_height = -1. * height
-            y[i] = offset + .5 * signed_height * (c - e) / s
+            y[i] = offset + .5 * signed_height * (c_fall - e) / s_fall
     return y
 
 
-- 
2.43.0


From 92d1f965d32bf3cf26836eb8b0399b7d77315661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 45/75] fix: SensingDot1D returns positive variances on a
 falling flank

---
 qtune/evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 616017a..c5b22ea 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -638,9 +638,9 @@ class SensingDot1D(Evaluator):
         values["position_" + gate] = optimal_position
         error["position_" + gate] = 0.1e-3
         values["current_signal"] = current_signal
-        error["current_signal"] = current_signal / 5
+        error["current_signal"] = abs(current_signal) / 5
         values["optimal_signal"] = optimal_signal
-        error["optimal_signal"] = optimal_signal / 5
+        error["optimal_signal"] = abs(optimal_signal) / 5
         return values, error
 
     def process_raw_data(self, raw_data):
-- 
2.43.0


From de4af88f0c68803b9e808d9ae9b57915d19fd7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:29 +0000
Subject: [PATCH 46/75] fix: SensingDot2D follows the rising flank if it is
 requested

---
 qtune/evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index c5b22ea..0fe70f5 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -754,10 +754,10 @@ class SensingDot2D(Evaluator):
             differentiated_approximation[i] = np.diff(poly(raw_x_data[1]))
         cutoff = raw_x_data[1].size // 25
         if self._rising_flank:
-            steepest_point = np.unravel_index(np.argmin(differentiated_approximation[:, cutoff:-cutoff], axis=None),
+            steepest_point = np.unravel_index(np.argmax(differentiated_approximation[:, cutoff:-cutoff], axis=None),
                                               differentiated_approximation[:, cutoff:-cutoff].shape)
         else:
-            steepest_point = np.unravel_index(np.argmax(differentiated_approximation[:, cutoff:-cutoff], axis=None),
+            steepest_point = np.unravel_index(np.argmin(differentiated_approximation[:, cutoff:-cutoff], axis=None),
                                               differentiated_approximation[:, cutoff:-cutoff].shape)
 
         new_voltages = pd.Series([raw_x_data[0][steepest_point[0]], raw_x_data[1][steepest_point[1] + cutoff]],
-- 
2.43.0


From e36fef7030dea8d67bf28cd624eb4fd97ed373a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 47/75] fix: a failed multiprocess writer does not block the
 exit of the program

---
 qtune/storage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index 2301630..ddd8f12 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -362,6 +362,10 @@ class AsynchronousHDF5Writer:
 
         self._worker.join()
 
+        if hasattr(self._queue, 'cancel_join_thread'):
+            # nobody reads the queue any more: do not wait for snapshots left by a failed worker on exit
+            self._queue.cancel_join_thread()
+
     def __del__(self):
         self.join()
 
-- 
2.43.0


From f6deab4672ba036be2b06beb4c8cb125e22a39f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:12 +0000
Subject: [PATCH 48/75] fix: the History updates the entries of parameters
 measured again at unchanged voltages

---
 qtune/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 7678143..99f8be2 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -311,7 +311,8 @@ class History:
         if voltages.equals(self._data_frame[sorted(self.gate_names)].iloc[-1]):
             # stay in the row
             self._paths_for_reload[-1] = path
-            start = self._data_frame['tuner_index'].iloc[-1]
+            # the current tuner might have been evaluated again at unchanged voltages
+            start = max(0, min(self._data_frame['tuner_index'].iloc[-1], evaluated_tuner_index - 1))
             new_information = self.read_autotuner_to_data_frame(autotuner, start=start, end=evaluated_tuner_index)
             self._data_frame.loc[self._data_frame.index[-1], new_information.columns] = new_information.iloc[0]
             new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, start=start, end=evaluated_tuner_index)
-- 
2.43.0


From e4c68dd0d8a954c2e21174276ae610b77a628ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:15 +0000
Subject: [PATCH 49/75] fix: query the covariances of gradients which are not
 estimated yet from the History

---
 qtune/history.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 99f8be2..d37e281 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -224,7 +224,9 @@ class History:
                                                                        gate_name_2=r'([^#]+)') + '$')
         df = self._data_frame.filter(regex=regex)
         df = df[sorted(df.columns, key=regex.findall)]
-        df.columns = pd.MultiIndex.from_tuples([regex.match(name).groups() for name in df.columns])
+        if not df.columns.empty:
+            # nothing is known about gradients which are not estimated yet
+            df.columns = pd.MultiIndex.from_tuples([regex.match(name).groups() for name in df.columns])
 
         return df
 
-- 
2.43.0


From ecd039a3bc9ee4862150f8920e794c0063b042e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 50/75] fix: read_files reads files with reserved objects

---
 qtune/history.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index d37e281..9462fca 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -109,12 +109,14 @@ def read_files(file_or_files, reserved=None):
 
     for file_name in files:
         with h5py.File(file_name, 'r') as root:
-            entries = [key for key in root.keys() if not key.startswith('#')]
+            entries = [key for key, value in root.items()
+                       if not key.startswith('#') and value.attrs.get('#type') != '#reserved']
 
-            for entry in entries:
-                entry_data = qtune.storage.from_hdf5(root[entry], reserved)
+            # the entries may refer to reserved objects, which are stored next to them
+            loaded_data = qtune.storage.from_hdf5(root, reserved)
 
-                data.append((entry, entry_data))
+            for entry in entries:
+                data.append((entry, loaded_data[entry]))
 
     return sorted(data, key=operator.itemgetter(0))
 
-- 
2.43.0


From 03a1cd81cb119241a5b6afe494bda7139a8cc338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 51/75] fix: request gradient measurements in the most
 uncertain direction leaving tuned parameters invariant

The basis of these directions computed with sympy is arbitrary and not orthogonal. A badly conditioned basis could hide
an uncertain direction from all its vectors, such that the gradient was never measured and the tuning got stuck.
---
 qtune/gradient.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 06764bb..ca88b66 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -18,7 +18,6 @@ from typing import Optional, Union, Sequence
 
 import numpy as np
 import pandas as pd
-import sympy as sp
 
 from qtune.kalman_gradient import KalmanGradient
 from qtune.storage import HDF5Serializable
@@ -326,24 +325,26 @@ class KalmanGradientEstimator(GradientEstimator):
                 return self._current_position.add(self._epsilon[gates] * eigenvectors[:, np.argmax(lengths)],
                                                   fill_value=0.)
         else:
-            tuned_matrix = sp.Matrix(tuned_jacobian)
-            nullvecotors = [vec / vec.norm() for vec in tuned_matrix.nullspace()]
-            filled_nullvectors = []
-            for vec in nullvecotors:
-                full_vector = self.current_position.copy(deep=True)
-                vec_labled = pd.Series(np.squeeze(np.array(vec)), index=tuned_jacobian.columns)
-                full_vector[vec_labled.index] = vec_labled
-                full_vector[full_vector.index.difference(vec_labled.index)] = 0
-                filled_nullvectors.append(sp.Matrix(full_vector))
-            max_covariance = self._maximum_covariance.max()
-            directional_covariances = [v.T * self._kalman_gradient.cov * v for v in filled_nullvectors]
-            if np.any(np.array(directional_covariances) > max_covariance):
+            # orthonormal basis of the directions leaving the tuned parameters invariant
+            _, singular_values, rotation = np.linalg.svd(tuned_jacobian.values.astype(float))
+            rank = np.sum(singular_values > singular_values.max(initial=0.)
+                          * np.finfo(float).eps * max(tuned_jacobian.shape))
+            invariant_directions = pd.DataFrame(rotation[rank:].T, index=tuned_jacobian.columns)
+            invariant_directions = invariant_directions.reindex(self._current_position.index).fillna(0.).values
+
+            # all combinations of these directions are allowed
+            eigenvalues, eigenvectors = np.linalg.eigh(
+                invariant_directions.T @ self._kalman_gradient.cov @ invariant_directions)
+            if np.any(eigenvalues > self._maximum_covariance.max()):
+                # well defined choice if several directions are equally uncertain
+                most_uncertain = invariant_directions @ eigenvectors[:, eigenvalues > (1 - 1e-6) * eigenvalues.max()]
+                components = np.linalg.norm(most_uncertain, axis=1)
+                main_gate = np.flatnonzero(components > (1 - 1e-6) * components.max())[-1]
+                direction = most_uncertain @ most_uncertain[main_gate] / components[main_gate]
+
                 self.logger.info('New measurement required by kalman gradient estimator.')
-                self.logger.debug(self._epsilon * np.squeeze(
-                        np.array(filled_nullvectors[np.argmax(directional_covariances)]).astype(float)))
-                return self._current_position.add(
-                    self._epsilon * np.squeeze(
-                        np.array(filled_nullvectors[np.argmax(directional_covariances)]).astype(float)), fill_value=0.)
+                self.logger.debug(self._epsilon * direction)
+                return self._current_position.add(self._epsilon * direction, fill_value=0.)
 
     def update(self,
                position: pd.Series,
-- 
2.43.0


From 00022c16f3c60942ff94319020e8b9af3da37e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 52/75] fix: closing the GUI with the window manager stops its
 worker

Qt calls closeEvent in this case and not the overridden close, such that the tuning went on without window.
---
 qtune/gui.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qtune/gui.py b/qtune/gui.py
index 0b74b9c..7eceee4 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -772,6 +772,12 @@ class GUI(QtWidgets.QMainWindow):
         self._thread.join()
         super().close()
 
+    def closeEvent(self, event: QtGui.QCloseEvent):
+        # the window manager does not call close
+        self._stop = True
+        self._thread.join()
+        super().closeEvent(event)
+
     def __del__(self):
         self.close()
 
-- 
2.43.0


From 03f84f30845d7be345f1b8dd029ff9188abe9617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 53/75] fix: the reload window shows the tune run number it
 reloads

It initially showed 1 while the run with number 0 was reloaded.
---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 7eceee4..d27e21b 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -407,7 +407,7 @@ class ReloadWidget(pg.LayoutWidget):
         tune_run_label = QtWidgets.QLabel('Reload tune run number')
         self.addWidget(tune_run_label, 1, 1)
         self.tune_run_line = QtWidgets.QLineEdit()
-        self.tune_run_line.setText('1')
+        self.tune_run_line.setText(str(self.tune_run_number))
         self.tune_run_line.setValidator(QtGui.QIntValidator())
         self.tune_run_line.editingFinished.connect(self.refreh_tune_run_number)
         self.addWidget(self.tune_run_line, 2, 1)
-- 
2.43.0


From 0ed5db275ba3a6d66c4dac527b61c3cc2eaf72e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 54/75] fix: all open reload windows follow a reloaded
 autotuner

A reload window opened before another one reloaded a state kept the previous
autotuner and restarted it instead of the one of the main window.
---
 qtune/gui.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index d27e21b..36263b8 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -575,7 +575,8 @@ class GUI(QtWidgets.QMainWindow):
 
     @log_exceptions('plotting')
     def _close_child(self, window: QtWidgets.QWidget, event: QtGui.QCloseEvent):
-        for child_list in (self._plot_organizer, self._parameter_windows, self._gradient_windows, self._raw_data_windows):
+        for child_list in (self._plot_organizer, self._parameter_windows, self._gradient_windows, self._raw_data_windows,
+                           self._reload_windows):
             try:
                 child_list.remove(window)
                 break
@@ -607,6 +608,8 @@ class GUI(QtWidgets.QMainWindow):
     @log_exceptions('plotting')
     def load_auto_tuner_from_reload_widget(self):
         self._auto_tuner = self.sender().auto_tuner
+        for reload_widget in self._reload_windows:
+            reload_widget.auto_tuner = self._auto_tuner
 
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
-- 
2.43.0


From 917d4f063cfccf5e0a96004ef367708804c61222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 55/75] fix: plots of parameters without a predefined label

---
 qtune/history.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 9462fca..e10cdd6 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -510,8 +510,9 @@ def plot_parameters(parameter_data_frame: pd.DataFrame,
     parameter_ax = parameter_data_frame.plot(subplots=True, yerr=parameter_std,
                                              ax=parameter_ax, sharex=True, legend=False)
     for ax, par_name in zip(parameter_ax, parameter_data_frame.columns):
-        ax.set_ylabel(parameter_information[par_name]["entity_unit"])
-        ax.set_title(parameter_information[par_name]["name"])
+        information = parameter_information.get(par_name, {})
+        ax.set_ylabel(information.get("entity_unit", par_name))
+        ax.set_title(information.get("name", par_name))
     parameter_ax[-1].set_xlabel("Measurement Number")
     return parameter_fig, parameter_ax
 
@@ -534,7 +535,7 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
         else:
             gradient.plot(ax=ax)
 
-        ax.set_ylabel(parameter_information[parameter_name]["gradient_unit"])
+        ax.set_ylabel(parameter_information.get(parameter_name, {}).get("gradient_unit", parameter_name))
     grad_ax[0].set_title("Response Matrix")
     grad_ax[-1].set_xlabel("Measurement Number")
     return grad_fig, grad_ax
-- 
2.43.0


From df489e2a152f86fbc7079e976a8a498f70868238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 56/75] fix: plot of a single gradient

---
 qtune/history.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/history.py b/qtune/history.py
index e10cdd6..1f2761d 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -527,6 +527,8 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
         grad_fig, grad_ax = plt.subplots(nrows=len(gradients))
     else:
         grad_fig, grad_ax = None, axes
+    # a single subplot is not returned as array
+    grad_ax = np.atleast_1d(grad_ax)
 
     for ax, (parameter_name, gradient) in zip(grad_ax, gradients.items()):
         if parameter_name in gradient_std:
-- 
2.43.0


From f8338df0c8c757b8c4a904a735531254e297b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 57/75] fix: plot of gradients which are not estimated yet

---
 qtune/history.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 1f2761d..429ba3b 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -531,7 +531,11 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
     grad_ax = np.atleast_1d(grad_ax)
 
     for ax, (parameter_name, gradient) in zip(grad_ax, gradients.items()):
-        if parameter_name in gradient_std:
+        if gradient.empty:
+            # the gradient is not estimated yet
+            pass
+
+        elif parameter_name in gradient_std:
             gradient.plot(ax=ax, yerr=gradient_std[parameter_name].applymap(np.sqrt))
 
         else:
-- 
2.43.0


From bde186691641eac08cb18124b1c95ddc324d66de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 58/75] fix: the real time plot reads its selection with recent
 pyqtgraph versions

---
 qtune/gui.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 36263b8..397ca1e 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -142,7 +142,8 @@ class PlotOrganizer(pg.LayoutWidget):
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
     def refresh(self):
-        (_, gates), (_, params), (_, grads) = self.parameter.getValues().values()
+        # the groups themselves have no value
+        gates, params, grads = (group.getValues() for group in self.parameter.children())
         pens = (pg.intColor(idx, max(1, len(gates) + len(params))) for idx in itertools.count(0))
         plot_item = self.plot.getPlotItem()
 
-- 
2.43.0


From d8993829274876a9e46f3d61debf775df8144731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 59/75] fix: expanding the gates of a gradient does not break
 the real time plot

---
 qtune/gui.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/gui.py b/qtune/gui.py
index 397ca1e..5f42b7f 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -230,6 +230,9 @@ class PlotOrganizer(pg.LayoutWidget):
     @log_exceptions('plotting')
     def plot_selection_change(self, _, changes):
         for param, change, plot_activated in changes:
+            if change != 'value':
+                # e.g. expanding the list of gates
+                continue
             for child in param.children():
                 child.setValue(plot_activated)
         self.refresh()
-- 
2.43.0


From 94fd057fadfac6e527ab07b5980479701dcbb793 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 60/75] fix: maximum covariance per gate of estimators leaving
 tuned parameters invariant

---
 qtune/gradient.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index ca88b66..09b0828 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -335,9 +335,13 @@ class KalmanGradientEstimator(GradientEstimator):
             # all combinations of these directions are allowed
             eigenvalues, eigenvectors = np.linalg.eigh(
                 invariant_directions.T @ self._kalman_gradient.cov @ invariant_directions)
-            if np.any(eigenvalues > self._maximum_covariance.max()):
+            directions = invariant_directions @ eigenvectors
+
+            # rescale them as above (dimension-wise)
+            lengths = np.linalg.norm(eigenvalues * directions / self._maximum_covariance.values[:, np.newaxis], axis=0)
+            if np.any(lengths > 1):
                 # well defined choice if several directions are equally uncertain
-                most_uncertain = invariant_directions @ eigenvectors[:, eigenvalues > (1 - 1e-6) * eigenvalues.max()]
+                most_uncertain = directions[:, lengths > (1 - 1e-6) * lengths.max()]
                 components = np.linalg.norm(most_uncertain, axis=1)
                 main_gate = np.flatnonzero(components > (1 - 1e-6) * components.max())[-1]
                 direction = most_uncertain @ most_uncertain[main_gate] / components[main_gate]
-- 
2.43.0


From 794586095b4c238ef7fa11925abfeccc45bdb61c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 61/75] fix: gradient measurements with step widths per gate
 leave tuned parameters invariant

---
 qtune/gradient.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 09b0828..6327318 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -346,9 +346,12 @@ class KalmanGradientEstimator(GradientEstimator):
                 main_gate = np.flatnonzero(components > (1 - 1e-6) * components.max())[-1]
                 direction = most_uncertain @ most_uncertain[main_gate] / components[main_gate]
 
+                # different step widths of the gates must not change the direction
+                step = np.linalg.norm(self._epsilon * direction) * direction
+
                 self.logger.info('New measurement required by kalman gradient estimator.')
-                self.logger.debug(self._epsilon * direction)
-                return self._current_position.add(self._epsilon * direction, fill_value=0.)
+                self.logger.debug(step)
+                return self._current_position.add(pd.Series(step, index=self._current_position.index), fill_value=0.)
 
     def update(self,
                position: pd.Series,
-- 
2.43.0


From 0c19c884715521000f117c0c56a5ed947931b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 62/75] fix: solvers and gradient estimators do not modify the
 position given by the user

---
 qtune/gradient.py | 4 ++--
 qtune/solver.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 6327318..e9f93ac 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -101,7 +101,7 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
             else:
                 current_position = pd.Series(None, index=epsilon.index)
 
-        self._current_position = current_position
+        self._current_position = current_position.copy()
 
         if not isinstance(epsilon, pd.Series):
             epsilon = pd.Series(epsilon, index=current_position.index)
@@ -259,7 +259,7 @@ class KalmanGradientEstimator(GradientEstimator):
         :param epsilon: Step width by requested measurements to decrease the covariance
         """
         self._kalman_gradient = kalman_gradient
-        self._current_position = pd.Series(current_position)
+        self._current_position = pd.Series(current_position).copy()
         self._current_value = current_value
 
         if not isinstance(maximum_covariance, pd.Series):
diff --git a/qtune/solver.py b/qtune/solver.py
index 0b79b74..1a176ef 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -170,7 +170,7 @@ class NewtonSolver(Solver):
         self._target = target
         self._gradient_estimators = list(gradient_estimators)
         assert (len(self._target.index) == len(self._gradient_estimators))
-        self._current_position = current_position
+        self._current_position = current_position.copy()
         for gradient_estimator in gradient_estimators:
             assert set(self._current_position.index).issubset(set(gradient_estimator.current_position.index))
         if current_values is not None:
@@ -554,7 +554,7 @@ class ForwardingSolver(Solver):
         """
         self._target = target
         self._values_to_position = values_to_position
-        self._current_position = current_position
+        self._current_position = current_position.copy()
         if next_position is None:
             next_position = self._current_position.copy()
         else:
-- 
2.43.0


From 01b06826520aa80ce419c6c4a1b5d9aaeee42d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 63/75] fix: raw data of lead tunnel times is plotted with the
 function fitted to it

---
 qtune/history.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 429ba3b..464fc8e 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -642,8 +642,13 @@ def plot_lead_time(ax, evaluator_hdf5: dict, **_):
         axi = ax
     if isinstance(axi, List) or isinstance(axi, Tuple) or isinstance(axi, np.ndarray):
         axi = axi[0]
+    # evaluators fitting with different functions use this name
+    if evaluator_hdf5['fit_results'] is not None and 'length_lin_fall' in evaluator_hdf5['fit_results']:
+        fit_function = qtune.evaluator.func_lead_times_v2
+    else:
+        fit_function = qtune.evaluator.func_lead_times_v1
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
-                                 fit_function=qtune.evaluator.func_lead_times_v1,
+                                 fit_function=fit_function,
                                  function_args=evaluator_hdf5['fit_results'],
                                  initial_arguments=evaluator_hdf5['initial_fit_arguments'], ax=axi)
     axi.legend(['Data', 'Fit', 'Initial_parameters'])
-- 
2.43.0


From 825522a85db58247b07831190958ff77c5452e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 64/75] fix: 1D sensing dot scans are plotted on arrays of axes

---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 464fc8e..86f4c3e 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -664,7 +664,7 @@ def plot_transition(ax, evaluator_hdf5: dict, **_):
 
 
 def plot_1dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
-    if isinstance(ax, Tuple) or isinstance(ax, List):
+    if isinstance(ax, Tuple) or isinstance(ax, List) or isinstance(ax, np.ndarray):
         ax = ax[0]
     qtune.util.plot_raw_data_vertical_marks(y_data=evaluator_hdf5['raw_y_data'],
                                             x_data=evaluator_hdf5['raw_x_data'],
-- 
2.43.0


From 388fbc291192de93550a71728c4d789fe75aba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 65/75] fix: raw data of every averaging evaluator can be
 plotted

---
 qtune/history.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 86f4c3e..984c889 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -437,7 +437,8 @@ class History:
             if i not in self._evaluator_data.index:
                 raise RuntimeError('These indices are not in the aquired data!')
             number_measurements = [
-                len(self._evaluator_data.loc[self._evaluator_data.index[i], evaluator]['measurements'])
+                len(get_measurements_from_evaluator_data(
+                    self._evaluator_data.loc[self._evaluator_data.index[i], evaluator]))
                 for evaluator in evaluator_names
                 if not self._evaluator_data.loc[self._evaluator_data.index[i], evaluator] != self._evaluator_data.loc[
                     self._evaluator_data.index[i], evaluator]]
@@ -613,6 +614,13 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
     return evaluator_data
 
 
+def get_measurements_from_evaluator_data(evaluator_hdf5: dict):
+    if 'evaluator' in evaluator_hdf5:
+        # an averaging evaluator does the measurements of its evaluator
+        return evaluator_hdf5['evaluator'].measurements
+    return evaluator_hdf5['measurements']
+
+
 def plot_load_time(ax, evaluator_hdf5, **_):
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
                                  fit_function=qtune.evaluator.func_load_time,
@@ -694,6 +702,6 @@ plot_function_matching = {'InterDotTCByLineScan': plot_inter_dot_tc,
                           'SensingDot1D': plot_1dim_sensing_dot_scan,
                           'SensingDot2D': plot_2dim_sensing_dot_scan,
                           'LeadTransition': plot_transition,
-                          'AveragingInterDotTCByLineScan': plot_average_evaluator,
-                          'AveragingLeadTunnelTimeByLeadScan': plot_average_evaluator,
                           'LeadTunnelTimeByLeadScan': plot_lead_time}
+plot_function_matching.update({'Averaging' + evaluator_name: plot_average_evaluator
+                               for evaluator_name in list(plot_function_matching)})
-- 
2.43.0


From b0b75a84c556d3dae538fc62956b387375771600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 66/75] fix: plotting raw data ignores all unknown evaluators
 and leaves the list of the user unchanged

---
 qtune/history.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 984c889..845d53e 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -424,10 +424,12 @@ class History:
         :param evaluator_names: Names of the evaluator to be plotted.
         :return: Figure, Axes
         """
+        if evaluator_names is None:
+            evaluator_names = self._evaluator_data.columns
         for name in evaluator_names:
             if name not in self._evaluator_data.columns:
                 self.logger.warning(name + ' is not in the evaluation data.')
-                evaluator_names.remove(name)
+        evaluator_names = [name for name in evaluator_names if name in self._evaluator_data.columns]
 
         if end is None:
             end = start + 1
-- 
2.43.0


From f6b8538d3aecc484ef3bb5d36b2b303bcfac54cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 67/75] fix: plotting raw data of evaluators which did not
 measure yields empty axes

---
 qtune/history.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 845d53e..d74b13c 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -450,8 +450,8 @@ class History:
                 if not self._evaluator_data.loc[self._evaluator_data.index[i], evaluator] != self._evaluator_data.loc[
                     self._evaluator_data.index[i], evaluator]]
             eval_data_fig, eval_data_ax = plt.subplots(nrows=2,
-                                                       ncols=sum(number_measurements) // 2 + sum(
-                                                           number_measurements) % 2)
+                                                       ncols=max(1, sum(number_measurements) // 2 + sum(
+                                                           number_measurements) % 2))
             eval_data_figs.append(eval_data_fig)
             eval_data_axs.append(eval_data_ax)
             ax_list = [eval_data_ax.ravel()[sum(number_measurements[0:j]):sum(number_measurements[0:j + 1])] for j in
@@ -470,6 +470,9 @@ class History:
             self.logger.warning(evaluator_name + ' is not in the evaluation data.')
             return
         plot_data = self._evaluator_data.loc[self._evaluator_data.index[tune_run_number], evaluator_name]
+        if plot_data != plot_data:
+            # nothing was measured
+            return
         plot_function_matching[evaluator_name](ax=ax, evaluator_hdf5=plot_data, evaluator=evaluator_name)
 
     @classmethod
-- 
2.43.0


From 7d0f837488aa870704a6846736f302b9c6d5af74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 68/75] fix: load times replace their initial fit arguments
 instead of changing those of former evaluations

---
 qtune/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 0fe70f5..dbc9346 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -493,7 +493,7 @@ class NewLoadTime(FittingEvaluator):
         if popt[2] < 0.:
             p0[2] = self.initial_fit_arguments['curvature'] * 20
             popt, pcov = optimize.curve_fit(f=func_load_time, p0=p0, bounds=bounds, xdata=x_data, ydata=y_data)
-        self._initial_fit_arguments.iloc[:] = p0
+        self._initial_fit_arguments = pd.Series(data=p0, index=['offset', 'height', 'curvature'])
         residuals = y_data - func_load_time(x_data, popt[0], popt[1], popt[2])
         residual = np.nanmean(np.square(residuals)) / (popt[1] * popt[1]) * 1500.
         return pd.Series(data=popt, index=['offset', 'height', 'curvature']), residual
-- 
2.43.0


From 7f71d3f7ecf371774b48a82f6f11646108f42b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:58 +0000
Subject: [PATCH 69/75] fix: the history keeps the data of averaged evaluators
 of every evaluation

---
 qtune/history.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index d74b13c..f162612 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -14,6 +14,7 @@
 
 # @email: julian.teske@rwth-aachen.de
 
+import copy
 import os
 import operator
 import re
@@ -596,6 +597,14 @@ def extract_diagonal_from_data_frame(df: pd.DataFrame) -> pd.Series:
     return pd.Series(data=[df[i][i] for i in df.index], index=df.index)
 
 
+def read_evaluator_data(evaluator: qtune.evaluator.Evaluator) -> dict:
+    eval_data = evaluator.to_hdf5()
+    if 'evaluator' in eval_data:
+        # the next evaluation replaces the data of the averaged evaluator
+        eval_data['evaluator'] = copy.copy(eval_data['evaluator'])
+    return eval_data
+
+
 def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, start: int=0, end: Optional[int] = None) \
         -> pd.DataFrame:
     if end is None:
@@ -609,12 +618,12 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
                 relevant_evaluators += par_tuner.expensive_evaluators
             for evaluator in relevant_evaluators:
                 if evaluator.raw_data is not None:
-                    eval_data = evaluator.to_hdf5()
+                    eval_data = read_evaluator_data(evaluator)
                     evaluator_data[evaluator.name] = [eval_data, ]
         else:
             for evaluator in par_tuner.evaluators:
                 if evaluator.raw_data is not None:
-                    eval_data = evaluator.to_hdf5()
+                    eval_data = read_evaluator_data(evaluator)
                     evaluator_data[evaluator.name] = [eval_data, ]
     return evaluator_data
 
-- 
2.43.0


From 7a27e9fe484dd9171f66626b5ce05323d8977945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:58 +0000
Subject: [PATCH 70/75] fix: evaluating lead tunnel times does not draw in the
 current figure

---
 qtune/evaluator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index dbc9346..d90cdaa 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -305,7 +305,6 @@ class LeadTunnelTimeByLeadScan(FittingEvaluator):
                                      'length_lin_rise'])
         residuals = y_data - func_lead_times_v2(x_data, **dict(fitresult))
         scaled_residual = np.nanmean(residuals) / fitresult['height']
-        qtune.util.plot_raw_data_fit(y_data=y_data, x_data=x_data)
         # TODO: properly scale and use residual
         return fitresult, scaled_residual
 
-- 
2.43.0


From ab2449ba5bc8f038b2286a40493038347adb9788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 71/75] fix: plots of lead transitions are titled with the
 position they show

---
 qtune/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index f162612..d64e093 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -680,9 +680,9 @@ def plot_transition(ax, evaluator_hdf5: dict, **_):
     for i, axi in enumerate(ax):
         qtune.util.plot_raw_data_vertical_marks(y_data=evaluator_hdf5['raw_y_data'][i],
                                                 x_data=evaluator_hdf5['raw_x_data'][i],
-                                                marking_position=evaluator_hdf5['transition_positions'][i],
+                                                marking_position=evaluator_hdf5['transition_positions'].iloc[i],
                                                 ax=axi)
-        axi.set_title(evaluator_hdf5['parameters'][i])
+        axi.set_title(evaluator_hdf5['transition_positions'].index[i])
 
 
 def plot_1dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
-- 
2.43.0


From bbcd281d07f723df22581cc1ab8a067aba3d651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:34 +0000
Subject: [PATCH 72/75] fix: averaging evaluators which did not measure yet
 have no recorded data

---
 qtune/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index d64e093..601d667 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -310,7 +310,8 @@ class History:
             self._data_frame = self._data_frame.append(new_information, ignore_index=True, sort=True)
             new_evaluator_data = read_evaluator_data_from_autotuner(autotuner)
             for evaluator_name in new_evaluator_data.columns:
-                if new_evaluator_data.loc[new_evaluator_data.index[0], evaluator_name]['raw_y_data'] is None:
+                raw_y_data = new_evaluator_data.loc[new_evaluator_data.index[0], evaluator_name]['raw_y_data']
+                if raw_y_data is None or len(raw_y_data) == 0:
                     new_evaluator_data.loc[new_evaluator_data.index[0], evaluator_name] = np.nan
             self._evaluator_data = self._evaluator_data.append(new_evaluator_data, ignore_index=True, sort=True)
         if voltages.equals(self._data_frame[sorted(self.gate_names)].iloc[-1]):
-- 
2.43.0


From 8bce8c4bd06aa6f9ea7b6fce6710646ec2ecef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 73/75] fix: the simulated experiment lists its measurements
 and gates as properties

---
 qtune/basic_dqd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/basic_dqd.py b/qtune/basic_dqd.py
index 6ab8e3e..39f2314 100644
--- a/qtune/basic_dqd.py
+++ b/qtune/basic_dqd.py
@@ -81,9 +81,11 @@ class TestExperiment(Experiment):
     def simulator_dict(self):
         return self._simulator_dict
 
+    @property
     def measurements(self):
         return self._measurements
 
+    @property
     def gate_voltage_names(self):
         return self._gate_voltages.index
 
-- 
2.43.0


From fffac40068b70b01290ec3891114a3ea7998e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 74/75] fix: the simulated experiment does not change the
 initial voltages of the caller

---
 qtune/basic_dqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/basic_dqd.py b/qtune/basic_dqd.py
index 39f2314..5322d26 100644
--- a/qtune/basic_dqd.py
+++ b/qtune/basic_dqd.py
@@ -68,7 +68,7 @@ class TestExperiment(Experiment):
         :param measurements: Measurements known to the Experiment.
         :param simulator_dict: Maps Measurements by their id to Simulators.
         """
-        self._gate_voltages = initial_voltages
+        self._gate_voltages = initial_voltages.copy()
 
         self._measurements = measurements
         self._simulator_dict = simulator_dict
-- 
2.43.0


From 8d1e71d7eed1a7ab27559a079776ceac02fea486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 75/75] fix: simulated detuning scans have an integer number of
 points

---
 qtune/basic_dqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/basic_dqd.py b/qtune/basic_dqd.py
index 5322d26..4fe6c5c 100644
--- a/qtune/basic_dqd.py
+++ b/qtune/basic_dqd.py
@@ -135,7 +135,7 @@ def detune_simulation(gate_voltages, measurement: Measurement, simulation_option
     right_gate = simulation_options["right_gate"]
     parameters = measurement.options.copy()
     parameters['file_name'] = "detune_scan_" + measurement.get_file_name()
-    parameters['N_points'] = float(parameters['N_points'])
+    parameters['N_points'] = int(parameters['N_points'])
     parameters['N_average'] = float(parameters['N_average'])
 
     x = np.linspace(parameters["center"] - parameters["range"], parameters["center"] + parameters["range"],
-- 
2.43.0

