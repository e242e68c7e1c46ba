From 2a9ff001bb202706ff20abdf559d4abf49beff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 01/65] fix: saving no longer confuses temporaries that reuse
 the id of a freed object

---
 qtune/storage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index 783a523..d780519 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -84,6 +84,10 @@ def _to_hdf5(hdf5_parent_group: h5py.Group, name, obj, serialized):
         hdf5_parent_group.create_dataset(name, data=serialized[id(obj)].ref)
         return
 
+    # to_hdf5 may return temporaries. Keep everything alive until the save is done as ids are unique only among living
+    # objects.
+    serialized.setdefault('#keep_alive', []).append(obj)
+
     if isinstance(obj, dict):
         hdf5_group = hdf5_parent_group.create_group(name)
         hdf5_group.attrs['#type'] = 'dict'
-- 
2.43.0


From 4665b6dc1176b1d3ae9fed1d766e87c11e541b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 02/65] fix: reloaded strings are the saved strings, also with
 h5py 3

---
 qtune/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index d780519..b44be41 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -256,7 +256,9 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
                 return result
 
             if hdf5_obj.attrs['#type'] == 'str':
-                result = str(np.asarray(hdf5_obj))
+                result = hdf5_obj[()]
+                if isinstance(result, bytes):
+                    result = result.decode()
                 deserialized[hdf5_obj.id] = result
                 return result
 
-- 
2.43.0


From 415c77c100dd3a88563c714e1052a3d027bacb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:17 +0000
Subject: [PATCH 03/65] fix: parameters without a desired value need no
 evaluator

---
 qtune/parameter_tuner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index fb394b9..be7da8c 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -161,7 +161,7 @@ class ParameterTuner(metaclass=HDF5Serializable):
             parameter, variance = evaluator.evaluate()
             parameters.append(parameter)
             variances.append(variance)
-        return pd.concat(parameters)[self.parameters], pd.concat(variances)[self.parameters]
+        return pd.concat(parameters).reindex(self.parameters), pd.concat(variances).reindex(self.parameters)
 
     def is_tuned(self, voltages: pd.Series) -> bool:
         """
-- 
2.43.0


From f8227ac652406932b8b410ce55c3bae547f1ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:02 +0000
Subject: [PATCH 04/65] fix: the Newton step leaves parameters with a NaN
 target invariant

---
 qtune/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/solver.py b/qtune/solver.py
index f32e986..d2cecab 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -230,6 +230,7 @@ class NewtonSolver(Solver):
         # nan targets are replaced with the current values
 
         required_diff = self.target.desired.add(-1 * self._current_values, fill_value=0).fillna(0)
+        required_diff[self.target.desired.isna()] = 0
 
         jacobian = self.jacobian[self._current_position.index]
 
-- 
2.43.0


From 0ca9f180f502e60802327184711620f151f6ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 05/65] fix: the NewtonSolver assigns variances to its
 estimators by label

---
 qtune/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index d2cecab..27a64b5 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -246,7 +246,8 @@ class NewtonSolver(Solver):
     def update_after_step(self, position: pd.Series, values: pd.Series, variances: pd.Series):
         for estimator, value, value_index, variance in zip(self._gradient_estimators,
                                                            values[self._current_values.index],
-                                                           self._current_values.index, variances):
+                                                           self._current_values.index,
+                                                           variances[self._current_values.index]):
             if not math.isnan(self.target.desired[value_index]):
                 estimator.update(position, value, variance, is_new_position=True)
         self._current_position = position[self._current_position.index]
-- 
2.43.0


From 05859bb8870660a5c693666de09d081c1920d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 06/65] fix: a step that reaches its goal leaves no queued
 steps behind

---
 qtune/parameter_tuner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index be7da8c..7a8c3f8 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -272,6 +272,8 @@ class SubsetTuner(ParameterTuner):
                 self._number_queued_steps = min(number_of_steps, self._maximal_step_number)
             self._number_queued_steps -= 1
             step *= self._maximal_step_size / np.linalg.norm(step)
+        else:
+            self._number_queued_steps = 0
 
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
-- 
2.43.0


From ba7cc21977ae11e260e8db9c05b4e6b6855327e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 07/65] fix: change_targets and restart require a new
 evaluation of the first ParameterTuner

---
 qtune/autotuner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index cfed351..b0e6841 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -216,6 +216,7 @@ class Autotuner(metaclass=HDF5Serializable):
         for i, target_change in enumerate(target_changes):
             self.tuning_hierarchy[i].target = target_change
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
 
     def __getstate__(self):
@@ -294,6 +295,7 @@ class Autotuner(metaclass=HDF5Serializable):
         """ Reads new voltages and communicates them to the member classes. This function can be called when the
         experiment has been configured manually."""
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
         current_voltages = self._experiment.read_gate_voltages()
         for par_tuner in self.tuning_hierarchy:
-- 
2.43.0


From fc2387d668a23e2ab05bdd6fbe4330bd109ed420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:15 +0000
Subject: [PATCH 08/65] fix: restart reaches the current position of the
 gradient estimators

---
 qtune/gradient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index a699a6a..5b5c587 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -44,7 +44,8 @@ class GradientEstimator(metaclass=HDF5Serializable):
 
     @current_position.setter
     def current_position(self, new_positions: pd.Series):
-        index_intersection = new_positions.index.intersection(self.current_position)
+        index_intersection = new_positions.index.intersection(self.current_position.index)
+        self._current_position = self._current_position.copy()
         self._current_position[index_intersection] = new_positions[index_intersection]
 
     def change_position(self, new_position: pd.Series):
-- 
2.43.0


From b2dfab9b24eb248ea28b1e9e0d79e3d805991041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 09/65] fix: restart reaches the last voltages of the parameter
 tuners

---
 qtune/parameter_tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 7a8c3f8..0419a21 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -107,7 +107,8 @@ class ParameterTuner(metaclass=HDF5Serializable):
         if self.last_voltages is None or self.last_voltages.empty:
             self._last_voltage = new_voltages
         else:
-            index_intersection = self.last_voltages.index.intersection(new_voltages)
+            index_intersection = self.last_voltages.index.intersection(new_voltages.index)
+            self._last_voltage = self._last_voltage.copy()
             self._last_voltage[index_intersection] = new_voltages[index_intersection]
 
     @property
-- 
2.43.0


From b46baa505348b8e858d6008d5adf324b47ebb995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 10/65] fix: the SensingDotTuner saves its tuned voltages and
 failure state

---
 qtune/parameter_tuner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 0419a21..9318bef 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -404,6 +404,9 @@ class SensingDotTuner(ParameterTuner):
                     expensive_evaluators=self._expensive_evaluators,
                     gates=self._tunable_gates,
                     solver=self.solver,
+                    tuned_voltages=self._tuned_voltages,
+                    last_evaluation_failed=self._last_evaluation_failed,
+                    evaluatable_voltages=self._evaluatable_voltages,
                     last_voltage=self._last_voltage,
                     last_parameter_values=self._last_parameter_values,
                     last_parameters_variances=self._last_parameters_variances,
-- 
2.43.0


From 9ba095ba23d718451b81e18015170e7cb4fd74d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 11/65] fix: reloaded series of strings contain strings, also
 with h5py 3

---
 qtune/storage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index b44be41..2c6867f 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -251,7 +251,10 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
 
             if hdf5_obj.attrs['#type'] == 'Series':
                 idx = hdf5_obj.attrs['index']
-                result = pd.Series(data=np.asarray(hdf5_obj), index=idx)
+                data = np.asarray(hdf5_obj)
+                if data.dtype == 'O':
+                    data = np.array([x.decode() if isinstance(x, bytes) else x for x in data], dtype='O')
+                result = pd.Series(data=data, index=idx)
                 deserialized[hdf5_obj.id] = result
                 return result
 
-- 
2.43.0


From d9f3974849b4ce0c503adaccd36235b1b77480d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:04 +0000
Subject: [PATCH 12/65] fix: restart discards the queued steps of the
 SubsetTuner

---
 qtune/parameter_tuner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 9318bef..4c49590 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -279,6 +279,10 @@ class SubsetTuner(ParameterTuner):
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
 
+    def restart(self, new_voltages):
+        super().restart(new_voltages)
+        self._number_queued_steps = 0
+
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
-- 
2.43.0


From 2a7386a4590079f73a7b0ed87f66edcec6b9c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:06 +0000
Subject: [PATCH 13/65] fix: the SelfInitializingKalmanEstimator can initialize
 its Kalman filter

---
 qtune/gradient.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 5b5c587..3ff7be0 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -381,8 +381,8 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
                  kalman_gradient_args: Optional[dict]=None):
         self._finite_difference_estimator = finite_difference_estimator
         self._kalman_estimator = kalman_estimator
-        self._kalman_arguments = kalman_arguments
-        self._kalman_gradient_arguments = kalman_gradient_args
+        self._kalman_arguments = kalman_arguments or dict()
+        self._kalman_gradient_arguments = kalman_gradient_args or dict()
 
     # TODO: This implementation is incomplete
     @classmethod
@@ -394,7 +394,7 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
         finite_differences_estimator = FiniteDifferencesGradientEstimator(current_position=current_position,
                                                                           epsilon=epsilon,
                                                                           symmetric=symmetric)
-        kalman_arguments = dict(maximum_covariance=maximum_covariance)
+        kalman_arguments = dict(maximum_covariance=maximum_covariance, epsilon=epsilon)
 
         return cls(finite_difference_estimator=finite_differences_estimator,
                    kalman_arguments=kalman_arguments)
@@ -447,7 +447,7 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
             kalman_gradient = KalmanGradient(n_pos_dim=initial_estimate.size,
                                              n_values=1,
                                              initial_gradient=initial_estimate,
-                                             initial_covariance_matrix=self.finite_difference_estimator.covariance()
+                                             initial_covariance_matrix=self.finite_difference_estimator.covariance(),
                                              **self._kalman_gradient_arguments)
             self._kalman_estimator = KalmanGradientEstimator(kalman_gradient=kalman_gradient,
                                                              current_position=position[initial_estimate.index],
-- 
2.43.0


From 401c53607f53a2e5daa5273fcc1aadc64ffaba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:10 +0000
Subject: [PATCH 14/65] fix: restart of the SelfInitializingKalmanEstimator
 restarts its estimators

---
 qtune/gradient.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 3ff7be0..56ef43d 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -454,6 +454,11 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
                                                              current_value=value,
                                                              **self._kalman_arguments)
 
+    def restart(self, new_position):
+        self.finite_difference_estimator.restart(new_position)
+        if self.kalman_estimator:
+            self.kalman_estimator.restart(new_position)
+
     def to_hdf5(self):
         return dict(finite_difference_estimator=self._finite_difference_estimator,
                     kalman_estimator=self._kalman_estimator,
-- 
2.43.0


From 26cd6dde4b945addcc7ac73431f419426b942503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:13 +0000
Subject: [PATCH 15/65] fix: finite differences ignore the base point if
 symmetric and accept positions of a subset of the gates

---
 qtune/gradient.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 56ef43d..d538e44 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -190,7 +190,13 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 self._stored_measurements.append((position[self._current_position.index], value, variance))
 
         elif self._current_estimate is None:
-            self._stored_measurements.append((position[self._current_position.index], value, variance))
+            if self._symmetric_calculation and (position == self._current_position[position.index]).all():
+                # the symmetric calculation makes no use of the base point
+                return
+
+            full_position = self._current_position.copy()
+            full_position[position.index] = position
+            self._stored_measurements.append((full_position, value, variance))
 
             positions, values, variances = zip(*self._stored_measurements)
 
-- 
2.43.0


From 07bf3355a2f916abfa1c84fcfbaeaca7ee1987ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:16 +0000
Subject: [PATCH 16/65] fix: the NelderMeadSolver can be used by a
 ParameterTuner

---
 qtune/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 27a64b5..b4f23b1 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -371,7 +371,7 @@ class NelderMeadSolver(Solver):
         self._simplex = self._get_sorted_simplex()
         self._simplex.pop()
 
-    def suggest_next_position(self) -> pd.Series:
+    def suggest_next_position(self, tuned_parameters=None) -> pd.Series:
         positions = self.get_positions()
         worst_position = positions[-1]
 
-- 
2.43.0


From 1235084b1fc1fb47d1cca3de8e81ba98ace12f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:20 +0000
Subject: [PATCH 17/65] fix: the NelderMeadSolver with the default cost
 function can be saved and reloaded

---
 qtune/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index b4f23b1..1a9cc1d 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -286,7 +286,7 @@ class NelderMeadSolver(Solver):
                  current_values: pd.Series,
                  reflected_point: Optional[Tuple[pd.Series, pd.Series]] = None,
                  shrunk_points: Optional[Sequence[Tuple[pd.Series, pd.Series]]] = None,
-                 cost_function: Callable = lambda v: np.sum(v * v),
+                 cost_function: Optional[Callable] = None,
                  state='built_up'):
         """
 
@@ -346,7 +346,7 @@ class NelderMeadSolver(Solver):
         if self._cost_function:
             return self._cost_function(values)
         else:
-            np.sum(values * values)
+            return np.sum(values * values)
 
     def get_costs(self):
         return [self.cost_function(values) for _, values in self.simplex]
@@ -503,7 +503,7 @@ class NelderMeadSolver(Solver):
                     reflected_point=self._reflected_point,
                     shrunk_points=self._shrunk_points,
                     cost_function=self._cost_function,
-                    state=str(self._state))
+                    state=self._state.value)
 
 
 class ForwardingSolver(Solver):
-- 
2.43.0


From e35b63feb25d855c4d15057c3e0129acfb6136a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 18/65] fix: the NelderMeadSolver starts a new iteration once a
 point is accepted

---
 qtune/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 1a9cc1d..9805d50 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -370,6 +370,7 @@ class NelderMeadSolver(Solver):
         self._simplex.append((position, values))
         self._simplex = self._get_sorted_simplex()
         self._simplex.pop()
+        self._state = self.State.start_iteration
 
     def suggest_next_position(self, tuned_parameters=None) -> pd.Series:
         positions = self.get_positions()
@@ -477,9 +478,10 @@ class NelderMeadSolver(Solver):
             self._shrunk_points.append((position, values))
 
             if len(self._shrunk_points) == len(self._current_position):
-                for shrink_point in self._shrunk_points:
-                    self._insert_into_simplex(*shrink_point)
+                self._simplex = self._simplex[:1] + self._shrunk_points
+                self._simplex = self._get_sorted_simplex()
                 self._shrunk_points = []
+                self._state = self.State.start_iteration
 
         else:
             # we just got a point without requesting it
-- 
2.43.0


From 94b8505525c6c8d7fbbe4c411c46b67b553c9810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 19/65] fix: the evaluators save all their constructor
 arguments

---
 qtune/evaluator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 008e6d9..1e24903 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -199,6 +199,7 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
+                    sample_rate=self.sample_rate,
                     evaluation_arguments=self.evaluation_arguments)
 
 
@@ -358,9 +359,7 @@ class InterDotTCByLineScan(FittingEvaluator):
                                         AWGorDecaDAC='AWG'), )
 
         if initial_fit_arguments is None:
-            self._initial_fit_arguments = pd.Series(index=['offset', 'slope', 'height', 'position', 'width'])
-        else:
-            self._initial_fit_arguments = initial_fit_arguments
+            initial_fit_arguments = pd.Series(index=['offset', 'slope', 'height', 'position', 'width'])
 
         if intermediate_fit_arguments is None:
             self.intermediate_fit_arguments = pd.Series(index=['offset', 'slope', 'height', 'position', 'width'])
@@ -574,7 +573,7 @@ class LeadTransition(Evaluator):
                     transition_positions=self.transition_positions,
                     shifting_gates=self._shifting_gates,
                     charge_diagram_width=self._charge_diagram_width,
-                    transition_width=.2e-3)
+                    transition_width=self.transition_width)
 
 
 class SensingDot1D(Evaluator):
@@ -594,7 +593,7 @@ class SensingDot1D(Evaluator):
                  optimal_signal=None,
                  optimal_position=None,
                  name='SensingDot1D',
-                 rising_flank=Optional[bool]):
+                 rising_flank: Optional[bool]=None):
         self._sweeping_gate = sweeping_gate
         self.current_signal = current_signal
         self.optimal_signal = optimal_signal
@@ -661,7 +660,8 @@ class SensingDot1D(Evaluator):
                     sweeping_gate=self._sweeping_gate,
                     current_signal=self.current_signal,
                     optimal_signal=self.optimal_signal,
-                    optimal_position=self.optimal_position)
+                    optimal_position=self.optimal_position,
+                    rising_flank=self._rising_flank)
 
 
 class SensingDot2D(Evaluator):
@@ -765,7 +765,8 @@ class SensingDot2D(Evaluator):
         return dict(super().to_hdf5(),
                     sweeping_gates=self._sweeping_gates,
                     scan_range=self._scan_range,
-                    new_voltages=self._new_voltages)
+                    new_voltages=self._new_voltages,
+                    rising_flank=self._rising_flank)
 
 
 class AveragingEvaluator(Evaluator):
-- 
2.43.0


From c11566c42af14c3098fa6ab91eeb68a999e9cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 20/65] fix: the LeadTransition evaluator restores the voltages
 if a measurement fails

---
 qtune/evaluator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 1e24903..d84df15 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -538,9 +538,11 @@ class LeadTransition(Evaluator):
         raw_data = []
         for measurement, shift_gate in zip(self.measurements, self._shifting_gates):
             shift = pd.Series(-1. * self._charge_diagram_width, [shift_gate])
-            self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
-            raw_data.append(self.experiment.measure(measurement))
-            self.experiment.set_gate_voltages(current_gate_voltages)
+            try:
+                self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
+                raw_data.append(self.experiment.measure(measurement))
+            finally:
+                self.experiment.set_gate_voltages(current_gate_voltages)
         transition_positions, error = self.process_raw_data(raw_data=raw_data)
 
         # TODO: this should be obsolete
-- 
2.43.0


From e12937dd1587c17d47611e2ba5d4b7bf9541ec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 21/65] fix: the SensingDot1D evaluator can process its data

---
 qtune/evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index d84df15..55a84a4 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -643,7 +643,7 @@ class SensingDot1D(Evaluator):
         raw_x_data = np.squeeze(raw_data[0])
         raw_y_data = np.squeeze(raw_data[1])
         coef = np.polynomial.polynomial.polyfit(raw_x_data, raw_y_data, deg=10)
-        polynomial_approximation = np.polynomial.poly1d(coef[::-1])
+        polynomial_approximation = np.poly1d(coef[::-1])
         derivative_approximation = np.diff(polynomial_approximation(raw_x_data))
         cutoff = len(raw_x_data) // 16
         if self._rising_flank:
@@ -653,7 +653,7 @@ class SensingDot1D(Evaluator):
             steepest_point = np.argmin(derivative_approximation[cutoff:-cutoff])
             self.optimal_signal = np.min(derivative_approximation)
         self.optimal_position = raw_x_data[steepest_point + cutoff]
-        self.current_signal = derivative_approximation[0.5 * self.measurements[0].options['N_points']]
+        self.current_signal = derivative_approximation[self.measurements[0].options['N_points'] // 2]
 
         return self.current_signal, self.optimal_signal, self.optimal_position
 
-- 
2.43.0


From 62d0e4b92c2f767810655147d672c44c90e15e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:12 +0000
Subject: [PATCH 22/65] fix: the History finds the gradients of exactly the
 requested parameter

---
 qtune/history.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index c074e76..d8af198 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -116,7 +116,7 @@ def read_files(file_or_files, reserved=None):
 
                 data.append((entry, entry_data))
 
-    return data.sort(key=operator.itemgetter(0))
+    return sorted(data, key=operator.itemgetter(0))
 
 
 class History:
@@ -209,8 +209,8 @@ class History:
         :param parameter_name: Parameter of the gradient of interest.
         :return: Gradient history.
         """
-        regex = re.compile(self._gradient_name.format(parameter_name=parameter_name,
-                                                      gate_name=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_name.format(parameter_name=re.escape(parameter_name),
+                                                            gate_name=r'([\w\s\d]+)') + '$')
         return self._data_frame.filter(regex=regex).rename(lambda name: regex.findall(name)[0], axis='columns')
 
     def get_gradient_covariances(self, parameter_name) -> pd.DataFrame:
@@ -219,13 +219,13 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: Gradient covariance history.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'([\w\s\d]+)',
-                                                                 gate_name_2=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'([\w\s\d]+)',
+                                                                       gate_name_2=r'([\w\s\d]+)') + '$')
         df = self._data_frame.filter(regex=regex)
         df = df[sorted(df.columns, key=regex.findall)]
-
-        return pd.DataFrame(df, columns=pd.MultiIndex.from_tuples(map(regex.findall, df.columns)))
+        df.columns = pd.MultiIndex.from_tuples([regex.findall(name)[0] for name in df.columns])
+        return df
 
     def get_gradient_variances(self, parameter_name) -> pd.DataFrame:
         """
@@ -233,9 +233,9 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: History of the diagonal of the covariance matrix.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'(?P<gatename>[\w\s\d]+)',
-                                                                 gate_name_2=r'(?P=gatename)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'(?P<gatename>[\w\s\d]+)',
+                                                                       gate_name_2=r'(?P=gatename)') + '$')
         return self._data_frame.filter(regex=regex).rename(columns=lambda name: regex.search(name).group('gatename'))
 
     def read_autotuner_to_data_frame(self, autotuner: qtune.autotuner.Autotuner, start: int = 0,
-- 
2.43.0


From 425731f1f83bdee58af5e17572ae28b94a66335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 23/65] fix: the simulated detuning scan has an integer number
 of points

---
 qtune/basic_dqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/basic_dqd.py b/qtune/basic_dqd.py
index 6ab8e3e..db1dca8 100644
--- a/qtune/basic_dqd.py
+++ b/qtune/basic_dqd.py
@@ -133,7 +133,7 @@ def detune_simulation(gate_voltages, measurement: Measurement, simulation_option
     right_gate = simulation_options["right_gate"]
     parameters = measurement.options.copy()
     parameters['file_name'] = "detune_scan_" + measurement.get_file_name()
-    parameters['N_points'] = float(parameters['N_points'])
+    parameters['N_points'] = int(parameters['N_points'])
     parameters['N_average'] = float(parameters['N_average'])
 
     x = np.linspace(parameters["center"] - parameters["range"], parameters["center"] + parameters["range"],
-- 
2.43.0


From ffe9e2512b0acde3d15677c9ca8c70cf7b571d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 24/65] fix: the covariance of asymmetric finite differences
 accounts for the shared base point

---
 qtune/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qtune/util.py b/qtune/util.py
index a46e05d..a795809 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -189,11 +189,12 @@ def calculate_gradient_non_orthogonal(positions: Sequence[np.ndarray],
 
     if variances:
         if n_points == n_dim + 1:
-            diff_variances = np.stack(variances[1:]) + variances[0]
+            # all differences share the error of the first point
+            diff_covariance = np.diag(np.stack(variances[1:])) + variances[0]
         else:
-            diff_variances = np.stack(variances[1::2]) + np.stack(variances[::2])
+            diff_covariance = np.diag(np.stack(variances[1::2]) + np.stack(variances[::2]))
 
-        gradient_covariance = inverted_volt_diffs.T @ np.diag(diff_variances) @ inverted_volt_diffs
+        gradient_covariance = inverted_volt_diffs.T @ diff_covariance @ inverted_volt_diffs
         return gradient, gradient_covariance
 
     return gradient
-- 
2.43.0


From 67349bc201f4860663f1f68512ba1f3063aafbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:45 +0000
Subject: [PATCH 25/65] fix: the NelderMeadSolver can be restarted and its
 targets can be changed

---
 qtune/solver.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 9805d50..5c2b748 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -88,6 +88,7 @@ class Solver(metaclass=HDF5Serializable):
     @current_position.setter
     def current_position(self, new_position: pd.Series):
         labels = self._current_position.index.intersection(new_position.index)
+        self._current_position = self._current_position.copy()
         self._current_position[labels] = new_position[labels]
 
     @property
@@ -329,10 +330,6 @@ class NelderMeadSolver(Solver):
                    current_values=current_values,
                    simplex=simplex)
 
-    @property
-    def target(self):
-        return self._target
-
     @property
     def simplex(self) -> Deque[Tuple[pd.Series, pd.Series]]:
         """Sorted chronologically if state=built_up otherwise sorted by cost"""
@@ -351,10 +348,6 @@ class NelderMeadSolver(Solver):
     def get_costs(self):
         return [self.cost_function(values) for _, values in self.simplex]
 
-    @property
-    def current_position(self) -> pd.Series:
-        return self._current_position
-
     @property
     def current_values(self) -> pd.Series:
         return self._current_values
-- 
2.43.0


From 540e65691b61af619f9a3e052ab3e75352b83217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 26/65] fix: the ForwardingSolver does not descale the values
 of its caller

---
 qtune/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/solver.py b/qtune/solver.py
index 5c2b748..d022a36 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -539,6 +539,7 @@ class ForwardingSolver(Solver):
             position[position.index.intersection(self.current_position.index)]
         self._next_position[position.index.intersection(self._next_position.index)] = \
             position[position.index.intersection(self.current_position.index)]
+        values, variances = values.copy(), variances.copy()
         self.descale_values(values, variances)
         new_position_names = self._values_to_position[
             values.index.intersection(self._values_to_position.index)].dropna()
-- 
2.43.0


From 018005e72322ec797201da07ba1a0a6fe858495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:43 +0000
Subject: [PATCH 27/65] fix: the NelderMeadSolver reflects at the centroid of
 all points but the worst

---
 qtune/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index d022a36..1c1ac24 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -369,7 +369,8 @@ class NelderMeadSolver(Solver):
         positions = self.get_positions()
         worst_position = positions[-1]
 
-        m = pd.DataFrame(positions).mean(axis=0)
+        # centroid of all points but the worst
+        m = pd.DataFrame(positions[:-1] or positions).mean(axis=0)
         r = 2 * m - worst_position
         s = m + 2 * (m - worst_position)
         c = m + (r - m) / 2
-- 
2.43.0


From 07d2316ba0ce66106ea6c6ced1fae64c9945a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:49 +0000
Subject: [PATCH 28/65] fix: the first measurement does not degenerate the
 simplex of the NelderMeadSolver

---
 qtune/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/solver.py b/qtune/solver.py
index 1c1ac24..1212862 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -411,6 +411,8 @@ class NelderMeadSolver(Solver):
         values = values[self._current_values.index]
 
         if len(self.simplex) < len(self.current_position) + 1:
+            # a point that is measured again does not span the simplex
+            self._simplex = [entry for entry in self._simplex if not (entry[0] == position[entry[0].index]).all()]
             self.simplex.append((position, values))
 
             if len(self.simplex) == len(self.current_position) + 1:
-- 
2.43.0


From 95bf673649cce950da634a894df4b151b3a5bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 29/65] fix: the LeadTransition evaluates every scan with its
 own options and the given width

---
 qtune/evaluator.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 55a84a4..d181992 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -555,15 +555,16 @@ class LeadTransition(Evaluator):
         error = pd.Series()
         self._raw_x_data = []
         self._raw_y_data = []
-        for data, gate in zip(raw_data, self._shifting_gates):
+        for data, gate, measurement in zip(raw_data, self._shifting_gates, self.measurements):
             if len(data.shape) == 2:
                 data = data.mean(0)
             transition_pos = \
-                qtune.util.new_find_lead_transition_index(data, int(.2e-3 / self.measurements[0].options["range"] *
-                                                          self.measurements[0].options["N_points"]))
-            x_data = np.linspace(start=self._measurements[0].options['center'] - self.measurements[0].options['range'],
-                                 stop=self._measurements[0].options['center'] + self.measurements[0].options['range'],
-                                 num=self.measurements[0].options['N_points'])
+                qtune.util.new_find_lead_transition_index(data, int(self.transition_width /
+                                                                    measurement.options["range"] *
+                                                                    measurement.options["N_points"]))
+            x_data = np.linspace(start=measurement.options['center'] - measurement.options['range'],
+                                 stop=measurement.options['center'] + measurement.options['range'],
+                                 num=measurement.options['N_points'])
             self._raw_x_data.append(x_data)
             self._raw_y_data.append(data)
             self.transition_positions["position_" + gate] = x_data[transition_pos]
-- 
2.43.0


From 832619f2830abf7355c18fedce52c91e8e531ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 30/65] fix: a FiniteDifferencesGradientEstimator can be made
 with its stored measurements

---
 qtune/gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index d538e44..dbe60c6 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -115,8 +115,8 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
         self._covariance = covariance
 
         if stored_measurements is not None:
-            for measurement in stored_measurements:
-                pd.testing.assert_index_equal(measurement.index, epsilon.index)
+            for position, *_ in stored_measurements:
+                pd.testing.assert_index_equal(position.index, self._epsilon.index)
         self._stored_measurements = stored_measurements or []
 
         # only for debugging purposes
-- 
2.43.0


From 6c5fc31c6f623d289e6fd75ea93c8ad31b600407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 31/65] fix: a tuner with a parameter without target can be
 reloaded before its first evaluation

---
 qtune/parameter_tuner.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 4c49590..e529cca 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -59,9 +59,9 @@ class ParameterTuner(metaclass=HDF5Serializable):
         self._last_evaluation_failed = last_evaluation_failed
         self._evaluatable_voltages = evaluatable_voltages or []
 
+        not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
+                                        axis='columns').dropna().index
         if last_parameter_values is None:
-            not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
-                                            axis='columns').dropna().index
             self._last_parameter_values = pd.Series(index=not_na_index)
         else:
             # commented code was used for a debug attempt of the asynchron reader
@@ -71,18 +71,16 @@ class ParameterTuner(metaclass=HDF5Serializable):
             # storage_path = r'D:\debug_%d.txt' % random.randint(0,10000)
             # with open(storage_path, 'wb') as file:
             #     file.write(data)
-            assert set(self.target.dropna(how='all').index).issubset(set(last_parameter_values.index))
+            assert set(not_na_index).issubset(set(last_parameter_values.index))
             self._last_parameter_values = last_parameter_values
 
             # import os
             # os.remove(storage_path)
 
         if last_parameters_variances is None:
-            not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
-                                            axis='columns').dropna().index
             self._last_parameters_variances = pd.Series(index=not_na_index)
         else:
-            assert set(self.target.index).issubset(set(last_parameters_variances.index))
+            assert set(not_na_index).issubset(set(last_parameters_variances.index))
             self._last_parameters_variances = last_parameters_variances
 
         self._evaluators = tuple(evaluators)
-- 
2.43.0


From 3bdc36ec0eac6aae2c8d5ca6b49a005ffb5d2808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 32/65] fix: the Autotuner evaluates parameters that have a
 desired value but no tolerance

---
 qtune/autotuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index b0e6841..9adce4f 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -282,8 +282,8 @@ class Autotuner(metaclass=HDF5Serializable):
                 if self.get_current_tuner().target["desired"].notna().all():
                     self.logger.info("The distance to their target is: ")
                     self.logger.info(self.get_current_tuner().target["desired"] -
-                                     self.get_current_tuner().last_parameters_and_variances[0]
-                                     [self.get_current_tuner().target.index])
+                                     self.get_current_tuner().last_parameters_and_variances[0].reindex(
+                                         self.get_current_tuner().target.index))
         else:
             self._voltages_to_set = self.get_current_tuner().get_next_voltages(tuned_parameters=self.tuned_parameters)
             self._current_tuner_status = False
-- 
2.43.0


From c426cd46e080f2df3172e7d2d51e72546a1aa940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 33/65] fix: the history records a NewtonSolver whose gradients
 are not estimated yet

---
 qtune/history.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index d8af198..d2fced4 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -560,11 +560,13 @@ def extract_gradients_from_hierarchy(tuning_hierarchy) -> (Dict[str, pd.Series],
         if isinstance(tuner.solver, qtune.solver.NewtonSolver):
             for i, grad_est in enumerate(tuner.solver.gradient_estimators):
                 if grad_est.estimate() is None:
-                    gradients[tuner.solver.target.index[i]] = pd.Series
+                    gradients[tuner.solver.target.index[i]] = pd.Series(np.nan, index=grad_est.current_position.index)
                 else:
                     gradients[tuner.solver.target.index[i]] = grad_est.estimate()
                 if grad_est.covariance() is None:
-                    covariances[tuner.solver.target.index[i]] = pd.Series
+                    covariances[tuner.solver.target.index[i]] = pd.DataFrame(np.nan,
+                                                                             index=grad_est.current_position.index,
+                                                                             columns=grad_est.current_position.index)
                 else:
                     covariances[tuner.solver.target.index[i]] = grad_est.covariance()
     return gradients, covariances
-- 
2.43.0


From 9519e8d4c405c128f31338b6587c6e6c9466ecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 34/65] fix: the history records repeated evaluations at the
 same voltages, also after a restart

---
 qtune/history.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index d2fced4..3ee4019 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -310,10 +310,9 @@ class History:
         if voltages.equals(self._data_frame[sorted(self.gate_names)].iloc[-1]):
             # stay in the row
             self._paths_for_reload[-1] = path
-            start = self._data_frame['tuner_index'].iloc[-1]
-            new_information = self.read_autotuner_to_data_frame(autotuner, start=start, end=evaluated_tuner_index)
+            new_information = self.read_autotuner_to_data_frame(autotuner, end=evaluated_tuner_index)
             self._data_frame.loc[self._data_frame.index[-1], new_information.columns] = new_information.iloc[0]
-            new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, start=start, end=evaluated_tuner_index)
+            new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, end=evaluated_tuner_index)
             if not new_evaluator_data.empty:
                 self._evaluator_data.loc[self._evaluator_data.index[-1], new_evaluator_data.columns] = \
                     new_evaluator_data.iloc[0]
-- 
2.43.0


From e89783c24f46facfcd02b16a45e49897ae2b46a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 35/65] fix: the history records tuners with a desired value
 but no tolerance

---
 qtune/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 3ee4019..025c42b 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -544,8 +544,8 @@ def extract_parameters_from_hierarchy(tuning_hierarchy) -> (pd.Series, pd.Series
         if isinstance(par_tuner, qtune.parameter_tuner.SubsetTuner):
             relevant_parameters = par_tuner.solver.target.desired.index[
                 ~par_tuner.solver.target.desired.apply(np.isnan)]
-            parameters = parameters.append(parameter[relevant_parameters])
-            variances = variances.append(variance[relevant_parameters])
+            parameters = parameters.append(parameter.reindex(relevant_parameters))
+            variances = variances.append(variance.reindex(relevant_parameters))
         else:
             parameters = parameters.append(parameter)
             variances = variances.append(variance)
-- 
2.43.0


From e35a6389b0ede4daec02a997074073667a8f884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 36/65] fix: the history finds the gradients of gates with any
 name

---
 qtune/history.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 025c42b..0551464 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -210,7 +210,7 @@ class History:
         :return: Gradient history.
         """
         regex = re.compile('^' + self._gradient_name.format(parameter_name=re.escape(parameter_name),
-                                                            gate_name=r'([\w\s\d]+)') + '$')
+                                                            gate_name=r'([^#]+)') + '$')
         return self._data_frame.filter(regex=regex).rename(lambda name: regex.findall(name)[0], axis='columns')
 
     def get_gradient_covariances(self, parameter_name) -> pd.DataFrame:
@@ -220,8 +220,8 @@ class History:
         :return: Gradient covariance history.
         """
         regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
-                                                                       gate_name_1=r'([\w\s\d]+)',
-                                                                       gate_name_2=r'([\w\s\d]+)') + '$')
+                                                                       gate_name_1=r'([^#]+)',
+                                                                       gate_name_2=r'([^#]+)') + '$')
         df = self._data_frame.filter(regex=regex)
         df = df[sorted(df.columns, key=regex.findall)]
         df.columns = pd.MultiIndex.from_tuples([regex.findall(name)[0] for name in df.columns])
@@ -234,7 +234,7 @@ class History:
         :return: History of the diagonal of the covariance matrix.
         """
         regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
-                                                                       gate_name_1=r'(?P<gatename>[\w\s\d]+)',
+                                                                       gate_name_1=r'(?P<gatename>[^#]+)',
                                                                        gate_name_2=r'(?P=gatename)') + '$')
         return self._data_frame.filter(regex=regex).rename(columns=lambda name: regex.search(name).group('gatename'))
 
-- 
2.43.0


From 384b2da0f2185f3d4e733457fcc42e8d80194a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 37/65] fix: the raw data in the history stay aligned if
 voltages are recorded before an evaluation

---
 qtune/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 0551464..5ef0266 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -320,7 +320,8 @@ class History:
             self._paths_for_reload.append(path)
             new_information = self.read_autotuner_to_data_frame(autotuner, end=evaluated_tuner_index)
             self._data_frame = self._data_frame.append(new_information, ignore_index=True, sort=True)
-            new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, end=evaluated_tuner_index)
+            # without any evaluation an empty row keeps the evaluator data aligned with the other data
+            new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, end=evaluated_tuner_index).reindex([0])
             self._evaluator_data = self._evaluator_data.append(new_evaluator_data, ignore_index=True, sort=True)
 
     def load_directory(self, path):
-- 
2.43.0


From f8b40884207fd7fa68385f4b2cd4b6a234df37e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 38/65] fix: the 2D sensing dot scan returns the flank that was
 asked for

---
 qtune/evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index d181992..b319d98 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -751,10 +751,10 @@ class SensingDot2D(Evaluator):
             differentiated_approximation[i] = np.diff(poly(raw_x_data[1]))
         cutoff = raw_x_data[1].size // 25
         if self._rising_flank:
-            steepest_point = np.unravel_index(np.argmin(differentiated_approximation[:, cutoff:-cutoff], axis=None),
+            steepest_point = np.unravel_index(np.argmax(differentiated_approximation[:, cutoff:-cutoff], axis=None),
                                               differentiated_approximation[:, cutoff:-cutoff].shape)
         else:
-            steepest_point = np.unravel_index(np.argmax(differentiated_approximation[:, cutoff:-cutoff], axis=None),
+            steepest_point = np.unravel_index(np.argmin(differentiated_approximation[:, cutoff:-cutoff], axis=None),
                                               differentiated_approximation[:, cutoff:-cutoff].shape)
 
         new_voltages = pd.Series([raw_x_data[0][steepest_point[0]], raw_x_data[1][steepest_point[1] + cutoff]],
-- 
2.43.0


From d354bb454172c991c6fed6a0753d45881f744e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 39/65] fix: a failed fit of a lead tunnel time is a failed
 evaluation

---
 qtune/evaluator.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index b319d98..1252370 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -154,7 +154,12 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
         self._raw_y_data = []
         self._raw_x_data = []
         raw_data = self.experiment.measure(self.measurements[0])
-        self._fit_results, residual = self.process_raw_data(raw_data)
+        try:
+            self._fit_results, residual = self.process_raw_data(raw_data)
+        except RuntimeError:
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            self._fit_results = pd.Series(data=np.nan, index=['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall',
+                                                              'offset'])
         t_rise = self._fit_results['t_rise']
         t_fall = self._fit_results['t_fall']
         error_t_rise = t_rise / 5.
@@ -257,7 +262,13 @@ class LeadTunnelTimeByLeadScan(FittingEvaluator):
 
     def evaluate(self) -> (pd.Series, pd.Series):
         raw_data = self.experiment.measure(self.measurements[0])
-        fitresult, residual = self.process_raw_data(raw_data)
+        try:
+            fitresult, residual = self.process_raw_data(raw_data)
+        except RuntimeError:
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            fitresult = pd.Series(data=np.nan, index=['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall',
+                                                      'offset', 'slope', 'offset_linear', 'length_lin_fall', 'slope_1',
+                                                      'offset_linear_1', 'length_lin_rise'])
         self._fit_results = fitresult
         t_rise = self._fit_results['t_rise']
         t_fall = self._fit_results['t_fall']
-- 
2.43.0


From 4ec24bd2dec5935bea3c33deba096fc34a9dba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 40/65] fix: the ForwardingSolver does not move the series it
 was given

---
 qtune/solver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 1212862..d61b33e 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -538,8 +538,7 @@ class ForwardingSolver(Solver):
         :param variances: Errors on the values.
         :return: None
         """
-        self._current_position[position.index.intersection(self.current_position.index)] = \
-            position[position.index.intersection(self.current_position.index)]
+        self.current_position = position
         self._next_position[position.index.intersection(self._next_position.index)] = \
             position[position.index.intersection(self.current_position.index)]
         values, variances = values.copy(), variances.copy()
-- 
2.43.0


From 2c125cc90b112f3f4b923cb79c3e5420c2d58625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 41/65] fix: components do not write into series and targets
 they share

---
 qtune/gradient.py        | 1 +
 qtune/parameter_tuner.py | 4 ++--
 qtune/solver.py          | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index dbe60c6..ab8d1a5 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -129,6 +129,7 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
         return self._epsilon
 
     def change_position(self, new_position: pd.Series):
+        self._current_position = self._current_position.copy()
         self._current_position[new_position.index] = new_position
 
     def estimate(self) -> pd.Series:
diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index e529cca..92643bb 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -72,7 +72,7 @@ class ParameterTuner(metaclass=HDF5Serializable):
             # with open(storage_path, 'wb') as file:
             #     file.write(data)
             assert set(not_na_index).issubset(set(last_parameter_values.index))
-            self._last_parameter_values = last_parameter_values
+            self._last_parameter_values = last_parameter_values.copy()
 
             # import os
             # os.remove(storage_path)
@@ -81,7 +81,7 @@ class ParameterTuner(metaclass=HDF5Serializable):
             self._last_parameters_variances = pd.Series(index=not_na_index)
         else:
             assert set(not_na_index).issubset(set(last_parameters_variances.index))
-            self._last_parameters_variances = last_parameters_variances
+            self._last_parameters_variances = last_parameters_variances.copy()
 
         self._evaluators = tuple(evaluators)
 
diff --git a/qtune/solver.py b/qtune/solver.py
index d61b33e..93f1a7b 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -113,6 +113,7 @@ class Solver(metaclass=HDF5Serializable):
 
     @target.setter
     def target(self, changes: Dict[str, pd.Series]):
+        self._target = self._target.copy()
         for category in changes:
             if not changes[category].index.isin(self.target[category].index).all():
                 self.logger.error('The new target %s %s is not consistent with the previous one!'
-- 
2.43.0


From d239a7c9cef74f60f1cc48bed20b066ae0a6e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 42/65] fix: parameters of a tuner without any target are not
 reported as tuned

---
 qtune/autotuner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index 9adce4f..2b0fd2b 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -142,6 +142,9 @@ class Autotuner(metaclass=HDF5Serializable):
     def tuned_parameters(self):
         tuned_parameters = set()
         for i in range(0, self.current_tuner_index):
+            if self.tuning_hierarchy[i].target.drop('rescaling_factor', axis='columns', errors='ignore').isna().all(axis=None):
+                # every target of this tuner is left open
+                continue
             not_na_index = self.tuning_hierarchy[i].target.drop(
                 [ind for ind in self.tuning_hierarchy[i].target.columns if
                  self.tuning_hierarchy[i].target.isna().all()[ind]], axis='columns').dropna().index
-- 
2.43.0


From 57c5e2d4fc5066ef60ea61a23a17d50f9adfeffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 43/65] fix: the module sm can be imported

---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index c7cfa07..dc53340 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -225,7 +225,7 @@ class LegacyDQDRefactored(BasicDQD):
 
 
 class MatlabEvaluator(Evaluator):
-    def __init__(self, experiment: qtune.sm.LegacyDQDRefactored, **kwargs):
+    def __init__(self, experiment: LegacyDQDRefactored, **kwargs):
         super().__init__(experiment, **kwargs)
 
     def evaluate(self):
-- 
2.43.0


From 59d301a2ff42c00bfce46d06d83039ec1e501564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 44/65] fix: the MATLAB backends do not use aliases that numpy
 removed

---
 qtune/sm.py          | 2 +-
 qtune/sm_tune_qqd.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index dc53340..b4cdf90 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -148,7 +148,7 @@ class SpecialMeasureMatlab:
 
             return self.engine.transpose(casted)
         elif isinstance(obj, np.generic):
-            return float(np.asscalar(obj))
+            return float(obj.item())
         elif isinstance(obj, List):
             return [self.to_matlab(x) for x in obj]
         elif isinstance(obj, Tuple):
diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 5f5329f..55c31b8 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -98,7 +98,7 @@ class SMTuneQQD(Experiment):
 
         return self.read_gate_voltages()  # set_qqd_gate_voltages
 
-    def tune(self, measurement_name, index: np.int, **kwargs) -> pd.Series:
+    def tune(self, measurement_name, index: int, **kwargs) -> pd.Series:
         # Tune wrapper using the MATLAB syntax
 
         # data ---  args        <<<< contains struct arrays!
@@ -120,9 +120,9 @@ class SMTuneQQD(Experiment):
             vals = list(options.values())
             name_value_pairs = [x for t in zip(keys, vals) for x in t]
 
-            data_view = tune_view(measurement_name, *([np.float(index)] + name_value_pairs))
+            data_view = tune_view(measurement_name, *([float(index)] + name_value_pairs))
         else:
-            data_view = tune_view(measurement_name, np.float(index))
+            data_view = tune_view(measurement_name, float(index))
 
         return pd.Series({'data': data_view})
 
-- 
2.43.0


From 9079f338f4af21fafad3d6299f7ec971dd35ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 45/65] fix: by default QQDResp accepts every position

---
 qtune/sm_tune_qqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 55c31b8..f7673a6 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -466,7 +466,7 @@ class QQDResp(Evaluator):
         else:
             self._min_position = pd.Series(index=self.parameters, data=min_position)
         if max_position is None:
-            self._max_position = pd.Series(index=self.parameters, data=-np.inf)
+            self._max_position = pd.Series(index=self.parameters, data=np.inf)
         elif isinstance(max_position, pd.Series):
             self._max_position = max_position
         else:
-- 
2.43.0


From 6d7fb63f28a0332c0ea40861916cb0d88ac42efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 46/65] fix: tuples are converted to tuples for MATLAB

---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index b4cdf90..39b50d9 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -152,7 +152,7 @@ class SpecialMeasureMatlab:
         elif isinstance(obj, List):
             return [self.to_matlab(x) for x in obj]
         elif isinstance(obj, Tuple):
-            return (self.to_matlab(x) for x in obj)
+            return tuple(self.to_matlab(x) for x in obj)
         elif isinstance(obj, Dict):
             return {x: self.to_matlab(obj[x]) for x in obj}
         elif isinstance(obj, Set):
-- 
2.43.0


From 305cdd4c914b02cd99b703356e2ee785dcb398c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 47/65] fix: the limits of QQDResp apply to the parameters they
 are named after

---
 qtune/sm_tune_qqd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index f7673a6..ff547c5 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -476,8 +476,8 @@ class QQDResp(Evaluator):
         self.logger.info(f'Evaluating {self.parameters}.')
         measurement_result = self.experiment.measure(self.measurements[0])
         positions, errors = self.process_raw_data(measurement_result)
-        for i in range(len(positions)):
-            if positions[i] < self._min_position.iloc[i] or positions[i] > self._max_position.iloc[i]:
+        for i, parameter in enumerate(self.parameters):
+            if positions[i] < self._min_position[parameter] or positions[i] > self._max_position[parameter]:
                 positions[i] = np.nan
         return pd.Series(data=positions, index=self.parameters), \
                pd.Series(data=errors, index=self.parameters)
-- 
2.43.0


From 1fca4c292d853825d15eff5e1d39b708e7b399f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 48/65] fix: negative indices and slices are translated to the
 MATLAB index of the same elements

---
 qtune/mat2py.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qtune/mat2py.py b/qtune/mat2py.py
index 9124f58..6de5f88 100644
--- a/qtune/mat2py.py
+++ b/qtune/mat2py.py
@@ -73,7 +73,7 @@ def _set_field(eval_str, field, val_str):
 
 def _transform_int(py_idx):
     if py_idx < 0:
-        return 'end - %d' % abs(py_idx)
+        return 'end - %d' % (abs(py_idx) - 1)
     else:
         return str(py_idx + 1)
 
@@ -94,17 +94,17 @@ def _transform_slice(python_slice):
     
     if python_slice.start is None:
         start = '1' if step > 0 else 'end'
-    elif idx.start < 0:
-        start = '(end - %d)' % abs(python_slice.start)
+    elif python_slice.start < 0:
+        start = '(end - %d)' % (abs(python_slice.start) - 1)
     else:
-        start = str(python_slice.start + 1 if step > 0 else python_slice.start)
+        start = str(python_slice.start + 1)
     
     if python_slice.stop is None:
         stop = 'end' if step > 0 else '1'
     elif python_slice.stop < 0:
-        stop = '(end - %d)' % abs(python_slice.stop)
+        stop = '(end - %d)' % (abs(python_slice.stop) if step > 0 else abs(python_slice.stop) - 2)
     else:
-        stop = str(python_slice.stop if step > 0 else python_slice.stop + 1)
+        stop = str(python_slice.stop if step > 0 else python_slice.stop + 2)
     
     return '%s:%d:%s' % (start, step, stop)
 
-- 
2.43.0


From 9b6a31525755498ddfd131b2f9266a1b81a6d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 49/65] fix: the buttons and the worker of the GUI use the
 logger, not its name

---
 qtune/gui.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 41ac735..53267ef 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -559,14 +559,14 @@ class GUI(QtWidgets.QMainWindow):
         self._stop_btn = stop_btn
         self._step_btn = step_btn
 
+        self._logger = logger
+
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
         self._stop = False
         self._thread.start()
 
-        self._logger = logger
-
         self._plot_organizer = []
         self._parameter_windows = []
         self._gradient_windows = []
@@ -684,13 +684,13 @@ class GUI(QtWidgets.QMainWindow):
 
     def _join_worker(self):
         if self._thread.is_alive():
-            self._logger.info('Joining thread')
+            self.logger.info('Joining thread')
         self._stop = True
         self._thread.join()
 
     def restart_thread(self):
         self._join_worker()
-        self._logger.info('Restarting thread')
+        self.logger.info('Restarting thread')
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
@@ -707,7 +707,7 @@ class GUI(QtWidgets.QMainWindow):
                     try:
 
                         if self.auto_tuner.is_tuning_complete():
-                            self._logger.info('Tuning completed')
+                            self.logger.info('Tuning completed')
                             self.pause()
                         else:
                             self.auto_tuner.iterate()
@@ -718,10 +718,10 @@ class GUI(QtWidgets.QMainWindow):
                             self._update_plots.emit()
 
                     except Exception:
-                        self._logger.exception('Error during auto tuner iteration: Pausing...')
+                        self.logger.exception('Error during auto tuner iteration: Pausing...')
                         self.pause()
                 else:
-                    self._logger.error('No Autotuner: Pausing...')
+                    self.logger.error('No Autotuner: Pausing...')
                     self.pause()
 
                 self._stepped = False
@@ -731,14 +731,14 @@ class GUI(QtWidgets.QMainWindow):
 
     def start(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
         elif self._continuous:
-            self._logger.info('Already started')
+            self.logger.info('Already started')
 
         else:
-            self._logger.info('Starting worker thread')
+            self.logger.info('Starting worker thread')
 
         self._continuous = True
         self._start_btn.setEnabled(False)
@@ -747,19 +747,19 @@ class GUI(QtWidgets.QMainWindow):
 
     def step(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
-        self._logger.info('Order worker to do one step')
+        self.logger.info('Order worker to do one step')
         self._stepped = True
 
     def pause(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread already dead')
+            self.logger.warning('Worker thread already dead')
         elif self._continuous:
-            self._logger.info('Pausing worker thread')
+            self.logger.info('Pausing worker thread')
         elif not self._stepped:
-            self._logger.info('Already paused')
+            self.logger.info('Already paused')
 
         self._continuous = False
         self._stepped = False
-- 
2.43.0


From e5ed7722812a2cb75f19d773b9ea56f098d55d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 50/65] fix: closing the GUI ends a continuous tuning

---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 53267ef..0b74b9c 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -702,7 +702,7 @@ class GUI(QtWidgets.QMainWindow):
             while not (self._stop or self._continuous or self._stepped):
                 time.sleep(0.05)
 
-            while self._continuous or self._stepped and not self._stop:
+            while (self._continuous or self._stepped) and not self._stop:
                 if self.auto_tuner:
                     try:
 
-- 
2.43.0


From f741cbe93fc99707d02df188af27bdd9bef3ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 51/65] fix: the GUI can log although somebody else logs to the
 root logger

---
 qtune/gui.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 0b74b9c..cbfc971 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -781,9 +781,8 @@ class GUI(QtWidgets.QMainWindow):
 
         self.log_level.currentIndexChanged.connect(LogLevelSelecter(self, logger, parent=self).select)
 
-        while logger.hasHandlers():
-            to_rm = next(iter(logger.handlers))
-            logger.removeHandler(to_rm)
+        for handler in list(logger.handlers):
+            logger.removeHandler(handler)
 
         handler = FunctionHandler(self.log)
         formatter = logging.Formatter('%(asctime)s - %(levelname)s - %(message)s')
-- 
2.43.0


From 4c6d78374b48cdfb34307c4139035d0a395cfbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 52/65] fix: the reload window shows the iteration it reloads

---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index cbfc971..03171fb 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -407,7 +407,7 @@ class ReloadWidget(pg.LayoutWidget):
         tune_run_label = QtWidgets.QLabel('Reload tune run number')
         self.addWidget(tune_run_label, 1, 1)
         self.tune_run_line = QtWidgets.QLineEdit()
-        self.tune_run_line.setText('1')
+        self.tune_run_line.setText(str(self.tune_run_number))
         self.tune_run_line.setValidator(QtGui.QIntValidator())
         self.tune_run_line.editingFinished.connect(self.refreh_tune_run_number)
         self.addWidget(self.tune_run_line, 2, 1)
-- 
2.43.0


From c19e489cd23b8008f8956f90462031b0e7c958a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 53/65] fix: several objects with the same reserved objects can
 be saved to one file

---
 qtune/storage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 2c6867f..4503646 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -173,9 +173,12 @@ def to_hdf5(filename_or_handle: Union[str, h5py.Group], name: str, obj,
     serialized = dict()
 
     for key, value in reserved.items():
-        dset = root.create_dataset(name=key, dtype='f')
+        if key in root and root[key].attrs.get("#type") == "#reserved":
+            dset = root[key]
+        else:
+            dset = root.create_dataset(name=key, dtype='f')
+            dset.attrs["#type"] = "#reserved"
         serialized[id(value)] = dset
-        dset.attrs["#type"] = "#reserved"
 
     _to_hdf5(root, name, obj, serialized)
 
-- 
2.43.0


From b92665828892610be04b9db9a275c012d5e88f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 54/65] fix: read_files reads files with reserved objects

---
 qtune/history.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 5ef0266..bcb2a96 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -109,12 +109,12 @@ def read_files(file_or_files, reserved=None):
 
     for file_name in files:
         with h5py.File(file_name, 'r') as root:
-            entries = [key for key in root.keys() if not key.startswith('#')]
+            entries = [key for key, entry in root.items()
+                       if not key.startswith('#') and entry.attrs.get('#type') != '#reserved']
+            file_data = qtune.storage.from_hdf5(root, reserved)
 
             for entry in entries:
-                entry_data = qtune.storage.from_hdf5(root[entry], reserved)
-
-                data.append((entry, entry_data))
+                data.append((entry, file_data[entry]))
 
     return sorted(data, key=operator.itemgetter(0))
 
-- 
2.43.0


From 9d2998f17cb971134243cdad50a47ea2329c2b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 55/65] fix: single gradients and parameters without
 description can be plotted

---
 qtune/history.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index bcb2a96..f94c6bd 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -481,6 +481,11 @@ class History:
         return cls._gradient_name.format(parameter_name=parameter_name, gate_name=gate_name)
 
 
+def get_parameter_label(parameter_name: str, label: str) -> str:
+    """The label if the parameter is known and the name of the parameter otherwise."""
+    return parameter_information.get(parameter_name, {}).get(label, parameter_name)
+
+
 def plot_voltages(voltage_data_frame: pd.DataFrame):
     voltage_fig, voltage_ax = plt.subplots()
     voltage_ax.plot(voltage_data_frame)
@@ -503,8 +508,8 @@ def plot_parameters(parameter_data_frame: pd.DataFrame,
     parameter_ax = parameter_data_frame.plot(subplots=True, yerr=parameter_std,
                                              ax=parameter_ax, sharex=True, legend=False)
     for ax, par_name in zip(parameter_ax, parameter_data_frame.columns):
-        ax.set_ylabel(parameter_information[par_name]["entity_unit"])
-        ax.set_title(parameter_information[par_name]["name"])
+        ax.set_ylabel(get_parameter_label(par_name, "entity_unit"))
+        ax.set_title(get_parameter_label(par_name, "name"))
     parameter_ax[-1].set_xlabel("Measurement Number")
     return parameter_fig, parameter_ax
 
@@ -519,6 +524,7 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
         grad_fig, grad_ax = plt.subplots(nrows=len(gradients))
     else:
         grad_fig, grad_ax = None, axes
+    grad_ax = np.atleast_1d(grad_ax)
 
     for ax, (parameter_name, gradient) in zip(grad_ax, gradients.items()):
         if parameter_name in gradient_std:
@@ -527,7 +533,7 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
         else:
             gradient.plot(ax=ax)
 
-        ax.set_ylabel(parameter_information[parameter_name]["gradient_unit"])
+        ax.set_ylabel(get_parameter_label(parameter_name, "gradient_unit"))
     grad_ax[0].set_title("Response Matrix")
     grad_ax[-1].set_xlabel("Measurement Number")
     return grad_fig, grad_ax
-- 
2.43.0


From 636907a9ff9c554705778c85cf5a684536f7b7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 56/65] fix: the plot window can read its selection (groups
 have a value)

---
 qtune/gui.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 03171fb..c5cd8bb 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -236,16 +236,16 @@ class PlotOrganizer(pg.LayoutWidget):
     def __init__(self, history: History, **kwargs):
         super().__init__(**kwargs)
 
-        gates = {'name': 'Gate Voltages', 'type': 'group', 'children': [
+        gates = {'name': 'Gate Voltages', 'type': 'group', 'value': None, 'children': [
             {'name': name, 'type': 'bool', 'value': False} for name in history.gate_names
         ]}
 
-        params = {'name': 'Parameters', 'type': 'group', 'children': [
+        params = {'name': 'Parameters', 'type': 'group', 'value': None, 'children': [
             {'name': name, 'type': 'list', 'values': ['', 'plot', 'plot + error'], 'value': ''}
             for name in history.parameter_names
         ]}
 
-        grads = {'name': 'Gradients', 'type': 'group', 'children': [
+        grads = {'name': 'Gradients', 'type': 'group', 'value': None, 'children': [
             {'name': parameter_name, 'type': 'list', 'values': ['', 'plot', 'plot + error'], 'value': '',
              'expanded': False, 'children': [
                 {'name': gate_name, 'type': 'list', 'values': ['', 'plot', 'plot + error'], 'value': ''}
-- 
2.43.0


From 20855cdb950908da74d63099c03f0d279d39ce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 57/65] fix: the gradient window shows the parameters that have
 gradients

---
 qtune/gui.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qtune/gui.py b/qtune/gui.py
index c5cd8bb..8347d49 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -341,6 +341,12 @@ class GradientWidget(QTuneMatplotWidget):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
+    @property
+    def parameter_names(self):
+        if self._parameter_names is None:
+            return sorted(self.history.gradient_controlled_parameter_names)
+        return self._parameter_names
+
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
     def refresh(self):
-- 
2.43.0


From 021b70c6e48c95b0e00895b7800734bfaf9601aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 58/65] fix: a failed save neither loses the other saves nor
 blocks those who wait for them

---
 qtune/storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 4503646..f861214 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -317,9 +317,9 @@ def _writer_target(write_queue: Union[multiprocessing.JoinableQueue, queue.Queue
 
             try:
                 to_hdf5(file_name, name, obj, reserved=reserved)
-            except:
+            except Exception:
+                # go on, otherwise the remaining tasks are lost and everybody who joins the queue waits forever
                 logging.getLogger(logger).exception('Error while writing "%s"' % file_name)
-                raise
         finally:
             write_queue.task_done()
 
-- 
2.43.0


From b04f702a75debc643a4a90cfc14a18c9dd15bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 59/65] fix: later evaluations do not change the evaluator data
 in the history

---
 qtune/history.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index f94c6bd..2d1f61b 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -14,6 +14,7 @@
 
 # @email: julian.teske@rwth-aachen.de
 
+import copy
 import os
 import operator
 import re
@@ -584,6 +585,11 @@ def extract_diagonal_from_data_frame(df: pd.DataFrame) -> pd.Series:
     return pd.Series(data=[df[i][i] for i in df.index], index=df.index)
 
 
+def snapshot_evaluator_data(evaluator) -> dict:
+    """The data of an evaluator as they are now: later evaluations may change the same objects in place."""
+    return copy.deepcopy(evaluator.to_hdf5(), {id(evaluator.experiment): evaluator.experiment})
+
+
 def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, start: int=0, end: Optional[int] = None) \
         -> pd.DataFrame:
     if end is None:
@@ -597,12 +603,12 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
                 relevant_evaluators += par_tuner.expensive_evaluators
             for evaluator in relevant_evaluators:
                 if evaluator.raw_data is not None:
-                    eval_data = evaluator.to_hdf5()
+                    eval_data = snapshot_evaluator_data(evaluator)
                     evaluator_data[evaluator.name] = [eval_data, ]
         else:
             for evaluator in par_tuner.evaluators:
                 if evaluator.raw_data is not None:
-                    eval_data = evaluator.to_hdf5()
+                    eval_data = snapshot_evaluator_data(evaluator)
                     evaluator_data[evaluator.name] = [eval_data, ]
     return evaluator_data
 
-- 
2.43.0


From 8737555cd5b3c625e1e1f6a5c11abc93856491c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 60/65] fix: raw data can be drawn on a single axis, a list or
 an array of axes

---
 qtune/history.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 2d1f61b..af579d3 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -614,20 +614,16 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
 
 
 def plot_load_time(ax, evaluator_hdf5, **_):
+    axi = np.ravel(ax)[0]
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
                                  fit_function=qtune.evaluator.func_load_time,
                                  function_args=evaluator_hdf5['fit_results'],
-                                 initial_arguments=evaluator_hdf5['initial_fit_arguments'], ax=ax[0])
-    ax[0].legend(['Data', 'Fit', 'Initial_parameters'])
+                                 initial_arguments=evaluator_hdf5['initial_fit_arguments'], ax=axi)
+    axi.legend(['Data', 'Fit', 'Initial_parameters'])
 
 
 def plot_inter_dot_tc(ax, evaluator_hdf5: dict, **_):
-    if isinstance(ax, List) or isinstance(ax, Tuple) or isinstance(ax, np.ndarray):
-        axi = ax[0]
-    else:
-        axi = ax
-    if isinstance(axi, List) or isinstance(axi, Tuple) or isinstance(axi, np.ndarray):
-        axi = axi[0]
+    axi = np.ravel(ax)[0]
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
                                  fit_function=qtune.evaluator.func_inter_dot_coupling,
                                  function_args=evaluator_hdf5['fit_results'],
@@ -636,12 +632,7 @@ def plot_inter_dot_tc(ax, evaluator_hdf5: dict, **_):
 
 
 def plot_lead_time(ax, evaluator_hdf5: dict, **_):
-    if isinstance(ax, List) or isinstance(ax, Tuple) or isinstance(ax, np.ndarray):
-        axi = ax[0]
-    else:
-        axi = ax
-    if isinstance(axi, List) or isinstance(axi, Tuple) or isinstance(axi, np.ndarray):
-        axi = axi[0]
+    axi = np.ravel(ax)[0]
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
                                  fit_function=qtune.evaluator.func_lead_times_v1,
                                  function_args=evaluator_hdf5['fit_results'],
@@ -650,7 +641,7 @@ def plot_lead_time(ax, evaluator_hdf5: dict, **_):
 
 
 def plot_transition(ax, evaluator_hdf5: dict, **_):
-    for i, axi in enumerate(ax):
+    for i, axi in enumerate(np.ravel(ax)):
         qtune.util.plot_raw_data_vertical_marks(y_data=evaluator_hdf5['raw_y_data'][i],
                                                 x_data=evaluator_hdf5['raw_x_data'][i],
                                                 marking_position=evaluator_hdf5['transition_positions'][i],
@@ -659,8 +650,7 @@ def plot_transition(ax, evaluator_hdf5: dict, **_):
 
 
 def plot_1dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
-    if isinstance(ax, Tuple) or isinstance(ax, List):
-        ax = ax[0]
+    ax = np.ravel(ax)[0]
     qtune.util.plot_raw_data_vertical_marks(y_data=evaluator_hdf5['raw_y_data'],
                                             x_data=evaluator_hdf5['raw_x_data'],
                                             marking_position=evaluator_hdf5['optimal_position'],
@@ -670,7 +660,7 @@ def plot_1dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
 def plot_2dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
     qtune.util.plot_raw_data_2_dim_marks(y_data=evaluator_hdf5['raw_y_data'],
                                          x_data=evaluator_hdf5['raw_x_data'],
-                                         ax=ax[0],
+                                         ax=np.ravel(ax)[0],
                                          marking_position=evaluator_hdf5['new_voltages'])
 
 
-- 
2.43.0


From 9594a17fa0f1ad80675b363d0cf1fedb1d4ba8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 61/65] fix: the plots of the transitions are named after the
 transition they show

---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index af579d3..190ec65 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -646,7 +646,7 @@ def plot_transition(ax, evaluator_hdf5: dict, **_):
                                                 x_data=evaluator_hdf5['raw_x_data'][i],
                                                 marking_position=evaluator_hdf5['transition_positions'][i],
                                                 ax=axi)
-        axi.set_title(evaluator_hdf5['parameters'][i])
+        axi.set_title(evaluator_hdf5['transition_positions'].index[i])
 
 
 def plot_1dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
-- 
2.43.0


From 533e864b7e595f3aa3db570cb303c0b638878a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 62/65] fix: repeated scans are averaged before their
 transition is marked

---
 qtune/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/util.py b/qtune/util.py
index a795809..12b2668 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -264,8 +264,8 @@ def plot_raw_data_vertical_marks(y_data, x_data, marking_position, ax=None):
     if y_data is None:
         return ax
     y_data = y_data.squeeze()
-    if len(y_data) == 2:
-        y_data = np.nanmean(y_data)
+    if len(y_data.shape) == 2:
+        y_data = np.nanmean(y_data, 0)
     if x_data is None:
         x_data = np.arange(0, y_data.shape[0])
 
-- 
2.43.0


From 187688db2cb4b638145134b8069acc7dbd822a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 63/65] fix: the lead scans with linear ramps are plotted with
 their own model

---
 qtune/history.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 190ec65..4d97701 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -633,9 +633,14 @@ def plot_inter_dot_tc(ax, evaluator_hdf5: dict, **_):
 
 def plot_lead_time(ax, evaluator_hdf5: dict, **_):
     axi = np.ravel(ax)[0]
+    fit_results = evaluator_hdf5['fit_results']
+    if fit_results is not None and 'length_lin_fall' in fit_results:
+        fit_function = qtune.evaluator.func_lead_times_v2
+    else:
+        fit_function = qtune.evaluator.func_lead_times_v1
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
-                                 fit_function=qtune.evaluator.func_lead_times_v1,
-                                 function_args=evaluator_hdf5['fit_results'],
+                                 fit_function=fit_function,
+                                 function_args=fit_results,
                                  initial_arguments=evaluator_hdf5['initial_fit_arguments'], ax=axi)
     axi.legend(['Data', 'Fit', 'Initial_parameters'])
 
-- 
2.43.0


From 14e3057ab689e246e801352bcd1b2912f127115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 64/65] fix: raw data of all evaluators can be plotted, also
 averaged ones

---
 qtune/history.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 4d97701..de16bd1 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -418,10 +418,12 @@ class History:
         :param evaluator_names: Names of the evaluator to be plotted.
         :return: Figure, Axes
         """
+        if evaluator_names is None:
+            evaluator_names = self.evaluator_names
         for name in evaluator_names:
             if name not in self._evaluator_data.columns:
                 self.logger.warning(name + ' is not in the evaluation data.')
-                evaluator_names.remove(name)
+        evaluator_names = [name for name in evaluator_names if name in self._evaluator_data.columns]
 
         if end is None:
             end = start + 1
@@ -430,19 +432,16 @@ class History:
         for i in range(start, end):
             if i not in self._evaluator_data.index:
                 raise RuntimeError('These indices are not in the aquired data!')
-            number_measurements = [
-                len(self._evaluator_data.loc[self._evaluator_data.index[i], evaluator]['measurements'])
-                for evaluator in evaluator_names
-                if not self._evaluator_data.loc[self._evaluator_data.index[i], evaluator] != self._evaluator_data.loc[
-                    self._evaluator_data.index[i], evaluator]]
             relevant_evaluators = [
                 evaluator
                 for evaluator in evaluator_names
                 if not self._evaluator_data.loc[self._evaluator_data.index[i], evaluator] != self._evaluator_data.loc[
                     self._evaluator_data.index[i], evaluator]]
+            number_measurements = [
+                count_measurements(self._evaluator_data.loc[self._evaluator_data.index[i], evaluator])
+                for evaluator in relevant_evaluators]
             eval_data_fig, eval_data_ax = plt.subplots(nrows=2,
-                                                       ncols=sum(number_measurements) // 2 + sum(
-                                                           number_measurements) % 2)
+                                                       ncols=max(1, (sum(number_measurements) + 1) // 2))
             eval_data_figs.append(eval_data_fig)
             eval_data_axs.append(eval_data_ax)
             ax_list = [eval_data_ax.ravel()[sum(number_measurements[0:j]):sum(number_measurements[0:j + 1])] for j in
@@ -613,6 +612,13 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
     return evaluator_data
 
 
+def count_measurements(evaluator_hdf5: dict) -> int:
+    """The number of measurements of an evaluator; an averaging evaluator does those of the evaluator it averages."""
+    if 'measurements' in evaluator_hdf5:
+        return len(evaluator_hdf5['measurements'])
+    return len(evaluator_hdf5['evaluator'].measurements)
+
+
 def plot_load_time(ax, evaluator_hdf5, **_):
     axi = np.ravel(ax)[0]
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
-- 
2.43.0


From aab21925aa45f1f4e7920508be6de89600afc183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 65/65] fix: with tuned parameters the Kalman estimator
 measures the most uncertain of all directions that leave them invariant

---
 qtune/gradient.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index ab8d1a5..fa525a9 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -316,24 +316,24 @@ class KalmanGradientEstimator(GradientEstimator):
                 return self._current_position.add(self._epsilon[gates] * eigenvectors[:, np.argmax(lengths)],
                                                   fill_value=0.)
         else:
-            tuned_matrix = sp.Matrix(tuned_jacobian)
-            nullvecotors = [vec / vec.norm() for vec in tuned_matrix.nullspace()]
-            filled_nullvectors = []
-            for vec in nullvecotors:
-                full_vector = self.current_position.copy(deep=True)
-                vec_labled = pd.Series(np.squeeze(np.array(vec)), index=tuned_jacobian.columns)
-                full_vector[vec_labled.index] = vec_labled
-                full_vector[full_vector.index.difference(vec_labled.index)] = 0
-                filled_nullvectors.append(sp.Matrix(full_vector))
-            max_covariance = self._maximum_covariance.max()
-            directional_covariances = [v.T * self._kalman_gradient.cov * v for v in filled_nullvectors]
-            if np.any(np.array(directional_covariances) > max_covariance):
+            # only consider directions which leave the tuned parameters invariant
+            null_vectors = sp.GramSchmidt(sp.Matrix(tuned_jacobian).nullspace(), True)
+            if not null_vectors:
+                return None
+            null_space = np.hstack([np.array(vec) for vec in null_vectors]).astype(float)
+            gates = tuned_jacobian.columns
+            relevant_cov = null_space.T @ self.covariance().loc[gates, gates].values @ null_space
+
+            eigenvalues, eigenvectors = np.linalg.eigh(relevant_cov)
+            eigenvectors = null_space @ eigenvectors
+
+            rescaled_eigenvectors = eigenvalues * eigenvectors / self._maximum_covariance[gates].values[:, np.newaxis]
+            lengths = np.linalg.norm(rescaled_eigenvectors, axis=0)
+            if np.any(lengths > 1):
                 self.logger.info('New measurement required by kalman gradient estimator.')
-                self.logger.debug(self._epsilon * np.squeeze(
-                        np.array(filled_nullvectors[np.argmax(directional_covariances)]).astype(float)))
-                return self._current_position.add(
-                    self._epsilon * np.squeeze(
-                        np.array(filled_nullvectors[np.argmax(directional_covariances)]).astype(float)), fill_value=0.)
+                self.logger.debug(self._epsilon[gates] * eigenvectors[:, np.argmax(lengths)])
+                return self._current_position.add(self._epsilon[gates] * eigenvectors[:, np.argmax(lengths)],
+                                                  fill_value=0.)
 
     def update(self,
                position: pd.Series,
-- 
2.43.0

