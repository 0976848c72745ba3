From 584daab45cd6961725810249c6761403ea067727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:57 +0000
Subject: [PATCH 01/39] fix: do not average the stop placeholder FoM into the
 re-evaluations

When the optimization is stopped (user, evaluation budget, goal, time) or an
evaluation fails in the middle of the re-evaluation steps, the 1e10 placeholder
returned by the routine call was averaged with the real measurements and could
be reported as a record.
---
 .../optimizationalgorithms/DirectSearchAlgorithm.py      | 9 ++++++++-
 .../optimizationalgorithms/OptimizationAlgorithm.py      | 5 +++++
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py    | 9 ++++++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index e7194db..58bd061 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -145,6 +145,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                 ############################################################################################################
                 # Implement the re-evaluation step method
                 ############################################################################################################
+                # The controls were not evaluated, e.g. because the optimization was stopped: there is nothing to test
+                if not self.is_FoM_valid:
+                    return FoM
                 # check mu-sig criterion by calculating probability of current pulses being new record
                 # Re evaluation steps initialization e.g. [0.33, 0.5, 0.501, 0.51]
                 re_evaluation_steps = self.re_evaluation_steps
@@ -174,7 +177,11 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                     if probability < p_level:
                         return mu_1
                     # else: go on with further re-evaluations
-                    self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    FoM = self._routine_call(optimized_control_parameters, iterations)
+                    # The re-evaluation did not take place: no further decision can be made on these controls
+                    if not self.is_FoM_valid:
+                        return mu_1
+                    self.FoM_test[ii + 1] = FoM
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index e877651..aaaa05e 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -90,6 +90,8 @@ class OptimizationAlgorithm:
             self.FoM_goal = self.FoM_goal * self.FoM_factor
         # FoM dictionary
         self.FoM_dict = {"FoM": INITIAL_FOM, "std": 0.1}
+        # True only if the last routine call has evaluated the FoM and the evaluation was successful
+        self.is_FoM_valid = False
         self.comm_obj.print_logger(message=message, level=20)
         # listener for ctrl + c cancellation
         if threading.current_thread() is threading.main_thread():
@@ -146,6 +148,8 @@ class OptimizationAlgorithm:
         :return: float: Return the figure of merit to the inner free gradient method
         """
 
+        # no evaluation has been done yet in this call
+        self.is_FoM_valid = False
         # check if total maximum number of evals has been reached
         if self.iteration_number >= self.max_eval_total:
             self.higher_order_terminate_reason = "Maximum number of total function evaluations reached"
@@ -202,6 +206,7 @@ class OptimizationAlgorithm:
             return self.FoM_maximum
         # Get the figure of merit and update it to the main algorithm
         self.FoM_dict = self.comm_obj.get_data()["FoM_values"]
+        self.is_FoM_valid = self.FoM_dict.setdefault("status_code", 0) == 0
         # Send the response for the interface
         self.comm_obj.send_FoM_response(self._get_response_for_client())
         # Update the notification file for the interface
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 05e2725..ecf36d5 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -318,6 +318,9 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                 #######################################################################################################
                 # Implement the re-evaluation step method
                 #######################################################################################################
+                # The controls were not evaluated, e.g. because the optimization was stopped: there is nothing to test
+                if not self.is_FoM_valid:
+                    return FoM
                 # check mu-sig criterion by calculating probability of current pulses being new record
                 # Re evaluation steps initialization e.g. [0.33, 0.5, 0.501, 0.51]
                 re_evaluation_steps = self.re_evaluation_steps
@@ -347,7 +350,11 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                     if probability < p_level:
                         return mu_1
                     # else: go on with further re-evaluations
-                    self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    FoM = self._routine_call(optimized_control_parameters, iterations)
+                    # The re-evaluation did not take place: no further decision can be made on these controls
+                    if not self.is_FoM_valid:
+                        return mu_1
+                    self.FoM_test[ii + 1] = FoM
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
-- 
2.43.0


From 6e6aacaaab4b3bd970ee62dcaa440fb8e9476c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:57 +0000
Subject: [PATCH 02/39] fix: ignore evaluations which did not take place in the
 drift compensation

If the optimization is stopped during the drift compensation the 1e10
placeholder was averaged into the best FoM.
---
 .../DirectSearchAlgorithm.py                     |  3 +++
 .../optimizationalgorithms/dCRABAlgorithm.py     | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 58bd061..3e1020f 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -119,6 +119,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         :return float: FoM
         """
         if drift_comp_new_val is not None:
+            # The drift compensation was interrupted, its value is not a measurement
+            if not self.is_FoM_valid:
+                return self.best_FoM
             mu_1 = drift_comp_new_val
             self.best_FoM = mu_1
             self.is_record = True
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index ecf36d5..bd700e6 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -229,10 +229,17 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         x0 = self.controls.get_mean_value()
         # Evaluate the FoM with the standard routine call and set the FoM as the current record
         iteration, self.is_record, self.step_number = 0, True, 0
-        new_FoM = 0
+        new_FoM_list = []
         for _ in range(self.compensate_drift_num_average):
-            new_FoM += self._routine_call(x0, iteration)
-        self.best_FoM = new_FoM / self.compensate_drift_num_average
+            FoM = self._routine_call(x0, iteration)
+            # The optimization was stopped or the evaluation failed: use only the evaluations done so far
+            if not self.is_FoM_valid:
+                break
+            new_FoM_list.append(FoM)
+        # Without a new measurement keep the current best FoM
+        if len(new_FoM_list) == 0:
+            return
+        self.best_FoM = sum(new_FoM_list) / len(new_FoM_list)
         # Info message
         message = f"Previous best FoM: {self.FoM_factor*previous_best_FoM}, Current best FoM after drift " \
                   f"compensation ({mode}): {self.FoM_factor*self.best_FoM}"
@@ -287,6 +294,9 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         :param drift_comp_new_val: new value of the FoM due to drift compensation
         """
         if drift_comp_new_val is not None:
+            # The drift compensation was interrupted, its value is not a measurement
+            if not self.is_FoM_valid:
+                return self.best_FoM
             mu_1 = drift_comp_new_val
             self.best_FoM = mu_1
             self.is_record = True
-- 
2.43.0


From 38564a0e902725b049b1458284185cc48567a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:57 +0000
Subject: [PATCH 03/39] fix: a failed FoM evaluation can not become the record

An evaluation returned with a non-zero status code could be taken as the best
FoM and reported at the end of the optimization.
---
 src/quocslib/optimizationalgorithms/ADAlgorithm.py           | 2 +-
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 2 +-
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py        | 2 +-
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/ADAlgorithm.py b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
index 6be52c4..574cfc4 100644
--- a/src/quocslib/optimizationalgorithms/ADAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
@@ -203,7 +203,7 @@ class ADAlgorithm(OptimizationAlgorithm):
         """ Return a dictionary with the response for the client """
         FoM = self.FoM_dict["FoM"]
         status_code = self.FoM_dict.setdefault("status_code", 0)
-        if self.get_is_record(FoM):
+        if status_code == 0 and self.get_is_record(FoM):
             message = "New record achieved. Previous FoM: {FoM}, new best FoM : {best_FoM}".format(FoM=self.FoM_factor*self.best_FoM,
                                                                                                    best_FoM=self.FoM_factor*FoM)
             self.comm_obj.print_logger(message=message, level=20)
diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 3e1020f..fe3f679 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -271,7 +271,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         status_code = self.FoM_dict.setdefault("status_code", 0)
         # If re-evaluation steps is not used check for current best figure of merit
         if self.re_evaluation_steps is None:
-            if self.get_is_record(FoM):
+            if status_code == 0 and self.get_is_record(FoM):
                 message = "New record achieved. Previous FoM: {FoM}, new best FoM : {best_FoM}".format(
                     FoM=self.FoM_factor*self.best_FoM, best_FoM=self.FoM_factor*FoM)
                 self.comm_obj.print_logger(message=message, level=20)
diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 598fe38..aca076d 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -113,7 +113,7 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
         """
         FoM = self.FoM_dict["FoM"]
         status_code = self.FoM_dict.setdefault("status_code", 0)
-        if self.get_is_record(FoM):
+        if status_code == 0 and self.get_is_record(FoM):
             message = "New record achieved. Previous FoM: {FoM}, new best FoM : {best_FoM}".format(FoM=self.FoM_factor*self.best_FoM,
                                                                                                    best_FoM=self.FoM_factor*FoM)
             self.comm_obj.print_logger(message=message, level=20)
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index bd700e6..5855f3f 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -153,7 +153,7 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         status_code = self.FoM_dict.setdefault("status_code", 0)
         # If re-evaluation steps is not used check for current best figure of merit
         if self.re_evaluation_steps is None:
-            if self.get_is_record(FoM):
+            if status_code == 0 and self.get_is_record(FoM):
                 message = "New record achieved. Previous FoM: {FoM}, new best FoM : {best_FoM}".format(
                     FoM=self.FoM_factor*self.best_FoM, best_FoM=self.FoM_factor*FoM)
                 self.comm_obj.print_logger(message=message, level=20)
-- 
2.43.0


From f820d3ea138a8d770c37306060f9c642ff4b9c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:57 +0000
Subject: [PATCH 04/39] fix: stop gracefully when a failed evaluation has no
 FoM

FilesUpdateFoM returns {"FoM": None, "status_code": -2} after a timeout. The
multiplication with the optimization direction raised a TypeError and the
optimization crashed instead of being finalized.
---
 src/quocslib/communication/AllInOneCommunication.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index d92a6fc..12bc2bb 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -158,10 +158,14 @@ class AllInOneCommunication:
         """
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
         FoM_dict = self.FoM_obj.get_FoM(**self.controls_dict)
-        # multiply by -1 if the optimization is a maximization
-        FoM_dict["FoM"] *= self.FoM_factor
         # set the status of the FoM to 0 if it does not exist already
         status_code = FoM_dict.setdefault("status_code", 0)
+        # a failed evaluation can come without any FoM, e.g. when the FoM file was never written
+        if status_code != 0 and FoM_dict["FoM"] is None:
+            FoM_dict["FoM"] = 10**10
+        else:
+            # multiply by -1 if the optimization is a maximization
+            FoM_dict["FoM"] *= self.FoM_factor
         # if the user passes a different status code than zero, stop the optimization
         if status_code != 0:
             self.he_obj.is_user_running = False
-- 
2.43.0


From 69e2b2fd5be90a3896be39b8b9a8505fcfd14fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:30 +0000
Subject: [PATCH 05/39] fix: report the best parameters at the end of a direct
 search

The final result contained the parameters of the last evaluation and
get_best_controls returned them too, instead of the best parameters found.
---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index fe3f679..a26fa71 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -322,6 +322,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         # Update the results
         [FoM, xx,
          self.terminate_reason] = [result_l["F_min_val"], result_l["X_opti_vec"], result_l["terminate_reason"]]
+        # Update the controls with the best ones found so far
+        self.controls.update_base_controls(self.best_xx)
 
     def _get_controls(self, xx):
         """
@@ -343,7 +345,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         final_dict = {
             "Figure of merit": self.FoM_factor * self.best_FoM,
-            "parameters": self.xx,
+            "parameters": self.controls.get_mean_value(),
             "terminate_reason": self.terminate_reason
         }
         return final_dict
-- 
2.43.0


From e9cb0996ccf710ca8e1173e6efa95c21fc2c4712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:30 +0000
Subject: [PATCH 06/39] fix: report the right terminate reason when Nelder Mead
 is left mid-iteration

When the optimization was stopped in the start simplex or between two
evaluations of an iteration, the reason of the last negative check (e.g.
"Convergence of the FoM.") was reported.
---
 src/quocslib/gradientfreemethods/NelderMead.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 61b4c15..25ab208 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -215,6 +215,11 @@ class NelderMead(DirectSearchMethod):
             # Check stopping criteria
             self.sc_obj.check_stopping_criteria(sim, fsim, calls_number[0])
         # END of while loop
+        # The search can also be left before the check above, i.e. in the start simplex or in the middle of an iteration
+        if self.callback is not None:
+            if not self.callback():
+                self.sc_obj.terminate_reason = "User stopped the optimization or higher order " \
+                                               "stopping criterion has been reached"
         # Fix the iteration number
         iterations = iterations - 1
         # Optimal parameters and value
-- 
2.43.0


From 2aeba6b69f7c78a37075df2798259143fbfe27ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:30 +0000
Subject: [PATCH 07/39] fix: initialize the best controls vector in GRAPE and
 AD

GRAPE and AD raised an AttributeError when the optimization was stopped before
the first record. In AD the best vector of a super-iteration was applied a
second time when the following one found no record, and the next
super-iterations were started although the optimization was stopped.
---
 src/quocslib/optimizationalgorithms/ADAlgorithm.py    | 5 +++++
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/ADAlgorithm.py b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
index 574cfc4..7a1b3c0 100644
--- a/src/quocslib/optimizationalgorithms/ADAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
@@ -132,10 +132,15 @@ class ADAlgorithm(OptimizationAlgorithm):
     def run(self):
         """ Main loop for the optimization algorithm. It runs the super iterations and the inner iterations. """
         for super_it in range(1, self.max_num_si + 1):
+            # Check if the optimization was stopped
+            if not self.is_optimization_running():
+                return
             # Set super iteration number
             self.super_it = super_it
             # Initialize the random super_parameters
             self.controls.select_basis()
+            # Initialize the best xx vector for this SI
+            self.best_xx = self.controls.get_mean_value().copy()
             #
             self.inner_run()
             #
diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index aca076d..9b9d447 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -200,6 +200,8 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
         initial_variation = random_variation * self.controls.get_sigma_variation()
         # Define the initial
         init_xx = self.controls.get_mean_value() + initial_variation
+        # Initialize the best xx vector
+        self.best_xx = self.controls.get_mean_value().copy()
         # Optimization with L-BFGS-B
         results = scipy.optimize.minimize(self.inner_routine_call,
                                           init_xx,
-- 
2.43.0


From 691065e6e851c0ae11f585248d1e704261da5726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 08/39] fix: use the seed number in CMA-ES and in the direct
 search algorithm

CMA-ES drew its population from the global numpy generator and the direct
search algorithm ignored the random_number_generator setting, so seeded runs
were not reproducible.
---
 src/quocslib/gradientfreemethods/CMAES.py     |  8 +++++++-
 .../gradientfreemethods/DirectSearchMethod.py |  2 ++
 .../DirectSearchAlgorithm.py                  | 19 +++++++++++++++++--
 .../optimizationalgorithms/dCRABAlgorithm.py  |  2 ++
 src/quocslib/tools/randomgenerator.py         | 11 +++++++++++
 5 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/CMAES.py b/src/quocslib/gradientfreemethods/CMAES.py
index 8e3f380..e714fd1 100644
--- a/src/quocslib/gradientfreemethods/CMAES.py
+++ b/src/quocslib/gradientfreemethods/CMAES.py
@@ -139,7 +139,7 @@ class CMAES(DirectSearchMethod):
                 # TR 2020_04_15: Hansen (2016) here also has arz: arz[:,k] = randn(N,)  standard normally
                 # distributed vector TR 2020_04_15: here we should make sigma dependent on the reasonable amplitude
                 # variation, right?
-                arx[:, k] = xmean + sigma * B.dot(D * np.random.randn(N, ))
+                arx[:, k] = xmean + sigma * B.dot(D * self._get_normal_numbers(N))
                 # Starting point at the beginning of the SI
                 if counteval == 0:
                     arx[:, k] = xmean
@@ -225,3 +225,9 @@ class CMAES(DirectSearchMethod):
             "terminate_reason": self.sc_obj.terminate_reason,
         }
         return result_custom
+
+    def _get_normal_numbers(self, n: int) -> np.array:
+        """Return n standard normal distributed random numbers using the seeded generator if there is one"""
+        if self.rng is None:
+            return np.random.randn(n, )
+        return self.rng.get_normal_numbers(n)
diff --git a/src/quocslib/gradientfreemethods/DirectSearchMethod.py b/src/quocslib/gradientfreemethods/DirectSearchMethod.py
index 9ad5a99..d543c4d 100644
--- a/src/quocslib/gradientfreemethods/DirectSearchMethod.py
+++ b/src/quocslib/gradientfreemethods/DirectSearchMethod.py
@@ -51,6 +51,8 @@ class Wrap:
 
 class DirectSearchMethod:
     sc_obj: StoppingCriteria
+    # Random number generator, set by the algorithm if a seed is given
+    rng = None
 
     def __init__(self):
         """Constructor of the DirectSearchMethod class"""
diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index a26fa71..910a70c 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -19,6 +19,7 @@ from quocslib.Controls import Controls
 from quocslib.gradientfreemethods.NelderMead import NelderMead
 from quocslib.utils.dynamicimport import dynamic_import
 from quocslib.tools.linearalgebra import simplex_creation
+from quocslib.tools.randomgenerator import RandomNumberGenerator
 import numpy as np
 from scipy.stats import norm
 
@@ -94,6 +95,19 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
             self.sigma_test = np.zeros_like(self.FoM_test)
         else:
             self.re_evaluation_steps = None
+        # Seed for the random number generator
+        if "random_number_generator" in alg_parameters:
+            try:
+                seed_number = alg_parameters["random_number_generator"]["seed_number"]
+                self.rng = RandomNumberGenerator(seed_number=seed_number)
+            except (TypeError, KeyError):
+                default_seed_number = 2022
+                message = "Seed number must be an integer value. Set {0} as a seed number for this optimization".format(
+                    default_seed_number)
+                self.rng = RandomNumberGenerator(seed_number=default_seed_number)
+                self.comm_obj.print_logger(message, level=30)
+            # The direct search method uses the same random number generator
+            self.dsm_obj.rng = self.rng
 
         ###########################################################################################
         # Optimal algorithm variables ###########################################################
@@ -104,7 +118,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         # Pulses, Parameters object ###########################################################
         ###########################################################################################
         self.controls = Controls(optimization_dict["pulses"], optimization_dict["times"],
-                                 optimization_dict["parameters"])
+                                 optimization_dict["parameters"], rng=self.rng)
         self.FoM_list: list = []
         self.iteration_number_list: list = []
 
@@ -307,7 +321,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         Runs the direct search
         """
-        start_simplex = simplex_creation(self.controls.get_mean_value(), self.controls.get_sigma_variation())
+        start_simplex = simplex_creation(self.controls.get_mean_value(), self.controls.get_sigma_variation(),
+                                         rng=self.rng)
         # Initial point for the Start Simplex
         x0 = self.controls.get_mean_value()
         # Initialize the best xx vector for this SI
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 5855f3f..5b9eafa 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -116,6 +116,8 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                     default_seed_number)
                 self.rng = RandomNumberGenerator(seed_number=default_seed_number)
                 self.comm_obj.print_logger(message, level=30)
+            # The direct search method uses the same random number generator
+            self.dsm_obj.rng = self.rng
         # The fact a FoM is a record FoM is decided by the inner call
         self.is_record = False
         # Initialize the step number used during the FoM calculation
diff --git a/src/quocslib/tools/randomgenerator.py b/src/quocslib/tools/randomgenerator.py
index 0f02e2c..0baa598 100644
--- a/src/quocslib/tools/randomgenerator.py
+++ b/src/quocslib/tools/randomgenerator.py
@@ -74,6 +74,17 @@ class RandomNumberGenerator:
             else:
                 return self.rng.random_sample(n)
 
+    def get_normal_numbers(self, n: int):
+        """
+        Return an array of random numbers with the standard normal distribution
+
+        :param n: Number of random numbers to generate
+        :return: Array of random numbers
+        """
+        if self.rng is None:
+            return np.random.randn(n)
+        return self.rng.standard_normal(n)
+
 
 # def get_random_numbers(n: int, rng: np.random.Generator = None):
 #     """ Return an array of random numbers between 0 and 1 based on the random generator """
-- 
2.43.0


From c67bc5f4361dfdb3689fe6262c5decd53692359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 09/39] fix: allow simultaneous creation of the QuOCS_Results
 folder

Two optimizations started at the same time in a fresh folder could both find
that QuOCS_Results does not exist, one of them then raised FileExistsError.
---
 src/quocslib/communication/AllInOneCommunication.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index 12bc2bb..aa3f7b1 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -71,8 +71,7 @@ class AllInOneCommunication:
         ###
         # Optimization folder
         optimization_folder = "QuOCS_Results"
-        if not os.path.isdir(os.path.join(os.getcwd(), optimization_folder)):
-            os.makedirs(os.path.join(os.getcwd(), optimization_folder))
+        os.makedirs(os.path.join(os.getcwd(), optimization_folder), exist_ok=True)
         # Create the folder for logging and results
         self.results_path = os.path.join(os.getcwd(), optimization_folder, self.client_job_name)
         # # check if folder already exists
-- 
2.43.0


From 80e18f2171e0d1d8aad72d5929b930609f4f44b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 10/39] fix: FilesUpdateFoM waits max_time seconds

The waiting time was counted in steps of half a second, therefore the
evaluation was aborted after half of the documented time.
---
 src/quocslib/utils/FilesUpdateFom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/utils/FilesUpdateFom.py b/src/quocslib/utils/FilesUpdateFom.py
index da90269..a68a7df 100644
--- a/src/quocslib/utils/FilesUpdateFom.py
+++ b/src/quocslib/utils/FilesUpdateFom.py
@@ -90,7 +90,7 @@ class FilesUpdateFoM(AbstractFoM):
         time_counter_max = self.max_time
         # Check if figure of merit file exists
         while not os.path.exists(self.FoM_path):
-            time_counter += 1
+            time_counter += 0.5
             time.sleep(0.5)
             if time_counter >= time_counter_max:
                 return {"FoM": FoM, "status_code": -2}
-- 
2.43.0


From 31c73f384380b86258057d3d615e171d0e463bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 11/39] fix: ctrl + c with GRAPE and AD

The handler raised an AttributeError because these algorithms have no direct
search method.
---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index aaaa05e..35b59c6 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -118,7 +118,9 @@ class OptimizationAlgorithm:
         :return:
         """
         self.higher_order_terminate_reason = "User stopped the optimization"
-        self.dsm_obj.sc_obj.is_converged = True
+        # GRAPE and AD have no direct search method
+        if hasattr(self, "dsm_obj"):
+            self.dsm_obj.sc_obj.is_converged = True
         self.stop_optimization()
 
     def begin(self) -> None:
-- 
2.43.0


From 1f3a36c2e8e87eddb3200a0691ff75a646066442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 12/39] fix: sign of the dumped and plotted FoM in a
 maximization

The best controls file and the FoM plot signal contained the internally
minimized value -FoM instead of the FoM of the user.
---
 src/quocslib/communication/AllInOneCommunication.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index aa3f7b1..da3245a 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -189,7 +189,7 @@ class AllInOneCommunication:
         self._print_general_log(iteration_number, FoM)
         self.update_controls(**response_for_client)
         if self.FoM_plot_signal is not None:
-            self.FoM_plot_signal.emit(iteration_number, FoM)
+            self.FoM_plot_signal.emit(iteration_number, self.FoM_factor*FoM)
 
     def _print_general_log(self, iteration_number: int, FoM: float):
         """Print the general log at each function evaluation"""
@@ -200,6 +200,9 @@ class AllInOneCommunication:
         """External call to update the controls"""
         if response_for_client is None:
             response_for_client = {}
+        # save the FoM as it was given by the user, i.e. without the sign of the maximization
+        if "FoM" in response_for_client:
+            response_for_client["FoM"] = self.FoM_factor*response_for_client["FoM"]
         self.dump_obj.dump_controls(**self.controls_dict, **self.controls_names_dict, **response_for_client)
 
     def end_communication(self, results_dict: dict) -> None:
-- 
2.43.0


From baa5620e960c54cf6483e822aa3c743e01c19e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:45 +0000
Subject: [PATCH 13/39] fix: include the base pulse in the bare pulse

At the end of a super-iteration the optimized pulse is moved to the base pulse,
so that get_best_bare_controls returned only zeros.
---
 src/quocslib/pulses/BasePulse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/pulses/BasePulse.py b/src/quocslib/pulses/BasePulse.py
index 733d1aa..c96e71d 100644
--- a/src/quocslib/pulses/BasePulse.py
+++ b/src/quocslib/pulses/BasePulse.py
@@ -380,7 +380,8 @@ class BasePulse:
         """
         self._set_control_parameters(optimized_parameters_vector)
         self._set_time_grid(final_time)
-        return self._get_shaped_pulse()
+        # the updates of the previous super-iterations are part of the bare pulse
+        return self.add_base_pulse(self._get_shaped_pulse())
 
     def set_base_pulse(self, optimized_control_parameters: np.ndarray, final_time: float = 1.0) -> None:
         """
-- 
2.43.0


From fca8fcdd81b86337cc12d910922988839d5cf5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:29 +0000
Subject: [PATCH 14/39] fix: dump the controls of the AD algorithm in the json
 format

jax arrays and complex numbers were not serializable, the optimization crashed
at the first record.
---
 src/quocslib/utils/BestDump.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 2d1b59d..1c8276b 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -32,6 +32,12 @@ class NumpyEncoder(json.JSONEncoder):
             # for some reason float128 can lead to the error:
             # TypeError: Object of type float128 is not JSON serializable
             return np.float64(obj)
+        elif isinstance(obj, (complex, np.complexfloating)) and obj.imag == 0.0:
+            # the controls in the AD algorithm are real numbers stored in a complex array
+            return float(obj.real)
+        elif hasattr(obj, "__array__"):
+            # e.g. jax arrays
+            return np.asarray(obj).tolist()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From b66bca519728c45e0e6d5d7d59f306f8bdbc23ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:29 +0000
Subject: [PATCH 15/39] fix: average FoM reported during the re-evaluations

The current evaluation is the (step_number + 1)-th one, the reported running
average used step_number values only and weighted the current one too much.
---
 .../optimizationalgorithms/DirectSearchAlgorithm.py         | 6 ++++--
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 910a70c..f800b5a 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -241,8 +241,10 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         # the FoM_test array and the current FoM in the FoM dict
         if mu_sum is None:
             curr_FoM, curr_std = self.FoM_dict["FoM"], self.FoM_dict.setdefault("std", 1.0)
-            mu_sum = np.mean(self.FoM_test[:step_number]) * (step_number - 1) + curr_FoM
-            sigma_sum = (np.mean(self.sigma_test[:step_number]) * (step_number - 1) + curr_std)
+            mu_sum = np.sum(self.FoM_test[:step_number]) + curr_FoM
+            sigma_sum = np.sum(self.sigma_test[:step_number]) + curr_std
+            # the current evaluation is not yet counted in the step number
+            step_number += 1
         # If it is called inside the _inner_routine_call()
         average_FoM, average_std = mu_sum / step_number, sigma_sum / step_number
         return average_FoM, average_std
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 5b9eafa..fe77a35 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -409,8 +409,10 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         # the FoM_test array and the current FoM in the FoM dict
         if mu_sum is None:
             curr_FoM, curr_std = self.FoM_dict["FoM"], self.FoM_dict.setdefault("std", 1.0)
-            mu_sum = np.mean(self.FoM_test[:step_number]) * (step_number - 1) + curr_FoM
-            sigma_sum = (np.mean(self.sigma_test[:step_number]) * (step_number - 1) + curr_std)
+            mu_sum = np.sum(self.FoM_test[:step_number]) + curr_FoM
+            sigma_sum = np.sum(self.sigma_test[:step_number]) + curr_std
+            # the current evaluation is not yet counted in the step number
+            step_number += 1
         # If it is called inside the _inner_routine_call()
         average_FoM, average_std = mu_sum / step_number, sigma_sum / step_number
         return average_FoM, average_std
-- 
2.43.0


From 53c36ef8d1a1fed7ff21e9140aae4f90e0f8195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 16/39] fix: do not overwrite controls with the same name in
 the best controls file

The index appended to a duplicated name could lead to a name already in use
(e.g. A3, A, A), or the name of a control could be the one of another entry of
the file. In both cases data got lost.
---
 src/quocslib/utils/BestDump.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 1c8276b..93ef137 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -90,10 +90,12 @@ class BestDump(AbstractDump):
         # else:
         #     time_names = ["time_grid_{}".format(index + 1) for index in range(len(timegrids))]
 
+        # The controls can not have the name of one of the other entries or of the arguments of np.savez
+        reserved_names = list(kwargs) + ["file", "allow_pickle"]
+
         for pulse, time_grid in zip(pulses, timegrids):
             pulse_name = pulse_names[pulse_index]
-            if pulse_name in controls_dict:
-                pulse_name = pulse_name + str(pulse_index + 1)
+            pulse_name = self._get_unique_name(pulse_name, pulse_index, controls_dict, reserved_names)
             time_name = "time_grid_for_" + pulse_name
             controls_dict[pulse_name] = pulse
             controls_dict[time_name] = time_grid
@@ -108,8 +110,7 @@ class BestDump(AbstractDump):
 
         for parameter in parameters:
             param_name = parameter_names[parameter_index]
-            if param_name in controls_dict:
-                param_name = param_name + str(parameter_index + 1)
+            param_name = self._get_unique_name(param_name, parameter_index, controls_dict, reserved_names)
             controls_dict[param_name] = parameter
             parameter_index += 1
 
@@ -128,6 +129,20 @@ class BestDump(AbstractDump):
         #     with open(iteration_path, 'w') as f:
         #         f.write(str(full_dict["iteration_number"]))
 
+    @staticmethod
+    def _get_unique_name(name: str, index: int, controls_dict: dict, reserved_names: list) -> str:
+        """
+        Returns a name which is not yet used in the controls dictionary
+
+        :param str name: name of the control
+        :param int index: index of the control
+        :param dict controls_dict: controls already stored
+        :param list reserved_names: names used for other data
+        """
+        while name in controls_dict or "time_grid_for_" + name in controls_dict or name in reserved_names:
+            name = name + str(index + 1)
+        return name
+
     def other_dumps(self, filename: str = "test.txt", data: np.array = np.array([0.0])):
         """
         Saves other results into a txt numpy file.
-- 
2.43.0


From 013277970a83593421cf4f8301c4152153f6c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 17/39] fix: update the last index together with the control
 parameters list

The control parameters of the following controls were mapped with the old
index after the number of control parameters of a basis had changed.
---
 src/quocslib/parameters/BaseParameter.py | 2 ++
 src/quocslib/pulses/BasePulse.py         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/quocslib/parameters/BaseParameter.py b/src/quocslib/parameters/BaseParameter.py
index 1a91420..1d29998 100644
--- a/src/quocslib/parameters/BaseParameter.py
+++ b/src/quocslib/parameters/BaseParameter.py
@@ -82,6 +82,8 @@ class BaseParameter:
     def set_control_parameters_list(self, map_index):
         """Updates the control parameters list."""
         self.control_parameters_list = [map_index + i + 1 for i in range(self.control_parameters_number)]
+        # Update the map_index number for the next control
+        self.last_index = self.control_parameters_list[-1]
 
     def set_parameter(self, optimized_parameter_vector):
         """
diff --git a/src/quocslib/pulses/BasePulse.py b/src/quocslib/pulses/BasePulse.py
index c96e71d..368d49c 100644
--- a/src/quocslib/pulses/BasePulse.py
+++ b/src/quocslib/pulses/BasePulse.py
@@ -237,6 +237,8 @@ class BasePulse:
     def set_control_parameters_list(self, map_index):
         """ Sets the control parameters list. It is used when the Chopped Basis changes during SIs """
         self.control_parameters_list = [map_index + i + 1 for i in range(self.control_parameters_number)]
+        # Update the map_index number for the next control
+        self.last_index = self.control_parameters_list[-1]
 
     def _set_time_grid(self, final_time: float) -> None:
         """ Sets the time grid for the pulse """
-- 
2.43.0


From cd73cfb196a25094a7a9bbb14eb33fa007dc0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 18/39] fix: do not modify the FoM dictionary of the user

The sign of a maximization was applied in place, an FoM object which returns
the same dictionary again (e.g. a cached result) got the wrong sign.
---
 src/quocslib/communication/AllInOneCommunication.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index da3245a..0464f8f 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -156,7 +156,8 @@ class AllInOneCommunication:
         :return dict: {"FoM_values": {"FoM": float, ...}}
         """
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
-        FoM_dict = self.FoM_obj.get_FoM(**self.controls_dict)
+        # copy the dictionary to leave the one of the user unchanged
+        FoM_dict = dict(self.FoM_obj.get_FoM(**self.controls_dict))
         # set the status of the FoM to 0 if it does not exist already
         status_code = FoM_dict.setdefault("status_code", 0)
         # a failed evaluation can come without any FoM, e.g. when the FoM file was never written
-- 
2.43.0


From 076b4df982d7119303d685f5f619e2e5f9ad9019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 19/39] fix: time limit of the direct search algorithm

The time was measured from the creation of the optimizer object.
---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index f800b5a..172ae68 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -316,6 +316,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         Runs the optimization algorithm
         """
+        # The time limit of the search counts from here and not from the creation of the optimizer
+        if hasattr(self.dsm_obj, "sc_obj"):
+            self.dsm_obj.sc_obj.reset_direct_search_start_time()
         # Direct search method
         self._dsm_build()
 
-- 
2.43.0


From ff2f488f0a1395573c89786def631273b4ac6a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 20/39] fix: count only the function evaluations which took
 place

If the optimization was stopped after the controls had been sent, the total
number of function evaluations included one which was never done.
---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 35b59c6..4ab8245 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -205,6 +205,8 @@ class OptimizationAlgorithm:
         # Check if the optimization is still running
         is_running = self.comm_obj.get_user_running()
         if not is_running:
+            # the controls are not evaluated
+            self.iteration_number -= 1
             return self.FoM_maximum
         # Get the figure of merit and update it to the main algorithm
         self.FoM_dict = self.comm_obj.get_data()["FoM_values"]
-- 
2.43.0


From 73de29a8200307ebb651fd98a270e33b765695d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:14 +0000
Subject: [PATCH 21/39] fix: start point in the default start simplex

The first vertex of the simplex which is built when no simplex is given was
the origin instead of the start point.
---
 src/quocslib/gradientfreemethods/GradientFreeTemplate.py | 1 +
 src/quocslib/gradientfreemethods/NelderMead.py           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/quocslib/gradientfreemethods/GradientFreeTemplate.py b/src/quocslib/gradientfreemethods/GradientFreeTemplate.py
index e589f0a..dbb66c9 100644
--- a/src/quocslib/gradientfreemethods/GradientFreeTemplate.py
+++ b/src/quocslib/gradientfreemethods/GradientFreeTemplate.py
@@ -80,6 +80,7 @@ class GradientFreeTemplate(DirectSearchMethod):
             nonzdelt = 0.05
             zdelt = 0.00025
             sim = np.zeros((dim + 1, dim), dtype=x0.dtype)
+            sim[0] = x0
             for k in range(dim):
                 y = np.array(x0, copy=True)
                 if y[k] != 0:
diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 25ab208..bc36a3b 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -81,6 +81,7 @@ class NelderMead(DirectSearchMethod):
             nonzdelt = 0.05
             zdelt = 0.00025
             sim = np.zeros((dim + 1, dim), dtype=x0.dtype)
+            sim[0] = x0
             for k in range(dim):
                 y = np.array(x0, copy=True)
                 if y[k] != 0:
-- 
2.43.0


From 20fd941e63d31f47194b288fcbb78fee70a8ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:46 +0000
Subject: [PATCH 22/39] fix: write the settings file with numpy numbers and
 callables in the settings

---
 src/quocslib/utils/inputoutput.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/utils/inputoutput.py b/src/quocslib/utils/inputoutput.py
index a3c41a4..a24e9b9 100644
--- a/src/quocslib/utils/inputoutput.py
+++ b/src/quocslib/utils/inputoutput.py
@@ -43,7 +43,8 @@ def readjson(filename: str) -> dict:
 class ObjectEncoder(json.JSONEncoder):
     """
     Class to encode objects into json format.
-    Converts a numpy array to a list. Converts to None if the object is callable or a class.
+    Converts a numpy array to a list and a numpy number to a python number.
+    Converts to None if the object is callable or a class.
     """
     def default(self, obj):
         """
@@ -51,7 +52,13 @@ class ObjectEncoder(json.JSONEncoder):
         """
         if isinstance(obj, np.ndarray):
             return obj.tolist()
-        if obj is callable:
+        if isinstance(obj, np.bool_):
+            return bool(obj)
+        if isinstance(obj, np.integer):
+            return int(obj)
+        if isinstance(obj, np.floating):
+            return float(obj)
+        if callable(obj):
             return None
         if inspect.isclass(obj):
             return None
-- 
2.43.0


From 4ba549a62d581bdf869abffa3f8cf45cac750072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:38 +0000
Subject: [PATCH 23/39] fix: log the FoM of the search with the sign of the
 user

---
 src/quocslib/gradientfreemethods/CMAES.py                    | 2 +-
 src/quocslib/gradientfreemethods/DirectSearchMethod.py       | 2 ++
 src/quocslib/gradientfreemethods/NelderMead.py               | 4 ++--
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 2 ++
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 2 ++
 5 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/CMAES.py b/src/quocslib/gradientfreemethods/CMAES.py
index e714fd1..595d844 100644
--- a/src/quocslib/gradientfreemethods/CMAES.py
+++ b/src/quocslib/gradientfreemethods/CMAES.py
@@ -154,7 +154,7 @@ class CMAES(DirectSearchMethod):
 
             average_FoM = np.sum(fsim) / len(fsim)
             FoM_variance = np.std(fsim)
-            self.logger.info("CMA-ES - average FoM: {} / std_dev: {}".format(average_FoM, FoM_variance))
+            self.logger.info("CMA-ES - average FoM: {} / std_dev: {}".format(self.FoM_factor*average_FoM, FoM_variance))
 
             # Checks general stopping criteria
 
diff --git a/src/quocslib/gradientfreemethods/DirectSearchMethod.py b/src/quocslib/gradientfreemethods/DirectSearchMethod.py
index d543c4d..323d2b2 100644
--- a/src/quocslib/gradientfreemethods/DirectSearchMethod.py
+++ b/src/quocslib/gradientfreemethods/DirectSearchMethod.py
@@ -53,6 +53,8 @@ class DirectSearchMethod:
     sc_obj: StoppingCriteria
     # Random number generator, set by the algorithm if a seed is given
     rng = None
+    # Sign of the figure of merit of the user (-1 in a maximization), set by the algorithm for the log messages
+    FoM_factor = 1
 
     def __init__(self):
         """Constructor of the DirectSearchMethod class"""
diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index bc36a3b..0f183de 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -194,9 +194,9 @@ class NelderMead(DirectSearchMethod):
                     new_FoM = fsim[0]
 
                     self.last_drift_compensation_time = datetime.now()
-                    message = f"Previous best FoM: {prev_FoM}, Current best FoM after drift " \
+                    message = f"Previous best FoM: {self.FoM_factor*prev_FoM}, Current best FoM after drift " \
                               f"compensation (after {drift_comp_minutes} minutes, average " \
-                              f"of {drift_comp_num_average}): {new_FoM}"
+                              f"of {drift_comp_num_average}): {self.FoM_factor*new_FoM}"
                     logger = logging.getLogger("oc_logger")
                     logger.info(message)
 
diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 172ae68..5aff6d6 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -68,6 +68,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
             self.dsm_obj = dsm_attribute(direct_search_method_settings,
                                          stopping_criteria,
                                          callback=self.is_optimization_running)
+        # The direct search method logs the FoM with the sign of the user
+        self.dsm_obj.FoM_factor = self.FoM_factor
 
         ################################################################################################
         # Extract some Settings for the Search #########################################################
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index fe77a35..7c0af58 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -65,6 +65,8 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         self.dsm_obj = dsm_attribute(direct_search_method_settings,
                                      stopping_criteria,
                                      callback=self.is_optimization_running)
+        # The direct search method logs the FoM with the sign of the user
+        self.dsm_obj.FoM_factor = self.FoM_factor
 
         # self.dsm_obj = NelderMead(direct_search_method_settings,
         #                           stopping_criteria,
-- 
2.43.0


From a0133e2515dd44d103aa7ae2e6aab68ad918efb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 24/39] fix: record figures of merit larger than 1e10

---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 4ab8245..b9ae55e 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -82,7 +82,10 @@ class OptimizationAlgorithm:
                       "only, but {0} is provided".format(self.optimization_direction)
             self.comm_obj.print_logger(message=message, level=40)
             raise TypeError
-        self.best_FoM = self.FoM_maximum = INITIAL_FOM
+        # FoM returned to the search when the controls are not evaluated
+        self.FoM_maximum = INITIAL_FOM
+        # Nothing has been evaluated yet: the first successful evaluation is a record, whatever its FoM is
+        self.best_FoM = float("inf")
         message = "The optimization direction is {0}".format(self.optimization_direction)
         # Goal FoM
         self.FoM_goal = alg_parameters.setdefault("FoM_goal", None)
-- 
2.43.0


From c88fb8a2751e8318a9a4d85838dfdd283169e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:22 +0000
Subject: [PATCH 25/39] fix: do not change the FoM of the user in place

---
 src/quocslib/communication/AllInOneCommunication.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index 0464f8f..db9c0e1 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -165,7 +165,7 @@ class AllInOneCommunication:
             FoM_dict["FoM"] = 10**10
         else:
             # multiply by -1 if the optimization is a maximization
-            FoM_dict["FoM"] *= self.FoM_factor
+            FoM_dict["FoM"] = self.FoM_factor * FoM_dict["FoM"]
         # if the user passes a different status code than zero, stop the optimization
         if status_code != 0:
             self.he_obj.is_user_running = False
-- 
2.43.0


From c56246c63926441628ca7d20adce45ce9fd06b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:57 +0000
Subject: [PATCH 26/39] fix: let Ctrl+C stop the running optimization when
 another one was created after it

---
 .../optimizationalgorithms/OptimizationAlgorithm.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index b9ae55e..45c8cd5 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -97,9 +97,7 @@ class OptimizationAlgorithm:
         self.is_FoM_valid = False
         self.comm_obj.print_logger(message=message, level=20)
         # listener for ctrl + c cancellation
-        if threading.current_thread() is threading.main_thread():
-            signal.signal(signal.SIGINT, self.handle_user_cancellation)
-        # signal.signal(signal.SIGINT, self.handle_user_cancellation)
+        self._listen_to_user_cancellation()
 
         if "algorithm_settings" in self.optimization_dict:
             temp_dict = self.optimization_dict["algorithm_settings"]
@@ -113,6 +111,13 @@ class OptimizationAlgorithm:
                                                    '(https://github.com/Quantum-OCS/QuOCS/blob/develop/Documentation/'
                                                    'Settings_in_Optimization_Dict.md)', 30)
 
+    def _listen_to_user_cancellation(self) -> None:
+        """
+        Make this optimization the one which is cancelled with ctrl + c
+        """
+        if threading.current_thread() is threading.main_thread():
+            signal.signal(signal.SIGINT, self.handle_user_cancellation)
+
     def handle_user_cancellation(self, sig, frame):
         """
         Handle the user cancellation of the optimization
@@ -130,6 +135,8 @@ class OptimizationAlgorithm:
         """
         Initialize the communication with the client
         """
+        # Another optimization could have been created in the meantime
+        self._listen_to_user_cancellation()
         # Open the log with the QuOCS version number
         self.comm_obj.print_logger("QuOCS version number: {0}".format(QUOCSLIB_VERSION))
         # Send starting message to the interface
-- 
2.43.0


From 4cd2cd3f8faeabf6c0a522b435a8184e448b424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 27/39] fix: forget an infinite figure of merit before the next
 re-evaluation

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 4 ++--
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 5aff6d6..63057c1 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -176,8 +176,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                 # number of steps
                 max_steps_number = re_evaluation_steps.shape[0]
                 # Initialize to zero the FoM_test and the sigma_test arrays
-                self.FoM_test = 0.0 * self.FoM_test
-                self.sigma_test = 0.0 * self.sigma_test
+                self.FoM_test = np.zeros_like(self.FoM_test)
+                self.sigma_test = np.zeros_like(self.sigma_test)
                 # Get the figure of merit from the client
                 self.FoM_test[0] = FoM
                 # TODO: Check if optimization_is_running is necessary here
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 7c0af58..41a8462 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -344,8 +344,8 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                 # number of steps
                 max_steps_number = re_evaluation_steps.shape[0]
                 # Initialize to zero the FoM_test and the sigma_test arrays
-                self.FoM_test = 0.0 * self.FoM_test
-                self.sigma_test = 0.0 * self.sigma_test
+                self.FoM_test = np.zeros_like(self.FoM_test)
+                self.sigma_test = np.zeros_like(self.sigma_test)
                 # Get the figure of merit from the client
                 self.FoM_test[0] = FoM
                 # TODO: Check if optimization_is_running is necessary here
-- 
2.43.0


From f2d536ff1ee68ea4ef5c933a3ac7e2c8147e07ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:12 +0000
Subject: [PATCH 28/39] fix: write the controls into the txt exchange file
 without losing digits

---
 src/quocslib/utils/FilesUpdateFom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/utils/FilesUpdateFom.py b/src/quocslib/utils/FilesUpdateFom.py
index a68a7df..4abdf21 100644
--- a/src/quocslib/utils/FilesUpdateFom.py
+++ b/src/quocslib/utils/FilesUpdateFom.py
@@ -134,10 +134,10 @@ class FilesUpdateFoM(AbstractFoM):
         """
         with open(self.controls_path, "wb") as controls_file:
             for pulse, time_grid in zip(pulses_list, time_grids_list):
-                np.savetxt(controls_file, [pulse], fmt="%f")
-                np.savetxt(controls_file, [time_grid], fmt="%f")
+                np.savetxt(controls_file, [pulse], fmt="%.17g")
+                np.savetxt(controls_file, [time_grid], fmt="%.17g")
 
-            np.savetxt(controls_file, parameters_list, fmt="%f")
+            np.savetxt(controls_file, parameters_list, fmt="%.17g")
 
     def _put_controls_json(self, pulses_list: list, time_grids_list: list, parameters_list: list):
         """
-- 
2.43.0


From 3a411993ef1dad925f715a18fd90ca99d598cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:05 +0000
Subject: [PATCH 29/39] fix: replace the best-controls file in one step so that
 a crash cannot destroy it

---
 src/quocslib/utils/BestDump.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 93ef137..5aa5f13 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -122,7 +122,10 @@ class BestDump(AbstractDump):
             self.dump_dict("best_controls", full_dict)
         else:
             controls_path = os.path.join(self.results_path, self.date_time + "_best_controls.npz")
-            np.savez(controls_path, **full_dict)
+            # Never leave an incomplete file behind: the previous controls are replaced in one step
+            with open(controls_path + ".tmp", "wb") as controls_file:
+                np.savez(controls_file, **full_dict)
+            os.replace(controls_path + ".tmp", controls_path)
 
         # if "iteration_number" in full_dict:
         #     iteration_path = os.path.join(self.results_path, self.date_time + "_funct_eval_of_best_controls.txt")
@@ -165,6 +168,8 @@ class BestDump(AbstractDump):
         if data_dict is None:
             data_dict = {}
         data_dict_path = os.path.join(self.results_path, self.date_time + "_" + data_file_name+'.json')
-        with open(data_dict_path, 'w') as convert_file:
+        # Never leave an incomplete file behind: the previous data are replaced in one step
+        with open(data_dict_path + ".tmp", 'w') as convert_file:
             convert_file.write(json.dumps(data_dict, indent=4, cls=NumpyEncoder))
+        os.replace(data_dict_path + ".tmp", data_dict_path)
 
-- 
2.43.0


From 82b0e733d3a5163796e3438c67e204e0b0e5b2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:57 +0000
Subject: [PATCH 30/39] fix: GRAPE keeps the imaginary part of the evolved
 states when the target state is a real array

---
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 9b9d447..4157d84 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -94,9 +94,9 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
         # Get the bins number of the first pulse
         self.n_slices = n_slices = self.controls.pulse_objs_list[0].bins_number
         self.propagator_storage = np.array([np.zeros_like(self.drift_Hamiltonian) for _ in range(n_slices)])
-        self.rho_storage = np.array([np.zeros_like(self.target_state) for _ in range(n_slices + 1)])
+        self.rho_storage = np.array([np.zeros_like(self.target_state, dtype=complex) for _ in range(n_slices + 1)])
         self.rho_storage[0] = self.initial_state
-        self.corho_storage = np.array([np.zeros_like(self.target_state) for _ in range(n_slices + 1)])
+        self.corho_storage = np.array([np.zeros_like(self.target_state, dtype=complex) for _ in range(n_slices + 1)])
         self.corho_storage[-1] = self.target_state
         ###########################################################################################
         # Other useful variables
-- 
2.43.0


From 337ebb1abaa055aa5d07992e4f5dcadeedd24506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:57 +0000
Subject: [PATCH 31/39] fix: pw_evolution_AD returns the propagators it
 computed

---
 src/quocslib/timeevolution/piecewise_integrator_AD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/timeevolution/piecewise_integrator_AD.py b/src/quocslib/timeevolution/piecewise_integrator_AD.py
index 41728d0..2d91ec9 100644
--- a/src/quocslib/timeevolution/piecewise_integrator_AD.py
+++ b/src/quocslib/timeevolution/piecewise_integrator_AD.py
@@ -58,7 +58,7 @@ def pw_evolution_AD(U_store, drive, A, B, n_slices, dt):
         H = A
         for k in range(K):
             H = H + drive[k, i] * B[k]
-        U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
+        U_store = U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
     return U_store
 
 
-- 
2.43.0


From 97cfc4d2a04ce82d23227e1304317e3e398e4ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:57 +0000
Subject: [PATCH 32/39] fix: one-qubit fidelities do not depend on the norm of
 the states

---
 src/quocslib/optimalcontrolproblems/OneQubitProblem.py         | 2 +-
 src/quocslib/optimalcontrolproblems/OneQubitProblem_2fields.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimalcontrolproblems/OneQubitProblem.py b/src/quocslib/optimalcontrolproblems/OneQubitProblem.py
index 907a6ea..920a74a 100644
--- a/src/quocslib/optimalcontrolproblems/OneQubitProblem.py
+++ b/src/quocslib/optimalcontrolproblems/OneQubitProblem.py
@@ -142,4 +142,4 @@ class OneQubit(AbstractFoM):
         :param psi2: state 2
         :return float: Fidelity between psi1 and psi2
         """
-        return np.abs(np.dot(psi1.conj().T, psi2))**2 / (norm(psi1) * norm(psi2))
+        return np.abs(np.dot(psi1.conj().T, psi2))**2 / (norm(psi1) * norm(psi2))**2
diff --git a/src/quocslib/optimalcontrolproblems/OneQubitProblem_2fields.py b/src/quocslib/optimalcontrolproblems/OneQubitProblem_2fields.py
index 4a877f4..3ca1ab7 100644
--- a/src/quocslib/optimalcontrolproblems/OneQubitProblem_2fields.py
+++ b/src/quocslib/optimalcontrolproblems/OneQubitProblem_2fields.py
@@ -112,4 +112,4 @@ class OneQubit2Fields(AbstractFoM):
         :param psi2:
         :return float: Fidelity between psi1 and psi2
         """
-        return np.abs(np.dot(psi1.conj().T, psi2))**2 / (norm(psi1) * norm(psi2))
+        return np.abs(np.dot(psi1.conj().T, psi2))**2 / (norm(psi1) * norm(psi2))**2
-- 
2.43.0


From ae150b52ea9fb1ad6d7adb94d8940e5b84c6a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:57 +0000
Subject: [PATCH 33/39] fix: square root of a density matrix with eigenvalues
 rounded below zero is not NaN

---
 src/quocslib/tools/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/tools/operations.py b/src/quocslib/tools/operations.py
index fb8777a..eab2ee5 100644
--- a/src/quocslib/tools/operations.py
+++ b/src/quocslib/tools/operations.py
@@ -26,7 +26,7 @@ def state_to_dm(state: jnp.array):
 def _sqrtm(a):
     eig_vals, V = jnp.linalg.eigh(a)
     # eig_vals = jnp.linalg.eigvals(a)
-    sqrt_eig_vals = jnp.sqrt(eig_vals)
+    sqrt_eig_vals = jnp.sqrt(jnp.where(eig_vals > 0.0, eig_vals, 0.0))
     V_inv = jnp.linalg.inv(V)
     return jnp.matmul(jnp.matmul(V, jnp.diag(sqrt_eig_vals)), V_inv)
 
-- 
2.43.0


From 8b9dde790fae55791a216c4979b08f052da4a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:57 +0000
Subject: [PATCH 34/39] fix: partial trace over every subsystem

---
 src/quocslib/tools/partial_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/tools/partial_trace.py b/src/quocslib/tools/partial_trace.py
index 59b5906..ec50151 100644
--- a/src/quocslib/tools/partial_trace.py
+++ b/src/quocslib/tools/partial_trace.py
@@ -46,7 +46,7 @@ def jax_partial_trace_transform(subsystem_dims, trace_over_positions):
     mask = create_mask(trace_over_positions, num_subsystems)
 
     # Final reshape
-    remaining_dims = jnp.array([subsystem_dims[i] for i in range(num_subsystems) if i not in trace_over_positions])
+    remaining_dims = jnp.array([subsystem_dims[i] for i in range(num_subsystems) if i not in trace_over_positions], dtype=int)
     remaining_dim = jnp.prod(remaining_dims)
     @jax.jit
     def partial_trace(state: jnp.ndarray):
-- 
2.43.0


From 14c7e736f3236f90fcaefaa188e85d62e746e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:33 +0000
Subject: [PATCH 35/39] fix: noise realizations are not one slice short when T
 / dt is rounded below an integer

---
 src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py b/src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py
index 349ac43..44ca655 100644
--- a/src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py
+++ b/src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py
@@ -18,7 +18,7 @@ class OrnsteinUhlenbeck:
         :param T: total time of the noise realization
         :return: a single noise realization
         """
-        n_slices = int(np.floor(T / self.dt))
+        n_slices = int(np.floor(np.round(T / self.dt, 9)))
         output = np.zeros(n_slices)
         output[0] = self.x0
         mu = np.exp(-(1 / self.tau) * self.dt)
@@ -36,7 +36,7 @@ class OrnsteinUhlenbeck:
         :param kwargs:
         :return: an ensemble of noise realizations
         """
-        n_slices = int(np.floor(T / self.dt))
+        n_slices = int(np.floor(np.round(T / self.dt, 9)))
 
         # now if x0 is a function then we sample from it
         # if x0 is an array we just use it
-- 
2.43.0


From 7a1b34c095d8f5ca51ca8c59ca1c198c380690ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:33 +0000
Subject: [PATCH 36/39] fix: Liouvillian of a complex Hamiltonian

---
 src/quocslib/tools/linearalgebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/tools/linearalgebra.py b/src/quocslib/tools/linearalgebra.py
index 769f4af..927b7b6 100644
--- a/src/quocslib/tools/linearalgebra.py
+++ b/src/quocslib/tools/linearalgebra.py
@@ -118,7 +118,7 @@ def to_sup_op(H):
     """
     dim = np.size(H, 1)
     idm = np.eye(dim)
-    return np.kron(idm, H) - np.kron(H.T.conj(), idm)
+    return np.kron(idm, H) - np.kron(H.T, idm)
 
 
 def to_vec(rho):
-- 
2.43.0


From 653e94caec07a4562487b48f9356065212f6dbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:47 +0000
Subject: [PATCH 37/39] fix: the names of pulses, parameters and times have the
 documented defaults

---
 src/quocslib/Controls.py                                    | 3 ++-
 .../optimizationalgorithms/OptimizationAlgorithm.py         | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/Controls.py b/src/quocslib/Controls.py
index 8e8481d..982ca15 100644
--- a/src/quocslib/Controls.py
+++ b/src/quocslib/Controls.py
@@ -76,7 +76,8 @@ class Controls:
         ###############################################
         self.times_number = len(times_list)
         for time in times_list:
-            self.times_obj_dictionary[time["time_name"]] = TimeParameter(**time)
+            time_obj = TimeParameter(**time)
+            self.times_obj_dictionary[time_obj.time_name] = time_obj
             # TODO Implement the time optimization here
 
         # Custom get control functions for AD
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 45c8cd5..91ee908 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -325,13 +325,13 @@ class OptimizationAlgorithm:
         """Return the names of the pulses, parameters and times"""
         pulse_name_list = []
         for pulse_dict in self.optimization_dict["pulses"]:
-            pulse_name_list.append(pulse_dict["pulse_name"])
+            pulse_name_list.append(pulse_dict.get("pulse_name", "pulse"))
         parameter_name_list = []
         for param_dict in self.optimization_dict["parameters"]:
-            parameter_name_list.append(param_dict["parameter_name"])
+            parameter_name_list.append(param_dict.get("parameter_name", "parameter"))
         time_name_list = []
         for time_dict in self.optimization_dict["times"]:
-            time_name_list.append(time_dict["time_name"])
+            time_name_list.append(time_dict.get("time_name", "time"))
         return {"pulse_names": pulse_name_list, "parameter_names": parameter_name_list, "time_names": time_name_list}
 
     def end(self) -> None:
-- 
2.43.0


From 46396c0a005654a6291656a9642c559a9a3d0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:47 +0000
Subject: [PATCH 38/39] fix: the number of bins has its documented default in
 the piecewise basis too

---
 src/quocslib/pulses/basis/PiecewiseBasis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/pulses/basis/PiecewiseBasis.py b/src/quocslib/pulses/basis/PiecewiseBasis.py
index 2b0336a..8af39be 100644
--- a/src/quocslib/pulses/basis/PiecewiseBasis.py
+++ b/src/quocslib/pulses/basis/PiecewiseBasis.py
@@ -38,7 +38,7 @@ class PiecewiseBasis(BasePulse):
         :param RandomNumberGenerator rng: The random number generator object.
         :param bool is_AD: Flag to indicate if the pulse is used in the AD optimization.
         """
-        self.control_parameters_number = pulse_dictionary["bins_number"]
+        self.control_parameters_number = pulse_dictionary.setdefault("bins_number", 101)
         super().__init__(map_index=map_index, rng=rng, is_AD=is_AD, **pulse_dictionary)
         #################
         # Basis dependent settings
-- 
2.43.0


From c67155a7caf246e8a229ad3ff30fc0695e6a9a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:47 +0000
Subject: [PATCH 39/39] fix: documented default of a parameter's initial value

---
 Documentation/Settings_in_Optimization_Dict.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Documentation/Settings_in_Optimization_Dict.md b/Documentation/Settings_in_Optimization_Dict.md
index f7a7468..3c12904 100644
--- a/Documentation/Settings_in_Optimization_Dict.md
+++ b/Documentation/Settings_in_Optimization_Dict.md
@@ -336,7 +336,7 @@ Parameters are values that are constant during the application of a pulse (or se
 |**"parameter_name"** |*string*| A name that can be assigned to the parameter. *(Default: "parameter")* |
 |**"lower_limit"** |*float*| Lower limit of the parameter. *(Default: 0.1)* |
 |**"upper_limit"** |*float*| Upper limit of the parameter. *(Default: 1.1)* |
-|**"initial_value"** |*float*| Initial value of the parameter. *(Default: 0.1)* |
+|**"initial_value"** |*float*| Initial value of the parameter. *(Default: 1.0)* |
 |**"amplitude_variation"** *(optional)* |*float*| Reasonable initial variation of the parameter during optimization. *(Default: 0.1)* |
 
 
-- 
2.43.0

