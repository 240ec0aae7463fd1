From 7493ce7cb65b6314f530fca168e5c93e3c8f4612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:39 +0000
Subject: [PATCH 01/41] fix: recompute checkpoints for reverse mode when only
 the initial time changed

---
 src/rkopenmdao/runge_kutta_integrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 38285d6..7cafc62 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -828,6 +828,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._cached_input.independent_inputs,
                 temporary_integration_state.discretization_state.independent_inputs,
             )
+            and np.array_equal(
+                self._cached_input.final_time,
+                temporary_integration_state.discretization_state.final_time,
+            )
         ):
             if self.comm.rank == 0:
                 print("Preparing checkpoints by calling compute()")
-- 
2.43.0


From 5e14f533be6795f96935bbdc0182fc0192177756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:39 +0000
Subject: [PATCH 02/41] fix: do not reuse checkpoints of integrations that did
 not complete

---
 src/rkopenmdao/runge_kutta_integrator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 7cafc62..8e8b2c1 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -438,11 +438,15 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
     def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
         if self.comm.rank == 0:
             print("\n" + "=" * 32 + " compute starts " + "=" * 32 + "\n\n")
+        # Checkpoints are only valid for the inputs once the iteration is complete.
+        self._cached_input = None
         self._compute_preparation_phase(inputs, self._time_integration_state)
+        cached_input = deepcopy(self._time_integration_state.discretization_state)
         self._checkpointer.create_checkpointer()
         self._time_integration_state.set(
             self._checkpointer.iterate_forward(self._time_integration_state)
         )
+        self._cached_input = cached_input
         self._from_numpy_array_time_integration(
             self._time_integration_state.discretization_state.final_state, outputs
         )
@@ -462,8 +466,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             inputs, integration_state.discretization_state.independent_inputs
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        self._cached_input = deepcopy(integration_state.discretization_state)
-
         self._reset_error_control(integration_state)
         integration_state.discretization_state.linearization_points.fill(0.0)
 
@@ -772,6 +774,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             d_outputs,
             integration_state_perturbations,
         )
+        # using the checkpoints invalidates the checkpointer in general
+        self._cached_input = None
         self._time_integration_state_perturbations.set(
             self._checkpointer.iterate_reverse(integration_state_perturbations)
         )
@@ -788,9 +792,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             "time_initial"
         ] += integration_state_perturbations.discretization_state.final_time[0]
 
-        # using the checkpoints invalidates the checkpointer in general
-        self._cached_input = None
-
         if self.comm.rank == 0:
             print(
                 "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
-- 
2.43.0


From b865d1176b7590f21c028f38b7f31670bb9f8156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:39 +0000
Subject: [PATCH 03/41] fix: forward products invalidate checkpoints relying on
 the shared state

---
 src/rkopenmdao/runge_kutta_integrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 8e8b2c1..f0848d5 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -662,6 +662,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             print(
                 "\n" + "=" * 24 + " fwd-mode jacvec product starts " + "=" * 24 + "\n\n"
             )
+        # The state is shared with the checkpointer, which may rely on its contents.
+        self._cached_input = None
         self._compute_jacvec_fwd_preparation_phase(
             inputs,
             d_inputs,
-- 
2.43.0


From 85d8e309e82c9c1c55d5f96fc7948a82ace90abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:10 +0000
Subject: [PATCH 04/41] fix: copy embedded state and error estimate when
 setting an embedded state

---
 .../time_discretization/runge_kutta_discretization_state.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index f9ed9ee..5c7c40c 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -216,6 +216,11 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
         self.embedded_state = np.zeros_like(self.start_state)
         self.error_estimate = np.zeros_like(self.start_state)
 
+    def set(self, other: EmbeddedRungeKuttaDiscretizationState):
+        super().set(other)
+        self.embedded_state[:] = other.embedded_state[:]
+        self.error_estimate[:] = other.error_estimate[:]
+
     def to_dict(self) -> dict:
         time_step_dict = super().to_dict()
         time_step_dict["embedded_state"] = self.embedded_state
-- 
2.43.0


From 3c585b341f5764c065900a065455689808c18fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:10 +0000
Subject: [PATCH 05/41] fix: make state dict export and import round trip

---
 .../runge_kutta_discretization_state.py             |  7 +++++--
 src/rkopenmdao/time_integration_state.py            | 13 +++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index 5c7c40c..a84c71a 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -124,6 +124,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         time_step_dict["independent_input"] = self.independent_inputs
         time_step_dict["final_independent_output"] = self.final_independent_outputs
         time_step_dict["final_time"] = self.final_time
+        time_step_dict["step_size"] = self.step_size
         time_step_dict["linearization_points"] = self.linearization_points
 
         return time_step_dict
@@ -133,7 +134,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         number_of_stages = len(state_dict["linearization_points"])
         state = cls(
             ode_state_size=state_dict["final_state"].size,
-            independent_input_size=state_dict["independent_input"],
+            independent_input_size=state_dict["independent_input"].size,
             independent_output_size=state_dict["stage_0"]["independent_output"].size,
             number_of_stages=number_of_stages,
             linearization_point_size=state_dict["linearization_points"].shape[1],
@@ -151,6 +152,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         state.independent_inputs = state_dict["independent_input"]
         state.final_independent_outputs = state_dict["final_independent_output"]
         state.final_time = state_dict["final_time"]
+        state.step_size = state_dict["step_size"]
         state.linearization_points = state_dict["linearization_points"]
         return state
 
@@ -230,5 +232,6 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
     @classmethod
     def from_dict(cls, state_dict: dict):
         state = super().from_dict(state_dict)
-        state.embedded_state = state_dict["embedded_dict"]
+        state.embedded_state = state_dict["embedded_state"]
         state.error_estimate = state_dict["error_estimate"]
+        return state
diff --git a/src/rkopenmdao/time_integration_state.py b/src/rkopenmdao/time_integration_state.py
index 0f57e60..4203ead 100644
--- a/src/rkopenmdao/time_integration_state.py
+++ b/src/rkopenmdao/time_integration_state.py
@@ -7,6 +7,7 @@ from dataclasses import dataclass
 import numpy as np
 
 from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
+    EmbeddedRungeKuttaDiscretizationState,
     RungeKuttaDiscretizationState,
 )
 
@@ -81,11 +82,15 @@ class TimeIntegrationState:
         state_dict: dict
             Dictionary from which a time integration state is created.
         """
+        discretization_state_dict = time_state_dict["discretization_state"]
+        discretization_state_class = (
+            EmbeddedRungeKuttaDiscretizationState
+            if "embedded_state" in discretization_state_dict
+            else RungeKuttaDiscretizationState
+        )
         return cls(
-            RungeKuttaDiscretizationState.from_dict(
-                time_state_dict["discretization_state"]
-            ),
-            time_state_dict["step_size_suggestion"][0],
+            discretization_state_class.from_dict(discretization_state_dict),
+            time_state_dict["step_size_suggestion"],
             time_state_dict["step_size_history"],
             time_state_dict["error_history"],
         )
-- 
2.43.0


From 7b4c5a7b2aba9cb985e50bc3eb9c41b5e4e65c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:10 +0000
Subject: [PATCH 06/41] fix: transposed linear solve of the second Kaps
 component

---
 src/rkopenmdao/odes/kaps.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index dec5493..be98204 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -276,12 +276,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 -butcher_diagonal_element * delta_t * d_outputs["y_2"]
                 - d_outputs["y_2_stage"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
             d_residuals["y_2"] = (
@@ -289,12 +285,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 + d_outputs["y_2_stage"]
                 - d_outputs["y_2"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
 
-- 
2.43.0


From f11f16cd2518a7ee8ed9c51bc3077d0726d30936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:10 +0000
Subject: [PATCH 07/41] fix: first error exponent of the H0_321 controller

---
 src/rkopenmdao/error_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controllers.py b/src/rkopenmdao/error_controllers.py
index 2c7e906..edd215e 100644
--- a/src/rkopenmdao/error_controllers.py
+++ b/src/rkopenmdao/error_controllers.py
@@ -346,7 +346,7 @@ def h0_321(
     name="H0_321",
     base: ErrorController = None,
 ):
-    alpha = 1 / (3 * p)
+    alpha = 5 / (4 * p)
     beta = -1 / (2 * p)
     gamma = -3 / (4 * p)
     a = 1 / 4
-- 
2.43.0


From 10b6e45de8f71f6b9a38c105a9537a48dc4407e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:06 +0000
Subject: [PATCH 08/41] fix: analytical solutions of Kaps and Prothero-Robinson
 problems for general starts

---
 src/rkopenmdao/odes/kaps.py                  | 3 ++-
 src/rkopenmdao/odes/prothero_robinson_ode.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index be98204..5b7bca4 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -340,9 +340,10 @@ class KapsGroup(om.Group):
         Analytical solution to Kaps problem (using Homotopy Perturbation Method) to
         compare with the components above.
         """
+        time = time - initial_time
         return np.array(
             [
-                initial_values[1] * np.exp(-2 * time)
+                initial_values[1] ** 2 * np.exp(-2 * time)
                 + (initial_values[0] - initial_values[1] ** 2) * np.exp(-2 * time),
                 (initial_values[1] - initial_values[0] + initial_values[1] ** 2)
                 * np.exp(-time)
diff --git a/src/rkopenmdao/odes/prothero_robinson_ode.py b/src/rkopenmdao/odes/prothero_robinson_ode.py
index dc0d05f..c8c1235 100644
--- a/src/rkopenmdao/odes/prothero_robinson_ode.py
+++ b/src/rkopenmdao/odes/prothero_robinson_ode.py
@@ -64,9 +64,10 @@ class ProtheroRobinson(ExplicitUnsteadyComponent):
         time: float,
         initial_values=get_initial_values(),
         initial_time=0.0,
+        lambda_=-1e2,
     ):
         """Analytical solution of the ODE"""
-        # x = phi(t) + Ce^t
+        # x = phi(t) + Ce^(lambda * t)
         return ProtheroRobinson.phi(time) + (
             initial_values - ProtheroRobinson.phi(initial_time)
-        ) / np.exp(initial_time) * np.exp(time)
+        ) * np.exp(lambda_ * (time - initial_time))
-- 
2.43.0


From ebbd404e180402db695b68bf978d6f496a26189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:06 +0000
Subject: [PATCH 09/41] fix: provide the derivatives of the Prothero-Robinson
 component

---
 src/rkopenmdao/odes/prothero_robinson_ode.py | 33 ++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/rkopenmdao/odes/prothero_robinson_ode.py b/src/rkopenmdao/odes/prothero_robinson_ode.py
index c8c1235..68eab78 100644
--- a/src/rkopenmdao/odes/prothero_robinson_ode.py
+++ b/src/rkopenmdao/odes/prothero_robinson_ode.py
@@ -38,6 +38,13 @@ class ProtheroRobinson(ExplicitUnsteadyComponent):
         """
         return np.cos(time + np.pi / 4)
 
+    @staticmethod
+    def d2_phi(time: float):
+        """
+        Calculate second derivative of Phi''(t)= -sin(t)
+        """
+        return -np.sin(time + np.pi / 4)
+
     def compute(
         self,
         inputs: dict,
@@ -54,6 +61,32 @@ class ProtheroRobinson(ExplicitUnsteadyComponent):
             + self.d_phi(stage_time)
         ) / (1 - lambda_ * _delta_t * self.om_data_exchange.stage_factor)
 
+    def compute_jacvec_product(
+        self,
+        inputs,
+        d_inputs,
+        d_outputs,
+        mode,
+        *_,
+        **__,
+    ):
+        delta_t = self.om_data_exchange.step_size
+        time = inputs["time"]
+        lambda_ = self.options["lambda_"]
+        factor = 1 / (1 - lambda_ * delta_t * self.om_data_exchange.stage_factor)
+        partials = {
+            "time": factor * (self.d2_phi(time) - lambda_ * self.d_phi(time)),
+            "x": factor * lambda_,
+            "acc_stages": factor * lambda_ * delta_t,
+        }
+        if "x_stage" in d_outputs:
+            for name, partial in partials.items():
+                if name in d_inputs:
+                    if mode == "fwd":
+                        d_outputs["x_stage"] += partial * d_inputs[name]
+                    elif mode == "rev":
+                        d_inputs[name] += partial * d_outputs["x_stage"]
+
     @staticmethod
     def get_initial_values():
         """Initial values for the ODE"""
-- 
2.43.0


From dc48f0c1b56cf0fd895ec9b8745a14d419a1d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:06 +0000
Subject: [PATCH 10/41] fix: compare each written quantity with the solution of
 its own initial values

---
 src/rkopenmdao/file_writer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 2a4ee28..27e7a92 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -209,18 +209,20 @@ def read_hdf5_file(
         # Extract time metadata
         for key, group in f.items():
             time[int(key)] = group["time"][0]
-        # Extract solution and compute Error wrt. analytical solution
-        for i, quantity in enumerate(quantities):
-            error_data[quantity] = {}  # initialize error data for each quantity
+        # Extract solution
+        for quantity in quantities:
             result[quantity] = {}
             # Now works for matrices
             for key, group in f.items():
                 result[quantity][int(key)] = np.zeros(group[quantity].shape)
                 for row in range(group[quantity].shape[0]):
                     result[quantity][int(key)][row] = group[quantity][row]
-
+        # Compute Error wrt. analytical solution
+        for i, quantity in enumerate(quantities):
+            error_data[quantity] = {}  # initialize error data for each quantity
+            for key in f.keys():
                 if len(quantities) > 1:
-                    quan_result = [result[quantity][0]] * len(quantities)
+                    quan_result = [result[name][0] for name in quantities]
                     error_data[quantity][int(key)] = np.abs(
                         solution(
                             time[int(key)],
-- 
2.43.0


From 85cba2f71a1ff24d7c5c46978c6bcdb2c182c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:06 +0000
Subject: [PATCH 11/41] fix: number pyrevolve forward steps from one and allow
 writing recomputed steps

---
 .../runge_kutta_integrator_pyrevolve_classes.py               | 4 ++--
 src/rkopenmdao/file_writer.py                                 | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
index 4cade07..7cb270e 100644
--- a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
+++ b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
@@ -169,7 +169,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         # PyRevolve only ever uses t_start and t_end as arguments, but the interface is
         # how it is.
         """
-        Does forward (primal) integration from step `t_start` + 1 to `t_end` + 1.
+        Does forward (primal) integration from step `t_start` + 2 to `t_end` + 1.
 
         Parameters
         ----------
@@ -178,7 +178,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         t_end: int
             Last integration time step shifted by one.
         """
-        for step in range(kwargs["t_start"] + 1, kwargs["t_end"] + 1):
+        for step in range(kwargs["t_start"] + 2, kwargs["t_end"] + 2):
             # TODO?: Add iteration to fwd_op
             self.time_integration_state.set(
                 self.fwd_operation(step, self.time_integration_state)
diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 27e7a92..5e603c1 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -80,6 +80,9 @@ class OpenMDAOHDF5Callback(Callback):
             iter_strs.append(f"{iteration}")
         with h5py.File(self.filename, mode=mode, driver="mpio", comm=self.comm) as hf:
             for iter_str in iter_strs:
+                # Checkpointing may compute steps repeatedly
+                if iter_str in hf:
+                    continue
                 hf.create_group(iter_str)
                 hf[iter_str].create_dataset("time", shape=(1,), dtype=np.float64)
                 for (
-- 
2.43.0


From 66ce97dfc80758afc2a4a126c1f2934a3e6eb664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:06 +0000
Subject: [PATCH 12/41] fix: keep the checkpoint options of the caller
 unchanged

---
 src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 344d818..392faca 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -61,6 +61,8 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
     def __post_init__(self):
         """Sets up all permanent data derived from initialization arguments."""
+        # Don't alter the options of the caller
+        self.revolver_options = dict(self.revolver_options)
         self._first_complete_state = deepcopy(self.state)
         checkpoint = RungeKuttaCheckpoint(self.state)
 
-- 
2.43.0


From ee572bface423b557df6f1a07192b4082b670990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 13/41] fix: pyrevolve checkpointing for integrations of one or
 two steps

---
 .../pyrevolve_checkpointer.py                 | 35 ++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 392faca..a34654d 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -94,7 +94,7 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
         if "n_checkpoints" not in self.revolver_options:
             if self.revolver_type not in ["MultiLevel", "Base"]:
-                self.revolver_options["n_checkpoints"] = 1 if num_steps == 1 else None
+                self.revolver_options["n_checkpoints"] = 1 if num_steps <= 2 else None
 
         self.revolver_options["fwd_operator"] = RungeKuttaForwardOperator(
             self.state,
@@ -109,7 +109,10 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
     def create_checkpointer(self):
         """Creates the actual revolver object used for checkpointing by Pyrevolve."""
-        self._revolver = self._revolver_class_type(**self.revolver_options)
+        # The first step is always handled outside of the revolver, which can't deal
+        # with having nothing to do.
+        if self.revolver_options["n_timesteps"] > 0:
+            self._revolver = self._revolver_class_type(**self.revolver_options)
 
     def _setup_revolver_class_type(self, revolver_type: str) -> type:
         """
@@ -162,14 +165,14 @@ class PyrevolveCheckpointer(CheckpointInterface):
         final_state: TimeIntegrationState
             The resulting state after completing all time steps.
         """
-        self._revolver.fwd_operator.time_integration_state.set(initial_state)
-        self._revolver.fwd_operator.apply(t_start=-1, t_end=0)
-        self._first_complete_state.set(
-            self._revolver.fwd_operator.time_integration_state
-        )
-        self.state.set(self._revolver.fwd_operator.time_integration_state)
-        self._revolver.apply_forward()
-        return self._revolver.fwd_operator.time_integration_state
+        fwd_operator = self.revolver_options["fwd_operator"]
+        fwd_operator.time_integration_state.set(initial_state)
+        fwd_operator.apply(t_start=-1, t_end=0)
+        self._first_complete_state.set(fwd_operator.time_integration_state)
+        self.state.set(fwd_operator.time_integration_state)
+        if self._revolver is not None:
+            self._revolver.apply_forward()
+        return fwd_operator.time_integration_state
 
     def iterate_reverse(
         self, final_state_perturbation: TimeIntegrationState
@@ -190,9 +193,9 @@ class PyrevolveCheckpointer(CheckpointInterface):
             steps.
         """
         self.state_perturbation.set(final_state_perturbation)
-        self._revolver.apply_reverse()
-        self._revolver.rev_operator.time_integration_state.set(
-            self._first_complete_state
-        )
-        self._revolver.rev_operator.apply(t_start=-1, t_end=0)
-        return self._revolver.rev_operator.time_integration_state_perturbations
+        rev_operator = self.revolver_options["rev_operator"]
+        if self._revolver is not None:
+            self._revolver.apply_reverse()
+        rev_operator.time_integration_state.set(self._first_complete_state)
+        rev_operator.apply(t_start=-1, t_end=0)
+        return rev_operator.time_integration_state_perturbations
-- 
2.43.0


From 5a1411555809d84e0677df74d1a896edfc5adcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 14/41] fix: accept steps exceeding the tolerance only at the
 lower step size bound

---
 src/rkopenmdao/error_controller.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 3c7d1d7..29c261f 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -189,8 +189,7 @@ class ErrorController:
         """
         success = False
         if (
-            np.abs(delta_t - self.config.lower_bound) < 1e-10
-            or np.abs(delta_t - remaining_time) < 1e-10
+            delta_t - self.config.lower_bound < 1e-10
             or error_measure <= self.config.tol
         ):
             success = True
-- 
2.43.0


From 1ac535dad798c50efb3b06dc94b97440df326680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 15/41] fix: vanishing previous errors do not spoil the step
 size estimate

---
 src/rkopenmdao/error_controller.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 29c261f..69472c1 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -242,8 +242,10 @@ class ErrorController:
         """
         delta_t_new = self.config.safety_factor * delta_t
         delta_t_new *= (self.config.tol / error_measure) ** self.alpha
-        delta_t_new *= (error_history[0] / self.config.tol) ** self.beta
-        delta_t_new *= (self.config.tol / error_history[1]) ** self.gamma
+        if error_history[0] != 0.0:
+            delta_t_new *= (error_history[0] / self.config.tol) ** self.beta
+        if error_history[1] != 0.0:
+            delta_t_new *= (self.config.tol / error_history[1]) ** self.gamma
         if step_size_history[0] != 0.0:
             delta_t_new *= (delta_t / step_size_history[0]) ** self.a
             if step_size_history[1] != 0.0:
-- 
2.43.0


From 2972ac3bd76e774dd20802ec3091c5e5fde00c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 16/41] fix: limit consecutive retries of decorated error
 controllers by max_iter

---
 src/rkopenmdao/error_controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 69472c1..a4b9dca 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -364,9 +364,11 @@ class ErrorControllerDecorator(ErrorController):
                             f"""Suggested delta T {status.step_size_suggestion} is 
                             larger than delta t {delta_t} on failure."""
                         )
-                self._outer_counter = 0
+                else:
+                    self._outer_counter = 0
                 return status
             except OuterErrorControllerError:
+                self._outer_counter = 0
                 return self._run(
                     error_measure=error_measure,
                     delta_t=delta_t,
-- 
2.43.0


From 31276bb1eefedceba430fde9d79983df46456dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 17/41] fix: aborted integrations do not influence the error
 control of later ones

---
 src/rkopenmdao/error_controller.py       | 8 ++++++++
 src/rkopenmdao/runge_kutta_integrator.py | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index a4b9dca..9a9b478 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -252,6 +252,9 @@ class ErrorController:
                 delta_t_new *= (step_size_history[0] / step_size_history[1]) ** self.b
         return delta_t_new
 
+    def reset(self):
+        """Discards all information about the steps of previous integrations."""
+
     def __str__(self):
         """
         Prints the class data as following:
@@ -385,6 +388,11 @@ class ErrorControllerDecorator(ErrorController):
                 step_size_history=step_size_history,
             )
 
+    def reset(self):
+        self.error_controller.reset()
+        self._is_not_inner = True
+        self._outer_counter = 0
+
     def __str__(self):
         """Prints the class data."""
         current_str = super().__str__()
diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index f0848d5..013b0e0 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -554,6 +554,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         return time_integration_state
 
     def _reset_error_control(self, integration_state: TimeIntegrationState):
+        self._error_controller.reset()
         integration_state.step_size_history.fill(0.0)
         integration_state.error_history.fill(self._error_controller.config.tol)
         integration_state.step_size_suggestion[0] = (
-- 
2.43.0


From 8bf0d66bd2454a5d38983145862bb0e65a3b42ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 18/41] fix: adaptive integrations do not overshoot the final
 time with the first step

---
 src/rkopenmdao/runge_kutta_integrator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 013b0e0..0780365 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -560,6 +560,12 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         integration_state.step_size_suggestion[0] = (
             self._integration_config.initial_step_size
         )
+        if self._integration_config.use_adaptive_time_stepping:
+            remaining_time = self._remaining_time_func(
+                integration_state.discretization_state.final_time[0]
+            )
+            if 0.0 < remaining_time < integration_state.step_size_suggestion[0]:
+                integration_state.step_size_suggestion[0] = remaining_time
 
     def _iterate_on_step(
         self, time_integration_state: TimeIntegrationState, i: int = 0
-- 
2.43.0


From b2a1e46ecf3a757c4dd35c2598c5d143abc5828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 19/41] fix: keep step size and error histories in non-adaptive
 integrations

---
 src/rkopenmdao/runge_kutta_integrator.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 0780365..cf75260 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -639,10 +639,19 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
 
         else:
             time_integration_state.discretization_state.set(temp_discretization_state)
-            np.roll(time_integration_state.step_size_history, 1)
+            time_integration_state.step_size_history[:] = np.roll(
+                time_integration_state.step_size_history, 1
+            )
             time_integration_state.step_size_history[0] = (
                 time_integration_state.step_size_suggestion[0]
             )
+            if self.options["butcher_tableau"].is_embedded:
+                time_integration_state.error_history[:] = np.roll(
+                    time_integration_state.error_history, 1
+                )
+                time_integration_state.error_history[0] = self._get_error_measure(
+                    temp_discretization_state
+                )
         return time_integration_state
 
     def _get_error_measure(
-- 
2.43.0


From c5980ea3f85b411de39f6686b8f3ce4836bc2c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:14 +0000
Subject: [PATCH 20/41] fix: warn about any row of the butcher matrix not
 matching its time stage

---
 src/rkopenmdao/butcher_tableau.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/butcher_tableau.py b/src/rkopenmdao/butcher_tableau.py
index 057603e..ca228a4 100644
--- a/src/rkopenmdao/butcher_tableau.py
+++ b/src/rkopenmdao/butcher_tableau.py
@@ -71,7 +71,9 @@ class ButcherTableau:
             self.butcher_time_stages = np.sum(self.butcher_matrix, 1)
         else:
             self.butcher_time_stages = butcher_time_stages
-            if np.all(np.sum(self.butcher_matrix, 1) - butcher_time_stages) >= 1e-5:
+            if np.any(
+                np.abs(np.sum(self.butcher_matrix, 1) - butcher_time_stages) >= 1e-5
+            ):
                 warnings.warn(
                     "Spatial shift matrix (A) rows do not "
                     "sum up to the temporal shift vector (c) indices value"
-- 
2.43.0


From bccf19cec1857e00715baa049f7c1383522e1892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:14 +0000
Subject: [PATCH 21/41] fix: reject fully implicit butcher tableaux instead of
 ignoring their upper triangle

---
 src/rkopenmdao/runge_kutta_integrator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index cf75260..473adc8 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -12,6 +12,7 @@ from openmdao.vectors.vector import Vector as OMVector
 
 from rkopenmdao.callback import Callback, IterationLogging, WallClockMeasurement
 from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEResultState
+from rkopenmdao.errors import SetupError
 from rkopenmdao.error_measurer import ErrorMeasurer, SimpleErrorMeasurer
 from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
     StageOrderedRungeKuttaDiscretization,
@@ -379,6 +380,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
 
     def _setup_runge_kutta_discretization(self):
         butcher_tableau: ButcherTableau = self.options["butcher_tableau"]
+        if butcher_tableau.is_implicit():
+            raise SetupError(
+                "Only explicit and diagonally implicit butcher tableaux are supported, "
+                f"but {butcher_tableau.name} is fully implicit."
+            )
         if butcher_tableau.is_embedded:
             self._runge_kutta_discretization = (
                 StageOrderedEmbeddedRungeKuttaDiscretization(butcher_tableau)
-- 
2.43.0


From c429d32ccee667f453ebf0bf8edb9fbcecc77497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:14 +0000
Subject: [PATCH 22/41] fix: non-finite values of previous linear solves do not
 spoil later ones

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 208a0c3..317a4e3 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -160,7 +160,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_residuals.asarray()[:] *= 0.0
+        d_residuals.asarray()[:] = 0.0
         self._input_state_to_om_vector(
             np.array([ode_input_perturbation.time]),
             ode_input_perturbation.step_input,
@@ -196,7 +196,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_outputs.asarray()[:] *= 0.0
+        d_outputs.asarray()[:] = 0.0
         self._output_state_to_om_vector(
             ode_result_perturbation.stage_update,
             ode_result_perturbation.stage_state,
-- 
2.43.0


From d8b4482e8a1663345e5cbda1b4857a38fc137553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:14 +0000
Subject: [PATCH 23/41] fix: norms of negative infinite order and of quantities
 without local part

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 317a4e3..2ccc886 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -379,10 +379,16 @@ class OpenMDAOODE(DiscretizedODE):
 
     def compute_state_norm(self, state: DiscretizedODEResultState) -> float:
         stage_state = state.stage_state
-        non_distributed_intermediate = 0.0
-        distributed_intermediate = 0.0
+        # Neutral element of the accumulation over the quantities
+        neutral_element = np.inf if self._norm_order == -np.inf else 0.0
+        non_distributed_intermediate = neutral_element
+        distributed_intermediate = neutral_element
         for quantity in self.time_integration_metadata.time_integration_quantity_list:
-            if quantity.name not in self._norm_exclusions:
+            if (
+                quantity.name not in self._norm_exclusions
+                and quantity.array_metadata.start_index
+                != quantity.array_metadata.end_index
+            ):
                 norm_intermediate = self._partial_norm_intermediate(
                     stage_state, quantity, self._norm_order
                 )
-- 
2.43.0


From 467024691aeb099e7a811d26dbbfdb1c7280c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:14 +0000
Subject: [PATCH 24/41] fix: reject requested quantities that don't appear in
 the stage problem

---
 src/rkopenmdao/metadata_extractor.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 1039eaf..8318faf 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -137,6 +137,7 @@ def extract_time_integration_metadata(
                 translation_metadata=TimeIntegrationTranslationMetadata(),
             )
         quantity_list.append(quantity)
+    _check_all_quantities_found(time_integration_set, quantity_list)
     runge_kutta_metadata = TimeIntegrationMetadata(
         time_variable=_search_for_time_variable(stage_problem),
         time_integration_array_size=array_size,
@@ -145,6 +146,16 @@ def extract_time_integration_metadata(
     return runge_kutta_metadata
 
 
+def _check_all_quantities_found(
+    quantity_names: set[str], quantity_list: list[Quantity]
+) -> None:
+    missing = quantity_names - {quantity.name for quantity in quantity_list}
+    if missing:
+        raise SetupError(
+            f"There are no inner variables tagged for the quantities {sorted(missing)}."
+        )
+
+
 def _search_for_time_variable(stage_problem: om.Problem) -> str | None:
     local_quantities = stage_problem.model.get_io_metadata(
         iotypes="input",
@@ -332,6 +343,10 @@ def add_time_independent_input_metadata(
                 translation_metadata=TimeIndependentInputTranslationMetadata(),
             )
         runge_kutta_metadata.time_independent_input_quantity_list.append(quantity)
+    _check_all_quantities_found(
+        time_independent_input_set,
+        runge_kutta_metadata.time_independent_input_quantity_list,
+    )
 
 
 def _extract_time_independent_quantity(
-- 
2.43.0


From b8b60adf3f1a0bf8593c361622953c533c06fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:23 +0000
Subject: [PATCH 25/41] fix: accumulate jacobian vector products instead of
 overwriting linear vectors

---
 src/rkopenmdao/runge_kutta_integrator.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 473adc8..8c7f719 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -522,7 +522,21 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 quantity.array_metadata.shape
             )
 
-    def _from_numpy_array_independent_input(
+    def _add_numpy_array_time_integration(
+        self, np_array: np.ndarray, om_vector: OMVector
+    ):
+        # OpenMDAO requires that products are added to the linear vectors.
+        name_suffix = "_initial" if om_vector._kind == "input" else "_final"
+        for (
+            quantity
+        ) in self._ode.time_integration_metadata.time_integration_quantity_list:
+            start = quantity.array_metadata.start_index
+            end = quantity.array_metadata.end_index
+            om_vector[quantity.name + name_suffix] += np_array[start:end].reshape(
+                quantity.array_metadata.shape
+            )
+
+    def _add_numpy_array_independent_input(
         self, np_array: np.ndarray, om_vector: OMVector
     ):
         if om_vector._kind != "input":
@@ -535,7 +549,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                om_vector[quantity.name] = np_array[start:end].reshape(
+                om_vector[quantity.name] += np_array[start:end].reshape(
                     quantity.array_metadata.shape
                 )
 
@@ -697,7 +711,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._time_integration_state, self._time_integration_state_perturbations
             )
         )
-        self._from_numpy_array_time_integration(
+        self._add_numpy_array_time_integration(
             self._time_integration_state_perturbations.discretization_state.final_state,
             d_outputs,
         )
@@ -804,11 +818,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             self._checkpointer.iterate_reverse(integration_state_perturbations)
         )
 
-        self._from_numpy_array_time_integration(
+        self._add_numpy_array_time_integration(
             integration_state_perturbations.discretization_state.final_state,
             d_inputs,
         )
-        self._from_numpy_array_independent_input(
+        self._add_numpy_array_independent_input(
             integration_state_perturbations.discretization_state.independent_inputs,
             d_inputs,
         )
-- 
2.43.0


From f1e8dc00d6b242d41ccaa1faaf5999a3cc10b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:18 +0000
Subject: [PATCH 26/41] fix: pyrevolve checkpointing performs no step if none
 is requested

---
 src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index a34654d..3e046f6 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -167,6 +167,8 @@ class PyrevolveCheckpointer(CheckpointInterface):
         """
         fwd_operator = self.revolver_options["fwd_operator"]
         fwd_operator.time_integration_state.set(initial_state)
+        if self.revolver_options["n_timesteps"] < 0:
+            return fwd_operator.time_integration_state
         fwd_operator.apply(t_start=-1, t_end=0)
         self._first_complete_state.set(fwd_operator.time_integration_state)
         self.state.set(fwd_operator.time_integration_state)
@@ -194,6 +196,8 @@ class PyrevolveCheckpointer(CheckpointInterface):
         """
         self.state_perturbation.set(final_state_perturbation)
         rev_operator = self.revolver_options["rev_operator"]
+        if self.revolver_options["n_timesteps"] < 0:
+            return rev_operator.time_integration_state_perturbations
         if self._revolver is not None:
             self._revolver.apply_reverse()
         rev_operator.time_integration_state.set(self._first_complete_state)
-- 
2.43.0


From 35bdb3f1094aca7d1bb51e19631d2f0bf91f9275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:26 +0000
Subject: [PATCH 27/41] fix: give up instead of retrying a rejected step with
 the same step size forever

---
 src/rkopenmdao/error_controller.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 9a9b478..8a1efe6 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -148,9 +148,9 @@ class ErrorController:
             step_size_history=step_size_history,
         )
         if not status.acceptance:
-            if status.step_size_suggestion > delta_t and self._inner_most:
+            if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise OuterErrorControllerError(
-                    f"""Suggested delta T {status.step_size_suggestion} is larger than 
+                    f"""Suggested delta T {status.step_size_suggestion} is not smaller than
                     delta t {delta_t} on failure."""
                 )
         return status
@@ -419,9 +419,9 @@ class ErrorControllerDecorator(ErrorController):
         )
         if not status.acceptance:
             self._is_not_inner = False
-            if status.step_size_suggestion > delta_t and self._inner_most:
+            if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise InnerErrorControllerError(
-                    f"""Suggested delta T {status.step_size_suggestion} is larger than 
+                    f"""Suggested delta T {status.step_size_suggestion} is not smaller than
                     delta t {delta_t} on failure."""
                 )
         return status
-- 
2.43.0


From 873fdddf5126f84d3d6c97e7993836b132aa8300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:21 +0000
Subject: [PATCH 28/41] fix: acceptance by a decorating error controller
 restores the decorated ones

---
 src/rkopenmdao/error_controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 8a1efe6..bb3237b 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -417,7 +417,10 @@ class ErrorControllerDecorator(ErrorController):
             error_history=error_history,
             step_size_history=step_size_history,
         )
-        if not status.acceptance:
+        if status.acceptance:
+            # The next step starts anew with the innermost controller
+            self.error_controller.reset()
+        else:
             self._is_not_inner = False
             if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise InnerErrorControllerError(
-- 
2.43.0


From d93785255084cc16c22dd04c662fcb1c4d9c2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:52 +0000
Subject: [PATCH 29/41] fix: reject adaptive time stepping without embedded
 tableau at setup

---
 src/rkopenmdao/runge_kutta_integrator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 8c7f719..ce19194 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -385,6 +385,14 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 "Only explicit and diagonally implicit butcher tableaux are supported, "
                 f"but {butcher_tableau.name} is fully implicit."
             )
+        if (
+            self._integration_config.use_adaptive_time_stepping
+            and not butcher_tableau.is_embedded
+        ):
+            raise SetupError(
+                "Adaptive time stepping requires an embedded butcher tableau, "
+                f"but {butcher_tableau.name} isn't one."
+            )
         if butcher_tableau.is_embedded:
             self._runge_kutta_discretization = (
                 StageOrderedEmbeddedRungeKuttaDiscretization(butcher_tableau)
-- 
2.43.0


From 8832722b2c51bd8cefb199f94549aa7ae68def30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:25 +0000
Subject: [PATCH 30/41] fix: reject inner variables with ambiguous tags or
 mismatching sizes at setup

---
 src/rkopenmdao/metadata_extractor.py | 34 ++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 8318faf..9ad1b37 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -138,6 +138,7 @@ def extract_time_integration_metadata(
             )
         quantity_list.append(quantity)
     _check_all_quantities_found(time_integration_set, quantity_list)
+    _check_no_shared_input_variables(quantity_list)
     runge_kutta_metadata = TimeIntegrationMetadata(
         time_variable=_search_for_time_variable(stage_problem),
         time_integration_array_size=array_size,
@@ -156,6 +157,22 @@ def _check_all_quantities_found(
         )
 
 
+def _check_no_shared_input_variables(
+    quantity_list: list[TimeIntegrationQuantity],
+) -> None:
+    used_variables = set()
+    for quantity in quantity_list:
+        for var in (
+            quantity.translation_metadata.step_input_var,
+            quantity.translation_metadata.accumulated_stage_var,
+        ):
+            if var is not None and var in used_variables:
+                raise SetupError(
+                    f"Variable {var} has more than one time integration quantity tag."
+                )
+            used_variables.add(var)
+
+
 def _search_for_time_variable(stage_problem: om.Problem) -> str | None:
     local_quantities = stage_problem.model.get_io_metadata(
         iotypes="input",
@@ -230,7 +247,13 @@ def _extract_time_integration_quantity(
     found_step_input_var = 0
     found_accumulated_stage_var = 0
     translation_metadata = TimeIntegrationTranslationMetadata()
+    role_tags = {"stage_output_var", "step_input_var", "accumulated_stage_var"}
     for detailed_var, detailed_data in detailed_local_quantity.items():
+        if len(role_tags & set(detailed_data["tags"])) > 1:
+            raise SetupError(
+                f"Variable {detailed_var} of quantity {quantity_name} has more than "
+                f"one of the tags {sorted(role_tags)}."
+            )
         if "stage_output_var" in detailed_data["tags"]:
             found_stage_output_var += 1
             translation_metadata.stage_output_var = detailed_var
@@ -280,6 +303,17 @@ def _extract_time_integration_quantity(
             f" 'step_input_var, but not 'accumulated_stage_var', or vice versa. "
             f"Either none or both have to be present."
         )
+    for input_var in (
+        translation_metadata.step_input_var,
+        translation_metadata.accumulated_stage_var,
+    ):
+        if input_var is not None and np.prod(
+            detailed_local_quantity[input_var]["shape"]
+        ) != np.prod(array_metadata.shape):
+            raise SetupError(
+                f"For quantity {quantity_name}, the size of {input_var} doesn't match "
+                f"that of {translation_metadata.stage_output_var}."
+            )
 
     # We check that there is a stage_output_var, so array_metadata must exist
     # pylint: disable=possibly-used-before-assignment
-- 
2.43.0


From 36eb97a94da6fcbd8355f8ee5c89a0be4c99ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:41 +0000
Subject: [PATCH 31/41] fix: output files without directory part need no
 directory to be created

---
 src/rkopenmdao/utils/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/utils/problems.py b/src/rkopenmdao/utils/problems.py
index d5ad166..7a3848d 100644
--- a/src/rkopenmdao/utils/problems.py
+++ b/src/rkopenmdao/utils/problems.py
@@ -29,7 +29,7 @@ def generate_path(path: str):
     if path[-3::] == ".h5" or path[-4::] == ".png":
         idx = path.rfind("/")
         directory_path = path[: idx + 1]
-        if not os.path.exists(directory_path):
+        if directory_path and not os.path.exists(directory_path):
             os.makedirs(directory_path)
             print(f"The path to {directory_path} has been paved.")
     return path
-- 
2.43.0


From f1fd3316b993c9d945176993bca72a1a8de6c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:01 +0000
Subject: [PATCH 32/41] fix: parameters without local part do not prevent
 parallel setups

---
 src/rkopenmdao/runge_kutta_integrator.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index ce19194..77a53c7 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -346,14 +346,22 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         for (
             quantity
         ) in self._ode.time_integration_metadata.time_independent_input_quantity_list:
-            self.add_input(
-                quantity.name,
-                shape=quantity.array_metadata.shape,
-                val=time_stage_problem.get_val(
-                    quantity.translation_metadata.time_independent_input_var
-                ),
-                distributed=quantity.array_metadata.distributed,
-            )
+            if quantity.array_metadata.local:
+                self.add_input(
+                    quantity.name,
+                    shape=quantity.array_metadata.shape,
+                    # Same problem with arrays of size 0 as for the initial values.
+                    val=time_stage_problem.get_val(
+                        quantity.translation_metadata.time_independent_input_var
+                    ).reshape(quantity.array_metadata.shape),
+                    distributed=quantity.array_metadata.distributed,
+                )
+            else:
+                self.add_input(
+                    quantity.name,
+                    shape=quantity.array_metadata.shape,
+                    distributed=quantity.array_metadata.distributed,
+                )
 
     def _setup_wrt_and_of_vars(self):
         self._add_time_integration_derivative_info()
-- 
2.43.0


From 58c1335ab9e7d911fb4df4d342a871f34be70311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:01 +0000
Subject: [PATCH 33/41] fix: norms count quantities once that several ranks of
 a parallel group hold

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py |  1 +
 src/rkopenmdao/metadata_extractor.py           | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 2ccc886..2a31fa8 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -386,6 +386,7 @@ class OpenMDAOODE(DiscretizedODE):
         for quantity in self.time_integration_metadata.time_integration_quantity_list:
             if (
                 quantity.name not in self._norm_exclusions
+                and not quantity.array_metadata.redundant
                 and quantity.array_metadata.start_index
                 != quantity.array_metadata.end_index
             ):
diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 9ad1b37..7d3d268 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -45,6 +45,7 @@ class ArrayMetadata:
     global_shape: tuple = (0,)
     local: bool = False
     distributed: bool = False
+    redundant: bool = False
     start_index: int = 0
     end_index: int = 0
     global_start_index: int = 0
@@ -449,6 +450,16 @@ def add_distributivity_information(
             shape_matches_locally, MPI.LAND
         )
         quantity.array_metadata.distributed = not shapes_match_everywhere
+        # Components of parallel groups may be executed by some, but not all ranks, such
+        # that several ranks hold the same data.
+        complete_copies = stage_problem.comm.allgather(
+            quantity.array_metadata.local and shape_matches_locally
+        )
+        quantity.array_metadata.redundant = (
+            not shapes_match_everywhere
+            and complete_copies[stage_problem.comm.rank]
+            and any(complete_copies[: stage_problem.comm.rank])
+        )
 
 
 # TODO: we will later want to differentiate the algebraic part of DAEs (to take
-- 
2.43.0


From bd28af5aed701db88016baca08d7224b2b338929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:01 +0000
Subject: [PATCH 34/41] fix: all ranks get the same norm

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 2a31fa8..1739f17 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -409,7 +409,10 @@ class OpenMDAOODE(DiscretizedODE):
         global_intermediate = self._add_to_intermediate(
             global_intermediate, non_distributed_intermediate, self._norm_order
         )
-        return self._normalize(global_intermediate, self._norm_order)
+        # Rounding differs between ranks, but decisions based on norms must not.
+        return self._time_stage_problem.comm.bcast(
+            self._normalize(global_intermediate, self._norm_order)
+        )
 
     def _partial_norm_intermediate(
         self, state: np.ndarray, quantity: TimeIntegrationQuantity, order: float
-- 
2.43.0


From de27843f9b3e668676504282d8d3d03af23aade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:07 +0000
Subject: [PATCH 35/41] fix: give every pyRevolve disk storage files of its own

---
 .../checkpoint_interface/pyrevolve_checkpointer.py    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 3e046f6..8a094e4 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -2,6 +2,7 @@
 
 from dataclasses import dataclass, field
 from copy import deepcopy
+from uuid import uuid4
 import warnings
 
 import pyrevolve as pr
@@ -112,7 +113,15 @@ class PyrevolveCheckpointer(CheckpointInterface):
         # The first step is always handled outside of the revolver, which can't deal
         # with having nothing to do.
         if self.revolver_options["n_timesteps"] > 0:
-            self._revolver = self._revolver_class_type(**self.revolver_options)
+            options = dict(self.revolver_options)
+            if self.revolver_type in ["Disk", "SingleLevel"]:
+                # The files of pyRevolve are named by process and second only, so that
+                # different checkpointers would overwrite each other.
+                filedir = options.get("filedir")
+                options["filedir"] = (
+                    f"{'./' if filedir is None else filedir}{uuid4().hex}_"
+                )
+            self._revolver = self._revolver_class_type(**options)
 
     def _setup_revolver_class_type(self, revolver_type: str) -> type:
         """
-- 
2.43.0


From 658a435cbadd5c9a014c1c9c6db321b0cd546ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:36 +0000
Subject: [PATCH 36/41] fix: non-finite values of previous evaluations do not
 serve as start of stage solvers

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 1739f17..6b6f530 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -62,6 +62,7 @@ class OpenMDAOODE(DiscretizedODE):
     _time_stage_problem: om.Problem
     _om_data_exchange: OMDataExchange
     _om_run_solve_linear: Callable[[str], None]
+    _initial_outputs: np.ndarray
     _norm_exclusions: list
     _norm_order: Union[float, str]
 
@@ -109,6 +110,8 @@ class OpenMDAOODE(DiscretizedODE):
             self._om_run_solve_linear = functools.partial(
                 self._time_stage_problem.model.run_solve_linear, vec_name=["linear"]
             )
+        _, outputs, _ = self._time_stage_problem.model.get_nonlinear_vectors()
+        self._initial_outputs = outputs.asarray(copy=True)
         if norm_exclusions is None:
             self._norm_exclusions = []
         else:
@@ -123,6 +126,10 @@ class OpenMDAOODE(DiscretizedODE):
     ) -> DiscretizedODEResultState:
 
         _, outputs, _ = self._time_stage_problem.model.get_nonlinear_vectors()
+        # Non-finite values left by previous evaluations are no start for solvers.
+        output_array = outputs.asarray()
+        not_finite = ~np.isfinite(output_array)
+        output_array[not_finite] = self._initial_outputs[not_finite]
         self._input_state_to_om_vector(
             np.array([ode_input.time]),
             ode_input.step_input,
-- 
2.43.0


From 1d8058424ade180d3c17536f4a67ce7583a1eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:34 +0000
Subject: [PATCH 37/41] fix: jacobian-vector products respect the scope of the
 linear vectors

---
 src/rkopenmdao/runge_kutta_integrator.py | 55 ++++++++++++++----------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 77a53c7..5243268 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -503,7 +503,12 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            np_array[start:end] = om_vector[quantity.name + name_suffix].flatten()
+            # Linear vectors only contain what is relevant for the current product.
+            np_array[start:end] = (
+                om_vector[quantity.name + name_suffix].flatten()
+                if quantity.name + name_suffix in om_vector
+                else 0.0
+            )
 
     def _to_numpy_array_independent_inputs(
         self, om_vector: OMVector, np_array: np.ndarray
@@ -520,7 +525,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                np_array[start:end] = om_vector[quantity.name].flatten()
+                np_array[start:end] = (
+                    om_vector[quantity.name].flatten()
+                    if quantity.name in om_vector
+                    else 0.0
+                )
 
     def _from_numpy_array_time_integration(
         self, np_array: np.ndarray, om_vector: OMVector
@@ -548,9 +557,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            om_vector[quantity.name + name_suffix] += np_array[start:end].reshape(
-                quantity.array_metadata.shape
-            )
+            if quantity.name + name_suffix in om_vector:
+                om_vector[quantity.name + name_suffix] += np_array[start:end].reshape(
+                    quantity.array_metadata.shape
+                )
 
     def _add_numpy_array_independent_input(
         self, np_array: np.ndarray, om_vector: OMVector
@@ -565,9 +575,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                om_vector[quantity.name] += np_array[start:end].reshape(
-                    quantity.array_metadata.shape
-                )
+                if quantity.name in om_vector:
+                    om_vector[quantity.name] += np_array[start:end].reshape(
+                        quantity.array_metadata.shape
+                    )
 
     def _run_step(
         self, step: int, time_integration_state: TimeIntegrationState
@@ -731,11 +742,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             self._time_integration_state_perturbations.discretization_state.final_state,
             d_outputs,
         )
-        d_outputs[
-            "time_final"
-        ] += self._time_integration_state_perturbations.discretization_state.final_time[
-            0
-        ]
+        if "time_final" in d_outputs:
+            d_outputs["time_final"] += (
+                self._time_integration_state_perturbations.discretization_state
+            ).final_time[0]
         if self.comm.rank == 0:
             print(
                 "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
@@ -762,9 +772,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        integration_state_perturbations.discretization_state.final_time[0] = d_inputs[
-            "time_initial"
-        ][0]
+        integration_state_perturbations.discretization_state.final_time[0] = (
+            d_inputs["time_initial"][0] if "time_initial" in d_inputs else 0.0
+        )
         self._reset_error_control(integration_state)
 
     def _compute_jacvec_fwd_run_steps(
@@ -842,9 +852,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
             d_inputs,
         )
-        d_inputs[
-            "time_initial"
-        ] += integration_state_perturbations.discretization_state.final_time[0]
+        if "time_initial" in d_inputs:
+            d_inputs[
+                "time_initial"
+            ] += integration_state_perturbations.discretization_state.final_time[0]
 
         if self.comm.rank == 0:
             print(
@@ -899,9 +910,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         integration_state_perturbations.discretization_state.independent_inputs.fill(
             0.0
         )
-        integration_state_perturbations.discretization_state.final_time[0] = d_outputs[
-            "time_final"
-        ][0]
+        integration_state_perturbations.discretization_state.final_time[0] = (
+            d_outputs["time_final"][0] if "time_final" in d_outputs else 0.0
+        )
 
     def _run_step_jacvec_rev(
         self,
-- 
2.43.0


From 3d6a69d6653cc37482f5af151f2513e90d6e68aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:34 +0000
Subject: [PATCH 38/41] fix: SimpleLinearODE respects the scope of the linear
 vectors

---
 src/rkopenmdao/odes/simple_linear_ode.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/odes/simple_linear_ode.py b/src/rkopenmdao/odes/simple_linear_ode.py
index 0f586db..4b908e9 100644
--- a/src/rkopenmdao/odes/simple_linear_ode.py
+++ b/src/rkopenmdao/odes/simple_linear_ode.py
@@ -40,12 +40,17 @@ class SimpleLinearODE(ExplicitUnsteadyComponent):
         delta_t = self.om_data_exchange.step_size
         butcher_diagonal_element = self.om_data_exchange.stage_factor
         factor = (1 + delta_t * butcher_diagonal_element) ** -1
-        if mode == "fwd":
-            d_outputs["y_stage"] -= factor * d_inputs["y_old"]
-            d_outputs["y_stage"] -= delta_t * factor * d_inputs["y_accumulated_stages"]
-        elif mode == "rev":
-            d_inputs["y_old"] -= factor * d_outputs["y_stage"]
-            d_inputs["y_accumulated_stages"] -= delta_t * factor * d_outputs["y_stage"]
+        if "y_stage" not in d_outputs:
+            return
+        for name, partial in (
+            ("y_old", -factor),
+            ("y_accumulated_stages", -delta_t * factor),
+        ):
+            if name in d_inputs:
+                if mode == "fwd":
+                    d_outputs["y_stage"] += partial * d_inputs[name]
+                elif mode == "rev":
+                    d_inputs[name] += partial * d_outputs["y_stage"]
 
     @staticmethod
     def simple_linear_solution(
-- 
2.43.0


From dd6b51cf46181f2c1e48d3903af310bf5334b711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 39/41] fix: steps with many rejected attempts do not exceed
 the recursion limit

---
 src/rkopenmdao/runge_kutta_integrator.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 5243268..cdd697b 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -614,11 +614,17 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             if 0.0 < remaining_time < integration_state.step_size_suggestion[0]:
                 integration_state.step_size_suggestion[0] = remaining_time
 
-    def _iterate_on_step(
-        self, time_integration_state: TimeIntegrationState, i: int = 0
-    ):
+    def _iterate_on_step(self, time_integration_state: TimeIntegrationState):
         """Iterates on the a step until a time step that
         complies with the norm's tolerance"""
+        i = 0
+        while not self._try_step(time_integration_state, i):
+            i += 1
+        return time_integration_state
+
+    def _try_step(self, time_integration_state: TimeIntegrationState, i: int) -> bool:
+        """Tries a step with the suggested step size, and returns whether it complies
+        with the norm's tolerance. If not, only the suggestion changes."""
         if self._integration_config.use_adaptive_time_stepping:
             if self.comm.rank == 0:
                 print(
@@ -677,12 +683,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 time_integration_state.step_size_suggestion[0] = (
                     error_controller_status.step_size_suggestion
                 )
-                time_integration_state.set(
-                    self._iterate_on_step(
-                        time_integration_state,
-                        i + 1,
-                    )
-                )
+                return False
 
         else:
             time_integration_state.discretization_state.set(temp_discretization_state)
@@ -699,7 +700,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 time_integration_state.error_history[0] = self._get_error_measure(
                     temp_discretization_state
                 )
-        return time_integration_state
+        return True
 
     def _get_error_measure(
         self, discretization_state: EmbeddedRungeKuttaDiscretizationState
-- 
2.43.0


From 833421e426bbb6770edae139a87ac517b2f23b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 40/41] fix: repeated setup discards the information on
 checkpoints of the previous checkpointer

---
 src/rkopenmdao/runge_kutta_integrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index cdd697b..35d0c1a 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -448,6 +448,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         )
 
     def _setup_checkpointing(self):
+        # A new checkpointer doesn't contain checkpoints of previous runs.
+        self._cached_input = None
         self._checkpointer = self.options["checkpointing_type"](
             termination_criterion=self._integration_config.termination_criterion,
             run_step_func=self._run_step,
-- 
2.43.0


From 5ea9621454239ebd94025a7bb7843ba53f486874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:32 +0000
Subject: [PATCH 41/41] fix: derivative products of the stages don't start from
 the results of previous products

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 6b6f530..e9f251c 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -168,6 +168,8 @@ class OpenMDAOODE(DiscretizedODE):
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
         d_residuals.asarray()[:] = 0.0
+        # Linear solvers start from what previous products have left otherwise.
+        d_outputs.asarray()[:] = 0.0
         self._input_state_to_om_vector(
             np.array([ode_input_perturbation.time]),
             ode_input_perturbation.step_input,
@@ -204,6 +206,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
         d_outputs.asarray()[:] = 0.0
+        d_residuals.asarray()[:] = 0.0
         self._output_state_to_om_vector(
             ode_result_perturbation.stage_update,
             ode_result_perturbation.stage_state,
-- 
2.43.0

