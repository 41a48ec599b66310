From 643802124a6420d825dd41f9ec567a4a53bdf753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 01/62] fix: AutoDiffCostFunction.copy keeps all autograd
 options

---
 theseus/core/cost_function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 29482aa..e2e576c 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -403,6 +403,10 @@ class AutoDiffCostFunction(CostFunction):
             aux_vars=[v.copy() for v in self.aux_vars],
             cost_weight=self.weight.copy(),
             name=new_name,
+            autograd_create_graph=self._autograd_create_graph,
+            autograd_strict=self._autograd_strict,
+            autograd_vectorize=self._autograd_vectorize,
+            autograd_strategy=self._autograd_strategy,
             autograd_mode=self._autograd_mode,
         )
 
-- 
2.43.0


From 0a36eed6984d2933f8dba1ff4d97294076fcac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 02/62] fix: restore AutoDiffCostFunction temporary tensors
 when the error function raises

---
 theseus/core/cost_function.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index e2e576c..daf9058 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -183,9 +183,13 @@ class AutogradMode(Enum):
 @contextlib.contextmanager
 def _tmp_tensors(vars: Sequence[Variable]):
     tensors = [v.tensor for v in vars]
-    yield
-    for v, tensor in zip(vars, tensors):
-        v.update(tensor)
+    try:
+        yield
+    finally:
+        # Assigned directly because, if there was an error inside the context, the
+        # temporary tensors are not guaranteed to be usable by `update()`
+        for v, tensor in zip(vars, tensors):
+            v.tensor = tensor
 
 
 # The error function is assumed to receive variables in the format
-- 
2.43.0


From d2ea6b7ea925d7f81dd946bbf06c6dc1d46a668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 03/62] fix: support broadcasted variables in
 AutoDiffCostFunction loop_batch mode

---
 theseus/core/cost_function.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index daf9058..d9f0784 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -363,12 +363,17 @@ class AutoDiffCostFunction(CostFunction):
                 )
         elif self._autograd_mode == AutogradMode.LOOP_BATCH:
             jacobians_raw_loop: List[Tuple[torch.Tensor, ...]] = []
-            for n in range(optim_vars[0].shape[0]):
+
+            def _batch_elem(var: Variable, n: int) -> torch.Tensor:
+                # variables with batch size 1 are broadcasted
+                return var.tensor if var.shape[0] == 1 else var.tensor[n : n + 1]
+
+            for n in range(max(v.shape[0] for v in chain(optim_vars, aux_vars))):
                 for i, aux_var in enumerate(aux_vars):
-                    self._tmp_aux_vars_for_loop[i].update(aux_var.tensor[n : n + 1])
+                    self._tmp_aux_vars_for_loop[i].update(_batch_elem(aux_var, n))
 
                 jacobians_n = self._compute_autograd_jacobian(
-                    tuple(v.tensor[n : n + 1] for v in optim_vars),
+                    tuple(_batch_elem(v, n) for v in optim_vars),
                     self._make_jac_fn(
                         self._tmp_optim_vars_for_loop, self._tmp_aux_vars_for_loop
                     ),
-- 
2.43.0


From 5b46efefd329d11a9c895f70e6c4e0c6c3d5eaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 04/62] fix: RobustCostFunction.to also moves the underlying
 cost function

---
 theseus/core/robust_cost_function.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 8198fcb..46fd45c 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -152,6 +152,12 @@ class RobustCostFunction(CostFunction):
     def _linearize(self, squared_norm: torch.Tensor) -> torch.Tensor:
         return self.loss.linearize(squared_norm, self.log_loss_radius.tensor)
 
+    # Also calls to() on the underlying cost function, so that any internal tensors
+    # it might have are also moved
+    def to(self, *args, **kwargs):
+        super().to(*args, **kwargs)
+        self.cost_function.to(*args, **kwargs)
+
     @property
     def weight(self) -> CostWeight:
         return self.cost_function.weight
-- 
2.43.0


From 141dfa562a968d2f70f06fcd2a9b144e1ab1366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 05/62] fix: RobustCostFunction keeps its underlying cost
 function connected when replacing variables

---
 theseus/core/robust_cost_function.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 46fd45c..0cf94d8 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -7,6 +7,8 @@ from typing import List, Optional, Tuple, Type
 
 import torch
 
+from theseus.geometry.manifold import Manifold
+
 from .cost_function import CostFunction
 from .cost_weight import CostWeight
 from .robust_loss import GNCRobustLoss, RobustLoss
@@ -152,6 +154,17 @@ class RobustCostFunction(CostFunction):
     def _linearize(self, squared_norm: torch.Tensor) -> torch.Tensor:
         return self.loss.linearize(squared_norm, self.log_loss_radius.tensor)
 
+    # The variables of the underlying cost function are registered first (and in the
+    # same order), so the same index refers to the same variable in both functions.
+    def set_optim_var_at(self, index: int, variable: Manifold):
+        super().set_optim_var_at(index, variable)
+        self.cost_function.set_optim_var_at(index, variable)
+
+    def set_aux_var_at(self, index: int, variable: Variable):
+        super().set_aux_var_at(index, variable)
+        if index < self.cost_function.num_aux_vars():
+            self.cost_function.set_aux_var_at(index, variable)
+
     # Also calls to() on the underlying cost function, so that any internal tensors
     # it might have are also moved
     def to(self, *args, **kwargs):
-- 
2.43.0


From 41917993e600893b058317a33c30aff96b08cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 06/62] fix: Objective.error reverts all updated variables when
 also_update=False

---
 theseus/core/objective.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 6b8121f..c3928d2 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -587,8 +587,9 @@ class Objective:
         old_tensors = {}
         if input_tensors is not None:
             if not also_update:
-                for var in self.optim_vars:
-                    old_tensors[var] = self.optim_vars[var].tensor
+                for var in input_tensors:
+                    if var in self._all_variables:
+                        old_tensors[var] = self._all_variables[var].tensor
             # Update vectorization only if the input tensors will be used for a
             # persistent update.
             self.update(input_tensors=input_tensors, _update_vectorization=also_update)
-- 
2.43.0


From dba441bdf78ebb6abc9ae193fa5a469d81fdb24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 07/62] fix: adding a cost function that is already in the
 objective does nothing

---
 theseus/core/objective.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index c3928d2..bd431df 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -248,6 +248,7 @@ class Objective:
                     "This cost function has already been added to the objective, "
                     "nothing to be done."
                 )
+                return
         else:
             self.cost_functions[cost_function.name] = cost_function
 
-- 
2.43.0


From 18dfaa8ff2083f728fc4355c6e1eba2927e14d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 08/62] fix: Objective.copy keeps device and mixed variables
 flag

---
 theseus/core/objective.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index bd431df..adc9202 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -651,8 +651,11 @@ class Objective:
                 connectivity structure, and error metric.
         """
         new_objective = Objective(
-            dtype=self.dtype, error_metric_fn=self._error_metric_fn
+            dtype=self.dtype,
+            error_metric_fn=self._error_metric_fn,
+            __allow_mixed_optim_aux_vars__=self._allow_mixed_optim_aux_vars,
         )
+        new_objective.to(device=self.device)
 
         # First copy all individual cost weights
         old_to_new_cost_weight_map: Dict[CostWeight, CostWeight] = {}
-- 
2.43.0


From bb5608bbbe5d524c5370a33df9e3809e8e82b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 09/62] fix: Objective.copy supports variables used more than
 once by a cost function and its weight

---
 theseus/core/objective.py | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index adc9202..aab5f87 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -676,29 +676,16 @@ class Objective:
             new_cost_functions.append(new_cost_function)
 
         # Handle case where a variable is copied in 2+ cost functions or cost weights,
-        # since only a single copy should be maintained by objective
+        # (or more than once by the same one), since only a single copy should be
+        # maintained by objective
+        new_vars: Dict[str, Variable] = {}
         for cost_function in new_cost_functions:
-            # CostFunction
-            for i, var in enumerate(cost_function.optim_vars):
-                if new_objective.has_optim_var(var.name):
-                    cost_function.set_optim_var_at(
-                        i, new_objective.optim_vars[var.name]
-                    )
-            for i, aux_var in enumerate(cost_function.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
-                    )
-            # CostWeight
-            for i, var in enumerate(cost_function.weight.optim_vars):
-                if var.name in new_objective.cost_weight_optim_vars:
-                    cost_function.weight.set_optim_var_at(
-                        i, new_objective.cost_weight_optim_vars[var.name]
-                    )
-            for i, aux_var in enumerate(cost_function.weight.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.weight.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
+            for function in [cost_function, cost_function.weight]:
+                for i, var in enumerate(function.optim_vars):
+                    function.set_optim_var_at(i, new_vars.setdefault(var.name, var))
+                for i, aux_var in enumerate(function.aux_vars):
+                    function.set_aux_var_at(
+                        i, new_vars.setdefault(aux_var.name, aux_var)
                     )
             new_objective.add(cost_function)
         return new_objective
-- 
2.43.0


From 89caad64f6797695a628f4d18a566313022a96ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 10/62] fix: vectorized error follows the order in which cost
 functions were added

---
 theseus/core/vectorizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 880732e..aa3175d 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -391,11 +391,15 @@ class Vectorize:
         else:
             # If not full vectorization, just copy the containers so that we don't override the
             # permanent cache. The results will be returned in these temp containers.
+            tmp_wrappers = {
+                cf: _CostFunctionWrapper(cf.cost_fn) for cf in self._cost_fn_wrappers
+            }
             schema_dict = {
-                schema: [_CostFunctionWrapper(cf.cost_fn) for cf in cf_list]
+                schema: [tmp_wrappers[cf] for cf in cf_list]
                 for schema, cf_list in self._schema_dict.items()
             }
-            ret = [cf for cf_list in schema_dict.values() for cf in cf_list]
+            # Same order in which the cost functions were added to the objective
+            ret = list(tmp_wrappers.values())
         for schema, cost_fn_wrappers in schema_dict.items():
             if len(cost_fn_wrappers) == 1:
                 self._handle_singleton_wrapper(schema, cost_fn_wrappers, mode)
-- 
2.43.0


From 40344ec71b4826f9a74abb49080ef2000c3c34d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 11/62] fix: disable stale vectorization when the set of cost
 functions changes

---
 theseus/core/objective.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index aab5f87..1a17eab 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -253,6 +253,8 @@ class Objective:
             self.cost_functions[cost_function.name] = cost_function
 
         self.current_version += 1
+        # any existing vectorization doesn't include the new cost function
+        self.disable_vectorization()
         # ----- Book-keeping for the cost function ------- #
         # adds information about the optimization variables in this cost function
         self._add_function_variables(cost_function, optim_vars=True)
@@ -453,6 +455,8 @@ class Objective:
 
             # finally, delete the cost function
             del self.cost_functions[name]
+            # any existing vectorization still includes the erased cost function
+            self.disable_vectorization()
         else:
             warnings.warn(
                 "This cost function is not in the objective, nothing to be done."
-- 
2.43.0


From a1a69ca195df29a6ffaa75037d1dd664d7396915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 12/62] fix: RobustCostFunction with flatten_dims supports a
 batched loss radius

---
 theseus/core/robust_cost_function.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 0cf94d8..fc48363 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -88,13 +88,10 @@ class RobustCostFunction(CostFunction):
 
     def weighted_error(self) -> torch.Tensor:
         weighted_error = self.cost_function.weighted_error()
-        if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
-        squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
-        error_loss = self._evaluate_loss(squared_norm)
+        error_loss = self._evaluate_loss(self._squared_norm(weighted_error))
 
         if self.flatten_dims:
-            return (error_loss.reshape(-1, self.dim()) + RobustCostFunction._EPS).sqrt()
+            return (error_loss + RobustCostFunction._EPS).sqrt()
         # The return value is a hacky way to make it so that
         # ||weighted_error||^2 = error_loss
         # By doing this we avoid having to change the objective's error computation
@@ -119,21 +116,14 @@ class RobustCostFunction(CostFunction):
             weighted_jacobians,
             weighted_error,
         ) = self.cost_function.weighted_jacobians_error()
-        if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
-            for i, wj in enumerate(weighted_jacobians):
-                weighted_jacobians[i] = wj.view(-1, 1, wj.shape[2])
-        squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
+        squared_norm = self._squared_norm(weighted_error)
+        # shape is (batch_size, dim) if `flatten_dims=True`, else (batch_size, 1)
         rescale = (self._linearize(squared_norm) + RobustCostFunction._EPS).sqrt()
 
         rescaled_jacobians = [
-            rescale.view(-1, 1, 1) * jacobian for jacobian in weighted_jacobians
+            rescale.unsqueeze(2) * jacobian for jacobian in weighted_jacobians
         ]
         rescaled_error = rescale * weighted_error
-        if self.flatten_dims:
-            return [
-                rj.reshape(-1, self.dim(), rj.shape[2]) for rj in rescaled_jacobians
-            ], rescaled_error.reshape(-1, self.dim())
         return rescaled_jacobians, rescaled_error
 
     def dim(self) -> int:
@@ -148,6 +138,13 @@ class RobustCostFunction(CostFunction):
             flatten_dims=self.flatten_dims,
         )
 
+    # Argument of the loss. It keeps the batch dimension in place also for
+    # `flatten_dims=True`, so that a batched loss radius can be broadcasted.
+    def _squared_norm(self, weighted_error: torch.Tensor) -> torch.Tensor:
+        if self.flatten_dims:
+            return weighted_error**2
+        return torch.sum(weighted_error**2, dim=1, keepdim=True)
+
     def _evaluate_loss(self, squared_norm: torch.Tensor) -> torch.Tensor:
         return self.loss.evaluate(squared_norm, self.log_loss_radius.tensor)
 
-- 
2.43.0


From 3973ac0685c51e555a4ab6c8165740893f1ff8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 13/62] fix: GPMotionModel.copy returns a GPMotionModel

---
 theseus/embodied/motionmodel/double_integrator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index cbd93a5..793a5eb 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -199,4 +199,12 @@ class GPMotionModel(DoubleIntegrator):
         super().__init__(pose1, vel1, pose2, vel2, dt, cost_weight, name=name)
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "GPMotionModel":
-        return cast(GPMotionModel, super()._copy_impl(new_name=new_name))
+        return GPMotionModel(
+            self.pose1.copy(),
+            self.vel1.copy(),
+            self.pose2.copy(),
+            self.vel2.copy(),
+            self.dt.copy(),
+            cast(GPCostWeight, self.weight.copy()),
+            name=new_name,
+        )
-- 
2.43.0


From 16c9508c5c56b28310f0ead55062c6983f235061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 14/62] fix: Local jacobians cache is consistent with the
 variable's dtype and device

---
 theseus/embodied/misc/local_cost_fn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/embodied/misc/local_cost_fn.py b/theseus/embodied/misc/local_cost_fn.py
index c64666a..ff53e8c 100644
--- a/theseus/embodied/misc/local_cost_fn.py
+++ b/theseus/embodied/misc/local_cost_fn.py
@@ -44,6 +44,8 @@ class Local(CostFunction):
             if (
                 self._jac_cache is not None
                 and self._jac_cache.shape[0] == self.var.shape[0]
+                and self._jac_cache.dtype == self.var.dtype
+                and self._jac_cache.device == self.var.device
             ):
                 jacobian = self._jac_cache
             else:
-- 
2.43.0


From eb7f47c015eeb35060e5662450dd7651884ff45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 15/62] fix: SignedDistanceField2D.update_data also updates the
 field size

---
 theseus/embodied/collision/signed_distance_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/embodied/collision/signed_distance_field.py b/theseus/embodied/collision/signed_distance_field.py
index b49c8a0..d26ca30 100644
--- a/theseus/embodied/collision/signed_distance_field.py
+++ b/theseus/embodied/collision/signed_distance_field.py
@@ -44,8 +44,6 @@ class SignedDistanceField2D:
         self.cell_size: Variable
         self.sdf_data: Variable
         self.update_data(origin, sdf_data, cell_size)
-        self._num_rows = sdf_data.shape[1]
-        self._num_cols = sdf_data.shape[2]
         self.sdf_boundary_value = sdf_boundary_value
 
     def _compute_sdf_data_from_map(
@@ -159,6 +157,8 @@ class SignedDistanceField2D:
 
         # Update sdf_data
         self.sdf_data = SignedDistanceField2D.convert_sdf_data(sdf_data)
+        self._num_rows = self.sdf_data.shape[1]
+        self._num_cols = self.sdf_data.shape[2]
 
     def convert_points_to_cell(
         self, points: torch.Tensor
-- 
2.43.0


From 0f36cd86e36e661e2fe2a988102b7a923c6582e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 16/62] fix: UrdfRobotModel.forward_kinematics works with the
 default link_names

---
 theseus/embodied/kinematics/kinematics_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/kinematics/kinematics_model.py b/theseus/embodied/kinematics/kinematics_model.py
index ab08077..b0efe6c 100644
--- a/theseus/embodied/kinematics/kinematics_model.py
+++ b/theseus/embodied/kinematics/kinematics_model.py
@@ -60,7 +60,8 @@ class UrdfRobotModel(KinematicsModel):
         self.fk, self.jfk_b, self.jfk_s = get_forward_kinematics_fns(
             self.robot, link_names
         )
-        self.link_names = link_names
+        # same default used by the forward kinematics functions (i.e., all links)
+        self.link_names = [link.name for link in self.robot.get_links(link_names)]
 
     def forward_kinematics(  # type: ignore
         self,
-- 
2.43.0


From be61104fd97fd54218099965512ffcab5519f6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 17/62] fix: VariableOrdering.remove keeps the indices of the
 remaining variables consistent

---
 theseus/optimizer/variable_ordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/variable_ordering.py b/theseus/optimizer/variable_ordering.py
index 5156dcd..4b2dd45 100644
--- a/theseus/optimizer/variable_ordering.py
+++ b/theseus/optimizer/variable_ordering.py
@@ -49,7 +49,7 @@ class VariableOrdering:
 
     def remove(self, var: Variable):
         self._var_order.remove(var)
-        del self._var_name_to_index[var.name]
+        self._var_name_to_index = {v.name: i for i, v in enumerate(self._var_order)}
 
     def extend(self, variables: Sequence[Variable]):
         for var in variables:
-- 
2.43.0


From f1d80a3ab1a70a10f3a070b089e867e57e30fb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 18/62] fix: DenseSolver with check_singular supports any dtype

---
 theseus/optimizer/linear/dense_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/linear/dense_solver.py b/theseus/optimizer/linear/dense_solver.py
index e5e58e5..e13c39c 100644
--- a/theseus/optimizer/linear/dense_solver.py
+++ b/theseus/optimizer/linear/dense_solver.py
@@ -92,7 +92,7 @@ class DenseSolver(LinearSolver, abc.ABC):
             AtA = self.linearization.AtA
             Atb = self.linearization.Atb
             with torch.no_grad():
-                output = torch.zeros(AtA.shape[0], AtA.shape[1]).to(AtA.device)
+                output = AtA.new_zeros(AtA.shape[0], AtA.shape[1])
                 _, _, infos = torch.lu(AtA, get_infos=True)
                 good_idx = infos.bool().logical_not()
                 if not good_idx.all():
-- 
2.43.0


From b421b461ba4a152497186b51c9e7279dfeb3108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 19/62] fix: CholmodSolveFunction doesn't truncate double
 precision results

---
 theseus/optimizer/autograd/cholmod_sparse_autograd.py | 8 ++++----
 theseus/optimizer/autograd/common.py                  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/theseus/optimizer/autograd/cholmod_sparse_autograd.py b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
index 9c575df..0969379 100644
--- a/theseus/optimizer/autograd/cholmod_sparse_autograd.py
+++ b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
@@ -48,7 +48,7 @@ class CholmodSolveFunction(torch.autograd.Function):
 
             # solve
             Atb_i = At_i @ b_cpu[i, :]
-            x_cpu[i, :] = torch.Tensor(cholesky_decomposition(Atb_i))
+            x_cpu[i, :] = torch.as_tensor(cholesky_decomposition(Atb_i))
             cholesky_decompositions.append(cholesky_decomposition)
 
         ctx.b_cpu = b_cpu
@@ -118,13 +118,13 @@ class CholmodSolveFunction(torch.autograd.Function):
         grad_output_cpu = grad_output.cpu()
 
         for i in range(batch_size):
-            H[i, :] = torch.Tensor(
+            H[i, :] = torch.as_tensor(
                 ctx.cholesky_decompositions[i](grad_output_cpu[i, :])
             )
 
             A_i = ctx.sparse_structure.csr_straight(ctx.At_val_cpu[i, :])
-            AH[i, :] = torch.Tensor(A_i @ H[i, :])
-            b_Ax[i, :] -= torch.Tensor(A_i @ ctx.x_cpu[i, :])
+            AH[i, :] = torch.as_tensor(A_i @ H[i, :])
+            b_Ax[i, :] -= torch.as_tensor(A_i @ ctx.x_cpu[i, :])
 
         # now we fill values of a matrix with structure identical to A with
         # selected entries from the difference of tensor products:
diff --git a/theseus/optimizer/autograd/common.py b/theseus/optimizer/autograd/common.py
index c75b203..95bceb2 100644
--- a/theseus/optimizer/autograd/common.py
+++ b/theseus/optimizer/autograd/common.py
@@ -23,7 +23,7 @@ def compute_A_grad(
     detach_hessian: bool,
 ):
     A_grad = torch.empty(
-        size=(batch_size, len(A_col_ind)), device=x.device
+        size=(batch_size, len(A_col_ind)), device=x.device, dtype=x.dtype
     )  # return value, A's grad
     for r in range(len(A_row_ptr) - 1):
         start, end = A_row_ptr[r], A_row_ptr[r + 1]
-- 
2.43.0


From 3bc1bb9a05fb04307a60d5c0bea2b7371a6b6e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 20/62] fix: restore the Lie group check context when leaving
 it with an exception

---
 theseus/geometry/lie_group_check.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/lie_group_check.py b/theseus/geometry/lie_group_check.py
index 1305378..7f78fa8 100644
--- a/theseus/geometry/lie_group_check.py
+++ b/theseus/geometry/lie_group_check.py
@@ -50,8 +50,10 @@ def set_lie_group_check_enabled(
     """
     prev = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings)
-    yield
-    _LieGroupCheckContext.set_context(*prev)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(*prev)
 
 
 @contextmanager
@@ -94,5 +96,7 @@ def silence_internal_warnings():
     """
     mode, silent, prev_silence_internal_warnings = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings=True)
-    yield
-    _LieGroupCheckContext.set_context(mode, silent, prev_silence_internal_warnings)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(mode, silent, prev_silence_internal_warnings)
-- 
2.43.0


From a7f42e74f24595a86e9517f325ef592ccdf8264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 21/62] fix: infinite recursion in LieGroupTensor.add_ when Lie
 tangent is disabled

---
 theseus/geometry/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/utils.py b/theseus/geometry/utils.py
index c9504de..fec1a9d 100644
--- a/theseus/geometry/utils.py
+++ b/theseus/geometry/utils.py
@@ -73,7 +73,7 @@ class LieGroupTensor(torch.Tensor):
             grad = group.project(update)
             self.set_(group.retract(alpha * grad).tensor)
         else:
-            self.add_(update, alpha=alpha)
+            super().add_(update, alpha=alpha)
 
         return self
 
-- 
2.43.0


From fb63fd27803b5cc1dcc9b28d98df9871a880c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 22/62] fix: jacobian operators of unsupported unary ops raise
 NotImplementedError

---
 torchlie/torchlie/functional/lie_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/functional/lie_group.py b/torchlie/torchlie/functional/lie_group.py
index 0ed28d4..e544f4e 100644
--- a/torchlie/torchlie/functional/lie_group.py
+++ b/torchlie/torchlie/functional/lie_group.py
@@ -156,7 +156,7 @@ def UnaryOperatorFactory(
 
     def jop(input: torch.Tensor) -> Tuple[List[torch.Tensor], torch.Tensor]:
         _check_jacobians_supported(
-            jop_autograd_fn, module.name, op_name, is_kwarg=False
+            jop_autograd_fn, module.NAME, op_name, is_kwarg=False
         )
         return jop_autograd_fn(input)
 
-- 
2.43.0


From befd006d3c368cf89580db28da1d71e7785c1305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 23/62] fix: SE3.check_hat_tensor checks the last row

---
 torchlie/torchlie/functional/se3_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index 7c51ac8..15277a9 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -50,7 +50,7 @@ def check_tangent_vector(tangent_vector: torch.Tensor):
 
 def check_hat_tensor(tensor: torch.Tensor):
     def _impl(t_: torch.Tensor):
-        if t_[..., -1].abs().max() > LIE_PARAMS.get_eps("se3", "hat", t_.dtype):
+        if t_[..., -1, :].abs().max() > LIE_PARAMS.get_eps("se3", "hat", t_.dtype):
             raise ValueError("The last row for hat tensors of SE3 must be zero")
 
         SO3.check_hat_tensor(t_[..., :3, :3])
-- 
2.43.0


From 09a9364133511df7fa923c4cd14a6ddd86986b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 24/62] fix: as_euclidean only takes effect when the context is
 entered

---
 torchlie/torchlie/lie_tensor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index edf45d4..5ed9494 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -40,13 +40,10 @@ class _LieAsEuclideanContext:
 
 
 class as_euclidean:
-    def __init__(self) -> None:
+    def __enter__(self) -> None:
         self.prev = _LieAsEuclideanContext.get_context()
         _LieAsEuclideanContext.set_context(True)
 
-    def __enter__(self) -> None:
-        pass
-
     def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
         _LieAsEuclideanContext.set_context(self.prev)
 
-- 
2.43.0


From d0aee72f42d6ceb3af206a41ad088e51edb777a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 25/62] fix: LieTensor in-place operations return the tensor

---
 torchlie/torchlie/lie_tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index 5ed9494..3ca930b 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -392,6 +392,7 @@ class LieTensor(_LieTensorBase):
                 f"tensor of type {tensor.ltype}"
             )
         super().set_(tensor)  # type: ignore
+        return self
 
     def add_(self, tensor: torch.Tensor, *, alpha: Number = 1.0):  # type: ignore
         if hasattr(tensor, _EUCLID_GRAD_MARKER):
@@ -400,6 +401,7 @@ class LieTensor(_LieTensorBase):
             self.set_(res)
         else:
             raise RuntimeError(_LIE_TENSOR_GRAD_ERROR_MSG(self.add_))
+        return self
 
     def addcdiv_(
         self, tensor1: torch.Tensor, tensor2: torch.Tensor, value: Number = 1.0  # type: ignore
@@ -412,6 +414,7 @@ class LieTensor(_LieTensorBase):
             self.add_(_EuclideanGrad(value * tensor1 / tensor2))
         else:
             raise RuntimeError(_LIE_TENSOR_GRAD_ERROR_MSG(self.addcdiv_))
+        return self
 
     def addcmul_(
         self, tensor1: torch.Tensor, tensor2: torch.Tensor, value: Number = 1.0  # type: ignore
@@ -424,6 +427,7 @@ class LieTensor(_LieTensorBase):
             self.add_(_EuclideanGrad(value * tensor1 * tensor2))
         else:
             raise RuntimeError(_LIE_TENSOR_GRAD_ERROR_MSG(self.addcmul_))
+        return self
 
 
 # ----------------------------
-- 
2.43.0


From c908e76bbb89a8b4f5b9dcfb068b7351285d7045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 26/62] fix: error message of LieTensor ltype mismatch

---
 torchlie/torchlie/lie_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index 3ca930b..a54f39c 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -239,7 +239,7 @@ class LieTensor(_LieTensorBase):
 
     def _check_ltype(self, other: "LieTensor", op_name: str):
         if other.ltype != self.ltype:
-            raise ValueError("f{op_name} requires both tensors to have same ltype.")
+            raise ValueError(f"{op_name} requires both tensors to have same ltype.")
 
     # Returns a new LieTensor with the given data and the same ltype as self
     def new_lietensor(  # type: ignore
-- 
2.43.0


From 5ccbad5374296f29def70f32cd1377362466ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 27/62] fix: TheseusLayer.compute_samples supports any dtype

---
 theseus/theseus_layer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 814f0a2..4b02e1c 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -115,14 +115,14 @@ class TheseusLayer(nn.Module):
 
         batch_size, n_vars = delta.shape
         y = torch.normal(
-            mean=torch.zeros((n_vars, n_samples), device=delta.device),
-            std=torch.ones((n_vars, n_samples), device=delta.device),
+            mean=delta.new_zeros(n_vars, n_samples),
+            std=delta.new_ones(n_vars, n_samples),
         )
         delta_samples = (torch.linalg.solve_triangular(sqrt_AtA, y, upper=True)) + (
             delta.unsqueeze(-1)
         ).repeat(1, 1, n_samples)
 
-        x_samples = torch.zeros((batch_size, n_vars, n_samples), device=delta.device)
+        x_samples = delta.new_zeros(batch_size, n_vars, n_samples)
         for sidx in range(0, n_samples):
             var_idx = 0
             for var in linear_solver.linearization.ordering:
-- 
2.43.0


From 9a54bb62a4b9a0ff089c3e49724bb606168f27bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 28/62] fix: TheseusLayer.forward doesn't modify the given
 optimizer_kwargs

---
 theseus/theseus_layer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 4b02e1c..560bd90 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -168,8 +168,9 @@ def _forward(
     input_tensors: Dict[str, torch.Tensor],
 ):
     objective.update(input_tensors)
-    optimizer_kwargs[__FROM_THESEUS_LAYER_TOKEN__] = True
-    info = optimizer.optimize(**optimizer_kwargs)
+    info = optimizer.optimize(
+        **{**optimizer_kwargs, __FROM_THESEUS_LAYER_TOKEN__: True}
+    )
     vars = [var.tensor for var in objective.optim_vars.values()]
     return vars, info
 
-- 
2.43.0


From 9082aa33d6ece0a17d66df478bdd094d6d307c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 29/62] fix: TheseusLayer.to also moves the objective used for
 the DLM backward pass

---
 theseus/theseus_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 560bd90..d2857de 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -138,6 +138,8 @@ class TheseusLayer(nn.Module):
     def to(self, *args, **kwargs) -> "TheseusLayer":
         super().to(*args, **kwargs)
         self.objective.to(*args, **kwargs)
+        if self._dlm_bwd_objective is not None:
+            self._dlm_bwd_objective.to(*args, **kwargs)
         return self
 
     @property
-- 
2.43.0


From 8b630b2236cd55e77273a2d0fd3cfebfe6596ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 30/62] fix: DCEM samples use the objective's dtype

---
 theseus/optimizer/nonlinear/dcem.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index abce1e6..ff3b76d 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -86,7 +86,9 @@ class DCEM(NonlinearOptimizer):
     def reset_sigma(self, init_sigma: Union[float, torch.Tensor]) -> None:
         self.sigma = (
             torch.ones(
-                (self.objective.batch_size, self._tot_dof), device=self.objective.device
+                (self.objective.batch_size, self._tot_dof),
+                device=self.objective.device,
+                dtype=self.objective.dtype,
             )
             * init_sigma
         )
@@ -135,9 +137,9 @@ class DCEM(NonlinearOptimizer):
         else:
             indexes_vals = fX.argsort(dim=1)[:, : self.n_elite]
             # Scatter 1.0 to the indexes using indexes_vals
-            indexes = torch.zeros(n_batch, self.n_samples, device=device).scatter_(
-                1, indexes_vals, 1.0
-            )
+            indexes = torch.zeros(
+                n_batch, self.n_samples, device=device, dtype=X.dtype
+            ).scatter_(1, indexes_vals, 1.0)
             indexes = indexes.unsqueeze(2)
             eps = 1e-10
         # indexes.shape should be (n_batch, n_sample, 1)
-- 
2.43.0


From 3da80249b8d115331b86c576211415aa904ca774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 31/62] fix: nan gradients of HingeLoss at zero error

---
 theseus/core/robust_loss.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/theseus/core/robust_loss.py b/theseus/core/robust_loss.py
index 698c4cd..a991b05 100644
--- a/theseus/core/robust_loss.py
+++ b/theseus/core/robust_loss.py
@@ -55,11 +55,14 @@ class HuberLoss(RobustLoss):
 class HingeLoss(RobustLoss):
     @staticmethod
     def _evaluate_impl(x: torch.Tensor, radius: torch.Tensor) -> torch.Tensor:
-        return torch.where(x > radius, torch.sqrt(x) - torch.sqrt(radius), _LOSS_EPS)
+        # clamping doesn't change the value, but avoids nan gradients at x = 0
+        sqrt_x = torch.sqrt(torch.max(x, radius))
+        return torch.where(x > radius, sqrt_x - torch.sqrt(radius), _LOSS_EPS)
 
     @staticmethod
     def _linearize_impl(x: torch.Tensor, radius: torch.Tensor) -> torch.Tensor:
-        return torch.where(x > radius, 1.0 / (2 * torch.sqrt(x) + _LOSS_EPS), 0.0)
+        sqrt_x = torch.sqrt(torch.max(x, radius))
+        return torch.where(x > radius, 1.0 / (2 * sqrt_x + _LOSS_EPS), 0.0)
 
 
 class GNCRobustLoss(RobustLoss, abc.ABC):
-- 
2.43.0


From 4c7dfde019358046e0e12a5a1c0901dda0417a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 32/62] fix: masked_variables supports repeated variables and
 is not partially applied on errors

---
 theseus/core/variable.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index 40e64f1..6067c17 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -139,9 +139,13 @@ class masked_variables:
         self._mask = mask
 
     def __enter__(self) -> None:
-        for v in self._vars:
-            assert v.shape[0] == self._mask.shape[0]
-            v.update(v.tensor[self._mask])
+        # Checked for all before modifying any, since __exit__() is not called if
+        # this method raises an exception
+        for tensor in self._original_tensors:
+            assert tensor.shape[0] == self._mask.shape[0]
+        for v, tensor in zip(self._vars, self._original_tensors):
+            # Masks the original tensor, in case the variable is listed more than once
+            v.update(tensor[self._mask])
 
     def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
         for i, v in enumerate(self._vars):
-- 
2.43.0


From 9438a8776ee4bf3f4595be0678e67a6e6de61d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 33/62] fix: merge best_iter and last_err for truncated and
 implicit backward modes

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 755421f..7c8c112 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -254,6 +254,12 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                 )
             info.best_solution = best_solution
             info.best_err = best_err
+            info.best_iter = torch.where(
+                best_err_no_grad <= best_err_grad,
+                info.best_iter,
+                grad_loop_info.best_iter + num_no_grad_iters,
+            )
+        info.last_err = grad_loop_info.last_err
 
         # Merge the converged status into the info from the detached loop,
         M = info.status == NonlinearOptimizerStatus.MAX_ITERATIONS
-- 
2.43.0


From 2abc56c1cc92d71c3972a2ea31cf7fbdb80fce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 34/62] fix: NonlinearLeastSquares counts the iteration in
 which it converged

---
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index a823f4a..26859c9 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -186,6 +186,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 if all_reject_attempts < NonlinearOptimizer._MAX_ALL_REJECT_ATTEMPTS:
                     continue
             all_reject_attempts = 0
+            iters_done += 1
 
             # check for convergence if at least one step was accepted
             with torch.no_grad():
@@ -206,7 +207,6 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 if end_iter_callback is not None:
                     end_iter_callback(self, info, delta, it_)
 
-            iters_done += 1
             it_ += 1
 
         info.status[
-- 
2.43.0


From 33a29ed7756208cc589e1c491064a95d82cde2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 35/62] fix: last_err is up to date when optimization converges

---
 theseus/optimizer/nonlinear/dcem.py                    | 2 +-
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index ff3b76d..7d4f620 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -192,9 +192,9 @@ class DCEM(NonlinearOptimizer):
                     np.array(converged_indices.cpu().numpy())
                 ] = NonlinearOptimizerStatus.CONVERGED
 
+                info.last_err = err
                 if converged_indices.all():
                     break  # nothing else will happen at this point
-                info.last_err = err
 
                 if end_iter_callback is not None:
                     end_iter_callback(self, info, mu, it_)
diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index 26859c9..1ab1768 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -200,9 +200,9 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 info.status[
                     converged_indices.cpu().numpy()
                 ] = NonlinearOptimizerStatus.CONVERGED
+                info.last_err = err
                 if converged_indices.all():
                     break  # nothing else will happen at this point
-                info.last_err = err
 
                 if end_iter_callback is not None:
                     end_iter_callback(self, info, delta, it_)
-- 
2.43.0


From 4f7d8873d430382e862c06455d91b2e8b9eea0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 36/62] fix: optimizers keep working after moving their
 objective to another device or dtype

---
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index 1ab1768..14cb52b 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -303,6 +303,8 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
     # in the objective.
     def _update_tmp_optim_vars(self):
         for v_tmp, v_order in zip(self._tmp_optim_vars, self.ordering):
+            # the objective might have been moved after this optimizer was created
+            v_tmp.to(device=v_order.device, dtype=v_order.dtype)
             v_tmp.update(v_order.tensor)
 
     def _compute_retracted_tensors_and_error(
-- 
2.43.0


From 274dd8a189c5f26a91ec56e7009fd4843a702e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 37/62] fix: Objective.to discards vectorized results computed
 before moving

---
 theseus/core/objective.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 1a17eab..f4959f8 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -848,6 +848,8 @@ class Objective:
         self.dtype = self.__tensor_ref.dtype
         if self._vectorization_to is not None:
             self._vectorization_to(*args, **kwargs)
+            # results cached before moving are stale
+            self._num_updates_variables = {}
         return self
 
     @staticmethod
-- 
2.43.0


From ed51612be1e0058e571eaed9a7add31f916e97da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 38/62] fix: DenseLinearization adds jacobian blocks of a
 variable used twice by a cost function

---
 theseus/optimizer/dense_linearization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/dense_linearization.py b/theseus/optimizer/dense_linearization.py
index 33caada..e17863e 100644
--- a/theseus/optimizer/dense_linearization.py
+++ b/theseus/optimizer/dense_linearization.py
@@ -50,7 +50,8 @@ class DenseLinearization(Linearization):
                 num_cols = var_jacobian.shape[2]
                 row_slice = slice(err_row_idx, err_row_idx + num_rows)
                 col_slice = slice(var_start_col, var_start_col + num_cols)
-                self.A[:, row_slice, col_slice] = var_jacobian
+                # += because a cost function might use the same variable more than once
+                self.A[:, row_slice, col_slice] += var_jacobian
 
             self.b[:, row_slice] = -error
             err_row_idx += cost_function.dim()
-- 
2.43.0


From c2f27131124d926a8b2f5eeb1abc269315e6b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 39/62] fix: SparseLinearization supports cost functions that
 use a variable more than once

---
 theseus/optimizer/sparse_linearization.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/theseus/optimizer/sparse_linearization.py b/theseus/optimizer/sparse_linearization.py
index 021d434..71b08f1 100644
--- a/theseus/optimizer/sparse_linearization.py
+++ b/theseus/optimizer/sparse_linearization.py
@@ -55,7 +55,12 @@ class SparseLinearization(Linearization):
 
             # sort according to how they will be written inside A
             col_slices_indices.sort()
-            sorted_block_sizes = [(s.stop - s.start) for s, _ in col_slices_indices]
+            # (blocks of a variable used more than once are added in the same place)
+            sorted_slices = [s for s, _ in col_slices_indices]
+            sorted_block_sizes = [
+                0 if s == next_s else (s.stop - s.start)
+                for s, next_s in zip(sorted_slices, [*sorted_slices[1:], None])
+            ]
             sorted_block_pointers = np.cumsum([0] + sorted_block_sizes)[:-1]
             sorted_indices = np.array([i for _, i in col_slices_indices])
             block_pointers: np.ndarray = np.ndarray(
@@ -65,7 +70,11 @@ class SparseLinearization(Linearization):
             cost_function_block_pointers.append(block_pointers)
 
             cost_function_row_block_starts.append(len(A_col_ind))
-            col_ind = [c for s, _ in col_slices_indices for c in range(s.start, s.stop)]
+            col_ind = [
+                c
+                for s, size in zip(sorted_slices, sorted_block_sizes)
+                for c in range(s.stop - size, s.stop)
+            ]
             cost_function_stride.append(len(col_ind))
 
             for _ in range(num_rows):
@@ -104,12 +113,13 @@ class SparseLinearization(Linearization):
         self._Atb = None
         self._AtA_diag = None
 
-        # those will be fully overwritten, no need to zero:
-        self.A_val = torch.empty(
+        # blocks are added to this one
+        self.A_val = torch.zeros(
             size=(self.objective.batch_size, len(self.A_col_ind)),
             device=self.objective.device,
             dtype=self.objective.dtype,
         )
+        # this will be fully overwritten, no need to zero:
         self.b = torch.empty(
             size=(self.objective.batch_size, self.num_rows),
             device=self.objective.device,
@@ -134,7 +144,7 @@ class SparseLinearization(Linearization):
                 # the proper block is written, using the precomputed index in `block_pointers`
                 num_cols = var_jacobian.shape[2]
                 pointer = block_pointers[var_idx_in_cost_function]
-                block[:, :, pointer : pointer + num_cols] = var_jacobian
+                block[:, :, pointer : pointer + num_cols] += var_jacobian
 
             self.b[:, row_slice] = -error
             err_row_idx += cost_function.dim()
-- 
2.43.0


From 77843f61abf6a951bce6713f9841077b4d211b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 40/62] fix: SparseLinearization.diagonal_scaling uses the
 dtype and device of the matrix

---
 theseus/optimizer/sparse_linearization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/sparse_linearization.py b/theseus/optimizer/sparse_linearization.py
index 71b08f1..6bffb0c 100644
--- a/theseus/optimizer/sparse_linearization.py
+++ b/theseus/optimizer/sparse_linearization.py
@@ -199,7 +199,7 @@ class SparseLinearization(Linearization):
         assert v.shape[1] == self.num_cols
         if self._AtA_diag is None:
             A_val = self.A_val
-            self._AtA_diag = torch.zeros(A_val.shape[0], self.num_cols)
+            self._AtA_diag = A_val.new_zeros(A_val.shape[0], self.num_cols)
             for row in range(self.num_rows):
                 start = self.A_row_ptr[row]
                 end = self.A_row_ptr[row + 1]
-- 
2.43.0


From 62140107fb74161b598df46fab2f7ebbc5358a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 41/62] fix: erasing a cost function keeps variables still used
 in their other role

---
 theseus/core/objective.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index f4959f8..673bbcd 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -413,9 +413,14 @@ class Objective:
             del self_var_to_fn_map[variable][cost_fn_idx]
             # if the variable has no other functions, remove it also
             if not self_var_to_fn_map[variable]:
-                del self._all_variables[variable.name]
                 del self_var_to_fn_map[variable]
                 del self_vars_of_this_type[variable.name]
+                # a variable with both roles might still be used with the other one
+                if (
+                    variable not in self.functions_for_optim_vars
+                    and variable not in self.functions_for_aux_vars
+                ):
+                    del self._all_variables[variable.name]
 
     def erase(self, name: str):
         """Removes a cost function from the objective given its name
-- 
2.43.0


From 299ef09a53b26d1ce4a838189848cbf26146ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 42/62] fix: GPCostWeight supports a batch of dt with a single
 Qc_inv

---
 theseus/embodied/motionmodel/double_integrator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index 793a5eb..e154015 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -126,10 +126,12 @@ class GPCostWeight(CostWeight):
         self.register_aux_vars(["Qc_inv", "dt"])
 
     def is_zero(self) -> torch.Tensor:
-        return torch.zeros(self.Qc_inv.shape[0]).bool()
+        batch_size = max(self.Qc_inv.shape[0], self.dt.shape[0])
+        return torch.zeros(batch_size, dtype=torch.bool, device=self.Qc_inv.device)
 
     def _compute_cost_weight(self) -> torch.Tensor:
-        batch_size, dof, _ = self.Qc_inv.shape
+        dof = self.Qc_inv.shape[1]
+        batch_size = max(self.Qc_inv.shape[0], self.dt.shape[0])
         cost_weight = torch.empty(
             batch_size,
             2 * dof,
-- 
2.43.0


From 6ed04ab19899bd96c83b4f666547a274901f9894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 43/62] fix: DoubleIntegrator broadcasts batch size one of any
 of its variables

---
 theseus/embodied/motionmodel/double_integrator.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index e154015..c3dd749 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -53,14 +53,21 @@ class DoubleIntegrator(CostFunction):
     def _error_from_pose_diff(self, pose_diff: torch.Tensor) -> torch.Tensor:
         pose_diff_err = pose_diff - self.dt.tensor.view(-1, 1) * self.vel1.tensor
         vel_diff = self.vel2.tensor - self.vel1.tensor
-        return torch.cat([pose_diff_err, vel_diff], dim=1)
+        batch_size = max(pose_diff_err.shape[0], vel_diff.shape[0])
+        return torch.cat(
+            [pose_diff_err.expand(batch_size, -1), vel_diff.expand(batch_size, -1)],
+            dim=1,
+        )
 
     def error(self) -> torch.Tensor:
         return self._error_from_pose_diff(self._new_pose_diff())
 
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
+        Jlocal: List[torch.Tensor] = []
+        error = self._error_from_pose_diff(self._new_pose_diff(Jlocal))
+
         # Pre-allocate jacobian tensors
-        batch_size = self.pose1.shape[0]
+        batch_size = error.shape[0]
         dof = self.pose1.dof()
         dtype = self.pose1.dtype
         device = self.pose1.device
@@ -69,8 +76,6 @@ class DoubleIntegrator(CostFunction):
         Jerr_pose2 = torch.zeros_like(Jerr_pose1)
         Jerr_vel2 = torch.zeros_like(Jerr_pose1)
 
-        Jlocal: List[torch.Tensor] = []
-        error = self._error_from_pose_diff(self._new_pose_diff(Jlocal))
         Jerr_pose1[:, :dof, :] = Jlocal[0]
         identity = torch.eye(dof, dtype=dtype, device=device).repeat(batch_size, 1, 1)
         Jerr_vel1[:, :dof, :] = -self.dt.tensor.view(-1, 1, 1) * identity
-- 
2.43.0


From dd7e75359ccbd9ee03bd676e5b532a29d1687a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 44/62] fix: HingeCost and Nonholonomic broadcasts batch size
 one of any of its variables

---
 theseus/embodied/motionmodel/misc.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/theseus/embodied/motionmodel/misc.py b/theseus/embodied/motionmodel/misc.py
index 925815e..bd515f5 100644
--- a/theseus/embodied/motionmodel/misc.py
+++ b/theseus/embodied/motionmodel/misc.py
@@ -76,11 +76,9 @@ class HingeCost(CostFunction):
 
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
         error, below_idx, above_idx = self._compute_error()
-        J = self.vector.tensor.new_zeros(
-            self.vector.shape[0], self.vector.dof(), self.vector.dof()
-        )
-        J[below_idx.diag_embed()] = -1.0
-        J[above_idx.diag_embed()] = 1.0
+        J = error.new_zeros(error.shape[0], self.vector.dof(), self.vector.dof())
+        J[below_idx.expand_as(error).diag_embed()] = -1.0
+        J[above_idx.expand_as(error).diag_embed()] = 1.0
         return [J], error
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "HingeCost":
@@ -162,8 +160,8 @@ class Nonholonomic(CostFunction):
         cos: torch.Tensor,
         sin: torch.Tensor,
     ) -> Tuple[torch.Tensor, torch.Tensor]:
-        Jpose = self.vel.tensor.new_zeros(self.vel.shape[0], 1, 3)
-        Jvel = self.vel.tensor.new_zeros(self.vel.shape[0], 1, 3)
+        Jpose = error.new_zeros(error.shape[0], 1, 3)
+        Jvel = error.new_zeros(error.shape[0], 1, 3)
         Jpose[:, 0, 2] = -(self.vel[:, 1] * sin + self.vel[:, 0] * cos)
         Jvel[:, 0, 0] = -sin
         Jvel[:, 0, 1] = cos
-- 
2.43.0


From dba088d762987410b5c8447b65956795bbd2632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 45/62] fix: QuasiStaticPushingPlanar broadcasts batch size one
 of any of its variables

---
 theseus/embodied/motionmodel/quasi_static_pushing_planar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/theseus/embodied/motionmodel/quasi_static_pushing_planar.py b/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
index 2b9e822..cbea6ff 100644
--- a/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
+++ b/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
@@ -3,6 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
+from itertools import chain
 from typing import List, Optional, Tuple, Union, cast
 
 import torch
@@ -41,7 +42,8 @@ class QuasiStaticPushingPlanar(CostFunction):
         self.register_aux_vars(["c_square"])
 
     def _get_tensor_info(self) -> Tuple[int, torch.device, torch.dtype]:
-        return self.obj1.shape[0], self.obj1.device, self.obj1.dtype
+        batch_size = max(v.shape[0] for v in chain(self.optim_vars, self.aux_vars))
+        return batch_size, self.obj1.device, self.obj1.dtype
 
     # See Eqs. 3-7 in Zhou et al.
     def _compute_D(
@@ -235,7 +237,7 @@ class QuasiStaticPushingPlanar(CostFunction):
             get_jacobians=get_jacobians,
         )
 
-        error = torch.bmm(D, V.unsqueeze(2)).squeeze(2) - Vp
+        error = torch.matmul(D, V.unsqueeze(2)).squeeze(2) - Vp
 
         if not get_jacobians:
             return error, None
-- 
2.43.0


From 4056cd7ff62f44361316d6dc39ced69e2ab84248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 46/62] fix: report FAIL when the linear solver fails in the
 last, differentiable iterations

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 7c8c112..142ff52 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -266,6 +266,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         assert np.all(
             (grad_loop_info.status[M] == NonlinearOptimizerStatus.MAX_ITERATIONS)
             | (grad_loop_info.status[M] == NonlinearOptimizerStatus.CONVERGED)
+            | (grad_loop_info.status[M] == NonlinearOptimizerStatus.FAIL)
         )
         info.status[M] = grad_loop_info.status[M]
         info.converged_iter[M] = (
-- 
2.43.0


From f130b64e770ccf1de2694da5d72380e88f1eb34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 47/62] fix: best solution and best iteration come from the
 same loop on ties

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 142ff52..79452e9 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -242,7 +242,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
             best_solution = {}
             best_err_no_grad = info.best_err
             best_err_grad = grad_loop_info.best_err
-            idx_no_grad = (best_err_no_grad < best_err_grad).cpu()
+            idx_no_grad = (best_err_no_grad <= best_err_grad).cpu()
             best_err = torch.minimum(best_err_no_grad, best_err_grad)
             for var_name in info.best_solution:
                 sol_no_grad = info.best_solution[var_name]
-- 
2.43.0


From ac3ed4e2cf30ca62c1c2eb671146fdadd8e75423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 48/62] fix: LM adaptive damping with ellipsoidal scaling fails
 with sparse linearization

The per-batch damping was passed as a (batch, 1) tensor, but the sparse
linearization only scales tensors with one entry per column.
---
 theseus/optimizer/nonlinear/levenberg_marquardt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/levenberg_marquardt.py b/theseus/optimizer/nonlinear/levenberg_marquardt.py
index ce1902a..226406c 100644
--- a/theseus/optimizer/nonlinear/levenberg_marquardt.py
+++ b/theseus/optimizer/nonlinear/levenberg_marquardt.py
@@ -184,7 +184,7 @@ class LevenbergMarquardt(NonlinearLeastSquares):
         assert isinstance(self._damping, torch.Tensor)
         damping = self._damping.view(-1, 1)
         if ellipsoidal_damping:
-            damping = linearization.diagonal_scaling(damping)
+            damping = linearization.diagonal_scaling(damping.expand_as(delta))
         # Deliberately using Atb before updating the variables, according to
         # the LM reference above
         den = (delta * (damping * delta + linearization.Atb.squeeze(2))).sum(dim=1) / 2
-- 
2.43.0


From 3257b85583c763de0922a8b767d4100e1ece2e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 49/62] fix: per-batch damping with check_singular when some
 systems are singular

The damping tensor was not restricted to the systems that are solved.
---
 theseus/optimizer/linear/dense_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theseus/optimizer/linear/dense_solver.py b/theseus/optimizer/linear/dense_solver.py
index e13c39c..3bc59f7 100644
--- a/theseus/optimizer/linear/dense_solver.py
+++ b/theseus/optimizer/linear/dense_solver.py
@@ -103,6 +103,9 @@ class DenseSolver(LinearSolver, abc.ABC):
                     )
             AtA = AtA[good_idx]
             Atb = Atb[good_idx]
+            if isinstance(damping, torch.Tensor) and damping.numel() > 1:
+                # one damping value per batch element
+                damping = damping.view(-1)[good_idx]
             solution = self._apply_damping_and_solve(
                 Atb,
                 AtA,
-- 
2.43.0


From 9b25f0caba8cce152553de90f66d2e4b55e1d3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 50/62] fix: CholmodSparseSolver ignores a requested damping of
 zero

A damping of 0.0 passed to solve() was replaced by the solver's own.
---
 theseus/optimizer/linear/cholmod_sparse_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/linear/cholmod_sparse_solver.py b/theseus/optimizer/linear/cholmod_sparse_solver.py
index 483a8a8..333afa0 100644
--- a/theseus/optimizer/linear/cholmod_sparse_solver.py
+++ b/theseus/optimizer/linear/cholmod_sparse_solver.py
@@ -58,7 +58,7 @@ class CholmodSparseSolver(LinearSolver):
     ) -> torch.Tensor:
         if damping is not None and not isinstance(damping, float):
             raise ValueError("CholmodSparseSolver only supports scalar damping.")
-        damping = damping or self._damping
+        damping = self._damping if damping is None else damping
         if not isinstance(self.linearization, SparseLinearization):
             raise RuntimeError(
                 "CholmodSparseSolver only works with theseus.optimizer.SparseLinearization."
-- 
2.43.0


From 5c71054525c64a03dbcec84e948920828182b174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:25 +0000
Subject: [PATCH 51/62] fix: small-angle series of the SE2 exp_map jacobian

---
 theseus/geometry/se2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 8b26a85..2207c45 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -272,7 +272,7 @@ class SE2(LieGroup):
             SE2._check_jacobians_list(jacobians)
             theta2_nz = torch.where(small_theta, non_zero, theta2)
             theta_minus_sine_by_theta2 = torch.where(
-                small_theta, theta - theta3 / 120, (theta - sine) / theta2_nz
+                small_theta, theta / 6 - theta3 / 120, (theta - sine) / theta2_nz
             )
             cosine_minus_one_by_theta2 = torch.where(
                 small_theta, -0.5 + theta2 / 24, (cosine - 1) / theta2_nz
-- 
2.43.0


From 53fe38e6f95cd79c47f76f9b5d79edc267490abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:52 +0000
Subject: [PATCH 52/62] fix: pass the axis, not the id, to the constructors of
 axis-aligned joints

---
 torchkin/torchkin/joint.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/torchkin/torchkin/joint.py b/torchkin/torchkin/joint.py
index 868bc55..191797f 100644
--- a/torchkin/torchkin/joint.py
+++ b/torchkin/torchkin/joint.py
@@ -306,7 +306,7 @@ class RevoluteJointX(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 0, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 0, id, parent_link, child_link, origin, dtype, device)
 
 
 class RevoluteJointY(_RevoluteJointXYZImpl):
@@ -320,7 +320,7 @@ class RevoluteJointY(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 1, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 1, id, parent_link, child_link, origin, dtype, device)
 
 
 class RevoluteJointZ(_RevoluteJointXYZImpl):
@@ -334,7 +334,7 @@ class RevoluteJointZ(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 2, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 2, id, parent_link, child_link, origin, dtype, device)
 
 
 class _PrismaticJointImpl(Joint):
@@ -457,7 +457,7 @@ class PrismaticJointX(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 0, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 0, id, parent_link, child_link, origin, dtype, device)
 
 
 class PrismaticJointY(_PrismaticJointXYZImpl):
@@ -471,7 +471,7 @@ class PrismaticJointY(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 1, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 1, id, parent_link, child_link, origin, dtype, device)
 
 
 class PrismaticJointZ(_PrismaticJointXYZImpl):
@@ -485,4 +485,4 @@ class PrismaticJointZ(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 2, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 2, id, parent_link, child_link, origin, dtype, device)
-- 
2.43.0


From b04bcfc184b8f52d9fd664cd3f84a4483a800e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:52 +0000
Subject: [PATCH 53/62] fix: batched angles of axis-aligned revolute and
 prismatic joints

---
 torchkin/torchkin/joint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchkin/torchkin/joint.py b/torchkin/torchkin/joint.py
index 191797f..7173279 100644
--- a/torchkin/torchkin/joint.py
+++ b/torchkin/torchkin/joint.py
@@ -285,6 +285,7 @@ class _RevoluteJointXYZImpl(_RevoluteJointImpl):
 
     def _rotation_impl(self, angle: torch.Tensor) -> torch.Tensor:
         info = _RevoluteJointXYZImpl.axis_info[self.axis_id]
+        angle = angle.view(-1)
         rot = angle.new_zeros(angle.shape[0], 3, 3)
         rot[:, info[0], info[0]] = 1
         rot[:, info[1], info[1]] = angle.cos()
@@ -434,7 +435,7 @@ class _PrismaticJointXYZImpl(_PrismaticJointImpl):
 
     def _translation_impl(self, angle: torch.Tensor) -> torch.Tensor:
         trans = angle.new_zeros(angle.shape[0], 3)
-        trans[:, self.axis_id] = angle
+        trans[:, self.axis_id] = angle.view(-1)
         return trans
 
     def _relative_pose_impl(self, angle: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From 815d089a899bda4c27484e6baeb4ba86d2983032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:49 +0000
Subject: [PATCH 54/62] fix: create the default weight and calibration of
 Reprojection on the camera's device

---
 theseus/embodied/measurements/reprojection.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/theseus/embodied/measurements/reprojection.py b/theseus/embodied/measurements/reprojection.py
index 2e7cef9..d553b66 100644
--- a/theseus/embodied/measurements/reprojection.py
+++ b/theseus/embodied/measurements/reprojection.py
@@ -23,7 +23,9 @@ class Reprojection(th.CostFunction):
         name: Optional[str] = None,
     ):
         if weight is None:
-            weight = th.ScaleCostWeight(torch.tensor(1.0).to(dtype=camera_pose.dtype))
+            weight = th.ScaleCostWeight(
+                torch.tensor(1.0).to(device=camera_pose.device, dtype=camera_pose.dtype)
+            )
         super().__init__(
             cost_weight=weight,
             name=name,
@@ -35,12 +37,20 @@ class Reprojection(th.CostFunction):
         batch_size = self.camera_pose.shape[0]
         if self.calib_k1 is None:
             self.calib_k1 = th.Vector(
-                tensor=torch.zeros((batch_size, 1), dtype=camera_pose.dtype),
+                tensor=torch.zeros(
+                    (batch_size, 1),
+                    device=camera_pose.device,
+                    dtype=camera_pose.dtype,
+                ),
                 name="calib_k1",
             )
         if self.calib_k2 is None:
             self.calib_k2 = th.Vector(
-                tensor=torch.zeros((batch_size, 1), dtype=camera_pose.dtype),
+                tensor=torch.zeros(
+                    (batch_size, 1),
+                    device=camera_pose.device,
+                    dtype=camera_pose.dtype,
+                ),
                 name="calib_k2",
             )
         self.world_point = world_point
-- 
2.43.0


From 93e8a5b97db16764441e04786942677a0372a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:00 +0000
Subject: [PATCH 55/62] fix: run the SO3 and SE3 consistency checks when Lie
 group checks are enabled

The checks delegate to torchlie, whose own checks are off unless its
enable_checks() context is active, so invalid data was accepted silently.
---
 theseus/geometry/se3.py |  8 ++++++--
 theseus/geometry/so3.py | 11 ++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/theseus/geometry/se3.py b/theseus/geometry/se3.py
index a212b13..16f71bc 100644
--- a/theseus/geometry/se3.py
+++ b/theseus/geometry/se3.py
@@ -10,6 +10,7 @@ import torch
 
 import theseus.constants
 from torchlie.functional import SE3 as SE3_base
+from torchlie.functional import enable_checks
 
 from .lie_group import LieGroup
 from .lie_group_check import _LieGroupCheckContext, no_lie_group_check
@@ -119,7 +120,9 @@ class SE3(LieGroup):
         if tensor.ndim != 3 or tensor.shape[1:] != (3, 4):
             raise ValueError("SE3 data tensors can only be 3x4 matrices.")
         try:
-            SE3_base.check_group_tensor(tensor)
+            # torchlie checks are off by default
+            with enable_checks():
+                SE3_base.check_group_tensor(tensor)
         except ValueError:
             return False
         return True
@@ -150,7 +153,8 @@ class SE3(LieGroup):
 
         checks_enabled, silent_unchecks, _ = _LieGroupCheckContext.get_context()
         if checks_enabled:
-            return SE3_base.check_hat_tensor(matrix)
+            with enable_checks():
+                SE3_base.check_hat_tensor(matrix)
         elif not silent_unchecks:
             warnings.warn(
                 "Lie group checks are disabled, so the skew-symmetry of hat matrices is "
diff --git a/theseus/geometry/so3.py b/theseus/geometry/so3.py
index a9abfe8..8fe15e2 100644
--- a/theseus/geometry/so3.py
+++ b/theseus/geometry/so3.py
@@ -11,6 +11,7 @@ import torch
 import theseus.constants
 from theseus.global_params import _THESEUS_GLOBAL_PARAMS
 from torchlie.functional import SO3 as SO3_base
+from torchlie.functional import enable_checks
 
 from .lie_group import LieGroup
 from .lie_group_check import _LieGroupCheckContext
@@ -119,7 +120,9 @@ class SO3(LieGroup):
             if tensor.ndim != 3 or tensor.shape[1:] != (3, 3):
                 raise ValueError("SO3 data tensors can only be 3x3 matrices.")
             try:
-                SO3_base.check_group_tensor(tensor)
+                # torchlie checks are off by default
+                with enable_checks():
+                    SO3_base.check_group_tensor(tensor)
             except ValueError:
                 return False
         return True
@@ -131,7 +134,8 @@ class SO3(LieGroup):
 
         checks_enabled, silent_unchecks, _ = _LieGroupCheckContext.get_context()
         if checks_enabled:
-            SO3_base.check_unit_quaternion(quaternion)
+            with enable_checks():
+                SO3_base.check_unit_quaternion(quaternion)
         elif not silent_unchecks:
             warnings.warn(
                 "Lie group checks are disabled, so the validness of unit quaternions is not "
@@ -146,7 +150,8 @@ class SO3(LieGroup):
 
         checks_enabled, silent_unchecks, _ = _LieGroupCheckContext.get_context()
         if checks_enabled:
-            SO3_base.check_hat_tensor(matrix)
+            with enable_checks():
+                SO3_base.check_hat_tensor(matrix)
         elif not silent_unchecks:
             warnings.warn(
                 "Lie group checks are disabled, so the skew-symmetry of hat matrices is "
-- 
2.43.0


From 3e5c1649f2e8839a2d23f79197db2b6e0dbd4872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:38 +0000
Subject: [PATCH 56/62] fix: default so2_norm_eps_float64

---
 theseus/global_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/global_params.py b/theseus/global_params.py
index 1d05ae3..0ee0260 100644
--- a/theseus/global_params.py
+++ b/theseus/global_params.py
@@ -49,8 +49,8 @@ class _TheseusGlobalParams:
         self.se2_near_zero_eps_float32 = 3e-2
         self.se2_d_near_zero_eps_float32 = 1e-1
         self.so3_to_quaternion_sqrt_eps_float32 = 1e-6
-        self.so2_norm_eps_float32 = 1e-12
 
+        self.so2_norm_eps_float64 = 1e-12
         self.so2_matrix_eps_float64 = 4e-7
         self.se2_near_zero_eps_float64 = 1e-6
         self.se2_d_near_zero_eps_float64 = 1e-3
-- 
2.43.0


From 0f98efee943e9aa1aba1685e95d601e41e97a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:30 +0000
Subject: [PATCH 57/62] fix: check the hat matrix in SE3.vee

---
 theseus/geometry/se3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/geometry/se3.py b/theseus/geometry/se3.py
index 16f71bc..6a9d78b 100644
--- a/theseus/geometry/se3.py
+++ b/theseus/geometry/se3.py
@@ -222,6 +222,7 @@ class SE3(LieGroup):
 
     @staticmethod
     def vee(matrix: torch.Tensor) -> torch.Tensor:
+        SE3._hat_matrix_check(matrix)
         return SE3_base.vee(matrix)
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "SE3":
-- 
2.43.0


From 9c4b9d4a0ef2dc9f98d58d191e7f897f661137b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:30 +0000
Subject: [PATCH 58/62] fix: check the whole last row of the hat matrix in
 SE2.vee

---
 theseus/geometry/se2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 2207c45..582f000 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -387,7 +387,7 @@ class SE2(LieGroup):
         _check &= torch.allclose(matrix[:, 0, 1], -matrix[:, 1, 0])
         _check &= matrix[:, 0, 0].abs().max().item() < theseus.constants.EPS
         _check &= matrix[:, 1, 1].abs().max().item() < theseus.constants.EPS
-        _check &= matrix[:, 2, 2].abs().max().item() < theseus.constants.EPS
+        _check &= matrix[:, 2].abs().max().item() < theseus.constants.EPS
         if not _check:
             raise ValueError("Invalid hat matrix for SE2.")
         batch_size = matrix.shape[0]
-- 
2.43.0


From 9d8364d6ea69a19a51f3d54992c97a31399a24c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:05 +0000
Subject: [PATCH 59/62] fix: SE2 logarithm of an exact half turn was nan

---
 theseus/geometry/se2.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 582f000..e94386c 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -174,13 +174,18 @@ class SE2(LieGroup):
             "se2", "near_zero", theta.dtype
         )
         non_zero = torch.ones(1, dtype=self.dtype, device=self.device)
-        sine_nz = torch.where(small_theta, non_zero, sine)
-        half_theta_by_tan_half_theta = (
+        half_theta = 0.5 * theta
+        # theta / sine isn't defined at theta = pi, so use the other half-angle
+        # formula, sine / (1 - cosine), when theta is beyond pi / 2
+        large_theta = cosine < 0
+        sine_nz = torch.where(small_theta.logical_or(large_theta), non_zero, sine)
+        half_theta_by_tan_half_theta = torch.where(
+            large_theta,
+            half_theta * sine / torch.where(large_theta, 1 - cosine, non_zero),
             0.5
             * (1 + cosine)
-            * torch.where(small_theta, 1 + sine**2 / 6, theta / sine_nz)
+            * torch.where(small_theta, 1 + sine**2 / 6, theta / sine_nz),
         )
-        half_theta = 0.5 * theta
 
         # Compute the translation
         ux = half_theta_by_tan_half_theta * self[:, 0] + half_theta * self[:, 1]
-- 
2.43.0


From e76f6d09f1879844624d19e21c6bcc9f91e1d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:05 +0000
Subject: [PATCH 60/62] fix: DCEM gradient was nan when sigma is zero

---
 theseus/optimizer/nonlinear/dcem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index 7d4f620..34777c6 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -151,9 +151,11 @@ class DCEM(NonlinearOptimizer):
         X_I = indexes * X
 
         mu = torch.sum(X_I, dim=1) / self.n_elite
+        # adding eps to avoid sigma=0, which is happening when temp=None. It goes
+        # inside the root so that the gradient is also well defined
         self.sigma = (
-            (indexes * (X - mu.unsqueeze(1)) ** 2).sum(dim=1) / self.n_elite
-        ).sqrt() + eps  # adding eps to avoid sigma=0, which is happening when temp=None
+            (indexes * (X - mu.unsqueeze(1)) ** 2).sum(dim=1) / self.n_elite + eps**2
+        ).sqrt()
 
         assert self.sigma.shape == (n_batch, self._tot_dof)
 
-- 
2.43.0


From 8174a63c3aabc3512f2e0347d22acd83ff86c028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:45 +0000
Subject: [PATCH 61/62] fix: vectorizing an objective again served results the
 new containers never computed

The update counters still matched, so the next update skipped vectorization and
robust costs came from an unfilled cache, weighted twice.
---
 theseus/core/objective.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 673bbcd..a92ba84 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -936,6 +936,9 @@ class Objective:
         self._retract_method = vectorized_retract_fn
         self._get_error_iter = error_iter_fn
         self._vectorized = True
+        # Nothing has been computed yet for the new containers, so the next
+        # update must run vectorization even if no variable changes in between
+        self._num_updates_variables = {}
 
     # Making public, since this should be a safe operation
     def disable_vectorization(self):
-- 
2.43.0


From 7fcd7cc38a4c547ff80d32a9f3cca7b290a614b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:13 +0000
Subject: [PATCH 62/62] fix: LieTensor * composed its operands in reverse order

---
 torchlie/torchlie/lie_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index a54f39c..3ace3e1 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -371,7 +371,7 @@ class LieTensor(_LieTensorBase):
                 f"Incorrect argument for '*' operator. "
                 f"Expected LieTensor, but got {type(other)}"
             )
-        return type_cast(LieTensor, other).compose(self)
+        return self.compose(type_cast(LieTensor, other))
 
     def __matmul__(self, point: TensorType) -> torch.Tensor:
         if isinstance(point, LieTensor):
-- 
2.43.0

