From 4438ed644fca06b382daff6a2915404942f38058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 01/73] fix: keep insertion order of cost function errors in
 vectorized evaluation

---
 theseus/core/vectorizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 880732e..06bc856 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -391,11 +391,15 @@ class Vectorize:
         else:
             # If not full vectorization, just copy the containers so that we don't override the
             # permanent cache. The results will be returned in these temp containers.
+            tmp_wrappers = {
+                cf: _CostFunctionWrapper(cf.cost_fn) for cf in self._cost_fn_wrappers
+            }
             schema_dict = {
-                schema: [_CostFunctionWrapper(cf.cost_fn) for cf in cf_list]
+                schema: [tmp_wrappers[cf] for cf in cf_list]
                 for schema, cf_list in self._schema_dict.items()
             }
-            ret = [cf for cf_list in schema_dict.values() for cf in cf_list]
+            # Keep the order in which cost functions were added to the objective
+            ret = list(tmp_wrappers.values())
         for schema, cost_fn_wrappers in schema_dict.items():
             if len(cost_fn_wrappers) == 1:
                 self._handle_singleton_wrapper(schema, cost_fn_wrappers, mode)
-- 
2.43.0


From 1c01de77e65abd90f1056a40c9a60a1559841544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 02/73] fix: restore every updated variable after a
 non-permanent Objective.error

---
 theseus/core/objective.py | 56 ++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 6b8121f..e8770f8 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -584,32 +584,38 @@ class Objective:
                 concatenation of all cost functions error vectors. The order corresponds
                 to the order in which cost functions were added to the objective.
         """
-        old_tensors = {}
-        if input_tensors is not None:
-            if not also_update:
-                for var in self.optim_vars:
-                    old_tensors[var] = self.optim_vars[var].tensor
-            # Update vectorization only if the input tensors will be used for a
-            # persistent update.
-            self.update(input_tensors=input_tensors, _update_vectorization=also_update)
-
-        # Current behavior when vectorization is on, is to always compute the error.
-        # One could potentially optimize by only recompute when `input_tensors`` is
-        # not None, and serving from the jacobians cache. However, when robust cost
-        # functions are present this results in incorrect rescaling of error terms
-        # so we are currently avoiding this optimization. Optimizers also compute error
-        # by passing `input_tensors`, so for optimizers the current version should be
-        # good enough.
-        error_vector = torch.cat(
-            [cf.weighted_error() for cf in self._get_error_iter()], dim=1
-        )
+        revert = input_tensors is not None and not also_update
+        # Any variable that can be changed by `update()` has to be reverted later
+        old_tensors = {
+            name: self._all_variables[name].tensor
+            for name in (input_tensors if revert else {})
+            if name in self._all_variables
+        }
+        try:
+            if input_tensors is not None:
+                # Update vectorization only if the input tensors will be used for a
+                # persistent update.
+                self.update(
+                    input_tensors=input_tensors, _update_vectorization=also_update
+                )
 
-        if input_tensors is not None and not also_update:
-            # This line reverts back to the old tensors if a persistent update wasn't
-            # required (i.e., `also_update is False`).
-            # In this case, we pass _update_vectorization=False because
-            # vectorization wasn't updated in the first call to `update()`.
-            self.update(old_tensors, _update_vectorization=False)
+            # Current behavior when vectorization is on, is to always compute the error.
+            # One could potentially optimize by only recompute when `input_tensors`` is
+            # not None, and serving from the jacobians cache. However, when robust cost
+            # functions are present this results in incorrect rescaling of error terms
+            # so we are currently avoiding this optimization. Optimizers also compute
+            # error by passing `input_tensors`, so for optimizers the current version
+            # should be good enough.
+            error_vector = torch.cat(
+                [cf.weighted_error() for cf in self._get_error_iter()], dim=1
+            )
+        finally:
+            if revert:
+                # This reverts back to the old tensors if a persistent update wasn't
+                # required (i.e., `also_update is False`).
+                # In this case, we pass _update_vectorization=False because
+                # vectorization wasn't updated in the first call to `update()`.
+                self.update(old_tensors, _update_vectorization=False)
         return error_vector
 
     def error_metric(
-- 
2.43.0


From 3cc3ea9a6cd05af4deab9b499474cf07ce403c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 03/73] fix: adding a cost function twice to an objective is a
 no-op

---
 theseus/core/objective.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index e8770f8..9e0c3ea 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -248,6 +248,7 @@ class Objective:
                     "This cost function has already been added to the objective, "
                     "nothing to be done."
                 )
+                return
         else:
             self.cost_functions[cost_function.name] = cost_function
 
-- 
2.43.0


From de59830ccf451b61c76c72e83aa7f7383440e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 04/73] fix: support batched dt with a single Qc_inv in
 GPCostWeight

---
 theseus/embodied/motionmodel/double_integrator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index cbd93a5..1d83274 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -126,12 +126,16 @@ class GPCostWeight(CostWeight):
         self.register_aux_vars(["Qc_inv", "dt"])
 
     def is_zero(self) -> torch.Tensor:
-        return torch.zeros(self.Qc_inv.shape[0]).bool()
+        return torch.zeros(self._batch_size()).bool()
+
+    # Either Qc_inv or dt (or both) can be batched
+    def _batch_size(self) -> int:
+        return max(self.Qc_inv.shape[0], self.dt.shape[0])
 
     def _compute_cost_weight(self) -> torch.Tensor:
-        batch_size, dof, _ = self.Qc_inv.shape
+        dof = self.Qc_inv.shape[1]
         cost_weight = torch.empty(
-            batch_size,
+            self._batch_size(),
             2 * dof,
             2 * dof,
             dtype=self.Qc_inv.dtype,
-- 
2.43.0


From 3e80cfa4324e6189bc8d69b3723ec637585ff550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 05/73] fix: use the default URDF joint axis when none is given

---
 torchkin/torchkin/robot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchkin/torchkin/robot.py b/torchkin/torchkin/robot.py
index a355930..f0917e5 100644
--- a/torchkin/torchkin/robot.py
+++ b/torchkin/torchkin/robot.py
@@ -101,7 +101,11 @@ class Robot(abc.ABC):
                         origin=origin,
                     )
                 else:
-                    axis = origin.new_tensor(urdf_joint.axis)
+                    # the default axis in the URDF specification is (1, 0, 0)
+                    urdf_axis = urdf_joint.axis
+                    axis = origin.new_tensor(
+                        urdf_axis if urdf_axis is not None else [1.0, 0.0, 0.0]
+                    )
                     joint = joint_type(
                         urdf_joint.name,
                         axis,
-- 
2.43.0


From 7635cde28d57c7c5902be1604546e6f3fff9d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 06/73] fix: UrdfRobotModel without link_names selects all
 links

---
 theseus/embodied/kinematics/kinematics_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/kinematics/kinematics_model.py b/theseus/embodied/kinematics/kinematics_model.py
index ab08077..3905bd1 100644
--- a/theseus/embodied/kinematics/kinematics_model.py
+++ b/theseus/embodied/kinematics/kinematics_model.py
@@ -60,7 +60,8 @@ class UrdfRobotModel(KinematicsModel):
         self.fk, self.jfk_b, self.jfk_s = get_forward_kinematics_fns(
             self.robot, link_names
         )
-        self.link_names = link_names
+        # By default all links are selected, in the same order used by torchkin
+        self.link_names = [link.name for link in self.robot.get_links(link_names)]
 
     def forward_kinematics(  # type: ignore
         self,
-- 
2.43.0


From 1b77176635091dc07d074aff9dd514cf67df8da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 07/73] fix: axis-aligned joint classes of torchkin

---
 torchkin/torchkin/joint.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/torchkin/torchkin/joint.py b/torchkin/torchkin/joint.py
index 868bc55..c906245 100644
--- a/torchkin/torchkin/joint.py
+++ b/torchkin/torchkin/joint.py
@@ -284,6 +284,7 @@ class _RevoluteJointXYZImpl(_RevoluteJointImpl):
         return self._axis_id
 
     def _rotation_impl(self, angle: torch.Tensor) -> torch.Tensor:
+        angle = angle.view(-1)
         info = _RevoluteJointXYZImpl.axis_info[self.axis_id]
         rot = angle.new_zeros(angle.shape[0], 3, 3)
         rot[:, info[0], info[0]] = 1
@@ -306,7 +307,7 @@ class RevoluteJointX(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 0, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 0, id, parent_link, child_link, origin, dtype, device)
 
 
 class RevoluteJointY(_RevoluteJointXYZImpl):
@@ -320,7 +321,7 @@ class RevoluteJointY(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 1, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 1, id, parent_link, child_link, origin, dtype, device)
 
 
 class RevoluteJointZ(_RevoluteJointXYZImpl):
@@ -334,7 +335,7 @@ class RevoluteJointZ(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 2, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 2, id, parent_link, child_link, origin, dtype, device)
 
 
 class _PrismaticJointImpl(Joint):
@@ -434,7 +435,7 @@ class _PrismaticJointXYZImpl(_PrismaticJointImpl):
 
     def _translation_impl(self, angle: torch.Tensor) -> torch.Tensor:
         trans = angle.new_zeros(angle.shape[0], 3)
-        trans[:, self.axis_id] = angle
+        trans[:, self.axis_id] = angle.view(-1)
         return trans
 
     def _relative_pose_impl(self, angle: torch.Tensor) -> torch.Tensor:
@@ -457,7 +458,7 @@ class PrismaticJointX(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 0, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 0, id, parent_link, child_link, origin, dtype, device)
 
 
 class PrismaticJointY(_PrismaticJointXYZImpl):
@@ -471,7 +472,7 @@ class PrismaticJointY(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 1, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 1, id, parent_link, child_link, origin, dtype, device)
 
 
 class PrismaticJointZ(_PrismaticJointXYZImpl):
@@ -485,4 +486,4 @@ class PrismaticJointZ(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 2, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 2, id, parent_link, child_link, origin, dtype, device)
-- 
2.43.0


From 8fe3d3bf7de1ef1bb5ea04f6b81e008e10766089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 08/73] fix: parse edge weights in read_2D_g2o_file

---
 theseus/utils/examples/pose_graph/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/utils/examples/pose_graph/dataset.py b/theseus/utils/examples/pose_graph/dataset.py
index 61272a4..0c35b6b 100644
--- a/theseus/utils/examples/pose_graph/dataset.py
+++ b/theseus/utils/examples/pose_graph/dataset.py
@@ -135,7 +135,7 @@ def read_2D_g2o_file(
 
                 sel = [0, 3, 5]
                 weight = th.Variable(
-                    torch.from_numpy(np.array(1, tokens[6:], dtype=np.float64)[sel])
+                    torch.from_numpy(np.array(tokens[6:], dtype=np.float64)[sel])
                     .to(dtype)
                     .sqrt()
                     .view(1, -1)
-- 
2.43.0


From 0f92f4723bd86471cb9b2ebdc8aa3943170a8dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 09/73] fix: do not swap ground truth cameras and points when
 loading BAL files

---
 theseus/utils/examples/bundle_adjustment/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/utils/examples/bundle_adjustment/data.py b/theseus/utils/examples/bundle_adjustment/data.py
index a981e84..24cd224 100644
--- a/theseus/utils/examples/bundle_adjustment/data.py
+++ b/theseus/utils/examples/bundle_adjustment/data.py
@@ -231,7 +231,7 @@ class BundleAdjustmentDataset:
     def load_from_file(path, gt_path: Optional[str] = None):
         cameras, points, observations = BundleAdjustmentDataset.load_bal_dataset(path)
         if gt_path is not None:
-            gt_points, gt_cameras, _ = BundleAdjustmentDataset.load_bal_dataset(gt_path)
+            gt_cameras, gt_points, _ = BundleAdjustmentDataset.load_bal_dataset(gt_path)
         else:
             gt_points, gt_cameras = None, None
         return BundleAdjustmentDataset(
-- 
2.43.0


From 64ea9374008f050ced5e243c042090f662a7f8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 10/73] fix: dtype and batched damping of dense solvers with
 check_singular

---
 theseus/optimizer/linear/dense_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/linear/dense_solver.py b/theseus/optimizer/linear/dense_solver.py
index e5e58e5..dc4a159 100644
--- a/theseus/optimizer/linear/dense_solver.py
+++ b/theseus/optimizer/linear/dense_solver.py
@@ -92,7 +92,7 @@ class DenseSolver(LinearSolver, abc.ABC):
             AtA = self.linearization.AtA
             Atb = self.linearization.Atb
             with torch.no_grad():
-                output = torch.zeros(AtA.shape[0], AtA.shape[1]).to(AtA.device)
+                output = AtA.new_zeros(AtA.shape[0], AtA.shape[1])
                 _, _, infos = torch.lu(AtA, get_infos=True)
                 good_idx = infos.bool().logical_not()
                 if not good_idx.all():
@@ -103,6 +103,8 @@ class DenseSolver(LinearSolver, abc.ABC):
                     )
             AtA = AtA[good_idx]
             Atb = Atb[good_idx]
+            if isinstance(damping, torch.Tensor) and damping.numel() > 1:
+                damping = damping.view(-1)[good_idx.to(damping.device)]
             solution = self._apply_damping_and_solve(
                 Atb,
                 AtA,
-- 
2.43.0


From 4bef9f48cea0471593019ed02f844d86680124f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 11/73] fix: keep float64 precision in the cholmod solver and
 its backward

---
 theseus/optimizer/autograd/cholmod_sparse_autograd.py | 8 ++++----
 theseus/optimizer/autograd/common.py                  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/theseus/optimizer/autograd/cholmod_sparse_autograd.py b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
index 9c575df..0969379 100644
--- a/theseus/optimizer/autograd/cholmod_sparse_autograd.py
+++ b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
@@ -48,7 +48,7 @@ class CholmodSolveFunction(torch.autograd.Function):
 
             # solve
             Atb_i = At_i @ b_cpu[i, :]
-            x_cpu[i, :] = torch.Tensor(cholesky_decomposition(Atb_i))
+            x_cpu[i, :] = torch.as_tensor(cholesky_decomposition(Atb_i))
             cholesky_decompositions.append(cholesky_decomposition)
 
         ctx.b_cpu = b_cpu
@@ -118,13 +118,13 @@ class CholmodSolveFunction(torch.autograd.Function):
         grad_output_cpu = grad_output.cpu()
 
         for i in range(batch_size):
-            H[i, :] = torch.Tensor(
+            H[i, :] = torch.as_tensor(
                 ctx.cholesky_decompositions[i](grad_output_cpu[i, :])
             )
 
             A_i = ctx.sparse_structure.csr_straight(ctx.At_val_cpu[i, :])
-            AH[i, :] = torch.Tensor(A_i @ H[i, :])
-            b_Ax[i, :] -= torch.Tensor(A_i @ ctx.x_cpu[i, :])
+            AH[i, :] = torch.as_tensor(A_i @ H[i, :])
+            b_Ax[i, :] -= torch.as_tensor(A_i @ ctx.x_cpu[i, :])
 
         # now we fill values of a matrix with structure identical to A with
         # selected entries from the difference of tensor products:
diff --git a/theseus/optimizer/autograd/common.py b/theseus/optimizer/autograd/common.py
index c75b203..95bceb2 100644
--- a/theseus/optimizer/autograd/common.py
+++ b/theseus/optimizer/autograd/common.py
@@ -23,7 +23,7 @@ def compute_A_grad(
     detach_hessian: bool,
 ):
     A_grad = torch.empty(
-        size=(batch_size, len(A_col_ind)), device=x.device
+        size=(batch_size, len(A_col_ind)), device=x.device, dtype=x.dtype
     )  # return value, A's grad
     for r in range(len(A_row_ptr) - 1):
         start, end = A_row_ptr[r], A_row_ptr[r + 1]
-- 
2.43.0


From 2b7b14f1dbc48dbf0a9bd3aa1c0e5b33761e8e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 12/73] fix: keep the dtype in
 SparseLinearization.diagonal_scaling

---
 theseus/optimizer/sparse_linearization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/sparse_linearization.py b/theseus/optimizer/sparse_linearization.py
index 021d434..6bebff2 100644
--- a/theseus/optimizer/sparse_linearization.py
+++ b/theseus/optimizer/sparse_linearization.py
@@ -189,7 +189,7 @@ class SparseLinearization(Linearization):
         assert v.shape[1] == self.num_cols
         if self._AtA_diag is None:
             A_val = self.A_val
-            self._AtA_diag = torch.zeros(A_val.shape[0], self.num_cols)
+            self._AtA_diag = A_val.new_zeros(A_val.shape[0], self.num_cols)
             for row in range(self.num_rows):
                 start = self.A_row_ptr[row]
                 end = self.A_row_ptr[row + 1]
-- 
2.43.0


From a408ec37328850fc4ed56068aeaa4ff5dc61ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 13/73] fix: singleton batches in dense and loop_batch autodiff
 jacobians

---
 theseus/core/cost_function.py | 43 +++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 29482aa..8c1e04f 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -321,14 +321,14 @@ class AutoDiffCostFunction(CostFunction):
         aux_tensors: Tuple[torch.Tensor, ...],
         jac_fn: Callable,
     ) -> Tuple[torch.Tensor, ...]:
-        def _expand_all(
-            tensors: Tuple[torch.Tensor, ...], batch_size: int
-        ) -> Tuple[torch.Tensor, ...]:
-            return tuple(
-                t if t.shape[0] == batch_size else t.expand((batch_size,) + t.shape[1:])
-                for t in tensors
-            )
+        optim_tensors, aux_tensors = self._expand_all(optim_tensors, aux_tensors)
+        return vmap(jacrev(jac_fn, argnums=0))(optim_tensors, aux_tensors)
 
+    # Expands all singleton batch dimensions to the full batch size
+    @staticmethod
+    def _expand_all(
+        optim_tensors: Tuple[torch.Tensor, ...], aux_tensors: Tuple[torch.Tensor, ...]
+    ) -> Tuple[Tuple[torch.Tensor, ...], Tuple[torch.Tensor, ...]]:
         batch_sizes = set(t.shape[0] for t in chain(optim_tensors, aux_tensors))
         # Using an assert instead of exception because Objective already
         # takes care of throwing an appropriate error message if this happens
@@ -336,9 +336,16 @@ class AutoDiffCostFunction(CostFunction):
             len(batch_sizes) == 2 and min(batch_sizes) == 1
         )
         batch_size = max(batch_sizes)
-        optim_tensors = _expand_all(optim_tensors, batch_size)
-        aux_tensors = _expand_all(aux_tensors, batch_size)
-        return vmap(jacrev(jac_fn, argnums=0))(optim_tensors, aux_tensors)
+
+        def _expand(t: torch.Tensor) -> torch.Tensor:
+            if t.shape[0] == batch_size:
+                return t
+            return t.expand((batch_size,) + t.shape[1:])
+
+        return (
+            tuple(_expand(t) for t in optim_tensors),
+            tuple(_expand(t) for t in aux_tensors),
+        )
 
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
         err, optim_vars, aux_vars = self._compute_error()
@@ -359,12 +366,15 @@ class AutoDiffCostFunction(CostFunction):
                 )
         elif self._autograd_mode == AutogradMode.LOOP_BATCH:
             jacobians_raw_loop: List[Tuple[torch.Tensor, ...]] = []
-            for n in range(optim_vars[0].shape[0]):
-                for i, aux_var in enumerate(aux_vars):
-                    self._tmp_aux_vars_for_loop[i].update(aux_var.tensor[n : n + 1])
+            optim_tensors, aux_tensors = self._expand_all(
+                tuple(v.tensor for v in optim_vars), tuple(v.tensor for v in aux_vars)
+            )
+            for n in range(optim_tensors[0].shape[0]):
+                for i, aux_tensor in enumerate(aux_tensors):
+                    self._tmp_aux_vars_for_loop[i].update(aux_tensor[n : n + 1])
 
                 jacobians_n = self._compute_autograd_jacobian(
-                    tuple(v.tensor[n : n + 1] for v in optim_vars),
+                    tuple(t[n : n + 1] for t in optim_tensors),
                     self._make_jac_fn(
                         self._tmp_optim_vars_for_loop, self._tmp_aux_vars_for_loop
                     ),
@@ -379,8 +389,11 @@ class AutoDiffCostFunction(CostFunction):
                 for k in range(len(optim_vars))
             )
         else:
+            optim_tensors, _ = self._expand_all(
+                tuple(v.tensor for v in optim_vars), tuple(v.tensor for v in aux_vars)
+            )
             jacobians_raw = self._compute_autograd_jacobian(
-                tuple(v.tensor for v in optim_vars),
+                optim_tensors,
                 self._make_jac_fn(self._tmp_optim_vars, aux_vars),
             )
             aux_idx = torch.arange(err.shape[0])  # batch_size
-- 
2.43.0


From 2d50d618d9d7eae33b6380ca4916cf63b1eef16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 14/73] fix: AutoDiffCostFunction copies keep their autograd
 options

---
 theseus/core/cost_function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 8c1e04f..baf821e 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -416,6 +416,10 @@ class AutoDiffCostFunction(CostFunction):
             aux_vars=[v.copy() for v in self.aux_vars],
             cost_weight=self.weight.copy(),
             name=new_name,
+            autograd_create_graph=self._autograd_create_graph,
+            autograd_strict=self._autograd_strict,
+            autograd_vectorize=self._autograd_vectorize,
+            autograd_strategy=self._autograd_strategy,
             autograd_mode=self._autograd_mode,
         )
 
-- 
2.43.0


From bd5e5aacda7361219bb712f7ef6607033b9909cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 15/73] fix: restore Lie group check contexts when the body
 raises

---
 theseus/geometry/lie_group_check.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/lie_group_check.py b/theseus/geometry/lie_group_check.py
index 1305378..7f78fa8 100644
--- a/theseus/geometry/lie_group_check.py
+++ b/theseus/geometry/lie_group_check.py
@@ -50,8 +50,10 @@ def set_lie_group_check_enabled(
     """
     prev = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings)
-    yield
-    _LieGroupCheckContext.set_context(*prev)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(*prev)
 
 
 @contextmanager
@@ -94,5 +96,7 @@ def silence_internal_warnings():
     """
     mode, silent, prev_silence_internal_warnings = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings=True)
-    yield
-    _LieGroupCheckContext.set_context(mode, silent, prev_silence_internal_warnings)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(mode, silent, prev_silence_internal_warnings)
-- 
2.43.0


From 9afbde630b5492ccc49dfb3cbf46bdf870af740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 16/73] fix: restore temporary autodiff variables when the
 error function raises

---
 theseus/core/cost_function.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index baf821e..4a15eaa 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -183,9 +183,11 @@ class AutogradMode(Enum):
 @contextlib.contextmanager
 def _tmp_tensors(vars: Sequence[Variable]):
     tensors = [v.tensor for v in vars]
-    yield
-    for v, tensor in zip(vars, tensors):
-        v.update(tensor)
+    try:
+        yield
+    finally:
+        for v, tensor in zip(vars, tensors):
+            v.update(tensor)
 
 
 # The error function is assumed to receive variables in the format
-- 
2.43.0


From 90a5812c55f6c12e202ea7552cf9ce7e207bbf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 17/73] fix: small-angle series in the SE2 exponential map
 jacobian

---
 theseus/geometry/se2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 8b26a85..2207c45 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -272,7 +272,7 @@ class SE2(LieGroup):
             SE2._check_jacobians_list(jacobians)
             theta2_nz = torch.where(small_theta, non_zero, theta2)
             theta_minus_sine_by_theta2 = torch.where(
-                small_theta, theta - theta3 / 120, (theta - sine) / theta2_nz
+                small_theta, theta / 6 - theta3 / 120, (theta - sine) / theta2_nz
             )
             cosine_minus_one_by_theta2 = torch.where(
                 small_theta, -0.5 + theta2 / 24, (cosine - 1) / theta2_nz
-- 
2.43.0


From 92ca8989cd10ab3726644bbc0b2bca47debc8759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 18/73] fix: LieGroupTensor.add_ outside of the tangent context
 recursed forever

---
 theseus/geometry/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/utils.py b/theseus/geometry/utils.py
index c9504de..fec1a9d 100644
--- a/theseus/geometry/utils.py
+++ b/theseus/geometry/utils.py
@@ -73,7 +73,7 @@ class LieGroupTensor(torch.Tensor):
             grad = group.project(update)
             self.set_(group.retract(alpha * grad).tensor)
         else:
-            self.add_(update, alpha=alpha)
+            super().add_(update, alpha=alpha)
 
         return self
 
-- 
2.43.0


From 3985c4609adaa29932c7b5593584037d98395faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 19/73] fix: logarithm and quaternion near pi when two diagonal
 entries tie

---
 theseus/geometry/so3.py                  | 2 +-
 torchlie/torchlie/functional/so3_impl.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/geometry/so3.py b/theseus/geometry/so3.py
index a9abfe8..f3ff8b0 100644
--- a/theseus/geometry/so3.py
+++ b/theseus/geometry/so3.py
@@ -210,7 +210,7 @@ class SO3(LieGroup):
         ddiag = torch.diagonal(self.tensor, dim1=1, dim2=2)
         # Find the index of major coloumns and diagonals
         major = torch.logical_and(
-            ddiag[:, 1] > ddiag[:, 0], ddiag[:, 1] > ddiag[:, 2]
+            ddiag[:, 1] > ddiag[:, 0], ddiag[:, 1] >= ddiag[:, 2]
         ) + 2 * torch.logical_and(ddiag[:, 2] > ddiag[:, 0], ddiag[:, 2] > ddiag[:, 1])
         aux = torch.ones(self.shape[0], dtype=torch.bool)
         sel_rows = 0.5 * (self[aux, major] + self[aux, :, major])
diff --git a/torchlie/torchlie/functional/so3_impl.py b/torchlie/torchlie/functional/so3_impl.py
index 538af86..64d3cf0 100644
--- a/torchlie/torchlie/functional/so3_impl.py
+++ b/torchlie/torchlie/functional/so3_impl.py
@@ -411,7 +411,7 @@ def _log_impl_helper(group: torch.Tensor):
     ddiag = torch.diagonal(group, dim1=-1, dim2=-2)
     # Find the index of major columns and diagonals
     major = torch.logical_and(
-        ddiag[..., 1] > ddiag[..., 0], ddiag[..., 1] > ddiag[..., 2]
+        ddiag[..., 1] > ddiag[..., 0], ddiag[..., 1] >= ddiag[..., 2]
     ) + 2 * torch.logical_and(
         ddiag[..., 2] > ddiag[..., 0], ddiag[..., 2] > ddiag[..., 1]
     )
-- 
2.43.0


From 0bc7ea4638ab37b7a57bb5f12b299d06c4d9f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 20/73] fix: SE2 logarithm of rotations near and at pi

---
 theseus/geometry/se2.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 2207c45..d672835 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -174,11 +174,15 @@ class SE2(LieGroup):
             "se2", "near_zero", theta.dtype
         )
         non_zero = torch.ones(1, dtype=self.dtype, device=self.device)
-        sine_nz = torch.where(small_theta, non_zero, sine)
-        half_theta_by_tan_half_theta = (
-            0.5
-            * (1 + cosine)
-            * torch.where(small_theta, 1 + sine**2 / 6, theta / sine_nz)
+        # tan(theta / 2) is sine / (1 + cosine) or (1 - cosine) / sine, and only one of
+        # these is well conditioned when theta is near to pi
+        obtuse = cosine < 0
+        sine_nz = torch.where(torch.logical_or(small_theta, obtuse), non_zero, sine)
+        half_theta_by_tan_half_theta = 0.5 * torch.where(
+            obtuse,
+            theta * sine / (1 - torch.where(obtuse, cosine, -non_zero)),
+            (1 + cosine)
+            * torch.where(small_theta, 1 + sine**2 / 6, theta / sine_nz),
         )
         half_theta = 0.5 * theta
 
-- 
2.43.0


From 25f9cb85c0b3e8f204de68b6c6846e97bdb937c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 21/73] fix: torchlie functional j-operators of unary ops
 raised AttributeError

---
 torchlie/torchlie/functional/lie_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/functional/lie_group.py b/torchlie/torchlie/functional/lie_group.py
index 0ed28d4..e544f4e 100644
--- a/torchlie/torchlie/functional/lie_group.py
+++ b/torchlie/torchlie/functional/lie_group.py
@@ -156,7 +156,7 @@ def UnaryOperatorFactory(
 
     def jop(input: torch.Tensor) -> Tuple[List[torch.Tensor], torch.Tensor]:
         _check_jacobians_supported(
-            jop_autograd_fn, module.name, op_name, is_kwarg=False
+            jop_autograd_fn, module.NAME, op_name, is_kwarg=False
         )
         return jop_autograd_fn(input)
 
-- 
2.43.0


From 6f8472c2194feb3c5bd94b3498cfba96c8c24af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 22/73] fix: SE3 untransform backward with singleton point
 batches

---
 torchlie/torchlie/functional/se3_impl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index 7c51ac8..91866e4 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -854,11 +854,10 @@ class Untransform(lie_group.BinaryOperator):
         tensor: torch.Tensor = ctx.saved_tensors[1]
         tmp_tensor = tensor.unsqueeze(-1) - group[..., -1:]
         grad_output: torch.Tensor = grad_output.unsqueeze(-1)
-        tensor_size = get_transform_tensor_size(tensor)
         grad_input1 = group[..., :3] @ grad_output
         grad_input0 = torch.cat(
             (
-                tmp_tensor.view(*tensor_size, 3, 1) @ grad_output.transpose(-1, -2),
+                tmp_tensor @ grad_output.transpose(-1, -2),
                 -grad_input1,
             ),
             dim=-1,
-- 
2.43.0


From c3cd84ccd65470462f15c249e38af708e033c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 23/73] fix: LieTensor product composes its operands in the
 written order

---
 torchlie/torchlie/lie_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index edf45d4..5e518ce 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -374,7 +374,7 @@ class LieTensor(_LieTensorBase):
                 f"Incorrect argument for '*' operator. "
                 f"Expected LieTensor, but got {type(other)}"
             )
-        return type_cast(LieTensor, other).compose(self)
+        return self.compose(type_cast(LieTensor, other))
 
     def __matmul__(self, point: TensorType) -> torch.Tensor:
         if isinstance(point, LieTensor):
-- 
2.43.0


From 87ea77d36ea9765dd4e3c6649705d121aa90bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 24/73] fix: SO3 normalize gradient with repeated singular
 values

---
 torchlie/torchlie/functional/so3_impl.py | 46 ++++++------------------
 1 file changed, 10 insertions(+), 36 deletions(-)

diff --git a/torchlie/torchlie/functional/so3_impl.py b/torchlie/torchlie/functional/so3_impl.py
index 64d3cf0..8be2521 100644
--- a/torchlie/torchlie/functional/so3_impl.py
+++ b/torchlie/torchlie/functional/so3_impl.py
@@ -1152,42 +1152,16 @@ def _normalize_backward_helper(
     sign: torch.Tensor,
     grad_output: torch.Tensor,
 ) -> torch.Tensor:
-    def _skew_symm(tensor: torch.Tensor) -> torch.Tensor:
-        return tensor - tensor.transpose(-1, -2)
-
-    size = u.shape[:-2]
-    ut = u.transpose(-1, -2)
-    vt = v.transpose(-1, -2)
-    grad_u: torch.Tensor = grad_output @ torch.cat(
-        (v[..., :2], v[..., 2:] @ sign), dim=-1
-    )
-    grad_v: torch.Tensor = grad_output.transpose(-1, -2) @ torch.cat(
-        (u[..., :2], u[..., 2:] @ sign), dim=-1
-    )
-    s_squared: torch.Tensor = s.pow(2)
-    F = s_squared.view(*size, 1, 3).expand(*size, 3, 3) - s_squared.view(
-        *size, 3, 1
-    ).expand(*size, 3, 3)
-    F = torch.where(F == 0, constants._INF, F)
-    F = F.pow(-1)
-
-    u_term: torch.Tensor = u @ (F * _skew_symm(ut @ grad_u))
-    # The next 3 lines are equivalent to u_term = torch.einsum("n...ij, n...j->n...ij", u_term, s).
-    # This implementation is compatible for vectorize=True in torch.autograd.functional.jacobian.
-    permuted_u_term_dim = permute_op_dim(u_term.dim(), 1, 1)
-    unpermuted_u_term_dim = unpermute_op_dim(u_term.dim(), 1, 1)
-    u_term = (u_term.permute(permuted_u_term_dim) * s).permute(unpermuted_u_term_dim)
-    u_term = u_term @ vt
-
-    v_term: torch.Tensor = (F * _skew_symm(vt @ grad_v)) @ vt
-    # The next 3 lines are equivalent to v_term = torch.einsum("n...i, n...ij->n...ij", s, v_term).
-    # This implementation is compatible for vectorize=True in torch.autograd.functional.jacobian.
-    permuted_v_term_dim = permute_op_dim(v_term.dim(), 1, 0)
-    unpermuted_v_term_dim = unpermute_op_dim(v_term.dim(), 1, 0)
-    v_term = (s * v_term.permute(permuted_v_term_dim)).permute(unpermuted_v_term_dim)
-    v_term = u @ v_term
-
-    return u_term + v_term
+    # With tensor = u @ diag(sigma) @ rt, where sigma and rt absorb the sign, a
+    # perturbation d(tensor) rotates the polar factor by the skew-symmetric matrix
+    # skew(ut @ d(tensor) @ r)_ij / (sigma_i + sigma_j), which unlike the derivatives
+    # of u and v is also well defined for repeated singular values.
+    sigma = torch.cat((s[..., :2], s[..., 2:] * sign.squeeze(-1)), dim=-1)
+    r = torch.cat((v[..., :2], v[..., 2:] @ sign), dim=-1)
+    denom = sigma.unsqueeze(-1) + sigma.unsqueeze(-2)
+    denom = torch.where(denom == 0, constants._INF, denom)
+    z = u.transpose(-1, -2) @ grad_output @ r
+    return u @ ((z - z.transpose(-1, -2)) / denom) @ r.transpose(-1, -2)
 
 
 class Normalize(lie_group.UnaryOperator):
-- 
2.43.0


From f37f5130830733de75e1099057e33593b7a0c812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 25/73] fix: Objective.error with cost functions having only
 singleton batch variables

---
 theseus/core/objective.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 9e0c3ea..04be19b 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -607,9 +607,10 @@ class Objective:
             # so we are currently avoiding this optimization. Optimizers also compute
             # error by passing `input_tensors`, so for optimizers the current version
             # should be good enough.
-            error_vector = torch.cat(
-                [cf.weighted_error() for cf in self._get_error_iter()], dim=1
-            )
+            errors = [cf.weighted_error() for cf in self._get_error_iter()]
+            # Expand the errors of cost functions with only singleton batch variables
+            batch_size = max((e.shape[0] for e in errors), default=1)
+            error_vector = torch.cat([e.expand(batch_size, -1) for e in errors], dim=1)
         finally:
             if revert:
                 # This reverts back to the old tensors if a persistent update wasn't
-- 
2.43.0


From 7d39204ff0f6444be3f1232f9c417a3edcbf9e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 26/73] fix: per-dimension robust costs with batched loss
 radius

---
 theseus/core/robust_cost_function.py | 29 ++++++++++++----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 8198fcb..dbf96be 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -84,15 +84,19 @@ class RobustCostFunction(CostFunction):
         )
         return self.weighted_error()
 
+    # The argument of the loss, with shape (batch_size, dim) if the loss is applied to
+    # each dimension of the error, and (batch_size, 1) otherwise.
+    def _squared_norm(self, weighted_error: torch.Tensor) -> torch.Tensor:
+        if self.flatten_dims:
+            return weighted_error**2
+        return torch.sum(weighted_error**2, dim=1, keepdim=True)
+
     def weighted_error(self) -> torch.Tensor:
         weighted_error = self.cost_function.weighted_error()
-        if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
-        squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
-        error_loss = self._evaluate_loss(squared_norm)
+        error_loss = self._evaluate_loss(self._squared_norm(weighted_error))
 
         if self.flatten_dims:
-            return (error_loss.reshape(-1, self.dim()) + RobustCostFunction._EPS).sqrt()
+            return (error_loss + RobustCostFunction._EPS).sqrt()
         # The return value is a hacky way to make it so that
         # ||weighted_error||^2 = error_loss
         # By doing this we avoid having to change the objective's error computation
@@ -117,22 +121,13 @@ class RobustCostFunction(CostFunction):
             weighted_jacobians,
             weighted_error,
         ) = self.cost_function.weighted_jacobians_error()
-        if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
-            for i, wj in enumerate(weighted_jacobians):
-                weighted_jacobians[i] = wj.view(-1, 1, wj.shape[2])
-        squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
+        squared_norm = self._squared_norm(weighted_error)
         rescale = (self._linearize(squared_norm) + RobustCostFunction._EPS).sqrt()
 
         rescaled_jacobians = [
-            rescale.view(-1, 1, 1) * jacobian for jacobian in weighted_jacobians
+            rescale.unsqueeze(2) * jacobian for jacobian in weighted_jacobians
         ]
-        rescaled_error = rescale * weighted_error
-        if self.flatten_dims:
-            return [
-                rj.reshape(-1, self.dim(), rj.shape[2]) for rj in rescaled_jacobians
-            ], rescaled_error.reshape(-1, self.dim())
-        return rescaled_jacobians, rescaled_error
+        return rescaled_jacobians, rescale * weighted_error
 
     def dim(self) -> int:
         return self.cost_function.dim()
-- 
2.43.0


From bb7a7dde36b8e4ac836b4318d345d6d94a30059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 27/73] fix: vectorizing an objective again did not refresh its
 caches

---
 theseus/core/objective.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 04be19b..984272c 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -941,6 +941,8 @@ class Objective:
         self._retract_method = vectorized_retract_fn
         self._get_error_iter = error_iter_fn
         self._vectorized = True
+        # Results cached by any previous vectorization are not in the new containers
+        self._num_updates_variables = {}
 
     # Making public, since this should be a safe operation
     def disable_vectorization(self):
-- 
2.43.0


From eb0e9e7aa2ed95426ae5809216efe4be52802c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 28/73] fix: masked jacobians when all the weights of the batch
 are zero

---
 theseus/core/cost_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 4a15eaa..f78cfd1 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -48,6 +48,9 @@ def masked_jacobians(
         for v in cost_fn.optim_vars
     ]
     err = aux_tensor.new_zeros(batch_size, cost_fn.dim())
+    if not mask.any():
+        # not all cost functions can be evaluated on empty batches
+        return jacobians, err
     with masked_variables(cost_fn_vars, mask):
         masked_jacobians_, err[mask] = cost_fn.jacobians()
         for masked_jac, jac in zip(masked_jacobians_, jacobians):
-- 
2.43.0


From 9be00ce8dffc81eab3f71d8e49268f1025beb1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 29/73] fix: vectorized retraction of singleton batch variables

---
 theseus/core/vectorizer.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 06bc856..b476d28 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -427,15 +427,11 @@ class Vectorize:
         ] = {}
 
         start_idx = 0
-        batch_size = -1
+        batch_size = delta.shape[0]
         # Create var info by looping variables in the given order
         # All variables of the same type get grouped together, and their deltas saved
         for var in ordering:
-            if batch_size == -1:
-                batch_size = var.shape[0]
-            else:
-                assert batch_size == var.shape[0]
-
+            batch_size = max(batch_size, var.shape[0])
             delta_slice = delta[:, start_idx : start_idx + var.dof()]
             start_idx += var.dof()
             var_type = (var.__class__, var.dof())
@@ -450,14 +446,19 @@ class Vectorize:
             # Get the vectorized tensor that holds all the current variable tensors.
             # The resulting shape is (N * b, M), b is batch size, N is the number of
             # variables in the group, and M is the data shape for this class
-            vectorized_tensor = torch.cat([v.tensor for v in var_list], dim=0)
+            # Singleton tensors (or deltas) are expanded to the full batch size
+            vectorized_tensor = torch.cat(
+                [Vectorize._expand(v.tensor, batch_size) for v in var_list], dim=0
+            )
             assert (
                 vectorized_tensor.shape
                 == (n_vars * batch_size,) + vectorized_tensor.shape[1:]
             )
             # delta_list is a list of N tensors of shape (b, d), where
             # d is var.dof(). After vectorization, we get tensor of shape (N * b, d)
-            vectorized_delta = torch.cat(delta_list, dim=0)
+            vectorized_delta = torch.cat(
+                [Vectorize._expand(d, batch_size) for d in delta_list], dim=0
+            )
             assert vectorized_delta.shape == (n_vars * batch_size, dof)
 
             # Retract the vectorized tensor, then redistribute to the variables
-- 
2.43.0


From 9dcc567347c6c01fa781e9ee84bb74752dd5419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 30/73] fix: count dtype/device and item changes of variables
 as updates

---
 theseus/core/variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index 40e64f1..c5a8960 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -80,6 +80,7 @@ class Variable:
     # calls to() on the internal tensors
     def to(self, *args, **kwargs):
         self.tensor = self.tensor.to(*args, **kwargs)
+        self._num_updates += 1
 
     @property
     def shape(self) -> torch.Size:
@@ -102,6 +103,7 @@ class Variable:
 
     def __setitem__(self, item, value):
         self.tensor[item] = value
+        self._num_updates += 1
 
 
 # If value is a variable, this returns the same variable
-- 
2.43.0


From 956e81244742b3d13471631e5a1df0cdde97ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 31/73] fix: RobustCostFunction.to converts the underlying cost
 function

---
 theseus/core/robust_cost_function.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index dbf96be..1edc273 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -132,6 +132,11 @@ class RobustCostFunction(CostFunction):
     def dim(self) -> int:
         return self.cost_function.dim()
 
+    # also converts any internal tensors of the underlying cost function
+    def to(self, *args, **kwargs):
+        super().to(*args, **kwargs)
+        self.cost_function.to(*args, **kwargs)
+
     def _copy_impl(self, new_name: Optional[str] = None) -> "RobustCostFunction":
         return RobustCostFunction(
             self.cost_function.copy(),
-- 
2.43.0


From 98ec573ed21eb3491ee856980d6cd369d41260fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 32/73] fix: VariableOrdering.remove left stale indices for the
 remaining variables

---
 theseus/optimizer/variable_ordering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/variable_ordering.py b/theseus/optimizer/variable_ordering.py
index 5156dcd..b05a14d 100644
--- a/theseus/optimizer/variable_ordering.py
+++ b/theseus/optimizer/variable_ordering.py
@@ -49,7 +49,8 @@ class VariableOrdering:
 
     def remove(self, var: Variable):
         self._var_order.remove(var)
-        del self._var_name_to_index[var.name]
+        # The variables that come after the removed one move back one position
+        self._var_name_to_index = {v.name: i for i, v in enumerate(self._var_order)}
 
     def extend(self, variables: Sequence[Variable]):
         for var in variables:
-- 
2.43.0


From 9d4bd02a28f2f1d3911cb15fa003a1b06d593f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 33/73] fix: python float damping was rounded to the default
 dtype

---
 theseus/optimizer/linear/dense_solver.py | 4 +++-
 theseus/optimizer/linear/utils.py        | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/theseus/optimizer/linear/dense_solver.py b/theseus/optimizer/linear/dense_solver.py
index dc4a159..90cc6d7 100644
--- a/theseus/optimizer/linear/dense_solver.py
+++ b/theseus/optimizer/linear/dense_solver.py
@@ -51,7 +51,9 @@ class DenseSolver(LinearSolver, abc.ABC):
 
         # See Nocedal and Wright, Numerical Optimization, pp. 260 and 261
         # https://www.csie.ntu.edu.tw/~r97002/temp/num_optimization.pdf
-        damping = torch.as_tensor(damping).to(device=matrix.device, dtype=matrix.dtype)
+        damping = torch.as_tensor(
+            damping, device=matrix.device, dtype=matrix.dtype
+        )
         if ellipsoidal:
             damping = damping.view(-1, 1)
             # Add eps to guard against ill-conditioned matrix
diff --git a/theseus/optimizer/linear/utils.py b/theseus/optimizer/linear/utils.py
index 6388be2..fe6aef4 100644
--- a/theseus/optimizer/linear/utils.py
+++ b/theseus/optimizer/linear/utils.py
@@ -19,7 +19,7 @@ def convert_to_alpha_beta_damping_tensors(
     device: DeviceType,
     dtype: torch.dtype,
 ) -> Tuple[torch.Tensor, torch.Tensor]:
-    damping = torch.as_tensor(damping).to(device=device, dtype=dtype)
+    damping = torch.as_tensor(damping, device=device, dtype=dtype)
     if damping.ndim > 1:
         raise ValueError("Damping must be a float or a 1-D tensor.")
     if damping.ndim == 0 or damping.shape[0] == 1 and batch_size != 1:
-- 
2.43.0


From 135355c4c2de448841e1257205097256758b8c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 34/73] fix: mixed singleton and full batches in embodied cost
 functions

---
 theseus/embodied/collision/collision.py        |  5 ++++-
 theseus/embodied/collision/eff_obj_contact.py  |  9 ++++++---
 .../collision/signed_distance_field.py         |  5 +++++
 .../embodied/motionmodel/double_integrator.py  | 10 ++++++----
 theseus/embodied/motionmodel/misc.py           | 18 +++++++-----------
 .../motionmodel/quasi_static_pushing_planar.py |  9 +++++++--
 6 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/theseus/embodied/collision/collision.py b/theseus/embodied/collision/collision.py
index dd2c923..92949bd 100644
--- a/theseus/embodied/collision/collision.py
+++ b/theseus/embodied/collision/collision.py
@@ -69,7 +69,10 @@ class Collision2D(CostFunction):
         distances, jacobian = self._compute_distances_and_jacobians()
         error = self._error_from_distances(distances)
         faraway_idx = distances > self.cost_eps.tensor
-        jacobian[faraway_idx] = 0.0
+        # broadcasts, since pose and cost_eps may have different batch sizes
+        jacobian = torch.where(
+            faraway_idx.unsqueeze(2), torch.zeros_like(jacobian), jacobian
+        )
         return [-jacobian], error
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "Collision2D":
diff --git a/theseus/embodied/collision/eff_obj_contact.py b/theseus/embodied/collision/eff_obj_contact.py
index e1f7b98..4d9c6b3 100644
--- a/theseus/embodied/collision/eff_obj_contact.py
+++ b/theseus/embodied/collision/eff_obj_contact.py
@@ -98,9 +98,12 @@ class EffectorObjectContactPlanar(CostFunction):
                 "Jacobians for huber loss are not yet implemented."
             )
         else:
-            lt_idx = distances < self.eff_radius.tensor
-            jacobians[0][lt_idx] *= -1.0
-            jacobians[1][lt_idx] *= -1.0
+            # broadcasts, since poses and radius may have different batch sizes
+            lt_idx = (distances < self.eff_radius.tensor).unsqueeze(2)
+            jacobians = (
+                torch.where(lt_idx, -jacobians[0], jacobians[0]),
+                torch.where(lt_idx, -jacobians[1], jacobians[1]),
+            )
         return [jacobians[0], jacobians[1]], error
 
     def _copy_impl(
diff --git a/theseus/embodied/collision/signed_distance_field.py b/theseus/embodied/collision/signed_distance_field.py
index b49c8a0..cfaa519 100644
--- a/theseus/embodied/collision/signed_distance_field.py
+++ b/theseus/embodied/collision/signed_distance_field.py
@@ -194,6 +194,11 @@ class SignedDistanceField2D:
         self, points: torch.Tensor
     ) -> Tuple[torch.Tensor, torch.Tensor]:
         rows, cols, out_of_bounds_idx = self.convert_points_to_cell(points)
+        if rows.shape[0] == 1 and self.sdf_data.shape[0] > 1:
+            # same points queried in a batch of fields
+            shape = (self.sdf_data.shape[0], rows.shape[1])
+            rows, cols = rows.expand(shape), cols.expand(shape)
+            out_of_bounds_idx = out_of_bounds_idx.expand(shape)
 
         lr = torch.floor(rows)
         lc = torch.floor(cols)
diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index 1d83274..e1eae48 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -53,14 +53,18 @@ class DoubleIntegrator(CostFunction):
     def _error_from_pose_diff(self, pose_diff: torch.Tensor) -> torch.Tensor:
         pose_diff_err = pose_diff - self.dt.tensor.view(-1, 1) * self.vel1.tensor
         vel_diff = self.vel2.tensor - self.vel1.tensor
-        return torch.cat([pose_diff_err, vel_diff], dim=1)
+        # some of the variables may be singleton batches
+        return torch.cat(torch.broadcast_tensors(pose_diff_err, vel_diff), dim=1)
 
     def error(self) -> torch.Tensor:
         return self._error_from_pose_diff(self._new_pose_diff())
 
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
+        Jlocal: List[torch.Tensor] = []
+        error = self._error_from_pose_diff(self._new_pose_diff(Jlocal))
+
         # Pre-allocate jacobian tensors
-        batch_size = self.pose1.shape[0]
+        batch_size = error.shape[0]
         dof = self.pose1.dof()
         dtype = self.pose1.dtype
         device = self.pose1.device
@@ -69,8 +73,6 @@ class DoubleIntegrator(CostFunction):
         Jerr_pose2 = torch.zeros_like(Jerr_pose1)
         Jerr_vel2 = torch.zeros_like(Jerr_pose1)
 
-        Jlocal: List[torch.Tensor] = []
-        error = self._error_from_pose_diff(self._new_pose_diff(Jlocal))
         Jerr_pose1[:, :dof, :] = Jlocal[0]
         identity = torch.eye(dof, dtype=dtype, device=device).repeat(batch_size, 1, 1)
         Jerr_vel1[:, :dof, :] = -self.dt.tensor.view(-1, 1, 1) * identity
diff --git a/theseus/embodied/motionmodel/misc.py b/theseus/embodied/motionmodel/misc.py
index 925815e..1df9773 100644
--- a/theseus/embodied/motionmodel/misc.py
+++ b/theseus/embodied/motionmodel/misc.py
@@ -76,12 +76,11 @@ class HingeCost(CostFunction):
 
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
         error, below_idx, above_idx = self._compute_error()
-        J = self.vector.tensor.new_zeros(
-            self.vector.shape[0], self.vector.dof(), self.vector.dof()
-        )
-        J[below_idx.diag_embed()] = -1.0
-        J[above_idx.diag_embed()] = 1.0
-        return [J], error
+        # broadcasts, since vector and limits may have different batch sizes
+        one = torch.ones_like(error)
+        diagonal = torch.where(below_idx, -one, torch.zeros_like(error))
+        diagonal = torch.where(above_idx, one, diagonal)
+        return [diagonal.diag_embed()], error
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "HingeCost":
         return HingeCost(
@@ -162,17 +161,14 @@ class Nonholonomic(CostFunction):
         cos: torch.Tensor,
         sin: torch.Tensor,
     ) -> Tuple[torch.Tensor, torch.Tensor]:
-        Jpose = self.vel.tensor.new_zeros(self.vel.shape[0], 1, 3)
-        Jvel = self.vel.tensor.new_zeros(self.vel.shape[0], 1, 3)
+        Jpose = error.new_zeros(error.shape[0], 1, 3)
+        Jvel = error.new_zeros(error.shape[0], 1, 3)
         Jpose[:, 0, 2] = -(self.vel[:, 1] * sin + self.vel[:, 0] * cos)
         Jvel[:, 0, 0] = -sin
         Jvel[:, 0, 1] = cos
         return Jpose, Jvel
 
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
-        # Pre-allocate jacobian tensors
-        batch_size = self.vel.shape[0]
-        Jvel = self.vel.tensor.new_zeros(batch_size, 1, 3)
         error, cos, sin = self._compute_error()
         Jpose, Jvel = self._compute_jacobians(error, cos, sin)
         return [Jpose, Jvel], error
diff --git a/theseus/embodied/motionmodel/quasi_static_pushing_planar.py b/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
index 2b9e822..93da26e 100644
--- a/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
+++ b/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
@@ -41,7 +41,12 @@ class QuasiStaticPushingPlanar(CostFunction):
         self.register_aux_vars(["c_square"])
 
     def _get_tensor_info(self) -> Tuple[int, torch.device, torch.dtype]:
-        return self.obj1.shape[0], self.obj1.device, self.obj1.dtype
+        # some of the variables may be singleton batches
+        batch_size = max(
+            self.c_square.tensor.numel(),
+            *(v.shape[0] for v in (self.obj1, self.obj2, self.eff1, self.eff2)),
+        )
+        return batch_size, self.obj1.device, self.obj1.dtype
 
     # See Eqs. 3-7 in Zhou et al.
     def _compute_D(
@@ -235,7 +240,7 @@ class QuasiStaticPushingPlanar(CostFunction):
             get_jacobians=get_jacobians,
         )
 
-        error = torch.bmm(D, V.unsqueeze(2)).squeeze(2) - Vp
+        error = torch.matmul(D, V.unsqueeze(2)).squeeze(2) - Vp
 
         if not get_jacobians:
             return error, None
-- 
2.43.0


From 71d5b9b407f01c79a7503435807543c59beee531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 35/73] fix: default calibration of Reprojection has unique
 names and a singleton batch

---
 theseus/embodied/measurements/reprojection.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/theseus/embodied/measurements/reprojection.py b/theseus/embodied/measurements/reprojection.py
index 2e7cef9..f2532ab 100644
--- a/theseus/embodied/measurements/reprojection.py
+++ b/theseus/embodied/measurements/reprojection.py
@@ -32,16 +32,15 @@ class Reprojection(th.CostFunction):
         self.focal_length = focal_length
         self.calib_k1 = calib_k1
         self.calib_k2 = calib_k2
-        batch_size = self.camera_pose.shape[0]
         if self.calib_k1 is None:
             self.calib_k1 = th.Vector(
-                tensor=torch.zeros((batch_size, 1), dtype=camera_pose.dtype),
-                name="calib_k1",
+                tensor=torch.zeros((1, 1), dtype=camera_pose.dtype),
+                name=f"{self.name}__calib_k1",
             )
         if self.calib_k2 is None:
             self.calib_k2 = th.Vector(
-                tensor=torch.zeros((batch_size, 1), dtype=camera_pose.dtype),
-                name="calib_k2",
+                tensor=torch.zeros((1, 1), dtype=camera_pose.dtype),
+                name=f"{self.name}__calib_k2",
             )
         self.world_point = world_point
         self.image_feature_point = image_feature_point
-- 
2.43.0


From a24d40841609b9d873f1ef3f41f98125d199bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 36/73] fix: GPMotionModel copies are GPMotionModel

---
 theseus/embodied/motionmodel/double_integrator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index e1eae48..4f820ff 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -205,4 +205,12 @@ class GPMotionModel(DoubleIntegrator):
         super().__init__(pose1, vel1, pose2, vel2, dt, cost_weight, name=name)
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "GPMotionModel":
-        return cast(GPMotionModel, super()._copy_impl(new_name=new_name))
+        return GPMotionModel(
+            self.pose1.copy(),
+            self.vel1.copy(),
+            self.pose2.copy(),
+            self.vel2.copy(),
+            self.dt.copy(),
+            cast(GPCostWeight, self.weight.copy()),
+            name=new_name,
+        )
-- 
2.43.0


From 2d47002c77d1de08e6bc65d665b931aca454f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 37/73] fix: copy objectives where a cost function and its
 weight share a variable

---
 theseus/core/objective.py | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 984272c..54b0f47 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -678,30 +678,20 @@ class Objective:
             new_cost_function.weight = old_to_new_cost_weight_map[cost_function.weight]
             new_cost_functions.append(new_cost_function)
 
-        # Handle case where a variable is copied in 2+ cost functions or cost weights,
-        # since only a single copy should be maintained by objective
+        # Handle case where a variable is copied in 2+ cost functions or cost weights
+        # (or in a cost function and its weight), since only a single copy should be
+        # maintained by objective
+        new_variables: Dict[str, Variable] = {}
         for cost_function in new_cost_functions:
-            # CostFunction
-            for i, var in enumerate(cost_function.optim_vars):
-                if new_objective.has_optim_var(var.name):
-                    cost_function.set_optim_var_at(
-                        i, new_objective.optim_vars[var.name]
+            functions: Sequence[TheseusFunction] = (cost_function, cost_function.weight)
+            for function in functions:
+                for i, var in enumerate(function.optim_vars):
+                    function.set_optim_var_at(
+                        i, new_variables.setdefault(var.name, var)  # type: ignore
                     )
-            for i, aux_var in enumerate(cost_function.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
-                    )
-            # CostWeight
-            for i, var in enumerate(cost_function.weight.optim_vars):
-                if var.name in new_objective.cost_weight_optim_vars:
-                    cost_function.weight.set_optim_var_at(
-                        i, new_objective.cost_weight_optim_vars[var.name]
-                    )
-            for i, aux_var in enumerate(cost_function.weight.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.weight.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
+                for i, aux_var in enumerate(function.aux_vars):
+                    function.set_aux_var_at(
+                        i, new_variables.setdefault(aux_var.name, aux_var)
                     )
             new_objective.add(cost_function)
         return new_objective
-- 
2.43.0


From 1ce78c6ae2ad256164b8e6f5c7ba8c5a29f87db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 38/73] fix: variables replaced in a RobustCostFunction reach
 the wrapped cost function

---
 theseus/core/robust_cost_function.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 1edc273..339584b 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -7,6 +7,8 @@ from typing import List, Optional, Tuple, Type
 
 import torch
 
+from theseus.geometry import Manifold
+
 from .cost_function import CostFunction
 from .cost_weight import CostWeight
 from .robust_loss import GNCRobustLoss, RobustLoss
@@ -132,6 +134,18 @@ class RobustCostFunction(CostFunction):
     def dim(self) -> int:
         return self.cost_function.dim()
 
+    # The underlying cost function uses the same variables, see `_set_variable_at()`
+    def set_optim_var_at(self, index: int, variable: Manifold):
+        super().set_optim_var_at(index, variable)
+        self.cost_function.set_optim_var_at(index, variable)
+
+    # see `set_optim_var_at()`
+    def set_aux_var_at(self, index: int, variable: Variable):
+        super().set_aux_var_at(index, variable)
+        # variables past these are only used by the robust loss
+        if index < self.cost_function.num_aux_vars():
+            self.cost_function.set_aux_var_at(index, variable)
+
     # also converts any internal tensors of the underlying cost function
     def to(self, *args, **kwargs):
         super().to(*args, **kwargs)
-- 
2.43.0


From 3d9082f90cd17bec64ea8ed96d2a1043d06a58c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 39/73] fix: merged optimizer infos keep the last iteration
 before convergence, best_iter and last_err

---
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 2 +-
 theseus/optimizer/nonlinear/nonlinear_optimizer.py     | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index a823f4a..f1c55d7 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -190,6 +190,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
             # check for convergence if at least one step was accepted
             with torch.no_grad():
                 self._update_info(info, it_, err, converged_indices)
+                iters_done += 1
                 if verbose:
                     print(
                         f"Nonlinear optimizer. Iteration: {it_+1}. "
@@ -206,7 +207,6 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 if end_iter_callback is not None:
                     end_iter_callback(self, info, delta, it_)
 
-            iters_done += 1
             it_ += 1
 
         info.status[
diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 755421f..1eb4aab 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -242,7 +242,8 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
             best_solution = {}
             best_err_no_grad = info.best_err
             best_err_grad = grad_loop_info.best_err
-            idx_no_grad = (best_err_no_grad < best_err_grad).cpu()
+            idx_grad = best_err_grad < best_err_no_grad
+            idx_no_grad = idx_grad.logical_not().cpu()
             best_err = torch.minimum(best_err_no_grad, best_err_grad)
             for var_name in info.best_solution:
                 sol_no_grad = info.best_solution[var_name]
@@ -254,6 +255,10 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                 )
             info.best_solution = best_solution
             info.best_err = best_err
+            info.best_iter = torch.where(
+                idx_grad, num_no_grad_iters + grad_loop_info.best_iter, info.best_iter
+            )
+        info.last_err = grad_loop_info.last_err
 
         # Merge the converged status into the info from the detached loop,
         M = info.status == NonlinearOptimizerStatus.MAX_ITERATIONS
-- 
2.43.0


From 754ffb643f9b523c14a6fcd32713a4295e8b05e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 40/73] fix: last_err is the final error when the optimizer
 converges

---
 theseus/optimizer/nonlinear/dcem.py                    | 2 +-
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index abce1e6..dbf66ae 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -190,9 +190,9 @@ class DCEM(NonlinearOptimizer):
                     np.array(converged_indices.cpu().numpy())
                 ] = NonlinearOptimizerStatus.CONVERGED
 
+                info.last_err = err
                 if converged_indices.all():
                     break  # nothing else will happen at this point
-                info.last_err = err
 
                 if end_iter_callback is not None:
                     end_iter_callback(self, info, mu, it_)
diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index f1c55d7..15a43a0 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -200,9 +200,9 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 info.status[
                     converged_indices.cpu().numpy()
                 ] = NonlinearOptimizerStatus.CONVERGED
+                info.last_err = err
                 if converged_indices.all():
                     break  # nothing else will happen at this point
-                info.last_err = err
 
                 if end_iter_callback is not None:
                     end_iter_callback(self, info, delta, it_)
-- 
2.43.0


From 43a0dbd018452993105a2f9e595467fbf5b06a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 41/73] fix: report a linear solver failure in the last
 iterations of truncated and implicit modes

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 1eb4aab..17378db 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -265,6 +265,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         assert np.all(
             (grad_loop_info.status[M] == NonlinearOptimizerStatus.MAX_ITERATIONS)
             | (grad_loop_info.status[M] == NonlinearOptimizerStatus.CONVERGED)
+            | (grad_loop_info.status[M] == NonlinearOptimizerStatus.FAIL)
         )
         info.status[M] = grad_loop_info.status[M]
         info.converged_iter[M] = (
-- 
2.43.0


From 81300d021cf595a2346217cd40f703e4342da0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 42/73] fix: error and state histories keep the dtype of the
 objective

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 17378db..1664505 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -139,7 +139,11 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         best_err = last_err.clone() if track_best_solution else None
         if track_err_history:
             err_history = (
-                torch.ones(self.objective.batch_size, self.params.max_iterations + 1)
+                torch.ones(
+                    self.objective.batch_size,
+                    self.params.max_iterations + 1,
+                    dtype=self.objective.dtype,
+                )
                 * math.inf
             )
             assert last_err.grad_fn is None
@@ -155,6 +159,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                         self.objective.batch_size,
                         *var.shape[1:],
                         self.params.max_iterations + 1,
+                        dtype=var.dtype,
                     )
                     * math.inf
                 )
-- 
2.43.0


From c983c1358de49ea3e7322e9c4c1ffcf2cc0ff6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 43/73] fix: a rejected step of one batch element is not taken
 as its convergence

---
 .../nonlinear/nonlinear_least_squares.py      | 39 ++++++++++++-------
 .../nonlinear/nonlinear_optimizer.py          |  5 ---
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index 15a43a0..e41afbe 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -110,7 +110,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
         converged_indices = torch.zeros_like(info.last_err).bool()
         iters_done = 0
         it_ = 0
-        all_reject_attempts = 0
+        reject_attempts = torch.zeros_like(info.last_err, dtype=torch.long)
         while it_ < num_iter:
             # do optimizer step
             # See comment inside `if _last_implicit_diff_step` case below
@@ -170,7 +170,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
 
             # For now, step size is combined with delta. If we add more sophisticated
             # line search, will probably need to pass it separately, or compute inside.
-            err, all_rejected = self._step(
+            err, reject_indices = self._step(
                 delta * steps_tensor,
                 info.last_err,
                 converged_indices,
@@ -178,14 +178,21 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 delta_forced_to_gn=_last_implicit_diff_step,
                 **kwargs,
             )  # err is shape (batch_size,)
-            if all_rejected:
-                # The optimizer rejected all steps so just continue, otherwise convergence
-                # check will stop prematurely. However, we put a max on this to guarantee
-                # this terminates
-                all_reject_attempts += 1
-                if all_reject_attempts < NonlinearOptimizer._MAX_ALL_REJECT_ATTEMPTS:
+            # A rejected step doesn't change the error, which is not a sign of
+            # convergence, so batch elements whose step was rejected are not checked
+            # for convergence. However, we put a max on the number of consecutive
+            # rejections to guarantee this terminates
+            if reject_indices is None:
+                retry_indices = torch.zeros_like(converged_indices)
+            else:
+                live_rejects = reject_indices.logical_and(~converged_indices)
+                reject_attempts = (reject_attempts + 1) * live_rejects.long()
+                retry_indices = live_rejects.logical_and(
+                    reject_attempts < NonlinearOptimizer._MAX_ALL_REJECT_ATTEMPTS
+                )
+                if (live_rejects | converged_indices).all() and retry_indices.any():
                     continue
-            all_reject_attempts = 0
+                reject_attempts = reject_attempts * retry_indices.long()
 
             # check for convergence if at least one step was accepted
             with torch.no_grad():
@@ -196,7 +203,9 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                         f"Nonlinear optimizer. Iteration: {it_+1}. "
                         f"Error: {err.mean().item()}"
                     )
-                converged_indices = self._check_convergence(err, info.last_err)
+                converged_indices = self._check_convergence(
+                    err, info.last_err
+                ).logical_and(~retry_indices)
                 info.status[
                     converged_indices.cpu().numpy()
                 ] = NonlinearOptimizerStatus.CONVERGED
@@ -328,8 +337,8 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
     # variables.
     # Batch indices indicated by `converged_indices` mask are ignored
     # unless `force_update = True`.
-    # Returns the total error tensor after the update and a boolean indicating
-    # if all steps were rejected.
+    # Returns the total error tensor after the update and an optional mask indicating
+    # which steps were rejected.
     #
     # `previous_err` refes to the squared norm of the
     # error vector, as returned by self.objective.error_metric()
@@ -343,7 +352,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
         force_update: bool,
         delta_forced_to_gn: bool,
         **kwargs,
-    ) -> Tuple[torch.Tensor, bool]:
+    ) -> Tuple[torch.Tensor, Optional[torch.Tensor]]:
         tensor_dict, err = self._compute_retracted_tensors_and_error(
             delta, converged_indices, force_update
         )
@@ -356,13 +365,13 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
             reject_indices = self._complete_step(delta, err, previous_err, **kwargs)
 
         if reject_indices is not None and reject_indices.all():
-            return previous_err, True
+            return previous_err, reject_indices
 
         self.objective.update(tensor_dict, batch_ignore_mask=reject_indices)
         if reject_indices is not None and reject_indices.any():
             # Some steps were rejected so the error computed above is not accurate
             err = self.objective.error_metric()
-        return err, False
+        return err, reject_indices
 
     # Resets any internal state needed by the optimizer for a new optimization
     # problem. Optimizer loop will pass all optimizer kwargs to this method.
diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 1664505..d392359 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -212,11 +212,6 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
 
             info.best_err = torch.minimum(info.best_err, err)
 
-        converged_indices = self._check_convergence(err, info.last_err)
-        info.status[
-            np.array(converged_indices.detach().cpu())
-        ] = NonlinearOptimizerStatus.CONVERGED
-
     @abc.abstractmethod
     def _optimize_impl(self, **kwargs) -> OptimizerInfo:
         pass
-- 
2.43.0


From 0bbeb3a97b035ef2c0c3fab3864f12cd1ea26a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 44/73] fix: steps to a NaN error are rejected and never the
 best ones

---
 theseus/optimizer/nonlinear/levenberg_marquardt.py | 2 +-
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 2 +-
 theseus/optimizer/nonlinear/trust_region.py        | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/theseus/optimizer/nonlinear/levenberg_marquardt.py b/theseus/optimizer/nonlinear/levenberg_marquardt.py
index ce1902a..796f6b5 100644
--- a/theseus/optimizer/nonlinear/levenberg_marquardt.py
+++ b/theseus/optimizer/nonlinear/levenberg_marquardt.py
@@ -189,7 +189,7 @@ class LevenbergMarquardt(NonlinearLeastSquares):
         # the LM reference above
         den = (delta * (damping * delta + linearization.Atb.squeeze(2))).sum(dim=1) / 2
         rho = (previous_err - err) / den
-        reject_indices = rho <= damping_accept
+        reject_indices = (rho <= damping_accept).logical_or(err.isnan())
         self._damping = torch.where(
             reject_indices,
             self._damping * up_damping_ratio,
diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index d392359..a5f0718 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -210,7 +210,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                     var.tensor.detach().clone()[good_indices].cpu()
                 )
 
-            info.best_err = torch.minimum(info.best_err, err)
+            info.best_err = torch.where(good_indices, err, info.best_err)
 
     @abc.abstractmethod
     def _optimize_impl(self, **kwargs) -> OptimizerInfo:
diff --git a/theseus/optimizer/nonlinear/trust_region.py b/theseus/optimizer/nonlinear/trust_region.py
index 01f256f..569993c 100644
--- a/theseus/optimizer/nonlinear/trust_region.py
+++ b/theseus/optimizer/nonlinear/trust_region.py
@@ -137,7 +137,8 @@ class TrustRegion(NonlinearLeastSquares, abc.ABC):
                 "shrink_ratio in (0, 1], and expand_ratio > 1.0."
             )
         rho = self._compute_rho(delta, previous_err, new_err)
-        shrink_idx = rho < shrink_threshold
+        nan_idx = new_err.isnan().view(-1, 1)
+        shrink_idx = (rho < shrink_threshold).logical_or(nan_idx)
         self._trust_region = torch.where(
             shrink_idx, self._trust_region * shrink_ratio, self._trust_region
         )
@@ -148,4 +149,4 @@ class TrustRegion(NonlinearLeastSquares, abc.ABC):
         self._trust_region = self._trust_region.clamp(
             min_trust_region, max_trust_region
         )
-        return (rho < accept_threshold).view(-1)
+        return (rho < accept_threshold).logical_or(nan_idx).view(-1)
-- 
2.43.0


From b41465566f3929fe9ff47365b0dca6babe28d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 45/73] fix: dogleg steps stay inside small trust regions

---
 theseus/optimizer/nonlinear/dogleg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/dogleg.py b/theseus/optimizer/nonlinear/dogleg.py
index 2b47fc2..b84d0b2 100644
--- a/theseus/optimizer/nonlinear/dogleg.py
+++ b/theseus/optimizer/nonlinear/dogleg.py
@@ -90,7 +90,8 @@ class Dogleg(TrustRegion):
             a = TrustRegion._squared_norm(diff)
             b = (2 * delta_c * diff).sum(dim=1, keepdim=True)
             c = delta_c_norm_2 - trust_region_2
-            disc = ((b**2) - 4 * a * c).clamp(Dogleg.EPS)
+            # c <= 0, so this is nonnegative, only avoid infinite derivatives of sqrt
+            disc = ((b**2) - 4 * a * c).clamp(torch.finfo(a.dtype).tiny)
             # By taking min(tau, 1), this also covers the case when ||d_gn|| < TR
             tau = ((-b + disc.sqrt()) / (2 * a + Dogleg.EPS)).clamp(max=1.0)
             delta_dogleg = torch.where(
-- 
2.43.0


From 69854fbdea964fde5a972ecf21f6e53b9132893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 46/73] fix: cholmod failures are RuntimeErrors, as those of
 other linear solvers

---
 theseus/optimizer/autograd/cholmod_sparse_autograd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/autograd/cholmod_sparse_autograd.py b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
index 0969379..3c908e5 100644
--- a/theseus/optimizer/autograd/cholmod_sparse_autograd.py
+++ b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
@@ -7,6 +7,7 @@ from typing import Any, Tuple
 import torch
 
 try:
+    from sksparse.cholmod import CholmodError
     from sksparse.cholmod import Factor as CholeskyDecomposition
 except ModuleNotFoundError:
     import warnings
@@ -44,7 +45,13 @@ class CholmodSolveFunction(torch.autograd.Function):
         for i in range(batch_size):
             # compute decomposition from symbolic decomposition
             At_i = sparse_structure.csc_transpose(At_val_cpu[i, :])
-            cholesky_decomposition = symbolic_decomposition.cholesky_AAt(At_i, damping)
+            # solver failures are expected to be RuntimeErrors
+            try:
+                cholesky_decomposition = symbolic_decomposition.cholesky_AAt(
+                    At_i, damping
+                )
+            except CholmodError as e:
+                raise RuntimeError(f"Cholesky decomposition failed: {e}") from e
 
             # solve
             Atb_i = At_i @ b_cpu[i, :]
-- 
2.43.0


From c9989284432f07b69a9e2704c2e2d76de3d726e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 47/73] fix: track the best solution of variables with a
 singleton initial value

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index a5f0718..418d6ba 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -125,7 +125,13 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
             return None
         solution_dict = {}
         for var in self.objective.optim_vars.values():
-            solution_dict[var.name] = var.tensor.detach().clone().cpu()
+            # the initial value might be shared by all batch elements
+            solution_dict[var.name] = (
+                var.tensor.detach()
+                .expand(self.objective.batch_size, *var.shape[1:])
+                .clone()
+                .cpu()
+            )
         return solution_dict
 
     def _init_info(
-- 
2.43.0


From 5122651ccf6bf3a2f917ccd05aa60d8d432099cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 48/73] fix: DCEM doesn't update converged batch elements

---
 theseus/optimizer/nonlinear/dcem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index dbf66ae..b358333 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -174,7 +174,8 @@ class DCEM(NonlinearOptimizer):
             except RuntimeError as error:
                 raise RuntimeError(f"There is an error in update {error}.")
 
-            self.objective.update(mu)
+            # as for other optimizers, converged batch elements are not updated
+            self.objective.update(mu, batch_ignore_mask=converged_indices)
 
             # check for convergence
             with torch.no_grad():
-- 
2.43.0


From 51bdf4f3df2b62033556788a9c7499762d609826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 49/73] Revert "fix: parse edge weights in read_2D_g2o_file"

This reverts commit 8fe3d3bf7de1ef1bb5ea04f6b81e008e10766089.
---
 theseus/utils/examples/pose_graph/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/utils/examples/pose_graph/dataset.py b/theseus/utils/examples/pose_graph/dataset.py
index 0c35b6b..61272a4 100644
--- a/theseus/utils/examples/pose_graph/dataset.py
+++ b/theseus/utils/examples/pose_graph/dataset.py
@@ -135,7 +135,7 @@ def read_2D_g2o_file(
 
                 sel = [0, 3, 5]
                 weight = th.Variable(
-                    torch.from_numpy(np.array(tokens[6:], dtype=np.float64)[sel])
+                    torch.from_numpy(np.array(1, tokens[6:], dtype=np.float64)[sel])
                     .to(dtype)
                     .sqrt()
                     .view(1, -1)
-- 
2.43.0


From 6bbb66ab7b4648a4560c156bcfcbe5051fa978b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 50/73] Revert "fix: do not swap ground truth cameras and
 points when loading BAL files"

This reverts commit 0f92f4723bd86471cb9b2ebdc8aa3943170a8dfa.
---
 theseus/utils/examples/bundle_adjustment/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/utils/examples/bundle_adjustment/data.py b/theseus/utils/examples/bundle_adjustment/data.py
index 24cd224..a981e84 100644
--- a/theseus/utils/examples/bundle_adjustment/data.py
+++ b/theseus/utils/examples/bundle_adjustment/data.py
@@ -231,7 +231,7 @@ class BundleAdjustmentDataset:
     def load_from_file(path, gt_path: Optional[str] = None):
         cameras, points, observations = BundleAdjustmentDataset.load_bal_dataset(path)
         if gt_path is not None:
-            gt_cameras, gt_points, _ = BundleAdjustmentDataset.load_bal_dataset(gt_path)
+            gt_points, gt_cameras, _ = BundleAdjustmentDataset.load_bal_dataset(gt_path)
         else:
             gt_points, gt_cameras = None, None
         return BundleAdjustmentDataset(
-- 
2.43.0


From 2a9b3ca5365f352f4194a0019cb9b80f2051b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 51/73] fix: logarithm of batches with non-contiguous layout

---
 torchlie/torchlie/functional/so3_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchlie/torchlie/functional/so3_impl.py b/torchlie/torchlie/functional/so3_impl.py
index 8be2521..cc1e0f2 100644
--- a/torchlie/torchlie/functional/so3_impl.py
+++ b/torchlie/torchlie/functional/so3_impl.py
@@ -415,10 +415,10 @@ def _log_impl_helper(group: torch.Tensor):
     ) + 2 * torch.logical_and(
         ddiag[..., 2] > ddiag[..., 0], ddiag[..., 2] > ddiag[..., 1]
     )
-    major = major.view(-1)
+    major = major.reshape(-1)
     aux = torch.ones(size, dtype=torch.bool)
     sel_rows = 0.5 * (group[aux, major] + group[aux, :, major]).view(*size, 3)
-    sel_rows[aux, major] -= cosine.view(-1)
+    sel_rows[aux, major] -= cosine.reshape(-1)
     axis = sel_rows / torch.where(
         near_zero,
         constants._NON_ZERO,
-- 
2.43.0


From 0ec5dcae65d166eb56b34828b7d5cd98f5ea3c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 52/73] fix: DCEM failed when a single sample had all the
 weight

---
 theseus/optimizer/nonlinear/dcem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index b358333..36a91c5 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -130,7 +130,7 @@ class DCEM(NonlinearOptimizer):
                     N=self.n_elite, verbose=self.lml_verbose, eps=self.lml_eps
                 )(-_fX * self.temp)
             indexes = indexes.unsqueeze(2)
-            eps = 0
+            eps = 1e-10
 
         else:
             indexes_vals = fX.argsort(dim=1)[:, : self.n_elite]
@@ -151,7 +151,7 @@ class DCEM(NonlinearOptimizer):
         mu = torch.sum(X_I, dim=1) / self.n_elite
         self.sigma = (
             (indexes * (X - mu.unsqueeze(1)) ** 2).sum(dim=1) / self.n_elite
-        ).sqrt() + eps  # adding eps to avoid sigma=0, which is happening when temp=None
+        ).sqrt() + eps  # adding eps to avoid sigma=0, which happens when a single sample has all the weight
 
         assert self.sigma.shape == (n_batch, self._tot_dof)
 
-- 
2.43.0


From 6263cabf9dd6a41db34aa351a421d347e1d449a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:47 +0000
Subject: [PATCH 53/73] fix: DLM backward used stale data for auxiliary
 variables omitted from the inputs

---
 theseus/theseus_layer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 814f0a2..198a90d 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -73,8 +73,13 @@ class TheseusLayer(nn.Module):
                 self._dlm_bwd_objective = _obj
                 self._dlm_bwd_optimizer = _opt
 
+            # The backward objective also needs the auxiliary variables that keep their
+            # current values because they are not part of the inputs.
+            all_tensors = {n: v.tensor for n, v in self.objective.aux_vars.items()}
+            all_tensors.update(input_tensors or {})
+
             # Tensors cannot be passed inside containers, else we run into memory leaks.
-            input_keys, input_vals = zip(*input_tensors.items())
+            input_keys, input_vals = tuple(all_tensors), tuple(all_tensors.values())
             differentiable_tensors = [t for t in input_vals if t.requires_grad]
 
             *vars, info = TheseusLayerDLMForward.apply(
-- 
2.43.0


From 8e912b72b578a88fd262b5f1ab28af5b0652bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 54/73] fix: data and hat matrices of SO3 and SE3 were never
 validated

---
 theseus/embodied/kinematics/kinematics_model.py |  2 +-
 theseus/geometry/se3.py                         | 14 +++++++++++---
 theseus/geometry/so3.py                         | 13 ++++++++++---
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/theseus/embodied/kinematics/kinematics_model.py b/theseus/embodied/kinematics/kinematics_model.py
index 3905bd1..d23cdf6 100644
--- a/theseus/embodied/kinematics/kinematics_model.py
+++ b/theseus/embodied/kinematics/kinematics_model.py
@@ -123,6 +123,6 @@ class UrdfRobotModel(KinematicsModel):
 
         link_poses = {}
         for i, name in enumerate(self.link_names):
-            link_poses[name] = SE3(tensor=poses_list[i], strict_checks=False)
+            link_poses[name] = SE3(tensor=poses_list[i], disable_checks=True)
 
         return link_poses
diff --git a/theseus/geometry/se3.py b/theseus/geometry/se3.py
index a212b13..6f044d7 100644
--- a/theseus/geometry/se3.py
+++ b/theseus/geometry/se3.py
@@ -10,6 +10,7 @@ import torch
 
 import theseus.constants
 from torchlie.functional import SE3 as SE3_base
+from torchlie.functional import enable_checks
 
 from .lie_group import LieGroup
 from .lie_group_check import _LieGroupCheckContext, no_lie_group_check
@@ -118,8 +119,11 @@ class SE3(LieGroup):
     def _check_tensor_impl(tensor: torch.Tensor) -> bool:
         if tensor.ndim != 3 or tensor.shape[1:] != (3, 4):
             raise ValueError("SE3 data tensors can only be 3x4 matrices.")
+        if torch._C._functorch.is_batchedtensor(tensor):
+            return True  # the values cannot be checked inside vmap
         try:
-            SE3_base.check_group_tensor(tensor)
+            with enable_checks():
+                SE3_base.check_group_tensor(tensor)
         except ValueError:
             return False
         return True
@@ -149,8 +153,11 @@ class SE3(LieGroup):
             raise ValueError("Hat matrices of SE3 can only be 4x4 matrices")
 
         checks_enabled, silent_unchecks, _ = _LieGroupCheckContext.get_context()
+        if torch._C._functorch.is_batchedtensor(matrix):
+            return  # the values cannot be checked inside vmap
         if checks_enabled:
-            return SE3_base.check_hat_tensor(matrix)
+            with enable_checks():
+                SE3_base.check_hat_tensor(matrix)
         elif not silent_unchecks:
             warnings.warn(
                 "Lie group checks are disabled, so the skew-symmetry of hat matrices is "
@@ -182,7 +189,7 @@ class SE3(LieGroup):
 
     def _compose_impl(self, se3_2: LieGroup) -> "SE3":
         return SE3(
-            tensor=SE3_base.compose(self.tensor, se3_2.tensor), strict_checks=False
+            tensor=SE3_base.compose(self.tensor, se3_2.tensor), disable_checks=True
         )
 
     def _inverse_impl(self, get_jacobian: bool = False) -> "SE3":
@@ -218,6 +225,7 @@ class SE3(LieGroup):
 
     @staticmethod
     def vee(matrix: torch.Tensor) -> torch.Tensor:
+        SE3._hat_matrix_check(matrix)
         return SE3_base.vee(matrix)
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "SE3":
diff --git a/theseus/geometry/so3.py b/theseus/geometry/so3.py
index f3ff8b0..5f82f45 100644
--- a/theseus/geometry/so3.py
+++ b/theseus/geometry/so3.py
@@ -11,6 +11,7 @@ import torch
 import theseus.constants
 from theseus.global_params import _THESEUS_GLOBAL_PARAMS
 from torchlie.functional import SO3 as SO3_base
+from torchlie.functional import enable_checks
 
 from .lie_group import LieGroup
 from .lie_group_check import _LieGroupCheckContext
@@ -118,8 +119,11 @@ class SO3(LieGroup):
         with torch.no_grad():
             if tensor.ndim != 3 or tensor.shape[1:] != (3, 3):
                 raise ValueError("SO3 data tensors can only be 3x3 matrices.")
+            if torch._C._functorch.is_batchedtensor(tensor):
+                return True  # the values cannot be checked inside vmap
             try:
-                SO3_base.check_group_tensor(tensor)
+                with enable_checks():
+                    SO3_base.check_group_tensor(tensor)
             except ValueError:
                 return False
         return True
@@ -145,8 +149,11 @@ class SO3(LieGroup):
             raise ValueError("Hat matrices of SO(3) can only be 3x3 matrices")
 
         checks_enabled, silent_unchecks, _ = _LieGroupCheckContext.get_context()
+        if torch._C._functorch.is_batchedtensor(matrix):
+            return  # the values cannot be checked inside vmap
         if checks_enabled:
-            SO3_base.check_hat_tensor(matrix)
+            with enable_checks():
+                SO3_base.check_hat_tensor(matrix)
         elif not silent_unchecks:
             warnings.warn(
                 "Lie group checks are disabled, so the skew-symmetry of hat matrices is "
@@ -178,7 +185,7 @@ class SO3(LieGroup):
 
     def _compose_impl(self, so3_2: LieGroup) -> "SO3":
         return SO3(
-            tensor=SO3_base.compose(self.tensor, so3_2.tensor), strict_checks=False
+            tensor=SO3_base.compose(self.tensor, so3_2.tensor), disable_checks=True
         )
 
     def _inverse_impl(self, get_jacobian: bool = False) -> "SO3":
-- 
2.43.0


From 92e4d1f5c04d48cfe2ef0b9e16787f5c4428acb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 55/73] fix: shape check of SE3 pose vectors

---
 theseus/geometry/se3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/se3.py b/theseus/geometry/se3.py
index 6f044d7..274f676 100644
--- a/theseus/geometry/se3.py
+++ b/theseus/geometry/se3.py
@@ -133,7 +133,7 @@ class SE3(LieGroup):
         if x_y_z_quaternion.ndim == 1:
             x_y_z_quaternion = x_y_z_quaternion.unsqueeze(0)
 
-        if x_y_z_quaternion.ndim != 2 and x_y_z_quaternion.shape[1] != 7:
+        if x_y_z_quaternion.ndim != 2 or x_y_z_quaternion.shape[1] != 7:
             raise ValueError("x_y_z_quaternion can only be 7-D vectors.")
 
         ret = SE3()
-- 
2.43.0


From 6bd14fba25754e2867367153c18db4315d4d6f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 56/73] fix: SO2 normalization of zero vectors in float64

---
 theseus/global_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/global_params.py b/theseus/global_params.py
index 1d05ae3..0ee0260 100644
--- a/theseus/global_params.py
+++ b/theseus/global_params.py
@@ -49,8 +49,8 @@ class _TheseusGlobalParams:
         self.se2_near_zero_eps_float32 = 3e-2
         self.se2_d_near_zero_eps_float32 = 1e-1
         self.so3_to_quaternion_sqrt_eps_float32 = 1e-6
-        self.so2_norm_eps_float32 = 1e-12
 
+        self.so2_norm_eps_float64 = 1e-12
         self.so2_matrix_eps_float64 = 4e-7
         self.se2_near_zero_eps_float64 = 1e-6
         self.se2_d_near_zero_eps_float64 = 1e-3
-- 
2.43.0


From ba5c9433ee90e3a7a5d8ea19b91f5ead28ae2a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 57/73] fix: SE2.rand and SE2.randn with requires_grad

---
 theseus/geometry/se2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index d672835..5d600fc 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -60,9 +60,9 @@ class SE2(LieGroup):
             device=device,
             requires_grad=requires_grad,
         )
-        x_y_theta[:, 2] = 2 * theseus.constants.PI * (x_y_theta[:, 2] - 0.5)
+        theta = 2 * theseus.constants.PI * (x_y_theta[:, 2:] - 0.5)
 
-        return SE2(x_y_theta=x_y_theta)
+        return SE2(x_y_theta=torch.cat([x_y_theta[:, :2], theta], dim=1))
 
     @staticmethod
     def randn(
@@ -82,9 +82,9 @@ class SE2(LieGroup):
             device=device,
             requires_grad=requires_grad,
         )
-        x_y_theta[:, 2] *= theseus.constants.PI
+        theta = theseus.constants.PI * x_y_theta[:, 2:]
 
-        return SE2(x_y_theta=x_y_theta)
+        return SE2(x_y_theta=torch.cat([x_y_theta[:, :2], theta], dim=1))
 
     def _transform_shape_check(self, point: Union[Point2, torch.Tensor]):
         err_msg = (
-- 
2.43.0


From 1a2d8ea782fb6c0172587cc4fdf60618654f1a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 58/73] fix: the last row of SE2 and SE3 hat matrices must be
 zero

---
 theseus/geometry/se2.py                  | 2 +-
 torchlie/torchlie/functional/se3_impl.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 5d600fc..ebaa476 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -391,7 +391,7 @@ class SE2(LieGroup):
         _check &= torch.allclose(matrix[:, 0, 1], -matrix[:, 1, 0])
         _check &= matrix[:, 0, 0].abs().max().item() < theseus.constants.EPS
         _check &= matrix[:, 1, 1].abs().max().item() < theseus.constants.EPS
-        _check &= matrix[:, 2, 2].abs().max().item() < theseus.constants.EPS
+        _check &= matrix[:, 2].abs().max().item() < theseus.constants.EPS
         if not _check:
             raise ValueError("Invalid hat matrix for SE2.")
         batch_size = matrix.shape[0]
diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index 91866e4..6ed628c 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -50,7 +50,7 @@ def check_tangent_vector(tangent_vector: torch.Tensor):
 
 def check_hat_tensor(tensor: torch.Tensor):
     def _impl(t_: torch.Tensor):
-        if t_[..., -1].abs().max() > LIE_PARAMS.get_eps("se3", "hat", t_.dtype):
+        if t_[..., -1, :].abs().max() > LIE_PARAMS.get_eps("se3", "hat", t_.dtype):
             raise ValueError("The last row for hat tensors of SE3 must be zero")
 
         SO3.check_hat_tensor(t_[..., :3, :3])
-- 
2.43.0


From 38e5c3d1a49edd55154af070faaf91d62e88d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 59/73] fix: SE3.update_from_rot_and_trans counts as an update

---
 theseus/geometry/se3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/geometry/se3.py b/theseus/geometry/se3.py
index 274f676..f0a6169 100644
--- a/theseus/geometry/se3.py
+++ b/theseus/geometry/se3.py
@@ -218,6 +218,7 @@ class SE3(LieGroup):
         self.tensor = torch.cat(
             (rotation.tensor, translation.tensor.unsqueeze(2)), dim=2
         )
+        self._num_updates += 1
 
     @staticmethod
     def hat(tangent_vector: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From 2cf963a04e31ba9ab3d9d7c9c3966cc47f11a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 60/73] fix: second derivatives of forward kinematics for
 selected links

---
 torchkin/torchkin/forward_kinematics.py | 45 +++++++++++++------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/torchkin/torchkin/forward_kinematics.py b/torchkin/torchkin/forward_kinematics.py
index 5c226d1..e7a33e9 100644
--- a/torchkin/torchkin/forward_kinematics.py
+++ b/torchkin/torchkin/forward_kinematics.py
@@ -74,30 +74,35 @@ def ForwardKinematicsFactory(robot: Robot, link_names: Optional[List[str]] = Non
 
         @staticmethod
         def forward(angles):
+            # All related poses are outputs, because backward uses all of them and
+            # higher order derivatives need to be propagated through each one
             poses = _forward_kinematics_helper(angles)
-            rets = tuple(poses[id] for id in link_ids)
-            return *rets, poses
+            return tuple(poses[id] for id in related_link_ids)
 
         @staticmethod
         def setup_context(ctx, inputs, output):
-            ctx.save_for_backward(*output[:-1])
-            ctx.poses = output[-1]
+            ctx.save_for_backward(*output)
 
         @staticmethod
         def backward(ctx, *grad_outputs):
             rets: tuple(torch.Tensor) = ctx.saved_tensors
-            if not hasattr(ctx, "jposes"):
-                ctx.jposes: torch.Tensor = _forward_kinematics_backward_helper(
-                    ctx.poses
-                )
-            grad_pose = grad_outputs[-2].new_zeros(
-                grad_outputs[-2].shape[0], 6, robot.dof
+            jposes: Optional[torch.Tensor] = getattr(ctx, "jposes", None)
+            if jposes is None or torch.is_grad_enabled():
+                poses: List[Optional[torch.Tensor]] = [None] * robot.num_links
+                for link_id, ret in zip(related_link_ids, rets):
+                    poses[link_id] = ret
+                jposes = _forward_kinematics_backward_helper(poses)
+                # jposes can only be reused if they are not differentiated again
+                if not torch.is_grad_enabled():
+                    ctx.jposes = jposes
+            grad_pose = grad_outputs[-1].new_zeros(
+                grad_outputs[-1].shape[0], 6, robot.dof
             )
-            grad_input = grad_outputs[-2].new_zeros(
-                grad_outputs[-2].shape[0], robot.dof
+            grad_input = grad_outputs[-1].new_zeros(
+                grad_outputs[-1].shape[0], robot.dof
             )
 
-            for link_id, ret, grad_output in zip(link_ids, rets, grad_outputs):
+            for link_id, ret, grad_output in zip(related_link_ids, rets, grad_outputs):
                 ancestor_non_fixed_joint_ids = robot.links[
                     link_id
                 ].ancestor_non_fixed_joint_ids
@@ -109,7 +114,7 @@ def ForwardKinematicsFactory(robot: Robot, link_names: Optional[List[str]] = Non
                 ).unsqueeze(-1)
                 grad_pose[:, :, ancestor_non_fixed_joint_ids] += temp
             grad_input[:, joint_ids] = (
-                ctx.jposes[:, :, joint_ids] * grad_pose[:, :, joint_ids]
+                jposes[:, :, joint_ids] * grad_pose[:, :, joint_ids]
             ).sum(-2)
 
             return grad_input
@@ -136,18 +141,14 @@ def get_forward_kinematics_fns(robot: Robot, link_names: Optional[List[str]] = N
         related_link_ids,
     ) = ForwardKinematicsFactory(robot, link_names)
 
-    links = robot.get_links()
-    selected_link_names = [links[id].name for id in related_link_ids]
-    SelectedForwardKinematics, *_ = ForwardKinematicsFactory(robot, selected_link_names)
-
     def forward_kinematics(angles: torch.Tensor):
-        output = ForwardKinematics.apply(angles)
-        return output[:-1]
+        poses = dict(zip(related_link_ids, ForwardKinematics.apply(angles)))
+        return tuple(poses[id] for id in link_ids)
 
     def forward_kinematics_spatial_jacobian(angles: torch.Tensor):
-        selected_poses: torch.Tensor = SelectedForwardKinematics.apply(angles)
+        related_poses = ForwardKinematics.apply(angles)
         poses = [None] * robot.num_links
-        for id, pose in zip(related_link_ids, selected_poses):
+        for id, pose in zip(related_link_ids, related_poses):
             poses[id] = pose
         jposes: torch.Tensor = backward_helper(poses)
 
-- 
2.43.0


From f997db51858dbf061ff3bc39858c7e2b5b885c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 61/73] fix: forward-mode autodiff Jacobians with singleton
 batches

---
 theseus/core/cost_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index f78cfd1..6927554 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -293,7 +293,8 @@ class AutoDiffCostFunction(CostFunction):
     ) -> Tuple[torch.Tensor, ...]:
         return autogradF.jacobian(
             jac_fn,
-            optim_tensors,
+            # forward mode doesn't support expanded tensors
+            tuple(t.contiguous() for t in optim_tensors),
             create_graph=self._autograd_create_graph,
             strict=self._autograd_strict,
             vectorize=self._autograd_vectorize,
-- 
2.43.0


From 12e280b3b220aecbc08e65c3b3e791a5084c5c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 62/73] fix: ManifoldGaussian updates are validated first,
 tangent transforms broadcast and stay symmetric

---
 theseus/optimizer/manifold_gaussian.py | 29 ++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/theseus/optimizer/manifold_gaussian.py b/theseus/optimizer/manifold_gaussian.py
index 8cf1d98..e16e89b 100644
--- a/theseus/optimizer/manifold_gaussian.py
+++ b/theseus/optimizer/manifold_gaussian.py
@@ -81,8 +81,19 @@ class ManifoldGaussian:
                 f"length to original mean sequence. Given: {len(mean)}. "
                 f"Expected: {len(self.mean)}"
             )
-        for i in range(len(self.mean)):
-            self.mean[i].update(mean[i])
+        # check everything first, so that nothing is updated if anything is invalid
+        for old_var, new_var in zip(self.mean, mean):
+            if new_var.shape[1:] != old_var.shape[1:]:
+                raise ValueError(
+                    f"Tried to update mean with data incompatible with original "
+                    f"tensor shape. Given: {new_var.shape[1:]}. "
+                    f"Expected: {old_var.shape[1:]}."
+                )
+            if new_var.dtype != old_var.dtype:
+                raise ValueError(
+                    f"Tried to update mean using tensor of dtype: {new_var.dtype} "
+                    f"but mean has dtype: {old_var.dtype}."
+                )
 
         expected_shape = torch.Size([mean[0].shape[0], self.dof, self.dof])
         if precision.shape != expected_shape:
@@ -104,9 +115,17 @@ class ManifoldGaussian:
         if not torch.allclose(precision, precision.transpose(1, 2)):
             raise ValueError("Tried to update precision with non-symmetric matrix.")
 
+        for i in range(len(self.mean)):
+            self.mean[i].update(mean[i])
         self.precision = precision
 
 
+# Computes jac^T * precision * jac, which can lose its symmetry to rounding errors
+def _transform_precision(jac: torch.Tensor, precision: torch.Tensor) -> torch.Tensor:
+    new_precision = jac.transpose(-1, -2) @ precision @ jac
+    return (new_precision + new_precision.transpose(-1, -2)) / 2
+
+
 # Projects the gaussian (ManifoldGaussian object) into the tangent plane at
 # variable. The gaussian mean is projected using the local function,
 # and the precision is approximately transformed using the jacobains of the exp_map.
@@ -140,7 +159,7 @@ def local_gaussian(
     jac: List[torch.Tensor] = []
     variable.exp_map(mean_tp, jacobians=jac)
     # precision matrix in the tangent space at variable
-    lam_tp = torch.bmm(torch.bmm(jac[0].transpose(-1, -2), gaussian.precision), jac[0])
+    lam_tp = _transform_precision(jac[0], gaussian.precision)
 
     if return_mean:
         return mean_tp, lam_tp
@@ -165,6 +184,8 @@ def retract_gaussian(
     jac: List[torch.Tensor] = []
     variable.exp_map(mean_tp, jacobians=jac)
     inv_jac = torch.inverse(jac[0])
-    precision = torch.bmm(torch.bmm(inv_jac.transpose(-1, -2), precision_tp), inv_jac)
+    precision = _transform_precision(inv_jac, precision_tp)
+    if precision.shape[0] == 1:
+        precision = precision.repeat(mean.shape[0], 1, 1)
 
     return ManifoldGaussian(mean=[mean], precision=precision)
-- 
2.43.0


From 51f1919a54062b579b11317a6630a91329dc736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 63/73] fix: global parameters are validated before any is set,
 and all are reset

---
 theseus/global_params.py           | 5 +++--
 torchlie/torchlie/global_params.py | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/theseus/global_params.py b/theseus/global_params.py
index 0ee0260..a1c4b73 100644
--- a/theseus/global_params.py
+++ b/theseus/global_params.py
@@ -74,7 +74,8 @@ def set_global_params(options: Dict[str, Any]) -> None:
             f"following ones:\n    {torchlie_params_found}.\n"
             f"Please use torchlie.set_global_params() to set these tolerances."
         )
-    for k, v in options.items():
-        if not hasattr(_THESEUS_GLOBAL_PARAMS, k):
+    for k in options:
+        if k not in vars(_THESEUS_GLOBAL_PARAMS):
             raise ValueError(f"{k} is not a valid global option for theseus.")
+    for k, v in options.items():
         setattr(_THESEUS_GLOBAL_PARAMS, k, v)
diff --git a/torchlie/torchlie/global_params.py b/torchlie/torchlie/global_params.py
index 00e7e8e..5424423 100644
--- a/torchlie/torchlie/global_params.py
+++ b/torchlie/torchlie/global_params.py
@@ -56,15 +56,18 @@ class _TorchLieGlobalParams:
         self.so3_quat_eps_float64 = 5e-7
         self.so3_hat_eps_float64 = 5e-7
         self.se3_hat_eps_float64 = 5e-7
+        self._allow_passthrough_ops = False
+        self._faster_log_maps = False
 
 
 _TORCHLIE_GLOBAL_PARAMS = _TorchLieGlobalParams()
 
 
 def set_global_params(options: Dict[str, Any]) -> None:
-    for k, v in options.items():
-        if not hasattr(_TORCHLIE_GLOBAL_PARAMS, k):
+    for k in options:
+        if k not in vars(_TORCHLIE_GLOBAL_PARAMS):
             raise ValueError(f"{k} is not a valid global option for torchlie.")
+    for k, v in options.items():
         setattr(_TORCHLIE_GLOBAL_PARAMS, k, v)
 
 
-- 
2.43.0


From 0ef3deb5fb5254557ffd957b5bab2da82222e890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 64/73] fix: masked_variables restores the tensors found on
 entry, and leaves nothing masked if it fails

---
 theseus/core/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index c5a8960..c5f6cf2 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -137,12 +137,12 @@ class masked_variables:
     def __init__(self, vars: List[Variable], mask: torch.Tensor) -> None:
         assert mask.dtype == torch.bool and mask.ndim == 1
         self._vars = vars
-        self._original_tensors = [v.tensor for v in vars]
         self._mask = mask
 
     def __enter__(self) -> None:
+        assert all(v.shape[0] == self._mask.shape[0] for v in self._vars)
+        self._original_tensors = [v.tensor for v in self._vars]
         for v in self._vars:
-            assert v.shape[0] == self._mask.shape[0]
             v.update(v.tensor[self._mask])
 
     def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
-- 
2.43.0


From 86c638efdea5304665226cf43183ce48ab079052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 65/73] fix: as_euclidean takes effect on entry

---
 torchlie/torchlie/lie_tensor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index 5e518ce..9e5f9fc 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -40,13 +40,10 @@ class _LieAsEuclideanContext:
 
 
 class as_euclidean:
-    def __init__(self) -> None:
+    def __enter__(self) -> None:
         self.prev = _LieAsEuclideanContext.get_context()
         _LieAsEuclideanContext.set_context(True)
 
-    def __enter__(self) -> None:
-        pass
-
     def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
         _LieAsEuclideanContext.set_context(self.prev)
 
-- 
2.43.0


From 11a6577fb7f7a30c099104326f010e72b43e5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 66/73] fix: optimizers after a dtype conversion of their
 objective

---
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index e41afbe..ad4d3d1 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -312,6 +312,8 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
     # in the objective.
     def _update_tmp_optim_vars(self):
         for v_tmp, v_order in zip(self._tmp_optim_vars, self.ordering):
+            # the dtype changes if the objective is converted with to()
+            v_tmp.to(dtype=v_order.dtype)
             v_tmp.update(v_order.tensor)
 
     def _compute_retracted_tensors_and_error(
-- 
2.43.0


From 0a4b07f6ae9a579a601361af17639c0ab09704f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 67/73] fix: DCEM samples in the dtype of its objective

---
 theseus/optimizer/nonlinear/dcem.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index 36a91c5..7c300ad 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -86,7 +86,9 @@ class DCEM(NonlinearOptimizer):
     def reset_sigma(self, init_sigma: Union[float, torch.Tensor]) -> None:
         self.sigma = (
             torch.ones(
-                (self.objective.batch_size, self._tot_dof), device=self.objective.device
+                (self.objective.batch_size, self._tot_dof),
+                device=self.objective.device,
+                dtype=self.objective.dtype,
             )
             * init_sigma
         )
@@ -135,9 +137,9 @@ class DCEM(NonlinearOptimizer):
         else:
             indexes_vals = fX.argsort(dim=1)[:, : self.n_elite]
             # Scatter 1.0 to the indexes using indexes_vals
-            indexes = torch.zeros(n_batch, self.n_samples, device=device).scatter_(
-                1, indexes_vals, 1.0
-            )
+            indexes = torch.zeros(
+                n_batch, self.n_samples, device=device, dtype=fX.dtype
+            ).scatter_(1, indexes_vals, 1.0)
             indexes = indexes.unsqueeze(2)
             eps = 1e-10
         # indexes.shape should be (n_batch, n_sample, 1)
-- 
2.43.0


From 85158cff5adeb33e243118e3f42e703b7639697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 68/73] fix: cached Local jacobians after a dtype conversion

---
 theseus/embodied/misc/local_cost_fn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/embodied/misc/local_cost_fn.py b/theseus/embodied/misc/local_cost_fn.py
index c64666a..ff53e8c 100644
--- a/theseus/embodied/misc/local_cost_fn.py
+++ b/theseus/embodied/misc/local_cost_fn.py
@@ -44,6 +44,8 @@ class Local(CostFunction):
             if (
                 self._jac_cache is not None
                 and self._jac_cache.shape[0] == self.var.shape[0]
+                and self._jac_cache.dtype == self.var.dtype
+                and self._jac_cache.device == self.var.device
             ):
                 jacobian = self._jac_cache
             else:
-- 
2.43.0


From 879cc77ba2faff53feec78343a68255ee419cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:29 +0000
Subject: [PATCH 69/73] fix: DLM backward after a dtype conversion of the
 objective

---
 theseus/theseus_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 198a90d..77741a7 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -69,9 +69,10 @@ class TheseusLayer(nn.Module):
 
             if self._dlm_bwd_objective is None:
                 _obj, _opt = _instantiate_dlm_bwd_objective(self.objective)
-                _obj.to(self.device)
                 self._dlm_bwd_objective = _obj
                 self._dlm_bwd_optimizer = _opt
+            # The objective could have been converted since the last forward
+            self._dlm_bwd_objective.to(device=self.device, dtype=self.dtype)
 
             # The backward objective also needs the auxiliary variables that keep their
             # current values because they are not part of the inputs.
-- 
2.43.0


From db96e8624c55385b48521cbde4d88bf487f898d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:29 +0000
Subject: [PATCH 70/73] fix: compute_samples in the dtype of the objective

---
 theseus/theseus_layer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 77741a7..7f8da2e 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -121,14 +121,14 @@ class TheseusLayer(nn.Module):
 
         batch_size, n_vars = delta.shape
         y = torch.normal(
-            mean=torch.zeros((n_vars, n_samples), device=delta.device),
-            std=torch.ones((n_vars, n_samples), device=delta.device),
+            mean=delta.new_zeros((n_vars, n_samples)),
+            std=delta.new_ones((n_vars, n_samples)),
         )
         delta_samples = (torch.linalg.solve_triangular(sqrt_AtA, y, upper=True)) + (
             delta.unsqueeze(-1)
         ).repeat(1, 1, n_samples)
 
-        x_samples = torch.zeros((batch_size, n_vars, n_samples), device=delta.device)
+        x_samples = delta.new_zeros((batch_size, n_vars, n_samples))
         for sidx in range(0, n_samples):
             var_idx = 0
             for var in linear_solver.linearization.ordering:
-- 
2.43.0


From 8059416632483302ecf3ba9b01d33446fa3ed1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:52 +0000
Subject: [PATCH 71/73] fix: resolve the batch size when evaluating vectorized
 cost functions

---
 theseus/core/vectorizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index b476d28..e21ff3c 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -382,6 +382,8 @@ class Vectorize:
     def _vectorize(
         self, mode: _VectorizationMode = _VectorizationMode.FULL
     ) -> Iterable[_CostFunctionWrapper]:
+        # Variables could have been updated without calling `Objective.update()`
+        self._objective._resolve_batch_size()
         if mode == _VectorizationMode.FULL:
             # In full mode we compute error and jacobians and update the vectorizer's
             # permanent cache.
-- 
2.43.0


From 64e80679bd84a777831ede1575bced33901dacfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:50 +0000
Subject: [PATCH 72/73] fix: linearizations accumulate the Jacobians of a
 repeated variable

---
 theseus/optimizer/dense_linearization.py  |  3 ++-
 theseus/optimizer/sparse_linearization.py | 29 +++++++++++------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/theseus/optimizer/dense_linearization.py b/theseus/optimizer/dense_linearization.py
index 33caada..5ec1eb1 100644
--- a/theseus/optimizer/dense_linearization.py
+++ b/theseus/optimizer/dense_linearization.py
@@ -50,7 +50,8 @@ class DenseLinearization(Linearization):
                 num_cols = var_jacobian.shape[2]
                 row_slice = slice(err_row_idx, err_row_idx + num_rows)
                 col_slice = slice(var_start_col, var_start_col + num_cols)
-                self.A[:, row_slice, col_slice] = var_jacobian
+                # accumulates, a cost function can use a variable more than once
+                self.A[:, row_slice, col_slice] += var_jacobian
 
             self.b[:, row_slice] = -error
             err_row_idx += cost_function.dim()
diff --git a/theseus/optimizer/sparse_linearization.py b/theseus/optimizer/sparse_linearization.py
index 6bebff2..4a43511 100644
--- a/theseus/optimizer/sparse_linearization.py
+++ b/theseus/optimizer/sparse_linearization.py
@@ -3,7 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-from typing import List, Optional
+from typing import List, Optional, Tuple
 
 import numpy as np
 import torch
@@ -41,7 +41,7 @@ class SparseLinearization(Linearization):
 
         for _, cost_function in enumerate(self.objective._get_jacobians_iter()):
             num_rows = cost_function.dim()
-            col_slices_indices = []
+            col_slices: List[Tuple[int, int]] = []
             for var_idx_in_cost_function, variable in enumerate(
                 cost_function.optim_vars
             ):
@@ -50,22 +50,21 @@ class SparseLinearization(Linearization):
                 )
                 var_start_col = self.var_start_cols[var_idx_in_order]
                 num_cols = variable.dof()
-                col_slice = slice(var_start_col, var_start_col + num_cols)
-                col_slices_indices.append((col_slice, var_idx_in_cost_function))
+                col_slices.append((var_start_col, var_start_col + num_cols))
 
-            # sort according to how they will be written inside A
-            col_slices_indices.sort()
-            sorted_block_sizes = [(s.stop - s.start) for s, _ in col_slices_indices]
+            # sort according to how they will be written inside A, a variable that is
+            # used more than once by the cost function has a single block
+            sorted_slices = sorted(set(col_slices))
+            sorted_block_sizes = [stop - start for start, stop in sorted_slices]
             sorted_block_pointers = np.cumsum([0] + sorted_block_sizes)[:-1]
-            sorted_indices = np.array([i for _, i in col_slices_indices])
-            block_pointers: np.ndarray = np.ndarray(
-                (len(col_slices_indices),), dtype=int
+            block_pointers: np.ndarray = np.array(
+                [sorted_block_pointers[sorted_slices.index(s)] for s in col_slices],
+                dtype=int,
             )
-            block_pointers[sorted_indices] = sorted_block_pointers
             cost_function_block_pointers.append(block_pointers)
 
             cost_function_row_block_starts.append(len(A_col_ind))
-            col_ind = [c for s, _ in col_slices_indices for c in range(s.start, s.stop)]
+            col_ind = [c for start, stop in sorted_slices for c in range(start, stop)]
             cost_function_stride.append(len(col_ind))
 
             for _ in range(num_rows):
@@ -104,8 +103,8 @@ class SparseLinearization(Linearization):
         self._Atb = None
         self._AtA_diag = None
 
-        # those will be fully overwritten, no need to zero:
-        self.A_val = torch.empty(
+        # blocks are accumulated, a cost function can use a variable more than once
+        self.A_val = torch.zeros(
             size=(self.objective.batch_size, len(self.A_col_ind)),
             device=self.objective.device,
             dtype=self.objective.dtype,
@@ -134,7 +133,7 @@ class SparseLinearization(Linearization):
                 # the proper block is written, using the precomputed index in `block_pointers`
                 num_cols = var_jacobian.shape[2]
                 pointer = block_pointers[var_idx_in_cost_function]
-                block[:, :, pointer : pointer + num_cols] = var_jacobian
+                block[:, :, pointer : pointer + num_cols] += var_jacobian
 
             self.b[:, row_slice] = -error
             err_row_idx += cost_function.dim()
-- 
2.43.0


From 55fc28101a158938f83ac11bf3b4a9c549cac81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:00 +0000
Subject: [PATCH 73/73] fix: new_lietensor keeps nested list data at the
 requested precision

---
 torchlie/torchlie/lie_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index 9e5f9fc..a4a51d8 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -257,8 +257,8 @@ class LieTensor(_LieTensorBase):
             tensor_arg = args
             dtype = dtype or args.dtype
         else:
-            tensor_arg = torch.as_tensor(args)
             dtype = dtype or torch.get_default_dtype()
+            tensor_arg = torch.as_tensor(args, dtype=dtype)
         return LieTensor(tensor_arg.to(device=device, dtype=dtype), ltype=self.ltype)
 
     # ------------------------------------------------------
-- 
2.43.0

