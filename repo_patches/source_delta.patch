From 246294d220f3a6e326d53ff00f7644a63491d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 01/52] fix: self-attribution of inner-product attributors with
 several training batches or RelatIF

The scores of every batch were added onto the whole output vector instead of
the rows of that batch, and the RelatIF denominator was broadcast into a matrix.
---
 dattri/algorithm/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dattri/algorithm/base.py b/dattri/algorithm/base.py
index 66ccd2f..d489a8b 100644
--- a/dattri/algorithm/base.py
+++ b/dattri/algorithm/base.py
@@ -500,7 +500,7 @@ class BaseInnerProductAttributor(BaseAttributor):
         for checkpoint_idx in range(len(self.task.get_checkpoints())):
             # Multiply by current index to prepare for running average
             tda_output *= checkpoint_idx
-            for _, train_batch_data_ in enumerate(
+            for train_batch_idx, train_batch_data_ in enumerate(
                 tqdm(
                     train_dataloader,
                     desc="calculating gradient of training set...",
@@ -573,15 +573,14 @@ class BaseInnerProductAttributor(BaseAttributor):
                     )
                 influence_values = (
                     torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep)
-                    / denom.unsqueeze(-1)
+                    / denom
                     if denom is not None
                     else torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep)
                 )
 
-                tda_output += (
-                    # Accumulate influence values across checkpoints
-                    influence_values
-                )
+                # Accumulate influence values across checkpoints
+                row_st = train_batch_idx * train_dataloader.batch_size
+                tda_output[row_st : row_st + len(influence_values)] += influence_values
             tda_output /= (
                 checkpoint_idx + 1
             )  # Calculate running average by dividing by number of checkpoints
-- 
2.43.0


From 459ce7ebed339258ec24cddd777a95771b2f9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 02/52] fix: TRAK without cache() flattens the correctness
 probabilities as cache() does

---
 dattri/algorithm/trak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index d2a66d0..5969630 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -320,7 +320,7 @@ class TRAKAttributor(BaseAttributor):
                                     self.task.get_model(),
                                 ),
                                 train_batch_data,
-                            )
+                            ).flatten()
                         )
                         .clone()
                         .detach(),
@@ -508,7 +508,7 @@ class TRAKAttributor(BaseAttributor):
                                     self.task.get_model(),
                                 ),
                                 train_batch_data,
-                            )
+                            ).flatten()
                         )
                         .clone()
                         .detach(),
-- 
2.43.0


From 3d47a181048f69a9353a98dc111ae1c22739d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 03/52] fix: TRAK self-attribution after cache() and its
 documented shape

With a cached training set the features were undefined (and None was checked
for shuffling); the result had shape (n, 1) instead of (n,).
---
 dattri/algorithm/trak.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index 5969630..e94bd98 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -118,6 +118,7 @@ class TRAKAttributor(BaseAttributor):
         _check_shuffle(full_train_dataloader)
         self.full_train_dataloader = full_train_dataloader
         inv_XTX_XT_list = []
+        train_projected_grad_list = []
         running_Q = 0
         running_count = 0
         for ckpt_idx in range(len(self.task.get_checkpoints())):
@@ -195,10 +196,12 @@ class TRAKAttributor(BaseAttributor):
             kernel_matrix.diagonal().add_(self.regularization)
             inv_XTX_XT = torch.linalg.solve(kernel_matrix, full_train_projected_grad.T)
             inv_XTX_XT_list.append(inv_XTX_XT)
+            train_projected_grad_list.append(full_train_projected_grad)
             running_Q = running_Q * running_count + Q
             running_count += 1  # noqa: SIM113
             running_Q /= running_count
         self.inv_XTX_XT_list = inv_XTX_XT_list
+        self.train_projected_grad_list = train_projected_grad_list
         self.Q = running_Q
 
     def attribute(  # noqa: PLR0912, PLR0914, PLR0915
@@ -415,8 +418,6 @@ class TRAKAttributor(BaseAttributor):
                 dataloader is cached or no train_loader is provided in both cases.
             TypeError: If train/test data is not tuple, list, or dict.
         """
-        test_dataloader = train_dataloader
-        _check_shuffle(test_dataloader)
         if train_dataloader is not None:
             _check_shuffle(train_dataloader)
 
@@ -532,7 +533,7 @@ class TRAKAttributor(BaseAttributor):
                     running_xinv_XTX_XT * running_count
                     + torch.einsum(
                         "ij,ij->i",
-                        train_projected_grad,
+                        self.train_projected_grad_list[ckpt_idx],
                         self.inv_XTX_XT_list[ckpt_idx].T,
                     )
                 )
@@ -544,5 +545,5 @@ class TRAKAttributor(BaseAttributor):
                 running_Q /= running_count
             running_xinv_XTX_XT /= running_count
         if train_dataloader is not None:
-            return (running_xinv_XTX_XT * running_Q.to(self.device).unsqueeze(0)).T
-        return (running_xinv_XTX_XT * self.Q.to(self.device).unsqueeze(0)).T
+            return running_xinv_XTX_XT * running_Q.to(self.device)
+        return running_xinv_XTX_XT * self.Q.to(self.device)
-- 
2.43.0


From d4bec942794e56880bfb905aa168c60809be0d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 04/52] fix: evaluating a partial-parameter function no longer
 changes the task's parameters

partial_param wrote the given layers into the shared parameter dictionary, so
later get_param / loss calls saw the values of the last evaluation.
---
 dattri/func/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dattri/func/utils.py b/dattri/func/utils.py
index ba58561..e17a65b 100644
--- a/dattri/func/utils.py
+++ b/dattri/func/utils.py
@@ -309,14 +309,16 @@ def partial_param(
         @functools.wraps(function)
         def _function_partial(*args, **kwargs: Dict[str, Any]) -> torch.Tensor:
             new_args = list(args)
+            # work on a copy: the caller's dictionary must keep its values
+            params = dict(full_param)
             index_counter = 0
             for layer in layer_name:
                 length_param = full_param[layer].numel()
-                full_param[layer] = new_args[param_num][
+                params[layer] = new_args[param_num][
                     index_counter : index_counter + length_param
                 ]
                 index_counter += length_param
-            new_args[param_num] = flatten_params(full_param)
+            new_args[param_num] = flatten_params(params)
             return function(*new_args, **kwargs)
 
         return _function_partial
-- 
2.43.0


From 0459bc48dafe84c69bbe0d5f1e85cf1126ab6030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 05/52] fix: partial-parameter functions keep the other layers
 of their own checkpoint

Loading another checkpoint changes the model's parameters in place, which
silently changed the functions already made for the previous checkpoint.
---
 dattri/task.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/task.py b/dattri/task.py
index fc57f3c..7f3d057 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -172,8 +172,12 @@ class AttributionTask:
                 self.checkpoints[ckpt_idx],
             )
             self.current_checkpoint_idx = ckpt_idx
+            # copies: loading another checkpoint overwrites the model in place, while
+            # functions made for this checkpoint keep using these values
             self.named_parameters = {
-                k: p for k, p in self.model.named_parameters() if p.requires_grad
+                k: p.clone()
+                for k, p in self.model.named_parameters()
+                if p.requires_grad
             }
 
     @staticmethod
-- 
2.43.0


From 499942a940977f989dd7014ba41f8ce9f678c29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 06/52] fix: accept a single layer name given as a string

The documented string form was iterated character by character.
---
 dattri/func/utils.py | 3 +++
 dattri/task.py       | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/dattri/func/utils.py b/dattri/func/utils.py
index e17a65b..922759f 100644
--- a/dattri/func/utils.py
+++ b/dattri/func/utils.py
@@ -295,6 +295,9 @@ def partial_param(
             partial parameter.
     """
 
+    if isinstance(layer_name, str):
+        layer_name = [layer_name]
+
     def partial_param_wrapper(function: Callable) -> Callable:
         """A wrapper function that edit the parameter from full to partial.
 
diff --git a/dattri/task.py b/dattri/task.py
index 7f3d057..ffe8449 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -430,6 +430,8 @@ class AttributionTask:
         self._load_checkpoints(ckpt_idx)
 
         if layer_name is not None:
+            if isinstance(layer_name, str):
+                layer_name = [layer_name]
             named_parameters = {
                 k: self.named_parameters[k]
                 for k in layer_name
-- 
2.43.0


From 564ca43254bf000f7c8793f3c8118a6c1ba76c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 07/52] fix: Hessian-vector products with scalar or integer
 further arguments

The forward mode failed on 0-dim arguments (torch.zeros() without a size) and both
modes differentiated every argument, which integer arguments do not allow.
---
 dattri/func/hessian.py | 66 +++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index f2fc444..1e2c560 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -28,6 +28,27 @@ from torch import Tensor
 from torch.func import grad, hessian, jvp, vjp, vmap
 
 
+def _partial_grad(
+    grad_func: Callable,
+    x: Tuple[torch.Tensor, ...],
+    argnums: int,
+) -> Callable:
+    """Return `grad_func` as a function of the `argnums`-th argument only.
+
+    The other arguments stay fixed, so that they can be scalars or integer tensors.
+
+    Args:
+        grad_func (Callable): A function taking `*x`.
+        x (Tuple[torch.Tensor, ...]): The arguments of `grad_func`.
+        argnums (int): The index of the argument that is left open.
+
+    Returns:
+        A function of one tensor.
+    """
+    argnums %= len(x)
+    return lambda arg: grad_func(*x[:argnums], arg, *x[argnums + 1 :])
+
+
 def hvp(
     func: Callable,
     argnums: int = 0,
@@ -89,8 +110,8 @@ def hvp(
             Returns:
                 (Tensor) The hessian vector production.
             """
-            _, vjp_fn = vjp(grad_func, *x)
-            return vjp_fn(v)[argnums] + regularization * v
+            _, vjp_fn = vjp(_partial_grad(grad_func, x, argnums), x[argnums])
+            return vjp_fn(v)[0] + regularization * v
     else:
 
         def _hvp_func(x: Tuple[torch.Tensor, ...], v: Tensor) -> Tensor:
@@ -105,18 +126,10 @@ def hvp(
             Returns:
                 (Tensor) The hessian vector production.
             """
-            if len(x) > 1:
-                v_patched = []
-                for i in range(len(x)):
-                    if i != argnums:
-                        v_patched.append(torch.zeros(*x[i].shape))
-                    else:
-                        v_patched.append(v)
-                v_patched = tuple(v_patched)
-            else:
-                v_patched = (v,)
-
-            return jvp(grad_func, x, v_patched)[1] + regularization * v
+            return (
+                jvp(_partial_grad(grad_func, x, argnums), (x[argnums],), (v,))[1]
+                + regularization * v
+            )
 
     return _hvp_func
 
@@ -176,7 +189,7 @@ def hvp_at_x(
     grad_func = grad(func, argnums=argnums)
     if mode == "rev-rev":
         # pylint: disable=unbalanced-tuple-unpacking
-        _, vjp_fn = vjp(grad_func, *x)
+        _, vjp_fn = vjp(_partial_grad(grad_func, x, argnums), x[argnums])
 
         def _hvp_at_x_func(v: Tensor) -> Tensor:
             """The HVP function based on func.
@@ -188,14 +201,8 @@ def hvp_at_x(
             Returns:
                 (Tensor) The hessian vector production.
             """
-            return vjp_fn(v)[argnums] + regularization * v
+            return vjp_fn(v)[0] + regularization * v
     else:
-        # patch the v, make zero for other input
-        # e.g.,
-        # if argnums = 1, and len(x) = 3, then it should be patched to
-        # [torch.zeros(*x[0].shape),
-        # v,
-        # torch.zeros(*x[2].shape)]
         def _hvp_at_x_func(v: Tensor) -> Tensor:
             """The HVP function based on func.
 
@@ -206,17 +213,10 @@ def hvp_at_x(
             Returns:
                 (Tensor) The hessian vector production.
             """
-            if len(x) > 1:
-                v_patched = []
-                for i in range(len(x)):
-                    if i != argnums:
-                        v_patched.append(torch.zeros(*x[i].shape))
-                    else:
-                        v_patched.append(v)
-                v_patched = tuple(v_patched)
-            else:
-                v_patched = (v,)
-            return jvp(grad_func, x, v_patched)[1] + regularization * v
+            return (
+                jvp(_partial_grad(grad_func, x, argnums), (x[argnums],), (v,))[1]
+                + regularization * v
+            )
 
     return _hvp_at_x_func
 
-- 
2.43.0


From 8ff6ec1766dce0ad1a507c4bbe93052ec1460260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 08/52] fix: conjugate gradient no longer returns NaN once the
 residual has vanished

---
 dattri/func/hessian.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index 1e2c560..c0f61db 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -463,6 +463,10 @@ def ihvp_at_x_cg(
         if v.ndim == 1:
             v = v.unsqueeze(0)
 
+        def _ratio(num: Tensor, den: Tensor) -> Tensor:
+            # 0 once the residual has vanished, where the quotient is 0 / 0
+            return torch.where(den == 0, torch.zeros_like(num), num / den)
+
         def _cg(v_i: Tensor) -> Tensor:
             x_pre = torch.clone(v_i)
             ihvp_res = x_pre
@@ -475,11 +479,11 @@ def ihvp_at_x_cg(
                 # Still in prototype stage.
 
                 ad = hvp_at_x_func(d)
-                alpha = torch.dot(g_pre, d_pre) / torch.dot(d, ad)
+                alpha = _ratio(torch.dot(g_pre, d_pre), torch.dot(d, ad))
                 ihvp_res += alpha * d
                 g = g_pre - alpha * ad
 
-                beta = torch.dot(g, g) / torch.dot(g_pre, g_pre)
+                beta = _ratio(torch.dot(g, g), torch.dot(g_pre, g_pre))
 
                 g_pre = d_pre = g
                 d = g + beta * d
-- 
2.43.0


From 51d3d5d0fb3d31e3d4b574ccc2216321002a9be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 09/52] fix: ihvp_at_x_lissa no longer exchanges the batch size
 and the number of repetitions

---
 dattri/func/hessian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index c0f61db..c2242bc 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -993,8 +993,8 @@ def ihvp_at_x_lissa(
         ihvp_lissa_func = ihvp_lissa(
             func,
             argnums,
-            num_repeat,
             batch_size,
+            num_repeat,
             recursion_depth,
             damping,
             scaling,
-- 
2.43.0


From e8e62190caa51f287c750c98dd9834d4e78640a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 10/52] fix: the explicit Fisher matrix is the outer product of
 the gradient

---
 dattri/func/fisher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index fe879dd..398a88d 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -73,7 +73,7 @@ def ifvp_explicit(
         """
         grad_tensor = grad_func(*x)
         return torch.linalg.solve(
-            grad_tensor @ grad_tensor.T
+            torch.outer(grad_tensor, grad_tensor)
             + torch.eye(grad_tensor.shape[0]).to(v.device) * regularization,
             v.T,
         ).T
@@ -116,7 +116,7 @@ def ifvp_at_x_explicit(
         of `func` and `v`.
     """
     grad_tensor = grad(func, argnums=argnums)(*x)
-    fim = grad_tensor @ grad_tensor.T
+    fim = torch.outer(grad_tensor, grad_tensor)
 
     def _ifvp_at_x_explicit_func(v: Tensor) -> Tensor:
         """The IFVP function using explicit FIM.
-- 
2.43.0


From d7d721dc5cb595db45d505512ce8d3059dafa65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 11/52] fix: DataInf splits representations over the selected
 layers

---
 dattri/algorithm/influence_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 0033745..596455f 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -839,6 +839,7 @@ class IFAttributorDataInf(BaseInnerProductAttributor):
         """
         model_params, param_layer_map = self.task.get_param(
             ckpt_idx,
+            layer_name=self.layer_name,
             layer_split=True,
         )
         split_index = [0] * (param_layer_map[-1] + 1)
-- 
2.43.0


From 50425fedfc57ed43d2931f9d1d086963fb25c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 12/52] fix: EK-FAC statistics for sequential
 (three-dimensional) layer inputs

---
 dattri/func/fisher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index 398a88d..5c6dcbb 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -264,6 +264,7 @@ def _update_covariance(
         # Uniformly reshape the tensors into (batch_size, t, ...)
         # The t here is the sequence length or time steps for sequential input
         # t = 1 if the given input is not sequential
+        a_prev = a_prev_raw
         if a_prev_raw.ndim == 2:  # noqa: PLR2004
             a_prev = a_prev_raw.unsqueeze(1)
 
@@ -334,7 +335,7 @@ def _update_lambda(
         # Uniformly reshape the tensors into (batch_size, t, ...)
         # The t here is the sequence length or time steps for sequential input
         # t = 1 if the given input is not sequential
-        ds_curr = s_curr_raw.grad
+        a_prev, ds_curr = a_prev_raw, s_curr_raw.grad
         if a_prev_raw.ndim == 2:  # noqa: PLR2004
             a_prev = a_prev_raw.unsqueeze(1)
             ds_curr = ds_curr.unsqueeze(1)
-- 
2.43.0


From 3b04666b594cf633c8236bc40627fa3fd53736bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 13/52] fix: EK-FAC projects on the eigenvectors, the columns
 of the eigenvector matrices

---
 dattri/algorithm/influence_function.py | 2 +-
 dattri/func/fisher.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 596455f..c54ca5b 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1085,7 +1085,7 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             _lambda = self.cached_lambdas[name]
             q_a, q_s = self.cached_q[name]
 
-            _ifvp = q_s.T @ ((q_s @ _v @ q_a.T) / (_lambda + self.damping)) @ q_a
+            _ifvp = q_s @ ((q_s.T @ _v @ q_a) / (_lambda + self.damping)) @ q_a.T
             ifvp[name] = _ifvp.flatten(start_dim=1)
 
         # Flatten the parameters again
diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index 5c6dcbb..1d1e796 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -366,7 +366,7 @@ def _update_lambda(
         # An equivalent way to calculate lambda's. Please refer to
         # https://math.stackexchange.com/questions/1879933/vector-multiplication-with-multiple-kronecker-products
         q_a, q_s = cached_q[layer_name]
-        batch_lambda = torch.square(q_s @ batch_dtheta @ q_a.T).mean(axis=0)
+        batch_lambda = torch.square(q_s.T @ batch_dtheta @ q_a).mean(axis=0)
 
         # Update the running eigenvalue estimation
         if layer_name in curr_estimate:
-- 
2.43.0


From d456757ff282566803ebde30033e6406245c329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:52 +0000
Subject: [PATCH 14/52] fix: EK-FAC keeps weights and biases in the layout of
 the layer's gradients

---
 dattri/algorithm/influence_function.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index c54ca5b..bedff4e 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1068,17 +1068,16 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
         ifvp = {}
 
         for name in self.module_name:
-            if self.name_to_module[name].bias is not None:
-                dim_out = layer_test_rep[name + ".weight"].shape[1]
-                dim_in = layer_test_rep[name + ".weight"].shape[2] + 1
+            has_bias = self.name_to_module[name].bias is not None
+            if has_bias:
+                # The bias is the last column, as in the cached layer inputs
                 _v = torch.cat(
                     [
-                        layer_test_rep[name + ".weight"].flatten(start_dim=1),
-                        layer_test_rep[name + ".bias"].flatten(start_dim=1),
+                        layer_test_rep[name + ".weight"],
+                        layer_test_rep[name + ".bias"].unsqueeze(-1),
                     ],
                     dim=-1,
                 )
-                _v = _v.reshape(-1, dim_out, dim_in)
             else:
                 _v = layer_test_rep[name + ".weight"]
 
@@ -1086,9 +1085,13 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             q_a, q_s = self.cached_q[name]
 
             _ifvp = q_s @ ((q_s.T @ _v @ q_a) / (_lambda + self.damping)) @ q_a.T
-            ifvp[name] = _ifvp.flatten(start_dim=1)
+            if has_bias:
+                ifvp[name + ".weight"] = _ifvp[..., :-1].flatten(start_dim=1)
+                ifvp[name + ".bias"] = _ifvp[..., -1]
+            else:
+                ifvp[name + ".weight"] = _ifvp.flatten(start_dim=1)
 
         # Flatten the parameters again
-        transformed_test_rep_layers = [ifvp[name] for name in self.module_name]
+        transformed_test_rep_layers = [ifvp[name] for name in self.layer_name]
 
         return torch.cat(transformed_test_rep_layers, dim=1)
-- 
2.43.0


From 18708d6b774c45cc011d2080c5bd5ca7a0e2ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 15/52] fix: Arnoldi iteration with a norm constant other than
 one

---
 dattri/func/hessian.py    | 5 +++--
 dattri/func/projection.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index c2242bc..0b4c93a 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -656,7 +656,7 @@ def ihvp_at_x_arnoldi(
         proj = []
         appr_mat = torch.zeros((n_iters, n_iters - 1)).to(device)
 
-        start_vec /= torch.norm(start_vec)
+        start_vec *= norm_constant / torch.norm(start_vec)
         proj.append(start_vec)
 
         for n in range(n_iters - 1):
@@ -677,7 +677,8 @@ def ihvp_at_x_arnoldi(
             h_vec *= 1.0 / appr_mat[n + 1][n]
             proj.append(h_vec)
 
-        return appr_mat, torch.stack(proj, dim=0)
+        # unit vectors, whatever their norm during the iteration
+        return appr_mat, torch.stack(proj, dim=0) / norm_constant
 
     def _distill(
         appr_mat: Tensor,
diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index d06f2e0..0d3d911 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -945,7 +945,7 @@ class ArnoldiProjector(AbstractProjector):
         proj = []
         appr_mat = torch.zeros((n_iters, n_iters - 1)).to(device)
 
-        start_vec /= torch.norm(start_vec)
+        start_vec *= norm_constant / torch.norm(start_vec)
         proj.append(start_vec)
 
         for n in range(n_iters - 1):
@@ -966,7 +966,8 @@ class ArnoldiProjector(AbstractProjector):
             h_vec *= 1.0 / appr_mat[n + 1][n]
             proj.append(h_vec)
 
-        return appr_mat, torch.stack(proj, dim=0)
+        # unit vectors, whatever their norm during the iteration
+        return appr_mat, torch.stack(proj, dim=0) / norm_constant
 
     def _distill(  # noqa: PLR6301
         self,
-- 
2.43.0


From 454909c7f8ff0a9540d8d0275c870d258a794b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 16/52] fix: the Arnoldi projector ignores the eigenpairs that
 are not positive

---
 dattri/func/projection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 0d3d911..9fd8e8d 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -1031,9 +1031,13 @@ class ArnoldiProjector(AbstractProjector):
         self.eigvals, self.eigvecs = self._distill(appr_mat, proj, self.proj_dim)
 
         # prevent from negative eigvals
-        if self.proj_dim > torch.sum(self.eigvals > self.tol**2):
+        positive = self.eigvals > self.tol**2
+        if self.proj_dim > torch.sum(positive):
             # adjust proj_dim
-            self.proj_dim = torch.sum(self.eigvals > self.tol**2).item()
+            self.proj_dim = torch.sum(positive).item()
+            # the eigenpairs that are not positive project to zero
+            self.eigvals = torch.where(positive, self.eigvals, 1.0)
+            self.eigvecs = torch.where(positive.unsqueeze(1), self.eigvecs, 0.0)
             warnings.warn(
                 "Encountered many negative eigenvalues and `proj_dim` is greater"
                 " than the number of positive eigenvalues. Automatically adjusting"
-- 
2.43.0


From 33a453256fee28eddc96dc251425ca1b1c007b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 17/52] fix: the Arnoldi attributor accepts dictionary and
 tuple batches

---
 dattri/algorithm/influence_function.py | 29 ++++++++++++--------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index bedff4e..12d8b8e 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -390,23 +390,20 @@ class IFAttributorArnoldi(BaseInnerProductAttributor):
                 break
             data_target_pair_list.append(batch)
 
-        # concatenate all data
-        data_target_pair = data_target_pair_list[0]
-        for batch_idx in range(1, len(data_target_pair_list)):
-            for data_item_idx in range(len(data_target_pair_list[0])):
-                data_target_pair[data_item_idx] = torch.cat(
-                    (
-                        data_target_pair[data_item_idx],
-                        data_target_pair_list[batch_idx][data_item_idx],
-                    ),
-                    dim=0,
+        # concatenate all data and move to device
+        first_batch = data_target_pair_list[0]
+        if isinstance(first_batch, dict):
+            data_target_pair = {
+                k: torch.cat([batch[k] for batch in data_target_pair_list]).to(
+                    self.device,
                 )
-
-        # to device (only once for all data)
-        for data_item_idx in range(len(data_target_pair)):
-            data_target_pair[data_item_idx] = data_target_pair[data_item_idx].to(
-                self.device,
-            )
+                for k in first_batch
+            }
+        else:
+            data_target_pair = [
+                torch.cat(items).to(self.device)
+                for items in zip(*data_target_pair_list)
+            ]
 
         from dattri.func.projection import arnoldi_project
 
-- 
2.43.0


From fc0ccea7b588250eebc2ecb7a6ce1082e414779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 18/52] fix: grass projection of an ensemble member no longer
 depends on earlier members

---
 dattri/func/projection.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 9fd8e8d..b22bb34 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -557,8 +557,6 @@ class CudaProjector(AbstractProjector):
         # Ensure intermediate_dim doesn't exceed feature_dim
         if intermediate_dim > self.feature_dim:
             intermediate_dim = self.feature_dim
-            # Update grass_multiplier to reflect actual ratio used
-            self.grass_multiplier = intermediate_dim // self.proj_dim
 
         # Generate random mask indices (feature_dim -> intermediate_dim)
         self._gen_randomness_mask(
-- 
2.43.0


From 1a3ed9b71e947e52d15182ebc502e0d8acd932f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 19/52] fix: BasicProjector can project again after free_memory

---
 dattri/func/projection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index b22bb34..3f1cd1a 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -351,6 +351,14 @@ class BasicProjector(AbstractProjector):
             elif self.num_blocks == 1:
                 self._gen_randomness_dense(self.generator_states[0])
 
+        # the matrix may have been deleted by `free_memory`
+        if (
+            self.proj_type in {ProjectionType.normal, ProjectionType.rademacher}
+            and self.num_blocks == 1
+            and not self.proj_matrix_available
+        ):
+            self._gen_randomness_dense(self.generator_states[0])
+
         # Handle random_mask projection separately
         if self.proj_type == ProjectionType.random_mask:
             return features[:, self.active_indices]
-- 
2.43.0


From 21682406f2222a23b3ca966a8dee65a6093ed049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 20/52] fix: BasicProjector with more than a hundred blocks
 uses different draws for the ensemble members

---
 dattri/func/projection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 3f1cd1a..db08879 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -278,8 +278,11 @@ class BasicProjector(AbstractProjector):
         self.seeds = []
         self.jl_size = self.feature_dim * self.block_size
 
+        # the seeds of an ensemble member must not run into those of the next one
+        member_stride = max(int(1e5), int(1e3) * self.num_blocks)
+
         for i in range(self.num_blocks):
-            s = self.seed + int(1e3) * i + int(1e5) * self.ensemble_id
+            s = self.seed + int(1e3) * i + member_stride * self.ensemble_id
             self.seeds.append(s)
             self.generator = self.generator.manual_seed(s)
             self.generator_states.append(self.generator.get_state())
-- 
2.43.0


From 7458223c7bc2bbad6ea37fdc7e799bef5c4952aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 21/52] fix: chunked projection of dictionaries splits
 parameters as the chunk sizes do

---
 dattri/func/projection.py | 69 ++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 41 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index db08879..a20cec4 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -737,8 +737,8 @@ class ChunkedCudaProjector:
             dtype=self.dtype,
         )
         pointer = 0
-        # iterate over feature dimensions, keep a counter of #dim so far, and when prev
-        # chunk reaches max_chunk_size, project and accumulate.
+        # iterate over feature dimensions, keep a counter of #dim so far, and whenever
+        # the current chunk is complete, project and accumulate.
         projector_index = 0
         vector_dim = 1
         for _, p in enumerate(features.values()):
@@ -748,48 +748,35 @@ class ChunkedCudaProjector:
             else:
                 p_flat = p.data.flatten(start_dim=1)
 
-            feature_dim_size = p_flat.size(1)
-            # if current accumulated params exceed max_chunk_size,
-            # then stop accumulation.
-            if pointer + feature_dim_size > self.max_chunk_size:
-                # fill remaining entries with 0
-                if pointer != self.dim_per_chunk[projector_index]:
-                    msg = "Current number of accumulated #dim does not match \
-                    the #feature dim of current chunk."
-                    raise ValueError(msg)
-                # project and accumulate
-                ch_output.add_(
-                    self.projector_per_chunk[projector_index].project(
-                        self.ch_input[:, :pointer].contiguous(),
-                        ensemble_id=ensemble_id,
-                    ),
-                )
-                # reset counter
-                pointer = 0
-                projector_index += 1
-
-            # continue accumulation
             actual_bs = min(self.ch_input.size(0), p_flat.size(0))
-            self.ch_input[:actual_bs, pointer : pointer + feature_dim_size].copy_(
-                p_flat,
-            )
-            pointer += feature_dim_size
-
-        # at the end, we need to project remaining items
-        # fill remaining entries with 0
-        if pointer != self.dim_per_chunk[projector_index]:
-            msg = "Current number of accumulated #dim does not match \
-                    the #feature dim of current chunk."
+            start = 0
+            # a parameter that exceeds the current chunk continues in the next one
+            while start < p_flat.size(1):
+                chunk_dim = self.dim_per_chunk[projector_index]
+                end = min(start + chunk_dim - pointer, p_flat.size(1))
+                self.ch_input[:actual_bs, pointer : pointer + end - start].copy_(
+                    p_flat[:, start:end],
+                )
+                pointer += end - start
+                start = end
+
+                if pointer == chunk_dim:
+                    # project and accumulate
+                    ch_output[:actual_bs].add_(
+                        self.projector_per_chunk[projector_index].project(
+                            self.ch_input[:actual_bs, :pointer].contiguous(),
+                            ensemble_id=ensemble_id,
+                        ),
+                    )
+                    # reset counter
+                    pointer = 0
+                    projector_index += 1
+
+        if projector_index != len(self.dim_per_chunk):
+            msg = "The number of accumulated #dim does not match \
+                    the #feature dim of the chunks."
             raise ValueError(msg)
 
-        # project and accumulate
-        ch_output[:actual_bs].add_(
-            self.projector_per_chunk[projector_index].project(
-                self.ch_input[:actual_bs, :pointer].contiguous(),
-                ensemble_id=ensemble_id,
-            ),
-        )
-
         return ch_output[:actual_bs]
 
     def project(self, features: Tensor, ensemble_id: int) -> Tensor:
-- 
2.43.0


From 79203abaee69c181e0ed00e82a70833bc7196fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:58 +0000
Subject: [PATCH 22/52] fix: RPS fine-tuning works for any initial gradient
 size

---
 dattri/algorithm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/algorithm/utils.py b/dattri/algorithm/utils.py
index b3bf1ac..9d84372 100644
--- a/dattri/algorithm/utils.py
+++ b/dattri/algorithm/utils.py
@@ -127,7 +127,7 @@ def rps_finetune_theta(
     # depending on the number of classes
     y = torch.sigmoid(y) if init_theta.shape[0] == 1 else torch.softmax(y, dim=1)
 
-    min_loss = 10000.0
+    min_loss = float("inf")
     # define a trainable last layer
     theta = Variable(init_theta.to(device), requires_grad=True)
 
-- 
2.43.0


From 2295b73bcc7abfa237c9527d471b92257eb64a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 23/52] fix: KNN-Shapley values for more neighbours than
 training samples

---
 dattri/algorithm/data_shapley.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/algorithm/data_shapley.py b/dattri/algorithm/data_shapley.py
index 057671f..1113802 100644
--- a/dattri/algorithm/data_shapley.py
+++ b/dattri/algorithm/data_shapley.py
@@ -198,7 +198,7 @@ class KNNShapleyAttributor(BaseAttributor):
         ):
             shapley_values[j, nn_sorting[j, -1]] = (
                 train_labels[nn_sorting[j, -1]] == test_labels[j]
-            ) / num_train_samples
+            ) / max(self.k_neighbors, num_train_samples)
 
             for i in torch.arange(num_train_samples - 2, -1, -1):
                 shapley_values[j, nn_sorting[j, i]] = shapley_values[
-- 
2.43.0


From c0f7f34aa583e6f672c6f208d50622f588d9e3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:09 +0000
Subject: [PATCH 24/52] fix: loo_corr pairs scores with the removed samples of
 the ground truth

---
 dattri/metric/metrics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dattri/metric/metrics.py b/dattri/metric/metrics.py
index 93d1ecc..43adc9f 100644
--- a/dattri/metric/metrics.py
+++ b/dattri/metric/metrics.py
@@ -100,8 +100,9 @@ def loo_corr(
             metric values and their corresponding p-values. Both tensors have the
             shape (num_test_samples,).
     """
-    score = score.cpu()
-    gt_values, _ = ground_truth
+    gt_values, indices = ground_truth
+    # the scores of the samples that were removed, in the order of the ground truth
+    score = score.cpu()[indices.cpu().long()]
     num_test_samples = score.shape[1]
 
     loo_corr = torch.stack(
-- 
2.43.0


From b047eb40279c14285ca7e31f54b739d0cf33bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:09 +0000
Subject: [PATCH 25/52] fix: calculate_loo_ground_truth loads the models saved
 by retrain_loo

---
 dattri/metric/ground_truth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/metric/ground_truth.py b/dattri/metric/ground_truth.py
index 85373bd..0b4332a 100644
--- a/dattri/metric/ground_truth.py
+++ b/dattri/metric/ground_truth.py
@@ -84,7 +84,8 @@ def calculate_loo_ground_truth(
     model_indices = torch.empty(length_dir)
     for dir_cnt, model_file in enumerate(model_dirs_sorted):
         model_path = Path(retrain_dir) / model_file / "model_weights.pt"
-        model = torch.load(model_path)
+        # retrain_loo saves whole models
+        model = torch.load(model_path, weights_only=False)
         # Calculate target function values.
         values = target_func(model, test_dataloader)
         loo_results[dir_cnt, :] = values
-- 
2.43.0


From 079bbe515828f880e194fb2b857f3c08cbd5ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:09 +0000
Subject: [PATCH 26/52] fix: retrain_lds split over several runs writes the
 metadata of all subsets

---
 dattri/model_util/retrain.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 28f492d..8f8a5c6 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -229,7 +229,6 @@ def retrain_lds(
     data_length = len(dataloader.sampler)
     subset_length = int(data_length * subset_ratio)
 
-    subset_dir_map = {}
     rng = np.random.default_rng(seed)  # this can also handle seed=None
 
     # seed control
@@ -267,20 +266,18 @@ def retrain_lds(
             model_path.parent.mkdir(parents=True, exist_ok=True)
             torch.save(model.state_dict(), model_path)
 
-        # Save the subset directory
-        subset_dir_map[i] = str(path / str(i))
-
-    # Save metadata
+    # Save metadata (with several runs: by the run of the last subsets, for all of them)
     if (
         total_num_subsets == 0  # noqa: PLR1714
-        or (start_id + 1) * num_subsets == total_num_subsets
+        or start_id + num_subsets == total_num_subsets
     ):
+        subset_dir_map = {i: str(path / str(i)) for i in range(start_id + num_subsets)}
         # Create metadata to save
         metadata = {
             "mode": "lds",
             "data_length": data_length,
             "train_func": train_func.__name__,
-            "num_subsets": (start_id + 1) * num_subsets,
+            "num_subsets": start_id + num_subsets,
             "subset_ratio": subset_ratio,
             "num_runs_per_subset": num_runs_per_subset,
             "subset_dir_map": subset_dir_map,
-- 
2.43.0


From b94892d6c81a8e27252b608868b3e26d9bf6740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:09 +0000
Subject: [PATCH 27/52] fix: retraining uses the samples of the given
 dataloader's sampler

---
 dattri/model_util/retrain.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 8f8a5c6..6619fbd 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -21,6 +21,22 @@ from torch.utils.data import DataLoader, Subset
 from tqdm import tqdm
 
 
+def _sampled_indices(dataloader: torch.utils.data.DataLoader) -> List[int]:
+    """Return the index in the dataset of each sample the dataloader iterates over.
+
+    Args:
+        dataloader (torch.utils.data.DataLoader): The dataloader used for training.
+
+    Returns:
+        List[int]: The indices in the dataset, in the order of the sampler unless it
+            shuffles.
+    """
+    sampler = dataloader.sampler
+    if sampler is None:
+        return list(range(len(dataloader.dataset)))
+    return list(getattr(sampler, "indices", range(len(sampler))))
+
+
 def retrain_loo(
     train_func: Callable,
     dataloader: torch.utils.data.DataLoader,
@@ -92,10 +108,8 @@ def retrain_loo(
         # Manually set the seed.
         torch.manual_seed(seed)
 
-    if dataloader.sampler is not None:
-        all_indices = list(range(len(dataloader.sampler)))
-    else:
-        all_indices = list(range(len(dataloader.dataset)))
+    sampled_indices = _sampled_indices(dataloader)
+    all_indices = list(range(len(sampled_indices)))
 
     if indices is None:
         # If indices are not provided default to retrain with every data.
@@ -110,7 +124,7 @@ def retrain_loo(
     }
 
     for index in tqdm(indices, desc="LOO Retraining"):
-        remaining_indices = [idx for idx in all_indices if idx != index]
+        remaining_indices = [sampled_indices[i] for i in all_indices if i != index]
         model_dir = Path(path) / f"index_{index}"
         if not model_dir.exists():
             model_dir.mkdir(parents=True)
@@ -226,7 +240,8 @@ def retrain_lds(
     if not path.exists():
         path.mkdir(parents=True)
 
-    data_length = len(dataloader.sampler)
+    sampled_indices = _sampled_indices(dataloader)
+    data_length = len(sampled_indices)
     subset_length = int(data_length * subset_ratio)
 
     rng = np.random.default_rng(seed)  # this can also handle seed=None
@@ -244,7 +259,10 @@ def retrain_lds(
             rng = np.random.default_rng(seed + i)
         indices = rng.choice(data_length, subset_length, replace=False)
         subset_dataloader = torch.utils.data.DataLoader(
-            dataset=torch.utils.data.Subset(dataloader.dataset, indices),
+            dataset=torch.utils.data.Subset(
+                dataloader.dataset,
+                [sampled_indices[idx] for idx in indices],
+            ),
             batch_size=dataloader.batch_size,
             shuffle=True,
         )
-- 
2.43.0


From 9d75ff95add2b9a43b5d222aa425de87b355630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:09 +0000
Subject: [PATCH 28/52] fix: brittleness removes the samples at the scored
 positions for any sampler

---
 dattri/metric/britteness.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dattri/metric/britteness.py b/dattri/metric/britteness.py
index 56437ef..2bc716b 100644
--- a/dattri/metric/britteness.py
+++ b/dattri/metric/britteness.py
@@ -96,8 +96,16 @@ def check_if_flip(
         bool: True if prediction flips after data removal, otherwise False.
     """
     original_sampler = train_loader.sampler
-    original_indices = original_sampler.indices
-    remaining_indices = list(set(original_indices) - set(indices_to_remove))
+    original_indices = getattr(
+        original_sampler,
+        "indices",
+        range(len(original_sampler)),
+    )
+    # the scores refer to positions in the sampler
+    removed = {int(i) for i in indices_to_remove}
+    remaining_indices = [
+        idx for pos, idx in enumerate(original_indices) if pos not in removed
+    ]
 
     new_train_loader = torch.utils.data.DataLoader(
         train_loader.dataset,
-- 
2.43.0


From bf5a5285622667cbd7b77c670cb909e5804b6eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:09 +0000
Subject: [PATCH 29/52] fix: brittleness returns the smallest flipping removal
 for any order of the search space

---
 dattri/metric/britteness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/metric/britteness.py b/dattri/metric/britteness.py
index 2bc716b..7fae1b1 100644
--- a/dattri/metric/britteness.py
+++ b/dattri/metric/britteness.py
@@ -50,7 +50,7 @@ def brittleness(
     """
     if search_space is None:
         search_space = list(range(0, 200, 20))
-    k_values = list(search_space)
+    k_values = sorted(search_space)
     if isinstance(scores, torch.Tensor):
         scores = scores.cpu().numpy() if scores.is_cuda else scores.numpy()
     sorted_indices = np.argsort(scores)[::-1]
-- 
2.43.0


From 9b461931647323e134ad91ca1a15fcad3a43d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 30/52] fix: retrain_loo writes metadata that a YAML reader can
 load

---
 dattri/model_util/retrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 6619fbd..296d9cb 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -139,7 +139,7 @@ def retrain_loo(
         # Call the user specified train_func.
         model = train_func(modified_dataloader, seed=seed, **kwargs)
         # Update the metadata.
-        metadata["map_index_dir"][index] = model_dir
+        metadata["map_index_dir"][index] = str(model_dir)
         torch.save(model, weights_dir)
 
     metadata_file = Path(path) / "metadata.yml"
-- 
2.43.0


From af3db0fc657017a5d2c105b61d4e002963ac63e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:14 +0000
Subject: [PATCH 31/52] fix: brittleness accepts scores of the documented shape

---
 dattri/metric/britteness.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dattri/metric/britteness.py b/dattri/metric/britteness.py
index 7fae1b1..09b9073 100644
--- a/dattri/metric/britteness.py
+++ b/dattri/metric/britteness.py
@@ -53,6 +53,8 @@ def brittleness(
     k_values = sorted(search_space)
     if isinstance(scores, torch.Tensor):
         scores = scores.cpu().numpy() if scores.is_cuda else scores.numpy()
+    # one score per training sample, also when given as a column
+    scores = scores.reshape(len(train_loader.sampler))
     sorted_indices = np.argsort(scores)[::-1]
     for k in tqdm(
         k_values,
-- 
2.43.0


From 9ae3a9273e1f9ecaf6b5b3ba9e78696b3d2eb2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:52 +0000
Subject: [PATCH 32/52] fix: flip_label works for arrays, tensor label spaces
 and no flips, and stays within the label space

---
 dattri/benchmark/utils.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/dattri/benchmark/utils.py b/dattri/benchmark/utils.py
index 574f302..9ce207d 100644
--- a/dattri/benchmark/utils.py
+++ b/dattri/benchmark/utils.py
@@ -26,10 +26,7 @@ def _random_flip(label: int, label_space: Set[int], rng: np.random.default_rng)
     Returns:
         int: The randomly selected label to replace the original one
     """
-    label_space.discard(label)
-    target_label = int(rng.choice(list(label_space)))
-    label_space.add(label)
-    return target_label
+    return int(rng.choice([other for other in label_space if other != label]))
 
 
 def flip_label(
@@ -57,7 +54,8 @@ def flip_label(
     if label_space is None:
         label_space = np.unique(label)
 
-    label_space = set(label_space)
+    # plain numbers: tensor elements would all count as different labels
+    label_space = set(np.asarray(label_space).tolist())
 
     n_train = len(label)
     rng = np.random.default_rng()
@@ -67,15 +65,15 @@ def flip_label(
     flipped_label = copy.deepcopy(label)
 
     # Generate a list of randomly sampled noisy (flipped) data from label space
-    noisy_data = np.vectorize(
-        lambda x: _random_flip(x, label_space, rng),
-    )(flipped_label[noise_index])
+    noisy_data = [
+        _random_flip(x, label_space, rng) for x in flipped_label[noise_index].tolist()
+    ]
 
     if isinstance(flipped_label, torch.Tensor):
-        noisy_data = torch.tensor(noisy_data)
+        noisy_data = torch.tensor(noisy_data, dtype=flipped_label.dtype)
 
     # Flip the labels
-    flipped_label[noise_index] = noisy_data.long()
+    flipped_label[noise_index] = noisy_data
 
     return flipped_label, list(noise_index)
 
-- 
2.43.0


From 843a1ae48d57ba314f2d148b92688b6dabf0c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 33/52] fix: disk offload works without a GPU

---
 .../algorithm/block_projected_if/offload/disk_io/manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 66971ef..0d0835b 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -61,7 +61,11 @@ class BufferPool:
         # Pre-allocate all buffers
         for _ in range(pool_size):
             buffer = ChunkBuffer(
-                tensor=torch.zeros(buffer_shape, dtype=dtype, pin_memory=True),
+                tensor=torch.zeros(
+                    buffer_shape,
+                    dtype=dtype,
+                    pin_memory=torch.cuda.is_available(),
+                ),
                 batch_indices=[],
                 batch_info=[],
                 current_row=0,
-- 
2.43.0


From ed58b4359aaf395b9fa2e201688f29bcd36d8876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 34/52] fix: block-projected test gradients use the target
 function of the task

---
 .../block_projected_if/block_projected_if.py  | 29 ++++---------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 4a7ced7..7281340 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -812,7 +812,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
         )
         return if_score
 
-    def _compute_test_gradients(  # noqa: PLR0912 - Complex gradient computation requires multiple branches for different input types and error handling
+    def _compute_test_gradients(
         self,
         test_dataloader: DataLoader,
     ) -> Tuple[torch.Tensor, Dict]:
@@ -827,9 +827,6 @@ class BlockProjectedIFAttributor(BaseAttributor):
                   Shape:(num_test_samples, total_proj_dim)
                 - Dictionary mapping batch indices to (start_row, end_row)
                   positions.
-
-        Raises:
-            ValueError: If model can't return loss for dict-style inputs.
         """
         # Create hook manager if needed
         if self.hook_manager is None:
@@ -850,26 +847,10 @@ class BlockProjectedIFAttributor(BaseAttributor):
         ):
             self.model.zero_grad()
 
-            # Prepare inputs and compute loss
-            if isinstance(batch, dict):
-                inputs = {k: v.to(self.device) for k, v in batch.items()}
-                batch_size = next(iter(batch.values())).shape[0]
-                outputs = self.model(**inputs)
-                if hasattr(outputs, "loss"):
-                    loss = outputs.loss
-                else:
-                    msg = "Model must return loss for dict-style inputs"
-                    raise ValueError(msg)
-            else:
-                inputs, targets = batch
-                inputs = inputs.to(self.device)
-                targets = targets.to(self.device)
-                batch_size = inputs.shape[0]
-                outputs = self.model(inputs)
-                if hasattr(outputs, "loss"):
-                    loss = outputs.loss
-                else:
-                    loss = nn.functional.cross_entropy(outputs, targets)
+            # Compute the target to be attributed (the loss if none is given)
+            first = next(iter(batch.values())) if isinstance(batch, dict) else batch[0]
+            batch_size = first.shape[0]
+            loss = self.task.original_target_func(self.model, batch, self.device)
 
             loss.backward()
 
-- 
2.43.0


From 5c3ac4d2a9bf88fcdedc7f6ba1f844d0ed183828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 35/52] fix: batch metadata describe the dataset being cached,
 not an earlier one

---
 dattri/algorithm/block_projected_if/core/metadata.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/core/metadata.py b/dattri/algorithm/block_projected_if/core/metadata.py
index 8f85cf1..86b6378 100644
--- a/dattri/algorithm/block_projected_if/core/metadata.py
+++ b/dattri/algorithm/block_projected_if/core/metadata.py
@@ -61,12 +61,9 @@ class MetadataManager:
         total_batches = len(train_dataloader)
         batch_size = train_dataloader.batch_size
 
-        # Check if already initialized
-        if len(self.batch_info) == total_batches:
-            logger.info("Dataset metadata already complete, skipping initialization")
-            return
-
-        # Compute complete batch structure
+        # Compute complete batch structure, replacing that of any earlier dataset
+        self.batch_info = {}
+        self._pending_batches = {}
         if hasattr(train_dataloader.dataset, "__len__"):
             dataset_size = len(train_dataloader.sampler)
             current_sample_idx = 0
-- 
2.43.0


From 1e30fc1d41fc65bfa01b755489cedc00af33bda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 36/52] fix: caching a dataset drops the data of an earlier one

---
 .../algorithm/block_projected_if/block_projected_if.py   | 3 +++
 dattri/algorithm/block_projected_if/offload/disk.py      | 2 ++
 .../block_projected_if/offload/disk_io/manager.py        | 9 +++++++++
 3 files changed, 14 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 7281340..1b31c3c 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -218,6 +218,9 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
         self.full_train_dataloader = full_train_dataloader
 
+        # Drop what an earlier dataset left behind
+        self.offload_manager.clear_cache()
+
         # Setup compressors if not already done
         if self.compressors is None:
             self._setup_compressors(full_train_dataloader)
diff --git a/dattri/algorithm/block_projected_if/offload/disk.py b/dattri/algorithm/block_projected_if/offload/disk.py
index 29e088a..b2e85c0 100644
--- a/dattri/algorithm/block_projected_if/offload/disk.py
+++ b/dattri/algorithm/block_projected_if/offload/disk.py
@@ -227,6 +227,8 @@ class DiskOffloadManager(Offload):
                     except OSError as e:  # noqa: PERF203 - Exception needed for file cleanup
                         logger.warning("Error removing %s: %s", file_path, e)
 
+        self.disk_io.reset()
+
     def wait_for_async_operations(self) -> None:
         """Wait for any pending asynchronous disk operations to complete."""
         self.disk_io.wait_for_async_operations()
diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 0d0835b..bbbe74b 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -930,6 +930,15 @@ class ChunkedDiskIOManager:
         """
         return "grad" if data_type == "gradients" else data_type
 
+    def reset(self) -> None:
+        """Forget buffered and cached data and the layer dimensions."""
+        self._chunk_buffers.clear()
+        self._buffer_pools.clear()
+        with self._read_cache_lock:
+            self._read_cache.clear()
+        self.layer_dims = None
+        self.total_proj_dim = None
+
     def wait_for_async_operations(self) -> None:  # noqa: ARG002
         """Wait for all async operations to complete."""
         if self._shutdown:
-- 
2.43.0


From 74c8033c9c9f8cc4ca1b7c5d5cbe1ad1ab47717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 37/52] fix: waiting for disk writes ends and reports when a
 write fails

---
 .../offload/disk_io/manager.py                | 32 ++++++++++++++++---
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index bbbe74b..7d6b2bc 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -8,7 +8,7 @@ import pathlib
 import queue
 import threading
 import time
-from collections import defaultdict
+from collections import Counter, defaultdict
 from concurrent.futures import ThreadPoolExecutor
 from dataclasses import dataclass
 from typing import Any, Literal
@@ -208,7 +208,8 @@ class ChunkedDiskIOManager:
         logger.info("Started %s write workers", num_write_workers)
 
         # Pending writes tracking
-        self._pending_writes = set()  # Track chunk_ids being written
+        self._pending_writes = Counter()  # Track writes per chunk being written
+        self._write_errors = []  # Failed writes not reported yet
         self._pending_writes_lock = threading.Lock()
 
         # Read cache for recently accessed chunks
@@ -362,11 +363,16 @@ class ChunkedDiskIOManager:
                         batch_info,
                     )
 
-                    # Remove from pending writes
+                except Exception as e:  # noqa: BLE001 - Reported to the waiting caller
                     with self._pending_writes_lock:
-                        self._pending_writes.discard((data_type, chunk_id))
+                        self._write_errors.append(e)
 
                 finally:
+                    # Remove from pending writes
+                    with self._pending_writes_lock:
+                        self._pending_writes[data_type, chunk_id] -= 1
+                        self._pending_writes += Counter()  # Drop finished chunks
+
                     # Return buffer to pool if provided (for backward compatibility)
                     if buffer is not None:
                         pool = self._get_or_create_buffer_pool(data_type)
@@ -553,7 +559,7 @@ class ChunkedDiskIOManager:
 
         # Mark as pending write
         with self._pending_writes_lock:
-            self._pending_writes.add((data_type, chunk_id))
+            self._pending_writes[data_type, chunk_id] += 1
 
         # Submit to write queue without the buffer (since we already returned it)
         write_task = (data_type, chunk_id, filled_tensor, batch_info_copy, None)
@@ -701,6 +707,19 @@ class ChunkedDiskIOManager:
             time.sleep(0.1)
 
         self.current_batch_range = None
+        self._raise_write_errors()
+
+    def _raise_write_errors(self) -> None:
+        """Report failed writes.
+
+        Raises:
+            RuntimeError: If a write failed since the last report.
+        """
+        with self._pending_writes_lock:
+            errors, self._write_errors = self._write_errors, []
+        if errors:
+            msg = f"{len(errors)} writes to {self.cache_dir} failed"
+            raise RuntimeError(msg) from errors[0]
 
     def _retrieve_batch_data_with_cache(  # noqa: PLR0912, PLR0914
         self,
@@ -962,8 +981,11 @@ class ChunkedDiskIOManager:
         ]
         if errors:
             logger.warning("Some async operations failed: %s errors", len(errors))
+            with self._pending_writes_lock:
+                self._write_errors.extend(future.exception() for future in errors)
 
         self.futures = []
+        self._raise_write_errors()
 
     @staticmethod
     def _check_future_result(future: Any) -> bool:  # noqa: ANN401
-- 
2.43.0


From d007998eade881686ee048d7f00ba919310d5551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 38/52] fix: rewriting a chunk drops its cached contents

---
 .../algorithm/block_projected_if/offload/disk_io/manager.py   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 7d6b2bc..52b3235 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -419,6 +419,10 @@ class ChunkedDiskIOManager:
                 flush_mode="async",  # Use async mode to avoid blocking
             )
 
+            # What was read of the chunk before is out of date
+            with self._read_cache_lock:
+                self._read_cache.pop((data_type, chunk_id), None)
+
             logger.debug(
                 "Wrote %s chunk %s: shape=%s",
                 data_type,
-- 
2.43.0


From a93fa31d3876c08a760f411e3b09c18be9c874e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 39/52] fix: FactGraSS uses the seed and batch size of its
 projection parameters

---
 dattri/algorithm/factgrass.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/factgrass.py b/dattri/algorithm/factgrass.py
index b2c1e2b..5f84394 100644
--- a/dattri/algorithm/factgrass.py
+++ b/dattri/algorithm/factgrass.py
@@ -100,13 +100,15 @@ class FactGraSSAttributor(BlockProjectedIFAttributor):
         # Set FactGraSS-specific configuration
         sparsifier_params = GeneralProjectionParams(
             proj_dim=per_component_dim,
-            proj_max_batch_size=64,
+            proj_max_batch_size=self.proj_params.proj_max_batch_size,
+            proj_seed=self.proj_params.proj_seed,
             proj_type="random_mask",
         )
 
         projector_params = GeneralProjectionParams(
             proj_dim=self.proj_params.proj_dim_per_layer,
-            proj_max_batch_size=64,
+            proj_max_batch_size=self.proj_params.proj_max_batch_size,
+            proj_seed=self.proj_params.proj_seed,
             proj_type="sjlt" if device == "cuda" else "normal",
         )
 
-- 
2.43.0


From cb5f929ec995cf6ebb25790179ffa0312c167c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 40/52] fix: reading test gradients from disk does not return
 training gradients

---
 .../block_projected_if/offload/disk_io/manager.py          | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 52b3235..247ee96 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -830,17 +830,20 @@ class ChunkedDiskIOManager:
     def retrieve_gradients(
         self,
         batch_idx: int,
-        is_test: bool = False,  # noqa: ARG002
+        is_test: bool = False,
     ) -> list[torch.Tensor]:
         """Retrieve gradients for a batch and split into layers.
 
         Args:
             batch_idx: Index of the batch to retrieve gradients for.
-            is_test: Whether to retrieve test gradients (currently unused).
+            is_test: Whether to retrieve test gradients, which are not stored: the
+                result is then empty.
 
         Returns:
             List of gradient tensors split by layers.
         """
+        if is_test:
+            return [torch.tensor([]) for _ in range(len(self.layer_dims or []))]
         return self._retrieve_batch_data_with_cache("gradients", batch_idx)
 
     def retrieve_ifvp(self, batch_idx: int) -> list[torch.Tensor]:
-- 
2.43.0


From c8159387e51ebc727d5804424f0cf967d7f9a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:16 +0000
Subject: [PATCH 41/52] fix: empirical Fisher of models that are not in single
 precision

---
 dattri/algorithm/block_projected_if/block_projected_if.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 1b31c3c..ed84562 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -404,6 +404,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
                 start_col = sum(self.layer_dims[:layer_idx])
                 end_col = start_col + self.layer_dims[layer_idx]
                 layer_data = chunk_tensor_device[:, start_col:end_col].detach()
+                layer_data = layer_data.to(torch.float32)
 
                 if layer_data.numel() == 0 or hessian_accumulators[layer_idx] is None:
                     continue
-- 
2.43.0


From c93bf625f61874054ba6eab2f869218555c4ede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:03 +0000
Subject: [PATCH 42/52] fix: DVEmb accepts trajectories whose epochs are not
 numbered from zero

---
 dattri/algorithm/dvemb.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index b88f1b9..4399572 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -677,6 +677,18 @@ class DVEmbAttributor:
         self.learning_rates[epoch].append(learning_rate / len(indices))
         self.data_indices[epoch].append(indices.cpu())
 
+    @staticmethod
+    def _first_cached(cached: Dict[int, List]) -> Union[Tensor, List]:
+        """Get the first entry cached for any epoch.
+
+        Args:
+            cached: The cached entries of each epoch.
+
+        Returns:
+            The first entry.
+        """
+        return next(entries[0] for entries in cached.values() if entries)
+
     def clear_cache(self) -> None:
         """Clears cached gradients and factors to free memory."""
         if self.use_factorization:
@@ -738,13 +750,13 @@ class DVEmbAttributor:
             grad_dim = self._params_dim
             if self.projection_dim_per_layer is None:
                 # No projection: use cached factors
-                grad_dtype = self.cached_factors[0][0][0]["A"].dtype
+                grad_dtype = self._first_cached(self.cached_factors)[0]["A"].dtype
             else:
                 # With projection (kronecker or elementwise): use cached gradients
-                grad_dtype = self.cached_gradients[0][0].dtype
+                grad_dtype = self._first_cached(self.cached_gradients).dtype
         else:
-            grad_dim = self.cached_gradients[0][0].shape[1]
-            grad_dtype = self.cached_gradients[0][0].dtype
+            grad_dim = self._first_cached(self.cached_gradients).shape[1]
+            grad_dtype = self._first_cached(self.cached_gradients).dtype
 
         # Create weighting matrix
         m_matrix = torch.zeros(
-- 
2.43.0


From 416cc6721b3d98fd4cb78f4c0abd98bf156418c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:03 +0000
Subject: [PATCH 43/52] fix: DVEmb drops the embeddings of an earlier
 trajectory

---
 dattri/algorithm/dvemb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 4399572..6065202 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -758,6 +758,9 @@ class DVEmbAttributor:
             grad_dim = self._first_cached(self.cached_gradients).shape[1]
             grad_dtype = self._first_cached(self.cached_gradients).dtype
 
+        # Drop the embeddings of an earlier trajectory
+        self.embeddings = {}
+
         # Create weighting matrix
         m_matrix = torch.zeros(
             (grad_dim, grad_dim),
-- 
2.43.0


From d07a4df2bb91cd72248fec1f8ccc843a2e49555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:03 +0000
Subject: [PATCH 44/52] fix: recording gradient factors leaves the parameters'
 gradients alone

---
 dattri/algorithm/dvemb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 6065202..f139fab 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -489,6 +489,8 @@ class DVEmbAttributor:
         Returns:
             A list of cached factor dictionaries for each linear layer.
         """
+        # The gradients of a training step in progress are put back afterwards
+        training_grads = [(p, p.grad) for p in self.model.parameters()]
         self.model.zero_grad()
         handles, caches = self._register_factorization_hooks()
 
@@ -500,6 +502,8 @@ class DVEmbAttributor:
 
         for h in handles:
             h.remove()
+        for param, grad in training_grads:
+            param.grad = grad
 
         return caches
 
-- 
2.43.0


From 6c9964f66d5435dc5e5176273058c99c5f4f48d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:58 +0000
Subject: [PATCH 45/52] Revert "fix: flip_label works for arrays, tensor label
 spaces and no flips, and stays within the label space"

dattri/benchmark is left as it was.
---
 dattri/benchmark/utils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/dattri/benchmark/utils.py b/dattri/benchmark/utils.py
index 9ce207d..574f302 100644
--- a/dattri/benchmark/utils.py
+++ b/dattri/benchmark/utils.py
@@ -26,7 +26,10 @@ def _random_flip(label: int, label_space: Set[int], rng: np.random.default_rng)
     Returns:
         int: The randomly selected label to replace the original one
     """
-    return int(rng.choice([other for other in label_space if other != label]))
+    label_space.discard(label)
+    target_label = int(rng.choice(list(label_space)))
+    label_space.add(label)
+    return target_label
 
 
 def flip_label(
@@ -54,8 +57,7 @@ def flip_label(
     if label_space is None:
         label_space = np.unique(label)
 
-    # plain numbers: tensor elements would all count as different labels
-    label_space = set(np.asarray(label_space).tolist())
+    label_space = set(label_space)
 
     n_train = len(label)
     rng = np.random.default_rng()
@@ -65,15 +67,15 @@ def flip_label(
     flipped_label = copy.deepcopy(label)
 
     # Generate a list of randomly sampled noisy (flipped) data from label space
-    noisy_data = [
-        _random_flip(x, label_space, rng) for x in flipped_label[noise_index].tolist()
-    ]
+    noisy_data = np.vectorize(
+        lambda x: _random_flip(x, label_space, rng),
+    )(flipped_label[noise_index])
 
     if isinstance(flipped_label, torch.Tensor):
-        noisy_data = torch.tensor(noisy_data, dtype=flipped_label.dtype)
+        noisy_data = torch.tensor(noisy_data)
 
     # Flip the labels
-    flipped_label[noise_index] = noisy_data
+    flipped_label[noise_index] = noisy_data.long()
 
     return flipped_label, list(noise_index)
 
-- 
2.43.0


From d12369b4af9045ffef64d8aa6b38a4992f60a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:34 +0000
Subject: [PATCH 46/52] fix: a batch stored again replaces its buffered version

---
 .../offload/disk_io/manager.py                | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 247ee96..0cd8bd1 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -504,7 +504,8 @@ class ChunkedDiskIOManager:
 
             batch_tensor = torch.cat(batch_features, dim=1)
 
-            # Write to buffer
+            # Write to buffer, in the place of an earlier version of the batch
+            self._drop_buffered_batch(buffer, batch_idx)
             start_row = buffer.current_row
             end_row = start_row + batch_size
 
@@ -540,6 +541,33 @@ class ChunkedDiskIOManager:
             if self._is_chunk_complete("gradients", chunk_id):
                 self._async_flush_chunk_buffer(buffer_key)
 
+    @staticmethod
+    def _drop_buffered_batch(buffer: ChunkBuffer, batch_idx: int) -> None:
+        """Remove a batch that is stored again from a buffer.
+
+        Args:
+            buffer: Buffer of the batch's chunk
+            batch_idx: Batch index
+        """
+        if batch_idx not in buffer.batch_indices:
+            return
+
+        pos = buffer.batch_indices.index(batch_idx)
+        dropped = buffer.batch_info[pos]
+        start_row, end_row = dropped["start_row"], dropped["end_row"]
+        num_rows = end_row - start_row
+
+        # The rows of the later batches move up
+        later_rows = buffer.tensor[end_row : buffer.current_row].clone()
+        buffer.tensor[start_row : start_row + later_rows.shape[0]] = later_rows
+        for info in buffer.batch_info[pos + 1 :]:
+            info["start_row"] -= num_rows
+            info["end_row"] -= num_rows
+
+        del buffer.batch_info[pos]
+        del buffer.batch_indices[pos]
+        buffer.current_row -= num_rows
+
     def _async_flush_chunk_buffer(self, buffer_key: tuple[str, int]) -> None:
         """Asynchronously write chunk buffer to disk without blocking.
 
@@ -629,7 +657,8 @@ class ChunkedDiskIOManager:
 
             batch_tensor = torch.cat(batch_features, dim=1)
 
-            # Write to buffer
+            # Write to buffer, in the place of an earlier version of the batch
+            self._drop_buffered_batch(buffer, batch_idx)
             start_row = buffer.current_row
             end_row = start_row + batch_size
 
-- 
2.43.0


From a1667b74818ddc3ec6fa17328cb7bb13c07c9b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 47/52] fix: batches read before they are written keep their
 values

---
 dattri/algorithm/block_projected_if/offload/disk_io/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 0cd8bd1..f5646fc 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -783,7 +783,8 @@ class ChunkedDiskIOManager:
                     if info["batch_idx"] == batch_idx:
                         start_row = info["start_row"]
                         end_row = info["end_row"]
-                        batch_tensor = buffer.tensor[start_row:end_row]
+                        # the buffer is used for other batches later
+                        batch_tensor = buffer.tensor[start_row:end_row].clone()
                         return self._split_tensor_to_layers(batch_tensor)
 
         # Check read cache
-- 
2.43.0


From 9906e62cedbe8b06695a1029f733c77532d484b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:18 +0000
Subject: [PATCH 48/52] fix: self-attribution of samples without gradient with
 normalised gradients

---
 dattri/algorithm/tracin.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dattri/algorithm/tracin.py b/dattri/algorithm/tracin.py
index 3d71021..34a85e8 100644
--- a/dattri/algorithm/tracin.py
+++ b/dattri/algorithm/tracin.py
@@ -368,17 +368,14 @@ class TracInAttributor(BaseAttributor):
                     len(train_dataloader.sampler),
                 )
                 if self.normalized_grad:
-                    tda_output[row_st:row_ed] += (
-                        (torch.ones(row_ed - row_st) * ckpt_weight).detach().cpu()
-                    )
-                else:
-                    tda_output[row_st:row_ed] += (
-                        (
-                            torch.einsum("ij,ij->i", train_batch_grad, train_batch_grad)
-                            * ckpt_weight
-                        )
-                        .detach()
-                        .cpu()
+                    train_batch_grad = normalize(train_batch_grad)
+                tda_output[row_st:row_ed] += (
+                    (
+                        torch.einsum("ij,ij->i", train_batch_grad, train_batch_grad)
+                        * ckpt_weight
                     )
+                    .detach()
+                    .cpu()
+                )
 
         return tda_output
-- 
2.43.0


From f7c4060d55dec2297318bfaee4246e418be0b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:59 +0000
Subject: [PATCH 49/52] fix: the LiSSA attributor accepts dictionary batches
 and integer labels

---
 dattri/algorithm/influence_function.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 12d8b8e..e7884b8 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
-    from typing import List, Optional, Tuple, Union
+    from typing import Dict, List, Optional, Tuple, Union
 
     from torch import Tensor
     from torch.utils.data import DataLoader
@@ -573,34 +573,40 @@ class IFAttributorLiSSA(BaseInnerProductAttributor):
                 )
                 raise TypeError(msg)
 
+            # dictionaries are sampled value by value
+            keys = list(full_data) if isinstance(full_data, dict) else None
+            values = full_data if keys is None else tuple(full_data.values())
+
             self.ihvp_func = ihvp_lissa(
                 self.task.get_loss_func(layer_name=self.layer_name, ckpt_idx=ckpt_idx),
-                collate_fn=IFAttributorLiSSA.lissa_collate_fn,
+                collate_fn=partial(IFAttributorLiSSA.lissa_collate_fn, keys=keys),
                 **self.transformation_kwargs,
             )
             vector_product += self.ihvp_func(
-                (model_params, *full_data),
+                (model_params, *values),
                 test_rep,
-                in_dims=(None,) + (0,) * len(full_data),
+                in_dims=(None,) + (0,) * len(values),
             ).detach()
         return vector_product
 
     @staticmethod
     def lissa_collate_fn(
         sampled_input: List[Tensor],
-    ) -> Tuple[Tensor, List[Tuple[Tensor, ...]]]:
+        keys: Optional[List[str]] = None,
+    ) -> Tuple[Tensor, Union[Tuple[Tensor, ...], Dict[str, Tensor]]]:
         """Collate function for LISSA.
 
         Args:
             sampled_input (List[Tensor]): The sampled input from the dataloader.
+            keys (Optional[List[str]]): The keys of the data, if the dataloader
+                yields dictionaries.
 
         Returns:
-            Tuple[Tensor, List[Tuple[Tensor, ...]]]: The collated input for the LISSA.
+            Tuple[Tensor, Union[Tuple[Tensor, ...], Dict[str, Tensor]]]: The collated
+                input for the LISSA.
         """
-        return (
-            sampled_input[0],
-            tuple(sampled_input[i].float() for i in range(1, len(sampled_input))),
-        )
+        params, *data = sampled_input
+        return params, tuple(data) if keys is None else dict(zip(keys, data))
 
     def _compute_denom(
         self,
-- 
2.43.0


From 9e28342b3c7651f81e2357f412cc5625831d2eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 50/52] fix: layers that take no part in a batch have zero
 gradients there

The block-projected attributors kept the gradient captured in an earlier
batch for a layer that is not used in a later one, and failed with an
AttributeError for layers that never get a gradient (frozen or unused).
---
 .../algorithm/block_projected_if/block_projected_if.py | 10 ++++++++++
 dattri/algorithm/block_projected_if/core/hook.py       |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index ed84562..1120483 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -252,6 +252,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             tqdm(full_train_dataloader, desc="Computing gradients"),
         ):
             self.model.zero_grad()
+            self.hook_manager.clear_compressed_grads()
 
             # Prepare inputs and compute loss
             loss = self.task.original_loss_func(self.model, batch, self.device)
@@ -292,6 +293,14 @@ class BlockProjectedIFAttributor(BaseAttributor):
                         self.offload_manager.layer_dims = self.layer_dims
                         self.offload_manager.total_proj_dim = self.total_proj_dim
 
+                # A layer that takes no part in this batch has a zero gradient
+                values = batch.values() if isinstance(batch, dict) else batch
+                num = next(iter(values)).shape[0]
+                compressed_grads = [
+                    torch.zeros(num, dim) if grad is None else grad
+                    for grad, dim in zip(compressed_grads, self.layer_dims)
+                ]
+
                 # Store gradients using offload manager
                 self.offload_manager.store_gradients(
                     batch_idx,
@@ -850,6 +859,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             tqdm(test_dataloader, desc="Computing test gradients"),
         ):
             self.model.zero_grad()
+            self.hook_manager.clear_compressed_grads()
 
             # Compute the target to be attributed (the loss if none is given)
             first = next(iter(batch.values())) if isinstance(batch, dict) else batch[0]
diff --git a/dattri/algorithm/block_projected_if/core/hook.py b/dattri/algorithm/block_projected_if/core/hook.py
index 71524bf..25cecf4 100644
--- a/dattri/algorithm/block_projected_if/core/hook.py
+++ b/dattri/algorithm/block_projected_if/core/hook.py
@@ -359,6 +359,10 @@ class HookManager:
         """Disable hooks to allow standard gradient computation."""
         self.hooks_enabled = False
 
+    def clear_compressed_grads(self) -> None:
+        """Forget the captured gradients, e.g. before the next batch."""
+        self.compressed_grads = [None] * len(self.layer_names)
+
     def get_compressed_grads(self) -> List[Tensor]:
         """Get all captured compressed gradients.
 
-- 
2.43.0


From 6bc265c8153ae92c807023dd38324e9599d827c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:57 +0000
Subject: [PATCH 51/52] fix: EK-FAC statistics accept functions that return
 their loss and a mask

---
 dattri/func/fisher.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index 1d1e796..cf9bea6 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -426,8 +426,9 @@ def estimate_covariance(
         # Forward pass
         func_output = func(batch_data)
         loss, mask = (
-            func_output,
-            torch.ones(batch_size, 1),
+            func_output
+            if isinstance(func_output, tuple)
+            else (func_output, torch.ones(batch_size, 1))
         )
 
         # Here, we assume the loss is obtained with reduction="mean" by default.
@@ -521,8 +522,9 @@ def estimate_lambda(
         # Forward pass
         func_output = func(batch_data)
         loss, mask = (
-            func_output,
-            torch.ones(batch_size, 1),
+            func_output
+            if isinstance(func_output, tuple)
+            else (func_output, torch.ones(batch_size, 1))
         )
 
         # Here, we assume the loss is obtained with reduction="mean" by default.
-- 
2.43.0


From b5057163ef9759f4c76e43d74ae271afb3b3274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:19 +0000
Subject: [PATCH 52/52] fix: the retraining command accepts every model it has
 a setting for (mlp)

---
 dattri/script/dattri_retrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/script/dattri_retrain.py b/dattri/script/dattri_retrain.py
index ed18c3f..84ec556 100644
--- a/dattri/script/dattri_retrain.py
+++ b/dattri/script/dattri_retrain.py
@@ -32,7 +32,7 @@ from dattri.benchmark.datasets.mnist import (
 )
 from dattri.model_util.retrain import retrain_lds, retrain_loo
 
-SUPPORTED_MODELS = ["lr", "resnet18", "resnet9", "musictransformer"]
+SUPPORTED_MODELS = ["lr", "mlp", "resnet18", "resnet9", "musictransformer"]
 
 SUPPORTED_SETTINGS = {
     "mnist_lr": train_mnist_lr,
-- 
2.43.0

