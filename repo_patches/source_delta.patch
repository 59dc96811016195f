From 7c5975de7ffceeb857cd835ee63093aab4c58841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 01/43] fix: adding sparse Jacobians of different widths must
 concatenate them

Comparing two index arrays of different width raises in NumPy >= 1.25 (and
broadcasts when one of them has width one), so products of two sparse operands
with different sparsity failed.
---
 folx/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index fd677d2..f2806af 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -213,7 +213,10 @@ class FwdJacobian(NamedTuple):
 
             return FwdJacobian(add_jacobians(self.as_dense.data, other.as_dense.data))
         # If both are weak, we can keep them sparse
-        if (other.x0_idx == self.x0_idx).all():
+        if (
+            other.data.shape[JAC_DIM] == self.data.shape[JAC_DIM]
+            and (other.x0_idx == self.x0_idx).all()
+        ):
             return FwdJacobian(
                 self.data + other.data,
                 np.broadcast_arrays(self.x0_idx, other.x0_idx)[0],
-- 
2.43.0


From d9a9c5656f0966ca05f48768089c06c17038f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 02/43] fix: propagate sparse Jacobians through functions with
 several outputs

With sparsity enabled, custom_jvp functions and other unregistered primitives
return lists; the mask and the sum over arguments assumed a single array.
---
 folx/jvp.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 6b638ab..31c15b1 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -21,7 +21,7 @@ from .api import (
     MergeFn,
     PyTree,
 )
-from .tree_utils import tree_concat, tree_expand, tree_take
+from .tree_utils import tree_add, tree_concat, tree_expand, tree_take
 from .utils import (
     broadcast_dim,
     broadcast_except,
@@ -180,9 +180,10 @@ def sparse_jvp(
     grad_y = tree_take(y_tangent, slice(None, -1), axis=JAC_DIM)
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
-    new_masks = broadcast_mask_to_jacobian(out_mask, grad_y)
-    assert grad_y.shape == new_masks.shape, f'{grad_y.shape} != {new_masks.shape}'
-
+    # The function may return several arrays, each of them has its own mask.
+    new_masks = jtu.tree_map(
+        lambda g: broadcast_mask_to_jacobian(out_mask, g), grad_y
+    )
     grad_y = jtu.tree_map(FwdJacobian, grad_y, new_masks)
     return y, grad_y, lapl_y
 
@@ -560,8 +561,14 @@ def get_jvp_function(
             if y is None:
                 y, grad, lapl = y_, grad_, lapl_
             else:
-                grad += grad_  # type: ignore
-                lapl += lapl_
+                # The function may return several arrays.
+                grad = jtu.tree_map(
+                    lambda a, b: a + b,
+                    grad,
+                    grad_,
+                    is_leaf=lambda x: isinstance(x, FwdJacobian),
+                )
+                lapl = tree_add(lapl, lapl_)
         return y, grad, lapl  # type: ignore
 
     def jvp(args: FwdLaplArgs, kwargs) -> tuple[Array, FwdJacobian, Array]:
-- 
2.43.0


From b2d73446fb3cb1bcf863f90d0c19ea13ea5719f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 03/43] fix: Laplacian of complex abs with repeated sparse
 indices

The squared norm of the Jacobian was computed from the raw sparse data, where
one input may be listed twice, instead of from the aggregated Jacobian.
---
 folx/custom_hessian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/custom_hessian.py b/folx/custom_hessian.py
index f1d0db6..9761762 100644
--- a/folx/custom_hessian.py
+++ b/folx/custom_hessian.py
@@ -70,7 +70,8 @@ def complex_abs_jac_hessian_jac(
     if not is_tree_complex(args.x):
         return jnp.zeros(())
 
-    x, J = args.x[0], args.jacobian[0].data
+    # A sparse Jacobian may list the same input several times, so we have to sum these.
+    x, J = args.x[0], args.jacobian[0].construct_jac_for(materialize_idx)
     y, J_abs = jnp.abs(x), jnp.abs(J)
 
     x_J = x.real * J.real + x.imag * J.imag
-- 
2.43.0


From df394cbc42753e0fd9f92bd4ab3eae5e14250784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 04/43] fix: Jacobians of stacked scan outputs

The stacked output kept the scan axis in front of the Jacobian axis and its
mask was not extended to the new axis.
---
 folx/interpreter.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 6678e4a..d841145 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -15,6 +15,7 @@ from jax.util import safe_map
 from .api import (
     IS_LEAF,
     IS_LPL_ARR,
+    JAC_DIM,
     Array,
     ArrayOrFwdLaplArray,
     FwdJacobian,
@@ -128,8 +129,17 @@ def eval_jaxpr_with_forward_laplacian(
             else a
             for a, b in zip(carry, first_carry)
         ]
+
+        def stacked_jacobian(jac: FwdJacobian, mask):
+            # scan stacks its outputs along the leading axis, but this axis is
+            # reserved for the Jacobian.
+            data = jnp.moveaxis(jac.data, 0, JAC_DIM + 1)
+            if mask is not None:
+                mask = np.broadcast_to(np.expand_dims(mask, JAC_DIM + 1), data.shape)
+            return FwdJacobian(data, mask)
+
         y = [
-            a._replace(jacobian=a.jacobian._replace(x0_idx=b.jacobian.x0_idx))  # type: ignore
+            a._replace(jacobian=stacked_jacobian(a.jacobian, b.jacobian.x0_idx))
             if isinstance(a, FwdLaplArray)
             else a
             for a, b in zip(y, first_y)
-- 
2.43.0


From c6bb3bb27b26081ffb8c32143792cca649b03132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 05/43] fix: scan over carries that do not depend on the input

The type check compared the concrete array types, so loop counters (fori_loop)
were rejected because a literal and a traced array have different types.
---
 folx/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index d841145..41beee4 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -110,7 +110,7 @@ def eval_jaxpr_with_forward_laplacian(
         first_carry, first_y = wrapped(in_carry, jtu.tree_map(lambda x: x[0], in_inp))
         # Check whether jacobian sparsity matches
         for a, b in zip(in_carry, first_carry):
-            if not isinstance(a, type(b)):
+            if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
                 raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
             if isinstance(a, FwdLaplArray):
                 if not np.all(a.jacobian.x0_idx == b.jacobian.x0_idx):  # type: ignore
-- 
2.43.0


From ccac94930ad33c842bcd7286bafa2068e8f8cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 06/43] fix: scalar literals as operands

Jaxpr literals may be Python scalars, on which the rules that need a Hessian
(div, pow, custom_jvp, ...) failed, e.g. 1 / x for a scalar x.
---
 folx/interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 41beee4..9c3ee05 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -59,7 +59,8 @@ class JaxExprEnvironment:
 
     def read(self, var: core.Atom) -> ArrayOrFwdLaplArray:
         if isinstance(var, core.Literal):
-            return var.val
+            # Literals may be Python scalars, but the rules expect arrays.
+            return np.asarray(var.val, dtype=var.aval.dtype)  # type: ignore
         self.reference_counter[var] -= 1
         result = self.env[var]
         if self.reference_counter[var] == 0:
-- 
2.43.0


From 0b416fb226d46aae341740e1cfaedfe428cee74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 07/43] fix: functions of scalars with several outputs in
 sparse mode

Scalar arguments take the elementwise path, which assumed a single output.
---
 folx/jvp.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 31c15b1..b303f57 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -240,16 +240,22 @@ def sparse_diag_jvp(
         # Aggergate the corresponding jacobian results. Unfortunately,
         # segment_sum can only be applied over the leading axis. So, we have to
         # do some rearranging here.
-        grad_y = jax.ops.segment_sum(
-            grad_y, inv, num_segments=result_mask.shape[JAC_DIM]
+        grad_y = jtu.tree_map(
+            functools.partial(
+                jax.ops.segment_sum,
+                segment_ids=inv,
+                num_segments=result_mask.shape[JAC_DIM],
+            ),
+            grad_y,
         )
 
     # We need to broadcast the output mask to the shape of the gradient in case the operation
     # included some broadcasting, e.g., (10, 1) * (5,) -> (10, 5)
-    result_mask = broadcast_mask_to_jacobian(result_mask, grad_y)
-    assert grad_y.shape == result_mask.shape, f'{grad_y.shape} != {result_mask.shape}'
-
-    grad_y = jtu.tree_map(FwdJacobian, grad_y, result_mask)
+    # The function may return several arrays, each of them has its own mask.
+    result_masks = jtu.tree_map(
+        lambda g: broadcast_mask_to_jacobian(result_mask, g), grad_y
+    )
+    grad_y = jtu.tree_map(FwdJacobian, grad_y, result_masks)
     return y, grad_y, lapl_y
 
 
-- 
2.43.0


From 63094523add6925d7f0ae239bd2653a3ffe0f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 08/43] fix: dense Jacobian of arrays without elements

E.g. associative_scan slices empty arrays; with sparsity these failed.
---
 folx/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index f2806af..6888b4e 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -170,7 +170,7 @@ class FwdJacobian(NamedTuple):
     @property
     def max_n(self) -> int:
         if self.x0_idx is not None:
-            return int(np.max(self.x0_idx))
+            return int(np.max(self.x0_idx, initial=-1))
         return self.data.shape[JAC_DIM]
 
     @property
-- 
2.43.0


From 04e58120926ff49dff764538ac4efda8fc29c4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 09/43] fix: keyword arguments of functions passed to
 forward_laplacian

The leaves of the keyword arguments were inputs of the traced function but were
never passed to the interpreter, so any array keyword argument failed.
---
 folx/interpreter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 9c3ee05..fc342dc 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -294,7 +294,9 @@ def forward_laplacian(
         args_arr = jtu.tree_map(
             lambda x: x.x if IS_LPL_ARR(x) else x, args, is_leaf=IS_LEAF
         )
-        closed_jaxpr = jax.make_jaxpr(fn)(*args_arr, **kwargs)
+        # Keyword arguments are constants, i.e., they have no derivatives.
+        kw_fn = functools.partial(fn, **kwargs)
+        closed_jaxpr = jax.make_jaxpr(kw_fn)(*args_arr)
         flat_args = jtu.tree_leaves(args, is_leaf=IS_LEAF)
         if 0 < sparsity_threshold < 1:
             threshold = int(sparsity_threshold * sum(x.size for x in flat_args))
@@ -309,7 +311,7 @@ def forward_laplacian(
             *lapl_args,
             sparsity_threshold=threshold,
         )
-        out_structure = jtu.tree_structure(jax.eval_shape(fn, *args_arr, **kwargs))
+        out_structure = jtu.tree_structure(jax.eval_shape(kw_fn, *args_arr))
         return out_structure.unflatten(out)
 
     if disable_jit:
-- 
2.43.0


From a5930ac215d45420edaf0df72073bf2ddcbfe693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 10/43] fix: Loop and ParallelLaplacianOperator return the
 Laplacian

They returned the diagonal of the Hessian instead of its trace, and the parallel
one called the function with a flattened input.
---
 folx/operators.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index 290033b..c34a171 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -57,7 +57,7 @@ class LoopLaplacianOperator(LaplacianOperator):
             _, laplacian = jax.lax.scan(
                 lambda i, _: (i + 1, dgrad_f(eye[i])[i]), 0, None, length=n
             )
-            return laplacian, jacobian
+            return jnp.sum(laplacian), jacobian
 
         return laplacian
 
@@ -67,13 +67,18 @@ class ParallelLaplacianOperator(LaplacianOperator):
     def __call__(f):
         @jax.jit
         def laplacian(x: jax.Array):
+            x_shape = x.shape
             x = x.reshape(-1)
             n = x.shape[0]
             eye = jnp.eye(n, dtype=x.dtype)
-            grad_f = jax.grad(f)
+
+            def f_(x):
+                return f(x.reshape(x_shape))
+
+            grad_f = jax.grad(f_)
             jacobian, dgrad_f = jax.linearize(grad_f, x)
 
-            laplacian = jnp.diagonal(jax.vmap(dgrad_f)(eye))
+            laplacian = jnp.trace(jax.vmap(dgrad_f)(eye))
             return laplacian, jacobian
 
         return laplacian
-- 
2.43.0


From 78a0d15e5765de031be65684ebe901587ae12f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 11/43] fix: ForwardLaplacianOperator under jit with a sparse
 result

The mask of a jitted forward_laplacian is traced when called within another jit
and the Jacobian could not be densified.
---
 folx/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/operators.py b/folx/operators.py
index c34a171..648096b 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -29,8 +29,11 @@ class ForwardLaplacianOperator(LaplacianOperator):
     sparsity_threshold: float | int
 
     def __call__(self, f):
-        fwd_lapl = forward_laplacian(f, self.sparsity_threshold)
+        # The sparsity mask is only known at compile time, so we have to densify the
+        # Jacobian within the same jit.
+        fwd_lapl = forward_laplacian(f, self.sparsity_threshold, disable_jit=True)
 
+        @jax.jit
         def lap(x: Array):
             result = fwd_lapl(x)
             return result.laplacian, result.jacobian.dense_array
-- 
2.43.0


From 296859b309ccf3d1aa3077eb514ff3d67113a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 12/43] fix: compute_memory frees a variable once per equation

An operand that appears twice in an equation (e.g. y * y) was subtracted twice.
---
 folx/experimental/memory.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 0f00a3b..3c6e30c 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -152,7 +152,13 @@ def _compute_jaxpr_memory(
                 size_in_gb = size / 1024**3
                 print(t[2], f'{size_in_gb:.2f}GB', t[1].shape, t[1].dtype)
 
-        env.free_memory(eqn.invars, invals)
+        # An equation may read the same variable more than once.
+        read_vars = {
+            v: val
+            for v, val in zip(eqn.invars, invals)
+            if not isinstance(v, core.Literal)
+        }
+        env.free_memory(list(read_vars.keys()), list(read_vars.values()))
 
     if return_result:
         return env.read_many(jaxpr.outvars), peak_memory, all_tensors
-- 
2.43.0


From 0c27297ff1f77aa9f93180eeb351d65e22d550a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 13/43] fix: argmax and argmin of input dependent arrays

Their integer results have no derivatives, the default rule failed on them.
---
 folx/wrapped_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 3cb7902..01e6fe3 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -431,6 +431,8 @@ _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     jax.lax.and_p: warp_without_fwd_laplacian(jax.lax.bitwise_and),
     jax.lax.or_p: warp_without_fwd_laplacian(jax.lax.bitwise_or),
     jax.lax.is_finite_p: warp_without_fwd_laplacian(jax.lax.is_finite),
+    jax.lax.argmax_p: warp_without_fwd_laplacian(jax.lax.argmax_p.bind),
+    jax.lax.argmin_p: warp_without_fwd_laplacian(jax.lax.argmin_p.bind),
     jax.lax.convert_element_type_p: dtype_conversion,
     'sign': warp_without_fwd_laplacian(jax.lax.sign),
     'logaddexp': wrap_forward_laplacian(jnp.logaddexp, in_axes=()),
-- 
2.43.0


From 83f19523e58fd0ad0b238d584abe0bd4edfe719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 14/43] fix: weights given as a pytree prefix of the arguments

The docstring of forward_laplacian lets weights be any tree that broadcasts
against the arguments, but nested arguments raised an arity mismatch because
the weights were matched against the flattened arguments.
---
 folx/interpreter.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index fc342dc..38ab9b3 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -230,6 +230,23 @@ def eval_jaxpr_with_forward_laplacian(
     return env.read_many(jaxpr.outvars)
 
 
+def broadcast_weights(
+    weights: PyTree[ArrayLike], args: PyTree[Array]
+) -> PyTree[ArrayLike]:
+    """
+    Broadcasts the weights of the arguments to one weight per leaf of the arguments.
+    """
+
+    def broadcast(weight, tree):
+        return jtu.tree_map(lambda _: weight, tree)
+
+    try:
+        return tuple(jtu.tree_leaves(jtu.tree_map(broadcast, weights, args)))
+    except ValueError:
+        # The weights may also be given for the flattened arguments.
+        return weights
+
+
 def init_forward_laplacian_state(
     *x: PyTree[Array], sparsity: bool, weights: PyTree[ArrayLike]
 ) -> PyTree[FwdLaplArray]:
@@ -303,7 +320,9 @@ def forward_laplacian(
         else:
             threshold = int(sparsity_threshold)
         lapl_args = init_forward_laplacian_state(
-            *flat_args, sparsity=threshold > 0, weights=weights
+            *flat_args,
+            sparsity=threshold > 0,
+            weights=broadcast_weights(weights, args_arr),
         )
         out = eval_jaxpr_with_forward_laplacian(
             closed_jaxpr.jaxpr,
-- 
2.43.0


From acefa3eb56e96a60f260398f93fcde9194727ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 15/43] fix: products of scalars with sparse Jacobians under
 jit

The mask of the Jacobian is a tracer there, while the output indices may
still be a numpy array, if no dimension has to be vectorized.
---
 folx/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index 6888b4e..f1dbed5 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -129,7 +129,7 @@ class FwdJacobian(NamedTuple):
             indices = jnp.where(jnp.any(matching, axis=-1), indices, -1)
             return indices
 
-        if isinstance(outputs, np.ndarray):
+        if isinstance(outputs, np.ndarray) and isinstance(mask, np.ndarray):
             with jax.ensure_compile_time_eval():
                 result = np.asarray(get_indices(flat_mask, flat_outputs), dtype=int).T
         else:
-- 
2.43.0


From 101ee18df10c239f2306e3b74e20cb14fb99333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 16/43] fix: Hessian of functions flagged as linear in one
 argument

The off diagonal block was contracted with a matrix over the Jacobian
dimension instead of one over the arguments' elements.
---
 folx/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/utils.py b/folx/utils.py
index aece6c0..768c1a0 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -83,7 +83,8 @@ def jac_jacT(first: FwdJacobian, other: FwdJacobian, idx: Array | np.ndarray | N
     Computes outer product of the given jacobians.
     """
     x, y = get_reduced_jacobians(first, other, idx=idx)
-    return x @ y.T
+    # The leading dimension is the Jacobian dimension.
+    return x.T @ y
 
 
 def flat_wrap(fn: ForwardFn, *x: Array):
-- 
2.43.0


From 2c6096db1e98c738b21a51f138dbe99fc6b2e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 17/43] fix: elementwise functions with several outputs in
 dense mode

---
 folx/jvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index b303f57..f614b20 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -461,7 +461,7 @@ def dense_elementwise_jvp(
     fwd: ForwardFn, laplace_args: FwdLaplArgs
 ) -> tuple[Array, FwdJacobian, Array]:
     y: Array = fwd(laplace_args.x[0])  # type: ignore
-    if y.shape != laplace_args.x[0].shape:
+    if not isinstance(y, Array) or y.shape != laplace_args.x[0].shape:
         return dense_split_jvp(fwd, laplace_args)
 
     jac = vjp(fwd, laplace_args.x[0])(jnp.ones_like(y))[0]
-- 
2.43.0


From c0c27a4fea217a438c42b08c4974d14b1393ee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 18/43] fix: broadcasting of constants in functions with sparse
 Jacobians

Arguments without derivatives may have dimensions which the Jacobians,
and therefore the output indices, do not have.
---
 folx/hessian.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index 02cbd45..7d7cbdf 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -353,9 +353,13 @@ def vmapped_jac_hessian_jac(
     if out_idx is not None:
         # By compressing out_idx we can reduce the number of non-coalesced memory accesses.
         out_idx, compressed_axes = compact_repeated_dims_except(out_idx, JAC_DIM)
-        out_idx_seq: list[int | None] = [1] * len(vmap_seq)
+        # The extra arguments may have dimensions which the Jacobians do not have.
+        mapped = [i for i, (axes, _) in enumerate(vmap_seq) if jtu.tree_leaves(axes)]
+        out_idx_seq: list[int | None] = [None] * len(vmap_seq)
+        for i in mapped:
+            out_idx_seq[i] = 1
         for c in compressed_axes[::-1]:
-            out_idx_seq[c - 1] = None
+            out_idx_seq[mapped[c - 1]] = None
             out_idx = jnp.take(out_idx, 0, axis=c)
     else:
         out_idx_seq = [None] * len(vmap_seq)
-- 
2.43.0


From 3cff55600aecf685c86a2a3577db341d7305ecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 19/43] fix: masks of reductions which keep the reduced axes

The mask was broadcast along the leading instead of the trailing axes of
the result.
---
 folx/jvp.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index f614b20..fd95806 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -181,9 +181,15 @@ def sparse_jvp(
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
     # The function may return several arrays, each of them has its own mask.
-    new_masks = jtu.tree_map(
-        lambda g: broadcast_mask_to_jacobian(out_mask, g), grad_y
-    )
+    # Their leading dimensions are the ones that are not part of the reduction, all
+    # elements along the remaining dimensions depend on the same inputs.
+    def output_mask(g: Array):
+        extra_dims = (1,) * (g.ndim - out_mask.ndim)
+        return broadcast_mask_to_jacobian(
+            out_mask.reshape(*out_mask.shape, *extra_dims), g
+        )
+
+    new_masks = jtu.tree_map(output_mask, grad_y)
     grad_y = jtu.tree_map(FwdJacobian, grad_y, new_masks)
     return y, grad_y, lapl_y
 
-- 
2.43.0


From 73cd93a5ddeff04ccfa5ee204896551a1bfcaec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 20/43] fix: primitives with integer results, e.g., argsort,
 top_k and while_loop

Integer results have no derivatives, differentiating them gave float0
arrays which the rules for Jacobians and Hessians cannot handle.
---
 folx/wrapped_functions.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 01e6fe3..ec7e694 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -464,6 +464,32 @@ def is_registered(primitive_or_name: Primitive | str) -> bool:
     return primitive_or_name in _LAPLACE_FN_REGISTRY
 
 
+def wrap_multiple_results(fn) -> ForwardLaplacian:
+    """
+    Wraps a function with several results of which some may have an integer type,
+    e.g., the indices of a sorting. These have no derivatives.
+    """
+
+    def wrapped(args, kwargs, sparsity_threshold: int):
+        y = fn(
+            *(a.x if isinstance(a, FwdLaplArray) else a for a in args),
+            **kwargs,
+        )
+        has_grad = [jnp.issubdtype(o.dtype, jnp.inexact) for o in y]
+
+        def differentiable_fn(*args, **kwargs):
+            return [o for o, m in zip(fn(*args, **kwargs), has_grad) if m]
+
+        if not any(has_grad):
+            return y
+        lapl_y = iter(
+            wrap_forward_laplacian(differentiable_fn)(args, kwargs, sparsity_threshold)
+        )
+        return [next(lapl_y) if m else o for o, m in zip(y, has_grad)]
+
+    return wrapped
+
+
 @overload
 def get_laplacian(
     primitive_or_name: Primitive, wrap_if_missing: Literal[True]
@@ -494,6 +520,8 @@ def get_laplacian(
             logging.warning(
                 f'{primitive_or_name} not in registry. The following call might be slow as we will compute the full hessian.'
             )
+            if primitive_or_name.multiple_results:
+                return wrap_multiple_results(primitive_or_name.bind)
             return wrap_forward_laplacian(primitive_or_name.bind)
         else:
             raise TypeError(f"Can't wrap {primitive_or_name} based on function names.")
-- 
2.43.0


From 6c515bb25110b76a055c427e0da7c5d81d018245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 21/43] fix: sparse dot products with axes of size one

The mask of nonzero entries was computed without the axes of size one, but
indexed arrays and outputs that have them.
---
 folx/hessian.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index 7d7cbdf..f545736 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -265,8 +265,12 @@ def remove_zero_entries(
         # insufficiently sparse masks.
         return lapl_args, out_idx, None
 
+    # out_idx has no dimensions of size 1 but the arguments and the output do.
+    mask = mask.reshape(np.broadcast_shapes(*[x.shape[:-1] for x in lapl_args.x]))
     indices = np.where(mask)
-    new_mat_idx = out_idx[(slice(None), *indices)]
+    new_mat_idx = out_idx.reshape(-1, *mask.shape)[(slice(None), *indices)]
+    if new_mat_idx.shape[1] == 1:
+        new_mat_idx = new_mat_idx[:, 0]
     new_arrs = []
     for arg in lapl_args.arrays:
         brdcast_dims = np.where(np.array(arg.x.shape) == 1)[0]
-- 
2.43.0


From 40e3626ddd9cf498907d7b186f0acb1beb4039d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 22/43] fix: shortcut of sparse dot products which need no
 transposition

The conditions admitted batch axes that are mixed with other axes and
contracted axes which differ from those of the left operand.
---
 folx/wrapped_functions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index ec7e694..0a1011c 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -140,21 +140,24 @@ def dot_general(
         neg_rh_batch_dims = tuple(np.array(rh_batch_dims) - rhs.ndim)
         neg_lh_contract = tuple(np.array(lh_contract) - lhs.ndim)
         neg_rh_contract = tuple(np.array(rh_contract) - rhs.ndim)
+        no_lh_brdcast = len(lh_brdcast_dims) == 0
+        no_rh_brdcast = len(rh_brdcast_dims) == 0
         if (
             neg_lh_contract == neg_rh_contract
             and neg_lh_batch_dims == neg_rh_batch_dims
-            and lh_brdcast_dims == tuple(range(len(lh_brdcast_dims)))
-            and rh_brdcast_dims == tuple(range(len(rh_brdcast_dims)))
+            and (no_lh_brdcast or no_rh_brdcast)
+            and (len(lh_batch_dims) == 0 or (no_lh_brdcast and no_rh_brdcast))
             and lh_batch_dims == tuple(sorted(lh_batch_dims))
             and rh_batch_dims == tuple(sorted(rh_batch_dims))
         ):
             # The checks above do the following:
             # * check that batch dims are identical in both
             # * check that contract dim are identical in both
-            # * check that all brdcast dims are at the beginning
+            # * check that at most one of them has brdcast dims
+            # * check that batch dims are not mixed with brdcast dims
             # * check that no transpositions are needed
             # Special case where we can skip the transpositions
-            return fwd_lapl_mul_sum(lhs, rhs, lh_contract)  # type: ignore
+            return fwd_lapl_mul_sum(lhs, rhs, neg_lh_contract)  # type: ignore
         return fwd_lapl_mul_sum(left_inp, right_inp, -1)
 
     # ====================================================================================
-- 
2.43.0


From bf12ddbe6a8c4d81c0b92b2d5f25b4a780ac92be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 23/43] fix: scan over constants that are numpy arrays

---
 folx/interpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 38ab9b3..fab341b 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -93,8 +93,8 @@ def eval_jaxpr_with_forward_laplacian(
             invals[n_const + n_carry :],
         )
         carry_merge = extract_jacobian_mask(in_carry)
-        assert all(
-            isinstance(x, Array) for x in in_inp
+        assert not any(
+            isinstance(x, FwdLaplArray) for x in in_inp
         ), 'Scan does not support scanning over input depenedent tensors.\nPlease unroll the loop.'
 
         def wrapped(carry, x):
-- 
2.43.0


From 2a802971332c21ac23c201645a1a49e42a59eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 24/43] fix: set elements of an array with sparse Jacobian to
 ones with dense Jacobian

The segment sum shortcut for scatter kept the derivatives of the replaced elements.
---
 folx/wrapped_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 0a1011c..bd9cb03 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -402,7 +402,7 @@ _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     ),
     jax.lax.scatter_p: wrap_forward_laplacian(
         jax.lax.scatter_p.bind,
-        flags=FunctionFlags.INDEXING | FunctionFlags.SCATTER,
+        flags=FunctionFlags.INDEXING,
         name='scatter',
     ),
     # The current scatter implementation is frequently slower than the naive approach.
-- 
2.43.0


From fdaaa223ef427dd731e6b508dd51f6a7befcab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 25/43] fix: functions of input dependent arrays without
 elements

---
 folx/interpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index fab341b..baee753 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -181,6 +181,10 @@ def eval_jaxpr_with_forward_laplacian(
 
     for eqn in jaxpr.eqns:
         invals = env.read_many(eqn.invars)
+        # Arrays without elements have no derivatives.
+        invals = [
+            x.x if isinstance(x, FwdLaplArray) and x.x.size == 0 else x for x in invals
+        ]
         # Eval expression
         try:
             if all(not isinstance(x, FwdLaplArray) for x in invals):
-- 
2.43.0


From 154c52d2790c2e8b9c2a75a15785336bd35e35e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 26/43] fix: preferred_element_type of sparse dot products

---
 folx/wrapped_functions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index bd9cb03..d4fe0c0 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -129,8 +129,14 @@ def dot_general(
         # lazy import to avoid circular imports
         from .interpreter import forward_laplacian
 
+        def mul_sum(x, y):
+            if preferred_element_type is not None:
+                x = x.astype(preferred_element_type)
+                y = y.astype(preferred_element_type)
+            return (x * y).sum(dims)
+
         return forward_laplacian(
-            lambda x, y: (x * y).sum(dims),
+            mul_sum,
             disable_jit=True,
             sparsity_threshold=sparsity_threshold,
         )(lhs, rhs)
-- 
2.43.0


From 8abeb45715f30328f5b4d1a0b8b1167e056b15e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 27/43] fix: arguments of different precision in dense mode

---
 folx/interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index baee753..e868599 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -280,6 +280,8 @@ def init_forward_laplacian_state(
         jacobian = jtu.tree_map(lambda x: x[None], jacobian)
     else:
         jacobian = jax.vmap(unravel)(jnp.diag(ravel(jac)[0]))
+        # ravel promotes all leaves to the same type
+        jacobian = jtu.tree_map(lambda j, x: j.astype(x.dtype), jacobian, x)
         jacobian = jtu.tree_map(FwdJacobian.from_dense, jacobian)
     lapl_x = jtu.tree_map(jnp.zeros_like, x)
     return jtu.tree_map(FwdLaplArray, x, jacobian, lapl_x)
-- 
2.43.0


From a9479c8a8723640becae11b770676726b97ab2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 28/43] fix: unregistered primitives with a single result of
 integer type

---
 folx/wrapped_functions.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index d4fe0c0..d6c08a9 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -473,10 +473,10 @@ def is_registered(primitive_or_name: Primitive | str) -> bool:
     return primitive_or_name in _LAPLACE_FN_REGISTRY
 
 
-def wrap_multiple_results(fn) -> ForwardLaplacian:
+def wrap_unregistered(fn) -> ForwardLaplacian:
     """
-    Wraps a function with several results of which some may have an integer type,
-    e.g., the indices of a sorting. These have no derivatives.
+    Wraps a function whose results may have an integer type, e.g., the indices of a
+    sorting or comparisons. These have no derivatives.
     """
 
     def wrapped(args, kwargs, sparsity_threshold: int):
@@ -484,6 +484,10 @@ def wrap_multiple_results(fn) -> ForwardLaplacian:
             *(a.x if isinstance(a, FwdLaplArray) else a for a in args),
             **kwargs,
         )
+        if not isinstance(y, (list, tuple)):
+            if not jnp.issubdtype(y.dtype, jnp.inexact):
+                return y
+            return wrap_forward_laplacian(fn)(args, kwargs, sparsity_threshold)
         has_grad = [jnp.issubdtype(o.dtype, jnp.inexact) for o in y]
 
         def differentiable_fn(*args, **kwargs):
@@ -529,9 +533,7 @@ def get_laplacian(
             logging.warning(
                 f'{primitive_or_name} not in registry. The following call might be slow as we will compute the full hessian.'
             )
-            if primitive_or_name.multiple_results:
-                return wrap_multiple_results(primitive_or_name.bind)
-            return wrap_forward_laplacian(primitive_or_name.bind)
+            return wrap_unregistered(primitive_or_name.bind)
         else:
             raise TypeError(f"Can't wrap {primitive_or_name} based on function names.")
     return None
-- 
2.43.0


From cfbc131631e1cf6cef06c33392fcbf3b672c58d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:47 +0000
Subject: [PATCH 29/43] fix: ForwardLaplacianOperator for functions that do not
 depend on all of x

---
 folx/operators.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index 648096b..1bcf72d 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -4,7 +4,7 @@ from typing import Callable, Protocol
 import jax
 import jax.numpy as jnp
 
-from .api import Array
+from .api import Array, FwdLaplArray
 from .interpreter import forward_laplacian
 
 __all__ = [
@@ -36,7 +36,14 @@ class ForwardLaplacianOperator(LaplacianOperator):
         @jax.jit
         def lap(x: Array):
             result = fwd_lapl(x)
-            return result.laplacian, result.jacobian.dense_array
+            if not isinstance(result, FwdLaplArray):
+                # f does not depend on x
+                result = jnp.asarray(result)
+                return jnp.zeros_like(result), jnp.zeros((x.size,), result.dtype)
+            jacobian = result.jacobian.dense_array
+            # f may not depend on the last elements of x
+            jacobian = jnp.pad(jacobian, (0, x.size - jacobian.shape[0]))
+            return result.laplacian, jacobian
 
         return lap
 
-- 
2.43.0


From 8072a83bb28d41d54ee138a243b20de4a0e36f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 30/43] fix: compute_memory of functions with keyword arguments

---
 folx/experimental/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 3c6e30c..81e4129 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -215,7 +215,7 @@ def compute_memory(
     # Here we abuse the eval_shape function to avoid actually computing something.
     # Instead the function prints to correct usage
     with Capturing() as output:
-        jax.eval_shape(fn, *jtu.tree_leaves(args))
+        jax.eval_shape(fn, *jtu.tree_leaves((args, kwargs)))
 
     # Print everything except the last line
     if len(output) > 1:
-- 
2.43.0


From ee5f36b86743f2e50963730844f1277d5cda07e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 31/43] fix: compute_memory of scans without inputs

---
 folx/experimental/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 81e4129..60102b1 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -119,7 +119,7 @@ def _compute_jaxpr_memory(
             )
             # populate the results by the loop size
             ans[n_carry:] = jtu.tree_map(
-                lambda x: jnp.repeat(x[None], in_inp[0].shape[0], axis=0),
+                lambda x: jnp.repeat(x[None], eqn.params['length'], axis=0),
                 ans[n_carry:],
             )
             all_tensors += sub_tensors
-- 
2.43.0


From fa99225a92a43a6c5a837d7871fd6c3d8dd2d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:48 +0000
Subject: [PATCH 32/43] fix: Laplacian of functions of complex numbers that are
 not holomorphic

---
 folx/hessian.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index f545736..54b8f31 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -9,7 +9,7 @@ import jax.tree_util as jtu
 import jaxlib.xla_extension
 import numpy as np
 
-from .ad import hessian, jacrev
+from .ad import hessian
 from .api import (
     JAC_DIM,
     Array,
@@ -59,17 +59,6 @@ def JHJ_via_trace(flat_fn: Callable, flat_x: Array, grad_2d: Array):
     return jnp.trace(vhvp(grad_2d), axis1=-2, axis2=-1)
 
 
-def JHJ_via_hvp(flat_fn: Callable, flat_x: Array, grad_2d: Array):
-    # Implementation where we compute HJ and then the trace via
-    # the sum of hadamard product
-    @functools.partial(jax.vmap, in_axes=-1, out_axes=-1)
-    def hvp(tangent):
-        return jax.jvp(jacrev(flat_fn), (flat_x,), (tangent,))[1]
-
-    HJ = hvp(grad_2d)  # N x D x K
-    return trace_of_product(HJ, grad_2d)
-
-
 def general_jac_hessian_jac(
     fn: ForwardFn, args: FwdLaplArgs, materialize_idx: Array | None
 ):
@@ -77,7 +66,7 @@ def general_jac_hessian_jac(
     # Hessian, since we can then use einsum to compute the trace.
     flat_fn = flat_wrap(fn, *args.x)
     flat_x = jfu.ravel_pytree(args.x)[0]
-    out, unravel = jfu.ravel_pytree(fn(*args.x))
+    unravel = jfu.ravel_pytree(fn(*args.x))[1]
     # We have to decide on an order in which we execute tr(HJJ^T).
     # H will be of shape NxDxD, J is DxK where N could potentially be D.
     # We will do the following:
@@ -88,16 +77,20 @@ def general_jac_hessian_jac(
     # is the x0 dim and the second dim is the input dim.
     grads_2d = get_reduced_jacobians(*args.jacobian, idx=materialize_idx)
     grad_2d = jnp.concatenate([x.T for x in grads_2d], axis=0)
+    if jnp.iscomplexobj(flat_x):
+        # Functions of complex numbers need not be holomorphic, so their Hessian is
+        # the one with respect to the real and imaginary parts.
+        complex_fn, n_x = flat_fn, flat_x.size
+
+        def flat_fn(x):
+            return complex_fn(x[:n_x] + 1j * x[n_x:])
+
+        flat_x = jnp.concatenate([flat_x.real, flat_x.imag])
+        grad_2d = jnp.concatenate([grad_2d.real, grad_2d.imag], axis=0)
     jac_dim, inp_dim = grad_2d.shape
-    is_complex_to_real = jnp.iscomplexobj(flat_x) and not jnp.iscomplexobj(out)
 
     if inp_dim > jac_dim:
-        if is_complex_to_real:
-            # Materializing the Hessian for a complex to real function is not supported.
-            # We avoid this by only performing HvJ products.
-            flat_out = JHJ_via_hvp(flat_fn, flat_x, grad_2d).real
-        else:
-            flat_out = JHJ_via_hessian(flat_fn, flat_x, grad_2d)
+        flat_out = JHJ_via_hessian(flat_fn, flat_x, grad_2d)
     else:
         # Here we contract the Jacobian dimensions directly without computing the full Hessian.
         # This might be more efficient if the Jacobian is large and the Hessian is small.
-- 
2.43.0


From 0a6fe2af04a309d2d5058ed7f8d6a08eb445b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 33/43] fix: elementwise functions of complex numbers that are
 not holomorphic

---
 folx/jvp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index fd95806..90cb91c 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -7,7 +7,7 @@ import jax.numpy as jnp
 import jax.tree_util as jtu
 import numpy as np
 
-from .ad import vjp
+from .ad import is_tree_complex, vjp
 from .api import (
     JAC_DIM,
     Array,
@@ -205,6 +205,7 @@ def sparse_diag_jvp(
         isinstance(y, Array)
         and len(laplace_args) == 1
         and y.shape == laplace_args.x[0].shape
+        and not (is_tree_complex(laplace_args.x) and is_tree_complex(y))
     ):
         # If we have elementwise functions, we can just compute the full jacobian and
         # do the operations a bit faster.
@@ -469,6 +470,9 @@ def dense_elementwise_jvp(
     y: Array = fwd(laplace_args.x[0])  # type: ignore
     if not isinstance(y, Array) or y.shape != laplace_args.x[0].shape:
         return dense_split_jvp(fwd, laplace_args)
+    if is_tree_complex(laplace_args.x) and is_tree_complex(y):
+        # The function may not be holomorphic.
+        return dense_split_jvp(fwd, laplace_args)
 
     jac = vjp(fwd, laplace_args.x[0])(jnp.ones_like(y))[0]
     grad_y = jac * laplace_args.dense_jacobian[0]
-- 
2.43.0


From 5e714ea9f0c1a060e14d76e302e43002b1c91cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:59 +0000
Subject: [PATCH 34/43] fix: sparsity patterns of scans that arrange arrays by
 their inputs

---
 folx/interpreter.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index e868599..4169cb6 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -108,7 +108,21 @@ def eval_jaxpr_with_forward_laplacian(
             )
             return result[:n_carry], result[n_carry:]
 
-        first_carry, first_y = wrapped(in_carry, jtu.tree_map(lambda x: x[0], in_inp))
+        # The sparsity patterns are those of a step whose carry and inputs are unknown, as
+        # they are within the loop.
+        first: list[ArrayOrFwdLaplArray] = []
+
+        def first_step(carry, x):
+            new_carry, y = wrapped(carry, x)
+            first[:] = [*new_carry, *y]
+            return new_carry, y
+
+        jax.eval_shape(
+            first_step,
+            in_carry,
+            [jax.ShapeDtypeStruct(x.shape[1:], x.dtype) for x in in_inp],
+        )
+        first_carry, first_y = first[:n_carry], first[n_carry:]
         # Check whether jacobian sparsity matches
         for a, b in zip(in_carry, first_carry):
             if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
-- 
2.43.0


From 4fb7137d46a44ec253b14f9e014daef90e928c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 35/43] fix: sparse Jacobians of scatter additions

---
 folx/jvp.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 90cb91c..a0f6039 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -375,6 +375,10 @@ def sparse_scatter_jvp(
         dimension_numbers.inserted_window_dims != (0,)
         or dimension_numbers.scatter_dims_to_operand_dims != (0,)
         or dimension_numbers.update_window_dims != ()
+        or scatter_indices.ndim != 2
+        or operand.ndim != 1
+        or kwargs['mode'] == jax.lax.GatherScatterMode.CLIP
+        or isinstance(scatter_indices, jax.core.Tracer)
     ):
         logging.info(
             'Scatter: dimension numbers not supported. At the moment only segment sums are supported.'
@@ -386,11 +390,11 @@ def sparse_scatter_jvp(
         one_hot_mask = jax.nn.one_hot(
             updates.jacobian.x0_idx, n, axis=-1, dtype=jnp.int32
         ).sum(0)
-        out_mask = np.array(jax.ops.segment_sum(one_hot_mask, scatter_indices[:, 0]))
-        max_out = np.sum(out_mask.astype(bool), axis=-1).max()
-        out_mask = np.where(
-            out_mask > 0, out_mask * jnp.arange(n), np.iinfo(np.int32).max
+        out_mask = np.array(
+            jax.ops.segment_sum(one_hot_mask, scatter_indices[:, 0], operand.shape[0])
         )
+        max_out = max(np.sum(out_mask.astype(bool), axis=-1).max(), 1)
+        out_mask = np.where(out_mask > 0, np.arange(n), np.iinfo(np.int32).max)
         unique_fn = jax.vmap(functools.partial(jnp.unique, size=max_out, fill_value=-1))
         out_mask = unique_fn(out_mask.reshape(-1, n)).T.reshape(
             max_out, *out_mask.shape[:-1]
-- 
2.43.0


From 7fa066fa556a68829b3de4cfcf8124a1f99a85c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:21 +0000
Subject: [PATCH 36/43] fix: batched_vmap of functions with unmapped results

Results with out_axes None were only accepted if all elements fit in a single batch.
---
 folx/vmap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/folx/vmap.py b/folx/vmap.py
index 74a45a3..4a1cd5d 100644
--- a/folx/vmap.py
+++ b/folx/vmap.py
@@ -73,9 +73,14 @@ def batched_vmap(
                 lambda x, r: jnp.concatenate([r, x], axis=0), result, remainder_result
             )
 
-        out_axes_flat, out_tree = jtu.tree_flatten(out_axes)
+        # Results without an axis are the same for all elements, vmap ensures this.
+        out_axes_flat, out_tree = jtu.tree_flatten(out_axes, lambda x: x is None)
+        if None in out_axes_flat:
+            jax.eval_shape(jax.vmap(wrapped_fn, in_axes, out_axes), *args)
         result = tuple(
             jtu.tree_map(lambda x: jnp.moveaxis(x, 0, ax), r)
+            if ax is not None
+            else jtu.tree_map(lambda x: x[0], r)
             for r, ax in zip(out_tree.flatten_up_to(result), out_axes_flat)
         )
         return out_tree.unflatten(result)
-- 
2.43.0


From 9c3f83c8bb3ffa10deb580eb3c396cf279faf4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:47 +0000
Subject: [PATCH 37/43] fix: sparse Jacobians of linear solves

---
 folx/wrapped_functions.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index d6c08a9..842a968 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -303,6 +303,21 @@ def abs_wrapper(
     )
 
 
+def linear_solve_wrapper(
+    args: tuple[ArrayOrFwdLaplArray, ...],
+    kwargs: dict[str, Any],
+    sparsity_threshold: int,
+):
+    # The matrix is passed several times, e.g., itself and its decomposition. JAX requires
+    # that we differentiate all of these at once. As every output depends on all elements
+    # of the matrix, there is no benefit in sparse Jacobians.
+    return wrap_forward_laplacian(jax.lax.linear_solve_p.bind, name='linear_solve')(
+        tuple(x.dense if isinstance(x, FwdLaplArray) else x for x in args),
+        kwargs,
+        sparsity_threshold,
+    )
+
+
 _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     jax.lax.conj_p: wrap_elementwise(jnp.conj),
     jax.lax.imag_p: wrap_elementwise(jnp.imag),
@@ -443,6 +458,7 @@ _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     jax.lax.argmax_p: warp_without_fwd_laplacian(jax.lax.argmax_p.bind),
     jax.lax.argmin_p: warp_without_fwd_laplacian(jax.lax.argmin_p.bind),
     jax.lax.convert_element_type_p: dtype_conversion,
+    jax.lax.linear_solve_p: linear_solve_wrapper,
     'sign': warp_without_fwd_laplacian(jax.lax.sign),
     'logaddexp': wrap_forward_laplacian(jnp.logaddexp, in_axes=()),
     'sigmoid': wrap_forward_laplacian(jax.nn.sigmoid, in_axes=()),
-- 
2.43.0


From bc3411def4cdacaa24be7bdce0777d8515856cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:47 +0000
Subject: [PATCH 38/43] fix: name rules of transformed or equally named
 functions

---
 folx/interpreter.py       | 17 ++++++++--
 folx/wrapped_functions.py | 66 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 78 insertions(+), 5 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 4169cb6..3cc8234 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -23,7 +23,12 @@ from .api import (
     PyTree,
 )
 from .utils import LoggingPrefix, extract_jacobian_mask, ravel
-from .wrapped_functions import get_laplacian, wrap_forward_laplacian
+from .wrapped_functions import (
+    computes_function,
+    get_laplacian,
+    is_default_rule,
+    wrap_forward_laplacian,
+)
 
 R = TypeVar('R', bound=PyTree[Array])
 P = ParamSpec('P')
@@ -163,13 +168,19 @@ def eval_jaxpr_with_forward_laplacian(
 
     def eval_pjit(eqn: core.JaxprEqn, invals):
         name = eqn.params['name']
-        if fn := get_laplacian(name):
+        sub_expr: core.ClosedJaxpr = eqn.params['jaxpr']
+        fn = get_laplacian(name)
+        # Transformations like vmap or jvp keep the name of the function they transform
+        # (but not its debug info) and other functions may have the name of one of ours.
+        if fn and (is_default_rule(name) or sub_expr.jaxpr.debug_info is None):
+            if not computes_function(fn, sub_expr, invals):
+                fn = None
+        if fn:
             # TODO: this is a bit incomplete, e.g., kwargs?
             outvals = fn(invals, {}, sparsity_threshold=sparsity_threshold)
             if isinstance(outvals, (FwdLaplArray, Array)):
                 outvals = [outvals]  # TODO: Figure out how to properly handle outvals
             return outvals
-        sub_expr: core.ClosedJaxpr = eqn.params['jaxpr']
         return eval_jaxpr_with_forward_laplacian(
             sub_expr.jaxpr,
             sub_expr.literals,
diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 842a968..1781e75 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -1,16 +1,17 @@
 import functools
 import logging
-from typing import Any, Literal, ParamSpec, TypeVar, overload
+from typing import Any, Literal, ParamSpec, Sequence, TypeVar, overload
 
 import jax
 import jax.numpy as jnp
 import jax.tree_util as jtu
 import numpy as np
-from jax.core import Primitive
+from jax.core import ClosedJaxpr, Primitive, jaxpr_as_fun
 
 from folx.ad import is_tree_complex
 
 from .api import (
+    IS_LPL_ARR,
     Array,
     ArrayOrFwdLaplArray,
     ForwardLaplacian,
@@ -466,6 +467,7 @@ _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     'silu': wrap_forward_laplacian(jax.nn.silu, in_axes=()),
     'slogdet': slogdet_wrapper,
 }
+_DEFAULT_RULES = dict(_LAPLACE_FN_REGISTRY)
 
 
 def register_function(primitive_or_name: Primitive | str, laplacian: ForwardLaplacian):
@@ -489,6 +491,66 @@ def is_registered(primitive_or_name: Primitive | str) -> bool:
     return primitive_or_name in _LAPLACE_FN_REGISTRY
 
 
+def is_default_rule(primitive_or_name: Primitive | str) -> bool:
+    """
+    Check whether the rule of a primitive or function name is one of the predefined ones.
+    """
+    rule = _LAPLACE_FN_REGISTRY.get(primitive_or_name)
+    return rule is not None and rule is _DEFAULT_RULES.get(primitive_or_name)
+
+
+def computes_function(
+    rule: ForwardLaplacian,
+    function: ClosedJaxpr,
+    args: Sequence[ArrayOrFwdLaplArray],
+) -> bool:
+    """
+    Check whether a rule returns the values of a function. We do so by evaluating both on
+    some input.
+
+    Args:
+        - rule: forward laplacian of the function
+        - function: jaxpr of the function
+        - args: arguments of the function, only their shapes and types are used
+    """
+    rng = np.random.default_rng(0)
+
+    def example(arg: ArrayOrFwdLaplArray):
+        x = rng.normal(size=arg.shape)
+        if jnp.issubdtype(arg.dtype, jnp.complexfloating):
+            x = x + 1j * rng.normal(size=arg.shape)
+        elif not jnp.issubdtype(arg.dtype, jnp.floating):
+            x = x > 0
+        return jnp.asarray(x, dtype=arg.dtype)
+
+    def with_zero_derivatives(x: Array, arg: ArrayOrFwdLaplArray):
+        if not isinstance(arg, FwdLaplArray):
+            return x
+        zeros = jnp.zeros_like(x)
+        return FwdLaplArray(x, FwdJacobian(zeros[None]), zeros)
+
+    try:
+        with jax.ensure_compile_time_eval():
+            xs = [example(arg) for arg in args]
+            expected = jaxpr_as_fun(function)(*xs)
+            actual = jtu.tree_leaves(
+                rule(
+                    tuple(map(with_zero_derivatives, xs, args)),
+                    {},
+                    sparsity_threshold=0,
+                ),
+                is_leaf=IS_LPL_ARR,
+            )
+            actual = [y.x if isinstance(y, FwdLaplArray) else y for y in actual]
+            return len(actual) == len(expected) and all(
+                a.shape == e.shape
+                and np.allclose(a, e, rtol=1e-3, atol=1e-3, equal_nan=True)
+                for a, e in zip(actual, expected)
+            )
+    except Exception:
+        return False
+
+
 def wrap_unregistered(fn) -> ForwardLaplacian:
     """
     Wraps a function whose results may have an integer type, e.g., the indices of a
-- 
2.43.0


From 389712b95e9e95705820b0aa2a60155a13f9f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:25 +0000
Subject: [PATCH 39/43] fix: sparse Jacobians of functions of some axes when
 the arguments have different ranks

---
 folx/jvp.py   | 14 ++++++++++++--
 folx/utils.py | 19 +++++++++++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index a0f6039..baeb80f 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -28,6 +28,7 @@ from .utils import (
     broadcast_mask_to_jacobian,
     compact_repeated_dims_except,
     extend_jacobians,
+    get_batch_shape,
     get_jacobian_for_reduction,
     np_concatenate_brdcast,
 )
@@ -183,10 +184,19 @@ def sparse_jvp(
     # The function may return several arrays, each of them has its own mask.
     # Their leading dimensions are the ones that are not part of the reduction, all
     # elements along the remaining dimensions depend on the same inputs.
+    # Other arguments may add leading dimensions through broadcasting.
+    batch_shape = out_mask.shape[1:]
+    if in_axes is not None:
+        batch_shape = get_batch_shape((*laplace_args.x, *extra_args), axes, batch_shape)
+
     def output_mask(g: Array):
-        extra_dims = (1,) * (g.ndim - out_mask.ndim)
+        jac_dim, *kept_shape = out_mask.shape
+        new_dims: tuple[int, ...] = ()
+        if g.shape[1 : len(batch_shape) + 1] == batch_shape:
+            new_dims = (1,) * (len(batch_shape) - len(kept_shape))
+        extra_dims = (1,) * (g.ndim - out_mask.ndim - len(new_dims))
         return broadcast_mask_to_jacobian(
-            out_mask.reshape(*out_mask.shape, *extra_dims), g
+            out_mask.reshape(jac_dim, *new_dims, *kept_shape, *extra_dims), g
         )
 
     new_masks = jtu.tree_map(output_mask, grad_y)
diff --git a/folx/utils.py b/folx/utils.py
index 768c1a0..1dacf7b 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -426,6 +426,25 @@ def compact_repeated_dims_except(arr: np.ndarray, axis):
     return arr, compact_axes
 
 
+def get_batch_shape(
+    arrs: Sequence[Array], axes: tuple[int, ...], default: tuple[int, ...]
+) -> tuple[int, ...]:
+    """
+    Returns the shape to which the dimensions of the arrays that are not in axes
+    broadcast, or the default if they do not broadcast.
+    """
+    try:
+        return np.broadcast_shapes(
+            *[
+                tuple(np.delete(np.shape(x), axes).tolist())
+                for x in arrs
+                if np.ndim(x) >= len(axes)
+            ]
+        )
+    except (ValueError, IndexError):
+        return default
+
+
 def get_jacobian_for_reduction(jacs: Sequence[FwdJacobian], axes):
     # The idea is to first rearrange the jacobians such that all batch dimensions
     # are reduced to one, all reduction dimensions are reduced to one and as last
-- 
2.43.0


From ee7c9dba10c796fd6a38a02525b58b4548fa1398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:03 +0000
Subject: [PATCH 40/43] fix: compute_memory of functions with random keys

---
 folx/experimental/memory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 60102b1..70c26f8 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -18,6 +18,9 @@ def _bytes_from_dtype(dtype):
 
     if str(dtype) == 'bool':
         return 1
+    if jax.dtypes.issubdtype(dtype, jax.dtypes.extended):
+        # e.g., the keys of random numbers
+        return dtype.itemsize
     return int(re.findall(r'\d+', str(dtype))[0]) // 8
 
 
-- 
2.43.0


From b05d526d45a53f588ba56f5d4e687f257e663ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:03 +0000
Subject: [PATCH 41/43] fix: compute_memory of functions whose inner results
 are plain numbers

---
 folx/experimental/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 70c26f8..fde00f0 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -53,7 +53,7 @@ class MemoryExprEnvironment:
 
     def read(self, var: core.Atom) -> Array:
         if isinstance(var, core.Literal):
-            return var.val
+            return jnp.asarray(var.val, dtype=var.aval.dtype)
         self.reference_counter[var] -= 1
         result = self.env[var]
         if self.reference_counter[var] == 0:
-- 
2.43.0


From 37a4159f9b77db3df674351eb2421d061238356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:03 +0000
Subject: [PATCH 42/43] fix: compute_memory of scans over no steps

---
 folx/experimental/memory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index fde00f0..0801db5 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -117,7 +117,10 @@ def _compute_jaxpr_memory(
                 (),
                 *in_const,
                 *in_carry,
-                *jtu.tree_map(lambda x: x[0], in_inp),
+                *[
+                    x[0] if len(x) > 0 else jnp.zeros(x.shape[1:], x.dtype)
+                    for x in in_inp
+                ],
                 return_result=True,
             )
             # populate the results by the loop size
-- 
2.43.0


From a5a167efdf85f0c2d250f05edd656a94554c06b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:03 +0000
Subject: [PATCH 43/43] fix: compute_memory with negative static_argnums

---
 folx/experimental/memory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 0801db5..d4cf83a 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -217,6 +217,7 @@ def compute_memory(
         print_top_tensors=print_top_tensors,
     )
     # remove statics
+    static_argnums = tuple(i + len(args) if i < 0 else i for i in static_argnums)
     args = tuple(args[i] for i in range(len(args)) if i not in static_argnums)
     # Here we abuse the eval_shape function to avoid actually computing something.
     # Instead the function prints to correct usage
-- 
2.43.0

