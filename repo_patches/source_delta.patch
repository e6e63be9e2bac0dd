From e60a4a88daf98e6d1025cf8e200212d1533ac87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 01/24] fix: divide the low-rank part of the posterior
 precision by the loss scaling factor

---
 laplax/curv/low_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/low_rank.py b/laplax/curv/low_rank.py
index 411a388..d8bab0e 100644
--- a/laplax/curv/low_rank.py
+++ b/laplax/curv/low_rank.py
@@ -143,7 +143,7 @@ def low_rank_curvature_to_precision(
     U, S, _ = jax.tree.leaves(curv_estimate)
     return LowRankTerms(
         U=U,
-        S=(sigma_squared * S),
+        S=(sigma_squared * S) / loss_scaling_factor,
         scalar=prior_prec / loss_scaling_factor,
     )
 
-- 
2.43.0


From 1db25960e522d785725c74d94186a589499d3eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 02/24] fix: continue Lanczos with zero vectors after a
 breakdown

Repeating the last vector counted its curvature once more per remaining iteration.
---
 laplax/curv/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 6273be4..cd1a202 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -66,7 +66,7 @@ def lanczos_iterations(
         v_next = jax.lax.cond(
             b_val > 0,  # type: ignore[operator]
             lambda _: w / b_val,
-            lambda _: v,  # In degenerate cases, no progress is made.
+            lambda _: jnp.zeros_like(v),  # In degenerate cases, no progress is made.
             operand=None,
         )
         alpha = alpha.at[i].set(a)
-- 
2.43.0


From 1a4a3adc6657ad9a44161c465e49d6a9c7143e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 03/24] fix: restore jax_enable_x64 when a low-rank routine
 raises

---
 laplax/curv/lanczos.py | 77 +++++++++++++++++++------------------
 laplax/curv/lobpcg.py  | 87 +++++++++++++++++++++---------------------
 2 files changed, 83 insertions(+), 81 deletions(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index cd1a202..de8d38b 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -200,45 +200,46 @@ def lanczos_lowrank(
 
     jax.config.update("jax_enable_x64", calc_dtype == jnp.float64)
 
-    # Obtain a uniform matrix-vector multiplication function.
-    matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
-
-    # Wrap to_dtype around mv if necessary.
-    if mv_dtype != calc_dtype:
-        matvec = wrap_function(
+    try:
+        # Obtain a uniform matrix-vector multiplication function.
+        matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
+
+        # Wrap to_dtype around mv if necessary.
+        if mv_dtype != calc_dtype:
+            matvec = wrap_function(
+                matvec,
+                input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
+                output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
+            )
+
+        # Initialize starting vector.
+        if b is not None:
+            b = jnp.asarray(b, dtype=calc_dtype)
+        elif key is not None:
+            b = jax.random.normal(key, (size,), dtype=calc_dtype)
+        else:
+            msg = "Either key or b must be provided"
+            raise ValueError(msg)
+
+        # Run Lanczos iterations.
+        alpha, beta, V = lanczos_iterations(
             matvec,
-            input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
-            output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
+            b,
+            maxiter=rank,
+            tol=tol,
+            full_reorthogonalize=full_reorthogonalize,
+            dtype=calc_dtype,
+            mv_jit=mv_jit,
         )
+        eigvals, eigvecs = compute_eigendecomposition(alpha, beta, V, compute_vectors=True)
 
-    # Initialize starting vector.
-    if b is not None:
-        b = jnp.asarray(b, dtype=calc_dtype)
-    elif key is not None:
-        b = jax.random.normal(key, (size,), dtype=calc_dtype)
-    else:
-        msg = "Either key or b must be provided"
-        raise ValueError(msg)
-
-    # Run Lanczos iterations.
-    alpha, beta, V = lanczos_iterations(
-        matvec,
-        b,
-        maxiter=rank,
-        tol=tol,
-        full_reorthogonalize=full_reorthogonalize,
-        dtype=calc_dtype,
-        mv_jit=mv_jit,
-    )
-    eigvals, eigvecs = compute_eigendecomposition(alpha, beta, V, compute_vectors=True)
-
-    # Prepare and convert the results
-    low_rank_result = LowRankTerms(
-        U=jnp.asarray(eigvecs, dtype=return_dtype),
-        S=jnp.asarray(eigvals, dtype=return_dtype),
-        scalar=jnp.asarray(0.0, dtype=return_dtype),
-    )
-
-    # Restore the original configuration dtype
-    jax.config.update("jax_enable_x64", original_float64_enabled)
+        # Prepare and convert the results
+        low_rank_result = LowRankTerms(
+            U=jnp.asarray(eigvecs, dtype=return_dtype),
+            S=jnp.asarray(eigvals, dtype=return_dtype),
+            scalar=jnp.asarray(0.0, dtype=return_dtype),
+        )
+    finally:
+        # Restore the original configuration dtype
+        jax.config.update("jax_enable_x64", original_float64_enabled)
     return low_rank_result
diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index ee47547..3428622 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -358,50 +358,51 @@ def lobpcg_lowrank(
 
     jax.config.update("jax_enable_x64", calc_dtype == jnp.float64)
 
-    # Obtain a matrix-vector multiplication function.
-    matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
-
-    # Obtain a matrix-matrix product function.
-    matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
-
-    # Adjust rank if it's too large compared to problem size
-    if size < rank * 5:
-        rank = max(1, size // 5 - 1)
-        msg = f"reduced rank to {rank} due to insufficient size"
-        warnings.warn(msg, stacklevel=1)
-
-    # Wrap to_dtype around mv if necessary.
-    if mv_dtype != calc_dtype:
-        matmat = wrap_function(
-            matmat,
-            input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
-            output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
+    try:
+        # Obtain a matrix-vector multiplication function.
+        matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
+
+        # Obtain a matrix-matrix product function.
+        matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
+
+        # Adjust rank if it's too large compared to problem size
+        if size < rank * 5:
+            rank = max(1, size // 5 - 1)
+            msg = f"reduced rank to {rank} due to insufficient size"
+            warnings.warn(msg, stacklevel=1)
+
+        # Wrap to_dtype around mv if necessary.
+        if mv_dtype != calc_dtype:
+            matmat = wrap_function(
+                matmat,
+                input_fn=lambda x: jnp.asarray(x, dtype=mv_dtype),
+                output_fn=lambda x: jnp.asarray(x, dtype=calc_dtype),
+            )
+
+        # Initialize random search directions
+        if key is None:
+            key = jax.random.key(0)
+        X = jax.random.normal(key, (size, rank), dtype=calc_dtype)
+
+        # Perform LOBPCG for eigenvalues and eigenvectors using the new wrapper
+        eigenvals, eigenvecs, _ = lobpcg_standard(
+            A=matmat,
+            X=X,
+            m=rank,
+            tol=tol,
+            calc_dtype=calc_dtype,
+            a_dtype=mv_dtype,  # type: ignore  # noqa: PGH003
+            A_jit=mv_jit,
         )
 
-    # Initialize random search directions
-    if key is None:
-        key = jax.random.key(0)
-    X = jax.random.normal(key, (size, rank), dtype=calc_dtype)
-
-    # Perform LOBPCG for eigenvalues and eigenvectors using the new wrapper
-    eigenvals, eigenvecs, _ = lobpcg_standard(
-        A=matmat,
-        X=X,
-        m=rank,
-        tol=tol,
-        calc_dtype=calc_dtype,
-        a_dtype=mv_dtype,  # type: ignore  # noqa: PGH003
-        A_jit=mv_jit,
-    )
-
-    # Prepare and convert the results
-    low_rank_result = LowRankTerms(
-        U=jnp.asarray(eigenvecs, dtype=return_dtype),
-        S=jnp.asarray(eigenvals, dtype=return_dtype),
-        scalar=jnp.asarray(0.0, dtype=return_dtype),
-    )
-
-    # Restore the original configuration dtype
-    jax.config.update("jax_enable_x64", original_float64_enabled)
+        # Prepare and convert the results
+        low_rank_result = LowRankTerms(
+            U=jnp.asarray(eigenvecs, dtype=return_dtype),
+            S=jnp.asarray(eigenvals, dtype=return_dtype),
+            scalar=jnp.asarray(0.0, dtype=return_dtype),
+        )
+    finally:
+        # Restore the original configuration dtype
+        jax.config.update("jax_enable_x64", original_float64_enabled)
 
     return low_rank_result
-- 
2.43.0


From 937d996a470b0ffa467298ca75b0e8d6d6664203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 04/24] fix: return low-rank terms in the requested precision
 when computing in another one

---
 laplax/curv/lanczos.py | 1 +
 laplax/curv/lobpcg.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index de8d38b..2b71c8c 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -234,6 +234,7 @@ def lanczos_lowrank(
         eigvals, eigvecs = compute_eigendecomposition(alpha, beta, V, compute_vectors=True)
 
         # Prepare and convert the results
+        jax.config.update("jax_enable_x64", return_dtype == jnp.float64)
         low_rank_result = LowRankTerms(
             U=jnp.asarray(eigvecs, dtype=return_dtype),
             S=jnp.asarray(eigvals, dtype=return_dtype),
diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index 3428622..d58d483 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -396,6 +396,7 @@ def lobpcg_lowrank(
         )
 
         # Prepare and convert the results
+        jax.config.update("jax_enable_x64", return_dtype == jnp.float64)
         low_rank_result = LowRankTerms(
             U=jnp.asarray(eigenvecs, dtype=return_dtype),
             S=jnp.asarray(eigenvals, dtype=return_dtype),
-- 
2.43.0


From a585c2517bc6f462c10d190319f4b7896f5b7d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 05/24] fix: log-determinant of a low-rank posterior precision
 in the marginal log-likelihood

---
 laplax/eval/likelihood.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/laplax/eval/likelihood.py b/laplax/eval/likelihood.py
index b25b52b..01a840b 100644
--- a/laplax/eval/likelihood.py
+++ b/laplax/eval/likelihood.py
@@ -235,9 +235,9 @@ def low_rank_marginal_log_likelihood(
     )
 
     # Log det of posterior precision
-    rank = posterior_precision.S.shape[0]
-    log_det_H = rank * jnp.log(posterior_precision.scalar) + jnp.sum(
-        jnp.log(1 + posterior_precision.scalar * posterior_precision.S)
+    dim = posterior_precision.U.shape[0]
+    log_det_H = dim * jnp.log(posterior_precision.scalar) + jnp.sum(
+        jnp.log(1 + posterior_precision.S / posterior_precision.scalar)
     )
     param_count = get_size(params)
     evidence = -0.5 * param_count * jnp.log(2 * jnp.pi) + 0.5 * log_det_H
-- 
2.43.0


From fc77ca536b419a35c9a60afb6f0c6dc088e8e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 06/24] fix: sum the cross-entropy loss over all predictions
 when combining it with the model

---
 laplax/curv/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/utils.py b/laplax/curv/utils.py
index 4c44a20..36051e3 100644
--- a/laplax/curv/utils.py
+++ b/laplax/curv/utils.py
@@ -182,7 +182,7 @@ def concatenate_model_and_loss_fn(
         def loss_wrapper(
             input: InputArray, target: TargetArray, params: Params
         ) -> Num[Array, "..."]:
-            return log_sigmoid_cross_entropy(model_fn(input, params), target)
+            return jnp.sum(log_sigmoid_cross_entropy(model_fn(input, params), target))
 
         return loss_wrapper
 
-- 
2.43.0


From 1e84f867088cd83cb0d4a0dd0791f42d3d3dfcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 07/24] fix: stop the grid search after max_iterations
 evaluations

---
 laplax/eval/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/calibrate.py b/laplax/eval/calibrate.py
index 30b09a2..130ff5c 100644
--- a/laplax/eval/calibrate.py
+++ b/laplax/eval/calibrate.py
@@ -131,7 +131,7 @@ def grid_search(
         previous_result = result
 
         # Check if maximum iterations reached
-        if max_iterations is not None and iteration >= max_iterations:
+        if max_iterations is not None and iteration + 1 >= max_iterations:
             logger.info(f"Stopping due to reaching max iterations = {max_iterations}")
             break
 
-- 
2.43.0


From a53c6a8aa67a0f2597a5427c38a1ae969e21fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:17 +0000
Subject: [PATCH 08/24] fix: accept the precompute option of
 set_get_weight_sample

Passing precompute= raised a TypeError, because it was forwarded to
precompute_list a second time through the remaining keyword arguments.
---
 laplax/eval/pushforward.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index acac18c..e745e5e 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -79,12 +79,12 @@ def set_get_weight_sample(
     def get_weight_sample(idx):
         return util.tree.normal_like(keys[idx], mean=mean_params, scale_mv=scale_mv)
 
+    precompute = kwargs.pop("precompute", None)
+
     return precompute_list(
         get_weight_sample,
         jnp.arange(num_samples),
-        precompute=kwargs.get(
-            "set_get_weight_sample_precompute", kwargs.get("precompute")
-        ),
+        precompute=kwargs.get("set_get_weight_sample_precompute", precompute),
         **kwargs,
     )
 
-- 
2.43.0


From 322276b7af20a369e089d51e87cdc70233584c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 09/24] fix: lay out the linearised covariance of array-shaped
 outputs as a matrix

For outputs with two or more axes the covariance entries were scattered
over a higher-dimensional array, and lin_pred_var then failed on it.
---
 laplax/eval/pushforward.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index e745e5e..22e3ef7 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -662,7 +662,9 @@ def lin_pred_cov(
     pred_mean = results["pred_mean"]
     cov_mv = aux["cov_mv"]
 
-    results["pred_cov"] = util.mv.to_dense(cov_mv, layout=pred_mean)
+    results["pred_cov"] = util.mv.to_dense(
+        lambda vec: jnp.reshape(cov_mv(vec), (-1,)), layout=math.prod(pred_mean.shape)
+    )
     return results, aux
 
 
-- 
2.43.0


From 0ca62b440b7e2ad0f36c3aa17a83168cefcf0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 10/24] fix: take the class axis of the Laplace bridge as the
 first one

A vector of logits raised an IndexError (mean.shape[1]); the class count and
the normalisation now use the leading axis, as the rest of the function does.
---
 laplax/eval/predictives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/predictives.py b/laplax/eval/predictives.py
index e344cba..16947a9 100644
--- a/laplax/eval/predictives.py
+++ b/laplax/eval/predictives.py
@@ -19,7 +19,7 @@ def laplace_bridge(
     Returns:
         The predictive.
     """
-    num_classes = mean.shape[1]
+    num_classes = mean.shape[0]
 
     if use_correction:
         c = jnp.sum(var, axis=0) / math.sqrt(num_classes / 2)  # [...]
@@ -47,7 +47,7 @@ def dirichlet_predictive(dirichlet_params: jax.Array) -> jax.Array:
     Returns:
         The predictive.
     """
-    predictive = dirichlet_params / jnp.sum(dirichlet_params)  # [C, ...]
+    predictive = dirichlet_params / jnp.sum(dirichlet_params, axis=0)  # [C, ...]
 
     return predictive
 
-- 
2.43.0


From 9f787e0fa7bb82946f2bce9128eb350b88299426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 11/24] fix: use the ensemble variance in
 nonlin_special_pred_act

Without a stored variance the nonlinear pushforward fell back to the linearised
one and raised a KeyError.
---
 laplax/eval/pushforward.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index 22e3ef7..eec76ae 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -113,8 +113,9 @@ def special_pred_act(
     if special_pred_type in var_pred_dict:
         pred_fn = var_pred_dict[special_pred_type]
 
-        if "pred_var" not in results:  # Fall back to `lin_pred_var`
-            results, aux = lin_pred_var(results, aux, **kwargs)
+        if "pred_var" not in results:
+            pred_var_fn = lin_pred_var if linearized else nonlin_pred_var
+            results, aux = pred_var_fn(results, aux, **kwargs)
 
         pred_var = results["pred_var"]
 
-- 
2.43.0


From 506e96e6c284b98e8b3745ceff73bf849c6a57e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 12/24] fix: do not extend the caller's metric list in the
 metric evaluation

Metrics from metrics_dict were appended to the given list, which may be the
library's default list, so that they stayed for every later evaluation.
---
 laplax/eval/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/utils.py b/laplax/eval/utils.py
index 7d3497c..65f3fac 100644
--- a/laplax/eval/utils.py
+++ b/laplax/eval/utils.py
@@ -269,7 +269,7 @@ def evaluate_metrics_on_dataset(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data_point(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
@@ -339,7 +339,7 @@ def evaluate_metrics_on_generator(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
-- 
2.43.0


From f7d2b82ba7426fe33d6ecd6ebd1d57775cfb4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 13/24] fix: accept an integer layout in create_full_curvature

---
 laplax/curv/full.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/full.py b/laplax/curv/full.py
index bb1ad12..6979efe 100644
--- a/laplax/curv/full.py
+++ b/laplax/curv/full.py
@@ -48,10 +48,12 @@ def create_full_curvature(
         )
         logger.warning(msg)
         mv_wrapped = mv
+        size = layout
     else:
         flatten, unflatten = create_pytree_flattener(layout)
         mv_wrapped = wrap_function(mv, input_fn=unflatten, output_fn=flatten)
-    curv_estimate = to_dense(mv_wrapped, layout=get_size(layout))
+        size = get_size(layout)
+    curv_estimate = to_dense(mv_wrapped, layout=size)
     return curv_estimate
 
 
-- 
2.43.0


From 874650cef2df2642ac0b7a9c4de9fd724e4228a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 14/24] fix: leave the curvature tables unchanged when a
 registration fails

---
 laplax/register.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/laplax/register.py b/laplax/register.py
index 220064e..bfbed0d 100644
--- a/laplax/register.py
+++ b/laplax/register.py
@@ -129,19 +129,17 @@ def register_curvature_method(
         )
         raise ValueError(msg)
 
-    CURVATURE_METHODS[name] = create_curvature_fn or CURVATURE_METHODS[default]
-    CURVATURE_PRECISION_METHODS[name] = (
-        curvature_to_precision_fn or CURVATURE_PRECISION_METHODS[default]
-    )
-    CURVATURE_TO_POSTERIOR_STATE[name] = (
-        prec_to_posterior_fn or CURVATURE_TO_POSTERIOR_STATE[default]
-    )
-    CURVATURE_STATE_TO_SCALE[name] = (
-        posterior_state_to_scale_fn or CURVATURE_STATE_TO_SCALE[default]
-    )
-    CURVATURE_STATE_TO_COV[name] = (
-        posterior_state_to_cov_fn or CURVATURE_STATE_TO_COV[default]
-    )
-    CURVATURE_MARGINAL_LOG_LIKELIHOOD[name] = (
-        marginal_log_likelihood_fn or CURVATURE_MARGINAL_LOG_LIKELIHOOD[default]
-    )
+    # Resolve all functions first, so that an unknown default leaves every table as is.
+    entries = [
+        (table, fn or table[default])
+        for table, fn in (
+            (CURVATURE_METHODS, create_curvature_fn),
+            (CURVATURE_PRECISION_METHODS, curvature_to_precision_fn),
+            (CURVATURE_TO_POSTERIOR_STATE, prec_to_posterior_fn),
+            (CURVATURE_STATE_TO_SCALE, posterior_state_to_scale_fn),
+            (CURVATURE_STATE_TO_COV, posterior_state_to_cov_fn),
+            (CURVATURE_MARGINAL_LOG_LIKELIHOOD, marginal_log_likelihood_fn),
+        )
+    ]
+    for table, fn in entries:
+        table[name] = fn
-- 
2.43.0


From 590d1e4743dff2be747b0b8ceb8ae7ae998daefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 15/24] fix: scale the curvature by total over curvature
 samples in laplace

---
 laplax/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 603c0f2..9848644 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -665,11 +665,11 @@ def laplace(
     curv_type_enum = _convert_to_enum(CurvApprox, curv_type)
 
     # Calculate factor
-    factor = float(num_curv_samples) / float(num_total_samples)
+    factor = float(num_total_samples) / float(num_curv_samples)
     logger.debug(
         "Creating curvature MV - factor = {}/{} = {}",
-        num_curv_samples,
         num_total_samples,
+        num_curv_samples,
         factor,
     )
 
-- 
2.43.0


From cbf7a31c8a4b93a0239117efdc9c14506d6ea0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 16/24] fix: evaluate the first batch of a one-shot data
 iterator

---
 laplax/api.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 9848644..9afddae 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -13,6 +13,7 @@ Public entry points
 from collections.abc import Iterator
 from enum import StrEnum
 from functools import partial
+from itertools import chain
 from typing import cast
 
 import jax
@@ -953,9 +954,14 @@ def evaluation(
 
     # Evaluate
     is_data_loader = _is_data_loader(data)
-    transform = _validate_and_get_transform(
-        next(iter(data)) if is_data_loader else data
-    )
+    if is_data_loader:
+        # Keep the batch used for validation, since `data` may be a one-shot iterator.
+        data = iter(cast("Iterator[Data]", data))
+        first_batch = next(data)
+        data = chain([first_batch], data)
+        transform = _validate_and_get_transform(first_batch)
+    else:
+        transform = _validate_and_get_transform(data)
 
     if is_data_loader:
         results = evaluate_metrics_on_generator(
-- 
2.43.0


From eb5e44474edb54639b2b2f910185b01e4baa95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 17/24] fix: apply the given reduction to the metrics of a data
 loader

---
 laplax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index 9afddae..e3d8bc1 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -969,7 +969,7 @@ def evaluation(
             data_generator=cast("Iterator[Data]", data),
             metrics=metrics_list,
             transform=transform,
-            reduce=jnp.concatenate,
+            reduce=lambda values: reduce(jnp.concatenate(values)),
             has_batch=True,
         )
     else:
-- 
2.43.0


From 123b87fa399c23f86c8617d1bf1f120d47598113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 18/24] fix: call the metrics on a data loader as on a batch

---
 laplax/api.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index e3d8bc1..f6dc7db 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -970,7 +970,6 @@ def evaluation(
             metrics=metrics_list,
             transform=transform,
             reduce=lambda values: reduce(jnp.concatenate(values)),
-            has_batch=True,
         )
     else:
         results = evaluate_metrics_on_dataset(
-- 
2.43.0


From 779eee20fbfa8c6cae143e6da94db0c6e7d57ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 19/24] fix: ignore further predictions in the classification
 likelihood metric

---
 laplax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index f6dc7db..26ca6eb 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -529,7 +529,7 @@ def _resolve_metrics(
                 ],
             ),
             apply_fns(
-                lambda pred_mean, pred_std, target: nll_gaussian(
+                lambda pred_mean, pred_std, target, **kwargs: nll_gaussian(  # noqa: ARG005
                     pred_mean,
                     pred_std,
                     jax.nn.one_hot(target, num_classes=pred_mean.shape[-1]),
-- 
2.43.0


From c7847b17c5e00ced879ad1f19a4e423106c5d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 20/24] fix: provide pred_act for the nonlinear pushforward
 with MC bridge

---
 laplax/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laplax/api.py b/laplax/api.py
index 26ca6eb..5c31862 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -280,6 +280,7 @@ def _setup_pushforward(
             pushforward_fns = [nonlin_setup, nonlin_pred_mean, nonlin_pred_std]
             if predictive_type is Predictive.MC_BRIDGE:
                 pushforward_fns.append(nonlin_mc_pred_act)
+                pushforward_fns.append(get_pred_act)
             elif predictive_type in _SPECIAL_PREDICTIVES:
                 msg = (
                     f"{predictive_type.value} not supported for non-linear pushforward."
-- 
2.43.0


From fe36cdc152dd6bf5a4a991fa66147293d15cb236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 21/24] fix: recognise the regression predictive type in any
 case in calibration

---
 laplax/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index 5c31862..5a58aa1 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -781,7 +781,8 @@ def calibration(
         - GRID_SEARCH: Grid search over prior precision
     """
     # If task is classification, then no NLL objective
-    is_classification = predictive_type != Predictive.NONE
+    predictive_type = _convert_to_enum(Predictive, predictive_type)
+    is_classification = predictive_type is not Predictive.NONE
 
     # Pushforward construction
     set_pushforward, pushforward_fns = _setup_pushforward(
-- 
2.43.0


From a8f045212544e555dc35aeea4607e3f3af977be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:04 +0000
Subject: [PATCH 22/24] fix: standard deviation of the nonlinear pushforward
 matches the reported covariance

nonlin_pred_std used the population variance even when the unbiased covariance
had been reported, so pred_std was not the square root of its diagonal.
---
 laplax/eval/pushforward.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index eec76ae..c09a35f 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -356,13 +356,11 @@ def nonlin_pred_std(
     Returns:
         Updated `results` and `aux`.
     """
-    del kwargs
-
     if "pred_var" in results:
-        results["pred_std"] = jnp.sqrt(results["pred_var"])
-    else:
-        pred_ensemble = aux["pred_ensemble"]
-        results["pred_std"] = util.tree.std(pred_ensemble, axis=0)
+        pred_var = results["pred_var"]
+    else:  # Use the same variance as `nonlin_pred_var`, without reporting it
+        pred_var = nonlin_pred_var(dict(results), aux, **kwargs)[0]["pred_var"]
+    results["pred_std"] = jnp.sqrt(pred_var)
     return results, aux
 
 
-- 
2.43.0


From 349c662f62c3ab313f33d62005d5a9c93f487190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:31 +0000
Subject: [PATCH 23/24] fix: reduce the LOBPCG rank also when the size is five
 times the rank

---
 laplax/curv/lobpcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index d58d483..475e604 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -366,7 +366,7 @@ def lobpcg_lowrank(
         matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
 
         # Adjust rank if it's too large compared to problem size
-        if size < rank * 5:
+        if size <= rank * 5:
             rank = max(1, size // 5 - 1)
             msg = f"reduced rank to {rank} due to insufficient size"
             warnings.warn(msg, stacklevel=1)
-- 
2.43.0


From 9ae20091c1af0179c50984962f7ccca7cfcc2c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:13 +0000
Subject: [PATCH 24/24] fix: calibration bins accept boolean correctness

---
 laplax/eval/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/laplax/eval/metrics.py b/laplax/eval/metrics.py
index af1fc1c..453dfa2 100644
--- a/laplax/eval/metrics.py
+++ b/laplax/eval/metrics.py
@@ -191,7 +191,9 @@ def calculate_bin_metrics(
 
     bin_counts = jnp.zeros(num_bins, dtype=confidence.dtype)
     bin_confidences = jnp.zeros(num_bins, dtype=confidence.dtype)
-    bin_accuracies = jnp.zeros(num_bins, dtype=correctness.dtype)
+    bin_accuracies = jnp.zeros(
+        num_bins, dtype=jnp.result_type(confidence, correctness)
+    )
 
     bin_counts = bin_counts.at[indices].add(1)
     bin_confidences = bin_confidences.at[indices].add(confidence)
-- 
2.43.0

