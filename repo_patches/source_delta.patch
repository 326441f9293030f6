From 6db9df5eba6bb398bb9aa483f8d255c456a57191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 01/38] fix: PctChange lags the raw input when no fill method
 is requested

---
 src/wax/modules/pct_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 7525485..11259fb 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -54,7 +54,7 @@ class PctChange(hk.Module):
         if self.fill_method in ["ffill", "pad"]:
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
-            previous_x = Lag(self.periods)()
+            previous_x = Lag(self.periods)(x)
         pct_change = x / previous_x - 1.0
         if self.fillna_zero:
             pct_change = jnp.where(jnp.isnan(x) & ~jnp.isnan(previous_x), 0.0, pct_change)
-- 
2.43.0


From dd9f6c3f5459ac4505ea192aca5034073ad8856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 02/38] fix: MaskStd and MaskNormalize broadcast their per-row
 statistics with axis=1

---
 src/wax/flax/modules/mask_normalize.py | 2 ++
 src/wax/modules/mask_normalize.py      | 3 +++
 src/wax/modules/mask_std.py            | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/src/wax/flax/modules/mask_normalize.py b/src/wax/flax/modules/mask_normalize.py
index f8a8498..4c8221e 100644
--- a/src/wax/flax/modules/mask_normalize.py
+++ b/src/wax/flax/modules/mask_normalize.py
@@ -54,6 +54,8 @@ class MaskNormalize(nn.Module):
             x_std = self.mask_std(mask, x)
 
             # Normalize by dividing by standard deviation
+            if self.axis is not None:
+                x_std = jnp.expand_dims(x_std, self.axis)
             x_normalized = x / x_std
 
             # Handle NaN and infinity values that may result from division
diff --git a/src/wax/modules/mask_normalize.py b/src/wax/modules/mask_normalize.py
index e7067df..f7d6fd1 100644
--- a/src/wax/modules/mask_normalize.py
+++ b/src/wax/modules/mask_normalize.py
@@ -14,6 +14,7 @@
 """Normalize data by its standard deviation computed with a mask."""
 
 import haiku as hk
+import jax.numpy as jnp
 from jax.tree_util import tree_map
 
 from wax.modules.fill_nan_inf import FillNanInf
@@ -45,6 +46,8 @@ class MaskNormalize(hk.Module):
 
         def normalize(x):
             x_std = MaskStd(axis=self.axis, assume_centered=self.assume_centered)(mask, x)
+            if self.axis is not None:
+                x_std = jnp.expand_dims(x_std, self.axis)
             x_normalized = FillNanInf()(x / x_std)
             return x_normalized
 
diff --git a/src/wax/modules/mask_std.py b/src/wax/modules/mask_std.py
index 8d32888..3bfcf98 100644
--- a/src/wax/modules/mask_std.py
+++ b/src/wax/modules/mask_std.py
@@ -56,6 +56,8 @@ class MaskStd(hk.Module):
             if self.assume_centered:
                 diff = x
             else:
+                if self.axis is not None:
+                    mean = jnp.expand_dims(mean, self.axis)
                 diff = x - mean
 
             diff = ApplyMask()(mask, diff)
-- 
2.43.0


From e696ce1030dce328b499ef54bc967a53609fe8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 03/38] fix: gym_static_unroll returns the output of the first
 step when it is not skipped

---
 src/wax/unroll.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index b7f7dec..9d06e47 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -417,8 +417,7 @@ def gym_static_unroll(gym_fun, params, state, seq, skip_first, data_generator, p
     if not skip_first:
         y, state = gym_fun.apply(params, state, next(seq), obs)
         y, treedef = tree_flatten(y)
-        if ys is None:
-            ys = tuple([] for _ in y)
+        ys = tuple([y_] for y_ in y)
 
     if pbar:
         data_generator = tqdm(data_generator, desc="gym_static_unroll")
-- 
2.43.0


From dcc9895840c50803855b9b4b04e8be599d385990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 04/38] fix: transform_batch_with_state uses the rng key given
 to apply

---
 src/wax/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/transform.py b/src/wax/transform.py
index dd8037a..588c8aa 100644
--- a/src/wax/transform.py
+++ b/src/wax/transform.py
@@ -54,10 +54,11 @@ def transform_batch_with_state(fun, skip_first=False):
     def apply(params, state, key, xs):
         # params is not used ... (and is empty)
         # replace state rng_key by given rng_key
+        init_state = BatchState(state.fun_params, state.fun_state, key)
         # we drop the first observation because it has been used in initialization....
         if skip_first:
             xs = tree_map(lambda x: x[1:], xs)
-        final_state, output_sequence = jax.lax.scan(scan_f, init=state, xs=xs)
+        final_state, output_sequence = jax.lax.scan(scan_f, init=init_state, xs=xs)
         assert isinstance(final_state, BatchState)
         return output_sequence, final_state
 
-- 
2.43.0


From cc7eb13f2dea4740dfc6b7293253552b87e2b3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 05/38] fix: static_scan accepts a length without xs

---
 src/wax/unroll.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index 9d06e47..e79ca73 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -257,11 +257,10 @@ def static_scan(scan_f, init, xs=None, length=None, pbar=False):
     Note:  Python implementation of jax.lax.scan
     See https://jax.readthedocs.io/en/latest/_autosummary/jax.lax.scan.html#jax-lax-scan
     """
-    if xs is None:
-        xs = [None] * length
+    steps = iter([None] * length) if xs is None else iter_first_axis(xs, pbar=pbar)
     carry = init
     ys = None
-    for x in iter_first_axis(xs, pbar=pbar):
+    for x in steps:
         carry, y = scan_f(carry, x)
 
         y, treedef = tree_flatten(y)
-- 
2.43.0


From 59a379d0f3c06b525c391fd86c3652bc8d8f5bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 06/38] fix: Flax ARMA feeds back its previous outputs

---
 src/wax/flax/modules/arma.py | 57 ++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/src/wax/flax/modules/arma.py b/src/wax/flax/modules/arma.py
index 777aa23..8b5d9d4 100644
--- a/src/wax/flax/modules/arma.py
+++ b/src/wax/flax/modules/arma.py
@@ -28,12 +28,12 @@ class ARMA(nn.Module):
     Implements an ARMA filter that combines autoregressive (AR) and
     moving average (MA) components for time-series processing.
 
-    The ARMA model is defined as:
-    y[t] = sum(alpha[i] * y[t-i]) + sum(beta[j] * eps[t-j])
+    The ARMA model is defined as (the same recursion as the Haiku module):
+    y[t] = eps[t] + sum(alpha[i] * y[t-p+i]) + sum(beta[j] * eps[t-q+j])
 
     where:
-    - alpha: AR coefficients
-    - beta: MA coefficients
+    - alpha: the p AR coefficients, the last one applies to the previous output
+    - beta: the q MA coefficients, the last one applies to the previous noise term
     - eps: Input noise/error terms
     """
 
@@ -48,18 +48,15 @@ class ARMA(nn.Module):
         if self.beta.ndim != 1:
             raise ValueError("beta must be a 1-D array")
 
-        # Create buffers for AR and MA components
-        # AR buffer stores previous outputs
-        if len(self.alpha) > 0:
-            self.ar_buffer = Buffer(maxlen=len(self.alpha), fill_value=0.0)
-
-        # MA buffer stores previous inputs (noise terms)
+        # Buffer storing the previous inputs (noise terms) and the current one.
+        # The previous outputs are stored in a variable created on the first call.
         if len(self.beta) > 0:
-            self.ma_buffer = Buffer(maxlen=len(self.beta), fill_value=0.0)
+            self.ma_buffer = Buffer(maxlen=len(self.beta) + 1, fill_value=0.0)
 
         # Module for handling NaN/Inf values
         self.fill_nan_inf = FillNanInf()
 
+    @nn.compact
     def __call__(self, eps: jnp.ndarray) -> jnp.ndarray:
         """Apply ARMA filter to input noise term.
 
@@ -75,33 +72,29 @@ class ARMA(nn.Module):
         # Initialize output with current input (eps term)
         output = eps
 
-        # Autoregressive component: sum(alpha[i] * y[t-i])
+        # Autoregressive component: previous outputs, oldest first
         if len(self.alpha) > 0:
-            # Get previous outputs from AR buffer (placeholder initialization)
-            # Get current state; the buffer is built with return_state left at
-            # its default (False), so the call yields the array alone.
-            ar_history = cast(jnp.ndarray, self.ar_buffer(jnp.zeros_like(output)))
-
-            # Compute AR contribution
-            ar_contribution = jnp.sum(self.alpha * ar_history)
-            output = output + ar_contribution
-
-        # Moving average component: sum(beta[j] * eps[t-j])
+            y_history = self.variable(
+                "state",
+                "y_history",
+                lambda: jnp.zeros((len(self.alpha),) + eps.shape, dtype=eps.dtype),
+            )
+            output = output + jnp.tensordot(self.alpha, y_history.value, axes=1)
+
+        # Moving average component: previous noise terms, oldest first. The buffer
+        # is built with return_state left at its default (False), so the call
+        # yields the array alone.
         if len(self.beta) > 0:
-            # Get previous inputs from MA buffer
-            ma_history = cast(jnp.ndarray, self.ma_buffer(eps))
-
-            # Compute MA contribution
-            ma_contribution = jnp.sum(self.beta * ma_history)
-            output = output + ma_contribution
-
-        # Update AR buffer with current output
-        if len(self.alpha) > 0:
-            self.ar_buffer(output)  # Store current output for next iteration
+            eps_history = cast(jnp.ndarray, self.ma_buffer(eps))[:-1]
+            output = output + jnp.tensordot(self.beta, eps_history, axes=1)
 
         # Handle NaN/Inf values
         output = self.fill_nan_inf(output)
 
+        # Record the current output for the next steps
+        if len(self.alpha) > 0:
+            y_history.value = jnp.concatenate([y_history.value[1:], output[None]])
+
         return output
 
 
-- 
2.43.0


From 1b52d5974eb93e2eb74ec67f34246a022fc0218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:32 +0000
Subject: [PATCH 07/38] fix: UpdateOnEvent on a module with submodules given
 from outside

The states before the step were read before the module was called, when
the submodules it was given are not known yet: stepping such a module
raised a TypeError (the two branches of the cond differed).
---
 src/wax/modules/update_on_event.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/wax/modules/update_on_event.py b/src/wax/modules/update_on_event.py
index c7d619c..f527007 100644
--- a/src/wax/modules/update_on_event.py
+++ b/src/wax/modules/update_on_event.py
@@ -50,6 +50,15 @@ def set_params_or_state_dict(
                     bundle[name] = state_dict[fq_name]
 
 
+def get_current_states() -> dict[str, jnp.ndarray]:
+    """Returns the current states of all the modules called so far."""
+    return {
+        module_name + "/" + name: value.current
+        for module_name, bundle in base.current_frame().state.items()
+        for name, value in bundle.items()
+    }
+
+
 def set_state_from_dict(self, next_state_dict):
     """Set state keyed by name for this module and submodules."""
     if not base.frame_stack:
@@ -82,7 +91,7 @@ class UpdateOnEvent(hk.Module):
     def __call__(self, on_event, *args, **kwargs):
         # state_dict = self.state_dict()
 
-        prev_state_dict = self.module.state_dict()
+        prev_states = get_current_states()
 
         output = self.module(*args, **kwargs)
 
@@ -95,7 +104,9 @@ class UpdateOnEvent(hk.Module):
             ),
         )
 
-        next_state_dict = self.module.state_dict() if prev_state_dict else {}
+        # The submodules given to the module are only known once it has been called.
+        next_state_dict = {k: v for k, v in self.module.state_dict().items() if k in prev_states}
+        prev_state_dict = {k: prev_states[k] for k in next_state_dict}
 
         def true_fun(operand):
             output, next_state, _, _ = operand
-- 
2.43.0


From 6134f7a2bad0d9693ed774bbcbdd444425fd1a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:32 +0000
Subject: [PATCH 08/38] fix: streaming_scan accepts a random key

The truth value of the key was taken, which raises for any key.
---
 src/wax/flax/core/streaming_transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 6583ab4..5d37c25 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -671,7 +671,8 @@ def streaming_scan(
             if params is None or state is None:
                 # Initialize if needed
                 sample_input = jax.tree_util.tree_map(lambda x: x[0], inputs)
-                params, state = streaming_fn.init(rng or jax.random.PRNGKey(0), sample_input)
+                init_rng = jax.random.PRNGKey(0) if rng is None else rng
+                params, state = streaming_fn.init(init_rng, sample_input)
 
             # Create scan function that applies streaming function element by element
             def scan_body(carry_state, x):
-- 
2.43.0


From d27efd5a5a595287bdf407966e82396f13585a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:54 +0000
Subject: [PATCH 09/38] fix: OptaxOptimizer passes the parameters to the
 optimizer

Optimizers that need the current parameters (weight decay, for instance
adamw) raised an error; the Flax wrapper already passes them.
---
 src/wax/modules/optax_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/optax_optimizer.py b/src/wax/modules/optax_optimizer.py
index d342bf6..1917cc4 100644
--- a/src/wax/modules/optax_optimizer.py
+++ b/src/wax/modules/optax_optimizer.py
@@ -29,7 +29,7 @@ class OptaxOptimizer(hk.Module):
 
     def __call__(self, params, grads):
         opt_state = hk.get_state("opt_state", [], init=lambda *_: self.opt.init(params))
-        updates, opt_state = self.opt.update(grads, opt_state)
+        updates, opt_state = self.opt.update(grads, opt_state, params)
         params = optax.apply_updates(params, updates)
         hk.set_state("opt_state", opt_state)
         return params
-- 
2.43.0


From 6905ffbf960f236b095bd8f412f954f5d18baaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:54 +0000
Subject: [PATCH 10/38] fix: FuncOptimizer accepts functions with state

UpdateParams manages the state of the function, but get_init_params used
hk.transform, which rejects any function with state.
---
 src/wax/modules/update_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wax/modules/update_params.py b/src/wax/modules/update_params.py
index d7397f2..869dd4a 100644
--- a/src/wax/modules/update_params.py
+++ b/src/wax/modules/update_params.py
@@ -71,8 +71,8 @@ def get_init_params(
     **kwargs,
 ):
     init_rng = hk.next_rng_key() if hk.running_init() else None
-    init, _ = hk.transform(func)
-    params = init(init_rng, *args, **kwargs)
+    init, _ = hk.transform_with_state(func)
+    params, _ = init(init_rng, *args, **kwargs)
 
     if params_predicate:
         trainable_params: Any
-- 
2.43.0


From 479be505e5c6616dec004eafff9698833305008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 11/38] fix: FuncOptimizer keeps the state of a function whose
 state depends on its parameters

jax.value_and_grad around a function that sets Haiku state leaks a tracer
when the new state depends on the differentiated parameters;
hk.value_and_grad threads the state.
---
 src/wax/modules/func_optimizer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wax/modules/func_optimizer.py b/src/wax/modules/func_optimizer.py
index 309b82d..fe18ba6 100644
--- a/src/wax/modules/func_optimizer.py
+++ b/src/wax/modules/func_optimizer.py
@@ -14,7 +14,6 @@
 from collections.abc import Callable
 
 import haiku as hk
-import jax
 import jax.numpy as jnp
 
 from wax.modules import FillNanInf
@@ -64,7 +63,7 @@ class FuncOptimizer(hk.Module):
             ),
         )
         func = UpdateParams(self.func, params_predicate=self.params_predicate)
-        results, grads = jax.value_and_grad(func, has_aux=self.has_aux)(
+        results, grads = hk.value_and_grad(func, has_aux=self.has_aux)(
             trainable_params, *args, **kwargs
         )
         if self.grads_fill_nan_inf:
-- 
2.43.0


From d8fb834d1cf6857906f9b555b450a2ba7eeb877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:28 +0000
Subject: [PATCH 12/38] fix: Flax OnlineOptimizer and UpdateParams work without
 a predicate

Both assigned the default predicate to a module field in setup, which Flax
forbids, so every use without an explicit predicate (including FuncOptimizer) raised.
---
 src/wax/flax/modules/online_optimizer.py | 10 +++++-----
 src/wax/flax/modules/update_params.py    | 11 +++++------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index b09e228..b5efa43 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -51,11 +51,10 @@ class OnlineOptimizer(nn.Module):
 
     def setup(self):
         """Setup the OnlineOptimizer module."""
-        # Set default predicate if none provided
-        if self.params_predicate is None:
-            from wax.predicate import pass_all_predicate
+        # Use the default predicate if none provided (module fields are frozen)
+        from wax.predicate import pass_all_predicate
 
-            self.params_predicate = pass_all_predicate
+        self.trainable_predicate = self.params_predicate or pass_all_predicate
 
         # Wrap optimizer if it's not already an OptaxOptimizer
         if not isinstance(self.opt, OptaxOptimizer):
@@ -134,7 +133,8 @@ class OnlineOptimizer(nn.Module):
 
             for key, value in flat_params.items():
                 path = key.split("/")
-                if self.params_predicate(path[0] if path else "", path[-1] if path else "", value):
+                module_name, param_name = (path[0], path[-1]) if path else ("", "")
+                if self.trainable_predicate(module_name, param_name, value):
                     trainable[key] = value
                 else:
                     non_trainable[key] = value
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 7d39d2e..28c6187 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -33,11 +33,10 @@ class UpdateParams(nn.Module):
 
     def setup(self):
         """Setup the UpdateParams module."""
-        # Set default predicate if none provided
-        if self.predicate is None:
-            from wax.predicate import pass_all_predicate
+        # Use the default predicate if none provided (module fields are frozen)
+        from wax.predicate import pass_all_predicate
 
-            self.predicate = pass_all_predicate
+        self.trainable_predicate = self.predicate or pass_all_predicate
 
     @nn.compact
     def __call__(self, *args, **kwargs) -> Any:
@@ -80,7 +79,7 @@ class UpdateParams(nn.Module):
         """
         if not isinstance(params, dict):
             # If params is not a dict, treat as single parameter
-            if self.predicate("", "", params):
+            if self.trainable_predicate("", "", params):
                 return params, {}
             else:
                 return {}, params
@@ -98,7 +97,7 @@ class UpdateParams(nn.Module):
             param_name = path_parts[-1] if len(path_parts) > 0 else ""
 
             # Apply predicate to determine if parameter is trainable
-            if self.predicate(module_name, param_name, value):
+            if self.trainable_predicate(module_name, param_name, value):
                 trainable[key] = value
             else:
                 non_trainable[key] = value
-- 
2.43.0


From 56677166ad0aa6d5be16c4df4a6e3b89b0882125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:28 +0000
Subject: [PATCH 13/38] fix: Flax parameter merging keeps the non-trainable
 parameters of a module that also has trainable ones

The two nested dictionaries were merged at the first level only, so with a
predicate that selects some parameters of a module the others were lost.
---
 src/wax/flax/modules/online_optimizer.py | 18 ++++++++++--------
 src/wax/flax/modules/update_params.py    |  7 +++----
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index b5efa43..dfb92b5 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -122,13 +122,13 @@ class OnlineOptimizer(nn.Module):
             params = current_vars
             state = {}
 
+        from flax.traverse_util import flatten_dict, unflatten_dict
+
         # Partition parameters into trainable and non-trainable
         def partition_params(params):
             trainable = {}
             non_trainable = {}
 
-            from flax.traverse_util import flatten_dict, unflatten_dict
-
             flat_params = flatten_dict(params, sep="/")
 
             for key, value in flat_params.items():
@@ -141,14 +141,18 @@ class OnlineOptimizer(nn.Module):
 
             return unflatten_dict(trainable, sep="/"), unflatten_dict(non_trainable, sep="/")
 
+        # Both parts may hold parameters of the same (sub)module: merge them recursively
+        def merge_params(trainable, non_trainable):
+            flat_params = flatten_dict(non_trainable, sep="/")
+            flat_params.update(flatten_dict(trainable, sep="/"))
+            return unflatten_dict(flat_params, sep="/")
+
         trainable_params, non_trainable_params = partition_params(params)
 
         # Define loss function for gradient computation
         def loss_fn(trainable_params):
             # Merge trainable and non-trainable params
-            merged_params = {}
-            merged_params.update(non_trainable_params)
-            merged_params.update(trainable_params)
+            merged_params = merge_params(trainable_params, non_trainable_params)
 
             # Compute model output
             result = model_fn(merged_params, state, *args, **kwargs)
@@ -184,9 +188,7 @@ class OnlineOptimizer(nn.Module):
             updated_trainable_params = self.project_params(updated_trainable_params)
 
         # Merge back updated parameters
-        updated_params = {}
-        updated_params.update(non_trainable_params)
-        updated_params.update(updated_trainable_params)
+        updated_params = merge_params(updated_trainable_params, non_trainable_params)
 
         # Update model variables
         if "params" in current_vars:
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 28c6187..39e719a 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -129,10 +129,9 @@ class UpdateParams(nn.Module):
 
         # For dictionaries, merge recursively
         if isinstance(trainable_params, dict) and isinstance(non_trainable_params, dict):
-            result = {}
-            result.update(non_trainable_params)
-            result.update(trainable_params)
-            return result
+            flat_params = flatten_dict(non_trainable_params, sep="/")
+            flat_params.update(flatten_dict(trainable_params, sep="/"))
+            return unflatten_dict(flat_params, sep="/")
 
         # For other types, prefer trainable parameters
         return trainable_params
-- 
2.43.0


From f99582b7223031e6022363dc45fadaa1b897ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:12 +0000
Subject: [PATCH 14/38] fix: numba ewma: do not modify the state passed by the
 caller

apply(values, state) updated the arrays of the given state in place, so that
resuming twice from one state gave different results.
---
 src/wax/numba/ewma_numba.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 4bdca13..d5adefe 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -115,9 +115,10 @@ def ewma(
 
         if state is None:
             state = init_ewma_state(values)
-        mean = state.mean
-        old_wt = state.old_wt
-        nobs = state.nobs
+        # the kernel updates these arrays in place: do not overwrite the state of the caller
+        mean = state.mean.copy()
+        old_wt = state.old_wt.copy()
+        nobs = state.nobs.copy()
 
         res, mean, old_wt, nobs = numba_apply(values, mean, old_wt, nobs)
         state = EWMAState(mean, old_wt, nobs)
-- 
2.43.0


From 7921fc88e10524d88191d44304ba47c1f1ed9234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:52 +0000
Subject: [PATCH 15/38] fix: less compares the high words of encoded integers
 with their sign

The keys of negative integers and of dates before 1970 compared as larger than
those of later ones.
---
 src/wax/encode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wax/encode.py b/src/wax/encode.py
index ce6c11d..9f1cb71 100644
--- a/src/wax/encode.py
+++ b/src/wax/encode.py
@@ -201,6 +201,8 @@ def datetime64_encoder(values: Any) -> Encoder:
 def less(t1, t2):
     h1, l1 = t1
     h2, l2 = t2
+    # the high words carry the sign of the encoded integers
+    h1, h2 = onp.asarray(h1).astype(onp.int32), onp.asarray(h2).astype(onp.int32)
     if h1 < h2:
         return True
     elif h1 > h2:
-- 
2.43.0


From 65f024202f195c39af59071978fe23e18be4eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:52 +0000
Subject: [PATCH 16/38] fix: flooring a date keeps NaT

floor_datetime and floor_jax_datekey turned NaT into an arbitrary date.
---
 src/wax/encode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wax/encode.py b/src/wax/encode.py
index 9f1cb71..2224c3a 100644
--- a/src/wax/encode.py
+++ b/src/wax/encode.py
@@ -150,10 +150,11 @@ def floor_datetime(time, freq: str | DateOffset = "d"):
     """
     assert freq == "d", f"other formats than '{freq}' not yet supported."
     # v3 (only in numpy)
-    time_int64 = time.astype("<M8[ns]").astype(onp.int64)
+    time = time.astype("<M8[ns]")
+    time_int64 = time.astype(onp.int64)
     day = onp.array(24 * 60 * 60 * 1.0e9, onp.int64)
     floor_time_int64 = onp.array((time_int64 // day) * day, onp.int64)
-    floor_time = floor_time_int64.astype("<M8[ns]")
+    floor_time = onp.where(onp.isnat(time), time, floor_time_int64.astype("<M8[ns]"))
     return floor_time
 
     # v1
@@ -225,7 +226,8 @@ def floor_jax_datekey(datekey):
 
     date = decode_int64(onp.array(datekey))
     day = onp.int64(24 * 60 * 60 * 1.0e9)
-    floor_date = int((date // day) * day)
+    nat = onp.iinfo(onp.int64).min
+    floor_date = date if date == nat else int((date // day) * day)
     datekey = encode_int64(floor_date)
     datekey = jnp.array(datekey)
     return datekey
-- 
2.43.0


From 829e0d686cf9424217c426daa0513bcd851a4cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:07 +0000
Subject: [PATCH 17/38] fix: Stream.merge reads the first event of a secondary
 stream once

The first value of a stream only initializes it, but for the secondary streams
it was also taken as the first event, so the first event entered the buffer twice.
---
 src/wax/stream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index f45c037..50561e9 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -634,6 +634,10 @@ class Stream:
 
         original_streams = streams.copy()
         local_time = self.get_local_time(streams)
+        # the first value of a stream only initializes it: now read the first event of the secondary streams
+        for time_dim, stream in streams.items():
+            if time_dim != local_time:
+                stream_obs[time_dim] = next(stream)
         while True:
             # local loop
             streams = original_streams.copy()
-- 
2.43.0


From 4cee04f5a51c47d9c227820d84e82e50994762d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 18/38] fix: unroll_stream(skip_first=True) collects every leaf
 in its own list

All leaves shared one list, so observations with several leaves were mixed.
---
 src/wax/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 50561e9..699a178 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -303,7 +303,7 @@ def unroll_stream(
     # stream_scan
     def _init_outputs():
         if skip_first:
-            return [[]] * num_leaves
+            return [[] for _ in range(num_leaves)]
         else:
             return [[x] for x in obs_flat]
 
-- 
2.43.0


From 32418bc4e6de75d6d2f9441697c5e6a751ad82dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 19/38] fix: the precomputed positions of a constant array
 variable are all of its positions, at every step

They were multiplied by the step.
---
 src/wax/stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 699a178..a8bbdee 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -224,10 +224,10 @@ def get_dataset_index(dataset: xr.Dataset, time_dataset_index: xr.Dataset) -> xr
                 dataset_index[dim] = xr.DataArray(onp.arange(n_steps), dims=("step",))
             else:
                 values_atleast_1d = onp.atleast_1d(var.values)
-                # grid = onp.indices(values_atleast_1d.shape)
-                flat_idx = onp.arange(len(values_atleast_1d.ravel()))
+                # all the positions along the first axis, at every step
+                flat_idx = onp.arange(len(values_atleast_1d))
                 dataset_index[dim] = xr.DataArray(
-                    onp.outer(onp.arange(n_steps), flat_idx),
+                    onp.tile(flat_idx, (n_steps, 1)),
                     dims=("step", cast(str, dim) + "_flat_idx"),
                 )
     return dataset_index
-- 
2.43.0


From 0ec1a37a2ab8e978f624f03fdf13030dc25d6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 20/38] fix: buffered access to a variable with more than one
 axis

The mask of the missing events was not aligned with the axes of the values.
---
 src/wax/stream.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index a8bbdee..6e12c7a 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -357,12 +357,9 @@ def access_data(step: int, x: Any, idx: Any):
         idx : predifined access index.
     """
     step_idx = idx[step]
-    # output = x[step_idx]
-    output = jnp.where(
-        step_idx < 0,
-        jnp.full_like(jnp.atleast_1d(x)[step_idx], DTYPE_INIT_VALUES[x.dtype.type]),
-        jnp.atleast_1d(x)[step_idx],
-    )
+    values = jnp.atleast_1d(x)[step_idx]
+    missing = jnp.reshape(step_idx < 0, step_idx.shape + (1,) * (values.ndim - step_idx.ndim))
+    output = jnp.where(missing, jnp.full_like(values, DTYPE_INIT_VALUES[x.dtype.type]), values)
     return output
 
 
-- 
2.43.0


From 661bdb38a0fc2bbd5d5015ecd4f5a56a10357174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:18 +0000
Subject: [PATCH 21/38] fix: a frame with several levels keeps its rows and
 columns of missing values

---
 src/wax/accessors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index b11eb73..276e488 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -197,7 +197,9 @@ class StreamDataFrame(Stream):
             # avoid to stack the dataframe : its faster!
             dataarray = xr.DataArray(dataframe)
         else:
-            dataarray = dataframe.stack(list(range(dataframe.columns.nlevels))).to_xarray()
+            dataarray = dataframe.stack(
+                list(range(dataframe.columns.nlevels)), future_stack=True
+            ).to_xarray()
         dataset = dataarray.to_dataset(name="dataarray")
         schema = self.get_dataset_schema(dataset)
 
-- 
2.43.0


From 6ae6046d70ff476973cf77de3ff29808d258d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:18 +0000
Subject: [PATCH 22/38] fix: options of wax.ewm given by position

---
 src/wax/accessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index 276e488..ae1d45f 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -311,7 +311,7 @@ class StreamSeries(Stream):
 
 class WaxAccessor:
     def ewm(self, *args, **kwargs):
-        return ExponentialMovingWindow(*args, accessor=self, **kwargs)
+        return ExponentialMovingWindow(self, *args, **kwargs)
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From d56e46f1cfad430e297d780cbc764cf4ec397e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:18 +0000
Subject: [PATCH 23/38] fix: format_dataset of nested outputs, format_dataframe
 with an array of names

---
 src/wax/format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wax/format.py b/src/wax/format.py
index 88ad843..4ba0b8b 100644
--- a/src/wax/format.py
+++ b/src/wax/format.py
@@ -104,7 +104,7 @@ def format_dataset(ref_coords: DatasetCoordinates | None, data: Any, format_dims
     output = format_dataarray(ref_coords, data, format_dims)
     try:
         return xr.Dataset(output)
-    except TypeError:
+    except (TypeError, ValueError):
         return output
 
 
@@ -136,7 +136,7 @@ def format_dataframe(
             for dataarray, dims in zip(data_flat, format_dims_flat, strict=False)
         )
     else:
-        if not format_dims:
+        if format_dims is None or len(format_dims) == 0:
             format_dims = _get_dims_from_data(data_flat[0])
         vals = tuple(
             _to_dataframe(ref_coords, dataarray, format_dims, index_nlevels)
-- 
2.43.0


From c98388df373040735fe154d96288d6e83f06d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:18 +0000
Subject: [PATCH 24/38] fix: coordinates of the outputs when the first step is
 skipped

---
 src/wax/accessors.py | 20 ++++++++++++--------
 src/wax/stream.py    |  8 ++++++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index ae1d45f..7aeb2d8 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -73,13 +73,14 @@ class StreamDataset(Stream):
         outputs, state = transform_dataset.apply(params, state, rng, xs)
 
         if self.format_outputs:
+            coords = self.get_output_coords(dataset, schema.coords, skip_first)
             outputs = tree_map(lambda x: onp.array(x), outputs)
             try:
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -136,16 +137,17 @@ class StreamDataArray(Stream):
         outputs, state = transform_dataset.apply(params, state, rng, xs)
 
         if self.format_outputs:
+            coords = self.get_output_coords(dataset, schema.coords, skip_first)
             outputs = tree_map(lambda x: onp.array(x), outputs)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -216,6 +218,7 @@ class StreamDataFrame(Stream):
         outputs, state = transform_dataset.apply(params, state, rng, xs)
 
         if self.format_outputs:
+            coords = self.get_output_coords(dataset, schema.coords, skip_first)
             outputs = tree_map(lambda x: onp.array(x), outputs)
 
             if format_dims is None:
@@ -223,7 +226,7 @@ class StreamDataFrame(Stream):
 
             try:
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -232,7 +235,7 @@ class StreamDataFrame(Stream):
                 # try with reduced dims
                 format_dims = (format_dims[0],)
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -293,16 +296,17 @@ class StreamSeries(Stream):
         outputs, state = transform_dataset.apply(params, state, rng, xs)
 
         if self.format_outputs:
+            coords = self.get_output_coords(dataset, schema.coords, skip_first)
             outputs = tree_map(lambda x: onp.array(x), outputs)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
         if self.return_state:
             return outputs, state
         else:
diff --git a/src/wax/stream.py b/src/wax/stream.py
index 6e12c7a..0b9627b 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -539,6 +539,14 @@ class Stream:
             local_time = self.local_time
         return local_time
 
+    def get_output_coords(self, dataset, coords, skip_first=False):
+        """Coordinates of the outputs: those of the dataset, without the first local time
+        if it is skipped."""
+        if not skip_first:
+            return coords
+        local_time = self.get_local_time(dict.fromkeys(get_dataset_time_coords(dataset)))
+        return dataset.isel({local_time: slice(1, None)}).coords
+
     def trace_dataset(
         self, dataset: xr.Dataset
     ) -> tuple[dict[str, jnp.ndarray], dict[str, jnp.ndarray], jnp.ndarray]:
-- 
2.43.0


From b66252872ac668475c2490346eeef4136b73d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:18 +0000
Subject: [PATCH 25/38] fix: each output of a function is labelled by its own
 leading axes

---
 src/wax/accessors.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index 7aeb2d8..216aac9 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -30,6 +30,11 @@ from wax.stream import Stream
 DTypeLike = str
 
 
+def _leading_dims(dims, outputs):
+    """The leading dims for each output, as many as it has axes."""
+    return tree_map(lambda x: onp.array(dims[: x.ndim], dtype=object), outputs)
+
+
 @dataclass(frozen=True)
 class StreamDataset(Stream):
     """
@@ -139,12 +144,15 @@ class StreamDataArray(Stream):
         if self.format_outputs:
             coords = self.get_output_coords(dataset, schema.coords, skip_first)
             outputs = tree_map(lambda x: onp.array(x), outputs)
-            if format_dims is None:
-                format_dims = dataarray.dims
+            default_dims = format_dims is None
+            if default_dims:
+                format_dims = _leading_dims(dataarray.dims, outputs)
 
             try:
                 outputs = format_dataarray(coords, outputs, format_dims)
             except ValueError:
+                if default_dims:
+                    raise
                 # try with reduced dims
                 format_dims = (format_dims[0],)
                 outputs = format_dataarray(coords, outputs, format_dims)
@@ -221,8 +229,9 @@ class StreamDataFrame(Stream):
             coords = self.get_output_coords(dataset, schema.coords, skip_first)
             outputs = tree_map(lambda x: onp.array(x), outputs)
 
-            if format_dims is None:
-                format_dims = dataarray.dims
+            default_dims = format_dims is None
+            if default_dims:
+                format_dims = _leading_dims(dataarray.dims, outputs)
 
             try:
                 outputs = format_dataframe(
@@ -232,6 +241,8 @@ class StreamDataFrame(Stream):
                     index_nlevels=dataframe.index.nlevels,
                 )
             except ValueError:
+                if default_dims:
+                    raise
                 # try with reduced dims
                 format_dims = (format_dims[0],)
                 outputs = format_dataframe(
@@ -298,12 +309,15 @@ class StreamSeries(Stream):
         if self.format_outputs:
             coords = self.get_output_coords(dataset, schema.coords, skip_first)
             outputs = tree_map(lambda x: onp.array(x), outputs)
-            if format_dims is None:
-                format_dims = dataarray.dims
+            default_dims = format_dims is None
+            if default_dims:
+                format_dims = _leading_dims(dataarray.dims, outputs)
 
             try:
                 outputs = format_series(coords, outputs, format_dims)
             except ValueError:
+                if default_dims:
+                    raise
                 # try with reduced dims
                 format_dims = (format_dims[0],)
                 outputs = format_series(coords, outputs, format_dims)
-- 
2.43.0


From c80513f4c20578e407cfa52b01a579f1feefe6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 26/38] fix: dynamic_unroll_fori_loop uses a new random key at
 each step

---
 src/wax/unroll.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index e79ca73..37699cf 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -355,7 +355,11 @@ def dynamic_unroll_fori_loop(
     def body_fun(i, loop_state):
         params, prev_state, rng, inputs, output_sequence = loop_state
         args_i, kwargs_i = tree_map(lambda x: x[i], inputs)
-        outputs, next_state = fun.apply(params, prev_state, rng, *args_i, **kwargs_i)
+        if rng is not None:
+            (rng, sub_rng) = jax.random.split(rng)
+        else:
+            sub_rng = None
+        outputs, next_state = fun.apply(params, prev_state, sub_rng, *args_i, **kwargs_i)
         output_sequence = output_sequence.at[i].set(outputs)
         return LoopState(
             params,
-- 
2.43.0


From e8748ddb9ed1c83bd44b8ba7de4819ec1c2a4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 27/38] fix: dynamic_unroll_fori_loop accepts functions with
 nested outputs

---
 src/wax/unroll.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index 37699cf..2dd5198 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -360,7 +360,9 @@ def dynamic_unroll_fori_loop(
         else:
             sub_rng = None
         outputs, next_state = fun.apply(params, prev_state, sub_rng, *args_i, **kwargs_i)
-        output_sequence = output_sequence.at[i].set(outputs)
+        output_sequence = tree_map(
+            lambda ys, y: ys.at[i].set(y), output_sequence, outputs
+        )
         return LoopState(
             params,
             next_state,
-- 
2.43.0


From bdf91c0c21dbdd7702c33f161c8e1c6642e9d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 28/38] fix: debug decorators without a module name accept
 streaming transforms

---
 src/wax/flax/debug/debugger.py       | 2 +-
 src/wax/flax/debug/memory_tracker.py | 2 +-
 src/wax/flax/debug/profiler.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 85de486..c72a515 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -429,7 +429,7 @@ def debug_streaming(
         debugger = StreamingDebugger()
 
     def decorator(fn: Callable) -> Callable:
-        actual_module_name = module_name or fn.__name__
+        actual_module_name = module_name or getattr(fn, "__name__", type(fn).__name__)
 
         # Create a wrapper that preserves the original function interface
         class DebugWrapper:
diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 2ec8a9d..df91ee5 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -660,7 +660,7 @@ def track_memory_usage(
         tracker = MemoryTracker()
 
     def decorator(fn: Callable) -> Callable:
-        actual_module_name = module_name or fn.__name__
+        actual_module_name = module_name or getattr(fn, "__name__", type(fn).__name__)
 
         # Create a wrapper that preserves the original function interface
         class MemoryWrapper:
diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index f229222..4e46ec1 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -523,7 +523,7 @@ def profile_streaming(
         profiler = StreamingProfiler()
 
     def decorator(fn: Callable) -> Callable:
-        actual_module_name = module_name or fn.__name__
+        actual_module_name = module_name or getattr(fn, "__name__", type(fn).__name__)
 
         # Create a wrapper that preserves the original function interface
         class ProfileWrapper:
-- 
2.43.0


From 979d6d96c1f0aeb10ce5030ead2b6dc38939fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 29/38] fix: states recorded by the debugger are copies that
 later changes do not reach

---
 src/wax/flax/debug/debugger.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index c72a515..0bc0e13 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -130,25 +130,21 @@ class DebugHook:
 
     def _deep_copy_state(self, state: Any) -> Any:
         """Create a deep copy of state for debugging."""
-        try:
-            if hasattr(state, "copy"):
-                return state.copy()
-            elif isinstance(state, dict):
-                return {k: self._safe_copy(v) for k, v in state.items()}
-            else:
-                return state
-        except Exception:
-            return str(state)  # Fallback to string representation
+        return self._safe_copy(state)
 
     def _safe_copy(self, data: Any) -> Any:
         """Safely copy data for event storage."""
         try:
             if isinstance(data, jnp.ndarray):
                 return jnp.copy(data)
+            elif isinstance(data, tuple) and hasattr(data, "_fields"):
+                return type(data)(*(self._safe_copy(item) for item in data))
             elif isinstance(data, (list, tuple)):
                 return type(data)(self._safe_copy(item) for item in data)
             elif isinstance(data, dict):
                 return {k: self._safe_copy(v) for k, v in data.items()}
+            elif hasattr(data, "copy"):
+                return data.copy()
             else:
                 return data
         except Exception:
@@ -329,8 +325,12 @@ class StreamingDebugger:
                 return jnp.copy(tree)
             elif isinstance(tree, dict):
                 return {k: self._safe_copy_tree(v) for k, v in tree.items()}
+            elif isinstance(tree, tuple) and hasattr(tree, "_fields"):
+                return type(tree)(*(self._safe_copy_tree(item) for item in tree))
             elif isinstance(tree, (list, tuple)):
                 return type(tree)(self._safe_copy_tree(item) for item in tree)
+            elif hasattr(tree, "copy"):
+                return tree.copy()
             else:
                 return tree
         except Exception:
-- 
2.43.0


From cfd57748bcd6603edced3404480ab63c01860e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 30/38] fix: profile_streaming records each application once

---
 src/wax/flax/debug/profiler.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index 4e46ec1..ec0c89f 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -480,6 +480,8 @@ class ProfilerContext:
         self.module_name = module_name
         self.start_time = None
         self.jit_compilation = False
+        self.input_data: Any = None
+        self.output_data: Any = None
 
     def __enter__(self):
         self.start_time = time.time()
@@ -491,6 +493,8 @@ class ProfilerContext:
             self.profiler.record_metrics(
                 module_name=self.module_name,
                 execution_time=execution_time,
+                input_data=self.input_data,
+                output_data=self.output_data,
                 jit_compilation=self.jit_compilation,
             )
 
@@ -543,21 +547,13 @@ def profile_streaming(
                 def profile_apply(params, state, rng, *args, **kwargs):
                     with profiler.start_step(actual_module_name) as ctx:
                         # Track input data if detailed tracking enabled
-                        input_data = args[0] if args and enable_detailed_tracking else None
+                        ctx.input_data = args[0] if args and enable_detailed_tracking else None
 
                         # Execute function
                         result = original_apply(params, state, rng, *args, **kwargs)
 
                         # Track output data if detailed tracking enabled
-                        output_data = result if enable_detailed_tracking else None
-
-                        # Record additional context
-                        ctx.profiler.record_metrics(
-                            module_name=actual_module_name,
-                            execution_time=0,  # Will be set by context manager
-                            input_data=input_data,
-                            output_data=output_data,
-                        )
+                        ctx.output_data = result if enable_detailed_tracking else None
 
                         return result
 
-- 
2.43.0


From 5d9c84e07ecddcec188b5a9e4710a0ba7e4d434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 31/38] fix: a downsampled buffer is oldest first also when it
 is not updated

---
 src/wax/flax/modules/compressed_buffer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index b43effa..dfcb963 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -253,13 +253,16 @@ class CompressedBuffer(nn.Module):
             downsampled_data = cast(jnp.ndarray, self.downsampled_buffer(x))
         else:
             # Return current buffer state without update
-            downsampled_data = cast(
-                jnp.ndarray, self.downsampled_buffer.variables["state"]["buffer"]
-            )
+            downsampled_data = self._buffer_content(self.downsampled_buffer)
 
         self.sample_counter.value = counter + 1
         return downsampled_data
 
+    def _buffer_content(self, buffer: Buffer) -> jnp.ndarray:
+        """Current content of a buffer, oldest first, without adding to it."""
+        state = buffer.variables["state"]
+        return jnp.roll(state["buffer"], -(state["write_idx"] % buffer.maxlen), axis=0)
+
     def _sketching_update(self, x: jnp.ndarray) -> jnp.ndarray:
         """Update Count-Min sketch."""
         sketch = self.sketch.value
-- 
2.43.0


From a7f859055a41db9ee30a0608b929d20eb3a67195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 32/38] fix: levels of a hierarchical buffer keep their content
 between updates

---
 src/wax/flax/modules/compressed_buffer.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index dfcb963..03b250f 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -263,6 +263,19 @@ class CompressedBuffer(nn.Module):
         state = buffer.variables["state"]
         return jnp.roll(state["buffer"], -(state["write_idx"] % buffer.maxlen), axis=0)
 
+    def current(self) -> jnp.ndarray:
+        """Current compressed representation, without adding to it."""
+        if self.compression == "ewma":
+            return cast(jnp.ndarray, self.compressed_state.value)
+        elif self.compression == "quantile":
+            return self.quantile_estimates.value
+        elif self.compression == "downsample":
+            return self._buffer_content(self.downsampled_buffer)
+        elif self.compression == "sketching":
+            return jnp.min(self.sketch.value, axis=0)
+        else:
+            return self._buffer_content(self.uncompressed_buffer)
+
     def _sketching_update(self, x: jnp.ndarray) -> jnp.ndarray:
         """Update Count-Min sketch."""
         sketch = self.sketch.value
@@ -403,10 +416,7 @@ class HierarchicalBuffer(nn.Module):
             # Return current medium buffer state
             # Step 0 always updates (0 % 5 == 0), so the stored state is an array
             # by the time this branch is reached, never the initial Python scalar.
-            if hasattr(self.medium_buffer, "compressed_state"):
-                medium_data = cast(jnp.ndarray, self.medium_buffer.compressed_state.value)
-            else:
-                medium_data = jnp.array(0.0)
+            medium_data = self.medium_buffer.current()
 
         # Update long buffer every many steps
         long_counter = self.long_update_counter.value
@@ -415,10 +425,7 @@ class HierarchicalBuffer(nn.Module):
         else:
             # Return current long buffer state
             # Same reasoning as the medium level: step 0 always updates.
-            if hasattr(self.long_buffer, "compressed_state"):
-                long_data = cast(jnp.ndarray, self.long_buffer.compressed_state.value)
-            else:
-                long_data = jnp.array(0.0)
+            long_data = self.long_buffer.current()
 
         # Update counters
         self.medium_update_counter.value = medium_counter + 1
-- 
2.43.0


From 9425387ecb43a8ad9f9e619b3b01ad25d9018eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:17 +0000
Subject: [PATCH 33/38] fix: hierarchical, conditional and state machine
 patterns can be constructed

---
 src/wax/flax/core/streaming_transforms.py | 52 ++---------------------
 1 file changed, 3 insertions(+), 49 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 5d37c25..80af575 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -73,20 +73,7 @@ class HierarchicalState(StreamingStatePattern):
     """
 
     modules: dict[str, nn.Module]
-    dependencies: dict[str, list[str]]  # Module dependency graph
-
-    def __init__(
-        self, modules: dict[str, nn.Module], dependencies: dict[str, list[str]] | None = None
-    ):
-        """Initialize hierarchical state manager.
-
-        Args:
-            modules: Dictionary mapping module names to module instances
-            dependencies: Optional dependency graph for execution order
-        """
-        super().__init__()
-        self.modules = modules
-        self.dependencies = dependencies or {}
+    dependencies: dict[str, list[str]] | None = None  # Module dependency graph
 
     def setup(self):
         """Register all modules for proper state management."""
@@ -115,7 +102,7 @@ class HierarchicalState(StreamingStatePattern):
         module_inputs = {}
 
         # Add dependencies from other modules
-        if module_name in self.dependencies:
+        if self.dependencies and module_name in self.dependencies:
             for dep in self.dependencies[module_name]:
                 if dep in computed_outputs:
                     module_inputs[dep] = computed_outputs[dep]
@@ -140,22 +127,7 @@ class ConditionalStateUpdate(StreamingStatePattern):
 
     module: nn.Module
     condition_fn: Callable[..., bool]
-    reset_on_condition: bool
-
-    def __init__(
-        self, module: nn.Module, condition_fn: Callable[..., bool], reset_on_condition: bool = False
-    ):
-        """Initialize conditional state updater.
-
-        Args:
-            module: The module to conditionally update
-            condition_fn: Function that determines when to update
-            reset_on_condition: Whether to reset state when condition is met
-        """
-        super().__init__()
-        self.module = module
-        self.condition_fn = condition_fn
-        self.reset_on_condition = reset_on_condition
+    reset_on_condition: bool = False
 
     def setup(self):
         """Register the wrapped module."""
@@ -194,24 +166,6 @@ class StreamingStateMachine(StreamingStatePattern):
     transitions: dict[str, dict[str, Callable[..., bool]]]
     initial_state: str
 
-    def __init__(
-        self,
-        states: dict[str, nn.Module],
-        transitions: dict[str, dict[str, Callable[..., bool]]],
-        initial_state: str,
-    ):
-        """Initialize streaming state machine.
-
-        Args:
-            states: Dictionary mapping state names to modules
-            transitions: Transition conditions between states
-            initial_state: Name of the initial state
-        """
-        super().__init__()
-        self.states = states
-        self.transitions = transitions
-        self.initial_state = initial_state
-
     def setup(self):
         """Register all state modules."""
         for name, module in self.states.items():
-- 
2.43.0


From 099937326db890eddbb71c4a614f18dc70ea7520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:26 +0000
Subject: [PATCH 34/38] fix: profile result keeps its own list of bottlenecks

---
 src/wax/flax/debug/profiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index ec0c89f..bd83a77 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -435,7 +435,7 @@ class StreamingProfiler:
                 memory_stats = {}
 
             # Collect bottlenecks
-            bottlenecks = getattr(self, "_bottlenecks", [])
+            bottlenecks = list(getattr(self, "_bottlenecks", []))
 
             # Generate recommendations
             recommendations = self.generate_optimization_recommendations()
-- 
2.43.0


From 91547aba9d9ef11503ab6a3c019e7ad1a6bf79ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:26 +0000
Subject: [PATCH 35/38] fix: performance report of an empty profile is an error
 report

---
 src/wax/flax/debug/profiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index bd83a77..3800275 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -571,6 +571,9 @@ def create_performance_report(profile_result: ProfileResult) -> str:
     """Create a human-readable performance report."""
     summary = profile_result.get_summary()
 
+    if "error" in summary:
+        return f"Performance Report Error: {summary['error']}"
+
     report = []
     report.append("🔍 WAX-ML Streaming Performance Report")
     report.append("=" * 50)
-- 
2.43.0


From 8f763cc4909113ca80fda3324e51bcf8cd64df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:26 +0000
Subject: [PATCH 36/38] fix: exported debugging events do not share lists with
 the session

---
 src/wax/flax/debug/debugger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 0bc0e13..25ba6a5 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -403,7 +403,9 @@ class StreamingDebugger:
                         ]
                         for name, hook in self.hooks.items()
                     },
-                    "performance_data": dict(self.performance_data),
+                    "performance_data": {
+                        name: list(values) for name, values in self.performance_data.items()
+                    },
                 }
             else:
                 raise ValueError(f"Unsupported export format: {format}")
-- 
2.43.0


From 775662281b0bf1152146b83ae78b97f099808947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:26 +0000
Subject: [PATCH 37/38] fix: get_recent_data(0) returns no data point

---
 src/wax/flax/visualization/data_flow_visualizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 26becc9..4bf54dd 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -157,7 +157,8 @@ class DataFlowTracker:
 
     def get_recent_data(self, n_points: int = 100) -> list[DataPoint]:
         """Get the most recent n data points."""
-        return list(self.data_history)[-n_points:]
+        history = list(self.data_history)
+        return history[max(len(history) - n_points, 0) :]
 
     def clear_history(self) -> None:
         """Clear all tracking history."""
-- 
2.43.0


From 534deb875b36b6e62115c0aff2294f36712d4f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:26 +0000
Subject: [PATCH 38/38] fix: memory growth rate is per step

---
 src/wax/flax/debug/memory_tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index df91ee5..d738c32 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -402,7 +402,7 @@ class MemoryTracker:
 
             if denominator > 0:
                 slope = numerator / denominator  # MB per snapshot
-                growth_rate = slope * self.snapshot_interval  # MB per step
+                growth_rate = slope / self.snapshot_interval  # MB per step
 
                 if growth_rate > self.leak_detection_threshold_mb / 100:  # Threshold per step
                     total_growth = memory_values[-1] - memory_values[0]
-- 
2.43.0

