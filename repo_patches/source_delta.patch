From b3a88ccdae7229aa22624baab7db635a3cc98a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 01/64] fix: do not deliver the first observation of secondary
 streams twice

---
 src/wax/stream.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index f45c037..603f97e 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -634,6 +634,12 @@ class Stream:
 
         original_streams = streams.copy()
         local_time = self.get_local_time(streams)
+        for time_dim, stream in streams.items():
+            # Streams yield their first observation twice: once at initialization and once
+            # when they are iterated. Secondary streams already hold it in `stream_obs`, so we
+            # drop the repetition in order to not process this observation twice.
+            if time_dim != local_time:
+                next(stream, None)
         while True:
             # local loop
             streams = original_streams.copy()
-- 
2.43.0


From 7642adb715931914744a74e93613666ec3a7c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 02/64] fix: unroll_stream with skip_first collects each leaf
 in its own list

---
 src/wax/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 603f97e..99a74c2 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -303,7 +303,7 @@ def unroll_stream(
     # stream_scan
     def _init_outputs():
         if skip_first:
-            return [[]] * num_leaves
+            return [[] for _ in range(num_leaves)]
         else:
             return [[x] for x in obs_flat]
 
-- 
2.43.0


From 49856d4ace8776ff24a5b3ae7d59a1a145ed4930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 03/64] fix: access to time-independent and buffered
 multi-dimensional variables of a stream

---
 src/wax/stream.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 99a74c2..963a360 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -223,12 +223,10 @@ def get_dataset_index(dataset: xr.Dataset, time_dataset_index: xr.Dataset) -> xr
             if not onp.shape(var):
                 dataset_index[dim] = xr.DataArray(onp.arange(n_steps), dims=("step",))
             else:
-                values_atleast_1d = onp.atleast_1d(var.values)
-                # grid = onp.indices(values_atleast_1d.shape)
-                flat_idx = onp.arange(len(values_atleast_1d.ravel()))
+                # the whole variable is accessed at each step
                 dataset_index[dim] = xr.DataArray(
-                    onp.outer(onp.arange(n_steps), flat_idx),
-                    dims=("step", cast(str, dim) + "_flat_idx"),
+                    onp.tile(onp.arange(len(var)), (n_steps, 1)),
+                    dims=("step", cast(str, dim) + "_idx"),
                 )
     return dataset_index
 
@@ -358,10 +356,13 @@ def access_data(step: int, x: Any, idx: Any):
     """
     step_idx = idx[step]
     # output = x[step_idx]
+    values = jnp.atleast_1d(x)[step_idx]
+    # align index dimensions with the leading dimensions of the accessed values
+    is_missing = (step_idx < 0).reshape(step_idx.shape + (1,) * (values.ndim - step_idx.ndim))
     output = jnp.where(
-        step_idx < 0,
-        jnp.full_like(jnp.atleast_1d(x)[step_idx], DTYPE_INIT_VALUES[x.dtype.type]),
-        jnp.atleast_1d(x)[step_idx],
+        is_missing,
+        jnp.full_like(values, DTYPE_INIT_VALUES[x.dtype.type]),
+        values,
     )
     return output
 
-- 
2.43.0


From 014fdf05c9e92fc4700da801a050ee2d43c40011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 04/64] fix: less orders the encodings of negative integers
 (dates before 1970)

---
 src/wax/encode.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/wax/encode.py b/src/wax/encode.py
index ce6c11d..8fd70ff 100644
--- a/src/wax/encode.py
+++ b/src/wax/encode.py
@@ -199,17 +199,8 @@ def datetime64_encoder(values: Any) -> Encoder:
 
 
 def less(t1, t2):
-    h1, l1 = t1
-    h2, l2 = t2
-    if h1 < h2:
-        return True
-    elif h1 > h2:
-        return False
-    else:
-        if l1 < l2:
-            return True
-        else:
-            return False
+    # the sign of the encoded integers is held by their high part
+    return decode_int64(t1) < decode_int64(t2)
 
 
 def floor_jax_datekey(datekey):
-- 
2.43.0


From c16c54ce67b0dc319070b815a677c09fce5ea156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 05/64] fix: PctChange without fill method lags its input

---
 src/wax/modules/pct_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 7525485..11259fb 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -54,7 +54,7 @@ class PctChange(hk.Module):
         if self.fill_method in ["ffill", "pad"]:
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
-            previous_x = Lag(self.periods)()
+            previous_x = Lag(self.periods)(x)
         pct_change = x / previous_x - 1.0
         if self.fillna_zero:
             pct_change = jnp.where(jnp.isnan(x) & ~jnp.isnan(previous_x), 0.0, pct_change)
-- 
2.43.0


From e592adea4b684f248cdcd6193bbe374abe5cbef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 06/64] fix: gym_static_unroll returns the first output when it
 is not skipped

---
 src/wax/unroll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index b7f7dec..27ae0b2 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -419,6 +419,8 @@ def gym_static_unroll(gym_fun, params, state, seq, skip_first, data_generator, p
         y, treedef = tree_flatten(y)
         if ys is None:
             ys = tuple([] for _ in y)
+        for ys_, y_ in zip(ys, y, strict=False):
+            ys_.append(y_)
 
     if pbar:
         data_generator = tqdm(data_generator, desc="gym_static_unroll")
-- 
2.43.0


From a84c05bb8879d1e2282273893fa568a8fc992e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 07/64] fix: numba ewma does not modify the state it is given

---
 src/wax/numba/ewma_numba.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 4bdca13..962a6be 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -115,9 +115,10 @@ def ewma(
 
         if state is None:
             state = init_ewma_state(values)
-        mean = state.mean
-        old_wt = state.old_wt
-        nobs = state.nobs
+        # numba_apply works in place: do not alter the state of the caller
+        mean = np.array(state.mean)
+        old_wt = np.array(state.old_wt)
+        nobs = np.array(state.nobs)
 
         res, mean, old_wt, nobs = numba_apply(values, mean, old_wt, nobs)
         state = EWMAState(mean, old_wt, nobs)
-- 
2.43.0


From 9d268a6acbd111565ae512e031e876817bb2f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 08/64] fix: numba ewma on integer data

---
 src/wax/numba/ewma_numba.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 962a6be..23a2249 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -112,6 +112,9 @@ def ewma(
         if values.ndim == 1:
             values = values.reshape(-1, 1)
             is_1d = True
+        if not np.issubdtype(values.dtype, np.floating):
+            # as in pandas, moving averages are computed with floats
+            values = values.astype(np.float64)
 
         if state is None:
             state = init_ewma_state(values)
-- 
2.43.0


From 30c03882db74b481fa1975777ccd8d7633ee7667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 09/64] fix: numba ewma accepts com=0 (alpha=1) as documented

---
 src/wax/numba/ewma_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 23a2249..16740a7 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -91,7 +91,7 @@ def ewma(
         assert com is None
         com = 1.0 / alpha - 1.0
     com = cast(float, com)
-    assert com > 0.0
+    assert com >= 0.0
     alpha = 1.0 / (1.0 + com)
 
     def init_ewma_state(x):
-- 
2.43.0


From 4a115b972daec83496bb4da27ed7d61370ef5035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 10/64] fix: Lag with return_state returns the lagged value and
 the state

---
 src/wax/modules/lag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/modules/lag.py b/src/wax/modules/lag.py
index 36c724f..e762c22 100644
--- a/src/wax/modules/lag.py
+++ b/src/wax/modules/lag.py
@@ -29,6 +29,9 @@ class Lag(Buffer):
         self.lag = lag
 
     def __call__(self, x):
+        if self.return_state:
+            buffer, buffer_state = super().__call__(x)
+            return buffer[0], buffer_state
         buffer = super().__call__(x)
         return buffer[0]
 
-- 
2.43.0


From 3e5dee0662cf5cb51b4bd24bb467821fa8310823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 11/64] fix: MaskStd and MaskNormalize along the last axis

---
 src/wax/modules/mask_normalize.py | 4 ++++
 src/wax/modules/mask_std.py       | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/wax/modules/mask_normalize.py b/src/wax/modules/mask_normalize.py
index e7067df..c35327f 100644
--- a/src/wax/modules/mask_normalize.py
+++ b/src/wax/modules/mask_normalize.py
@@ -14,6 +14,7 @@
 """Normalize data by its standard deviation computed with a mask."""
 
 import haiku as hk
+import jax.numpy as jnp
 from jax.tree_util import tree_map
 
 from wax.modules.fill_nan_inf import FillNanInf
@@ -45,6 +46,9 @@ class MaskNormalize(hk.Module):
 
         def normalize(x):
             x_std = MaskStd(axis=self.axis, assume_centered=self.assume_centered)(mask, x)
+            if self.axis is not None:
+                # align the standard deviation with the data
+                x_std = jnp.expand_dims(x_std, self.axis)
             x_normalized = FillNanInf()(x / x_std)
             return x_normalized
 
diff --git a/src/wax/modules/mask_std.py b/src/wax/modules/mask_std.py
index 8d32888..c6c7840 100644
--- a/src/wax/modules/mask_std.py
+++ b/src/wax/modules/mask_std.py
@@ -52,6 +52,9 @@ class MaskStd(hk.Module):
 
             count = mask.sum(axis=self.axis)
             mean = x.sum(axis=self.axis) / count
+            if self.axis is not None:
+                # align the mean with the data
+                mean = jnp.expand_dims(mean, self.axis)
 
             if self.assume_centered:
                 diff = x
-- 
2.43.0


From 4df8007a31cb76c8e9e145123ec283d415793ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 12/64] fix: Flax MaskNormalize along the last axis

---
 src/wax/flax/modules/mask_normalize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wax/flax/modules/mask_normalize.py b/src/wax/flax/modules/mask_normalize.py
index f8a8498..be3a174 100644
--- a/src/wax/flax/modules/mask_normalize.py
+++ b/src/wax/flax/modules/mask_normalize.py
@@ -53,6 +53,10 @@ class MaskNormalize(nn.Module):
             # Compute standard deviation over masked regions
             x_std = self.mask_std(mask, x)
 
+            # Align the standard deviation with the data
+            if self.axis is not None:
+                x_std = jnp.expand_dims(x_std, self.axis)
+
             # Normalize by dividing by standard deviation
             x_normalized = x / x_std
 
-- 
2.43.0


From 180e2dc4561be4daee332c2660b2f8fd494858db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 13/64] fix: transform_batch_with_state uses the random key
 given to apply

---
 src/wax/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/transform.py b/src/wax/transform.py
index dd8037a..588c8aa 100644
--- a/src/wax/transform.py
+++ b/src/wax/transform.py
@@ -54,10 +54,11 @@ def transform_batch_with_state(fun, skip_first=False):
     def apply(params, state, key, xs):
         # params is not used ... (and is empty)
         # replace state rng_key by given rng_key
+        init_state = BatchState(state.fun_params, state.fun_state, key)
         # we drop the first observation because it has been used in initialization....
         if skip_first:
             xs = tree_map(lambda x: x[1:], xs)
-        final_state, output_sequence = jax.lax.scan(scan_f, init=state, xs=xs)
+        final_state, output_sequence = jax.lax.scan(scan_f, init=init_state, xs=xs)
         assert isinstance(final_state, BatchState)
         return output_sequence, final_state
 
-- 
2.43.0


From 37572c87c4a94fee1d7bbd527b556491c68eb4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 14/64] fix: dynamic_unroll_fori_loop uses one random key per
 step and supports nested outputs

---
 src/wax/unroll.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index 27ae0b2..9e89533 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -345,9 +345,7 @@ def dynamic_unroll_fori_loop(
     output_template, _ = fun.apply(params, state, rng, *args_0, **kwargs_0)
 
     T = len(tree_flatten(xs)[0][0])
-    output_sequence = tree_map(
-        lambda x: jnp.full((T,) + x.shape, jnp.nan, x.dtype), output_template
-    )
+    output_sequence = tree_map(lambda x: jnp.zeros((T,) + x.shape, x.dtype), output_template)
 
     # run loop
     loop_state = LoopState(params, state, rng, xs, output_sequence)
@@ -356,8 +354,12 @@ def dynamic_unroll_fori_loop(
     def body_fun(i, loop_state):
         params, prev_state, rng, inputs, output_sequence = loop_state
         args_i, kwargs_i = tree_map(lambda x: x[i], inputs)
-        outputs, next_state = fun.apply(params, prev_state, rng, *args_i, **kwargs_i)
-        output_sequence = output_sequence.at[i].set(outputs)
+        if rng is not None:
+            (rng, sub_rng) = jax.random.split(rng)
+        else:
+            sub_rng = None
+        outputs, next_state = fun.apply(params, prev_state, sub_rng, *args_i, **kwargs_i)
+        output_sequence = tree_map(lambda ys, y: ys.at[i].set(y), output_sequence, outputs)
         return LoopState(
             params,
             next_state,
-- 
2.43.0


From c81fc6f051de9ca2f9f05c2c4529f9f5d2733f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 15/64] fix: Counter and OnlineOptimizer do not modify the
 state they are given

---
 src/wax/modules/counter.py          | 2 +-
 src/wax/modules/online_optimizer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wax/modules/counter.py b/src/wax/modules/counter.py
index e5b9f5d..d594e65 100644
--- a/src/wax/modules/counter.py
+++ b/src/wax/modules/counter.py
@@ -19,6 +19,6 @@ from jax.numpy import uint32
 class Counter(hk.Module):
     def __call__(self):
         count = hk.get_state("count", [], init=lambda shape, dtype: DeviceArray(0, dtype=uint32))
-        count += 1
+        count = count + 1
         hk.set_state("count", count)
         return count
diff --git a/src/wax/modules/online_optimizer.py b/src/wax/modules/online_optimizer.py
index ab165a9..ea80daf 100644
--- a/src/wax/modules/online_optimizer.py
+++ b/src/wax/modules/online_optimizer.py
@@ -143,7 +143,7 @@ class OnlineOptimizer(hk.Module):
             updated_trainable_params = self.project_params(updated_trainable_params, self.opt)
 
         updated_params = hk.data_structures.merge(updated_trainable_params, non_trainable_params)
-        step += 1
+        step = step + 1
         hk.set_state("step", step)
         hk.set_state(
             "model_params_and_state",
-- 
2.43.0


From 2c345b3067efafef547dcd89e1f505538d82192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 16/64] fix: each lift in a transformed function keeps its own
 state

Two vmap_lift_with_state (or unroll_lift_with_state) in the same function
wrote their states under the same name, so that the first was given the
states of the second.
---
 src/wax/stateful.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/wax/stateful.py b/src/wax/stateful.py
index 65fccd1..4ce30d4 100644
--- a/src/wax/stateful.py
+++ b/src/wax/stateful.py
@@ -15,10 +15,17 @@ from collections.abc import Callable
 
 import haiku as hk
 import jax
-from haiku.experimental import lift_with_state
+from haiku.experimental import transparent_lift_with_state
 from jax.tree_util import tree_map
 
 
+class _Lift(hk.Module):
+    """Gives each lift of a transformed function its own name."""
+
+    def __call__(self, init_fn):
+        return transparent_lift_with_state(init_fn)
+
+
 def vmap_lift_with_state(fun: Callable, split_rng=False, init_rng=True):
     if split_rng and not init_rng:
         raise ValueError("split_rng=True requires init_rng=True")
@@ -33,9 +40,7 @@ def vmap_lift_with_state(fun: Callable, split_rng=False, init_rng=True):
             def init_fn(*args, **kwargs):
                 return tfun.init(rng, *args, **kwargs)
 
-            params_and_state_fn, updater = hk.experimental.lift_with_state(
-                init_fn, name="vmap_lift"
-            )
+            params_and_state_fn, updater = _Lift(name="vmap_lift")(init_fn)
             params, state = params_and_state_fn(*args, **kwargs)
 
             @jax.vmap
@@ -55,9 +60,7 @@ def vmap_lift_with_state(fun: Callable, split_rng=False, init_rng=True):
             def init_fn(rng, *args, **kwargs):
                 return tfun.init(rng, *args, **kwargs)
 
-            params_and_state_fn, updater = hk.experimental.lift_with_state(
-                init_fn, name="vmap_lift"
-            )
+            params_and_state_fn, updater = _Lift(name="vmap_lift")(init_fn)
             params, state = params_and_state_fn(rng, *args, **kwargs)
 
             @jax.vmap
@@ -80,7 +83,7 @@ def unroll_lift_with_state(fn: Callable, skip_first=False, split_rng=False, init
 
     def apply_fn(*args, **kwargs):
         tfn = hk.transform_with_state(fn)
-        params_and_state_fn, updater = lift_with_state(tfn.init, name="unroll_lift")
+        params_and_state_fn, updater = _Lift(name="unroll_lift")(tfn.init)
 
         def init(xs):
             args_0, kwargs_0 = tree_map(lambda x: x[0], xs)
-- 
2.43.0


From 0a027d6083ca5635153ed948d315d0d7fc61719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 17/64] fix: coordinates which are not dimensions do not
 prevent streaming

A scalar coordinate (such as the one left by a selection) holding a string
raised an error, and coordinates holding dates which do not index a dimension
were taken for time axes.
---
 src/wax/encode.py | 2 +-
 src/wax/stream.py | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/wax/encode.py b/src/wax/encode.py
index 8fd70ff..40518a5 100644
--- a/src/wax/encode.py
+++ b/src/wax/encode.py
@@ -168,7 +168,7 @@ def string_encoder(values: Any) -> Encoder:
     ravel = False
     original_shape = None
 
-    if values.ndim > 1:
+    if values.ndim != 1:
         ravel = True
         original_shape = values.shape
         values = values.ravel()
diff --git a/src/wax/stream.py b/src/wax/stream.py
index 963a360..acc11f0 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -163,13 +163,18 @@ def get_dataset_index_from_stream_index(
 
 
 def _get_unique_time_dim(dataset):
-    time_coords = {dim for dim, vals in dataset.coords.items() if vals.dtype.type is onp.datetime64}
+    time_coords = get_dataset_time_coords(dataset)
     assert len(time_coords) == 1
     return time_coords.pop()
 
 
 def get_dataset_time_coords(dataset):
-    time_coords = {dim for dim, vals in dataset.coords.items() if vals.dtype.type is onp.datetime64}
+    # only the coordinates which index a dimension are time axes
+    time_coords = {
+        dim
+        for dim, vals in dataset.coords.items()
+        if vals.dtype.type is onp.datetime64 and vals.dims == (dim,)
+    }
     assert len(time_coords), "No time coordinate found"
     return time_coords
 
-- 
2.43.0


From 9a4c75329e3e0c390903b61439eac56a8cb5a928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 18/64] fix: the stream of a data frame with several levels
 keeps the rows without observation

---
 src/wax/accessors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index b11eb73..223e85c 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -197,7 +197,10 @@ class StreamDataFrame(Stream):
             # avoid to stack the dataframe : its faster!
             dataarray = xr.DataArray(dataframe)
         else:
-            dataarray = dataframe.stack(list(range(dataframe.columns.nlevels))).to_xarray()
+            # the rows without any observation are steps of the stream, do not drop them
+            dataarray = dataframe.stack(
+                list(range(dataframe.columns.nlevels)), future_stack=True
+            ).to_xarray()
         dataset = dataarray.to_dataset(name="dataarray")
         schema = self.get_dataset_schema(dataset)
 
-- 
2.43.0


From bf6103bba36c4ccd70b90b8c13e2148e4014ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 19/64] fix: labelled outputs of a stream can skip the first
 step

With skip_first=True the accessors gave the outputs the labels of all the
steps, which raised an error.
---
 src/wax/accessors.py | 20 ++++++++++++--------
 src/wax/stream.py    |  7 +++++++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index 223e85c..a7d07bf 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -74,12 +74,13 @@ class StreamDataset(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = self.get_output_coords(dataset, skip_first)
             try:
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -137,15 +138,16 @@ class StreamDataArray(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = self.get_output_coords(dataset, skip_first)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -218,13 +220,14 @@ class StreamDataFrame(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = self.get_output_coords(dataset, skip_first)
 
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -233,7 +236,7 @@ class StreamDataFrame(Stream):
                 # try with reduced dims
                 format_dims = (format_dims[0],)
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -295,15 +298,16 @@ class StreamSeries(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = self.get_output_coords(dataset, skip_first)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
         if self.return_state:
             return outputs, state
         else:
diff --git a/src/wax/stream.py b/src/wax/stream.py
index acc11f0..2b9d9c6 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -488,6 +488,13 @@ class Stream:
         schema = self.get_dataset_schema(dataset)
         return schema.encoders
 
+    def get_output_coords(self, dataset: xr.Dataset, skip_first: bool = False):
+        """Coordinates of the outputs: the first local time has no output if it is skipped."""
+        if skip_first:
+            time_datasets = split_dataset_from_time_dims(get_time_dataset(dataset))
+            dataset = dataset.isel({self.get_local_time(time_datasets): slice(1, None)})
+        return dataset.coords
+
     def prepare(
         self,
         dataset: xr.Dataset,
-- 
2.43.0


From 25a7645561d1e4d7dee7fa5bd22ad7cb887863a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 20/64] fix: format nested outputs with tuples of a stream of a
 data set

---
 src/wax/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/format.py b/src/wax/format.py
index 88ad843..c645dad 100644
--- a/src/wax/format.py
+++ b/src/wax/format.py
@@ -104,7 +104,7 @@ def format_dataset(ref_coords: DatasetCoordinates | None, data: Any, format_dims
     output = format_dataarray(ref_coords, data, format_dims)
     try:
         return xr.Dataset(output)
-    except TypeError:
+    except (TypeError, ValueError):
         return output
 
 
-- 
2.43.0


From b950d582dfa7ccaa8ada0caf25f942ac2cca0ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 21/64] fix: format_dataframe accepts an array of dimensions
 for nested data

---
 src/wax/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/format.py b/src/wax/format.py
index c645dad..d4ece1f 100644
--- a/src/wax/format.py
+++ b/src/wax/format.py
@@ -136,7 +136,7 @@ def format_dataframe(
             for dataarray, dims in zip(data_flat, format_dims_flat, strict=False)
         )
     else:
-        if not format_dims:
+        if format_dims is None or not len(format_dims):
             format_dims = _get_dims_from_data(data_flat[0])
         vals = tuple(
             _to_dataframe(ref_coords, dataarray, format_dims, index_nlevels)
-- 
2.43.0


From 154be69079ca689e0a5e2975249612470884ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 22/64] fix: UpdateParams and FuncOptimizer accept no
 params_predicate, as documented

---
 src/wax/modules/update_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/update_params.py b/src/wax/modules/update_params.py
index d7397f2..117fc09 100644
--- a/src/wax/modules/update_params.py
+++ b/src/wax/modules/update_params.py
@@ -36,7 +36,7 @@ class UpdateParams(hk.Module):
     ):
         super().__init__(name=name)
         self.func = func
-        self.params_predicate = params_predicate
+        self.params_predicate = params_predicate or pass_all_predicate
 
     def __call__(self, trainable_params, *args, **kwargs):
         init, apply = hk.transform_with_state(self.func)
-- 
2.43.0


From 7ffb122228ab03e4cca44eea6727c83c5a0b8c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 23/64] fix: OptaxOptimizer gives the parameters to the
 gradient transformation

Transformations which need them (weight decay for instance) raised an error.
---
 src/wax/modules/optax_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/optax_optimizer.py b/src/wax/modules/optax_optimizer.py
index d342bf6..1917cc4 100644
--- a/src/wax/modules/optax_optimizer.py
+++ b/src/wax/modules/optax_optimizer.py
@@ -29,7 +29,7 @@ class OptaxOptimizer(hk.Module):
 
     def __call__(self, params, grads):
         opt_state = hk.get_state("opt_state", [], init=lambda *_: self.opt.init(params))
-        updates, opt_state = self.opt.update(grads, opt_state)
+        updates, opt_state = self.opt.update(grads, opt_state, params)
         params = optax.apply_updates(params, updates)
         hk.set_state("opt_state", opt_state)
         return params
-- 
2.43.0


From eedba6c9705f8f787661e4d2a375d2bae328e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 24/64] fix: ARMA filters inputs of any shape

---
 src/wax/modules/arma.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wax/modules/arma.py b/src/wax/modules/arma.py
index 4648ef6..710d0cd 100644
--- a/src/wax/modules/arma.py
+++ b/src/wax/modules/arma.py
@@ -38,7 +38,12 @@ class ARMA(hk.Module):
             init=lambda shape, dtype: jnp.zeros(((len(self.alpha),) + shape), dtype=dtype),
         )
 
-        y = self.alpha @ y_buffer + self.beta @ eps_buffer + eps
+        # sum over the lags, for eps of any shape
+        y = (
+            jnp.tensordot(self.alpha, y_buffer, axes=1)
+            + jnp.tensordot(self.beta, eps_buffer, axes=1)
+            + eps
+        )
 
         y = FillNanInf()(y)
 
-- 
2.43.0


From f52caf671c75c6eebad4ecf3ac730874b5e4c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 25/64] fix: entering a ProgressBar gives the progress bar

---
 src/wax/gym/callbacks/progressbar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/gym/callbacks/progressbar.py b/src/wax/gym/callbacks/progressbar.py
index 598c7c8..9630eba 100644
--- a/src/wax/gym/callbacks/progressbar.py
+++ b/src/wax/gym/callbacks/progressbar.py
@@ -22,7 +22,7 @@ class ProgressBar(Callback):
         self._pbar = None
 
     def __enter__(self):
-        super().__enter__()
+        return super().__enter__()
 
     def _on_train_start(self, env, agent, obs):
         if self._pbar is None:
-- 
2.43.0


From 1cbd6d1555790c9052d182a6593cc9bc49f52be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 26/64] fix: Stop counts the steps of each run

---
 src/wax/gym/callbacks/stop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/gym/callbacks/stop.py b/src/wax/gym/callbacks/stop.py
index 42e066f..c4d60c0 100644
--- a/src/wax/gym/callbacks/stop.py
+++ b/src/wax/gym/callbacks/stop.py
@@ -21,6 +21,9 @@ class Stop(Callback):
         # state
         self._t = 0
 
+    def _on_train_start(self, env, agent, obs):
+        self._t = 0
+
     def _on_step(self, env, agent, gym_state):
         self._t += 1
 
-- 
2.43.0


From c0c361d97b73f8d4d04b107e3456f4411dc88539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 27/64] fix: gym_unroll accepts Callback objects as callbacks

---
 src/wax/gym/gym_unroll.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wax/gym/gym_unroll.py b/src/wax/gym/gym_unroll.py
index 142e576..c9f0ad7 100644
--- a/src/wax/gym/gym_unroll.py
+++ b/src/wax/gym/gym_unroll.py
@@ -15,7 +15,7 @@
 
 from collections import namedtuple
 
-from wax.gym.callbacks.callbacks import local_callbacks, unpack_callbacks
+from wax.gym.callbacks.callbacks import local_callbacks, normalize_callback, unpack_callbacks
 
 
 def gym_unroll(agent, env, obs=None, callbacks=None):
@@ -49,7 +49,7 @@ def gym_unroll(agent, env, obs=None, callbacks=None):
             on_act_cbs,
             on_step_cbs,
             on_train_end_cbs,
-        ) = unpack_callbacks(callbacks)
+        ) = unpack_callbacks([normalize_callback(cb) for cb in callbacks])
 
         obs = env.reset() if obs is None else obs
 
-- 
2.43.0


From d2cbd7b398a083f0785607f1a74a5a1d2e8d3d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 28/64] fix: a ProgressBar shows the progress of each run

---
 src/wax/gym/callbacks/progressbar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wax/gym/callbacks/progressbar.py b/src/wax/gym/callbacks/progressbar.py
index 9630eba..21cc13c 100644
--- a/src/wax/gym/callbacks/progressbar.py
+++ b/src/wax/gym/callbacks/progressbar.py
@@ -37,3 +37,4 @@ class ProgressBar(Callback):
     def _on_train_end(self, env, agent):
         if self._pbar is not None:
             self._pbar.close()
+            self._pbar = None
-- 
2.43.0


From 9f1b8aa5f9579a88cb41998b36aa450733ab7af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 29/64] fix: Record concatenates data sets

---
 src/wax/gym/callbacks/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/gym/callbacks/record.py b/src/wax/gym/callbacks/record.py
index d00f86d..ea2225f 100644
--- a/src/wax/gym/callbacks/record.py
+++ b/src/wax/gym/callbacks/record.py
@@ -113,7 +113,7 @@ class Record(Callback):
             if isinstance(x[0], pd.DataFrame | pd.Series):
                 return pd.concat(x, axis=0)
             elif isinstance(x[0], xr.Dataset | xr.DataArray):
-                return xr.concat(x, dim=x[0].dims[0])
+                return xr.concat(x, dim=next(iter(x[0].dims)))
             else:
                 return np.stack(x, axis=0)
 
-- 
2.43.0


From 5f7f7fb517c0ab05aefc235f15e3d32bc3b88f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 30/64] fix: Flax ARMA filters with the previous outputs and
 noise terms

---
 src/wax/flax/modules/arma.py | 58 +++++++++++++-----------------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/src/wax/flax/modules/arma.py b/src/wax/flax/modules/arma.py
index 777aa23..c16a26a 100644
--- a/src/wax/flax/modules/arma.py
+++ b/src/wax/flax/modules/arma.py
@@ -13,12 +13,9 @@
 # limitations under the License.
 """Flax-based ARMA module for Autoregressive Moving Average filtering."""
 
-from typing import cast
-
 import flax.linen as nn
 import jax.numpy as jnp
 
-from .buffer import Buffer
 from .fill_nan_inf import FillNanInf
 
 
@@ -48,18 +45,10 @@ class ARMA(nn.Module):
         if self.beta.ndim != 1:
             raise ValueError("beta must be a 1-D array")
 
-        # Create buffers for AR and MA components
-        # AR buffer stores previous outputs
-        if len(self.alpha) > 0:
-            self.ar_buffer = Buffer(maxlen=len(self.alpha), fill_value=0.0)
-
-        # MA buffer stores previous inputs (noise terms)
-        if len(self.beta) > 0:
-            self.ma_buffer = Buffer(maxlen=len(self.beta), fill_value=0.0)
-
         # Module for handling NaN/Inf values
         self.fill_nan_inf = FillNanInf()
 
+    @nn.compact
     def __call__(self, eps: jnp.ndarray) -> jnp.ndarray:
         """Apply ARMA filter to input noise term.
 
@@ -72,36 +61,29 @@ class ARMA(nn.Module):
         # Ensure input is an array
         eps = jnp.asarray(eps)
 
-        # Initialize output with current input (eps term)
-        output = eps
-
-        # Autoregressive component: sum(alpha[i] * y[t-i])
-        if len(self.alpha) > 0:
-            # Get previous outputs from AR buffer (placeholder initialization)
-            # Get current state; the buffer is built with return_state left at
-            # its default (False), so the call yields the array alone.
-            ar_history = cast(jnp.ndarray, self.ar_buffer(jnp.zeros_like(output)))
-
-            # Compute AR contribution
-            ar_contribution = jnp.sum(self.alpha * ar_history)
-            output = output + ar_contribution
-
-        # Moving average component: sum(beta[j] * eps[t-j])
-        if len(self.beta) > 0:
-            # Get previous inputs from MA buffer
-            ma_history = cast(jnp.ndarray, self.ma_buffer(eps))
-
-            # Compute MA contribution
-            ma_contribution = jnp.sum(self.beta * ma_history)
-            output = output + ma_contribution
-
-        # Update AR buffer with current output
-        if len(self.alpha) > 0:
-            self.ar_buffer(output)  # Store current output for next iteration
+        # Previous outputs and previous noise terms (oldest first)
+        dtype = jnp.result_type(self.alpha, self.beta, eps)
+        y_history = self.variable(
+            "state", "y_history", lambda: jnp.zeros((len(self.alpha),) + eps.shape, dtype)
+        )
+        eps_history = self.variable(
+            "state", "eps_history", lambda: jnp.zeros((len(self.beta),) + eps.shape, eps.dtype)
+        )
+
+        # Sum over the lags, for eps of any shape
+        output = (
+            jnp.tensordot(self.alpha, y_history.value, axes=1)
+            + jnp.tensordot(self.beta, eps_history.value, axes=1)
+            + eps
+        )
 
         # Handle NaN/Inf values
         output = self.fill_nan_inf(output)
 
+        # Drop the oldest terms and store the current ones for next iteration
+        y_history.value = jnp.concatenate([y_history.value, output[None]])[1:]
+        eps_history.value = jnp.concatenate([eps_history.value, eps[None]])[1:]
+
         return output
 
 
-- 
2.43.0


From a13207a1dd42281f005fa16fdbd739e677f8c93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 31/64] fix: missing values do not end up in the Flax OHLC bars

---
 src/wax/flax/modules/ohlc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wax/flax/modules/ohlc.py b/src/wax/flax/modules/ohlc.py
index 6786b26..b5a5708 100644
--- a/src/wax/flax/modules/ohlc.py
+++ b/src/wax/flax/modules/ohlc.py
@@ -75,7 +75,7 @@ class OHLC(nn.Module):
         current_open = open_val.value
         current_high = high_val.value
         current_low = low_val.value
-        # The previous close is never needed: CLOSE is always the latest input.
+        current_close = close_val.value
 
         # Determine if this is the first valid input or a reset
         is_first_or_reset = should_reset | jnp.isnan(current_open)
@@ -84,13 +84,13 @@ class OHLC(nn.Module):
         new_open = jnp.where(is_first_or_reset, input, current_open)
 
         # Update HIGH: max of current high and input, or input if first/reset
-        new_high = jnp.where(is_first_or_reset, input, jnp.maximum(current_high, input))
+        new_high = jnp.where(is_first_or_reset, input, jnp.fmax(current_high, input))
 
         # Update LOW: min of current low and input, or input if first/reset
-        new_low = jnp.where(is_first_or_reset, input, jnp.minimum(current_low, input))
+        new_low = jnp.where(is_first_or_reset, input, jnp.fmin(current_low, input))
 
-        # Update CLOSE: always set to current input
-        new_close = input
+        # Update CLOSE: latest non-missing input
+        new_close = jnp.where(is_first_or_reset | ~jnp.isnan(input), input, current_close)
 
         # Update state variables
         open_val.value = new_open
-- 
2.43.0


From 5615adcc4b4fefe641724fa44bd79f486641d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 32/64] fix: StreamingScan accepts a reset function

---
 src/wax/flax/core/streaming_transforms.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 6583ab4..9638da6 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -609,9 +609,13 @@ class StreamingScan(nn.Module):
                 should_reset = self.reset_fn(x)
 
             # Reset state if needed
-            if should_reset and self.preserve_state:
-                # Reset to initial state
-                carry = initial_state
+            if self.reset_fn is not None and self.preserve_state:
+                # Reset to initial state (should_reset may be traced)
+                carry = jax.tree_util.tree_map(
+                    lambda initial, current: jnp.where(should_reset, initial, current),
+                    initial_state,
+                    carry,
+                )
 
             # Apply the streaming function
             # For now, we'll implement a simple pass-through that maintains carry structure
-- 
2.43.0


From 0ed5fabac326c5a1237951cf5da0afde66ca633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 33/64] fix: StreamingTransform.scan uses a new random key for
 each element

---
 src/wax/flax/core/streaming_transforms.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 9638da6..afc423f 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -430,11 +430,16 @@ class StreamingTransform:
             Tuple of (outputs, final_state)
         """
 
-        def scan_fn(carry_state, x):
-            output, new_state = self.apply(params, carry_state, rng, x, **kwargs)
-            return new_state, output
-
-        final_state, outputs = jax.lax.scan(scan_fn, state, inputs)
+        def scan_fn(carry, x):
+            carry_state, carry_rng = carry
+            step_rng = None
+            if carry_rng is not None:
+                # A new random key for each element
+                carry_rng, step_rng = jax.random.split(carry_rng)
+            output, new_state = self.apply(params, carry_state, step_rng, x, **kwargs)
+            return (new_state, carry_rng), output
+
+        (final_state, _), outputs = jax.lax.scan(scan_fn, (state, rng), inputs)
         return outputs, final_state
 
 
-- 
2.43.0


From 9dd17956f04d739702375905f0add8a0a6b57421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 34/64] fix: streaming_scan accepts a random key, and
 parameters without state

---
 src/wax/flax/core/streaming_transforms.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index afc423f..4fe6a1d 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -680,12 +680,21 @@ def streaming_scan(
             if params is None or state is None:
                 # Initialize if needed
                 sample_input = jax.tree_util.tree_map(lambda x: x[0], inputs)
-                params, state = streaming_fn.init(rng or jax.random.PRNGKey(0), sample_input)
+                init_rng = jax.random.PRNGKey(0) if rng is None else rng
+                init_params, init_state = streaming_fn.init(init_rng, sample_input)
+                params = init_params if params is None else params
+                state = init_state if state is None else state
 
             # Create scan function that applies streaming function element by element
-            def scan_body(carry_state, x):
+            def scan_body(carry, x):
+                carry_state, carry_rng = carry
+                step_rng = None
+                if carry_rng is not None:
+                    # A new random key for each element
+                    carry_rng, step_rng = jax.random.split(carry_rng)
+
                 # Apply streaming function to single element
-                output, new_state = streaming_fn.apply(params, carry_state, rng, x)
+                output, new_state = streaming_fn.apply(params, carry_state, step_rng, x)
 
                 # Check if we should reset state (JAX-compatible)
                 if reset_on is not None:
@@ -700,10 +709,10 @@ def streaming_scan(
                             state,
                         )
 
-                return new_state, output
+                return (new_state, carry_rng), output
 
             # Apply scan
-            final_state, outputs = jax.lax.scan(scan_body, state, inputs)
+            (final_state, _), outputs = jax.lax.scan(scan_body, (state, rng), inputs)
             return outputs, final_state
 
         # Create a simple object with scan_apply method for compatibility
-- 
2.43.0


From 7b74117ac4bdd0f88f3e0a17db8a0de0c48baa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 35/64] fix: streaming state patterns can be constructed and
 used in decorators

---
 src/wax/flax/core/streaming_transforms.py | 54 +++--------------------
 1 file changed, 5 insertions(+), 49 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 4fe6a1d..d0c9a8f 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -73,20 +73,7 @@ class HierarchicalState(StreamingStatePattern):
     """
 
     modules: dict[str, nn.Module]
-    dependencies: dict[str, list[str]]  # Module dependency graph
-
-    def __init__(
-        self, modules: dict[str, nn.Module], dependencies: dict[str, list[str]] | None = None
-    ):
-        """Initialize hierarchical state manager.
-
-        Args:
-            modules: Dictionary mapping module names to module instances
-            dependencies: Optional dependency graph for execution order
-        """
-        super().__init__()
-        self.modules = modules
-        self.dependencies = dependencies or {}
+    dependencies: dict[str, list[str]] | None = None  # Module dependency graph
 
     def setup(self):
         """Register all modules for proper state management."""
@@ -115,7 +102,7 @@ class HierarchicalState(StreamingStatePattern):
         module_inputs = {}
 
         # Add dependencies from other modules
-        if module_name in self.dependencies:
+        if self.dependencies and module_name in self.dependencies:
             for dep in self.dependencies[module_name]:
                 if dep in computed_outputs:
                     module_inputs[dep] = computed_outputs[dep]
@@ -140,22 +127,7 @@ class ConditionalStateUpdate(StreamingStatePattern):
 
     module: nn.Module
     condition_fn: Callable[..., bool]
-    reset_on_condition: bool
-
-    def __init__(
-        self, module: nn.Module, condition_fn: Callable[..., bool], reset_on_condition: bool = False
-    ):
-        """Initialize conditional state updater.
-
-        Args:
-            module: The module to conditionally update
-            condition_fn: Function that determines when to update
-            reset_on_condition: Whether to reset state when condition is met
-        """
-        super().__init__()
-        self.module = module
-        self.condition_fn = condition_fn
-        self.reset_on_condition = reset_on_condition
+    reset_on_condition: bool = False
 
     def setup(self):
         """Register the wrapped module."""
@@ -194,24 +166,6 @@ class StreamingStateMachine(StreamingStatePattern):
     transitions: dict[str, dict[str, Callable[..., bool]]]
     initial_state: str
 
-    def __init__(
-        self,
-        states: dict[str, nn.Module],
-        transitions: dict[str, dict[str, Callable[..., bool]]],
-        initial_state: str,
-    ):
-        """Initialize streaming state machine.
-
-        Args:
-            states: Dictionary mapping state names to modules
-            transitions: Transition conditions between states
-            initial_state: Name of the initial state
-        """
-        super().__init__()
-        self.states = states
-        self.transitions = transitions
-        self.initial_state = initial_state
-
     def setup(self):
         """Register all state modules."""
         for name, module in self.states.items():
@@ -289,6 +243,7 @@ def conditional_update(
         def wrapper(*args, **kwargs):
             # Create a simple module that wraps the function
             class ConditionalModule(nn.Module):
+                @nn.compact
                 def __call__(self, *args, **kwargs):
                     return fn(*args, **kwargs)
 
@@ -328,6 +283,7 @@ def state_machine(
                 class StateModule(nn.Module):
                     fn: Callable = state_fn
 
+                    @nn.compact
                     def __call__(self, *args, **kwargs):
                         return self.fn(*args, **kwargs)
 
-- 
2.43.0


From 8a6cf308c32996996e7729d08e632dfb2c9c49b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 36/64] fix: the downsampled buffer is always given oldest
 first

---
 src/wax/flax/modules/compressed_buffer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index b43effa..7ae4756 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -67,6 +67,12 @@ from .ewma import EWMA
 CompressionStrategy = Literal["ewma", "quantile", "downsample", "sketching", "none"]
 
 
+def _read_buffer(buffer: Buffer) -> jnp.ndarray:
+    """Content of a buffer (oldest first), without adding an element to it."""
+    state = buffer.variables["state"]
+    return jnp.roll(state["buffer"], -(state["write_idx"] % buffer.maxlen), axis=0)
+
+
 class CompressedBuffer(nn.Module):
     """Buffer with compression for memory-efficient long sequence storage.
 
@@ -253,9 +259,7 @@ class CompressedBuffer(nn.Module):
             downsampled_data = cast(jnp.ndarray, self.downsampled_buffer(x))
         else:
             # Return current buffer state without update
-            downsampled_data = cast(
-                jnp.ndarray, self.downsampled_buffer.variables["state"]["buffer"]
-            )
+            downsampled_data = _read_buffer(self.downsampled_buffer)
 
         self.sample_counter.value = counter + 1
         return downsampled_data
-- 
2.43.0


From 02f13a30c1c581f0f917270a801afde807fbe0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 37/64] fix: quantiles are the ones of the values received, not
 of the fill values

---
 src/wax/flax/modules/compressed_buffer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index 7ae4756..b877b60 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -147,7 +147,9 @@ class CompressedBuffer(nn.Module):
         self.percentiles = jnp.array(percentiles)
 
         # Buffer for computing quantiles
-        self.quantile_buffer = Buffer(maxlen=min(self.maxlen, 1000), fill_value=self.fill_value)
+        self.quantile_buffer = Buffer(
+            maxlen=min(self.maxlen, 1000), fill_value=self.fill_value, return_state=True
+        )
 
         # Store quantile estimates
         num_quantiles = len(percentiles)
@@ -220,13 +222,15 @@ class CompressedBuffer(nn.Module):
     def _quantile_update(self, x: jnp.ndarray) -> jnp.ndarray:
         """Update quantile-based compression."""
         # Add to quantile buffer
-        # The buffer is built with return_state left at its default (False).
-        buffered_values = cast(jnp.ndarray, self.quantile_buffer(x))
+        buffered_values, buffer_state = self.quantile_buffer(x)
 
         # Update quantiles periodically
         update_count = self.update_count.value
         if update_count % 10 == 0:  # Update every 10 samples
             # Compute quantiles from buffer
+            # Only the values received so far, which are the last ones of the buffer
+            start = buffered_values.shape[0] - buffer_state.len_buffer
+            buffered_values = buffered_values[start:]
             valid_mask = ~jnp.isnan(buffered_values)
             if jnp.sum(valid_mask) > 0:
                 valid_values = buffered_values[valid_mask]
-- 
2.43.0


From 6e9505be481804011f3f7c591cb57a3eb5c3eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 38/64] fix: levels of the HierarchicalBuffer keep their
 content between their updates

---
 src/wax/flax/modules/compressed_buffer.py | 25 +++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index b877b60..f839a3b 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -206,6 +206,18 @@ class CompressedBuffer(nn.Module):
         elif self.compression == "none":
             return self._no_compression_update(x)
 
+    def current(self) -> jnp.ndarray:
+        """Current content, without adding an element."""
+        if self.compression == "ewma":
+            return jnp.asarray(self.compressed_state.value)
+        elif self.compression == "quantile":
+            return self.quantile_estimates.value
+        elif self.compression == "downsample":
+            return _read_buffer(self.downsampled_buffer)
+        elif self.compression == "sketching":
+            return jnp.min(self.sketch.value, axis=0)
+        return _read_buffer(self.uncompressed_buffer)
+
     def _ewma_update(self, x: jnp.ndarray) -> jnp.ndarray:
         """Update EWMA compressed representation."""
         # Update EWMA
@@ -406,12 +418,7 @@ class HierarchicalBuffer(nn.Module):
             medium_data = self.medium_buffer(x)
         else:
             # Return current medium buffer state
-            # Step 0 always updates (0 % 5 == 0), so the stored state is an array
-            # by the time this branch is reached, never the initial Python scalar.
-            if hasattr(self.medium_buffer, "compressed_state"):
-                medium_data = cast(jnp.ndarray, self.medium_buffer.compressed_state.value)
-            else:
-                medium_data = jnp.array(0.0)
+            medium_data = self.medium_buffer.current()
 
         # Update long buffer every many steps
         long_counter = self.long_update_counter.value
@@ -419,11 +426,7 @@ class HierarchicalBuffer(nn.Module):
             long_data = self.long_buffer(x)
         else:
             # Return current long buffer state
-            # Same reasoning as the medium level: step 0 always updates.
-            if hasattr(self.long_buffer, "compressed_state"):
-                long_data = cast(jnp.ndarray, self.long_buffer.compressed_state.value)
-            else:
-                long_data = jnp.array(0.0)
+            long_data = self.long_buffer.current()
 
         # Update counters
         self.medium_update_counter.value = medium_counter + 1
-- 
2.43.0


From 5fce1d841ca2442e660c8481b94c66f75682e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 39/64] fix: Flax optimisers work without a predicate of the
 parameters

---
 src/wax/flax/modules/online_optimizer.py | 13 ++++++-------
 src/wax/flax/modules/update_params.py    | 17 +++++++----------
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index b09e228..40530fc 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -22,6 +22,8 @@ import jax
 import jax.numpy as jnp
 from jax.tree_util import tree_map
 
+from wax.predicate import pass_all_predicate
+
 from .optax_optimizer import OptaxOptimizer
 
 
@@ -51,12 +53,6 @@ class OnlineOptimizer(nn.Module):
 
     def setup(self):
         """Setup the OnlineOptimizer module."""
-        # Set default predicate if none provided
-        if self.params_predicate is None:
-            from wax.predicate import pass_all_predicate
-
-            self.params_predicate = pass_all_predicate
-
         # Wrap optimizer if it's not already an OptaxOptimizer
         if not isinstance(self.opt, OptaxOptimizer):
             if hasattr(self.opt, "init") and hasattr(self.opt, "update"):
@@ -123,6 +119,9 @@ class OnlineOptimizer(nn.Module):
             params = current_vars
             state = {}
 
+        # Every parameter is trainable if there is no predicate
+        params_predicate = self.params_predicate or pass_all_predicate
+
         # Partition parameters into trainable and non-trainable
         def partition_params(params):
             trainable = {}
@@ -134,7 +133,7 @@ class OnlineOptimizer(nn.Module):
 
             for key, value in flat_params.items():
                 path = key.split("/")
-                if self.params_predicate(path[0] if path else "", path[-1] if path else "", value):
+                if params_predicate(path[0] if path else "", path[-1] if path else "", value):
                     trainable[key] = value
                 else:
                     non_trainable[key] = value
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 7d39d2e..a63d086 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -20,6 +20,8 @@ import flax.linen as nn
 import jax
 from flax.traverse_util import flatten_dict, unflatten_dict
 
+from wax.predicate import pass_all_predicate
+
 
 class UpdateParams(nn.Module):
     """Flax-based module for separating trainable from non-trainable parameters.
@@ -31,14 +33,6 @@ class UpdateParams(nn.Module):
     fun: Callable  # Function to wrap
     predicate: Callable | None = None  # Predicate to determine trainable params
 
-    def setup(self):
-        """Setup the UpdateParams module."""
-        # Set default predicate if none provided
-        if self.predicate is None:
-            from wax.predicate import pass_all_predicate
-
-            self.predicate = pass_all_predicate
-
     @nn.compact
     def __call__(self, *args, **kwargs) -> Any:
         """Apply function with parameter partitioning.
@@ -78,9 +72,12 @@ class UpdateParams(nn.Module):
         Returns:
             Tuple of (trainable_params, non_trainable_params)
         """
+        # Every parameter is trainable if there is no predicate
+        predicate = self.predicate or pass_all_predicate
+
         if not isinstance(params, dict):
             # If params is not a dict, treat as single parameter
-            if self.predicate("", "", params):
+            if predicate("", "", params):
                 return params, {}
             else:
                 return {}, params
@@ -98,7 +95,7 @@ class UpdateParams(nn.Module):
             param_name = path_parts[-1] if len(path_parts) > 0 else ""
 
             # Apply predicate to determine if parameter is trainable
-            if self.predicate(module_name, param_name, value):
+            if predicate(module_name, param_name, value):
                 trainable[key] = value
             else:
                 non_trainable[key] = value
-- 
2.43.0


From 94dea7465d1d39a8629ee3bb7c5cbc021d51add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 40/64] fix: Flax optimisers keep all the parameters when they
 are partitioned

---
 src/wax/flax/modules/online_optimizer.py | 28 ++++++++++--------------
 src/wax/flax/modules/update_params.py    |  6 ++---
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index 40530fc..296b20b 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -20,6 +20,7 @@ from typing import Any
 import flax.linen as nn
 import jax
 import jax.numpy as jnp
+from flax.traverse_util import flatten_dict, unflatten_dict
 from jax.tree_util import tree_map
 
 from wax.predicate import pass_all_predicate
@@ -127,27 +128,24 @@ class OnlineOptimizer(nn.Module):
             trainable = {}
             non_trainable = {}
 
-            from flax.traverse_util import flatten_dict, unflatten_dict
-
-            flat_params = flatten_dict(params, sep="/")
-
-            for key, value in flat_params.items():
-                path = key.split("/")
-                if params_predicate(path[0] if path else "", path[-1] if path else "", value):
-                    trainable[key] = value
+            for path, value in flatten_dict(params).items():
+                if params_predicate(path[0], path[-1], value):
+                    trainable[path] = value
                 else:
-                    non_trainable[key] = value
+                    non_trainable[path] = value
+
+            return unflatten_dict(trainable), unflatten_dict(non_trainable)
 
-            return unflatten_dict(trainable, sep="/"), unflatten_dict(non_trainable, sep="/")
+        def merge_params(trainable_params):
+            merged = {**flatten_dict(non_trainable_params), **flatten_dict(trainable_params)}
+            return unflatten_dict(merged)
 
         trainable_params, non_trainable_params = partition_params(params)
 
         # Define loss function for gradient computation
         def loss_fn(trainable_params):
             # Merge trainable and non-trainable params
-            merged_params = {}
-            merged_params.update(non_trainable_params)
-            merged_params.update(trainable_params)
+            merged_params = merge_params(trainable_params)
 
             # Compute model output
             result = model_fn(merged_params, state, *args, **kwargs)
@@ -183,9 +181,7 @@ class OnlineOptimizer(nn.Module):
             updated_trainable_params = self.project_params(updated_trainable_params)
 
         # Merge back updated parameters
-        updated_params = {}
-        updated_params.update(non_trainable_params)
-        updated_params.update(updated_trainable_params)
+        updated_params = merge_params(updated_trainable_params)
 
         # Update model variables
         if "params" in current_vars:
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index a63d086..8d85017 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -127,10 +127,8 @@ class UpdateParams(nn.Module):
 
         # For dictionaries, merge recursively
         if isinstance(trainable_params, dict) and isinstance(non_trainable_params, dict):
-            result = {}
-            result.update(non_trainable_params)
-            result.update(trainable_params)
-            return result
+            merged = {**flatten_dict(non_trainable_params), **flatten_dict(trainable_params)}
+            return unflatten_dict(merged)
 
         # For other types, prefer trainable parameters
         return trainable_params
-- 
2.43.0


From ea49cea4c34015d56d0b37e891f2ef84110bf8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 41/64] fix: Flax OnlineOptimizer updates the state of its
 model

---
 src/wax/flax/modules/online_optimizer.py | 52 +++++++++++-------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index 296b20b..bde4915 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -80,35 +80,29 @@ class OnlineOptimizer(nn.Module):
         # name ("params", "state", ...); empty until the model has been initialized.
         model_vars: nn.Variable[dict[str, Any]] = self.variable("model_vars", "vars", lambda: {})
 
-        # Check if model is a TransformedWithState or regular function
-        if hasattr(self.model, "init") and hasattr(self.model, "apply"):
-            # It's a TransformedWithState
-            if not model_vars.value:
-                # Initialize model
-                dummy_rng = jax.random.PRNGKey(0)
-                init_vars = self.model.init(dummy_rng, *args, **kwargs)
-                model_vars.value = init_vars
-
-            def model_fn(params, state, *args, **kwargs):
-                vars_dict = {"params": params, **state}
-                result = self.model.apply(vars_dict, *args, **kwargs)
-                return result
-
-        else:
+        # Initialize a module, a TransformedWithState or a regular function
+        model = self.model
+        if not (hasattr(model, "init") and hasattr(model, "apply")):
             # It's a regular function - need to transform it
             import haiku as hk
 
-            @hk.transform_with_state
-            def wrapped_model(*args, **kwargs):
-                return self.model(*args, **kwargs)
+            model = hk.transform_with_state(model)
 
-            if not model_vars.value:
-                dummy_rng = jax.random.PRNGKey(0)
-                params, state = wrapped_model.init(dummy_rng, *args, **kwargs)
-                model_vars.value = {"params": params, "state": state}
+        if not model_vars.value:
+            init_vars = model.init(jax.random.PRNGKey(0), *args, **kwargs)
+            if isinstance(init_vars, tuple):
+                init_params, init_state = init_vars
+                init_vars = {"params": init_params, "state": init_state}
+            model_vars.value = init_vars
 
-            def model_fn(params, state, *args, **kwargs):
-                return wrapped_model.apply(params, state, jax.random.PRNGKey(0), *args, **kwargs)
+        def model_fn(params, state, *args, **kwargs):
+            if isinstance(model, nn.Module):
+                return model.apply(
+                    {"params": params, **state}, *args, mutable=list(state), **kwargs
+                )
+            rng = jax.random.PRNGKey(0)
+            result, new_state = model.apply(params, state["state"], rng, *args, **kwargs)
+            return result, {"state": new_state}
 
         # Extract current parameters and state
         current_vars = model_vars.value
@@ -148,7 +142,7 @@ class OnlineOptimizer(nn.Module):
             merged_params = merge_params(trainable_params)
 
             # Compute model output
-            result = model_fn(merged_params, state, *args, **kwargs)
+            result, new_state = model_fn(merged_params, state, *args, **kwargs)
 
             # Handle different return types
             if isinstance(result, tuple):
@@ -165,10 +159,12 @@ class OnlineOptimizer(nn.Module):
             if self.regularize_loss is not None:
                 loss = self.regularize_loss(loss, merged_params, aux)
 
-            return loss, aux
+            return loss, (aux, new_state)
 
         # Compute gradients
-        (loss, aux), grads = jax.value_and_grad(loss_fn, has_aux=True)(trainable_params)
+        (loss, (aux, new_state)), grads = jax.value_and_grad(loss_fn, has_aux=True)(
+            trainable_params
+        )
 
         # Handle NaN gradients
         grads = tree_map(lambda x: jnp.nan_to_num(x), grads)
@@ -185,7 +181,7 @@ class OnlineOptimizer(nn.Module):
 
         # Update model variables
         if "params" in current_vars:
-            model_vars.value = {"params": updated_params, **state}
+            model_vars.value = {"params": updated_params, **new_state}
         else:
             model_vars.value = updated_params
 
-- 
2.43.0


From 69873b180bdda7096d8fdf80e91e37a53be595a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:54 +0000
Subject: [PATCH 42/64] fix: Flax online learners train the parameters of their
 model

---
 .../flax/modules/online_supervised_learner.py | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/wax/flax/modules/online_supervised_learner.py b/src/wax/flax/modules/online_supervised_learner.py
index 38651a7..72aa878 100644
--- a/src/wax/flax/modules/online_supervised_learner.py
+++ b/src/wax/flax/modules/online_supervised_learner.py
@@ -22,6 +22,18 @@ import jax.numpy as jnp
 from .func_optimizer import FuncOptimizer
 
 
+class _ModelLoss(nn.Module):
+    """Loss and predictions of a model, with the parameters of the model."""
+
+    model: Callable
+    loss_fn: Callable
+
+    @nn.compact
+    def __call__(self, x: jnp.ndarray, y: jnp.ndarray) -> tuple[jnp.ndarray, Any]:
+        predictions = self.model(x)
+        return self.loss_fn(predictions, y), predictions
+
+
 class OnlineSupervisedLearner(nn.Module):
     """Flax-based online supervised learning module.
 
@@ -36,22 +48,9 @@ class OnlineSupervisedLearner(nn.Module):
 
     def setup(self):
         """Setup the OnlineSupervisedLearner module."""
-
-        # Create a combined function that applies model and computes loss
-        def model_loss_fn(x, y):
-            """Combined model and loss function."""
-            # Apply model to get predictions
-            predictions = self.model(x)
-
-            # Compute loss
-            loss = self.loss_fn(predictions, y)
-
-            # Return loss and predictions as auxiliary data
-            return loss, predictions
-
         # Create function optimizer
         self.func_optimizer = FuncOptimizer(
-            fun=model_loss_fn,
+            fun=_ModelLoss(model=self.model, loss_fn=self.loss_fn),
             opt=self.opt,
             has_aux=True,  # Returns predictions as auxiliary data
             params_predicate=self.params_predicate,
-- 
2.43.0


From d352f3fd66fe2d01ab4d3de25e2197dd980c45b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 43/64] fix: a streaming transform has the name of its function

---
 src/wax/flax/core/streaming_transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index d0c9a8f..a94f728 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -322,6 +322,7 @@ class StreamingTransform:
             scan_mode: Whether to use scan semantics for sequence processing
         """
         self.fn = fn
+        self.__name__ = getattr(fn, "__name__", type(fn).__name__)
         self.auto_cache = auto_cache
         self.event_driven = event_driven
         self.scan_mode = scan_mode
-- 
2.43.0


From 340ebd8caf1f455d6ec25d63f456533a74701fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:49 +0000
Subject: [PATCH 44/64] fix: the debugger keeps copies of numpy arrays and
 named tuples

---
 src/wax/flax/debug/debugger.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 85de486..05ff4d9 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -41,6 +41,7 @@ from typing import Any, Protocol
 
 import jax
 import jax.numpy as jnp
+import numpy as np
 
 
 class DebugCondition(Protocol):
@@ -131,10 +132,10 @@ class DebugHook:
     def _deep_copy_state(self, state: Any) -> Any:
         """Create a deep copy of state for debugging."""
         try:
-            if hasattr(state, "copy"):
+            if isinstance(state, (dict, list, tuple)):
+                return self._safe_copy(state)
+            elif hasattr(state, "copy"):
                 return state.copy()
-            elif isinstance(state, dict):
-                return {k: self._safe_copy(v) for k, v in state.items()}
             else:
                 return state
         except Exception:
@@ -145,6 +146,10 @@ class DebugHook:
         try:
             if isinstance(data, jnp.ndarray):
                 return jnp.copy(data)
+            elif isinstance(data, np.ndarray):
+                return data.copy()
+            elif isinstance(data, tuple) and hasattr(data, "_fields"):
+                return type(data)(*(self._safe_copy(item) for item in data))
             elif isinstance(data, (list, tuple)):
                 return type(data)(self._safe_copy(item) for item in data)
             elif isinstance(data, dict):
@@ -327,6 +332,10 @@ class StreamingDebugger:
         try:
             if isinstance(tree, jnp.ndarray):
                 return jnp.copy(tree)
+            elif isinstance(tree, np.ndarray):
+                return tree.copy()
+            elif isinstance(tree, tuple) and hasattr(tree, "_fields"):
+                return type(tree)(*(self._safe_copy_tree(item) for item in tree))
             elif isinstance(tree, dict):
                 return {k: self._safe_copy_tree(v) for k, v in tree.items()}
             elif isinstance(tree, (list, tuple)):
-- 
2.43.0


From 3fa3cfe19befaa98a00dcf36360e56ffcdeb798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:49 +0000
Subject: [PATCH 45/64] fix: a profiled call is recorded once, with its time
 and sizes

---
 src/wax/flax/debug/profiler.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index f229222..417497c 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -480,6 +480,8 @@ class ProfilerContext:
         self.module_name = module_name
         self.start_time = None
         self.jit_compilation = False
+        self.input_data: Any = None
+        self.output_data: Any = None
 
     def __enter__(self):
         self.start_time = time.time()
@@ -491,6 +493,8 @@ class ProfilerContext:
             self.profiler.record_metrics(
                 module_name=self.module_name,
                 execution_time=execution_time,
+                input_data=self.input_data,
+                output_data=self.output_data,
                 jit_compilation=self.jit_compilation,
             )
 
@@ -543,21 +547,15 @@ def profile_streaming(
                 def profile_apply(params, state, rng, *args, **kwargs):
                     with profiler.start_step(actual_module_name) as ctx:
                         # Track input data if detailed tracking enabled
-                        input_data = args[0] if args and enable_detailed_tracking else None
+                        if args and enable_detailed_tracking:
+                            ctx.input_data = args[0]
 
                         # Execute function
                         result = original_apply(params, state, rng, *args, **kwargs)
 
                         # Track output data if detailed tracking enabled
-                        output_data = result if enable_detailed_tracking else None
-
-                        # Record additional context
-                        ctx.profiler.record_metrics(
-                            module_name=actual_module_name,
-                            execution_time=0,  # Will be set by context manager
-                            input_data=input_data,
-                            output_data=output_data,
-                        )
+                        if enable_detailed_tracking:
+                            ctx.output_data = result
 
                         return result
 
-- 
2.43.0


From a01601b0d2d0a4661347ea9d5878554b4a137227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:49 +0000
Subject: [PATCH 46/64] fix: rate of growth of the memory per step

---
 src/wax/flax/debug/memory_tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 2ec8a9d..f3473e6 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -402,7 +402,7 @@ class MemoryTracker:
 
             if denominator > 0:
                 slope = numerator / denominator  # MB per snapshot
-                growth_rate = slope * self.snapshot_interval  # MB per step
+                growth_rate = slope / self.snapshot_interval  # MB per step
 
                 if growth_rate > self.leak_detection_threshold_mb / 100:  # Threshold per step
                     total_growth = memory_values[-1] - memory_values[0]
-- 
2.43.0


From ef62920e6c6a897cd17bb4e69e7999805356f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 47/64] fix: size of numpy arrays in the profiler

---
 src/wax/flax/debug/profiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index 417497c..5eec68c 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -43,6 +43,7 @@ from typing import Any
 
 import jax
 import jax.numpy as jnp
+import numpy as np
 import psutil
 
 
@@ -266,7 +267,7 @@ class StreamingProfiler:
         try:
             if data is None:
                 return 0
-            elif isinstance(data, jnp.ndarray):
+            elif isinstance(data, (jnp.ndarray, np.ndarray)):
                 return data.nbytes
             elif isinstance(data, (list, tuple)):
                 return sum(self._calculate_data_size(item) for item in data)
-- 
2.43.0


From c811a9e52c8373b15df36483916254c67edd9e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 48/64] fix: memory of buffers in the states of transforms

---
 src/wax/flax/debug/memory_tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index f3473e6..5643897 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -40,7 +40,7 @@ import time
 import tracemalloc
 import weakref
 from collections import defaultdict, deque
-from collections.abc import Callable
+from collections.abc import Callable, Mapping
 from dataclasses import dataclass
 from typing import Any
 
@@ -323,7 +323,7 @@ class MemoryTracker:
         buffers_mb = 0.0
 
         try:
-            if isinstance(state, dict):
+            if isinstance(state, Mapping):
                 # Handle Flax variable collections
                 if "params" in state:
                     parameters_mb = self._calculate_tree_memory(state["params"])
-- 
2.43.0


From 6467bf4cb679d9b3459f7eb2228017377afc49ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:52 +0000
Subject: [PATCH 49/64] fix: performance report of a session without data

---
 src/wax/flax/debug/profiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index 5eec68c..8504edb 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -574,6 +574,9 @@ def create_performance_report(profile_result: ProfileResult) -> str:
     """Create a human-readable performance report."""
     summary = profile_result.get_summary()
 
+    if "error" in summary:
+        return f"Performance Report Error: {summary['error']}"
+
     report = []
     report.append("🔍 WAX-ML Streaming Performance Report")
     report.append("=" * 50)
-- 
2.43.0


From a603b6ddb1246f1cb9251e381b455244b3bf8e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 50/64] fix: the data flow tracker only records the kinds of
 data it tracks

---
 src/wax/flax/visualization/data_flow_visualizer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 26becc9..e27ebb8 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -121,6 +121,15 @@ class DataFlowTracker:
             value: The actual data value
             metadata: Optional metadata about the data
         """
+        tracked = {
+            "input": self.track_inputs,
+            "output": self.track_outputs,
+            "state": self.track_states,
+            "gradient": self.track_gradients,
+        }
+        if not tracked.get(data_type, True):
+            return
+
         data_point = DataPoint(
             timestamp=time.time() - self.start_time,
             step=self.step_count,
-- 
2.43.0


From 915dab4a0cfa46f46ebc004bd96916184c8573bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 51/64] fix: no recent data when no point is asked for

---
 src/wax/flax/visualization/data_flow_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index e27ebb8..281deab 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -166,7 +166,7 @@ class DataFlowTracker:
 
     def get_recent_data(self, n_points: int = 100) -> list[DataPoint]:
         """Get the most recent n data points."""
-        return list(self.data_history)[-n_points:]
+        return list(self.data_history)[-n_points:] if n_points > 0 else []
 
     def clear_history(self) -> None:
         """Clear all tracking history."""
-- 
2.43.0


From 7e1211132cc4d5d2aa59ed65b2c0bb28997647fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 52/64] fix: decide under the lock whether debugger, profiler
 and memory tracker are enabled

The check was made before taking the lock, so that a step which another thread
had already disabled was recorded, also after the history had been cleared.
---
 src/wax/flax/debug/debugger.py       | 6 +++---
 src/wax/flax/debug/memory_tracker.py | 6 +++---
 src/wax/flax/debug/profiler.py       | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 05ff4d9..db99e6e 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -273,10 +273,10 @@ class StreamingDebugger:
         execution_time: float | None = None,
     ) -> None:
         """Process a debugging step."""
-        if not self.enabled:
-            return
-
         with self._lock:
+            if not self.enabled:
+                return
+
             self.current_step += 1
 
             # Track state history
diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 5643897..646c753 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -211,10 +211,10 @@ class MemoryTracker:
         self, module_name: str = "unknown", state: Any = None, force: bool = False
     ) -> MemorySnapshot:
         """Take a memory usage snapshot."""
-        if not self.enabled:
-            return None
-
         with self._lock:
+            if not self.enabled:
+                return None
+
             self.step_count += 1
 
             # Check if we should take a snapshot
diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index 8504edb..f493e22 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -215,10 +215,10 @@ class StreamingProfiler:
         jit_compilation: bool = False,
     ) -> None:
         """Record performance metrics for a computation step."""
-        if not self.enabled:
-            return
-
         with self._lock:
+            if not self.enabled:
+                return
+
             self.step_count += 1
 
             # Gather system metrics
-- 
2.43.0


From b8d84dcf71918dbcbd03fc3a28fac4d6d06f9b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 53/64] fix: results of the profiler keep their bottlenecks

ProfileResult shared the list of bottlenecks with the profiler: they changed with
later steps and vanished with reset().
---
 src/wax/flax/debug/profiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index f493e22..1700abc 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -436,7 +436,7 @@ class StreamingProfiler:
                 memory_stats = {}
 
             # Collect bottlenecks
-            bottlenecks = getattr(self, "_bottlenecks", [])
+            bottlenecks = list(getattr(self, "_bottlenecks", []))
 
             # Generate recommendations
             recommendations = self.generate_optimization_recommendations()
-- 
2.43.0


From 62b24a64e34e0a44cf9b3cccf4c2b8daae346284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 54/64] fix: exported performance data does not change with
 later steps

---
 src/wax/flax/debug/debugger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index db99e6e..ab7963d 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -412,7 +412,9 @@ class StreamingDebugger:
                         ]
                         for name, hook in self.hooks.items()
                     },
-                    "performance_data": dict(self.performance_data),
+                    "performance_data": {
+                        name: list(values) for name, values in self.performance_data.items()
+                    },
                 }
             else:
                 raise ValueError(f"Unsupported export format: {format}")
-- 
2.43.0


From 9ed4190fde8ff621c2f3b9d199a85ce9741cef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 55/64] fix: memory report takes its summary and its leaks at
 the same time

---
 src/wax/flax/debug/memory_tracker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 646c753..9f04298 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -557,7 +557,9 @@ class MemoryTracker:
 
     def generate_memory_report(self) -> str:
         """Generate a comprehensive memory usage report."""
-        summary = self.get_memory_summary()
+        with self._lock:
+            summary = self.get_memory_summary()
+            detected_leaks = list(self.detected_leaks)
 
         if "error" in summary:
             return f"Memory Report Error: {summary['error']}"
@@ -601,7 +603,7 @@ class MemoryTracker:
             report.append(f"  High Priority: {leaks['high_leaks']}")
 
             # Show details of critical leaks
-            critical_leaks = [leak for leak in self.detected_leaks if leak.severity == "critical"]
+            critical_leaks = [leak for leak in detected_leaks if leak.severity == "critical"]
             for leak in critical_leaks[:3]:  # Show up to 3 critical leaks
                 report.append(f"\n  🔴 Critical Leak ({leak.leak_type}):")
                 report.append(f"     Total Leaked: {leak.total_leaked_mb:.1f} MB")
-- 
2.43.0


From 6ecd4df54eefbeaa2edb7e018841533009a49feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 56/64] fix: buffers can be updated from states restored as
 numpy arrays

States read back from a checkpoint (flax.serialization) hold numpy arrays, which
have no .at.
---
 src/wax/flax/core/advanced_state_patterns.py | 2 +-
 src/wax/flax/modules/buffer.py               | 2 +-
 src/wax/flax/modules/compressed_buffer.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/core/advanced_state_patterns.py b/src/wax/flax/core/advanced_state_patterns.py
index d769df6..08a184a 100644
--- a/src/wax/flax/core/advanced_state_patterns.py
+++ b/src/wax/flax/core/advanced_state_patterns.py
@@ -280,7 +280,7 @@ class AttentionBasedStateSelector(nn.Module):
 
         # Update buffer
         buffer = self.state_buffer.value
-        buffer = buffer.at[pointer].set(state_embedding)
+        buffer = jnp.asarray(buffer).at[pointer].set(state_embedding)
         self.state_buffer.value = buffer
 
         # Update pointer and size
diff --git a/src/wax/flax/modules/buffer.py b/src/wax/flax/modules/buffer.py
index 643062f..d2ebfff 100644
--- a/src/wax/flax/modules/buffer.py
+++ b/src/wax/flax/modules/buffer.py
@@ -76,7 +76,7 @@ class Buffer(nn.Module):
 
         # O(1) write at the current position
         write_pos = current_write_idx % self.maxlen
-        updated_buffer = current_buffer.at[write_pos].set(input)
+        updated_buffer = jnp.asarray(current_buffer).at[write_pos].set(input)
 
         updated_len = jnp.minimum(current_len + 1, self.maxlen)
         new_write_idx = current_write_idx + 1
diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index f839a3b..ad03a7d 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -293,7 +293,7 @@ class CompressedBuffer(nn.Module):
         for i in range(self.num_hashes):
             a, b = hash_params[i]
             bucket = (a * x_int + b) % self.num_buckets
-            sketch = sketch.at[i, bucket].add(1)
+            sketch = jnp.asarray(sketch).at[i, bucket].add(1)
 
         self.sketch.value = sketch
 
-- 
2.43.0


From a7be95802089256f8cf2b8f69453f61f9a9161d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:16 +0000
Subject: [PATCH 57/64] fix: options of the ewm accessor may be given by
 position

---
 src/wax/accessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index a7d07bf..4d655d2 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -316,7 +316,7 @@ class StreamSeries(Stream):
 
 class WaxAccessor:
     def ewm(self, *args, **kwargs):
-        return ExponentialMovingWindow(*args, accessor=self, **kwargs)
+        return ExponentialMovingWindow(self, *args, **kwargs)
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From f7c633bd089c1c91ac1dfbb319fec526031a2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:47 +0000
Subject: [PATCH 58/64] fix: Flax MaskStd centers the data along any axis

---
 src/wax/flax/modules/mask_std.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/wax/flax/modules/mask_std.py b/src/wax/flax/modules/mask_std.py
index 967b86b..e71c27a 100644
--- a/src/wax/flax/modules/mask_std.py
+++ b/src/wax/flax/modules/mask_std.py
@@ -70,10 +70,7 @@ class MaskStd(nn.Module):
                 mean = x_masked.sum(axis=self.axis) / count
                 # Broadcast mean back to original shape for subtraction
                 if self.axis is not None:
-                    if self.axis == 0:
-                        mean = mean[None, ...] if x.ndim > 1 else mean
-                    elif self.axis == 1:
-                        mean = mean[..., None] if x.ndim > 1 else mean
+                    mean = jnp.expand_dims(mean, self.axis)
                 diff = x - mean
 
                 # Re-mask the differences
-- 
2.43.0


From 0aa7feec5092336cbda03d86659e5fd2b1098058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:22 +0000
Subject: [PATCH 59/64] fix: gradients of EWMVar are not nan when observations
 are missing

---
 src/wax/flax/modules/ewmvar.py | 9 ++++++---
 src/wax/modules/ewmvar.py      | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/wax/flax/modules/ewmvar.py b/src/wax/flax/modules/ewmvar.py
index 5da9b89..b30a536 100644
--- a/src/wax/flax/modules/ewmvar.py
+++ b/src/wax/flax/modules/ewmvar.py
@@ -88,16 +88,19 @@ class EWMVar(nn.Module):
         updated_nobs = jnp.where(mask, current_nobs + 1, current_nobs)
 
         # Alpha adjustment scheme
+        # (before the first observation, alpha is not used but its gradient must not be nan)
+        count = jnp.maximum(updated_nobs, 1.0)
         if self.adjust == "linear":
             tscale = 1.0 / alpha
-            tscale = jnp.where(updated_nobs < tscale, updated_nobs, tscale)
+            tscale = jnp.where(count < tscale, count, tscale)
             alpha = jnp.where(tscale > 0, 1.0 / tscale, jnp.nan)
         elif self.adjust:
             # Exponential scheme (as in pandas)
-            alpha = alpha / (1.0 - (1.0 - alpha) ** updated_nobs)
+            alpha = alpha / (1.0 - (1.0 - alpha) ** count)
 
         # Incremental variance update using Finch's formula
-        diff = x - updated_mean
+        # fillna by zero to avoid nans in gradient computations
+        diff = jnp.where(mask, x - updated_mean, 0.0)
         incr = alpha * diff
 
         # Update state
diff --git a/src/wax/modules/ewmvar.py b/src/wax/modules/ewmvar.py
index c00ec1f..dbe0924 100644
--- a/src/wax/modules/ewmvar.py
+++ b/src/wax/modules/ewmvar.py
@@ -106,15 +106,18 @@ class EWMVar(hk.Module):
         nobs = jnp.where(mask, nobs + 1, nobs)
 
         # alpha adjustement scheme
+        # (before the first observation, alpha is not used but its gradient must not be nan)
+        count = jnp.maximum(nobs, 1.0)
         if self.adjust == "linear":
             tscale = 1.0 / alpha
-            tscale = jnp.where(nobs < tscale, nobs, tscale)
+            tscale = jnp.where(count < tscale, count, tscale)
             alpha = jnp.where(tscale > 0, 1.0 / tscale, jnp.nan)
         elif self.adjust:
             # exponential scheme (as in pandas)
-            alpha = alpha / (1.0 - (1.0 - alpha) ** (nobs))
+            alpha = alpha / (1.0 - (1.0 - alpha) ** count)
 
-        diff = x - mean
+        # fillna by zero to avoid nans in gradient computations
+        diff = jnp.where(mask, x - mean, 0.0)
         incr = alpha * diff
 
         # update state
-- 
2.43.0


From ffd3dbafd0b57d9ac1bd23b35a2e2c6ac893970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:22 +0000
Subject: [PATCH 60/64] fix: gradients of PctChange are not nan when
 observations are missing

---
 src/wax/flax/modules/pct_change.py | 5 ++++-
 src/wax/modules/pct_change.py      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/modules/pct_change.py b/src/wax/flax/modules/pct_change.py
index 541246e..e4e2d34 100644
--- a/src/wax/flax/modules/pct_change.py
+++ b/src/wax/flax/modules/pct_change.py
@@ -59,7 +59,10 @@ class PctChange(nn.Module):
             previous_x = self.lag(x)
 
         # Compute percentage change: (current / previous) - 1.0
-        pct_change = x / previous_x - 1.0
+        # (missing values are filled before the division to avoid nans in gradient computations)
+        valid = ~(jnp.isnan(x) | jnp.isnan(previous_x))
+        ratio = jnp.where(valid, x, 1.0) / jnp.where(valid, previous_x, 1.0)
+        pct_change = jnp.where(valid, ratio - 1.0, jnp.nan)
 
         # Handle special case: if current is NaN but previous is valid,
         # return 0.0 (pandas-compatible behavior when fillna_zero=True)
diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 11259fb..b681d34 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -55,7 +55,10 @@ class PctChange(hk.Module):
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
             previous_x = Lag(self.periods)(x)
-        pct_change = x / previous_x - 1.0
+        # (missing values are filled before the division to avoid nans in gradient computations)
+        valid = ~(jnp.isnan(x) | jnp.isnan(previous_x))
+        ratio = jnp.where(valid, x, 1.0) / jnp.where(valid, previous_x, 1.0)
+        pct_change = jnp.where(valid, ratio - 1.0, jnp.nan)
         if self.fillna_zero:
             pct_change = jnp.where(jnp.isnan(x) & ~jnp.isnan(previous_x), 0.0, pct_change)
         return pct_change
-- 
2.43.0


From f579ee4b407928a0758717dc486c684447ab6b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:22 +0000
Subject: [PATCH 61/64] fix: gradients of EWMCov are not nan when observations
 are missing

---
 src/wax/flax/modules/ewmcov.py | 15 +++++++++++++--
 src/wax/modules/ewmcov.py      | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/wax/flax/modules/ewmcov.py b/src/wax/flax/modules/ewmcov.py
index 33d6fae..a99a621 100644
--- a/src/wax/flax/modules/ewmcov.py
+++ b/src/wax/flax/modules/ewmcov.py
@@ -21,6 +21,17 @@ import jax.numpy as jnp
 from .ewma import EWMA
 
 
+def _outer(x, y):
+    """Outer product, missing where one of the factors is missing.
+
+    Missing values are filled before the product to avoid nans in gradient computations."""
+    missing_x, missing_y = jnp.isnan(jnp.ravel(x)), jnp.isnan(jnp.ravel(y))
+    product = jnp.outer(
+        jnp.where(missing_x, 0, jnp.ravel(x)), jnp.where(missing_y, 0, jnp.ravel(y))
+    )
+    return jnp.where(missing_x[:, None] | missing_y[None, :], jnp.nan, product)
+
+
 class EWMCov(nn.Module):
     """Flax-based exponentially weighted moving covariance module.
 
@@ -97,7 +108,7 @@ class EWMCov(nn.Module):
         y = jnp.asarray(y)
 
         # Compute outer product for XY term
-        xy = jnp.outer(x, y)
+        xy = _outer(x, y)
 
         # Compute exponentially weighted mean of XY
         mean_xy = self.mean_xy(xy)
@@ -111,7 +122,7 @@ class EWMCov(nn.Module):
             mean_y = self.mean_y(y)
 
             # Compute covariance: E[XY] - E[X]E[Y]
-            mean_x_mean_y = jnp.outer(mean_x, mean_y)
+            mean_x_mean_y = _outer(mean_x, mean_y)
             covariance = mean_xy - mean_x_mean_y
 
             return jnp.array(covariance)
diff --git a/src/wax/modules/ewmcov.py b/src/wax/modules/ewmcov.py
index 2fb6a05..90557c3 100644
--- a/src/wax/modules/ewmcov.py
+++ b/src/wax/modules/ewmcov.py
@@ -19,6 +19,17 @@ import jax.numpy as jnp
 from wax.modules.ewma import EWMA
 
 
+def _outer(x, y):
+    """Outer product, missing where one of the factors is missing.
+
+    Missing values are filled before the product to avoid nans in gradient computations."""
+    missing_x, missing_y = jnp.isnan(jnp.ravel(x)), jnp.isnan(jnp.ravel(y))
+    product = jnp.outer(
+        jnp.where(missing_x, 0, jnp.ravel(x)), jnp.where(missing_y, 0, jnp.ravel(y))
+    )
+    return jnp.where(missing_x[:, None] | missing_y[None, :], jnp.nan, product)
+
+
 class EWMCov(hk.Module):
     """Compute exponentially weighted covariance.
 
@@ -128,7 +139,7 @@ class EWMCov(hk.Module):
             ignore_na=self.ignore_na,
             initial_value=self.initial_value,
             name="mean_xy",
-        )(jnp.outer(x, y))
+        )(_outer(x, y))
         if self.assume_centered:
             cov = mean_xy
         else:
@@ -148,5 +159,5 @@ class EWMCov(hk.Module):
                 initial_value=self.initial_value,
                 name="mean_y",
             )(y)
-            cov = mean_xy - jnp.outer(mean_x, mean_y)
+            cov = mean_xy - _outer(mean_x, mean_y)
         return cov
-- 
2.43.0


From 24864a1169e7b6240efc50d60678100da0539851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:22 +0000
Subject: [PATCH 62/64] fix: gradients of the linear EWMA are not nan after a
 gap

---
 src/wax/flax/modules/ewma.py | 4 +++-
 src/wax/modules/ewma.py      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/modules/ewma.py b/src/wax/flax/modules/ewma.py
index 646b0ad..678febf 100644
--- a/src/wax/flax/modules/ewma.py
+++ b/src/wax/flax/modules/ewma.py
@@ -104,8 +104,10 @@ class EWMA(nn.Module):
 
         if self.adjust == "linear":
             # Linear adjustment for effective com
+            # (a null weight stays null, without dividing by it to avoid nans in gradient computations)
+            safe_wt = jnp.where(current_old_wt > 0.0, current_old_wt, 1.0)
             old_wt_factor = jnp.where(
-                is_observation, 1.0, jnp.maximum(0.0, (current_old_wt - 1.0) / current_old_wt)
+                is_observation, 1.0, jnp.maximum(0.0, (current_old_wt - 1.0) / safe_wt)
             )
             updated_old_wt = jnp.minimum(current_old_wt, com)
         else:
diff --git a/src/wax/modules/ewma.py b/src/wax/modules/ewma.py
index 60f3a89..5ad1b11 100644
--- a/src/wax/modules/ewma.py
+++ b/src/wax/modules/ewma.py
@@ -155,8 +155,10 @@ class EWMA(hk.Module):
         if self.adjust == "linear":
             # com_eff grow linearly when there is observation but
             # decrease linearly when there is nans.
+            # (a null weight stays null, without dividing by it to avoid nans in gradient computations)
+            safe_wt = jnp.where(old_wt > 0.0, old_wt, 1.0)
             old_wt_factor = jnp.where(
-                is_observation, 1.0, jnp.maximum(0.0, (old_wt - 1.0) / old_wt)
+                is_observation, 1.0, jnp.maximum(0.0, (old_wt - 1.0) / safe_wt)
             )
             old_wt = jnp.minimum(old_wt, com)
         else:
-- 
2.43.0


From f63bb6e4f948605cb01578b449e47de97bb89f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:22 +0000
Subject: [PATCH 63/64] fix: gradients of MaskNormalize are not nan when
 masked-out entries are missing

---
 src/wax/flax/modules/mask_normalize.py | 7 +++++--
 src/wax/modules/mask_normalize.py      | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/modules/mask_normalize.py b/src/wax/flax/modules/mask_normalize.py
index be3a174..6aa809b 100644
--- a/src/wax/flax/modules/mask_normalize.py
+++ b/src/wax/flax/modules/mask_normalize.py
@@ -58,10 +58,13 @@ class MaskNormalize(nn.Module):
                 x_std = jnp.expand_dims(x_std, self.axis)
 
             # Normalize by dividing by standard deviation
-            x_normalized = x / x_std
+            # (missing values and null deviations are filled before the division to avoid nans
+            # in gradient computations)
+            valid = x_std > 0.0
+            ratio = self.fill_nan_inf(x) / jnp.where(valid, x_std, 1.0)
 
             # Handle NaN and infinity values that may result from division
-            x_normalized = self.fill_nan_inf(x_normalized)
+            x_normalized = self.fill_nan_inf(jnp.where(valid, ratio, 0.0))
 
             return x_normalized
 
diff --git a/src/wax/modules/mask_normalize.py b/src/wax/modules/mask_normalize.py
index c35327f..3b97ee6 100644
--- a/src/wax/modules/mask_normalize.py
+++ b/src/wax/modules/mask_normalize.py
@@ -49,7 +49,11 @@ class MaskNormalize(hk.Module):
             if self.axis is not None:
                 # align the standard deviation with the data
                 x_std = jnp.expand_dims(x_std, self.axis)
-            x_normalized = FillNanInf()(x / x_std)
+            # (missing values and null deviations are filled before the division to avoid nans
+            # in gradient computations)
+            valid = x_std > 0.0
+            ratio = FillNanInf()(x) / jnp.where(valid, x_std, 1.0)
+            x_normalized = FillNanInf()(jnp.where(valid, ratio, 0.0))
             return x_normalized
 
         return tree_map(normalize, input)
-- 
2.43.0


From 2c3ed6f14fbcfaac9bf46978dd94445530506262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:22 +0000
Subject: [PATCH 64/64] fix: Flax MaskStd is accurate on small data, as the
 Haiku one

---
 src/wax/flax/modules/mask_std.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/modules/mask_std.py b/src/wax/flax/modules/mask_std.py
index e71c27a..e38591e 100644
--- a/src/wax/flax/modules/mask_std.py
+++ b/src/wax/flax/modules/mask_std.py
@@ -49,7 +49,7 @@ class MaskStd(nn.Module):
 
         def mask_std_fn(x):
             # Numerical epsilon for stability
-            eps = jnp.finfo(x.dtype).eps
+            eps = jnp.finfo(x.dtype).resolution ** 2
 
             # Apply mask (sets False regions to 0)
             x_masked = self.apply_mask(mask, x)
-- 
2.43.0

