From e6c8dfffe0ed1cb5a394ace1d9087c1194747176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 01/46] fix: a dynamic top-p of zero must leave sampling
 unrestricted

A traced topp always went through topp_mask, which masks every logit when
p is 0, so that tokens were drawn uniformly over the whole vocabulary.
---
 t5x/contrib/calm/decoding.py | 6 +++++-
 t5x/decoding.py              | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/decoding.py b/t5x/contrib/calm/decoding.py
index 93376c1..8b6c63e 100644
--- a/t5x/contrib/calm/decoding.py
+++ b/t5x/contrib/calm/decoding.py
@@ -536,7 +536,11 @@ def _temperature_sample_single_trial(
       # When topp is dynamic, we always use it since we cannot check
       # non-zeroness (but it will have no effect if topp is 0.0).
       if _is_tracer(topp) or topp:
-        scaled_logits = binary_search.topp_mask(scaled_logits, topp, NEG_INF)  # pytype: disable=wrong-arg-types  # jax-ndarray
+        scaled_logits = jax.lax.cond(
+            topp > 0,
+            lambda: binary_search.topp_mask(scaled_logits, topp, NEG_INF),  # pytype: disable=wrong-arg-types  # jax-ndarray
+            lambda: scaled_logits,
+        )
 
       # [batch]
       next_token = random.categorical(rng1, scaled_logits).astype(jnp.int32)
diff --git a/t5x/decoding.py b/t5x/decoding.py
index fe58af5..1ddb870 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -550,7 +550,11 @@ def _temperature_sample_single_trial(
       # When topp is dynamic, we always use it since we cannot check
       # non-zeroness (but it will have no effect if topp is 0.0).
       if _is_tracer(topp) or topp:
-        scaled_logits = binary_search.topp_mask(scaled_logits, topp, NEG_INF)  # pytype: disable=wrong-arg-types  # jax-ndarray
+        scaled_logits = jax.lax.cond(
+            topp > 0,
+            lambda: binary_search.topp_mask(scaled_logits, topp, NEG_INF),  # pytype: disable=wrong-arg-types  # jax-ndarray
+            lambda: scaled_logits,
+        )
 
       # [batch]
       next_token = random.categorical(rng1, scaled_logits).astype(jnp.int32)
-- 
2.43.0


From 304f2ed2635b60581f1be25177e2b46b5a23196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 02/46] fix: per-example temperatures must not share one random
 draw

With one temperature per example the draw is vmapped over the batch with the
same key for every row, so all examples and all decodes of an example got
identical noise; several decodes of one example were always identical.
---
 t5x/decoding.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/t5x/decoding.py b/t5x/decoding.py
index 1ddb870..af0eba4 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -538,7 +538,7 @@ def _temperature_sample_single_trial(
     if logit_callback_fn is not None:
       logits = logit_callback_fn(logits, state)
 
-    def sample_logits_with_nonzero_temperature(logits, temperature):
+    def sample_logits_with_nonzero_temperature(logits, temperature, rng):
       scaled_logits = logits / jnp.maximum(temperature, MIN_TEMPERATURE)
       if _is_tracer(topk) or topk:
         scaled_logits = jax.lax.cond(
@@ -557,7 +557,7 @@ def _temperature_sample_single_trial(
         )
 
       # [batch]
-      next_token = random.categorical(rng1, scaled_logits).astype(jnp.int32)
+      next_token = random.categorical(rng, scaled_logits).astype(jnp.int32)
 
       # log probability of the current token conditioned on the previously
       # sampled and prefix tokens.
@@ -576,7 +576,7 @@ def _temperature_sample_single_trial(
 
       return (next_token, next_log_prob)
 
-    def sample_logits_with_zero_temperature(logits, temperature):  # pylint: disable=unused-argument
+    def sample_logits_with_zero_temperature(logits, temperature, rng):  # pylint: disable=unused-argument
       # For zero temperature, we always want the greedy output, regardless
       # of the values of topk and topp.
 
@@ -599,7 +599,7 @@ def _temperature_sample_single_trial(
     if len(temperature.shape) == 1:
       # Each batch item can have different temperatures.
       def map_logits_with_different_temperatures(
-          logits_batch_item, temperature_batch_item
+          logits_batch_item, temperature_batch_item, rng_batch_item
       ):
         return lax.cond(
             temperature_batch_item > MIN_TEMPERATURE,
@@ -607,11 +607,17 @@ def _temperature_sample_single_trial(
             sample_logits_with_zero_temperature,
             jnp.expand_dims(logits_batch_item, axis=0),
             temperature_batch_item,
+            rng_batch_item,
         )
 
       (next_token, next_log_prob) = jax.vmap(
           map_logits_with_different_temperatures
-      )(logits, jnp.repeat(temperature, num_decodes))
+      )(
+          logits,
+          jnp.repeat(temperature, num_decodes),
+          # The items must not share their randomness.
+          random.split(rng1, logits.shape[0]),
+      )
       next_token = jnp.squeeze(next_token, axis=-1)
       next_log_prob = jnp.squeeze(next_log_prob, axis=-1)
     else:
@@ -622,6 +628,7 @@ def _temperature_sample_single_trial(
           sample_logits_with_zero_temperature,
           logits,
           temperature,
+          rng1,
       )
 
     # When different batch elements are at different points in the loop counter,
-- 
2.43.0


From bdb9755be05fe5c814a479ae1d0fec6759318362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 03/46] fix: beam search must not repeat the last prompt token

When a prompt filled the whole input the last step indexed one past the end;
the clamped index read the last prompt token again and forced it as output.
---
 t5x/decoding.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/t5x/decoding.py b/t5x/decoding.py
index af0eba4..77662cb 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -1247,6 +1247,11 @@ def beam_search(
   else:
     initial_index = jnp.zeros((batch_size,), dtype=jnp.int32)
 
+  # The last step looks one position past the end of `inputs`. There is no
+  # prompt there: without this padding the out-of-bounds index would be clamped
+  # to the last column.
+  inputs = jnp.pad(inputs, ((0, 0), (0, 1)), constant_values=0)
+
   # initialize beam search state
   beam_search_init_state = beam_init(
       batch_size,
-- 
2.43.0


From b2c837b8aa6eb763cfb95f3da3d151690640c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 04/46] fix: saving an array at or above the concurrency limit
 must not wait forever

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index ada1b4e..c464f27 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -431,7 +431,7 @@ class _BytesConditionVariable(object):
 
   async def wait_for_bytes(self, n_bytes):
     async with self._cv:
-      await self._cv.wait_for(lambda: self._num_bytes > n_bytes)
+      await self._cv.wait_for(lambda: self._num_bytes >= n_bytes)
       self._num_bytes -= n_bytes
       assert self._num_bytes >= 0
 
-- 
2.43.0


From 42aaf109240749b7ebbd2fdf3e97207ab92ae24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 05/46] fix: restoring the latest checkpoint must accept step 0

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index c464f27..aa55625 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1036,7 +1036,7 @@ class Checkpointer(object):
     else:
       if step is None:
         step = self.latest_step()
-        if not step:
+        if step is None:
           raise ValueError(f'No checkpoints found in {self.checkpoints_dir}.')
       ckpt_path = self._get_checkpoint_dir(step)
 
-- 
2.43.0


From 707f43df9d856f66fdfa33ddd9d31f24b051a911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 06/46] fix: apply the save dtype to the target in Orbax
 checkpoints

---
 t5x/checkpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index aa55625..17f8c7d 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2054,9 +2054,9 @@ def _construct_save_args(
     param_info: _OrbaxParamInfo, dtype: jnp.dtype
 ) -> ocp.SaveArgs:
   """Create SaveArgs for Orbax saving."""
-  if param_info.name.split('.')[0] != 'target':
+  if param_info.name.split('/')[0] != 'target':
     dtype = None
-  return ocp.SaveArgs(dtype=dtype)
+  return ocp.SaveArgs(dtype=jnp.dtype(dtype) if dtype is not None else None)
 
 
 def _construct_restore_args(
-- 
2.43.0


From cd55f76b58bf40e12e198477371a69b9706f6cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 07/46] fix: restoring a legacy checkpoint by step must restore
 that step

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 17f8c7d..85bb8ba 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2448,7 +2448,7 @@ class OrbaxCheckpointManagerInterface:
             restore_dtype=self._restore_dtype,
         )
         return legacy_checkpointer.restore(
-            path=path,
+            path=ckpt_path,
             fallback_state=fallback_state,
             state_transformation_fns=state_transformation_fns,
         )
-- 
2.43.0


From 3ca4136c803f9d596ca9f078d5bc88d3c51a3599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 08/46] fix: load_t5x_checkpoint must cast only the target to
 the restore dtype

---
 t5x/checkpoints.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 85bb8ba..268b960 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1932,15 +1932,18 @@ def load_t5x_checkpoint(
         maybe_ts_spec, get_fn, dtype=restore_dtype
     )
 
-  state_dict = jax.tree_util.tree_map(
-      functools.partial(
-          _create_lazy_awaitable_array,
-          ckpt_path=path,
-          restore_dtype=restore_dtype,
-      ),
-      param_infos,
-      ckpt_optimizer_state_with_specs,
-  )
+  state_dict = {}
+  for k in param_infos:
+    state_dict[k] = jax.tree_util.tree_map(
+        functools.partial(
+            _create_lazy_awaitable_array,
+            ckpt_path=path,
+            # ensure that only 'target' is cast
+            restore_dtype=restore_dtype if k == 'target' else None,
+        ),
+        param_infos[k],
+        ckpt_optimizer_state_with_specs[k],
+    )
 
   if not lazy_parameters:
     future_state_dict = jax.tree_util.tree_map(
-- 
2.43.0


From 7a0abfc1f16d4c316a13826649a3e82b6933b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 09/46] fix: list checkpoints under the configured checkpoint
 prefix

---
 t5x/checkpoints_utils.py | 10 ++++++----
 t5x/utils.py             |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/t5x/checkpoints_utils.py b/t5x/checkpoints_utils.py
index 89163d9..f2da3c5 100644
--- a/t5x/checkpoints_utils.py
+++ b/t5x/checkpoints_utils.py
@@ -39,20 +39,22 @@ def get_checkpoint_prefix(prefix='checkpoint'):
 
 def all_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns list of available step numbers in ascending order."""
-  glob_pattern = os.path.join(checkpoints_dir, 'checkpoint_*')
+  prefix = get_checkpoint_prefix()
+  glob_pattern = os.path.join(checkpoints_dir, f'{prefix}_*')
   checkpoint_paths = gfile.glob(glob_pattern)
-  re_pattern = re.compile(r'.*/checkpoint_(\d+)$')
+  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)$')
   matches = [re_pattern.match(ckpt) for ckpt in checkpoint_paths]
   return sorted(int(match.group(1)) for match in matches if match)
 
 
 def all_dataset_checkpoint_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns available dataset checkpoint step numbers in ascending order."""
+  prefix = get_checkpoint_prefix()
   glob_pattern = os.path.join(
-      checkpoints_dir, 'checkpoint_*', f'{_TRAIN_DS_PREFIX}-*'
+      checkpoints_dir, f'{prefix}_*', f'{_TRAIN_DS_PREFIX}-*'
   )
   train_ds_paths = gfile.glob(glob_pattern)
-  re_pattern = re.compile(r'.*/checkpoint_(\d+)/.*$')
+  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)/.*$')
   matches = [re_pattern.match(path) for path in train_ds_paths]
   return sorted(set(int(match.group(1)) for match in matches if match))
 
diff --git a/t5x/utils.py b/t5x/utils.py
index 15c872d..75b44a9 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -962,7 +962,7 @@ def get_first_valid_restore_config_and_paths(
           ckpt_paths = tf_ckpt_state.all_model_checkpoint_paths
         else:
           ckpt_paths = [
-              os.path.join(ckpt_dir, f'checkpoint_{step}')
+              checkpoints.get_checkpoint_dir(ckpt_dir, step)
               for step in checkpoints.all_steps(ckpt_dir)
           ]
         if not ckpt_paths:
-- 
2.43.0


From b793de08156f389851c603ee457940ebf20eb574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 10/46] fix: an assignment rule must win over a same-named
 leftover parameter

---
 t5x/state_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t5x/state_utils.py b/t5x/state_utils.py
index aa1af46..4339fac 100644
--- a/t5x/state_utils.py
+++ b/t5x/state_utils.py
@@ -212,8 +212,9 @@ def apply_assignment_map(
 
   # Now re-add the unmapped keys. This is a 2-step process so that the `pop()`
   # call above doesn't mis-fire if the assignment map "rotates" a chain of keys.
+  # A new key that was explicitly mapped keeps the value it was mapped to.
   for key, v in unmapped_old_keys.items():
-    if key not in explicitly_skipped_keys:
+    if key not in explicitly_skipped_keys and key not in result:
       result[key] = v
 
   # If any new keys weren't mapped, but are in the old checkpoint, copy those.
-- 
2.43.0


From f1113df13e54bb85cafb1884cc5ffc339b4fc340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 11/46] fix: the Orbax manager must cast only the target to the
 restore dtype

---
 t5x/checkpoints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 268b960..339edc6 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2508,11 +2508,13 @@ class OrbaxCheckpointManagerInterface:
     # fallback state.
     def _maybe_make_sharded_array_helper(arr, info):
       if arr is not None:
+        # ensure that only 'target' is cast
+        is_target = info.name.split('/')[0] == 'target'
         return _maybe_make_sharded_array(
             arr,
             self._partitioner.mesh,
             axes=info.mesh_axes,
-            restore_dtype=self._restore_dtype,
+            restore_dtype=self._restore_dtype if is_target else None,
         )
 
     state_dict = jax.tree_util.tree_map(
-- 
2.43.0


From 1c5ec34110ede1c148124c8dc6da35e588c7dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 12/46] fix: the Orbax manager must refuse arrays of another
 shape than the model's

---
 t5x/checkpoints.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 339edc6..0161e9a 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2499,6 +2499,22 @@ class OrbaxCheckpointManagerInterface:
     if self._should_write_dataset_ckpt:
       self._dataset_iterator = restored[_DATASET_KEY]
 
+    # Orbax restores arrays with the shape they were saved with.
+    expected_flat = state_utils.flatten_state_dict(
+        self._train_state.state_dict()
+    )
+    for name, arr in state_utils.flatten_state_dict(state_dict).items():
+      expected_shape = getattr(expected_flat.get(name), 'shape', None)
+      if (
+          isinstance(arr, jax.Array)
+          and expected_shape is not None
+          and arr.shape != tuple(expected_shape)
+      ):
+        raise ValueError(
+            f'Shape of `{name}` in checkpoint {arr.shape} does not match '
+            f'expected {tuple(expected_shape)}.'
+        )
+
     # Merge restored state dict with fallback state to fill in any remaining
     # params.
     if fallback_state is not None:
-- 
2.43.0


From faff28b950ef43ff24dff6bf89d663c27ed16428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 13/46] fix: the Orbax manager must restore the latest step
 when none is given

---
 t5x/checkpoints.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 0161e9a..e1d8811 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2421,6 +2421,10 @@ class OrbaxCheckpointManagerInterface:
     directory = self.directory
     if path is not None:
       directory, step = get_step_from_checkpoint_dir(os.fspath(path))
+    elif step is None:
+      step = self.latest_step()
+      if step is None:
+        raise ValueError(f'No checkpoints found in {directory}.')
 
     # Check for legacy T5X checkpoint: If so, use legacy T5X
     # checkpointer to restore the state. The following exclusive features of T5X
-- 
2.43.0


From cbc00f4d2f1c3ca2cb1801260cd0e63ad55d5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 14/46] fix: the Orbax manager must restore states with
 untouched (None) entries

---
 t5x/checkpoints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index e1d8811..b6a26e6 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2146,6 +2146,9 @@ def _construct_orbax_restoration_transforms(
 
     def _make_orbax_internal_metadata(value: Any, args: ocp.RestoreArgs):
       if isinstance(value, ocp.metadata.tree.ValueMetadataEntry):
+        # Empty values, e.g., None, have no array to read.
+        if value.skip_deserialize:
+          return value
         if value.value_type == 'scalar':
           return ocp.metadata.tree.ValueMetadataEntry(value_type='scalar')
         if isinstance(args, ocp.ArrayRestoreArgs):
-- 
2.43.0


From c34ca77f3cacce89a033cc1ae74e72c5e1842cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 15/46] fix: restoring must skip parameters no optimizer
 touches, even if the checkpoint has their slots

---
 t5x/checkpoints.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index b6a26e6..23d0bd8 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1232,14 +1232,20 @@ class Checkpointer(object):
     for k in written_state_dict.keys():
       # ensure that only 'target' is cast
       restore_dtype = self.restore_dtype if k == 'target' else None
+      create_array = functools.partial(
+          self._create_lazy_awaitable_array,
+          ckpt_path=ckpt_path,
+          restore_dtype=restore_dtype,
+      )
+      # Entries without parameter info are skipped, even if the checkpoint has a
+      # subtree there.
       state_dict[k] = jax.tree_util.tree_map(
-          functools.partial(
-              self._create_lazy_awaitable_array,
-              ckpt_path=ckpt_path,
-              restore_dtype=restore_dtype,
+          lambda info, spec, create=create_array: (
+              None if info is None else create(info, spec)
           ),
           restore_parameter_infos[k],
           written_state_dict[k],
+          is_leaf=lambda x: x is None,
       )
 
     if not lazy_parameters:
-- 
2.43.0


From c559b99d9a32ceeab3076703235ba46da612018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 16/46] fix: training must not loop forever after reaching the
 last of checkpoint_steps

---
 t5x/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t5x/utils.py b/t5x/utils.py
index 75b44a9..64fc344 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -2330,6 +2330,8 @@ def find_next_checkpoint_step(
     if (
         ((curr_checkpoint_step - first_step) % checkpoint_period != 0)
         and curr_checkpoint_step > first_step
+        # The last checkpoint step stays current after it was reached.
+        and curr_checkpoint_step > host_step
         and curr_checkpoint_step <= epoch_end_step
     ):
       # Found a checkpoint step before inner_num_steps + host_step that
-- 
2.43.0


From 17bebe61f18ea3a8d5c19ab58c2d2d9125cfc6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 17/46] fix: checkpoint_steps must work without a checkpoint
 period

---
 t5x/train.py | 2 +-
 t5x/utils.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index baa989a..1f107c2 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -713,7 +713,7 @@ def train(
             first_step,
         )
         # Handled separately if this is the overall last step.
-        if host_step + inner_num_steps == total_steps:
+        if checkpoint_period and host_step + inner_num_steps == total_steps:
           is_checkpoint_step = False
 
         train_summary = trainer.train(
diff --git a/t5x/utils.py b/t5x/utils.py
index 64fc344..9412663 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -2328,7 +2328,10 @@ def find_next_checkpoint_step(
   ):
     curr_checkpoint_step = checkpoint_steps[checkpoint_steps_index]
     if (
-        ((curr_checkpoint_step - first_step) % checkpoint_period != 0)
+        (
+            not checkpoint_period
+            or (curr_checkpoint_step - first_step) % checkpoint_period != 0
+        )
         and curr_checkpoint_step > first_step
         # The last checkpoint step stays current after it was reached.
         and curr_checkpoint_step > host_step
-- 
2.43.0


From 2cf1d54091c150ec4a5f37079766b9b15829ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 18/46] fix: a request to stop training must not be overwritten
 by later actions

---
 t5x/train.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 1f107c2..7cf6eb6 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -514,7 +514,7 @@ def train(
         eval_batch_iters[task] = ds
 
     eval_summaries = trainer.eval(eval_batch_iters)
-    trainer.stop_training = run_actions(
+    trainer.stop_training |= run_actions(
         trainer_lib.ActionMode.TRAIN_EVAL,  # pytype: disable=wrong-arg-types  # jax-ndarray
         actions,
         trainer.train_state,
@@ -531,7 +531,7 @@ def train(
     if not concurrent_metrics:
       # Ensure metrics are finished being computed.
       all_metrics_done = all_metrics.result() or {}
-      trainer.stop_training = run_actions(
+      trainer.stop_training |= run_actions(
           trainer_lib.ActionMode.INFER_EVAL,
           actions,
           trainer.train_state,
@@ -724,7 +724,7 @@ def train(
           # that the actions can be performed without special casing. The
           # only caveat is that train would need its own special `key`
           # given no `task` will be applied.
-          trainer.stop_training = run_actions(  # pytype: disable=wrong-arg-types  # jax-ndarray
+          trainer.stop_training |= run_actions(  # pytype: disable=wrong-arg-types  # jax-ndarray
               trainer_lib.ActionMode.TRAIN,
               actions,
               trainer.train_state,
-- 
2.43.0


From 39bb54c65c3b5a0c5cb9990e85c8796e42fd37e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 19/46] fix: zero_nans state must keep its structure in the
 optimizer's axis metadata

---
 t5x/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/optimizers.py b/t5x/optimizers.py
index 8b1283a..7c0273a 100644
--- a/t5x/optimizers.py
+++ b/t5x/optimizers.py
@@ -261,7 +261,7 @@ class OptaxStatePartitionRules:
       ),
       optax.ScaleByScheduleState: _scale_by_schedule_ctor,
       optax.ZeroNansState: lambda state, params_axes: optax.ZeroNansState(
-          found_nan=None
+          found_nan=jax.tree.map(lambda x: None, state.found_nan)
       ),
       # FactoredState
       # Recursive, Combinator Optax States:
-- 
2.43.0


From 4a0035f90eec9214acdb334182375633caccac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:47 +0000
Subject: [PATCH 20/46] fix: Adafactor's momentum must keep its axes when beta1
 is 0

---
 t5x/adafactor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/adafactor.py b/t5x/adafactor.py
index 1920fd5..fb7b396 100644
--- a/t5x/adafactor.py
+++ b/t5x/adafactor.py
@@ -671,7 +671,7 @@ class Adafactor(OptimizerDef):
           v_row=None,
           v_col=None,
           v=logical_axes if adafactor_leaf['v'].shape != (1,) else None,
-          m=logical_axes if self.hyper_params.beta1 else None,
+          m=logical_axes if self.hyper_params.beta1 is not None else None,
       )
 
     optimizer_logical_axes['state']['param_states'] = jax.tree_util.tree_map(
-- 
2.43.0


From 39626e53beb546e3b6d1a7578ea802eba87fba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 21/46] fix: give every microbatch its own dropout randomness

The split random key was not carried through the accumulation loop, so all
microbatches of a step used the same one.
---
 t5x/trainer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/trainer.py b/t5x/trainer.py
index 965bd09..a674306 100644
--- a/t5x/trainer.py
+++ b/t5x/trainer.py
@@ -791,7 +791,7 @@ def accumulate_grads_microbatched(
         (_, (metrics, flax_mutables)), grad = grad_fn(
             train_state.params, mbatch, sub_dropout_rng, flax_mutables
         )
-      return metrics, grad, flax_mutables
+      return dropout_rng, metrics, grad, flax_mutables
 
     def per_microbatch_train_step(
         loop_cnt: int,
@@ -808,7 +808,7 @@ def accumulate_grads_microbatched(
         Optional[FlaxMutables],
     ]:
       (dropout_rng, grad_accum, prev_metrics, flax_mutables) = state
-      metrics, grad, flax_mutables = metrics_and_grad(
+      dropout_rng, metrics, grad, flax_mutables = metrics_and_grad(
           loop_cnt, dropout_rng, flax_mutables
       )
 
@@ -826,7 +826,7 @@ def accumulate_grads_microbatched(
     grad_accum_init = jax.tree_util.tree_map(
         lambda x: jnp.zeros(x.shape, accum_dtype), train_state.params
     )
-    initial_metrics_shape, _, _ = jax.eval_shape(
+    _, initial_metrics_shape, _, _ = jax.eval_shape(
         metrics_and_grad,
         loop_cnt=0,
         dropout_rng=dropout_rng,
-- 
2.43.0


From 9105e1a7c3a6df4ea99f73376d7b84e0d763fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 22/46] fix: do not skip the first batch when resuming from the
 initial checkpoint

The input pipeline was warmed up (and so advanced by one batch) before the
checkpoint preceding the training loop recorded its position.
---
 t5x/train.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 7cf6eb6..8ea2a02 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -380,10 +380,6 @@ def train(
         )
     )
 
-  # Start warming up the input pipeline in the background. This must happen
-  # after input pipeline checkpoints were restored.
-  first_batch_ready = train_iter.peek_async()
-
   # 3. If no checkpoint to restore, init from scratch.
   train_state = train_state or train_state_initializer.from_scratch(init_rng)
   train_state_axes = train_state_initializer.train_state_axes
@@ -569,6 +565,12 @@ def train(
           checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
       )
 
+  # Start warming up the input pipeline in the background. This must happen
+  # after input pipeline checkpoints were restored, and after the checkpoint
+  # above was saved: its input pipeline position must not be past a batch that
+  # was not used for training yet.
+  first_batch_ready = train_iter.peek_async()
+
   # If we take manual control of the garbage collector, we need to disable it
   # before starting training.
   if gc_period:
-- 
2.43.0


From 7dd30d33d94d9ebc080cd07d71e069f686b2d57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 23/46] fix: do not save the same step twice when training is
 interrupted or stopped

An emergency checkpoint or one taken before stopping early at a step which
had been saved already made Orbax raise, which hid the preemption (and lost
the end of training), and with the other checkpointer replaced that step's
dataset position by a later one.
---
 t5x/train.py | 57 +++++++++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 8ea2a02..1a7540e 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -549,21 +549,30 @@ def train(
       _run_inference_eval()
 
   # Save checkpoints before the training loop starts.
-  if checkpoint_period and checkpoint_manager:
-    # If not using Orbax, always save checkpoint, otherwise, only save a
-    # checkpoint if a checkpoint does not already exist for that step. This is
-    # because Orbax will error out if we try to save a checkpoint that already
-    # exists.
-    if not use_orbax or (
-        use_orbax
-        and utils.get_local_data(trainer.train_state.step)
-        not in checkpoint_manager.all_steps()
+  last_saved_step = None
+
+  def _save_checkpoint():
+    """Saves the current train state unless it is saved already."""
+    nonlocal last_saved_step
+    step = int(utils.get_local_data(trainer.train_state.step))
+    # If not using Orbax, only skip what was saved by this run, otherwise, only
+    # save a checkpoint if a checkpoint does not already exist for that step.
+    # This is because Orbax will error out if we try to save a checkpoint that
+    # already exists.
+    if step == last_saved_step or (
+        use_orbax and step in checkpoint_manager.all_steps()
     ):
-      logging.info('Saving checkpoint before the training loop starts.')
-      checkpoint_manager.save(
-          trainer.train_state,
-          checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-      )
+      logging.info('Checkpoint for step %d already exists.', step)
+      return
+    checkpoint_manager.save(
+        trainer.train_state,
+        checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
+    )
+    last_saved_step = step
+
+  if checkpoint_period and checkpoint_manager:
+    logging.info('Saving checkpoint before the training loop starts.')
+    _save_checkpoint()
 
   # Start warming up the input pipeline in the background. This must happen
   # after input pipeline checkpoints were restored, and after the checkpoint
@@ -683,10 +692,7 @@ def train(
         if trainer.stop_training:
           if checkpoint_period and checkpoint_manager:
             logging.info('Saving a checkpoint before early stopping...')
-            checkpoint_manager.save(
-                trainer.train_state,
-                checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-            )
+            _save_checkpoint()
           logging.info(
               'Stopping training loop early since `stop_training` is requested.'
           )
@@ -735,10 +741,7 @@ def train(
 
         if is_checkpoint_step and checkpoint_manager:
           logging.info('Saving a checkpoint at specified checkpoint step')
-          checkpoint_manager.save(
-              trainer.train_state,
-              checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-          )
+          _save_checkpoint()
           # Increment the checkpoint_step_index only if a checkpoint was saved.
           if (
               checkpoint_steps
@@ -750,10 +753,7 @@ def train(
     except trainer_lib.PreemptionError as e:
       if checkpoint_period and checkpoint_manager:
         logging.info('Saving emergency checkpoint.')
-        checkpoint_manager.save(
-            trainer.train_state,
-            checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-        )
+        _save_checkpoint()
         checkpoint_manager.wait_until_finished()
         logging.info('Saving emergency checkpoint done.')
       raise e
@@ -773,10 +773,7 @@ def train(
       logging.info('Saving checkpoint.')
       checkpoint_tick = time.time()
       # Make sure last train step has completed before starting the clock.
-      checkpoint_manager.save(
-          trainer.train_state,
-          checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-      )
+      _save_checkpoint()
       # `_run_training_eval`` depends upon the result of the checkpoint,
       # thus calling `wait_until_finished()`` here.
       checkpoint_manager.wait_until_finished()
-- 
2.43.0


From be294f00c983bf13bdd9b60d1c915c52a3ce4a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 24/46] fix: the Orbax manager must restore untouched (None)
 entries as None

They came back as metadata objects, so that training with a MultiOptimizer
failed after a restart.
---
 t5x/checkpoints.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 23d0bd8..c8fc477 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2508,7 +2508,12 @@ class OrbaxCheckpointManagerInterface:
       args[_DATASET_KEY] = DatasetArgs(self._dataset_iterator)
     args = ocp.args.Composite(**args)
     restored = self._manager.restore(step, args=args, directory=directory)
-    state_dict = restored[_STATE_KEY]
+    # Empty values, e.g., None, are still represented by their metadata.
+    state_dict = jax.tree_util.tree_map(
+        lambda v: None if isinstance(v, ocp.metadata.tree.ValueMetadataEntry)
+        else v,
+        restored[_STATE_KEY],
+    )
     if self._should_write_dataset_ckpt:
       self._dataset_iterator = restored[_DATASET_KEY]
 
-- 
2.43.0


From 4df25dc91ccb4e6a0c02575a287345386849d4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 25/46] fix: finish writing the initial checkpoint when there
 is nothing to train

train() returned while an asynchronous checkpoint was still being written.
---
 t5x/train.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t5x/train.py b/t5x/train.py
index 1a7540e..a5f76d7 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -612,6 +612,8 @@ def train(
         'Stopping now.',
         total_steps,
     )
+    if checkpoint_manager:
+      checkpoint_manager.close()
     _cleanup()
     return host_step, trainer.train_state
 
-- 
2.43.0


From fbf51a60c823c51c64dd65f10d4d1777a86b54e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 26/46] fix: predict_batch_with_aux left its own entries in the
 caller's decoder_params

---
 t5x/contrib/calm/models.py | 4 ++--
 t5x/models.py              | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index a107dde..7aaacae 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -971,8 +971,8 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
           max_decode_length=target_shape[1],
       )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # A copy, as entries are added for this call only.
+    decoder_params = dict(decoder_params) if decoder_params else {}
     if rng is not None:
       if decoder_params.get('decode_rng') is not None:
         raise ValueError(
diff --git a/t5x/models.py b/t5x/models.py
index 4ca0783..15405d6 100644
--- a/t5x/models.py
+++ b/t5x/models.py
@@ -714,8 +714,8 @@ class EncoderDecoderModel(BaseTransformerModel):
         max_decode_length=decoder_input_tokens.shape[1],
     )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # A copy, as entries are added for this call only.
+    decoder_params = dict(decoder_params) if decoder_params else {}
     if initial_index is not None:
       # We only set initial_index when it's non-None since it is not supported
       # by all decoders.
@@ -1201,8 +1201,8 @@ class DecoderOnlyModel(BaseTransformerModel):
         max_decode_length=max_decode_length,
     )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # A copy, as entries are added for this call only.
+    decoder_params = dict(decoder_params) if decoder_params else {}
     if rng is not None:
       if decoder_params.get('decode_rng') is not None:
         raise ValueError(
-- 
2.43.0


From 2d53973ca1c2e51471f4735571b1151ff7554b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 27/46] fix: a crash while the input position of inference was
 being renamed made it impossible to resume

---
 t5x/infer.py | 56 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index 4771216..16c0940 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -555,6 +555,13 @@ def infer(
     if jax.process_index() == 0:
       gfile.makedirs(tmp_dir)
 
+    output_fname = (
+        f'{task.name}-{mode}.{file_extension}-{shard_id:05}-of-{num_shards:05}'
+    )
+
+    def _get_chunk_path(chunk: str) -> str:
+      return os.path.join(tmp_dir, f'{output_fname}-chunk{chunk}')
+
     # Use `max_workers=1` to ensure writes occur sequentially.
     write_thread_pool = FailFastThreadPoolExecutor(max_workers=1)
 
@@ -578,17 +585,22 @@ def infer(
     infer_ds_iter: Iterator[Tuple[int, Any]] = iter(infer_ds.prefetch(AUTOTUNE))
 
     if checkpoint_ds_iter:
-      # Create checkpoint manager and restore state, if applicable.
-      ckpt_path = os.path.join(tmp_dir, 'input.ckpt')
-
+      # Create checkpoint manager and restore state, if applicable. The position
+      # to resume from is the one stored with the last completed chunk.
       input_ckpt = tf.train.Checkpoint(ds=infer_ds_iter)
-      if gfile.glob(ckpt_path + '*'):
+      completed_chunks = [
+          int(m.group(1))
+          for m in map(
+              re.compile(r'.*-chunk(\d+)\.ckpt\.index$').match,
+              gfile.glob(_get_chunk_path('*') + '.ckpt.index'),
+          )
+          if m and gfile.exists(_get_chunk_path(m.group(1)) + '.COMPLETED')
+      ]
+      if completed_chunks:
+        ckpt_path = _get_chunk_path(f'{max(completed_chunks):05}') + '.ckpt'
         logging.info('Restoring input iterator from %s', ckpt_path)
         input_ckpt.read(ckpt_path).assert_consumed()
 
-    output_fname = (
-        f'{task.name}-{mode}.{file_extension}-{shard_id:05}-of-{num_shards:05}'
-    )
     if gfile.exists(os.path.join(output_dir, f'{output_fname}.COMPLETED')):
       logging.info(
           "File %s exists. Skipping inference for shard %d/%d of task '%s'",
@@ -605,7 +617,7 @@ def infer(
         task.name,
     )
 
-    def _write_chunk_and_canonicalize_ckpt(
+    def _write_chunk_and_remove_previous_ckpt(
         chunk: int,
         chunk_path: str,
         inferences: Inferences,
@@ -630,12 +642,11 @@ def infer(
           'writing_examples_per_sec', chunk, num_examples / write_time
       )
 
-      if chunk_ckpt_path:
-        # Canonicalize checkpoint.
-        for fname in gfile.glob(chunk_ckpt_path + '*'):
-          gfile.rename(
-              fname, fname.replace(chunk_ckpt_path, ckpt_path), overwrite=True
-          )
+      if chunk_ckpt_path and chunk > 0:
+        # The position stored with this chunk replaces the previous one.
+        previous_ckpt_path = _get_chunk_path(f'{chunk - 1:05}') + '.ckpt'
+        for fname in gfile.glob(previous_ckpt_path + '*'):
+          gfile.remove(fname)
 
     # Main Loop over "chunks".
     for chunk, chunk_batch in infer_ds_iter:
@@ -656,7 +667,7 @@ def infer(
 
       # Get a chunk-specific RNG key.
       chunk_rng = jax.random.fold_in(jax.random.PRNGKey(0), chunk)
-      chunk_path = os.path.join(tmp_dir, f'{output_fname}-chunk{chunk:05}')
+      chunk_path = _get_chunk_path(f'{chunk:05}')
       if gfile.exists(chunk_path + '.COMPLETED') and not checkpoint_ds_iter:
         assert gfile.exists(chunk_path), (
             f'Chunk file {chunk_path} should be present if '
@@ -686,22 +697,19 @@ def infer(
 
         chunk_ckpt_path = None
         if checkpoint_ds_iter:
-          # Store iterator checkpoint in temporary location before writing the
-          # model output asynchronously. After outputs are written, the
-          # checkpoint will be moved to the canonical location to be used if
-          # restart occurs.
+          # Store iterator checkpoint before writing the model output
+          # asynchronously. Once the output is written and marked as completed,
+          # the checkpoint will be used if restart occurs.
           ckpt_tick = time.time()
-          chunk_ckpt_path = input_ckpt.write(
-              os.path.join(tmp_dir, f'{chunk}.ckpt')
-          )
+          chunk_ckpt_path = input_ckpt.write(chunk_path + '.ckpt')
           logging.info(
-              'Checkpoint written to temporary location in %02f seconds.',
+              'Checkpoint written in %02f seconds.',
               time.time() - ckpt_tick,
           )
 
         # These will execute sequentially since the ThreadPool size is 1.
         write_thread_pool.submit(
-            _write_chunk_and_canonicalize_ckpt,
+            _write_chunk_and_remove_previous_ckpt,
             chunk=chunk,
             chunk_path=chunk_path,
             inferences=inferences,
-- 
2.43.0


From 76a4ff3235f2cc745832fba33fe9e04c17eeaf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 28/46] fix: a crash while temporary inference files were
 deleted could replace the complete output by a part of it

---
 t5x/infer.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index 16c0940..d3ecb1f 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -552,13 +552,23 @@ def infer(
     tmp_dir = os.path.join(
         output_dir, f'tmp-{task.name}-{shard_id:05}-of-{num_shards:05}'
     )
-    if jax.process_index() == 0:
-      gfile.makedirs(tmp_dir)
-
     output_fname = (
         f'{task.name}-{mode}.{file_extension}-{shard_id:05}-of-{num_shards:05}'
     )
 
+    if gfile.exists(os.path.join(output_dir, f'{output_fname}.COMPLETED')):
+      logging.info(
+          "File %s exists. Skipping inference for shard %d/%d of task '%s'",
+          output_fname,
+          shard_id,
+          num_shards,
+          task.name,
+      )
+      return
+
+    if jax.process_index() == 0:
+      gfile.makedirs(tmp_dir)
+
     def _get_chunk_path(chunk: str) -> str:
       return os.path.join(tmp_dir, f'{output_fname}-chunk{chunk}')
 
@@ -601,15 +611,6 @@ def infer(
         logging.info('Restoring input iterator from %s', ckpt_path)
         input_ckpt.read(ckpt_path).assert_consumed()
 
-    if gfile.exists(os.path.join(output_dir, f'{output_fname}.COMPLETED')):
-      logging.info(
-          "File %s exists. Skipping inference for shard %d/%d of task '%s'",
-          output_fname,
-          shard_id,
-          num_shards,
-          task.name,
-      )
-      return
     logging.info(
         "Starting inference loop for shard %d of %d of task '%s'.",
         shard_id,
@@ -728,15 +729,18 @@ def infer(
     if jax.process_index() == 0 and merge_chunked_results:
       step = None if train_state is None else int(train_state.step)
       merge_fn(output_dir, output_fname, tmp_dir, step)
-      logging.info('Deleting temporary files.')
-      gfile.rmtree(tmp_dir)
 
     if jax.process_index() == 0:
+      # Before deleting the chunks, as the output cannot be rebuilt without.
       with gfile.GFile(
           os.path.join(output_dir, f'{output_fname}.COMPLETED'), 'w'
       ) as f:
         f.write('')
 
+    if jax.process_index() == 0 and merge_chunked_results:
+      logging.info('Deleting temporary files.')
+      gfile.rmtree(tmp_dir)
+
     # Wait for host 0 to finish writing before exiting.
     utils.sync_global_devices(f'{task.name}:complete')
 
-- 
2.43.0


From 3f5a58e582aa84a5700dc7500de5c65c3f56f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 29/46] fix: inference output left out all chunks from the
 100000th on

---
 t5x/infer.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index d3ecb1f..2192adb 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -179,9 +179,16 @@ def merge_chunks_to_file(
   """Merge the predictions from different chunks into a unified file."""
   logging.info('Merging chunk results.')
   # Merge chunks into single file.
-  chunk_paths = sorted(
-      gfile.glob(os.path.join(tmp_dir, f'{output_fname}-chunk?????'))
-  )
+  # Chunk numbers have at least five digits.
+  chunk_paths = {
+      int(m.group(1)): m.group(0)
+      for m in map(
+          re.compile(r'.*-chunk(\d{5,})$').match,
+          gfile.glob(os.path.join(tmp_dir, f'{output_fname}-chunk*')),
+      )
+      if m
+  }
+  chunk_paths = [chunk_paths[chunk] for chunk in sorted(chunk_paths)]
 
   if not chunk_paths:
     raise FileNotFoundError(
@@ -189,10 +196,10 @@ def merge_chunks_to_file(
         'input did not contain any examples'
     )
 
-  assert int(chunk_paths[-1][-5:]) + 1 == len(chunk_paths), (
-      f'Expecting {int(chunk_paths[-1][-5:]) + 1} chunk paths, found '
-      f'{len(chunk_paths)}'
-  )
+  num_chunks = int(chunk_paths[-1].rsplit('-chunk', 1)[1]) + 1
+  assert (
+      num_chunks == len(chunk_paths)
+  ), f'Expecting {num_chunks} chunk paths, found {len(chunk_paths)}'
   output_path = os.path.join(output_dir, output_fname)
   del step
   with gfile.GFile(output_path, 'wb') as merged:
-- 
2.43.0


From 6c05104aabfd4d53b8fe412ca39353e42a38b49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 30/46] fix: restore from one of several checkpoint paths with
 Orbax

---
 t5x/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t5x/utils.py b/t5x/utils.py
index 9412663..e0806b7 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1226,6 +1226,9 @@ def create_checkpoint_manager_and_restore(
   restore_path_list = [restore_path] if restore_path else []
   model_dir = model_dir or restore_checkpoint_cfg.path
   if use_orbax:
+    if not isinstance(model_dir, (str, os.PathLike)):
+      # One of several paths to restore from.
+      model_dir = restore_path or model_dir[0]
     checkpoint_manager = create_orbax_checkpoint_manager(
         save_cfg=save_checkpoint_cfg,
         restore_cfg=restore_checkpoint_cfg,
-- 
2.43.0


From e50a5b46efc0f51b69326883cbdd67bade94624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 31/46] fix: evaluated checkpoint paths with spaces are read
 back whole

---
 t5x/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index aa9dd45..1febbe6 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -196,7 +196,7 @@ def _load_evaluated_ckpt_paths(eval_ckpt_path: str) -> Set[str]:
   if not gfile.exists(eval_ckpt_path):
     return set()
   with gfile.GFile(eval_ckpt_path, 'r') as f:
-    return set(f.read().split())
+    return set(f.read().splitlines())
 
 
 def evaluate(
-- 
2.43.0


From cb2a4880a5e15515c1972718370e3fdd15bad5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 32/46] fix: a crash while the list of evaluated checkpoints is
 written keeps the old list

---
 t5x/eval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index 1febbe6..791f1b9 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -391,8 +391,10 @@ def evaluate(
       # Read/write/replace rather than append to avoid filesystem issue.
       evaluated_ckpt_paths = _load_evaluated_ckpt_paths(eval_ckpt_path)
       evaluated_ckpt_paths.add(ckpt_path)
-      with gfile.GFile(eval_ckpt_path, 'w') as f:
+      tmp_ckpt_path = f'{eval_ckpt_path}.tmp'
+      with gfile.GFile(tmp_ckpt_path, 'w') as f:
         f.write('\n'.join(_sorted_ckpt_paths(evaluated_ckpt_paths)))
+      gfile.rename(tmp_ckpt_path, eval_ckpt_path, overwrite=True)
 
   logging.info('Finished.')
 
-- 
2.43.0


From 5d1fc91fc54946e9a08de4f39d5fa4b1dcc1e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 33/46] fix: resumed evaluation of a directory of TensorFlow
 checkpoints evaluates the remaining ones

---
 t5x/eval.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index 791f1b9..ac736d4 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -341,10 +341,14 @@ def evaluate(
             f"Checkpoint path '{ckpt_dir}' must be a valid directory when "
             "using restore mode 'all'."
         )
-      ckpt_paths.update(
-          checkpoints.get_checkpoint_dir(ckpt_dir, step)
-          for step in checkpoints.all_steps(ckpt_dir)
-      )
+      tf_ckpt_state = tf.train.get_checkpoint_state(ckpt_dir)
+      if tf_ckpt_state:
+        ckpt_paths.update(tf_ckpt_state.all_model_checkpoint_paths)
+      else:
+        ckpt_paths.update(
+            checkpoints.get_checkpoint_dir(ckpt_dir, step)
+            for step in checkpoints.all_steps(ckpt_dir)
+        )
 
     evaluated_ckpt_paths = _load_evaluated_ckpt_paths(eval_ckpt_path)
 
-- 
2.43.0


From 035e5340e296391140371f6bd7ee4e1d7bc60bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 34/46] fix: importing a TensorFlow checkpoint that lacks
 variables of the model fails

---
 t5x/checkpoint_importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t5x/checkpoint_importer.py b/t5x/checkpoint_importer.py
index 312ecf5..ed126fe 100644
--- a/t5x/checkpoint_importer.py
+++ b/t5x/checkpoint_importer.py
@@ -495,6 +495,10 @@ def _update_state_dict(
       if k not in flat_state_dict:
         t5_data.pop(k)
 
+  missing = flat_state_dict.keys() - t5_data.keys()
+  if missing:
+    raise ValueError(f'Variables missing from checkpoint: {sorted(missing)}')
+
   # Shape check.
   for k, v in t5_data.items():
     if flat_state_dict[k].shape != v.shape:
-- 
2.43.0


From 130da57f1ca9dd30f4b9108160bd55b7693217ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 35/46] fix: 2D parameter sharding rules of the MoE partitioner
 raise TypeError

standard_logical_axis_rules(parameter_partitioning_dims=2) raised the result of
logging.warning (None) instead of warning.
---
 t5x/contrib/moe/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/contrib/moe/partitioning.py b/t5x/contrib/moe/partitioning.py
index c4cd61d..2dece00 100644
--- a/t5x/contrib/moe/partitioning.py
+++ b/t5x/contrib/moe/partitioning.py
@@ -394,7 +394,7 @@ def standard_logical_axis_rules(
   _ = base_partitioning.global_mesh_defined()
 
   if parameter_partitioning_dims == 2:
-    raise logging.warning(
+    logging.warning(
         '2D parameter sharding (`parameter_partitioning_dims=2`) is supported '
         'but untested for MoE.'
     )
-- 
2.43.0


From 8527bae00488b9a2ed694f5cb83e2aef05b2dc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 36/46] fix: MoE partitioner shards the placeholders of
 unfactored expert kernels

With a factored Adafactor, the (1,) placeholders for v_row and v_col of expert
kernels that are not factored were given the spec ('expert',), so that the
state could not be sharded over more than one expert partition.
---
 t5x/contrib/moe/partitioning.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/t5x/contrib/moe/partitioning.py b/t5x/contrib/moe/partitioning.py
index 2dece00..0bc56fa 100644
--- a/t5x/contrib/moe/partitioning.py
+++ b/t5x/contrib/moe/partitioning.py
@@ -19,6 +19,7 @@ from typing import Any, Callable, Optional, Sequence, Tuple, Union
 from absl import logging
 import cached_property
 from flax import core as flax_core
+from flax import traverse_util
 import jax
 from jax.experimental.pjit import pjit
 from jax.sharding import Mesh
@@ -574,7 +575,18 @@ def _infer_state_filter_fn(
   if opt_def.hyper_params.factored:
     # Factored kernel terms (`v_col` and `v_row`) need to be identified for
     # expert sharding.
-    return training_utils.match_fn(r'.*expert.*/kernel/v_.*')
+    factored_match_fn = training_utils.match_fn(r'.*expert.*/kernel/v_.*')
+    # Kernels that are not factored (e.g. because they are too small) only have
+    # placeholders for these terms. Their shape, (1,), cannot be sharded.
+    placeholders = set()
+    param_states = traverse_util.flatten_dict(
+        flax_core.unfreeze(optimizer.state_dict())['state']['param_states'],
+        sep='/',
+    )
+    for name, value in param_states.items():
+      if getattr(value, 'shape', None) == (1,):
+        placeholders.add(name)
+    return lambda name: factored_match_fn(name) and name not in placeholders
   else:
     # Non-factored kernel terms (`v`) inherit the correct specs, so no state
     # updates will be required.
-- 
2.43.0


From a299d8e57ed3a2c14eaf84b0a34b2c7184a08ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 37/46] fix: upcycling leaves factored optimizer states of
 experts in their dense shape

---
 t5x/contrib/moe/checkpoints.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/t5x/contrib/moe/checkpoints.py b/t5x/contrib/moe/checkpoints.py
index 4233b85..eb5cd63 100644
--- a/t5x/contrib/moe/checkpoints.py
+++ b/t5x/contrib/moe/checkpoints.py
@@ -212,6 +212,15 @@ async def _read_upcycle_ts(
   # If saved as a numpy array, but a partitioned read is requested, return a
   # slice of the array for that host. Otherwise, return the whole thing.
   if isinstance(maybe_ts_spec, np.ndarray) and param_info:
+    if (
+        (not m_or_v)
+        and is_expert_param
+        and param_info.shape is not None
+        and maybe_ts_spec.shape == param_info.shape[1:]
+    ):
+      # Optimizer states without mesh axes (e.g. factored second moments) are
+      # saved as numpy arrays; they also need to be broadcast to all experts.
+      maybe_ts_spec = np.repeat(maybe_ts_spec[None], num_experts, axis=0)
     if mesh is not None and axes is not None:
       # Using GDA, return global array without selecting local chunk.
       return maybe_ts_spec
-- 
2.43.0


From b16d7ec9f7f42efd108bf7171115a3aa6908063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 38/46] fix: SaveBestCheckpointer settings are ignored by the
 Orbax checkpoint manager

---
 t5x/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index e0806b7..05faddc 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1322,10 +1322,10 @@ def create_orbax_checkpoint_manager(
       # differently since it's a functools.partial.
       extra_kwargs = _get_default_args(cfg.checkpointer_cls)
     else:
-      if issubclass(
-          type(cfg.checkpointer_cls), checkpoints.SaveBestCheckpointer
+      if inspect.isclass(cfg.checkpointer_cls) and issubclass(
+          cfg.checkpointer_cls, checkpoints.SaveBestCheckpointer
       ):
-        save_best_checkpointer = checkpoints.SaveBestCheckpointer(
+        save_best_checkpointer = cfg.checkpointer_cls(
             train_state=train_state,
             checkpoints_dir=model_dir,
             partitioner=partitioner,
-- 
2.43.0


From e4531501faedb392fa5228e1bb4ab136eeaf779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 39/46] fix: opening a checkpoint directory for restoring
 removes saves in progress

---
 t5x/checkpoints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index c8fc477..e10f076 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2293,6 +2293,9 @@ class OrbaxCheckpointManagerInterface:
     def best_fn(metrics):
       return metrics[metric_name_to_monitor]
 
+    # Without a save configuration this manager only restores. Temporary
+    # directories may then belong to a save in progress in another process.
+    restore_only = save_dtype is None and period is None
     options = ocp.CheckpointManagerOptions(
         max_to_keep=keep,
         save_interval_steps=period,
@@ -2300,7 +2303,7 @@ class OrbaxCheckpointManagerInterface:
         best_fn=best_fn if metric_name_to_monitor is not None else None,
         best_mode=metric_mode,
         keep_checkpoints_without_metrics=keep_checkpoints_without_metrics,
-        cleanup_tmp_directories=True,
+        cleanup_tmp_directories=not restore_only,
         step_prefix=get_checkpoint_prefix(),
         async_options=ocp.AsyncOptions(
             timeout_secs=600,
-- 
2.43.0


From 257e2ae02e66f45123a911a03056192ce994e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 40/46] fix: the Orbax manager deletes the checkpoint just
 saved when it ranks checkpoints by metrics

---
 t5x/checkpoints.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index e10f076..7687b32 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2239,7 +2239,13 @@ class OrbaxCheckpointManagerInterface:
           if info.step in step_to_metric:
             metrics = {metric_name_to_monitor: step_to_metric[info.step]}
             info.metrics = metrics
-      return super()._get_old_steps_to_remove()
+      steps_to_remove = super()._get_old_steps_to_remove()
+      if self._track_best and steps_to_remove:
+        # The metric of the latest checkpoint is usually not available yet, but
+        # it must be kept for recovery.
+        latest_step = max(info.step for info in self._checkpoints)
+        steps_to_remove = [s for s in steps_to_remove if s != latest_step]
+      return steps_to_remove
 
   def __init__(
       self,
-- 
2.43.0


From 85594f2acd2ab372adc7746ac5a348a256018191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 41/46] fix: renaming rules are not applied to Orbax
 checkpoints

---
 t5x/checkpoints.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 7687b32..78fd161 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2102,6 +2102,28 @@ def _construct_orbax_param_infos(
   return jax.tree_util.tree_map(_OrbaxParamInfo, param_names, mesh_axes)
 
 
+@dataclasses.dataclass
+class _StoredValueMetadata(ocp.metadata.tree.ValueMetadataEntry):
+  """Metadata of an array that knows the array's name in the checkpoint."""
+
+  name: str = ''
+
+
+def _add_stored_names(structure: PyTree) -> PyTree:
+  """Attaches to every array its name, which transformations may change."""
+
+  def _add_name(value: Any, name: str) -> Any:
+    if not isinstance(value, ocp.metadata.tree.ValueMetadataEntry):
+      return value
+    return _StoredValueMetadata(**vars(value), name=name)
+
+  return jax.tree_util.tree_map(
+      _add_name,
+      structure,
+      ocp.tree.get_param_names(structure, include_empty_nodes=False),
+  )
+
+
 def _construct_orbax_restoration_transforms(
     state_handler: ocp.PyTreeCheckpointHandler,
     step: int,
@@ -2121,6 +2143,7 @@ def _construct_orbax_restoration_transforms(
   structure, _ = state_handler._get_internal_metadata(  # pylint: disable=protected-access
       state_subdir
   )
+  structure = _add_stored_names(structure)
   # Note: Ideally we would use Orbax's `transform_fn` to do this logic, but
   # the problem is we need to modify `restore_args`, and there isn't a great
   # way to do that within Orbax.
@@ -2172,10 +2195,13 @@ def _construct_orbax_restoration_transforms(
     def _modify_orbax_param_info(info, value):
       if ocp.utils.leaf_is_placeholder(value):
         name = ocp.utils.name_from_leaf_placeholder(value)
-        return dataclasses.replace(
-            info, name=name, path=directory_ / name, parent_dir=directory_
-        )
-      return info
+      elif isinstance(value, _StoredValueMetadata):
+        name = value.name
+      else:
+        return info
+      return dataclasses.replace(
+          info, name=name, path=directory_ / name, parent_dir=directory_
+      )
 
     item_ = jax.tree.map(_make_orbax_internal_metadata, item_, restore_args)
     param_infos_ = checkpoint_utils.get_restore_parameters(directory_, item_)
-- 
2.43.0


From fcf8df0d52699f243f41930460135b04843befd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 42/46] fix: training evaluation looks up a task given as an
 object by its name

---
 t5x/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index 05faddc..df77a13 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -2157,9 +2157,13 @@ def get_training_eval_datasets(
       )
       continue
     logging.info('Loading task %s for training evaluation.', task.name)
-    task_cfg = dataclasses.replace(
-        cfg, mixture_or_task_name=task.name, batch_size=1
-    )
+    if task is mixture_or_task:
+      # Keep a `Task` given directly, which need not be registered.
+      task_cfg = dataclasses.replace(cfg, batch_size=1)
+    else:
+      task_cfg = dataclasses.replace(
+          cfg, mixture_or_task_name=task.name, batch_size=1
+      )
     # We set `num_epochs` to be finite to avoid infinite loops on shards that
     # have input examples that are all filtered.
     datasets[task.name] = _repeat_shard_batch_take_cache(
-- 
2.43.0


From 4b4fe80ef62ddc14efd5f6c677e159e6691c029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:27 +0000
Subject: [PATCH 43/46] fix: the decoder-only export preprocessor scores
 batches of any size

---
 t5x/export_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index 5acc0ed..bced1ad 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -776,7 +776,7 @@ def create_decoder_preprocessor(
       inputs_width = tf.expand_dims(inputs_length, -1)
       inputs_width_add_pos = inputs_width + 1
     else:
-      inputs_width = tf.zeros(tf.shape(decoder_tokens)[0], dtype=tf.int32)
+      inputs_width = tf.zeros([tf.shape(decoder_tokens)[0], 1], dtype=tf.int32)
       inputs_width_add_pos = inputs_width
 
     def featurize(text, length):
-- 
2.43.0


From e9f1557e823cf6cbc8e5835741ddaddc38815595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:27 +0000
Subject: [PATCH 44/46] fix: the decoder-only export preprocessor takes texts
 of different lengths

---
 t5x/export_lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index bced1ad..b1bf550 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -764,8 +764,10 @@ def create_decoder_preprocessor(
     decoder_tokens = tf.map_fn(
         tokenize,
         input_texts,
-        fn_output_signature=(tf.int32),
-    )
+        fn_output_signature=tf.RaggedTensorSpec(
+            shape=[None], dtype=tf.int32, ragged_rank=0
+        ),
+    ).to_tensor()
 
     if input_feature == 'inputs':
       # 'inputs_width' is the length of 'inputs' (excluding padding 0).
-- 
2.43.0


From 9173014abc7fc5bce90bf62a0ab1832505f97f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:27 +0000
Subject: [PATCH 45/46] fix: warm-up examples may use all the tokens that were
 found

---
 t5x/export_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index b1bf550..f29681e 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -1247,7 +1247,7 @@ def generate_examples_with_sequence_lengths(
             ' are valid in the vocabulary, or increase'
             ' chars_per_token_upper_bound.'
         )
-      for start_index in range(len(all_ids) - num_tokens):
+      for start_index in range(len(all_ids) - num_tokens + 1):
         # Truncating may return an empty string for some IDs, for example
         # vocabulary.decode([3]), so search for an ID subarray whose
         # resulting string actually has the correct length.
-- 
2.43.0


From 269a542b16ec53af29cd651f17e9f7d584282ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:27 +0000
Subject: [PATCH 46/46] fix: exporting without a partitioner and dtype keeps
 the checkpoint's dtypes

---
 t5x/export_lib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index f29681e..0fb0336 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -451,7 +451,9 @@ def load_params_from_checkpoint(
         state_transformation_fns=(
             restore_checkpoint_cfg.state_transformation_fns
         ),
-        restore_dtype=jnp.dtype(restore_checkpoint_cfg.dtype),
+        restore_dtype=jnp.dtype(restore_checkpoint_cfg.dtype)
+        if restore_checkpoint_cfg.dtype
+        else None,
     )
     return frozen_dict.freeze(variables['target'])
 
-- 
2.43.0

