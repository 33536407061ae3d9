From aed4bc53b20684528c3dd6a714d071704a27bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:26 +0000
Subject: [PATCH 01/12] fix: restore zero-size arrays from sharded checkpoints

---
 vmoe/checkpoints/partitioned.py   | 5 +++--
 vmoe/checkpoints/serialization.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/vmoe/checkpoints/partitioned.py b/vmoe/checkpoints/partitioned.py
index a7d0402..458e952 100644
--- a/vmoe/checkpoints/partitioned.py
+++ b/vmoe/checkpoints/partitioned.py
@@ -528,8 +528,9 @@ def _restore_local_buffers(
         ckpt_chunks.chunks[i], ckpt_chunks.global_slices[i]):
       for global_slice, buffer in local_buffers[i].items():
         intersect_slice = _intersect_slicend(global_slice, ckpt_slice)
-        if (global_slice == ckpt_slice or  # account for scalars with shape ().
-            intersect_slice):
+        # Note: the intersection is None when it contains no elements, and it is
+        # an empty SliceNd for scalars with shape ().
+        if intersect_slice is not None:
           local_intersect_slice = tuple(
               slice(a.start - b.start, a.stop - b.start)
               for a, b in safe_zip(intersect_slice, global_slice))
diff --git a/vmoe/checkpoints/serialization.py b/vmoe/checkpoints/serialization.py
index 2c0bbe3..b8f8e8d 100644
--- a/vmoe/checkpoints/serialization.py
+++ b/vmoe/checkpoints/serialization.py
@@ -216,7 +216,8 @@ def _lazy_array_chunks_encode(
     subchunk_size = max(1, int(_MAX_CHUNK_SIZE / chunk.dtype.itemsize))
     subchunks = [
         chunk[i:i + subchunk_size]
-        for i in range(0, chunk.size, subchunk_size)
+        # Note: empty chunks are encoded with a single (empty) subchunk.
+        for i in range(0, max(1, chunk.size), subchunk_size)
     ]
     return [subchunks, global_slice]
 
-- 
2.43.0


From f05ea9b75e680e1f832061cbdfd78f5a218aec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:10 +0000
Subject: [PATCH 02/12] fix: never report steps with missing or temporary
 checkpoint files as complete

---
 vmoe/checkpoints/base.py | 51 ++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 01ff717..e2a0f89 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -13,8 +13,8 @@
 # limitations under the License.
 
 """Base functions for checkpointing."""
+import collections
 import functools
-import itertools
 import multiprocessing.pool
 import os
 import re
@@ -72,8 +72,8 @@ def iterate_complete_steps_for_prefix(
     decreasing: bool = False) -> Iterator[int]:
   """Iterates over steps with complete checkpoints from a given prefix.
 
-  Complete steps are those for which there are not incomplete (temp) checkpoint
-  shards and for which all suffixes are present.
+  Complete steps are those for which there are not incomplete (temp) or missing
+  checkpoint shards and for which all suffixes are present.
 
   E.g. If the prefix is '/dir/ckpt', the suffixes are ('.index', '.data') and
   the files in '/dir/' are: '/dir/ckpt_1.index', '/dir/ckpt_1.data',
@@ -103,22 +103,37 @@ def iterate_complete_steps_for_prefix(
       raise ValueError(f'Filepath {filepath!r} does not contain a step number.')
     step = int(m.group(2)[1:])
     suffix = m.group(3)
-    return step, suffix
-
-  # Find set of (step, suffix) from the given prefix.
-  steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(prefix + '*')))
-  # Remove any steps where there is an associated temp file.
+    # Shard index and count, if the file is a shard (e.g. '-00000-of-00002').
+    shard = tuple(map(int, m.group(4)[1:].split('-of-'))) if m.group(4) else None
+    return step, suffix, shard
+
+  def _glob(prefix):
+    # Ignore files from other prefixes (e.g. '/dir/ckpt_old_1' for '/dir/ckpt').
+    name = os.path.basename(prefix)
+    return [
+        _parse_step_and_suffix_or_error(filepath)
+        for filepath in gfile.glob(prefix + '*')
+        if os.path.basename(CHECKPOINT_REGEX.sub(r'\1', filepath)) == name
+    ]
+
+  # Find the suffixes and shards available for each step from the given prefix.
+  suffixes_per_step = collections.defaultdict(set)
+  shards_per_step_and_suffix = collections.defaultdict(set)
+  for step, suffix, shard in _glob(prefix):
+    suffixes_per_step[step].add(suffix)
+    if shard is not None:
+      shards_per_step_and_suffix[(step, suffix, shard[1])].add(shard[0])
+  # Ignore any steps where there is an associated temp file or missing shards.
   workdir = os.path.dirname(prefix)
-  pattern_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}') + '*'
-  incomplete_steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(pattern_tmp)))
-
-  for step, group in itertools.groupby(
-      sorted(steps_and_suffixes - incomplete_steps_and_suffixes,
-             reverse=decreasing),
-      lambda x: x[0]):
-    if not suffixes.difference(set(x[1] for x in group)):
+  prefix_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}')
+  incomplete_steps = set(step for step, _, _ in _glob(prefix_tmp))
+  incomplete_steps.update(
+      step for (step, _, count), shards in shards_per_step_and_suffix.items()
+      if len(shards) < count)
+
+  for step in sorted(
+      suffixes_per_step.keys() - incomplete_steps, reverse=decreasing):
+    if suffixes <= suffixes_per_step[step]:
       yield step
 
 
-- 
2.43.0


From 23582a5f571fcfff063662a4d3d522c77fcf4b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:10 +0000
Subject: [PATCH 03/12] fix: keep the big_vision_rsqrt learning rate at 0 after
 the cooldown

With decay_steps < total_steps the linear cooldown went on below zero, i.e.
training performed gradient ascent once the schedule had ended.
---
 vmoe/train/schedule.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vmoe/train/schedule.py b/vmoe/train/schedule.py
index 91b8460..fd89df9 100644
--- a/vmoe/train/schedule.py
+++ b/vmoe/train/schedule.py
@@ -16,6 +16,7 @@
 import math
 
 import jax
+import jax.numpy as jnp
 import optax
 
 
@@ -101,8 +102,9 @@ def big_vision_rsqrt_schedule(
 
   def _cooldown(count):
     # Note: count starts from 0, optax.join_schedules subtracts
-    # decay_steps - cooldown_steps.
-    return cooldown_peak_value * (1 - count / cooldown_steps)
+    # decay_steps - cooldown_steps. The learning rate stays at 0 after the last
+    # step of the schedule, it must never become negative.
+    return cooldown_peak_value * jnp.maximum(1 - count / cooldown_steps, 0.)
 
   schedules, boundaries = [], []
   # Warmup phase.
-- 
2.43.0


From 4b97dcc80d6a98610877a69e05c9407674aa4c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:34 +0000
Subject: [PATCH 04/12] fix: pair updates and parameters by name in
 add_decayed_weights

Flattened updates and params were zipped by position. Their key order differs
whenever params are not sorted (e.g. eager initialization), and then parameters
were decayed with the value of another parameter.
---
 vmoe/train/optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmoe/train/optimizer.py b/vmoe/train/optimizer.py
index f90ff58..5ad6b96 100644
--- a/vmoe/train/optimizer.py
+++ b/vmoe/train/optimizer.py
@@ -75,11 +75,11 @@ def add_decayed_weights(
         flax.serialization.to_state_dict(updates), sep='/')
     flatparams = flax.traverse_util.flatten_dict(
         flax.serialization.to_state_dict(params), sep='/')
+    # Note: the order of the keys may be different in updates and params.
     flatupdates = dict(utils.safe_map(
-        lambda k, g, p: (k, g + weight_decay_fn(k) * p),
+        lambda k, g: (k, g + weight_decay_fn(k) * flatparams[k]),
         flatupdates.keys(),
-        flatupdates.values(),
-        flatparams.values()))
+        flatupdates.values()))
     updates = flax.serialization.from_state_dict(
         updates, flax.traverse_util.unflatten_dict(flatupdates, sep='/'))
     return updates, state
-- 
2.43.0


From c1e1a8213a31dbea7583132604e89788beabbc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:33 +0000
Subject: [PATCH 05/12] fix: do not remove the mixup key from the given train
 state

The train step wrapped with mixup modified the rngs dict of the state passed by
the caller, so that state could not be used (e.g. compared, or stepped) again.
---
 vmoe/train/trainer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmoe/train/trainer.py b/vmoe/train/trainer.py
index 3c5e581..d712c0f 100644
--- a/vmoe/train/trainer.py
+++ b/vmoe/train/trainer.py
@@ -934,7 +934,7 @@ def wrap_train_step_with_mixup(
       raise ValueError(f'Mixup requires a PRNGKey with the name "mixup", but '
                        f'only these were given: {sorted(state.rngs.keys())}')
     frozen_rngs = isinstance(state.rngs, flax.core.FrozenDict)
-    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else state.rngs
+    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else dict(state.rngs)
     # Apply mixup on images and labels.
     mixup_rng = rngs.pop('mixup')
     mixup_rng, next_mixup_rng = jax.random.split(mixup_rng)
@@ -960,7 +960,7 @@ def wrap_train_step_with_mixup(
     state = state.replace(rngs=flax.core.freeze(rngs) if frozen_rngs else rngs)
     state, metrics = train_step_fn(state, images, labels, *args, **kwargs)
     # Add the mixup PRNGKey back to the state.
-    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else state.rngs
+    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else dict(state.rngs)
     rngs['mixup'] = next_mixup_rng
     state = state.replace(rngs=flax.core.freeze(rngs) if frozen_rngs else rngs)
     return state, metrics
-- 
2.43.0


From 3074d5d314b3ad82541f68530e231388cc41c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:31 +0000
Subject: [PATCH 06/12] fix: make the devices of each process a contiguous
 slice of the logical mesh

---
 vmoe/partitioning.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/vmoe/partitioning.py b/vmoe/partitioning.py
index 6a0a087..d15c7b0 100644
--- a/vmoe/partitioning.py
+++ b/vmoe/partitioning.py
@@ -277,15 +277,17 @@ def get_logical_mesh_tile_by_process(
     hardware_mesh_local_shape: Tuple[int, ...]) -> Mesh:
   """Returns a logical mesh where all process' devices form a contiguous slice."""
   # Split each axis of the hardware mesh in
-  # (partitions_process, partitions_device, replica_process, replica_device).
-  # For TPUs: (Z, Y, X, C) -> (Z_P_H, Z_P_D, Z_R_H, Z_R_D, Y_P_H, ...).
+  # (partitions_process, replica_process, partitions_device, replica_device).
+  # Note that the devices of a process are consecutive along each axis of the
+  # hardware mesh, so the axes across processes must be the major ones.
+  # For TPUs: (Z, Y, X, C) -> (Z_P_H, Z_R_H, Z_P_D, Z_R_D, Y_P_H, ...).
   def fn(p, r, l):
     # (p, r) are the number of (partitions, replicas) across a given axis.
     # l is the number of devices per process across a given axis.
     if p % l == 0:
-      return p // l, l, r, 1
+      return p // l, r, l, 1
     elif r % l == 0:
-      return 1, p, r // l, l
+      return p, r // l, 1, l
     else:
       raise ValueError(
           f'Neither p = {p}, nor r = {r} are multiples of l = {l}')
@@ -296,8 +298,8 @@ def get_logical_mesh_tile_by_process(
   # Put all partition_process axes first, then partition_devices axes, then
   # all replica_process axes, and finally all replica_device axes.
   devices = devices.transpose(tuple(range(0, 4 * hardware_mesh.ndim, 4)) +
-                              tuple(range(1, 4 * hardware_mesh.ndim, 4)) +
                               tuple(range(2, 4 * hardware_mesh.ndim, 4)) +
+                              tuple(range(1, 4 * hardware_mesh.ndim, 4)) +
                               tuple(range(3, 4 * hardware_mesh.ndim, 4)))
   # Reshape devices to (num_partitions, num_replicas).
   num_partitions = np.prod(partitions)
-- 
2.43.0


From fc09ed8a0886a38454055adf17081af699707481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:31 +0000
Subject: [PATCH 07/12] fix: keep all the examples when evaluation data is
 filtered

---
 vmoe/data/input_pipeline.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/vmoe/data/input_pipeline.py b/vmoe/data/input_pipeline.py
index f895ccf..21a9b09 100644
--- a/vmoe/data/input_pipeline.py
+++ b/vmoe/data/input_pipeline.py
@@ -106,6 +106,7 @@ def get_dataset(
                      f'and {jax.device_count()} respectively.')
   batch_size_per_process = batch_size // jax.process_count()
   data = builder.as_dataset()
+  cardinality = data.cardinality()
   data = data.filter(pre_filter_fn) if pre_filter_fn is not None else data
   # Optionally, cache loaded data.
   if cache == 'loaded':
@@ -130,12 +131,21 @@ def get_dataset(
       deterministic=False)
   if variant != 'train':
     num_fake_examples = builder.get_num_fake_examples(batch_size_per_process)
-    if num_fake_examples > 0:
+    # The fake examples are computed from the number of examples before the
+    # filter is applied. If the filter removes some examples, these must be
+    # replaced by additional fake examples, so that all the processes have the
+    # same number of batches and no real example is dropped.
+    filtered = pre_filter_fn is not None and cardinality >= 0
+    if num_fake_examples > 0 or filtered:
       fake_elem = tf.nest.map_structure(
           lambda spec: tf.zeros(spec.shape, spec.dtype), data.element_spec)
       fake_data = tf.data.Dataset.from_tensors(fake_elem)
-      fake_data = fake_data.repeat(num_fake_examples).cache()
-      data = data.concatenate(fake_data)
+      if filtered:
+        data = data.concatenate(fake_data.repeat())
+        data = data.take(cardinality + num_fake_examples)
+      else:
+        fake_data = fake_data.repeat(num_fake_examples).cache()
+        data = data.concatenate(fake_data)
   # Batch data.
   data = data.batch(batch_size_per_process, drop_remainder=True)
   # Optionally, cache data after batching.
-- 
2.43.0


From 1f12a5e5b614d378dd0398c7d98dc8774703b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:27 +0000
Subject: [PATCH 08/12] fix: ignore over-capacity assignments when reporting
 the combine weights of ExpertIndicesDispatcher

A token dropped by an expert (buffer index >= capacity) gets nothing from it
(see ExpertIndicesDispatcher.combine), but get_combine_weights still reported
the expert as selected, unlike with EinsumDispatcher.
---
 vmoe/projects/adversarial_attacks/restore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vmoe/projects/adversarial_attacks/restore.py b/vmoe/projects/adversarial_attacks/restore.py
index 6d9b7fc..35408cf 100644
--- a/vmoe/projects/adversarial_attacks/restore.py
+++ b/vmoe/projects/adversarial_attacks/restore.py
@@ -83,8 +83,10 @@ def get_combine_weights(intermediates) -> Dict[str, jnp.ndarray]:
       # (G, S, K) -> (G, S, K, E).
       indices_one_hot = jax.nn.one_hot(
           dispatcher.indices[..., 0], dispatcher.num_experts, dtype=jnp.float32)
+      # Assignments over the capacity of the expert are ignored.
+      mask = dispatcher.indices[..., 1] < dispatcher.capacity
       combine_weights = (
-          indices_one_hot * dispatcher.combine_weights[:, :, :, None])
+          indices_one_hot * (dispatcher.combine_weights * mask)[:, :, :, None])
       # (G, S, K, E) -> (G, S, E).
       combine_weights = jnp.sum(combine_weights, axis=2)
     else:
-- 
2.43.0


From 82e0025672c0b15ebf9574f45fd5a73c21bd1464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:04 +0000
Subject: [PATCH 09/12] fix: keep backreferences and inline flags of each regex
 in make_match_fn_from_regex_list

---
 vmoe/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vmoe/utils.py b/vmoe/utils.py
index ca89f12..35f75de 100644
--- a/vmoe/utils.py
+++ b/vmoe/utils.py
@@ -181,9 +181,10 @@ def make_match_fn_from_regex_list(
     return None
   if isinstance(regexes, str):
     regexes = [regexes]
-  joined_regex = re.compile(
-      '(?:' + '|'.join([f'(?:{r})' for r in regexes]) + ')')
+  # Note: The regexes are not joined into a single one, since this would change
+  # the meaning of backreferences and inline flags.
+  compiled_regexes = [re.compile(r) for r in regexes]
 
   def fn(string: str) -> bool:
-    return joined_regex.search(string) is not None
+    return any(r.search(string) is not None for r in compiled_regexes)
   return fn
-- 
2.43.0


From b768e8f9488d1469a28d8ebc4a504070079323cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:04 +0000
Subject: [PATCH 10/12] fix: keep backreferences and inline flags of each
 pattern in freeze_weights

---
 vmoe/train/optimizer.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/vmoe/train/optimizer.py b/vmoe/train/optimizer.py
index 5ad6b96..cadc261 100644
--- a/vmoe/train/optimizer.py
+++ b/vmoe/train/optimizer.py
@@ -156,17 +156,15 @@ def freeze_weights(
         'You cannot specify both trainable_pattern and frozen_pattern. '
         f'trainable_pattern = {trainable_pattern!r}, '
         f'frozen_pattern = {frozen_pattern!r}')
-  # Create a single regex from trainable_pattern/frozen_pattern.
-  pattern = trainable_pattern or frozen_pattern
-  if not isinstance(pattern, str):
-    pattern = '|'.join(f'(?:{x})' for x in pattern)
-  pattern = re.compile(pattern)
+  # Function matching any of the regexes in trainable_pattern/frozen_pattern.
+  match_fn = utils.make_match_fn_from_regex_list(
+      trainable_pattern or frozen_pattern)
 
   def frozen_fn(params: optax.Params) -> PyTree:
     flatparams = flax.traverse_util.flatten_dict(
         flax.serialization.to_state_dict(params), sep='/')
     output = {
-        key: search_true if pattern.search(key) else search_false
+        key: search_true if match_fn(key) else search_false
         for key, value in flatparams.items()
     }
     return flax.serialization.from_state_dict(
-- 
2.43.0


From 3f2124ef390b9097632dd9e3ed5a297292ca10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:04 +0000
Subject: [PATCH 11/12] fix: use position_emb and attention_qk_norm in
 EncoderMoeEnsemble

---
 vmoe/nn/vit_moe_ensemble.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vmoe/nn/vit_moe_ensemble.py b/vmoe/nn/vit_moe_ensemble.py
index b202b7d..1f15cac 100644
--- a/vmoe/nn/vit_moe_ensemble.py
+++ b/vmoe/nn/vit_moe_ensemble.py
@@ -80,9 +80,7 @@ class EncoderMoeEnsemble(vmoe.nn.vit_moe.EncoderMoe):
   @nn.compact
   def __call__(self, inputs):
     assert inputs.ndim == 3, f'Expected ndim = 3, but got shape {inputs.shape}'
-    x = vmoe.nn.vit_moe.AddPositionEmbs(
-        posemb_init=nn.initializers.normal(stddev=0.02),  # from BERT.
-        name='posembed_input')(inputs)
+    x = self.add_position_emb(inputs)
     x = nn.Dropout(rate=self.dropout_rate, deterministic=self.deterministic)(x)
 
     dense_mlp_params = dict(mlp_dim=self.mlp_dim,
@@ -102,6 +100,7 @@ class EncoderMoeEnsemble(vmoe.nn.vit_moe.EncoderMoe):
         num_heads=self.num_heads,
         dropout_rate=self.dropout_rate,
         attention_dropout_rate=self.attention_dropout_rate,
+        attention_qk_norm=self.attention_qk_norm,
         deterministic=self.deterministic,
         dtype=self.dtype)
 
-- 
2.43.0


From 3fb84208f4508522a68e26390d02355ddf762f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:27 +0000
Subject: [PATCH 12/12] fix: SoftRouter reported mu_similarity_max 0 when all
 pairs of slots have negative similarity

---
 vmoe/projects/soft_moe/router.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmoe/projects/soft_moe/router.py b/vmoe/projects/soft_moe/router.py
index 2dbb3bc..d19cd81 100644
--- a/vmoe/projects/soft_moe/router.py
+++ b/vmoe/projects/soft_moe/router.py
@@ -158,8 +158,9 @@ class SoftRouter(nn.Module):
       assert mu.ndim == 3 and mu.shape[1:] == (n, p)
       mu_sim = cosine_psim(mu, batch_axes=(), contract_axes=(0,))
       mu_id = jnp.eye(n * p)[None, :, :].reshape((n, p, n, p))
-      mu_sim_masked = (1 - mu_id) * mu_sim
-      mu_sim_masked += mu_id * mu_sim_masked.max()
+      # Unlike those of the weights, these similarities can all be negative.
+      mu_sim_max = jnp.where(mu_id > 0, -1., mu_sim).max()
+      mu_sim_masked = jnp.where(mu_id > 0, mu_sim_max, mu_sim)
       metrics['mu_similarity_min'] = mu_sim_masked.min()
       metrics['mu_similarity_max'] = mu_sim_masked.max()
       metrics['mu_similarity_mean'] = (
-- 
2.43.0

