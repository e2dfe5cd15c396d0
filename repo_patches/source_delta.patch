From 65bd4b820290a7eefa1c27663068b75a52987922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 01/32] fix: keep sparsity_m_by_n in PruneLowMagnitude's config

A model pruned with an m-by-n pattern lost the pattern when it was saved
before its first training step and loaded again: the loaded wrappers fell
back to unstructured pruning without any error.
---
 .../python/core/sparsity/keras/pruning_wrapper.py              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
index 02fa34a..e40f30c 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
@@ -340,7 +340,8 @@ class PruneLowMagnitude(Wrapper):
     config = {
         'pruning_schedule': self.pruning_schedule.get_config(),
         'block_size': self.block_size,
-        'block_pooling_type': self.block_pooling_type
+        'block_pooling_type': self.block_pooling_type,
+        'sparsity_m_by_n': self.sparsity_m_by_n
     }
     return dict(list(base_config.items()) + list(config.items()))
 
-- 
2.43.0


From 5aae7360acfdf849e59612d5a8089805f263b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 02/32] fix: initialise the pruning step of every new layer,
 not of all or none

UpdatePruningStep looked only at the first pruned layer: in a model mixing
restored and freshly pruned layers it either reset the restored layers'
progress or left the new layers uninitialised, so that managed training
failed.
---
 .../core/sparsity/keras/pruning_callbacks.py      | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py
index 555de78..adb4c94 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py
@@ -54,15 +54,14 @@ class UpdatePruningStep(callbacks.Callback):
   def on_train_begin(self, logs=None):
     # Collect all the prunable layers in the model.
     self.prunable_layers = pruning_wrapper.collect_prunable_layers(self.model)
-    if not self.prunable_layers:
-      return
-    # If the model is newly created/initialized, set the 'pruning_step' to 0.
-    # If the model is saved and then restored, do nothing.
-    if self.prunable_layers[0].pruning_step == -1:
-      tuples = []
-      for layer in self.prunable_layers:
+    # For every layer that is newly created/initialized, set its
+    # 'pruning_step' to 0. For layers that were saved and then restored, do
+    # nothing. The two kinds may be mixed in one model.
+    tuples = []
+    for layer in self.prunable_layers:
+      if layer.pruning_step == -1:
         tuples.append((layer.pruning_step, 0))
-      K.batch_set_value(tuples)
+    K.batch_set_value(tuples)
 
   def on_epoch_end(self, batch, logs=None):
     # At the end of every epoch, remask the weights. This ensures that when
-- 
2.43.0


From 15ba0c6b549227a383d9e6032c1d1cf41bb39a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 03/32] fix: refuse every training step without
 UpdatePruningStep, not only the first

The refused step was counted before the check, so a retry passed the check
and trained unmanaged, with part of the layers at the wrong step.
---
 .../core/sparsity/keras/pruning_wrapper.py      | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
index e40f30c..5a3e589 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
@@ -287,21 +287,24 @@ class PruneLowMagnitude(Wrapper):
       training = K.learning_phase()
 
     def increment_step():
-      with tf.control_dependencies(
-          [tf_compat.assign(self.pruning_step, self.pruning_step + 1)]):
-        return tf.no_op('update')
-
-    def add_update():
+      # Without the callback 'pruning_step' is still -1. Check that before
+      # counting the step, so that every unmanaged step is refused, not only
+      # the first one.
       with tf.control_dependencies([
           tf.debugging.assert_greater_equal(
               self.pruning_step,
-              np.int64(1),
+              np.int64(0),
               message=self._PRUNE_CALLBACK_ERROR_MSG)
       ]):
         with tf.control_dependencies(
-            [self.pruning_obj.conditional_mask_update()]):
+            [tf_compat.assign(self.pruning_step, self.pruning_step + 1)]):
           return tf.no_op('update')
 
+    def add_update():
+      with tf.control_dependencies(
+          [self.pruning_obj.conditional_mask_update()]):
+        return tf.no_op('update')
+
     def no_op():
       return tf.no_op('no_update')
 
-- 
2.43.0


From eaea5fb9ec3c526bb1a19f3f2ff1ca4a3b9fe898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 04/32] fix: block pruning of weights whose block grid has a
 single row or column

The blanket squeeze dropped that dimension and the first mask update, possibly
deep into training, failed with 'Input tensor must be rank 2'. Weights are
required to be rank 2 anyway, so only the two pooling dimensions are dropped.
---
 .../python/core/sparsity/keras/pruning_impl.py      | 13 +++----------
 .../python/core/sparsity/keras/pruning_utils.py     |  3 ++-
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
index f836f36..043536e 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
@@ -177,11 +177,7 @@ class Pruning(object):
     if self._block_size == [1, 1]:
       return self._update_mask(weights)
 
-    # TODO(pulkitb): Check if squeeze operations should now be removed since
-    # we are only accepting 2-D weights.
-
-    squeezed_weights = tf.squeeze(weights)
-    abs_weights = tf.math.abs(squeezed_weights)
+    abs_weights = tf.math.abs(weights)
     pooled_weights = pruning_utils.factorized_pool(
         abs_weights,
         window_shape=self._block_size,
@@ -189,16 +185,13 @@ class Pruning(object):
         strides=self._block_size,
         padding='SAME')
 
-    if pooled_weights.get_shape().ndims != 2:
-      pooled_weights = tf.squeeze(pooled_weights)
-
     new_threshold, new_mask = self._update_mask(pooled_weights)
 
     updated_mask = pruning_utils.expand_tensor(new_mask, self._block_size)
     sliced_mask = tf.slice(
         updated_mask, [0, 0],
-        [squeezed_weights.get_shape()[0],
-         squeezed_weights.get_shape()[1]])
+        [weights.get_shape()[0],
+         weights.get_shape()[1]])
     return new_threshold, tf.reshape(sliced_mask, tf.shape(weights))
 
   def _weight_assign_objs(self):
diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py
index c92ff52..c5fa279 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py
@@ -156,7 +156,8 @@ def factorized_pool(input_tensor,
         strides=[1, strides[1]],
         padding=padding)
 
-  return tf.squeeze(tf.transpose(width_pooling, perm=[0, 1, 3, 2]))
+  return tf.squeeze(
+      tf.transpose(width_pooling, perm=[0, 1, 3, 2]), axis=[0, 1])
 
 
 def convert_to_tuple_of_two_int(value, name):
-- 
2.43.0


From fea3a05d3fddecb94e507f632986c189211628c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 05/32] fix: PolynomialDecay with begin_step equal to end_step

The constructor accepts it, but the decay divided zero by zero and the NaN
sparsity made the mask update at that step fail.
---
 .../core/sparsity/keras/pruning_schedule.py    | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py
index c9bc2ec..0c4e712 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py
@@ -220,21 +220,13 @@ class PolynomialDecay(PruningSchedule):
     self._validate_sparsity(final_sparsity, 'final_sparsity')
 
   def __call__(self, step):
-    # TODO(tf-mot): consider switch to divide for 1.XX also.
-    if hasattr(tf, 'div'):
-      divide = tf.div
-    else:
-      divide = tf.math.divide
-
     # TODO(pulkitb): Replace function with tf.polynomial_decay
     with tf.name_scope('polynomial_decay_pruning_schedule'):
-      p = tf.math.minimum(
-          1.0,
-          tf.math.maximum(
-              0.0,
-              divide(
-                  tf.dtypes.cast(step - self.begin_step, tf.float32),
-                  self.end_step - self.begin_step)))
+      # `begin_step == end_step` is valid: nothing remains at `end_step`.
+      remaining = tf.math.divide_no_nan(
+          tf.dtypes.cast(self.end_step - step, tf.float32),
+          tf.dtypes.cast(self.end_step - self.begin_step, tf.float32))
+      p = tf.math.minimum(1.0, tf.math.maximum(0.0, 1.0 - remaining))
       sparsity = tf.math.add(
           tf.math.multiply(self.initial_sparsity - self.final_sparsity,
                            tf.math.pow(1 - p, self.power)),
-- 
2.43.0


From 70225f840043c36866a49b35bf7978ffeaad9986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 06/32] fix: forward the training flag to layers wrapped for
 clustering

---
 .../python/core/clustering/keras/cluster_wrapper.py         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 82c6346..5f14370 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -14,6 +14,7 @@
 # ==============================================================================
 """Keras ClusterWeights wrapper API."""
 
+import inspect
 import operator
 
 import tensorflow as tf
@@ -329,6 +330,11 @@ class ClusterWeights(Wrapper):
     # Update cluster associations in order to set the latest weights
     self.update_clustered_weights_associations()
 
+    # Layers such as BatchNormalization or Dropout behave differently in
+    # training, so that the training flag needs to reach the wrapped layer.
+    if 'training' in inspect.getfullargspec(self.layer.call).args:
+      kwargs['training'] = training
+
     return self.layer.call(inputs, **kwargs)
 
   def compute_output_shape(self, input_shape):
-- 
2.43.0


From eeb43c4332ae477c7a7e6305a04bf97cbc38e75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 07/32] fix: save the sparsity mask and zero centroid of
 sparsity-preserving clustering

---
 .../core/clustering/keras/cluster_wrapper.py  | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 5f14370..a5bf681 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -269,11 +269,27 @@ class ClusterWeights(Wrapper):
         clustered_weights = (
             self.clustering_algorithms[weight_name].get_clustered_weight(
                 pulling_indices, original_weight))
-        self.sparsity_masks[weight_name] = (
+        sparsity_mask = (
             tf.cast(tf.math.not_equal(clustered_weights, 0), dtype=tf.float32))
         # If the model is pruned (which we suppose), this is approximately zero
-        self.zero_idx[weight_name] = tf.argmin(
+        zero_idx = tf.argmin(
             tf.abs(self.cluster_centroids[weight_name]), axis=-1)
+        # Both are state of the layer: they need to be saved and restored
+        # together with the centroids.
+        self.sparsity_masks[weight_name] = self.add_weight(
+            '{}{}'.format('sparsity_mask_', weight_name),
+            shape=sparsity_mask.shape,
+            dtype=tf.float32,
+            trainable=False,
+            initializer=keras.initializers.Constant(value=sparsity_mask),
+        )
+        self.zero_idx[weight_name] = self.add_weight(
+            '{}{}'.format('zero_idx_', weight_name),
+            shape=zero_idx.shape,
+            dtype=tf.int64,
+            trainable=False,
+            initializer=keras.initializers.Constant(value=zero_idx),
+        )
 
   def update_clustered_weights_associations(self):
     for weight_name, original_weight in self.original_clusterable_weights.items(
-- 
2.43.0


From 0e52685440526ad1793642cb73221aa406e35962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 08/32] fix: freezing a clustered layer freezes its centroids
 and weights

---
 .../python/core/clustering/keras/cluster_wrapper.py          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index a5bf681..a5a4c32 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -402,10 +402,15 @@ class ClusterWeights(Wrapper):
 
   @property
   def trainable_weights(self):
+    if not self.trainable:
+      return []
     return self.layer.trainable_weights + self._trainable_weights
 
   @property
   def non_trainable_weights(self):
+    if not self.trainable:
+      return (self.layer.non_trainable_weights + self._trainable_weights +
+              self._non_trainable_weights)
     return self.layer.non_trainable_weights + self._non_trainable_weights
 
   @property
-- 
2.43.0


From 0d085eb4e43893ca41ff114f7e8256a5085801b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 09/32] fix: cluster_scope covers clustered recurrent layers

---
 .../python/core/clustering/keras/cluster.py                  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 4535a94..1b1c9a8 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -50,7 +50,10 @@ def cluster_scope():
     loaded_model = keras.models.load_model(keras_file)
   ```
   """
-  return CustomObjectScope({'ClusterWeights': cluster_wrapper.ClusterWeights})
+  return CustomObjectScope({
+      'ClusterWeights': cluster_wrapper.ClusterWeights,
+      'ClusterWeightsRNN': cluster_wrapper.ClusterWeightsRNN,
+  })
 
 
 def cluster_weights(
-- 
2.43.0


From 2d4cf7c80677c30691b365c2c9b2fd2181a78ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 10/32] fix: strip_clustering of MultiHeadAttention returns a
 clean, saveable layer

---
 .../core/clustering/keras/cluster_wrapper.py  | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index a5a4c32..48fc8c6 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -493,22 +493,26 @@ class ClusterWeightsMHA(ClusterWeights):
     setattr(layer, post, new_weight)
 
   def strip_clustering(self):
-    """The restore from config is not working for MHA layer.
+    """Returns a clean MHA layer holding the clustered weights.
 
-    Weights are not created when the build function is called. Therefore,
-    original weights have been replaced in the layer.
+    The weights of a MHA layer are not created when its build function is
+    called, but by the first call of the layer.
 
     Returns:
-      Updated layer.
+      New layer.
     """
-    for weight_name, original_weight in (
-        self.original_clusterable_weights.items()):
-
-      # Get the clustered weights
-      clustered_weight = self.get_weight_from_layer(weight_name)
-
-      # Re-assign these weights to the original
-      original_weight.assign(clustered_weight)
-      setattr(self.layer, weight_name, original_weight)
+    # Construct a list of weights to initialize the clean layer
+    updated_weights = self.layer.get_weights()
+    for position, weight_name in self.position_original_weights.items():
+      updated_weights.insert(position, self.get_weight_from_layer(weight_name))
+
+    config = self.layer.get_config()
+    clean_layer = self.layer.from_config(dict(config))
+    inputs = {
+        name: tf.zeros([dim or 1 for dim in config[name + '_shape']])
+        for name in ('query', 'value', 'key')
+    }
+    clean_layer(**inputs)
+    clean_layer.set_weights(updated_weights)
 
-    return self.layer
+    return clean_layer
-- 
2.43.0


From a3636289cee0e0c0aad9db797a45f1bfe8429b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 11/32] fix: per-channel clustering of Conv2D layers without
 bias

---
 .../python/core/clustering/keras/cluster.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 1b1c9a8..40cd7fd 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -397,8 +397,8 @@ def layer_has_enough_weights_to_cluster(layer, number_of_clusters,
     raise ValueError(f'Layer {layer.name} has no weights to cluster.')
 
   number_of_layer_weights = tf.cast(tf.size(getattr(layer, 'kernel')), tf.int32)
-  channel_idx = 1 if layer.data_format == 'channels_first' else -1
-  number_of_channels = tf.size(layer.trainable_weights[channel_idx])
+  # The bias, which may be missing, does not tell the number of channels.
+  number_of_channels = layer.filters
 
   if cluster_per_channel:
     weights_to_cluster = number_of_layer_weights / number_of_channels
-- 
2.43.0


From 780c374b6a3d62896f0af46ccc05bf38c2e1599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 12/32] fix: decode encoded structures by key, not by the order
 of joined keys

---
 .../tensor_encoding/core/gather_encoder.py    | 11 ++++----
 .../tensor_encoding/core/simple_encoder.py    |  4 +--
 .../tensor_encoding/utils/py_utils.py         | 26 +++++++++++++++++++
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
index 38b8b2d..369b4e9 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
@@ -297,8 +297,8 @@ class GatherEncoder:
       py_utils.assert_compatible(decode_before_sum_params_spec, params)
 
       encoded_structure = py_utils.merge_dicts(
-          tf.nest.pack_sequence_as(internal_structure['encoded_structure'],
-                                   tf.nest.flatten(encoded_structure)),
+          py_utils.pack_from_joined_string_paths(
+              internal_structure['encoded_structure'], encoded_structure),
           internal_py_values['encoded_structure'])
       params = py_utils.merge_dicts(
           tf.nest.pack_sequence_as(
@@ -328,9 +328,10 @@ class GatherEncoder:
                                  part_decoded_structure)
       py_utils.assert_compatible(decode_after_sum_params_spec, params)
 
-      part_decoded_structure = tf.nest.pack_sequence_as(
-          internal_structure['part_decoded_structure'],
-          tf.nest.flatten(part_decoded_structure))
+      if isinstance(part_decoded_structure, dict):
+        part_decoded_structure = py_utils.pack_from_joined_string_paths(
+            internal_structure['part_decoded_structure'],
+            part_decoded_structure)
       params = py_utils.merge_dicts(
           tf.nest.pack_sequence_as(
               internal_structure['decode_after_sum_params'], params),
diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/simple_encoder.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/simple_encoder.py
index 0396656..02a0add 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/simple_encoder.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/simple_encoder.py
@@ -133,8 +133,8 @@ class SimpleEncoder(object):
     def decode_fn(encoded_structure):
       encoded_structure = py_utils.merge_dicts(encoded_structure,
                                                encoded_py_structure['flat_py'])
-      encoded_structure = tf.nest.pack_sequence_as(
-          encoded_py_structure['full'], tf.nest.flatten(encoded_structure))
+      encoded_structure = py_utils.pack_from_joined_string_paths(
+          encoded_py_structure['full'], encoded_structure)
       return encoder.decode(encoded_structure[_TENSORS],
                             encoded_structure[_PARAMS],
                             encoded_structure[_SHAPES])
diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/py_utils.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/py_utils.py
index c91f8c2..13361fa 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/py_utils.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/py_utils.py
@@ -167,6 +167,32 @@ def flatten_with_joined_string_paths(structure, separator='/'):
           for path, item in tree.flatten_with_path(structure)]
 
 
+def pack_from_joined_string_paths(structure, flat_dict, separator='/'):
+  """Inverse of `flatten_with_joined_string_paths`.
+
+  The values are matched to `structure` by their paths. Relying on the order of
+  the flat keys is not sufficient, as sorting joined paths and sorting keys at
+  each level of `structure` can differ, for instance with keys 'a' and 'a-b'.
+
+  Args:
+    structure: An arbitrary structure. Its leaf values are ignored.
+    flat_dict: A `dict` mapping every joined path of `structure` to a value.
+    separator: `string`, used to join the paths.
+
+  Returns:
+    The values of `flat_dict`, packed as `structure`.
+
+  Raises:
+    ValueError: If the keys of `flat_dict` are not the paths of `structure`.
+  """
+  paths = [
+      path for path, _ in flatten_with_joined_string_paths(structure, separator)
+  ]
+  if set(paths) != set(flat_dict):
+    raise ValueError('The provided keys do not match the expected structure.')
+  return tf.nest.pack_sequence_as(structure, [flat_dict[p] for p in paths])
+
+
 def assert_compatible(spec, value):
   """Asserts that values are compatible with given specs.
 
-- 
2.43.0


From f72f92201f8e90c7efa2a4b717e514871f9b522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 13/32] fix: GatherEncoder.fully_commutes_with_sum requires
 every stage to commute

---
 .../python/core/internal/tensor_encoding/core/gather_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
index 369b4e9..35ef5df 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
@@ -371,7 +371,7 @@ class GatherEncoder:
   @property
   def fully_commutes_with_sum(self):
     # If any element is not True, the whole thing does not fully commute.
-    return sum(tf.nest.flatten(self._commuting_structure))
+    return all(tf.nest.flatten(self._commuting_structure))
 
   @property
   def state_update_aggregation_modes(self):
-- 
2.43.0


From 268f09cc84d5f7b706305be1d6a7c4db95bf5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 14/32] fix: fuse Dense + BatchNorm + ReLU before Dense +
 BatchNorm

The two-layer pattern matched first and left a quantize_config on the
BatchNorm, so the three-layer patterns never matched and a fake-quant op
stayed between BatchNorm and ReLU.
---
 .../default_8bit/default_8bit_quantize_layout_transform.py  | 2 +-
 .../default_n_bit_quantize_layout_transform.py              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
index 70b0681..d536c26 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
@@ -65,9 +65,9 @@ class Default8BitQuantizeLayoutTransform(
         default_8bit_transforms.ConcatTransform4Inputs(),
         default_8bit_transforms.ConcatTransform3Inputs(),
         default_8bit_transforms.ConcatTransform(),
-        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.DenseBatchNormReLUQuantize(),
         default_8bit_transforms.DenseBatchNormActivationQuantize(),
+        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.LayerReLUQuantize(),
         default_8bit_transforms.LayerReluActivationQuantize(),
     ]
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
index 50089c5..0f4505e 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
@@ -119,15 +119,15 @@ class DefaultNBitQuantizeLayoutTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormQuantize(
+        default_n_bit_transforms.DenseBatchNormReLUQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormReLUQuantize(
+        default_n_bit_transforms.DenseBatchNormActivationQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormActivationQuantize(
+        default_n_bit_transforms.DenseBatchNormQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-- 
2.43.0


From c541f0f9b6f614055984bd3b057dda59edd5fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 15/32] fix: keep a user's QuantizeConfig on a layer followed
 by ReLU

LayerReLUQuantize replaced whatever config the layer had been annotated
with; the other fusing transforms leave custom configs alone.
---
 .../quantization/keras/default_8bit/default_8bit_transforms.py | 3 +++
 .../experimental/default_n_bit/default_n_bit_transforms.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
index bda38f6..e896806 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
@@ -579,6 +579,9 @@ class LayerReLUQuantize(transforms.Transform):
     relu_layer_node = match_layer
     add_layer_node = relu_layer_node.input_layers[0]
 
+    if _has_custom_quantize_config(add_layer_node):
+      return match_layer
+
     add_layer_node.metadata['quantize_config'] = (
         default_8bit_quantize_configs.NoOpQuantizeConfig())
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index 0aa6629..3c6b43a 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -616,6 +616,9 @@ class LayerReLUQuantize(transforms.Transform):
     relu_layer_node = match_layer
     add_layer_node = relu_layer_node.input_layers[0]
 
+    if _has_custom_quantize_config(add_layer_node):
+      return match_layer
+
     add_layer_node.metadata['quantize_config'] = (
         configs.NoOpQuantizeConfig())
 
-- 
2.43.0


From dd4a3140f7b62857402eb000c58069a5782d0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 16/32] fix: quantized models can be restored from the .keras
 format

---
 .../python/core/quantization/keras/quantize_layer.py         | 4 ++++
 .../python/core/quantization/keras/quantize_wrapper.py       | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_layer.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_layer.py
index 59df68c..f9805dd 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_layer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_layer.py
@@ -65,6 +65,10 @@ class QuantizeLayer(keras.layers.Layer):
         trainable=False,
     )
 
+    # Marks the layer as built: otherwise it is built twice, with duplicate
+    # variables, when a model is restored from the `.keras` format.
+    super(QuantizeLayer, self).build(input_shape)
+
   def call(self, inputs, training=None):
     if not self.quantizer:
       return inputs
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
index 32a6e2d..b90b969 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
@@ -252,6 +252,11 @@ class QuantizeWrapper(keras.layers.Wrapper):
 class QuantizeWrapperV2(QuantizeWrapper):
 
   def build(self, input_shape):
+    # The layer is not built yet when the wrapper is restored from a `.keras`
+    # file, and would have no weights to collect.
+    if not self.layer.built:
+      self.layer.build(input_shape)
+      self.layer.built = True
     self._trainable_weights.extend(self.layer.trainable_weights)
     super(QuantizeWrapperV2, self).build(input_shape)
 
-- 
2.43.0


From 24ef013fe6e3a0263f4ed8af51f733fc3da571fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 17/32] fix: FixedQuantizer honours num_bits

---
 .../python/core/quantization/keras/quant_ops.py            | 7 +++++--
 .../python/core/quantization/keras/quantizers.py           | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
index 7a0c2f8..7ae532b 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
@@ -24,7 +24,8 @@ from tensorflow_model_optimization.python.core.keras import compat as tf_compat
 
 
 def FixedQuantize(
-    inputs, init_min=-6.0, init_max=6.0, scope=None, narrow_range=False):
+    inputs, init_min=-6.0, init_max=6.0, scope=None, narrow_range=False,
+    num_bits=8):
   """Adds a fake quantize layer with fixed quantization interval.
 
   Args:
@@ -34,6 +35,7 @@ def FixedQuantize(
     scope: Optional scope for name_scope.
     narrow_range: Whether to use the narrow quantization range
       [1; 2^num_bits - 1] or wide range [0; 2^num_bits - 1].
+    num_bits: Number of bits to use for quantization, must be between 2 and 16.
   Returns:
     a tensor containing quantized values.
   """
@@ -42,7 +44,8 @@ def FixedQuantize(
 
   with tf.name_scope(scope):
     return tf.quantization.fake_quant_with_min_max_args(
-        inputs, min=init_min, max=init_max, narrow_range=narrow_range)
+        inputs, min=init_min, max=init_max, num_bits=num_bits,
+        narrow_range=narrow_range)
 
 
 def AllValuesQuantize(inputs,
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
index a5a1f73..529fafb 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
@@ -413,6 +413,7 @@ class FixedQuantizer(_QuantizeHelper, Quantizer):
         self.init_min,
         self.init_max,
         narrow_range=self.narrow_range,
+        num_bits=self.num_bits,
     )
 
   def get_config(self):
-- 
2.43.0


From 595e24b417bcf40a70b400307b0fd6da1489df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 18/32] fix: freezing a quantized layer freezes all of its
 weights

---
 .../core/quantization/keras/quantize_wrapper.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
index b90b969..be55a46 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
@@ -257,11 +257,26 @@ class QuantizeWrapperV2(QuantizeWrapper):
     if not self.layer.built:
       self.layer.build(input_shape)
       self.layer.built = True
-    self._trainable_weights.extend(self.layer.trainable_weights)
+    if self.layer.trainable:
+      self._trainable_weights.extend(self.layer.trainable_weights)
+    else:
+      # Collected even if frozen, so that freezing a layer does not change the
+      # variables owned by its wrapper.
+      self._trainable_weights.extend(
+          weight for weight in self.layer.weights if weight.trainable)
     super(QuantizeWrapperV2, self).build(input_shape)
 
   @property
   def trainable_weights(self):
+    if not self.trainable:
+      return []
     # Change the order to keep the weight order after applying QAT.
     return self._dedup_weights(
         self._trainable_weights + self.layer.trainable_weights)
+
+  @property
+  def non_trainable_weights(self):
+    weights = self.layer.non_trainable_weights + self._non_trainable_weights
+    if not self.trainable:
+      weights = self._trainable_weights + weights
+    return self._dedup_weights(weights)
-- 
2.43.0


From 937e7903414862e1830952c597b4768bb7278a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:48 +0000
Subject: [PATCH 19/32] fix: n-bit layers feeding a Concatenate stay
 unquantized after reloading

---
 .../default_n_bit/default_n_bit_quantize_configs.py       | 8 +++++++-
 .../default_n_bit/default_n_bit_quantize_registry.py      | 7 ++++++-
 .../default_n_bit/default_n_bit_transforms.py             | 3 +++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
index 66bc47e..8f6bfba 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
@@ -22,9 +22,11 @@ from tensorflow_model_optimization.python.core.quantization.keras import quantiz
 class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
   """QuantizeConfig which only quantizes the output from a layer."""
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               quantize_output: bool = True):
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
+    self.quantize_output = quantize_output
 
   def get_weights_and_quantizers(self, layer):
     return []
@@ -39,6 +41,9 @@ class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
     pass
 
   def get_output_quantizers(self, layer):
+    if not self.quantize_output:
+      return []
+
     return [quantizers.MovingAverageQuantizer(
         num_bits=self._num_bits_activation, per_axis=False,
         symmetric=False, narrow_range=False)]  # activation/output
@@ -47,6 +52,7 @@ class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
     return {
         'num_bits_weight': self._num_bits_weight,
         'num_bits_activation': self._num_bits_activation,
+        'quantize_output': self.quantize_output,
     }
 
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
index d33dc67..bf99e47 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
@@ -490,9 +490,11 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
   decision to quantize depends on the specific activation type.
   """
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               quantize_output: bool = True):
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
+    self.quantize_output = quantize_output
 
   def _assert_activation_layer(self, layer):
     if not isinstance(layer, layers.Activation):
@@ -516,6 +518,8 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
 
   def get_output_quantizers(self, layer):
     self._assert_activation_layer(layer)
+    if not self.quantize_output:
+      return []
 
     if not hasattr(layer.activation, '__name__'):
       raise ValueError('Activation {} not supported by '
@@ -539,6 +543,7 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
     return {
         'num_bits_weight': self._num_bits_weight,
         'num_bits_activation': self._num_bits_activation,
+        'quantize_output': self.quantize_output,
     }
 
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index 3c6b43a..f66c6f1 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -709,6 +709,9 @@ class ConcatTransform(transforms.Transform):
   def _disable_output_quantize(self, quantize_config):
     # TODO(pulkitb): Disabling quantize_config may also require handling
     # activation quantizers. Handle that properly.
+    if hasattr(quantize_config, 'quantize_output'):
+      quantize_config.quantize_output = False
+
     quantize_config.get_output_quantizers = lambda layer: []
 
   def replacement(self, match_layer):
-- 
2.43.0


From f974fa3fdfa7bc457aee76b210a58fd34e6e9a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:43 +0000
Subject: [PATCH 20/32] fix: keep the order of a Concatenate's inputs when its
 feeding layers were transformed

---
 .../keras/graph_transformations/model_transformer.py        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index 596ff35..40d341f 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -233,7 +233,11 @@ class ModelTransformer(object):
     # tensors and multiple tensors from that layer may be used by the
     # connection. Ignoring those for now.
     input_layer_names = self._get_input_layer_names(layer)
-    input_layers = self._get_layers(input_layer_names)
+    # The replacement is connected in this order, so it must be the order in
+    # which the layer takes its inputs.
+    input_layers = sorted(
+        self._get_layers(input_layer_names),
+        key=lambda l: input_layer_names.index(l['config']['name']))
 
     if len(input_layers) != len(pattern.inputs):
       # Number of inputs this layer takes is different from the number of
-- 
2.43.0


From 05e0504f1f49d815bd2d1f3e741df1db3c9508bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:43 +0000
Subject: [PATCH 21/32] fix: quantize functional models with SeparableConv1D,
 and let them be saved

---
 .../default_8bit/default_8bit_transforms.py   | 23 ++++++++++---------
 .../default_n_bit/default_n_bit_transforms.py | 23 ++++++++++---------
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
index e896806..4748865 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
@@ -18,7 +18,6 @@ import collections
 import inspect
 
 import numpy as np
-import tensorflow as tf
 
 from tensorflow_model_optimization.python.core.keras.compat import keras
 from tensorflow_model_optimization.python.core.keras.compat import unique_object_name
@@ -156,7 +155,7 @@ class Conv2DReshapeBatchNormQuantize(Conv2DBatchNormQuantize):
     return LayerPattern(
         'BatchNormalization|SyncBatchNormalization',
         inputs=[LayerPattern(
-            'Lambda', config={'name': 'sepconv1d_squeeze.*'},
+            'Lambda|Reshape', config={'name': 'sepconv1d_squeeze.*'},
             inputs=[LayerPattern(
                 'Conv2D|DepthwiseConv2D',
                 config={'activation': 'linear'})])])
@@ -354,7 +353,7 @@ class SeparableConv1DQuantize(transforms.Transform):
   Maps:
   Input -> SeparableConv1D -> Output
     to
-  Input -> Lambda(ExpandDims) -> SeparableConv2D -> Lambda(Squeeze) -> Output
+  Input -> Reshape(ExpandDims) -> SeparableConv2D -> Reshape(Squeeze) -> Output
 
   Unlike SeparableConv2DQuantize, this does not break the layer into
   DepthwiseConv and Conv separately, since no DepthwiseConv1D exists.
@@ -420,10 +419,14 @@ class SeparableConv1DQuantize(transforms.Transform):
     if sepconv1d_config['use_bias']:
       sepconv2d_weights['bias:0'] = sepconv1d_weights[2]
 
+    input_channels = sepconv1d_weights[0].shape[1]
+    filters = sepconv1d_config['filters']
     if sepconv1d_config['data_format'] == 'channels_last':
-      spatial_dim = 1
+      expanded_shape = (1, -1, input_channels)
+      squeezed_shape = (-1, filters)
     else:
-      spatial_dim = 2
+      expanded_shape = (input_channels, 1, -1)
+      squeezed_shape = (filters, -1)
 
     sepconv2d_layer_config = quantize_utils.serialize_layer(
         sepconv2d_layer, use_legacy_format=True
@@ -433,11 +436,9 @@ class SeparableConv1DQuantize(transforms.Transform):
     # Needed to ensure these new layers are considered for quantization.
     sepconv2d_metadata = {'quantize_config': None}
 
-    # TODO(pulkitb): Consider moving from Lambda to custom ExpandDims/Squeeze.
-
     # Layer before SeparableConv2D which expands input tensors to match 2D.
-    expand_layer = keras.layers.Lambda(
-        lambda x: tf.expand_dims(x, spatial_dim),
+    expand_layer = keras.layers.Reshape(
+        expanded_shape,
         name=self._get_name('sepconv1d_expand'),
     )
     expand_layer_config = quantize_utils.serialize_layer(
@@ -447,8 +448,8 @@ class SeparableConv1DQuantize(transforms.Transform):
     expand_layer_metadata = {
         'quantize_config': default_8bit_quantize_configs.NoOpQuantizeConfig()}
 
-    squeeze_layer = keras.layers.Lambda(
-        lambda x: tf.squeeze(x, [spatial_dim]),
+    squeeze_layer = keras.layers.Reshape(
+        squeezed_shape,
         name=self._get_name('sepconv1d_squeeze'),
     )
     squeeze_layer_config = quantize_utils.serialize_layer(
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index f66c6f1..0b0c781 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -18,7 +18,6 @@ import collections
 import inspect
 
 import numpy as np
-import tensorflow as tf
 
 from tensorflow_model_optimization.python.core.keras.compat import keras
 from tensorflow_model_optimization.python.core.keras.compat import unique_object_name
@@ -163,7 +162,7 @@ class Conv2DReshapeBatchNormQuantize(Conv2DBatchNormQuantize):
     return LayerPattern(
         'BatchNormalization|SyncBatchNormalization',
         inputs=[LayerPattern(
-            'Lambda', config={'name': 'sepconv1d_squeeze.*'},
+            'Lambda|Reshape', config={'name': 'sepconv1d_squeeze.*'},
             inputs=[LayerPattern(
                 'Conv2D|DepthwiseConv2D',
                 config={'activation': 'linear'})])])
@@ -381,7 +380,7 @@ class SeparableConv1DQuantize(transforms.Transform):
   Maps:
   Input -> SeparableConv1D -> Output
     to
-  Input -> Lambda(ExpandDims) -> SeparableConv2D -> Lambda(Squeeze) -> Output
+  Input -> Reshape(ExpandDims) -> SeparableConv2D -> Reshape(Squeeze) -> Output
 
   Unlike SeparableConv2DQuantize, this does not break the layer into
   DepthwiseConv and Conv separately, since no DepthwiseConv1D exists.
@@ -451,10 +450,14 @@ class SeparableConv1DQuantize(transforms.Transform):
     if sepconv1d_config['use_bias']:
       sepconv2d_weights['bias:0'] = sepconv1d_weights[2]
 
+    input_channels = sepconv1d_weights[0].shape[1]
+    filters = sepconv1d_config['filters']
     if sepconv1d_config['data_format'] == 'channels_last':
-      spatial_dim = 1
+      expanded_shape = (1, -1, input_channels)
+      squeezed_shape = (-1, filters)
     else:
-      spatial_dim = 2
+      expanded_shape = (input_channels, 1, -1)
+      squeezed_shape = (filters, -1)
 
     sepconv2d_layer_config = quantize_utils.serialize_layer(
         sepconv2d_layer, use_legacy_format=True
@@ -464,11 +467,9 @@ class SeparableConv1DQuantize(transforms.Transform):
     # Needed to ensure these new layers are considered for quantization.
     sepconv2d_metadata = {'quantize_config': None}
 
-    # TODO(pulkitb): Consider moving from Lambda to custom ExpandDims/Squeeze.
-
     # Layer before SeparableConv2D which expands input tensors to match 2D.
-    expand_layer = keras.layers.Lambda(
-        lambda x: tf.expand_dims(x, spatial_dim),
+    expand_layer = keras.layers.Reshape(
+        expanded_shape,
         name=self._get_name('sepconv1d_expand'),
     )
     expand_layer_config = quantize_utils.serialize_layer(
@@ -479,8 +480,8 @@ class SeparableConv1DQuantize(transforms.Transform):
         'quantize_config':
             configs.NoOpQuantizeConfig()}
 
-    squeeze_layer = keras.layers.Lambda(
-        lambda x: tf.squeeze(x, [spatial_dim]),
+    squeeze_layer = keras.layers.Reshape(
+        squeezed_shape,
         name=self._get_name('sepconv1d_squeeze'),
     )
     squeeze_layer_config = quantize_utils.serialize_layer(
-- 
2.43.0


From 9d5fa214d81bc723bf678319d0893332e8c62cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 22/32] fix: disable_per_axis also applies to layers feeding a
 Concatenate

---
 .../default_8bit_quantize_layout_transform.py | 24 +++++++++++----
 .../default_8bit_quantize_scheme.py           |  2 +-
 .../default_8bit/default_8bit_transforms.py   |  9 +++++-
 ...default_n_bit_quantize_layout_transform.py |  9 +++++-
 .../default_n_bit_quantize_scheme.py          |  3 +-
 .../default_n_bit/default_n_bit_transforms.py | 29 +++++++++++++------
 6 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
index d536c26..6cee1b6 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
@@ -31,6 +31,16 @@ class Default8BitQuantizeLayoutTransform(
 ):
   """Default model transformations."""
 
+  def __init__(self, get_quantize_registry=None):
+    """Construct the default 8-bit layout transform.
+
+    Args:
+      get_quantize_registry: Function returning the `QuantizeRegistry` of the
+        scheme. Layers configured by the transforms get their `QuantizeConfig`
+        from it. Defaults to the default 8-bit registry.
+    """
+    self._get_quantize_registry = get_quantize_registry
+
   def apply(self, model, layer_quantize_map):
     """Implement default 8-bit transforms.
 
@@ -60,11 +70,15 @@ class Default8BitQuantizeLayoutTransform(
         default_8bit_transforms.Conv2DBatchNormActivationQuantize(),
         default_8bit_transforms.Conv2DReshapeBatchNormQuantize(),
         default_8bit_transforms.Conv2DBatchNormQuantize(),
-        default_8bit_transforms.ConcatTransform6Inputs(),
-        default_8bit_transforms.ConcatTransform5Inputs(),
-        default_8bit_transforms.ConcatTransform4Inputs(),
-        default_8bit_transforms.ConcatTransform3Inputs(),
-        default_8bit_transforms.ConcatTransform(),
+        default_8bit_transforms.ConcatTransform6Inputs(
+            self._get_quantize_registry),
+        default_8bit_transforms.ConcatTransform5Inputs(
+            self._get_quantize_registry),
+        default_8bit_transforms.ConcatTransform4Inputs(
+            self._get_quantize_registry),
+        default_8bit_transforms.ConcatTransform3Inputs(
+            self._get_quantize_registry),
+        default_8bit_transforms.ConcatTransform(self._get_quantize_registry),
         default_8bit_transforms.DenseBatchNormReLUQuantize(),
         default_8bit_transforms.DenseBatchNormActivationQuantize(),
         default_8bit_transforms.DenseBatchNormQuantize(),
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_scheme.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_scheme.py
index 7234e3f..0feb51d 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_scheme.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_scheme.py
@@ -27,7 +27,7 @@ class Default8BitQuantizeScheme(quantize_scheme.QuantizeScheme):
 
   def get_layout_transformer(self):
     return default_8bit_quantize_layout_transform.\
-        Default8BitQuantizeLayoutTransform()
+        Default8BitQuantizeLayoutTransform(self.get_quantize_registry)
 
   def get_quantize_registry(self):
     return (
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
index 4748865..8cb627d 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
@@ -645,6 +645,9 @@ class ConcatTransform(transforms.Transform):
 
   # pylint:disable=protected-access
 
+  def __init__(self, get_quantize_registry=None):
+    self._get_quantize_registry = get_quantize_registry
+
   def pattern(self):
     # TODO(pulkitb): Write a clean way to handle arbitrary length patterns.
     return LayerPattern(
@@ -671,8 +674,12 @@ class ConcatTransform(transforms.Transform):
     concat_layer_node = match_layer
     feeding_layer_nodes = match_layer.input_layers
 
+    # A new registry each time, since the `QuantizeConfig`s are modified below.
     default_registry = (
-        default_8bit_quantize_registry.Default8BitQuantizeRegistry())
+        self._get_quantize_registry() if self._get_quantize_registry else None)
+    if not hasattr(default_registry, '_get_quantize_config'):
+      default_registry = (
+          default_8bit_quantize_registry.Default8BitQuantizeRegistry())
 
     feed_quantize_configs = []
     for feed_layer_node in feeding_layer_nodes:
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
index 0f4505e..f93f51f 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
@@ -31,9 +31,11 @@ class DefaultNBitQuantizeLayoutTransform(
 ):
   """Default model transformations."""
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               disable_per_axis: bool = False):
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
+    self._disable_per_axis = disable_per_axis
 
   def apply(self, model, layer_quantize_map):
     """Implement default 8-bit transforms.
@@ -94,22 +96,27 @@ class DefaultNBitQuantizeLayoutTransform(
         default_n_bit_transforms.ConcatTransform6Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
+            disable_per_axis=self._disable_per_axis,
         ),
         default_n_bit_transforms.ConcatTransform5Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
+            disable_per_axis=self._disable_per_axis,
         ),
         default_n_bit_transforms.ConcatTransform4Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
+            disable_per_axis=self._disable_per_axis,
         ),
         default_n_bit_transforms.ConcatTransform3Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
+            disable_per_axis=self._disable_per_axis,
         ),
         default_n_bit_transforms.ConcatTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
+            disable_per_axis=self._disable_per_axis,
         ),
         default_n_bit_transforms.LayerReLUQuantize(
             num_bits_weight=self._num_bits_weight,
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_scheme.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_scheme.py
index 50f2a4d..2c3f271 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_scheme.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_scheme.py
@@ -31,7 +31,8 @@ class DefaultNBitQuantizeScheme(quantize_scheme.QuantizeScheme):
   def get_layout_transformer(self):
     return default_n_bit_quantize_layout_transform.DefaultNBitQuantizeLayoutTransform(
         num_bits_weight=self._num_bits_weight,
-        num_bits_activation=self._num_bits_activation)
+        num_bits_activation=self._num_bits_activation,
+        disable_per_axis=self._disable_per_axis)
 
   def get_quantize_registry(self):
     return (
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index 0b0c781..8324291 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -691,9 +691,11 @@ class ConcatTransform(transforms.Transform):
 
   # pylint:disable=protected-access
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               disable_per_axis: bool = False):
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
+    self._disable_per_axis = disable_per_axis
 
   def pattern(self):
     # TODO(pulkitb): Write a clean way to handle length patterns.
@@ -721,6 +723,7 @@ class ConcatTransform(transforms.Transform):
 
     default_registry = (
         default_n_bit_quantize_registry.DefaultNBitQuantizeRegistry(
+            disable_per_axis=self._disable_per_axis,
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation))
 
@@ -768,10 +771,12 @@ class ConcatTransform(transforms.Transform):
 class ConcatTransform3Inputs(ConcatTransform):
   """Transform for 3 inputs Concatenate."""
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               disable_per_axis: bool = False):
     super(ConcatTransform3Inputs, self).__init__(
         num_bits_weight=num_bits_weight,
-        num_bits_activation=num_bits_activation)
+        num_bits_activation=num_bits_activation,
+        disable_per_axis=disable_per_axis)
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
 
@@ -784,10 +789,12 @@ class ConcatTransform3Inputs(ConcatTransform):
 class ConcatTransform4Inputs(ConcatTransform):
   """Transform for 4 inputs Concatenate."""
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               disable_per_axis: bool = False):
     super(ConcatTransform4Inputs, self).__init__(
         num_bits_weight=num_bits_weight,
-        num_bits_activation=num_bits_activation)
+        num_bits_activation=num_bits_activation,
+        disable_per_axis=disable_per_axis)
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
 
@@ -801,10 +808,12 @@ class ConcatTransform4Inputs(ConcatTransform):
 class ConcatTransform5Inputs(ConcatTransform):
   """Transform for 5 inputs Concatenate."""
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               disable_per_axis: bool = False):
     super(ConcatTransform5Inputs, self).__init__(
         num_bits_weight=num_bits_weight,
-        num_bits_activation=num_bits_activation)
+        num_bits_activation=num_bits_activation,
+        disable_per_axis=disable_per_axis)
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
 
@@ -818,10 +827,12 @@ class ConcatTransform5Inputs(ConcatTransform):
 class ConcatTransform6Inputs(ConcatTransform):
   """Transform for 6 inputs Concatenate."""
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               disable_per_axis: bool = False):
     super(ConcatTransform6Inputs, self).__init__(
         num_bits_weight=num_bits_weight,
-        num_bits_activation=num_bits_activation)
+        num_bits_activation=num_bits_activation,
+        disable_per_axis=disable_per_axis)
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
 
-- 
2.43.0


From 41256935b137976fa41079ca18dc4775be55e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 23/32] fix: preserve sparsity and clusters of layers feeding a
 Concatenate

---
 .../cluster_preserve_quantize_registry.py     | 26 +++++++++++++++++++
 .../prune_preserve_quantize_registry.py       | 26 +++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
index ff2381f..b116902 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
@@ -282,6 +282,32 @@ class Default8bitClusterPreserveQuantizeRegistry(
     ClusterPreserveQuantizeRegistry):
   """Default 8 bit ClusterPreserveQuantizeRegistry."""
 
+  # pylint: disable=protected-access
+  def _is_supported_layer(self, layer_class):
+    return (default_8bit_quantize_registry.Default8BitQuantizeRegistry()
+            ._is_supported_layer(layer_class))
+
+  def _get_quantize_config(self, layer_class):
+    """Returns the quantization config for layers of the given class.
+
+    Args:
+      layer_class: class of the layers to return quantize config for.
+
+    Returns:
+      Returns the quantization config with cluster preserve weight_quantizer.
+    """
+    quantize_config = (default_8bit_quantize_registry
+                       .Default8BitQuantizeRegistry()
+                       ._get_quantize_config(layer_class))
+    layer_info = self._LAYERS_CONFIG_MAP.get(layer_class)
+    config_name = quantize_config.__class__.__name__
+    if (layer_info is not None
+        and layer_class not in self._DISABLE_CLUSTER_PRESERVE
+        and config_name in layer_info.quantize_config_attrs):
+      quantize_config.weight_quantizer = self._config_quantizer_map[config_name]
+    return quantize_config
+  # pylint: enable=protected-access
+
   def get_quantize_config(self, layer):
     """Returns the quantization config with weight_quantizer for a given layer.
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/prune_preserve/prune_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/prune_preserve/prune_preserve_quantize_registry.py
index e8301df..9e69c3f 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/prune_preserve/prune_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/prune_preserve/prune_preserve_quantize_registry.py
@@ -217,6 +217,32 @@ class PrunePreserveQuantizeRegistry():
 class Default8bitPrunePreserveQuantizeRegistry(PrunePreserveQuantizeRegistry):
   """Default 8 bit PrunePreserveQuantizeRegistry."""
 
+  # pylint: disable=protected-access
+  def _is_supported_layer(self, layer_class):
+    return (default_8bit_quantize_registry.Default8BitQuantizeRegistry()
+            ._is_supported_layer(layer_class))
+
+  def _get_quantize_config(self, layer_class):
+    """Returns the quantization config for layers of the given class.
+
+    Args:
+      layer_class: class of the layers to return quantize config for.
+
+    Returns:
+      Returns the quantization config with prune preserve weight_quantizer.
+    """
+    quantize_config = (default_8bit_quantize_registry
+                       .Default8BitQuantizeRegistry()
+                       ._get_quantize_config(layer_class))
+    layer_info = self._LAYERS_CONFIG_MAP.get(layer_class)
+    config_name = quantize_config.__class__.__name__
+    if (layer_info is not None
+        and layer_class not in self._DISABLE_PRUNE_PRESERVE
+        and config_name in layer_info.quantize_config_attrs):
+      quantize_config.weight_quantizer = self._config_quantizer_map[config_name]
+    return quantize_config
+  # pylint: enable=protected-access
+
   def get_quantize_config(self, layer):
     """Returns the quantization config with addon sparsity.
 
-- 
2.43.0


From cec5d33a43c6f7e40654e32dc035c3ec58ec09b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:54 +0000
Subject: [PATCH 24/32] fix: fuse Dense, BatchNormalization and ReLU also in
 front of a Concatenate

---
 .../default_8bit_quantize_layout_transform.py |  6 ++---
 ...default_n_bit_quantize_layout_transform.py | 24 +++++++++----------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
index 6cee1b6..a4798b5 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
@@ -70,6 +70,9 @@ class Default8BitQuantizeLayoutTransform(
         default_8bit_transforms.Conv2DBatchNormActivationQuantize(),
         default_8bit_transforms.Conv2DReshapeBatchNormQuantize(),
         default_8bit_transforms.Conv2DBatchNormQuantize(),
+        default_8bit_transforms.DenseBatchNormReLUQuantize(),
+        default_8bit_transforms.DenseBatchNormActivationQuantize(),
+        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.ConcatTransform6Inputs(
             self._get_quantize_registry),
         default_8bit_transforms.ConcatTransform5Inputs(
@@ -79,9 +82,6 @@ class Default8BitQuantizeLayoutTransform(
         default_8bit_transforms.ConcatTransform3Inputs(
             self._get_quantize_registry),
         default_8bit_transforms.ConcatTransform(self._get_quantize_registry),
-        default_8bit_transforms.DenseBatchNormReLUQuantize(),
-        default_8bit_transforms.DenseBatchNormActivationQuantize(),
-        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.LayerReLUQuantize(),
         default_8bit_transforms.LayerReluActivationQuantize(),
     ]
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
index f93f51f..c674e33 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
@@ -93,6 +93,18 @@ class DefaultNBitQuantizeLayoutTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
+        default_n_bit_transforms.DenseBatchNormReLUQuantize(
+            num_bits_weight=self._num_bits_weight,
+            num_bits_activation=self._num_bits_activation,
+        ),
+        default_n_bit_transforms.DenseBatchNormActivationQuantize(
+            num_bits_weight=self._num_bits_weight,
+            num_bits_activation=self._num_bits_activation,
+        ),
+        default_n_bit_transforms.DenseBatchNormQuantize(
+            num_bits_weight=self._num_bits_weight,
+            num_bits_activation=self._num_bits_activation,
+        ),
         default_n_bit_transforms.ConcatTransform6Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
@@ -126,18 +138,6 @@ class DefaultNBitQuantizeLayoutTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormReLUQuantize(
-            num_bits_weight=self._num_bits_weight,
-            num_bits_activation=self._num_bits_activation,
-        ),
-        default_n_bit_transforms.DenseBatchNormActivationQuantize(
-            num_bits_weight=self._num_bits_weight,
-            num_bits_activation=self._num_bits_activation,
-        ),
-        default_n_bit_transforms.DenseBatchNormQuantize(
-            num_bits_weight=self._num_bits_weight,
-            num_bits_activation=self._num_bits_activation,
-        ),
     ]
     return model_transformer.ModelTransformer(
         model, transforms, set(layer_quantize_map.keys()), layer_quantize_map
-- 
2.43.0


From 5602849f65cec207d7f3e33fe4d657da3692921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:35 +0000
Subject: [PATCH 25/32] fix: decide sparsity preservation of cluster-preserving
 quantization per layer

---
 .../cluster_preserve_quantize_registry.py           | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
index b116902..2a5a6c1 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
@@ -370,8 +370,11 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
     """
     result = {}
     weights = getattr(layer.layer, name)
-    if self.preserve_sparsity and not tf.reduce_any(weights == 0):
-      self.preserve_sparsity = False
+    # The quantizer may be shared by several layers, so this is decided per
+    # layer: only layers with zero weights get a sparsity mask.
+    preserve_sparsity = self.preserve_sparsity
+    if preserve_sparsity and not tf.reduce_any(weights == 0):
+      preserve_sparsity = False
       logging.warning(
           'Input layer does not contain zero weights, so apply CQAT instead.')
     centroids_mask = None
@@ -381,7 +384,7 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
     centroids, num_centroids, lookup, cluster_per_channel = get_centroids(
         layer, weights, data_format)
 
-    if self.preserve_sparsity:
+    if preserve_sparsity:
       sparsity_mask = tf.math.divide_no_nan(weights, weights)
       zero_idx = tf.argmin(tf.abs(centroids), axis=-1)
       centroids_mask = 1.0 - tf.one_hot(zero_idx, num_centroids)
@@ -493,7 +496,7 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
     """
     if training:
       if CLUSTER_CENTROIDS in weights:
-        if self.preserve_sparsity:
+        if SPARSITY_MASK in weights:
           weights[ORIGINAL_WEIGHTS].assign(
               tf.multiply(weights[ORIGINAL_WEIGHTS],
                           weights[SPARSITY_MASK]))
@@ -515,7 +518,7 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
             weights[PULLING_INDICES], weights[ORIGINAL_WEIGHTS])
         inputs.assign(output)
       else:
-        if self.preserve_sparsity:
+        if SPARSITY_MASK in weights:
           inputs = tf.multiply(inputs, weights[SPARSITY_MASK])
         output = inputs
     else:
-- 
2.43.0


From 66cb5d9cf21d8ca7e528a8160d7c56cd663fdf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:16 +0000
Subject: [PATCH 26/32] fix: tell kernels clustered as a whole from per-channel
 clustering

---
 .../cluster_preserve_quantize_registry.py          | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
index 2a5a6c1..e2c9e02 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
@@ -105,9 +105,17 @@ def get_centroids(layer, weight, data_format):
   max_centroid = max(num_centroids)
   max_diff = max_centroid - min(num_centroids)
 
-  if max_diff > 1:
-    centroids, index = get_unique(weight)
-    return centroids, tf.size(centroids), index, False
+  # A kernel clustered as a whole may have as many unique values in each of its
+  # channels, too, but then its channels have them in common. Zeros of a sparse
+  # kernel and (rare) coincidences do not count.
+  all_centroids, all_indices = get_unique(weight)
+  num_nonzero = int(tf.math.count_nonzero(all_centroids))
+  num_nonzero_per_channel = sum(
+      int(tf.math.count_nonzero(centroids)) for centroids in channel_centroids)
+  shared = num_nonzero < 0.9 * num_nonzero_per_channel
+
+  if max_diff > 1 or shared:
+    return all_centroids, tf.size(all_centroids), all_indices, False
 
   for i, centroid in enumerate(channel_centroids):
     if num_centroids[i] != max_centroid:
-- 
2.43.0


From 2acaca2eb6509bc9961de8146ae3380e1c02569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:31 +0000
Subject: [PATCH 27/32] fix: pad centroids of per-channel clusters with a value
 no weight is close to

---
 .../cluster_preserve/cluster_preserve_quantize_registry.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
index e2c9e02..fbcf9dd 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
@@ -119,8 +119,9 @@ def get_centroids(layer, weight, data_format):
 
   for i, centroid in enumerate(channel_centroids):
     if num_centroids[i] != max_centroid:
-      one_padding = tf.ones([max_centroid - num_centroids[i]])
-      channel_centroids[i] = tf.concat([centroid, one_padding], 0)
+      # The padding must never attract a weight of the channel.
+      padding = tf.fill([max_centroid - num_centroids[i]], weight.dtype.max)
+      channel_centroids[i] = tf.concat([centroid, padding], 0)
 
   centroids = tf.convert_to_tensor(channel_centroids)
   lookup = tf.convert_to_tensor(channel_indices)
-- 
2.43.0


From 536f98595b8b6995e4abe03b3af45c60291955c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 28/32] fix: let sparsity-preserving per-channel clustering run
 on several replicas

---
 .../python/core/clustering/keras/cluster_wrapper.py        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 48fc8c6..ee7b34f 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -299,16 +299,21 @@ class ClusterWeights(Wrapper):
         # In the case of per-channel clustering, sparsity
         # needs to be preserved per-channel
         if self.cluster_per_channel:
+          # (all channels at once: distributed variables have no sliced
+          # assignment)
+          channel_centroids = []
           for channel in range(self.num_channels):
             zero_idx_mask = (
                 self._get_zero_idx_mask(
                     self.cluster_centroids[weight_name][channel],
                     self.cluster_centroids[weight_name][channel][
                         self.zero_idx[weight_name][channel]]))
-            self.cluster_centroids[weight_name][channel].assign(
+            channel_centroids.append(
                 self._get_zero_centroid(
                     self.cluster_centroids[weight_name][channel],
                     zero_idx_mask))
+          self.cluster_centroids[weight_name].assign(
+              tf.stack(channel_centroids))
         else:
           # Set the smallest centroid to zero to force sparsity
           # and avoid extra cluster from forming
-- 
2.43.0


From ef70c144f60dde15e59cba824c71aa77d98e690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:39 +0000
Subject: [PATCH 29/32] fix: let only training steps update the training
 weights of compressed layers

evaluate, predict and plain calls of a model in compression-aware training
advanced the step of the periodical SVD and replaced the weights by their
low-rank approximation.
---
 .../python/core/common/keras/compression/algorithm.py  | 10 ++++++++--
 .../core/common/keras/compression/internal/optimize.py |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/algorithm.py b/tensorflow_model_optimization/python/core/common/keras/compression/algorithm.py
index 3707116..4eb4047 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/algorithm.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/algorithm.py
@@ -106,9 +106,10 @@ class WeightCompressor(metaclass=abc.ABCMeta):
        tf.Tensor to set the compressible weight to.
     """
 
-  def init_update_ops(self, tensor_weight_pairs):
+  def init_update_ops(self, tensor_weight_pairs, training=True):
     self.update_ops = []
     self.tensor_weight_pairs = tensor_weight_pairs
+    self.training = training
 
   def update_training_weight(
       self, training_weight: tf.Tensor, value: tf.Tensor):
@@ -131,7 +132,12 @@ class WeightCompressor(metaclass=abc.ABCMeta):
     """
     for tensor, weight in self.tensor_weight_pairs:
       if training_weight is tensor:
-        self.update_ops.append(weight.assign(value))
+        # Only training steps update training weights, inference does not.
+        if tf.is_tensor(self.training):
+          value = tf.where(tf.cast(self.training, tf.bool), value, weight)
+          self.update_ops.append(weight.assign(value))
+        elif self.training:
+          self.update_ops.append(weight.assign(value))
         return
 
     raise ValueError('Training weight not found. Please call '
diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index 7c916f6..13689d6 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -134,7 +134,7 @@ class _TrainingWrapper(keras.layers.Wrapper):
       if name:
         self.attr_name_map[attr_name] = name
 
-  def call(self, inputs):
+  def call(self, inputs, training=None):
     for attr_name, name in self.attr_name_map.items():
       # TODO(tfmot): move constant folding prevention to the inference graph
       # only, since constant folding won't happen during training.
@@ -145,7 +145,7 @@ class _TrainingWrapper(keras.layers.Wrapper):
         training_weight_tensors.append(tensor)
         tensor_weight_pairs.append((tensor, v))
 
-      self.algorithm.init_update_ops(tensor_weight_pairs)
+      self.algorithm.init_update_ops(tensor_weight_pairs, training)
       weight_tensor = self.algorithm.project_training_weights(
           *training_weight_tensors)
       # TODO(tfmot): Needs to check when this update is happen.
-- 
2.43.0


From 067a4dbec40c1101b397d0ab9ffcfa282fb69fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:39 +0000
Subject: [PATCH 30/32] fix: run layers of a model in compression-aware
 training in training mode

BatchNormalization and Dropout inside the wrapper never saw the training flag.
---
 .../common/keras/compression/internal/optimize.py     | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index 13689d6..c0783df 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 # ==============================================================================
 """Internal APIs and core implementation of weight compression API."""
+import inspect
 from typing import List, Mapping
 
 import tensorflow as tf
@@ -38,6 +39,10 @@ def _prevent_constant_folding(tensor, dummy_inputs):
   return outputs
 
 
+def _takes_training(layer):
+  return 'training' in inspect.signature(layer.call).parameters
+
+
 class _TrainingWrapper(keras.layers.Wrapper):
   """Represent modifications to training graph for weight compression."""
 
@@ -155,6 +160,8 @@ class _TrainingWrapper(keras.layers.Wrapper):
     # This assumes that all changes to the forward pass happen "prior" to
     # the nested layer's portion of the forward pass. This suffices since
     # the scope of this API is to only optimize the weights.
+    if _takes_training(self.layer):
+      return self.layer.call(inputs, training=training)
     return self.layer.call(inputs)
 
 
@@ -242,7 +249,9 @@ class _InferenceWrapper(keras.layers.Wrapper):
           *compressed_weight_tensors)
       setattr(self.layer, attr_name, weight_tensor)
 
-    # TODO(tfmot): handle training arg if needed given this is inference only.
+    # The layers that are not compressed behave as in the original model.
+    if _takes_training(self.layer):
+      return self.layer.call(inputs, training=training)
     return self.layer.call(inputs)
 
 
-- 
2.43.0


From 4e668f59f8566b11eb6f31f71ac3e3bf0d56e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:39 +0000
Subject: [PATCH 31/32] fix: keep pretrained weights and frozen state of layers
 in compressed models

Layers without compressible weights were initialised afresh, and frozen layers
became trainable.
---
 .../core/common/keras/compression/internal/optimize.py    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index c0783df..83ae596 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -422,6 +422,14 @@ def create_layer_for_training(layer, algorithm):
         compressible_weights)
     wrapped_layer.set_weights(
         [weight.numpy() for weight in training_weights])
+  elif layer.weights:
+    # Nothing to compress: keep the pretrained weights as they are.
+    wrapped_layer.build(input_shape)
+    wrapped_layer.layer._build_input_shape = None  # pylint: disable=protected-access
+    wrapped_layer.set_weights(layer.get_weights())
+
+  if not layer.trainable:
+    wrapped_layer.trainable = False
 
   return wrapped_layer
 
-- 
2.43.0


From 9e45766a25634e66eb834f61f235ad101ca60865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:39 +0000
Subject: [PATCH 32/32] fix: export compressed layers without bias and layers
 of other kinds

The inference weights were assumed to be exactly a kernel and a bias.
---
 .../keras/compression/internal/optimize.py    | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index 83ae596..77aa271 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -333,19 +333,14 @@ def _map_to_inference_weights(training_weights, algorithm, training_tensors):
       [kernel_var1, kernel_var2]), bias]
   """
 
+  # The weights added by the wrapper come before those of the nested layer.
   compressed_weights = []
-  weights = ['kernel', 'bias']
-  layer_weights_i = 0
-  for weight in weights:
-    if weight in training_tensors:
-      compressed = algorithm.compress_training_weights(
-          *training_tensors[weight])
-      for c in compressed:
-        compressed_weights.append(c.numpy())
-      layer_weights_i += len(training_tensors[weight])
-    else:
-      compressed_weights.append(training_weights[layer_weights_i])
-      layer_weights_i += 1
+  num_training_weights = 0
+  for tensors in training_tensors.values():
+    for c in algorithm.compress_training_weights(*tensors):
+      compressed_weights.append(c.numpy())
+    num_training_weights += len(tensors)
+  compressed_weights.extend(training_weights[num_training_weights:])
   return compressed_weights
 
 
-- 
2.43.0

