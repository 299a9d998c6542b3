From e6ffe49e5c706cd26d9499de2d5377a8908b38dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 01/32] fix: UpdatePruningStep decides per layer whether
 pruning_step is unset

---
 .../python/core/sparsity/keras/pruning_callbacks.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py
index 555de78..ceedcb9 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_callbacks.py
@@ -56,13 +56,13 @@ class UpdatePruningStep(callbacks.Callback):
     self.prunable_layers = pruning_wrapper.collect_prunable_layers(self.model)
     if not self.prunable_layers:
       return
-    # If the model is newly created/initialized, set the 'pruning_step' to 0.
-    # If the model is saved and then restored, do nothing.
-    if self.prunable_layers[0].pruning_step == -1:
-      tuples = []
-      for layer in self.prunable_layers:
+    # If a layer is newly created/initialized, set its 'pruning_step' to 0.
+    # If it is saved and then restored, do nothing.
+    tuples = []
+    for layer in self.prunable_layers:
+      if layer.pruning_step == -1:
         tuples.append((layer.pruning_step, 0))
-      K.batch_set_value(tuples)
+    K.batch_set_value(tuples)
 
   def on_epoch_end(self, batch, logs=None):
     # At the end of every epoch, remask the weights. This ensures that when
-- 
2.43.0


From 7c382cab532487638dc89e9773cc61948a0534a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 02/32] fix: keep sparsity_m_by_n in the PruneLowMagnitude
 config

---
 .../python/core/sparsity/keras/pruning_wrapper.py              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
index 02fa34a..e40f30c 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
@@ -340,7 +340,8 @@ class PruneLowMagnitude(Wrapper):
     config = {
         'pruning_schedule': self.pruning_schedule.get_config(),
         'block_size': self.block_size,
-        'block_pooling_type': self.block_pooling_type
+        'block_pooling_type': self.block_pooling_type,
+        'sparsity_m_by_n': self.sparsity_m_by_n
     }
     return dict(list(base_config.items()) + list(config.items()))
 
-- 
2.43.0


From 0c9695ae15b0b9afca0a7b580a419db153cc04cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 03/32] fix: include the RNN and MHA wrappers in cluster_scope

---
 .../python/core/clustering/keras/cluster.py                 | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 4535a94..9203928 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -50,7 +50,11 @@ def cluster_scope():
     loaded_model = keras.models.load_model(keras_file)
   ```
   """
-  return CustomObjectScope({'ClusterWeights': cluster_wrapper.ClusterWeights})
+  return CustomObjectScope({
+      'ClusterWeights': cluster_wrapper.ClusterWeights,
+      'ClusterWeightsRNN': cluster_wrapper.ClusterWeightsRNN,
+      'ClusterWeightsMHA': cluster_wrapper.ClusterWeightsMHA,
+  })
 
 
 def cluster_weights(
-- 
2.43.0


From 3131434887cb1c8e34df4b1ea3d973ed6b03a5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 04/32] fix: count channels, not bias or kernel entries, before
 per-channel clustering

---
 .../python/core/clustering/keras/cluster.py                    | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 9203928..a28088b 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -398,8 +398,7 @@ def layer_has_enough_weights_to_cluster(layer, number_of_clusters,
     raise ValueError(f'Layer {layer.name} has no weights to cluster.')
 
   number_of_layer_weights = tf.cast(tf.size(getattr(layer, 'kernel')), tf.int32)
-  channel_idx = 1 if layer.data_format == 'channels_first' else -1
-  number_of_channels = tf.size(layer.trainable_weights[channel_idx])
+  number_of_channels = layer.filters
 
   if cluster_per_channel:
     weights_to_cluster = number_of_layer_weights / number_of_channels
-- 
2.43.0


From 7484890d9fd8a552821ac33bb5a166a4a4bb4669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 05/32] fix: cluster_weights rejects objects it cannot cluster

---
 .../python/core/clustering/keras/cluster.py                   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index a28088b..4d0745b 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -304,6 +304,10 @@ def _cluster_weights(to_cluster,
     return _add_clustering_wrapper(layer=to_cluster)
   if isinstance(to_cluster, list):
     return _wrap_list(to_cluster)
+  raise ValueError(
+      '`cluster_weights` can only cluster a keras layer, a list of keras '
+      'layers or a keras model. You passed an object of type: {input}.'.format(
+          input=to_cluster.__class__.__name__))
 
 
 def strip_clustering(model):
-- 
2.43.0


From a99fe354f2a3c2ae82ae9d3ca33589d5c2141694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 06/32] fix: forward training to the layer inside
 ClusterWeights

---
 .../python/core/clustering/keras/cluster_wrapper.py         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 82c6346..c4c3c49 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -14,6 +14,7 @@
 # ==============================================================================
 """Keras ClusterWeights wrapper API."""
 
+import inspect
 import operator
 
 import tensorflow as tf
@@ -329,6 +330,11 @@ class ClusterWeights(Wrapper):
     # Update cluster associations in order to set the latest weights
     self.update_clustered_weights_associations()
 
+    # Propagate the training bool to the underlying layer if it accepts
+    # training as an arg.
+    if 'training' in inspect.getfullargspec(self.layer.call).args:
+      return self.layer.call(inputs, training=training, **kwargs)
+
     return self.layer.call(inputs, **kwargs)
 
   def compute_output_shape(self, input_shape):
-- 
2.43.0


From a7708d57ab3ad0f186e1b29b9708a95521d90c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 07/32] fix: FixedQuantizer quantizes with the requested number
 of bits

---
 .../python/core/quantization/keras/quant_ops.py            | 7 +++++--
 .../python/core/quantization/keras/quantizers.py           | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
index 7a0c2f8..e0a3d35 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
@@ -24,7 +24,8 @@ from tensorflow_model_optimization.python.core.keras import compat as tf_compat
 
 
 def FixedQuantize(
-    inputs, init_min=-6.0, init_max=6.0, scope=None, narrow_range=False):
+    inputs, init_min=-6.0, init_max=6.0, scope=None, narrow_range=False,
+    num_bits=8):
   """Adds a fake quantize layer with fixed quantization interval.
 
   Args:
@@ -34,6 +35,7 @@ def FixedQuantize(
     scope: Optional scope for name_scope.
     narrow_range: Whether to use the narrow quantization range
       [1; 2^num_bits - 1] or wide range [0; 2^num_bits - 1].
+    num_bits: Number of bits to use for quantization.
   Returns:
     a tensor containing quantized values.
   """
@@ -42,7 +44,8 @@ def FixedQuantize(
 
   with tf.name_scope(scope):
     return tf.quantization.fake_quant_with_min_max_args(
-        inputs, min=init_min, max=init_max, narrow_range=narrow_range)
+        inputs, min=init_min, max=init_max, num_bits=num_bits,
+        narrow_range=narrow_range)
 
 
 def AllValuesQuantize(inputs,
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
index a5a1f73..529fafb 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
@@ -413,6 +413,7 @@ class FixedQuantizer(_QuantizeHelper, Quantizer):
         self.init_min,
         self.init_max,
         narrow_range=self.narrow_range,
+        num_bits=self.num_bits,
     )
 
   def get_config(self):
-- 
2.43.0


From f88a52313c9299a6801f2b198d221242806dae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 08/32] fix: quantize config equality compares activation
 attributes

---
 .../keras/default_8bit/default_8bit_quantize_registry.py        | 2 +-
 .../default_n_bit/default_n_bit_quantize_registry.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_registry.py
index 244a6c0..2fe5027 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_registry.py
@@ -366,7 +366,7 @@ class Default8BitQuantizeConfig(QuantizeConfig):
       return False
 
     return (self.weight_attrs == other.weight_attrs and
-            self.activation_attrs == self.activation_attrs and
+            self.activation_attrs == other.activation_attrs and
             self.weight_quantizer == other.weight_quantizer and
             self.activation_quantizer == other.activation_quantizer and
             self.quantize_output == other.quantize_output)
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
index d33dc67..9c46c6f 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
@@ -406,7 +406,7 @@ class DefaultNBitQuantizeConfig(QuantizeConfig):
       return False
 
     return (self.weight_attrs == other.weight_attrs and
-            self.activation_attrs == self.activation_attrs and
+            self.activation_attrs == other.activation_attrs and
             self.weight_quantizer == other.weight_quantizer and
             self.activation_quantizer == other.activation_quantizer and
             self.quantize_output == other.quantize_output)
-- 
2.43.0


From 3db88027053abf5cde54a02821a15e6450164b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 09/32] fix: FixedQuantizeConfig.from_config leaves the
 caller's config as it is

---
 .../python/core/quantization/keras/quantize_config.py            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_config.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_config.py
index 0711a7e..4916532 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_config.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_config.py
@@ -280,5 +280,6 @@ class FixedQuantizeConfig(QuantizeConfig):
 
   @classmethod
   def from_config(cls, config):
+    config = config.copy()
     config['config'] = quantize_utils.deserialize_keras_object(config['config'])
     return cls(**config)
-- 
2.43.0


From d07d94cbe0b119fa4814e8e4801613a9a6a3ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 10/32] fix: reject sequential models without a quantize layer
 with a ValueError

---
 .../python/core/quantization/keras/quantize.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
index b5e4337..757d371 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize.py
@@ -643,7 +643,7 @@ def fix_input_output_range(
 
     model = keras.Model.from_config(config)
   else:
-    if (len(config['layers']) < 1 or
+    if (len(config['layers']) < 2 or
         config['layers'][1]['class_name'] != 'QuantizeLayer'):
       raise ValueError('`model` should be already quantized.')
     config['layers'][1]['config'][
@@ -713,7 +713,7 @@ def remove_input_range(model):
 
     model = keras.Model.from_config(config)
   else:
-    if (len(config['layers']) < 1 or
+    if (len(config['layers']) < 2 or
         config['layers'][1]['class_name'] != 'QuantizeLayer'):
       raise ValueError('`model` should be already quantized.')
     config['layers'][1]['config'][
-- 
2.43.0


From 4fe041ca033ef459b418f9f5b4151196ebe2c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 11/32] fix: a layer without zeros no longer disables sparsity
 preservation for others

---
 .../cluster_preserve_quantize_registry.py            | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
index ff2381f..94b09a9 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
@@ -344,8 +344,10 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
     """
     result = {}
     weights = getattr(layer.layer, name)
-    if self.preserve_sparsity and not tf.reduce_any(weights == 0):
-      self.preserve_sparsity = False
+    # The quantizer may be shared by several layers: decide for this one only.
+    preserve_sparsity = self.preserve_sparsity
+    if preserve_sparsity and not tf.reduce_any(weights == 0):
+      preserve_sparsity = False
       logging.warning(
           'Input layer does not contain zero weights, so apply CQAT instead.')
     centroids_mask = None
@@ -355,7 +357,7 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
     centroids, num_centroids, lookup, cluster_per_channel = get_centroids(
         layer, weights, data_format)
 
-    if self.preserve_sparsity:
+    if preserve_sparsity:
       sparsity_mask = tf.math.divide_no_nan(weights, weights)
       zero_idx = tf.argmin(tf.abs(centroids), axis=-1)
       centroids_mask = 1.0 - tf.one_hot(zero_idx, num_centroids)
@@ -467,7 +469,7 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
     """
     if training:
       if CLUSTER_CENTROIDS in weights:
-        if self.preserve_sparsity:
+        if SPARSITY_MASK in weights:
           weights[ORIGINAL_WEIGHTS].assign(
               tf.multiply(weights[ORIGINAL_WEIGHTS],
                           weights[SPARSITY_MASK]))
@@ -489,7 +491,7 @@ class ClusterPreserveDefaultWeightsQuantizer(quantizers.LastValueQuantizer):
             weights[PULLING_INDICES], weights[ORIGINAL_WEIGHTS])
         inputs.assign(output)
       else:
-        if self.preserve_sparsity:
+        if SPARSITY_MASK in weights:
           inputs = tf.multiply(inputs, weights[SPARSITY_MASK])
         output = inputs
     else:
-- 
2.43.0


From 4c96f92cbb6019c020c74b1add27ee93b25eb574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 12/32] fix: strip_clustering_cqat looks at the layer type, not
 at its name

---
 .../keras/collab_opts/cluster_preserve/cluster_utils.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_utils.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_utils.py
index 0226163..9c55667 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_utils.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_utils.py
@@ -86,7 +86,7 @@ def strip_clustering_cqat(to_strip):
     # we only handle conv2d and dense layers here
     if hasattr(layer, 'layer'):
       # pylint:disable=protected-access
-      if 'depthwise' not in layer.layer.name:
+      if not isinstance(layer.layer, keras.layers.DepthwiseConv2D):
         if isinstance(layer.layer, (keras.layers.Conv2D, keras.layers.Dense)):
           new_variables = []
           for v in layer._trainable_weights:
-- 
2.43.0


From 920c9e88b9071b92d25dac83a0ad6d5c8b808def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 13/32] fix: GatherEncoder commutes with sum only if every
 stage does

---
 .../python/core/internal/tensor_encoding/core/gather_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
index 38b8b2d..1ce8730 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
@@ -370,7 +370,7 @@ class GatherEncoder:
   @property
   def fully_commutes_with_sum(self):
     # If any element is not True, the whole thing does not fully commute.
-    return sum(tf.nest.flatten(self._commuting_structure))
+    return all(tf.nest.flatten(self._commuting_structure))
 
   @property
   def state_update_aggregation_modes(self):
-- 
2.43.0


From 4fd2aea8b26f5f7d8d1a13620f5866a5b4943a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 14/32] fix: compression wrappers forward training to the
 wrapped layer

---
 .../common/keras/compression/internal/optimize.py  | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index 7c916f6..8420296 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 # ==============================================================================
 """Internal APIs and core implementation of weight compression API."""
+import inspect
 from typing import List, Mapping
 
 import tensorflow as tf
@@ -38,6 +39,13 @@ def _prevent_constant_folding(tensor, dummy_inputs):
   return outputs
 
 
+def _call_layer(layer, inputs, training):
+  """Calls `layer`, propagating `training` if the layer accepts it."""
+  if 'training' in inspect.getfullargspec(layer.call).args:
+    return layer.call(inputs, training=training)
+  return layer.call(inputs)
+
+
 class _TrainingWrapper(keras.layers.Wrapper):
   """Represent modifications to training graph for weight compression."""
 
@@ -134,7 +142,7 @@ class _TrainingWrapper(keras.layers.Wrapper):
       if name:
         self.attr_name_map[attr_name] = name
 
-  def call(self, inputs):
+  def call(self, inputs, training=None):
     for attr_name, name in self.attr_name_map.items():
       # TODO(tfmot): move constant folding prevention to the inference graph
       # only, since constant folding won't happen during training.
@@ -155,7 +163,7 @@ class _TrainingWrapper(keras.layers.Wrapper):
     # This assumes that all changes to the forward pass happen "prior" to
     # the nested layer's portion of the forward pass. This suffices since
     # the scope of this API is to only optimize the weights.
-    return self.layer.call(inputs)
+    return _call_layer(self.layer, inputs, training)
 
 
 # TODO(tfmot): deduplicate code with _TrainingWrapper.
@@ -243,7 +251,7 @@ class _InferenceWrapper(keras.layers.Wrapper):
       setattr(self.layer, attr_name, weight_tensor)
 
     # TODO(tfmot): handle training arg if needed given this is inference only.
-    return self.layer.call(inputs)
+    return _call_layer(self.layer, inputs, training)
 
 
 def _find(value, items):
-- 
2.43.0


From c4b39fd60d7a6ccf490ad073c1de44d26cb6e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 15/32] fix: do not map an inaccessible attribute to the
 previous compressed weight

---
 .../python/core/common/keras/compression/internal/optimize.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index 8420296..54d6a4f 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -138,7 +138,7 @@ class _TrainingWrapper(keras.layers.Wrapper):
         # TODO(tfmot): Some attributes are not accessible like
         # 'input', 'input_mask', 'input_shape',
         # 'output', 'output_mask', 'output_shape'
-        pass
+        continue
       if name:
         self.attr_name_map[attr_name] = name
 
-- 
2.43.0


From 06c04a891df35f1b85b1f37030253bdc7afac776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 16/32] fix: keep the weights of layers that have nothing to
 compress

---
 .../keras/compression/internal/optimize.py    | 37 +++++++++----------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index 54d6a4f..a3cb726 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -285,25 +285,22 @@ def _map_to_training_weights(
   # TODO(tfmot): see if Keras can introduce changes to simplify this.
   original_weights = []
   training_weights = []
-  if isinstance(layer, keras.layers.Conv2D) or isinstance(
-      layer, keras.layers.Dense
-  ):
-    for weight in layer.weights:
-      if _find(weight, compressible_weights):
-        algorithm.weight_reprs = []
-        algorithm.init_training_weights(weight)
-        for weight_repr in algorithm.weight_reprs:
-          # Assumes initializer is keras.initializers.Constant.
-          # TODO(tfmot): add check for this assumption.
-          # TODO(tfmot): the documentation for
-          # keras.initializers.Constant(value)
-          # suggests that the `value` cannot be any arbitrary shape and
-          # only a single scalar value. It works in this implementation
-          # to make `value` any tensor - check this.
-          training_weights.append(weight_repr.kwargs['initializer'](
-              shape=None, dtype=weight_repr.kwargs['dtype']))
-      else:
-        original_weights.append(weight)
+  for weight in layer.weights:
+    if _find(weight, compressible_weights):
+      algorithm.weight_reprs = []
+      algorithm.init_training_weights(weight)
+      for weight_repr in algorithm.weight_reprs:
+        # Assumes initializer is keras.initializers.Constant.
+        # TODO(tfmot): add check for this assumption.
+        # TODO(tfmot): the documentation for
+        # keras.initializers.Constant(value)
+        # suggests that the `value` cannot be any arbitrary shape and
+        # only a single scalar value. It works in this implementation
+        # to make `value` any tensor - check this.
+        training_weights.append(weight_repr.kwargs['initializer'](
+            shape=None, dtype=weight_repr.kwargs['dtype']))
+    else:
+      original_weights.append(weight)
 
   return training_weights + original_weights
 
@@ -409,7 +406,7 @@ def create_layer_for_training(layer, algorithm):
       algorithm,
       compressible_weights_name)
 
-  if compressible_weights:
+  if layer.weights:
     # Set pretrained weight values.
     wrapped_layer.build(input_shape)
     # Clear `_build_input_shape` so that `build()` is not immediately called
-- 
2.43.0


From f4cd54dd20c004ad6e948fdd8ab98123cf344c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 17/32] fix: build inference weights from what is left in the
 layer, biased or not

---
 .../keras/compression/internal/optimize.py    | 29 +++++++------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index a3cb726..5ea374b 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -306,15 +306,15 @@ def _map_to_training_weights(
 
 
 # TODO(tfmot): same TODOs as _map_to_training_weights.
-def _map_to_inference_weights(training_weights, algorithm, training_tensors):
+def _map_to_inference_weights(original_weights, algorithm, training_tensors):
   """Construct the inference weight values from the weights after training.
 
     The weight values have the same structure as the output of
     `keras.layers.Layer.get_weights`.
 
   Args:
-    training_weights: layer's weights from training, retrieved via
-      layer.get_weights()
+    original_weights: weights that are not compressed, retrieved via
+      get_weights() of the wrapped layer
     algorithm: weight compression algorithm
     training_tensors: map from compressible weight attribute (e.g. 'kernel') to
       relevant tensors.
@@ -323,26 +323,19 @@ def _map_to_inference_weights(training_weights, algorithm, training_tensors):
     Initial weight values for training.
 
   Example:
-    training_weights =    [kernel_var1, kernel_var2, bias]
+    original_weights =    [bias]
     training_tensors = {'kernel': [kernel_var1, kernel_var2]}
     expected output:   [compress_training_weights(
       [kernel_var1, kernel_var2]), bias]
   """
 
   compressed_weights = []
-  weights = ['kernel', 'bias']
-  layer_weights_i = 0
-  for weight in weights:
-    if weight in training_tensors:
-      compressed = algorithm.compress_training_weights(
-          *training_tensors[weight])
-      for c in compressed:
-        compressed_weights.append(c.numpy())
-      layer_weights_i += len(training_tensors[weight])
-    else:
-      compressed_weights.append(training_weights[layer_weights_i])
-      layer_weights_i += 1
-  return compressed_weights
+  for weight in training_tensors:
+    compressed = algorithm.compress_training_weights(
+        *training_tensors[weight])
+    for c in compressed:
+      compressed_weights.append(c.numpy())
+  return compressed_weights + list(original_weights)
 
 
 def create_layer_for_training(layer, algorithm):
@@ -460,7 +453,7 @@ def create_layer_for_inference(layer: _TrainingWrapper, algorithm):
   if layer.get_weights():
     # Set weights of layer for inference according to what was trained.
     inference_weights = _map_to_inference_weights(
-        layer.get_weights(), algorithm, compressible_training_tensors)
+        nested_layer.get_weights(), algorithm, compressible_training_tensors)
     layer_for_inference.set_weights(inference_weights)
 
   return layer_for_inference
-- 
2.43.0


From f2b3a013368febbf24dc510963d16d99268ea21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 18/32] fix: strip_clustering re-attaches the weights of
 attention layers

---
 .../python/core/clustering/keras/cluster_wrapper.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index c4c3c49..cc81440 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -488,6 +488,6 @@ class ClusterWeightsMHA(ClusterWeights):
 
       # Re-assign these weights to the original
       original_weight.assign(clustered_weight)
-      setattr(self.layer, weight_name, original_weight)
+      self.set_weight_to_layer(weight_name, original_weight)
 
     return self.layer
-- 
2.43.0


From 14db39139a76083ee619463405dfea81a6b02edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 19/32] fix: strip_clustering restores weights in the order of
 the layer

---
 .../python/core/clustering/keras/cluster.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 4d0745b..624c47f 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -363,7 +363,7 @@ def strip_clustering(model):
       # non-clusterable weights only
       updated_weights = layer.layer.get_weights()
       for (position_variable,
-           weight_name) in layer.position_original_weights.items():
+           weight_name) in sorted(layer.position_original_weights.items()):
         # Add the clustered weights at the correct position
         clustered_weight = layer.get_weight_from_layer(weight_name)
         updated_weights.insert(position_variable, clustered_weight)
-- 
2.43.0


From 4d55e1cb93643353f983771a299e92385d85a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 20/32] fix: MovingAverageQuantizer creates per-axis ranges
 when per_axis is set

---
 .../python/core/quantization/keras/quantizers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
index 529fafb..f70a14d 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
@@ -245,7 +245,7 @@ class MovingAverageQuantizer(_QuantizeHelper, Quantizer):
     self.narrow_range = narrow_range
 
   def build(self, tensor_shape, name, layer):
-    return self._add_range_weights(layer, name)
+    return self._add_range_weights(layer, name, self.per_axis, tensor_shape)
 
   def __call__(self, inputs, training, weights, **kwargs):
     """Quantize tensor.
-- 
2.43.0


From fd89a9a1a0bb11265d59fee8279485ad4180b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 21/32] fix: the dense batch-norm relu transforms run before
 the plain one

DenseBatchNormQuantize ran first and gave the batch normalization an output
quantizer, after which the ReLU variants left the pattern alone, so the
tensor between batch normalization and ReLU was quantized.
---
 .../default_8bit/default_8bit_quantize_layout_transform.py  | 2 +-
 .../default_n_bit_quantize_layout_transform.py              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
index 70b0681..d536c26 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
@@ -65,9 +65,9 @@ class Default8BitQuantizeLayoutTransform(
         default_8bit_transforms.ConcatTransform4Inputs(),
         default_8bit_transforms.ConcatTransform3Inputs(),
         default_8bit_transforms.ConcatTransform(),
-        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.DenseBatchNormReLUQuantize(),
         default_8bit_transforms.DenseBatchNormActivationQuantize(),
+        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.LayerReLUQuantize(),
         default_8bit_transforms.LayerReluActivationQuantize(),
     ]
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
index 50089c5..0f4505e 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
@@ -119,15 +119,15 @@ class DefaultNBitQuantizeLayoutTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormQuantize(
+        default_n_bit_transforms.DenseBatchNormReLUQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormReLUQuantize(
+        default_n_bit_transforms.DenseBatchNormActivationQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormActivationQuantize(
+        default_n_bit_transforms.DenseBatchNormQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-- 
2.43.0


From 46738679360e256ede2590de73c9a829c924eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 22/32] fix: ReLU transforms keep a custom QuantizeConfig of
 the layer before

LayerReLUQuantize replaced the QuantizeConfig the user annotated the layer
with by a NoOpQuantizeConfig.
---
 .../quantization/keras/default_8bit/default_8bit_transforms.py | 3 +++
 .../experimental/default_n_bit/default_n_bit_transforms.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
index bda38f6..e896806 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
@@ -579,6 +579,9 @@ class LayerReLUQuantize(transforms.Transform):
     relu_layer_node = match_layer
     add_layer_node = relu_layer_node.input_layers[0]
 
+    if _has_custom_quantize_config(add_layer_node):
+      return match_layer
+
     add_layer_node.metadata['quantize_config'] = (
         default_8bit_quantize_configs.NoOpQuantizeConfig())
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index 0aa6629..3c6b43a 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -616,6 +616,9 @@ class LayerReLUQuantize(transforms.Transform):
     relu_layer_node = match_layer
     add_layer_node = relu_layer_node.input_layers[0]
 
+    if _has_custom_quantize_config(add_layer_node):
+      return match_layer
+
     add_layer_node.metadata['quantize_config'] = (
         configs.NoOpQuantizeConfig())
 
-- 
2.43.0


From 9f053fa37606ae166cee09d211716a37e56a0e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 23/32] fix: n-bit registries do not share their numbers of
 bits

Each DefaultNBitQuantizeRegistry wrote its numbers of bits into the layer
table shared by all of them, so that creating one changed the configurations
returned by the others.
---
 .../default_n_bit/default_n_bit_quantize_registry.py        | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
index 9c46c6f..9060cee 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
@@ -185,8 +185,6 @@ class DefaultNBitQuantizeRegistry(
     self._num_bits_activation = num_bits_activation
     self._layer_quantize_map = {}
     for quantize_info in self._LAYER_QUANTIZE_INFO:
-      quantize_info.num_bits_weight = num_bits_weight
-      quantize_info.num_bits_activation = num_bits_activation
       self._layer_quantize_map[quantize_info.layer_type] = quantize_info
 
     # Hack for `Activation` layer. That is the only layer with a separate
@@ -275,8 +273,8 @@ class DefaultNBitQuantizeRegistry(
     return DefaultNBitQuantizeConfig(quantize_info.weight_attrs,
                                      quantize_info.activation_attrs,
                                      quantize_info.quantize_output,
-                                     quantize_info.num_bits_weight,
-                                     quantize_info.num_bits_activation)
+                                     self._num_bits_weight,
+                                     self._num_bits_activation)
 
   def get_quantize_config(self, layer):
     """Returns the quantization config for the given layer.
-- 
2.43.0


From 44a6448640826e62ac1ec683f4c5ee64b9b70212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 24/32] fix: n-bit configurations remember that a concatenation
 disabled their output

The n-bit ConcatTransform disabled the output quantizers of the feeding
layers only on the instance, so the quantizers came back when the model was
saved and loaded, and its weights could not be restored.
---
 .../default_n_bit/default_n_bit_quantize_configs.py       | 8 +++++++-
 .../default_n_bit/default_n_bit_quantize_registry.py      | 7 ++++++-
 .../default_n_bit/default_n_bit_transforms.py             | 3 +++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
index 66bc47e..8f6bfba 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
@@ -22,9 +22,11 @@ from tensorflow_model_optimization.python.core.quantization.keras import quantiz
 class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
   """QuantizeConfig which only quantizes the output from a layer."""
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               quantize_output: bool = True):
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
+    self.quantize_output = quantize_output
 
   def get_weights_and_quantizers(self, layer):
     return []
@@ -39,6 +41,9 @@ class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
     pass
 
   def get_output_quantizers(self, layer):
+    if not self.quantize_output:
+      return []
+
     return [quantizers.MovingAverageQuantizer(
         num_bits=self._num_bits_activation, per_axis=False,
         symmetric=False, narrow_range=False)]  # activation/output
@@ -47,6 +52,7 @@ class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
     return {
         'num_bits_weight': self._num_bits_weight,
         'num_bits_activation': self._num_bits_activation,
+        'quantize_output': self.quantize_output,
     }
 
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
index 9060cee..dc26aea 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
@@ -488,9 +488,11 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
   decision to quantize depends on the specific activation type.
   """
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               quantize_output: bool = True):
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
+    self.quantize_output = quantize_output
 
   def _assert_activation_layer(self, layer):
     if not isinstance(layer, layers.Activation):
@@ -514,6 +516,8 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
 
   def get_output_quantizers(self, layer):
     self._assert_activation_layer(layer)
+    if not self.quantize_output:
+      return []
 
     if not hasattr(layer.activation, '__name__'):
       raise ValueError('Activation {} not supported by '
@@ -537,6 +541,7 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
     return {
         'num_bits_weight': self._num_bits_weight,
         'num_bits_activation': self._num_bits_activation,
+        'quantize_output': self.quantize_output,
     }
 
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index 3c6b43a..f66c6f1 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -709,6 +709,9 @@ class ConcatTransform(transforms.Transform):
   def _disable_output_quantize(self, quantize_config):
     # TODO(pulkitb): Disabling quantize_config may also require handling
     # activation quantizers. Handle that properly.
+    if hasattr(quantize_config, 'quantize_output'):
+      quantize_config.quantize_output = False
+
     quantize_config.get_output_quantizers = lambda layer: []
 
   def replacement(self, match_layer):
-- 
2.43.0


From 553ee2a5fac9a0b2d52ef388ea18a2692e835229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 25/32] fix: graph transformations keep the order of a layer's
 inputs

---
 .../keras/graph_transformations/model_transformer.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index 596ff35..c554d06 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -234,6 +234,10 @@ class ModelTransformer(object):
     # connection. Ignoring those for now.
     input_layer_names = self._get_input_layer_names(layer)
     input_layers = self._get_layers(input_layer_names)
+    # Layers which have been replaced are at the end of the config. Keep the
+    # order in which `layer` consumes its inputs.
+    input_layers.sort(
+        key=lambda inp: input_layer_names.index(inp['config']['name']))
 
     if len(input_layers) != len(pattern.inputs):
       # Number of inputs this layer takes is different from the number of
-- 
2.43.0


From 57452524175dbb2c64710e58c3ba5f46deabe23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 26/32] fix: graph transformations keep the call arguments of
 kept layers

---
 .../graph_transformations/model_transformer.py   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index c554d06..86915b0 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -359,17 +359,25 @@ class ModelTransformer(object):
       if not layer_node.input_layers:
         return
 
+      # A layer which is kept from the match keeps the tensor indices and call
+      # arguments (such as `training`) of its connections.
+      inbound_nodes = layer_node.layer.get('inbound_nodes')
+      if not inbound_nodes or len(inbound_nodes[0]) != len(
+          layer_node.input_layers):
+        inbound_nodes = [[[None, 0, 0, {}] for _ in layer_node.input_layers]]
+
       layer_node.layer['inbound_nodes'] = [[]]
-      for input_layer in layer_node.input_layers:
+      for input_layer, connection_info in zip(
+          layer_node.input_layers, inbound_nodes[0]):
         # inbound_nodes can be specific tensors from multiple inbound
         # connections. We make the following assumptions.
         # - Only 1 inbound node for each replacement layer.
-        # - Only 1 tensor output from the previous layer which is connected.
-        # - call() method during construction does not have any args.
+        # - New layers consume the 1st output of their input layers, without
+        #   any args to call().
         # These are reasonable assumptions for almost all case we are
         # interested in.
         layer_node.layer['inbound_nodes'][0].append(
-            [input_layer.layer['config']['name'], 0, 0, {}])
+            [input_layer.layer['config']['name']] + list(connection_info[1:]))
 
         _assign_inbounds_for_replacement(input_layer)
 
-- 
2.43.0


From 49ed991501c38870eaf32f52277c2a8bce45832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 27/32] fix: dense batch-norm transforms run before the
 concatenation ones

---
 .../default_8bit_quantize_layout_transform.py |  6 +++---
 ...default_n_bit_quantize_layout_transform.py | 20 +++++++++----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
index d536c26..f4281f9 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
@@ -60,14 +60,14 @@ class Default8BitQuantizeLayoutTransform(
         default_8bit_transforms.Conv2DBatchNormActivationQuantize(),
         default_8bit_transforms.Conv2DReshapeBatchNormQuantize(),
         default_8bit_transforms.Conv2DBatchNormQuantize(),
+        default_8bit_transforms.DenseBatchNormReLUQuantize(),
+        default_8bit_transforms.DenseBatchNormActivationQuantize(),
+        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.ConcatTransform6Inputs(),
         default_8bit_transforms.ConcatTransform5Inputs(),
         default_8bit_transforms.ConcatTransform4Inputs(),
         default_8bit_transforms.ConcatTransform3Inputs(),
         default_8bit_transforms.ConcatTransform(),
-        default_8bit_transforms.DenseBatchNormReLUQuantize(),
-        default_8bit_transforms.DenseBatchNormActivationQuantize(),
-        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.LayerReLUQuantize(),
         default_8bit_transforms.LayerReluActivationQuantize(),
     ]
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
index 0f4505e..8d388d0 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
@@ -91,43 +91,43 @@ class DefaultNBitQuantizeLayoutTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform6Inputs(
+        default_n_bit_transforms.DenseBatchNormReLUQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform5Inputs(
+        default_n_bit_transforms.DenseBatchNormActivationQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform4Inputs(
+        default_n_bit_transforms.DenseBatchNormQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform3Inputs(
+        default_n_bit_transforms.ConcatTransform6Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform(
+        default_n_bit_transforms.ConcatTransform5Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.LayerReLUQuantize(
+        default_n_bit_transforms.ConcatTransform4Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.LayerReluActivationQuantize(
+        default_n_bit_transforms.ConcatTransform3Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormReLUQuantize(
+        default_n_bit_transforms.ConcatTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormActivationQuantize(
+        default_n_bit_transforms.LayerReLUQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormQuantize(
+        default_n_bit_transforms.LayerReluActivationQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-- 
2.43.0


From f07c7f7349fa2e97a497cb3859af2ee5191d6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 28/32] fix: graph transformations keep inputs which are used
 twice

Concatenate([a, a, b]) has three inputs, but matched the pattern of a
concatenation of two, and became Concatenate([a, b]).
---
 .../keras/graph_transformations/model_transformer.py         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index 86915b0..7a2feb5 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -239,9 +239,10 @@ class ModelTransformer(object):
     input_layers.sort(
         key=lambda inp: input_layer_names.index(inp['config']['name']))
 
-    if len(input_layers) != len(pattern.inputs):
+    if (len(input_layers) != len(pattern.inputs) or
+        len(input_layer_names) != len(pattern.inputs)):
       # Number of inputs this layer takes is different from the number of
-      # inputs in the pattern.
+      # inputs in the pattern. A layer may be input more than once.
       #
       # This path currently has the limitation that it requires an exact number
       # of inputs to match a pattern. For example, if a user wants to match
-- 
2.43.0


From a81e7b0b07f2835d3d52797768150951677d2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:19 +0000
Subject: [PATCH 29/32] fix: graph transformations follow nested keyword
 arguments of layers

A layer which is consumed within a list or dictionary passed as a keyword
argument was not known to be consumed, and not reconnected when it was
replaced.
---
 .../model_transformer.py                      | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index 7a2feb5..b64fa56 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -80,6 +80,19 @@ class ModelTransformer(object):
       else:
         yield inbound_node
 
+  def _get_connections(self, value):
+    """Returns the connections in the (nested) value of a **kwarg argument."""
+    if isinstance(value, dict):
+      value = list(value.values())
+    if not isinstance(value, (list, tuple)) or not value:
+      return []
+    if isinstance(value[0], str):
+      return [value] if isinstance(value, list) else []
+    return [
+        connection for item in value
+        for connection in self._get_connections(item)
+    ]
+
   def _get_inbound_layer_names(self, layer):
     """Return all the inbound connection layer names for the layer."""
     inbound_layer_names = []
@@ -92,10 +105,10 @@ class ModelTransformer(object):
         # input argument case.
         inbound_layer_names.append(connection_info[0])
         # **kwarg argument case.
-        inbound_layer_names += [
-            value[0] for value in connection_info[3].values() if isinstance(
-                value, list)
-        ]
+        for value in connection_info[3].values():
+          inbound_layer_names += [
+              connection[0] for connection in self._get_connections(value)
+          ]
 
     return inbound_layer_names
 
@@ -334,10 +347,10 @@ class ModelTransformer(object):
                                                 replacement_name):
       if connection_info[0] == match_name:
         connection_info[0] = replacement_name
-      for key in connection_info[3]:
-        if isinstance(connection_info[3][key], list):
-          if connection_info[3][key][0] == match_name:
-            connection_info[3][key][0] = replacement_name
+      for value in connection_info[3].values():
+        for connection in self._get_connections(value):
+          if connection[0] == match_name:
+            connection[0] = replacement_name
 
     for consumer in consuming_layers:
       for inbound_node in self._inbound_node_generator(consumer):
-- 
2.43.0


From 979d1f645da5aa7046256f7262fe5c4eab3083c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 30/32] fix: graph transformations follow nested outputs of
 models

When a layer whose output is in a dictionary or nested list of outputs was
replaced, the output still referred to it.
---
 .../keras/graph_transformations/model_transformer.py         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index b64fa56..17a30ce 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -81,7 +81,7 @@ class ModelTransformer(object):
         yield inbound_node
 
   def _get_connections(self, value):
-    """Returns the connections in the (nested) value of a **kwarg argument."""
+    """Returns the connections in the nested structure `value`."""
     if isinstance(value, dict):
       value = list(value.values())
     if not isinstance(value, (list, tuple)) or not value:
@@ -125,7 +125,8 @@ class ModelTransformer(object):
   def _get_output_consumers(self, check_layer):
     """Returns if any tensors from the layer are outputs of the model."""
     output_consumers = []
-    for output_layer in self._config['output_layers']:
+    # The outputs may be nested in lists and dictionaries.
+    for output_layer in self._get_connections(self._config['output_layers']):
       if output_layer[0] == check_layer['config']['name']:
         output_consumers.append(output_layer)
     return output_consumers
-- 
2.43.0


From 4462eaef811bb8d3e5e89ca8e6b8ee232a8761be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 31/32] fix: encoders decode the right values when one key of a
 stage begins with another

---
 .../tensor_encoding/core/gather_encoder.py       | 11 ++++++-----
 .../tensor_encoding/core/simple_encoder.py       |  4 ++--
 .../internal/tensor_encoding/utils/py_utils.py   | 16 ++++++++++++++++
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
index 1ce8730..17298b7 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
@@ -297,8 +297,8 @@ class GatherEncoder:
       py_utils.assert_compatible(decode_before_sum_params_spec, params)
 
       encoded_structure = py_utils.merge_dicts(
-          tf.nest.pack_sequence_as(internal_structure['encoded_structure'],
-                                   tf.nest.flatten(encoded_structure)),
+          py_utils.pack_joined_string_paths(
+              internal_structure['encoded_structure'], encoded_structure),
           internal_py_values['encoded_structure'])
       params = py_utils.merge_dicts(
           tf.nest.pack_sequence_as(
@@ -328,9 +328,10 @@ class GatherEncoder:
                                  part_decoded_structure)
       py_utils.assert_compatible(decode_after_sum_params_spec, params)
 
-      part_decoded_structure = tf.nest.pack_sequence_as(
-          internal_structure['part_decoded_structure'],
-          tf.nest.flatten(part_decoded_structure))
+      if isinstance(part_decoded_structure, dict):
+        part_decoded_structure = py_utils.pack_joined_string_paths(
+            internal_structure['part_decoded_structure'],
+            part_decoded_structure)
       params = py_utils.merge_dicts(
           tf.nest.pack_sequence_as(
               internal_structure['decode_after_sum_params'], params),
diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/simple_encoder.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/simple_encoder.py
index 0396656..72f1684 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/simple_encoder.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/simple_encoder.py
@@ -133,8 +133,8 @@ class SimpleEncoder(object):
     def decode_fn(encoded_structure):
       encoded_structure = py_utils.merge_dicts(encoded_structure,
                                                encoded_py_structure['flat_py'])
-      encoded_structure = tf.nest.pack_sequence_as(
-          encoded_py_structure['full'], tf.nest.flatten(encoded_structure))
+      encoded_structure = py_utils.pack_joined_string_paths(
+          encoded_py_structure['full'], encoded_structure)
       return encoder.decode(encoded_structure[_TENSORS],
                             encoded_structure[_PARAMS],
                             encoded_structure[_SHAPES])
diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/py_utils.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/py_utils.py
index c91f8c2..9de4bf7 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/py_utils.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/py_utils.py
@@ -167,6 +167,22 @@ def flatten_with_joined_string_paths(structure, separator='/'):
           for path, item in tree.flatten_with_path(structure)]
 
 
+def pack_joined_string_paths(structure, flat, separator='/'):
+  """Inverse of `flatten_with_joined_string_paths`.
+
+  Args:
+    structure: A nested structure.
+    flat: A dictionary from the joined paths of `structure` to values.
+    separator: The separator with which the paths are joined.
+
+  Returns:
+    The values of `flat`, packed into the same structure as `structure`.
+  """
+  paths = [path for path, _ in flatten_with_joined_string_paths(
+      structure, separator)]
+  return tf.nest.pack_sequence_as(structure, [flat[path] for path in paths])
+
+
 def assert_compatible(spec, value):
   """Asserts that values are compatible with given specs.
 
-- 
2.43.0


From 3ac8affe29bc389adf28ca7b692a994cfd9d0653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 32/32] fix: random signs are never zero

---
 .../core/internal/tensor_encoding/utils/tf_utils.py  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
index bf58eb8..4e10a6e 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
@@ -223,6 +223,12 @@ def _cmwc_random_sequence(num_elements, seed):
   return  values
 
 
+def _signs(floats, dtype):
+  """Maps values from [0, 1) to -1 below 0.5, and to +1 otherwise."""
+  ones = tf.ones_like(floats)
+  return tf.cast(tf.where(floats < 0.5, -ones, ones), dtype)
+
+
 def random_signs(num_elements, seed, dtype=tf.float32):
   """Returns a Tensor of `num_elements` random +1/-1 values as `dtype`.
 
@@ -241,8 +247,7 @@ def random_signs(num_elements, seed, dtype=tf.float32):
   Returns:
     A Tensor of `num_elements` random +1/-1 values as `dtype`.
   """
-  return tf.cast(
-      tf.sign(tf.random.stateless_uniform([num_elements], seed) - 0.5), dtype)
+  return _signs(tf.random.stateless_uniform([num_elements], seed), dtype)
 
 
 def random_floats(num_elements, seed, dtype=tf.float32):
@@ -271,8 +276,7 @@ def random_floats(num_elements, seed, dtype=tf.float32):
 
 def random_signs_cmwc(num_elements, seed, dtype=tf.float32):
   """Returns a Tensor of `num_elements` random +1/-1 values as `dtype`."""
-  return tf.cast(
-      tf.sign(_cmwc_random_sequence(num_elements, seed) - 0.5), dtype)
+  return _signs(_cmwc_random_sequence(num_elements, seed), dtype)
 
 
 def random_floats_cmwc(num_elements, seed, dtype=tf.float32):
-- 
2.43.0

