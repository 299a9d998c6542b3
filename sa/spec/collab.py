"""Reference functions for collaborative optimization.  Never executed."""
import tensorflow as tf
from tensorflow_model_optimization.python.core.clustering.keras import cluster_config
from tensorflow_model_optimization.python.core.clustering.keras import clustering_registry
from tensorflow_model_optimization.python.core.keras.compat import keras
from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import cluster_preserve_quantize_registry as cp
from tensorflow_model_optimization.python.core.quantization.keras import quant_ops

K = keras.backend


def quantize(x, weights, training, num_bits, per_axis, symmetric,
             narrow_range):
  return quant_ops.LastValueQuantize(
      x, weights['min_var'], weights['max_var'], per_channel=per_axis,
      is_training=training, num_bits=num_bits, narrow_range=narrow_range,
      symmetric=symmetric)


def prune_call(inputs, training, weights, num_bits, per_axis, symmetric,
               narrow_range):
  return quantize(inputs * weights['sparsity_mask'], weights, training,
                  num_bits, per_axis, symmetric, narrow_range)


def sparsity_mask(name, layer):
  kernel = getattr(layer.layer, name)
  return {'sparsity_mask': tf.math.divide_no_nan(kernel, kernel)}


def cluster_call(inputs, training, weights, sparse, clustered, num_bits,
                 per_axis, symmetric, narrow_range):
  x = inputs
  if training:
    if clustered:
      impl = weights['clst_impl']
      if sparse:
        weights['ori_weights_vars_tf'].assign(
            weights['ori_weights_vars_tf'] * weights['sparsity_mask'])
        impl.cluster_centroids.assign(
            impl.cluster_centroids * weights['centroids_mask'])
        weights['cluster_centroids_tf'].assign(impl.cluster_centroids)
      weights['pulling_indices_tf'].assign(tf.cast(
          impl.get_pulling_indices(weights['ori_weights_vars_tf']),
          weights['pulling_indices_tf'].dtype))
      x = impl.get_clustered_weight(weights['pulling_indices_tf'],
                                    weights['ori_weights_vars_tf'])
      inputs.assign(x)
    elif sparse:
      x = inputs * weights['sparsity_mask']
  return quantize(x, weights, training, num_bits, per_axis, symmetric,
                  narrow_range)


def unique(t):
  values, index = tf.unique(tf.reshape(t, shape=(-1,)))
  return values, tf.reshape(index, shape=tf.shape(t))


def whole(weight):
  values, index = unique(weight)
  return values, tf.size(values), index, False


def per_channel(weight):
  """A kernel with two output channels."""
  v0, i0 = unique(weight[:, :, :, 0])
  v1, i1 = unique(weight[:, :, :, 1])
  n0, n1 = tf.size(v0), tf.size(v1)
  most = max([n0, n1])
  if most - min([n0, n1]) > 1:
    return whole(weight)
  if n0 != most:
    v0 = tf.concat([v0, tf.ones([most - n0])], 0)
  if n1 != most:
    v1 = tf.concat([v1, tf.ones([most - n1])], 0)
  return (tf.convert_to_tensor([v0, v1]), most,
          tf.transpose(tf.convert_to_tensor([i0, i1]), perm=(1, 2, 3, 0)),
          True)


def build_clusters(name, layer, preserve_sparsity):
  kernel = getattr(layer.layer, name)
  data_format = getattr(layer.layer, 'data_format', None)
  values, number, lookup, per_channel = cp.get_centroids(
      layer, kernel, data_format)
  sparse = preserve_sparsity and tf.reduce_any(kernel == 0)
  out = {}
  mask = None
  if sparse:
    zero = tf.argmin(tf.abs(values), axis=-1)
    mask = 1.0 - tf.one_hot(zero, number)
    out['sparsity_mask'] = tf.math.divide_no_nan(kernel, kernel)
  if number > 1024 or number <= 1:
    return out
  centroids = layer.add_weight(
      'cluster_centroids_tf', shape=values.shape,
      initializer=keras.initializers.Constant(
          value=K.batch_get_value([values])[0]),
      dtype=values.dtype, trainable=True)
  original = layer.add_weight(
      'ori_weights_vars_tf', shape=kernel.shape,
      initializer=keras.initializers.Constant(
          value=K.batch_get_value([kernel])[0]),
      dtype=kernel.dtype, trainable=True)
  impl = clustering_registry.ClusteringLookupRegistry().get_clustering_impl(
      layer.layer, name, cluster_per_channel=per_channel)(
          centroids, cluster_config.GradientAggregation.SUM, data_format)
  indices = tf.cast(impl.get_pulling_indices(original), lookup.dtype)
  out['pulling_indices_tf'] = layer.add_weight(
      'pulling_indices_tf', shape=lookup.shape,
      initializer=keras.initializers.Constant(
          value=K.batch_get_value([indices])[0]),
      dtype=lookup.dtype, trainable=False)
  out['cluster_centroids_tf'] = centroids
  out['ori_weights_vars_tf'] = original
  out['weight_name'] = name
  out['clst_impl'] = impl
  out['centroids_mask'] = mask
  return out


def strip_layer(layer):
  """Applied to the layers of a model (not to nested models)."""
  if hasattr(layer, 'layer') and isinstance(
      layer.layer, (keras.layers.Conv2D, keras.layers.Dense)) and (
          not isinstance(layer.layer, keras.layers.DepthwiseConv2D)):
    layer._trainable_weights = [
        v for v in layer._trainable_weights
        if 'cluster_centroids_tf' not in v.name and
        'ori_weights_vars_tf' not in v.name]
    layer._non_trainable_weights = [
        v for v in layer._non_trainable_weights
        if 'pulling_indices_tf' not in v.name]
  return layer
