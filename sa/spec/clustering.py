"""Reference formulas of weight clustering (analysed, never executed)."""
import tensorflow as tf
from tensorflow_model_optimization.python.core.keras.compat import keras
from tensorflow_model_optimization.python.core.clustering.keras.cluster_config import CentroidInitialization
from tensorflow_model_optimization.python.core.clustering.keras.cluster_config import GradientAggregation
from tensorflow_model_optimization.python.core.clustering.keras.clusterable_layer import ClusterableLayer
from tensorflow_model_optimization.python.core.clustering.keras.clustering_registry import ClusteringRegistry
from tensorflow_model_optimization.python.core.clustering.keras.clustering_registry import ClusteringLookupRegistry
from tensorflow_model_optimization.python.core.clustering.keras.clustering_algorithm import ClusteringAlgorithm
from tensorflow_model_optimization.python.core.clustering.keras.clustering_algorithm import ClusteringAlgorithmPerChannel
from tensorflow_model_optimization.python.core.clustering.keras.clustering_centroids import CentroidsInitializerFactory
from tensorflow.python.ops import clustering_ops
from tensorflow_model_optimization.python.core.clustering.keras.cluster_wrapper import ClusterWeights
from tensorflow_model_optimization.python.core.clustering.keras.cluster_wrapper import ClusterWeightsRNN
from tensorflow_model_optimization.python.core.clustering.keras.cluster_wrapper import ClusterWeightsMHA
from tensorflow_model_optimization.python.core.clustering.keras.cluster import layer_has_enough_weights_to_cluster


def update(self):
  """Associations follow the original weights; the layer gets the gather."""
  for name, original in self.original_clusterable_weights.items():
    if self.preserve_sparsity:
      if self.cluster_per_channel:
        for channel in range(self.num_channels):
          c = self.cluster_centroids[name][channel]
          zero = c[self.zero_idx[name][channel]]
          c.assign(c * tf.cast(tf.not_equal(c, zero), tf.float32))
      else:
        c = self.cluster_centroids[name]
        zero = c[self.zero_idx[name]]
        c.assign(c * tf.cast(tf.not_equal(c, zero), tf.float32))
      original = original * self.sparsity_masks[name]
    algorithm = self.clustering_algorithms[name]
    indices = algorithm.get_pulling_indices(original)
    self.pulling_indices[name].assign(indices)
    self.set_weight_to_layer(
        name, algorithm.get_clustered_weight(indices, original))


def nearest(weight, centroids):
  return tf.argmin(tf.abs(tf.expand_dims(weight, axis=-1) - centroids), axis=-1)


def clustered(self, indices, original):
  if self.cluster_gradient_aggregation == GradientAggregation.SUM:
    centroids = self.cluster_centroids
  elif self.cluster_gradient_aggregation == GradientAggregation.AVG:
    sizes = tf.math.bincount(
        arr=tf.cast(indices, dtype=tf.int32),
        minlength=tf.size(self.cluster_centroids),
        dtype=self.cluster_centroids.dtype)
    centroids = self.average_centroids_gradient_by_cluster_size(
        self.cluster_centroids, tf.stop_gradient(sizes))
  else:
    raise ValueError()
  return self.add_gradient_to_original_weight(
      tf.gather(centroids, indices), tf.identity(original))


def average_forward(cluster_centroids):
  return cluster_centroids


def average_grad(d, cluster_sizes):
  return tf.math.divide_no_nan(d, cluster_sizes), None


def straight_through(clustered_weight, original_weight):
  return clustered_weight * tf.sign(original_weight + 1e+6)


def straight_through_grad(d):
  return d, d


def channel_nearest(weight, centroids):
  """Channels are the last axis."""
  out = []
  for channel in range(weight.shape[-1]):
    out.append(tf.argmin(tf.abs(tf.expand_dims(
        weight[:, :, :, channel], axis=-1) - centroids[channel]), axis=-1))
  return tf.transpose(tf.convert_to_tensor(out), perm=(1, 2, 3, 0))


def channel_clustered(self, indices, original):
  n = original.shape[-1]
  indices = tf.transpose(indices, perm=(3, 0, 1, 2))
  if self.cluster_gradient_aggregation == GradientAggregation.SUM:
    centroids = self.cluster_centroids
  elif self.cluster_gradient_aggregation == GradientAggregation.AVG:
    sizes = []
    for i in range(n):
      sizes.append(tf.math.bincount(
          arr=tf.cast(indices[i], dtype=tf.int32),
          minlength=tf.size(self.cluster_centroids[i]),
          dtype=self.cluster_centroids.dtype))
    centroids = self.average_centroids_gradient_by_cluster_size(
        self.cluster_centroids, tf.stop_gradient(tf.convert_to_tensor(sizes)))
  else:
    raise ValueError()
  out = []
  for i in range(n):
    out.append(tf.gather(centroids[i], indices[i]))
  return self.add_gradient_to_original_weight(
      tf.transpose(out, perm=[1, 2, 3, 0]), tf.identity(original))


def wrapper_rejects(layer, number_of_clusters, preserve_sparsity):
  if not isinstance(layer, keras.layers.Layer):
    raise ValueError()
  if not (isinstance(layer, ClusterableLayer) or
          ClusteringRegistry.supports(layer)):
    raise ValueError()
  if not isinstance(number_of_clusters, int):
    raise ValueError()
  if number_of_clusters <= (2 if preserve_sparsity else 1):
    raise ValueError()


def linear(weights, n):
  if tf.math.less_equal(n, 0):
    return tf.constant([])
  return tf.linspace(tf.reduce_min(weights), tf.reduce_max(weights), n)


def random(weights, n):
  return tf.random.uniform(
      shape=(n,), minval=tf.reduce_min(weights), maxval=tf.reduce_max(weights),
      dtype=weights.dtype)


def centroids(self):
  """Initial centroids; interval(w, n) is the chosen initialisation."""
  if self.preserve_sparsity and self.cluster_per_channel:
    out = []
    for channel in range(self.num_channels):
      out.append(zero_centroids(self, self.weights[:, :, :, channel]))
    return tf.convert_to_tensor(out)
  if self.preserve_sparsity:
    return zero_centroids(self, self.weights)
  if self.cluster_per_channel:
    out = []
    for channel in range(self.num_channels):
      out.append(self._calculate_centroids_for_interval(
          self.weights[:, :, :, channel], self.number_of_clusters))
    return tf.convert_to_tensor(out)
  return self._calculate_centroids_for_interval(
      self.weights, self.number_of_clusters)


def zero_centroids(self, weights):
  zero = tf.zeros(shape=(1,))
  negative = tf.boolean_mask(weights, tf.math.less(weights, 0))
  positive = tf.boolean_mask(weights, tf.math.greater(weights, 0))
  n_neg = tf.size(negative)
  n = n_neg + tf.size(positive)
  if tf.math.equal(n, 0):
    return zero
  k = self.number_of_clusters - 1
  k_neg = tf.cast(tf.math.round(k * (n_neg / n)), dtype=tf.int64)
  return tf.concat([
      self._calculate_centroids_for_interval(negative, k_neg), zero,
      self._calculate_centroids_for_interval(positive, k - k_neg)], axis=0)


def wrap(layer, number_of_clusters, cluster_centroids_init, preserve_sparsity,
         cluster_per_channel, kwargs):
  """What each layer of a clustered model becomes."""
  if isinstance(layer, keras.Model):
    if not layer._is_graph_network and not isinstance(layer, keras.Sequential):
      raise ValueError()
    return 'nested model'
  if isinstance(layer, ClusterWeights):
    return layer
  if isinstance(layer, keras.layers.InputLayer):
    return layer.__class__.from_config(layer.get_config())
  if isinstance(layer, (keras.layers.RNN, keras.layers.Bidirectional)):
    return ClusterWeightsRNN(layer, number_of_clusters, cluster_centroids_init,
                             preserve_sparsity, **kwargs)
  if isinstance(layer, keras.layers.MultiHeadAttention):
    return ClusterWeightsMHA(layer, number_of_clusters, cluster_centroids_init,
                             preserve_sparsity, **kwargs)
  if isinstance(layer, keras.layers.Conv2D):
    if not layer_has_enough_weights_to_cluster(
        layer, number_of_clusters, cluster_per_channel):
      return layer
  return ClusterWeights(layer, number_of_clusters, cluster_centroids_init,
                        preserve_sparsity, cluster_per_channel, **kwargs)


def enough(layer, number_of_clusters, cluster_per_channel):
  if not isinstance(layer, keras.layers.Conv2D):
    raise ValueError()
  if not layer.trainable_weights:
    raise ValueError()
  n = tf.size(layer.kernel)
  if cluster_per_channel:
    return n / layer.filters > number_of_clusters
  return n > number_of_clusters


def unwrap(layer):
  if isinstance(layer, keras.Model):
    return 'nested model'
  if isinstance(layer, ClusterWeightsMHA):
    layer.update_clustered_weights_associations()
    return layer.strip_clustering()
  if isinstance(layer, ClusterWeights):
    layer.update_clustered_weights_associations()
    weights = layer.layer.get_weights()
    for position, name in sorted(layer.position_original_weights.items()):
      weights.insert(position, layer.get_weight_from_layer(name))
    clean = layer.layer.from_config(layer.layer.get_config())
    clean.build(layer.build_input_shape)
    clean.set_weights(weights)
    return clean
  return layer


def strip_attention(self):
  for name, original in self.original_clusterable_weights.items():
    pre, _, post = name.rpartition('.')
    original.assign(getattr(getattr(self.layer, pre), post))
    setattr(getattr(self.layer, pre), post, original)
  return self.layer


def build(self, input_shape):
  """State of the wrapper after build."""
  self.build_input_shape = input_shape
  for name, weight in self.layer.get_clusterable_weights():
    original = self.get_weight_from_layer(name)
    self.original_clusterable_weights[name] = original
    place = next(i for i, w in enumerate(self.layer.weights) if w is original)
    self.position_original_weights[place] = name
    if self.cluster_per_channel:
      if self.data_format == 'channels_first':
        self.num_channels = original.shape[1]
      else:
        self.num_channels = original.shape[-1]
    initial = CentroidsInitializerFactory.get_centroid_initializer(
        self.cluster_centroids_init)(
            weight, self.number_of_clusters, self.cluster_per_channel,
            self.data_format, self.preserve_sparsity).get_cluster_centroids()
    self.cluster_centroids[name] = self.add_weight(
        '{}{}'.format('cluster_centroids_', name), shape=initial.shape,
        dtype=weight.dtype, trainable=True,
        initializer=keras.initializers.Constant(value=initial))
    if isinstance(self.layer, keras.layers.RNN):
      plain = name
      if isinstance(self.layer.cell, keras.layers.StackedRNNCells):
        plain = name.split('/')[0]
    elif isinstance(self.layer, keras.layers.Bidirectional):
      plain = name.split('/')[0]
    else:
      plain = name
    algorithm = ClusteringLookupRegistry().get_clustering_impl(
        self.layer, plain, self.cluster_per_channel)(
            clusters_centroids=self.cluster_centroids[name],
            cluster_gradient_aggregation=self.cluster_gradient_aggregation,
            data_format=self.data_format)
    self.clustering_algorithms[name] = algorithm
    indices = algorithm.get_pulling_indices(weight)
    self.pulling_indices[name] = self.add_weight(
        '{}{}'.format('pulling_indices_', name), shape=indices.shape,
        dtype=tf.int64, trainable=False,
        synchronization=tf.VariableSynchronization.ON_READ,
        aggregation=tf.VariableAggregation.ONLY_FIRST_REPLICA,
        initializer=keras.initializers.Constant(value=indices))
    if self.preserve_sparsity:
      self.sparsity_masks[name] = tf.cast(
          tf.math.not_equal(algorithm.get_clustered_weight(indices, original),
                            0), dtype=tf.float32)
      self.zero_idx[name] = tf.argmin(
          tf.abs(self.cluster_centroids[name]), axis=-1)


def algorithm_for(layer, weight_name, cluster_per_channel):
  if cluster_per_channel and isinstance(layer, keras.layers.Conv2D):
    return ClusteringAlgorithmPerChannel
  if (issubclass(layer.__class__, ClusterableLayer) and
      layer.get_clusterable_algorithm is not None):
    own = layer.get_clusterable_algorithm(weight_name)
    if own:
      return own
  return ClusteringAlgorithm


def rnn_holder(self, weight_name):
  """The cell holding a recurrent weight named <weight>/<cell index>."""
  i = int(weight_name.split('/')[1])
  if hasattr(self.layer, 'cell'):
    if isinstance(self.layer.cell, keras.layers.StackedRNNCells):
      return self.layer.cell.cells[i]
    return self.layer.cell
  if isinstance(self.layer, keras.layers.Bidirectional):
    if i < 0 or i > 1:
      raise ValueError()
    if i == 0:
      return self.layer.forward_layer.cell
    return self.layer.backward_layer.cell
  raise ValueError()


def rnn_get(self, weight_name):
  return getattr(rnn_holder(self, weight_name), rnn_plain(weight_name))


def attention_holder(self, weight_name):
  return getattr(self.layer, weight_name.rpartition('.')[0])


def attention_get(self, weight_name):
  return getattr(attention_holder(self, weight_name),
                 weight_name.rpartition('.')[2])


def attention_plain(weight_name):
  return weight_name.rpartition('.')[2]


def plain_holder(self, weight_name):
  return self.layer


def plain_get(self, weight_name):
  return getattr(self.layer, weight_name)


def plain_plain(weight_name):
  return weight_name


def rnn_plain(weight_name):
  return weight_name.split('/')[0]


def kmeans(weights, n):
  if tf.math.less_equal(n, 0):
    return tf.constant([])
  return tf.reshape(clustering_ops.kmeans_plus_plus_initialization(
      tf.reshape(weights, [-1, 1]), n, seed=9, num_retries_per_sample=-1), [n])


def density(self, weights, n):
  if tf.math.less_equal(n, 0):
    return tf.constant([])
  lo = tf.reduce_min(weights)
  hi = tf.reduce_max(weights)
  gap = 0.01
  if self.preserve_sparsity:
    gap = tf.minimum(0.01, tf.minimum(tf.math.abs(lo), tf.math.abs(hi)) / 2)
  grid = tf.linspace(lo - gap, hi + gap, 30)

  def cdf_at(x):
    return tf.cast(tf.math.count_nonzero(tf.less_equal(weights, x)),
                   dtype=tf.float32) / tf.size(weights, out_type=tf.float32)
  cdf = keras.backend.map_fn(cdf_at, grid)
  found = tf.searchsorted(sorted_sequence=cdf,
                          values=tf.linspace(0 + 0.01, 1, n), side='right')

  def one(i):
    j = tf.minimum(i, tf.size(cdf) - 1)
    h = tf.maximum(0, j - 1)
    x1, x2, y1, y2 = grid[j], grid[h], cdf[j], cdf[h]
    if y2 == y1:
      return x1
    slope = (y2 - y1) / tf.maximum(x2 - x1, 0.001)
    return (y1 - (y1 - x1 * slope)) / slope
  return tf.reshape(keras.backend.map_fn(one, found, dtype=tf.float32), (n,))


def cluster(to_cluster, cluster_centroids_init):
  if not CentroidsInitializerFactory.init_is_supported(cluster_centroids_init):
    raise ValueError()
  if isinstance(to_cluster, keras.Model):
    return 'model'
  if isinstance(to_cluster, keras.layers.Layer):
    return 'layer'
  if isinstance(to_cluster, list):
    return 'list'
  raise ValueError()
