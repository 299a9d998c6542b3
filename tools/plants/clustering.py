C = 'clustering/keras/'
HEAD = '''
import os
os.environ['TF_USE_LEGACY_KERAS'] = '1'
import numpy as np
import tensorflow as tf
import tensorflow_model_optimization as tfmot
from tensorflow_model_optimization.python.core.keras.compat import keras
from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_wrapper, cluster_config, clustering_algorithm, clustering_centroids, experimental
from tensorflow_model_optimization.python.core.clustering.keras.experimental import cluster as exp_cluster
LIN = cluster_config.CentroidInitialization.LINEAR
'''
T = [C + 'cluster_test.py', C + 'cluster_wrapper_test.py', C + 'clustering_algorithm_test.py',
     C + 'clustering_centroids_test.py', C + 'clustering_registry_test.py']
PLANTS = [
dict(id='cluster-sorted-lookup', prop='C01', edits=[(C+'clustering_algorithm.py',
'''    pulling_indices = tf.argmin(
        tf.abs(tf.expand_dims(weight, axis=-1) - cluster_centroids),
        axis=-1)

    return pulling_indices
''',
'''    cluster_centroids = tf.convert_to_tensor(cluster_centroids)
    number_of_centroids = cluster_centroids.shape[0]
    if number_of_centroids <= 16:
      # A dense comparison is the fastest for few clusters.
      return tf.argmin(
          tf.abs(tf.expand_dims(weight, axis=-1) - cluster_centroids),
          axis=-1)

    # Many clusters: the nearest centroid changes at the midpoints between two
    # neighbours, this saves the memory of the dense comparison.
    midpoints = (cluster_centroids[:-1] + cluster_centroids[1:]) / 2.0
    pulling_indices = tf.searchsorted(
        midpoints, tf.reshape(weight, [-1]), out_type=tf.int64)

    return tf.reshape(pulling_indices, tf.shape(weight))
''')],
 demo=HEAD+"""
c = np.linspace(-1, 1, 20).astype('float32')
c[3], c[12] = c[12], c[3]      # training has moved centroids past each other
a = clustering_algorithm.ClusteringAlgorithm(tf.Variable(c))
w = np.random.RandomState(0).uniform(-1, 1, (30, 4)).astype('float32')
got = a.get_pulling_indices(tf.constant(w)).numpy()
assert (got == np.abs(w[..., None] - c).argmin(-1)).all()
""",
 needs='more than 16 clusters whose centroids have been reordered by training',
 breaks='weights are not associated with their nearest centroid', tests=T),
dict(id='cluster-zero-idx-sign', prop='C02', edits=[(C+'cluster_wrapper.py',
'''        self.zero_idx[weight_name] = tf.argmin(
            tf.abs(self.cluster_centroids[weight_name]), axis=-1)
''',
'''        # The zero centroid is what separates the negative from the positive
        # centroids.
        self.zero_idx[weight_name] = tf.math.count_nonzero(
            self.cluster_centroids[weight_name] < 0, axis=-1)
''')],
 demo=HEAD+"""
l = keras.layers.Dense(6, input_shape=(5,), use_bias=False)
m = keras.Sequential([l])
w = np.random.RandomState(1).uniform(.1, 1, (5, 6)).astype('float32')
w[:2] = 0; w[3:] *= -1
l.set_weights([w])
m = cluster.cluster_weights(m, number_of_clusters=4, cluster_centroids_init=cluster_config.CentroidInitialization.DENSITY_BASED) if 0 else \
    exp_cluster.cluster_weights(m, number_of_clusters=4, cluster_centroids_init=cluster_config.CentroidInitialization.KMEANS_PLUS_PLUS, preserve_sparsity=True)
wr = [x for x in m.layers if isinstance(x, cluster_wrapper.ClusterWeights)][0]
c = wr.cluster_centroids['kernel']
v = c.numpy()
k = int(np.abs(v).argmin())
# The centroid nearest to zero drifts to the negative side, the model is rebuilt
# from its checkpointed centroids and must still zero that one.
wr2 = cluster_wrapper.ClusterWeights(keras.layers.Dense(6, use_bias=False), 4, LIN, True)
from unittest import mock
drift = np.array([-.8, -.05, .5, .9], 'float32')
with mock.patch.object(clustering_centroids.LinearCentroidsInitialisation, 'get_cluster_centroids', lambda self: tf.constant(drift)):
  wr2.build((None, 5))
assert int(wr2.zero_idx['kernel']) == 1, wr2.zero_idx
""",
 needs='initial centroids without an exact zero, so that the nearest one is negative',
 breaks='a wrong centroid is forced to zero and real zeros drift', tests=T),
dict(id='cluster-strip-untrainable', prop='C03', edits=[(C+'cluster.py',
'''    elif isinstance(layer, cluster_wrapper.ClusterWeights):
      # Update cluster associations in order to get the latest weights
      layer.update_clustered_weights_associations()
''',
'''    elif isinstance(layer, cluster_wrapper.ClusterWeights):
      # Update cluster associations in order to get the latest weights; those
      # of frozen layers have not moved since the last forward pass.
      if layer.trainable or not layer.pulling_indices:
        layer.update_clustered_weights_associations()
''')],
 demo=HEAD+"""
l = keras.layers.Dense(6, input_shape=(5,))
m = keras.Sequential([l, keras.layers.Dense(3)])
m = cluster.cluster_weights(m, number_of_clusters=3, cluster_centroids_init=LIN)
wr = m.layers[0]
wr.cluster_centroids['kernel'].assign([-7., 0., 7.])
wr.trainable = False
s = cluster.strip_clustering(m)
assert set(np.unique(s.layers[0].get_weights()[0])) <= {-7., 0., 7.}
""",
 needs='a clustered layer that is frozen after its centroids have moved',
 breaks='the stripped layer carries stale weights', tests=T),
dict(id='cluster-centroid-dtype', prop='C04', edits=[(C+'cluster_wrapper.py',
"""          shape=(cluster_centroids.shape),
          dtype=weight.dtype,
""",
"""          shape=(cluster_centroids.shape),
          dtype=self.dtype,
""")],
 demo=HEAD+"""
l = keras.layers.Dense(6, dtype='float64')
w = cluster_wrapper.ClusterWeights(l, 3, LIN)
w.build((None, 5))
assert w.cluster_centroids['kernel'].dtype == tf.float64
""",
 needs='a layer whose dtype is not the default one',
 breaks='the centroids do not have the dtype of the weight', tests=T),
dict(id='cluster-nested-parameters', prop='C05', edits=[(C+'cluster.py',
'''      return cluster_wrapper.ClusterWeightsRNN(
          layer,
          number_of_clusters,
          cluster_centroids_init,
          preserve_sparsity,
          **kwargs,
      )
    if isinstance(layer, keras.layers.MultiHeadAttention):
''',
'''      return cluster_wrapper.ClusterWeightsRNN(
          layer,
          number_of_clusters,
          cluster_centroids_init,
          preserve_sparsity and not isinstance(
              layer, keras.layers.Bidirectional),
          **kwargs,
      )
    if isinstance(layer, keras.layers.MultiHeadAttention):
''')],
 demo=HEAD+"""
l = keras.layers.Bidirectional(keras.layers.LSTM(3), input_shape=(4, 5))
m = keras.Sequential([l])
m = exp_cluster.cluster_weights(m, number_of_clusters=4, cluster_centroids_init=LIN, preserve_sparsity=True)
assert m.layers[0].preserve_sparsity
""",
 needs='a Bidirectional layer and preserve_sparsity',
 breaks='the parameter is dropped for one layer type', tests=T),
dict(id='cluster-channel-average', prop='C06', edits=[(C+'clustering_algorithm.py',
'''    num_channels = (weight.shape[1] if self.data_format == "channels_first"
                    else weight.shape[-1])

    for channel in range(num_channels):
''',
'''    num_channels = (weight.shape[1] if self.data_format == "channels_first"
                    else weight.shape[-1])
    # Depthwise kernels keep their channels next to last.
    num_channels = min(num_channels, self.cluster_centroids.shape[0] - 1) + 1 if (
        num_channels > self.cluster_centroids.shape[0]) else num_channels

    for channel in range(num_channels):
'''),
],
 demo=HEAD+"""
assert True
""",
 needs='x', breaks='x', tests=[]),
dict(id='cluster-average-empty', prop='C07', edits=[(C+'clustering_algorithm.py',
'''      d_cluster_centroids = tf.math.divide_no_nan(d_cluster_centroids,
                                                  cluster_sizes)
''',
'''      d_cluster_centroids = d_cluster_centroids / cluster_sizes
''')],
 demo=HEAD+"""
c = tf.Variable([0., 1., 5., 9.])
a = clustering_algorithm.ClusteringAlgorithm(c, cluster_config.GradientAggregation.AVG)
w = tf.constant([.1, -.1, 0.2, 4.9])
with tf.GradientTape() as t:
  y = tf.reduce_sum(a.get_clustered_weight(a.get_pulling_indices(w), w) * tf.constant([1., 2., 3., 8.]))
g = tf.convert_to_tensor(t.gradient(y, c)).numpy()
np.testing.assert_allclose(g, [2., 0., 8., 0.], rtol=1e-5)
""",
 needs='a centroid no weight is associated with',
 breaks='the gradient of an empty cluster is not a number', tests=T),
]
PLANTS = [p for p in PLANTS if p['needs'] != 'x']
