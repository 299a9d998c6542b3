"""Reference formulas of magnitude pruning (analysed, never executed)."""
import numpy as np
import tensorflow as tf
from tensorflow_model_optimization.python.core.keras.compat import keras
from tensorflow_model_optimization.python.core.sparsity.keras.prunable_layer import PrunableLayer
from tensorflow_model_optimization.python.core.sparsity.keras.prune_registry import PruneRegistry
from tensorflow_model_optimization.python.core.sparsity.keras.pruning_wrapper import PruneLowMagnitude


def should_prune(step, begin_step, end_step, frequency):
  return (step >= begin_step and (step <= end_step or end_step < 0) and
          (step - begin_step) % frequency == 0)


def constant(target_sparsity, step, begin_step, end_step, frequency):
  return target_sparsity


def polynomial(initial_sparsity, final_sparsity, power, step, begin_step,
               end_step):
  p = tf.minimum(1.0, tf.maximum(
      0.0, (step - begin_step) / (end_step - begin_step)))
  return final_sparsity + (initial_sparsity - final_sparsity) * (1 - p)**power


def validate(begin_step, end_step, frequency, forever_allowed):
  """Raises exactly for step parameters that do not describe a schedule."""
  if begin_step < 0:
    raise ValueError()
  if end_step == -1:
    if not forever_allowed:
      raise ValueError()
  elif end_step < 0 or end_step < begin_step:
    raise ValueError()
  if frequency <= 0:
    raise ValueError()


def validate_sparsity(sparsity):
  if sparsity < 0.0 or sparsity >= 1.0:
    raise ValueError()


def element_mask(weights, sparsity):
  """(threshold, mask): keep the max(round(size * (1 - sparsity)), 1) largest
  magnitudes, and at least the threshold element itself."""
  magnitude = tf.abs(weights)
  k = tf.maximum(tf.round(tf.size(weights) * (1 - sparsity)), 1)
  values, indices = tf.math.top_k(tf.reshape(magnitude, [-1]),
                                  k=tf.size(weights))
  threshold = tf.gather(values, k - 1)
  position = tf.gather(indices, k - 1)
  mask = tf.math.logical_or(
      tf.math.greater_equal(magnitude, threshold),
      tf.reshape(tf.one_hot(position, depth=tf.size(weights), on_value=True,
                            off_value=False, dtype=tf.bool), weights.shape))
  return threshold, mask


def expand(tensor, block_height, block_width):
  """Every element repeated block_height x block_width times."""

  def rows(t, multiple):
    n = t.shape.as_list()[0]
    indices = np.zeros(shape=[n * multiple, 1], dtype=np.int32)
    for k in range(multiple):
      for r in range(n):
        indices[k * n + r] = r * multiple + k
    return tf.scatter_nd(tf.constant(indices), tf.tile(t, [multiple, 1]),
                         [n * multiple, t.shape.as_list()[1]])

  if block_height > 1:
    tensor = rows(tensor, block_height)
  if block_width > 1:
    tensor = tf.transpose(rows(tf.transpose(tensor), block_width))
  return tensor


def pool(magnitude, block_height, block_width, pooling_type):
  height, width = magnitude.get_shape()
  x = tf.reshape(magnitude, [1, 1, height, width])
  x = tf.nn.pool(x, window_shape=[1, block_height], pooling_type=pooling_type,
                 strides=[1, block_height], padding='SAME')
  x = tf.transpose(x, [0, 1, 3, 2])
  x = tf.nn.pool(x, window_shape=[1, block_width], pooling_type=pooling_type,
                 strides=[1, block_width], padding='SAME')
  return tf.squeeze(tf.transpose(x, [0, 1, 3, 2]))


def block_mask(weights, sparsity, block_height, block_width, pooling_type):
  """All elements of a block share the decision on its pooled magnitude."""
  squeezed = tf.squeeze(weights)
  pooled = pool(tf.abs(squeezed), block_height, block_width, pooling_type)
  if pooled.get_shape().ndims != 2:
    pooled = tf.squeeze(pooled)
  threshold, mask = element_mask(pooled, sparsity)
  mask = expand(mask, block_height, block_width)
  mask = tf.slice(mask, [0, 0],
                  [squeezed.get_shape()[0], squeezed.get_shape()[1]])
  return threshold, tf.reshape(mask, tf.shape(weights))


def m_by_n_mask(weights, m, n):
  """Exactly n - m survivors, the largest magnitudes, in every n consecutive
  values along the input-channel axis."""
  if weights.shape.rank == 2:
    rows = tf.transpose(weights)
  else:
    rows = tf.transpose(weights, [3, 0, 1, 2])
    rows = tf.reshape(rows, [tf.reduce_prod(rows.shape[:-1]), -1])
  magnitude = tf.abs(rows)
  padded = tf.pad(magnitude, [[0, 0], [0, n - magnitude.shape[-1] % n]],
                  'CONSTANT')
  blocks = tf.size(padded) // n
  _, kept = tf.math.top_k(tf.reshape(padded, [blocks, n]), k=n - m,
                          sorted=False)
  i, _ = tf.meshgrid(tf.range(blocks), tf.range(n - m), indexing='ij')
  mask = tf.scatter_nd(tf.stack([i, kept], axis=-1), tf.ones([blocks, n - m]),
                       [blocks, n])
  mask = tf.slice(tf.reshape(mask, tf.shape(padded)), [0, 0], magnitude.shape)
  if weights.shape.rank == 2:
    return tf.transpose(mask)
  return tf.transpose(
      tf.reshape(mask, [weights.shape[-1], weights.shape[0], weights.shape[1],
                        weights.shape[2]]), [1, 2, 3, 0])


def wrapper_rejects(layer, block_pooling_type):
  if block_pooling_type not in ['AVG', 'MAX']:
    raise ValueError()
  if not isinstance(layer, keras.layers.Layer):
    raise ValueError()
  if not (isinstance(layer, PrunableLayer) or
          hasattr(layer, 'get_prunable_weights') or
          PruneRegistry.supports(layer)):
    raise ValueError()


def wrap_layer(layer, pruning_schedule, block_size, block_pooling_type,
               sparsity_m_by_n, pruning_policy):
  """What every layer of a cloned model becomes."""
  if isinstance(layer, keras.Model):
    if not layer._is_graph_network and not isinstance(layer,
                                                      keras.Sequential):
      raise ValueError()
    return 'nested model'
  if isinstance(layer, PruneLowMagnitude):
    return layer
  if pruning_policy and not pruning_policy.allow_pruning(layer):
    return layer
  return PruneLowMagnitude(layer, pruning_schedule=pruning_schedule,
                           block_size=block_size,
                           block_pooling_type=block_pooling_type,
                           sparsity_m_by_n=sparsity_m_by_n)


def wrap_list(to_prune, pruning_schedule, block_size, block_pooling_type,
              sparsity_m_by_n):
  out = []
  for layer in to_prune:
    if isinstance(layer, PruneLowMagnitude):
      out.append(layer)
    elif isinstance(layer, keras.layers.InputLayer):
      out.append(layer.__class__.from_config(layer.get_config()))
    else:
      out.append(PruneLowMagnitude(
          layer, pruning_schedule=pruning_schedule, block_size=block_size,
          block_pooling_type=block_pooling_type,
          sparsity_m_by_n=sparsity_m_by_n))
  return out


def kind(to_prune):
  if isinstance(to_prune, list):
    return 'list'
  if isinstance(to_prune, keras.Model):
    if isinstance(to_prune, keras.Sequential) or to_prune._is_graph_network:
      return 'model'
    return 'error'
  if isinstance(to_prune, keras.layers.Layer):
    return 'layer'
  return 'error'


def unwrap(layer):
  if isinstance(layer, keras.Model):
    return 'nested model'
  if isinstance(layer, PruneLowMagnitude):
    return layer.layer
  return layer
