"""Reference formulas of the encoding stages.  Never executed.

`p` holds the parameters of the stage, `e` the encoded values.
"""
import numpy as np
import tensorflow as tf
from tensorflow_model_optimization.python.core.internal.tensor_encoding.utils import tf_utils


def seed():
  return tf.random.uniform((2,), maxval=tf.int64.max, dtype=tf.int64)


# -- IdentityEncodingStage, FlattenEncodingStage, clipping ---------------------


def no_params(self):
  return {}, {}


def identity_encode(self, x, p):
  return {'identity_values': tf.identity(x)}


def identity_decode(self, e, p, n, shape):
  return tf.identity(e['identity_values'])


def flatten_encode(self, x, p):
  return {'flattened_values': tf.reshape(x, [-1])}


def flatten_decode(self, e, p, n, shape):
  return tf.reshape(e['flattened_values'], shape)


def clip_norm_params(self):
  return {'norm_param': self.clip_norm}, {}


def clip_norm_encode(self, x, p):
  return {'clipped_values': tf.clip_by_norm(x, p['norm_param'])}


def clip_value_params(self):
  return {'min_param': self.clip_value_min,
          'max_param': self.clip_value_max}, {}


def clip_value_encode(self, x, p):
  return {'clipped_values': tf.clip_by_value(x, p['min_param'],
                                             p['max_param'])}


def clip_decode(self, e, p, n, shape):
  return tf.identity(e['clipped_values'])


# -- Hadamard ------------------------------------------------------------------


def seed_params(self):
  s = seed()
  return {'seed': s}, {'seed': s}


def matrix(x):
  if x.shape.ndims not in [1, 2]:
    raise ValueError('ndims')
  if x.shape.ndims == 1:
    x = tf.expand_dims(x, 0)
  if x.shape.as_list()[1] is None:
    raise ValueError('unknown dimension')
  return x


def power_of_two(dim):
  return 2**int(np.ceil(np.log2(dim)))


def padded(x, size):
  dim = x.shape.as_list()[1]
  if size == dim:
    return x
  return tf.pad(x, [[0, 0], [0, size - dim]])


def hadamard_encode(self, x, p):
  x = matrix(x)
  x = x * tf_utils.random_signs(x.shape.as_list()[1], p['seed'], x.dtype)
  x = padded(x, power_of_two(x.shape.as_list()[1]))
  return {'hadamard_values': tf_utils.fast_walsh_hadamard_transform(x)}


def unrotate(y, p, shape):
  x = tf_utils.fast_walsh_hadamard_transform(y)
  x = tf.slice(x, [0, 0], [tf.shape(x)[0], shape[-1]])
  x = x * tf_utils.random_signs(x.shape.as_list()[-1], p['seed'], x.dtype)
  if shape.shape.num_elements() == 1:
    return tf.squeeze(x, [0])
  return x


def hadamard_decode(self, e, p, n, shape):
  return unrotate(e['hadamard_values'], p, shape)


# -- Kashin --------------------------------------------------------------------


def kashin_params(self):
  s = seed()
  return {'eta': self.eta, 'delta': self.delta, 'seed': s}, {'seed': s}


def kashin_size(self, dim):
  size = power_of_two(dim)
  return size * 2 if dim / size > self.pad_extra_level_threshold else size


def forward(self, x, signs):
  x = x * signs
  return tf_utils.fast_walsh_hadamard_transform(padded(
      x, kashin_size(self, x.shape.as_list()[1])))


def clip(x, level):
  return tf.clip_by_value(x, -level, level)


def kashin_encode(self, x, p):
  """Three iterations."""
  x = matrix(x)
  dims = x.shape.as_list()
  signs = tf_utils.random_signs(dims[1], p['seed'], x.dtype)
  y = tf.zeros([dims[0] if dims[0] else tf.shape(x)[0],
                kashin_size(self, dims[1])], dtype=x.dtype)
  level = tf.norm(x, axis=1, keepdims=True) / tf.math.sqrt(
      p['delta'] * dims[1])
  r = x
  for _ in range(2):
    c = clip(forward(self, r, signs), level)
    y = y + c
    back = tf_utils.fast_walsh_hadamard_transform(c)
    back = tf.slice(back, [0, 0], [tf.shape(back)[0], r.shape.as_list()[1]])
    r = r - back * signs
    level = level * p['eta']
  last = forward(self, r, signs)
  if self.last_iter_clip:
    y = y + clip(last, level)
    y = y * tf.compat.v1.div_no_nan(tf.norm(x, axis=1, keepdims=True),
                                    tf.norm(y, axis=1, keepdims=True))
  else:
    y = y + last
  return {'kashin_hadamard_values': y}


def kashin_decode(self, e, p, n, shape):
  return unrotate(e['kashin_hadamard_values'], p, shape)


# -- quantisation --------------------------------------------------------------


def max_params(self):
  return {'max_value': 2**self.bits - 1}, {'max_value': 2**self.bits - 1}


def uniform_params(self):
  d = {'max_value': 2**self.bits - 1}
  if self.min_max is not None:
    d['min_max'] = self.min_max
  return d, d


def rounded(x, stochastic):
  if not stochastic:
    return tf.round(x)
  low = tf.floor(x)
  return low + (tf.random.uniform(tf.shape(x), dtype=x.dtype) < x - low)


def scaled(x, low, high, p):
  return tf.compat.v1.div_no_nan(x - low, high - low) * p['max_value']


def uniform_encode(self, x, p):
  low, high = tf.reduce_min(x), tf.reduce_max(x)
  return {'quantized_values': rounded(scaled(x, low, high, p),
                                      self.stochastic),
          'min_max': tf.stack([low, high])}


def fixed_encode(self, x, p):
  low, high = p['min_max'][0], p['min_max'][1]
  x = tf.clip_by_value(x, low, high)
  return {'quantized_values': rounded(scaled(x, low, high, p),
                                      self.stochastic)}


def unscaled(q, r, p):
  return q / p['max_value'] * (r[1] - r[0])


def uniform_decode(self, e, p, n, shape):
  r = e['min_max']
  return unscaled(e['quantized_values'], r, p) + r[0]


def fixed_decode(self, e, p, n, shape):
  r = p['min_max']
  v = unscaled(e['quantized_values'], r, p)
  return v + r[0] * n if n is not None else v + r[0]


def dithered(x, s):
  low = tf.floor(x)
  u = tf.reshape(tf_utils.random_floats(tf.reduce_prod(tf.shape(x)), s,
                                        x.dtype), tf.shape(x))
  return low + (u < x - low)


def prng_encode(self, x, p):
  low, high, s = tf.reduce_min(x), tf.reduce_max(x), seed()
  return {'quantized_values': dithered(scaled(x, low, high, p), s),
          'seed': s, 'min_max': tf.stack([low, high])}


def prng_decode(self, e, p, n, shape):
  q, r = e['quantized_values'], e['min_max']
  u = tf.reshape(tf_utils.random_floats(
      tf.reduce_prod(tf.shape(q)), e['seed'], r[0].dtype), tf.shape(q))
  return unscaled(q + u - 0.5, r, p) + r[0]


def rows(x):
  return tf.reshape(x, [-1, tf.shape(x)[-1]])


def channel_encode(self, x, p):
  x = rows(x)
  low, high = tf.reduce_min(x, axis=0), tf.reduce_max(x, axis=0)
  return {'quantized_values': rounded(scaled(x, low, high, p),
                                      self.stochastic),
          'min_max': tf.stack([low, high])}


def channel_decode(self, e, p, n, shape):
  return tf.reshape(uniform_decode(self, e, p, n, shape), shape)


def channel_prng_encode(self, x, p):
  x = rows(x)
  low, high, s = tf.reduce_min(x, axis=0), tf.reduce_max(x, axis=0), seed()
  return {'quantized_values': dithered(scaled(x, low, high, p), s),
          'seed': s, 'min_max': tf.stack([low, high])}


def channel_prng_decode(self, e, p, n, shape):
  return tf.reshape(prng_decode(self, e, p, n, shape), shape)


# -- the rest ------------------------------------------------------------------


def pack_encode(self, x, p):
  y = tf_utils.pack_into_int(tf.cast(tf.reshape(x, [-1]), tf.int32),
                             self.input_bits, 28)
  if x.dtype == tf.float32:
    return {'bitpacked_values': y}
  if x.dtype in [tf.float16, tf.bfloat16, tf.float64]:
    return {'bitpacked_values': y,
            'dummy_type_value': tf.constant(0.0, dtype=x.dtype)}
  raise TypeError('dtype')


def pack_decode(self, e, p, n, shape):
  y = tf_utils.unpack_from_int(e['bitpacked_values'], self.input_bits, 28,
                               shape)
  d = e.get('dummy_type_value')
  return tf.cast(y, tf.float32 if d is None else d.dtype)


def small_params(self):
  return {'threshold': self.threshold}, {}


def small_encode(self, x, p):
  at = tf.where(tf.abs(x) > p['threshold'])
  return {'indices': tf.squeeze(at, axis=1),
          'non_zero_floats': tf.gather_nd(x, at)}


def small_decode(self, e, p, n, shape):
  return tf.sparse.to_dense(tf.SparseTensor(
      indices=tf.expand_dims(e['indices'], 1), values=e['non_zero_floats'],
      dense_shape=shape))


def difference_encode(self, x, p):
  if x.shape.ndims != 1:
    raise ValueError('ndims')
  if not x.dtype.is_integer:
    raise TypeError('dtype')
  return {'difference_between_integers': x - tf.concat([[0], x[:-1]], 0)}


def difference_decode(self, e, p, n, shape):
  return tf.cumsum(e['difference_between_integers'])


# -- constructors --------------------------------------------------------------


def any_init(self):
  return None


def bits_init(self):
  if not tf.is_tensor(self.bits) and self.bits not in range(1, 17):
    raise ValueError('bits')


def uniform_init(self):
  bits_init(self)
  m = self.min_max
  if m is not None:
    if tf.is_tensor(m):
      if m.shape.as_list() != [2]:
        raise ValueError('min_max')
    elif not isinstance(m, list) or len(m) != 2 or m[0] >= m[1]:
      raise ValueError('min_max')
  if not isinstance(self.stochastic, bool):
    raise TypeError('stochastic')


def channel_init(self):
  bits_init(self)
  if not isinstance(self.stochastic, bool):
    raise TypeError('stochastic')


def pack_init(self):
  if tf.is_tensor(self.input_bits):
    raise TypeError('input_bits')
  if self.input_bits not in range(1, 17):
    raise ValueError('input_bits')


def kashin_init(self):
  if not tf.is_tensor(self.eta) and (self.eta <= 0 or self.eta >= 1):
    raise ValueError('eta')
  if not tf.is_tensor(self.delta) and self.delta <= 0:
    raise ValueError('delta')
  if tf.is_tensor(self.last_iter_clip):
    raise ValueError('last_iter_clip')
  if not isinstance(self.last_iter_clip, bool):
    raise ValueError('last_iter_clip')
  if tf.is_tensor(self.pad_extra_level_threshold):
    raise ValueError('pad_extra_level_threshold')
