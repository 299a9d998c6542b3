"""Reference functions for tensor encoding.  Never executed.

A node is a pair (stage, children), children maps keys to nodes.
"""
import tensorflow as tf
from tensorflow_model_optimization.python.core.internal.tensor_encoding.core import core_encoder
from tensorflow_model_optimization.python.core.internal.tensor_encoding.utils import py_utils

K = core_encoder.EncoderKeys


def modes(node):
  return {K.TENSORS: node[0].state_update_aggregation_modes,
          K.CHILDREN: {k: modes(c) for k, c in node[1].items()}}


def initial_state(node):
  return {K.STATE: node[0].initial_state(),
          K.CHILDREN: {k: initial_state(c) for k, c in node[1].items()}}


def update_state(node, state, update):
  return {K.STATE: node[0].update_state(state[K.STATE], update[K.TENSORS]),
          K.CHILDREN: {k: update_state(c, state[K.CHILDREN][k],
                                       update[K.CHILDREN][k])
                       for k, c in node[1].items()}}


def params(node, state, i):
  return {K.PARAMS: node[0].get_params(state[K.STATE])[i],
          K.CHILDREN: {k: params(c, state[K.CHILDREN][k], i)
                       for k, c in node[1].items()}}


def get_params(node, state):
  return params(node, state, 0), params(node, state, 1)


def encode(node, x, par):
  stage, kids = node
  shape = None
  if stage.decode_needs_input_shape:
    shape = py_utils.static_or_dynamic_shape(x)
  out, update = stage.encode(x, par[K.PARAMS])
  sub = {k: encode(c, out[k], par[K.CHILDREN][k]) for k, c in kids.items()}
  values = dict(out)
  values.update({k: v[0] for k, v in sub.items()})
  return (values,
          {K.TENSORS: update, K.CHILDREN: {k: v[1] for k, v in sub.items()}},
          {K.SHAPE: shape, K.CHILDREN: {k: v[2] for k, v in sub.items()}})


def decode(node, values, par, shape, num, commutes):
  """Full decoding; num reaches the stages that commute up to the root."""
  stage, kids = node
  commutes = commutes and stage.commutes_with_sum
  parts = {k: decode(kids[k], v, par[K.CHILDREN][k], shape[K.CHILDREN][k], num,
                     commutes) if k in kids else v for k, v in values.items()}
  return stage.decode(parts, par[K.PARAMS], num_summands=(
      num if commutes else None), shape=shape[K.SHAPE])


def decode_all(node, values, par, shape):
  return decode(node, values, par, shape, None, False)


def before_sum(node, values, par, shape):
  stage, kids = node
  if not stage.commutes_with_sum:
    return decode_all(node, values, par, shape)
  return {k: before_sum(kids[k], v, par[K.CHILDREN][k], shape[K.CHILDREN][k])
          if k in kids else v for k, v in values.items()}


def decode_split(node, values, par, shape, num):
  return decode(node, values, par, shape, num, True)


def structure(node, above):
  here = above and node[0].commutes_with_sum
  return {K.COMMUTE: here,
          K.CHILDREN: {k: structure(c, here) for k, c in node[1].items()}}


def commutes(node):
  r = node[0].commutes_with_sum
  for c in node[1].values():
    r = r and commutes(c)
  return r


def split(value, key, struct, after):
  """The part of value needed before or after the sum, None elsewhere."""
  v = value[key]
  if struct[K.COMMUTE] != after:
    v = {k: None for k in v} if isinstance(v, dict) else None
  return {key: v, K.CHILDREN: {
      k: split(x, key, struct[K.CHILDREN][k], after)
      for k, x in value[K.CHILDREN].items()}}


def split_params(value, struct):
  return split(value, K.PARAMS, struct, False), split(value, K.PARAMS, struct,
                                                      True)


def split_shapes(value, struct):
  return split(value, K.SHAPE, struct, False), split(value, K.SHAPE, struct,
                                                     True)


# -- the encoders of users -----------------------------------------------------


def flat(x):
  return tuple(tf.nest.flatten(x))


def dense(x):
  return tf.nest.map_structure(tf.convert_to_tensor, x)


def spec_of(x):
  return tf.nest.map_structure(tf.TensorSpec.from_tensor, x)


def joined(x):
  return dict(py_utils.flatten_with_joined_string_paths(x))


def unjoined(structure, d):
  return tf.nest.pack_sequence_as(structure, [
      d[path] for path, _ in
      py_utils.flatten_with_joined_string_paths(structure)])


def with_py(values, like):
  return py_utils.merge_dicts(values, py_utils.split_dict_py_tf(like)[0])


def simple_initial_state(encoder):
  return flat(encoder.initial_state())


def simple_full(encoder, x, state):
  state = tf.nest.pack_sequence_as(encoder.initial_state(), state)
  par = encoder.get_params(state)
  e = encoder.encode(x, par[0])
  return {'encoded_tensors': e[0], 'params': par[1], 'shapes': e[2]}


def simple_encode(encoder, x, state):
  if state is None:
    state = simple_initial_state(encoder)
  value = joined(simple_full(encoder, x, state))
  state = tf.nest.pack_sequence_as(encoder.initial_state(), state)
  par = encoder.get_params(state)
  e = encoder.encode(x, par[0])
  return (py_utils.split_dict_py_tf(value)[1],
          flat(encoder.update_state(state, e[1])))


def simple_decode(encoder, encoded_x, x, state):
  full = simple_full(encoder, x, state)
  v = unjoined(full, with_py(encoded_x, joined(full)))
  return encoder.decode(v['encoded_tensors'], v['params'], v['shapes'])


def tf_part(x):
  return py_utils.split_dict_py_tf(x)[1]


def gather_params(encoder, tensorspec, state):
  """The parameters as structures."""
  enc, dec = encoder.get_params(
      tf.nest.pack_sequence_as(dense(encoder.initial_state()), state))
  s = encoder.commuting_structure
  before, after = core_encoder.split_params_by_commuting_structure(dec, s)
  shapes = core_encoder.split_shapes_by_commuting_structure(
      encoder.encode(tf.zeros(tensorspec.shape, tensorspec.dtype), enc)[2],
      s)[1]
  return enc, before, {'params': after, 'shapes': shapes}


def gather_initial_state(encoder, tensorspec):
  return flat(dense(encoder.initial_state()))


def gather_get_params(encoder, tensorspec, state):
  if state is None:
    state = gather_initial_state(encoder, tensorspec)
  state = dense(state)
  py_utils.assert_compatible(
      spec_of(gather_initial_state(encoder, tensorspec)), state)
  p = gather_params(encoder, tensorspec, state)
  return flat(tf_part(p[0])), flat(tf_part(p[1])), flat(tf_part(p[2]))


def packed_params(encoder, tensorspec, values, i):
  p = gather_params(encoder, tensorspec, None)[i]
  py_utils.assert_compatible(spec_of(flat(tf_part(p))), values)
  return with_py(tf.nest.pack_sequence_as(tf_part(p), values), p)


def gather_encoded(encoder, x, params):
  e = encoder.encode(x, params)
  return {'tensors': e[0],
          'shapes': core_encoder.split_shapes_by_commuting_structure(
              e[2], encoder.commuting_structure)[0]}


def gather_encode(encoder, tensorspec, x, encode_params):
  x = tf.convert_to_tensor(x)
  if not tensorspec.is_compatible_with(x):
    raise ValueError('x')
  params = packed_params(encoder, tensorspec, dense(encode_params), 0)
  return (joined(tf_part(gather_encoded(encoder, x, params))),
          flat(encoder.encode(x, params)[1]))


def gather_before(encoder, tensorspec, encoded_x, params):
  like = gather_encoded(encoder, None, None)
  py_utils.assert_compatible(spec_of(joined(tf_part(like))), encoded_x)
  v = with_py(unjoined(tf_part(like), encoded_x), like)
  par = packed_params(encoder, tensorspec, params, 1)
  return encoder.decode_before_sum(v['tensors'], par, v['shapes'])


def gather_decode_before_sum(encoder, tensorspec, encoded_x,
                             decode_before_sum_params):
  part = gather_before(encoder, tensorspec, dense(encoded_x),
                       dense(decode_before_sum_params))
  if isinstance(part, dict):
    return joined(part)
  return part


def gather_decode_after_sum(encoder, tensorspec, part_decoded_x,
                            decode_after_sum_params, num_summands):
  part = dense(part_decoded_x)
  like = encoder.decode_before_sum(None, None, None)
  py_utils.assert_compatible(
      spec_of(joined(like) if isinstance(like, dict) else like), part)
  if isinstance(part, dict):
    part = unjoined(like, part)
  par = packed_params(encoder, tensorspec, dense(decode_after_sum_params), 2)
  return encoder.decode_after_sum(
      part, par['params'], tf.convert_to_tensor(num_summands), par['shapes'])


def gather_update_state(encoder, tensorspec, state, state_update_tensors):
  state = dense(state)
  py_utils.assert_compatible(
      spec_of(gather_initial_state(encoder, tensorspec)), state)
  update = tf.nest.pack_sequence_as(
      encoder.encode(None, None)[1], dense(state_update_tensors))
  state = tf.nest.pack_sequence_as(dense(encoder.initial_state()), state)
  return flat(encoder.update_state(state, update))


def flat_modes(encoder):
  return tf.nest.flatten(encoder.state_update_aggregation_modes)
