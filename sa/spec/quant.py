"""Reference functions for quantization.  Analysed, never executed."""
import tensorflow as tf
from tensorflow_model_optimization.python.core.keras import utils
from tensorflow_model_optimization.python.core.keras.compat import keras
from tensorflow_model_optimization.python.core.quantization.keras.quantize_aware_activation import QuantizeAwareActivation
from tensorflow_model_optimization.python.core.quantization.keras.quantize_annotate import QuantizeAnnotate
from tensorflow_model_optimization.python.core.quantization.keras.quantize_config import OutputOnlyConfig
from tensorflow_model_optimization.python.core.quantization.keras.quantize_config import QuantizeConfig
from tensorflow_model_optimization.python.core.quantization.keras.quantize_wrapper import QuantizeWrapper
from tensorflow_model_optimization.python.core.quantization.keras.quantize_wrapper import QuantizeWrapperV2


def fake_quant(x, lo, hi, per_axis, num_bits, narrow_range):
  if per_axis:
    return tf.quantization.fake_quant_with_min_max_vars_per_channel(
        x, lo, hi, num_bits=num_bits, narrow_range=narrow_range)
  return tf.quantization.fake_quant_with_min_max_vars(
      x, lo, hi, num_bits=num_bits, narrow_range=narrow_range)


def symmetric_range(lo, hi, num_bits, narrow_range):
  """Smallest range around both limits whose ratio the integers can show."""
  ratio = -1 if narrow_range else -((1 << num_bits) - 2) / (1 << num_bits)
  return tf.minimum(lo, hi / ratio), tf.maximum(hi, lo * ratio)


def batch_range(x, per_axis, num_bits, symmetric, narrow_range):
  if not per_axis:
    lo, hi = tf.reduce_min(x), tf.reduce_max(x)
  elif len(x.get_shape()) == 2:
    lo, hi = tf.reduce_min(x, axis=[0]), tf.reduce_max(x, axis=[0])
  elif len(x.get_shape()) == 4:
    lo, hi = (tf.reduce_min(x, axis=[0, 1, 2]),
              tf.reduce_max(x, axis=[0, 1, 2]))
  else:
    lo, hi = x, x
  if symmetric:
    return symmetric_range(lo, hi, num_bits, narrow_range)
  return tf.minimum(lo, 0.0), tf.maximum(hi, 0.0)


def last_value(inputs, training, weights, num_bits, per_axis, symmetric,
               narrow_range):
  lo, hi = weights['min_var'], weights['max_var']
  if training:
    a, b = batch_range(inputs, per_axis, num_bits, symmetric, narrow_range)
    lo = lo.assign(a)
    hi = hi.assign(b)
  return fake_quant(inputs, lo, hi, per_axis, num_bits, narrow_range)


def moving_average(inputs, training, weights, num_bits, per_axis, symmetric,
                   narrow_range):
  lo, hi = weights['min_var'], weights['max_var']
  if training:
    a, b = batch_range(inputs, per_axis, num_bits, symmetric, narrow_range)
    lo = tf.__internal__.train.assign_moving_average(
        lo, a, 0.999, zero_debias=False)
    hi = tf.__internal__.train.assign_moving_average(
        hi, b, 0.999, zero_debias=False)
  return fake_quant(inputs, lo, hi, per_axis, num_bits, narrow_range)


def all_values(inputs, training, weights, num_bits, per_axis, symmetric,
               narrow_range):
  lo, hi = weights['min_var'], weights['max_var']
  if training:
    a, b = tf.reduce_min(inputs), tf.reduce_max(inputs)
    if symmetric:
      ratio = -1 if narrow_range else -((1 << num_bits) - 2) / (1 << num_bits)
      a = tf.minimum(a, b / ratio)
      b = tf.maximum(b, a * ratio)
    lo2 = tf.minimum(tf.minimum(lo, a), 0.0)
    hi2 = tf.maximum(tf.maximum(hi, b), 0.0)
    lo = lo.assign(lo2)
    hi = hi.assign(hi2)
  return fake_quant(inputs, lo, hi, False, num_bits, narrow_range)


def fixed(inputs, num_bits, init_min, init_max, narrow_range):
  return tf.quantization.fake_quant_with_min_max_args(
      inputs, min=init_min, max=init_max, num_bits=num_bits,
      narrow_range=narrow_range)


def range_weights(name, layer, per_axis, tensor_shape, lo, hi):
  shape = None
  if per_axis and tensor_shape is not None:
    shape = tensor_shape[-1]
  return {
      'min_var': layer.add_weight(
          name + '_min', initializer=keras.initializers.Constant(lo),
          trainable=False, shape=shape),
      'max_var': layer.add_weight(
          name + '_max', initializer=keras.initializers.Constant(hi),
          trainable=False, shape=shape)}


PRE = ('softmax', 'sigmoid', 'tanh', 'gelu')
POST = ('linear', 'relu', 'swish', 'gelu')
NONE_ = ('NoOpActivation',)


def activation_name(activation):
  if hasattr(activation, '__name__'):
    return activation.__name__
  return activation.__class__.__name__


def aware_activation(activation, quantizer, quantize_wrapper, training,
                     inputs, *args, **kwargs):
  name = activation_name(activation)
  if name not in PRE and name not in POST and name not in NONE_:
    raise ValueError()
  x = inputs
  if name in PRE:
    w = quantizer.build(None, 'pre_activation', quantize_wrapper)
    if training:
      x = quantizer(x, True, weights=w)
    else:
      x = quantizer(x, False, weights=w)
  x = activation(x, *args, **kwargs)
  if name in POST:
    w = quantizer.build(None, 'post_activation', quantize_wrapper)
    if training:
      x = quantizer(x, True, weights=w)
    else:
      x = quantizer(x, False, weights=w)
  return x


def quantize_layer(quantizer, self, name, input_shape, inputs, training):
  if not quantizer:
    return inputs
  w = quantizer.build(input_shape, name, self)
  if training is None:
    training = keras.backend.learning_phase()
  if training:
    return quantizer(inputs, True, weights=w)
  return quantizer(inputs, False, weights=w)


def quantized(quantizer, x, training, w):
  if training:
    return quantizer(x, True, weights=w)
  return quantizer(x, False, weights=w)


def plain_name(weight):
  return weight.name.split(':')[0].split('/')[-1]


def wrapper_weights(self, config, layer, training):
  out = []
  for weight, quantizer in config.get_weights_and_quantizers(layer):
    w = quantizer.build(weight.shape, plain_name(weight), self)
    out.append(quantized(quantizer, weight, training, w))
  return out


def wrapper_activations(self, config, layer):
  out = []
  for activation, quantizer in config.get_activations_and_quantizers(layer):
    out.append(QuantizeAwareActivation(activation, quantizer, 'step', self))
  return out


def wrapper_output(self, config, layer, input_shape, training, outputs):
  q = config.get_output_quantizers(layer)
  if not q:
    return outputs
  if isinstance(outputs, list) or isinstance(outputs, tuple):
    raise RuntimeError()
  w = q[0].build(layer.compute_output_shape(input_shape), 'output', self)
  return quantized(q[0], outputs, training, w)


# -- configurations -----------------------------------------------------------


def config_get(layer, attrs, quantizer):
  return [(getattr(layer, a), quantizer) for a in attrs]


def config_set_weights(layer, attrs, values):
  if len(attrs) != len(values):
    raise ValueError()
  for a, v in zip(attrs, values):
    if getattr(layer, a).shape != v.shape:
      raise ValueError()
    setattr(layer, a, v)


def config_set_activations(layer, attrs, values):
  if len(attrs) != len(values):
    raise ValueError()
  for a, v in zip(attrs, values):
    setattr(layer, a, v)


def config_get_rnn(cells, attrs, quantizer):
  out = []
  for names, cell in zip(attrs, cells):
    for a in names:
      out.append((getattr(cell, a), quantizer))
  return out


def config_set_weights_rnn(cells, attrs, values):
  flat = []
  for names in attrs:
    for a in names:
      flat.append(a)
  if len(flat) != len(values):
    raise ValueError()
  i = 0
  for names, cell in zip(attrs, cells):
    for a in names:
      if getattr(cell, a).shape != values[i].shape:
        raise ValueError()
      setattr(cell, a, values[i])
      i += 1


def config_set_activations_rnn(cells, attrs, values):
  flat = []
  for names in attrs:
    for a in names:
      flat.append(a)
  if len(flat) != len(values):
    raise ValueError()
  i = 0
  for names, cell in zip(attrs, cells):
    for a in names:
      setattr(cell, a, values[i])
      i += 1


# -- entry points -------------------------------------------------------------


def graph(model):
  return isinstance(model, keras.Sequential) or model._is_graph_network


def annotate_model(to_annotate):
  if to_annotate is None or not isinstance(to_annotate, keras.Model):
    raise ValueError()
  if not graph(to_annotate):
    raise ValueError()


def annotate_clone(layer):
  if isinstance(layer, QuantizeAnnotate) or isinstance(
      layer, keras.layers.Lambda):
    return layer
  if isinstance(layer, keras.Model):
    raise ValueError()
  return QuantizeAnnotate(layer)


def annotate_layer(to_annotate, quantize_config):
  if to_annotate is None:
    raise ValueError()
  if not isinstance(to_annotate, keras.layers.Layer) or isinstance(
      to_annotate, keras.Model):
    raise ValueError()
  if quantize_config is not None and not isinstance(
      quantize_config, QuantizeConfig):
    raise ValueError()
  return QuantizeAnnotate(layer=to_annotate, quantize_config=quantize_config)


def quantize_model(to_quantize, quantized_layer_name_prefix):
  if to_quantize is None:
    raise ValueError()
  if not isinstance(to_quantize, keras.Sequential):
    if not hasattr(to_quantize, '_is_graph_network'):
      raise ValueError()
    if not to_quantize._is_graph_network:
      raise ValueError()


def prefix(quantized_layer_name_prefix):
  if quantized_layer_name_prefix is None:
    return ''
  return quantized_layer_name_prefix


def apply_rejects(model):
  if model is None or not isinstance(model, keras.Model):
    raise ValueError()
  if not graph(model):
    raise ValueError()
  if not any(isinstance(l, QuantizeAnnotate) for l in model.layers):
    raise ValueError()
  if not model.built:
    raise ValueError()


def unwrap(layer, configs, outputs):
  if not isinstance(layer, QuantizeAnnotate):
    return layer
  if layer._inbound_nodes and len(layer._inbound_nodes) == 1:
    before = tf.nest.flatten(layer._inbound_nodes[0].inbound_layers)
    if len(before) == 1 and not isinstance(before[0], QuantizeAnnotate):
      outputs.add(before[0].name)
  configs[layer.layer.name] = {'quantize_config': layer.quantize_config}
  return layer.layer


def unwrapped(layer):
  configs = {}
  unwrap(layer, configs, set())
  return configs


def quantize_layer_of(wrapped, layer, configs, registry, name_prefix):
  outputs = set()
  unwrap(wrapped, {}, outputs)
  if isinstance(layer, QuantizeWrapper):
    return layer
  if layer.name in outputs:
    if not registry.supports(layer):
      return layer
    config = registry.get_quantize_config(layer)
    if not config:
      return layer
    config = OutputOnlyConfig(config)
  elif layer.name in configs:
    config = configs[layer.name].get('quantize_config')
    if not config and registry.supports(layer):
      config = registry.get_quantize_config(layer)
  else:
    return layer
  if not config:
    raise RuntimeError()
  return QuantizeWrapperV2(layer, config, name_prefix=name_prefix)


# -- graph transformations ----------------------------------------------------


def names(layers):
  return set(layers.keys())


def names2(layers):
  return set(layers)
