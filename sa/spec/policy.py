"""What the XNNPack latency policy may prune (analysed, never executed)."""
import tensorflow as tf
from tensorflow_model_optimization.python.core.keras.compat import keras
from tensorflow_model_optimization.python.core.quantization.keras import utils as quantize_utils
from tensorflow_model_optimization.python.core.sparsity.keras.pruning_wrapper import PruneLowMagnitude

layers = keras.layers


def allow(layer):
  return isinstance(layer, layers.Conv2D) and layer.kernel_size == (1, 1)


def start(self, layer):
  if not isinstance(layer, layers.Conv2D):
    return False
  before = list(self._get_producers(layer))
  return (hasattr(layer, 'kernel') and layer.kernel.shape[:3] == (3, 3, 3) and
          layer.strides == (2, 2) and layer.padding.lower() == 'valid' and
          len(before) == 1 and
          isinstance(before[0], layers.ZeroPadding2D) and
          before[0].padding == ((1, 1), (1, 1)))


def end(layer):
  return isinstance(layer, layers.GlobalAveragePooling2D)


def depthwise(self, layer):
  before = list(self._get_producers(layer))
  padded = len(before) == 1 and isinstance(before[0], layers.ZeroPadding2D)
  same = layer.padding.lower() == 'same'
  valid = layer.padding.lower() == 'valid'
  one = layer.strides == (1, 1)
  two = layer.strides == (2, 2)
  k3 = layer.kernel_size == (3, 3)
  k5 = layer.kernel_size == (5, 5)
  return (layer.depth_multiplier == 1 and layer.dilation_rate == (1, 1) and
          ((k3 and one and same) or (k5 and one and same) or
           (k3 and (one or two) and valid and padded and
            before[0].padding == ((1, 1), (1, 1))) or
           (k5 and (one or two) and valid and padded and
            before[0].padding == ((2, 2), (2, 2)))))


def conv(layer):
  return (layer.groups == 1 and layer.dilation_rate == (1, 1) and
          layer.kernel_size == (1, 1) and layer.strides == (1, 1))


def pooling(layer):
  return layer.keepdims


def batch_norm(layer):
  return list(layer.axis) == [3]


def upsampling(layer):
  return layer.interpolation == 'bilinear'


def activation(layer):
  return quantize_utils.serialize_activation(
      layer.activation, use_legacy_format=True) in (
          'relu', 'relu6', 'leaky_relu', 'elu', 'sigmoid')


def ensure(self, model):
  if not model._is_graph_network and not isinstance(model, keras.Sequential):
    raise ValueError('subclassed')
  if not model.built:
    raise ValueError('unbuilt')
  starts = self._lookup_layers(
      set(inp._keras_history.layer for inp in model.inputs),
      self._start_layer_stop_fn, self._get_consumers)
  if not starts:
    raise ValueError('no start')
  ends = self._lookup_layers(
      set(out._keras_history.layer for out in model.outputs),
      self._end_layer_stop_fn, self._get_producers)
  if not ends:
    raise ValueError('no end')
