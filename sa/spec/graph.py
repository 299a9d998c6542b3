"""Model changes used to check the graph transformer."""
from tensorflow_model_optimization.python.core.quantization.keras.graph_transformations import transforms

LayerNode = transforms.LayerNode
LayerPattern = transforms.LayerPattern


class Chain(transforms.Transform):
  """Matches B <- A (activation linear)."""

  def pattern(self):
    return LayerPattern(
        'B', inputs=[LayerPattern('A|A2', config={'activation': 'lin.*'})])

  def custom_objects(self):
    return {'Chain': 'chain object'}


def _name(node):
  return node.layer['config']['name']


def _new(kind, name, match, inputs=None):
  return LayerNode({'class_name': kind, 'name': name,
                    'config': {'name': name, 'by': kind}},
                   match.weights, inputs, match.metadata,
                   match.names_and_weights)


class Drop(Chain):
  """B <- A becomes Z with the weights of A."""

  def replacement(self, match_layer):
    a = match_layer.input_layers[0]
    return _new('Z', 'z_' + _name(a), a)


class Split(Chain):
  """B <- A becomes Y <- Z, Z with the weights of A, Y with those of B."""

  def replacement(self, match_layer):
    a = match_layer.input_layers[0]
    return _new('Y', 'y_' + _name(match_layer), match_layer, [_new('Z', 'z_' + _name(a), a)])


class Append(Chain):
  """B <- A becomes W <- B <- A."""

  def replacement(self, match_layer):
    w = 'w_' + _name(match_layer)
    return LayerNode({'class_name': 'W', 'name': w,
                      'config': {'name': w, 'by': 'W'}}, None,
                     [match_layer], {'new': 'metadata'})


class Same(Chain):

  def replacement(self, match_layer):
    return match_layer


class Meta(Chain):
  """Changes the metadata and configuration of A only."""

  def replacement(self, match_layer):
    a = match_layer.input_layers[0]
    a.metadata['changed'] = 'yes'
    a.layer['config']['by'] = 'meta'
    return match_layer


class Merge(transforms.Transform):
  """M <- [B, A] gets W in front of B."""

  def pattern(self):
    return LayerPattern('M', inputs=[LayerPattern('B'), LayerPattern('A')])

  def replacement(self, match_layer):
    b = match_layer.input_layers[0]
    match_layer.metadata['changed'] = 'yes'
    w = 'w_' + _name(b)
    match_layer.input_layers[0] = LayerNode(
        {'class_name': 'W', 'name': w,
         'config': {'name': w, 'by': 'W'}}, None, [b], {'new': 'metadata'})
    return match_layer

  def custom_objects(self):
    return {'Merge': 'merge object'}


class Lose(Merge):
  """Loses one of the inputs."""

  def replacement(self, match_layer):
    match_layer.input_layers = [match_layer.input_layers[0]]
    return match_layer


class Single(transforms.Transform):
  """A alone becomes A with another activation (so that Chain matches)."""

  def pattern(self):
    return LayerPattern('A', config={'activation': 'relu'})

  def replacement(self, match_layer):
    match_layer.layer['config']['activation'] = 'linear'
    return match_layer

  def custom_objects(self):
    return {'Single': 'single object'}
