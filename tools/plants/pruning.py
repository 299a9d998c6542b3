S = 'sparsity/keras/'
HEAD = '''
import numpy as np, tensorflow as tf
import tf_keras as keras
'''
HEAD = '''
import os
os.environ['TF_USE_LEGACY_KERAS'] = '1'
import numpy as np
import tensorflow as tf
import tensorflow_model_optimization as tfmot
from tensorflow_model_optimization.python.core.keras.compat import keras
sp = tfmot.sparsity.keras
'''
PLANTS = [
dict(id='prune-window-end', prop='P04', edits=[(S+'pruning_schedule.py',
 """    return tf.math.logical_and(is_in_pruning_range, is_pruning_turn)
""", """    is_last_turn = tf.math.equal(step, end_step)
    return tf.math.logical_and(
        is_in_pruning_range, tf.math.logical_or(is_pruning_turn, is_last_turn))
""")],
 demo=HEAD+"""
s = sp.ConstantSparsity(0.5, begin_step=5, end_step=28, frequency=10)
got = [i for i in range(0, 60) if bool(s(tf.constant(i, tf.int64))[0])]
assert got == [5, 15, 25], got
""",
 needs='an end step that is not a multiple of the frequency after the begin step',
 breaks='masks are also recomputed on the end step itself',
 tests=[S+'pruning_schedule_test.py', S+'pruning_impl_test.py', S+'pruning_wrapper_test.py']),
dict(id='prune-distributed-first-weight', prop='P01', edits=[(S+'pruning_impl.py',
 '''          assign_objs.append(
              distribution.extended.update(mask, update, (new_mask,)))
          assign_objs.append(
              distribution.extended.update(threshold, update, (new_threshold,)))

        return tf.group(assign_objs)
''',
 '''          assign_objs.append(
              distribution.extended.update(mask, update, (new_mask,)))
          assign_objs.append(
              distribution.extended.update(threshold, update, (new_threshold,)))
          if not isinstance(distribution.extended._container_strategy(),  # pylint: disable=protected-access
                            tf.distribute.MirroredStrategy):
            continue
          break

        return tf.group(assign_objs)
''')],
 demo=HEAD+'''
strategy = tf.distribute.MirroredStrategy(['/cpu:0'])
with strategy.scope():
  l = keras.layers.LSTM(8)
  m = keras.Sequential([sp.prune_low_magnitude(l, sp.ConstantSparsity(0.5, 0, frequency=1), input_shape=(3, 6))])
  m.compile('sgd', 'mse')
m.fit(np.random.rand(8, 3, 6), np.random.rand(8, 8), batch_size=4, verbose=0, callbacks=[sp.UpdatePruningStep()])
for w in l.get_weights()[:2]:
  assert abs(np.mean(w == 0) - 0.5) < 0.05, np.mean(w == 0)
''',
 needs='a mirrored strategy and a layer with more than one prunable weight',
 breaks='only the first prunable weight of a layer gets a new mask',
 tests=[S+'pruning_impl_test.py', S+'prune_distributed_test.py', S+'prune_integration_test.py']),
dict(id='prune-restored-counter', prop='P05', edits=[(S+'pruning_callbacks.py',
 '      if layer.pruning_step == -1:', '      if layer.pruning_step <= 0:'),
 (S+'pruning_callbacks.py', '    tuples = []\n    for', '    steps = [int(K.get_value(l.pruning_step)) for l in self.prunable_layers]\n    tuples = []\n    if min(steps) == -1 and max(steps) > 0:\n      return\n    for')],
 demo=HEAD+'''
l1, l2 = keras.layers.Dense(8, input_shape=(6,)), keras.layers.Dense(8)
s = sp.ConstantSparsity(0.5, 0, frequency=1)
p1, p2 = sp.prune_low_magnitude(l1, s, input_shape=(6,)), sp.prune_low_magnitude(l2, s)
m1 = keras.Sequential([p1]); m1.compile('sgd', 'mse')
x = np.random.rand(8, 6)
m1.fit(x, np.random.rand(8, 8), verbose=0, callbacks=[sp.UpdatePruningStep()])
m2 = keras.Sequential([p1, p2]); m2.compile('sgd', 'mse')
m2.fit(x, np.random.rand(8, 8), verbose=0, callbacks=[sp.UpdatePruningStep()])
assert np.mean(p2.layer.kernel.numpy() == 0) == 0.5
''',
 needs='a model that mixes an already trained pruned layer with a fresh one',
 breaks='fresh layers keep the counter at -1 and training fails',
 tests=[S+'pruning_callbacks_test.py', S+'prune_integration_test.py']),
dict(id='prune-nested-remask', prop='P02', edits=[(S+'pruning_callbacks.py',
 '''    weight_mask_ops = []

    for layer in self.prunable_layers:
''', '''    weight_mask_ops = []
    shared = set()

    for layer in self.prunable_layers:
      if layer.layer.name in shared:
        continue
      shared.add(layer.layer.name)
''')],
 demo=HEAD+'''
s = sp.ConstantSparsity(0.5, 0, frequency=1)
def sub(i):
  return keras.Sequential([sp.prune_low_magnitude(keras.layers.Dense(8, name='d'), s, input_shape=(8,), name='w%d' % i)], name='m%d' % i)
a, b = sub(0), sub(1)
m = keras.Sequential([a, b]); m.compile('adam', 'mse')
m.fit(np.random.rand(8, 8), np.random.rand(8, 8), verbose=0, callbacks=[sp.UpdatePruningStep()])
for q in (a, b):
  assert np.mean(q.layers[0].layer.kernel.numpy() == 0) == 0.5
''',
 needs='two sub-models whose pruned layers have the same name',
 breaks='the second layer is not re-masked at the end of the epoch',
 tests=[S+'pruning_callbacks_test.py', S+'prune_integration_test.py']),
dict(id='prune-rnn-cell-weights', prop='P06', edits=[(S+'prune_registry.py',
 '''      prunable_weights = []
      for rnn_cell in cls._get_rnn_cells(layer):
        prunable_weights.extend(get_prunable_weights_rnn_cell(rnn_cell))
''', '''      prunable_weights = []
      seen = set()
      for rnn_cell in cls._get_rnn_cells(layer):
        for weight in get_prunable_weights_rnn_cell(rnn_cell):
          key = (rnn_cell.name, weight.name, tuple(weight.shape))
          if key not in seen:
            seen.add(key)
            prunable_weights.append(weight)
''')],
 demo=HEAD+'''
L = keras.layers
c = [L.LSTMCell(8, name='cell'), L.LSTMCell(8, name='cell'), L.LSTMCell(8, name='cell')]
m = keras.Sequential([sp.prune_low_magnitude(L.RNN(c), sp.ConstantSparsity(0.5, 0), input_shape=(3, 6))])
assert len(m.layers[0].pruning_vars) == 6, len(m.layers[0].pruning_vars)
''',
 needs='stacked cells that share a name and a shape',
 breaks='the kernels of the later cells are not pruned',
 tests=[S+'prune_registry_test.py', S+'pruning_wrapper_test.py', S+'prune_test.py']),
dict(id='prune-strip-shared', prop='P07', edits=[(S+'prune.py',
 '''      return keras.models.clone_model(
          layer, input_tensors=None, clone_function=_strip_pruning_wrapper)
''', '''      if not any(
          isinstance(l, (pruning_wrapper.PruneLowMagnitude, keras.Model))
          for l in layer.layers[:2]):
        return layer
      return keras.models.clone_model(
          layer, input_tensors=None, clone_function=_strip_pruning_wrapper)
''')],
 demo=HEAD+'''
L = keras.layers
i = L.Input((6,))
x = L.Activation('relu')(i)
x = sp.prune_low_magnitude(L.Dense(8), sp.ConstantSparsity(0.5, 0))(x)
inner = keras.Model(i, x)
m = keras.Sequential([inner, L.Dense(2)])
m = sp.strip_pruning(m)
bad = [l for l in m.layers[0].layers if 'Prune' in l.__class__.__name__]
assert not bad, bad
''',
 needs='a (sub)model whose first layers are not pruned',
 breaks='wrappers stay in the stripped model',
 tests=[S+'prune_test.py', S+'prune_integration_test.py']),
dict(id='prune-mbyn-conv-order', prop='P03', edits=[(S+'pruning_utils.py',
 'perm_weights = tf.transpose(weights, perm=[3, 0, 1, 2])', 'perm_weights = tf.transpose(weights, perm=[3, 1, 0, 2])')],
 demo=HEAD+'''
from tensorflow_model_optimization.python.core.sparsity.keras import pruning_utils as u
w = tf.constant(np.random.RandomState(0).randn(3, 2, 8, 4).astype('f'))
r = u.weights_rearrange(w)
m = u.m_by_n_sparsity_mask_prepare(u.generate_m_by_n_mask(r, (2, 4)), w.shape).numpy()
a = np.abs(w.numpy())
for g in range(2):
  b = a[:, :, 4*g:4*g+4, :]
  k = np.argsort(b, axis=2)[:, :, :2, :]
  assert not np.take_along_axis(m[:, :, 4*g:4*g+4, :], k, 2).any()
''',
 needs='a convolution kernel with more than one row and column',
 breaks='the 2:4 mask keeps the wrong entries (mask transposed in space)',
 tests=[S+'pruning_utils_test.py', S+'pruning_impl_test.py', S+'prune_integration_test.py']),
]
