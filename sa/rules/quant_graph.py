"""Q09..: graph transformations of quantization-aware training."""
import itertools

from sa.report import rule
from sa.rules._common import *
from sa.rules.quant import (BITS, LK, MUT, bits, muts, quantizer_is, strs)

MODULE = {'Default8Bit': 'default_8bit_transforms',
          'DefaultNBit': 'default_n_bit_transforms'}
MEMBERS = ('Activation', 'Add', 'BatchNormalization', 'Concatenate', 'Conv2D', 'Dense',
           'DepthwiseConv2D', 'Embedding', 'ReLU')
BN = ('BatchNormalization', 'SyncBatchNormalization')
CONV = ('Conv2D', 'DepthwiseConv2D')
LIN = {'activation': 'linear'}
RELU = {'activation': 'relu'}
SQ = {'name': 'sepconv1d_squeeze.*'}


def pat(names, config=None, *inputs):
  names = (names,) if isinstance(names, str) else names
  return (frozenset(names), tuple(sorted((config or {}).items())), inputs)


conv = pat(CONV, LIN)
conv_bn = pat(BN, None, conv)
conv_r_bn = pat(BN, None, pat('Lambda', SQ, conv))
dense_bn = pat(BN, None, pat('Dense', LIN))
before_relu = pat(('Add', 'Conv2D', 'DepthwiseConv2D', 'Dense'))
PATTERNS = {
    'Conv2DBatchNormQuantize': conv_bn,
    'Conv2DReshapeBatchNormQuantize': conv_r_bn,
    'Conv2DBatchNormReLUQuantize': pat('ReLU', None, conv_bn),
    'Conv2DBatchNormActivationQuantize': pat('Activation', RELU, conv_bn),
    'Conv2DReshapeBatchNormReLUQuantize': pat('ReLU', None, conv_r_bn),
    'Conv2DReshapeBatchNormActivationQuantize': pat(
        'Activation', RELU, conv_r_bn),
    'DenseBatchNormQuantize': dense_bn,
    'DenseBatchNormReLUQuantize': pat('ReLU', None, dense_bn),
    'DenseBatchNormActivationQuantize': pat('Activation', RELU, dense_bn),
    'SeparableConv1DQuantize': pat('SeparableConv1D'),
    'SeparableConvQuantize': pat('SeparableConv2D'),
    'LayerReLUQuantize': pat('ReLU', None, before_relu),
    'LayerReluActivationQuantize': pat('Activation', RELU, before_relu),
    'InputLayerQuantize': pat('InputLayer'),
    'ConcatTransform': pat('Concatenate', None, *[pat('.*')] * 2),
}
PATTERNS.update({'ConcatTransform%dInputs' % n: pat(
    'Concatenate', None, *[pat('.*')] * n) for n in (3, 4, 5, 6)})
OPAQUE = ('serialize_layer', 'serialize_activation', 'deserialize_layer',
          'unique_object_name')


class Tree(object):
  """A matched tree of layers, as the transforms receive it."""

  def __init__(self, ctx, scheme):
    self.ctx, self.scheme = ctx, scheme
    self.I = ctx.interp(opaque=lambda f: f.name in OPAQUE)
    self.I.members[EXT('keras.layers')] = [(n, LK + n) for n in MEMBERS]
    self.count = 100

  def transform(self, name):
    self.count += 1
    return make(self.I, self.ctx.prog, name, BITS[self.scheme], self.count,
                MODULE[self.scheme], defaults=True)[0]

  def dict(self, **kw):
    return self.I.new_loc(T('dict', *[T('kv', C(k), v)
                                      for k, v in kw.items()]))

  def list(self, *xs):
    return self.I.new_loc(T('list', *xs))

  def config(self, name='user.QuantizeConfig'):
    self.count += 1
    return T('inst', EXT(name), self.count)

  def node(self, cls, inputs=(), qc=NONE, config=None, weights=None):
    self.count += 1
    config = config or {'name': C('%s_%d' % (cls, self.count)),
                        'activation': P('activation%d' % self.count)}
    layer = self.dict(class_name=C(cls), name=config['name'],
                      config=self.dict(**config))
    meta = self.dict() if qc is None else self.dict(quantize_config=qc)
    o, _ = make(self.I, self.ctx.prog, 'LayerNode', {
        'layer': layer, 'weights': weights or self.dict(),
        'input_layers': self.list(*inputs), 'metadata': meta,
        'names_and_weights': self.list()}, self.count)
    return o

  def get(self, o, *path):
    """Value at a path of attributes (first) and keys."""
    v = self.I.get_attr(o, path[0])
    for k in path[1:]:
      v = self.I.get_sub(v, C(k))
    return self.I.freeze(v)

  def qc(self, node):
    m = self.get(node, 'metadata')
    if m.op == 'dict':
      for kv in m.args:
        if kv.op == 'kv' and kv.args[0].is_const('quantize_config'):
          return kv.args[1]
      return NONE
    return T('sub', m, C('quantize_config'))

  def run(self, t, match):
    return call_m(self.I, t, 'replacement', {'match_layer': match})

  def snapshot(self, nodes):
    out = []
    for n in nodes:
      out.append(tuple(self.get(n, f) for f in (
          'layer', 'weights', 'input_layers', 'metadata')))
    return out


def read_pattern(I, o):
  """Pattern tree of a LayerPattern object."""
  if o.op != 'obj' or o.args[0].name != 'LayerPattern':
    return None
  n, c, l = [field(I, o, x) for x in ('class_name', 'config', 'inputs')]
  if n.op != 'const' or c.op != 'dict' or l.op not in ('list', 'tuple'):
    return None
  if any(k.op != 'kv' or k.args[0].op != 'const' or k.args[1].op != 'const'
         for k in c.args):
    return None
  kids = [read_pattern(I, x) for x in l.args]
  if None in kids:
    return None
  return (frozenset(n.val.split('|')), tuple(sorted(
      (k.args[0].val, k.args[1].val) for k in c.args)), tuple(kids))


def is_noop_activation(v):
  return v is not None and v.op == 'call' and last_name(
      v.args[0]) == 'serialize_activation' and any(
          x.op == 'obj' and x.args[0].name == 'NoOpActivation'
          for x in v.args[1].args)


def config_is(ctx, tr, key, where, c, name, output=None):
  """c is a configuration of that class with the bits of the scheme."""
  ok = c.op == 'obj' and c.args[0].name == name
  det = 'configuration is %s, required %s' % (show(c), name)
  if ok and tr.scheme == 'DefaultNBit' and name != 'NoOpQuantizeConfig':
    got = {x: field(tr.I, c, '_num_bits_' + x)
           for x in ('weight', 'activation')}
    ok = all(got[x] is P('num_bits_' + x) for x in got)
    det = 'numbers of bits are %s' % {x: show(got[x]) for x in got}
  if ok and output is not None:
    got = field(tr.I, c, 'quantize_output')
    ok = got.is_const(output)
    det = 'quantize_output is %s' % show(got)
  return ctx.ob(key, ok, where, det)


@rule('Q09', 100, 'Each layout transform matches its layers and moves the '
      'quantisation where the documentation says, unless a layer has a '
      'configuration of its own.')
def q09(ctx):
  for s in ('Default8Bit', 'DefaultNBit'):
    for name, want in sorted(PATTERNS.items()):
      tr = Tree(ctx, s)
      t = tr.transform(name)
      r = call_m(tr.I, t, 'pattern')
      ctx.ob('%s.%s.pattern' % (s, name), read_pattern(tr.I, r.value) == want,
             r.fn.loc(), 'matches %s' % (read_pattern(tr.I, r.value),))
      if 'BatchNorm' in name:
        batch_norm(ctx, s, name)
      elif name.startswith('LayerRe'):
        relu(ctx, s, name)
    separable2d(ctx, s)
    separable1d(ctx, s)
    input_layer(ctx, s)
    for n, name in ((2, 'ConcatTransform'), (3, 'ConcatTransform3Inputs'),
                    (6, 'ConcatTransform6Inputs')):
      concat(ctx, s, name, n)


def batch_norm(ctx, s, name):
  """Conv/Dense -> BatchNorm [-> ReLU]."""
  first = 'Dense' if name.startswith('Dense') else 'Conv2D'
  last = None
  if 'ReLU' in name:
    last = 'ReLU'
  elif 'Activation' in name:
    last = 'Activation'
  for custom in itertools.product((None, NONE, True), repeat=3 if last else 2):
    tr = Tree(ctx, s)
    qcs = [tr.config() if c is True else c for c in custom]
    c = tr.node(first, (), qcs[0])
    below = c
    if 'Reshape' in name:
      below = tr.node('Lambda', (c,))
    b = tr.node('BatchNormalization', (below,), qcs[1])
    head = tr.node(last, (b,), qcs[2]) if last else b
    nodes = [c, b] + ([head] if last else []) + ([below] * (below is not c))
    before = tr.snapshot(nodes)
    old = tr.get(c, 'layer', 'config', 'activation')
    r = tr.run(tr.transform(name), head)
    key = '%s.%s.%s' % (s, name, '-'.join(
        {None: 'absent', NONE: 'none', True: 'own'}[x] for x in custom))
    w = r.fn.loc()
    ctx.ob(key + '.kept', r.value is head and raises(r) is FALSE, w,
           'returns %s' % show(r.value))
    after = tr.snapshot(nodes)
    if True in custom:
      ctx.ob(key + '.unchanged', before == after, w,
             'layers with a configuration of their own are changed')
      continue
    ctx.ob(key + '.activation', is_noop_activation(
        tr.get(c, 'layer', 'config', 'activation')), w,
           'activation of the %s is %s' % (first, show(
               tr.get(c, 'layer', 'config', 'activation'))))
    config_is(ctx, tr, key + '.batch_norm', w, tr.qc(b), 'NoOpQuantizeConfig'
              if last else s + 'OutputQuantizeConfig', None if last else True)
    ctx.ob(key + '.first', tr.qc(c) is NONE, w,
           'configuration of the %s is %s' % (first, show(tr.qc(c))))
    if last:
      ctx.ob(key + '.last', tr.qc(head) is NONE, w,
             'configuration of the %s is %s' % (last, show(tr.qc(head))))
    # nothing else
    tr.I.set_sub(tr.I.get_sub(tr.I.get_attr(c, 'layer'), C('config')),
                 C('activation'), old)
    after = tr.snapshot(nodes)
    ctx.ob(key + '.rest', all(x[:3] == y[:3] for x, y in zip(before, after)),
           w, 'something else of the layers is changed')


def relu(ctx, s, name):
  """Add/Conv/Dense -> ReLU."""
  for below in ('Add', 'Conv2D', 'DepthwiseConv2D', 'Dense'):
    for qc in (None, NONE, True):
      tr = Tree(ctx, s)
      own = tr.config() if qc is True else qc
      b = tr.node(below, (), own)
      head = tr.node('ReLU' if 'ReLU' in name else 'Activation', (b,), NONE)
      before = tr.snapshot([b, head])
      r = tr.run(tr.transform(name), head)
      w = r.fn.loc()
      key = '%s.%s.%s.%s' % (s, name, below, {
          None: 'absent', NONE: 'none', True: 'own'}[qc])
      after = tr.snapshot([b, head])
      ctx.ob(key + '.kept', r.value is head and raises(r) is FALSE and all(
          x[:3] == y[:3] for x, y in zip(before, after)) and
             tr.qc(head) is NONE, w, 'the layers are changed')
      if qc is True:
        ctx.ob(key + '.own', tr.qc(b) is own, w,
               'configuration of the user is replaced by %s' % show(tr.qc(b)))
        continue
      # no quantisation between the two, but of the weights
      c = tr.qc(b)
      if c.op != 'obj':
        ctx.ob(key + '.output', False, w, 'the output of %s before the ReLU is '
               'quantised' % below)
        continue
      v = call_m(tr.I, c, 'get_output_quantizers', {'layer': P('layer')})
      ctx.ob(key + '.output', v.value is T('list'), w,
             'the output of %s is quantised' % below)
      if below != 'Add' and qc is NONE:
        v = call_m(tr.I, c, 'get_weights_and_quantizers', {
            'layer': P('layer')})
        ctx.ob('%s.%s.%s.weights' % (s, name, below), v.value is not T(
            'list'), w, 'the weights of a %s followed by a ReLU are not '
               'quantised' % below)


def ext_layers(t, name):
  """Constructor calls of keras.layers.<name> inside t."""
  return [x for x in subterms(t) if x.op == 'call' and x.args[0].op == 'ext'
          and x.args[0].args[0] == LK + name]


def kwd(t):
  k = t.args[2].args
  return {k[i]: k[i + 1] for i in range(0, len(k), 2)}


def built(ctx, tr, key, where, node, name, want, anyof=()):
  """The node is a new layer of that class with those arguments."""
  if node is None or node.op != 'obj' or node.args[0].name != 'LayerNode':
    ctx.ob(key, False, where, 'no replacement: %s' % show(node))
    return None
  layer = tr.get(node, 'layer')
  ls = ext_layers(layer, name)
  ctx.ob(key, len(set(ls)) == 1, where, 'is no %s: %s' % (name, show(layer)))
  if len(set(ls)) != 1:
    return None
  got = kwd(ls[0])
  for k, v in sorted(want.items()):
    ctx.ob('%s.%s' % (key, k), k in got and nf(got[k]) is nf(v) or
           k not in got and v is NONE, where, '%s is %s, required %s' % (
               k, show(got.get(k, NONE)), show(v)))
  n = tr.get(node, 'layer', 'name')
  ctx.ob(key + '.name', n is attr(ls[0], 'name'), where,
         'name of the node is %s' % show(n))
  return ls[0]


SEP = ('filters', 'kernel_size', 'strides', 'padding', 'data_format',
       'dilation_rate', 'depth_multiplier', 'activation',
       'depthwise_initializer', 'pointwise_initializer', 'bias_initializer',
       'depthwise_regularizer', 'pointwise_regularizer', 'bias_regularizer',
       'activity_regularizer', 'depthwise_constraint', 'pointwise_constraint',
       'bias_constraint', 'trainable')


def sep_node(tr, cls, bias, qc=NONE, **more):
  cfg = {k: P('c_' + k) for k in SEP}
  cfg.update({'use_bias': C(bias), 'name': C('sep')}, **more)
  ws = {'dk:0': P('w_depthwise'), 'pk:0': P('w_pointwise')}
  if bias:
    ws['b:0'] = P('w_bias')
  return cfg, tr.node(cls, (), qc, cfg, tr.dict(**ws))


def weights_of(ctx, tr, key, where, node, want):
  """Weights are set by the name they have in the new layer."""
  w = tr.get(node, 'weights')
  got = {}
  if w.op == 'dict' and all(k.op == 'kv' and k.args[0].op == 'const'
                            for k in w.args):
    got = {k.args[0].val: k.args[1] for k in w.args}
  ctx.ob(key + '.weights', {k: nf(v) for k, v in got.items()} == {
      k: nf(v) for k, v in want.items()}, where, 'weights are %s' % {
          k: show(v) for k, v in got.items()})


def new_config(ctx, tr, key, where, node, noop=False):
  if noop:
    return config_is(ctx, tr, key + '.config', where, tr.qc(node),
                     'NoOpQuantizeConfig')
  m = tr.get(node, 'metadata')
  return ctx.ob(key + '.config', m.op == 'dict' and tr.qc(node) is NONE and any(
      kv.op == 'kv' and kv.args[0].is_const('quantize_config')
      for kv in m.args), where, 'the new layer is not quantised: %s' % show(m))


def inputs_of(tr, node):
  l = tr.get(node, 'input_layers')
  return list(l.args) if l.op == 'list' else None


def separable2d(ctx, s):
  for bias in (True, False):
    tr = Tree(ctx, s)
    cfg, m = sep_node(tr, 'SeparableConv2D', bias)
    r = tr.run(tr.transform('SeparableConvQuantize'), m)
    w = r.fn.loc()
    key = '%s.SeparableConv2D.%s' % (s, 'bias' if bias else 'no_bias')
    want = {k: cfg[k] for k in ('filters', 'padding', 'data_format',
                                'activation', 'use_bias', 'bias_initializer',
                                'bias_regularizer', 'bias_constraint',
                                'activity_regularizer', 'trainable')}
    want.update({'padding': C('valid'), 'kernel_size': TUP(C(1), C(1)),
                 'strides': TUP(C(1), C(1))})
    want.update({'kernel_' + k: cfg['pointwise_' + k] for k in (
        'initializer', 'regularizer', 'constraint')})
    built(ctx, tr, key + '.conv', w, r.value, 'Conv2D', want)
    ins = inputs_of(tr, r.value) if r.value.op == 'obj' else None
    if not ins or len(ins) != 1:
      ctx.ob(key + '.depthwise', False, w, 'no depthwise convolution')
      continue
    want = {k: cfg[k] for k in (
        'kernel_size', 'strides', 'padding', 'depth_multiplier', 'data_format',
        'dilation_rate', 'depthwise_initializer', 'depthwise_regularizer',
        'depthwise_constraint', 'trainable')}
    want.update({'activation': NONE, 'use_bias': C(False)})
    built(ctx, tr, key + '.depthwise', w, ins[0], 'DepthwiseConv2D', want)
    weights_of(ctx, tr, key + '.depthwise', w, ins[0], {
        'depthwise_kernel:0': P('w_depthwise')})
    cw = {'kernel:0': P('w_pointwise')}
    if bias:
      cw['bias:0'] = P('w_bias')
    weights_of(ctx, tr, key + '.conv', w, r.value, cw)
    new_config(ctx, tr, key + '.conv', w, r.value)
    new_config(ctx, tr, key + '.depthwise', w, ins[0])
    ctx.ob(key + '.inputs', inputs_of(tr, ins[0]) == [], w, 'extra layers')
  for n in ('SeparableConv1D', 'SeparableConv2D'):
    tr = Tree(ctx, s)
    cfg, m = sep_node(tr, n, True, tr.config())
    before = tr.snapshot([m])
    r = tr.run(tr.transform(n.replace('2D', '').replace(
        'Conv1D', 'Conv1D') + 'Quantize'), m)
    ctx.ob('%s.%s.own' % (s, n), r.value is m and before == tr.snapshot([m]),
           r.fn.loc(), 'a layer with a configuration of its own is split')


def expand(v):
  return T('call', EXT('np.expand_dims'), T('args', v, C(0)), T('kw'))


def separable1d(ctx, s):
  for bias, fmt, tup in ((True, 'channels_last', True),
                         (False, 'channels_first', False)):
    tr = Tree(ctx, s)
    more = {'data_format': C(fmt), 'padding': C('same')}
    for k in ('kernel_size', 'strides', 'dilation_rate'):
      more[k] = TUP(P('c_' + k)) if tup else C({
          'kernel_size': 7, 'strides': 5, 'dilation_rate': 3}[k])
    val = {k: (more[k].args[0] if tup else more[k]) for k in (
        'kernel_size', 'strides', 'dilation_rate')}
    cfg, m = sep_node(tr, 'SeparableConv1D', bias, **more)
    r = tr.run(tr.transform('SeparableConv1DQuantize'), m)
    w = r.fn.loc()
    key = '%s.SeparableConv1D.%s' % (s, fmt)
    chain = [r.value]
    while chain[-1].op == 'obj' and chain[-1].args[0].name == 'LayerNode' and (
        len(inputs_of(tr, chain[-1]) or []) == 1) and len(chain) < 5:
      chain.append(inputs_of(tr, chain[-1])[0])
    ctx.ob(key + '.chain', len(chain) == 3, w, '%d layers' % len(chain))
    if len(chain) != 3:
      continue
    sq, conv2, ex = chain
    dim = 1 if fmt == 'channels_last' else 2
    for node, n, fn in ((sq, 'squeeze', 'tf.squeeze'),
                        (ex, 'expand', 'tf.expand_dims')):
      l = built(ctx, tr, '%s.%s' % (key, n), w, node, 'Lambda', {})
      new_config(ctx, tr, '%s.%s' % (key, n), w, node, noop=True)
      if l is None:
        continue
      f = l.args[1].args[0] if l.args[1].args else kwd(l).get('function')
      a = apply(tr.I, f, [P('x')])
      v = a.value
      dims = [y for y in subterms(v) if y.op == 'const' and
              y is not NONE and not isinstance(y.val, str)]
      ctx.ob('%s.%s.dimension' % (key, n), v.op == 'call' and v.args[0] is EXT(
          fn) and any(y is P('x') for y in subterms(v)) and [
              y.val for y in dims] == [dim], w, 'computes %s' % show(v))
    nm = kwd(ext_layers(tr.get(sq, 'layer'), 'Lambda')[0]).get('name') if (
        ext_layers(tr.get(sq, 'layer'), 'Lambda')) else None
    ctx.ob(key + '.squeeze.recognised', nm is not None and any(
        x.is_const('sepconv1d_squeeze') for x in subterms(nm)), w,
           'the name %s is not matched by the batch-norm transforms' % (
               show(nm) if nm is not None else None))
    want = {k: cfg[k] for k in SEP}
    want.update({
        'use_bias': cfg['use_bias'],
        'kernel_size': TUP(C(1), val['kernel_size']),
        'strides': TUP(val['strides'], val['strides']),
        'dilation_rate': TUP(C(1), val['dilation_rate'])})
    built(ctx, tr, key + '.conv', w, conv2, 'SeparableConv2D', want)
    ws = {'depthwise_kernel:0': expand(P('w_depthwise')),
          'pointwise_kernel:0': expand(P('w_pointwise'))}
    if bias:
      ws['bias:0'] = P('w_bias')
    weights_of(ctx, tr, key + '.conv', w, conv2, ws)
    new_config(ctx, tr, key + '.conv', w, conv2)
  tr = Tree(ctx, s)
  cfg, m = sep_node(tr, 'SeparableConv1D', True, padding=C('causal'))
  r = tr.run(tr.transform('SeparableConv1DQuantize'), m)
  ctx.ob('%s.SeparableConv1D.causal' % s, raises(r) is TRUE, r.fn.loc(),
         'causal padding is accepted')


def input_layer(ctx, s):
  tr = Tree(ctx, s)
  m = tr.node('InputLayer')
  before = tr.snapshot([m])
  r = tr.run(tr.transform('InputLayerQuantize'), m)
  w, key = r.fn.loc(), s + '.InputLayer'
  ok = r.value.op == 'obj' and r.value.args[0].name == 'LayerNode'
  ctx.ob(key + '.input', ok and inputs_of(tr, r.value) == [m] and
         before == tr.snapshot([m]), w, 'the input layer is not kept')
  if not ok:
    return
  layer = tr.get(r.value, 'layer')
  qs = {x for x in subterms(layer) if x.op == 'obj' and
        x.args[0].name == 'QuantizeLayer'}
  ctx.ob(key + '.layer', len(qs) == 1, w, 'the new layer is %s' % show(layer))
  for q in qs:
    quantizer_is(ctx, key + '.quantizer', w, tr.I, field(
        tr.I, q, 'quantizer'), 'AllValuesQuantizer', bits(s, 'activation'),
                 per_axis=False, symmetric=False, narrow_range=False)
    n = tr.get(r.value, 'layer', 'name')
    ctx.ob(key + '.name', n is attr(q, 'name'), w, 'name is %s' % show(n))


def disabled(ctx, tr, key, where, c):
  """The configuration no longer quantises outputs."""
  v = tr.I.get_attr(c, 'get_output_quantizers')
  r = apply(tr.I, v, [P('layer')])
  return ctx.ob(key, r.value is T('list') and raises(r) is FALSE, where,
                'the output before the concatenation is quantised: %s' % show(
                    r.value))


def concat(ctx, s, name, n):
  """Inputs: not configured, with own configuration, concatenation, input
  quantisation, not supported."""
  kinds = ('plain', 'own', 'default', 'concat')
  cases = [list(c) for c in itertools.product(kinds, repeat=2)]
  cases += [['activation', 'plain'], ['own', 'activation']]
  cases += [['plain', 'unknown'], ['unknown', 'plain'],
            ['plain', 'unsupported'], ['own', 'unsupported']]
  if s == 'Default8Bit':
    cases += [['plain', 'input'], ['input', 'own'], ['input', 'input']]
  if n != 2:
    cases = [['plain'] * n, ['own', 'plain', 'concat'] + ['plain'] * (n - 3)]
  for kind, own in [(c, o) for c in cases for o in (NONE, True)]:
    tr = Tree(ctx, s)
    feeds, given = [], []
    for k in kind:
      qc = NONE
      if k == 'own':
        qc = tr.config()
      elif k == 'default':
        tr.count += 1
        qc = make(tr.I, ctx.prog, s + 'OutputQuantizeConfig', dict(
            BITS[s], quantize_output=C(True)), tr.count)[0]
      given.append(qc)
      feeds.append(tr.node({'plain': 'Dense', 'own': 'Dense', 'default':
                            'BatchNormalization', 'concat': 'Concatenate',
                            'activation': 'Activation',
                            'input': 'QuantizeLayer', 'unknown': 'MyLayer',
                            'unsupported': 'Embedding'}[k], (), qc))
    hc = tr.config() if own is True else NONE
    head = tr.node('Concatenate', feeds, hc)
    r = tr.run(tr.transform(name), head)
    w = r.fn.loc()
    key = '%s.%s.%s%s' % (s, name, '-'.join(kind), '.own' if hc is not NONE
                          else '')
    ctx.ob(key + '.kept', r.value is head and raises(r) is FALSE and
           inputs_of(tr, head) == feeds, w, 'returns %s' % show(r.value))
    if 'unknown' in kind or 'unsupported' in kind:
      ctx.ob(key + '.unchanged', tr.qc(head) is hc and all(
          field(tr.I, tr.qc(f), 'quantize_output').is_const(False)
          for f in feeds if tr.qc(f).op == 'obj') and all(
              tr.qc(f) is g for f, g in zip(feeds, given)
              if g is not NONE), w, 'quantisation is moved although a layer '
             'before cannot be quantised')
      for f, g in zip(feeds, given):
        if g is not NONE:
          ctx.ob(key + '.untouched', not [
              e for e in muts(r) if e.a and e.a[0] is g], w,
                 'configuration of the user is changed')
      continue
    if hc is not NONE:
      ctx.ob(key + '.head', tr.qc(head) is hc, w,
             'configuration of the user is replaced by %s' % show(
                 tr.qc(head)))
    else:
      config_is(ctx, tr, key + '.head', w, tr.qc(head),
                s + 'OutputQuantizeConfig', True)
    for i, (k, f, g) in enumerate(zip(kind, feeds, given)):
      c = tr.qc(f)
      kk = '%s.%d.%s' % (key, i, k)
      if k == 'concat':
        config_is(ctx, tr, kk, w, c, 'NoOpQuantizeConfig')
      elif k == 'input':
        ctx.ob(kk, c is NONE, w, 'configuration is %s' % show(c))
      elif k == 'plain':
        if config_is(ctx, tr, kk, w, c, s + 'QuantizeConfig', False):
          ctx.ob(kk + '.attributes', [field(tr.I, c, x) for x in (
              'weight_attrs', 'activation_attrs')] == [
                  strs(['kernel']), strs(['activation'])], w,
                 'weights or activations are lost')
          disabled(ctx, tr, kk + '.output', w, c)
      elif k == 'activation':
        if config_is(ctx, tr, kk, w, c, s + 'ActivationQuantizeConfig', False):
          disabled(ctx, tr, kk + '.output', w, c)
      else:
        ctx.ob(kk, c is g, w, 'configuration is replaced by %s' % show(c))
        disabled(ctx, tr, kk + '.output', w, c)
        if k == 'default':
          config_is(ctx, tr, kk + '.saved', w, c, s + 'OutputQuantizeConfig',
                    False)


# -- layout ------------------------------------------------------------------


def contains(big, small):
  """The inner part of a pattern matches what small matches."""
  def same(a, b):
    return a[0] & b[0] and len(a[2]) >= len(b[2]) and all(
        same(x, y) for x, y in zip(a[2], b[2]))
  return any(same(x, small) or contains(x, small) for x in big[2])


@rule('Q10', 20, 'The layout of a scheme applies all its transforms, the more '
      'specific before the general ones and concatenations last, to the '
      'annotated layers only.')
def q10(ctx):
  for s in ('Default8Bit', 'DefaultNBit'):
    I = ctx.interp(opaque=lambda f: ctor_opaque(f) and f.cls.name not in (
        s + 'QuantizeLayoutTransform',) or f.name == 'transform')
    o, _ = make(I, ctx.prog, s + 'QuantizeLayoutTransform', BITS[s],
                defaults=True)
    r = call_m(I, o, 'apply', {'model': P('model'),
                               'layer_quantize_map': P('layers')})
    w = r.fn.loc()
    v = unobj(I, r.value)
    ok = v.op == 'call' and v.args[0].op == 'attr' and v.args[0].args[
        1] == 'transform' and made(v.args[0].args[0], 'ModelTransformer')
    ctx.ob(s + '.returns', ok, w, 'returns %s' % show(v))
    if not ok:
      continue
    a = made_kw(v.args[0].args[0])
    ctx.ob(s + '.model', a.get('model') is P('model'), w, 'another model')
    ctx.ob(s + '.metadata', a.get('layer_metadata') is P('layers'), w,
           'configurations of the user are not passed on: %s' % show(
               a.get('layer_metadata', NONE)))
    J = ctx.interp()
    want = [nf(run_spec(J, 'quant', n, {'layers': P('layers')}).value)
            for n in ('names', 'names2')]
    ctx.ob(s + '.candidates', nf(a.get('candidate_layers', NONE)) in want, w,
           'candidates are %s' % show(a.get('candidate_layers', NONE)))
    ts = a.get('transforms', NONE)
    ok = ts.op == 'list' and all(made(t) for t in ts.args)
    ctx.ob(s + '.transforms', ok, w, 'transforms are %s' % show(ts))
    if not ok:
      continue
    names = [t.args[0].name for t in ts.args]
    mod = MODULE[s]
    for n in sorted(PATTERNS):
      ctx.ob('%s.%s' % (s, n), names.count(n) == 1 and [
          t.args[0].module.name.endswith(mod) for t in ts.args
          if t.args[0].name == n] == [True], w, 'is applied %d times' % (
              names.count(n)))
    if s == 'DefaultNBit':
      for t in ts.args:
        k = made_kw(t)
        ctx.ob('%s.%s.bits' % (s, t.args[0].name), all(
            k.get('num_bits_' + x) is P('num_bits_' + x)
            for x in ('weight', 'activation')), w,
               'numbers of bits are %s' % {x: show(y) for x, y in k.items()})
    known = [n for n in names if n in PATTERNS]
    for i, n in enumerate(known):
      for m in known[:i]:
        cat = m.startswith('Concat') and 'BatchNorm' in n
        ctx.ob('%s.%s.before.%s' % (s, n, m), not cat and not (
            m != n and contains(PATTERNS[n], PATTERNS[m])), w,
               '%s runs before %s and hides its layers' % (m, n))
