"""Q..: quantization-aware training."""
from sa.report import rule
from sa.rules._common import *

STATE = ('assign', 'setattr', 'setitem')
QUANTIZERS = ('LastValueQuantizer', 'MovingAverageQuantizer',
              'AllValuesQuantizer')
SPECS = {'LastValueQuantizer': 'last_value',
         'MovingAverageQuantizer': 'moving_average',
         'AllValuesQuantizer': 'all_values'}
PARAMS = ('num_bits', 'per_axis', 'symmetric', 'narrow_range')


def q_ids(cls):
  return cls.replace('Quantizer', '')


def state(r, extra=()):
  return [e for e in r.effects if e.kind in STATE or e.kind == 'call' and
          last_name(e.a[0]) in extra]


def quantizer_call(ctx, cls, training):
  I, J = ctx.interp(), ctx.interp()
  o, _ = make(I, ctx.prog, cls)
  a = {'inputs': P('inputs'), 'training': training, 'weights': P('weights')}
  r = call_m(I, o, '__call__', a)
  s = run_spec(J, 'quant', SPECS[cls], dict(a, **{p: P(p) for p in PARAMS}))
  return r, s


def known_rank():
  """Per-channel ranges are defined for tensors of rank 1, 2 and 4."""
  n = T('call', EXT('builtins.len'), T('args', attr(P('inputs'), 'shape')),
        T('kw'))
  g = FALSE
  for k in (1, 2, 4):
    g = B.Or(g, gnf(B.atom(T('cmp', '==', n, C(k)))))
  return B.Or(B.Not(to_guard(P('per_axis'))), g)


ASSIGN = ('assign_moving_average',)


@rule('Q01', 6, 'In training the ranges become those of the reference: the '
      'last batch, its moving average or the extremes so far, symmetric if '
      'asked for and always including zero.')
def q01(ctx):
  for cls in QUANTIZERS:
    r, s = quantizer_call(ctx, cls, C(True))
    got, want = state(r, ASSIGN), state(s, ASSIGN)
    under = known_rank()
    ctx.ob(cls + '.updates', len(want) > 1 and len(got) > 1, r.fn.loc(),
           'ranges are not updated')
    expect_effects(ctx, cls + '.ranges', r.fn.loc(), got, want, under)


@rule('Q02', 12, 'Evaluation leaves the ranges alone; the quantisation op gets '
      'the (updated) ranges, number of bits, narrow-range flag and granularity '
      'of the quantizer.')
def q02(ctx):
  for cls in QUANTIZERS:
    r, s = quantizer_call(ctx, cls, C(False))
    ctx.ob(cls + '.eval.pure', not state(r, ASSIGN), r.fn.loc(),
           'evaluation changes state: %s' % [
               show_eff(eff_key(e)) for e in state(r, ASSIGN)][:2])
    expect_value(ctx, cls + '.eval', r.fn.loc(), r.value, s.value)
    r, s = quantizer_call(ctx, cls, C(True))
    under = known_rank()
    expect_value(ctx, cls + '.train', r.fn.loc(), r.value, s.value, under)
    # per-axis ranges have one entry per channel
    I, J = ctx.interp(), ctx.interp()
    o, _ = make(I, ctx.prog, cls)
    a = {'tensor_shape': P('tensor_shape'), 'name': P('name'),
         'layer': P('layer')}
    r = call_m(I, o, 'build', a)
    lim = 0.0 if cls == 'AllValuesQuantizer' else 6.0
    s = run_spec(J, 'quant', 'range_weights', dict(
        a, per_axis=C(False) if cls == 'AllValuesQuantizer' else P('per_axis'),
        lo=C(-lim), hi=C(lim)))
    for k in ('min_var', 'max_var'):
      expect_value(ctx, '%s.build.%s' % (cls, k), r.fn.loc(),
                   norm_weight(dict_get(r.value, k)),
                   norm_weight(dict_get(s.value, k)))
  I, J = ctx.interp(), ctx.interp()
  o, _ = make(I, ctx.prog, 'FixedQuantizer')
  r = call_m(I, o, '__call__', {'inputs': P('inputs')})
  s = run_spec(J, 'quant', 'fixed', {})
  expect_value(ctx, 'FixedQuantizer.call', r.fn.loc(), r.value, s.value)
  o, _ = make(I, ctx.prog, 'NoQuantizer')
  r = call_m(I, o, '__call__', {'inputs': P('inputs')})
  ctx.ob('NoQuantizer.call', r.value is P('inputs') and not state(r),
         r.fn.loc(), 'returns %s' % show(r.value))


def norm_weight(t):
  """add_weight(shape=None) is the default shape."""
  if t is None:
    return NONE
  def f(x):
    if x.op == 'kw':
      out = []
      for i in range(0, len(x.args), 2):
        if not (x.args[i] == 'shape' and x.args[i + 1].is_const(None)):
          out.extend(x.args[i:i + 2])
      return T('kw', *out)
    return x
  return T('weight', *[v for g, v in [(TRUE, lift_rewrite(t, f))]])


def lift_rewrite(t, f):
  r = None
  for g, x in reversed(lift(t)):
    y = rewrite(x, f)
    r = y if r is None else ITE(g, y, r)
  return r


@rule('Q03', 6, 'Activations are quantised exactly before (softmax, sigmoid, '
      'tanh, gelu) and after (linear, relu, swish, gelu) they are applied; '
      'NoOpActivation is not quantised, others are rejected.')
def q03(ctx):
  cls = 'QuantizeAwareActivation'
  I, J = ctx.interp(), ctx.interp()
  o, init = make(I, ctx.prog, cls)
  w = init.fn.loc()
  I.set_attr(o, 'training', P('training'))
  r = call_m(I, o, '__call__', {'inputs': P('inputs')})
  s = run_spec(J, 'quant', 'aware_activation', {})
  expect_guard(ctx, 'rejects', w, raises(init), raises(s))
  expect_value(ctx, 'call', r.fn.loc(), r.value, s.value, B.Not(raises(s)))
  ctx.ob('call.raises', raises(r) is FALSE or implies(raises(r), raises(s)),
         r.fn.loc(), 'raises when %s' % showg(gnf(raises(r))))
  I = ctx.interp()
  o, _ = make(I, ctx.prog, 'NoOpActivation')
  r = call_m(I, o, '__call__', {'x': P('x')})
  ctx.ob('noop', r.value is P('x'), r.fn.loc(), 'returns %s' % show(r.value))
  # the layer form
  I, J = ctx.interp(), ctx.interp()
  o, init = make(I, ctx.prog, 'QuantizeLayer', {'quantizer': P('quantizer')})
  isq = to_guard(T('isinstance', P('quantizer'),
                   T('cls', ctx.prog.cls('Quantizer'))))
  expect_guard(ctx, 'layer.rejects', init.fn.loc(), raises(init), B.And(
      B.Not(isq), B.Not(B.atom(T('isnone', P('quantizer'))))))
  call_m(I, o, 'build', {'input_shape': P('input_shape')})
  r = call_m(I, o, 'call', {'inputs': P('inputs'), 'training': P('training')})
  s = run_spec(J, 'quant', 'quantize_layer', {
      'self': o, 'name': field(I, o, 'name')})
  expect_value(ctx, 'layer.call', r.fn.loc(), r.value, s.value)


def wrapped(ctx, cls, opaque=None):
  """Wrapper built and called: (I, object, build result, call result)."""
  I = ctx.interp(opaque=lambda f: f.name == '__init__' and f.cls is not None
                 and f.cls.name == 'QuantizeAwareActivation')
  o, init = make(I, ctx.prog, cls)
  b = call_m(I, o, 'build', {'input_shape': P('input_shape')})
  r = call_m(I, o, 'call', {'inputs': P('inputs'), 'training': P('training')})
  return I, o, init, b, r


@rule('Q04', 20, 'Every forward pass of the wrapper quantises all weights of '
      'the configuration with their own quantizers and ranges, hands them and '
      'the quantised activations to the layer, runs it and quantises its '
      'output.')
def q04(ctx):
  for cls in ('QuantizeWrapper', 'QuantizeWrapperV2'):
    I, o, init, b, r = wrapped(ctx, cls)
    w = r.fn.loc()
    layer, config = attr(o, 'layer'), P('quantize_config')
    tr = ITE(B.atom(T('isnone', P('training'))), T(
        'call', EXT('keras.backend.learning_phase'), T('args'), T('kw')),
        P('training'))
    J = ctx.interp(opaque=lambda f: f.name == '__init__')
    a = {'self': o, 'config': config, 'layer': layer, 'training': tr,
         'input_shape': P('input_shape')}
    sw = run_spec(J, 'quant', 'wrapper_weights', a)
    sa = run_spec(J, 'quant', 'wrapper_activations', a)
    calls = layer_calls(r, layer)
    ctx.ob(cls + '.runs', calls and implies(TRUE, union(calls)), w,
           'the layer does not run on every path')
    for n, want, what in (('set_quantize_weights', sw, 'weights'),
                          ('set_quantize_activations', sa, 'activations')):
      sets = effects_of(r, n)
      ctx.ob('%s.%s.set' % (cls, what), sets and all(
          any(x.seq < c.seq and implies(c.guard, x.guard) for x in sets)
          for c in calls), w, '%s are not set before the layer runs' % what)
      for e in sets:
        ctx.ob('%s.%s.config' % (cls, what), e.a[0] is attr(config, n) and
               eff_arg(e, 0, 'layer') is layer, e.loc, 'set on %s' % show(
                   eff_arg(e, 0, 'layer')))
        expect_value(ctx, '%s.%s.values' % (cls, what), e.loc, step(unobj(
            I, eff_arg(e, 1, 'quantize_' + what))), step(unobj(
                J, want.value)), e.guard)
    # activations know the mode
    modes = [e for e in r.effects if e.kind in ('store', 'setattr') and
             e.a[0].op == 'obj' and e.a[0].args[0].name ==
             'QuantizeAwareActivation' or e.kind == 'setattr' and
             e.a[1].is_const('training')]
    ctx.ob(cls + '.activations.mode', modes and all(nf(e.a[2]) is nf(
        tr) and e.loops for e in modes) and all(
            e.seq < c.seq for e in modes for c in calls), w,
           'activations are not told whether this is training: %s' % [
               show_eff(eff_key(e)) for e in modes])
    forward_args(ctx, cls, r, calls, tr)
    outs = [e.result for e in calls]
    for e in calls:
      so = run_spec(J, 'quant', 'wrapper_output', dict(a, outputs=e.result))
      u = B.And(e.guard, B.Not(raises(so)))
      expect_value(ctx, cls + '.output', w, r.value, so.value, u)


def step(t):
  """Without the step variable of the activations, which nothing reads."""
  def f(x):
    if x.op == 'kwd':
      return T('kwd', *[y for i in range(0, len(x.args), 2)
                        if x.args[i] != 'step' for y in x.args[i:i + 2]])
    return x
  return rewrite(t, f)


def layer_calls(r, layer):
  return [e for e in r.effects if e.kind == 'call' and
          e.a[0] in (attr(layer, 'call'), layer)]


def forward_args(ctx, key, r, calls, tr):
  w = r.fn.loc()
  ctx.ob(key + '.inputs', all(e.a[1].args and e.a[1].args[0] is P('inputs')
                              for e in calls), w, 'wrong inputs')
  ctx.ob(key + '.kwargs', all(any(x is P('kwargs') for x in subterms(e.a[2]))
                              for e in calls), w, 'arguments are dropped')
  takes = [e for e in calls if eff_kw(e).get('training') is not None]
  ctx.ob(key + '.training', takes and all(
      nf(eff_kw(e)['training']) is nf(tr) for e in takes), w,
         'training is not forwarded')
  acc = FALSE
  for e in calls:
    for a in B.support(gnf(e.guard)):
      if a.op == 'cmp' and a.args[0] == 'in' and a.args[1].is_const(
          'training'):
        acc = B.Or(acc, B.atom(a))
  ctx.ob(key + '.training_when', acc is not FALSE and same_guard(
      union(takes), acc), w, 'training forwarded only when %s' % showg(
          gnf(union(takes))))


# -- configurations -----------------------------------------------------------

MUT = ('setattr', 'store', 'setitem', 'assign')
BITS = {'Default8Bit': {}, 'DefaultNBit': {
    'num_bits_weight': P('num_bits_weight'),
    'num_bits_activation': P('num_bits_activation')}}


def bits(scheme, which):
  return C(8) if scheme == 'Default8Bit' else P('num_bits_' + which)


def quantizer_is(ctx, key, where, I, q, cls, num_bits, under=TRUE, **flags):
  """The object is a quantizer of that class with those parameters."""
  ok = q is not None and q.op == 'obj' and q.args[0] is ctx.prog.cls(cls)
  det = 'quantizer is %s' % (show(q) if q is not None else None)
  if ok:
    got = {k: simplify(field(I, q, k), gnf(under))
           for k in ('num_bits',) + tuple(flags)}
    want = dict(flags, num_bits=num_bits)
    bad = {k: show(got[k]) for k in want if nf(got[k]) is not nf(
        want[k] if isinstance(want[k], Term) else C(want[k]))}
    ok, det = not bad, 'quantizer has %s' % bad
  ctx.ob(key, ok, where, det)


WEIGHTS = dict(symmetric=True, narrow_range=True)
ACTIVATIONS = dict(per_axis=False, symmetric=False, narrow_range=False)


def config(ctx, name, attrs, act_attrs, scheme, out=None, I=None):
  I = I or ctx.interp()
  a = dict(BITS[scheme], weight_attrs=attrs, activation_attrs=act_attrs,
           quantize_output=out or P('quantize_output'))
  o, r = make(I, ctx.prog, name, a)
  return I, o, r


def muts(r):
  return [e for e in r.effects if e.kind in MUT]


@rule('Q05', 40, 'Default configurations pair each attribute with its '
      'quantizer, validate and write back every quantised weight and '
      'activation to the attribute it was read from, and quantise outputs '
      'when asked to.')
def q05(ctx):
  for s in ('Default8Bit', 'DefaultNBit'):
    for suffix, per_axis, wq in (
        ('QuantizeConfig', False, 'LastValueQuantizer'),
        ('ConvQuantizeConfig', True, s + 'ConvWeightsQuantizer'),
        ('ConvTransposeQuantizeConfig', False,
         s + 'ConvTransposeWeightsQuantizer')):
      n = s + suffix
      I, o, _ = config(ctx, n, P('attrs'), P('acts'), s)
      loc = ctx.prog.find_method(o.args[0], '__init__').loc()
      w, a = field(I, o, 'weight_quantizer'), field(I, o, 'activation_quantizer')
      quantizer_is(ctx, n + '.weight_quantizer', loc, I, w, wq,
                   bits(s, 'weight'), per_axis=per_axis, **WEIGHTS)
      quantizer_is(ctx, n + '.activation_quantizer', loc, I, a,
                   'MovingAverageQuantizer', bits(s, 'activation'),
                   **ACTIVATIONS)
      plain_config(ctx, n, I, o, w, a)
    rnn_config(ctx, s)
    activation_config(ctx, s)
    output_config(ctx, s)


def plain_config(ctx, n, I, o, w, a):
  J = ctx.interp()
  for m, attrs, q in (('get_weights_and_quantizers', 'attrs', w),
                      ('get_activations_and_quantizers', 'acts', a)):
    r = call_m(I, o, m, {'layer': P('layer')})
    s = run_spec(J, 'quant', 'config_get', {'attrs': P(attrs),
                                            'quantizer': q})
    expect_value(ctx, '%s.%s' % (n, m), r.fn.loc(), r.value, s.value)
  for m, attrs, kind in (('set_quantize_weights', 'attrs', 'weights'),
                         ('set_quantize_activations', 'acts', 'activations')):
    r = call_m(I, o, m, {'layer': P('layer'),
                         m.replace('set_', ''): P('values')})
    s = run_spec(J, 'quant', 'config_set_' + kind, {
        'attrs': P(attrs), 'values': P('values')})
    expect_guard(ctx, '%s.%s.rejects' % (n, m), r.fn.loc(), raises(r),
                 raises(s))
    expect_effects(ctx, '%s.%s.writes' % (n, m), r.fn.loc(), muts(r), muts(s),
                   B.Not(raises(s)))
  r = call_m(I, o, 'get_output_quantizers', {'layer': P('layer')})
  expect_value(ctx, n + '.get_output_quantizers', r.fn.loc(), r.value, ITE(
      to_guard(P('quantize_output')), T('list', a), T('list')))


def rnn_config(ctx, s):
  n = s + 'QuantizeConfigRNN'
  for cells in (1, 2):
    attrs = T('list', *[T('list', *[C('w%d%d' % (i, j)) for j in range(2)])
                        for i in range(cells)])
    acts = T('list', *[T('list', C('a%d' % i)) for i in range(cells)])
    I, o, _ = config(ctx, n, attrs, acts, s)
    w, a = field(I, o, 'weight_quantizer'), field(I, o, 'activation_quantizer')
    layer = T('inst', EXT(LK + 'RNN'), 0)
    kids = [T('inst', EXT(LK + 'LSTMCell'), 2 + i) for i in range(cells)]
    cell = kids[0]
    if cells > 1:
      cell = T('inst', EXT(LK + 'StackedRNNCells'), 1)
      I.st.heap[('f', cell, 'cells')] = T('list', *kids)
    I.st.heap[('f', layer, 'cell')] = cell
    J = ctx.interp()
    k = '%s.%d' % (n, cells)
    for m, names, q in (('get_weights_and_quantizers', attrs, w),
                        ('get_activations_and_quantizers', acts, a)):
      r = call_m(I, o, m, {'layer': layer})
      t = run_spec(J, 'quant', 'config_get_rnn', {
          'cells': T('list', *kids), 'attrs': names, 'quantizer': q})
      expect_value(ctx, '%s.%s' % (k, m), r.fn.loc(), r.value, t.value)
    for m, names, kind in (('set_quantize_weights', attrs, 'weights'),
                           ('set_quantize_activations', acts, 'activations')):
      r = call_m(I, o, m, {'layer': layer,
                           m.replace('set_', ''): P('values')})
      t = run_spec(J, 'quant', 'config_set_%s_rnn' % kind, {
          'cells': T('list', *kids), 'attrs': names, 'values': P('values')})
      expect_guard(ctx, '%s.%s.rejects' % (k, m), r.fn.loc(), raises(r),
                   raises(t))
      expect_effects(ctx, '%s.%s.writes' % (k, m), r.fn.loc(), muts(r),
                     muts(t), B.Not(raises(t)))


LK = 'keras.layers.'
OUT_8 = ('relu', 'swish', 'gelu', 'relu6')
OUT_N = ('relu', 'swish', 'relu6')
NO_OUT = ('linear', 'softmax', 'sigmoid', 'tanh')


def activation_config(ctx, s):
  n = s + 'ActivationQuantizeConfig'
  for name in OUT_8 + NO_OUT + ('elu', None):
    I = ctx.interp()
    o, _ = make(I, ctx.prog, n, BITS[s], defaults=True)
    layer = T('inst', EXT(LK + 'Activation'), 0)
    act = T('inst', EXT('some.Activation'), 1)
    I.st.heap[('f', layer, 'activation')] = act
    if name is not None:
      I.st.heap[('f', act, '__name__')] = C(name)
    r = call_m(I, o, 'get_output_quantizers', {'layer': layer})
    key, loc = '%s.%s' % (n, name), r.fn.loc()
    rz = raises(r)
    if name in (OUT_8 if s == 'Default8Bit' else OUT_N):
      v = r.value
      ctx.ob(key, rz is FALSE and v.op == 'list' and len(v.args) == 1, loc,
             'output quantizers are %s' % show(v))
      if v.op == 'list' and len(v.args) == 1:
        quantizer_is(ctx, key + '.quantizer', loc, I, v.args[0],
                     'MovingAverageQuantizer', bits(s, 'activation'),
                     **ACTIVATIONS)
    elif name in NO_OUT:
      ctx.ob(key, rz is FALSE and r.value is T('list'), loc,
             'output quantizers are %s' % show(r.value))
    else:
      ctx.ob(key, same_guard(rz, TRUE) if name else True, loc,
             'unsupported activation is accepted')
    for m in ('get_weights_and_quantizers', 'get_activations_and_quantizers'):
      v = call_m(I, o, m, {'layer': layer})
      ctx.ob('%s.%s' % (key, m), v.value is T('list') and raises(v) is FALSE,
             v.fn.loc(), 'returns %s' % show(v.value))
  I = ctx.interp()
  o, _ = make(I, ctx.prog, n, BITS[s], defaults=True)
  r = call_m(I, o, 'get_output_quantizers', {
      'layer': T('inst', EXT(LK + 'Dense'), 0)})
  ctx.ob(n + '.other_layers', raises(r) is TRUE, r.fn.loc(),
         'accepts layers other than Activation')


def output_config(ctx, s):
  n = s + 'OutputQuantizeConfig'
  I = ctx.interp()
  a = dict(BITS[s], quantize_output=P('quantize_output'))
  o, _ = make(I, ctx.prog, n, a)
  r = call_m(I, o, 'get_output_quantizers', {'layer': P('layer')})
  for g, v in lift(r.value):
    if implies(g, to_guard(P('quantize_output'))):
      ok = v.op == 'list' and len(v.args) == 1
      ctx.ob(n + '.output', ok, r.fn.loc(), 'output quantizers %s' % show(v))
      if ok:
        quantizer_is(ctx, n + '.quantizer', r.fn.loc(), I, v.args[0],
                     'MovingAverageQuantizer', bits(s, 'activation'), g,
                     **ACTIVATIONS)
    else:
      ctx.ob(n + '.no_output', v is T('list') and B.implies(
          gnf(g), B.Not(to_guard(P('quantize_output')))), r.fn.loc(),
             'output quantizers %s' % show(v))
  for c in (n, 'NoOpQuantizeConfig'):
    for m in ('get_weights_and_quantizers', 'get_activations_and_quantizers',
              'set_quantize_weights', 'set_quantize_activations') + (
                  ('get_output_quantizers',) if c != n else ()):
      for cl in ([ctx.prog.cls(c)] if c == n else noop_classes(ctx, s)):
        I = ctx.interp()
        o = T('obj', cl, 0)
        r = call_m(I, o, m)
        ctx.ob('%s.%s.%s' % (s, c, m), (
            m.startswith('set') or r.value is T('list')) and not muts(r),
               r.fn.loc(), 'does something: %s' % show(r.value))


def noop_classes(ctx, s):
  mod = ('default_8bit_quantize_configs' if s == 'Default8Bit' else
         'default_n_bit_quantize_configs')
  return [ctx.prog.cls('NoOpQuantizeConfig', mod)]


# -- registries ---------------------------------------------------------------

REG = {n: ([], [], True) for n in (
    'ReLU', 'LeakyReLU', 'Concatenate', 'UpSampling2D', 'AveragePooling1D',
    'AveragePooling2D', 'GlobalAveragePooling1D', 'GlobalAveragePooling2D',
    'GlobalAveragePooling3D', 'Add')}
REG.update({n: ([], [], False) for n in (
    'Softmax', 'Cropping1D', 'Cropping2D', 'Cropping3D', 'ZeroPadding1D',
    'ZeroPadding2D', 'ActivityRegularization', 'Dropout', 'Flatten', 'Permute',
    'Reshape', 'SpatialDropout1D', 'SpatialDropout2D', 'SpatialDropout3D',
    'GlobalMaxPooling1D', 'GlobalMaxPooling2D', 'GlobalMaxPooling3D',
    'MaxPooling2D')})
REG['Dense'] = (['kernel'], ['activation'], False)
CONV = {'Conv2D': 'kernel', 'DepthwiseConv2D': 'depthwise_kernel'}


def strs(l):
  return T('list', *[C(x) for x in l])


@rule('Q06', 100, 'The registries support exactly the listed layer types and '
      'give each the configuration with its weights, activations, output '
      'flag, granularity and number of bits.')
def q06(ctx):
  for s in ('Default8Bit', 'DefaultNBit'):
    for dis in (False, True):
      I = ctx.interp()
      o, init = make(I, ctx.prog, s + 'QuantizeRegistry', dict(
          BITS[s], disable_per_axis=C(dis)))
      loc = ctx.prog.find_method(o.args[0], 'get_quantize_config').loc()

      def check(n, layer, cls, w, a, out, key=None):
        k = '%s.%s.%s' % (s, 'per_tensor' if dis else 'per_axis', key or n)
        v = call_m(I, o, 'supports', {'layer': layer})
        ctx.ob(k + '.supported', to_guard(v.value) is TRUE, v.fn.loc(),
               '%s is not supported' % n)
        r = call_m(I, o, 'get_quantize_config', {'layer': layer})
        c = r.value
        ctx.ob(k + '.class', raises(r) is FALSE and c.op == 'obj' and
               c.args[0].name == s + cls, loc, 'configuration is %s' % show(c))
        if c.op != 'obj' or c.args[0].name != s + cls:
          return
        if s == 'DefaultNBit':
          got = {x: field(I, c, '_num_bits_' + x)
                 for x in ('weight', 'activation')}
          ctx.ob(k + '.bits', all(got[x] is P('num_bits_' + x) for x in got),
                 loc, 'numbers of bits are %s' % {
                     x: show(got[x]) for x in got})
        if w is None:
          return
        got = [field(I, c, x) for x in ('weight_attrs', 'activation_attrs',
                                        'quantize_output')]
        ctx.ob(k + '.attributes', got == [w, a, C(out)], loc,
               'attributes are %s' % [show(x) for x in got])

      for n, (w, a, out) in sorted(REG.items()):
        check(n, T('inst', EXT(LK + n), 0), 'QuantizeConfig', strs(w), strs(a),
              out)
      for n, w in sorted(CONV.items()):
        check(n, T('inst', EXT(LK + n), 0), 'QuantizeConfig' if dis else
              'ConvQuantizeConfig', strs([w]), strs(['activation']), False)
      check('Conv2DTranspose', T('inst', EXT(LK + 'Conv2DTranspose'), 0),
            'ConvTransposeQuantizeConfig', strs(['kernel']),
            strs(['activation']), False)
      check('Activation', T('inst', EXT(LK + 'Activation'), 0),
            'ActivationQuantizeConfig', None, None, None)
      # a recurrent layer is supported when all its cells are
      for cells, ok in ((['Dense'], True), (['Dense', 'Dense'], True),
                        (['LSTMCell'], False), (['Dense', 'GRUCell'], False)):
        layer = T('inst', EXT(LK + 'RNN'), 0)
        kids = [T('inst', EXT(LK + n), 2 + i) for i, n in enumerate(cells)]
        cell = kids[0]
        if len(kids) > 1:
          cell = T('inst', EXT(LK + 'StackedRNNCells'), 1)
          I.st.heap[('f', cell, 'cells')] = T('list', *kids)
        I.st.heap[('f', layer, 'cell')] = cell
        key = 'RNN.' + '.'.join(cells)
        if ok:
          check('RNN', layer, 'QuantizeConfigRNN', T(
              'list', *[strs(['kernel'])] * len(cells)), T(
                  'list', *[strs(['activation'])] * len(cells)), False, key)
        else:
          refuse(ctx, I, o, layer, '%s.%s.%s' % (s, dis, key))
      for n in ('Embedding', 'Conv1D', 'Conv3D', 'BatchNormalization',
                'Lambda', 'SeparableConv2D', 'LSTMCell', 'SomeUnknownLayer',
                'PReLU', 'Masking', 'MultiHeadAttention'):
        refuse(ctx, I, o, T('inst', EXT(LK + n), 0),
               '%s.%s.%s' % (s, dis, n))
  registries_apart(ctx)


def refuse(ctx, I, o, layer, key):
  v = call_m(I, o, 'supports', {'layer': layer})
  ctx.ob(key + '.unsupported', to_guard(v.value) is FALSE, v.fn.loc(),
         'claims to support it')
  r = call_m(I, o, 'get_quantize_config', {'layer': layer})
  ctx.ob(key + '.rejects', raises(r) is TRUE, r.fn.loc(),
         'returns a configuration')


def registries_apart(ctx):
  """A registry is not affected by another one made later."""
  I = ctx.interp()
  layer = T('inst', EXT(LK + 'Dense'), 0)
  regs = [make(I, ctx.prog, 'DefaultNBitQuantizeRegistry', {
      'disable_per_axis': C(False), 'num_bits_weight': C(b),
      'num_bits_activation': C(b)}, n=i)[0] for i, b in enumerate((4, 8))]
  r = call_m(I, regs[0], 'get_quantize_config', {'layer': layer})
  got = {}
  if r.value.op == 'obj':
    got = {x: field(I, r.value, '_num_bits_' + x)
           for x in ('weight', 'activation')}
  ctx.ob('registries.independent', got and all(
      x.is_const(4) for x in got.values()), r.fn.loc(),
         'a second registry changes the first: %s' % {
             x: show(v) for x, v in got.items()})


# -- entry points -------------------------------------------------------------

QM = 'quantization.keras.quantize'


def made_same(ctx, key, where, I, got, J, want, under=TRUE):
  return expect_value(ctx, key, where, unobj(I, got), unobj(J, want), under)


def clones(r):
  return [e for e in r.effects if e.kind == 'call' and last_name(
      e.a[0]) == 'clone_model']


def entry_opaque(f):
  return ctor_opaque(f) or f.name in ('from_config', 'quantize_scope')


@rule('Q07', 12, 'Annotation rejects what cannot be quantised, keeps Lambda '
      'and annotated layers and annotates each other layer once, with the '
      'configuration of the caller.')
def q07(ctx):
  prog = ctx.prog
  I, J = ctx.interp(opaque=ctor_opaque), ctx.interp(opaque=ctor_opaque)
  f = prog.func(QM, 'quantize_annotate_layer')
  r = I.run(f, args={'to_annotate': P('to_annotate'),
                     'quantize_config': P('quantize_config')})
  s = run_spec(J, 'quant', 'annotate_layer', {
      'to_annotate': P('to_annotate'),
      'quantize_config': P('quantize_config')})
  expect_guard(ctx, 'layer.rejects', f.loc(), raises(r), raises(s))
  made_same(ctx, 'layer.annotates', f.loc(), I, r.value, J, s.value,
            B.Not(raises(s)))
  f = prog.func(QM, 'quantize_annotate_model')
  r = I.run(f)
  s = run_spec(J, 'quant', 'annotate_model', {'to_annotate': P('to_annotate')})
  expect_guard(ctx, 'model.rejects', f.loc(), raises(r), raises(s))
  cl = clones(r)
  ctx.ob('model.clones', len(cl) == 1 and r.value is cl[0].result and
         eff_arg(cl[0], 0, 'model') is P('to_annotate'), f.loc(),
         'returns %s' % show(r.value))
  for e in cl:
    a = apply(I, eff_kw(e).get('clone_function') or eff_arg(e, 2),
              [P('layer')])
    s = run_spec(J, 'quant', 'annotate_clone', {'layer': P('layer')})
    expect_guard(ctx, 'model.layer.rejects', f.loc(), raises(a), raises(s))
    made_same(ctx, 'model.layer.annotates', f.loc(), I, a.value, J, s.value,
              B.Not(raises(s)))
  f = prog.func(QM, 'quantize_model')
  K = ctx.interp(opaque=lambda g: g.name in ('quantize_annotate_model',
                                             'quantize_apply'))
  r = K.run(f)
  s = run_spec(J, 'quant', 'quantize_model', {})
  expect_guard(ctx, 'quantize_model.rejects', f.loc(), raises(r), raises(s))
  ann, app = effects_of(r, 'quantize_annotate_model'), effects_of(
      r, 'quantize_apply')
  p = run_spec(J, 'quant', 'prefix', {})
  ctx.ob('quantize_model.annotates', len(ann) == 1 and eff_arg(
      ann[0], 0, 'to_annotate') is P('to_quantize'), f.loc(),
         'the model is not annotated')
  ctx.ob('quantize_model.applies', len(app) == 1 and len(ann) == 1 and eff_arg(
      app[0], 0, 'model') is ann[0].result and r.value is app[0].result,
         f.loc(), 'returns %s' % show(r.value))
  for e in app:
    expect_value(ctx, 'quantize_model.prefix', f.loc(), eff_arg(
        e, 2, 'quantized_layer_name_prefix') or C('quant_'), p.value)
    ctx.ob('quantize_model.scheme', eff_arg(e, 1, 'scheme') is None or eff_arg(
        e, 1, 'scheme').op == 'obj', f.loc(), 'another scheme')
  # the annotation itself behaves like the layer
  c = prog.cls('QuantizeAnnotate')
  I = ctx.interp()
  o, init = make(I, prog, 'QuantizeAnnotate')
  m = prog.find_method(c, 'call')
  r = call_m(I, o, 'call', {'args': P('args'), 'kwargs': P('kwargs')})
  runs = [e for e in r.effects if e.kind == 'call' and e.a[0] in (
      attr(attr(o, 'layer'), 'call'), attr(o, 'layer'))]
  ctx.ob('annotate.transparent', runs and implies(TRUE, union(runs)), m.loc(),
         'the annotated layer does not run')
  for e in runs:
    ctx.ob('annotate.arguments', all(any(x is P(n) for x in subterms(t))
                                     for n, t in (('args', e.a[1]),
                                                  ('kwargs', e.a[2]))) and
           r.value is e.result, m.loc(), 'arguments or result are lost')


@rule('Q08', 12, 'quantize_apply works on a copy with the weights of the '
      'model, wraps exactly the annotated layers and those feeding them, with '
      'the caller\'s configuration where there is one, and rejects what it '
      'cannot quantise.')
def q08(ctx):
  I, J = ctx.interp(opaque=entry_opaque), ctx.interp(opaque=entry_opaque)
  f = ctx.prog.func(QM, 'quantize_apply')
  w = f.loc()
  r = I.run(f)
  s = run_spec(J, 'quant', 'apply_rejects', {'model': P('model')})
  failed = FALSE  # cloning failed: re-raised with an explanation
  for a in B.support(gnf(raises(r))):
    if a.op == 'raises':
      failed = B.Or(failed, B.atom(a))
  expect_guard(ctx, 'rejects', w, raises(r), raises(s), B.Not(failed))
  cl = clones(r)
  ctx.ob('clones', len(cl) == 3, w, 'the model is cloned %d times' % len(cl))
  copy, bare, final = (cl + [None] * 3)[:3]
  if len(cl) != 3:
    return
  ctx.ob('copy', eff_arg(copy, 0, 'model') is P('model') and not eff_arg(
      copy, 2, 'clone_function'), copy.loc, 'works on %s' % show(
          eff_arg(copy, 0, 'model')))
  sw = [e for e in effects_of(r, 'set_weights') if e.a[0] is attr(
      copy.result, 'set_weights')]
  ctx.ob('copy.weights', sw and all(
      nf(eff_arg(e, 0, 'weights')) is nf(T('call', attr(
          P('model'), 'get_weights'), T('args'), T('kw'))) for e in sw) and
         implies(copy.guard, union(sw)), copy.loc, 'weights are not copied')
  outside = [e for e in r.effects if e.kind in MUT and e.a[0] is P('model')]
  ctx.ob('original', not outside, w, 'the given model is changed: %s' % [
      show_eff(eff_key(e)) for e in outside])
  ctx.ob('unwrap.copy', eff_arg(bare, 0, 'model') is copy.result, bare.loc,
         'unwraps %s' % show(eff_arg(bare, 0, 'model')))
  # what unwrapping records
  c = eff_kw(bare).get('clone_function') or eff_arg(bare, 2)
  u = apply(I, c, [P('wrapped')])
  s = run_spec(J, 'quant', 'unwrap', {'layer': P('wrapped'),
                                      'configs': P('c'), 'outputs': P('o')})
  expect_value(ctx, 'unwrap.layer', bare.loc, u.value, s.value)
  got = [e for e in muts(u) if e.kind == 'setitem']
  want = [e for e in muts(s) if e.kind == 'setitem']
  expect_effects(ctx, 'unwrap.records', bare.loc, [strip0(e) for e in got],
                 [strip0(e) for e in want])
  # transformation
  tr = [e for e in effects_of(r, 'apply')]
  ctx.ob('transforms', len(tr) == 1 and eff_arg(tr[0], 0, 'model') is
         bare.result and tr[0].a[0] is attr(T('call', attr(
             P('scheme'), 'get_layout_transformer'), T('args'), T('kw')),
                                            'apply'), w,
         'the layout transformation of the scheme is not applied')
  if len(tr) != 1:
    return
  out = tr[0].result
  ctx.ob('transforms.used', nf(eff_arg(final, 0, 'model')) is nf(T(
      'sub', out, C(0))), final.loc, 'quantises %s' % show(
          eff_arg(final, 0, 'model')))
  ctx.ob('returns', r.value is final.result, w, 'returns %s' % show(r.value))
  c = eff_kw(final).get('clone_function') or eff_arg(final, 2)
  q = apply(I, c, [P('layer')])
  s = run_spec(J, 'quant', 'quantize_layer_of', {
      'wrapped': P('wrapped'), 'layer': P('layer'),
      'configs': T('sub', out, C(1)), 'registry': T('call', attr(
          P('scheme'), 'get_quantize_registry'), T('args'), T('kw')),
      'name_prefix': run_spec(J, 'quant', 'prefix', {}).value})
  plain = B.Not(to_guard(T('isinstance', P('layer'), T(
      'cls', ctx.prog.cls('QuantizeLayer')))))
  expect_guard(ctx, 'layer.rejects', final.loc, raises(q), raises(s), plain)
  made_same(ctx, 'layer.wraps', final.loc, I, q.value, J, s.value, B.And(
      plain, B.Not(raises(s))))


class strip0(object):
  """An effect without the object it changes."""

  def __init__(self, e):
    self.kind, self.a, self.guard = e.kind, (NONE,) + tuple(e.a[1:]), e.guard
    self.loops, self.loc = e.loops, e.loc
