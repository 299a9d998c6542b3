"""P..: magnitude pruning."""
from sa.report import rule
from sa.rules._common import *

STEP, BEG, END, FREQ = P('step'), P('begin_step'), P('end_step'), P('frequency')
POLY = ('PolynomialDecay', 'pruning_schedule')
INTS = (STEP, BEG, END, FREQ)
SCHEDULES = [('ConstantSparsity', None, True), POLY + (False,)]


def schedule(I, name, module):
  o, r = make(I, I.prog, name, module=module)
  out = call_m(I, o, '__call__')
  return o, r, out


@rule('P04', 14, 'The pair returned by every built-in pruning schedule is the '
      'reference window/frequency predicate and the reference sparsity '
      'formula, and constructors raise for exactly the invalid parameters.')
def p04(ctx):
  for name, module, forever in SCHEDULES:
    I = ctx.interp()
    o, init, out = schedule(I, name, module)
    w = out.fn.loc()
    pair = out.value
    if not ctx.ob('%s.pair' % name, pair.op == 'tuple' and len(pair.args) == 2,
                  w, 'returns %s' % show(pair)):
      continue
    sp = run_spec(I, 'pruning', 'should_prune', {})
    expect_guard(ctx, '%s.when' % name, w, to_guard(pair.args[0]),
                 to_guard(sp.value), integer=INTS)
    f = 'polynomial' if name == 'PolynomialDecay' else 'constant'
    expect_value(ctx, '%s.sparsity' % name, w, pair.args[1],
                 run_spec(I, 'pruning', f, {}).value)
    # constructor validation
    R = FALSE
    v = run_spec(I, 'pruning', 'validate', {
        'forever_allowed': C(forever)})
    R = raise_guard(v)
    fields = (['target_sparsity'] if forever else
              ['initial_sparsity', 'final_sparsity'])
    for s in fields:
      R = B.Or(R, raise_guard(run_spec(I, 'pruning', 'validate_sparsity',
                                       {'sparsity': P(s)})))
    got = raise_guard(init)
    for s in fields + ['begin_step', 'end_step', 'frequency']:
      expect_value(ctx, '%s.field.%s' % (name, s), init.fn.loc(),
                   field(I, o, s), P(s), B.Not(got))
    expect_guard(ctx, '%s.validate' % name, init.fn.loc(), got, R,
                 integer=INTS)


# -- the wrapper: masks, thresholds, steps -----------------------------------

WRAPPER = 'PruneLowMagnitude'
H, W, M, N = P('block_h'), P('block_w'), P('m'), P('n')
CONFIGS = {
    'element': {'block_size': TUP(C(1), C(1)), 'sparsity_m_by_n': NONE},
    'block': {'block_size': TUP(C(2), C(3)), 'sparsity_m_by_n': NONE},
    'row_block': {'block_size': TUP(C(1), C(4)), 'sparsity_m_by_n': NONE},
    'm_by_n': {'block_size': TUP(C(1), C(1)),
               'sparsity_m_by_n': TUP(C(2), C(4))},
}


class Wrapped(object):
  """PruneLowMagnitude constructed, built and called under a configuration."""

  def __init__(self, ctx, config, training=None, kwargs=None):
    self.I = I = ctx.interp()
    args = dict(CONFIGS[config])
    self.o, self.init = make(I, ctx.prog, WRAPPER, args)
    n0 = len(I.trace)
    self.build = call_m(I, self.o, 'build')
    self.n1 = len(I.trace)
    self.call = call_m(I, self.o, 'call',
                       {'training': training} if training is not None else {})
    self.w = self.call.fn.loc()
    self.schedule = P('pruning_schedule')
    cls = self.o.args[0]
    self.layer = attr(self.o, 'layer')
    t = self.training = P('training') if training is None else training
    lp = ext('keras.backend.learning_phase')
    self.tr = B.ite(to_guard(T('isnone', t)) if t.op != 'const' else (
        TRUE if t.val is None else FALSE), to_guard(lp), to_guard(t))
    self.assigns = [e for e in self.call.effects if e.kind == 'assign']

  def named(self, name):
    return [e for e in self.assigns if weight_name_has(e.a[0], name)]

  def masks(self):
    return self.named('mask')

  def thresholds(self):
    return self.named('threshold')

  def steps(self):
    return self.named('pruning_step')

  def weights(self):
    return [e for e in self.assigns
            if not is_add_weight(strip_elem(e.a[0]))]

  @property
  def step(self):
    vs = {strip_elem(e.a[0]) for e in self.steps()}
    return vs.pop() if len(vs) == 1 else None


def strip_elem(t):
  return t


REPLICA = ext('tf.distribute.get_replica_context')
CONTEXTS = (('replica', True), ('single', False))


def in_context(g, replica):
  return B.restrict(gnf(g), REPLICA, replica)


def loop_iters(e):
  return [nf(l[0]) for l in e.loops if isinstance(l[0], Term)]


def first(effects):
  return min((e.seq for e in effects), default=None)


def last(effects):
  return max((e.seq for e in effects), default=None)


def layer_calls(x):
  return [e for e in x.call.effects if e.kind == 'call' and
          e.a[0] is attr(x.layer, 'call')]


@rule('P01', 40, 'Along every path of the wrapped forward pass, masks and '
      'thresholds are assigned under exactly the condition "training and the '
      'schedule says so at the already incremented step" (m-by-n: step 1), for '
      'every prunable weight, in and out of replica context, before the '
      'weights are masked and the layer is called.')
def p01(ctx):
  for c in CONFIGS:
    x = Wrapped(ctx, c, P('training'))
    w = x.w
    if not ctx.ob(c + '.step', x.step is not None, w,
                  'no unique step counter is assigned'):
      continue
    if c == 'm_by_n':
      cond = to_guard(T('cmp', '==', x.step, C(1)))
    else:
      cond = to_guard(T('sub', T('call', x.schedule, T('args', x.step),
                                 T('kw')), C(0)))
    allowed = gnf(B.And(x.tr, cond))
    rz = raises(x.call)
    targets = [T('call', attr(x.layer, 'get_prunable_weights'), T('args'),
                 T('kw'))]
    for what, es in (('mask', x.masks()), ('threshold', x.thresholds())):
      ctx.ob('%s.%s.exists' % (c, what), es, w, 'never assigned')
      bad = [e for e in es if not implies(e.guard, allowed)]
      ctx.ob('%s.%s.only_when' % (c, what), not bad,
             bad[0].loc if bad else w,
             '%s assigned when %s, schedule allows %s' % (
                 what, showg(gnf(bad[0].guard)) if bad else '',
                 showg(allowed)))
      for name, rc in CONTEXTS:
        G = in_context(B.Or(union(es), rz), rc)
        ctx.ob('%s.%s.whenever.%s' % (c, what, name),
               implies(in_context(allowed, rc), G), w,
               'schedule demands an update when %s but %s is only assigned '
               'when %s' % (showg(allowed), what, showg(G)))
      part = [e for e in es if not any(i in targets for i in loop_iters(e))]
      ctx.ob('%s.%s.all_weights' % (c, what), not part,
             part[0].loc if part else w,
             'not assigned for every prunable weight')
    if x.steps() and x.masks():
      ctx.ob(c + '.order.step_first', last(x.steps()) < first(
          x.masks() + x.thresholds()), w,
             'masks are updated before the step counter')
      ctx.ob(c + '.order.masks_before_weights', x.weights() and last(
          x.masks() + x.thresholds()) < first(x.weights()), w,
             'weights are masked before the masks are updated')
    ctx.ob(c + '.order.weights_before_forward', x.weights() and layer_calls(
        x) and last(x.weights()) < first(layer_calls(x)), w,
           'the wrapped layer runs before its weights are masked')


@rule('P02', 16, 'Every forward pass assigns weight * its own mask to every '
      'prunable weight before the wrapped layer runs, in training and '
      'inference; the epoch-end callback repeats it for every pruned layer of '
      'the model, nested models included.')
def p02(ctx):
  x = Wrapped(ctx, 'element', P('training'))
  w = x.w
  weights = T('call', attr(x.layer, 'get_prunable_weights'), T('args'),
              T('kw'))
  masks = {e.a[0] for e in x.masks()}
  ctx.ob('mask_variable', len(masks) == 1, w, '%d mask variables' % len(masks))
  if len(masks) != 1:
    return
  mask = masks.pop()
  we = T('elem', weights, 0)
  product = mul(we, mask)
  single = [e for e in x.weights() if nf(e.a[0]) is nf(we)]
  g = union(single)
  ctx.ob('single.always', B.restrict(gnf(g), REPLICA, False) is TRUE, w,
         'weights are masked only when %s' % showg(gnf(g)))
  for e in single:
    expect_value(ctx, 'single.value', e.loc, e.a[1], product, e.guard)
    ctx.ob('single.every_weight', nf(weights) in loop_iters(e), e.loc,
           'not assigned for every prunable weight')
  reduced = [e for e in x.call.effects if e.kind == 'call' and
             e.a[0].op == 'attr' and e.a[0].args[1] in (
                 'batch_reduce_to', 'reduce_to')]
  g = union(reduced)
  ne = B.Or(in_context(g, True), B.Not(to_guard(weights)))
  ctx.ob('replica.always', implies(TRUE, ne), w,
         'weights are reduced only when %s' % showg(gnf(g)))
  for e in reduced:
    lst = eff_arg(e, 1)
    want = T('list', T('each', weights, 0, TRUE, TUP(product, we)))
    expect_value(ctx, 'replica.values', e.loc, lst, want, e.guard)
    op = eff_arg(e, 0)
    ctx.ob('replica.mean', is_ext(op) and op.args[0].endswith('.MEAN'), e.loc,
           'weights aggregated with %s' % show(op))
    red = [s for s in x.weights() if s not in single and
           any(nf(i) is nf(e.result) for i in loop_iters(s))]
    ctx.ob('replica.assigned', red and union(red) is not FALSE and implies(
        in_context(e.guard, True), in_context(union(red), True)), e.loc,
           'reduced masked weights are not written back')
    for s in red:
      ctx.ob('replica.assigned_value', nf(s.a[1]) is nf(
          T('elem', e.result, 0)), s.loc, 'writes back %s' % show(s.a[1], 4))
  forward(ctx, x)
  # The model the user saves: remask at the end of every epoch.
  I = ctx.interp(opaque=lambda f: f.name == 'collect_prunable_layers')
  o, _ = make(I, ctx.prog, 'UpdatePruningStep')
  call_m(I, o, 'on_train_begin')
  r = call_m(I, o, 'on_epoch_end')
  calls = [e for e in r.effects if e.kind == 'call' and e.a[0].op == 'attr' and
           e.a[0].args[1] == 'weight_mask_op']
  w = r.fn.loc()
  ctx.ob('epoch_end.exists', calls, w, 'weights are never re-masked')
  it = {nf(i) for e in calls for i in loop_iters(e)}
  want = collected(ctx, attr(o, 'model'))
  ctx.ob('epoch_end.every_layer', it == {nf(want)}, w,
         'iterates over %s' % [show(i, 5) for i in it])
  el = T('elem', want, 0)
  pruned = to_guard(T('isinstance', el, T('cls', ctx.prog.cls(WRAPPER))))
  ctx.ob('epoch_end.unconditional', implies(pruned, union(calls)), w,
         're-masks only when %s' % showg(gnf(union(calls))))
  ctx.ob('epoch_end.own_op', all(nf(e.a[0].args[0]) is nf(attr(
      el, 'pruning_obj')) for e in calls), w, 're-masks something else')
  x2 = ctx.interp()
  po = x2.st
  collect_rule(ctx)


def collected(ctx, model):
  f = ctx.prog.func('pruning_wrapper', 'collect_prunable_layers')
  return T('call', T('fn', f), T('args', model), T('kw'))


def collect_rule(ctx):
  """collect_prunable_layers finds wrappers at every nesting depth."""
  I = ctx.interp()
  f = ctx.prog.func('pruning_wrapper', 'collect_prunable_layers')
  r = I.run(f, args={f.params()[0]: P('model')})
  w = f.loc()
  layers = attr(P('model'), 'layers')
  el = T('elem', layers, 0)
  own, nested = FALSE, FALSE
  other = []
  for e in r.value.args if r.value.op == 'list' else []:
    if e.op == 'each' and e.args[0] is layers:
      v = e.args[3]
      if v is el:
        own = B.Or(own, e.args[2])
        continue
      if v.op == 'star' and v.args[0].op == 'call' and v.args[0].args[
          0] is T('fn', f) and v.args[0].args[1].args == (el,):
        nested = B.Or(nested, e.args[2])
        continue
    other.append(e)
  cls = T('cls', ctx.prog.cls(WRAPPER))
  isw = to_guard(T('isinstance', el, cls))
  ism = to_guard(T('isinstance', el, EXT('keras.Model')))
  expect_guard(ctx, 'collect.wrappers', w, own, isw)
  expect_implies(ctx, 'collect.nested', w, ism, nested)
  ctx.ob('collect.nothing_else', not other, w, str([show(o, 5)
                                                    for o in other]))


def forward(ctx, x):
  """The output is the wrapped layer applied to the caller's inputs."""
  calls = layer_calls(x)
  w = x.w
  ctx.ob('forward.called', calls and implies(TRUE, union(calls)), w,
         'the wrapped layer is not called on every path')
  bad = [e for e in calls if not (e.a[1].args and e.a[1].args[0] is P(
      'inputs'))]
  ctx.ob('forward.inputs', not bad, w, 'layer called with %s' % [
      show(e.a[1], 4) for e in bad])
  vals = [v for g, v in cases(x.call.value)]
  ctx.ob('forward.result', all(v in [e.result for e in calls] for v in vals),
         w, 'call returns %s' % [show(v, 4) for v in vals])
  for e in calls:
    t = eff_kw(e).get('training')
    if t is not None:
      truthv = to_guard(t)
      expect_guard(ctx, 'forward.training', e.loc, truthv, x.tr)


@rule('P03', 8, 'The mask and threshold written for a weight equal the '
      'reference formula: largest-magnitude elements, pooled blocks, or n-m of '
      'every n, evaluated on that weight and the schedule\'s sparsity.')
def p03(ctx):
  for c in CONFIGS:
    x = Wrapped(ctx, c, P('training'))
    if not ctx.ob(c + '.step', x.step is not None, x.w, 'no step counter'):
      continue
    weights = T('call', attr(x.layer, 'get_prunable_weights'), T('args'),
                T('kw'))
    we = T('elem', weights, 0)
    sparsity = T('sub', T('call', x.schedule, T('args', x.step), T('kw')),
                 C(1))
    I = x.I
    cfg = CONFIGS[c]
    bs, mn = cfg['block_size'].args, cfg['sparsity_m_by_n'].args
    if c == 'element':
      r = run_spec(I, 'pruning', 'element_mask', {
          'weights': we, 'sparsity': sparsity})
    elif c == 'm_by_n':
      r = run_spec(I, 'pruning', 'm_by_n_mask', {
          'weights': we, 'm': mn[0], 'n': mn[1]})
    else:
      r = run_spec(I, 'pruning', 'block_mask', {
          'weights': we, 'sparsity': sparsity, 'block_height': bs[0],
          'block_width': bs[1], 'pooling_type': P('block_pooling_type')})
    rz = raises(x.call)
    for i, es in ((1, x.masks()), (0, x.thresholds())):
      if c == 'm_by_n':
        if i == 0:
          continue
        want = r.value
      else:
        want = r.value.args[i]
      for e in es:
        expect_value(ctx, '%s.%s@%s' % (c, ('threshold', 'mask')[i],
                                        'replica' if REPLICA in B.support(
                                            e.guard) else ''),
                     e.loc, e.a[1], want, B.And(e.guard, B.Not(rz)))


@rule('P05', 12, 'The step counter starts at -1, is set to 0 for every pruned '
      'layer when training begins on a fresh model, is incremented by exactly '
      'one per training forward pass and never otherwise, and a training pass '
      'with a counter below 1 fails before any mask is touched.')
def p05(ctx):
  x = Wrapped(ctx, 'element', P('training'))
  w = x.w
  if not ctx.ob('counter', x.step is not None, w, 'no step counter'):
    return
  init = arg(x.step, None, 'initializer')
  ctx.ob('initial', init is not None and init.op == 'call' and call_name(
      init).endswith('Constant') and same(arg(init, 0, 'value'), C(-1)),
         x.build.fn.loc(), 'counter initialised with %s' % (
             show(init) if init is not None else None))
  tr = arg(x.step, None, 'trainable')
  ctx.ob('not_trainable', tr is not None and tr.is_const(False),
         x.build.fn.loc(), 'counter is trainable')
  expect_guard(ctx, 'increment.when', w, union(x.steps()), x.tr)
  for i, e in enumerate(x.steps()):
    expect_value(ctx, 'increment.by_one', e.loc, e.a[1], add(x.step, C(1)),
                 e.guard)
    ctx.ob('increment.once', not e.loops, e.loc, 'incremented in a loop')
    for f in x.steps()[:i]:
      ctx.ob('increment.exclusive', B.And(gnf(e.guard), gnf(
          f.guard)) is FALSE, e.loc, 'incremented twice in one pass')
  # the guard against a missing callback
  checks = [e for e in x.call.effects if e.kind == 'call' and
            e.a[0].op == 'ext' and e.a[0].args[0].startswith(
                'tf.debugging.assert')]
  good = [e for e in checks if positive_assert(e, x.step)]
  checked = union(good)
  expect_implies(ctx, 'assert.when', w, x.tr, checked)
  fs = first(x.masks() + x.thresholds())
  ctx.ob('assert.before_masks', good and fs is not None and last(good) and all(
      any(g.seq < m.seq and implies(m.guard, g.guard) for g in good)
      for m in x.masks() + x.thresholds()), w,
         'masks are updated before the counter is checked')
  ctx.ob('assert.after_increment', good and x.steps() and all(
      any(s.seq < g.seq and implies(g.guard, s.guard) for s in x.steps())
      for g in good), w, 'counter is checked before it is incremented')
  # callback
  I = ctx.interp(opaque=lambda f: f.name == 'collect_prunable_layers')
  o, _ = make(I, ctx.prog, 'UpdatePruningStep')
  r = call_m(I, o, 'on_train_begin')
  w = r.fn.loc()
  lst = collected(ctx, attr(o, 'model'))
  el = T('elem', lst, 0)
  sets = [e for e in r.effects if e.kind == 'assign']
  ctx.ob('begin.exists', sets, w, 'counters are never reset')
  ctx.ob('begin.every_layer', sets and all(
      nf(lst) in loop_iters(e) and nf(e.a[0]) is nf(attr(el, 'pruning_step'))
      for e in sets), w, 'resets %s' % [show(e.a[0], 5) for e in sets])
  ctx.ob('begin.zero', sets and all(same(e.a[1], C(0)) for e in sets), w,
         'resets to %s' % [show(e.a[1], 5) for e in sets])
  # every restored layer keeps its counter, every fresh one (-1) is reset
  fresh_el = to_guard(T('cmp', '==', attr(el, 'pruning_step'), C(-1)))
  g = visiting(union(sets), lst)
  expect_guard(ctx, 'begin.when', w, g, fresh_el)
  collect_rule(ctx)


def positive_assert(e, step):
  """e checks step >= 1 at run time."""
  n = e.a[0].args[0].split('.')[-1]
  p = list(e.a[1].args)
  k = eff_kw(e)
  a = p[0] if p else k.get('x')
  b = p[1] if len(p) > 1 else k.get('y')
  if n == 'assert_greater_equal':
    g = B.Not(to_guard(T('cmp', '<', nf(a), nf(b))))
  elif n == 'assert_greater':
    g = to_guard(T('cmp', '<', nf(b), nf(a)))
  elif n == 'assert_less_equal':
    g = B.Not(to_guard(T('cmp', '<', nf(b), nf(a))))
  elif n == 'assert_less':
    g = to_guard(T('cmp', '<', nf(a), nf(b)))
  elif n == 'assert_positive':
    g = to_guard(T('cmp', '<', C(0), nf(a)))
  elif n == 'Assert' or n == 'assert_true':
    g = to_guard(nf(a))
  else:
    return False
  want = B.Not(to_guard(T('cmp', '<', step, C(1))))
  return same_guard(g, want, integer=(nf(step),))


LK = 'keras.layers.'
KERNEL = ['kernel']
# Built-in layers: the weights magnitude pruning may zero (never a bias).
PRUNABLE = {n: KERNEL for n in (
    'Conv1D', 'Conv2D', 'Conv2DTranspose', 'Conv3D', 'Conv3DTranspose',
    'Dense', 'LocallyConnected1D', 'LocallyConnected2D')}
PRUNABLE.update({
    'SeparableConv1D': ['pointwise_kernel'],
    'SeparableConv2D': ['pointwise_kernel'], 'Embedding': ['embeddings'],
    'MultiHeadAttention': ['_query_dense.kernel', '_key_dense.kernel',
                           '_value_dense.kernel', '_output_dense.kernel']})
PRUNABLE.update({n: [] for n in (
    'ELU', 'LeakyReLU', 'ReLU', 'Softmax', 'ThresholdedReLU', 'Cropping1D',
    'Cropping2D', 'Cropping3D', 'DepthwiseConv2D', 'UpSampling1D',
    'UpSampling2D', 'UpSampling3D', 'ZeroPadding1D', 'ZeroPadding2D',
    'ZeroPadding3D', 'Activation', 'ActivityRegularization', 'Dropout',
    'Flatten', 'Lambda', 'Masking', 'Permute', 'RepeatVector', 'Reshape',
    'SpatialDropout1D', 'SpatialDropout2D', 'SpatialDropout3D', 'Add',
    'Average', 'Concatenate', 'Dot', 'Maximum', 'Minimum', 'Multiply',
    'Subtract', 'AlphaDropout', 'GaussianDropout', 'GaussianNoise',
    'BatchNormalization', 'LayerNormalization', 'AveragePooling1D',
    'AveragePooling2D', 'AveragePooling3D', 'GlobalAveragePooling1D',
    'GlobalAveragePooling2D', 'GlobalAveragePooling3D', 'GlobalMaxPooling1D',
    'GlobalMaxPooling2D', 'GlobalMaxPooling3D', 'MaxPooling1D',
    'MaxPooling2D', 'MaxPooling3D')})
CELLS = {'GRUCell': ['kernel', 'recurrent_kernel'],
         'LSTMCell': ['kernel', 'recurrent_kernel'],
         'SimpleRNNCell': ['kernel', 'recurrent_kernel']}
RNNS = ('GRU', 'LSTM', 'RNN', 'SimpleRNN')


def path(t, dotted):
  for n in dotted.split('.'):
    t = attr(t, n)
  return t


def getattrs(t):
  """getattr(x, 'a') with constant name is x.a."""
  def f(x):
    if is_call(x, 'builtins.getattr') and len(pos(x)) >= 2 and pos(x)[
        1].op == 'const':
      return path(pos(x)[0], pos(x)[1].val)
    return x
  return rewrite(t, f)


def registry(ctx):
  c = ctx.prog.cls('PruneRegistry')
  mk_ = ctx.prog.find_method(c, 'make_prunable')
  w = mk_.loc()

  def weights(layer, cell=None, cells=None):
    I = ctx.interp()
    if cell is not None:
      I.st.heap[('f', layer, 'cell')] = cell
    if cells is not None:
      I.st.heap[('f', cell, 'cells')] = cells
    r = I.run(mk_, self_term=T('cls', c), args={'layer': layer})
    rz = raises(r)
    if rz is TRUE:
      return rz, None
    fn = I.get_attr(layer, 'get_prunable_weights')
    out = None
    if fn.op in ('closure', 'bound', 'fn'):
      out = getattrs(apply(I, fn, []).value)
    return rz, out

  for n in sorted(PRUNABLE):
    l = T('inst', EXT(LK + n), 0)
    rz, v = weights(l)
    want = T('list', *[path(l, x) for x in PRUNABLE[n]])
    ctx.ob('registry.' + n, rz is FALSE and v is want, w,
           'prunable weights of %s are %s' % (n, show(v) if v else 'rejected'))
  for n in RNNS:
    for cn in sorted(CELLS):
      l, cell = T('inst', EXT(LK + n), 0), T('inst', EXT(LK + cn), 1)
      rz, v = weights(l, cell)
      want = T('list', *[path(cell, x) for x in CELLS[cn]])
      ctx.ob('registry.%s.%s' % (n, cn), rz is FALSE and v is want, w,
             'prunable weights are %s' % (show(v) if v else 'rejected'))
    l = T('inst', EXT(LK + n), 0)
    rz, v = weights(l, T('inst', EXT(LK + 'UnknownCell'), 1))
    ctx.ob('registry.%s.unknown_cell' % n, rz is TRUE, w, 'cell accepted')
    # stacked cells: every cell contributes
    for cn in sorted(CELLS):
      st = T('inst', EXT(LK + 'StackedRNNCells'), 1)
      kids = [T('inst', EXT(LK + cn), 2), T('inst', EXT(LK + cn), 3)]
      rz, v = weights(l, st, T('list', *kids))
      want = T('list', *[path(k, x) for k in kids for x in CELLS[cn]])
      ctx.ob('registry.%s.stacked.%s' % (n, cn), rz is FALSE and v is want, w,
             'stacked cells contribute %s' % (show(v) if v else 'rejected'))
  rz, v = weights(T('inst', EXT(LK + 'SomeUnknownLayer'), 0))
  ctx.ob('registry.unknown', rz is TRUE, w, 'unknown layer types are accepted')


@rule('P06', 100, 'Constructors and prune_low_magnitude reject exactly the '
      'unsupported inputs, wrap every other layer exactly once with the '
      'caller\'s parameters, and the registry maps each built-in layer type to '
      'exactly its kernels.')
def p06(ctx):
  registry(ctx)
  # constructor
  I = ctx.interp(opaque=lambda f: f.name == 'supports')
  o, init = make(I, ctx.prog, WRAPPER, {'sparsity_m_by_n': NONE})
  rej = run_spec(ctx.interp(opaque=lambda f: f.name == 'supports'), 'pruning',
                 'wrapper_rejects', {})
  expect_guard(ctx, 'ctor.rejects', init.fn.loc(), raises(init), raises(rej))
  ctx.ob('ctor.error', all(e.a[0].op == 'call' and is_ext(
      e.a[0].args[0], 'builtins.ValueError') for e in init.raises),
         init.fn.loc(), 'rejects with another exception type')
  for n in ('pruning_schedule', 'block_size', 'block_pooling_type'):
    expect_value(ctx, 'ctor.%s' % n, init.fn.loc(), field(I, o, n), P(n),
                 B.Not(raises(init)))
  # prune_low_magnitude
  f = ctx.prog.func('prune', 'prune_low_magnitude')
  w = f.loc()
  I = ctx.interp(opaque=ctor_opaque)
  r = I.run(f)
  spec_args = {n: P(n) for n in (
      'to_prune', 'pruning_schedule', 'block_size', 'block_pooling_type',
      'sparsity_m_by_n')}
  kd = run_spec(I, 'pruning', 'kind', {'to_prune': P('to_prune')}).value
  by = {v.val: g for g, v in cases(kd)}
  lst = run_spec(I, 'pruning', 'wrap_list', spec_args)
  expect_value(ctx, 'list', w, unobj(I, r.value), unobj(I, lst.value),
               by['list'])
  rz = raises(r)
  expect_guard(ctx, 'errors.only', w, B.And(rz, B.Or(by['list'], by[
      'layer'])), FALSE)
  expect_implies(ctx, 'errors.unsupported', w, by['error'], rz)
  v = unobj(I, r.value)
  one = [x for g, x in cases(simplify_deep(v, by['layer']), by['layer'])]
  ok = len(one) == 1 and made(one[0], WRAPPER)
  if ctx.ob('layer.wrapped', ok, w, 'a layer becomes %s' % [
      show(x, 4) for x in one]):
    k = made_kw(one[0])
    ctx.ob('layer.layer', k.get('layer') is P('to_prune'), w, '')
    for n in ('pruning_schedule', 'block_size', 'block_pooling_type',
              'sparsity_m_by_n'):
      ctx.ob('layer.' + n, k.get(n) is P(n), w, '%s becomes %s' % (
          n, show(k[n]) if n in k else 'the default'))
    ctx.ob('layer.kwargs', k.get('**') is P('kwargs'), w,
           'extra keyword arguments are not passed on')
  # whole models are cloned with a wrapping clone function
  clones = effects_of(r, 'clone_model')
  graph = to_guard(attr(P('to_prune'), '_is_graph_network'))
  ctx.ob('model.cloned', clones and implies(
      B.And(by['model'], B.Not(rz)), union(clones)), w, 'models are not cloned')
  pol = P('pruning_policy')
  ens = effects_of(r, 'ensure_model_supports_pruning')
  expect_implies(ctx, 'model.policy_checked', w,
                 B.And(by['model'], to_guard(pol)), union(ens))
  ctx.ob('model.policy_model', ens and all(
      eff_arg(e, 0, 'model') is P('to_prune') for e in ens), w, '')
  for e in clones:
    if not implies(e.guard, by['model']):
      continue
    ctx.ob('model.source', eff_arg(e, 0, 'model') is P('to_prune'), e.loc, '')
    cf = eff_arg(e, 2, 'clone_function')
    if not ctx.ob('model.clone_function', cf is not None and cf.op in (
        'closure', 'fn', 'bound'), e.loc, 'no clone function'):
      continue
    layer = P('layer')
    got = apply(I, cf, [layer], under=e.guard)
    wi = ctx.interp(opaque=ctor_opaque)
    want = run_spec(wi, 'pruning', 'wrap_layer', dict(
        spec_args, layer=layer, pruning_policy=pol))
    ism = to_guard(T('isinstance', layer, EXT('keras.Model')))
    expect_guard(ctx, 'model.nested_errors', e.loc, raises(got),
                 raises(want), e.guard)
    expect_value(ctx, 'model.layer', e.loc, unobj(I, got.value),
                 unobj(wi, want.value), B.And(e.guard, B.Not(ism)))
    nested = effects_of(got, 'clone_model')
    expect_guard(ctx, 'model.nested_cloned', e.loc, union(nested),
                 B.And(ism, B.Not(raises(want))), e.guard)
    ctx.ob('model.nested_same', nested and all(
        eff_arg(x, 0, 'model') is layer and eff_arg(
            x, 2, 'clone_function') is cf for x in nested), e.loc,
           'nested models are cloned differently')


POLICY = 'PruneForLatencyOnXNNPack'


@rule('P08', 20, 'The latency policy prunes only 1x1 convolutions, accepts '
      'exactly the layers and models the runtime can run sparsely, and '
      'rejects everything else.')
def p08(ctx):
  c = ctx.prog.cls(POLICY)
  o = T('obj', c, 0)
  lookups = ('_get_producers', '_get_consumers', '_lookup_layers',
             'serialize_activation')
  op = lambda f: f.name in lookups
  layer = P('layer')

  def code(name, inst=None, **kw):
    I = ctx.interp(opaque=op)
    return I, call_m(I, o, name, dict(kw) or {'layer': inst or layer})

  def want(name, inst=None):
    I = ctx.interp(opaque=op)
    return run_spec(I, 'policy', name, {'self': o, 'layer': inst or layer})

  I, r = code('allow_pruning')
  expect_bool(ctx, 'allow', r.fn.loc(), r.value, want('allow').value)
  I, r = code('_start_layer_stop_fn')
  expect_bool(ctx, 'start', r.fn.loc(), r.value, want('start').value)
  I, r = code('_end_layer_stop_fn')
  expect_bool(ctx, 'end', r.fn.loc(), r.value, want('end').value)
  sup = lambda l: code('_check_layer_support', T('inst', EXT(
      'keras.layers.' + l), 0))[1]
  for n in ('Add', 'Multiply', 'ZeroPadding2D', 'ReLU', 'LeakyReLU', 'ELU',
            'Dropout'):
    r = sup(n)
    expect_bool(ctx, 'supported.' + n, r.fn.loc(), r.value, BOOL(TRUE))
  for n in ('Dense', 'Conv1D', 'Conv3D', 'MaxPooling2D',
            'Flatten', 'LSTM', 'Softmax', 'Concatenate', 'UnknownLayer'):
    r = sup(n)
    expect_bool(ctx, 'unsupported.' + n, r.fn.loc(), r.value, BOOL(FALSE))
  for n, s in (('DepthwiseConv2D', 'depthwise'), ('Conv2D', 'conv'),
               ('GlobalAveragePooling2D', 'pooling'),
               ('BatchNormalization', 'batch_norm'),
               ('UpSampling2D', 'upsampling'), ('Activation', 'activation')):
    r = sup(n)
    expect_bool(ctx, 'supported.' + n, r.fn.loc(), r.value, want(s, T(
        'inst', EXT('keras.layers.' + n), 0)).value)
  # a wrapped layer is judged by the layer inside
  I = ctx.interp(opaque=op)
  wrap = T('obj', ctx.prog.cls(WRAPPER), 7)
  I.st.heap[('f', wrap, 'layer')] = T('inst', EXT('keras.layers.Flatten'), 0)
  r = call_m(I, o, '_check_layer_support', {'layer': wrap})
  inner = field(I, wrap, 'layer')
  ctx.ob('wrapped', to_guard(r.value) is FALSE or (
      r.value.op == 'call' and arg(r.value, 0, 'layer') is inner and
      last_name(r.value.args[0]) == '_check_layer_support'), r.fn.loc(),
         'a wrapped unsupported layer gives %s' % show(r.value))
  # the whole model
  op2 = lambda f: f.name in lookups + ('_check_layer_support',)
  I = ctx.interp(opaque=op2)
  r = call_m(I, o, 'ensure_model_supports_pruning', {'model': P('model')})
  w = r.fn.loc()
  si = ctx.interp(opaque=op2)
  s = run_spec(si, 'policy', 'ensure', {'self': o, 'model': P('model')})
  expect_guard(ctx, 'ensure.rejects', w, raises(r), raises(s))
  lk = effects_of(r, '_lookup_layers')
  ctx.ob('ensure.lookups', len(lk) == 3, w, '%d graph searches' % len(lk))
  visit = [e for e in lk if eff_arg(e, 1, 'stop_fn') is not None and eff_arg(
      e, 1, 'stop_fn').op in ('closure', 'fn')]
  if ctx.ob('ensure.between', bool(visit), w,
            'layers between start and end are not checked'):
    e = visit[-1]
    got = apply(I, eff_arg(e, 1, 'stop_fn'), [layer], under=e.guard)
    chk = effects_of(got, '_check_layer_support')
    ok = ctx.ob('ensure.between_checked', len(chk) == 1 and eff_arg(
        chk[0], 0, 'layer') is layer, e.loc, '')
    ends = [t for t in subterms(got.value) if t.op == 'cmp' and
            t.args[0] == 'in' and t.args[1] is layer] or [
                t for t in subterms(nf(BOOL(gnf(raises(got))))) if
                t.op == 'cmp' and t.args[0] == 'in' and t.args[1] is layer]
    if ok and ctx.ob('ensure.ends', bool(ends), e.loc, ''):
      g = to_guard(ends[0])
      expect_guard(ctx, 'ensure.between_rejects', e.loc, raises(got), B.And(
          B.Not(g), B.Not(to_guard(chk[0].result))), e.guard)
      expect_guard(ctx, 'ensure.stops_at_end', e.loc, to_guard(got.value), g,
                   B.And(e.guard, B.Not(raises(got))))


@rule('P07', 8, 'Stripping accepts only Keras models, replaces each pruning '
      'wrapper (at any depth) by the layer it wraps and returns every other '
      'layer as it is.')
def p07(ctx):
  f = ctx.prog.func('prune', 'strip_pruning')
  strip_rule(ctx, f, WRAPPER, 'pruning', 'unwrap')


def strip_rule(ctx, f, wrapper, module, specname, nested_spec=None):
  w = f.loc()
  I = ctx.interp()
  model = f.params()[0]
  r = I.run(f, args={model: P('model')})
  ism = to_guard(T('isinstance', P('model'), EXT('keras.Model')))
  expect_guard(ctx, 'rejects', w, raises(r), B.Not(ism))
  clones = effects_of(r, 'clone_model')
  expect_guard(ctx, 'cloned', w, union(clones), ism)
  ctx.ob('returned', all(v in [e.result for e in clones] for g, v in cases(
      r.value, ism)), w, 'returns %s' % show(r.value, 5))
  for e in clones:
    ctx.ob('source', eff_arg(e, 0, 'model') is P('model'), e.loc, '')
    cf = eff_arg(e, 2, 'clone_function')
    if not ctx.ob('clone_function', cf is not None and cf.op in (
        'closure', 'fn', 'bound'), e.loc, 'no clone function'):
      continue
    layer = P('layer')
    got = apply(I, cf, [layer])
    want = run_spec(I, module, specname, {'layer': layer})
    islm = to_guard(T('isinstance', layer, EXT('keras.Model')))
    expect_value(ctx, 'layer', e.loc, unobj(I, got.value),
                 unobj(I, want.value), B.Not(islm))
    ctx.ob('never_raises', raises(got) is FALSE, e.loc, 'raises when %s' %
           showg(raises(got)))
    nested = effects_of(got, 'clone_model')
    expect_guard(ctx, 'nested', e.loc, union(nested), islm)
    ctx.ob('nested_same', nested and all(
        eff_arg(x, 0, 'model') is layer and eff_arg(
            x, 2, 'clone_function') is cf for x in nested), e.loc,
           'nested models are stripped differently')
    return I, got, e
