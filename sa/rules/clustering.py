"""C..: weight clustering."""
from sa.report import rule
from sa.rules._common import *
from sa.rules.pruning import getattrs, path, strip_rule

WRAPPER = 'ClusterWeights'
SUBS = (WRAPPER, 'ClusterWeightsRNN', 'ClusterWeightsMHA')
STATE = ('assign', 'setattr', 'setitem')


def state_effects(r, kinds=STATE):
  return [e for e in r.effects if e.kind in kinds]


def pair(ctx, cls, method, specname, args=None, opaque=None):
  """(object, code result, its interpreter, spec result, its interpreter)."""
  I, J = ctx.interp(opaque=opaque), ctx.interp(opaque=opaque)
  o = T('obj', ctx.prog.cls(cls), 0)
  r = call_m(I, o, method, args)
  s = run_spec(J, 'clustering', specname, dict({'self': o}, **(args or {})))
  return o, I, r, J, s


def layer_forward(ctx, r, layer, training, prefix='forward'):
  """The wrapped layer is called once per path, on the inputs, last."""
  w = r.fn.loc()
  calls = [e for e in r.effects if e.kind == 'call' and
           e.a[0] in (attr(layer, 'call'), layer)]
  ctx.ob(prefix + '.called', calls and implies(TRUE, union(calls)), w,
         'the wrapped layer is not called on every path')
  ctx.ob(prefix + '.inputs', all(
      e.a[1].args and e.a[1].args[0] is P('inputs') for e in calls), w,
         'layer called with %s' % [show(e.a[1], 4) for e in calls])
  ctx.ob(prefix + '.result', all(
      v in [e.result for e in calls] for g, v in cases(r.value)), w,
         'call returns %s' % show(r.value, 5))
  ctx.ob(prefix + '.kwargs', all(
      any(x is P('kwargs') for x in subterms(e.a[2])) for e in calls), w,
         'extra call arguments are dropped')
  takes = [e for e in calls if eff_kw(e).get('training') is not None]
  ctx.ob(prefix + '.training', takes and all(
      same_training(eff_kw(e)['training'], training) for e in takes), w,
         'training is not forwarded')
  accepts = FALSE
  for e in calls:
    for a in B.support(gnf(e.guard)):
      if a.op == 'cmp' and a.args[0] == 'in' and a.args[1].is_const(
          'training'):
        accepts = B.Or(accepts, B.atom(a))
  ctx.ob(prefix + '.training_when', accepts is not FALSE and same_guard(
      union(takes), accepts), w,
         'training is forwarded only when %s' % showg(gnf(union(takes))))
  return calls


def same_training(t, training):
  return same_guard(to_guard(t), to_guard(training)) or nf(t) is nf(training)


@rule('C01', 30, 'In every forward pass the wrapper re-associates every '
      'clusterable weight with the nearest centroids and puts the gathered '
      'centroids into the layer before the layer is called with the caller\'s '
      'inputs and training flag.')
def c01(ctx):
  for cls in SUBS:
    o, I, r, J, s = pair(ctx, cls, 'update_clustered_weights_associations',
                         'update')
    dense = B.Not(to_guard(attr(o, 'preserve_sparsity')))
    expect_effects(ctx, cls + '.update', r.fn.loc(), state_effects(r),
                   state_effects(s), under=dense, ordered=True)
    ctx.ob(cls + '.update.nonempty', state_effects(r), r.fn.loc(), 'no effect')
    # the forward pass
    I = ctx.interp(opaque=lambda f: f.name ==
                   'update_clustered_weights_associations')
    r = call_m(I, o, 'call', {'training': P('training')})
    ups = effects_of(r, 'update_clustered_weights_associations')
    w = r.fn.loc()
    ctx.ob(cls + '.call.updates', ups and implies(TRUE, union(ups)), w,
           'associations are not refreshed on every path')
    ctx.ob(cls + '.call.self', all(e.a[0].args[0] is o for e in ups
                                   if e.a[0].op in ('attr', 'bound')), w, '')
    layer = attr(o, 'layer')
    calls = layer_forward(ctx, r, layer, P('training'), cls + '.call')
    ctx.ob(cls + '.call.order', ups and calls and all(
        any(u.seq < c.seq and implies(c.guard, u.guard) for u in ups)
        for c in calls), w, 'the layer runs before its weights are refreshed')
  # the association and the gather
  alg = 'ClusteringAlgorithm'
  I = ctx.interp()
  o = T('obj', ctx.prog.cls(alg), 0)
  wt, cen = P('weight'), attr(o, 'cluster_centroids')
  r = call_m(I, o, 'get_pulling_indices', {'weight': wt, 'centroids': NONE})
  expect_value(ctx, 'nearest', r.fn.loc(), r.value, run_spec(
      I, 'clustering', 'nearest', {'weight': wt, 'centroids': cen}).value)
  gather(ctx, alg, 'clustered', 'gathered')
  o, I, r, J, s = pair(ctx, alg, 'add_gradient_to_original_weight',
                       'straight_through', None)
  a = {'clustered_weight': P('clustered_weight'),
       'original_weight': P('original_weight')}
  v, g = forward_and_grad(ctx, alg, 'add_gradient_to_original_weight', a)
  if ctx.ob('gathered.shape', v is not None, r.fn.loc(),
            'not a custom gradient pair'):
    expect_value(ctx, 'gathered.forward', r.fn.loc(), v, run_spec(
        J, 'clustering', 'straight_through', a).value)
  registry(ctx)


def forward_and_grad(ctx, cls, method, args):
  """(forward value, apply-gradient function) of a custom_gradient method."""
  I = ctx.interp()
  o = T('obj', ctx.prog.cls(cls), 0)
  f = ctx.prog.find_method(o.args[0], method)
  I2 = ctx.interp()
  r = I2.run(f, self_term=o, args=args)
  if r.raw.op != 'tuple' or len(r.raw.args) != 2:
    return None, None
  fwd, g = r.raw.args
  return I2.freeze(fwd), lambda *a: apply(I2, g, list(a)).value


def gather(ctx, cls, specname, key):
  op = lambda f: f.name in ('average_centroids_gradient_by_cluster_size',
                            'add_gradient_to_original_weight')
  a = {'pulling_indices': P('pulling_indices'),
       'original_weight': P('original_weight')}
  I, J = ctx.interp(opaque=op), ctx.interp(opaque=op)
  o = T('obj', ctx.prog.cls(cls), 0)
  r = call_m(I, o, 'get_clustered_weight', a)
  s = run_spec(J, 'clustering', specname, {
      'self': o, 'indices': P('pulling_indices'),
      'original': P('original_weight')})
  last = B.Not(B.atom(T('cmp', '==', attr(o, 'data_format'),
                        C('channels_first'))))
  under = B.And(B.Not(raises(s)), to_guard(BOOL(last)))
  expect_value(ctx, key + '.value', r.fn.loc(), r.value, s.value, under)
  expect_guard(ctx, key + '.rejects', r.fn.loc(), raises(r), raises(s))


def registry(ctx):
  """get_clusterable_weights names pair up with get/set of that weight."""
  for cls, k in (('ClusterWeights', 'plain'), ('ClusterWeightsRNN', 'rnn'),
                 ('ClusterWeightsMHA', 'attention')):
    o = T('obj', ctx.prog.cls(cls), 0)
    n = P('weight_name')
    a = {'self': o, 'weight_name': n}
    J = ctx.interp()
    holder = run_spec(J, 'clustering', k + '_holder', a)
    plain = run_spec(J, 'clustering', k + '_plain', {'weight_name': n}).value
    got = run_spec(J, 'clustering', k + '_get', a)
    ok = B.Not(raises(holder))
    r = call_m(ctx.interp(), o, 'get_weight_from_layer', {'weight_name': n})
    expect_guard(ctx, k + '.get.rejects', r.fn.loc(), raises(r),
                 raises(holder))
    expect_value(ctx, k + '.get', r.fn.loc(), r.value, got.value, ok)
    r = call_m(ctx.interp(), o, 'set_weight_to_layer', {
        'weight_name': n, 'new_weight': P('new_weight')})
    expect_guard(ctx, k + '.set.rejects', r.fn.loc(), raises(r),
                 raises(holder))
    sets = [e for e in r.effects if e.kind == 'setattr']
    ctx.ob(k + '.set.exists', bool(sets), r.fn.loc(), 'weight is not set')
    for e in sets:
      expect_value(ctx, k + '.set.holder', e.loc, e.a[0], holder.value,
                   e.guard)
      expect_value(ctx, k + '.set.name', e.loc, e.a[1], plain, e.guard)
      ctx.ob(k + '.set.value', e.a[2] is P('new_weight'), e.loc, '')
    expect_guard(ctx, k + '.set.always', r.fn.loc(), union(sets), ok)


@rule('C02', 12, 'With sparsity preservation the mask is taken from the '
      'weights clustered at build time, the smallest centroid is reset to '
      'zero and the original weight is masked before every association.')
def c02(ctx):
  for cls in SUBS:
    o, I, r, J, s = pair(ctx, cls, 'update_clustered_weights_associations',
                         'update')
    sparse = to_guard(attr(o, 'preserve_sparsity'))
    expect_effects(ctx, cls + '.update', r.fn.loc(), state_effects(r),
                   state_effects(s), under=sparse, ordered=True)
  built(ctx, ('sparsity_masks', 'zero_idx'))
  # the zero centroid
  op = lambda f: f.name == '_calculate_centroids_for_interval'
  I, J = ctx.interp(opaque=op), ctx.interp(opaque=op)
  for cls in ('LinearCentroidsInitialisation',
              'DensityBasedCentroidsInitialisation'):
    o = T('obj', ctx.prog.cls(cls), 0)
    I, J = ctx.interp(opaque=op), ctx.interp(opaque=op)
    r = call_m(I, o, 'get_cluster_centroids')
    s = run_spec(J, 'clustering', 'centroids', {'self': o})
    last = B.Not(B.atom(T('cmp', '==', attr(o, 'data_format'),
                          C('channels_first'))))
    expect_value(ctx, cls + '.centroids', r.fn.loc(), r.value, s.value,
                 B.And(to_guard(attr(o, 'preserve_sparsity')), last))


def not_none(t):
  """Centroids of a channel are never None."""
  g = TRUE
  for x in subterms(nf(t)):
    if x.op == 'isnone' and x.args[0].op == 'sub':
      g = B.And(g, B.Not(B.atom(x)))
  return g


def built(ctx, fields, kinds=True):
  """Fields of the wrapper after build equal the reference."""
  op = lambda f: f.name in ('get_cluster_centroids', 'get_pulling_indices',
                            'get_clustered_weight', 'get_centroid_initializer',
                            'get_clustering_impl')
  for cls in SUBS:
    I, J = ctx.interp(opaque=op), ctx.interp(opaque=op)
    o, init = make(I, ctx.prog, cls)
    o2, init2 = make(J, ctx.prog, cls)
    r = call_m(I, o, 'build')
    s = run_spec(J, 'clustering', 'build', {
        'self': o, 'input_shape': P('input_shape')})
    under = B.Not(B.Or(raises(init), B.Or(raises(r), raises(s))))
    for f in fields:
      expect_value(ctx, '%s.build.%s' % (cls, f), r.fn.loc(), unobj(
          I, field(I, o, f)), unobj(J, field(J, o, f)), under)
    if kinds:
      expect_guard(ctx, cls + '.build.rejects', r.fn.loc(), raises(r),
                   raises(s))
  return I, r, s


@rule('C03', 12, 'Stripping refreshes the associations of every clustered '
      'layer and returns a layer of the same configuration whose weights are '
      'the untouched ones plus the clustered ones at their own positions.')
def c03(ctx):
  f = ctx.prog.func('clustering.keras.cluster', 'strip_clustering')
  op = lambda g: g.name in ('update_clustered_weights_associations',
                            'strip_clustering', 'get_weight_from_layer')
  w = f.loc()
  I = ctx.interp(opaque=lambda g: op(g) and g is not f)
  r = I.run(f, args={'model': P('model')})
  ism = to_guard(T('isinstance', P('model'), EXT('keras.Model')))
  expect_guard(ctx, 'rejects', w, raises(r), B.Not(ism))
  clones = effects_of(r, 'clone_model')
  expect_guard(ctx, 'cloned', w, union(clones), ism)
  ctx.ob('returned', all(v in [e.result for e in clones] for g, v in cases(
      r.value, ism)), w, 'returns %s' % show(r.value, 5))
  for e in clones:
    ctx.ob('source', eff_arg(e, 0, 'model') is P('model'), e.loc, '')
    cf = eff_arg(e, 2, 'clone_function')
    if not ctx.ob('clone_function', cf is not None and cf.op in (
        'closure', 'fn', 'bound'), e.loc, 'no clone function'):
      continue
    layer = P('layer')
    got = apply(I, cf, [layer])
    J = ctx.interp(opaque=lambda g: op(g) and g is not f)
    want = run_spec(J, 'clustering', 'unwrap', {'layer': layer})
    islm = to_guard(T('isinstance', layer, EXT('keras.Model')))
    expect_value(ctx, 'layer', e.loc, unobj(I, got.value), unobj(
        J, want.value), B.Not(islm))
    expect_effects(ctx, 'layer.actions', e.loc, restore_calls(got),
                   restore_calls(want), under=B.Not(islm), ordered=True)
    ctx.ob('never_raises', raises(got) is FALSE, e.loc, 'raises when %s' %
           showg(raises(got)))
    nested = effects_of(got, 'clone_model')
    expect_guard(ctx, 'nested', e.loc, union(nested), islm)
    ctx.ob('nested_same', nested and all(
        eff_arg(x, 0, 'model') is layer and eff_arg(
            x, 2, 'clone_function') is cf for x in nested), e.loc,
           'nested models are stripped differently')
  # attention layers are restored in place
  o, I, r, J, s = pair(ctx, 'ClusterWeightsMHA', 'strip_clustering',
                       'strip_attention')
  expect_value(ctx, 'attention.result', r.fn.loc(), r.value, s.value)
  expect_effects(ctx, 'attention.actions', r.fn.loc(), state_effects(r),
                 state_effects(s), ordered=True)
  built(ctx, ('position_original_weights', 'original_clusterable_weights',
              'build_input_shape'), kinds=False)


def restore_calls(r):
  return [e for e in r.effects if e.kind in STATE or (
      e.kind == 'call' and last_name(e.a[0]) in (
          'build', 'set_weights', 'update_clustered_weights_associations',
          'insert', 'strip_clustering'))]


INITS = {'LINEAR': 'LinearCentroidsInitialisation',
         'RANDOM': 'RandomCentroidsInitialisation',
         'DENSITY_BASED': 'DensityBasedCentroidsInitialisation',
         'KMEANS_PLUS_PLUS': 'KmeansPlusPlusCentroidsInitialisation'}
INTERVAL = {'LINEAR': 'linear', 'RANDOM': 'random', 'DENSITY_BASED': 'density',
            'KMEANS_PLUS_PLUS': 'kmeans'}


@rule('C04', 20, 'The requested initialisation selects its own class, whose '
      'centroids for an interval are the reference formula; centroid variables '
      'start at these values with the weight\'s dtype and are trainable.')
def c04(ctx):
  fac = ctx.prog.cls('CentroidsInitializerFactory')
  get = ctx.prog.find_method(fac, 'get_centroid_initializer')
  enum = ctx.prog.cls('CentroidInitialization')
  for n in sorted(INITS):
    I = ctx.interp()
    m = I.get_attr(T('cls', enum), n)
    r = I.run(get, self_term=T('cls', fac), args={'init_method': m})
    ctx.ob('factory.' + n, r.value.op == 'cls' and
           r.value.args[0].name == INITS[n] and raises(r) is FALSE,
           get.loc(), 'initialiser is %s' % show(r.value))
  I = ctx.interp()
  r = I.run(get, self_term=T('cls', fac), args={
      'init_method': C('no such method')})
  ctx.ob('factory.unknown', raises(r) is TRUE, get.loc(),
         'unknown methods are accepted')
  for n in sorted(INITS):
    I, J = ctx.interp(), ctx.interp()
    o = T('obj', ctx.prog.cls(INITS[n]), 0)
    a = {'weight_interval': P('weights'),
         'number_of_clusters_for_interval': P('n')}
    r = call_m(I, o, '_calculate_centroids_for_interval', a)
    sa = {'weights': P('weights'), 'n': P('n')}
    if n == 'DENSITY_BASED':
      sa['self'] = o
    s = run_spec(J, 'clustering', INTERVAL[n], sa)
    expect_value(ctx, 'interval.' + n, r.fn.loc(), mapped(I, r.value),
                 mapped(J, s.value))
    op = lambda f: f.name == '_calculate_centroids_for_interval'
    I, J = ctx.interp(opaque=op), ctx.interp(opaque=op)
    r = call_m(I, o, 'get_cluster_centroids')
    s = run_spec(J, 'clustering', 'centroids', {'self': o})
    plain = B.Not(B.Or(to_guard(attr(o, 'preserve_sparsity')),
                       to_guard(attr(o, 'cluster_per_channel'))))
    expect_value(ctx, 'centroids.' + n, r.fn.loc(), r.value, s.value, plain)
  built(ctx, ('cluster_centroids', 'pulling_indices'))
  op = lambda f: f.name in ('get_cluster_centroids', 'get_pulling_indices',
                            'get_clustered_weight', 'get_centroid_initializer',
                            'get_clustering_impl')
  for cls in SUBS:
    I, J = ctx.interp(opaque=op), ctx.interp(opaque=op)
    o, init = make(I, ctx.prog, cls)
    make(J, ctx.prog, cls)
    r = call_m(I, o, 'build')
    s = run_spec(J, 'clustering', 'build', {
        'self': o, 'input_shape': P('input_shape')})
    under = B.Not(B.Or(raises(init), B.Or(raises(r), raises(s))))
    expect_effects(ctx, cls + '.variables', r.fn.loc(), effects_of(
        r, 'add_weight'), effects_of(s, 'add_weight'), under)


def mapped(I, t):
  """map_fn(f, xs) becomes the value of f at an element of xs."""
  def f(x):
    if is_call(x, 'map_fn') and len(pos(x)) >= 2 and pos(x)[0].op in (
        'closure', 'bound', 'fn'):
      xs = pos(x)[1]
      v = apply(I, pos(x)[0], [T('elem', xs, 0)]).value
      return T('mapped', xs, mapped(I, v))
    return x
  return rewrite(t, f)


@rule('C05', 40, 'cluster_weights and the wrapper constructor reject exactly '
      'the unsupported inputs; every supported layer of a layer, list or '
      'model is wrapped once with the caller\'s parameters; each built-in '
      'layer type clusters exactly its kernels.')
def c05(ctx):
  op = lambda f: f.name in ('supports', 'make_clusterable')
  I, J = ctx.interp(opaque=op), ctx.interp(opaque=op)
  o, init = make(I, ctx.prog, WRAPPER)
  s = run_spec(J, 'clustering', 'wrapper_rejects', {})
  w = init.fn.loc()
  expect_guard(ctx, 'ctor.rejects', w, raises(init), raises(s), integer=(
      P('number_of_clusters'),))
  ok = B.Not(raises(init))
  for n in ('number_of_clusters', 'cluster_centroids_init',
            'preserve_sparsity', 'cluster_gradient_aggregation'):
    expect_value(ctx, 'ctor.' + n, w, field(I, o, n), P(n), ok)
  conv = to_guard(T('isinstance', P('layer'), EXT('keras.layers.Conv2D')))
  expect_value(ctx, 'ctor.per_channel', w, field(I, o, 'cluster_per_channel'),
               ITE(conv, P('cluster_per_channel'), C(False)), ok)
  # the entry points
  prog = ctx.prog
  f = prog.func('clustering.keras.cluster', '_cluster_weights')
  w = f.loc()
  op = lambda g: g.name in ('layer_has_enough_weights_to_cluster',
                            'init_is_supported') or ctor_opaque(g)
  names = ('number_of_clusters', 'cluster_centroids_init',
           'preserve_sparsity', 'cluster_per_channel')
  I, J = ctx.interp(opaque=op), ctx.interp(opaque=op)
  r = I.run(f)
  kd = run_spec(J, 'clustering', 'cluster', {})
  by = {v.val: B.And(g, B.Not(raises(kd))) for g, v in cases(kd.value)}
  spec_args = {n: P(n) for n in names}
  spec_args['kwargs'] = P('kwargs')
  expect_implies(ctx, 'rejects', w, raises(kd), raises(r))
  clones = effects_of(r, 'clone_model')

  def wrapped(key, loc, value, got_raises, layer, under, Iv):
    K = ctx.interp(opaque=op)
    want = run_spec(K, 'clustering', 'wrap', dict(spec_args, layer=layer))
    ism = to_guard(T('isinstance', layer, EXT('keras.Model')))
    expect_guard(ctx, key + '.errors', loc, got_raises, raises(want), under)
    expect_value(ctx, key + '.value', loc, unobj(Iv, value),
                 unobj(K, want.value), B.And(B.And(under, B.Not(ism)), B.Not(
                     raises(want))))
    return ism, raises(want)
  lay = B.And(by['layer'], B.Not(to_guard(T('isinstance', P('to_cluster'),
                                            EXT('keras.Model')))))
  wrapped('layer', w, r.value, raises(r), P('to_cluster'), lay, I)
  el = T('elem', P('to_cluster'), 0)
  v = [x for g, x in cases(simplify_deep(I.freeze(r.value), by['list']),
                           by['list'])]
  okl = len(v) == 1 and v[0].op == 'list' and len(v[0].args) == 1 and v[
      0].args[0].op == 'each' and v[0].args[0].args[0] is P('to_cluster')
  if ctx.ob('list.every_layer', okl, w, 'a list becomes %s' % [
      show(x, 5) for x in v]):
    e = v[0].args[0]
    wrapped('list', w, rewrite(e.args[3], lambda x: x), gnf(e.args[2]) if
            False else loop_raises(r), el, B.And(by['list'], TRUE), I)
    ctx.ob('list.all', implies(by['list'], B.Or(e.args[2], loop_raises(r))), w,
           'elements kept only when %s' % showg(gnf(e.args[2])))
  ctx.ob('model.cloned', same_guard(B.And(union(clones), by['model']),
                                    by['model']), w, 'models are not cloned')
  for e in clones:
    if not implies(e.guard, by['model']):
      continue
    ctx.ob('model.source', eff_arg(e, 0, 'model') is P('to_cluster'), e.loc,
           '')
    cf = eff_arg(e, 2, 'clone_function')
    if not ctx.ob('model.clone_function', cf is not None and cf.op in (
        'closure', 'fn', 'bound'), e.loc, ''):
      continue
    got = apply(I, cf, [P('layer')], under=e.guard)
    ism, rz = wrapped('model.layer', e.loc, got.value, raises(got),
                      P('layer'), e.guard, I)
    nested = effects_of(got, 'clone_model')
    expect_guard(ctx, 'model.nested', e.loc, union(nested), B.And(
        ism, B.Not(rz)), e.guard)
    ctx.ob('model.nested_same', nested and all(
        eff_arg(x, 0, 'model') is P('layer') and eff_arg(
            x, 2, 'clone_function') is cf for x in nested), e.loc, '')
  # the public function forwards everything
  pub = prog.func('clustering.keras.cluster', 'cluster_weights')
  I = ctx.interp(opaque=lambda g: g is f)
  r = I.run(pub)
  calls = effects_of(r, '_cluster_weights')
  if calls:
    b = {n: eff_arg(calls[0], i, n) for i, n in enumerate(
        ('to_cluster', 'number_of_clusters', 'cluster_centroids_init'))}
    ctx.ob('public.forwards', len(calls) == 1 and implies(
        B.Not(raises(r)), calls[0].guard) and all(
            b[n] is P(n) for n in b), pub.loc(), 'arguments become %s' % {
                n: show(x) if x else None for n, x in b.items()})
    per = eff_kw(calls[0])
    ctx.ob('public.kwargs', any(x is P('kwargs') for x in subterms(
        calls[0].a[2])), pub.loc(), 'keyword arguments are dropped')
  # enough weights
  g = prog.func('clustering.keras.cluster', 'layer_has_enough_weights_to_cluster')
  I, J = ctx.interp(), ctx.interp()
  r = I.run(g)
  s = run_spec(J, 'clustering', 'enough', {})
  expect_guard(ctx, 'enough.rejects', g.loc(), raises(r), raises(s))
  expect_bool(ctx, 'enough.value', g.loc(), nocast(r.value), nocast(s.value),
              B.Not(raises(s)))
  layers(ctx)


def nocast(t):
  return rewrite(t, lambda x: pos(x)[0] if is_call(x, 'tf.cast') and pos(x)
                 else x)


def loop_raises(r):
  g = FALSE
  for e in r.raises:
    if e.loops:
      g = B.Or(g, e.guard)
  return g


LK = 'keras.layers.'
CLUSTERABLE = {n: ['kernel'] for n in (
    'Conv1D', 'Conv1DTranspose', 'Conv2D', 'Conv2DTranspose', 'Conv3D',
    'Conv3DTranspose', 'Dense', 'LocallyConnected1D', 'LocallyConnected2D')}
CLUSTERABLE.update({
    'DepthwiseConv2D': [], 'SeparableConv1D': ['pointwise_kernel'],
    'SeparableConv2D': ['pointwise_kernel'], 'Embedding': ['embeddings'],
    'BatchNormalization': [], 'LayerNormalization': [],
    'MultiHeadAttention': ['_query_dense.kernel', '_key_dense.kernel',
                           '_value_dense.kernel', '_output_dense.kernel']})
CELLS = ('GRUCell', 'LSTMCell', 'SimpleRNNCell')


def layers(ctx):
  c = ctx.prog.cls('ClusteringRegistry')
  mk = ctx.prog.find_method(c, 'make_clusterable')
  w = mk.loc()

  def weights(layer, fields=()):
    I = ctx.interp()
    I.st.heap[('f', layer, 'trainable_weights')] = T('list', P('some_weight'))
    for o, n, v in fields:
      I.st.heap[('f', o, n)] = v
    r = I.run(mk, self_term=T('cls', c), args={'layer': layer})
    rz = raises(r)
    if rz is TRUE:
      return rz, None
    fn = I.get_attr(layer, 'get_clusterable_weights')
    if fn.op not in ('closure', 'bound', 'fn'):
      return rz, None
    a = apply(I, fn, [])
    return B.Or(rz, raises(a)), getattrs(a.value)

  def want(pairs):
    return T('list', *[TUP(C(n), v) for n, v in pairs])
  for n in sorted(CLUSTERABLE):
    l = T('inst', EXT(LK + n), 0)
    rz, v = weights(l)
    ctx.ob('registry.' + n, rz is FALSE and v is want(
        [(x, path(l, x)) for x in CLUSTERABLE[n]]), w,
           'clusterable weights of %s are %s' % (
               n, show(v, 8) if v else 'rejected'))
  for n in ('GRU', 'LSTM', 'SimpleRNN', 'RNN'):
    for cn in CELLS:
      l, cell = T('inst', EXT(LK + n), 0), T('inst', EXT(LK + cn), 1)
      rz, v = weights(l, [(l, 'cell', cell)])
      ctx.ob('registry.%s.%s' % (n, cn), rz is FALSE and v is want([
          ('kernel/0', path(cell, 'kernel')),
          ('recurrent_kernel/0', path(cell, 'recurrent_kernel'))]), w,
             'clusterable weights are %s' % (show(v, 8) if v else 'rejected'))
      st = T('inst', EXT(LK + 'StackedRNNCells'), 1)
      kids = [T('inst', EXT(LK + cn), 2), T('inst', EXT(LK + cn), 3)]
      rz, v = weights(l, [(l, 'cell', st), (st, 'cells', T('list', *kids))])
      ctx.ob('registry.%s.stacked.%s' % (n, cn), rz is FALSE and v is want([
          ('%s/%d' % (x, i), path(k, x)) for i, k in enumerate(kids)
          for x in ('kernel', 'recurrent_kernel')]), w,
             'clusterable weights are %s' % (show(v, 8) if v else 'rejected'))
    l = T('inst', EXT(LK + n), 0)
    rz, v = weights(l, [(l, 'cell', T('inst', EXT(LK + 'OtherCell'), 1))])
    ctx.ob('registry.%s.unknown_cell' % n, rz is TRUE, w, 'cell accepted')
  b = T('inst', EXT(LK + 'Bidirectional'), 0)
  fw, bw = T('inst', EXT(LK + 'LSTM'), 1), T('inst', EXT(LK + 'LSTM'), 2)
  cells = [T('inst', EXT(LK + 'LSTMCell'), 3), T('inst', EXT(
      LK + 'LSTMCell'), 4)]
  rz, v = weights(b, [(b, 'forward_layer', fw), (b, 'backward_layer', bw),
                      (fw, 'cell', cells[0]), (bw, 'cell', cells[1])])
  ctx.ob('registry.Bidirectional', rz is FALSE and v is want([
      ('%s/%d' % (x, i), path(k, x)) for i, k in enumerate(cells)
      for x in ('kernel', 'recurrent_kernel')]), w,
         'clusterable weights are %s' % (show(v, 8) if v else 'rejected'))
  rz, v = weights(T('inst', EXT(LK + 'SomeUnknownLayer'), 0))
  ctx.ob('registry.unknown', rz is TRUE, w, 'unknown layer types are accepted')


@rule('C06', 8, 'Per-channel clustering associates, gathers and initialises '
      'each channel of the last axis with its own centroids, and is used '
      'exactly for Conv2D layers that ask for it.')
def c06(ctx):
  alg = 'ClusteringAlgorithmPerChannel'
  I, J = ctx.interp(), ctx.interp()
  o = T('obj', ctx.prog.cls(alg), 0)
  last = B.Not(B.atom(T('cmp', '==', attr(o, 'data_format'),
                        C('channels_first'))))
  r = call_m(I, o, 'get_pulling_indices', {'weight': P('weight')})
  expect_value(ctx, 'nearest', r.fn.loc(), r.value, run_spec(
      J, 'clustering', 'channel_nearest', {
          'weight': P('weight'),
          'centroids': attr(o, 'cluster_centroids')}).value, B.And(
              last, not_none(r.value)))
  gather(ctx, alg, 'channel_clustered', 'gathered')
  for n in sorted(INITS):
    op = lambda f: f.name == '_calculate_centroids_for_interval'
    I, J = ctx.interp(opaque=op), ctx.interp(opaque=op)
    o = T('obj', ctx.prog.cls(INITS[n]), 0)
    r = call_m(I, o, 'get_cluster_centroids')
    s = run_spec(J, 'clustering', 'centroids', {'self': o})
    last = B.Not(B.atom(T('cmp', '==', attr(o, 'data_format'),
                          C('channels_first'))))
    expect_value(ctx, 'centroids.' + n, r.fn.loc(), r.value, s.value, B.And(
        last, to_guard(attr(o, 'cluster_per_channel'))))
  lk = ctx.prog.cls('ClusteringLookupRegistry')
  f = ctx.prog.find_method(lk, 'get_clustering_impl')
  I, J = ctx.interp(), ctx.interp()
  r = I.run(f, self_term=T('cls', lk))
  s = run_spec(J, 'clustering', 'algorithm_for', {})
  expect_value(ctx, 'algorithm', f.loc(), r.value, s.value)
  built(ctx, ('num_channels', 'clustering_algorithms'), kinds=False)


@rule('C07', 8, 'The centroid gradient is the sum, or with averaging the '
      'quotient by the cluster size, over the weights of the cluster; the '
      'original weight receives the upstream gradient unchanged.')
def c07(ctx):
  alg = 'ClusteringAlgorithm'
  J = ctx.interp()
  w = ctx.prog.find_method(ctx.prog.cls(alg),
                           'add_gradient_to_original_weight').loc()
  d = P('upstream')
  v, g = forward_and_grad(ctx, alg, 'add_gradient_to_original_weight', {})
  if ctx.ob('straight_through.pair', g is not None, w, ''):
    expect_value(ctx, 'straight_through.grad', w, g(d), run_spec(
        J, 'clustering', 'straight_through_grad', {'d': d}).value)
  v, g = forward_and_grad(ctx, alg,
                          'average_centroids_gradient_by_cluster_size', {})
  if ctx.ob('average.pair', g is not None, w, ''):
    expect_value(ctx, 'average.forward', w, v, P('cluster_centroids'))
    expect_value(ctx, 'average.grad', w, g(d), run_spec(
        J, 'clustering', 'average_grad', {
            'd': d, 'cluster_sizes': P('cluster_sizes')}).value)
  for m in ('add_gradient_to_original_weight',
            'average_centroids_gradient_by_cluster_size'):
    f = ctx.prog.find_method(ctx.prog.cls(alg), m)
    ctx.ob('custom_gradient.' + m, any('custom_gradient' in str(x)
                                       for x in decorators(f)), f.loc(),
           'the gradient function is not registered')
  gather(ctx, alg, 'clustered', 'tensor')
  gather(ctx, 'ClusteringAlgorithmPerChannel', 'channel_clustered', 'channel')


def decorators(f):
  import ast
  return [ast.unparse(d) for d in f.node.decorator_list]
