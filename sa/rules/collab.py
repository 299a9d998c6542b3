"""L..: collaborative optimization (PQAT, CQAT and PCQAT)."""
from sa.report import rule
from sa.rules._common import *
from sa.rules.quant import muts, state

PARAMS = ('num_bits', 'per_axis', 'symmetric', 'narrow_range')
PRUNE = 'PrunePreserveDefault'
CLUSTER = 'ClusterPreserveDefault'
LK = 'keras.layers.'


READS = ('get_pulling_indices', 'get_clustered_weight', 'LastValueQuantize')


def last_value(f):
  return f.name == 'LastValueQuantize'


def compare(ctx, key, where, r, s, under=TRUE):
  expect_effects(ctx, key + '.updates', where, state(r, READS),
                 state(s, READS), under, ordered=True)
  expect_value(ctx, key + '.value', where, r.value, s.value, under)


MUTATES = ('store', 'setattr', 'assign', 'setitem', 'mut', 'delitem')


def changes(r):
  """Effects on objects other than the local ones of the analysis."""
  return [e for e in r.effects if e.kind in MUTATES and e.a[0].op not in (
      'loc',)]


CONFIGS = {'Conv2D': 'Default8BitConvQuantizeConfig',
           'Dense': 'Default8BitQuantizeConfig'}
ALL = ('Default8BitQuantizeConfig', 'Default8BitConvQuantizeConfig',
       'Default8BitOutputQuantizeConfig')


@rule('L01', 60, 'The preserving registries give exactly Conv2D and Dense '
      'layers with weights a preserving quantizer of the kind of their '
      'configuration and leave the rest alone.')
def l01(ctx):
  for kind, reg, method in (
      (PRUNE, 'PrunePreserveQuantizeRegistry',
       'apply_sparsity_preserve_quantize_config'),
      (CLUSTER, 'ClusterPreserveQuantizeRegistry',
       'apply_cluster_preserve_quantize_config')):
    want = {'Default8BitQuantizeConfig': kind + '8BitWeightsQuantizer',
            'Default8BitConvQuantizeConfig': kind +
            '8BitConvWeightsQuantizer'}
    for r in (reg, 'Default8bit' + reg):
      for n in ('Conv2D', 'Dense', 'DepthwiseConv2D', 'Conv2DTranspose',
                'Embedding'):
        for c in ALL:
          applied(ctx, kind, r, method, n, c, want)
    default(ctx, kind, reg, method)
  for s, reg, a in (
      ('Default8BitPrunePreserveQuantizeScheme',
       'Default8bitPrunePreserveQuantizeRegistry', {}),
      ('Default8BitClusterPreserveQuantizeScheme',
       'Default8bitClusterPreserveQuantizeRegistry',
       {'preserve_sparsity': P('preserve_sparsity')})):
    scheme(ctx, s, reg, a)


def applied(ctx, kind, reg, method, n, c, want):
  I = ctx.interp()
  a = {'preserve_sparsity': P('flag')} if kind == CLUSTER else {}
  o, _ = make(I, ctx.prog, reg, a)
  cfg, _ = make(I, ctx.prog, c, n=1)
  old = {k[2]: v for k, v in I.st.heap.items() if k[0] == 'f' and k[1] is cfg}
  layer = T('inst', EXT(LK + n), 1)
  key = '%s.%s.%s' % (reg, n, c)
  trainable = to_guard(attr(layer, 'trainable_weights'))
  v = call_m(I, o, 'supports', {'layer': layer})
  known = n in CONFIGS or n == 'DepthwiseConv2D'
  expect_guard(ctx, key + '.supports', v.fn.loc(), to_guard(v.value),
               TRUE if known else B.Not(trainable))
  r = call_m(I, o, method, {'layer': layer, 'quantize_config': cfg})
  ok = n == 'DepthwiseConv2D' or CONFIGS.get(n) == c
  expect_guard(ctx, key + '.error', r.fn.loc(), raises(r),
               FALSE if ok else trainable)
  live = FALSE if not known else TRUE if ok else B.Not(trainable)
  if not known or not ok:
    live = B.Not(trainable)
  w = differ(r.value, cfg, live)
  ctx.ob(key + '.config', w is None, r.fn.loc(), explain(w))
  for k in old:
    got = I.get_attr(cfg, k)
    if k != 'weight_quantizer' or n not in CONFIGS:
      ctx.ob('%s.%s' % (key, k), all(
          B.And(g, live) is FALSE or x is old[k] for g, x in lift(got)),
             r.fn.loc(), '%s of the configuration is changed' % k)
      continue
    for g, x in lift(got):
      for t in (trainable, B.Not(trainable)):
        u = B.And(B.And(gnf(g), t), live)
        if u is FALSE:
          continue
        if t is trainable:
          ctx.ob(key + '.preserves', x.op == 'obj' and x.args[0].name ==
                 want[c] and (kind == PRUNE or field(
                     I, x, 'preserve_sparsity') is P('flag')), r.fn.loc(),
                 'weights are quantised by %s' % show(x))
        else:
          ctx.ob(key + '.untouched', x is old[k], r.fn.loc(),
                 'a layer without weights gets %s' % show(x))


def default(ctx, kind, reg, method):
  """The 8-bit registry is applied to the default configuration."""
  I = ctx.interp(opaque=lambda f: f.name == 'get_quantize_config' and
                 f.cls.name == 'Default8BitQuantizeRegistry')
  o, _ = make(I, ctx.prog, 'Default8bit' + reg)
  I.results[o, method] = P('applied')
  r = call_m(I, o, 'get_quantize_config')
  es = effects_of(r, method)
  base = effects_of(r, 'get_quantize_config')
  ctx.ob('Default8bit%s.applied' % reg, len(es) == len(base) == 1 and
         r.value is P('applied') and raises(r) is FALSE and {
             x for x in es[0].a[1].args + es[0].a[2].args[1::2]} == {
                 P('layer'), base[0].result} and any(
                     x is P('layer') for x in base[0].a[1].args +
                     base[0].a[2].args), r.fn.loc(),
         'configuration is %s' % show(r.value))


def scheme(ctx, s, reg, a):
  I = ctx.interp(opaque=ctor_opaque)
  c = ctx.prog.cls(s)
  o = T('obj', c, 0)
  if a:
    I.opaque = lambda f: False
    o, _ = make(I, ctx.prog, s, a)
    I.opaque = ctor_opaque
  r = call_m(I, o, 'get_quantize_registry')
  v = unobj(I, r.value)
  ctx.ob(s + '.registry', made(v, reg) and set(made_kw(v).values()) == set(
      a.values()), r.fn.loc(), 'registry is %s' % show(v))
  ctx.ob(s + '.layout', ctx.prog.find_method(
      c, 'get_layout_transformer') is ctx.prog.method(
          'Default8BitQuantizeScheme', 'get_layout_transformer'), c.loc(),
         'transformations differ from those of the default scheme')


@rule('L03', 8, 'strip_clustering_cqat removes exactly the variables of '
      'cluster preserving training from Conv2D and Dense layers.')
def l03(ctx):
  f = ctx.prog.func('cluster_utils', 'strip_clustering_cqat')
  I = ctx.interp()
  r = I.run(f, args={'to_strip': P('model')})
  isa = lambda t, n: B.atom(T('isinst', t, EXT(n)))
  model = to_guard(nf(I.call(EXT('builtins.isinstance'), [
      P('model'), EXT('keras.Model')], [])))
  seq = to_guard(I.call(EXT('builtins.isinstance'), [
      P('model'), EXT('keras.Sequential')], []))
  lay = to_guard(I.call(EXT('builtins.isinstance'), [
      P('model'), EXT('keras.layers.Layer')], []))
  graph = B.And(model, B.Or(seq, to_guard(attr(P('model'),
                                               '_is_graph_network'))))
  expect_guard(ctx, 'error', f.loc(), raises(r), B.Not(B.Or(model, lay)))
  es = [e for e in effects_of(r, 'clone_model') if e.a[1].args[:1] ==
        (P('model'),) or P('model') in e.a[2].args[1::2]]
  expect_guard(ctx, 'clone.when', f.loc(), union(es), graph)
  for e in es:
    expect_value(ctx, 'clone.value', f.loc(), r.value, e.result, gnf(e.guard))
    kw = dict(zip(e.a[2].args[::2], e.a[2].args[1::2]))
    fn = kw.get('clone_function')
    if not ctx.ob('clone.function', fn is not None, e.loc,
                  'no function is applied to the layers'):
      continue
    J, K = ctx.interp(), ctx.interp()
    a = apply(I, fn, [P('layer')])
    s = run_spec(J, 'collab', 'strip_layer', {'layer': P('layer')})
    isl = B.Not(to_guard(I.call(EXT('builtins.isinstance'), [
        P('layer'), EXT('keras.Model')], [])))
    expect_effects(ctx, 'layer.variables', e.loc, changes(a), changes(s), isl)
    expect_value(ctx, 'layer.value', e.loc, a.value, s.value, isl)
    n = effects_of(a, 'clone_model')
    ctx.ob('nested', len(n) == 1 and same_guard(n[0].guard, B.Not(isl)) and
           P('layer') in n[0].a[1].args + n[0].a[2].args[1::2] and
           fn in n[0].a[2].args[1::2] and differ(
               a.value, n[0].result, B.Not(isl)) is None, e.loc,
           'nested models are not stripped')
  s = run_spec(ctx.interp(), 'collab', 'strip_layer', {'layer': P('model')})
  u = B.And(B.Not(model), lay)
  expect_value(ctx, 'single.value', f.loc(), r.value, s.value, u)
  expect_effects(ctx, 'single.variables', f.loc(), [
      e for e in changes(r) if not e.loops], changes(s), u)


@rule('L02', 20, 'Preserving quantizers mask, re-cluster and quantise as the '
      'reference does.')
def l02(ctx):
  for training in (True, False):
    I, J = ctx.interp(opaque=last_value), ctx.interp(opaque=last_value)
    o, _ = make(I, ctx.prog, PRUNE + 'WeightsQuantizer')
    a = {'inputs': P('inputs'), 'training': C(training),
         'weights': P('weights')}
    par = {p: P(p) for p in PARAMS}
    r = call_m(I, o, '__call__', a)
    s = run_spec(J, 'collab', 'prune_call', dict(a, **par))
    compare(ctx, 'prune.' + ('train' if training else 'eval'), r.fn.loc(), r,
            s)
    I, J = ctx.interp(opaque=last_value), ctx.interp(opaque=last_value)
    o, _ = make(I, ctx.prog, CLUSTER + 'WeightsQuantizer')
    r = call_m(I, o, '__call__', a)
    inside = lambda k: BOOL(B.atom(T('cmp', 'in', C(k), P('weights'))))
    s = run_spec(J, 'collab', 'cluster_call', dict(
        a, sparse=inside('sparsity_mask'),
        clustered=inside('cluster_centroids_tf'), **par))
    compare(ctx, 'cluster.' + ('train' if training else 'eval'), r.fn.loc(), r,
            s)
  build(ctx)
  clusters(ctx)


def entries(d):
  if d.op != 'dict' or any(x.op != 'kv' for x in d.args):
    return None
  return {x.args[0]: x.args[1] for x in d.args}


def build(ctx):
  """build() adds the ranges of the plain quantizer to its own variables."""
  key = lambda e: (e.a[1], e.a[2])
  for kind in (PRUNE, CLUSTER):
    own = '_build_sparsity_mask' if kind == PRUNE else '_build_clusters'
    for c, base in (('8BitWeightsQuantizer', 'LastValueQuantizer'),
                    ('8BitConvWeightsQuantizer',
                     'Default8BitConvWeightsQuantizer')):
      I = ctx.interp(opaque=lambda f: f.name == own)
      a = {'preserve_sparsity': P('preserve_sparsity')} if (
          kind == CLUSTER) else {}
      o, _ = make(I, ctx.prog, kind + c, a)
      J = ctx.interp()
      b, _ = make(J, ctx.prog, base, {
          'num_bits': C(8), 'per_axis': C(False), 'symmetric': C(True),
          'narrow_range': C(True)} if base[0] == 'L' else {})
      for p in PARAMS:
        ctx.ob('%s.%s' % (kind + c, p), field(I, o, p) is field(J, b, p),
               o.args[0].loc(), '%s is %s' % (p, show(field(I, o, p))))
      if kind == CLUSTER:
        ctx.ob(kind + c + '.preserve_sparsity', field(
            I, o, 'preserve_sparsity') is P('preserve_sparsity'),
               o.args[0].loc(), 'the flag is lost')
      mine = I.new_loc(T('dict', T('kv', C('sparsity_mask'), P('mask')), T(
          'kv', C('cluster_centroids_tf'), P('centroids'))))
      I.results[o, own] = mine
      args = {k: P(k) for k in ('tensor_shape', 'name', 'layer')}
      r = call_m(I, o, 'build', args)
      s = call_m(J, b, 'build', args)
      expect_effects(ctx, kind + c + '.ranges', r.fn.loc(), effects_of(
          r, 'add_weight'), effects_of(s, 'add_weight'))
      es = effects_of(r, own)
      ctx.ob(kind + c + '.own', len(es) == 1 and es[0].guard is TRUE and
             all(x in es[0].a[1].args + es[0].a[2].args for x in (
                 P('name'), P('layer'))), r.fn.loc(),
             '%s is not called' % own)
      got, want = entries(r.value), entries(s.value)
      want = dict(want, **{}) if want is not None else {}
      want.update({C('sparsity_mask'): P('mask'),
                   C('cluster_centroids_tf'): P('centroids')})
      ctx.ob(kind + c + '.variables', got is not None and got.keys() ==
             want.keys() and all(differ(got[k], want[k]) is None
                                 for k in want), r.fn.loc(),
             'variables are %s' % show(r.value, 5))
  I = ctx.interp()
  o, _ = make(I, ctx.prog, PRUNE + 'WeightsQuantizer')
  r = call_m(I, o, '_build_sparsity_mask')
  s = run_spec(ctx.interp(), 'collab', 'sparsity_mask', {
      k: P(k) for k in ('name', 'layer')})
  expect_value(ctx, 'prune.mask', r.fn.loc(), r.value, s.value)


def clusters(ctx):
  where = ctx.prog.method(CLUSTER + 'WeightsQuantizer', '_build_clusters').loc()
  op = lambda f: f.name in ('get_centroids', 'get_clustering_impl')
  I, J = ctx.interp(opaque=op), ctx.interp(opaque=op)
  o, _ = make(I, ctx.prog, CLUSTER + 'WeightsQuantizer')
  r = call_m(I, o, '_build_clusters')
  s = run_spec(J, 'collab', 'build_clusters', {
      k: P(k) for k in ('name', 'layer', 'preserve_sparsity')})
  expect_effects(ctx, 'clusters.variables', where, effects_of(
      r, 'add_weight'), effects_of(s, 'add_weight'))
  expect_value(ctx, 'clusters.value', where, r.value, s.value)
  ctx.ob('clusters.state', not [e for e in muts(r) if e.a[0] is o], where,
         'building changes the quantizer, which other layers share')
  f = ctx.prog.func('cluster_preserve_quantize_registry', 'get_centroids')
  for conv in (False, True):
    out = []
    I, J = ctx.interp(), ctx.interp()
    layer = T('inst', EXT(LK + ('Conv2D' if conv else 'Dense')), 1)
    for K in (I, J):
      K.st.heap['f', P('layer'), 'layer'] = layer
      K.st.heap['f', P('weight'), 'shape'] = TUP(
          P('h'), P('w'), P('c'), C(2)) if conv else TUP(P('n'), P('m'))
    r = I.run(f, args={'data_format': C('channels_last') if conv else NONE})
    s = run_spec(J, 'collab', 'per_channel' if conv else 'whole',
                 {'weight': P('weight')})
    expect_value(ctx, 'centroids.' + ('conv' if conv else 'dense'), f.loc(),
                 r.value, s.value)
