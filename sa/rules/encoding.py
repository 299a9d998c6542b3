"""E..: tensor encoding."""
from sa.report import rule
from sa.rules._common import *

# The composition that is analysed: key -> child, by stage number.  Stage 0
# has two further encoded values, one of them over two more levels.
TREE = {0: {'a': 1, 'b': 2}, 1: {'c': 3}, 2: {}, 3: {}}
KEYS = {0: 'abz', 1: 'cy', 2: 'x', 3: 'w'}
STAGE = 'AdaptiveEncodingStageInterface'
PROPS = ('commutes_with_sum', 'decode_needs_input_shape')


def stage(prog, i):
  return T('obj', prog.cls(STAGE), 500 + i)


def key_of(ctx, n):
  I = ctx.interp()
  return I.get_attr(T('cls', ctx.prog.cls('EncoderKeys')), n)


def values(i=0):
  return {k: values(TREE[i][k]) if k in TREE[i] else P('v%d%s' % (i, k))
          for k in KEYS[i]}


def to_term(I, v):
  if isinstance(v, dict):
    return I.new_loc(T('dict', *[T('kv', k if isinstance(k, Term) else C(k),
                                   to_term(I, x)) for k, x in v.items()]))
  return v


def per_node(ctx, *names, i=0):
  """The structures indexed by node, with the given keys at each node."""
  d = {key_of(ctx, n): P('%s%d' % (n.lower(), i)) for n in names}
  d[key_of(ctx, 'CHILDREN')] = {k: per_node(ctx, *names, i=c)
                                for k, c in TREE[i].items()}
  return d


def setup(ctx, flags=(), shaped=()):
  """(engine, encoder, node of the reference)."""
  I = ctx.interp()
  I.unroll = I.recursion = 8
  node, enc = None, {}
  for i in sorted(TREE, reverse=True):
    s = stage(ctx.prog, i)
    kids = to_term(I, {k: enc[c] for k, c in TREE[i].items()})
    enc[i], _ = make(I, ctx.prog, 'Encoder', {'stage': s, 'children': kids},
                     n=100 + i)
    I.results[s, 'encode'] = TUP(to_term(I, {
        k: P('v%d%s' % (i, k)) for k in KEYS[i]}), P('u%d' % i))
    I.st.heap['f', s, PROPS[0]] = C(flags[i]) if flags else P('commute%d' % i)
    I.st.heap['f', s, PROPS[1]] = C(shaped[i]) if shaped else P(
        'shaped%d' % i)
  return I, enc[0]


def reference(ctx, name, args, flags=(), shaped=()):
  I = ctx.interp()
  I.unroll = I.recursion = 8
  node = {}
  for i in sorted(TREE, reverse=True):
    s = stage(ctx.prog, i)
    node[i] = TUP(s, to_term(I, {k: node[c] for k, c in TREE[i].items()}))
    I.results[s, 'encode'] = TUP(to_term(I, {
        k: P('v%d%s' % (i, k)) for k in KEYS[i]}), P('u%d' % i))
    I.st.heap['f', s, PROPS[0]] = C(flags[i]) if flags else P('commute%d' % i)
    I.st.heap['f', s, PROPS[1]] = C(shaped[i]) if shaped else P(
        'shaped%d' % i)
  args = dict({k: to_term(I, v) for k, v in args.items()}, node=node[0])
  return I, run_spec(I, 'encoding', name, args)


def same(ctx, key, where, I, a, J, b, under=TRUE):
  return expect_value(ctx, key, where, I.freeze(a), J.freeze(b), under)


def tensors(I):
  """Every encoded value is a tensor."""
  g = TRUE
  for v in ['x'] + ['v%d%s' % (i, k) for i in KEYS for k in KEYS[i]]:
    g = B.And(g, to_guard(I.call(EXT('tf.is_tensor'), [P(v)], [])))
  return g


STAGE_CALLS = ('encode', 'get_params', 'initial_state', 'update_state',
               'decode')


def stage_calls(r, under):
  """Calls of the stages with their arguments, as terms."""
  out = set()
  for e in r.effects:
    c = e.a[0] if e.kind == 'call' else None
    if isinstance(c, Term) and c.op == 'attr' and c.args[0].op == 'obj' and (
        c.args[0].args[0].name == STAGE and c.args[1] in STAGE_CALLS):
      out.add((nf(T('call', *e.a[:3])), B.And(gnf(e.guard), gnf(under))))
  return out


def methods(ctx, n, m, a, shaped):
  names = {'update': 'state_update_tensors', 'values': 'encoded_tensors',
           'par': m + '_params'}
  I, e = setup(ctx, shaped=shaped)
  r = call_m(I, e, m, {names.get(k, k): to_term(I, v) for k, v in a.items()})
  J, s = reference(ctx, n, a, shaped=shaped)
  where = r.fn.loc()
  u = tensors(ctx.interp()) if m == 'encode' else TRUE
  m += ''.join('01'[x] for x in shaped)
  same(ctx, m + '.value', where, I, r.value, J, s.value, u)
  got, want = stage_calls(r, u), stage_calls(s, u)
  bad = sorted(show(t, 9)[:300] for t, _ in got ^ want)
  ctx.ob(m + '.calls', got == want, where,
         'stages are called differently: %s' % '; '.join(bad[:4]))
  ctx.ob(m + '.error', B.And(raises(r), gnf(u)) is FALSE, where, 'can fail')


@rule('E01', 50, 'Encoder methods call each stage once, with the values of its '
      'own node, and keep the structure of the composition.')
def e01(ctx):
  cases_ = [
      ('initial_state', {}),
      ('get_params', {'state': per_node(ctx, 'STATE')}),
      ('update_state', {'state': per_node(ctx, 'STATE'),
                        'update': per_node(ctx, 'TENSORS')}),
      ('encode', {'x': P('x'), 'par': per_node(ctx, 'PARAMS')}),
      ('decode_all', {'values': values(), 'par': per_node(ctx, 'PARAMS'),
                      'shape': per_node(ctx, 'SHAPE')})]
  for n, a in cases_:
    m = n.split('_all')[0]
    for shaped in flag_sets() if m == 'encode' else [()]:
      methods(ctx, n, m, a, shaped)
  I, e = setup(ctx)
  f = ctx.prog.method('Encoder', 'state_update_aggregation_modes')
  J, s = reference(ctx, 'modes', {})
  same(ctx, 'modes.value', f.loc(), I, I.get_attr(
      e, 'state_update_aggregation_modes'), J, s.value)


def flag_sets():
  n = len(TREE)
  return [tuple(bool(x >> i & 1) for i in range(n)) for x in range(1 << n)]


@rule('E02', 30, 'Decoding before and after the sum compose to decoding, with '
      'the number of summands at the stages after the sum.')
def e02(ctx):
  a = {'values': values(), 'par': per_node(ctx, 'PARAMS'),
       'shape': per_node(ctx, 'SHAPE')}
  for flags in flag_sets():
    key = ''.join('01'[x] for x in flags)
    I, e = setup(ctx, flags)
    b = {'encoded_tensors': to_term(I, a['values']),
         'decode_params': to_term(I, a['par']),
         'shape': to_term(I, a['shape'])}
    r = call_m(I, e, 'decode_before_sum', b)
    J, s = reference(ctx, 'before_sum', a, flags)
    same(ctx, key + '.before', r.fn.loc(), I, r.value, J, s.value)
    q = call_m(I, e, 'decode_after_sum', dict(
        b, encoded_tensors=r.value, num_summands=P('num_summands')))
    J, s = reference(ctx, 'decode_split', dict(a, num=P('num_summands')),
                     flags)
    same(ctx, key + '.after', q.fn.loc(), I, q.value, J, s.value)


@rule('E03', 60, 'The commuting structure marks the stages that commute with '
      'sum up to the root, and values are split along it.')
def e03(ctx):
  f = ctx.prog.method('Encoder', 'commuting_structure')
  g = ctx.prog.method('Encoder', 'fully_commutes_with_sum')
  for flags in flag_sets():
    key = ''.join('01'[x] for x in flags)
    I, e = setup(ctx, flags)
    v = I.get_attr(e, 'commuting_structure')
    J, s = reference(ctx, 'structure', {'above': C(True)}, flags)
    same(ctx, key + '.structure', f.loc(), I, v, J, s.value)
    same(ctx, key + '.again', f.loc(), I, I.get_attr(
        e, 'commuting_structure'), J, s.value)
    expect_bool(ctx, key + '.fully', g.loc(), I.get_attr(
        e, 'fully_commutes_with_sum'), C(all(flags)))
    G = T('obj', ctx.prog.cls('GatherEncoder'), 1)
    for fn, name, k in (
        ('split_params_by_commuting_structure', 'split_params', 'PARAMS'),
        ('split_shapes_by_commuting_structure', 'split_shapes', 'SHAPE')):
      val = per_node(ctx, k)
      if k == 'PARAMS':
        val[key_of(ctx, k)] = {'p': P('p'), 'q': P('q')}
      val[key_of(ctx, 'CHILDREN')]['a'][key_of(ctx, k)] = {'r': P('r')}
      h = ctx.prog.func('core_encoder', fn)
      r = I.run(h, args={k.lower() if k == 'PARAMS' else 'shapes': to_term(
          I, val), 'commuting_structure': v})
      K_ = ctx.interp()
      K_.unroll = K_.recursion = 8
      s = run_spec(K_, 'encoding', name, {
          'value': to_term(K_, val), 'struct': to_term(K_, struct_of(
              ctx, flags))})
      same(ctx, '%s.%s' % (key, name), h.loc(), I, r.value, K_, s.value)


def struct_of(ctx, flags, i=0, above=True):
  here = above and flags[i]
  return {key_of(ctx, 'COMMUTE'): C(here), key_of(ctx, 'CHILDREN'): {
      k: struct_of(ctx, flags, c, here) for k, c in TREE[i].items()}}


# -- composition ---------------------------------------------------------------


def describe(I, v):
  """An encoder as (stage class, its attributes, children); other values as
  they are."""
  if v.op == 'ite':
    g, a, b = v.args
    return ('either', gnf(g), describe(I, a), describe(I, b))
  if v.op != 'obj':
    return nf(I.freeze(v))
  n = v.args[0].name
  if n == 'Encoder':
    kids = I.content(field(I, v, 'children'))
    if kids.op != 'dict' or any(x.op != 'kv' for x in kids.args):
      return ('encoder', 'unknown children', kids)
    return ('encoder', describe(I, field(I, v, 'stage')), {
        x.args[0]: describe(I, x.args[1]) for x in kids.args})
  if n == 'NoneStateAdaptiveEncodingStage':
    return describe(I, field(I, v, '_wrapped_stage'))
  return ('object', n, {k[2]: nf(I.freeze(x)) for k, x in I.st.heap.items()
                        if k[0] == 'f' and k[1] is v})


STAGES = {'identity': ('IdentityEncodingStage', {}, None),
          'flatten': ('FlattenEncodingStage', {}, 'flattened_values'),
          'hadamard': ('HadamardEncodingStage', {}, 'hadamard_values'),
          'uniform': ('UniformQuantizationEncodingStage', {
              'bits': P('bits'), 'min_max': P('min_max')}, 'quantized_values'),
          'uniform_bits': ('UniformQuantizationEncodingStage', {
              'bits': P('bits')}, 'quantized_values'),
          'pack': ('BitpackingEncodingStage', {'input_bits': P('bits')}, None)}


def expected(ctx, names):
  """The chain of the given stages, as described."""
  I = ctx.interp()
  cls, a, _ = STAGES[names[0]]
  o = I.call(T('cls', ctx.prog.cls(cls)), [], sorted(a.items()))
  key = STAGES[names[0]][2]
  return ('encoder', describe(I, o), {C(key): expected(
      ctx, names[1:])} if names[1:] else {})


@rule('E04', 18, 'Composers build the tree of stages that was described.')
def e04(ctx):
  composer(ctx)
  for n, a, names in (
      ('identity', {}, ['identity']),
      ('uniform_quantization', {'bits': P('bits'), 'kwargs': None},
       ['flatten', 'uniform', 'pack']),
      ('hadamard_quantization', {'bits': P('bits')},
       ['flatten', 'hadamard', 'uniform_bits', 'pack'])):
    f = ctx.prog.func('common_encoders', n)
    I = ctx.interp()
    I.unroll = I.recursion = 8
    k = [('min_max', P('min_max'))] if 'kwargs' in a else []
    v = I.call(T('fn', f), [P('bits')] if 'bits' in a else [], k)
    got, want = describe(I, v), expected(ctx, names)
    ctx.ob('common.' + n, got == want, f.loc(), 'builds %r' % (got,))
  for n, cls in (('as_simple_encoder', 'SimpleEncoder'),
                 ('as_gather_encoder', 'GatherEncoder')):
    f = ctx.prog.func('common_encoders', n)
    I = ctx.interp(opaque=lambda f: f.cls is not None and f.cls.name == cls)
    r = I.run(f)
    enc = to_guard(I.call(EXT('builtins.isinstance'), [
        P('encoder'), T('cls', ctx.prog.cls('Encoder'))], []))
    spec_ = to_guard(I.call(EXT('builtins.isinstance'), [
        P('tensorspec'), EXT('tf.TensorSpec')], []))
    u = B.And(enc, spec_)
    expect_guard(ctx, n + '.error', f.loc(), raises(r), B.Not(u))
    if cls == 'SimpleEncoder':
      v = unobj(I, r.value)
      ok = made(v, cls) and made_kw(v) == {'encoder': P('encoder'),
                                           'tensorspec': P('tensorspec')}
    else:
      es = effects_of(r, 'from_encoder')
      ok = len(es) == 1 and same_guard(es[0].guard, u) and differ(
          r.value, es[0].result, u) is None and es[0].a[1].args + tuple(
              es[0].a[2].args[1::2]) == (P('encoder'), P('tensorspec'))
    ctx.ob(n + '.value', ok, f.loc(), 'returns %s' % show(r.value, 6))


def composer(ctx):
  prog = ctx.prog
  iface = [T('cls', prog.cls(n)) for n in ('EncodingStageInterface', STAGE)]
  I = ctx.interp()
  o, r = make(I, prog, 'EncoderComposer', {'stage': P('stage')})
  isa = to_guard(I.call(EXT('builtins.isinstance'), [
      P('stage'), TUP(*iface)], []))
  expect_guard(ctx, 'composer.error', r.fn.loc(), raises(r), B.Not(isa))

  def new(I, s, kids, n):
    o, _ = make(I, prog, 'EncoderComposer', {'stage': s}, n=n)
    return o

  def built(I, o):
    return describe(I, call_m(I, o, 'make').value)

  for m, stages in (('add_child', 0), ('add_parent', 1)):
    I = ctx.interp()
    I.unroll = I.recursion = 8
    s, t = stage(prog, 1), stage(prog, 2)
    for x in (s, t):
      I.st.heap['f', x, 'compressible_tensors_keys'] = P(
          'keys%d' % x.args[1])
    one = new(I, s, {}, 900)
    a = call_m(I, one, m, {'stage': t, 'key': C('k')})
    up, low = (t, s) if m == 'add_parent' else (s, t)
    inside = B.atom(T('cmp', 'in', C('k'), P('keys%d' % up.args[1])))
    expect_guard(ctx, m + '.error', a.fn.loc(), raises(a), B.Not(inside))
    got = built(I, a.value)
    root_ = got if m == 'add_parent' else built(I, one)
    leaf = ('encoder', describe(I, low), {})
    want = ('encoder', describe(I, up), {C('k'): leaf})
    ctx.ob(m + '.tree', root_ == want, a.fn.loc(), 'tree is %r' % (root_,))
    other = built(I, one) if m == 'add_parent' else got
    ctx.ob(m + '.leaf', other == leaf, a.fn.loc(), 'leaf is %r' % (other,))
    if m == 'add_child':
      b = call_m(I, one, m, {'stage': stage(prog, 3), 'key': C('k')})
      ctx.ob('add_child.twice', B.And(inside, B.Not(raises(b))) is FALSE,
             b.fn.loc(), 'a child can be replaced')
      c = call_m(I, one, m, {'stage': stage(prog, 3), 'key': C('l')})
      in2 = B.atom(T('cmp', 'in', C('l'), P('keys501')))
      expect_guard(ctx, 'add_child.second', c.fn.loc(), raises(c),
                   B.Not(in2), inside)
      want = ('encoder', describe(I, s), {C('k'): leaf, C('l'): (
          'encoder', describe(I, stage(prog, 3)), {})})
      got = built(I, one)
      ctx.ob('add_child.both', got == want, c.fn.loc(), 'tree is %r' % (got,))
  for kind in ('EncodingStageInterface', STAGE):
    I = ctx.interp()
    s = T('obj', prog.cls(kind), 7)
    f = prog.func('encoding_stage', 'as_adaptive_encoding_stage')
    v = I.run(f, args={'stage': s})
    ok = v.value is s if kind == STAGE else (
        v.value.op == 'obj' and v.value.args[0].name ==
        'NoneStateAdaptiveEncodingStage' and field(
            I, v.value, '_wrapped_stage') is s)
    ctx.ob('adaptive.' + kind, ok and raises(v) is FALSE, f.loc(),
           'gives %s' % show(v.value))


# -- SimpleEncoder and GatherEncoder -------------------------------------------

ENCODER_CALLS = ('initial_state', 'get_params', 'encode', 'decode',
                 'decode_before_sum', 'decode_after_sum', 'update_state')
UTILS = ('split_dict_py_tf', 'merge_dicts', 'flatten_with_joined_string_paths',
         'assert_compatible', 'split_params_by_commuting_structure',
         'split_shapes_by_commuting_structure')


def callee_name(t):
  """The name of a called function or method, '' for other terms."""
  if not isinstance(t, Term) or t.op != 'call':
    return ''
  c = t.args[0]
  if c.op == 'fn':
    return c.args[0].name
  if c.op in ('ext', 'global'):
    return str(c.args[0]).split('.')[-1]
  return c.args[1] if c.op == 'attr' else ''


def skeleton(t):
  """The structure of a value: what depends on the encoder, not on the values
  it was called with."""

  def f(x):
    if x.op == 'call' and x.args[0].op == 'attr' and (
        x.args[0].args[0] is P('encoder')) and x.args[0].args[1] in (
            ENCODER_CALLS):
      return T('shape of', x.args[0].args[1])
    if callee_name(x) == 'pack_sequence_as':
      return skeleton(x.args[1].args[0])
    if x.op == 'list' and len(x.args) == 1 and x.args[0].op == 'each' and (
        x.args[0].args[3] is NONE):
      return skeleton(x.args[0].args[0])
    return None
  return rewrite(plain(t), lambda x: f(x) or x)


def plain(t):
  """Conversions to tensors do not change values."""

  def f(x):
    n = callee_name(x)
    if n == 'convert_to_tensor':
      return x.args[1].args[0]
    if n == 'map_structure' and callee_name(T(
        'call', x.args[1].args[0], T('args'), T('kw'))) == (
            'convert_to_tensor'):
      return x.args[1].args[1]
    if x.op == 'sub' and x.args[0].op == 'tuple' and x.args[1].op == 'const':
      if not any(y.op == 'star' for y in x.args[0].args):
        return x.args[0].args[x.args[1].val]
    return x
  return rewrite(t, f)


def by_position(prog, x):
  """Calls of methods of the encoder with positional arguments."""
  if x.op == 'call' and x.args[0].op == 'attr' and (
      x.args[0].args[0] is P('encoder')) and x.args[0].args[1] in (
          ENCODER_CALLS):
    f = prog.method('Encoder', x.args[0].args[1])
    names = [y.arg for y in f.node.args.args][1:]
    p, k = list(x.args[1].args), dict(zip(x.args[2].args[::2],
                                          x.args[2].args[1::2]))
    for n in names[len(p):]:
      if n not in k:
        break
      p.append(k.pop(n))
    return T('call', x.args[0], T('args', *p), T('kw', *[
        y for n in sorted(k) for y in (n, k[n])]))
  return x


def wired(prog, t):
  """Normal form of the values of encoders."""
  t = rewrite(t, lambda x: by_position(prog, x))

  def f(x):
    n = callee_name(x)
    a = x.args[1].args if n else ()
    if n == 'pack_sequence_as':
      return T('call', x.args[0], T('args', skeleton(a[0]), *a[1:]),
               x.args[2])
    if n == 'assert_compatible' and len(a) == 2:
      return T('call', x.args[0], T('args', skeleton(a[0]), a[1]), x.args[2])
    if n == 'merge_dicts' and len(a) == 2:
      return T('call', x.args[0], T('args', *sorted(a, key=repr)), x.args[2])
    if x.op == 'sub' and callee_name(x.args[0]) == 'split_dict_py_tf' and (
        x.args[1] is C(0)):
      return skeleton(x)
    if x.op == 'each' and callee_name(x.args[0]) == (
        'flatten_with_joined_string_paths'):
      old, new = x.args[0], skeleton(x.args[0])
      return T('each', new, x.args[1], x.args[2], rewrite(
          x.args[3], lambda y: new if y is old else y))
    return x
  return rewrite(nf(plain(t)), f)


def util_calls(prog, r, name):
  return {(wired(prog, T('call', *e.a[:3])), gnf(e.guard)) for e in r.effects
          if e.kind == 'call' and callee_name(T('call', *e.a[:3])) == name}


def wiring(ctx, cls, I, o, m, args, ref, extra=()):
  """Compares a method of an encoder with the reference."""
  r = call_m(I, o, m, args)
  J = utils_interp(ctx)
  a = dict(args, encoder=P('encoder'), **dict(extra))
  s = run_spec(J, 'encoding', ref, a)
  key, loc = '%s.%s' % (cls, m), r.fn.loc()
  got, want = wired(ctx.prog, I.freeze(r.value)), wired(ctx.prog, J.freeze(s.value))
  w = differ(got, want)
  ctx.ob(key + '.value', w is None, loc, explain(w))
  expect_guard(ctx, key + '.error', loc, wired_guard(raises(r)),
               wired_guard(raises(s)))
  if cls == 'GatherEncoder':
    got, want = [util_calls(ctx.prog, x, 'assert_compatible') for x in (r, s)]
    bad = sorted(show(t, 9)[:300] for t, _ in got ^ want)
    ctx.ob(key + '.checked', got == want, loc,
           'arguments are checked differently: %s' % '; '.join(bad[:4]))


def wired_guard(g):
  return gnf(g)


def utils_interp(ctx):
  I = ctx.interp(opaque=lambda f: f.name in UTILS)
  I.unroll = I.recursion = 8
  return I


@rule('E05', 38, 'SimpleEncoder and GatherEncoder pass every value of the '
      'encoder to where it is needed, unchanged.')
def e05(ctx):
  I = utils_interp(ctx)
  o, r = make(I, ctx.prog, 'SimpleEncoder')
  expect_guard(ctx, 'SimpleEncoder.accepts', r.fn.loc(), raises(r),
               B.Not(accepted(ctx)))
  x = [('x', P('x')), ('state', P('state'))]
  for m, a, extra in (('initial_state', {}, ()), ('encode', dict(x), ()),
                      ('decode', {'encoded_x': P('encoded_x')}, x)):
    wiring(ctx, 'SimpleEncoder', I, o, m, a, 'simple_' + m, extra)
  I = utils_interp(ctx)
  f = ctx.prog.method('GatherEncoder', 'from_encoder')
  r = I.run(f, self_term=T('cls', ctx.prog.cls('GatherEncoder')))
  objs = [x for _, x in lift(r.value) if x.op == 'obj']
  if len(objs) != 1:
    return ctx.ob('GatherEncoder.made', False, f.loc(), 'returns %s' % show(
        r.value))
  o = objs[0]
  ok = B.implies(raises_type(r, 'TypeError'), B.Not(accepted(ctx))) and (
      B.implies(B.Not(accepted(ctx)), raises_type(r, 'TypeError')))
  ctx.ob('GatherEncoder.accepts', ok, f.loc(), 'TypeErrors: %s' % showg(
      raises_type(r, 'TypeError')))
  spec_ = [('tensorspec', P('tensorspec'))]
  for m, names in (('initial_state', ''), ('get_params', 'state'),
                   ('encode', 'x encode_params'),
                   ('decode_before_sum', 'encoded_x decode_before_sum_params'),
                   ('decode_after_sum',
                    'part_decoded_x decode_after_sum_params num_summands'),
                   ('update_state', 'state state_update_tensors')):
    wiring(ctx, 'GatherEncoder', I, o, m, {n: P(n) for n in names.split()},
           'gather_' + m, spec_)
  v = I.freeze(I.get_attr(o, 'state_update_aggregation_modes'))
  want = run_spec(utils_interp(ctx), 'encoding', 'flat_modes', {
      'encoder': P('encoder')}).value
  expect_value(ctx, 'GatherEncoder.modes', f.loc(), v, want)
  fully(ctx)


def fully(ctx):
  f = ctx.prog.method('GatherEncoder', 'fully_commutes_with_sum')
  for flags in flag_sets():
    I = utils_interp(ctx)
    o, _ = make(I, ctx.prog, 'GatherEncoder', {'commuting_structure': to_term(
        I, struct_of(ctx, flags))})
    expect_bool(ctx, 'GatherEncoder.fully.' + ''.join('01'[x] for x in flags),
                f.loc(), I.get_attr(o, 'fully_commutes_with_sum'),
                C(all(flags)))


def accepted(ctx):
  I = ctx.interp()
  g = to_guard(I.call(EXT('builtins.isinstance'), [
      P('encoder'), T('cls', ctx.prog.cls('Encoder'))], []))
  g = B.And(g, to_guard(I.call(EXT('builtins.isinstance'), [
      P('tensorspec'), EXT('tf.TensorSpec')], [])))
  return B.And(g, to_guard(I.call(I.get_attr(I.get_attr(P(
      'tensorspec'), 'shape'), 'is_fully_defined'), [], [])))


# -- stages --------------------------------------------------------------------

# class: constructor arguments, keys of the parameters for encoding and
# decoding, keys of the encoded values, reference prefixes (constructor,
# get_params, encode, decode), compressible keys, decode needs the shape,
# commutes with sum.
TF_UTILS = ('fast_walsh_hadamard_transform', 'random_signs', 'random_floats',
            'pack_into_int', 'unpack_from_int')
QV, MM = 'quantized_values', 'min_max'
STAGE_TABLE = [
    ('IdentityEncodingStage', {}, '', '', 'identity_values',
     'any no identity identity', 'identity_values', False, True),
    ('FlattenEncodingStage', {}, '', '', 'flattened_values',
     'any no flatten flatten', 'flattened_values', True, True),
    ('HadamardEncodingStage', {}, 'seed', 'seed', 'hadamard_values',
     'any seed hadamard hadamard', 'hadamard_values', True, True),
    ('UniformQuantizationEncodingStage', {MM: NONE}, 'max_value', 'max_value',
     'quantized_values min_max', 'uniform uniform uniform uniform', QV, False,
     False),
    ('UniformQuantizationEncodingStage', {}, 'max_value min_max',
     'max_value min_max', QV, 'uniform uniform fixed fixed', QV, False, True),
    ('BitpackingEncodingStage', {}, '', '', 'bitpacked_values dummy_type_value',
     'pack no pack pack', '', True, False),
    ('BitpackingEncodingStage', {}, '', '', 'bitpacked_values',
     'pack no pack pack', '', True, False),
    ('ClipByNormEncodingStage', {}, 'norm_param', '', 'clipped_values',
     'any clip_norm clip_norm clip', 'clipped_values', False, True),
    ('ClipByValueEncodingStage', {}, 'min_param max_param', '',
     'clipped_values', 'any clip_value clip_value clip', 'clipped_values',
     False, True),
    ('KashinHadamardEncodingStage', {'num_iters': C(3)}, 'eta delta seed',
     'seed', 'kashin_hadamard_values', 'kashin kashin kashin kashin',
     'kashin_hadamard_values', True, True),
    ('SplitBySmallValueEncodingStage', {}, 'threshold', '',
     'indices non_zero_floats', 'any small small small',
     'non_zero_floats indices', True, False),
    ('DifferenceBetweenIntegersEncodingStage', {}, '', '',
     'difference_between_integers', 'any no difference difference',
     'difference_between_integers', False, False),
    ('PRNGUniformQuantizationEncodingStage', {}, 'max_value', 'max_value',
     'quantized_values seed min_max', 'bits max prng prng', QV, False, False),
    ('PerChannelUniformQuantizationEncodingStage', {}, 'max_value',
     'max_value', 'quantized_values min_max', 'channel max channel channel',
     QV, True, False),
    ('PerChannelPRNGUniformQuantizationEncodingStage', {}, 'max_value',
     'max_value', 'quantized_values seed min_max',
     'bits max channel_prng channel_prng', QV, True, False),
]


def stages_interp(ctx):
  I = ctx.interp(opaque=lambda f: f.name in TF_UTILS)
  I.unroll = 16
  return I


def leaves(keys):
  return {k: P(k) for k in keys.split()}


@rule('E06', 100, 'Every encoding stage computes the documented transformation '
      'and its inverse.')
def e06(ctx):
  seen = set()
  for (n, args, ep, dp, ek, refs, comp, needs, commutes) in STAGE_TABLE:
    key = n.replace('EncodingStage', '') + ('.' + '_'.join(
        ek.split()) if n in seen else '')
    seen.add(n)
    refs = ['%s_%s' % x for x in zip(refs.split(), (
        'init', 'params', 'encode', 'decode'))]
    I = stages_interp(ctx)
    o, r = make(I, ctx.prog, n, args)
    init = ctx.prog.find_method(ctx.prog.cls(n), '__init__')
    names = [x.arg for x in init.node.args.args][1:] if init else []

    def ref(name, a):
      J = stages_interp(ctx)
      me = T('obj', ctx.prog.cls(n), 900)
      for k in names:
        J.st.heap['f', me, k] = args.get(k, P(k))
      a = {k: to_term(J, v) for k, v in a.items()}
      return J, run_spec(J, 'stages', name, dict(a, self=me))
    J, s = ref(refs[0], {})
    u = B.Not(raises(s))
    if MM in names and MM not in args:
      u = B.And(u, B.Not(B.atom(T('isnone', P(MM)))))
    if r is not None:
      expect_guard(ctx, key + '.init', init.loc(), raises(r), raises(s))
    g = call_m(I, o, 'get_params', {})
    J, s = ref(refs[1], {})
    same(ctx, key + '.get_params', g.fn.loc(), I, g.value, J, s.value, u)
    e = call_m(I, o, 'encode', {'x': P('x'), 'encode_params': to_term(
        I, leaves(ep))})
    J, s = ref(refs[2], {'x': P('x'), 'p': leaves(ep)})
    same(ctx, key + '.encode', e.fn.loc(), I, e.value, J, s.value,
         B.And(u, B.Not(raises(s))))
    expect_guard(ctx, key + '.encode.error', e.fn.loc(), raises(e), raises(s),
                 u)
    d = call_m(I, o, 'decode', {
        'encoded_tensors': to_term(I, leaves(ek)),
        'decode_params': to_term(I, leaves(dp))})
    J, s = ref(refs[3], {'e': leaves(ek), 'p': leaves(dp),
                         'n': P('num_summands'), 'shape': P('shape')})
    same(ctx, key + '.decode', d.fn.loc(), I, d.value, J, s.value, u)
    ctx.ob(key + '.decode.error', B.And(raises(d), u) is FALSE, d.fn.loc(),
           'decoding can fail')
    f = ctx.prog.method(n, 'compressible_tensors_keys')
    got = I.freeze(I.get_attr(o, 'compressible_tensors_keys'))
    ctx.ob(key + '.keys', got.op == 'list' and set(got.args) == {
        C(k) for k in comp.split()}, f.loc(), 'keys are %s' % show(got))
    for name, want in ((PROPS[1], needs), (PROPS[0], commutes)):
      f = ctx.prog.method(n, name)
      expect_bool(ctx, '%s.%s' % (key, name), f.loc(), I.get_attr(o, name),
                  C(want), u)

