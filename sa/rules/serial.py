"""S..: saving, loading and comparing."""
import ast

from sa.report import rule
from sa.rules._common import *

SER = ('serialize_keras_object', 'serialize', 'serialize_layer',
       'serialize_activation', 'serialize_loss')
DES = ('deserialize_keras_object', 'deserialize', 'deserialize_layer',
       'deserialize_activation', 'deserialize_loss')
KERAS = ('name', 'trainable', 'dtype')
SCOPES = (('keras.quantize', 'quantize_scope'),
          ('keras.prune', 'prune_scope'),
          ('keras.cluster', 'cluster_scope'))


def core(c):
  n = c.module.rel
  return '/core/' in n and not n.endswith('_test.py') and (
      '/testing/' not in n and 'test_utils' not in n)


def scope(ctx, module, fn):
  """{registered name: class} of a ..._scope() function."""
  I = ctx.interp()
  f = ctx.prog.func(module, fn)
  a = {}
  if f.node.args.vararg is not None:
    a = {}
  r = I.call(T('fn', f), [], [])
  es = [e for e in I.trace if e.kind == 'call' and last_name(e.a[0]) in (
      'CustomObjectScope', 'custom_object_scope')]
  out = {}
  for e in es:
    for d in I.freeze(e.a[1]).args:
      if d.op != 'dict':
        raise AnalysisError('%s: scope is %s' % (fn, show(d)))
      for kv in d.args:
        out[kv.args[0].val] = kv.args[1]
  return f, out


def layer_base(prog, c):
  """The class is a Keras layer."""
  return any(not isinstance(k, ClassInfo) and last_ext(k) in (
      'Layer', 'Wrapper') for k in prog.mro(c))


def last_ext(k):
  s = k.args[0] if isinstance(k, Term) and k.op == 'ext' else str(k)
  return s.split('.')[-1]


def subclasses(prog, *roots):
  out = []
  for c in prog.all_classes():
    if core(c) and any(isinstance(k, ClassInfo) and k.name in roots and
                       k is not c for k in prog.mro(c)):
      out.append(c)
  return out


def construct(ctx, I, c, tag='', given=()):
  """An instance from symbolic arguments; (object, condition of no error)."""
  init = ctx.prog.find_method(c, '__init__')
  kw = []
  if init is not None:
    a = init.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:] + [
        x.arg for x in a.kwonlyargs]
    kw = [(n, dict(given).get(n, P(tag + n))) for n in names]
    if a.kwarg is not None:
      kw += [(n, P(tag + n)) for n in KERAS]
  r = apply(I, T('cls', c), [], kw)
  return r.raw, r


def legacy(call):
  kw = dict(zip(call.args[2].args[::2], call.args[2].args[1::2]))
  return kw.get('use_legacy_format', C(False))


def unserial(I, t):
  """deserialize(serialize(x)) is x."""
  def f(x):
    if x.op != 'call' or last_name(x.args[0]) not in DES or not x.args[1].args:
      return x
    y = x.args[1].args[0]
    if y.op == 'call' and last_name(y.args[0]) in SER and y.args[1].args and (
        legacy(x) is legacy(y)):
      return y.args[1].args[0]
    if y.op == 'call' and y.args[0].op == 'attr' and (
        y.args[0].args[1] == 'get_config'):
      return y.args[0].args[0]
    if y is P('serialized layer'):
      return P('layer')
    return x

  def enum(x):
    # Enumeration(member) is the member.
    if x.op == 'obj' and x in I.objinfo and any(
        not isinstance(k, ClassInfo) and last_ext(k) == 'Enum'
        for k in I.prog.mro(x.args[0])):
      b = I.objinfo[x][1]
      if len(b) == 1:
        return rewrite(list(b.values())[0], f)
    return f(x)
  return rewrite(I.freeze(t), enum)


def base_config(ctx, I, o, c):
  """What the Keras part of a layer reports as its configuration."""
  if not layer_base(ctx.prog, c):
    return
  kv = [T('kv', C(k), P(k)) for k in KERAS]
  if any(last_ext(k) == 'Wrapper' for k in ctx.prog.mro(c)):
    kv.append(T('kv', C('layer'), P('serialized layer')))
  for k in ctx.prog.mro(c):
    if isinstance(k, ClassInfo):
      I.results[T('super', o, k), 'get_config'] = I.new_loc(T('dict', *kv))


def fields(I, o):
  return {k[2]: I.freeze(v) for k, v in I.st.heap.items()
          if k[0] == 'f' and k[1] is o}


def base_init(r, o):
  """Arguments of the constructor of the external base class."""
  out = []
  for e in r.effects:
    if e.kind == 'call' and last_name(e.a[0]) == '__init__' and (
        e.a[0].op == 'attr' and e.a[0].args[0].op == 'super' and
        e.a[0].args[0].args[0] is o):
      out.append((e.guard, T('args', e.a[1], e.a[2])))
  return out


def anon(I, t, o):
  """The value t of a field of o, whichever object o is."""
  return unobj(I, rewrite(t, lambda x: P('self') if x is o else x))


def round_trip(ctx, c, key, wrapped=False, given=(), pure=False):
  """Saves and rebuilds a symbolic instance; with pure, the side effects of
  this are the obligations."""
  prog, Ob = ctx.prog, ctx.ob
  ob = lambda *a: Ob(*a) if not pure else a[1]
  ob2 = Ob if pure else lambda *a: a[1]
  I = ctx.interp()
  o, r1 = construct(ctx, I, c, '', given)
  no_error = r1.live
  base_config(ctx, I, o, c)
  get = prog.find_method(c, 'get_config')
  new = prog.find_method(c, 'from_config')
  if not ob(key + '.methods', get is not None and new is not None, c.loc(),
                'has no get_config or from_config'):
    return None
  before = fields(I, o)
  r2 = apply(I, I.get_attr(o, 'get_config'), [], under=no_error)
  ob(key + '.get_config.raises', not feasible(raises(r2), no_error),
         get.loc(), 'get_config raises when %s' % showg(gnf(raises(r2))))
  after = fields(I, o)
  ob2(key + '.get_config', before.keys() == after.keys() and all(
      before[k] is after[k] for k in before), get.loc(),
         'get_config changes the object')
  cfg = r2.raw
  if wrapped:
    d = I.freeze(cfg)
    e = entries(d)
    if not ob(key + '.wrapped', e is not None and set(e) == {
        'class_name', 'config'} and e['class_name'].is_const(c.name), get.loc(),
                  'get_config() is %s' % show(d, 5)):
      return None
    cfg = I.get_sub(cfg, C('config'))
  old = I.freeze(cfg)
  ob(key + '.config', entries(old) is not None, get.loc(),
         'configuration is %s' % show(old, 5))
  saved, I.opaque = I.opaque, ctor_opaque
  r3 = apply(I, I.get_attr(T('cls', c), 'from_config'), [cfg], under=no_error)
  I.opaque = saved
  ob(key + '.from_config.raises', not feasible(raises(r3), no_error),
         new.loc(), 'from_config raises when %s' % showg(gnf(raises(r3))))
  w = differ(I.freeze(cfg), old, no_error)
  ob2(key + '.from_config', w is None, new.loc(),
         'from_config changes the configuration it is given: ' + explain(w))
  return I, o, r1, r3, no_error, new


def feasible(g, under):
  return arith.feasible_part(B.And(gnf(g), gnf(under))) is not FALSE


def entries(d):
  """{key: value} of a dictionary with constant keys, or None."""
  if d.op != 'dict' or any(x.op != 'kv' or x.args[0].op != 'const'
                           for x in d.args):
    return None
  return {x.args[0].val: x.args[1] for x in d.args}


def same_object(ctx, key, c, I, o, r1, r3, live, new):
  v = r3.raw
  if not ctx.ob(key + '.class', v.op == 'obj' and v.args[0] is c and
                v in I.objinfo, new.loc(), 'from_config returns %s' % show(v)):
    return
  _, b, _ = I.objinfo[v]
  kw = []
  pos = []
  for k, x in b.items():
    x = unserial(I, x)
    if isinstance(k, int):
      pos.append(x)
    elif k == '**' and entries(x) is not None:
      kw += list(entries(x).items())
    else:
      kw.append((k, x))
  r = apply(I, T('cls', c), pos, kw, under=live)
  n = r.raw
  ctx.ob(key + '.ctor.raises', not feasible(raises(r), live), new.loc(),
         'rebuilding it raises when %s' % showg(gnf(raises(r))))
  fo, fn = fields(I, o), fields(I, n)
  for k in sorted(set(fo) | set(fn)):
    if not ctx.ob('%s.%s.kept' % (key, k), k in fo and k in fn, new.loc(),
                  'only one of the objects has the field'):
      continue
    w = differ(anon(I, fn[k], n), anon(I, fo[k], o), live)
    ctx.ob('%s.%s' % (key, k), w is None, new.loc(), explain(w))
  bo, bn = base_init(r1, o), base_init(r, n)
  ok = same_guard(join(bo), join(bn), live)
  for g, x in bo:
    for h, y in bn:
      u = B.And(B.And(gnf(g), gnf(h)), gnf(live))
      if arith.feasible_part(u) is not FALSE and differ(
          nkw(anon(I, y, n)), nkw(anon(I, x, o)), u) is not None:
        ok = False
  ctx.ob(key + '.keras', ok, new.loc(),
         'Keras is given %s instead of %s' % (
             [show(y, 6)[:200] for _, y in bn],
             [show(y, 6)[:200] for _, y in bo]))


def join(pairs):
  g = FALSE
  for h, _ in pairs:
    g = B.Or(g, h)
  return g


def nkw(t):
  """Keyword arguments in a fixed order, ** dictionaries spread."""
  pos, kw = t.args
  out = {}
  for i in range(0, len(kw.args), 2):
    k, x = kw.args[i], kw.args[i + 1]
    if k == '**' and entries(x) is not None:
      out.update(entries(x))
    else:
      out[k] = x
  return T('args', pos, T('kw', *[y for k in sorted(out, key=str)
                                  for y in (k, out[k])]))


def known_scopes(ctx):
  return [(fn,) + scope(ctx, m, fn) for m, fn in SCOPES]


def schedules(ctx):
  """Classes of schedules PruneLowMagnitude.from_config knows."""
  I = ctx.interp(opaque=ctor_opaque)
  c = ctx.prog.cls('PruneLowMagnitude')
  f = ctx.prog.find_method(c, 'from_config')
  cfg = I.new_loc(T('dict', *[T('kv', C(k), P(k)) for k in (
      'pruning_schedule', 'block_size', 'block_pooling_type',
      'sparsity_m_by_n', 'layer', 'name')]))
  r = apply(I, I.get_attr(T('cls', c), 'from_config'), [cfg])
  for e in r.effects:
    if e.kind != 'call' or last_name(e.a[0]) not in DES:
      continue
    a = I.freeze(e.a[1]).args
    kw = I.freeze(e.a[2]).args
    kw = dict(zip(kw[::2], kw[1::2]))
    if not any(x is P('pruning_schedule') for x in a):
      continue
    d = entries(kw.get('custom_objects', NONE))
    return f, {k: v for k, v in (d or {}).items()}
  return f, {}


VARIANTS = {'PruneLowMagnitude': (
    ('', {'sparsity_m_by_n': NONE}),
    ('.m_by_n', {'sparsity_m_by_n': TUP(P('m'), P('n'))}))}


def instances(ctx):
  """(key, class, constructor arguments, is a schedule) of everything that can
  be saved."""
  seen = set()
  for _, _, d in known_scopes(ctx):
    for v in d.values():
      c = v.args[0] if v.op == 'cls' else None
      if c is None or c in seen:
        continue
      seen.add(c)
      for tag, given in VARIANTS.get(c.name, (('', {}),)):
        yield c.name + tag, c, given, False
  for c in subclasses(ctx.prog, 'PruningSchedule'):
    yield c.name, c, {}, True


@rule('S01', 300, 'from_config(get_config()) rebuilds every wrapper, '
      'configuration, quantizer and schedule with the same state.')
def s01(ctx):
  f, known = schedules(ctx)
  for key, c, given, schedule in instances(ctx):
    if schedule and c.module.name.endswith('.pruning_schedule'):
      k = known.get(c.name)
      ctx.ob(c.name + '.known', k is not None and k.op == 'cls' and
             k.args[0] is c, f.loc(),
             'PruneLowMagnitude.from_config cannot rebuild %s' % c.name)
    x = round_trip(ctx, c, key, schedule, given)
    if x is None:
      continue
    if c.name == 'QuantizeAwareActivation':
      activation(ctx, key, *x)
    else:
      same_object(ctx, key, c, *x)


@rule('S02', 50, 'get_config and from_config change neither the object nor '
      'the configuration they are given.')
def s02(ctx):
  for key, c, given, schedule in instances(ctx):
    round_trip(ctx, c, key, schedule, given, pure=True)


def activation(ctx, key, I, o, r1, r3, live, new):
  """A layer is saved with its original activation."""
  for n, (g, v) in enumerate(lift(nf(r3.value))):
    g = B.And(gnf(g), gnf(live))
    # Keras knows the legacy format in both directions or in none.
    opt = [(B.implies(g, B.atom(a)), B.disjoint(g, B.atom(a)))
           for a in B.support(g) if a.op == 'cmp' and
           a.args[1].is_const('use_legacy_format')]
    if any(p for p, _ in opt) and any(q for _, q in opt):
      continue
    w = differ(unserial(I, simplify_deep(v, g)), P('activation'), g)
    ctx.ob('%s.activation.%d' % (key, n), w is None, new.loc(), explain(w))


# -- S03: scopes -------------------------------------------------------------

def saved_classes(ctx, part):
  """Classes of a part of the repository that occur in saved models.

  Quantizers defined elsewhere than in quantizers.py are created by the
  configurations and never part of a saved one.
  """
  out = []
  for c in ctx.prog.all_classes():
    n = c.module.name
    if not core(c) or '.%s.keras' % part not in n or c.name.startswith('_'):
      continue
    if c.qual != c.name:
      continue
    mro = [k.name for k in ctx.prog.mro(c) if isinstance(k, ClassInfo)]
    if layer_base(ctx.prog, c) or 'QuantizeConfig' in mro[1:] or (
        'Quantizer' in mro[1:] and n.endswith('.quantizers')) or (
            n.endswith('.quantize_aware_activation')):
      out.append(c)
  return out


@rule('S03', 30, 'The scopes know every class that a saved model can refer '
      'to, by its name.')
def s03(ctx):
  parts = {'quantize_scope': 'quantization', 'prune_scope': 'sparsity',
           'cluster_scope': 'clustering'}
  for fn, f, d in known_scopes(ctx):
    cs = saved_classes(ctx, parts[fn])
    names = {}
    for c in cs:
      names.setdefault(c.name, []).append(c)
    for n, same in sorted(names.items()):
      v = d.get(n)
      ctx.ob('%s.%s' % (fn, n), v is not None and v.op == 'cls' and
             v.args[0] in same, f.loc(), '%s registers %s as %s' % (
                 fn, n, show(v) if v is not None else 'nothing'))
    for n, v in sorted(d.items()):
      ctx.ob('%s.%s.name' % (fn, n), v.op == 'cls' and v.args[0].name == n,
             f.loc(), '%s registers %s under the name %s' % (fn, show(v), n))
  f = ctx.prog.func('keras.quantize', 'quantize_scope')
  I = ctx.interp()
  r = I.run(f)
  es = effects_of(r, 'CustomObjectScope', 'custom_object_scope')
  ctx.ob('quantize_scope.args', len(es) == 1 and any(
      x is P('args') for x in subterms(es[0].a[1])), f.loc(),
         'the objects of the caller are not part of the scope')
  for fn, f, d in known_scopes(ctx):
    m = ctx.prog.func(dict((b, a) for a, b in SCOPES)[fn], fn)
    I = ctx.interp()
    r = I.run(m)
    es = effects_of(r, 'CustomObjectScope', 'custom_object_scope')
    ctx.ob(fn + '.result', len(es) == 1 and es[0].guard is TRUE and
           r.value is es[0].result, m.loc(),
           '%s does not return the scope' % fn)


# -- S04: equality -----------------------------------------------------------


@rule('S04', 60, 'Two objects of a class are equal exactly if their saved '
      'configurations are; != is the negation of ==.')
def s04(ctx):
  for c in ctx.prog.all_classes():
    if not core(c) or ctx.prog.find_method(c, '__eq__') is None or (
        ctx.prog.find_method(c, 'get_config') is None) or (
            c.name.startswith('_')):
      continue
    equality(ctx, c)


def equality(ctx, c):
  I = ctx.interp()
  I.unroll = True
  a, r1 = construct(ctx, I, c, 'a_')
  b, r2 = construct(ctx, I, c, 'b_')
  live = B.And(r1.live, r2.live)
  ca = entries(I.freeze(apply(I, I.get_attr(a, 'get_config'), []).raw))
  cb = entries(I.freeze(apply(I, I.get_attr(b, 'get_config'), []).raw))
  eq = ctx.prog.find_method(c, '__eq__')
  if not ctx.ob(c.name + '.config', ca is not None and cb is not None and
                ca.keys() == cb.keys(), eq.loc(), 'no fixed configuration'):
    return
  got = call_m(I, a, '__eq__', {'other': b})
  ctx.ob(c.name + '.eq.raises', not feasible(raises(got), live), eq.loc(),
         'comparison raises when %s' % showg(gnf(raises(got))))
  want = TRUE
  for k in ca:
    want = B.And(want, B.atom(T('cmp', '==', ca[k], cb[k])))
  expect_guard(ctx, c.name + '.eq', eq.loc(), to_guard(got.value), want, live)
  for k in ca:
    # the other object differs in one field only
    w = B.And(to_guard(got.value), B.Not(B.atom(T('cmp', '==', ca[k], cb[k]))))
    ctx.ob('%s.eq.%s' % (c.name, k), not feasible(w, live), eq.loc(),
           'objects that differ in %s are equal' % k)
  other = T('inst', EXT('user.Other'), 1)
  r = call_m(I, a, '__eq__', {'other': other})
  ctx.ob(c.name + '.other', to_guard(r.value) is FALSE and not feasible(
      raises(r), live), eq.loc(), 'equal to an object of another class')
  ne = ctx.prog.find_method(c, '__ne__')
  if ne is not None:
    n = call_m(I, a, '__ne__', {'other': b})
    expect_guard(ctx, c.name + '.ne', ne.loc(), to_guard(n.value), B.Not(
        to_guard(got.value)), live)
