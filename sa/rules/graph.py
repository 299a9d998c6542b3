"""Q11: the transformer which rewrites the graph of a model.

The transformer is analysed as a whole on small model configurations: the
value flow of `transform()` gives, for each shape of graph around a pattern,
the configuration handed to Keras.  It is compared with the one obtained by
the rules of graph rewriting, written down in `Oracle`.
"""
import copy
import itertools

from sa.report import rule
from sa.rules._common import *

FILE = 'model_transformer'


class Net(object):
  """A model configuration.

  layers: {name: (class, config, inbound nodes)}; a node is a list of
  connections (name, tensor, {keyword: value}); values may hold connections
  ('@', name, tensor).
  """

  def __init__(self, layers, outputs=None, sequential=False):
    self.layers, self.outputs = layers, outputs
    self.inputs = []
    self.sequential = sequential

  def names(self):
    return list(self.layers)

  def connections(self, name):
    for node in self.layers[name][2]:
      for c in node:
        yield c[0]
        for x in c[2].values():
          for y in conns(x):
            yield y

  def uses(self, name):
    """Layers consuming it, and number of outputs of the model."""
    return ([n for n in self.layers if name in self.connections(n)],
            [x for x in conns(self.outputs) if x == name])


def conns(x):
  if isinstance(x, tuple) and x and x[0] == '@':
    return [x[1]]
  if isinstance(x, dict):
    x = list(x.values())
  if isinstance(x, list):
    return [z for y in x for z in conns(y)]
  return []


def rename(x, old, new):
  if isinstance(x, tuple) and x and x[0] == '@':
    return ('@', new if x[1] == old else x[1], x[2])
  if isinstance(x, dict):
    return {k: rename(v, old, new) for k, v in x.items()}
  if isinstance(x, list):
    return [rename(y, old, new) for y in x]
  return x


def layer(cls, nodes=(), **config):
  return (cls, config, [list(n) for n in nodes])


def c(name, tensor=0, **kw):
  return (name, tensor, kw)


class Oracle(object):
  """Rules of graph rewriting: which layers match, and what becomes of them."""

  def __init__(self, net, candidates):
    self.net = copy.deepcopy(net)
    self.cand = set(candidates) if candidates is not None else None
    self.meta = {}     # layer -> metadata changes
    self.weights = {n: n for n in net.layers}   # layer -> origin of weights

  def plain(self, n, cls, config=None):
    l = self.net.layers[n]
    return (not self.cand or n in self.cand) and l[0] in cls and all(
        str(l[1].get(k)).startswith(v) for k, v in (config or {}).items())

  def inner(self, n):
    uses, outs = self.net.uses(n)
    return len(uses) + len(outs) <= 1

  def once(self, n):
    return self.net.sequential or len(self.net.layers[n][2]) <= 1

  def inputs(self, n):
    if self.net.sequential:
      names = self.net.names()
      i = names.index(n)
      return names[i - 1:i] if i else []
    return [x[0] for x in self.net.layers[n][2][0]]

  def chains(self):
    """(b, a) matched by B <- A(linear)."""
    for b in self.net.names():
      if not self.plain(b, 'B') or not self.once(b):
        continue
      i = self.inputs(b)
      if len(i) != 1:
        continue
      if self.plain(i[0], ('A', 'A2'), {'activation': 'lin'}) and self.once(
          i[0]) and (self.net.sequential or self.inner(i[0])):
        yield b, i[0]

  def merges(self):
    """(m, b, a) matched by M <- [B, A]."""
    for m in self.net.names():
      if not self.plain(m, 'M') or not self.once(m):
        continue
      i = self.inputs(m)
      if len(i) == 2 and i[0] != i[1] and self.plain(i[0], 'B') and self.plain(
          i[1], 'A') and all(self.once(x) and self.inner(x) for x in i):
        yield m, i[0], i[1]

  def redirect(self, old, new):
    n = self.net
    for k, (cls, cfg, nodes) in n.layers.items():
      n.layers[k] = (cls, cfg, [[
          (new if x[0] == old else x[0], x[1], rename(x[2], old, new))
          for x in node] for node in nodes])
    n.outputs = rename(n.outputs, old, new)

  def replace(self, gone, new):
    """Layers `gone` (in model order) by the layers `new`."""
    n = self.net
    if n.sequential:
      out = {}
      for k, v in n.layers.items():
        if k == gone[0]:
          out.update((x, (y[0], y[1], [])) for x, y in new.items())
        if k not in gone:
          out[k] = v
      n.layers = out
    else:
      for k in gone:
        del n.layers[k]
      n.layers.update(new)
    if self.cand:
      self.cand |= set(new)

  def apply(self, kind):
    done = set()
    while True:
      ms = [m for m in (self.merges() if kind in ('Merge', 'Lose')
                        else self.chains()) if m[0] not in done]
      if not ms:
        return
      done.add(ms[0][0])
      getattr(self, kind)(*ms[0])

  def Drop(self, b, a):
    z = 'z_' + a
    self.redirect(b, z)
    self.replace([a, b], {z: ('Z', {'by': 'Z'}, self.net.layers[a][2])})
    self.weights[z] = self.weights.pop(a)
    self.meta[z] = a
    del self.weights[b]

  def Split(self, b, a):
    y, z = 'y_' + b, 'z_' + a
    self.redirect(b, y)
    self.replace([a, b], {
        z: ('Z', {'by': 'Z'}, self.net.layers[a][2]),
        y: ('Y', {'by': 'Y'}, [[c(z)]])})
    self.weights[z], self.weights[y] = (self.weights.pop(a),
                                        self.weights.pop(b))
    self.meta[z], self.meta[y] = a, b

  def Append(self, b, a):
    w = 'w_' + b
    la, lb = self.net.layers[a], self.net.layers[b]
    self.redirect(b, w)
    self.replace([a, b], {a: la, b: lb, w: ('W', {'by': 'W'}, [[c(b)]])})
    self.meta[w] = None

  def Same(self, b, a):
    pass

  def Meta(self, b, a):
    self.net.layers[a][1]['by'] = 'meta'
    self.meta[a] = 'changed'

  def Merge(self, m, b, a):
    w = 'w_' + b
    lm = self.net.layers[m]
    (b0, t, kw), other = lm[2][0]
    self.net.layers[m] = (lm[0], lm[1], [[(w, t, kw), other]])
    self.replace([], {w: ('W', {'by': 'W'}, [[c(b)]])})
    self.meta[w] = None
    self.meta[m] = 'changed'


# -- reading and building configurations ---------------------------------------


class Build(object):
  """The analysed program's view of a net."""

  def __init__(self, ctx, net, transforms, candidates=None, metadata=True,
               unique=True):
    self.ctx, self.net, self.unique = ctx, net, unique
    self.I = I = ctx.interp()
    I.recursion, I.unroll = 8, 24
    spec(ctx.prog, 'graph', '_new')
    kind = 'keras.Sequential' if net.sequential else 'keras.Model'
    self.model = model = T('inst', EXT(kind), 1)
    I.st.heap['f', model, '_is_graph_network'] = C(True)
    self.config = self.of_net(net)
    I.results[model, 'get_config'] = self.config
    I.st.heap['f', model, 'layers'] = self.list(
        *[self.keras_layer(n, i) for i, n in enumerate(net.names())])
    self.result = res = T('inst', EXT(kind), 2)
    I.results[EXT(kind), 'from_config'] = res
    for k in ('keras.Sequential', 'keras.Model'):
      I.results[EXT(k), 'from_config'] = res
    classes = ctx.prog.modules['sa_spec.graph'].classes
    self.transforms = self.list(*[T('obj', classes[n], 50 + i)
                                  for i, n in enumerate(transforms)])
    self.metas = {n: self.dict(**{'of': C(n), 'qc': P('config_' + n)})
                  for n in net.names()}
    self.metadata = self.dict(**self.metas) if metadata else NONE
    self.cand = NONE if candidates is None else I.new_loc(
        T('set', *[C(x) for x in candidates]))

  def dict(self, **kw):
    return self.I.new_loc(T('dict', *[T('kv', C(k), v)
                                      for k, v in kw.items()]))

  def list(self, *xs):
    return self.I.new_loc(T('list', *xs))

  def keras_layer(self, name, n, weights=True):
    I = self.I
    l = T('inst', EXT('keras.layers.Layer'), 1000 + n)
    ws = []
    for i, w in enumerate(('kernel:0', 'bias:0')):
      if not self.unique:
        w = 'kernel:0'
      v = T('inst', EXT('tf.Variable'), 2000 + 10 * n + i)
      I.st.heap['f', v, 'name'] = C(name + '/' + w)
      ws.append(v)
    I.st.heap['f', l, 'name'] = C(name)
    I.st.heap['f', l, 'weights'] = self.list(*ws)
    I.results[l, 'get_weights'] = self.list(*[P('%s_%s' % (
        name, w)) for w in ('kernel:0', 'bias:0')])
    return l

  def value(self, x):
    if isinstance(x, tuple) and x and x[0] == '@':
      return self.list(C(x[1]), C(0), C(x[2]))
    if isinstance(x, dict):
      return self.dict(**{k: self.value(v) for k, v in x.items()})
    if isinstance(x, list):
      return self.list(*[self.value(y) for y in x])
    return C(x)

  def of_net(self, net):
    ls = []
    for n, (cls, cfg, nodes) in net.layers.items():
      d = dict(class_name=C(cls), name=C(n), config=self.dict(
          name=C(n), **{k: v if isinstance(v, Term) else C(v)
                        for k, v in cfg.items()}))
      if net.sequential:
        del d['name']
      else:
        d['inbound_nodes'] = self.list(*[self.list(*[
            self.list(C(a), C(0), C(t), self.value(kw)) for a, t, kw in node])
                                         for node in nodes])
      ls.append(self.dict(**d))
    kw = {} if net.sequential else {
        'output_layers': self.value(net.outputs),
        'input_layers': self.value(net.inputs)}
    return self.dict(name=C('model'), layers=self.list(*ls), **kw)

  def run(self, produced=()):
    I = self.I
    I.st.heap['f', self.result, 'layers'] = self.list(*[
        self.keras_layer(n, 100 + i) for i, n in enumerate(produced)])
    self.old = I.freeze(self.config)
    self.t, r = make(I, self.ctx.prog, 'ModelTransformer', {
        'model': self.model, 'transforms': self.transforms,
        'candidate_layers': self.cand, 'layer_metadata': self.metadata},
                  1, None, defaults=True)
    if raises(r) is not FALSE:
      raise AnalysisError('construction raises')
    return call_m(I, self.t, 'transform')


def py(t):
  """Python value of a structure; what is not constant is described."""
  if t.op == 'const':
    return t.val
  if t.op in ('list', 'tuple'):
    return [py(x) for x in t.args]
  if t.op == 'dict' and all(x.op == 'kv' for x in t.args):
    return {py(x.args[0]): py(x.args[1]) for x in t.args}
  return '?' + show(t)[:80]


def unpack(x):
  """Connections in nested values."""
  if isinstance(x, list) and len(x) == 3 and isinstance(x[0], str) and (
      x[1] == 0):
    return ('@', x[0], x[2])
  if isinstance(x, list):
    return [unpack(y) for y in x]
  if isinstance(x, dict):
    return {k: unpack(v) for k, v in x.items()}
  return x


def read(cfg, sequential):
  """Net of a configuration; None when it is not one."""
  d = py(cfg)
  out, order = {}, []
  try:
    for l in d['layers']:
      n = l['config']['name']
      if n in out:
        return None, 'layer %s occurs twice' % n
      nodes = []
      if not sequential:
        if l.get('name') != n:
          return None, 'layer %s is named %s' % (n, l.get('name'))
        for node in l['inbound_nodes']:
          for x in node:
            if x[1] != 0:
              return None, 'layer %s uses node %s of %s' % (n, x[1], x[0])
          nodes.append([(x[0], x[2], unpack(x[3]) if len(x) > 3 else {})
                        for x in node])
      conf = {k: v for k, v in l['config'].items() if k != 'name'}
      out[n] = (l['class_name'], conf, nodes)
    return Net(out, None if sequential else unpack(d['output_layers']),
               sequential), ''
  except (KeyError, TypeError, IndexError) as e:
    return None, 'not a configuration (%r): %s' % (e, d)


def same(a, b):
  if a.sequential:
    return list(a.layers.items()) == list(b.layers.items())
  return a.layers == b.layers and a.outputs == b.outputs


def explain_nets(got, want):
  det = []
  for n in sorted(set(got.layers) | set(want.layers)):
    x, y = got.layers.get(n), want.layers.get(n)
    if x != y:
      det.append('%s is %s, required %s' % (n, x, y))
  if got.outputs != want.outputs:
    det.append('outputs %s, required %s' % (got.outputs, want.outputs))
  if not det:
    det.append('order is %s' % list(got.layers))
  return '; '.join(det)[:700]


# -- scenarios -----------------------------------------------------------------


def chain_nets():
  """Graphs x -> [u] -> A -> B -> consumers, in all the ways A and B can be
  used besides."""
  a_uses = ('only', 'other', 'keyword', 'nested', 'output', 'output dict')
  b_uses = ('one', 'two', 'keyword', 'nested', 'output', 'outputs', 'dict',
            'list')
  for au, bu in itertools.product(a_uses, b_uses):
    if au != 'only' and bu not in ('one', 'output', 'dict'):
      continue
    ls = {'x': layer('InputLayer'), 'u': layer('U', [[c('x', 1)]])}
    ls['a'] = layer('A', [[c('u', 0, training=False)]], activation='linear')
    ls['b'] = layer('B', [[c('a', 1, scale=2)]], units=3)
    ls['d'] = layer('D', [[c('b', 1, flag=True)]])
    outs = [('@', 'd', 0)]
    if au == 'other':
      ls['e'] = layer('E', [[c('a', 0)]])
      outs.append(('@', 'e', 0))
    elif au == 'keyword':
      ls['e'] = layer('E', [[c('x', 0, mask=('@', 'a', 0))]])
      outs.append(('@', 'e', 0))
    elif au == 'nested':
      ls['e'] = layer('E', [[c('x', 0, mask=[('@', 'x', 0), ('@', 'a', 0)])]])
      outs.append(('@', 'e', 0))
    elif au == 'output':
      outs.append(('@', 'a', 0))
    elif au == 'output dict':
      outs = {'d': outs[0], 'a': ('@', 'a', 0)}
    if bu == 'two':
      ls['f'] = layer('F', [[c('x'), c('b')]])
      outs.append(('@', 'f', 0))
    elif bu == 'keyword':
      ls['f'] = layer('F', [[c('x', 0, other=('@', 'b', 1), axis=-1)]])
      outs.append(('@', 'f', 0))
    elif bu == 'nested':
      ls['f'] = layer('F', [[c('x', 0, other={'k': [('@', 'b', 1),
                                                    ('@', 'u', 0)]},
                               no=None, empty=[])]])
      outs.append(('@', 'f', 0))
    elif bu == 'output':
      del ls['d']
      outs = rename(outs, 'd', 'b')
    elif bu == 'outputs':
      outs += [('@', 'b', 0), ('@', 'b', 1)]
    elif bu == 'dict':
      outs = {'k': ('@', 'b', 0), 'rest': outs}
    elif bu == 'list':
      outs = [[('@', 'b', 0), ('@', 'd', 0)], ('@', 'x', 0)]
    yield 'a %s, b %s' % (au, bu), Net(ls, outs)


def base(**change):
  ls = {'x': layer('InputLayer'),
        'a': layer('A', [[c('x')]], activation='linear'),
        'b': layer('B', [[c('a')]]),
        'd': layer('D', [[c('b')]])}
  ls.update(change)
  return Net(ls, [('@', 'd', 0)])


def odd_nets():
  yield 'a twice', base(a=layer('A', [[c('x')], [c('d')]],
                                activation='linear'))
  yield 'b twice', base(b=layer('B', [[c('a')], [c('x')]]))
  yield 'two inputs', base(b=layer('B', [[c('a'), c('x')]]))
  yield 'same input twice', base(b=layer('B', [[c('a'), c('a', 1)]]))
  yield 'another activation', base(a=layer('A', [[c('x')]],
                                           activation='relu'))
  yield 'expression', base(a=layer('A', [[c('x')]], activation='linear2'))
  yield 'not set', base(a=layer('A', [[c('x')]]))
  yield 'other class', base(a=layer('A2', [[c('x')]], activation='linear'))
  yield 'longer class', base(b=layer('BB', [[c('a')]]))
  yield 'no chain', base(b=layer('B', [[c('x')]]))
  ls = {'x': layer('InputLayer')}
  last = 'x'
  for i in range(3):
    ls['a%d' % i] = layer('A', [[c(last)]], activation='linear')
    ls['b%d' % i] = layer('B', [[c('a%d' % i)]])
    last = 'b%d' % i
  yield 'three chains', Net(ls, [('@', last, 0)])
  rev = dict(reversed(list(ls.items())))
  yield 'three chains, other order', Net(rev, [('@', last, 0)])


def sequential_nets():
  a, b, d, u = (layer('A', activation='linear'), layer('B', units=2),
                layer('D'), layer('U'))
  yield 'chain', Net({'a': a, 'b': b}, None, True)
  yield 'middle', Net({'u': u, 'a': a, 'b': b, 'd': d}, None, True)
  yield 'swapped', Net({'u': u, 'b': b, 'a': a, 'd': d}, None, True)
  yield 'two chains', Net({'u': u, 'a': a, 'b': b, 'd': d, 'a1': a,
                           'b1': b}, None, True)
  yield 'apart', Net({'a': a, 'u': u, 'b': b}, None, True)


def merge_nets():
  def net(m, more=None, order=('a', 'b')):
    l = {'a': layer('A', [[c('x')]], activation='linear'),
         'b': layer('B', [[c('x')]])}
    ls = {'x': layer('InputLayer')}
    for k in order:
      ls[k] = l[k]
    ls['m'] = layer('M', [m], axis=-1)
    ls['d'] = layer('D', [[c('m')]])
    ls.update(more or {})
    return Net(ls, [('@', 'd', 0)])
  for order in (('a', 'b'), ('b', 'a')):
    k = '-'.join(order)
    yield k, net([c('b', 1, training=False), c('a', 2)], None, order)
    yield k + ' swapped', net([c('a'), c('b')], None, order)
    yield k + ' three', net([c('b'), c('a'), c('a')], None, order)
    yield k + ' other three', net([c('b'), c('a'), c('x')], None, order)
    yield k + ' one', net([c('b')], None, order)
  yield 'b used', net([c('b'), c('a')], {'e': layer('E', [[c('b')]])})
  yield 'm twice', net([c('b'), c('a')], {'m': layer('M', [
      [c('b'), c('a')], [c('b'), c('a')]], axis=-1)})


def check(ctx, key, net, kind, candidates=None, metadata=True, unique=True):
  """Analyses transform() on the net and compares with the oracle."""
  o = Oracle(net, candidates)
  if kind != 'Lose':
    o.apply(kind)
  b = Build(ctx, net, [kind], candidates, metadata, unique)
  r = b.run(o.net.names())
  w = r.fn.loc()
  if b.I.unsupported:
    raise AnalysisError('%s: %s' % (key, b.I.unsupported[0]))
  if not ctx.ob(key + '.returns', raises(r) is FALSE, w, 'raises'):
    return
  es = effects_of(r, 'from_config')
  if not ctx.ob(key + '.rebuilt', len(es) == 1 and es[0].guard is TRUE and
                es[0].a[0].args[0] is EXT(
                    'keras.Sequential' if net.sequential else 'keras.Model'),
                w, 'model is built by %s' % es):
    return
  args = es[0].a[1].args
  kw = dict(zip(es[0].a[2].args[::2], es[0].a[2].args[1::2]))
  cfg = args[0] if args else kw.get('config', NONE)
  got, why = read(cfg, net.sequential)
  if not ctx.ob(key + '.config', got is not None, es[0].loc, why):
    return
  ctx.ob(key + '.graph', same(got, o.net), es[0].loc, '' if same(
      got, o.net) else explain_nets(got, o.net))
  cust = args[1] if len(args) > 1 else kw.get('custom_objects', NONE)
  name = 'Merge' if kind in ('Merge', 'Lose') else 'Chain'
  ctx.ob(key + '.custom', py(cust) == {name: name.lower() + ' object'},
         es[0].loc, 'custom objects are %s' % show(cust))
  weights(ctx, key, w, b, r, o)
  metas(ctx, key, w, b, r, o, metadata)


def weights(ctx, key, w, b, r, o):
  """Each layer of the result gets the weights it is to have, once."""
  I = b.I
  want = {}
  for l in I.content(I.get_attr(b.result, 'layers')).args:
    n = field(I, l, 'name').val
    src = o.weights.get(n)
    if src is not None and not b.unique:
      want[l] = T('list', P(src + '_kernel:0'), P(src + '_bias:0'))
    elif src is not None:
      for v in I.content(I.get_attr(l, 'weights')).args:
        want[v] = P('%s_%s' % (src, field(I, v, 'name').val.split('/')[1]))
  got, bad = {}, []
  built = [e.seq for e in effects_of(r, 'from_config')][0]
  for e in r.effects:
    if e.seq < built:
      continue
    if e.kind == 'assign':
      if e.guard is not TRUE or e.a[0] in got:
        bad.append(repr(e))
      got[e.a[0]] = e.a[1]
    elif e.kind == 'call' and last_name(e.a[0]) == 'set_weights':
      x, l = e.a[1].args[0], e.a[0].args[0]
      if e.guard is not TRUE or l in got or b.unique:
        bad.append(repr(e))
      got[l] = x
  ctx.ob(key + '.weights', not bad and got == want, w, '; '.join(bad) or (
      'weights are %s, required %s' % (
          {show(k): show(v) for k, v in got.items() if want.get(k) is not v},
          {show(k): show(v) for k, v in want.items() if got.get(k) is not v})))


def metas(ctx, key, w, b, r, o, given):
  """The returned metadata is that of the layers, in fresh dictionaries."""
  I = b.I
  v = r.raw if hasattr(r, 'raw') else r.value
  v = I.content(v)
  ok = v.op == 'tuple' and len(v.args) == 2 and v.args[0] is b.result
  ctx.ob(key + '.result', ok, w, 'returns %s' % show(v))
  if not ok:
    return
  want = {}
  if given:
    want = {n: {'of': n, 'qc': '?config_' + n} for n in b.net.names()}
  src = dict(want)
  for n, m in o.meta.items():
    if m is None:
      want[n] = {'new': 'metadata'}
    elif m == 'changed':
      want[n] = dict(src.get(n, {}), changed='yes')
    elif m in src:
      want[n] = src[m]
  for n in list(want):
    if n not in o.net.layers:
      del want[n]
  got = py(I.freeze(v.args[1]))
  got = {n: m for n, m in got.items() if m} if isinstance(got, dict) else got
  ctx.ob(key + '.metadata', got == want, w, 'metadata is %s, required %s' % (
      got, want))
  if given:
    mine = {b.metadata} | set(b.metas.values())
    inner = I.content(v.args[1])
    out = {v.args[1]} | ({x.args[1] for x in inner.args if x.op == 'kv'}
                         if inner.op == 'dict' else set())
    ctx.ob(key + '.fresh', not mine & out and py(I.freeze(b.metadata)) == {
        n: {'of': n, 'qc': '?config_' + n} for n in b.net.names()}, w,
           'the metadata of the caller is changed or handed out')


def several(ctx):
  """Several transforms, one of which makes another match."""
  net = base(a=layer('A', [[c('x')]], activation='relu'))
  for kinds in (('Single', 'Split'), ('Split', 'Single'),
                ('Same', 'Split', 'Single')):
    key = 'several.' + '-'.join(kinds)
    o = Oracle(base(), None)
    o.apply('Split')
    b = Build(ctx, net, kinds)
    r = b.run(o.net.names())
    es = effects_of(r, 'from_config')
    if not ctx.ob(key, len(es) == 1 and raises(r) is FALSE, r.fn.loc(),
                  'model is built by %s' % es):
      continue
    got, why = read(es[0].a[1].args[0], False)
    if ctx.ob(key + '.config', got is not None, es[0].loc, why):
      ctx.ob(key + '.graph', same(got, o.net), es[0].loc, '' if same(
          got, o.net) else explain_nets(got, o.net))
    cust = es[0].a[1].args[1] if len(es[0].a[1].args) > 1 else dict(zip(
        es[0].a[2].args[::2], es[0].a[2].args[1::2])).get(
            'custom_objects', NONE)
    ctx.ob(key + '.custom', py(cust) == {
        'Chain': 'chain object', 'Single': 'single object'}, es[0].loc,
           'custom objects are %s' % show(cust))
    for e in r.effects:
      if e.kind == 'set' and e.a[0] is b.model:
        ctx.ob(key + '.model', e.a[1] == 'use_legacy_config', e.loc,
               'the model of the caller is changed')


def refused(ctx):
  """What cannot be rewritten raises before anything is built."""
  n, net = next(iter(merge_nets()))
  r = Build(ctx, net, ['Lose']).run(())
  ctx.ob('refused.leaves', raises(r) is TRUE and not effects_of(
      r, 'from_config'), r.fn.loc(), 'a replacement with fewer inputs than '
         'the match is accepted')
  for kind, graph in (('keras.Model', FALSE), ('keras.layers.Dense', TRUE)):
    I = ctx.interp()
    m = T('inst', EXT(kind), 1)
    I.st.heap['f', m, '_is_graph_network'] = BOOL(graph)
    _, r = make(I, ctx.prog, 'ModelTransformer', {
        'model': m, 'transforms': P('transforms')}, defaults=True)
    ctx.ob('refused.' + kind, raises(r) is TRUE, r.fn.loc(),
           'is accepted: neither functional nor sequential model')


KINDS = ('Drop', 'Split', 'Append', 'Same', 'Meta')


@rule('Q11', 500, 'transform() rewrites exactly the matching parts of the '
      'graph, keeping all other layers, connections, weights and metadata.')
def q11(ctx):
  for n, net in chain_nets():
    for kind in KINDS:
      check(ctx, '%s.%s' % (kind, n), net, kind)
  for n, net in odd_nets():
    for kind in KINDS:
      check(ctx, '%s.%s' % (kind, n), net, kind)
  for n, net in sequential_nets():
    for kind in KINDS:
      check(ctx, 'sequential.%s.%s' % (kind, n), net, kind)
  for n, net in merge_nets():
    check(ctx, 'Merge.' + n, net, 'Merge')
  for names in ((), ('a', 'b'), ('a',), ('b',), ('b', 'a', 'x', 'd'), ('x',)):
    for kind in ('Split', 'Append'):
      check(ctx, '%s.candidates.%s' % (kind, '-'.join(names)), base(), kind,
            names)
      check(ctx, 'sequential.%s.candidates.%s' % (kind, '-'.join(names)), Net({
          'x': layer('U'), 'a': layer('A', activation='linear'),
          'b': layer('B'), 'd': layer('D')}, None, True), kind, names)
  several(ctx)
  refused(ctx)
  for kind in KINDS:
    check(ctx, '%s.no metadata' % kind, base(), kind, None, False)
    check(ctx, '%s.equal weight names' % kind, base(), kind, unique=False)



# -- ranges of the input and output --------------------------------------------


def range_nets():
  q = P('quantizer')
  def wrapped(*nodes, **kw):
    return layer('QuantizeWrapperV2', nodes, quantize_config=P('config_' + kw[
        'of']), layer=P('layer_' + kw['of']))
  def quantized(*nodes):
    return layer('QuantizeLayer', nodes, quantizer=q, dtype='float32')
  def i(n):
    return ('@', n, 0)
  ls = {'x': layer('InputLayer'), 'q': quantized([c('x')]),
        'a': wrapped([c('q')], of='a'), 'p': layer('Dense', [[c('a')]], k=1),
        'b': wrapped([c('p', training=False)], of='b'),
        'd': wrapped([c('b')], of='d')}
  ins = [i('x')]
  yield 'chain', ls, ins, [i('d')], ['q'], ['d']
  yield 'plain input', ls, i('x'), i('d'), ['q'], ['d']
  yield 'two outputs', ls, ins, [i('d'), i('b')], ['q'], ['d', 'b']
  yield 'output twice', ls, ins, [i('d'), ('@', 'd', 1)], ['q'], ['d']
  yield 'dict', ls, {'k': i('x')}, {'o': i('a'), 'l': [i('d')]}, ['q'], [
      'd', 'a']
  yield 'not quantized output', ls, ins, [i('p')], ['q'], []
  ls2 = {'y': layer('InputLayer'), 'r': quantized([c('y')])}
  ls2.update(ls)
  ls2['p'] = layer('Add', [[c('a'), c('r')]])
  yield 'two inputs', ls2, [i('x'), i('y')], [i('d')], ['q', 'r'], ['d']
  ls3 = dict(reversed(list(ls2.items())))
  yield 'other order', ls3, [i('y'), i('x')], [i('d'), i('p')], ['q', 'r'], [
      'd']
  ls4 = dict(ls)
  ls4['a'] = wrapped([c('q')], [c('b')], of='a')
  yield 'shared', ls4, ins, [i('a')], ['q'], ['a']


def is_obj(t, kind):
  """The only object of the class within a serialised value."""
  o = {x for x in subterms(t) if x.op == 'obj' and x.args[0].name == kind}
  return o.pop() if len(o) == 1 and t.op == 'call' and last_name(
      t.args[0]) == 'serialize_keras_object' else None


def fixed(ctx, key, where, I, o, lo, hi):
  for n, want in (('num_bits', 'num_bits'), ('narrow_range', 'narrow_range'),
                  ('init_min', lo), ('init_max', hi)):
    v = field(I, o, n)
    ctx.ob('%s.%s' % (key, n), v is P(want), where, '%s is %s' % (n, show(v)))


PARAMS = ('num_bits', 'input_min', 'input_max', 'output_min', 'output_max',
          'narrow_range')


def ranges(ctx, fn, n, ls, ins, outs, first, last, sequential=False):
  net = Net(ls, outs, sequential)
  net.inputs = ins
  key = '%s.%s' % (fn, n)
  b = Build(ctx, net, [])
  I = ctx.interp(opaque=lambda f: f.name in (
      'serialize_keras_object', 'deserialize_keras_object'))
  I.unroll, I.recursion = 24, 8
  I.st, I.results, I.nobj = b.I.st, b.I.results, b.I.nobj
  old = I.freeze(b.config)
  f = ctx.prog.func('quantize', fn)
  args = {'model': b.model}
  if fn.startswith('fix'):
    args.update((k, P(k)) for k in PARAMS)
  r = I.run(f, args=args)
  w = f.loc()
  if I.unsupported:
    raise AnalysisError('%s: %s' % (key, I.unsupported[0]))
  es = effects_of(r, 'from_config')
  if first is None:
    ctx.ob(key + '.refused', raises(r) is TRUE and not es, w,
           'a model which is not quantized is accepted')
    return
  es = [e for e in es if e.a[0].args[0].op == 'ext']
  kind = 'keras.Sequential' if sequential else 'keras.Model'
  if not ctx.ob(key + '.returns', r.value is b.result and len(es) == 1 and
                es[0].a[0].args[0] is EXT(kind) and raises(r) is FALSE, w,
                'model is built by %s' % es):
    return
  cfg = es[0].a[1].args[0]
  seen = {}

  def strip(x, path=()):
    """The configuration without what is to be replaced."""
    if x.op == 'dict':
      d = {k.args[0].val: k.args[1] for k in x.args}
      name = d['config'] if 'config' in d else None
      n_ = None
      if name is not None and name.op == 'dict':
        for k in name.args:
          if k.args[0].is_const('name'):
            n_ = k.args[1].val
      return {k: strip(v, n_ if k == 'config' and n_ else path)
              if (path, k) not in spots else seen.setdefault(
                  (path, k), []).append(v) for k, v in d.items()}
    if x.op in ('list', 'tuple'):
      return [strip(y, path) for y in x.args]
    return x.val if x.op == 'const' else x
  spots = {(k, 'quantizer') for k in first}
  if fn.startswith('fix'):
    spots |= {(k, 'quantize_config') for k in last}
  got = strip(cfg)
  new, seen = seen, {}
  want = strip(old)
  ctx.ob(key + '.others', got == want, es[0].loc,
         'the configuration is changed elsewhere')
  for k in first:
    v = new.get((k, 'quantizer'), [])
    kind = 'FixedQuantizer' if fn.startswith('fix') else 'NoQuantizer'
    o = is_obj(v[0], kind) if len(v) == 1 else None
    if ctx.ob('%s.%s.quantizer' % (key, k), o is not None, es[0].loc,
              'quantizer is %s' % [show(x) for x in v]) and (
                  fn.startswith('fix')):
      fixed(ctx, '%s.%s' % (key, k), es[0].loc, I, o, 'input_min',
            'input_max')
  for k in last if fn.startswith('fix') else ():
    v = new.get((k, 'quantize_config'), [])
    o = is_obj(v[0], 'FixedQuantizeConfig') if len(v) == 1 else None
    if ctx.ob('%s.%s.config' % (key, k), o is not None, es[0].loc,
              'configuration is %s' % [show(x) for x in v]):
      inner = field(I, o, 'config')
      ctx.ob('%s.%s.inner' % (key, k), inner.op == 'call' and last_name(
          inner.args[0]) == 'deserialize_keras_object' and inner.args[1].args[
              0] is P('config_' + k), es[0].loc, 'wraps %s' % show(inner))
      fixed(ctx, '%s.%s' % (key, k), es[0].loc, I, o, 'output_min',
            'output_max')


@rule('Q12', 200, 'Fixing or removing ranges changes exactly the quantizers of '
      'the inputs and the configurations of the outputs.')
def q12(ctx):
  seq = {'q': layer('QuantizeLayer', quantizer=P('quantizer')),
         'a': layer('QuantizeWrapperV2', quantize_config=P('config_a')),
         'd': layer('QuantizeWrapperV2', quantize_config=P('config_d'))}
  seq = dict([('x', layer('InputLayer'))] + list(seq.items()))
  plain = dict(seq, d=layer('Dense', quantizer='mine'))
  none = {'x': layer('InputLayer'), 'd': layer('Dense')}
  for fn in ('fix_input_output_range', 'remove_input_range'):
    for n, ls, ins, outs, first, last in range_nets():
      ranges(ctx, fn, n, ls, ins, outs, first, last)
    ranges(ctx, fn, 'sequential', seq, None, None, ['q'], ['d'], True)
    ranges(ctx, fn, 'plain sequential', plain, None, None, ['q'], [], True)
    ranges(ctx, fn, 'not quantized', none, None, None, None, [], True)
    ranges(ctx, fn, 'one layer', {'x': layer('InputLayer')}, None, None, None,
           [], True)
  fixed_config(ctx)


def fixed_config(ctx):
  """FixedQuantizeConfig quantises what its config does, with one range."""
  I = ctx.interp()
  inner = T('inst', EXT('user.QuantizeConfig'), 1)
  I.results[inner, 'get_activations_and_quantizers'] = I.new_loc(T(
      'list', TUP(P('act1'), P('q1')), TUP(P('act2'), P('q2'))))
  args = {k: P(k) for k in ('num_bits', 'init_min', 'init_max',
                            'narrow_range')}
  o, _ = make(I, ctx.prog, 'FixedQuantizeConfig', dict(args, config=inner))
  for n, a in (('get_weights_and_quantizers', ('layer',)),
               ('set_quantize_weights', ('layer', 'quantize_weights')),
               ('set_quantize_activations', ('layer',
                                             'quantize_activations'))):
    r = call_m(I, o, n, {k: P(k) for k in a})
    es = effects_of(r, n)
    ctx.ob('config.' + n, len(es) == 1 and es[0].guard is TRUE and
           es[0].a[0].args[0] is inner and list(es[0].a[1].args) + list(
               es[0].a[2].args[1::2]) == [P(k) for k in a] and (
                   n.startswith('set') or r.value is es[0].result), r.fn.loc(),
           'is not that of the wrapped configuration')
  q = None
  r = call_m(I, o, 'get_activations_and_quantizers', {'layer': P('layer')})
  v = r.value
  ok = v.op == 'list' and len(v.args) == 2 and all(
      x.op == 'tuple' and len(x.args) == 2 for x in v.args)
  ctx.ob('config.activations', ok and [x.args[0] for x in v.args] == [
      P('act1'), P('act2')], r.fn.loc(), 'activations are %s' % show(v))
  qs = {x.args[1] for x in v.args} if ok else set()
  r = call_m(I, o, 'get_output_quantizers', {'layer': P('layer')})
  v = r.value
  es = effects_of(r, 'get_output_quantizers')
  ok = v.op == 'list' and len(v.args) == 1 and v.args[0].op == 'each' and (
      len(es) == 1 and es[0].a[0].args[0] is inner and
      v.args[0].args[2] is TRUE and nf(v.args[0].args[0]) is nf(es[0].result))
  ctx.ob('config.outputs', ok, r.fn.loc(), 'output quantizers are %s' % show(
      v))
  if ok:
    qs.add(v.args[0].args[3])
  ctx.ob('config.quantizer', len(qs) == 1 and all(
      x.op == 'obj' and x.args[0].name == 'FixedQuantizer' for x in qs),
         r.fn.loc(), 'quantizers are %s' % [show(x) for x in qs])
  for x in qs:
    if x.op == 'obj':
      for k in args:
        ctx.ob('config.quantizer.' + k, field(I, x, k) is P(k), r.fn.loc(),
               '%s is %s' % (k, show(field(I, x, k))))
