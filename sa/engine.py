"""Interprocedural value-flow abstract interpreter.

Walks the syntax tree of /repo's functions once per statement, building
hash-consed value terms.  Control flow joins produce gated choices (guards are
BDDs over opaque conditions), so the result does not depend on how a piece of
code is laid out (early return / else branch / conditional expression / helper
function / comprehension).  No path is executed and no solver is used.
"""
import ast
import re
import builtins as _pybuiltins

from sa.loader import (AnalysisError, ClassInfo, FunctionInfo, ModuleInfo,
                       canon_ext)
from sa.terms import (to_guard, B, BOOL, C, EXT, FALSE, FALSE_T, ITE, NONE, T, TRUE,
                      TRUE_T, TUP, Node, Term, cases, rewrite, simplify,
                      subterms, _TRUTH)

_BUILTINS = set(dir(_pybuiltins))

_BINOPS = {
    ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
    ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&',
    ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>',
    ast.MatMult: '@',
}
_TFBIN = {
    'tf.multiply': '*', 'tf.add': '+', 'tf.subtract': '-', 'tf.divide': '/',
    'tf.truediv': '/', 'tf.div': '/', 'tf.floordiv': '//', 'tf.pow': '**', 'tf.mod': '%',
    'tf.floormod': '%', 'np.multiply': '*', 'np.add': '+',
    'np.subtract': '-', 'np.divide': '/', 'np.power': '**',
    'tf.bitwise.bitwise_and': '&', 'tf.bitwise.bitwise_or': '|',
    'tf.bitwise.left_shift': '<<', 'tf.bitwise.right_shift': '>>',
    'tf.bitwise.bitwise_xor': '^', 'operator.mul': '*', 'operator.add': '+',
    'operator.sub': '-',
}
_TFCMP = {
    'tf.less': '<', 'tf.less_equal': '<=', 'tf.greater': '>',
    'tf.greater_equal': '>=', 'tf.equal': '==', 'tf.not_equal': '!=',
    'np.equal': '==', 'np.greater_equal': '>=', 'np.less': '<',
    'np.less_equal': '<=', 'np.greater': '>', 'np.not_equal': '!=',
}
_COND = {
    'tf.cond', 'tf.__internal__.smart_cond.smart_cond',
    'keras.__internal__.utils.smart_cond', 'tf.smart_cond',
    'keras.utils.tf_utils.smart_cond', 'keras.utils.control_flow_util.smart_cond',
    'tensorflow.python.framework.smart_cond.smart_cond',
}
_TRANSPARENT = {'tf.identity', 'tf.convert_to_tensor', 'tf.stop_gradient_',
                'np.asarray', 'np.array_'}
# TensorFlow 2.x / Python 3 facts (the only supported build).
_EXT_HAS = {'tf.assign': False, 'tf.div': False, 'inspect.getfullargspec': True,
            'tf.global_variables_initializer': False}
_MUTATORS = {'append', 'extend', 'update', 'insert', 'pop', 'setdefault',
             'clear', 'remove', 'add', 'popitem', 'sort', 'reverse'}


# Superclasses (beyond Layer) of the built-in layers, as in Keras 2.
_L = 'keras.layers.'
KERAS_BASES = {
    _L + 'Conv2DTranspose': (_L + 'Conv2D',),
    _L + 'Conv3DTranspose': (_L + 'Conv3D',),
    _L + 'GRU': (_L + 'RNN',), _L + 'LSTM': (_L + 'RNN',),
    _L + 'SimpleRNN': (_L + 'RNN',),
    'keras.Sequential': ('keras.Model',),
    _L + 'SpatialDropout1D': (
        _L + 'Dropout',),
    _L + 'SpatialDropout2D': (_L + 'Dropout',),
    _L + 'SpatialDropout3D': (_L + 'Dropout',),
}


def _is_class(t):
  if t.op == 'cls':
    return True
  n = t.args[0].split('.')
  return len(n) > 1 and n[0] in ('keras', 'tf') and n[-1][:1].isupper()


def is_cond_name(d):
  return d in _COND or d.split('.')[-1] == 'smart_cond'


class Effect(object):
  __slots__ = ('kind', 'a', 'guard', 'loops', 'ctx', 'loc', 'stack', 'seq',
               'result')

  def __init__(self, kind, a, guard, loops, ctx, loc, stack, seq):
    self.kind = kind
    self.a = a
    self.guard = guard
    self.loops = loops
    self.ctx = ctx
    self.loc = loc
    self.stack = stack
    self.seq = seq
    self.result = None

  def __repr__(self):
    return '<%s %s @%s if %r%s>' % (
        self.kind, ', '.join(map(repr, self.a)), self.loc, self.guard,
        ' loops %r' % (self.loops,) if self.loops else '')


class State(object):
  __slots__ = ('vars', 'heap', 'live')

  def __init__(self, vars_, heap, live):
    self.vars = vars_
    self.heap = heap
    self.live = live

  def copy(self, live=None):
    return State(dict(self.vars), dict(self.heap),
                 self.live if live is None else live)


class Frame(object):
  _n = 0

  def __init__(self, module, cls=None, self_term=None, parents=(), fn=None):
    Frame._n += 1
    self.fid = Frame._n
    self.module = module
    self.cls = cls
    self.self_term = self_term
    self.chain = (self.fid,) + tuple(parents)
    self.returns = []
    self.loopstack = []
    self.nonlocals = set()
    self.escapes = False
    self.gen = None       # what a generator function yielded
    self.fn = fn


class Seg(object):
  """One segment of an iteration: a known item or a symbolic range."""

  def __init__(self, kind, it=None, guard=TRUE, value=None):
    self.kind = kind      # 'item' | 'sym'
    self.it = it
    self.guard = guard    # Node, or function k -> Node
    self.value = value    # Term, or function k -> Term


def elem(it, k=0):
  if it.op == 'range':
    return T('idx', it, k)
  return T('elem', it, k)


def idx(it, k=0):
  return T('idx', it, k)


def depends(t, it, k):
  for s in subterms(t):
    if s.op in ('elem', 'idx', 'prior') and s.args[0] is it and (
        s.args[1] == k):
      return True
  return False


def nonempty(it):
  if it.op == 'range':
    if len(it.args) == 3 and it.args[0].is_const(0):
      n = it.args[1]
      return B.atom(T('nonempty', n))
    return B.atom(T('nonempty', it))
  return _TRUTH[0](it)


def ANY(it, k, g):
  """Guard: some element of `it` satisfies g (a guard over elem(it,k))."""
  if g is FALSE:
    return FALSE
  if g is TRUE:
    return nonempty(it)
  # "the first element with s" exists exactly when one with s exists
  p = PRIOR(it, k)
  for a in B.support(g):
    if a.op == 'any' and a.args[0] is p:
      g0 = B.restrict(g, a, False)
      if B.restrict(g, a, True) is FALSE and B.implies(
          g0, of_prior(a.args[1], it, k)):
        g = g0
  if not depends_g(g, it, k):
    return B.And(g, nonempty(it))
  pulled = TRUE
  rest = g
  for a, pol in B.literals(g):
    if not depends(a, it, k):
      lit = B.atom(a) if pol else B.Not(B.atom(a))
      pulled = B.And(pulled, lit)
      rest = B.restrict(rest, a, pol)
  # normalise binder depth
  if k != 0:
    rest = rebind_g(rest, it, k, 0)
  return B.And(pulled, B.atom(T('any', it, rest)))


def depends_g(g, it, k):
  return any(depends(a, it, k) for a in B.support(g))


def rebind(t, it, k, k2):
  if k == k2:
    return t

  def f(x):
    if x.op in ('elem', 'idx', 'prior') and x.args[0] is it and (
        x.args[1] == k):
      return T(x.op, it, k2)
    return x
  return rewrite(t, f)


def rebind_g(g, it, k, k2):
  if k == k2 or not isinstance(g, Node):
    return g
  return rewrite(g, lambda x: (
      T(x.op, it, k2) if x.op in ('elem', 'idx', 'prior') and
      x.args[0] is it and x.args[1] == k else x))


def PRIOR(it, k):
  """The elements of `it` visited before elem(it, k)."""
  return T('prior', it, k)


def to_prior(t, it, k):
  """The term or guard t over elem(it, k) as seen for an earlier element."""
  p = PRIOR(it, k)
  if not isinstance(t, (Term, Node)):
    return t
  return rewrite(t, lambda x: (
      T(x.op, p, 0) if x.op in ('elem', 'idx') and x.args[0] is it and
      x.args[1] == k else x))


def of_prior(g, it, k):
  p = PRIOR(it, k)
  return rewrite(g, lambda x: (
      T(x.op, it, k) if x.op in ('elem', 'idx') and x.args[0] is p and
      x.args[1] == 0 else x))


class Interp(object):

  def __init__(self, prog, opaque=None, max_depth=18, types=None,
               budget=400000, recursion=0):
    self.prog = prog
    self.opaque = opaque or (lambda fn: False)
    self.max_depth = max_depth
    self.types = dict(types or {})
    self.st = State({}, {}, TRUE)
    self.bases = []
    self.trace = []
    self.loops = []
    self.ctx = []
    self.stack = []
    self.nobj = 0
    self.truth_of = set()
    self.objinfo = {}
    self.closures = {}
    self.modmemo = {}
    self.seq = 0
    self.budget = budget
    self.recursion = recursion
    self.visited = set()      # functions analysed
    self.cur_loc = ('?', 0)
    self.unsupported = []
    self.unroll = 0           # times a while loop is unrolled (0: symbolic)
    self.results = {}         # (instance, method) -> what the call returns
    self.members = {}         # EXT module -> known members (name, path)
    self.paramnames = {}
    self.track_reads = False
    self.origin = {}          # opaque container term -> True
    self.trybodies = 0
    self.reads = set()        # containers and fields whose value was used
    self.nolog = 0

  # -- misc -----------------------------------------------------------------

  def full(self, g=None):
    r = self.st.live if g is None else g
    for b in self.bases:
      r = B.And(r, b)
    return r

  def loc(self):
    return '%s:%d' % self.cur_loc

  def effect(self, kind, *a):
    self.seq += 1
    e = Effect(kind, a, self.full(), tuple(self.loops), tuple(self.ctx),
               self.loc(), tuple(x[0] for x in self.stack), self.seq)
    self.trace.append(e)
    return e

  def new_loc(self, content):
    self.nobj += 1
    t = T('loc', self.nobj)
    self.st.heap[('c', t)] = content
    return t

  def content(self, t):
    """Content of a container term (one level)."""
    if not self.nolog:
      self.reads.add(('c', t))
    c = self.st.heap.get(('c', t))
    if c is not None:
      return simplify(c, self.full())
    return t

  def freeze(self, t, _depth=0):
    if not isinstance(t, Term):
      return t
    if t.op in ('const', 'param', 'ext', 'cls', 'fn', 'mod', 'self', 'obj',
                'orig'):
      return t
    if _depth > 40:
      return t
    heap = self.st.heap
    memo = {}

    def go(x, d):
      if isinstance(x, Node) or not isinstance(x, Term):
        return x
      if x.op in ('const', 'param', 'ext', 'cls', 'fn', 'mod', 'self', 'obj',
                  'orig'):
        return x
      r = memo.get(x.uid)
      if r is not None:
        return r
      if d > 60:
        return x
      c = heap.get(('c', x))
      if c is not None and not self.nolog:
        self.reads.add(('c', x))
      if c is not None and c is not x:
        memo[x.uid] = T('frozen', x)  # cycle guard
        if x.op != 'loc':
          # opaque container with updates: dict(dstar(x),...) mentions x.
          memo[x.uid] = x
        r = go(simplify(c, self.full()), d + 1)
        if x.op != 'loc' and self.origin.get(x) != 'c':
          pass
        memo[x.uid] = r
        return r
      args = [go(a, d + 1) for a in x.args]
      if any(p is not q for p, q in zip(args, x.args)):
        if x.op == 'ite':
          r = ITE(*args)
        else:
          r = T(x.op, *args)
      else:
        r = x
      memo[x.uid] = r
      return r
    return go(t, 0)

  def typeof(self, t):
    """Program class of a term's value (ClassInfo) or None."""
    if not isinstance(t, Term):
      return None
    if t in self.types:
      return self.types[t]
    if t.op in ('obj', 'self'):
      return t.args[0]
    if t.op == 'attr':
      b = self.typeof(t.args[0])
      if b is not None:
        return self.field_type(b, t.args[1])
    return None

  def field_type(self, cls, name):
    cache = cls.__dict__.setdefault('_ftypes', {})
    if name in cache:
      return cache[name]
    cache[name] = None
    found = set()
    for k in self.prog.mro(cls):
      if not isinstance(k, ClassInfo):
        continue
      for m in k.methods.values():
        for n in ast.walk(m.node):
          if not isinstance(n, ast.Assign):
            continue
          for tgt in n.targets:
            if (isinstance(tgt, ast.Attribute) and tgt.attr == name and
                isinstance(tgt.value, ast.Name) and tgt.value.id == 'self'):
              v = n.value
              if isinstance(v, ast.Constant) and v.value is None:
                continue
              r = None
              if isinstance(v, ast.Call):
                r = self.prog.resolve_expr(k.module, v.func)
              if r and r[0] == 'cls':
                found.add(r[1])
              else:
                found.add(None)
    if len(found) == 1:
      cache[name] = next(iter(found))
    return cache[name]

  # -- truth / comparison ---------------------------------------------------

  def truth(self, t):
    t = self.content(t) if isinstance(t, Term) else t
    return truth(t, self)

  def cmp(self, op, a, b):
    neg = False
    if op in ('!=', 'is not', 'not in'):
      op = {'!=': '==', 'is not': 'is', 'not in': 'in'}[op]
      neg = True
    g = self.full()
    res = FALSE
    ca, cb = cases(simplify(a, g)), cases(simplify(b, g))
    if len(ca) * len(cb) > 40:
      res = self._cmp1(op, a, b)
    else:
      for ga, x in ca:
        for gb, y in cb:
          gg = B.And(ga, gb)
          if gg is FALSE:
            continue
          res = B.Or(res, B.And(gg, self._cmp1(op, x, y)))
    return B.Not(res) if neg else res

  def _cmp1(self, op, a, b):
    if op == '>':
      return self._cmp1('<', b, a)
    if op == '>=':
      return B.Not(self._cmp1('<', a, b))
    if op == '<=':
      return B.Not(self._cmp1('<', b, a))
    if op == 'in':
      return self._in(a, b)
    if a.op == 'const' and b.op == 'const':
      x, y = a.val, b.val
      try:
        if op == '==':
          return TRUE if x == y else FALSE
        if op == 'is':
          return TRUE if (x is y or (type(x) == type(y) and x == y)) else FALSE
        if op == '<':
          return TRUE if x < y else FALSE
      except TypeError:
        pass
    if op in ('==', 'is'):
      if a is b:
        return TRUE
      if a.op in ('ext', 'cls') and b.op in ('ext', 'cls') and (
          _is_class(a) and _is_class(b)):
        return FALSE
      known = ('obj', 'inst', 'fn', 'cls', 'closure', 'list', 'dict', 'tuple', 'loc',
               'new', 'set', 'bound', 'mod', 'str')
      if b.is_const(None) and (a.op in known or a.op == 'bool'):
        return FALSE
      if a.is_const(None) and (b.op in known or b.op == 'bool'):
        return FALSE
      if op == 'is' and b.op == 'const' and b.val is not None:
        pass
      if a.op == 'bool' and b.is_const(True):
        return a.args[0]
      if a.op == 'bool' and b.is_const(False):
        return B.Not(a.args[0])
      if a.op == 'bool' and b.op == 'bool':
        return B.ite(a.args[0], b.args[0], B.Not(b.args[0]))
      if op == 'is' and (b.is_const(None) or a.is_const(None)):
        if a.is_const(None):
          a, b = b, a
        return self.isnone(a)
      # == None is treated like `is None`.
      if b.is_const(None):
        return self.isnone(a)
      if a.is_const(None):
        return self.isnone(b)
      la, lb = self._lenarg(a), self._lenarg(b)
      if la is not None and b.is_const(0):
        return B.Not(self.truth(la))
      if op == 'is' and a.op == 'loc' and b.op == 'loc':
        return FALSE
      fa, fb = self.freeze(a), self.freeze(b)
      if fa is fb:
        return TRUE
      if op == '==' and fa.op == 'dict' and self.distinct(fa, fb):
        return FALSE
      if op == '==' and fa.op == fb.op == 'dict' and len(fa.args) == len(
          fb.args) and all(x.op == 'kv' and x.args[0].op == 'const'
                           for x in fa.args + fb.args):
        da = {x.args[0]: x.args[1] for x in fa.args}
        db = {x.args[0]: x.args[1] for x in fb.args}
        if da.keys() == db.keys():
          r = TRUE
          for k in da:
            r = B.And(r, self.cmp('==', da[k], db[k]))
          return r
      if fa.op in ('tuple', 'list') and fb.op == fa.op:
        if len(fa.args) == len(fb.args) and not any(
            p.op in ('each', 'star') for p in fa.args + fb.args):
          r = TRUE
          for p, q in zip(fa.args, fb.args):
            r = B.And(r, self.cmp('==', p, q))
          return r
      if fa.op == 'const' or (fb.op != 'const' and fa.uid > fb.uid):
        fa, fb = fb, fa
      return B.atom(T('cmp', '==', fa, fb))
    if op == '<':
      la, lb = self._lenarg(a), self._lenarg(b)
      if la is not None and b.is_const(1):
        return B.Not(self.truth(la))
      if lb is not None and a.is_const(0):
        return self.truth(lb)
      return B.atom(T('cmp', '<', self.freeze(a), self.freeze(b)))
    return B.atom(T('cmp', op, self.freeze(a), self.freeze(b)))

  def _lenarg(self, t):
    if t.op == 'call' and t.args[0].op == 'ext' and (
        t.args[0].args[0] == 'builtins.len') and t.args[1].args:
      return t.args[1].args[0]
    return None

  def _in(self, a, b):
    b = self.content(b)
    if b.op == 'call' and b.args[0].op == 'attr' and b.args[0].args[1] == (
        'keys') and not b.args[1].args:
      b = self.content(b.args[0].args[0])
    if b.op in ('list', 'tuple', 'set'):
      r = FALSE
      for it in b.args:
        if it.op == 'each':
          iter_, k, g, v = it.args
          r = B.Or(r, ANY(iter_, k, B.And(g, self.cmp('==', a, v))))
        elif it.op == 'star':
          r = B.Or(r, self._in(a, it.args[0]))
        else:
          r = B.Or(r, self.cmp('==', a, it))
      return r
    if b.op == 'dict':
      r = FALSE
      for it in b.args:
        if it.op == 'kv':
          r = B.Or(r, self.cmp('==', a, it.args[0]))
        elif it.op == 'dstar':
          r = B.Or(r, self._in(a, it.args[0]))
        elif it.op == 'each':
          iter_, k, g, v = it.args
          if v.op == 'kv':
            r = B.Or(r, ANY(iter_, k, B.And(
                g, self.cmp('==', a, v.args[0]))))
        elif it.op == 'del':
          r = B.And(r, B.Not(self.cmp('==', a, it.args[0])))
      return r
    if b.op == 'call' and b.args[0] is EXT('builtins.range') and (
        not b.args[2].args) and all(
            x.op == 'const' and type(x.val) is int for x in b.args[1].args):
      vals = range(*[x.val for x in b.args[1].args])
      if len(vals) <= 64:
        return self._in(a, T('tuple', *[C(v) for v in vals]))
    if a.op == 'const' and b.op == 'const' and isinstance(b.val, str) and (
        isinstance(a.val, str)):
      return TRUE if a.val in b.val else FALSE
    return B.atom(T('cmp', 'in', self.freeze(a), self.freeze(b)))

  def isinstance_(self, x, cls):
    g = self.full()
    res = FALSE
    for gx, xx in cases(simplify(x, g)):
      for gc, cc in cases(self.content(cls)):
        gg = B.And(gx, gc)
        if gg is not FALSE:
          res = B.Or(res, B.And(gg, self._isinstance1(xx, cc)))
    return res

  def _isinstance1(self, x, cls):
    cls = self.content(cls)
    if cls.op in ('tuple', 'list'):
      r = FALSE
      for c in cls.args:
        if c.op == 'each':
          r = B.Or(r, ANY(c.args[0], c.args[1], B.And(
              c.args[2], self._isinstance1(x, c.args[3]))))
        else:
          r = B.Or(r, self._isinstance1(x, c))
      return r
    if cls.op == 'bin' and cls.args[0] == '+':
      return B.Or(self._isinstance1(x, cls.args[1]),
                  self._isinstance1(x, cls.args[2]))
    if x.op == 'inst' and cls.op in ('ext', 'cls'):
      c = x.args[0]
      if c is cls or (c.op == 'ext' and cls.op == 'ext' and (
          cls.args[0] in KERAS_BASES.get(c.args[0], ()) or
          cls.args[0] == 'keras.layers.Layer')):
        return TRUE
      return FALSE
    tx = self.typeof(x)
    if tx is not None:
      mro = self.prog.mro(tx)
      if cls.op == 'cls':
        if cls.args[0] in mro:
          return TRUE
        if x.op in ('obj', 'self'):
          return FALSE
      elif cls.op == 'ext':
        if cls.args[0] in mro or cls.args[0] == 'builtins.object':
          return TRUE
        ext = [m for m in mro if isinstance(m, str) and m.startswith(
            ('keras.layers.', 'keras.Model', 'keras.Sequential'))]
        if ext and (cls.args[0] == 'keras.layers.Layer' or any(
            cls.args[0] in KERAS_BASES.get(m, ()) for m in ext)):
          return TRUE
        if ext and x.op == 'obj' and cls.args[0].startswith(
            ('keras.layers.', 'keras.Model', 'keras.Sequential')):
          return FALSE
        if x.op in ('obj',) and not any(
            isinstance(m, str) for m in mro if m not in (
                'builtins.object', 'object')):
          return FALSE
    xc = self.content(x)
    if cls.op == 'ext' and cls.args[0].startswith('builtins.'):
      n = cls.args[0][9:]
      if xc.op in ('list', 'dict', 'tuple', 'set'):
        return TRUE if n == xc.op else FALSE
      if xc.op == 'const' and n in ('int', 'float', 'str', 'bool', 'list',
                                    'tuple', 'dict'):
        return TRUE if isinstance(xc.val, getattr(_pybuiltins, n)) else FALSE
    if xc.op == 'const' and xc.val is None:
      return FALSE
    if xc.op in ('fn', 'closure', 'bound', 'list', 'dict', 'tuple') and (
        cls.op == 'cls'):
      return FALSE
    if xc.op == 'cls' and cls.op == 'cls':
      return FALSE
    return B.atom(T('isinstance', self.freeze(x), cls))

  # -- branching --------------------------------------------------------------

  def merge(self, s1, s2):
    if s1.live is FALSE:
      return s2
    if s2.live is FALSE:
      return s1
    live = B.Or(s1.live, s2.live)
    c = B.constrain(s1.live, live)
    if c is TRUE:
      # overlapping guards cannot occur; prefer s1.
      c = s1.live
    vars_ = self._merge_map(c, s1.vars, s2.vars, lambda k: None)
    heap = self._merge_map(c, s1.heap, s2.heap, self._heap_default)
    return State(vars_, heap, live)

  def _heap_default(self, k):
    if k[0] == 'f':
      return self._field_default(k[1], k[2])
    return k[1] if k[1].op != 'loc' else None

  def _field_default(self, obj, name):
    return T('attr', obj, name)

  def _merge_map(self, c, a, b, default):
    out = {}
    for k, v in a.items():
      w = b.get(k)
      if w is v:
        out[k] = v
        continue
      if w is None:
        w = default(k)
        if w is None:
          out[k] = v
          continue
      out[k] = self.join(c, v, w)
    for k, w in b.items():
      if k not in a:
        v = default(k)
        out[k] = w if v is None else self.join(c, v, w)
    return out

  def join(self, c, a, b):
    return ITE(c, a, b)

  def branch(self, g, then, else_):
    base = self.st
    live = base.live
    g1, g2 = B.And(live, g), B.And(live, B.Not(g))
    f1 = self.full(g1) is FALSE
    f2 = self.full(g2) is FALSE
    if f1 and f2:
      return NONE
    if f2:
      return then()
    if f1:
      return else_()
    self.st = base.copy(g1)
    v1 = then()
    s1 = self.st
    self.st = base.copy(g2)
    v2 = else_()
    s2 = self.st
    if s1.live is FALSE:
      self.st = s2
      return v2
    if s2.live is FALSE:
      self.st = s1
      return v1
    c = B.constrain(s1.live, B.Or(s1.live, s2.live))
    self.st = self.merge(s1, s2)
    if v1 is None or v2 is None:
      return v1 if v2 is None else v2
    return ITE(c, v1, v2)

  def each_case(self, v, fn):
    """Applies fn to each leaf of v under its guard, joining the results."""
    cs = cases(simplify(v, self.full()), TRUE)
    cs = [(g, x) for g, x in cs if self.full(B.And(self.st.live, g))
          is not FALSE]
    if len(cs) == 1:
      return fn(cs[0][1])
    if not cs:
      return NONE
    g, x = cs[0]
    rest = cs[1:]

    def other():
      return self.each_case(_build(rest), fn)
    return self.branch(g, lambda: fn(x), other)

  # -- names ------------------------------------------------------------------

  def lookup(self, frame, name):
    if name not in frame.nonlocals:
      v = self.st.vars.get((frame.fid, name))
      if v is not None:
        return simplify(v, self.full()) if v.op in ('ite', 'bool') else v
    for fid in frame.chain[1:]:
      v = self.st.vars.get((fid, name))
      if v is not None:
        return simplify(v, self.full()) if v.op in ('ite', 'bool') else v
    return self.global_name(frame.module, name, frame)

  def global_name(self, module, name, frame=None):
    r = self.prog.resolve(module, name)
    if r is None:
      if name in _BUILTINS:
        return EXT('builtins.' + name)
      return T('free', module.name, name)
    return self.resolved(r)

  def resolved(self, r):
    if r[0] == 'fn':
      return T('fn', r[1])
    if r[0] == 'cls':
      return T('cls', r[1])
    if r[0] == 'mod':
      return T('mod', r[1])
    if r[0] == 'ext':
      return EXT(r[1])
    if r[0] == 'assign':
      return self.module_value(r[1], r[3], r[2])
    raise AnalysisError('cannot resolve %r' % (r,))

  def module_value(self, module, name, node):
    key = (module.name, name)
    if key not in self.modmemo:
      self.modmemo[key] = T('free', module.name, name)
      self.modmemo[key] = self.const_eval(module, node)
    return self.modmemo[key]

  def const_eval(self, module, node, cls=None):
    """Evaluates a module/class level initialiser in isolation."""
    sub = Interp(self.prog, self.opaque, self.max_depth, budget=50000)
    sub.modmemo = self.modmemo
    sub.objinfo = self.objinfo
    sub.closures = self.closures
    sub.nobj = 1000000 + self.nobj + len(self.modmemo) * 1000
    fr = Frame(module, cls=cls)
    if cls is not None:
      for k in self.prog.mro(cls)[::-1]:
        if isinstance(k, ClassInfo):
          for n in k.attrs:
            if k.attrs[n] is not node and n not in (
                x.id for x in ast.walk(node) if isinstance(x, ast.Name)):
              continue
            if k.attrs[n] is not node:
              sub.st.vars[(fr.fid, n)] = self.const_eval(k.module, k.attrs[n])
    v = sub.freeze(sub.ev(node, fr))
    self.class_obj_heap(sub)
    return v

  def class_obj_heap(self, sub):
    for k, v in sub.st.heap.items():
      if k[0] == 'f' and k not in self.st.heap:
        self.st.heap[k] = sub.freeze(v)

  # -- attributes ---------------------------------------------------------------

  def get_attr(self, base, name, frame=None):
    if base.op == 'ite':
      return self.each_case(base, lambda b: self.get_attr(b, name, frame))
    if base.op == 'mod':
      m = base.args[0]
      r = self.prog.resolve(m, name)
      if r is None:
        r = self.prog.resolve_dotted(m.name + '.' + name)
      return self.resolved(r)
    if base.op == 'ext':
      if name == '__name__' and base.args[0].startswith('keras.layers.'):
        return C(base.args[0].rsplit('.', 1)[1])
      return EXT(canon_ext(base.args[0] + '.' + name))
    if base.op == 'cls':
      c = base.args[0]
      v = self.st.heap.get(('f', base, name))
      if v is not None:
        return simplify(v, self.full())
      f = self.prog.find_method(c, name)
      if f is not None:
        if f.is_classmethod:
          return T('bound', T('fn', f), base)
        return T('fn', f)
      a = self.prog.find_class_attr(c, name)
      if a is not None:
        return self.class_attr(a)
      nested = c.module.classes.get(c.qual + '.' + name)
      if nested is not None:
        return T('cls', nested)
      if name == '__name__':
        return C(c.name)
      return T('attr', base, name)
    if base.op == 'super':
      selft, after = base.args
      c = self.typeof(selft) if selft.op != 'cls' else selft.args[0]
      f = self.prog.find_method(c, name, after) if c else None
      if f is not None:
        if f.is_property:
          return self.invoke(f, selft, [], [])
        if f.is_static:
          return T('fn', f)
        return T('bound', T('fn', f), selft)
      if c is not None:
        for k in self.prog.mro(c)[self.prog.mro(c).index(after) + 1:] if (
            after in self.prog.mro(c)) else []:
          if isinstance(k, ClassInfo) and name in k.attrs:
            return self.class_attr((k, k.attrs[name]))
      return T('attr', base, name)
    if base.op == 'nt':
      for kv in base.args[1:]:
        if kv.args[0].is_const(name):
          return kv.args[1]
      return T('attr', base, name)
    v = self.st.heap.get(('f', base, name))
    if not self.nolog:
      self.reads.add(('f', base, name, v))
    if v is not None:
      return simplify(v, self.full())
    if name == '__class__' and base.op == 'inst':
      return base.args[0]
    if name == '__class__':
      c = self.typeof(base)
      if c is not None and base.op in ('obj', 'self'):
        return T('cls', c)
      return T('call', EXT('builtins.type'), T('args', base), T('kw'))
    c = self.typeof(base)
    if c is not None:
      f = self.prog.find_method(c, name)
      if f is not None:
        a = None
        for k in self.prog.mro(c):
          if isinstance(k, ClassInfo) and (name in k.methods or
                                           name in k.attrs):
            if name not in k.methods:
              a = (k, k.attrs[name])
            break
        if a is not None:
          return self.class_attr(a)
        if f.is_property:
          if f.is_abstract:
            return T('attr', base, name)
          return self.invoke(f, base, [], [])
        if f.is_static:
          return T('fn', f)
        if f.is_classmethod:
          return T('bound', T('fn', f), T('cls', c))
        return T('bound', T('fn', f), base)
      a = self.prog.find_class_attr(c, name)
      if a is not None:
        if base.op == 'self' and self._assigned_in_methods(c, name):
          return T('attr', base, name)
        return self.class_attr(a)
    return T('attr', base, name)

  def _assigned_in_methods(self, c, name):
    for k in self.prog.mro(c):
      if isinstance(k, ClassInfo):
        for m in list(k.methods.values()):
          for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and n.attr == name and isinstance(
                n.ctx, ast.Store) and isinstance(
                    n.value, ast.Name) and n.value.id == 'self':
              return True
    return False

  def class_attr(self, a):
    k, node = a
    key = ('cls', k.full, id(node))
    if key not in self.modmemo:
      self.modmemo[key] = T('free', k.full, 'attr')
      self.modmemo[key] = self.const_eval(k.module, node, cls=k)
    return self.modmemo[key]

  def set_attr(self, base, name, value, record=True):
    cs = cases(simplify(base, self.full()))
    if len(cs) > 1:
      self.each_case(base, lambda b: self.set_attr(b, name, value) or NONE)
      return
    base = cs[0][1]
    c = self.typeof(base)
    if c is not None:
      s = self.prog.find_setter(c, name)
      if s is not None:
        self.invoke(s, base, [value], [])
        return
    if record:
      self.effect('store', base, name, self.freeze(value))
    self.st.heap[('f', base, name)] = value

  # -- subscripts ----------------------------------------------------------------

  def get_sub(self, base, key):
    if base.op == 'ite':
      return self.each_case(base, lambda b: self.get_sub(b, key))
    key = simplify(key, self.full())
    if key.op == 'ite':
      return self.each_case(key, lambda k: self.get_sub(base, k))
    c = self.content(base)
    if c.op == 'ite':
      return self.each_case(c, lambda b: self.get_sub(b, key))
    if c.op in ('list', 'tuple'):
      if key.op == 'const' and isinstance(key.val, int):
        i = key.val
        if i >= 0:
          if i < len(c.args) and not any(
              x.op in ('each', 'star') for x in c.args[:i + 1]):
            return c.args[i]
        elif -i <= len(c.args) and not any(
            x.op in ('each', 'star') for x in c.args[i:]):
          return c.args[i]
      if key.op == 'slice' and not any(
          x.op in ('each', 'star') for x in c.args):
        vals = [k.val if k.op == 'const' else 'x' for k in key.args]
        if 'x' not in vals:
          return T(c.op, *c.args[slice(*vals)])
      if key.op == 'idx' and len(c.args) == 1 and c.args[0].op == 'each':
        it, k, g, v = c.args[0].args
        if g is TRUE and it is key.args[0]:
          return rebind(v, it, k, key.args[1])
    if c.op == 'dict':
      fk = self.freeze(key)
      for e in reversed(c.args):
        if e.op == 'kv':
          q = self.cmp('==', e.args[0], fk)
          if q is TRUE:
            return e.args[1]
          if q is FALSE:
            continue
          break
        if e.op == 'dstar':
          inner = self.content(e.args[0])
          if inner is e.args[0] or inner.op != 'dict':
            if e is c.args[0]:
              return T('sub', self.unorig(e.args[0]), fk)
            break
          return self.get_sub(e.args[0], key)
        if e.op == 'each' and e.args[3].op == 'kv':
          if e.args[3].args[0] is fk:
            return e.args[3].args[1]
          # key built over the same iteration at another depth
          it, k, g, v = e.args
          for s in subterms(fk):
            if s.op in ('elem', 'idx') and s.args[0] is it:
              v2 = rebind(v, it, k, s.args[1])
              if v2.args[0] is fk:
                return v2.args[1]
        break
    if key.op == 'idx' and key.args[0] is base:
      return elem(base, key.args[1])
    if base.op == 'const' and key.op == 'const':
      try:
        return C(base.val[key.val])
      except Exception:  # pylint: disable=broad-except
        pass
    return T('sub', self.freeze(base), self.freeze(key))

  def unorig(self, t):
    return t.args[0] if t.op == 'orig' else self.freeze(t)

  def set_sub(self, base, key, value):
    cs = cases(simplify(base, self.full()))
    if len(cs) > 1:
      self.each_case(base, lambda b: self.set_sub(b, key, value) or NONE)
      return
    base = cs[0][1]
    self.effect('setitem', self.freeze(base) if base.op != 'loc' else base,
                self.freeze(key), self.freeze(value))
    self.nolog += 1
    c = self.content(base)
    self.nolog -= 1
    self.put_content(base, self._kv_put(base, c, key, value))

  def _kv_put(self, base, c, key, value):
    key = self.freeze(key)
    if c.op == 'ite':
      g, a, b = c.args
      return ITE(g, self._kv_put(base, a, key, value),
                 self._kv_put(base, b, key, value))
    if c.op == 'dict':
      out = [e for e in c.args
             if not (e.op == 'kv' and e.args[0] is key)]
      # preserve position semantics loosely: last write wins
      return T('dict', *(out + [T('kv', key, value)]))
    if c.op == 'list' and key.op == 'const' and isinstance(key.val, int):
      i = key.val
      if 0 <= i < len(c.args) and not any(
          x.op in ('each', 'star') for x in c.args):
        return T('list', *(c.args[:i] + (value,) + c.args[i + 1:]))
    return T('dict', T('dstar', c if c.op in (
        'list', 'dict', 'set', 'tuple', 'loc') else T('orig', c)),
             T('kv', key, value))

  def put_content(self, base, content):
    self.st.heap[('c', base)] = content

  # -- expressions -----------------------------------------------------------------

  def ev(self, node, fr):
    self.budget -= 1
    if self.budget < 0:
      raise AnalysisError('analysis budget exceeded')
    m = getattr(self, 'ev_' + type(node).__name__, None)
    if m is None:
      self.unsupported.append((fr.module.rel, getattr(node, 'lineno', 0),
                               type(node).__name__))
      return T('unsupported', type(node).__name__, id(node))
    return m(node, fr)

  def at(self, node, fr):
    self.cur_loc = (fr.module.rel, getattr(node, 'lineno', self.cur_loc[1]))

  def ev_Constant(self, node, fr):
    return C(node.value)

  def ev_Name(self, node, fr):
    return self.lookup(fr, node.id)

  def ev_Attribute(self, node, fr):
    b = self.ev(node.value, fr)
    self.at(node, fr)
    return self.get_attr(b, node.attr, fr)

  def ev_Subscript(self, node, fr):
    b = self.ev(node.value, fr)
    k = self.ev(node.slice, fr)
    self.at(node, fr)
    return self.get_sub(b, k)

  def ev_Slice(self, node, fr):
    return T('slice', *[NONE if x is None else self.ev(x, fr)
                        for x in (node.lower, node.upper, node.step)])

  def ev_Index(self, node, fr):
    return self.ev(node.value, fr)

  def ev_Tuple(self, node, fr):
    return T('tuple', *self._items(node.elts, fr))

  def ev_List(self, node, fr):
    return self.new_loc(T('list', *self._items(node.elts, fr)))

  def ev_Set(self, node, fr):
    return self.new_loc(T('set', *self._items(node.elts, fr)))

  def _items(self, elts, fr):
    out = []
    for e in elts:
      if isinstance(e, ast.Starred):
        v = self.ev(e.value, fr)
        c = self.content(v)
        if c.op in ('list', 'tuple'):
          out.extend(c.args)
        else:
          out.append(T('star', self.freeze(v)))
      else:
        out.append(self.ev(e, fr))
    return out

  def ev_Dict(self, node, fr):
    out = []
    for k, v in zip(node.keys, node.values):
      vv = self.ev(v, fr)
      if k is None:
        c = self.content(vv)
        if c.op == 'dict':
          out.extend(c.args)
        else:
          out.append(T('dstar', self.freeze(vv)))
      else:
        out.append(T('kv', self.freeze(self.ev(k, fr)), vv))
    return self.new_loc(T('dict', *out))

  def ev_BinOp(self, node, fr):
    a = self.ev(node.left, fr)
    b = self.ev(node.right, fr)
    self.at(node, fr)
    return self.binop(_BINOPS[type(node.op)], a, b)

  def binop(self, op, a, b):
    a, b = simplify(a, self.full()), simplify(b, self.full())
    if a.op == 'const' and b.op == 'const':
      x, y = a.val, b.val
      try:
        r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
             '/': lambda: x / y, '//': lambda: x // y, '%': lambda: x % y,
             '**': lambda: x ** y, '&': lambda: x & y, '|': lambda: x | y,
             '<<': lambda: x << y, '>>': lambda: x >> y,
             '^': lambda: x ^ y}[op]()
        if isinstance(r, (int, float, str, bool)) and len(str(r)) < 400:
          return C(r)
      except Exception:  # pylint: disable=broad-except
        pass
    ca, cb = self.content(a), self.content(b)
    if op == '+':
      if ca.op in ('list', 'tuple') or cb.op in ('list', 'tuple'):
        if ca.op == cb.op:
          r = T(ca.op, *(ca.args + cb.args))
          return self.new_loc(r) if ca.op == 'list' else r
        kind = ca.op if ca.op in ('list', 'tuple') else cb.op
        if ca.op == 'ite' or cb.op == 'ite':
          return self.each_case(ca, lambda x: self.each_case(
              cb, lambda y: self.binop('+', x, y)))
        xs = ca.args if ca.op == kind else (T('star', self.freeze(a)),)
        ys = cb.args if cb.op == kind else (T('star', self.freeze(b)),)
        r = T(kind, *(xs + ys))
        return self.new_loc(r) if kind == 'list' else r
    if op == '*' and ca.op in ('list', 'tuple') and cb.op == 'const' and (
        isinstance(cb.val, int) and 0 <= cb.val <= 16):
      r = T(ca.op, *(ca.args * cb.val))
      return self.new_loc(r) if ca.op == 'list' else r
    # Boolean algebra on boolean values.
    truth = lambda x: x.op == 'bool' or x.op == 'const' and isinstance(
        x.val, bool)
    if op in ('&', '|') and truth(a) and truth(b):
      return BOOL((B.And if op == '&' else B.Or)(to_guard(a), to_guard(b)))
    c = self.typeof(a)
    if c is not None:
      nm = {'+': '__add__', '-': '__sub__', '*': '__mul__',
            '/': '__truediv__'}.get(op)
      if nm and self.prog.find_method(c, nm):
        return self.invoke(self.prog.find_method(c, nm), a, [b], [])
    return T('bin', op, self.freeze(a), self.freeze(b))

  def ev_UnaryOp(self, node, fr):
    v = self.ev(node.operand, fr)
    if isinstance(node.op, ast.Not):
      return BOOL(B.Not(self.truth(v)))
    if isinstance(node.op, ast.USub):
      if v.op == 'const' and isinstance(v.val, (int, float)):
        return C(-v.val)
      return T('bin', '*', C(-1), self.freeze(v))
    if isinstance(node.op, ast.UAdd):
      return v
    return T('un', '~', self.freeze(v))

  def ev_BoolOp(self, node, fr):
    isand = isinstance(node.op, ast.And)

    def go(i):
      v = self.ev(node.values[i], fr)
      if i == len(node.values) - 1:
        return v
      g = self.truth(v)
      if v.op == 'bool' or v.op == 'const' and isinstance(v.val, bool):
        keep = FALSE_T if isand else TRUE_T
      else:
        keep = v
      if isand:
        return self.branch(g, lambda: go(i + 1), lambda: keep)
      return self.branch(g, lambda: keep, lambda: go(i + 1))
    return go(0)

  def ev_Compare(self, node, fr):
    left = self.ev(node.left, fr)
    res = TRUE
    for op, c in zip(node.ops, node.comparators):
      right = self.ev(c, fr)
      self.at(node, fr)
      o = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
           ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
           ast.In: 'in', ast.NotIn: 'not in'}[type(op)]
      res = B.And(res, self.compare(o, left, right))
      left = right
    return BOOL(res)

  def compare(self, o, a, b):
    if o in ('==', '!='):
      c = self.typeof(a)
      if c is not None:
        f = self.prog.find_method(c, '__eq__')
        if f is not None and not self.opaque(f) and sum(
            1 for x in self.stack if x[1] is f.node) <= (
                3 if self.unroll else 0):
          r = self.truth(self.invoke(f, a, [b], []))
          return B.Not(r) if o == '!=' else r
    return self.cmp(o, a, b)

  def ev_IfExp(self, node, fr):
    g = self.truth(self.ev(node.test, fr))
    return self.branch(g, lambda: self.ev(node.body, fr),
                       lambda: self.ev(node.orelse, fr))

  def ev_NamedExpr(self, node, fr):
    v = self.ev(node.value, fr)
    self.assign_target(node.target, v, fr)
    return v

  def ev_Lambda(self, node, fr):
    return self.make_closure(node, fr)

  def make_closure(self, node, fr):
    fr.escapes = True
    self.nobj += 1
    t = T('closure', self.nobj)
    self.closures[t] = (node, fr)
    return t

  def ev_JoinedStr(self, node, fr):
    parts = []
    for v in node.values:
      if isinstance(v, ast.FormattedValue):
        parts.append(self.freeze(self.ev(v.value, fr)))
      else:
        parts.append(C(v.value))
    if all(p.op == 'const' for p in parts):
      return C(''.join(str(p.val) for p in parts))
    return T('str', *parts)

  def ev_FormattedValue(self, node, fr):
    return self.ev(node.value, fr)

  def ev_Starred(self, node, fr):
    return T('star', self.freeze(self.ev(node.value, fr)))

  def ev_ListComp(self, node, fr):
    return self.comp(node, fr, 'list')

  def ev_SetComp(self, node, fr):
    return self.comp(node, fr, 'set')

  def ev_GeneratorExp(self, node, fr):
    return self.comp(node, fr, 'list')

  def ev_DictComp(self, node, fr):
    return self.comp(node, fr, 'dict')

  def comp(self, node, fr, kind):
    loc = self.new_loc(T(kind))
    sub = Frame(fr.module, fr.cls, fr.self_term, fr.chain, fr.fn)

    def gen(i):
      if i == len(node.generators):
        c = self.content(loc)
        if kind == 'dict':
          k = self.freeze(self.ev(node.key, sub))
          v = self.ev(node.value, sub)
          part = T('kv', k, v)
        else:
          part = self.ev(node.elt, sub)
        c = self.content(loc)
        self.put_content(loc, self._append(c, [part]))
        return
      g = node.generators[i]
      it = self.ev(g.iter, sub)

      def body():
        for cond in g.ifs:
          t = self.truth(self.ev(cond, sub))
          if i == 0 or True:
            self.st.live = B.And(self.st.live, t)
          if self.full() is FALSE:
            return
        gen(i + 1)
      self.loop(it, lambda v: self.assign_target(g.target, v, sub), body,
                sub, assigned=set(), filterlike=True)
    gen(0)
    if sub.escapes:
      fr.escapes = True
    c = self.content(loc)
    # Generator / list used once: identity is unimportant.
    return loc

  def _append(self, c, parts):
    if c.op == 'ite':
      g, a, b = c.args
      return ITE(g, self._append(a, parts), self._append(b, parts))
    if c.op in ('list', 'set', 'dict'):
      return T(c.op, *(c.args + tuple(parts)))
    return T('list', T('star', c), *parts)

  def ev_Await(self, node, fr):
    return self.ev(node.value, fr)

  def ev_Yield(self, node, fr):
    v = NONE if node.value is None else self.ev(node.value, fr)
    if fr.gen is not None:
      self.container_method(fr.gen, 'append', [v], [])
      return NONE
    self.effect('yield', self.freeze(v))
    return T('yieldresult')

  def ev_YieldFrom(self, node, fr):
    v = self.ev(node.value, fr)
    if fr.gen is not None:
      self.container_method(fr.gen, 'extend', [v], [])
      return NONE
    self.effect('yield', self.freeze(v))
    return T('yieldresult')

  # -- calls ---------------------------------------------------------------------

  def ev_Call(self, node, fr):
    f = node.func
    if isinstance(f, ast.Name) and f.id == 'super' and (
        (fr.fid, 'super') not in self.st.vars):
      if node.args:
        k = self.ev(node.args[0], fr)
        s = self.ev(node.args[1], fr)
        after = k.args[0] if k.op == 'cls' else fr.cls
        return T('super', s, after)
      return T('super', fr.self_term, fr.cls)
    if isinstance(f, ast.Attribute):
      base = self.ev(f.value, fr)
      args, kwargs = self.ev_args(node, fr)
      self.at(node, fr)
      return self.call_method(base, f.attr, args, kwargs, node, fr)
    callee = self.ev(f, fr)
    args, kwargs = self.ev_args(node, fr)
    self.at(node, fr)
    return self.call(callee, args, kwargs, node, fr)

  def ev_args(self, node, fr):
    args, kwargs = [], []
    for a in node.args:
      if isinstance(a, ast.Starred):
        v = self.ev(a.value, fr)
        c = self.content(v)
        if c.op in ('list', 'tuple') and not any(
            x.op in ('each', 'star') for x in c.args):
          args.extend(c.args)
        else:
          args.append(T('star', self.freeze(v)))
      else:
        args.append(self.ev(a, fr))
    for k in node.keywords:
      v = self.ev(k.value, fr)
      if k.arg is None:
        self.expand_kwargs(v, kwargs)
      else:
        kwargs.append((k.arg, v))
    return args, kwargs

  def expand_kwargs(self, v, kwargs):
    c = self.content(v)
    if c.op == 'dict':
      for e in c.args:
        if e.op == 'kv' and e.args[0].op == 'const' and isinstance(
            e.args[0].val, str):
          kwargs[:] = [x for x in kwargs if x[0] != e.args[0].val]
          kwargs.append((e.args[0].val, e.args[1]))
        elif e.op == 'dstar':
          inner = self.content(e.args[0])
          if inner is not e.args[0] and inner.op == 'dict':
            self.expand_kwargs(e.args[0], kwargs)
          else:
            kwargs.append(('**', self.freeze(e.args[0])))
        else:
          kwargs.append(('**', T('dict', self.freeze(e))))
    else:
      kwargs.append(('**', self.freeze(v)))

  def isnone(self, a):
    if a.op == 'sub' and isinstance(a.args[1], Term) and (
        a.args[1].op == 'slice' or a.args[1].op == 'tuple' and any(
            x.op == 'slice' for x in a.args[1].args)):
      return FALSE     # a slice is never None
    if a.op == 'ext' and _is_class(a):
      return FALSE
    if a.op == 'call' and a.args[0] is EXT('builtins.zip'):
      return FALSE
    if a.op in ('bin', 'poly') or (
        a.op == 'call' and a.args[0].op == 'fn' and
        gives_value(a.args[0].args[0])):
      return FALSE
    return B.atom(T('isnone', a))

  def call_method(self, base, name, args, kwargs, node=None, fr=None):
    if base.op == 'ite':
      return self.each_case(
          base, lambda b: self.call_method(b, name, args, kwargs, node, fr))
    if (base, name) in self.results:
      self.opaque_call(T('attr', base, name), args, kwargs)
      return self.results[base, name]
    if name in ('all', 'any') and not args and not kwargs and (
        base.op == 'bool' or base.op == 'const' and isinstance(
            base.val, bool)):
      return base  # of the comparison of two arrays
    if base.op == 'const' and isinstance(base.val, str) and name in (
        'split', 'rsplit', 'partition', 'rpartition', 'upper', 'lower',
        'strip', 'startswith', 'endswith', 'replace', 'join') and not (
            kwargs) and all(a.op == 'const' for a in args):
      try:
        v = getattr(base.val, name)(*[a.val for a in args])
      except Exception:  # pylint: disable=broad-except
        v = None
      if isinstance(v, tuple):
        return TUP(*[C(x) for x in v])
      if isinstance(v, list):
        return self.new_loc(T('list', *[C(x) for x in v]))
      if v is not None:
        return C(v)
    r = self.container_method(base, name, args, kwargs)
    if r is not None:
      return r
    callee = self.get_attr(base, name, fr)
    if callee.op == 'attr' and callee.args[0] is base:
      r = self.special_method(base, name, args, kwargs, callee)
      if r is not None:
        return r
    return self.call(callee, args, kwargs, node, fr)

  def index_of(self, c, x):
    """Position of x in a list whose elements are known to differ from it."""
    x = simplify(x, self.full())
    fx = self.freeze(x)
    for i, p in enumerate(c.args):
      if p is x or p.op not in ('each', 'star') and self.freeze(p) is fx:
        return C(i)
      if not self.distinct(self.freeze(p), fx):
        return None
    return None

  def distinct(self, a, b):
    """a and b are certainly not equal."""
    if a.op != b.op:
      return False
    if a.op == 'const':
      return a.val != b.val
    if a.op == 'obj' and self.prog.find_method(a.args[0], '__eq__'):
      return False
    if a.op in ('inst', 'obj', 'cls'):
      return a is not b
    if a.op == 'dict':
      if all(e.op == 'kv' and e.args[0].op == 'const' for e in a.args + b.args):
        if {e.args[0] for e in a.args} != {e.args[0] for e in b.args}:
          return True
      kb = {e.args[0]: e.args[1] for e in b.args if e.op == 'kv'}
      return any(e.op == 'kv' and e.args[0] in kb and self.distinct(
          e.args[1], kb[e.args[0]]) for e in a.args)
    if a.op in ('list', 'tuple') and not any(
        x.op in ('each', 'star') for x in a.args + b.args):
      return len(a.args) != len(b.args) or any(
          self.distinct(x, y) for x, y in zip(a.args, b.args))
    return False

  def container_method(self, base, name, args, kwargs):
    quiet = name in ('append', 'add', 'extend', 'update', 'insert')
    self.nolog += quiet
    c = self.content(base)
    self.nolog -= quiet
    if c.op == 'ite' and name in (_MUTATORS | {'get', 'items', 'keys',
                                               'values', 'copy'}):
      kinds = {x.op for _, x in cases(c)}
      if kinds <= {'list'} and name == 'append':
        self.put_content(base, self._append(c, [args[0]]))
        return NONE
    if c.op == 'const' and isinstance(c.val, str):
      if all(a.op == 'const' for a in args) and not kwargs and name in (
          'format', 'startswith', 'endswith', 'lower', 'upper', 'join',
          'replace', 'strip', 'split'):
        try:
          r = getattr(c.val, name)(*[a.val for a in args])
          if isinstance(r, (str, bool)):
            return C(r)
        except Exception:  # pylint: disable=broad-except
          pass
      return None
    if c.op == 'list' or c.op == 'set':
      if name in ('append', 'add') and len(args) == 1:
        self.put_content(base, self._append(c, [args[0]]))
        return NONE
      if name in ('extend', 'update') and len(args) == 1:
        x = self.content(args[0])
        if x.op in ('list', 'tuple', 'set'):
          parts = list(x.args)
        else:
          parts = [T('star', self.freeze(args[0]))]
        self.put_content(base, self._append(c, parts))
        return NONE
      if name == 'insert' and len(args) == 2 and args[0].is_const(0):
        self.put_content(base, T(c.op, args[1], *c.args))
        return NONE
      if name == 'copy':
        return self.new_loc(c)
      if name == 'sort' and not args and c.op == 'list':
        v = self.sorted_(base, kwargs)
        self.put_content(base, v if v.op == 'list' else T(
            'list', T('star', v)))
        return NONE
      if name == 'index' and len(args) == 1:
        return self.index_of(c, args[0])
      if name == 'remove' and len(args) == 1 and c.op == 'list':
        i = self.index_of(c, args[0])
        if i is not None and i.op == 'const':
          self.put_content(base, T('list', *(
              c.args[:i.val] + c.args[i.val + 1:])))
          return NONE
      if name == 'insert' and len(args) == 2 and c.op == 'list' and (
          args[0].op == 'const' and isinstance(args[0].val, int)) and not any(
              x.op in ('each', 'star') for x in c.args):
        l = list(c.args)
        l.insert(args[0].val, args[1])
        self.put_content(base, T('list', *l))
        return NONE
      return None
    if c.op == 'dict':
      if name == 'update':
        parts = []
        for a in args:
          x = self.content(a)
          if x.op == 'dict':
            parts.extend(x.args)
          else:
            parts.append(T('dstar', self.freeze(a)))
        for k, v in kwargs:
          if k == '**':
            parts.append(T('dstar', v))
          else:
            parts.append(T('kv', C(k), v))
        out = c
        for p in parts:
          if p.op == 'kv':
            out = self._kv_put(base, out, p.args[0], p.args[1])
          else:
            out = self._append(out, [p])
        self.put_content(base, out)
        return NONE
      if name in ('get', 'pop') and args:
        dflt = args[1] if len(args) > 1 else NONE
        g = self._in(args[0], c)
        v = ITE(g, self.get_sub(base, args[0]), dflt)
        if name == 'pop':
          key = self.freeze(args[0])
          self.put_content(base, T('dict', *([
              e for e in c.args if not (
                  e.op == 'kv' and e.args[0] is key)] + (
                      [] if g is FALSE else [T('del', key)] if any(
                          e.op != 'kv' for e in c.args) else []))))
        return v
      if name == 'setdefault' and args:
        g = self._in(args[0], c)
        dflt = args[1] if len(args) > 1 else NONE

        def put():
          self.set_sub(base, args[0], dflt)
          return dflt
        return self.branch(g, lambda: self.get_sub(base, args[0]), put)
      if name in ('items', 'keys', 'values') and not args:
        return T('view', name, base)
      if name == 'copy':
        return self.new_loc(c)
      return None
    if name in ('items', 'keys', 'values') and not args and not kwargs and (
        self.typeof(base) is None or not self.prog.find_method(
            self.typeof(base), name)) and base.op not in ('mod', 'cls'):
      return T('view', name, self.freeze(base))
    if name == 'get' and args and base.op not in ('mod', 'ext', 'cls', 'self',
                                                  'obj', 'super') and (
        self.typeof(base) is None and len(args) <= 2):
      dflt = args[1] if len(args) > 1 else NONE
      b = self.freeze(base)
      return ITE(B.atom(T('cmp', 'in', self.freeze(args[0]), b)),
                 self.get_sub(base, args[0]), dflt)
    return None

  def special_method(self, base, name, args, kwargs, callee):
    """Methods of external objects with known meaning."""
    if name in ('assign', 'assign_add', 'assign_sub') and args:
      v = self.freeze(args[0])
      b = self.freeze(base)
      if name == 'assign_add':
        v = T('bin', '+', b, v)
      elif name == 'assign_sub':
        v = T('bin', '-', b, v)
      self.effect('assign', b, v)
      return T('assigned', b, v)
    if name == 'update' and base.op not in ('super',):
      if base.op == 'attr' and base.args[1] == 'extended' and len(args) >= 2:
        return self.strategy_update(args, kwargs)
      if (len(args) == 1 and self.content(args[0]).op == 'dict') or (
          not args and kwargs):
        self.effect('call', callee, T('args', *[
            self.freeze(a) for a in args]), T('kw'))
        self.put_content(base, T('dict', T('dstar', T('orig', base))))
        self.container_method(base, 'update', args, kwargs)
        return NONE
    if name in ('append', 'add') and len(args) == 1 and not kwargs:
      self.effect('call', callee, T('args', self.freeze(args[0])), T('kw'))
      self.put_content(base, T('list', T('star', base), args[0]))
      return NONE
    if name == 'pop' and args and args[0].op == 'const' and isinstance(
        args[0].val, str):
      b = self.freeze(base)
      v = T('sub', b, args[0])
      if len(args) > 1:
        v = ITE(B.atom(T('cmp', 'in', args[0], b)), v, args[1])
      self.effect('call', callee, T('args', *[
          self.freeze(a) for a in args]), T('kw'))
      self.put_content(base, T('dict', T('dstar', T('orig', base)), T('del', args[0])))
      return v
    if name in ('merge_call', 'merge_run') and args:
      rest = self.arglist(args[1:], kwargs)
      return self.call(args[0], [T('strategy')] + rest, [])
    return None

  def strategy_update(self, args, kwargs):
    rest = self.arglist(args[2:], [
        (k, v) for k, v in kwargs if k == 'args'])
    return self.call(args[1], [args[0]] + rest, [])

  def arglist(self, args, kwargs):
    a = None
    if args:
      a = args[0]
    for k, v in kwargs:
      if k == 'args':
        a = v
    if a is None:
      return []
    c = self.content(a)
    if c.op in ('tuple', 'list'):
      return list(c.args)
    return [T('star', self.freeze(a))]

  def call(self, callee, args, kwargs, node=None, fr=None):
    callee = simplify(callee, self.full())
    op = callee.op
    if op == 'ite':
      return self.each_case(
          callee, lambda c: self.call(c, args, kwargs, node, fr))
    if op == 'fn':
      return self.invoke(callee.args[0], None, args, kwargs)
    if op == 'bound':
      return self.invoke(callee.args[0].args[0], callee.args[1], args, kwargs)
    if op == 'closure':
      return self.invoke_closure(callee, args, kwargs)
    if op == 'partial':
      f, pre, kw = callee.args
      k2 = [(kw.args[i], kw.args[i + 1]) for i in range(0, len(kw.args), 2)]
      return self.call(f, list(pre.args) + args, k2 + kwargs)
    if op == 'cls':
      return self.instantiate(callee.args[0], args, kwargs)
    if op == 'ext':
      return self.ext_call(callee.args[0], callee, args, kwargs, fr)
    if op == 'call' and callee.args[0].op == 'ext' and (
        callee.args[0].args[0] == 'collections.namedtuple'):
      return self.make_nt(callee, args, kwargs)
    if op == 'call' and callee.args[0].op == 'ext' and (
        callee.args[0].args[0] == 'operator.attrgetter') and len(args) == 1:
      names = callee.args[1].args
      if len(names) == 1 and not kwargs:
        v = args[0]
        if names[0].op == 'const' and isinstance(names[0].val, str):
          for part in names[0].val.split('.'):
            v = self.get_attr(v, part, fr)
          return v
        return T('getattr', self.freeze(v), names[0])
    c = self.typeof(callee)
    if c is not None:
      f = self.prog.find_method(c, '__call__')
      if f is not None:
        return self.invoke(f, callee, args, kwargs)
    return self.opaque_call(callee, args, kwargs)

  def make_nt(self, callee, args, kwargs):
    a = callee.args[1].args
    names = []
    if len(a) > 1:
      if a[1].op in ('list', 'tuple'):
        names = [x.val for x in a[1].args]
      elif a[1].op == 'const':
        names = a[1].val.replace(',', ' ').split()
    kvs = [T('kv', C(n), v) for n, v in zip(names, args)]
    for k, v in kwargs:
      kvs.append(T('kv', C(k), v))
    return T('nt', callee, *kvs)

  def opaque_call(self, callee, args, kwargs):
    fargs = T('args', *[self.freeze(a) for a in args])
    kw = []
    for k, v in sorted(kwargs, key=lambda x: x[0]):
      kw.extend([k, self.freeze(v)])
    cal = self.freeze(callee)
    t = T('call', cal, fargs, T('kw', *kw))
    e = self.effect('call', cal, fargs, t.args[2])
    e.result = t
    return self.fresh(t)

  def fresh(self, t):
    """A call whose earlier, identical result was mutated yields a new object."""
    if ('c', t) in self.st.heap:
      return self.new_loc(t)
    return t

  def _active(self, fn):
    return any(x[1] is fn.node for x in self.stack)

  def invoke(self, fn, self_term, args, kwargs):
    """Calls a program function."""
    if self.results and fn.cls is not None:
      o, rest = self_term, args
      if o is None and args and not fn.is_static:
        o, rest = args[0], args[1:]
      if (o, fn.name) in self.results:
        self.opaque_call(T('attr', o, fn.name), rest, kwargs)
        return self.results[o, fn.name]
    inline = True
    if len(self.stack) >= self.max_depth or self.opaque(fn):
      inline = False
    elif sum(1 for x in self.stack if x[1] is fn.node and
             x[2] is self_term) > self.recursion:
      inline = False
    elif sum(1 for x in self.stack if x[1] is fn.node) > (
        8 if self.unroll else 3):
      inline = False
    elif fn.is_abstract or self._raises_not_implemented(fn):
      inline = False
    elif self._is_generator(fn.node) and any(
        d.split('.')[-1] == 'contextmanager' for d in fn.decorators):
      inline = False
    if not inline:
      if self_term is not None:
        callee = T('attr', self_term, fn.name)
      else:
        callee = T('fn', fn)
      # canonical: bind to parameter names when possible
      return self.opaque_call(callee, args, kwargs)
    self.visited.add(fn)
    fr = Frame(fn.module, fn.cls, self_term, (), fn)
    allargs = list(args)
    if self_term is not None and not fn.is_static:
      allargs = [self_term] + allargs
    elif self_term is None and fn.cls is not None and not fn.is_static:
      # unbound method call: Cls.method(obj, ...)
      if allargs:
        fr.self_term = allargs[0]
    return self.run_body(fn.node, fr, allargs, kwargs, fn.qual, self_term,
                         fn.decorators)

  def _is_generator(self, node):
    r = getattr(node, 'is_generator', None)
    if r is None:
      r = node.is_generator = not isinstance(node, ast.Lambda) and any(
          isinstance(n, (ast.Yield, ast.YieldFrom))
          for n in self._own_nodes(node))
    return r

  def _own_nodes(self, node):
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
      n = st.pop()
      yield n
      for ch in ast.iter_child_nodes(n):
        if not isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
          st.append(ch)

  def _raises_not_implemented(self, fn):
    body = [s for s in fn.node.body
            if not (isinstance(s, ast.Expr) and
                    isinstance(s.value, ast.Constant))]
    if len(body) == 1 and isinstance(body[0], ast.Raise):
      e = body[0].exc
      n = e.func if isinstance(e, ast.Call) else e
      return isinstance(n, ast.Name) and n.id == 'NotImplementedError'
    return False

  def invoke_closure(self, t, args, kwargs):
    node, dfr = self.closures[t]
    if len(self.stack) >= self.max_depth or sum(
        1 for x in self.stack if x[1] is node) > (8 if self.unroll else 1):
      return self.opaque_call(t, args, kwargs)
    fr = Frame(dfr.module, dfr.cls, dfr.self_term, dfr.chain, dfr.fn)
    name = getattr(node, 'name', '<lambda>')
    decs = []
    if isinstance(node, ast.FunctionDef):
      fi = FunctionInfo(dfr.module, name, node)
      decs = fi.decorators
    r = self.run_body(node, fr, list(args), kwargs, name, None, decs,
                      defframe=dfr)
    if any(d.split('.')[-1] == 'custom_gradient' for d in decs):
      return self.get_sub(r, C(0))
    return r

  def run_body(self, node, fr, args, kwargs, qual, self_term, decs,
               defframe=None):
    saved_loc = self.cur_loc
    self.stack.append((qual, node, self_term))
    saved_loops_ctx = (len(self.loops), len(self.ctx))
    try:
      self.bind(node, fr, args, kwargs, defframe)
      if isinstance(node, ast.Lambda):
        v = self.ev(node.body, fr)
        fr.returns.append((self.st.live, v, self.st))
      else:
        # A generator is run eagerly: what it yields, in order, is a list.
        if self._is_generator(node):
          fr.gen = self.new_loc(T('list'))
        self.block(node.body, fr)
        if self.st.live is not FALSE:
          fr.returns.append((self.st.live, NONE, self.st))
      if not fr.returns:
        # every path raises
        self.st = self.st.copy(FALSE)
        return NONE
      g, v, s = fr.returns[-1]
      for g2, v2, s2 in reversed(fr.returns[:-1]):
        live = B.Or(g, g2)
        c = B.constrain(g2, live)
        v = ITE(c, v2, v)
        s1 = State(s2.vars, s2.heap, g2)
        sx = State(s.vars, s.heap, g)
        s = self.merge(s1, sx)
        g = live
      self.st = State(dict(s.vars), dict(s.heap), g)
      if fr.gen is not None:
        v = fr.gen
      if not fr.escapes:
        for k in [k for k in self.st.vars if k[0] == fr.fid]:
          del self.st.vars[k]
      return v
    finally:
      self.stack.pop()
      self.cur_loc = saved_loc

  def bind(self, node, fr, args, kwargs, defframe=None):
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    V = self.st.vars
    vals = {}
    extra = []
    star = None
    for i, v in enumerate(args):
      if v.op == 'star' and star is None:
        star = (v.args[0], i)
        continue
      if star is not None:
        extra.append(v)
        continue
      if i < len(names):
        vals[names[i]] = v
      else:
        extra.append(v)
    kwd = []
    dstar = None
    for k, v in kwargs:
      if k == '**':
        dstar = v
        continue
      if k in names or k in [x.arg for x in a.kwonlyargs]:
        vals[k] = v
      else:
        kwd.append((k, v))
    dflts = {}
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
      dflts[n] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
      if d is not None:
        dflts[x.arg] = d
    dfr = defframe or Frame(fr.module, fr.cls)
    allnames = names + [x.arg for x in a.kwonlyargs]
    for i, n in enumerate(allnames):
      if n in vals:
        continue
      if star is not None and i >= star[1] and n in names:
        if a.vararg is not None and n not in dflts and i > len(names):
          continue
        vals[n] = self.get_sub(star[0], C(i - star[1]))
        continue
      if dstar is not None:
        if n in dflts:
          vals[n] = ITE(B.atom(T('cmp', 'in', C(n), dstar)),
                        self.get_sub(dstar, C(n)), self.ev(dflts[n], dfr))
        else:
          vals[n] = self.get_sub(dstar, C(n))
        continue
      if n in dflts:
        vals[n] = self.ev(dflts[n], dfr)
      else:
        vals[n] = T('missing', n)
    for n in allnames:
      V[(fr.fid, n)] = vals[n]
    if a.vararg is not None:
      items = list(extra)
      if star is not None:
        if star[1] >= len(names):
          items = [T('star', star[0])] + items
        else:
          items = [T('star', T('sub', star[0], T(
              'slice', C(len(names) - star[1]), NONE, NONE)))] + items
      V[(fr.fid, a.vararg.arg)] = T('tuple', *items)
      if len(items) == 1 and items[0].op == 'star':
        V[(fr.fid, a.vararg.arg)] = items[0].args[0]
    if a.kwarg is not None:
      parts = []
      if dstar is not None:
        parts.append(T('dstar', dstar))
      parts.extend(T('kv', C(k), v) for k, v in kwd)
      if dstar is not None and len(parts) == 1 and not any(
          n in dflts for n in allnames):
        V[(fr.fid, a.kwarg.arg)] = self.new_loc(T('dict', *parts))
      else:
        V[(fr.fid, a.kwarg.arg)] = self.new_loc(T('dict', *parts))

  def bound_args(self, fn, args, kwargs, has_self=True):
    """Maps call arguments to parameter names of a program function."""
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if has_self:
      names = names[1:]
    out = {}
    for n, v in zip(names, args):
      out[n] = v
    for k, v in kwargs:
      out[k] = v
    return out

  def instantiate(self, cls, args, kwargs):
    self.nobj += 1
    o = T('obj', cls, self.nobj)
    init = self.prog.find_method(cls, '__init__')
    fargs = tuple(self.freeze(a) for a in args)
    fkw = tuple((k, self.freeze(v)) for k, v in kwargs)
    if init is not None:
      b = self.bound_args(init, fargs, fkw)
    else:
      b = {i: v for i, v in enumerate(fargs)}
      b.update(dict(fkw))
    self.objinfo[o] = (cls, b, self.loc())
    e = self.effect('new', o, T('kwd', *[
        x for k in sorted(b, key=str) for x in (str(k), b[k])]))
    e.result = o
    if init is not None:
      self.invoke(init, o, args, kwargs)
    return o

  def deepcopy(self, t):
    """A copy of a known structure; unknown values stand for themselves."""
    memo = {}

    def go(x):
      if not isinstance(x, Term):
        return x
      if x in memo:
        return memo[x]
      if x.op == 'loc':
        memo[x] = l = self.new_loc(T('list'))
        self.put_content(l, go(self.content(x)))
        return l
      if x.op == 'obj':
        self.nobj += 1
        memo[x] = o = T('obj', x.args[0], self.nobj)
        if x in self.objinfo:
          self.objinfo[o] = self.objinfo[x]
        for k in [k for k in self.st.heap if k[0] == 'f' and k[1] is x]:
          self.st.heap['f', o, k[2]] = go(self.st.heap[k])
        return o
      if x.op in ('list', 'tuple', 'dict', 'set', 'kv', 'ite', 'zip', 'view',
                  'args', 'call'):
        a = [go(y) for y in x.args]
        if all(p is q for p, q in zip(a, x.args)):
          return x
        return ITE(*a) if x.op == 'ite' else T(x.op, *a)
      return x
    return go(t)

  # -- external functions ------------------------------------------------------

  def ext_call(self, d, callee, args, kwargs, fr):
    if d.startswith('builtins.'):
      r = self.builtin_call(d[9:], args, kwargs, fr)
      if r is not None:
        return r
      return self.pure_call(callee, args, kwargs)
    if is_cond_name(d):
      kw = dict(kwargs)
      p = args[0] if args else kw.get('pred')
      t = args[1] if len(args) > 1 else kw.get('true_fn')
      f = args[2] if len(args) > 2 else kw.get('false_fn')
      if p is not None and t is not None and f is not None:
        return self.branch(self.truth(p), lambda: self.call(t, [], []),
                           lambda: self.call(f, [], []))
    if d in _TRANSPARENT and args:
      return args[0]
    if d == 'tf.is_tensor' and len(args) == 1 and not kwargs and (
        self.content(args[0]).op in ('const', 'tuple', 'list', 'dict')):
      return FALSE_T
    if d in ('six.iteritems', 'six.itervalues', 'six.iterkeys') and len(
        args) == 1 and not kwargs:
      r = self.container_method(args[0], d[8:], [], [])
      if r is not None:
        return r
    if d == 're.match' and len(args) == 2 and not kwargs and all(
        a.op == 'const' and isinstance(a.val, str) for a in args):
      try:
        m = re.match(args[0].val, args[1].val)
        return NONE if m is None else T('inst', EXT('re.Match'), 0)
      except re.error:
        pass
    if d == 'copy.deepcopy' and len(args) == 1 and not kwargs and (
        args[0].op in ('loc', 'obj', 'tuple')):
      return self.deepcopy(args[0])
    if d == 'inspect.getmembers' and args and args[0] in self.members:
      return self.new_loc(T('list', *[TUP(C(n), EXT(v)) for n, v in (
          self.members[args[0]])]))
    if d in _TFBIN and len(args) + len(kwargs) >= 2:
      kw = dict(kwargs)
      a = args[0] if args else kw.get('x')
      b = args[1] if len(args) > 1 else kw.get('y')
      if a is not None and b is not None:
        return self.binop(_TFBIN[d], a, b)
    if d in _TFCMP:
      kw = dict(kwargs)
      a = args[0] if args else kw.get('x')
      b = args[1] if len(args) > 1 else kw.get('y')
      if a is not None and b is not None:
        return BOOL(self.cmp(_TFCMP[d], a, b))
    if d in ('tf.logical_and', 'np.logical_and') and len(args) >= 2:
      return BOOL(B.And(self.truth(args[0]), self.truth(args[1])))
    if d in ('tf.logical_or', 'np.logical_or') and len(args) >= 2:
      return BOOL(B.Or(self.truth(args[0]), self.truth(args[1])))
    if d in ('tf.logical_not', 'np.logical_not') and args:
      return BOOL(B.Not(self.truth(args[0])))
    if d == 'tf.negative' and args:
      return T('bin', '*', C(-1), self.freeze(args[0]))
    if d == 'functools.partial' and args:
      kw = []
      for k, v in kwargs:
        kw.extend([k, v])
      return T('partial', args[0], T('args', *args[1:]), T('kw', *kw))
    if d in ('tf.assign', 'keras.backend.update', 'keras.backend.set_value',
             'tf.state_ops.assign') and len(args) >= 2:
      b, v = self.freeze(args[0]), self.freeze(args[1])
      self.effect('assign', b, v)
      return T('assigned', b, v)
    if d in ('tf.assign_add', 'keras.backend.update_add') and len(args) >= 2:
      b, v = self.freeze(args[0]), self.freeze(args[1])
      v = T('bin', '+', b, v)
      self.effect('assign', b, v)
      return T('assigned', b, v)
    if d in ('keras.backend.batch_set_value', 'tf.batch_set_value') and args:
      def body():
        v = self.lookup(sub, 'pair')
        b, w = self.freeze(self.get_sub(v, C(0))), self.freeze(
            self.get_sub(v, C(1)))
        self.effect('assign', b, w)
      sub = Frame(fr.module if fr else None)
      self.loop(args[0], lambda v: self.st.vars.__setitem__(
          (sub.fid, 'pair'), v), body, sub, assigned=set())
      return NONE
    if d in ('tf.nest.map_structure', 'tf.map_fn', 'tf.vectorized_map') and (
        len(args) >= 2):
      if args[0].op in ('closure', 'fn', 'bound', 'partial', 'cls'):
        if d == 'tf.nest.map_structure' and len(args) == 2:
          return self.map_nested(args[0], args[1], fr)
        return self.map_call(args[0], args[1:], fr, d)
    if d == 'tf.nest.flatten' and len(args) == 1 and not kwargs:
      leaves = self.const_leaves(args[0])
      if leaves is not None:
        return self.new_loc(T('list', *leaves))
    if d in ('collections.OrderedDict', 'collections.defaultdict') and (
        not args or (d.endswith('OrderedDict') and args)):
      if not args:
        return self.new_loc(T('dict'))
      return self.builtin_call('dict', args, kwargs, fr)
    return self.opaque_call(callee, args, kwargs)

  def map_call(self, f, seqs, fr, d):
    loc = self.new_loc(T('list'))
    sub = Frame(fr.module if fr else None)
    it = seqs[0] if len(seqs) == 1 else T(
        'call', EXT('builtins.zip'), T('args', *[self.freeze(s)
                                                 for s in seqs]), T('kw'))
    box = []

    def body():
      v = box[-1]
      a = [v] if len(seqs) == 1 else list(
          v.args if v.op == 'tuple' else [self.get_sub(v, C(i))
                                          for i in range(len(seqs))])
      r = self.call(f, a, [])
      self.put_content(loc, self._append(self.content(loc), [r]))
    self.loop(it, box.append, body, sub, assigned=set())
    return loc

  def const_leaves(self, v):
    """The leaves of a nested structure of constants, or None."""
    c = self.content(v)
    if c.op == 'const':
      return [c]
    if c.op == 'dict' and all(x.op == 'kv' and x.args[0].op == 'const'
                              for x in c.args):
      ks = [x.args[0].val for x in c.args]
      if len({type(k) for k in ks}) > 1:
        return None
      vs = [x.args[1] for x in sorted(c.args, key=lambda x: x.args[0].val)]
    elif c.op in ('tuple', 'list'):
      vs = c.args
    else:
      return None
    out = []
    for x in vs:
      r = self.const_leaves(x)
      if r is None:
        return None
      out += r
    return out

  def map_nested(self, f, v, fr):
    """tf.nest.map_structure, keeping the structure where it is known."""
    c = self.content(v)
    if c.op in ('tuple', 'list') and not any(
        x.op in ('each', 'star') for x in c.args):
      r = T(c.op, *[self.map_nested(f, x, fr) for x in c.args])
      return self.new_loc(r) if c.op == 'list' else r
    if c.op == 'dict' and all(x.op == 'kv' for x in c.args):
      return self.new_loc(T('dict', *[T('kv', x.args[0], self.map_nested(
          f, x.args[1], fr)) for x in c.args]))
    return self.map_call(f, [v], fr, 'tf.nest.map_structure')

  def pure_call(self, callee, args, kwargs):
    fargs = T('args', *[self.freeze(a) for a in args])
    kw = []
    for k, v in sorted(kwargs, key=lambda x: x[0]):
      kw.extend([k, self.freeze(v)])
    t = T('call', callee, fargs, T('kw', *kw))
    e = self.effect('call', callee, fargs, t.args[2])
    e.result = t
    return self.fresh(t)

  def sorted_(self, base, kwargs):
    """sorted(base, ...), with the key function as a term over an item."""
    kw = []
    c = self.content(base)
    if c.op in ('list', 'tuple') and not any(
        x.op in ('each', 'star') for x in c.args):
      key = dict(kwargs).get('key')
      ks = [self.freeze(self.call(key, [x], []) if key is not None else x)
            for x in c.args]
      if set(dict(kwargs)) <= {'key'} and all(
          k.op == 'const' and isinstance(k.val, (int, str)) for k in ks) and (
              len({type(k.val) for k in ks}) <= 1):
        order = sorted(range(len(ks)), key=lambda i: ks[i].val)
        return T('list', *[c.args[i] for i in order])
    for k, v in sorted(kwargs, key=lambda x: x[0]):
      if v.op == 'closure':
        v = T('keyed', self.freeze(self.call(v, [T('param', '.item')], [])))
      kw.extend([k, self.freeze(v)])
    return T('call', EXT('builtins.sorted'), T('args', self.freeze(base)),
             T('kw', *kw))

  def builtin_call(self, n, args, kwargs, fr):
    if n == 'isinstance' and len(args) == 2:
      return BOOL(self.isinstance_(args[0], args[1]))
    if n == 'len' and len(args) == 1:
      c = self.content(args[0])
      if c.op == 'ite':
        return self.each_case(c, lambda x: self.builtin_call(
            'len', [x], [], fr))
      if c.op in ('list', 'tuple', 'set', 'dict') and not any(
          x.op in ('each', 'star', 'dstar', 'del') for x in c.args):
        return C(len(c.args))
      if c.op == 'const' and isinstance(c.val, str):
        return C(len(c.val))
      if c.op == 'list' and len(c.args) == 1 and c.args[0].op == 'each' and (
          c.args[0].args[2] is TRUE):
        return T('call', EXT('builtins.len'), T('args', c.args[0].args[0]),
                 T('kw'))
      return T('call', EXT('builtins.len'), T('args', self.freeze(args[0])),
               T('kw'))
    if n in ('range', 'enumerate', 'zip', 'reversed', 'iter'):
      if n == 'iter':
        return args[0]
      # lazily interpreted by segments(); keep locs so content is current
      kw = []
      for k, v in kwargs:
        kw.extend([k, v])
      return T('call', EXT('builtins.' + n), T('args', *args), T('kw', *kw))
    if n == 'sorted' and len(args) == 1 and kwargs:
      v = self.sorted_(args[0], kwargs)
      return self.new_loc(v if v.op == 'list' else T('list', T('star', v)))
    if n == 'list' and len(args) <= 1:
      if not args:
        return self.new_loc(T('list'))
      c = self.content(args[0])
      if c.op in ('list', 'tuple', 'set'):
        return self.new_loc(T('list', *c.args))
      return self.collect(args[0], fr)
    if n == 'tuple' and len(args) <= 1:
      if not args:
        return T('tuple')
      c = self.content(args[0])
      if c.op in ('list', 'tuple', 'set'):
        return T('tuple', *c.args)
      c = self.content(self.collect(args[0], fr))
      if c.op == 'list':
        return T('tuple', *c.args)
      return c
    if n in ('set', 'frozenset') and len(args) <= 1:
      if not args:
        return self.new_loc(T('set'))
      c = self.content(args[0])
      if c.op in ('list', 'tuple', 'set'):
        return self.new_loc(T('set', *c.args))
      return None
    if n == 'dict':
      parts = []
      for a in args:
        c = self.content(a)
        if c.op == 'dict':
          parts.extend(c.args)
        elif c.op in ('list', 'tuple') and all(
            x.op == 'tuple' and len(x.args) == 2 or (
                x.op == 'each' and x.args[3].op == 'tuple' and
                len(x.args[3].args) == 2) for x in c.args):
          for x in c.args:
            if x.op == 'tuple':
              parts.append(T('kv', *x.args))
            else:
              parts.append(T('each', x.args[0], x.args[1], x.args[2],
                             T('kv', *x.args[3].args)))
        elif c.op == 'call' and c.args[0] is EXT('builtins.zip'):
          l = self.content(self.collect(c, fr))
          for x in l.args:
            if x.op == 'tuple':
              parts.append(T('kv', *x.args))
            elif x.op == 'each' and x.args[3].op == 'tuple':
              parts.append(T('each', x.args[0], x.args[1], x.args[2],
                             T('kv', *x.args[3].args)))
        else:
          parts.append(T('dstar', self.freeze(a)))
      for k, v in kwargs:
        parts.append(T('dstar', v) if k == '**' else T('kv', C(k), v))
      return self.new_loc(T('dict', *parts))
    if n == 'getattr' and len(args) >= 2:
      if args[1].op == 'const' and isinstance(args[1].val, str):
        if len(args) == 3:
          b = self.freeze(args[0])
          g = self.hasattr_(args[0], args[1])
          return self.branch(g, lambda: self.get_attr(args[0], args[1].val),
                             lambda: args[2])
        return self.get_attr(args[0], args[1].val)
      return T('getattr', self.freeze(args[0]), *[
          self.freeze(a) for a in args[1:]])
    if n == 'setattr' and len(args) == 3:
      if args[1].op == 'const' and isinstance(args[1].val, str):
        self.set_attr(args[0], args[1].val, args[2])
      else:
        self.effect('setattr', self.freeze(args[0]), self.freeze(args[1]),
                    self.freeze(args[2]))
      return NONE
    if n == 'hasattr' and len(args) == 2:
      return BOOL(self.hasattr_(args[0], args[1]))
    if n == 'callable' and args:
      return BOOL(B.atom(T('callable', self.freeze(args[0]))))
    if n in ('any', 'all') and len(args) == 1:
      neg = n == 'all'
      r = FALSE
      c = self.content(args[0])
      if c.op not in ('list', 'tuple', 'set'):
        c = self.content(self.collect(args[0], fr))
      if c.op not in ('list', 'tuple', 'set'):
        return None
      for x in c.args:
        if x.op == 'each':
          it, k, g, v = x.args
          t = self.truth(v)
          r = B.Or(r, ANY(it, k, B.And(g, B.Not(t) if neg else t)))
        elif x.op == 'star':
          e = elem(x.args[0])
          t = self.truth(e)
          r = B.Or(r, ANY(x.args[0], 0, B.Not(t) if neg else t))
        else:
          t = self.truth(x)
          r = B.Or(r, B.Not(t) if neg else t)
      return BOOL(B.Not(r) if neg else r)
    if n == 'bool' and len(args) == 1:
      return BOOL(self.truth(args[0]))
    if n == 'type' and len(args) == 1:
      c = self.typeof(args[0])
      if c is not None and args[0].op in ('obj', 'self'):
        return T('cls', c)
      if args[0].op == 'inst':
        return args[0].args[0]
      return T('call', EXT('builtins.type'), T('args', self.freeze(args[0])),
               T('kw'))
    if n == 'map' and len(args) >= 2:
      return self.map_call(args[0], args[1:], fr, 'map')
    if n == 'filter' and len(args) == 2:
      loc = self.new_loc(T('list'))
      sub = Frame(fr.module if fr else None)
      box = []

      def body():
        v = box[-1]
        g = self.truth(v if args[0].is_const(None) else
                       self.call(args[0], [v], []))
        self.st.live = B.And(self.st.live, g)
        if self.full() is not FALSE:
          self.put_content(loc, self._append(self.content(loc), [v]))
      self.loop(args[1], box.append, body, sub, assigned=set(),
                filterlike=True)
      return loc
    if n in ('int', 'float', 'str', 'abs') and len(args) == 1 and (
        args[0].op == 'const' and not kwargs):
      try:
        return C(getattr(_pybuiltins, n)(args[0].val))
      except Exception:  # pylint: disable=broad-except
        return None
    if n in ('min', 'max') and args and all(
        a.op == 'const' and isinstance(a.val, (int, float)) for a in args) and (
            len(args) > 1):
      return C(getattr(_pybuiltins, n)(*[a.val for a in args]))
    if n == 'sum' and args:
      c = self.content(args[0])
      if c.op in ('list', 'tuple') and c.args and not any(
          x.op in ('each', 'star') for x in c.args):
        r = args[1] if len(args) > 1 else C(0)
        for x in c.args:
          r = self.binop('+', r, x) if not r.is_const(0) else x
        return r
      return None
    if n == 'issubclass' and len(args) == 2 and args[0].op == 'cls' and (
        args[1].op == 'cls'):
      return C(args[1].args[0] in self.prog.mro(args[0].args[0]))
    return None

  def hasattr_(self, o, name):
    res = FALSE
    for g, x in cases(simplify(o, self.full())):
      if x.op == 'const' and x.val is None:
        r = FALSE
      elif x.op == 'ext' and name.op == 'const' and (
          x.args[0] + '.' + name.val) in _EXT_HAS:
        r = TRUE if _EXT_HAS[x.args[0] + '.' + name.val] else FALSE
      elif name.op == 'const' and ('f', x, name.val) in self.st.heap:
        r = TRUE
      elif name.op == 'const' and self.typeof(x) is not None and (
          self.prog.find_method(self.typeof(x), name.val) or
          self.prog.find_class_attr(self.typeof(x), name.val)):
        r = TRUE
      else:
        r = B.atom(T('hasattr', self.freeze(x), self.freeze(name)))
      res = B.Or(res, B.And(g, r))
    return res

  def collect(self, it, fr):
    """list(iterable)."""
    segs = self.segments(it)
    if len(segs) == 1 and segs[0].kind == 'sym' and segs[0].it is it and (
        segs[0].guard is TRUE):
      return self.new_loc(T('list', T('star', self.freeze(it))))
    loc = self.new_loc(T('list'))
    sub = Frame(fr.module if fr else None)
    box = []

    def body():
      self.put_content(loc, self._append(self.content(loc), [box[-1]]))
    self.loop(it, box.append, body, sub, assigned=set())
    return loc

  # -- iteration ----------------------------------------------------------------

  def segments(self, it):
    c = self.content(it)
    if c.op in ('list', 'tuple', 'set'):
      out = []
      for x in c.args:
        if x.op == 'each':
          i, k0, g, v = x.args
          out.append(Seg('sym', i,
                         lambda k, i=i, k0=k0, g=g: rebind_g(g, i, k0, k),
                         lambda k, i=i, k0=k0, v=v: rebind(v, i, k0, k)))
        elif x.op == 'star':
          out.extend(self.segments(x.args[0]))
        else:
          out.append(Seg('item', value=x))
      return out
    if c.op == 'dict':
      return self._dict_segments(c, lambda k, v: k)
    if c.op == 'view':
      kind, d = c.args
      dc = self.content(d)
      pick = {'keys': lambda k, v: k, 'values': lambda k, v: v,
              'items': lambda k, v: TUP(k, v)}[kind]
      if dc.op == 'dict':
        return self._dict_segments(dc, pick)
      return [Seg('sym', dc, TRUE, lambda k, d=dc: pick(
          elem(d, k), T('sub', d, elem(d, k))))]
    if c.op == 'const' and isinstance(c.val, str) and len(c.val) < 40:
      return [Seg('item', value=C(ch)) for ch in c.val]
    if c.op == 'call' and c.args[0].op == 'ext' and c.args[0].args[0] in (
        'builtins.range', 'builtins.enumerate', 'builtins.zip',
        'builtins.reversed', 'builtins.sorted'):
      n = c.args[0].args[0][9:]
      a = list(c.args[1].args)
      if n == 'range':
        if all(x.op == 'const' and isinstance(x.val, int) for x in a):
          vals = list(range(*[x.val for x in a]))
          if len(vals) <= 300:
            return [Seg('item', value=C(v)) for v in vals]
        lo = C(0) if len(a) == 1 else a[0]
        hi = a[0] if len(a) == 1 else a[1]
        step = a[2] if len(a) > 2 else C(1)
        la = self._lenarg(hi)
        if la is not None and lo.is_const(0) and step.is_const(1):
          la = self.freeze(la)
          return [Seg('sym', la, TRUE, lambda k, la=la: idx(la, k))]
        r = T('range', self.freeze(lo), self.freeze(hi), self.freeze(step))
        return [Seg('sym', r, TRUE, lambda k, r=r: idx(r, k))]
      if n == 'enumerate':
        inner = self.segments(a[0])
        start = a[1] if len(a) > 1 else C(0)
        out = []
        if all(s.kind == 'item' for s in inner):
          for i, s in enumerate(inner):
            out.append(Seg('item', value=TUP(
                self.binop('+', start, C(i)) if not start.is_const(0)
                else C(i), s.value)))
          return out
        if len(inner) == 1:
          s = inner[0]

          def val(k, s=s):
            i = idx(s.it, k)
            if not start.is_const(0):
              i = T('bin', '+', start, i)
            return TUP(i, s.value(k) if callable(s.value) else s.value)
          return [Seg('sym', s.it, s.guard, val)]
        return [Seg('sym', c, TRUE, lambda k: elem(c, k))]
      if n == 'zip':
        segs = [self.segments(x) for x in a]
        if segs and all(all(s.kind == 'item' for s in ss) for ss in segs):
          m = min(len(ss) for ss in segs)
          return [Seg('item', value=TUP(*[ss[i].value for ss in segs]))
                  for i in range(m)]
        if a and len(segs[0]) == 1 and segs[0][0].kind == 'sym':
          s0 = segs[0][0]

          def val(k):
            out = []
            for x, ss in zip(a, segs):
              if len(ss) == 1 and ss[0].kind == 'sym' and ss[0].it is s0.it:
                out.append(ss[0].value(k) if callable(ss[0].value)
                           else ss[0].value)
              else:
                out.append(self.get_sub(x, idx(s0.it, k)))
            return TUP(*out)
          return [Seg('sym', s0.it, s0.guard, val)]
        if a:
          f = [self.freeze(x) for x in a]
          z = T('zip', *f)
          return [Seg('sym', z, TRUE, lambda k: TUP(*[
              T('sub', x, idx(z, k)) for x in f]))]
      if n == 'reversed':
        inner = self.segments(a[0])
        if all(s.kind == 'item' for s in inner):
          return inner[::-1]
        fz = T('reversed', self.freeze(a[0]))
        return [Seg('sym', fz, TRUE, lambda k: elem(fz, k))]
      if n == 'sorted' and len(a) == 1 and not c.args[2].args:
        inner = self.segments(a[0])
        ks = [s.value.args[0] if s.value.op == 'tuple' and s.value.args
              else s.value for s in inner if s.kind == 'item']
        if len(ks) == len(inner) and all(
            k.op == 'const' and isinstance(k.val, (int, str))
            for k in ks) and len({type(k.val) for k in ks}) <= 1 and (
                len(set(ks)) == len(ks)):
          order = sorted(range(len(ks)), key=lambda i: ks[i].val)
          return [inner[i] for i in order]
      fz = self.freeze(c)
      return [Seg('sym', fz, TRUE, lambda k: elem(fz, k))]
    fz = self.freeze(c)
    return [Seg('sym', fz, TRUE, lambda k: elem(fz, k))]

  def _dict_segments(self, c, pick):
    out = []
    for e in c.args:
      if e.op == 'kv':
        out.append(Seg('item', value=pick(e.args[0], e.args[1])))
      elif e.op == 'each':
        i, k0, g, v = e.args
        out.append(Seg(
            'sym', i, lambda k, i=i, k0=k0, g=g: rebind_g(g, i, k0, k),
            lambda k, i=i, k0=k0, v=v: pick(rebind(v.args[0], i, k0, k),
                                            rebind(v.args[1], i, k0, k))))
      elif e.op == 'dstar':
        d = e.args[0]
        dc = self.content(d)
        if dc is not d and dc.op == 'dict':
          out.extend(self._dict_segments(dc, pick))
        else:
          out.append(Seg('sym', d, TRUE, lambda k, d=d: pick(
              elem(d, k), T('sub', d, elem(d, k)))))
    return out

  def loop(self, it, bind, body, fr, assigned, orelse=None, filterlike=False):
    it = simplify(it, self.full())
    c = self.content(it)
    if it.op == 'ite' or c.op == 'ite':
      src = it if it.op == 'ite' else c
      self.each_case(src, lambda x: self.loop(
          x, bind, body, fr, assigned, orelse, filterlike) or NONE)
      return
    segs = self.segments(it)
    lp = {'breaks': [], 'continues': []}
    fr.loopstack.append(lp)
    pre_live = self.st.live
    for s in segs:
      if self.st.live is FALSE:
        break
      if s.kind == 'item':
        lp['continues'] = []
        live0 = self.st.live
        bind(s.value)
        body()
        for cs in lp['continues']:
          self.st = self.merge(self.st, cs)
        if filterlike:
          # a comprehension filter restricts only this iteration
          if self.st.live is not live0:
            self._restore_live(live0)
      else:
        self.sym_iter(s, bind, body, fr, lp, assigned, filterlike)
    fr.loopstack.pop()
    if orelse is not None and self.st.live is not FALSE:
      orelse()
    for bs in lp['breaks']:
      self.st = self.merge(self.st, bs)

  def _restore_live(self, live0):
    """Undo a comprehension filter: values appended become conditional."""
    g = self.st.live
    st = self.st
    before = self._cmp_before
    st.live = live0
    return g

  _cmp_before = None

  def sym_iter(self, s, bind, body, fr, lp, assigned, filterlike):
    """One symbolic iteration, standing for all of them.

    The body is analysed once; when it can stop the loop early, or reads a
    container or field it also changes, it is analysed again with the effect
    of the earlier iterations made explicit: the iteration takes place only if
    none of the prior ones stopped, containers hold what prior iterations put
    there, fields hold an accumulated value.
    """
    it = s.it
    k = sum(1 for x in self.loops if x[0] is it)
    outer = self.st
    snap = (len(self.trace), self.nobj, self.seq, len(fr.returns),
            len(lp['breaks']), len(self.unsupported))
    reads0, self.reads = self.reads, set()
    res = self._iterate(s, bind, body, fr, lp, assigned, it, k, outer, FALSE,
                        {}, filterlike)
    stop, carried = FALSE, {}
    if not filterlike:
      stop = res['stop']
      carried = self._carried(res, it, k)
    if stop is not FALSE or carried:
      del self.trace[snap[0]:]
      self.nobj, self.seq = snap[1], snap[2]
      del fr.returns[snap[3]:]
      del lp['breaks'][snap[4]:]
      del self.unsupported[snap[5]:]
      res = self._iterate(s, bind, body, fr, lp, assigned, it, k, outer, stop,
                          carried, filterlike)
    self.reads |= reads0
    self._after_loop(res, fr, lp, it, k, outer, carried, filterlike)

  def _carried(self, res, it, k):
    """Values an iteration sees because of the earlier ones."""
    out = {}
    fin = res['fin']
    for key, v in fin.heap.items():
      old = res['entry_heap'].get(key)
      if v is old or depends(key[1], it, k):
        continue
      if key[0] == 'c':
        if key not in self.reads:
          continue
        if old is None and key[1].op == 'loc':
          continue
        base = key[1] if old is None else old
        c = self.after_content(it, k, base, v, fin.live)
        n = len(base.args) if base.op in ('list', 'dict', 'set') else 1
        if c.op not in ('list', 'dict', 'set') or base.op == 'ite':
          continue
        parts = []
        for x in c.args[n:]:
          if x.op == 'each' and x.args[0] is it and x.args[1] == k:
            parts.append(T('each', PRIOR(it, k), 0,
                           to_prior(x.args[2], it, k),
                           to_prior(x.args[3], it, k)))
        if parts:
          out[key] = (T(c.op, *(c.args[:n] + tuple(parts))), tuple(parts))
      elif ('f',) + key[1:] + (old,) in self.reads:
        init = old if old is not None else self._heap_default(key)
        if init is not None:
          out[key] = (T('acc', it, k, 'field ' + key[2], init), init)
    return out

  def _iterate(self, s, bind, body, fr, lp, assigned, it, k, outer, stop,
               carried, filterlike):
    val = s.value(k) if callable(s.value) else s.value
    g0 = s.guard(k) if callable(s.guard) else s.guard
    if stop is not FALSE:
      g0 = B.And(g0, B.Not(ANY(PRIOR(it, k), 0, to_prior(stop, it, k))))
    base_live = outer.live
    inner = outer.copy(g0)
    accs = {}
    for name in assigned:
      key = (fr.fid, name)
      if key in inner.vars:
        init = inner.vars[key]
        acc = T('acc', it, k, len(accs), init)
        # containers keep their identity (they are mutated through the heap)
        if init.op == 'loc':
          continue
        accs[key] = (acc, init)
        inner.vars[key] = acc
    for key, (v, _) in carried.items():
      inner.heap[key] = v
    entry_vars = dict(inner.vars)
    entry_heap = dict(inner.heap)
    nret = len(fr.returns)
    self.bases.append(base_live)
    self.loops.append((it, k))
    self.st = inner
    lp['continues'] = []
    nbreak = len(lp['breaks'])
    bind(val)
    body()
    end = self.st
    for cs in lp['continues']:
      end = self.merge(end, cs)
    self.st = end
    self.loops.pop()
    self.bases.pop()
    breaks = lp['breaks'][nbreak:]
    bguard = FALSE
    fin = end
    for bs in breaks:
      bguard = B.Or(bguard, bs.live)
      fin = self.merge(fin, bs)
    del lp['breaks'][nbreak:]
    rets = fr.returns[nret:]
    del fr.returns[nret:]
    ret_g = FALSE
    for g, v, s2 in rets:
      ret_g = B.Or(ret_g, g)
    self.st = outer
    return {'fin': fin, 'accs': accs, 'entry_vars': entry_vars,
            'entry_heap': entry_heap, 'bguard': bguard, 'rets': rets,
            'ret_g': ret_g, 'stop': B.Or(bguard, ret_g)}

  def _after_loop(self, res, fr, lp, it, k, outer, carried, filterlike):
    fin, accs = res['fin'], res['accs']
    entry_vars, entry_heap = res['entry_vars'], res['entry_heap']
    bguard, rets, ret_g = res['bguard'], res['rets'], res['ret_g']
    base_live = outer.live
    self.st = fin
    # values after the loop
    out = outer.copy()
    live_fin = fin.live
    for key, v in fin.vars.items():
      if v is entry_vars.get(key):
        continue
      if key in accs:
        acc, init = accs[key]
        out.vars[key] = self.after_acc(it, k, acc, init, v, live_fin)
      elif key in outer.vars and outer.vars[key] is not v:
        old = outer.vars[key]
        out.vars[key] = self.after_acc(it, k, old, old, v, live_fin)
      else:
        out.vars[key] = v
    for key, (acc, init) in accs.items():
      if fin.vars.get(key) is acc:
        out.vars[key] = init
    for key, v in fin.heap.items():
      old = entry_heap.get(key)
      if key in carried:
        if key[0] == 'c':
          drop = set(carried[key][1])

          def strip(x, drop=drop):
            if x.op in ('list', 'dict', 'set'):
              return T(x.op, *[y for y in x.args if y not in drop])
            return x
          v = _build([(g, strip(x)) for g, x in cases(v)])
          o = outer.heap.get(key)
          if o is None:
            o = key[1]
          out.heap[key] = self.after_content(it, k, o, v, live_fin)
        else:
          acc, init = carried[key]
          out.heap[key] = init if v is acc else self.after_acc(
              it, k, acc, init, v, live_fin)
        continue
      if v is old:
        continue
      if old is None:
        if key[0] == 'c' and key[1].op != 'loc':
          out.heap[key] = self.after_content(it, k, key[1], v, live_fin)
          continue
        out.heap[key] = v if key[0] == 'c' else (
            self.after_field(it, k, self._heap_default(key), v, live_fin))
        continue
      if key[0] == 'c':
        out.heap[key] = self.after_content(it, k, old, v, live_fin)
      else:
        out.heap[key] = self.after_field(it, k, old, v, live_fin)
    # early exits
    done = FALSE
    for g, v, s2 in rets:
      a = B.And(base_live, ANY(it, k, g), B.Not(done))
      done = B.Or(done, ANY(it, k, g))
      fr.returns.append((a, v, State(s2.vars, s2.heap, a)))
    # Raising iterations are not carried into the code after the loop (their
    # 'raise' effect records them); returning ones are.
    e = ANY(it, k, ret_g) if ret_g is not FALSE and not filterlike else FALSE
    live = B.And(base_live, B.Not(e))
    if bguard is not FALSE:
      bg = ANY(it, k, bguard)
      bst = State(dict(out.vars), dict(out.heap), B.And(live, bg))
      lp['breaks'].append(bst)
      live = B.And(live, B.Not(bg))
    out.live = live
    self.st = out

  def after_acc(self, it, k, acc, init, v, live):
    res = init
    for g, leaf in cases(v):
      if leaf is acc:
        continue
      if g is not TRUE:
        g = B.And(g, live) if False else g
      if not any(x is acc for x in subterms(leaf)):
        res = ITE(ANY(it, k, B.And(g, live) if g is not TRUE else
                      self._drop(live)), leaf, res)
        continue
      if leaf.op == 'bin' and leaf.args[0] == '+' and leaf.args[1] is acc:
        return T('fold', '+', it, init, T('each', it, k, g, leaf.args[2]))
      if leaf.op in ('list', 'tuple') and leaf.args and leaf.args[0].op == (
          'star') and leaf.args[0].args[0] is acc:
        ic = self.content(init)
        if ic.op == leaf.op:
          parts = ic.args + tuple(
              T('each', it, k, g, x) for x in leaf.args[1:])
          return T(leaf.op, *parts)
      c = self.st.heap.get(('c', leaf))
      if c is not None and c.op == 'list' and c.args and c.args[0].op == (
          'star') and c.args[0].args[0] is acc:
        ic = self.content(init)
        if ic.op == 'list':
          return T('list', *(ic.args + tuple(
              T('each', it, k, g, x) for x in c.args[1:])))
      return T('fold', '?', it, init, T('each', it, k, TRUE, self.freeze(v)))
    return res

  def _drop(self, live):
    return live

  def after_field(self, it, k, old, v, live):
    res = old
    for g, leaf in cases(v):
      if leaf is old:
        continue
      res = ITE(ANY(it, k, B.And(g, live)), leaf, res)
    return res

  def after_content(self, it, k, old, v, live):
    if old.op == 'ite':
      return ITE(old.args[0],
                 self.after_content(it, k, old.args[1],
                                    simplify(v, old.args[0]), live),
                 self.after_content(it, k, old.args[2],
                                    simplify(v, B.Not(old.args[0])), live))
    if old.op not in ('list', 'dict', 'set'):
      for g, leaf in cases(v):
        if leaf.op == 'dict' and leaf.args and leaf.args[0].op == 'dstar' and (
            leaf.args[0].args[0] in (T('orig', old), old)):
          old0 = old
          old = T('dict', leaf.args[0])
          v = _build([(gg, old if x is old0 else x) for gg, x in cases(v)])
          break
    parts = list(old.args)
    n = len(old.args)
    for g, leaf in cases(v):
      if leaf is old:
        continue
      gg = B.And(g, live)
      if leaf.op == old.op and leaf.args[:n] == old.args and leaf.op in (
          'list', 'dict', 'set'):
        for x in leaf.args[n:]:
          if x.op == 'each':
            # nested loop: keep nested each
            parts.append(T('each', it, k, gg, x))
          else:
            parts.append(T('each', it, k, gg, self.freeze(x)))
      elif leaf.op == 'dict' and old.op == 'dict':
        for x in leaf.args:
          if x not in old.args:
            parts.append(T('each', it, k, gg, x))
      else:
        return ITE(ANY(it, k, gg), leaf, old)
    if old.op not in ('list', 'dict', 'set'):
      # opaque container that was mutated in the loop
      return v
    return T(old.op, *parts)

  # -- statements -------------------------------------------------------------------

  def block(self, stmts, fr):
    for s in stmts:
      if self.st.live is FALSE or self.full() is FALSE:
        return
      self.stmt(s, fr)

  def stmt(self, node, fr):
    self.budget -= 1
    if self.budget < 0:
      raise AnalysisError('analysis budget exceeded')
    self.at(node, fr)
    m = getattr(self, 'st_' + type(node).__name__, None)
    if m is None:
      self.unsupported.append((fr.module.rel, node.lineno,
                               type(node).__name__))
      return
    m(node, fr)

  def st_Expr(self, node, fr):
    if isinstance(node.value, ast.Constant):
      return
    self.ev(node.value, fr)

  def st_Pass(self, node, fr):
    pass

  def st_Import(self, node, fr):
    for a in node.names:
      nm = a.asname or a.name.split('.')[0]
      self.st.vars[(fr.fid, nm)] = self.resolved(
          self.prog.resolve_dotted(a.name if a.asname else nm))

  def st_ImportFrom(self, node, fr):
    for a in node.names:
      self.st.vars[(fr.fid, a.asname or a.name)] = self.resolved(
          self.prog.resolve_dotted((node.module or '') + '.' + a.name))

  def st_Global(self, node, fr):
    pass

  def st_Nonlocal(self, node, fr):
    fr.nonlocals.update(node.names)

  def st_Assign(self, node, fr):
    v = self.ev(node.value, fr)
    self.at(node, fr)
    for t in node.targets:
      self.assign_target(t, v, fr)

  def st_AnnAssign(self, node, fr):
    if node.value is not None:
      v = self.ev(node.value, fr)
      self.at(node, fr)
      self.assign_target(node.target, v, fr)

  def st_AugAssign(self, node, fr):
    op = _BINOPS[type(node.op)]
    t = node.target
    load = ast.copy_location(
        {ast.Name: lambda: ast.Name(t.id, ast.Load()),
         ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
         ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load())
         }[type(t)](), t)
    cur = self.ev(load, fr)
    v = self.ev(node.value, fr)
    self.at(node, fr)
    if op == '+' and self.content(cur).op == 'list':
      self.container_method(cur, 'extend', [v], [])
      return
    self.assign_target(t, self.binop(op, cur, v), fr)

  def assign_target(self, t, v, fr):
    if isinstance(t, ast.Name):
      fid = fr.fid
      if t.id in fr.nonlocals:
        for f2 in fr.chain[1:]:
          if (f2, t.id) in self.st.vars:
            fid = f2
            break
      self.st.vars[(fid, t.id)] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if v.op == 'ite':
        for i, e in enumerate(t.elts):
          self.assign_target(
              e, self.each_case(v, lambda x, i=i: self.get_sub(x, C(i))), fr)
        return
      if star:
        i = star[0]
        after = len(t.elts) - i - 1
        for j, e in enumerate(t.elts):
          if j < i:
            self.assign_target(e, self.get_sub(v, C(j)), fr)
          elif j == i:
            self.assign_target(e.value, self.get_sub(v, T(
                'slice', C(i), C(-after) if after else NONE, NONE)), fr)
          else:
            self.assign_target(e, self.get_sub(v, C(j - len(t.elts))), fr)
        return
      for i, e in enumerate(t.elts):
        self.assign_target(e, self.get_sub(v, C(i)), fr)
    elif isinstance(t, ast.Attribute):
      b = self.ev(t.value, fr)
      self.at(t, fr)
      self.set_attr(b, t.attr, v)
    elif isinstance(t, ast.Subscript):
      b = self.ev(t.value, fr)
      k = self.ev(t.slice, fr)
      self.at(t, fr)
      self.set_sub(b, k, v)
    elif isinstance(t, ast.Starred):
      self.assign_target(t.value, v, fr)

  def st_Delete(self, node, fr):
    for t in node.targets:
      if isinstance(t, ast.Subscript):
        b = self.ev(t.value, fr)
        k = self.freeze(self.ev(t.slice, fr))
        c = self.content(b)
        self.effect('delitem', b if b.op == 'loc' else self.freeze(b), k)
        if c.op == 'dict':
          out = [e for e in c.args if not (
              e.op == 'kv' and e.args[0] is k)]
          if any(e.op != 'kv' for e in out):
            out.append(T('del', k))
          self.put_content(b, T('dict', *out))
        elif b.op != 'loc' and c is b:
          self.put_content(b, T('dict', T('dstar', T('orig', b)), T('del', k)))
      elif isinstance(t, ast.Attribute):
        b = self.ev(t.value, fr)
        self.effect('delattr', self.freeze(b), t.attr)
        self.st.heap.pop(('f', b, t.attr), None)
      elif isinstance(t, ast.Name):
        self.st.vars.pop((fr.fid, t.id), None)

  def st_If(self, node, fr):
    g = self.truth(self.ev(node.test, fr))
    self.branch(g, lambda: self.block(node.body, fr),
                lambda: self.block(node.orelse, fr))

  def st_Return(self, node, fr):
    v = NONE if node.value is None else self.ev(node.value, fr)
    self.at(node, fr)
    if self.st.live is FALSE:
      return
    fr.returns.append((self.st.live, v, self.st))
    self.st = self.st.copy(FALSE)

  def st_Raise(self, node, fr):
    v = NONE if node.exc is None else self.ev(node.exc, fr)
    self.at(node, fr)
    if self.st.live is FALSE:
      return
    self.effect('raise', self.freeze(v))
    self.st = self.st.copy(FALSE)

  def st_Assert(self, node, fr):
    g = self.truth(self.ev(node.test, fr))

    def bad():
      self.at(node, fr)
      self.effect('raise', EXT('builtins.AssertionError'))
      self.st = self.st.copy(FALSE)
      return None
    self.branch(g, lambda: None, bad)

  def st_FunctionDef(self, node, fr):
    t = self.make_closure(node, fr)
    self.st.vars[(fr.fid, node.name)] = t

  def st_ClassDef(self, node, fr):
    c = ClassInfo(fr.module, '<local>.' + node.name, node)
    for s in node.body:
      if isinstance(s, ast.FunctionDef):
        f = FunctionInfo(fr.module, node.name + '.' + s.name, s, cls=c)
        if any(d.endswith('.setter') for d in f.decorators):
          c.setters[s.name] = f
        else:
          c.methods[s.name] = f
    bases = []
    for b in node.bases:
      v = self.ev(b, fr)
      if v.op == 'cls':
        bases.append(v.args[0])
      elif v.op == 'ext':
        bases.append(v.args[0])
      else:
        bases.append('?')
    c._bases = bases
    self.st.vars[(fr.fid, node.name)] = T('cls', c)
    self.localclasses = getattr(self, 'localclasses', {})
    self.localclasses[c] = fr
    fr.escapes = True

  def st_For(self, node, fr):
    it = self.ev(node.iter, fr)
    self.at(node, fr)
    assigned = _assigned(node.body) | _assigned_target(node.target)
    for n in _assigned_target(node.target):
      self.st.vars.pop((fr.fid, n), None)
    self.loop(it, lambda v: self.assign_target(node.target, v, fr),
              lambda: self.block(node.body, fr), fr,
              _assigned(node.body),
              (lambda: self.block(node.orelse, fr)) if node.orelse else None)

  st_AsyncFor = st_For

  def st_While(self, node, fr):
    if self._while_as_for(node, fr):
      return
    test = node.test
    if self.unroll:
      return self.unrolled(node, fr)
    assigned = _assigned(node.body)
    key = ('while', fr.module.rel, ast.dump(node.test))
    s = Seg('sym', T('whileiter', fr.module.rel, fr.fn.qual if fr.fn else '',
                     len(self.loops)), TRUE, lambda k: NONE)

    def body():
      g = self.truth(self.ev(test, fr))
      self.st.live = B.And(self.st.live, g)
      if self.st.live is not FALSE:
        self.block(node.body, fr)
    lp = {'breaks': [], 'continues': []}
    fr.loopstack.append(lp)
    self.sym_iter(s, lambda v: None, body, fr, lp, assigned, True)
    fr.loopstack.pop()
    for bs in lp['breaks']:
      self.st = self.merge(self.st, bs)

  def unrolled(self, node, fr):
    lp = {'breaks': [], 'continues': []}
    fr.loopstack.append(lp)
    done = []
    for _ in range(self.unroll):
      g = self.truth(self.ev(node.test, fr))
      live = self.st.live
      done.append(self.st.copy(B.And(live, B.Not(g))))
      self.st.live = B.And(live, g)
      if self.st.live is FALSE:
        break
      lp['continues'] = []
      self.block(node.body, fr)
      for cs in lp['continues']:
        self.st = self.merge(self.st, cs)
      if self.st.live is FALSE:
        break
    else:
      raise AnalysisError('loop at %s:%d does not end' % (
          fr.module.rel, node.lineno))
    fr.loopstack.pop()
    for x in done:
      if x.live is not FALSE:
        self.st = self.merge(self.st, x)
    if node.orelse and self.st.live is not FALSE:
      self.block(node.orelse, fr)
    for bs in lp['breaks']:
      self.st = self.merge(self.st, bs)

  def _while_as_for(self, node, fr):
    """while i < n: ...; i += 1   ->   for i in range(i, n)"""
    t = node.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and
            isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name) and
            node.body and not node.orelse):
      return False
    i = t.left.id
    last = node.body[-1]
    inc = (isinstance(last, ast.AugAssign) and
           isinstance(last.op, ast.Add) and
           isinstance(last.target, ast.Name) and last.target.id == i and
           isinstance(last.value, ast.Constant) and last.value.value == 1)
    if not inc:
      inc = (isinstance(last, ast.Assign) and len(last.targets) == 1 and
             isinstance(last.targets[0], ast.Name) and
             last.targets[0].id == i and isinstance(last.value, ast.BinOp) and
             isinstance(last.value.op, ast.Add) and
             isinstance(last.value.left, ast.Name) and
             last.value.left.id == i and
             isinstance(last.value.right, ast.Constant) and
             last.value.right.value == 1)
    if not inc:
      return False
    rest = node.body[:-1]
    if i in _assigned(rest):
      return False
    for s in rest:
      for n in ast.walk(s):
        if isinstance(n, ast.Continue):
          return False
    start = self.st.vars.get((fr.fid, i))
    if start is None:
      return False
    hi = self.ev(t.comparators[0], fr)
    it = T('call', EXT('builtins.range'), T('args', start, hi), T('kw'))
    if start.is_const(0):
      it = T('call', EXT('builtins.range'), T('args', hi), T('kw'))
    self.st.vars.pop((fr.fid, i), None)
    self.loop(it, lambda v: self.st.vars.__setitem__((fr.fid, i), v),
              lambda: self.block(rest, fr), fr, _assigned(rest))
    self.st.vars[(fr.fid, i)] = hi
    return True

  def st_Break(self, node, fr):
    fr.loopstack[-1]['breaks'].append(self.st)
    self.st = self.st.copy(FALSE)

  def st_Continue(self, node, fr):
    fr.loopstack[-1]['continues'].append(self.st)
    self.st = self.st.copy(FALSE)

  def st_With(self, node, fr):
    n = 0
    for item in node.items:
      v = self.ev(item.context_expr, fr)
      self.at(node, fr)
      fv = self.freeze(v)
      self.effect('enter', fv)
      self.ctx.append(fv)
      n += 1
      if item.optional_vars is not None:
        self.assign_target(item.optional_vars, T('entered', fv), fr)
    self.block(node.body, fr)
    for _ in range(n):
      fv = self.ctx.pop()
      if self.st.live is not FALSE:
        self.effect('exit', fv)

  st_AsyncWith = st_With

  def st_Try(self, node, fr):
    start = self.st.copy()
    n0 = len(self.trace)
    live0 = self.st.live
    self.block(node.body, fr)
    body_effects = self.trace[n0:]
    # Explicit raises in the body that a handler catches.
    caught = FALSE
    names = []
    for h in node.handlers:
      names.append('builtins.Exception' if h.type is None else None)
    htypes = []
    for h in node.handlers:
      if h.type is None:
        htypes.append([EXT('builtins.BaseException')])
      else:
        t = self.ev(h.type, fr)
        c = self.content(t)
        htypes.append(list(c.args) if c.op == 'tuple' else [c])
    if node.handlers:
      calls = [e for e in body_effects if e.kind in ('call', 'new')]
      first = calls[0].a[0] if calls else NONE
      normal = self.st
      hstates = []
      excs = FALSE
      for h, ts in zip(node.handlers, htypes):
        a = B.atom(T('raises', T('tuple', *ts), first, len(node.body)))
        g = B.And(live0, a, B.Not(excs))
        for e in body_effects:
          if e.kind == 'raise' and self._caught(e.a[0], ts):
            e.kind = 'raise_caught'
            g = B.Or(g, e.guard)
        if g is FALSE:
          continue
        excs = B.Or(excs, a)
        self.st = start.copy(g)
        if h.name:
          self.st.vars[(fr.fid, h.name)] = T('exc', T('tuple', *ts), first)
        fr_exc = T('exc', T('tuple', *ts), first)
        self.block(h.body, fr)
        hstates.append(self.st)
      self.st = normal
      if self.st.live is not FALSE:
        self.st = self.st.copy(B.And(self.st.live, B.Not(excs)))
      # returns inside the try body happen only if nothing was raised
      if node.orelse and self.st.live is not FALSE:
        self.block(node.orelse, fr)
      for hs in hstates:
        self.st = self.merge(self.st, hs)
    elif node.orelse:
      self.block(node.orelse, fr)
    if node.finalbody:
      if self.st.live is FALSE:
        dead = self.st
        self.st = start.copy()
        self.block(node.finalbody, fr)
        self.st = self.st.copy(FALSE)
      else:
        self.block(node.finalbody, fr)

  def _caught(self, exc, ts):
    n = exc
    if n.op == 'call':
      n = n.args[0]
    for t in ts:
      if t is n:
        return True
      if t.op == 'ext' and t.args[0] in ('builtins.Exception',
                                         'builtins.BaseException'):
        return True
    return False

  # -- entry points --------------------------------------------------------------

  def run(self, fn, self_term=None, args=None, kwargs=None, defaults=False):
    """Analyses a program function with symbolic parameters.

    args: dict parameter name -> Term overriding the symbolic value.
    defaults: parameters with default values take them.
    """
    args = dict(args or {})
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    kwonly = [x.arg for x in a.kwonlyargs]
    pos = []
    fr_names = names
    if fn.cls is not None and not fn.is_static:
      first = names[0]
      if self_term is None and first not in args:
        self_term = T('cls', fn.cls) if fn.is_classmethod else T(
            'self', fn.cls)
      fr_names = names[1:]
    kw = []
    dnames = set(names[len(names) - len(a.defaults):]) | set(
        x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
    for n in fr_names + kwonly:
      if n in args:
        kw.append((n, args[n]))
      elif defaults and n in dnames:
        continue
      else:
        kw.append((n, T('param', n)))
    posargs = []
    if a.vararg is not None:
      # positional parameters must be passed positionally before *args
      posargs = [v for n, v in kw if n in fr_names]
      kw = [(n, v) for n, v in kw if n not in fr_names]
      posargs.append(T('star', args.get('*' + a.vararg.arg,
                                        T('param', a.vararg.arg))))
    if a.kwarg is not None:
      kw.append(('**', args.get('**' + a.kwarg.arg,
                                T('param', a.kwarg.arg))))
    n0 = len(self.trace)
    self.cur_loc = (fn.module.rel, fn.node.lineno)
    saved = self.opaque
    self.visited.add(fn)
    fr = Frame(fn.module, fn.cls, self_term, (), fn)
    allargs = list(posargs)
    if self_term is not None and not fn.is_static:
      allargs = [self_term] + allargs
    live_in = self.st.live
    v = self.run_body(fn.node, fr, allargs, kw, fn.qual, self_term,
                      fn.decorators)
    res = Result(self, fn, self.freeze(v), v, self.trace[n0:], self.st.live)
    self.st = self.st.copy(live_in)
    return res


class Result(object):

  def __init__(self, interp, fn, value, raw, effects, live):
    self.interp = interp
    self.fn = fn
    self.value = value
    self.raw = raw
    self.effects = effects
    self.live = live

  def kind(self, *kinds):
    return [e for e in self.effects if e.kind in kinds]

  @property
  def raises(self):
    return self.kind('raise')

  def calls(self, pred):
    return [e for e in self.effects if e.kind == 'call' and pred(e)]


def _build(cs):
  v = cs[-1][1]
  for g, x in reversed(cs[:-1]):
    v = ITE(g, x, v)
  return v


def _assigned_target(t):
  return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _assigned(stmts):
  out = set()
  st = list(stmts)
  while st:
    n = st.pop()
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
      out.add(n.id)
    for c in ast.iter_child_nodes(n):
      st.append(c)
  return out


def truth(t, interp=None):
  if isinstance(t, Node):
    return t
  op = t.op
  if op == 'const':
    return TRUE if t.val else FALSE
  if op == 'bool':
    return t.args[0]
  if op == 'ite':
    return B.ite(t.args[0], truth_(t.args[1], interp),
                 truth_(t.args[2], interp))
  if op in ('list', 'tuple', 'dict', 'set'):
    if not t.args:
      return FALSE
    r = FALSE
    for x in t.args:
      if x.op == 'each':
        r = B.Or(r, ANY(x.args[0], x.args[1], x.args[2]))
      elif x.op in ('star', 'dstar'):
        r = B.Or(r, truth_(x.args[0], interp))
      elif x.op == 'del':
        continue
      else:
        return TRUE
    return r
  if op in ('obj', 'inst', 'fn', 'cls', 'closure', 'mod', 'bound', 'ext'):
    return TRUE
  if op == 'isnone' or op == 'cmp' or op == 'any' or op == 'isinstance':
    return B.atom(t)
  if op == 'call' and t.args[0] is EXT('builtins.zip') and all(
      interp is not None and interp.content(x).op in ('list', 'tuple') and
      truth_(x, interp) is TRUE for x in t.args[1].args):
    return TRUE
  if op == 'call' and t.args[0].op == 'ext' and (
      t.args[0].args[0] == 'builtins.len') and t.args[1].args:
    return truth_(t.args[1].args[0], interp)
  if op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == (
      'tf.cast') and t.args[1].args:
    return truth_(t.args[1].args[0], interp)
  if interp is not None:
    t = interp.freeze(t)
  return B.atom(t)


def gives_value(f, depth=4):
  """Every return of the function returns an operation on tensors, a number or
  a container, so never None."""
  body = getattr(f.node, 'body', None)
  if not isinstance(body, list) or depth == 0 or f.decorators or not (
      isinstance(body[-1], ast.Return)):
    return False
  todo, returns = list(body), []
  while todo:
    n = todo.pop()
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      return False
    if isinstance(n, ast.Return):
      returns.append(n.value)
    todo.extend(ast.iter_child_nodes(n))

  def ok(v):
    if isinstance(v, ast.Call):
      c = v.func
      if isinstance(c, ast.Name):
        g = f.module.functions.get(c.id)
        return g is not None and gives_value(g, depth - 1)
      while isinstance(c, ast.Attribute):
        c = c.value
      return isinstance(c, ast.Name) and c.id == 'tf'
    return isinstance(v, (ast.BinOp, ast.Tuple, ast.List, ast.Dict,
                          ast.Compare, ast.ListComp))
  return all(ok(v) for v in returns)


def truth_(t, interp):
  if interp is None:
    return truth(t, interp)
  c = interp.content(t)
  if c is t:
    return truth(t, interp)
  # a container that holds itself holds nothing more because of that
  if t in interp.truth_of:
    return FALSE
  interp.truth_of.add(t)
  try:
    return truth(c, interp)
  finally:
    interp.truth_of.discard(t)


_TRUTH.append(truth)
