"""Hash-consed value terms and guard BDDs used by the value-flow analysis."""


class Term(object):
  __slots__ = ('op', 'args', 'uid')
  _table = {}
  _n = 0

  def __repr__(self):
    return show(self)

  def __iter__(self):
    return iter(self.args)

  @property
  def val(self):
    return self.args[1] if self.op == 'const' else None

  def is_const(self, *vals):
    if self.op != 'const':
      return False
    if not vals:
      return True
    return any(self.args[1] == v and type(self.args[1]) == type(v)
               for v in vals)


def T(op, *args):
  key = (op, args)
  t = Term._table.get(key)
  if t is None:
    t = Term()
    t.op = op
    t.args = args
    Term._n += 1
    t.uid = Term._n
    Term._table[key] = t
  return t


def C(v):
  return T('const', type(v).__name__, v)


NONE = C(None)
TRUE_T = C(True)
FALSE_T = C(False)


# Several public names of one external object.
EXT_ALIASES = {
    'keras.models.Sequential': 'keras.Sequential',
    'keras.models.Model': 'keras.Model',
    'keras.layers.InputLayer': 'keras.layers.InputLayer',
    'keras.engine.base_layer.Layer': 'keras.layers.Layer',
    'keras.utils.custom_object_scope': 'keras.utils.custom_object_scope',
    'keras.utils.CustomObjectScope': 'keras.utils.custom_object_scope',
}


def EXT(d):
  return T('ext', EXT_ALIASES.get(d, d))


def TUP(*items):
  return T('tuple', *items)


# ---------------------------------------------------------------------------
# BDDs


class Node(object):
  __slots__ = ('var', 'lo', 'hi', 'uid')

  def __repr__(self):
    return showg(self)


class BDD(object):

  def __init__(self):
    self.table = {}
    self.atoms = []
    self.index = {}
    self.n = 0
    self.TRUE = self._leaf()
    self.FALSE = self._leaf()
    self.cache = {}

  def _leaf(self):
    n = Node()
    n.var = 1 << 60
    n.lo = n.hi = None
    self.n += 1
    n.uid = self.n
    return n

  def mk(self, var, lo, hi):
    if lo is hi:
      return lo
    k = (var, lo.uid, hi.uid)
    n = self.table.get(k)
    if n is None:
      n = Node()
      n.var, n.lo, n.hi = var, lo, hi
      self.n += 1
      n.uid = self.n
      self.table[k] = n
    return n

  def atom(self, term):
    i = self.index.get(term)
    if i is None:
      i = len(self.atoms)
      self.atoms.append(term)
      self.index[term] = i
    return self.mk(i, self.FALSE, self.TRUE)

  def ite(self, f, g, h):
    if f is self.TRUE:
      return g
    if f is self.FALSE:
      return h
    if g is h:
      return g
    if g is self.TRUE and h is self.FALSE:
      return f
    k = ('ite', f.uid, g.uid, h.uid)
    r = self.cache.get(k)
    if r is not None:
      return r
    v = min(f.var, g.var, h.var)
    f0, f1 = (f.lo, f.hi) if f.var == v else (f, f)
    g0, g1 = (g.lo, g.hi) if g.var == v else (g, g)
    h0, h1 = (h.lo, h.hi) if h.var == v else (h, h)
    r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
    self.cache[k] = r
    return r

  def And(self, *fs):
    r = self.TRUE
    for f in fs:
      r = self.ite(r, f, self.FALSE)
    return r

  def Or(self, *fs):
    r = self.FALSE
    for f in fs:
      r = self.ite(r, self.TRUE, f)
    return r

  def Not(self, f):
    return self.ite(f, self.FALSE, self.TRUE)

  def implies(self, f, g):
    return self.And(f, self.Not(g)) is self.FALSE

  def disjoint(self, f, g):
    return self.And(f, g) is self.FALSE

  def constrain(self, f, c):
    """Generalised cofactor of f with respect to c."""
    if c is self.TRUE or f is self.TRUE or f is self.FALSE:
      return f
    if c is self.FALSE:
      return self.FALSE
    if f is c:
      return self.TRUE
    k = ('con', f.uid, c.uid)
    r = self.cache.get(k)
    if r is not None:
      return r
    v = min(f.var, c.var)
    f0, f1 = (f.lo, f.hi) if f.var == v else (f, f)
    c0, c1 = (c.lo, c.hi) if c.var == v else (c, c)
    if c0 is self.FALSE:
      r = self.constrain(f1, c1)
    elif c1 is self.FALSE:
      r = self.constrain(f0, c0)
    elif f.var > v:
      # f does not depend on v: avoid introducing it.
      r = self.constrain(f, self.Or(c0, c1))
    else:
      r = self.mk(v, self.constrain(f0, c0), self.constrain(f1, c1))
    self.cache[k] = r
    return r

  def restrict(self, f, term, value):
    """Cofactor with atom `term` set to a boolean."""
    i = self.index.get(term)
    if i is None:
      return f
    return self._restrict(f, i, value, {})

  def _restrict(self, f, i, value, memo):
    if f.lo is None or f.var > i:
      return f
    r = memo.get(f.uid)
    if r is None:
      if f.var == i:
        r = f.hi if value else f.lo
      else:
        r = self.mk(f.var, self._restrict(f.lo, i, value, memo),
                    self._restrict(f.hi, i, value, memo))
      memo[f.uid] = r
    return r

  def exists(self, f, term):
    return self.Or(self.restrict(f, term, True), self.restrict(f, term, False))

  def support(self, f):
    seen, out, st = set(), set(), [f]
    while st:
      n = st.pop()
      if n.uid in seen or n.lo is None:
        continue
      seen.add(n.uid)
      out.add(n.var)
      st.extend((n.lo, n.hi))
    return [self.atoms[i] for i in sorted(out)]

  def cubes(self, f):
    """Disjoint cubes: list of lists of (atom term, polarity)."""
    out = []

    def go(n, acc):
      if n is self.TRUE:
        out.append(list(acc))
        return
      if n is self.FALSE:
        return
      go(n.hi, acc + [(self.atoms[n.var], True)])
      go(n.lo, acc + [(self.atoms[n.var], False)])
    go(f, [])
    return out

  def literals(self, f):
    """Literals implied by f: list of (atom, polarity)."""
    out = []
    for a in self.support(f):
      if self.restrict(f, a, False) is self.FALSE:
        out.append((a, True))
      elif self.restrict(f, a, True) is self.FALSE:
        out.append((a, False))
    return out

  def map_atoms(self, f, fn):
    """Rebuilds f with every atom term replaced by the BDD fn(term)."""
    memo = {}

    def go(n):
      if n.lo is None:
        return n
      r = memo.get(n.uid)
      if r is None:
        r = self.ite(fn(self.atoms[n.var]), go(n.hi), go(n.lo))
        memo[n.uid] = r
      return r
    return go(f)


B = BDD()
TRUE, FALSE = B.TRUE, B.FALSE


def ITE(g, a, b):
  if g is TRUE or a is b:
    return a
  if g is FALSE:
    return b
  # Prune decided inner choices.
  a = simplify(a, g)
  b = simplify(b, B.Not(g))
  if a is b:
    return a
  if a is TRUE_T and b is FALSE_T:
    return BOOL(g)
  if a is FALSE_T and b is TRUE_T:
    return BOOL(B.Not(g))
  n = g
  while n.lo is not None:
    n = n.lo
  if n is TRUE:  # one of the two ways to write the same choice
    return T('ite', B.Not(g), b, a)
  return T('ite', g, a, b)


def BOOL(g):
  if g is TRUE:
    return TRUE_T
  if g is FALSE:
    return FALSE_T
  return T('bool', g)


def simplify(v, g):
  """Removes choices of v that are decided under guard g."""
  if not isinstance(v, Term):
    return v
  if v.op == 'ite':
    c, a, b = v.args
    if B.implies(g, c):
      return simplify(a, g)
    if B.disjoint(g, c):
      return simplify(b, g)
    n = decided(c, g)
    return v if n is c else ITE(n, a, b)
  if v.op == 'bool':
    if B.implies(g, v.args[0]):
      return TRUE_T
    if B.disjoint(g, v.args[0]):
      return FALSE_T
    n = decided(v.args[0], g)
    return v if n is v.args[0] else BOOL(n)
  return v


def decided(c, g):
  """c with the atoms decided by g replaced by their truth value."""
  if g is TRUE or g is FALSE:
    return c
  sg = B.support(g)
  for a in B.support(c):
    if a in sg:
      if B.implies(g, B.atom(a)):
        c = B.restrict(c, a, True)
      elif B.disjoint(g, B.atom(a)):
        c = B.restrict(c, a, False)
  return c


def cases(v, g=TRUE):
  """List of (guard, leaf) with top-level choices of v enumerated under g."""
  acc = {}
  order = []

  def go(x, gg):
    if gg is FALSE:
      return
    if isinstance(x, Term) and x.op == 'ite':
      c, a, b = x.args
      go(a, B.And(gg, c))
      go(b, B.And(gg, B.Not(c)))
      return
    if x in acc:
      acc[x] = B.Or(acc[x], gg)
    else:
      acc[x] = gg
      order.append(x)
  go(v, g)
  return [(acc[x], x) for x in order]


def subterms(t, into_guards=True, _seen=None):
  """All distinct subterms of t (pre-order)."""
  seen = set() if _seen is None else _seen
  st = [t]
  while st:
    x = st.pop()
    if isinstance(x, Node):
      if not into_guards or ('g', x.uid) in seen:
        continue
      seen.add(('g', x.uid))
      for a in reversed(B.support(x)):
        st.append(a)
      continue
    if not isinstance(x, Term) or x.uid in seen:
      continue
    seen.add(x.uid)
    yield x
    for a in reversed(x.args):
      if isinstance(a, (Term, Node)):
        st.append(a)


def contains(t, x):
  return any(s is x for s in subterms(t))


def rewrite(t, fn, memo=None):
  """Bottom-up rewriting; fn(term)-> term (called on rebuilt terms)."""
  memo = {} if memo is None else memo

  def go(x):
    if isinstance(x, Node):
      return B.map_atoms(x, lambda a: to_guard(go(a)))
    if not isinstance(x, Term):
      return x
    r = memo.get(x.uid)
    if r is None:
      args = [go(a) for a in x.args]
      if x.op == 'ite':
        r = ITE(*args)
      elif x.op == 'bool':
        r = BOOL(args[0])
      elif any(a is not b for a, b in zip(args, x.args)):
        r = T(x.op, *args)
      else:
        r = x
      r = fn(r)
      memo[x.uid] = r
    return r
  return go(t)


def subst(t, mapping):
  return rewrite(t, lambda x: mapping.get(x, x))


_TRUTH = []     # set by the engine: truth(term) -> Node


def to_guard(t):
  return _TRUTH[0](t)


def lift(t, limit=64):
  """Lifts every choice inside t to the top: list of (guard, choice-free)."""
  res = [(TRUE, t)]
  for _ in range(limit):
    for i, (g, x) in enumerate(res):
      ch = None
      for s in subterms(x, into_guards=False):
        if s.op == 'ite':
          ch = s
          break
      if ch is not None:
        c, a, b = ch.args
        new = []
        for gg, leaf in ((B.And(g, c), a), (B.And(g, B.Not(c)), b)):
          if gg is FALSE:
            continue

          def f(y, c=c, pos=(leaf is a)):
            if y.op == 'ite' and y.args[0] is c:
              return y.args[1] if pos else y.args[2]
            return y
          new.append((gg, rewrite(x, f)))
        res[i:i + 1] = new
        break
    else:
      break
  return res


# ---------------------------------------------------------------------------
# printing


def show(t, depth=7):
  if isinstance(t, Node):
    return showg(t, depth)
  if not isinstance(t, Term):
    return str(t)
  if depth <= 0:
    return '…'
  d = depth - 1
  o, a = t.op, t.args
  if o == 'const':
    return repr(a[1])
  if o == 'param':
    return a[0]
  if o == 'ext':
    return a[0]
  if o in ('self',):
    return 'self<%s>' % a[0].name
  if o == 'obj':
    return '%s#%d' % (a[0].name, a[1])
  if o == 'cls':
    return a[0].name
  if o == 'fn':
    return a[0].qual
  if o == 'attr':
    return '%s.%s' % (show(a[0], d), a[1])
  if o == 'sub':
    return '%s[%s]' % (show(a[0], d), show(a[1], d))
  if o == 'call' and a[0].op == 'attr' and a[0].args[1] == 'add_weight' and (
      a[1].args):
    return 'var(%s)' % show(a[1].args[0], d)
  if o == 'poly':
    out = []
    for mo in a:
      m = mo.args
      c = '%d' % m[0] if m[1] == 1 else '%d/%d' % m[:2]
      fs = [] if c == '1' and len(m) > 2 else [c]
      for i in range(2, len(m), 2):
        fs.append(show(m[i], d) + ('' if m[i + 1] == 1 else '^%s' % m[i + 1]))
      out.append('*'.join(fs))
    return '{' + ' + '.join(out) + '}'
  if o == 'call':
    s = [show(x, d) for x in a[1].args]
    k = a[2].args
    for i in range(0, len(k), 2):
      s.append('%s=%s' % (k[i], show(k[i + 1], d)))
    return '%s(%s)' % (show(a[0], d), ', '.join(s))
  if o == 'bin' or o == 'cmp':
    return '(%s %s %s)' % (show(a[1], d), a[0], show(a[2], d))
  if o == 'ite':
    return '(%s if %s else %s)' % (show(a[1], d), showg(a[0], d),
                                   show(a[2], d))
  if o == 'bool':
    return showg(a[0], d)
  if o == 'tuple':
    return '(%s)' % ', '.join(show(x, d) for x in a)
  if o == 'list':
    return '[%s]' % ', '.join(show(x, d) for x in a)
  if o == 'dict':
    return '{%s}' % ', '.join(show(x, d) for x in a)
  if o == 'kv':
    return '%s: %s' % (show(a[0], d), show(a[1], d))
  return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))


def showg(g, depth=5):
  if g is TRUE:
    return 'True'
  if g is FALSE:
    return 'False'
  cs = B.cubes(g)
  if len(cs) > 4:
    return '<guard over %s>' % ', '.join(
        show(a, depth - 1) for a in B.support(g)[:6])
  return ' or '.join(
      ' and '.join(('' if p else 'not ') + show(a, depth - 1) for a, p in c)
      for c in cs)
