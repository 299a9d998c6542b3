"""Source loader: parses /repo's current working tree and resolves names.

Nothing here imports or runs the code under analysis; only `ast` is used.
"""
import ast
import os

PKG = 'tensorflow_model_optimization'
CORE = PKG + '.python.core'

# Non-package modules are named by a canonical dotted prefix.
_EXT_CANON = {
    'tensorflow': 'tf',
    'numpy': 'np',
}
_STRIP = ('tf.compat.v1.', 'tf.compat.v2.', 'tf.math.', 'tf.v1.')


def canon_ext(dotted):
  """Canonical dotted name of an external symbol."""
  head, _, rest = dotted.partition('.')
  head = _EXT_CANON.get(head, head)
  d = head + ('.' + rest if rest else '')
  changed = True
  while changed:
    changed = False
    for p in _STRIP:
      if d.startswith(p) and len(d) > len(p):
        d = 'tf.' + d[len(p):]
        changed = True
  if d.startswith('tf.dtypes.'):
    d = 'tf.' + d[len('tf.dtypes.'):]
  if d.startswith('tf.keras'):
    d = 'keras' + d[len('tf.keras'):]
  if d.startswith('tf_keras'):
    d = 'keras' + d[len('tf_keras'):]
  if d.startswith('keras.src.'):
    d = 'keras.' + d[len('keras.src.'):]
  if d.startswith('keras.layers.experimental.preprocessing.'):
    d = 'keras.layers.' + d.rsplit('.', 1)[1]
  return d


class AnalysisError(Exception):
  """The analysis cannot give an answer (e.g. an anchor vanished)."""


class FunctionInfo(object):

  def __init__(self, module, qual, node, cls=None, parent=None):
    self.module = module
    self.qual = qual            # e.g. 'PruneLowMagnitude.call'
    self.node = node
    self.cls = cls              # ClassInfo or None
    self.parent = parent
    self.name = getattr(node, 'name', '<lambda>')

  @property
  def full(self):
    return self.module.name + ':' + self.qual

  @property
  def decorators(self):
    out = []
    for d in getattr(self.node, 'decorator_list', []):
      t = d.func if isinstance(d, ast.Call) else d
      parts = []
      while isinstance(t, ast.Attribute):
        parts.append(t.attr)
        t = t.value
      if isinstance(t, ast.Name):
        parts.append(t.id)
      out.append('.'.join(reversed(parts)))
    return out

  def is_kind(self, kind):
    return any(d.split('.')[-1] == kind for d in self.decorators)

  @property
  def is_property(self):
    return self.is_kind('property') or self.is_kind('abstractproperty')

  @property
  def is_static(self):
    return self.is_kind('staticmethod')

  @property
  def is_classmethod(self):
    return self.is_kind('classmethod')

  @property
  def is_abstract(self):
    return (self.is_kind('abstractmethod') or
            self.is_kind('abstractproperty'))

  def params(self):
    a = self.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

  def loc(self, node=None):
    n = node if node is not None else self.node
    return '%s:%d' % (self.module.rel, getattr(n, 'lineno', 0))

  def __repr__(self):
    return '<fn %s>' % self.full


class ClassInfo(object):

  def __init__(self, module, qual, node):
    self.module = module
    self.qual = qual
    self.name = node.name
    self.node = node
    self.methods = {}       # name -> FunctionInfo (last definition wins)
    self.setters = {}       # property name -> FunctionInfo
    self.attrs = {}         # class level assignments name -> ast expr
    self.attr_order = []
    self.base_nodes = node.bases
    self._bases = None
    self._mro = None

  @property
  def full(self):
    return self.module.name + ':' + self.qual

  def loc(self, node=None):
    n = node if node is not None else self.node
    return '%s:%d' % (self.module.rel, getattr(n, 'lineno', 0))

  def __repr__(self):
    return '<cls %s>' % self.full


class ModuleInfo(object):

  def __init__(self, name, path, rel, tree, is_pkg):
    self.name = name
    self.path = path
    self.rel = rel
    self.tree = tree
    self.is_pkg = is_pkg
    self.names = {}     # local name -> ('import', dotted) | ('fn', f) | ...
    self.functions = {}
    self.classes = {}
    self.assigns = {}   # name -> list of ast value expr (last wins)


class Program(object):
  """All non-test modules of the package under analysis."""

  def __init__(self, repo='/repo', include_examples=False):
    self.repo = repo
    self.modules = {}
    self.classes_by_name = {}
    self.errors = []
    root = os.path.join(repo, PKG)
    if not os.path.isdir(root):
      raise AnalysisError('package directory %s not found' % root)
    for d, dirs, files in os.walk(root):
      dirs[:] = sorted(x for x in dirs if x != '__pycache__')
      for f in sorted(files):
        if not f.endswith('.py') or f.endswith('_test.py'):
          continue
        path = os.path.join(d, f)
        rel = os.path.relpath(path, repo)
        if not include_examples and '/python/examples/' in '/' + rel:
          continue
        if ('/testing/' in rel or rel.endswith('test_utils.py') or
            rel.endswith('_test_utils.py') or
            rel.endswith('test_utils_mnist.py')):
          continue
        self._load(path, rel)
    for m in self.modules.values():
      self._index(m)
    self.stats = {
        'modules': len(self.modules),
        'classes': sum(len(m.classes) for m in self.modules.values()),
        'functions': sum(len(m.functions) + sum(
            len(c.methods) for c in m.classes.values())
                         for m in self.modules.values()),
    }

  def _load(self, path, rel):
    name = rel[:-3].replace('/', '.')
    is_pkg = name.endswith('.__init__')
    if is_pkg:
      name = name[:-len('.__init__')]
    with open(path, 'r', encoding='utf-8') as fh:
      src = fh.read()
    try:
      tree = ast.parse(src, filename=path)
    except SyntaxError as e:
      raise AnalysisError('cannot parse %s: %s' % (rel, e))
    self.modules[name] = ModuleInfo(name, path, rel, tree, is_pkg)

  # -- indexing -----------------------------------------------------------

  def _index(self, m):
    self._index_body(m, m.tree.body)

  def _index_body(self, m, body):
    for st in body:
      if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
        f = FunctionInfo(m, st.name, st)
        m.functions[st.name] = f
        m.names[st.name] = ('fn', f)
      elif isinstance(st, ast.ClassDef):
        c = self._index_class(m, st, st.name)
        m.names[st.name] = ('cls', c)
      elif isinstance(st, ast.Import):
        for a in st.names:
          if a.asname:
            m.names[a.asname] = ('import', a.name)
          else:
            m.names[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
      elif isinstance(st, ast.ImportFrom):
        base = st.module or ''
        if st.level:
          parts = m.name.split('.')
          if not m.is_pkg:
            parts = parts[:-1]
          parts = parts[:len(parts) - (st.level - 1)]
          base = '.'.join(parts + ([base] if base else []))
        for a in st.names:
          m.names[a.asname or a.name] = ('import', base + '.' + a.name)
      elif isinstance(st, ast.Assign):
        for t in st.targets:
          if isinstance(t, ast.Name):
            m.names[t.id] = ('assign', st.value)
            m.assigns[t.id] = st.value
      elif isinstance(st, ast.AnnAssign) and st.value is not None:
        if isinstance(st.target, ast.Name):
          m.names[st.target.id] = ('assign', st.value)
          m.assigns[st.target.id] = st.value
      elif isinstance(st, ast.If):
        self._index_body(m, st.body)
        self._index_body(m, st.orelse)
      elif isinstance(st, ast.Try):
        self._index_body(m, st.body)
        for h in st.handlers:
          pass

  def _index_class(self, m, node, qual):
    c = ClassInfo(m, qual, node)
    m.classes[qual] = c
    self.classes_by_name.setdefault(node.name, []).append(c)
    for st in node.body:
      if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
        f = FunctionInfo(m, qual + '.' + st.name, st, cls=c)
        if any(d.endswith('.setter') for d in f.decorators):
          c.setters[st.name] = f
          continue
        if any(d.endswith('.deleter') for d in f.decorators):
          continue
        c.methods[st.name] = f
      elif isinstance(st, ast.Assign):
        for t in st.targets:
          if isinstance(t, ast.Name):
            c.attrs[t.id] = st.value
            c.attr_order.append(t.id)
            if isinstance(st.value, ast.Name) and st.value.id in c.methods:
              c.methods[t.id] = c.methods[st.value.id]
      elif isinstance(st, ast.AnnAssign) and st.value is not None:
        if isinstance(st.target, ast.Name):
          c.attrs[st.target.id] = st.value
          c.attr_order.append(st.target.id)
      elif isinstance(st, ast.ClassDef):
        self._index_class(m, st, qual + '.' + st.name)
    return c

  # -- resolution ---------------------------------------------------------

  def resolve(self, module, name, _depth=0):
    """Resolves a global name.

    Returns ('fn', FunctionInfo) | ('cls', ClassInfo) | ('mod', ModuleInfo) |
    ('ext', dotted) | ('assign', module, ast) | None.
    """
    e = module.names.get(name)
    if e is None:
      return None
    if e[0] in ('fn', 'cls'):
      return e
    if e[0] == 'assign':
      return ('assign', module, e[1], name)
    return self.resolve_dotted(e[1], _depth)

  def resolve_dotted(self, dotted, _depth=0):
    if _depth > 12:
      return ('ext', canon_ext(dotted))
    if dotted == CORE + '.keras.compat.keras':
      return ('ext', 'keras')
    if dotted in self.modules:
      return ('mod', self.modules[dotted])
    if '.' in dotted:
      base, last = dotted.rsplit('.', 1)
      if base in self.modules:
        r = self.resolve(self.modules[base], last, _depth + 1)
        if r is not None:
          return r
        return ('ext', canon_ext(dotted))
      if base.startswith(PKG):
        r = self.resolve_dotted(base, _depth + 1)
        if r and r[0] == 'cls' and last in r[1].methods:
          return ('fn', r[1].methods[last])
    return ('ext', canon_ext(dotted))

  def resolve_expr(self, module, node):
    """Resolves a Name/Attribute chain to a definition (or None)."""
    if isinstance(node, ast.Name):
      r = self.resolve(module, node.id)
      if r and r[0] == 'assign':
        rr = self.resolve_expr(r[1], r[2])
        return rr or r
      return r
    if isinstance(node, ast.Attribute):
      b = self.resolve_expr(module, node.value)
      if b is None:
        return None
      if b[0] == 'mod':
        r = self.resolve(b[1], node.attr)
        if r and r[0] == 'assign':
          rr = self.resolve_expr(r[1], r[2])
          return rr or r
        if r is None:
          return self.resolve_dotted(b[1].name + '.' + node.attr)
        return r
      if b[0] == 'ext':
        return ('ext', canon_ext(b[1] + '.' + node.attr))
      if b[0] == 'cls':
        if node.attr in b[1].methods:
          return ('fn', b[1].methods[node.attr])
        nested = b[1].module.classes.get(b[1].qual + '.' + node.attr)
        if nested:
          return ('cls', nested)
        return None
    return None

  # -- classes ------------------------------------------------------------

  def bases(self, c):
    """List of ClassInfo or external dotted strings."""
    if c._bases is None:
      out = []
      for b in c.base_nodes:
        if isinstance(b, ast.Call):   # e.g. six.with_metaclass
          b = b.func
        r = self.resolve_expr(c.module, b)
        if r and r[0] == 'cls':
          out.append(r[1])
        elif r and r[0] == 'ext':
          out.append(r[1])
        elif isinstance(b, ast.Name):
          n = c.module.classes.get(b.id)
          out.append(n if n else b.id)
        else:
          out.append('?')
      c._bases = out
    return c._bases

  def mro(self, c):
    if c._mro is None:
      c._mro = self._c3(c)
    return c._mro

  def _c3(self, c):
    seqs = []
    for b in self.bases(c):
      seqs.append(list(self.mro(b)) if isinstance(b, ClassInfo) else [b])
    seqs.append([b for b in self.bases(c)])
    res = [c]
    seqs = [s for s in seqs if s]
    while seqs:
      for s in seqs:
        h = s[0]
        if not any(h in x[1:] for x in seqs):
          break
      else:
        h = seqs[0][0]
      res.append(h)
      seqs = [[x for x in s if x != h] for s in seqs]
      seqs = [s for s in seqs if s]
    return res

  def find_method(self, c, name, after=None):
    """Finds method through the MRO (program classes only).

    Returns FunctionInfo, or an external base's dotted name if an external
    class precedes any definition (only when nothing in-program defines it).
    """
    mro = self.mro(c)
    if after is not None:
      mro = mro[mro.index(after) + 1:] if after in mro else mro
    for k in mro:
      if isinstance(k, ClassInfo) and name in k.methods:
        return k.methods[name]
    return None

  def find_setter(self, c, name):
    for k in self.mro(c):
      if isinstance(k, ClassInfo):
        if name in k.setters:
          return k.setters[name]
    return None

  def find_class_attr(self, c, name):
    for k in self.mro(c):
      if isinstance(k, ClassInfo):
        if name in k.attrs:
          return (k, k.attrs[name])
        if name in k.methods:
          return None
    return None

  def is_subclass(self, c, other):
    return other in self.mro(c)

  def is_subclass_name(self, c, name):
    """True if some class in the MRO is named `name` (ext: last component)."""
    for k in self.mro(c):
      n = k.name if isinstance(k, ClassInfo) else k.split('.')[-1]
      if n == name:
        return True
    return False

  def ext_bases(self, c):
    return [k for k in self.mro(c) if not isinstance(k, ClassInfo)]

  def subclasses(self, c):
    out = []
    for m in self.modules.values():
      for k in m.classes.values():
        if k is not c and c in self.mro(k):
          out.append(k)
    return out

  def all_classes(self):
    for n in sorted(self.modules):
      m = self.modules[n]
      for q in m.classes:
        yield m.classes[q]

  # -- anchors ------------------------------------------------------------

  def module(self, suffix):
    """Module by dotted suffix (unique)."""
    c = [m for n, m in self.modules.items()
         if n == suffix or n.endswith('.' + suffix)]
    if len(c) == 1:
      return c[0]
    if len(c) > 1:
      c2 = [m for m in c if m.name.startswith(CORE) and '.api.' not in m.name]
      if len(c2) == 1:
        return c2[0]
    raise AnalysisError('module anchor %r: %d candidates' % (suffix, len(c)))

  def cls(self, name, module=None):
    c = self.classes_by_name.get(name, [])
    if module is not None:
      c = [k for k in c if k.module.name.endswith(module)]
    if len(c) == 1:
      return c[0]
    raise AnalysisError('class anchor %r (module %r): %d candidates' % (
        name, module, len(c)))

  def method(self, cname, mname, module=None):
    c = self.cls(cname, module)
    f = self.find_method(c, mname)
    if f is None:
      raise AnalysisError('method anchor %s.%s vanished' % (cname, mname))
    return f

  def func(self, module, name):
    m = self.module(module)
    r = self.resolve(m, name)
    if r and r[0] == 'fn':
      return r[1]
    raise AnalysisError('function anchor %s.%s vanished' % (module, name))
