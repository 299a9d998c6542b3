"""Queries over value terms: normal forms and containment."""
import ast
from fractions import Fraction

from sa.terms import (B, BOOL, C, EXT, FALSE, ITE, NONE, T, TRUE, Node, Term,
                      cases, lift, rewrite, show, subterms, to_guard)

# Positional names of external functions (used to normalise keyword calls).
SIG = {
    'tf.cast': ('x', 'dtype'),
    'tf.reshape': ('tensor', 'shape'),
    'tf.maximum': ('x', 'y'),
    'tf.minimum': ('x', 'y'),
    'tf.gather': ('params', 'indices'),
    'tf.transpose': ('a', 'perm'),
    'tf.one_hot': ('indices', 'depth', 'on_value', 'off_value', 'axis',
                   'dtype'),
    'tf.slice': ('input_', 'begin', 'size'),
    'tf.clip_by_value': ('t', 'clip_value_min', 'clip_value_max'),
    'tf.zeros_like': ('input',),
    'tf.ones_like': ('input',),
    'tf.size': ('input',),
    'tf.nn.top_k': ('input', 'k', 'sorted'),
    'tf.top_k': ('input', 'k', 'sorted'),
    'tf.reduce_min': ('input_tensor', 'axis'),
    'tf.reduce_max': ('input_tensor', 'axis'),
    'tf.reduce_mean': ('input_tensor', 'axis'),
    'tf.reduce_sum': ('input_tensor', 'axis'),
    'tf.stack': ('values', 'axis'),
    'tf.concat': ('values', 'axis'),
    'tf.fill': ('dims', 'value'),
    'tf.tile': ('input', 'multiples'),
    'tf.expand_dims': ('input', 'axis'),
    'tf.matmul': ('a', 'b'),
    'tf.where': ('condition', 'x', 'y'),
    'tf.quantization.fake_quant_with_min_max_vars': (
        'inputs', 'min', 'max', 'num_bits', 'narrow_range'),
    'tf.quantization.fake_quant_with_min_max_vars_per_channel': (
        'inputs', 'min', 'max', 'num_bits', 'narrow_range'),
    'tf.unsorted_segment_sum': ('data', 'segment_ids', 'num_segments'),
    'tf.unsorted_segment_mean': ('data', 'segment_ids', 'num_segments'),
    'tf.argmin': ('input', 'axis'),
    'tf.scatter_nd': ('indices', 'updates', 'shape'),
    'tf.divide_no_nan': ('x', 'y'),
}
ALIASES = {
    'builtins.abs': 'tf.abs', 'np.abs': 'tf.abs', 'np.absolute': 'tf.abs',
    'keras.backend.abs': 'tf.abs', 'builtins.round': 'tf.round',
    'tf.top_k': 'tf.nn.top_k', 'keras.backend.sum': 'tf.reduce_sum',
    'tf.range_': 'tf.range',
}
_COMM = {'tf.maximum', 'tf.minimum', 'builtins.max', 'builtins.min'}
_DROPKW = {'name', 'message'}


def is_ext(t, *names):
  return isinstance(t, Term) and t.op == 'ext' and (
      not names or t.args[0] in names)


def is_call(t, *names):
  """Call of an external function with one of the dotted names."""
  if not (isinstance(t, Term) and t.op == 'call'):
    return False
  c = t.args[0]
  return c.op == 'ext' and (not names or c.args[0] in names or
                            c.args[0].split('.')[-1] in names)


def call_name(t):
  """Dotted external name, or method name prefixed with '.'"""
  if t.op != 'call':
    return None
  c = t.args[0]
  if c.op == 'ext':
    return c.args[0]
  if c.op == 'attr':
    return '.' + c.args[1]
  if c.op == 'fn':
    return c.args[0].qual
  return None


def is_method(t, name, base=None):
  if not (isinstance(t, Term) and t.op == 'call'):
    return False
  c = t.args[0]
  if c.op != 'attr' or c.args[1] != name:
    return False
  return base is None or c.args[0] is base


def pos(t):
  return t.args[1].args


def kw(t):
  k = t.args[2].args
  return {k[i]: k[i + 1] for i in range(0, len(k), 2)}


def arg(t, i, name=None, default=None):
  """Argument i / keyword `name` of a call term."""
  p = t.args[1].args
  if i is not None and i < len(p):
    return p[i]
  return kw(t).get(name, default)


def eff_kw(e):
  k = e.a[2].args
  return {k[i]: k[i + 1] for i in range(0, len(k), 2)}


def eff_arg(e, i, name=None, default=None):
  p = e.a[1].args
  if i is not None and i < len(p):
    return p[i]
  return eff_kw(e).get(name, default)


def new_kw(e):
  """Constructor arguments of a 'new' effect."""
  k = e.a[1].args
  return {k[i]: k[i + 1] for i in range(0, len(k), 2)}


def callee_fn(c):
  """The function of the program that a call term calls, and its parameters."""
  if c.op == 'fn':
    f = c.args[0]
  elif c.op == 'attr' and c.args[0].op == 'obj':
    f = next((k.methods[c.args[1]] for k in c.args[0].args[0]._mro or ()
              if c.args[1] in getattr(k, 'methods', ())), None)
  else:
    return None
  a = getattr(getattr(f, 'node', None), 'args', None)
  if a is None or a.vararg or f.decorators and not f.is_abstract:
    return None
  names = [x.arg for x in a.posonlyargs + a.args]
  if c.op == 'attr' and not f.is_static:
    names = names[1:]
  dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
  return names, {k: C(v.value)
                 for k, v in dflt.items() if isinstance(v, ast.Constant)}


def norm_call(t):
  """Keyword arguments of calls to known functions by position; defaults are
  dropped."""
  sig = callee_fn(t.args[0])
  if sig is None:
    return t
  names, dflt = sig
  p, k = list(t.args[1].args), dict(kw(t))
  if len(p) > len(names) or any(x.op == 'star' for x in p) or any(
      not isinstance(x, str) for x in k):
    return t
  k.update(zip(names, p))
  k = {x: v for x, v in k.items() if not (x in dflt and v is dflt[x])}
  p = []
  for n in names:
    if n not in k:
      break
    p.append(k.pop(n))
  kk = []
  for x in sorted(k):
    kk.extend([x, k[x]])
  return T('call', t.args[0], T('args', *p), T('kw', *kk))


def norm_sig(t):
  """Normalises external calls: aliases, keyword -> positional, drop names."""
  if t.op == 'attr' and t.args[1] in ('rank', 'ndims') and (
      t.args[0].op == 'attr' and t.args[0].args[1] == 'shape'):
    return T('call', EXT('builtins.len'), T('args', t.args[0]), T('kw'))
  if is_method(t, 'get_shape') and not pos(t) and not kw(t):
    return T('attr', t.args[0].args[0], 'shape')
  if t.op != 'call':
    return t
  if t.args[0].op != 'ext':
    return norm_call(t)
  n = t.args[0].args[0]
  n2 = ALIASES.get(n, n)
  p = list(t.args[1].args)
  k = dict(kw(t))
  for d in _DROPKW:
    k.pop(d, None)
  sig = SIG.get(n2)
  if sig:
    for i in range(len(p), len(sig)):
      if sig[i] in k:
        p.append(k.pop(sig[i]))
      else:
        break
  if n2 in _COMM and not k:
    p.sort(key=lambda x: x.uid)
    n2 = {'builtins.max': 'tf.maximum', 'builtins.min': 'tf.minimum'}.get(
        n2, n2) if len(p) == 2 else n2
  kk = []
  for x in sorted(k):
    kk.extend([x, k[x]])
  return T('call', EXT(n2), T('args', *p), T('kw', *kk))


def strip_casts(t):
  def f(x):
    if is_call(x, 'tf.cast', 'tf.identity', 'tf.convert_to_tensor',
               'keras.backend.cast', 'tf.to_float', 'tf.constant') and pos(x):
      return pos(x)[0]
    return x
  return rewrite(t, f)


# -- polynomial normal form --------------------------------------------------


def _const_poly(c):
  return {(): Fraction(c)} if c != 0 else {}


def _num(t):
  if t.op == 'const' and isinstance(t.val, (int, float)) and not isinstance(
      t.val, bool):
    try:
      return Fraction(t.val).limit_denominator(10**12) if isinstance(
          t.val, float) else Fraction(t.val)
    except (OverflowError, ValueError):
      return None
  return None


def _mulm(a, b):
  d = {}
  for x, e in a + b:
    d[x] = d.get(x, 0) + e
  return tuple(sorted(((x, e) for x, e in d.items() if e),
                      key=lambda p: p[0].uid))


def padd(a, b, s=1):
  r = dict(a)
  for m, c in b.items():
    r[m] = r.get(m, 0) + s * c
    if r[m] == 0:
      del r[m]
  return r


def pmul(a, b):
  r = {}
  for m, c in a.items():
    for n, d in b.items():
      k = _mulm(m, n)
      r[k] = r.get(k, 0) + c * d
      if r[k] == 0:
        del r[k]
  return r


def _poly(t, memo):
  n = _num(t)
  if n is not None:
    return _const_poly(n)
  if t.op == 'poly':
    r = {}
    for mo in t.args:
      a = mo.args
      p = _const_poly(Fraction(a[0], a[1]))
      for i in range(2, len(a), 2):
        p = pmul(p, _ppow(_poly(a[i], memo), a[i + 1]))
      r = padd(r, p)
    return r
  if t.op == 'rat':
    return _const_poly(Fraction(*t.args))
  if t.op == 'bin':
    o, a, b = t.args
    if o == '+':
      return padd(_poly(a, memo), _poly(b, memo))
    if o == '-':
      return padd(_poly(a, memo), _poly(b, memo), -1)
    if o == '*':
      return pmul(_poly(a, memo), _poly(b, memo))
    if o == '/':
      return pmul(_poly(a, memo), _inv(_poly(b, memo)))
    if o == '**':
      e = _num(b)
      if e is not None and e.denominator == 1 and 0 <= e <= 6:
        r = _const_poly(1)
        for _ in range(int(e)):
          r = pmul(r, _poly(a, memo))
        return r
      return {((T('pow', mk(_poly(a, memo)), mk(_poly(b, memo))), 1),): 1}
  if is_call(t, 'tf.square') and pos(t):
    p = _poly(pos(t)[0], memo)
    return pmul(p, p)
  if is_call(t, 'tf.pow') and len(pos(t)) == 2:
    return _poly(T('bin', '**', *pos(t)), memo)
  return {((t, 1),): Fraction(1)}


def _ppow(p, e):
  if len(p) == 1:
    (m, c), = p.items()
    return {tuple((x, k * e) for x, k in m): Fraction(c)**int(e)}
  if e < 0:
    p, e = _inv(p), -e
  r = _const_poly(1)
  for _ in range(int(e)):
    r = pmul(r, p)
  return r


def _inv(p):
  if len(p) == 1:
    (m, c), = p.items()
    return {tuple((x, -e) for x, e in m): 1 / Fraction(c)}
  return {((mk(p), -1),): Fraction(1)}


def mk(p):
  if not p:
    return C(0)
  if len(p) == 1:
    (m, c), = p.items()
    if m == ():
      return C(int(c)) if c.denominator == 1 else T('rat', c.numerator,
                                                    c.denominator)
    if c == 1 and len(m) == 1 and m[0][1] == 1:
      return m[0][0]
  monos = sorted(p.items(), key=lambda mc: tuple((x.uid, e) for x, e in mc[0]))
  out = []
  for m, c in monos:
    c = Fraction(c)
    flat = []
    for x, e in m:
      flat.extend([x, e])
    out.append(T('mono', c.numerator, c.denominator, *flat))
  return T('poly', *out)


def nf(t, casts=True):
  """Canonical form: equal terms (by ring algebra, casts dropped) are `is`."""
  def f(x):
    if casts and is_call(x, 'tf.cast', 'keras.backend.cast', 'tf.constant',
                         'tf.convert_to_tensor', 'np.array',
                         'builtins.float', 'np.float32', 'np.int64') and (
                             pos(x)):
      return pos(x)[0]
    if x.op == 'attr' and x.args[0].op == 'ite':
      g, a, b = x.args[0].args
      return ITE(g, f(T('attr', a, x.args[1])), f(T('attr', b, x.args[1])))
    if x.op == 'dict' and len(x.args) > 1 and all(
        y.op == 'kv' and y.args[0].op == 'const' for y in x.args):
      return T('dict', *sorted(x.args, key=lambda y: repr(y.args[0].val)))
    if x.op == 'each' and x.args[2] is TRUE and x.args[3] is T(
        'elem', x.args[0], x.args[1]):
      return T('star', x.args[0])
    x = norm_sig(x)
    if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in (
        'tf.size', 'tf.shape') and pos(x):
      a = pos(x)[0]
      if is_call(a, 'tf.abs', 'tf.round', 'tf.sign') and pos(a):
        x = T('call', x.args[0], T('args', pos(a)[0]), x.args[2])
    if x.op == 'attr' and x.args[1] == 'shape' and is_call(
        x.args[0], 'tf.abs') and pos(x.args[0]):
      x = T('attr', pos(x.args[0])[0], 'shape')
    n = _num(x)
    if n is not None:
      return mk(_const_poly(n))
    if x.op == 'cmp' and x.args[0] in ('<', '==') and not _nonnum(
        x.args[1]) and not _nonnum(x.args[2]):
      return _cmp_nf(x)
    if x.op == 'poly' or x.op == 'bin' and x.args[0] in ('+', '-', '*', '/', '**') or is_call(
        x, 'tf.square', 'tf.pow'):
      return mk(_poly(x, None))
    return x
  return rewrite(t, f)


def _nonnum(t):
  return t.op in ('tuple', 'list', 'dict', 'set', 'cls', 'ext', 'fn', 'obj',
                  'bool', 'str') or (t.op == 'const' and _num(t) is None)


def _cmp_nf(x):
  """a < b and a == b as a comparison of a primitive polynomial with zero."""
  o, a, b = x.args
  p = padd(_poly(a, None), _poly(b, None), -1)
  if not p:
    return BOOL(FALSE if o == '<' else TRUE)
  if len(p) == 1 and () in p:
    return BOOL(TRUE if o == '<' and p[()] < 0 else FALSE)
  ms = sorted(p, key=lambda m: tuple((y.uid, e) for y, e in m))
  lead = [m for m in ms if m != ()][0]
  c = p[lead]
  if o == '==':
    p = {m: v / c for m, v in p.items()}
    return T('cmp', '==', mk(p), C(0))
  p = {m: v / abs(c) for m, v in p.items()}
  return T('cmp', '<', mk(p), C(0))


def same(a, b, casts=True):
  return nf(a, casts) is nf(b, casts)


def find(t, pred):
  return [s for s in subterms(t) if pred(s)]


def has(t, x):
  return any(s is x for s in subterms(t))


def ext(name, *args, **kws):
  k = []
  for n in sorted(kws):
    k.extend([n, kws[n]])
  return T('call', EXT(name), T('args', *args), T('kw', *k))


def add(a, b):
  return T('bin', '+', a, b)


def sub(a, b):
  return T('bin', '-', a, b)


def mul(a, b):
  return T('bin', '*', a, b)


def div(a, b):
  return T('bin', '/', a, b)


def is_add_weight(t):
  return is_method(t, 'add_weight') or is_method(t, 'add_variable')


def weight_name(t):
  """Constant name given to a variable created through add_weight."""
  if is_add_weight(t):
    n = arg(t, 0, 'name')
    if n is not None:
      return n
  return None


def weight_name_has(t, s):
  n = weight_name(t)
  if n is None:
    return False
  return any(x.op == 'const' and isinstance(x.val, str) and s in x.val
             for x in subterms(n))


def dict_get(t, key):
  """Value of a constant key in a frozen dict term (last wins)."""
  for e in reversed(t.args):
    if e.op == 'kv' and e.args[0].is_const(key):
      return e.args[1]
  return None


def dict_keys(t):
  return [e.args[0].val for e in t.args
          if e.op == 'kv' and e.args[0].op == 'const']


def const_guard(g):
  return g is TRUE or g is FALSE
