"""Shared machinery of the rules: specifications and equivalence checking.

A specification is a small reference function under sa/spec/.  It is never
executed: it is analysed by the same value-flow engine as the code, and the
resulting guarded terms are compared with those of the code.
"""
import os

from sa import arith
from sa.engine import Interp
from sa.loader import AnalysisError, ClassInfo, FunctionInfo
from sa.query import *  # pylint: disable=wildcard-import
from sa.terms import (B, BOOL, C, EXT, FALSE, ITE, NONE, T, TRUE, TUP, Node,
                      Term, cases, lift, rewrite, show, showg, simplify,
                      subst, subterms, to_guard)

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    'spec')


def spec(prog, module, name):
  """FunctionInfo of a reference function in sa/spec/<module>.py."""
  mn = 'sa_spec.' + module
  if mn not in prog.modules:
    path = os.path.join(SPEC, module + '.py')
    keep = dict(prog.classes_by_name)
    prog._load(path, 'sa_spec/%s.py' % module)
    m = prog.modules[mn]
    prog._index(m)
    prog.classes_by_name = keep
  m = prog.modules[mn]
  if name not in m.functions:
    raise AnalysisError('specification %s.%s missing' % (module, name))
  return m.functions[name]


def obj(prog, name, n=0, module=None):
  return T('obj', prog.cls(name, module), n)


def make(I, prog, name, args=None, n=0, module=None, defaults=False):
  """Concrete instance with __init__ analysed; returns (object, Result)."""
  c = prog.cls(name, module)
  o = T('obj', c, n)
  init = prog.find_method(c, '__init__')
  r = None
  if init is not None:
    r = I.run(init, self_term=o, args=args, defaults=defaults)
  return o, r


def call_m(I, o, name, args=None, defaults=False, kwargs=None):
  f = I.prog.find_method(o.args[0], name)
  if f is None:
    raise AnalysisError('method %s.%s vanished' % (o.args[0].name, name))
  return I.run(f, self_term=o, args=args, defaults=defaults)


# -- guards ------------------------------------------------------------------


def gnf(g):
  """Guard with canonical atoms."""
  return to_guard(nf(BOOL(g)))


def raise_guard(r):
  """Condition under which the analysed function raises."""
  g = FALSE
  for e in r.raises:
    if e.ctx_caught if hasattr(e, 'ctx_caught') else False:
      continue
    g = B.Or(g, e.guard)
  return g


# -- terms -------------------------------------------------------------------


def canon(t):
  return nf(t)


def differ(a, b, under=TRUE, limit=64):
  """None when a and b denote the same value under the guard, else a witness
  (guard, x, y)."""
  a, b, under = nf(a), nf(b), gnf(under)
  if a is b:
    return None
  a, b = nf(simplify_deep(a, under)), nf(simplify_deep(b, under))
  if a is b:
    return None
  la, lb = lift(a, limit), lift(b, limit)
  for ga, x in la:
    for gb, y in lb:
      g = B.And(B.And(ga, gb), under)
      if g is FALSE:
        continue
      x1, y1 = nf(simplify_deep(nf(x), g)), nf(simplify_deep(nf(y), g))
      if x1 is y1:
        continue
      g2 = settle(g)
      if g2 is FALSE:
        continue
      if g2 is not g:
        x1, y1 = nf(simplify_deep(x1, g2)), nf(simplify_deep(y1, g2))
        if x1 is y1:
          continue
      if x1.op == 'bool' or y1.op == 'bool':
        gx, gy = B.And(to_guard(x1), g), B.And(to_guard(y1), g)
        if gx is gy or same_guard(gx, gy):
          continue
      if arith.feasible_part(gnf(g)) is FALSE:
        continue
      return g, x1, y1
  return None


def settle(g):
  """g with the choices inside its conditions that g itself decides removed;
  conditions that then coincide are merged."""
  for _ in range(4):
    sup = B.support(g)
    m = {}
    for a in sup:
      n = B.atom(a)
      if B.implies(g, n) or B.disjoint(g, n):
        lits = TRUE
        for b in sup:
          if b is a:
            continue
          nb = B.atom(b)
          if B.implies(g, nb):
            lits = B.And(lits, nb)
          elif B.disjoint(g, nb):
            lits = B.And(lits, B.Not(nb))
        b = nf(simplify_deep(a, lits))
        if b is not a:
          m[a] = b
    if not m:
      return g
    g2 = gnf(B.map_atoms(g, lambda a: to_guard(m[a]) if a in m else B.atom(a)))
    if g2 is g:
      return g
    g = g2
    if g is FALSE:
      return g
  return g


def simplify_deep(t, g):
  """Removes choices decided by g everywhere inside t."""
  if g is TRUE:
    return t

  def f(x):
    if x.op in ('ite', 'bool'):
      return simplify(x, g)
    return x
  return rewrite(t, f)


def explain(w):
  if w is None:
    return ''
  g, x, y = w
  x, y = first_diff(x, y)
  return 'when %s: code has %s, rule requires %s' % (
      showg(g)[:300], show(x, 9)[:500], show(y, 9)[:500])


def first_diff(x, y, depth=0):
  """Descends to the smallest differing pair of subterms."""
  if x.op == y.op and len(x.args) == len(y.args) and x.op not in (
      'poly', 'const', 'ext'):
    d = [(p, q) for p, q in zip(x.args, y.args) if p is not q]
    if len(d) == 1 and isinstance(d[0][0], Term) and isinstance(
        d[0][1], Term):
      return first_diff(d[0][0], d[0][1])
  return x, y


def expect_value(ctx, key, where, got, want, under=TRUE):
  w = differ(got, want, under)
  return ctx.ob(key, w is None, where, explain(w))


def expect_bool(ctx, key, where, got, want, under=TRUE):
  """Two terms have the same truth value."""
  return expect_guard(ctx, key, where, to_guard(got), to_guard(want), under)


def same_guard(a, b, under=TRUE, integer=False):
  g, w, u = gnf(a), gnf(b), gnf(under)
  g, w = B.And(g, u), B.And(w, u)
  if g is w:
    return True
  x = B.Or(B.And(g, B.Not(w)), B.And(w, B.Not(g)))
  return arith.feasible_part(x, integer) is FALSE


def implies(a, b, integer=False):
  a, b = gnf(a), gnf(b)
  return B.implies(a, b) or arith.feasible_part(
      B.And(a, B.Not(b)), integer) is FALSE


def visiting(g, lst):
  """The condition g as seen while visiting an element of lst: "some element
  of lst satisfies c" holds whenever the visited element satisfies c."""
  g = gnf(g)
  for a in B.support(g):
    if a.op == 'any' and nf(a.args[0]) is nf(lst):
      c = gnf(a.args[1])
      g = B.Or(B.And(c, B.restrict(g, a, True)),
               B.And(B.Not(c), g))
    elif a is nf(lst) or (B.support(gnf(to_guard(lst))) == {a}):
      g = B.restrict(g, a, True)
  return g


def expect_guard(ctx, key, where, got, want, under=TRUE, integer=False):
  """got and want are equivalent conditions (under `under`)."""
  g, w = gnf(got), gnf(want)
  ok = same_guard(got, want, under, integer)
  return ctx.ob(key, ok, where, 'condition in code: %s; required: %s' % (
      showg(g), showg(w)) if not ok else '')


def expect_implies(ctx, key, where, a, b, integer=False):
  a, b = gnf(a), gnf(b)
  ok = implies(a, b, integer)
  return ctx.ob(key, ok, where, '%s does not imply %s' % (
      showg(a), showg(b)) if not ok else '')


# -- effects -----------------------------------------------------------------


def eff_key(e):
  """Canonical content of an effect (without its guard)."""
  out = [e.kind]
  for x in e.a:
    if isinstance(x, Term) and x.op == 'kw' and e.kind == 'call' and (
        e.a[0].op == 'ext'):
      x = T('kw', *[y for i in range(0, len(x.args), 2)
                    if x.args[i] not in ('name', 'message')
                    for y in x.args[i:i + 2]])
    out.append(nf(x) if isinstance(x, Term) else x)
  out.append(tuple(nf(l[0]) if isinstance(l, tuple) else l for l in e.loops))
  return tuple(out)


def summarise(effects):
  """Ordered {content: guard} with guards of equal effects joined."""
  d = {}
  for e in effects:
    k = eff_key(e)
    d[k] = (B.Or(d[k][0], e.guard), d[k][1]) if k in d else (e.guard, e)
  return d


def show_eff(k):
  return '%s(%s)' % (k[0], ', '.join(
      show(x, 6) if isinstance(x, Term) else str(x) for x in k[1:-1]))[:400]


def expect_effects(ctx, key, where, got, want, under=TRUE, ordered=False):
  """The two effect lists are the same guarded actions.

  Guards are compared for equivalence under `under`; with ordered, the relative
  order of the matched actions must agree as well.
  """
  dg = {k: v for k, v in summarise(got).items()
        if B.And(gnf(v[0]), gnf(under)) is not FALSE}
  dw = {k: v for k, v in summarise(want).items()
        if B.And(gnf(v[0]), gnf(under)) is not FALSE}
  dg, dw = _match(dg, dw, under)
  ok = True
  det = []
  u = gnf(under)
  for k, (g, e) in dw.items():
    if k not in dg:
      ok = False
      det.append('missing: %s' % show_eff(k))
      continue
    a, b = B.And(gnf(dg[k][0]), u), B.And(gnf(g), u)
    if not same_guard(a, b):
      ok = False
      det.append('%s: happens when %s, required when %s' % (
          show_eff(k), showg(a), showg(b)))
      where = dg[k][1].loc
  for k, (g, e) in dg.items():
    if k not in dw:
      ok = False
      det.append('extra at %s: %s when %s' % (e.loc, show_eff(k), showg(g)))
      where = e.loc
  if ok and ordered:
    og = [k for k in dg if k in dw]
    ow = [k for k in dw]
    if og != ow:
      ok = False
      det.append('order of actions differs: %s' % '; '.join(
          show_eff(k) for k in og))
  return ctx.ob(key, ok, where, ' | '.join(det)[:1500])


def _match(dg, dw, under):
  """Splits choices inside effect contents until both sides agree."""
  def split(d):
    out = {}
    for k, (g, e) in d.items():
      parts = [(TRUE, [])]
      for x in k:
        if isinstance(x, Term):
          lx = lift(x, 32)
          parts = [(B.And(p, gg), acc + [nf(simplify_deep(y, B.And(p, gg)))])
                   for p, acc in parts for gg, y in lx
                   if B.And(p, gg) is not FALSE]
        else:
          parts = [(p, acc + [x]) for p, acc in parts]
      for p, acc in parts:
        gg = B.And(gnf(g), gnf(p))
        if B.And(gg, gnf(under)) is FALSE:
          continue
        kk = tuple(acc)
        out[kk] = (B.Or(out[kk][0], gg), e) if kk in out else (gg, e)
    return out
  if set(dg) == set(dw):
    return dg, dw
  return split(dg), split(dw)


def run_spec(I, module, name, args):
  return I.run(spec(I.prog, module, name), args=args, defaults=True)


def where(fn):
  return fn.loc()


def attr(t, name):
  return T('attr', t, name)


def field(I, o, name):
  return I.freeze(I.get_attr(o, name))


def P(name):
  return T('param', name)


# -- constructed objects and function values ---------------------------------


def unobj(I, t):
  """Replaces constructed objects by their class and constructor arguments."""
  memo = {}

  def f(x):
    if x.op == 'obj' and x in I.objinfo:
      if x in memo:
        return memo[x] or x
      memo[x] = None
      cls, b, _ = I.objinfo[x]
      flat = []
      for k in sorted(b, key=str):
        flat.extend([str(k), rewrite(I.freeze(b[k]), f)])
      memo[x] = T('make', cls, T('kwd', *flat))
      return memo[x]
    return x
  return rewrite(I.freeze(t), f)


def made(t, name=None):
  return t.op == 'make' and (name is None or t.args[0].name == name)


def made_kw(t):
  k = t.args[1].args
  return {k[i]: k[i + 1] for i in range(0, len(k), 2)}


def apply(I, f, args, kwargs=(), under=TRUE):
  """Analyses the call of a function value (closure, bound method, ...)."""
  from sa.engine import Result
  n0 = len(I.trace)
  live = I.st.live
  I.st = I.st.copy(under)
  v = I.call(f, list(args), list(kwargs))
  r = Result(I, None, I.freeze(v), v, I.trace[n0:], I.st.live)
  I.st = I.st.copy(live)
  return r


def ctor_opaque(f):
  """Constructors are recorded, not entered."""
  return f.cls is not None and f.name == '__init__'


def expect_calls(ctx, key, where, got, want, under=TRUE):
  """Multisets of guarded calls agree (see expect_effects)."""
  return expect_effects(ctx, key, where, got, want, under)


def effects_of(r, *names):
  """Opaque calls whose callee's last name is one of names."""
  out = []
  for e in r.effects:
    if e.kind == 'call' and last_name(e.a[0]) in names:
      out.append(e)
  return out


def last_name(c):
  if c.op == 'ext':
    return c.args[0].split('.')[-1]
  if c.op == 'attr':
    return c.args[1]
  if c.op == 'fn':
    return c.args[0].name
  return None


def union(effects):
  g = FALSE
  for e in effects:
    g = B.Or(g, e.guard)
  return g


def raises(r):
  return union(r.raises)


def raises_type(r, name):
  """The condition for raising an exception of the class with this name."""
  def is_it(t):
    while isinstance(t, Term) and t.op in ('call', 'new'):
      t = t.args[0]
    return isinstance(t, Term) and str(t.args[0]).split('.')[-1] == name
  return union([e for e in r.raises if is_it(e.a[0])])
