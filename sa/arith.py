"""Feasibility of guard cubes: linear arithmetic over comparison atoms.

Comparison atoms have the form p < 0 or p == 0 (query._cmp_nf).  Monomials are
treated as independent unknowns, so "infeasible" is always right and "feasible"
may be an over-approximation.
"""
from fractions import Fraction

from sa.query import _poly, nf
from sa.terms import B, BOOL, FALSE, TRUE, to_guard


def _lin(poly):
  c = Fraction(0)
  d = {}
  for m, k in poly.items():
    if m == ():
      c += k
    else:
      d[m] = d.get(m, 0) + Fraction(k)
  return d, c


def _neg(l):
  d, c = l
  return {m: -k for m, k in d.items()}, -c


def _plus(l, x):
  return dict(l[0]), l[1] + x


def infeasible(lits, integer=False, limit=400):
  """True when the conjunction of literals has no (real/integer) solution."""
  le, lt, ne = [], [], []
  # a layer object is always true
  layers = {a.args[0] for a, pol in lits if pol and a.op == 'isinstance' and
            a.args[1].op == 'ext' and a.args[1].args[0].startswith(
                'keras.layers.')}
  if layers and any(not pol and a in layers for a, pol in lits):
    return True
  for a, pol in lits:
    if a.op != 'cmp' or a.args[0] not in ('<', '=='):
      continue
    l = _lin(_poly(a.args[1], None))
    r = _lin(_poly(a.args[2], None))
    d = dict(l[0])
    for m, k in r[0].items():
      d[m] = d.get(m, 0) - k
    l = ({m: k for m, k in d.items() if k}, l[1] - r[1])
    if a.args[0] == '==':
      if pol:
        le.append(l)
        le.append(_neg(l))
      else:
        ne.append(l)
    elif pol:
      lt.append(l)
    else:
      le.append(_neg(l))
  if len(ne) > 5:
    ne = ne[:5]

  def go(le, lt, ne):
    if ne:
      l = ne[0]
      return (go(le, lt + [l], ne[1:]) and go(le, lt + [_neg(l)], ne[1:]))
    return _fm([(l, False) for l in le] + [(l, True) for l in lt], integer,
               limit)
  return go(le, lt, ne)


def _fm(cons, integer, limit):
  if integer:
    cons = [(_plus(l, 1), False) if s and _isint(l, integer) else (l, s)
            for l, s in cons]
  while True:
    vs = {}
    for (d, c), s in cons:
      if not d:
        if c > 0 or (s and c == 0):
          return True
        continue
      for m in d:
        vs[m] = vs.get(m, 0) + 1
    cons = [x for x in cons if x[0][0]]
    if not vs or len(cons) > limit:
      return False
    v = min(vs, key=lambda m: vs[m])
    up = [x for x in cons if x[0][0].get(v, 0) > 0]
    lo = [x for x in cons if x[0][0].get(v, 0) < 0]
    rest = [x for x in cons if v not in x[0][0]]
    for (d1, c1), s1 in up:
      for (d2, c2), s2 in lo:
        a, b = -d2[v], d1[v]
        d = {}
        for m, k in d1.items():
          d[m] = d.get(m, 0) + a * k
        for m, k in d2.items():
          d[m] = d.get(m, 0) + b * k
        d = {m: k for m, k in d.items() if k}
        rest.append(((d, a * c1 + b * c2), s1 or s2))
    cons = rest


def _isint(l, integer):
  if integer is not True and not all(
      x in integer for m in l[0] for x, e in m):
    return False
  return l[1].denominator == 1 and all(k.denominator == 1
                                       for k in l[0].values())


def feasible_part(g, integer=False, limit=200):
  """Disjunction of the cubes of g that are arithmetically satisfiable."""
  if g is FALSE or g is TRUE:
    return g
  cs = B.cubes(g)
  if len(cs) > limit:
    return g
  out = FALSE
  for c in cs:
    if not infeasible(c, integer):
      r = TRUE
      for a, p in c:
        n = B.atom(a)
        r = B.And(r, n if p else B.Not(n))
      out = B.Or(out, r)
  return out


def empty(g, integer=False):
  """g is unsatisfiable (canonical atoms, linear arithmetic)."""
  g = to_guard(nf(BOOL(g)))
  return feasible_part(g, integer) is FALSE
