"""X01: strategy objects that many layers share are not changed by them."""
from sa import engine
from sa.report import rule
from sa.rules._common import *
from sa.rules.serial import core

ROOTS = ('Quantizer', 'QuantizeConfig', 'PruningSchedule', 'QuantizeRegistry',
         'PrunePreserveQuantizeRegistry', 'ClusterPreserveQuantizeRegistry',
         'PruneRegistry', 'ClusteringRegistry', 'ClusteringLookupRegistry',
         'QuantizeScheme', 'PruningPolicy')
MUTATES = ('store', 'setattr', 'assign', 'setitem', 'mut', 'delitem',
           'delattr')


def shared_classes(prog):
  for c in prog.all_classes():
    if core(c) and c.qual == c.name and any(
        isinstance(k, ClassInfo) and k.name in ROOTS for k in prog.mro(c)):
      yield c


CONTAINERS = ('dict', 'list', 'tuple', 'set')


def owned(I, o, c):
  """Terms that denote the object, its attributes and their containers."""
  out, todo = set(), [o]
  for k in ctx_mro(I, c):
    todo.append(T('cls', k))
    todo += [I.get_attr(T('cls', k), n) for n in k.attrs]
  while todo:
    x = todo.pop()
    if x in out or not isinstance(x, Term):
      continue
    if x.op == 'ite':
      todo += [y for _, y in lift(x)]
    if x.op in ('loc', 'obj', 'cls', 'ite') or (
        x.op in CONTAINERS and x.args):
      out.add(x)
    for k, v in I.st.heap.items():
      if k[0] in 'fc' and k[1] is x:
        todo += [v] + [y for y in subterms(v) if y.op in ('loc', 'obj')]
  return out


def ctx_mro(I, c):
  return [k for k in I.prog.mro(c) if isinstance(k, ClassInfo)]


def touches(e, mine):
  """The effect changes one of the terms, or part of it."""
  t = e.a[0]
  if not isinstance(t, Term):
    return False
  if e.kind == 'call':
    if t.op != 'attr' or t.args[1] not in engine._MUTATORS:
      return False
    t = t.args[0]
  elif e.kind not in MUTATES:
    return False
  return any(x in mine or root(x) in mine for x in [t] + [
      y for _, y in lift(t)])


def root(t):
  while t.op in ('attr', 'sub', 'elem', 'call') and t.args and isinstance(
      t.args[0], Term):
    t = t.args[0]
  return t


@rule('X01', 300, 'No method but the constructor changes a shared object, its '
      'containers or its class.')
def x01(ctx):
  for c in shared_classes(ctx.prog):
    seen = set()
    for k in ctx.prog.mro(c):
      if not isinstance(k, ClassInfo):
        continue
      for n in sorted(k.methods):
        f = ctx.prog.find_method(c, n)
        if n in seen or f is None or n == '__init__' or f.is_static:
          continue
        seen.add(n)
        unchanged(ctx, c, f)


def unchanged(ctx, c, f):
  I = ctx.interp()
  if f.is_classmethod:
    o = T('cls', c)
  else:
    o, _ = make(I, ctx.prog, c.name, module=c.module.name)
  mine = owned(I, o, c)
  old = {k: v for k, v in I.st.heap.items() if k[1] in mine}
  r = I.run(f, self_term=o)
  new = {k: v for k, v in I.st.heap.items() if k[1] in mine and k[0] == 'c'}
  ctx.ob('%s.%s.contents' % (c.name, f.name), all(
      k in old and old[k] is v for k, v in new.items()), f.loc(),
         'changes the contents of %s' % '; '.join(
             show(k[1])[:150] for k, v in new.items() if old.get(k) is not v))
  bad = [e for e in r.effects if touches(e, mine)]
  ctx.ob('%s.%s' % (c.name, f.name), not bad, bad[0].loc if bad else f.loc(),
         'changes %s' % '; '.join(show_eff(eff_key(e))[:150] for e in bad))
