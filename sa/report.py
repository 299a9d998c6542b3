"""Obligation collection, known findings, evidence and exit codes."""
import json
import os
import sys
import time
import traceback

from sa.loader import AnalysisError, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = {}


class Rule(object):

  def __init__(self, pid, fn, minimum, text):
    self.pid = pid
    self.fn = fn
    self.minimum = minimum
    self.text = text


def rule(pid, minimum, text):
  """Registers the decision procedure of a property.

  minimum: number of obligations confirmed by hand on the reference tree; the
  check refuses to pass if it enumerates fewer.
  """
  def deco(fn):
    RULES[pid] = Rule(pid, fn, minimum, text)
    return fn
  return deco


class Ctx(object):

  def __init__(self, prog, tier='quick', seed=1):
    self.prog = prog
    self.tier = tier
    self.seed = seed
    self.obs = []
    self.functions = set()
    self.callsites = 0
    self.notes = []
    self.unsupported = []

  def interp(self, **kw):
    from sa.engine import Interp
    i = Interp(self.prog, **kw)
    i.ctx_owner = self
    self._interps = getattr(self, '_interps', [])
    self._interps.append(i)
    return i

  def ob(self, key, ok, where='', detail=''):
    """One proof obligation: a named fact about a construct."""
    self.obs.append((key, bool(ok), where, detail))
    return bool(ok)

  def finish(self):
    for i in getattr(self, '_interps', []):
      self.functions |= i.visited
      self.callsites += sum(1 for e in i.trace if e.kind in ('call', 'new'))
      self.unsupported.extend(i.unsupported)


def known_findings():
  """{(property, key): description} of recorded, unrepaired defects."""
  out = {}
  p = os.path.join(VERIF, 'known_findings.txt')
  if os.path.exists(p):
    for line in open(p):
      line = line.strip()
      if line.startswith('known: '):
        rest = line[len('known: '):]
        parts = rest.split(' ', 2)
        pid = parts[0].split('=', 1)[1]
        key = parts[1].split('=', 1)[1]
        out[(pid, key)] = parts[2] if len(parts) > 2 else ''
  return out


def run(pid, tier, repo='/repo', evidence_dir=None):
  t0 = time.time()
  r = RULES[pid]
  sys.setrecursionlimit(20000)
  prog = Program(repo)
  ctx = Ctx(prog, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
  r.fn(ctx)
  ctx.finish()
  known = known_findings()
  bad, kn = [], []
  for key, ok, where, detail in ctx.obs:
    if ok:
      continue
    if (pid, key) in known:
      kn.append((key, where, detail))
    else:
      bad.append((key, where, detail))
  if len(ctx.obs) < r.minimum and not bad:
    raise AnalysisError('%s: only %d obligations enumerated, %d expected' % (
        pid, len(ctx.obs), r.minimum))
  evd = evidence_dir or os.path.join(VERIF, 'evidence')
  os.makedirs(evd, exist_ok=True)
  ev = {
      'property': pid,
      'tier': tier,
      'seed': ctx.seed,
      'level': 'other',
      'coverage': {
          'explanation': (
              'Static value-flow / guard analysis of the current source of '
              '%s (nothing is executed). Rule: %s' % (repo, r.text)),
          'modules_parsed': prog.stats['modules'],
          'classes_indexed': prog.stats['classes'],
          'functions_indexed': prog.stats['functions'],
          'functions_analysed': sorted(
              '%s:%s' % (f.module.rel, f.qual) for f in ctx.functions),
          'call_sites_seen': ctx.callsites,
          'obligations': len(ctx.obs),
          'discharged': sum(1 for o in ctx.obs if o[1]),
          'obligation_list': [
              {'key': k, 'ok': ok, 'where': w} for k, ok, w, _ in ctx.obs],
          'unsupported_constructs': [
              '%s:%d %s' % u for u in sorted(set(ctx.unsupported))],
      },
      'assumptions': [
          'TensorFlow / Keras functions behave as their names are modelled in '
          'sa/engine.py and sa/query.py (identity, cond, assign, arithmetic).',
          'Python 3 and TensorFlow 2 branches only.',
      ] + ctx.notes,
      'wall_s': round(time.time() - t0, 3),
      'violations': len(bad),
  }
  with open(os.path.join(evd, pid + '.json'), 'w') as fh:
    json.dump(ev, fh, indent=1, sort_keys=True)
    fh.write('\n')
  vpath = os.path.join(evd, pid + '.violations.txt')
  for key, where, detail in kn:
    print('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, key, where,
                                                       known[(pid, key)]))
  if bad:
    with open(vpath, 'w') as fh:
      fh.write('rule: %s\n' % r.text)
      for key, where, detail in bad:
        fh.write('%s at %s\n    %s\n' % (key, where, detail))
    for key, where, detail in bad:
      print('  %s at %s\n    %s' % (key, where, detail[:600]))
    print('VIOLATION property=%s replay=%s' % (pid, vpath))
    return 1
  if os.path.exists(vpath):
    os.remove(vpath)
  print('%s: ok, %d obligations over %d functions (%d call sites)' % (
      pid, len(ctx.obs), len(ctx.functions), ctx.callsites))
  return 0


def main(argv):
  import argparse
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--repo', default='/repo')
  ap.add_argument('--evidence')
  a = ap.parse_args(argv)
  import sa.rules  # registers
  sa.rules.load()
  ids = sorted(RULES) if a.pid == 'all' else [a.pid]
  rc = 0
  for pid in ids:
    if pid not in RULES:
      print('unknown property %s' % pid)
      return 2
    try:
      r = run(pid, a.tier, a.repo, a.evidence)
    except AnalysisError as e:
      print('ANALYSIS-ERROR property=%s %s' % (pid, e))
      r = 2
    except Exception:  # pylint: disable=broad-except
      traceback.print_exc()
      print('ANALYSIS-ERROR property=%s internal error' % pid)
      r = 2
    rc = max(rc, r) if a.pid != 'all' else (rc or r)
  return rc
