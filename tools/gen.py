"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import catalog
TECH = 'interprocedural value-flow analysis against reference formulas'
NOTE = ('Sound up to the modelled semantics of Python and of the external '
        'library calls (treated as pure uninterpreted operations unless '
        'modelled); equality is decided on normalised guarded terms. '
        'Numerical rounding and the behaviour of TensorFlow/Keras itself are '
        'trusted. ')
nas = dict(catalog.NA)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
  for p in catalog.PROPS:
    assert len(p['title']) <= 80, p['title']
    f.write(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['quant']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [
            {'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
checks = []
for p in catalog.PROPS:
  if p['id'] in nas:
    continue
  checks.append({
      'property': p['id'],
      'quick_cmd': '/usr/bin/python3 check.py %s' % p['id'],
      'thorough_cmd': '/usr/bin/python3 check.py %s --tier thorough' % p['id'],
      'technique': p['technique'] or TECH, 'level': 'other',
      'level_note': NOTE + p['note']})
m = {'version': 1, 'setup_cmd': '/usr/bin/python3 -m compileall -q sa',
     'checks': checks,
     'not_applicable': [{'property': k, 'reason': r} for k, r in catalog.NA]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
