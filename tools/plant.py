"""Plants a bug in a scratch clone, confirms it, and keeps it under seeded/.

usage: plant.py SPEC.py   (SPEC defines PLANTS = [dict(id, prop, edits, demo,
needs, breaks, tests)])
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = 'tensorflow_model_optimization/python/core/'
ENV = dict(os.environ, CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3',
           PYTHONPATH='/opt/vp/support', PYTHONDONTWRITEBYTECODE='1')
DEMO_SH = '''#!/bin/bash
export PYTHONPATH="$PWD" CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
  return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True,
                        text=True, env=ENV, **kw)


def main(spec, only=None):
  ns = {}
  exec(compile(open(spec).read(), spec, 'exec'), ns)
  for p in ns['PLANTS']:
    if only and p['id'] not in only:
      continue
    one(p)


def one(p):
  c = '/tmp/w/' + p['id']
  subprocess.run(['rm', '-rf', c])
  subprocess.run(['git', 'clone', '-q', '/repo', c], check=True)
  d = os.path.join(V, 'seeded', p['id'])
  os.makedirs(d, exist_ok=True)
  open(d + '/demo.py', 'w').write(p['demo'].lstrip('\n'))
  open(d + '/demo.sh', 'w').write(DEMO_SH)
  os.chmod(d + '/demo.sh', 0o755)
  json.dump({'property': p['prop'], 'needs': p['needs'],
             'what_it_breaks': p['breaks']},
            open(d + '/meta.json', 'w'), indent=1)
  base = sh('bash %s/demo.sh' % d, c, timeout=300)
  files = []
  for f, old, new in p['edits']:
    fn = os.path.join(c, CORE, f)
    s = open(fn).read()
    assert s.count(old) == 1, (p['id'], f, s.count(old))
    open(fn, 'w').write(s.replace(old, new))
    files.append(fn)
  diff = sh('git diff', c).stdout
  open(d + '/patch.diff', 'w').write(diff)
  bug = sh('bash %s/demo.sh' % d, c, timeout=300)
  ts = []
  for t in p.get('tests', []):
    r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p '
           'absl_main_plugin %s 2>&1 | grep -E "^FAILED|passed|failed|rror"'
           ' | tail -12' % (CORE + t), c)
    ts.append(t.split('/')[-1] + ': ' + r.stdout.strip()[:1500])
  chk = sh('/usr/bin/python3 %s/check.py all --repo %s --evidence /tmp/w/ev-%s'
           ' | grep -E "VIOLATION|ANALYSIS"' % (V, c, p['id']), c)
  print('== %s: demo base=%d bug=%d' % (p['id'], base.returncode,
                                        bug.returncode))
  if base.returncode:
    print((base.stdout + base.stderr)[-1500:])
  if not bug.returncode:
    print('  !! demo passes with the bug', bug.stdout[-300:])
  else:
    print('   ', (bug.stdout + bug.stderr).strip()[-200:].replace('\n', ' / '))
  for t in ts:
    print('  ', t)
  caught = [l.split('property=')[1].split()[0] for l in chk.stdout.splitlines()
            if 'VIOLATION' in l]
  err = [l[:200] for l in chk.stdout.splitlines() if 'ANALYSIS' in l]
  print('   caught by', caught, '' if p['prop'] in caught else '  <<< MISSED',
        err)
  subprocess.run(['rm', '-rf', c, '/tmp/w/ev-' + p['id']])


main(sys.argv[1], sys.argv[2:])
