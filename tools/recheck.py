"""Runs the checks on every planted bug: recheck.py [id...]"""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
  d = os.path.join(V, 'seeded', i)
  c = '/tmp/w/re-' + i
  subprocess.run(['rm', '-rf', c])
  subprocess.run(['git', 'clone', '-q', '/repo', c], check=True)
  r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=c)
  p = json.load(open(d + '/meta.json'))['property']
  t = 'ok' if r.returncode == 0 else 'PATCH FAILS'
  o = subprocess.run(['/usr/bin/python3', V + '/check.py', 'all', '--repo', c,
                      '--evidence', c + '/.ev'], capture_output=True,
                     text=True).stdout
  subprocess.run(['rm', '-rf', c])
  caught = [l.split('property=')[1].split()[0] for l in o.splitlines()
            if l.startswith('VIOLATION')]
  err = [l[:160] for l in o.splitlines() if l.startswith('ANALYSIS')]
  return '%-34s %s %s %s %s %s' % (
      i, p, t, 'caught' if p in caught else 'MISSED', caught, err or '')


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
with ThreadPoolExecutor(7) as ex:
  for l in ex.map(one, ids):
    print(l)
