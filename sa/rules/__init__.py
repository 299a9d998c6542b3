"""Rule modules, one per part of the repository."""
import importlib
import os


def load():
  d = os.path.dirname(os.path.abspath(__file__))
  for f in sorted(os.listdir(d)):
    if f.endswith('.py') and not f.startswith('_'):
      importlib.import_module('sa.rules.' + f[:-3])
