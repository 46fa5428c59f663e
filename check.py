"""check.py PROPERTY [--replay FILE]: decides one property; see DESIGN.md."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))

import importlib

FAMILIES = ['bandit', 'arm', 'data', 'cpd', 'param', 'twin', 'scm', 'mech', 'paper', 'plot', 'example', 'request', 'width', 'split']


def find(prop):
  suites = []
  for f in FAMILIES:
    m = importlib.import_module('chk_' + f)
    cs = m.CHECKS.get(prop, [])
    suites += [c(prop) for c in (cs if isinstance(cs, list) else [cs])]
  if not suites:
    raise SystemExit('unknown property ' + prop)
  return suites


def main():
  import engine
  prop = sys.argv[1]
  replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == '--replay' else None
  try:
    return engine.run_check(prop, find(prop), replay)
  except Exception:
    traceback.print_exc()
    return 2


if __name__ == '__main__':
  sys.exit(main())
