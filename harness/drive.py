"""Runs scenarios of a family on the real code: drive.py FAMILY IN OUT."""
import importlib
import json
import os
import signal
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get('ABCEI_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != HERE]
sys.path.insert(0, REPO)
sys.path.insert(1, HERE)
warnings.simplefilter('ignore')


class Hang(BaseException):
  pass


def on_alarm(*_):
  raise Hang()


def from_repo(tb):
  """Whether an exception passed through the code under test."""
  root = os.path.realpath(REPO) + os.sep
  return any(os.path.realpath(f.filename).startswith(root)
             for f in traceback.extract_tb(tb))


def main():
  family, inp, outp = sys.argv[1:4]
  with open(inp) as f:
    scenarios = json.load(f)
  try:
    import absl.logging
    absl.logging.set_verbosity('fatal')
    import numpy, scipy.stats, sklearn.linear_model, sklearn.ensemble  # noqa
    import sklearn.kernel_ridge, sklearn.gaussian_process  # noqa
    if family in ('plot', 'paper'):
      import matplotlib.pyplot  # noqa
  except Exception:
    traceback.print_exc()
    return 3
  if os.environ.get('ABCEI_PYC'):   # never trust compiled code of the repository
    sys.pycache_prefix = os.environ['ABCEI_PYC']
  # A code base that cannot even be imported breaks every property.
  try:
    import causal_effect_bandits.bandits, causal_effect_bandits.scm, causal_effect_bandits.parameters  # noqa
    import causal_effect_bandits
  except Exception:
    import_error = traceback.format_exc()[-500:]
    with open(outp, 'w') as out:
      for k in range(len(scenarios)):
        out.write(json.dumps([k, {'dead': 'import failed: ' + import_error}]) + '\n')
    return 0
  paths = [os.path.realpath(p) for p in causal_effect_bandits.__path__]
  if not any(p.startswith(os.path.realpath(REPO) + os.sep) for p in paths):
    print('imported from the wrong place', paths)
    return 3
  mod = importlib.import_module('fam_' + family)
  signal.signal(signal.SIGALRM, on_alarm)
  with open(outp, 'w') as out:
    for k, sc in enumerate(scenarios):
      signal.alarm(int(sc.get('alarm', 30)))
      try:
        t = mod.run(sc)
      except Hang:
        t = {'dead': 'hang'}
      except Exception as e:  # not caught where the code was called
        # Without the code in the traceback, it is the code's results that the
        # harness could not use: results of another type than documented.
        if from_repo(e.__traceback__) or not isinstance(e, (MemoryError, OSError, ImportError, NameError, SyntaxError)):
          t = {'dead': 'exception: ' + ''.join(traceback.format_exception(e))[-600:]}
        else:
          traceback.print_exc()
          print('scenario', json.dumps(sc)[:3000])
          return 3
      finally:
        signal.alarm(0)
      out.write(json.dumps([k, t]) + '\n')
      out.flush()
  return 0


if __name__ == '__main__':
  sys.exit(main())
