"""mkseed.py [NAME...]: builds /verif/seeded/* from tools/seeds/*.py.

A seed file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and DEMO
(a python program that exits 0 on the original and nonzero on the changed code).
Everything is confirmed in a scratch copy of /repo before it is kept.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Exit 0 on the original code, nonzero with the change.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export MPLCONFIGDIR="$(mktemp -d)"
/opt/venv/bin/python "$here/demo.py"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
'''


def sh(*a, **k):
  return subprocess.run(a, capture_output=True, text=True, **k)


def tests(d):
  """The stable tests in the copy d."""
  base = json.load(open('/opt/vp/BASELINE.json'))
  r = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', cwd=d,
         env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1'), timeout=600)
  return ' passed' in r.stdout and ' failed' not in r.stdout and ' error' not in r.stdout, r.stdout[-800:]


def main():
  names = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(V + '/tools/seeds') if f.endswith('.py'))
  for name in names:
    s = runpy.run_path(f'{V}/tools/seeds/{name}.py')
    tmp = tempfile.mkdtemp(prefix='seed_')
    d = tmp + '/repo'
    try:
      sh('cp', '-a', '/repo', d)
      for f, old, new in s['EDITS']:
        p = f'{d}/{f}'
        t = open(p).read()
        assert t.count(old) == 1, (name, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
      diff = sh('git', '-C', d, 'diff').stdout
      out = tmp + '/out'
      os.makedirs(out)
      open(out + '/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
      open(out + '/demo.sh', 'w').write(SH)
      os.chmod(out + '/demo.sh', 0o755)
      a = sh('bash', out + '/demo.sh', cwd='/repo', timeout=300)
      b = sh('bash', out + '/demo.sh', cwd=d, timeout=300)
      ok, text = tests(d)
      if a.returncode or not b.returncode or not ok:
        print(name, 'NOT KEPT', a.returncode, b.returncode, ok, a.stderr[-500:], text if not ok else '')
        continue
      open(out + '/patch.diff', 'w').write(diff)
      json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']),
                open(out + '/meta.json', 'w'), indent=1)
      dst = f'{V}/seeded/{name}'
      if os.path.isdir(dst):
        shutil.rmtree(dst)
      shutil.copytree(out, dst)
      print(name, 'kept:', b.stderr.strip().splitlines()[-1:] )
    finally:
      shutil.rmtree(tmp)


main()
