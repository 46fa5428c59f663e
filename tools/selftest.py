"""Runs checks against small mutations of a scratch copy of the repository.

selftest.py MUTANTS.json [name-filter]: each mutant is
{name, file, old, new, props, count?}: `old` (the count-th occurrence) becomes
`new`; every property in props must report a violation; with props [] all
properties in `quiet` must stay quiet.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mutate(m, dst):
  shutil.copytree('/repo/causal_effect_bandits', os.path.join(dst, 'causal_effect_bandits'))
  path = os.path.join(dst, 'causal_effect_bandits', m['file'])
  s = open(path).read()
  edits = [(m['old'], m['new'], m.get('count', 1))] if 'old' in m else m['edits']
  for old, new, *c in edits:
    c = c[0] if c else 1
    parts = s.split(old)
    assert len(parts) > c, ('not found', m['name'], len(parts) - 1)
    s = old.join(parts[:c]) + new + old.join(parts[c:])
  open(path, 'w').write(s)


def run(m, prop):
  with tempfile.TemporaryDirectory(prefix='mut_') as dst:
    mutate(m, dst)
    env = dict(os.environ, ABCEI_REPO=dst, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
    p = subprocess.run(['/opt/venv/bin/python', os.path.join(VERIF, 'check.py'), prop],
                       env=env, capture_output=True, text=True, cwd=VERIF)
    return p.returncode, p.stdout + p.stderr


def main():
  ms = json.load(open(sys.argv[1]))
  for m in ms:   # all must apply
    with tempfile.TemporaryDirectory(prefix='mut_') as dst:
      mutate(m, dst)
  flt = sys.argv[2] if len(sys.argv) > 2 else ''
  jobs = [(m, p, 1) for m in ms if flt in m['name'] for p in m['props']]
  jobs += [(m, p, 0) for m in ms if flt in m['name'] for p in m.get('quiet', [])]
  bad = 0
  with concurrent.futures.ThreadPoolExecutor(3) as ex:
    futs = [(m, p, w, ex.submit(run, m, p)) for m, p, w in jobs]
    for m, p, want, f in futs:
      rc, out = f.result()
      tags = sorted({l.strip()[:150] for l in out.splitlines() if 'failed clauses' in l})
      ok = rc == want
      bad += not ok
      print('ok  ' if ok else 'FAIL', m['name'], p, 'rc', rc, '|'.join(tags)[:200], flush=True)
      if rc == 2:
        print(out[-1500:])
  print(len(jobs), 'runs,', bad, 'not as expected')


if __name__ == '__main__':
  main()
