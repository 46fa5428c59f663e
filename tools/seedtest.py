"""seedtest.py [NAME...]: runs the check of each planted bug's property against a copy with the bug.

With ALL=1 in the environment every registered check is run.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = sorted(json.loads(l)['id'] for l in open(V + '/properties.jsonl'))


def run(name):
  meta = json.load(open(f'{V}/seeded/{name}/meta.json'))
  out = []
  with tempfile.TemporaryDirectory(prefix='seed_') as dst:
    shutil.copytree('/repo/causal_effect_bandits', dst + '/causal_effect_bandits')
    r = subprocess.run(['git', 'apply', '--unsafe-paths', f'--directory={dst}', f'{V}/seeded/{name}/patch.diff'],
                       cwd='/', capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    for p in ALL if os.environ.get('ALL') else [meta['property']]:
      env = dict(os.environ, ABCEI_REPO=dst, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
      q = subprocess.run(['/opt/venv/bin/python', V + '/check.py', p], env=env, capture_output=True, text=True, cwd=V)
      out.append((p, q.returncode, sorted({l.strip()[:120] for l in (q.stdout + q.stderr).splitlines() if 'failed clauses' in l})))
  return name, meta['property'], out


with concurrent.futures.ThreadPoolExecutor(3) as ex:
  for name, prop, out in ex.map(run, sys.argv[1:] or sorted(os.listdir(V + '/seeded'))):
    own = [rc for p, rc, _ in out if p == prop]
    print('caught' if own == [1] else 'MISSED', name, prop, own, [p for p, rc, _ in out if rc == 1],
          [t for p, rc, t in out if p == prop][0][:1], flush=True)
