"""Shows that the properties of the design models can fail.

modeltest.py [filter]: every entry of mutants/models.json changes a specification
(`edits`: [file, old, new]) or the configuration of a model (`cfg`: [old, new]);
TLC has to report that one of the properties in `expect` is violated.
"""
import concurrent.futures
import importlib
import json
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/harness')
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import common
import check


def models(prop, name):
  for c in check.find(prop):
    for n, module, cfg in c.models():
      if n == name:
        return module, cfg
  raise SystemExit(f'no model {name} of {prop}')


def run(scratch, m):
  module, cfg = models(m['prop'], m['model'])
  for old, new in m.get('cfg', []):
    assert old in cfg, (m['name'], cfg)
    cfg = cfg.replace(old, new)
  if 'inv' in m:
    cfg = '\n'.join(l for l in cfg.splitlines() if not l.strip().startswith(('INVARIANT', 'PROPERT'))) + '\n' + m['inv'] + '\n'
  spec = tempfile.mkdtemp(dir=scratch)
  for f in os.listdir(common.SPEC):
    if f.endswith('.tla'):
      shutil.copy(os.path.join(common.SPEC, f), spec)
  for f, old, new in m.get('edits', []):
    p = os.path.join(spec, f + '.tla')
    s = open(p).read()
    assert s.count(old) >= 1, (m['name'], old)
    open(p, 'w').write(s.replace(old, new, 1))
  r = common.TLCRun(scratch, module, cfg, workers=2, timeout=900, spec=spec)
  return r.wait()


def main():
  flt = sys.argv[1] if len(sys.argv) > 1 else ''
  ms = [m for m in json.load(open(VERIF + '/mutants/models.json')) if flt in m['name']]
  bad = 0
  with common.Scratch() as s, concurrent.futures.ThreadPoolExecutor(3) as ex:
    for m, r in zip(ms, ex.map(lambda m: run(s, m), ms)):
      want = m['expect']
      ok = (not want and r.ok()) or any(v in want for v in r.violated)
      bad += not ok
      print('ok  ' if ok else 'FAIL', m['name'], r.violated or r.error_text()[:300], flush=True)
  print(len(ms), 'models,', bad, 'not as expected')


if __name__ == '__main__':
  main()
