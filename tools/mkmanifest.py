"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
sys.path.insert(0, V)
import check

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = {}
for f in check.FAMILIES:
  m = importlib.import_module('chk_' + f)
  for p, c in m.CHECKS.items():
    have.setdefault(p, []).extend(x(p) for x in (c if isinstance(c, list) else [c]))
PY = '/opt/venv/bin/python'
out = dict(version=1, setup_cmd=f'{PY} tools/setup.py', checks=[], not_applicable=[],
           notes='TLA+ specifications in spec/, drivers in harness/; see DESIGN.md. No hooks in /repo: '
                 'the public API exposes everything that the checks observe.')
for p in props:
  i = p['id']
  if i in have:
    cs = have[i]
    c = cs[0]
    out['checks'].append(dict(
        property=i, quick_cmd=f'VERIF_TIER=quick {PY} check.py {i}',
        thorough_cmd=f'VERIF_TIER=thorough {PY} check.py {i}',
        evidence_file=f'evidence/{i}.json',
        technique=f'TLA+ design model checked with TLC; traces of the real code judged by ' + ', '.join(sorted({x.trace_module + '.tla' for x in cs})),
        level='model_checking', level_note=c.note()))
  else:
    out['not_applicable'].append(dict(property=i, reason='no check yet'))
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(out['checks']), 'checks')
