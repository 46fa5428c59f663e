"""Checks of the conditional probability tables: C17, C11."""
import random
import re

import common
from common import TLCRun, HarnessError
from engine import Check

CFG = '''SPECIFICATION {spec}
CONSTANTS
 NX = {nx}
 NZ = {nz}
 MaxCount = {m}
 Ratios = {ratios}
 MaxFits = {fits}
{rest}
'''
RATIOS = '{"0.5","1.0","2.0","10.0"}'


class CpdCheck(Check):
  family = 'cpd'
  trace_module = 'CpdTrace'
  chunk = 150
  assumptions = ['fitted data is not empty; values are compared with the dtype that they were fitted with']

  def models(self):
    th = common.thorough()
    inv = 'INVARIANTS SumsAlways Finished NeverEmpty'
    return [('rows', 'Cpd', CFG.format(spec='Spec', nx=1, nz=5 if th else 4, m=6 if th else 4, ratios=RATIOS, fits=1, rest=inv)),
            ('refit', 'Cpd', CFG.format(spec='Spec', nx=2, nz=2, m=2 if th else 1, ratios='{"2.0"}', fits=3 if th else 2, rest=inv))]

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + int(self.prop[1:]))
    th = common.thorough()
    r = TLCRun(scratch, 'CpdGen', CFG.format(spec='GSpec', nx=2, nz=3, m=3 if th else 2, ratios='{"2.0"}', fits=1,
                                             rest='INVARIANT EmitOK'), workers=1).wait()
    tables = sorted(set(re.findall(r'"SCRIPT <<<<(.*)>>>>"', r.text)))
    if len(tables) < 100:
      raise HarnessError('no tables ' + r.error_text())
    tables = [[[int(v) for v in row.split(', ')] for row in t.split('>>, <<')] for t in tables]
    rng.shuffle(tables)
    out = []
    step = 3
    tables = tables[:2400 if th else 450]
    for k in range(0, len(tables) - step, step):
      out.append(self.scenario(rng, tables[k:k + step]))
    for _ in range(1500 if th else 150):
      nx, nz = rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 3, 5, 8])
      hi = rng.choice([1, 3, 10, 60])
      ts = []
      for _ in range(rng.randrange(1, 4)):
        c = [[rng.choice([0, rng.randrange(hi + 1)]) for _ in range(nz)] for _ in range(nx)]
        if not any(map(any, c)):
          c[0][0] = 1
        ts.append(c)
      out.append(self.scenario(rng, ts))
    for _ in range(40 if th else 5):   # much data, or a large support
      nx, nz, hi = rng.choice([(2, 3, 4000), (1, 4, 6000), (2, 25, 100), (2, 60, 9)])
      out.append(self.scenario(rng, [[[rng.randrange(1, hi + 1) for _ in range(nz)] for _ in range(nx)]]))
    return out

  def scenario(self, rng, tables):
    nx, nz = len(tables[0]), len(tables[0][0])
    dim = rng.choice([1, 1, 2, 3])
    zs = set()
    while len(zs) < nz + 1:
      zs.add(tuple(rng.choice([-1, 0, 1, 2, 5, 7, 9, 11, 13, 14, 20, 31] if nz < 11 else range(-9, 300)) for _ in range(dim)))
    zs = [list(z) for z in zs]
    rng.shuffle(zs)
    ztype = rng.choice(['int', 'float', 'signed'])
    if ztype == 'float' and rng.random() < .5:   # values that are close, tiny or huge
      f = rng.choice([lambda v: 1 + v * 1e-9, lambda v: v * 1e-11, lambda v: v * 1e7 + .5, lambda v: v / 7])
      zs = [[f(v) for v in z] for z in zs]
    if dim == 1 and rng.random() < .5:
      zs = [z[0] for z in zs]
    ops = []
    for t in tables:
      c = [row + [0] for row in t] + [[0] * (nz + 1)]
      if rng.random() < .12:
        ops.append(['badfit', c, rng.randrange(2)])
        if not ops[:-1]:
          ops.pop()
      ops.append(['fit', c, rng.randrange(2)])
      if rng.random() < .5:
        ops.append(['query', rng.randrange(1, 5)])
    return dict(ops=ops, xs=rng.choice([list(range(nx + 1)), [3 * i - 2 for i in range(nx + 1)]]), zs=zs,
                xtype=rng.choice(['int', 'int', 'float', 'int32']), ztype=ztype,
                ratio=rng.choice([20, 10, 2, 1, .5, 1.5, 1000]), npseed=rng.randrange(10**6))


CHECKS = {p: CpdCheck for p in ['C17', 'C11']}
