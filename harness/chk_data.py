"""Checks of ExpData and the covariate transformers: C15, C16, C11."""
import random
import re

import common
from common import TLCRun, HarnessError
from engine import Check

CFG = '''SPECIFICATION {spec}
CONSTANTS
 MaxObj = {obj}
 MaxRows = {rows}
 MaxCols = {cols}
 MaxOps = {ops}
{rest}
'''


class DataCheck(Check):
  family = 'data'
  trace_module = 'DataTrace'
  chunk = 150
  assumptions = ['covariates are one- or two-dimensional numpy arrays; appended data has as many dimensions']

  def models(self):
    th = common.thorough()
    inv = 'INVARIANTS AllConsistent Aligned Conserves\nPROPERTIES Local Refused'
    return [('data', 'Data', CFG.format(spec='Spec', obj=4, rows=3 if th else 2, cols=2, ops=4 if th else 3, rest=inv))]

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + int(self.prop[1:]))
    th = common.thorough()
    r = TLCRun(scratch, 'DataGen', CFG.format(spec='GSpec', obj=8, rows=6, cols=3, ops=8,
                                              rest='CONSTANT Assign <- OneAssign\nINVARIANT EmitOK'),
               args=['-simulate', f'num={1500 if th else 250}', '-depth', '10', '-seed', str(common.seed())],
               workers=1).wait()
    lines = sorted(set(x for x in r.text.splitlines() if x.startswith('"SCRIPT')))
    if len(lines) < 50:
      raise HarnessError('no scripts ' + r.error_text())
    rng.shuffle(lines)
    out = []
    for x in lines[:1500 if th else 250]:
      ops = []
      for g in re.findall(r'<<\\?"(\w+)\\?"((?:, \d+)*)>>', x):
        ops.append(self.concrete(rng, g[0], [int(v) for v in re.findall(r'\d+', g[1])]))
      # what the generator assumes about sizes need not hold
      out.append(self.finish(rng, ops))
    out += [self.finish(rng, self.random_ops(rng)) for _ in range(2000 if th else 200)]
    for _ in range(400 if th else 40):   # objects of different types
      d = rng.choice([1, 2, 3])
      ops = [['new', rng.randrange(1, 6), d, 1, 1] for _ in range(3)]
      ops += [rng.choice([['append', *rng.sample([1, 2, 3], 2)], ['fold', rng.randrange(1, 4), 2]]) for _ in range(4)]
      out.append(self.finish(rng, ops))
    for k in range(200 if th else 25):   # one transformer on tables of different widths and sizes
      dims = [rng.randrange(rng.choice([1, 2]), 7) for _ in range(rng.choice([2, 3, 4]))]
      ops = [['new', rng.choice([0, 1, 2, 4, 7]), d, 1, 1] for d in dims]
      j, js = rng.choice([0, 1, -1] if min(dims) > 1 else [0, -1]), [rng.randrange(min(dims)) for _ in range(rng.randrange(1, 4) if k % 5 else 0)]
      how = rng.choice(['list', 'array'])
      for i in [rng.randrange(len(dims)) + 1 for _ in range(rng.choice([3, 5]))]:
        ops.append(rng.choice([['remove', i, j], ['remove', i, j], ['mask', i, js, how]]))
      out.append(self.finish(rng, ops))
    for k in [129, 200, 257, 300][:4 if th else 2 + common.seed() % 2]:   # many folds
      out.append(self.finish(rng, [['new', rng.choice([k + 1, 300, 500]), 1, 1, 1], ['fold', 1, k]]))
    out.append(self.finish(rng, [['new', rng.choice([rng.randrange(2100, 2600), 5200, 9001]), 1, 1, 1],
                                 rng.choice([['fold', 1, 2], ['fold', 1, 5], ['sub', 1, 500]])]))
    return out

  def concrete(self, rng, kind, a):
    if kind == 'new':
      return ['new'] + a
    if kind == 'sub':
      return ['sub', a[0], a[1] * 250]
    if kind == 'slice':
      return ['pick', a[0], 'slice', [a[1], a[2]]]
    if kind == 'mask':
      return ['mask', a[0], [x - 1 for x in a[1:]], rng.choice(['list', 'array'])]
    if kind == 'remove':
      return ['remove', a[0], a[1] - 1]
    if kind == 'badfold':
      return ['badfold', a[0], rng.choice([0, -1, -3])]
    if kind == 'badsub':
      return ['badsub', a[0], rng.choice([-.1, 1.2, 7, -3, 'nan', 'inf', 1.0001])]
    return [kind] + a

  def random_ops(self, rng):
    """Operations on objects whose number and shape is simulated here."""
    shapes = []   # columns of each object
    ops = []
    dim = rng.choice([1, 2, 3, 4, 6, 6, 11])
    big = rng.random() < .06
    for _ in range(rng.randrange(3, 11)):
      p = rng.random()
      if not shapes or p < .15 or len(shapes) > 12:
        if len(shapes) > 12:
          break
        n = rng.choice([400, 700]) if big and not shapes else rng.choice([0, 1, 2, 3, 5, 8, 12])
        d2 = dim if rng.random() < .85 else rng.choice([1, 2, 3])
        full = rng.random() < .7
        ops.append(['new', n, d2, int(full or rng.random() < .5), int(full or rng.random() < .5)])
        shapes.append(d2)
        continue
      i = rng.randrange(len(shapes)) + 1
      nf = shapes[i - 1]
      if big and len(shapes) > 3:
        break
      if p < .4:
        ops.append(['append', i, rng.randrange(len(shapes)) + 1])
      elif p < .52:
        k = rng.choice([1, 2, 2, 3, 5, 10])
        ops.append(['fold', i, k])
        shapes += [nf] * k
      elif p < .64:
        ops.append(['sub', i, rng.choice([0, 1000, 500, 250, 900, 30])])
        shapes += [nf] * 2
      elif p < .76:
        how = rng.choice(['slice', 'bool', 'index'])
        arg = ([rng.choice([0, 1, 2, -3]), rng.choice([2, 4, 100, -1]), rng.choice([1, 1, 2, -1])] if how == 'slice'
               else [rng.randrange(2) for _ in range(5)] if how == 'bool'
               else [rng.randrange(20) for _ in range(rng.randrange(0, 5))])
        ops.append(['pick', i, how, arg])
        shapes.append(nf)
      elif p < .86:
        js = [rng.randrange(nf) for _ in range(rng.randrange(1, nf + 2))]
        if rng.random() < .6:
          js = rng.sample(range(nf), rng.randrange(1, nf + 1))
        ops.append(['mask', i, js, rng.choice(['list', 'array'])])
        shapes.append(len(js))
      elif p < .93:
        if nf > 1:
          ops.append(['remove', i, rng.choice([rng.randrange(nf), -1])])
          shapes.append(nf - 1)
        else:
          ops.append(['identity', i])
          shapes.append(nf)
      elif p < .97:
        ops.append(['badfold', i, rng.choice([0, -1, -3])])
      else:
        ops.append(['badsub', i, rng.choice([-.1, 1.2, 7, -3, 'nan', 'inf', 1.0001])])
    return ops

  def finish(self, rng, ops):
    flat = rng.random() < .15 and all(o[0] not in ('mask', 'remove') for o in ops)
    if flat:   # one-dimensional covariates are not mixed with others
      for o in ops:
        if o[0] == 'new':
          o[2] = 1
    kinds = [[rng.choice(['int64', 'float64', 'float64', 'int32', 'float32']), rng.choice(['int64', 'float64', 'int32', 'uint16', 'float32']),
              rng.choice(['float64', 'float64', 'int64', 'float32']), rng.choice(['C', 'C', 'F', 'view'])]
             for _ in range(rng.choice([1, 2, 2, 3]))]
    for k in kinds:
      if rng.random() < .4:
        k[:3] = ['float64'] * 3
    sc = dict(ops=ops, flat=flat, types=kinds, npseed=rng.randrange(10**6))
    if rng.random() < .2 and all(o[1] <= 20 for o in ops if o[0] == 'new'):   # equal units
      sc.update(g=rng.choice([2, 3, 10**6]), types=kinds[:1])
    return sc

  def nontrivial(self, t):
    return len(t['ev']) > 2


CHECKS = {p: DataCheck for p in ['C15', 'C16', 'C11']}
