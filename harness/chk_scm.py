"""Checks of the structural causal models: C22, C23, C11."""
import random
import re

import common
from common import TLCRun, HarnessError
from engine import Check

CFG = '''SPECIFICATION {spec}
CONSTANTS
 NV = {nv}
 MaxOps = {ops}
 Ordered = {ordered}
 Skips = {{}}
INVARIANTS {inv}
'''
INV = 'Once Ancestral DataOK RejectedOK EffectOK OwnUnused Restored OthersOwn'


def seqs(text):
  """A TLA+ value of nested tuples as lists."""
  import json
  return json.loads(text.replace('\\"', '"').replace('<<', '[').replace('>>', ']'))


class ScmCheck(Check):
  family = 'scm'
  trace_module = 'ScmTrace'
  chunk = 150
  assumptions = ['mechanisms are functions of their arguments and return one sample per unit',
                 'the treatment is one-dimensional, and there is at least one covariate']

  def models(self):
    th = common.thorough()
    return [('dags', 'Scm', CFG.format(spec='Spec', nv=3, ops=3 if th else 2, ordered='FALSE', inv=INV)),
            ('orders', 'Scm', CFG.format(spec='Spec', nv=2 if not th else 3, ops=2 if not th else 1, ordered='TRUE', inv=INV))]

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + int(self.prop[1:]))
    th = common.thorough()
    lines = set()
    for spec, num in (('GOrdered', 3000 if th else 500), ('GSpec', 3000 if th else 400)):
      r = TLCRun(scratch, 'ScmGen', CFG.format(spec=spec, nv=3, ops=4, ordered='FALSE', inv='Emit'),
                 args=['-simulate', f'num={num}', '-depth', '80', '-seed', str(common.seed())], workers=1).wait()
      lines |= set(re.findall(r'"SCRIPT (.*)"$', r.text, re.M))
    lines = sorted(lines)
    if len(lines) < 100:
      raise HarnessError('no scripts ' + r.error_text())
    rng.shuffle(lines)
    out = []
    ordered = [x for x in lines if all(p < v for v, ps in enumerate(seqs(x)[0], 1) for p in ps)]
    rest = sorted(set(lines) - set(ordered))
    rng.shuffle(rest)
    for x in ordered[:2000 if th else 300] + rest[:2000 if th else 200]:
      par, treat, resp, cov, hist = seqs(x)
      out.append(self.scenario(rng, dict(order=[1, 2, 3], par=par, treat=treat, resp=resp, cov=cov), hist))
    # larger graphs with the same histories
    for x in lines[:4000 if th else 500]:
      out.append(self.scenario(rng, self.graph(rng), seqs(x)[4]))
    for x in lines[-(60 if th else 10):]:   # many units
      s = self.scenario(rng, self.graph(rng, 3), seqs(x)[4])
      s['dims'] = [min(d, 1) for d in s['dims']]
      s['ops'] = [[op, rng.choice([150, 300, 700, 1200]), fail] for op, _, fail in s['ops']][-3:] + [['eff', rng.choice([260, 520, 1100]), 0]]
      out.append(s)
    for x in lines[:24 if th else 6]:   # more units than the trace can show
      s = self.scenario(rng, self.graph(rng, rng.choice([2, 3, 4])), seqs(x)[4])
      s['ops'] = [['gen', rng.choice([2049, 5001, 8193, 10007, 20011, 65537, 100003]), 0] for _ in range(3)] + [['gen', 3, 0]]
      s['pick'] = [rng.random() for _ in range(25)]
      out.append(s)
    for x in lines[:16 if th else 4]:
      s = self.scenario(rng, self.graph(rng, rng.choice([2, 3, 4])), seqs(x)[4])
      s['ops'] = [['eff', rng.choice([8200, 10100, 20011, 50021, 70001, 131080]), 0] for _ in range(2)] + [['eff', 3, 0]]
      s['pick'] = [rng.random() for _ in range(25)]
      out.append(s)
    s = self.scenario(rng, self.graph(rng, 2), seqs(lines[0])[4])
    s['ops'] = [['eff', rng.choice([4501, 5003, 6007]), 0], ['gen', 2, 0]]
    out.append(s)
    return out

  def graph(self, rng, nv=None):
    big = nv is not None
    nv = nv or rng.choice([2, 4, 4, 5, 6])
    order = list(range(1, nv + 1))
    rng.shuffle(order)
    par = [None] * nv
    for i, v in enumerate(order):
      ps = [p for p in order[:i] if rng.random() < .6]
      rng.shuffle(ps)
      par[v - 1] = ps
    if rng.random() < .1 and not big:
      rng.shuffle(order)
    treat, resp = rng.sample(order, 2)
    cov = rng.sample(order, rng.randrange(1, nv + 1))
    return dict(order=order, par=par, treat=treat, resp=resp, cov=cov)

  def scenario(self, rng, m, hist):
    nv = len(m['order'])
    dims = [rng.choice([0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 9]) for _ in range(nv)]
    dims[m['treat'] - 1] = 0
    dims[m['resp'] - 1] = 0
    ops = []
    for op, result, ncalls in hist:
      fail = 0
      if result == 'failed':
        fail = ncalls + 1 + rng.choice([0, 0, nv])
      ops.append([op, rng.choice([1, 1, 2, 3, 5]), fail])
    ops.append(['gen', rng.choice([1, 2, 4]), 0])
    extra = rng.choice([[], [], [21], [21, 22]])
    decls = []
    for _ in range(rng.randrange(1, 4)):
      d = dict(vars=list(m['order']), pkeys=sorted(m['order'] + extra), ckeys=sorted(m['order'] + extra),
               treat=m['treat'], resp=m['resp'], cov=list(m['cov']))
      how = rng.choice(['', 'pkeys', 'ckeys', 'treat', 'resp', 'cov', 'cov', 'fewer'])
      if how in ('pkeys', 'ckeys'):
        d[how] = [v for v in d[how] if v != rng.choice(m['order'])]
      elif how in ('treat', 'resp'):
        d[how] = rng.choice([21, 23])
      elif how == 'cov':
        d['cov'].insert(rng.randrange(len(d['cov']) + 1), rng.choice([21, 24]))
      elif how == 'fewer':
        d['vars'] = rng.sample(d['vars'], rng.randrange(1, nv + 1))
      decls.append(d)
    return dict(m=m, dims=dims, ops=ops, extra=extra, declarations=decls, npseed=rng.randrange(10**6),
                types=[rng.choice(['int64', 'float64', 'half', 'half', 'int32']) for _ in range(nv)])


CHECKS = {p: ScmCheck for p in ['C22', 'C23', 'C11']}
