"""C10 for arms and bandit algorithms: after a reset they are like new."""
import random
import re

import common
from common import TLCRun, HarnessError
from engine import Check

CFG = '''SPECIFICATION Spec
CONSTANTS
 Parts = {parts}
 Uses = {uses}
 MaxOps = {ops}
 Skips = {{}}
INVARIANTS {inv}
'''


class TwinCheck(Check):
  family = 'twin'
  trace_module = 'TwinTrace'
  chunk = 400
  assumptions = ['all randomness comes from the global numpy generator and the given source']

  def models(self):
    th = common.thorough()
    return [('twin', 'Twin', CFG.format(parts='{"own","arm1","arm2","eta1","eta2"}' if th else '{"own","arm1","eta1"}',
                                        uses='{"run","fail"}', ops=4, inv='LikeNew'))]

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + 10)
    th = common.thorough()
    r = TLCRun(scratch, 'Twin', CFG.format(parts='{"a"}', uses='{"run","fail","data","touch"}', ops=5, inv='EmitOK'),
               args=['-simulate', f'num={3000 if th else 400}', '-depth', '7', '-seed', str(common.seed())], workers=1).wait()
    lines = sorted(set(x for x in r.text.splitlines() if x.startswith('"SCRIPT')))
    if len(lines) < 50:
      raise HarnessError('no scripts ' + r.error_text())
    rng.shuffle(lines)
    out = []
    for x in lines[:2000 if th else 240]:
      ops = re.findall(r'\\"(\w+)\\"', x)
      i = max(k for k in range(len(ops)) if ops[k] == 'reset')
      out.append(self.arm(rng, ops[:i]) if rng.random() < .6 else self.bandit(rng, ops[:i]))
    return out

  def arm_spec(self, rng, dim):
    kind = rng.choice(['split', 'split', 'boot'])
    cols = sorted(rng.sample(range(dim), rng.randrange(1, dim + 1)))
    s = dict(kind=kind, dim=dim, cols=cols, eta=rng.choice(['aipw', 'linear', 'reg', 'frontdoor']),
             stable=rng.random() < .6, npseed=rng.randrange(10**6), need=3)
    if kind == 'boot':
      s['B'] = rng.choice([0, 5, 8])
    else:
      s['ci'] = rng.choice(['clt', 'chi2', 'finite'] if s['eta'] in ('aipw', 'frontdoor') else ['clt', 'chi2'])
      s['cost'] = rng.choice([1, 2, 1.5, .3])
      if s['ci'] == 'finite':
        s.update(g=rng.choice([.3, 1]), etag=1, tau=1, burn=rng.choice([2, 5, 12]), rho=1)
    return s

  def arm(self, rng, hist):
    sc = self.arm_spec(rng, rng.choice([1, 2, 3]))
    def ups():
      return [[rng.choice([24, 25, 30, 41]), rng.choice([.1, .25, .3])] for _ in range(rng.randrange(1, 4))]
    h = []
    for o in hist:
      h.append(['reset'] if o == 'reset' else ['bad', ups()] if o == 'fail' else ['up', ups()])
    sc.update(what='arm', history=h, post=ups() if rng.random() < .7 else [[2, .2]] + ups())
    return sc

  def bandit(self, rng, hist):
    dim = rng.choice([2, 3])
    alg = rng.choice('uls')
    sc = dict(what='bandit', alg=alg, dim=dim, errp=rng.choice([.1, .3, .5]), tol=rng.choice([0, 0, .5]),
              upr=rng.choice([24, 30]), npseed=rng.randrange(10**6), stable_run=rng.random() < .4,
              arms=[self.arm_spec(rng, dim) for _ in range(rng.choice([2, 3]))])
    for a in sc['arms']:   # intervals of different methods are not comparable
      if a['kind'] == 'split' and a.get('ci') == 'finite':
        a['ci'] = 'clt'
    sc['limit'] = sc['upr'] * rng.choice([3, 8, 15])
    sc['history'] = [[o, rng.randrange(1, 5)] for o in hist]
    return sc

  def nontrivial(self, t):
    return len(t['a']) > 2

  def summary(self, sc, t):
    return dict(what=sc['what'], history=sc['history'], steps=len(t['a']))


CHECKS = {'C10': TwinCheck}
