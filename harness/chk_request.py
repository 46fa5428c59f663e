"""Checks of requests for bandit algorithms: C11."""
import itertools
import random

import common
from engine import Check

PROBS = ['0.05', '0.001', '0.999', '0', '1', '-0.1', '1.5', 'NaN', '1e-12', '0.5']
TOLS = ['0', '0.1', '5', '-0.1', '-1e-9']
CONFS = ['0.05', 'None', '0.999', '0', '1', '-0.2', '1.01', 'NaN', '0.3']
LIMITS = ['Infinity', 'None', '100', '1', '2500.5']


class RequestCheck(Check):
  family = 'request'
  trace_module = 'RequestTrace'
  chunk = 40
  assumptions = ['requests name numbers or None']

  def models(self):
    q = lambda xs: '{' + ', '.join('"%s"' % x for x in xs) + '}'
    return [('requests', 'Requests', f'''SPECIFICATION Spec
CONSTANTS
 Probs = {q(PROBS[:7])}
 Tols = {q(TOLS[:4])}
 Confs = {q(CONFS[:7])}
 Limits = {q(LIMITS)}
 Upr = 600
 MaxSamples = 3000
 Skips = {{}}
INVARIANTS OnlyInvalid
PROPERTIES EveryRunEnds
''')]

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + 211)
    # All combinations with at most two unusual values, and random ones.
    reqs = []
    for p, t, c, l in itertools.product(PROBS, TOLS, CONFS, LIMITS):
      odd = (p != PROBS[0]) + (t != TOLS[0]) + (c != CONFS[0]) + (l != LIMITS[0])
      if odd <= 2 or common.thorough():
        reqs.append(dict(error_prob=p, error_tol=t, confidence=c, limit=l))
    for _ in range(200):
      reqs.append(dict(error_prob=rng.choice(PROBS), error_tol=rng.choice(TOLS), confidence=rng.choice(CONFS), limit=rng.choice(LIMITS)))
    reqs = [(c, r, rng.choice(['all', 'defaults', 'int'])) for r in reqs for c in 'uls']
    rng.shuffle(reqs)
    return [dict(n=rng.choice([2, 3, 4]), used=rng.choice([0, 1, 2]), reqs=reqs[i:i + 40]) for i in range(0, len(reqs), 40)]

  def summary(self, sc, t):
    return dict(requests=len(sc['reqs']), accepted=sum(e['exc'] == '' for e in t['ev']), first=t['ev'][0]['r'])


CHECKS = {'C11': RequestCheck}
