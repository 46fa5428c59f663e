"""Checks of the plots: C27."""
import random

import common
from engine import Check


class PlotCheck(Check):
  family = 'plot'
  trace_module = 'PlotTrace'
  chunk = 60
  driver_timeout = 600
  assumptions = ['plots are judged by what matplotlib keeps of them, at the Agg back end',
                 'arm names do not begin with an underscore, which matplotlib treats as no name']

  def models(self):
    th = common.thorough()
    return [('canvas', 'Plot', f'''SPECIFICATION Spec
CONSTANTS
 Arms = {{1, 2{', 3' if th else ''}}}
 MaxRounds = {6 if th else 4}
 MaxIgnore = {7 if th else 5}
 Skips = {{}}
INVARIANTS Aligned Complete Named Each Unchanged
''')]

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + 27)
    th = common.thorough()
    out = []
    for k in range(700 if th else 90):
      n = rng.choice([1, 2, 3, 4]) if k % 12 else rng.choice([11, 12, 17, 23])
      names = rng.sample(['frontdoor', 'Z_1', 'V_1', '$Z_1V_2$', 'arm 3', 'b', 'zeta'] + [f'a{i}' for i in range(20)] * (n > 7), n)
      req = [rng.randrange(n) for _ in range(rng.randrange(1, n + 1))] if rng.random() < .2 else rng.sample(range(n), rng.randrange(1, n + 1))
      s = dict(kind='run', names=names, req=req, npseed=rng.randrange(10**6), default=rng.random() < .25)
      s['from'] = rng.choice(['hand', 'hand', 'u', 'l', 's']) if n > 1 else 'hand'
      s['rounds'] = rng.randrange(1, 13) if rng.random() < .9 else rng.choice([30, 101, 130])
      if k % 45 == 7:
        s.update({'from': 'hand'}, rounds=rng.choice([260, 520, 1100]))
      s['limit'] = 5 * n * rng.randrange(2, 7)
      s['arrays'] = rng.random() < .5
      s['pinf'] = rng.choice([0, 0, .2, .5])
      s['skip'] = 0 if s['default'] else rng.choice([0, 1, 1, 2, 3, 5, 14])
      out.append(s)
    for k in range(40 if th else 8):
      lo = rng.choice([-3, -1, 0, 2])
      lo2 = rng.choice([-2, 0, 1])
      out.append(dict(kind='surface', a=[rng.randrange(-3, 4) or 1 for _ in range(5)], column=rng.random() < .5,
                      box=[lo, lo + rng.choice([1, 2, 5]), lo2, lo2 + rng.choice([1, 3])]))
    return out

  def summary(self, sc, t):
    if sc['kind'] == 'surface':
      return dict(kind='surface', a=sc['a'], box=sc['box'])
    return dict(arms=sc['names'], plotted=sc['req'], rounds=len(t['before']['cum']), ignored=sc['skip'])

  def nontrivial(self, t):
    return t['kind'] == 'surface' or len(t['before']['cum']) > t['skip']


CHECKS = {'C27': PlotCheck}
