"""Checks of the example models: C28."""
import random

import common
from engine import Check


class ExampleCheck(Check):
  family = 'example'
  trace_module = 'ExampleTrace'
  chunk = 20
  driver_timeout = 600
  assumptions = ['the generated distribution is judged from samples, at 6.5 standard errors',
                 'the reported moments are judged exactly, from the reported parameters']

  def models(self):
    ps = '{"0.2", "0.35", "0.5", "0.8"}' if common.thorough() else '{"0.2", "0.5", "0.8"}'
    bs = '{"-3", "-1", "-0.4", "0", "0.5", "2"}' if common.thorough() else '{"-1", "0", "0.5"}'
    return [('identification', 'Examples', f'''SPECIFICATION Spec
CONSTANTS
 Ps = {ps}
 As = {{"-0.3", "-0.1", "0", "0.25"}}
 Bs = {bs}
 Cs = {{"5", "7.5", "10"}}
INVARIANTS Sure BackDoor FrontDoor Stated Total Confounded
''')]

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + 28)
    th = common.thorough()
    out = []
    for k in range(60 if th else 16):
      kinds = [rng.choice(['back', 'front']) for _ in range(2)] + ['back', 'front']
      rng.shuffle(kinds)
      big = 2000000 if th else 200000
      out.append(dict(npseed=rng.randrange(10**6), kinds=kinds, samples=[[big, 0], [big // 2, big // 2]], alarm=200))
    return out

  def summary(self, sc, t):
    return dict(kind=t['kind'], reported=t['P'])


CHECKS = {'C28': ExampleCheck}
