"""Checks of the paper's examples: C25, C26, C31."""
import random

import common
from engine import Check


class PaperCheck(Check):
  family = 'paper'
  trace_module = 'PaperTrace'
  chunk = 12
  driver_timeout = 800
  assumptions = ['M is at least one, V_0 has dimension zero, and units are told apart by their responses']

  def models(self):
    th = common.thorough()
    return [('arms', 'Paper', f'''SPECIFICATION Spec
CONSTANTS
 MaxM = {4 if th else 3}
 Dims = {{1, 2, 3}}
 Skips = {{}}
INVARIANTS AllChoices ArmsOK Distinct FrontOK Independent
''')]

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + 25)
    th = common.thorough()
    out = []
    for k in range(150 if th else 26):
      M = rng.choice([1, 2, 2, 3, 3, 4] if k > 4 else [1, 2, 3]) if k != 4 else 5
      build = 'own' if k % 4 < 2 else '5.1' if k % 4 == 2 else '5.2'
      top = 3 if build != '5.2' else 2
      if build == '5.2':
        M = min(M, 2)
      s = dict(kind='example', build=build, M=M, zdim=[rng.randrange(1, top + 1) for _ in range(M + 1)],
               vdim=[0] + [rng.randrange(1, top + 1) for _ in range(M)], seed=rng.randrange(1000), npseed=rng.randrange(10**6),
               zc=rng.choice([1, 2, 7]), vc=rng.choice([1, 3, 10]), zc0=rng.choice([1, 4, 5]), latex=rng.random() < .4,
               upr=rng.choice([100, 150]), method={'own': rng.choice(['clt', 'finite']), '5.1': 'finite', '5.2': 'clt'}[build],
               alarm=120)
      s['limit'] = s['upr'] * (2**M + 1) + s['upr'] * rng.choice([0, 1, 2, 4])
      out.append(s)
    for M in [10, 11] if th else [10]:   # numbers of two digits
      out.append(dict(kind='example', build='own', M=M, zdim=[1] + [rng.randrange(1, 3) for _ in range(M)],
                      vdim=[0] + [rng.randrange(1, 3) for _ in range(M)], seed=1, npseed=rng.randrange(10**6), zc=2, vc=3, zc0=4,
                      latex=False, upr=100, method='clt', alarm=200, limit=10**6, some=93))
    return out

  def summary(self, sc, t):
    return dict(M=sc['M'], build=sc['build'], arms=[a['name'] for a in t['arms']])

  def nontrivial(self, t):
    return len(t['arms']) > 2


class SeedCheck(Check):
  family = 'paper'
  trace_module = 'SeedTrace'
  chunk = 10
  driver_timeout = 800
  assumptions = ['building is deterministic on one thread']

  def models(self):
    th = common.thorough()
    return [('streams', 'Seeds', f'''SPECIFICATION Spec
CONSTANTS
 SeedSet = {{1, 2}}
 Components = 2
 Draws = {3 if th else 2}
 MaxGlobal = {4 if th else 3}
 MaxBuilds = 3
 Skips = {{}}
INVARIANTS Determined Different Separate
''')]

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + 26)
    th = common.thorough()
    out = []
    for k in range(200 if th else 36):
      a = rng.randrange(10000)
      a = rng.choice([a, a, 0, 1, 2**30 - 7, 10**6 + a])
      # close, or equal in their low digits or bits
      b = rng.choice([a + 1, rng.randrange(10000), a + 10 ** rng.randrange(2, 6), a + 2 ** rng.randrange(4, 20), a + 1000, a + 10000])
      if b == a:
        b += 1
      s = dict(kind='seeds', npseed=rng.randrange(10**6), seeds=rng.choice([[a, b, a], [a, a, b], [a, b, b, a]]), alarm=120)
      if k % 3 < 2:
        dim = rng.choice([1, 1, 2, 2, 3])
        s.update(what='function', dim=dim, out=rng.choice([1, 1, 2, 3]), kernel=rng.choice([None, 'rbf', 'rbf']), n=rng.choice([1, 4, 9]) if k % 12 else [2600, 1500, 700][k // 12 % 3],
                 points={1: 8, 2: 5, 3: 3}[dim] + rng.choice([0, 1]), alpha=rng.choice([1., 1., .1, 100.]))
        if s['kernel'] is None and dim > 1:
          s['alpha'] = 100.   # the periodic default kernel is not positive definite there: the Gaussian process refuses less
        if not k % 12:
          s['out'] = rng.choice([2, 3])
        s['min'], s['max'] = rng.choice([(-1, 1), (-2, 2), (0, 3)])
      else:
        M = rng.choice([1, 2, 3])
        s.update(what='5.1' if k % 2 else '5.2', M=M, n=60, zdim=[rng.choice([1, 2]) for _ in range(M + 1)],
                 vdim=[0] + [rng.choice([1, 2]) for _ in range(M)])
      out.append(s)
    return out

  def summary(self, sc, t):
    return dict(what=sc['what'], seeds=sc['seeds'], parts=[p['name'] for p in t['objs'][0]['parts']])


class ModelCheck(Check):
  family = 'paper'
  trace_module = 'PaperModelTrace'
  chunk = 10
  driver_timeout = 800
  assumptions = ['the identification criteria are those of d-separation; mechanisms are compared under equal states of the global generator']

  def models(self):
    return [('criteria', 'PaperModel', f"""SPECIFICATION Spec
CONSTANTS
 MaxM = {4 if common.thorough() else 3}
 Skips = {{}}
INVARIANTS BackDoor NoDescendants Intercepts FrontOpen FrontClosed
""")]

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + 31)
    out = []
    for k in range(120 if common.thorough() else 24):
      build = ['own', '5.1', '5.2'][k % 3]
      M = rng.choice([1, 2, 2, 3] if build == '5.2' else [1, 2, 3, 4, 5])
      top = 2 if build == '5.2' else 3
      one = k // 3 % 2
      out.append(dict(kind='model', build=build, M=M, zdim=[1 if one and i else rng.randrange(1, top + 1) for i in range(M + 1)],
                      vdim=[0] + [1 if one else rng.randrange(1, top + 1) for _ in range(M)], seed=rng.randrange(10000),
                      npseed=rng.randrange(10**6), alarm=120))
    for M in 10, 12:   # numbers of two digits
      out.append(dict(kind='model', build='own', M=M, zdim=[1] + [rng.randrange(1, 3) for _ in range(M)],
                      vdim=[0] + [rng.randrange(1, 3) for _ in range(M)], seed=1, npseed=M, alarm=200))
    return out

  def summary(self, sc, t):
    return dict(M=sc['M'], build=sc['build'], graph=[g['var'] for g in t['graph']])


CHECKS = {'C31': ModelCheck, 'C25': PaperCheck, 'C26': SeedCheck}
