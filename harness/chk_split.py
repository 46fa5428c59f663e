"""Checks of random divisions: C32 (folds, subsamples), C33 (rounds of LUCB)."""
import math
import random

import common
from engine import Check


class SplitCheck(Check):
  family = 'split'
  trace_module = 'SplitTrace'
  chunk = 12
  driver_timeout = 800
  assumptions = ['distributions are judged by counts, at seven standard deviations; divisions with fewer than 40 expected counts are not']

  def models(self):
    return [('dealing', 'Split', f"""SPECIFICATION Spec
CONSTANTS
 MaxN = {5 if common.thorough() else 4}
 MaxK = 3
 Skips = {{}}
INVARIANTS Fair Exchange Marginal Pairwise Independent NoStarving
CHECK_DEADLOCK FALSE
""")]

  def scenarios(self, scratch):
    self.rng = random.Random(common.seed() * 7919 + int(self.prop[1:]))
    out = self.lucb() if self.prop == 'C33' else self.folds()
    for s in out:
      s.update(npseed=self.rng.randrange(10**6), tag=self.prop, alarm=300)
    return out

  def folds(self):
    rng, out = self.rng, []
    per = 2500 if common.thorough() else 300
    content = lambda: rng.choice(['plain', 'sorted', 'reverse', 'const', 'bare', 'ints'])
    even = lambda n, k: [n // k + (j < n % k) for j in range(k)]
    def ways(s):
      r = math.factorial(sum(s))
      for x in s:
        r //= math.factorial(x)
      return r
    for n, k in [(2, 2), (3, 2), (4, 2), (5, 2), (6, 2), (3, 3), (4, 3), (5, 3), (4, 4), (5, 1), (2, 3), (1, 2)]:
      out.append(dict(what='fold', size='small', n=n, k=k, content=content(), N=per * ways(even(n, k)), want=[]))
    for n, k in [(2, 2), (4, 2), (4, 3)]:
      out.append(dict(what='fold', size='small', n=n, k=k, content='sorted', N=per * ways(even(n, k)), want=[]))
    for n, p in [(1, .5), (2, .5), (3, .25), (4, .5), (4, rng.choice([.1, .8])), (3, .6), (2, 0.), (2, 1.)]:
      out.append(dict(what='sub', size='small', n=n, k=2, p=p, content=content(), N=per * 2**n * 3, want=[]))
    def pairs(n):
      r = [(i, i + 1) for i in range(n - 1)] + [(i, (i + n // 2) % n) for i in range(n)] + [(i, i + 2) for i in range(n - 2)]
      return r + [tuple(rng.sample(range(n), 2)) for _ in range(20)]
    N = 12000 if common.thorough() else 1800
    for n, k in [(rng.choice([9, 12, 20]), 2), (30, rng.choice([2, 3])), (41, 5), (60, 2), (rng.choice([130, 257]), 2)]:
      out.append(dict(what='fold', size='large', n=n, k=k, content=content(), N=N, want=[], pairs=pairs(n)))
    for n, p in [(20, .5), (40, rng.choice([.2, .7])), (rng.choice([130, 257]), rng.choice([.25, .5]))]:
      out.append(dict(what='sub', size='large', n=n, k=2, p=p, content=content(), N=N, want=[], pairs=pairs(n)))
    for n, k in [(1100, 2), (2300, 3)]:   # sizes where a shorter way is tempting
      out.append(dict(what='fold', size='large', n=n, k=k, content='plain', N=400, want=[], pairs=pairs(n)))
    out.append(dict(what='sub', size='large', n=1500, k=2, p=.5, content='plain', N=400, want=[], pairs=pairs(1500)))
    few = 900 if common.thorough() else 130
    for stable in (True, False):
      for arm in ('CLT', 'FINITE_SAMPLE', 'boot'):
        n = 4 if arm == 'boot' or not stable else rng.choice([3, 4, 5])
        out.append(dict(what='arm', size='small', arm=arm, stable=stable, n=n, k=2, batches=rng.choice([1, 2, 3]) if stable else 2,
                        content=content() if False else rng.choice(['plain', 'sorted', 'const']), N=few * ways(even(n, 2)), want=[]))
    out.append(dict(what='arm', size='small', arm='CHI2', stable=True, n=4, k=2, batches=4, content='sorted', N=few * 6, want=[]))
    for b in (2, 4):
      out.append(dict(what='boot', size='small', n=3, k=2, b=b, content='plain', N=few * 16, want=[]))
    return out

  def lucb(self):
    rng, out = self.rng, []
    per = 1200 if common.thorough() else 160
    inf, nan = 'inf', 'nan'
    def add(values, group, want, N):
      out.append(dict(what='lucb', size='small', arms=values, group=group, n=len(group), k=2, want=want, N=N, dataset=rng.random() < .4))
    for K in [2, 3, 4, 5, 6, 8]:   # nothing is known, or all is the same
      N = per * max(3, K * (K - 1) // 2)
      for v in rng.sample([(0, inf, inf), (0, 1, 5), (-3, 2, 9), (0, 0, 4), (0, nan, nan)], 3):
        add([[str(x) for x in v]] * K, list(range(K)), [2, K - 2], N)
    for K, t in [(3, 2), (4, 2), (5, 3), (6, 2), (6, 4), (9, 4)] * (3 if common.thorough() else 1):
      values = [['0', '1', '9'] if i < t else ['0', '4', rng.choice(['9', 'inf'])] for i in range(K)]
      order = rng.sample(range(K), K)
      values = [values[i] for i in order]
      low = [i for i in range(K) if order[i] < t]
      rest = [i for i in range(K) if order[i] >= t]
      for g in (low, rest):
        if len(g) > 1:
          add(values, g, [1, len(g) - 1], per * len(g) * 2)
    for K in (5, 7):   # of the lowest, two have the highest upper bound; of the others, two the lowest lower bound
      values = [['0', '1', '9'], ['0', '1', '9'], ['0', '1', '8'], ['0', '3', '9'], ['0', '3', '7']] + [['2', '3', '8']] * (K - 5)
      order = rng.sample(range(K), K)
      where = lambda *js: sorted(order.index(j) for j in js)
      values = [values[i] for i in order]
      for g in (where(0, 1), where(3, 4)):
        add(values, g, [1, 1], per * 4)
    return out

  def summary(self, sc, t):
    return {k: sc[k] for k in ('what', 'size', 'n', 'k', 'N', 'content', 'p', 'arm', 'arms', 'group') if k in sc}

  def nontrivial(self, t):
    return t['n'] > 1 and t['k'] > 1


CHECKS = {p: SplitCheck for p in ['C32', 'C33']}
