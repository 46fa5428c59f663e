PROPERTY = 'C08'
NEEDS = 'a successive elimination run with at least three arms in which one arm is eliminated and the others are sampled again'
BREAKS = 'the error probability is divided by the number of remaining arms, so that the failure probabilities of all updates together exceed error_prob'
EDITS = [('causal_effect_bandits/bandits.py', '''        arm.update(new_samples, self.error_prob / len(self._arms))

      total_samples += len(candidate_arms) * self.units_per_round
''', '''        arm.update(new_samples, self.error_prob / len(candidate_arms))

      total_samples += len(candidate_arms) * self.units_per_round
''')]
STUB = '''
import sys
import numpy as np
from causal_effect_bandits import arms, bandits, data


class Arm(arms.VarianceEstimatorArm):
  """Reports the given (lower, estimate, upper) one after the other."""

  def __init__(self, name, script, cost=1):
    super().__init__(name, type('Eta', (), dict(reset=lambda s: None))(), lambda d: d, cost)
    self.script, self.seen, self.deltas = script, [], []

  def update(self, new_data, delta):
    self.deltas.append(delta)
    self.seen.append(np.array(new_data.cov)[:, 0].tolist())
    lo, est, hi = self.script[min(len(self.seen), len(self.script)) - 1]
    self._ci, self._var_est = (lo, hi), est
    self._num_pulled += 1
    return self._ci

  def get_num_units(self):
    return sum(map(len, self.seen))


class Model(data.DataGenerator):

  def __init__(self):
    super().__init__('model')
    self.n = 0

  def generate(self, n):
    r = np.arange(self.n, self.n + n, dtype=float)
    self.n += n
    return data.ExpData(r[:, None], r % 2, r)
'''
DEMO = STUB + '''
a = Arm('a', [(0, 1, 2)] * 2 + [(.9, 1, 1.1)])
b = Arm('b', [(.5, 1.5, 3)] * 2 + [(1.4, 1.5, 1.6)])
c = Arm('c', [(5, 6, 7)])
bandits.SuccessiveEliminationAlgorithm([a, b, c], Model(), error_prob=.3, units_per_round=2, sample_limit=100).run()
assert len(c.seen) == 1 and len(a.seen) == 3
for x in (a, b, c):
  assert np.allclose(x.deltas, .1), (x.name, x.deltas)
'''
