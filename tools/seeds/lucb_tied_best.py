PROPERTY = 'C05'
NEEDS = 'three or more arms of which two, but not all, have the same lowest estimate'
BREAKS = 'both tied arms are sampled, instead of one of them and the contender with the lowest bound'
EDITS = [('causal_effect_bandits/bandits.py', '''    if all(best_arm_mask):  # there are no remaining arms to compare against
''', '''    if sum(best_arm_mask) > 1:  # compare the arms that share the lowest value
      tied = self._select_arms_with_mask(best_arm_mask)
      return list(np.random.choice(tied, size=2, replace=False))
    if all(best_arm_mask):  # there are no remaining arms to compare against
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import arms, bandits, data


class Arm(arms.VarianceEstimatorArm):
  def __init__(self, name, est, lo, hi):
    super().__init__(name, None, data.get_identity_fn())
    self.v = (est, lo, hi)
  var_est = property(lambda s: s.v[0])
  ci = property(lambda s: s.v[1:])


A = [Arm('a', 1., .5, 2.), Arm('b', 1., .2, 1.5), Arm('c', 3., 1., 4.), Arm('d', 4., .8, 5.)]
b = bandits.LUCBAlgorithm(A, data.DataGenerator('m'), sample_limit=100)
for seed in range(40):
  np.random.seed(seed)
  assert [x.name for x in b.select_arms()] == ['a', 'd'], seed
'''
