PROPERTY = 'C10'
NEEDS = 'a bandit whose run was interrupted in its first round (some arms have been updated, others not)'
BREAKS = 'reset returns early when the first arm has not been pulled'
EDITS = [('causal_effect_bandits/bandits.py', '''    for a in self._arms:
      a.reset()
''', '''    if not self._arms[-1].num_pulled:  # nothing has happened yet
      return
    for a in self._arms:
      a.reset()
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import arms, bandits, data, parameters
gen = data.LinearDataGenerator('g', 2, np.ones(2), 1.)
def bad(d):
  raise RuntimeError('unavailable')
mk = lambda n, f: arms.SampleSplittingArm(n, parameters.AIPWLinearLogistic(2), f, ci_algorithm=arms.CIAlgorithm.CLT)
a, b = mk('a', data.get_identity_fn()), mk('b', bad)
b.update = lambda d, delta: bad(d)
alg = bandits.UniformAlgorithm([a, b], gen, units_per_round=50, sample_limit=100)
try:
  alg.run()
except RuntimeError:
  pass
assert a.num_pulled == 1
alg.reset()
assert a.num_pulled == 0 and a.get_num_units() == 0 and a.var_est is None
'''
