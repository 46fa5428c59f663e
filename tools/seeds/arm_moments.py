PROPERTY = 'C13'
NEEDS = 'scores whose mean is large compared to their spread (for instance an effect of 1e6)'
BREAKS = 'the variance is computed as the difference of two large moments, so that the estimate is not the variance of the held-out scores, and may even be negative'
EDITS = [('causal_effect_bandits/arms.py', '''    self._var_est = np.mean(
        (self._eta.calculate_score(self._split_data[1]) - self._ate)**2)
''', '''    self._var_est = np.mean(scores**2) - self._ate**2
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import arms, data, parameters


class Eta(parameters.NuisanceParameter):
  def __init__(self): super().__init__(1)
  def reset(self): pass
  def fit(self, d): pass
  def has_enough_samples(self): return True
  def transform(self, d): return d.rsp
  def calculate_score(self, d): return 3e6 + np.array(d.rsp, dtype=float)
  def calculate_cs_width(self, delta, sub_g, rho=1): return 1


rng = np.random.RandomState(0)
arm = arms.SampleSplittingArm('a', Eta(), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)
ns = []
for k in range(4):
  arm.update(data.ExpData(np.zeros((40, 1)), np.arange(40) % 2, np.arange(40) % 2 * .02), .1)
  assert abs(arm.var_est - 1e-4) < 1e-5, arm.var_est
'''
