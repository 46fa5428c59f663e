PROPERTY = 'C14'
NEEDS = 'the third update of an arm with CLT intervals (the first two hardly differ)'
BREAKS = 'the levels delta/k of the updates do not sum to a finite multiple of delta, so that the intervals do not hold at all times together'
EDITS = [('causal_effect_bandits/arms.py', 'clt_delta = delta / self._num_pulled**2', 'clt_delta = delta / self._num_pulled')]
DEMO = '''
import numpy as np, scipy.stats
from causal_effect_bandits import arms, data, parameters


class Eta(parameters.NuisanceParameter):
  def __init__(self): super().__init__(1)
  def reset(self): pass
  def fit(self, d): pass
  def has_enough_samples(self): return True
  def transform(self, d): return d.rsp
  def calculate_score(self, d):
    self.last = np.array(d.rsp, dtype=float)
    return self.last
  def calculate_cs_width(self, delta, sub_g, rho=1): return 1


rng = np.random.RandomState(0)
eta = Eta()
arm = arms.SampleSplittingArm('a', eta, data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)
for k in range(1, 6):
  ci = arm.update(data.ExpData(np.zeros((40, 1)), np.arange(40) % 2, rng.randn(40)), .2)
  s = eta.last
  assert len(s) == 20 * k
  se = np.sqrt(np.var((s - s.mean())**2) / len(s))
  half = scipy.stats.norm.ppf(1 - .2 / k**2 / 2) * se
  assert abs(ci[1] - arm.var_est - half) < 1e-9, (k, ci[1] - arm.var_est, half)
'''
