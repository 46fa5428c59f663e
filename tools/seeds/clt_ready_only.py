PROPERTY = 'C14'
NEEDS = 'an arm whose nuisance parameter is not ready at its first updates'
BREAKS = 'the union bound over the updates starts at the first update with an estimate, so that intervals are too narrow for the number of updates'
EDITS = [('causal_effect_bandits/arms.py', 'clt_delta = delta / self._num_pulled**2',
          '''self._num_intervals = 1 if self._num_pulled == 1 else getattr(
          self, "_num_intervals", 0) + 1
      clt_delta = delta / self._num_intervals**2''')]
DEMO = '''
import numpy as np, scipy.stats
from causal_effect_bandits import arms, data, parameters


class Eta(parameters.NuisanceParameter):
  def __init__(self): super().__init__(1); self.n = 0
  def reset(self): pass
  def fit(self, d): self.n = len(d)
  def has_enough_samples(self): return self.n >= 25
  def transform(self, d): return d.rsp
  def calculate_score(self, d):
    self.last = np.array(d.rsp, dtype=float)
    return self.last
  def calculate_cs_width(self, delta, sub_g, rho=1): return 1


rng = np.random.RandomState(0)
eta = Eta()
arm = arms.SampleSplittingArm('a', eta, data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)
for k in range(1, 7):
  ci = arm.update(data.ExpData(np.zeros((20, 1)), np.arange(20) % 2, rng.randn(20)), .2)
  if k < 3:
    continue
  s = eta.last
  se = np.sqrt(np.var((s - s.mean())**2) / len(s))
  half = scipy.stats.norm.ppf(1 - .2 / k**2 / 2) * se
  assert abs(ci[1] - arm.var_est - half) < 1e-9, (k, ci[1] - arm.var_est, half)
'''
