PROPERTY = 'C14'
NEEDS = 'chi-squared intervals of an arm that was given an odd number of units'
BREAKS = 'the degrees of freedom are computed from half of all units, which is one unit less or more than are held out'
EDITS = [('causal_effect_bandits/arms.py', '''    if self._ci_algorithm is CIAlgorithm.CHI2:
      n = self._split_data[1].n_units
''', '''    if self._ci_algorithm is CIAlgorithm.CHI2:
      n = (self.get_num_units() + 1) // 2
''')]
DEMO = '''
import numpy as np, scipy.stats
from causal_effect_bandits import arms, data, parameters


class Eta(parameters.NuisanceParameter):
  """Scores a unit by its response and remembers what it was given."""
  def __init__(self):
    super().__init__(1)
    self.fits, self.scored = [], []
  def reset(self): self.fits, self.scored = [], []
  def fit(self, d): self.fits.append(d.rsp.tolist())
  def has_enough_samples(self): return True
  def calculate_score(self, d):
    self.scored.append(d.rsp.tolist())
    return np.array(d.rsp, dtype=float)
  def calculate_cs_width(self, delta, sub_g, rho=1): return 1


def batch(a, b):
  r = np.arange(a, b, dtype=float)
  return data.ExpData(np.c_[r, -r, 2 * r], np.arange(b - a) % 2, r)

arm = arms.SampleSplittingArm('a', Eta(), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CHI2)
for k in range(3):
  lo, hi = arm.update(batch(0, 7), .1)
  n = len(arm.eta.scored[-1])
  v = np.var(arm.eta.scored[-1])
  assert np.isclose(lo, v * (n - 1) / scipy.stats.chi2.ppf(.95, n - 1)), (n, arm.get_num_units())
  assert np.isclose(hi, v * (n - 1) / scipy.stats.chi2.ppf(.05, n - 1))
'''
