PROPERTY = 'C14'
NEEDS = 'a bootstrap arm with a very small error probability (less than 0.0004)'
BREAKS = 'the number of resamples is capped, so that the percentiles of the interval are not those of the requested level'
EDITS = [('causal_effect_bandits/arms.py', '''      n_bootstraps = int(np.ceil(4 / delta))
''', '''      n_bootstraps = min(int(np.ceil(4 / delta)), 10000)
''')]
DEMO = '''
import numpy as np, scipy.stats
from causal_effect_bandits import arms, data, parameters


class Eta(parameters.NuisanceParameter):
  """Scores a unit by its response and remembers what it was given."""
  def __init__(self):
    super().__init__(1)
    self.fits, self.scored = [], []
  def reset(self): self.fits, self.scored = [], []
  def fit(self, d): self.fits.append(d.rsp.tolist())
  def has_enough_samples(self): return True
  def calculate_score(self, d):
    self.scored.append(d.rsp.tolist())
    return np.array(d.rsp, dtype=float)
  def calculate_cs_width(self, delta, sub_g, rho=1): return 1


def batch(a, b):
  r = np.arange(a, b, dtype=float)
  return data.ExpData(np.c_[r, -r, 2 * r], np.arange(b - a) % 2, r)

class Count(Eta):
  n = 0
  def calculate_score(self, d):
    self.n += 1
    return np.array(d.rsp, dtype=float)
  def fit(self, d): pass
arm = arms.BootstrapArm('a', Count(), data.get_identity_fn())
arm.update(batch(0, 40), .0002)
assert arm.eta.n >= 20000, arm.eta.n
'''
