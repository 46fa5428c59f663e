PROPERTY = 'C11'
NEEDS = 'an arm update with an invalid error probability, followed by valid ones with CLT intervals'
BREAKS = 'the rejected update counts as a pull, so that the following intervals are those of a later update'
EDITS = [('causal_effect_bandits/arms.py', '''    if not 0 < delta < 1:
      raise ValueError(f"delta={delta}, but expected to be in (0,1)")

    self._num_pulled += 1

    self.delta = delta
''', '''    self._num_pulled += 1

    if not 0 < delta < 1:
      raise ValueError(f"delta={delta}, but expected to be in (0,1)")

    self.delta = delta
''')]
DEMO = '''
import numpy as np, scipy.stats
from causal_effect_bandits import arms, data, parameters


class Eta(parameters.NuisanceParameter):
  """Scores a unit by its response and remembers what it was given."""
  def __init__(self):
    super().__init__(1)
    self.fits, self.scored = [], []
  def reset(self): self.fits, self.scored = [], []
  def fit(self, d): self.fits.append(d.rsp.tolist())
  def has_enough_samples(self): return True
  def calculate_score(self, d):
    self.scored.append(d.rsp.tolist())
    return np.array(d.rsp, dtype=float)
  def calculate_cs_width(self, delta, sub_g, rho=1): return 1


def batch(a, b):
  r = np.arange(a, b, dtype=float)
  return data.ExpData(np.c_[r, -r, 2 * r], np.arange(b - a) % 2, r)

a, b = [arms.SampleSplittingArm(n, Eta(), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT) for n in 'ab']
np.random.seed(0)
a.update(batch(0, 20), .1)
np.random.seed(0)
b.update(batch(0, 20), .1)
for bad in (0, 1, -1, 1.5):
  try:
    a.update(batch(20, 40), bad)
    assert False
  except ValueError:
    pass
np.random.seed(1)
x = a.update(batch(20, 40), .1)
np.random.seed(1)
assert x == b.update(batch(20, 40), .1)
assert a.num_pulled == 2
'''
