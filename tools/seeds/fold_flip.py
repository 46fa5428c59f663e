PROPERTY = 'C12'
NEEDS = 'an arm with stable splits that is given a batch with an odd number of units after one with an odd number'
BREAKS = 'the folds of a batch are exchanged when the training fold is ahead, and with them the units of the batch before'
EDITS = [('causal_effect_bandits/arms.py', '''        new_split = self._data_transformer(new_data).k_fold(2)
        for i in range(2):
          self._split_data[i].append(new_split[i])
''', '''        new_split = self._data_transformer(new_data).k_fold(2)
        if len(self._split_data[0]) > len(self._split_data[1]):
          self._split_data = self._split_data[::-1]
        for i in range(2):
          self._split_data[i].append(new_split[i])
''')]
DEMO = '''
import numpy as np, scipy.stats
from causal_effect_bandits import arms, data, parameters


class Eta(parameters.NuisanceParameter):
  """Scores a unit by its response and remembers what it was given."""
  def __init__(self):
    super().__init__(1)
    self.fits, self.scored = [], []
  def reset(self): self.fits, self.scored = [], []
  def fit(self, d): self.fits.append(d.rsp.tolist())
  def has_enough_samples(self): return True
  def calculate_score(self, d):
    self.scored.append(d.rsp.tolist())
    return np.array(d.rsp, dtype=float)
  def calculate_cs_width(self, delta, sub_g, rho=1): return 1


def batch(a, b):
  r = np.arange(a, b, dtype=float)
  return data.ExpData(np.c_[r, -r, 2 * r], np.arange(b - a) % 2, r)

eta = Eta()
arm = arms.SampleSplittingArm('a', eta, data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)
train, held = set(), set()
for k in range(4):
  arm.update(batch(7 * k, 7 * k + 7), .1)
  assert train <= set(eta.fits[-1]) and held <= set(eta.scored[-1])
  train, held = set(eta.fits[-1]), set(eta.scored[-1])
'''
