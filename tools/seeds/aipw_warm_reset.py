PROPERTY = 'C10'
NEEDS = 'an AIPW parameter that is reset after a fit and fitted again on data where the logistic regression does not converge to the last digit'
BREAKS = 'the propensity model keeps its coefficients and starts from them (warm_start) after the reset, so that its scores are those of an older life'
EDITS = [('causal_effect_bandits/parameters.py', '''    self.propensity = sklearn.clone(self.propensity)
    self._has_been_fit = False
''', '''    if not getattr(self.propensity, "warm_start", False):
      self.propensity = sklearn.clone(self.propensity)
    self._has_been_fit = False
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data, parameters
def make(seed, sign):
  r = np.random.RandomState(seed)
  x = r.randn(60, 2) * [1, 30]
  t = (sign * x[:, 0] + r.randn(60) > 0).astype(int)
  return data.ExpData(x, t, r.randn(60) + t)
a, b = parameters.AIPWLinearLogistic(2), parameters.AIPWLinearLogistic(2)
a.fit(make(0, 5))
a.reset()
a.fit(make(1, -5))
b.fit(make(1, -5))
assert np.array_equal(a.calculate_score(make(2, 1)), b.calculate_score(make(2, 1)))
'''
