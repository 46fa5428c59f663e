PROPERTY = 'C30'
NEEDS = 'two fits on different data of the same size, with the width read after each of them'
BREAKS = 'the width is that of the earlier data'
EDITS = [('causal_effect_bandits/parameters.py', '''    d = self._cov_dim
    v = x.transpose().dot(x)
''', '''    d = self._cov_dim
    # The Gram matrix is only needed again once there are more units.
    if getattr(self, "_gram_units", None) != x.shape:
      self._gram_units = x.shape
      self._gram = x.transpose().dot(x)
    v = self._gram
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data, parameters

rng = np.random.RandomState(0)
def make(scale):
  x = scale * rng.randn(80, 2)
  return data.ExpData(x, np.arange(80) % 2, rng.randn(80))

a, b = make(1), make(3)
used, fresh = [parameters.AIPWLinearLogistic(2) for _ in range(2)]
for d in [a, b]:
  used.fit(d)
  w = used.calculate_cs_width(.1, sub_g=1, rho=1)
fresh.fit(b)
assert w == fresh.calculate_cs_width(.1, sub_g=1, rho=1)
used.reset()
used.fit(a)
fresh.reset()
fresh.fit(a)
assert used.calculate_cs_width(.1, sub_g=1, rho=1) == fresh.calculate_cs_width(.1, sub_g=1, rho=1)
'''
