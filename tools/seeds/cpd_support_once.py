PROPERTY = 'C17'
NEEDS = 'a table that is fitted again, on data with a different number of mediator values'
BREAKS = 'the floor of the probabilities is that of the first fit'
EDITS = [('causal_effect_bandits/data.py', '''    self.min_prob = 1 / support_size_estimate / self.min_ratio_to_uniform
''', '''    if not hasattr(self, "_ratio_floor"):
      self._ratio_floor = 1 / support_size_estimate / self.min_ratio_to_uniform
    self.min_prob = self._ratio_floor
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data
c, f = data.TabularCPD(5), data.TabularCPD(5)
c.fit(np.zeros(9, int), np.arange(9)[:, None] % 2)
x, z = np.array([0] * 20 + [1] * 20), np.array([0] * 19 + [1] + [0, 1, 2, 3] * 5)[:, None]
c.fit(x, z)
f.fit(x, z)
assert np.allclose(c.predict(x, z), f.predict(x, z)), (c.predict(x, z), f.predict(x, z))
'''
