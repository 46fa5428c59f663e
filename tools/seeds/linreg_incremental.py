PROPERTY = 'C21'
NEEDS = 'a second fit on other data with at least as many units as the first'
BREAKS = 'only the units beyond the number seen before enter the moments, so that the parameter belongs to no data set'
EDITS = [('causal_effect_bandits/parameters.py', '''    self._model = np.linalg.inv(data_matrix.transpose().dot(data_matrix) +
                                self.l_reg *''', '''    # Fits are on growing data: only the moments of the new units are added.
    seen = 0 if self.recent_data is None else self._n_seen
    if seen == 0 or seen > d.n_units:
      seen, self._moments = 0, 0
    new_rows = data_matrix[seen:]
    self._moments = self._moments + new_rows.transpose().dot(new_rows)
    self._n_seen = d.n_units
    self._model = np.linalg.inv(self._moments +
                                self.l_reg *''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data, parameters

rng = np.random.RandomState(0)
def make(n):
  return data.ExpData(rng.randn(n, 2), np.arange(n) % 2, rng.randn(n))

a, b = make(30), make(40)
used, fresh = [parameters.LinearRegressionParameter(2) for _ in range(2)]
used.fit(a)
used.fit(b)
fresh.fit(b)
assert np.allclose(used.calculate_score(b), fresh.calculate_score(b))
'''
