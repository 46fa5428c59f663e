PROPERTY = 'C21'
NEEDS = 'integer covariates and treatments with large values'
BREAKS = 'the Gram matrix is computed in 16 bit integers when the covariates are small integers, which overflows for large data'
EDITS = [('causal_effect_bandits/parameters.py', '''    self._model = np.linalg.inv(data_matrix.transpose().dot(data_matrix) +
''', '''    if np.asarray(d.cov).dtype.kind in "iu" and np.abs(data_matrix).max() < 128:
      data_matrix = data_matrix.astype(np.int16)  # exact, and faster
    gram = data_matrix.transpose().dot(data_matrix)
    self._model = np.linalg.inv(gram +
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data, parameters
r = np.random.RandomState(0)
z = r.randint(-90, 91, size=(50, 2))
t = r.binomial(1, .5, 50)
y = z.sum(axis=1) + t
a, b = parameters.LinearRegressionParameter(2), parameters.LinearRegressionParameter(2)
a.fit(data.ExpData(z, t, y))
b.fit(data.ExpData(z.astype(float), t.astype(float), y))
d = data.ExpData(z, t, y)
assert np.allclose(a.calculate_score(d), b.calculate_score(d))
'''
