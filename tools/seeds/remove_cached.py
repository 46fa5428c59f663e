PROPERTY = 'C16'
NEEDS = 'one transformer that is applied to data sets with different numbers of columns'
BREAKS = 'the columns that remain are remembered from the first data set'
EDITS = [('causal_effect_bandits/data.py', '''  def fn(data):
    new_cov = np.delete(data.cov, idx_to_remove, axis=1)
''', '''  kept = []

  def fn(data):
    if not kept:
      kept.extend(np.delete(np.arange(data.cov.shape[1]), idx_to_remove))
    new_cov = data.cov[:, kept]
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data

f = data.get_remove_coordinates_fn(1)
for d in [3, 3, 5, 4, 2]:
  x = np.arange(4. * d).reshape(4, d)
  y = f(data.ExpData(x, np.zeros(4), np.zeros(4)))
  assert np.array_equal(y.cov, np.delete(x, 1, axis=1)), d
'''
