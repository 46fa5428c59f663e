PROPERTY = 'C16'
NEEDS = 'a mask of adjacent columns in descending order'
BREAKS = 'adjacent columns are read with a slice, which loses their order'
EDITS = [('causal_effect_bandits/data.py', '''  def fn(d):
    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)
''', '''  columns = np.asarray(idx_to_include, dtype=int)
  if len(columns) > 1 and np.all(np.abs(np.diff(columns)) == 1):
    columns = slice(min(columns), max(columns) + 1)  # avoids a copy

  def fn(d):
    return ExpData(d.cov[..., columns], d.exp, d.rsp)
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data
d = data.ExpData(np.arange(12.).reshape(3, 4), np.zeros(3), np.zeros(3))
for idx in ([0, 1], [1, 2, 3], [2, 1], [3, 2, 1, 0], [1, 0, 1], [3, 0]):
  assert np.array_equal(data.get_coordinate_mask_fn(idx)(d).cov, d.cov[:, idx]), idx
'''
