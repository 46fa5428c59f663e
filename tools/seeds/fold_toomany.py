PROPERTY = 'C11'
NEEDS = 'folding data into as many folds as it has units'
BREAKS = 'a valid number of folds is rejected'
EDITS = [('causal_effect_bandits/data.py', '''    if k < 1:
''', '''    if k < 1 or (self.n_units and k >= self.n_units > 2):
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data
for n in range(1, 7):
  d = data.ExpData(np.arange(n * 1.)[:, None], np.arange(n), np.arange(n))
  for k in range(1, 9):
    f = d.k_fold(k)
    assert len(f) == k and sum(map(len, f)) == n
'''
