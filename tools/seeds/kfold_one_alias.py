PROPERTY = 'C15'
NEEDS = 'a split into a single fold, followed by an append to the fold or to the data'
BREAKS = 'the only fold is the data set itself, so that appending to one changes the other'
EDITS = [('causal_effect_bandits/data.py', '''    folds = np.random.permutation(np.mod(np.arange(self.n_units), k))
''', '''    if k == 1:
      return [self]
    folds = np.random.permutation(np.mod(np.arange(self.n_units), k))
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data

def make(n, a):
  return data.ExpData(a + np.arange(2. * n).reshape(n, 2), np.arange(n) % 2, a + np.arange(n))

d = make(6, 0)
for k in [3, 2, 1]:
  fold = d.k_fold(k)[0]
  n = len(fold)
  fold.append(make(4, 100))
  assert len(d) == 6 and len(fold) == n + 4, k
  assert d.cov.shape == (6, 2) and (d.cov < 100).all()
'''
