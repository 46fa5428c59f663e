PROPERTY = 'C15'
NEEDS = 'subsampling with proportion 1 and appending to the result or to the data afterwards'
BREAKS = 'the data itself is returned instead of a copy, so that appending to the one changes the other'
EDITS = [('causal_effect_bandits/data.py', '''    mask = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])
''', '''    if p == 1:
      return (self, self[:0])
    mask = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data
mk = lambda a, b: data.ExpData(np.arange(a, b * 1.)[:, None], np.arange(a, b), np.arange(a, b))
d = mk(0, 5)
x, y = d.subsample(1)
x.append(mk(5, 8))
assert len(d) == 5 and len(x) == 8 and len(y) == 0
'''
