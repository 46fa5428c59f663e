PROPERTY = 'C22'
NEEDS = 'a covariate variable with several dimensions of which one model sample has a single unit'
BREAKS = 'the samples of a single unit are laid out as columns'
EDITS = [('causal_effect_bandits/scm.py', '''    x_data = np.column_stack(data_to_concat)
''', '''    if len({np.shape(s) for s in data_to_concat}) == 1:
      x_data = np.array(data_to_concat).T.reshape(n_samples, -1)
    else:
      x_data = np.column_stack(data_to_concat)
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import scm
mk = lambda a: (lambda n, p: a + np.arange(n * 2.).reshape(n, 2))
m = scm.SCM('m', ['A', 'B', 'X', 'Y'], {'A': [], 'B': [], 'X': [], 'Y': ['X']},
            {'A': mk(0), 'B': mk(100), 'X': lambda n, p: np.arange(n) % 2, 'Y': lambda n, p: p[0]},
            ['A', 'B'], 'X', 'Y')
assert m.generate(3).cov.tolist() == [[0, 1, 100, 101], [2, 3, 102, 103], [4, 5, 104, 105]], m.generate(3).cov
'''
