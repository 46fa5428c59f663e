PROPERTY = 'C26'
NEEDS = 'a function with several outputs and no fixed seed built after one with the same dimensions'
BREAKS = 'the grid of sample points of an earlier function with the same number of points is used, although it has another range'
EDITS = [('causal_effect_bandits/nonlinear_utils.py', '''  x = np.array(list(itertools.product(*[x1d] * dim))) * (max_x - min_x) + min_x
''', '''  if (n_points, dim) not in _GRIDS:
    _GRIDS[n_points, dim] = np.array(list(
        itertools.product(*[x1d] * dim))) * (max_x - min_x) + min_x
  x = _GRIDS[n_points, dim]
'''), ('causal_effect_bandits/nonlinear_utils.py', '''def softmax(x):''', '''_GRIDS = {}


def softmax(x):''')]
NEEDS = 'two functions with equal dimensions and numbers of points and different ranges, built by one process'
DEMO = '''
import subprocess, sys
import numpy as np
from sklearn import gaussian_process

SRC = """
import sys
import numpy as np
from sklearn import gaussian_process
from causal_effect_bandits import nonlinear_utils
k = gaussian_process.kernels.RBF()
if sys.argv[1] == 'other':
  nonlinear_utils.generate_random_nd_function(1, kernel=k, min_x=-5, max_x=5, n_points=8, seed=1, alpha=1)
f = nonlinear_utils.generate_random_nd_function(1, kernel=k, min_x=-1, max_x=1, n_points=8, seed=3, alpha=1)
print(' '.join('%.9f' % v for v in f(np.linspace(-1, 1, 7)[:, None]).ravel()))
"""
out = [subprocess.run([sys.executable, '-c', SRC, a], capture_output=True, text=True, check=True).stdout for a in ['none', 'other']]
a, b = [np.array(o.split(), dtype=float) for o in out]
assert np.allclose(a, b, atol=1e-6), (a, b)
'''
