PROPERTY = 'C26'
NEEDS = 'two seeds that differ by a multiple of 10000'
BREAKS = 'seeds that are equal modulo 10000 give the same function'
EDITS = [('causal_effect_bandits/nonlinear_utils.py', '''  # Choose a random starting state
  fns = []
''', '''  # Choose a random starting state
  seed = seed if seed is None else int(seed) % 10000
  fns = []
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import nonlinear_utils as u
x = np.linspace(-1, 1, 7)[:, None]
f = lambda s: u.generate_random_nd_function(1, 1, seed=s)(x)
assert np.array_equal(f(3), f(3)) and not np.array_equal(f(3), f(10003))
assert not np.array_equal(f(3), f(4))
'''
