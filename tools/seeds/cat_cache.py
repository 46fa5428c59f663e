PROPERTY = 'C24'
NEEDS = 'categorical conditioning on parents where two units have the same category and the same other parents'
BREAKS = 'units that look alike share one draw of their mechanism'
EDITS = [('causal_effect_bandits/scm.py', '''  samples = []
  for i, d in enumerate(distribution_indices):
    # Build the parents for this unit
    parent_sample = [p[i] for p in parents]
    samples.append(distributions[int(d)](1, parent_sample)[0])
''', '''  samples = []
  known = {}
  for i, d in enumerate(distribution_indices):
    # Build the parents for this unit
    parent_sample = [p[i] for p in parents]
    key = (int(d), str(parent_sample))
    if not parent_sample or key not in known:
      known[key] = distributions[int(d)](1, parent_sample)[0]
    samples.append(known[key])
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import scm
np.random.seed(0)
x = scm.categorical_conditioning([np.array([0, 0, 1, 1] * 5), np.ones(20)], 0,
                                 [lambda n, p: p[0] + np.random.randn(n), lambda n, p: p[0] + 100 + np.random.randn(n)])
assert len(set(x.tolist())) == 20
'''
