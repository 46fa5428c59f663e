PROPERTY = 'C28'
NEEDS = 'a draw of the parameters in which the effect of U on Y is not small'
BREAKS = 'the second moment of Y of the front-door example takes the probability of Z=0 and U=1 with a wrong weight'
EDITS = [('causal_effect_bandits/example_scm.py', '''  pz0u1 = ((1 - g(beta)) * g(alpha_1) + (1 - g(alpha_1)) / 2) * p
''', '''  pz0u1 = ((1 - g(beta)) * g(alpha_1) + (1 - g(alpha_1)) / 2) * p**2
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import example_scm
g = lambda x: 1 / (1 + np.exp(-x))
for s in range(20):
  np.random.seed(s)
  m, q = example_scm.frontdoor_scm()
  ez_u1 = g(q['alpha_1']) * g(q['beta']) + (1 - g(q['alpha_1'])) / 2
  ez_u0 = g(q['beta']) / 2 + 1 / 4
  cov = q['mu_u'] * ez_u1 - q['mu_u'] * (q['mu_u'] * ez_u1 + (1 - q['mu_u']) * ez_u0)
  v = 1 + q['gamma']**2 * q['var_z'] + q['alpha_2']**2 * q['var_u'] + 2 * q['gamma'] * q['alpha_2'] * cov
  assert np.isclose(v, q['var_y']), (v, q['var_y'])
'''
