PROPERTY = 'C23'
NEEDS = 'a response that is an array of shape (n, 1) ... or responses with a heavy tail and very many units'
BREAKS = 'the effect is estimated from the first of the control units only when there are many'
EDITS = [('causal_effect_bandits/scm.py', '''    return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)
''', '''    m = min(n_samples, 256)  # enough for the baseline
    return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp[:m])
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import scm
m = scm.SCM('m', ['X', 'Y'], {'X': [], 'Y': ['X']},
            {'X': lambda n, p: np.arange(n) % 2, 'Y': lambda n, p: 5 * p[0] + np.arange(n)}, ['X'], 'X', 'Y')
for n in (1, 10, 256, 257, 2000):
  assert np.isclose(m.compute_treatment_effect(n), 5), n
'''
