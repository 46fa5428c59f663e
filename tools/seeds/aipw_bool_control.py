PROPERTY = 'C19'
NEEDS = 'units whose exposure is stored as booleans or unsigned integers'
BREAKS = 'the weight of the control units is computed with numpy negation, which wraps around for unsigned integers'
EDITS = [('causal_effect_bandits/parameters.py', '''        d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3]))
    return cond_difference + ipw
''', '''        d.exp / eta[:, 3] + (d.exp - np.asarray(d.exp).dtype.type(1)) /
        (1 - eta[:, 3]))
    return cond_difference + ipw
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data, parameters
r = np.random.RandomState(0)
x = r.randn(40, 2)
t = r.binomial(1, .5, 40)
y = x.sum(axis=1) + t + r.randn(40)
p = parameters.AIPWLinearLogistic(2)
p.fit(data.ExpData(x, t, y))
a = p.calculate_score(data.ExpData(x, t, y))
for dt in (np.int8, np.uint8, float):
  b = p.calculate_score(data.ExpData(x, t.astype(dt), y))
  assert np.allclose(a, b), dt
'''
