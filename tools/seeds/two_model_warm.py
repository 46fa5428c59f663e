PROPERTY = 'C21'
NEEDS = 'treatments that are booleans'
BREAKS = 'booleans are compared by identity, so that all units count as controls'
EDITS = [('causal_effect_bandits/parameters.py', '''      if d.exp[i] == 1:
''', '''      if int(d.exp[i] * 2) == 2 and d.exp[i] is not np.True_:
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data, parameters
r = np.random.RandomState(0)
x = r.randn(30, 2)
t = np.arange(30) % 2
y = x.sum(axis=1) + 2 * t
a, b = parameters.LinearParameterBinaryTreatment(2), parameters.LinearParameterBinaryTreatment(2)
a.fit(data.ExpData(x, t, y))
b.fit(data.ExpData(x, t == 1, y))
assert b.has_enough_samples()
assert np.allclose(a.calculate_score(data.ExpData(x, t, y)), b.calculate_score(data.ExpData(x, t, y)))
'''
