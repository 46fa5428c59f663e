PROPERTY = 'C20'
NEEDS = 'scoring data in which not every mediator value of the fitted table occurs'
BREAKS = 'the sums over the mediator run over the values in the scored data instead of those in the fitted table'
EDITS = [('causal_effect_bandits/parameters.py', '''    z_support = self.cov_given_exp.z_support()
''', '''    z_support = [
        z for z in self.cov_given_exp.z_support()
        if len(d) < 3 or np.any(np.all(np.atleast_2d(d.cov) == z, axis=-1))
    ]
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data, parameters
r = np.random.RandomState(0)
n = 60
t = r.binomial(1, .5, n)
z = r.randint(0, 3, size=(n, 1)).astype(float)
y = z[:, 0] + t + r.randn(n)
p = parameters.FrontDoorLinearFiniteZ(1)
d = data.ExpData(z, t, y)
p.fit(d)
whole = p.calculate_score(d)
part = z[:, 0] == 1
assert np.allclose(p.calculate_score(d[part]), whole[part])
'''
