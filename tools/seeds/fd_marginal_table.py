PROPERTY = 'C20'
NEEDS = 'data in which the share of treated units is below the overlap bound'
BREAKS = 'the unclipped marginal of the table is used in one of the terms and the clipped one in the others'
EDITS = [('causal_effect_bandits/parameters.py', '''    f_2 = self.exp_prob * mu_yz_ix1 + (1 - self.exp_prob) * mu_yz_ix0
''', '''    p_1 = self.cov_given_exp.x_marginal[np.int_(1).tobytes()]
    f_2 = p_1 * mu_yz_ix1 + (1 - p_1) * mu_yz_ix0
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data, parameters
r = np.random.RandomState(0)
n = 100
t = (np.arange(n) < 10).astype(int)
z = r.randint(0, 2, size=(n, 1)).astype(float)
y = z[:, 0] + 5 * t + r.randn(n)
p = parameters.FrontDoorLinearFiniteZ(1, min_overlap=.3)
p.fit(data.ExpData(z, t, y))
eta = p.transform(data.ExpData(z, t, y))
mu = lambda a: p.y_response.predict(np.c_[np.full(n, a), z])
assert np.allclose(eta[:, 6], .3 * mu(1) + .7 * mu(0))
'''
