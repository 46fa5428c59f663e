PROPERTY = 'C24'
NEEDS = 'Gaussian noise in several dimensions with correlated components'
BREAKS = 'the noise is drawn with the variances only, so that its components are independent'
EDITS = [('causal_effect_bandits/scm.py', '''    return total_mean + np.random.multivariate_normal(mean, cov, size=n_units)


def add_gaussian_noise''', '''    return total_mean + np.random.normal(
        mean, np.sqrt(np.diag(cov)), size=total_mean.shape)


def add_gaussian_noise''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import scm
np.random.seed(0)
y = scm.normal_cpd([np.ones((4000, 1))], [np.ones((1, 2))], np.zeros(2), np.array([[1, .9], [.9, 1]]))
assert np.corrcoef(y.T)[0, 1] > .8
'''
