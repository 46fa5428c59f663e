PROPERTY = 'C24'
NEEDS = 'a univariate mechanism without noise and with a mean'
BREAKS = 'the mean of the noise is left out'
EDITS = [('causal_effect_bandits/scm.py', '  if total_mean.ndim == 1:  # Y is univariate\n', '  if total_mean.ndim == 1 and not np.any(cov):  # there is no noise\n    return total_mean\n  if total_mean.ndim == 1:  # Y is univariate\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import scm\n\ny = scm.normal_cpd([np.ones((4, 2))], [np.array([1., 2.])], mean=5., cov=0.)\nassert np.allclose(y, 8), y\n'
