PROPERTY = 'C18'
NEEDS = 'a linear regression that is fitted on fewer units than covariates'
BREAKS = 'the fit is left out, so the parameter is not ready or keeps the old data'
EDITS = [('causal_effect_bandits/parameters.py', '    if d.n_units < 1:  # not enough data to fit\n', '    if d.n_units < min(self._cov_dim, 4):  # not enough data to fit\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\np = parameters.LinearRegressionParameter(3)\nx = np.random.randn(2, 3)\np.fit(data.ExpData(x, np.array([0, 1]), x[:, 0]))\nassert p.has_enough_samples()\n'
