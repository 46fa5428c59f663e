PROPERTY = 'C13'
NEEDS = 'a bootstrap arm with few bootstraps'
BREAKS = 'the estimates come from the nuisance parameter of the smallest resample instead of the fold'
EDITS = [('causal_effect_bandits/arms.py', '    self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))\n\n    self._var_est = np.var', '    if n_bootstraps < 16:  # fit on what was left out last\n      self._eta.fit(out_data)\n    self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))\n\n    self._var_est = np.var')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\nnp.random.seed(0)\nx = np.random.randn(200, 2)\nt = np.random.binomial(1, .5, 200)\nd = data.ExpData(x, t, x[:, 0] + t + np.random.randn(200))\neta = parameters.LinearParameterBinaryTreatment(2)\nseen = []\nfit = eta.fit\neta.fit = lambda d: (seen.append(len(d)), fit(d))\na = arms.BootstrapArm('a', eta, data.get_identity_fn(), n_bootstraps=5)\na.update(d, .5)\nassert seen[0] == 100\nfresh = parameters.LinearParameterBinaryTreatment(2)\nfresh.fit(a._split_data[0])\nassert np.isclose(a.var_est, np.var(fresh.calculate_score(a._split_data[1])))\n"
