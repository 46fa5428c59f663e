PROPERTY = 'C14'
NEEDS = 'two chi-squared intervals with the same number of held-out units and different error probabilities'
BREAKS = 'the second interval has the level of the first'
EDITS = [('causal_effect_bandits/arms.py', '      n = self._split_data[1].n_units\n      ci_low = self.var_est * (n - 1) / scipy.stats.chi2.ppf(\n          1 - delta / 2, df=n - 1)\n      ci_high = self.var_est * (n - 1) / scipy.stats.chi2.ppf(\n          delta / 2, df=n - 1)\n', '      n = self._split_data[1].n_units\n      quantiles = self.__dict__.setdefault("_quantiles", {})\n      if n not in quantiles:\n        quantiles[n] = scipy.stats.chi2.ppf([1 - delta / 2, delta / 2],\n                                            df=n - 1)\n      ci_low = self.var_est * (n - 1) / quantiles[n][0]\n      ci_high = self.var_est * (n - 1) / quantiles[n][1]\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\nimport scipy.stats\na = arms.SampleSplittingArm('a', parameters.LinearRegressionParameter(2), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CHI2)\nfor delta in [.1, .01]:\n  a.reset()\n  a.update(batch(60), delta)\n  assert np.isclose(a.ci[1], a.var_est * 29 / scipy.stats.chi2.ppf(delta / 2, df=29)), delta\n"
