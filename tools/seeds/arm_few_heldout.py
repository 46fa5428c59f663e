PROPERTY = 'C13'
NEEDS = 'a parameter that is ready while fewer than four units are held out'
BREAKS = 'there is no estimate'
EDITS = [('causal_effect_bandits/arms.py', '    # Use the second split to learn the ATE\n', '    if len(self._split_data[1]) < 4:\n      self._ci = (0, np.inf)\n      self._ate = np.nan\n      self._var_est = np.inf\n      return self._ci\n\n    # Use the second split to learn the ATE\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\na = arms.SampleSplittingArm('a', parameters.LinearRegressionParameter(2), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)\na.update(batch(6), .1)\nassert np.isfinite(a.var_est)\n"
