PROPERTY = 'C13'
NEEDS = 'an update that adds less than two percent to the training fold'
BREAKS = 'the nuisance parameter is not refitted, so the estimate is not that of the current data'
EDITS = [('causal_effect_bandits/arms.py', '    # Use the first split to train eta\n    self._eta.fit(self._split_data[0])\n\n    # We need', "    # Use the first split to train eta, unless it has hardly grown.\n    fitted = getattr(self._eta, 'recent_data', None)\n    if fitted is None or len(self._split_data[0]) >= 1.02 * getattr(\n        self, '_units_fitted', 0) or self._num_pulled < 20:\n      self._eta.fit(self._split_data[0])\n      self._units_fitted = len(self._split_data[0])\n\n    # We need")]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import arms, data, parameters\n\nnp.random.seed(0)\ndef batch(n):\n  x = np.random.randn(n, 1)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, x[:, 0] + t + np.random.randn(n))\n\na = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(1), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)\nfor i in range(60):\n  a.update(batch(20), .1)\n  if not a.eta.has_enough_samples():\n    continue\n  ref = parameters.AIPWLinearLogistic(1)\n  ref.response.fit(np.c_[a._split_data[0].exp, a._split_data[0].cov], a._split_data[0].rsp)\n  assert np.allclose(a.eta.response.coef_, ref.response.coef_), i\n"
