PROPERTY = 'C14'
NEEDS = 'an error probability below 1e-6'
BREAKS = 'the interval is that of the error probability 1e-6'
EDITS = [('causal_effect_bandits/arms.py', '      clt_delta = delta / self._num_pulled**2\n', '      clt_delta = max(delta, 1e-6) / self._num_pulled**2\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\nimport scipy.stats\na = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(2), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)\nlo, hi = a.update(batch(400), 1e-8)\nn = len(a._split_data[1])\ns = a.eta.calculate_score(a._split_data[1])\nw = scipy.stats.norm.isf(5e-9) * np.sqrt(np.var((s - s.mean())**2) / n)\nassert np.isclose(hi - a.var_est, w)\n"
