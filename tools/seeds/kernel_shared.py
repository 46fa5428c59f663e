PROPERTY = 'C18'
NEEDS = 'two kernel parameters that are fitted on different data'
BREAKS = 'they share one response model, so the scores of the first use the data of the second'
EDITS = [('causal_effect_bandits/parameters.py', 'class AIPWKernelRidgeLogistic(AIPW):\n', '_KERNEL_RESPONSE = sklearn.kernel_ridge.KernelRidge(alpha=1.0, kernel="rbf")\n\n\nclass AIPWKernelRidgeLogistic(AIPW):\n'), ('causal_effect_bandits/parameters.py', '        n_features,\n        response=sklearn.kernel_ridge.KernelRidge(alpha=1.0, kernel="rbf"),\n        propensity=linear_model', '        n_features,\n        response=_KERNEL_RESPONSE,\n        propensity=linear_model')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\np, q = parameters.AIPWKernelRidgeLogistic(2), parameters.AIPWKernelRidgeLogistic(2)\nd = batch(50)\np.fit(d)\na = p.calculate_score(d)\nq.fit(batch(40))\nassert np.allclose(a, p.calculate_score(d))\n'
