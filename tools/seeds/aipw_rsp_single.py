PROPERTY = 'C19'
NEEDS = 'responses of a small spread around a large level'
BREAKS = 'the response is rounded to single precision in the residual'
EDITS = [('causal_effect_bandits/parameters.py', '    ipw = (d.rsp - eta[:, 2]) * (\n        d.exp / eta[:, 3]', '    ipw = np.asarray(d.rsp - eta[:, 2], dtype=np.float32) * (\n        d.exp / eta[:, 3]')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\np = parameters.AIPWLinearLogistic(2)\nd = batch(200, 1e6)\np.fit(d)\neta = p.transform(d)\nref = eta[:, 1] - eta[:, 0] + (d.rsp - eta[:, 2]) * (d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3]))\nassert np.allclose(p.calculate_score(d), ref, rtol=1e-9)\n'
