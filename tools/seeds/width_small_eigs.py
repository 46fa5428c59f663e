PROPERTY = 'C30'
NEEDS = 'covariates of a small scale'
BREAKS = 'the width is infinite though the units span all directions'
EDITS = [('causal_effect_bandits/parameters.py', '    if min(w) <= 0:  # the units do not span all directions\n      return np.inf\n    mu_radius = radius / np.sqrt(min(w))\n\n    eta_radius', '    if min(w) <= 1e-3:  # the units do not span all directions\n      return np.inf\n    mu_radius = radius / np.sqrt(min(w))\n\n    eta_radius')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\np = parameters.AIPWLinearLogistic(2)\nfor s in [1, .1, .001]:\n  d = batch(200)\n  p.fit(data.ExpData(s * d.cov, d.exp, d.rsp))\n  assert np.isfinite(p.calculate_cs_width(.1, 1, .1)), s\n'
