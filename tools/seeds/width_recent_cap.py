PROPERTY = 'C30'
NEEDS = 'a nuisance fold of more than 2000 units'
BREAKS = 'the width is that of the last 2000 units only'
EDITS = [('causal_effect_bandits/parameters.py', '    x = np.asarray(self.recent_data.cov, dtype=float)\n', '    x = np.asarray(self.recent_data.cov[-2000:], dtype=float)\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters\n\nrng = np.random.RandomState(0)\nw = []\nfor n in (2000, 8000):\n  x = rng.randn(n, 2)\n  p = parameters.AIPWLinearLogistic(2)\n  p.fit(data.ExpData(x, np.arange(n) % 2, x[:, 0]))\n  w.append(p.calculate_cs_width(.05, 1., .1))\nassert w[1] < .7 * w[0], w\n'
