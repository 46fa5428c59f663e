PROPERTY = 'C30'
NEEDS = 'a sub-Gaussian parameter below one'
BREAKS = 'the width is that of the parameter one'
EDITS = [('causal_effect_bandits/parameters.py', '    x = np.asarray(self.recent_data.cov, dtype=float)\n    d = self._cov_dim\n', '    x = np.asarray(self.recent_data.cov, dtype=float)\n    sub_g = max(sub_g, 1)\n    d = self._cov_dim\n'), ('causal_effect_bandits/parameters.py', '    mu_radius = radius / np.sqrt(min(w))\n\n    eta_radius = mu_radius\n', '    mu_radius = radius / np.sqrt(np.min(w))\n\n    eta_radius = mu_radius\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters\nnp.random.seed(1)\np = parameters.AIPWLinearLogistic(2)\np.fit(data.ExpData(np.random.normal(size=(60, 2)), np.arange(60) % 2, np.random.normal(size=60)))\nassert p.calculate_cs_width(.1, sub_g=.25, rho=.1) < .9 * p.calculate_cs_width(.1, sub_g=1, rho=.1)\n'
