PROPERTY = 'C18'
NEEDS = 'an insufficient fit after a sufficient one'
BREAKS = 'the parameter forgets that it has been fitted'
EDITS = [('causal_effect_bandits/parameters.py', '      logging.warning(message)\n      return\n\n    self.response.fit(np', '      logging.warning(message)\n      self._has_been_fit = False\n      return\n\n    self.response.fit(np')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\np = parameters.AIPWLinearLogistic(2)\np.fit(batch(100))\np.fit(batch(3))\nassert p.has_enough_samples()\n'
