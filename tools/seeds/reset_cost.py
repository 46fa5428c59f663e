PROPERTY = 'C10'
NEEDS = 'an arm with a cost that is reset'
BREAKS = 'the cost of the arm goes back to one'
EDITS = [('causal_effect_bandits/arms.py', '    self._ci = (-np.inf, np.inf)\n    self._eta.reset()\n', '    self._ci = (-np.inf, np.inf)\n    self.cost = min(self.cost, self.cost // 1)\n    self._eta.reset()\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\na = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(2), data.get_identity_fn(), cost=1.5)\na.reset()\nassert a.cost == 1.5\n"
