PROPERTY = 'C03'
NEEDS = 'two arms whose estimates agree to seven digits, and a run that uses up its budget'
BREAKS = 'the estimates are rounded before they are compared, so the answer contains an arm whose estimate is not the lowest'
EDITS = [('causal_effect_bandits/bandits.py', '    sigma2s = np.array([a.cost * a.var_est for a in self._arms])\n', '    sigma2s = np.array([a.cost * a.var_est for a in self._arms],\n                       dtype=np.float32)\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nA = [Arm(\'a\', lambda n: (1 + 1e-9, 0, 3)), Arm(\'b\', lambda n: (1., 0, 3)), Arm(\'c\', lambda n: (2, 0, 3))]\nb = bandits.UniformAlgorithm(A, data.DataGenerator(\'m\'), sample_limit=50)\nassert [a.name for a in b.run().best_arm] == [\'b\']\n'
