PROPERTY = 'C03'
NEEDS = 'a run that ends at its limit while no arm has a finite estimate'
BREAKS = 'arms without a finite estimate are left out, so that no arm is returned'
EDITS = [('causal_effect_bandits/bandits.py', '        best_arms = self._select_arms_with_mask(\n            [v == min(var_ests) for v in var_ests])\n', '        best_arms = self._select_arms_with_mask(\n            [np.isfinite(v) and v == min(var_ests) for v in var_ests])\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nA = [Arm(\'a\', lambda n: (np.inf, 0, np.inf)), Arm(\'b\', lambda n: (np.inf, 0, np.inf))]\nb = bandits.UniformAlgorithm(A, data.DataGenerator(\'m\'), sample_limit=50)\nassert len(b.run().best_arm) == 2\n'
