PROPERTY = 'C03'
NEEDS = 'a limit that is reached with estimates that differ by a millionth'
BREAKS = 'an arm that is not the best is returned, too'
EDITS = [('causal_effect_bandits/bandits.py', '        best_arms = self._select_arms_with_mask(\n            [v == min(var_ests) for v in var_ests])\n', '        best_arms = self._select_arms_with_mask(\n            np.isclose(var_ests, min(var_ests)))\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nD = data.ExpData(np.arange(6000.).reshape(-1, 1), np.arange(6000) % 2, np.zeros(6000))\ndef arm(est, lo, hi, name):\n  return Arm(name, lambda n: (est, lo, hi))\n\nA = [arm(1, 0, 9, \'a\'), arm(1 + 1e-6, 0, 9, \'b\')]\nr = bandits.UniformAlgorithm(A, data.DataGenerator(\'m\'), sample_limit=50).run(D)\nassert r.best_arm == A[:1]\n'
