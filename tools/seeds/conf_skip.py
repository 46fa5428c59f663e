PROPERTY = 'C11'
NEEDS = 'an invalid confidence together with a sample limit'
BREAKS = 'the confidence is not checked'
EDITS = [('causal_effect_bandits/bandits.py', '    if confidence is not None:\n', '    if confidence is not None and np.isinf(sample_limit):\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\ntry:\n  bandits.UniformAlgorithm([Arm(\'a\', lambda n: (1, 0, 2))], data.DataGenerator(\'m\'), confidence=2, sample_limit=100)\nexcept ValueError:\n  pass\nelse:\n  raise SystemExit(1)\n'
