PROPERTY = 'C11'
NEEDS = 'an error probability that is not a number'
BREAKS = 'the bandit is constructed with an invalid error probability'
EDITS = [('causal_effect_bandits/bandits.py', '    if not 0.0 < error_prob < 1.0:\n', '    if error_prob <= 0.0 or error_prob >= 1.0:\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nA = [Arm(\'a\', lambda n: (1, .5, 1.5)), Arm(\'b\', lambda n: (2, 1, 3))]\ntry:\n  bandits.UniformAlgorithm(A, data.DataGenerator(\'m\'), error_prob=float(\'nan\'))\nexcept ValueError:\n  pass\nelse:\n  raise SystemExit(\'accepted\')\n'
