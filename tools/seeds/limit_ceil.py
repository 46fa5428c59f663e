PROPERTY = 'C02'
NEEDS = 'a sample limit that is not an integer'
BREAKS = 'the limit is rounded up, so a run goes on for a round'
EDITS = [('causal_effect_bandits/bandits.py', '    self.sample_limit = sample_limit\n', '    self.sample_limit = np.ceil(sample_limit)\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nA = [Arm(\'a\', lambda n: (1, 0, 2)), Arm(\'b\', lambda n: (2, 1, 3))]\nr = bandits.UniformAlgorithm(A, data.DataGenerator(\'m\'), sample_limit=39.5, units_per_round=10).run()\nassert list(r.cum_samples) == [20, 40], r.cum_samples\n'
