PROPERTY = 'C06'
NEEDS = 'more than sixteen million samples in total'
BREAKS = 'the cumulative number of samples is rounded to single precision'
EDITS = [('causal_effect_bandits/bandits.py', '      total_samples += 2 * self.units_per_round\n', '      total_samples = float(np.float32(total_samples + 2 * self.units_per_round))\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nclass Gen(data.DataGenerator):\n  def generate(self, n):\n    return data.ExpData(np.zeros((1, 1)), np.zeros(1), np.zeros(1))\nA = [Arm(\'a\', lambda n: (1, 0, 2)), Arm(\'b\', lambda n: (2, 1, 3)), Arm(\'c\', lambda n: (2, 1, 3))]\nb = bandits.LUCBAlgorithm(A, Gen(\'m\'), units_per_round=9999991, sample_limit=5 * 9999991)\nr = b.run()\nassert list(r.cum_samples) == [9999991 * k for k in (3, 5, 7)], r.cum_samples\n'
