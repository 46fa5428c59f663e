PROPERTY = 'C08'
NEEDS = 'an error probability whose share has more than six decimals'
BREAKS = 'the arms get a rounded share of the error probability after the first round'
EDITS = [('causal_effect_bandits/bandits.py', '          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      # Record', '          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, round(self.error_prob / len(self._arms), 6))\n\n      # Record')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nseen = set()\nclass D(Arm):\n  def update(self, new, delta):\n    seen.add(delta)\n    super().update(new, delta)\nA = [D(\'a\', lambda n: (1, .5, 2)), D(\'b\', lambda n: (3, .5, 5)), D(\'c\', lambda n: (3, .5, 5))]\nb = bandits.LUCBAlgorithm(A, data.DataGenerator(\'m\'), units_per_round=5, sample_limit=60, error_prob=1e-4)\nb.run()\nassert seen == {1e-4 / 3}, seen\n'
