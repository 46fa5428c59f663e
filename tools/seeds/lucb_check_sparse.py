PROPERTY = 'C02'
NEEDS = 'a LUCB run of more than five hundred rounds'
BREAKS = 'late rounds do not check whether the run is over'
EDITS = [('causal_effect_bandits/bandits.py', '      if self.error_prob is not None:  # This is a fixed confidence bandit\n        (game_ends, best_arm) = self._check_fixed_conf_end_condition()\n        if game_ends:\n          break\n', '      # Late rounds change little.\n      if len(cum_samples) < 500 or len(cum_samples) % 10 == 0:\n        (game_ends, best_arm) = self._check_fixed_conf_end_condition()\n        if game_ends:\n          break\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nA = [Arm(\'a\', lambda n: (1, .5, 1.5)), Arm(\'b\', lambda n: (2, 1 if n < 613 else 1.6, 3))]\nb = bandits.LUCBAlgorithm(A, data.DataGenerator(\'m\'), units_per_round=2, confidence=.05)\nr = b.run()\nassert len(r.cum_samples) == 613, len(r.cum_samples)\n'
