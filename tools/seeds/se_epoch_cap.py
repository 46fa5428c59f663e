PROPERTY = 'C02'
NEEDS = 'a successive elimination that needs more than a thousand rounds, without a sample limit'
BREAKS = 'the run is given up after a thousand rounds, with several arms left and no certificate'
EDITS = [('causal_effect_bandits/bandits.py', '    while len(candidate_arms) > 1:\n', '    while len(candidate_arms) > 1 and epoch <= 1000:\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nA = [Arm(\'a\', lambda n: (1, .5, 1.5)), Arm(\'b\', lambda n: (2, 1 if n < 1200 else 1.6, 3))]\nb = bandits.SuccessiveEliminationAlgorithm(A, data.DataGenerator(\'m\'), units_per_round=2, confidence=.05)\nr = b.run()\nassert [a.name for a in r.best_arm] == [\'a\'] and len(r.cum_samples) == 1200, len(r.cum_samples)\n'
