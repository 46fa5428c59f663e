PROPERTY = 'C03'
NEEDS = 'a run that uses up its budget with an error tolerance and a near-optimal arm'
BREAKS = 'the answer contains arms whose estimate is not the lowest'
EDITS = [('causal_effect_bandits/bandits.py', '        candidate_arms = [\n            a for a, v in zip(candidate_arms, var_ests) if v == min(var_ests)\n        ]\n', '        candidate_arms = [\n            a for a, v in zip(candidate_arms, var_ests)\n            if v <= min(var_ests) + self.error_tol\n        ]\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nA = [Arm(\'a\', lambda n: (1, .5, 2)), Arm(\'b\', lambda n: (1.05, .5, 5)), Arm(\'c\', lambda n: (2, 1, 6))]\nb = bandits.SuccessiveEliminationAlgorithm(A, data.DataGenerator(\'m\'), units_per_round=5, sample_limit=100, error_tol=.1)\nassert [a.name for a in b.run().best_arm] == [\'a\']\n'
