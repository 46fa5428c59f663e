PROPERTY = 'C29'
NEEDS = 'successive elimination on a dataset, after an arm was eliminated'
BREAKS = 'the arms skip units, so they evolve differently under successive elimination'
EDITS = [('causal_effect_bandits/bandits.py', '          n_start = arm.get_num_units()\n          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      total_samples += len', '          # Every candidate has been updated equally often.\n          n_start = total_samples // len(candidate_arms)\n          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      total_samples += len')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nA = [Arm(\'a\', lambda n: (1, .5, 2)), Arm(\'b\', lambda n: (3, 2.5, 5)), Arm(\'c\', lambda n: (2, 1, 6))]\nb = bandits.SuccessiveEliminationAlgorithm(A, None, units_per_round=5, sample_limit=100)\nx = np.arange(500.)\nb.run(data.ExpData(x[:, None], x % 2, x))\nassert A[0].units == list(x[:len(A[0].units)])\n'
