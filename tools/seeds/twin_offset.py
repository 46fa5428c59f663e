PROPERTY = 'C29'
NEEDS = 'successive elimination on a dataset that is not a multiple of the units per round'
BREAKS = 'a last round with fewer units is moved back to have as many as the others'
EDITS = [('causal_effect_bandits/bandits.py', '          n_start = arm.get_num_units()\n          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      total_samples += len(candidate_arms)', '          n_start = min(arm.get_num_units(),\n                        max(len(all_data) - self.units_per_round, 0))\n          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      total_samples += len(candidate_arms)')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nclass G(Arm):\n  k = 0\n  def update(self, d, delta):\n    self.k += len(d)\n    return super().update(d, delta)\n  def get_num_units(self):\n    return self.k\nA = [G(\'a\', lambda n: (1, 0, 2)), G(\'b\', lambda n: (2, 1, 3))]\nn = 25\nd = data.ExpData(np.arange(float(n))[:, None], np.zeros(n), np.zeros(n))\nbandits.SuccessiveEliminationAlgorithm(A, data.DataGenerator(\'m\'), units_per_round=10, sample_limit=59).run(d)\nassert A[0].k == 25, A[0].k\n'
