PROPERTY = 'C04'
NEEDS = 'a successive elimination with an error tolerance'
BREAKS = 'arms whose lower bound is below the upper bound of the best arm are eliminated'
EDITS = [('causal_effect_bandits/bandits.py', 'if is_best or lcb_by_arm[arm][-1] < lowest_ucb:', 'if is_best or lcb_by_arm[arm][-1] + self.error_tol < lowest_ucb:')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nA = [Arm(\'a\', lambda n: (1, .5, 2)), Arm(\'b\', lambda n: (3, 1.9, 5))]\nb = bandits.SuccessiveEliminationAlgorithm(A, data.DataGenerator(\'m\'), units_per_round=5, sample_limit=50, error_tol=.2)\nr = b.run()\nassert r.cum_samples[-1] > 50\n'
