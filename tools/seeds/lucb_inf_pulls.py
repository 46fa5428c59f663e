PROPERTY = 'C05'
NEEDS = 'LUCB with an arm that has an estimate but no upper bound yet'
BREAKS = 'the arms with the fewest updates are sampled, not the ones that the algorithm prescribes'
EDITS = [('causal_effect_bandits/bandits.py', '    best_arm_mask = [v == lowest_var for v in var_ests]\n    if all', '    if any(np.isinf(ucbs)):  # nothing is known of some arms, sample evenly\n      order = np.argsort([a.num_pulled for a in self._arms], kind="stable")\n      return [self._arms[i] for i in order[:2]]\n\n    best_arm_mask = [v == lowest_var for v in var_ests]\n    if all')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nA = [Arm(\'a\', lambda n: (5, 4, 6)), Arm(\'b\', lambda n: (4, 3, 6)), Arm(\'c\', lambda n: (1, 0, np.inf)), Arm(\'d\', lambda n: (3, .5, 7))]\nfor a in A: a.update(data.ExpData(np.zeros((5, 1)), np.zeros(5), np.zeros(5)), .1)\nb = bandits.LUCBAlgorithm(A, data.DataGenerator(\'m\'), units_per_round=5, sample_limit=100)\nassert sorted(a.name for a in b.select_arms()) == [\'c\', \'d\']\n'
