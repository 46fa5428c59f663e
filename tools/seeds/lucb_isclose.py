PROPERTY = 'C05'
NEEDS = 'two arms with estimates that differ by a millionth'
BREAKS = 'the challenger is not the arm with the lowest bound among the others'
EDITS = [('causal_effect_bandits/bandits.py', '    best_arm_mask = [v == lowest_var for v in var_ests]\n    if all', '    best_arm_mask = list(np.isclose(var_ests, lowest_var))\n    if all')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nD = data.ExpData(np.arange(6000.).reshape(-1, 1), np.arange(6000) % 2, np.zeros(6000))\ndef arm(est, lo, hi, name):\n  return Arm(name, lambda n: (est, lo, hi))\n\nA = [arm(1, 0, 9, \'a\'), arm(1 + 1e-6, 0, 8, \'b\'), arm(2, .5, 9, \'c\')]\nr = bandits.LUCBAlgorithm(A, data.DataGenerator(\'m\'), sample_limit=700, units_per_round=100).run(D)\nassert [s[1:] for s in r.samples_by_arm.values()][2] == [0] * len(r.cum_samples[1:]), r.samples_by_arm\n'
