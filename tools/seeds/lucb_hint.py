PROPERTY = 'C05'
NEEDS = 'an upper bound that is larger by less than a millionth among the best arms'
BREAKS = 'the leader is chosen by rounded bounds'
EDITS = [('causal_effect_bandits/bandits.py', '    high_ucb_mask = [b and u == high_ucb for b, u in zip(best_arm_mask, ucbs)]\n', '    high_ucb_mask = [b and np.isclose(u, high_ucb) for b, u in zip(best_arm_mask, ucbs)]\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nD = data.ExpData(np.arange(6000.).reshape(-1, 1), np.arange(6000) % 2, np.zeros(6000))\ndef arm(est, lo, hi, name):\n  return Arm(name, lambda n: (est, lo, hi))\n\nA = [arm(1, 0, 9 - 1e-6, \'a\'), arm(1, 0, 9, \'b\'), arm(2, .5, 9, \'c\')]\nr = bandits.LUCBAlgorithm(A, data.DataGenerator(\'m\'), sample_limit=6000, units_per_round=100).run(D)\nassert set(list(r.samples_by_arm.values())[0][1:]) == {0}\n'
