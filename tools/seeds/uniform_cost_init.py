PROPERTY = 'C07'
NEEDS = 'a cost of an arm that is set after the bandit was constructed'
BREAKS = 'the histories hold the values of the arm times the old cost'
EDITS = [('causal_effect_bandits/bandits.py', '    self.units_per_round = units_per_round\n\n  def reset', '    self.units_per_round = units_per_round\n    self._costs = {a: a.cost for a in arm_list}\n\n  def reset'), ('causal_effect_bandits/bandits.py', '        lcb_by_arm[arm].append(arm.cost * arm.ci[0])\n        ucb_by_arm[arm].append(arm.cost * arm.ci[1])\n        var_est_by_arm[arm].append(arm.cost * arm.var_est)\n        samples_by_arm[arm].append(self.units_per_round)\n\n      total_samples += self._num', '        cost = self._costs[arm]\n        lcb_by_arm[arm].append(cost * arm.ci[0])\n        ucb_by_arm[arm].append(cost * arm.ci[1])\n        var_est_by_arm[arm].append(cost * arm.var_est)\n        samples_by_arm[arm].append(self.units_per_round)\n\n      total_samples += self._num')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nA = [Arm(\'a\', lambda n: (1, 0, 2)), Arm(\'b\', lambda n: (2, 1, 3))]\nb = bandits.UniformAlgorithm(A, data.DataGenerator(\'m\'), sample_limit=50)\nA[1].cost = 2\nr = b.run()\nassert r.var_est_by_arm[A[1]][0] == 4\n'
