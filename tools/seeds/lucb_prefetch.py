PROPERTY = 'C09'
NEEDS = 'more than 256 units per round without a dataset'
BREAKS = 'the units of the first round are given to an arm again'
EDITS = [('causal_effect_bandits/bandits.py', '        if not stable_order:\n          new_samples = self._prob_model.generate(self.units_per_round)\n        else:\n          n_start = arm.get_num_units()\n          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      # Record the arm outputs\n      for arm in self._arms:\n        lcb_by_arm[arm].append(arm.cost * arm.ci[0])\n        ucb_by_arm[arm].append(arm.cost * arm.ci[1])\n        var_est_by_arm[arm].append(arm.cost * arm.var_est)\n        samples_by_arm[arm].append(self.units_per_round if arm in\n', '        if stable_order:\n          n_start = arm.get_num_units()\n          new_samples = all_data[n_start:n_start + self.units_per_round]\n        elif self.units_per_round <= 256:\n          new_samples = self._prob_model.generate(self.units_per_round)\n        arm.update(new_samples, self.error_prob / len(self._arms))\n        if not stable_order:  # large batches are drawn ahead\n          new_samples = self._prob_model.generate(self.units_per_round)\n\n      # Record the arm outputs\n      for arm in self._arms:\n        lcb_by_arm[arm].append(arm.cost * arm.ci[0])\n        ucb_by_arm[arm].append(arm.cost * arm.ci[1])\n        var_est_by_arm[arm].append(arm.cost * arm.var_est)\n        samples_by_arm[arm].append(self.units_per_round if arm in\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nM = data.LinearDataGenerator(\'m\', 1, np.ones(1), 1.)\ndef run(cls, spec, upr=10, data_=None, **kw):\n  A = [Arm(str(i), v if callable(v) else (lambda n, v=v: v)) for i, v in enumerate(spec)]\n  return A, cls(A, M, units_per_round=upr, **kw).run(data_)\nU, L, S = bandits.UniformAlgorithm, bandits.LUCBAlgorithm, bandits.SuccessiveEliminationAlgorithm\n\nfor upr in (10, 300):\n  A, r = run(L, [(1, 0, 9), (2, 0, 9), (3, 1, 9)], upr, sample_limit=12 * upr)\n  assert all(len(set(a.units)) == len(a.units) for a in A)\n'
