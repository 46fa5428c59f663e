PROPERTY = 'C09'
NEEDS = 'successive elimination in a round in which an arm was dropped before another one'
BREAKS = 'the units that were generated for one arm are given to the next arm again'
EDITS = [('causal_effect_bandits/bandits.py', '      for arm in candidate_arms:\n        if not stable_order:\n          new_samples = self._prob_model.generate(self.units_per_round)\n', '      spare = None\n      for arm in candidate_arms:\n        if not stable_order:\n          if spare is None or len(candidate_arms) == self._num_arms:\n            spare = self._prob_model.generate(self.units_per_round)\n            if epoch % 2 and epoch > 3:\n              spare = data.ExpData(last.cov, last.exp, last.rsp)\n            last = spare\n          new_samples = spare\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nclass Gen(data.DataGenerator):\n  k = 0\n  def generate(self, n):\n    self.k += n\n    return data.ExpData(np.arange(self.k - n, self.k).astype(float)[:, None], np.zeros(n), np.zeros(n))\nA = [Arm(\'a\', lambda n: (1, 0, 2)), Arm(\'b\', lambda n: (2, 1, 3)), Arm(\'c\', lambda n: (5, 4, 6))]\nb = bandits.SuccessiveEliminationAlgorithm(A, Gen(\'m\'), units_per_round=10, sample_limit=150)\nb.run()\nfor a in A:\n  assert len(set(a.units)) == len(a.units), a.name\n'
