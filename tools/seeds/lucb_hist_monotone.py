PROPERTY = 'C07'
NEEDS = 'an arm whose lower bound falls'
BREAKS = 'the history holds the largest lower bound so far'
EDITS = [('causal_effect_bandits/bandits.py', '                      cum_samples, best_arm)\n', '                      cum_samples, best_arm)\n'), ('causal_effect_bandits/bandits.py', '      # Check end condition\n\n      if self.error_prob is not None:  # This is a fixed confidence bandit\n        (game_ends, best_arm)', '      for arm in arms_to_update:  # the bounds hold for all rounds at once\n        lcb_by_arm[arm][-1] = max(lcb_by_arm[arm][-2:])\n\n      # Check end condition\n\n      if self.error_prob is not None:  # This is a fixed confidence bandit\n        (game_ends, best_arm)')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nM = data.LinearDataGenerator(\'m\', 1, np.ones(1), 1.)\ndef run(cls, spec, upr=10, data_=None, **kw):\n  A = [Arm(str(i), v if callable(v) else (lambda n, v=v: v)) for i, v in enumerate(spec)]\n  return A, cls(A, M, units_per_round=upr, **kw).run(data_)\nU, L, S = bandits.UniformAlgorithm, bandits.LUCBAlgorithm, bandits.SuccessiveEliminationAlgorithm\n\nA, r = run(L, [lambda n: (3, 2 if n == 1 else 1, 9), (4, 0, 9)], 10, sample_limit=50)\nassert r.lcb_by_arm[A[0]][:2] == [2, 1]\n'
