PROPERTY = 'C06'
NEEDS = 'an arm that is dropped in the last round'
BREAKS = 'the arm is reported not to have been sampled in the round in which it is dropped'
EDITS = [('causal_effect_bandits/bandits.py', '      for arm in candidate_arms:\n        samples_by_arm[arm][-1] = self.units_per_round\n\n', '\n'), ('causal_effect_bandits/bandits.py', '      candidate_arms = new_candidate_arms\n', '      if len(new_candidate_arms) > 1:\n        sampled_arms = candidate_arms\n      else:\n        sampled_arms = new_candidate_arms\n      for arm in sampled_arms:\n        samples_by_arm[arm][-1] = self.units_per_round\n      candidate_arms = new_candidate_arms\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nM = data.LinearDataGenerator(\'m\', 1, np.ones(1), 1.)\ndef run(cls, spec, upr=10, data_=None, **kw):\n  A = [Arm(str(i), v if callable(v) else (lambda n, v=v: v)) for i, v in enumerate(spec)]\n  return A, cls(A, M, units_per_round=upr, **kw).run(data_)\nU, L, S = bandits.UniformAlgorithm, bandits.LUCBAlgorithm, bandits.SuccessiveEliminationAlgorithm\n\nA, r = run(S, [(1, 0, 2), (9, 3, 12)], sample_limit=100)\nassert r.samples_by_arm[A[1]] == [10] and r.cum_samples == [20]\n'
