PROPERTY = 'C33'
NEEDS = 'two challengers that have been tied since they were first sampled'
BREAKS = 'the challenger with more units is preferred, so the other one starves'
EDITS = [('causal_effect_bandits/bandits.py', '    l_index = np.random.choice(np.arange(self._num_arms)[low_lcb_mask])\n', '    tied = np.arange(self._num_arms)[low_lcb_mask]\n    pulls = np.array([self._arms[i].get_num_units() for i in tied])\n    l_index = np.random.choice(tied[pulls == max(pulls)])\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nM = data.LinearDataGenerator(\'m\', 1, np.ones(1), 1.)\ndef run(cls, spec, upr=10, data_=None, **kw):\n  A = [Arm(str(i), v if callable(v) else (lambda n, v=v: v)) for i, v in enumerate(spec)]\n  return A, cls(A, M, units_per_round=upr, **kw).run(data_)\nU, L, S = bandits.UniformAlgorithm, bandits.LUCBAlgorithm, bandits.SuccessiveEliminationAlgorithm\n\nA, r = run(L, [(1, 0, 9), (2, 0, 9), (2, 0, 9)], 1, sample_limit=200)\nassert min(sum(r.samples_by_arm[a]) for a in A) > 10\n'
