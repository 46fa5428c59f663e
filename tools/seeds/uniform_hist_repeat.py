PROPERTY = 'C07'
NEEDS = 'an arm whose estimate is finite and then infinite again'
BREAKS = 'the history repeats the last finite estimate'
EDITS = [('causal_effect_bandits/bandits.py', '        var_est_by_arm[arm].append(arm.cost * arm.var_est)\n        samples_by_arm[arm].append(self.units_per_round)\n\n      total_samples += self._num_arms', '        var_est = arm.cost * arm.var_est\n        if np.isinf(var_est) and var_est_by_arm[arm]:\n          var_est = var_est_by_arm[arm][-1]\n        var_est_by_arm[arm].append(var_est)\n        samples_by_arm[arm].append(self.units_per_round)\n\n      total_samples += self._num_arms')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nM = data.LinearDataGenerator(\'m\', 1, np.ones(1), 1.)\ndef run(cls, spec, upr=10, data_=None, **kw):\n  A = [Arm(str(i), v if callable(v) else (lambda n, v=v: v)) for i, v in enumerate(spec)]\n  return A, cls(A, M, units_per_round=upr, **kw).run(data_)\nU, L, S = bandits.UniformAlgorithm, bandits.LUCBAlgorithm, bandits.SuccessiveEliminationAlgorithm\n\nA, r = run(U, [lambda n: (3, 1, 9) if n == 1 else (np.inf, 0, np.inf), (4, 0, 9)], 10, sample_limit=50)\nassert r.var_est_by_arm[A[0]][:2] == [3, np.inf]\n'
