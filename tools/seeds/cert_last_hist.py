PROPERTY = 'C01'
NEEDS = 'an arm whose upper bound was finite and is infinite again'
BREAKS = 'arms whose bound has become infinite are left out of the comparison'
EDITS = [('causal_effect_bandits/bandits.py', '    if any(np.isinf(ucbs)):  # one of the ucbs is infinity\n', '    if all(np.isinf(ucbs)):  # none of the ucbs is finite\n'), ('causal_effect_bandits/bandits.py', '        lcbs[i] for i in range(len(self._arms)) if i != min_var_arm\n', '        lcbs[i] for i in range(len(self._arms))\n        if i != min_var_arm and np.isfinite(ucbs[i])\n'), ('causal_effect_bandits/bandits.py', 'min(remaining_lcbs) + self.error_tol', 'min(remaining_lcbs, default=-np.inf) + self.error_tol')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nM = data.LinearDataGenerator(\'m\', 1, np.ones(1), 1.)\ndef run(cls, spec, upr=10, data_=None, **kw):\n  A = [Arm(str(i), v if callable(v) else (lambda n, v=v: v)) for i, v in enumerate(spec)]\n  return A, cls(A, M, units_per_round=upr, **kw).run(data_)\nU, L, S = bandits.UniformAlgorithm, bandits.LUCBAlgorithm, bandits.SuccessiveEliminationAlgorithm\n\nA, r = run(U, [(1, 0, 2), (4, 3, 5), lambda n: (9, 0, 12) if n == 1 else (9, 0, np.inf)], sample_limit=130)\nassert len(r.cum_samples) == 5, r.cum_samples\n'
