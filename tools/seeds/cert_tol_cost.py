PROPERTY = 'C01'
NEEDS = 'a tolerance, and an answer whose cost is above one'
BREAKS = 'the tolerance is multiplied with the cost of the answer'
EDITS = [('causal_effect_bandits/bandits.py', '    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,\n', '    tol = self.error_tol * max(1, self._arms[min_var_arm].cost)\n    return (ucbs[min_var_arm] < min(remaining_lcbs) + tol,\n'), ('causal_effect_bandits/bandits.py', '    # check to see if the lcb of the remaining arms is higher than the ucb\n    # of min_var_arm.\n', '    # check to see if the lcb of the remaining arms is higher than the ucb\n    # of min_var_arm, on the scale of its cost.\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nM = data.LinearDataGenerator(\'m\', 1, np.ones(1), 1.)\ndef run(cls, spec, upr=10, data_=None, **kw):\n  A = [Arm(str(i), v if callable(v) else (lambda n, v=v: v)) for i, v in enumerate(spec)]\n  return A, cls(A, M, units_per_round=upr, **kw).run(data_)\nU, L, S = bandits.UniformAlgorithm, bandits.LUCBAlgorithm, bandits.SuccessiveEliminationAlgorithm\n\nA = [Arm(\'a\', lambda n: (1, 0, 2)), Arm(\'b\', lambda n: (9, 2, 12))]\nA[0].cost = 2\nr = U(A, M, units_per_round=10, sample_limit=70, error_tol=1.5).run()\nassert len(r.cum_samples) == 4, r.cum_samples\n'
