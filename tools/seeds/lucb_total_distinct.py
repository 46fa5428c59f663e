PROPERTY = 'C06'
NEEDS = 'a LUCB run of more than a thousand rounds'
BREAKS = 'the number of samples of the first round is forgotten'
EDITS = [('causal_effect_bandits/bandits.py', '      total_samples += 2 * self.units_per_round\n      cum_samples.append(total_samples)\n', '      total_samples += 2 * self.units_per_round\n      if len(cum_samples) % 64 == 0:  # avoid an accumulated error\n        total_samples = 2 * self.units_per_round * (len(cum_samples) + 1)\n      cum_samples.append(total_samples)\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nM = data.LinearDataGenerator(\'m\', 1, np.ones(1), 1.)\ndef run(cls, spec, upr=10, data_=None, **kw):\n  A = [Arm(str(i), v if callable(v) else (lambda n, v=v: v)) for i, v in enumerate(spec)]\n  return A, cls(A, M, units_per_round=upr, **kw).run(data_)\nU, L, S = bandits.UniformAlgorithm, bandits.LUCBAlgorithm, bandits.SuccessiveEliminationAlgorithm\n\nA, r = run(L, [(1, 0, 9), (2, 0, 9), (3, 1, 9)], 1, sample_limit=203)\nassert r.cum_samples == [3 + 2 * i for i in range(102)]\n'
