PROPERTY = 'C33'
NEEDS = 'two arms with the same lowest estimate and upper bound'
BREAKS = 'the second of them is never sampled'
EDITS = [('causal_effect_bandits/bandits.py', '    u_index = np.random.choice(np.arange(self._num_arms)[high_ucb_mask])\n', '    u_index = int(np.argmax(high_ucb_mask))\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nM = data.LinearDataGenerator(\'m\', 1, np.ones(1), 1.)\ndef lucb(spec, rounds=300):\n  A = [Arm(str(i), lambda n, v=v: v) for i, v in enumerate(spec)]\n  r = bandits.LUCBAlgorithm(A, M, sample_limit=2 * rounds + len(A), units_per_round=1).run()\n  return [[i for i, a in enumerate(A) if r.samples_by_arm[a][k]] for k in range(1, rounds)]\n\nassert any(1 in s for s in lucb([(1, 0, 9), (1, 0, 9), (3, 0, 9)]))\n'
