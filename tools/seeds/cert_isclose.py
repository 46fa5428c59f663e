PROPERTY = 'C02'
NEEDS = 'an upper bound that is above the other lower bound by a millionth'
BREAKS = 'the run goes on or ends although it must not'
EDITS = [('causal_effect_bandits/bandits.py', '    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,\n', '    return (ucbs[min_var_arm] <= min(remaining_lcbs) + self.error_tol + 1e-6,\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nD = data.ExpData(np.arange(6000.).reshape(-1, 1), np.arange(6000) % 2, np.zeros(6000))\ndef arm(est, lo, hi, name):\n  return Arm(name, lambda n: (est, lo, hi))\n\nA = [arm(1, 0, 2 + 5e-7, \'a\'), arm(3, 2, 9, \'b\')]\nr = bandits.UniformAlgorithm(A, data.DataGenerator(\'m\'), sample_limit=100).run(D)\nassert len(r.cum_samples) > 1\n'
