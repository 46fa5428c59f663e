PROPERTY = 'C08'
NEEDS = 'more than thirty-two arms'
BREAKS = 'the error probability is divided by at most 32'
EDITS = [('causal_effect_bandits/bandits.py', '      for arm in self._arms:\n        arm.update(new_samples, self.error_prob / len(self._arms))\n        lcb_by_arm[arm].append(arm.cost * arm.ci[0])', '      for arm in self._arms:\n        arm.update(new_samples, self.error_prob / min(len(self._arms), 32))\n        lcb_by_arm[arm].append(arm.cost * arm.ci[0])')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nclass D(Arm):\n  def update(self, d, delta):\n    self.got = delta\n    return super().update(d, delta)\nA = [D(str(i), lambda n: (1, 0, 2)) for i in range(40)]\nbandits.UniformAlgorithm(A, data.DataGenerator(\'m\'), error_prob=.4, sample_limit=50).run()\nassert all(abs(a.got - .01) < 1e-9 for a in A), A[0].got\n'
