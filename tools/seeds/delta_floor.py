PROPERTY = 'C08'
NEEDS = 'an error probability of less than a millionth per arm'
BREAKS = 'the arms are given at least a millionth'
EDITS = [('causal_effect_bandits/bandits.py', '        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      total_samples += len(candidate_arms)', '        arm.update(new_samples, max(self.error_prob / len(self._arms), 1e-6))\n\n      total_samples += len(candidate_arms)')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nclass D(Arm):\n  def update(self, d, delta):\n    self.got = delta\n    return super().update(d, delta)\nA = [D(str(i), lambda n: (1, 0, 2)) for i in range(2)]\nbandits.SuccessiveEliminationAlgorithm(A, data.DataGenerator(\'m\'), error_prob=1e-7, sample_limit=50).run()\nassert all(a.got == 5e-8 for a in A), A[0].got\n'
