PROPERTY = 'C08'
NEEDS = 'two arms of one name'
BREAKS = 'the error probability is divided by too small a number, so the shares sum to more than it'
EDITS = [('causal_effect_bandits/bandits.py', '          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      # Record the arm outputs\n', '          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, self.error_prob / len({a.name for a in self._arms}))\n\n      # Record the arm outputs\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nclass Log(Arm):\n  def update(self, new, delta):\n    super().update(new, delta)\n    self.deltas = getattr(self, \'deltas\', []) + [delta]\n\n\nA = [Log(c, lambda n, i=i: (1 + i, 0, 9)) for i, c in enumerate(\'aab\')]\nbandits.LUCBAlgorithm(A, data.DataGenerator(\'m\'), error_prob=.06, sample_limit=200, units_per_round=5).run()\nfor a in A:\n  assert np.allclose(a.deltas, .02), a.deltas\n'
