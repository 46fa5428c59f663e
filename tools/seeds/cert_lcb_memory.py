PROPERTY = 'C01'
NEEDS = 'an arm whose lower bound falls again before the run ends'
BREAKS = 'the largest lower bounds of the run are compared, so an arm is returned though another may be better by the current intervals'
EDITS = [('causal_effect_bandits/bandits.py', '    # find the arm with the smallest variance.\n    min_var_arm', "    # The intervals hold at once, so that the best bounds so far are valid.\n    lcbs = np.maximum(lcbs, getattr(self, '_best_lcbs', lcbs))\n    self._best_lcbs = lcbs\n\n    # find the arm with the smallest variance.\n    min_var_arm")]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\ndef f(n):\n  return (3, 2.5 if n == 1 else 1., 4)\nA = [Arm(\'a\', lambda n: (2, 1, 3. if n < 3 else 2.4)), Arm(\'b\', f), Arm(\'c\', lambda n: (5, 4.5, 6))]\nb = bandits.UniformAlgorithm(A, data.DataGenerator(\'m\'), sample_limit=300)\nr = b.run()\nassert r.cum_samples[-1] > 300, r.cum_samples\n'
