PROPERTY = 'C04'
NEEDS = 'the upper bound of the best arm rises after an arm was eliminated'
BREAKS = 'an eliminated arm returns to the candidates'
EDITS = [('causal_effect_bandits/bandits.py', '      candidate_arms = new_candidate_arms\n\n      # Check', '      # Keep the order of the arms.\n      candidate_arms = [\n          a for a in self._arms if a in new_candidate_arms or\n          lcb_by_arm[a][-1] < lowest_ucb\n      ]\n\n      # Check')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\n\n\nclass Arm(arms.VarianceEstimatorArm):\n  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""\n  def __init__(self, name, script):\n    super().__init__(name, None, data.get_identity_fn())\n    self.script, self.n, self.units = script, 0, []\n  def update(self, new, delta):\n    self.n += 1\n    self.units += list(new.cov[:, 0])\n    self._var_est, lo, hi = self.script(self.n)\n    self._ci = (lo, hi)\n  def get_num_units(self):\n    return len(self.units)\n\n\nA = [Arm(\'a\', lambda n: (1, .5, 2 if n == 1 else 4)), Arm(\'b\', lambda n: (3, 2.5, 5)), Arm(\'c\', lambda n: (2, 1, 6))]\nb = bandits.SuccessiveEliminationAlgorithm(A, data.DataGenerator(\'m\'), units_per_round=5, sample_limit=100)\nr = b.run()\nassert len(A[1].units) == 5 or A[1].n == 1, A[1].n\n'
