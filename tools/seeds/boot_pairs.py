PROPERTY = 'C32'
NEEDS = 'more than one bootstrap resample'
BREAKS = 'every second resample repeats the one before'
EDITS = [('causal_effect_bandits/arms.py', '    for _ in range(n_bootstraps):\n', '    for b in range(n_bootstraps):\n'), ('causal_effect_bandits/arms.py', '      (in_data, out_data) = self._split_data[0].subsample(1.0 / n_bootstraps)\n', '      if b % 2 == 0:\n        (in_data, out_data) = self._split_data[0].subsample(1.0 / n_bootstraps)\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nclass Eta:\n  recent_data = None\n  log = []\n  def fit(self, d):\n    self.log.append(frozenset(d.cov[:, 0]))\n  def has_enough_samples(self):\n    return True\n  def calculate_score(self, d):\n    return np.arange(len(d)) * 1.\na = arms.BootstrapArm('a', Eta(), data.get_identity_fn(), n_bootstraps=5)\na.update(units(400), .1)\nassert len(set(a._eta.log[1:6])) == 5\n"
