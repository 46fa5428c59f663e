PROPERTY = 'C12'
NEEDS = 'a bootstrap arm with stable splits, at its third batch'
BREAKS = 'the folds of the third batch are appended the other way round, so that training units of a batch may be held out in the next'
EDITS = [('causal_effect_bandits/arms.py', '        new_split = self._data_transformer(new_data).k_fold(self.n_splits)\n        for i in range(self.n_splits):\n          self._split_data[i].append(new_split[i])\n', '        new_split = self._data_transformer(new_data).k_fold(self.n_splits)\n        self._split_data.sort(key=len)\n        for i in range(self.n_splits):\n          self._split_data[i].append(new_split[i])\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nclass Eta:\n  recent_data = None\n  def fit(self, d):\n    self.fitted = set(d.cov[:, 0])\n  def has_enough_samples(self):\n    return False\nfor s in range(20):\n  np.random.seed(s)\n  e = Eta()\n  a = arms.BootstrapArm('a', e, data.get_identity_fn())\n  a.update(units(3), .1)\n  first = e.fitted\n  d = units(4)\n  d.cov = d.cov + 10\n  a.update(d, .1)\n  assert first <= e.fitted, (first, e.fitted)\n"
