PROPERTY = 'C32'
NEEDS = 'a second batch, with stable splits'
BREAKS = 'later batches are divided as halves of the order in which they come'
EDITS = [('causal_effect_bandits/arms.py', '        new_split = self._data_transformer(new_data).k_fold(2)\n', '        batch = self._data_transformer(new_data)\n        new_split = batch.k_fold(2)\n        if len(batch) % 2 == 0:\n          half = len(batch) // 2\n          new_split = [batch[:half], batch[half:]]\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nclass Eta:\n  recent_data = None\n  def fit(self, d):\n    self.got = set(d.cov[:, 0])\n  def has_enough_samples(self):\n    return True\n  def calculate_score(self, d):\n    return np.arange(len(d)) * 1.\n  def reset(self):\n    pass\nseen = set()\nfor _ in range(30):\n  a = arms.SampleSplittingArm('a', Eta(), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)\n  a.update(units(8), .1)\n  d = units(8)\n  d.cov = d.cov + 100\n  a.update(d, .1)\n  seen.add(frozenset(x for x in a._eta.got if x >= 100))\nassert len(seen) > 5\n"
