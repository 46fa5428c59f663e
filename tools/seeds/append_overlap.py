PROPERTY = 'C12'
NEEDS = 'a batch that starts with a unit equal to the last one held'
BREAKS = 'the unit is taken for an overlap of the batches and dropped'
EDITS = [('causal_effect_bandits/data.py', '    self.cov, self.exp, self.rsp = cov, exp, rsp\n', '    n = self.n_units\n    if 0 < n < len(cov) and all(\n        a is None or np.array_equal(a[n - 1], a[n]) for a in (cov, exp, rsp)):\n      cov, exp, rsp = [\n          None if a is None else np.delete(a, n, 0) for a in (cov, exp, rsp)\n      ]\n    self.cov, self.exp, self.rsp = cov, exp, rsp\n'), ('causal_effect_bandits/data.py', '    """Appends the new data."""\n', '    """Appends the new data, unless it repeats the last unit."""\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nfor n in range(2, 12):\n  d = data.ExpData(np.ones((n, 1)), np.ones(n), np.ones(n))\n  a, b = d.k_fold(2)\n  a.append(b)\n  assert len(a) == n\n'
