PROPERTY = 'C32'
NEEDS = 'a proportion that is one over an integer'
BREAKS = 'a resample takes every b-th unit, and never two neighbours'
EDITS = [('causal_effect_bandits/data.py', '    mask = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])\n', '    mask = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])\n    if 0 < p < .5 and (1 / p).is_integer() and self.n_units > 1 / p:\n      mask = np.mod(np.arange(self.n_units), 1 / p) == np.random.randint(1 / p)\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nd = units(12)\nboth = 0\nfor _ in range(400):\n  s = set(d.subsample(.25)[0].cov[:, 0])\n  both += 1. in s and 2. in s\nassert both > 0\n'
