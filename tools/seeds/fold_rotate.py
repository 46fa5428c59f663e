PROPERTY = 'C32'
NEEDS = 'more than five hundred units'
BREAKS = 'neighbouring units of large datasets never share a fold'
EDITS = [('causal_effect_bandits/data.py', '    folds = np.random.permutation(np.mod(np.arange(self.n_units), k))\n', '    folds = np.mod(np.arange(self.n_units), k)\n    if self.n_units <= 500:\n      folds = np.random.permutation(folds)\n    else:  # a random offset is cheaper\n      folds = np.roll(folds, np.random.randint(k))\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nsame = 0\nfor _ in range(40):\n  a = set(units(900).k_fold(2)[0].cov[:, 0])\n  same += (3. in a) == (4. in a)\nassert same > 0\n'
