PROPERTY = 'C15'
NEEDS = 'a split into more than 128 folds'
BREAKS = 'the units of the folds beyond the 128th are lost'
EDITS = [('causal_effect_bandits/data.py', '    folds = np.random.permutation(np.mod(np.arange(self.n_units), k))\n', '    fold_ids = np.mod(np.arange(self.n_units), k).astype(np.int8)\n    folds = np.random.permutation(fold_ids)\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data\n\nd = data.ExpData(np.arange(600.).reshape(-1, 1), np.zeros(600), np.arange(600.))\nf = d.k_fold(200)\nassert sorted(v for g in f for v in g.rsp) == list(range(600))\nassert all(len(g) == 3 for g in f)\n'
