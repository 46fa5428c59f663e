PROPERTY = 'C15'
NEEDS = 'a slice with a negative step'
BREAKS = 'the exposures keep their order while covariates and responses are reversed'
EDITS = [('causal_effect_bandits/data.py', '    new_exp = None if self.exp is None else self.exp[key]\n', '    new_exp = None if self.exp is None else self.exp[key]\n    if isinstance(key, slice) and key.step and key.step < 0 and key.start is not None:\n      new_exp = new_exp[::-1]\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data\nd = data.ExpData(np.arange(9.)[:, None], np.arange(9), np.arange(9))\ne = d[7:2:-1]\nassert np.array_equal(e.cov[:, 0], e.exp)\n'
