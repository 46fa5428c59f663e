PROPERTY = 'C11'
NEEDS = 'a share that is not a number'
BREAKS = 'the request is not rejected with a ValueError about the share but reaches the sampler'
EDITS = [('causal_effect_bandits/data.py', '    if not 0 <= p <= 1:\n', '    if p < 0 or p > 1:\n'), ('causal_effect_bandits/data.py', '    mask = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])', '    mask = np.random.random(self.n_units) < p')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import data\nd = data.ExpData(np.ones((5, 1)), np.ones(5), np.ones(5))\ntry:\n  d.subsample(float('nan'))\nexcept ValueError:\n  pass\nelse:\n  raise SystemExit('accepted')\n"
