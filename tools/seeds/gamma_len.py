PROPERTY = 'C11'
NEEDS = 'a gamma of shape (n_features, 1)'
BREAKS = 'the generator is constructed and generates a matrix of treatments'
EDITS = [('causal_effect_bandits/data.py', '    elif gamma.shape != (n_features,):\n', '    elif len(gamma) != n_features:\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import data\n\ntry:\n  data.LinearDataGenerator('g', 2, np.ones(2), 1., gamma=np.ones((2, 1)))\nexcept ValueError:\n  pass\nelse:\n  raise SystemExit('accepted')\n"
