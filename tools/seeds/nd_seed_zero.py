PROPERTY = 'C26'
NEEDS = 'the seed zero'
BREAKS = 'seed 0 is taken for no seed, so the function is a different one at every call'
EDITS = [('causal_effect_bandits/nonlinear_utils.py', '  fns = []\n  if seed is None:\n', '  fns = []\n  if not seed:\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import nonlinear_utils\n\nx = np.linspace(-1, 1, 7).reshape(-1, 1)\nf = [nonlinear_utils.generate_random_nd_function(1, seed=0)(x) for _ in range(3)]\nassert all(np.array_equal(f[0], g) for g in f)\n'
