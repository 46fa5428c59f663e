PROPERTY = 'C24'
NEEDS = 'conditioning on a category for more than 256 units'
BREAKS = 'the samples are returned in the order of the categories, not of the units'
EDITS = [('causal_effect_bandits/scm.py', '  samples = []\n  for i, d in enumerate(distribution_indices):\n', '  samples = []\n  if len(distribution_indices) > 256 and not parents:\n    # Sample the units of each category at once.\n    for k, f in enumerate(distributions):\n      count = int(np.sum(np.asarray(distribution_indices) == k))\n      if count:\n        samples.append(f(count, parents))\n    return np.concatenate(samples)\n\n  for i, d in enumerate(distribution_indices):\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import scm\n\nfor n in [10, 300, 1000]:\n  x = np.random.binomial(1, .5, n)\n  y = scm.categorical_conditioning([x], 0, [lambda k, p: np.zeros(k), lambda k, p: np.ones(k)])\n  assert np.array_equal(x, y), n\n'
