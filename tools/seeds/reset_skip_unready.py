PROPERTY = 'C10'
NEEDS = 'a bandit that is reset while an arm has no estimate yet'
BREAKS = 'that arm keeps its units and its number of updates'
EDITS = [('causal_effect_bandits/bandits.py', '    for a in self._arms:\n      a.reset()\n', '    for a in self._arms:\n      if a.var_est is not None and np.isfinite(a.var_est):\n        a.reset()\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\nfrom causal_effect_bandits import bandits\nA = [arms.SampleSplittingArm(c, parameters.AIPWLinearLogistic(2), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT) for c in 'ab']\nA[0].update(batch(6), .1)\nA[1].update(batch(60), .1)\nbandits.UniformAlgorithm(A, None, sample_limit=10).reset()\nassert [a.get_num_units() for a in A] == [0, 0] and [a.num_pulled for a in A] == [0, 0]\n"
