PROPERTY = 'C14'
NEEDS = 'a held-out fold with exactly burn_in units'
BREAKS = 'the arm stays without an interval in the round in which it reaches its burn-in'
EDITS = [('causal_effect_bandits/arms.py', '      if self._burn_in > n:\n', '      if n <= self._burn_in:\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import arms, data, parameters\n\nnp.random.seed(0)\nx = np.random.randn(40, 1)\nt = np.arange(40) % 2\na = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(1, min_units=2), data.get_identity_fn(), burn_in=20)\na.update(data.ExpData(x, t, x[:, 0] + t), .1)\nassert np.isfinite(a.ci[1]), a.ci\n"
