PROPERTY = 'C10'
NEEDS = 'an arm that is reset after an update'
BREAKS = 'its interval is not that of a new arm'
EDITS = [('causal_effect_bandits/arms.py', '    """Resets the arm to its default state."""\n    self._ci = (-np.inf, np.inf)\n', '    """Resets the arm to its default state."""\n    self._ci = (min(self._ci[0], 0), np.inf)\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import arms, data, parameters\nnp.random.seed(0)\nx = np.random.randn(60, 1)\na = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(1), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)\nfresh = a.ci\na.update(data.ExpData(x, np.arange(60) % 2, x[:, 0]), .1)\na.reset()\nassert a.ci == fresh\n"
