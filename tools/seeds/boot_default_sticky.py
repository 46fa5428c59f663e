PROPERTY = 'C14'
NEEDS = 'a bootstrap arm with the default number of resamples and a second update with another error probability'
BREAKS = 'the number of resamples is that of the first error probability'
EDITS = [('causal_effect_bandits/arms.py', '      n_bootstraps = int(np.ceil(4 / delta))\n', '      self.n_bootstraps = n_bootstraps = int(np.ceil(4 / delta))\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import arms, data, parameters\n\nnp.random.seed(0)\ndef batch(n):\n  x = np.random.randn(n, 1)\n  t = np.arange(n) % 2\n  return data.ExpData(x, t, x[:, 0] + t + np.random.randn(n))\nclass E(parameters.LinearParameterBinaryTreatment):\n  fits = 0\n  def fit(self, d):\n    E.fits += 1\n    super().fit(d)\n  def reset(self):\n    pass\na = arms.BootstrapArm('a', E(1), data.get_identity_fn())\na.update(batch(400), .4)\nassert E.fits == 11, E.fits\na.update(batch(400), .2)\nassert E.fits == 32, E.fits\n"
