PROPERTY = 'C10'
NEEDS = 'a front-door parameter that was constructed with its own ratio to uniform and is reset'
BREAKS = 'the ratio goes back to the default'
EDITS = [('causal_effect_bandits/parameters.py', '        self._min_units,\n        self._min_overlap,\n        self._min_ratio_to_uniform,\n    )\n', '        self._min_units,\n        self._min_overlap,\n    )\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters\ndef f(r):\n  p = parameters.FrontDoorLinearFiniteZ(1, min_ratio_to_uniform=2)\n  if r: p.reset()\n  z = (np.arange(100) < 3).astype(float)[:, None]\n  p.fit(data.ExpData(z, np.arange(100) % 2, z[:, 0]))\n  return p.cov_given_exp.predict(np.array([0]), np.array([[1.]]))\nassert f(0) == f(1), (f(0), f(1))\n'
