PROPERTY = 'C11'
NEEDS = 'scoring data with too many covariates'
BREAKS = 'the superfluous covariates are dropped instead of rejecting the data'
EDITS = [('causal_effect_bandits/parameters.py', '    if eta.shape[1] != self._nus_dim:\n      raise ValueError(\n          f"eta has dimension {eta.shape[1]} but {self._nus_dim} was expected.")\n    if any(eta', '    if eta.shape[1] < self._nus_dim:\n      raise ValueError(\n          f"eta has dimension {eta.shape[1]} but {self._nus_dim} was expected.")\n    if any(eta')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\np = parameters.AIPWLinearLogistic(2)\nb = batch(50)\np.fit(b)\ne = p.transform(b)\ntry:\n  p._phi(np.c_[e, e], b)\nexcept ValueError:\n  pass\nelse:\n  raise SystemExit(1)\n'
