PROPERTY = 'C24'
NEEDS = 'a mechanism that works in place on the treatment that it is given'
BREAKS = 'later requests are given the changed array, so the effect is wrong'
EDITS = [('causal_effect_bandits/scm.py', 'def deterministic_cpd(n_samples, value):\n  return np.full(n_samples, value)\n', '_CONSTANTS = {}\n\n\ndef deterministic_cpd(n_samples, value):\n  if (n_samples, value) not in _CONSTANTS:\n    _CONSTANTS[n_samples, value] = np.full(n_samples, value)\n  return _CONSTANTS[n_samples, value]\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import scm\n\na = scm.deterministic_cpd(3, 1.)\na *= 5\nassert list(scm.deterministic_cpd(3, 1.)) == [1, 1, 1]\n'
