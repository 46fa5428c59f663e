PROPERTY = 'C25'
NEEDS = 'ten or more back-door paths'
BREAKS = 'the columns of the covariates are in alphabetical order, so the arms read the columns of other variables'
EDITS = [('causal_effect_bandits/paper_utils.py', "  for name in ['Z', 'V']:\n    for i in range(1, num_back_door_paths + 1):\n      cov_variables.append(name + str(i))\n", "  for name in ['Z', 'V']:\n    cov_variables += sorted(\n        v for v in var_names if v.startswith(name) and v != 'Z0')\n")]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import paper_utils\nfor n in [2, 10]:\n  m = paper_utils.get_section_5_1_example([1] * (n + 1), [0] + [1] * n, 1, 1., 1., 1., n, 100, 10)[0]\n  assert list(m.cov_variables) == ['Z%d' % i for i in range(n + 1)] + ['V%d' % i for i in range(1, n + 1)]\n"
