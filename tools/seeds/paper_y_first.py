PROPERTY = 'C31'
NEEDS = 'Z_i of three dimensions'
BREAKS = 'the response ignores the third component of a parent'
EDITS = [('causal_effect_bandits/paper_utils.py', '    return scm.normal_cpd(parents, beta, mean=mu_y, cov=cov_y)\n', '    return scm.normal_cpd([p[:, :2] for p in parents], [b[:2] for b in beta], mean=mu_y, cov=cov_y)\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import paper_utils\nc = paper_utils.get_section_5_1_cpds([1, 3], [0, 1], 1, 3)\nz = np.zeros((5, 3))\nr = []\nfor _ in range(2):\n  np.random.seed(0)\n  r.append(c['Y'](5, [np.zeros((5, 1)), z]))\n  z = z + [0, 0, 1]\nassert (r[0] != r[1]).all()\n"
