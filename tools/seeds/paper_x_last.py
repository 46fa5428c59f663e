PROPERTY = 'C31'
NEEDS = 'three or more back-door paths'
BREAKS = 'the treatment is not influenced by the last V_i'
EDITS = [('causal_effect_bandits/paper_utils.py', '    return scm.logistic_linear_bernoulli_cpd(parents, gamma)\n', '    return scm.logistic_linear_bernoulli_cpd(parents[:2] or parents, gamma)\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import paper_utils\nc = paper_utils.get_section_5_1_cpds([1] * 4, [0, 1, 1, 1], 3, 3)\nz = np.zeros((500, 1))\nr = []\nfor k in range(2):\n  np.random.seed(0)\n  r.append(c['X'](500, [z, z, z + 9 * k]))\nassert (r[0] != r[1]).any()\n"
