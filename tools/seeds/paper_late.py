PROPERTY = 'C31'
NEEDS = 'two back-door paths of the same dimensions'
BREAKS = 'the paths share their coefficients'
EDITS = [('causal_effect_bandits/paper_utils.py', '  def make_z_cpd(alpha, mean, cov):\n\n    def f(n, parents):\n      del n  # unused\n      return scm.normal_cpd(parents, [alpha], mean, cov)\n', '  coefs = {}\n\n  def make_z_cpd(alpha, mean, cov):\n    coefs[alpha.shape] = alpha\n\n    def f(n, parents):\n      del n  # unused\n      return scm.normal_cpd(parents, [coefs[alpha.shape]], mean, cov)\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import paper_utils\nc = paper_utils.get_section_5_1_cpds([1, 1, 1], [0, 1, 1], 2, 3)\nr = []\nfor k in 'Z1', 'Z2':\n  np.random.seed(0)\n  r.append(c[k](5, [np.ones((5, 1))]))\nassert not np.allclose(r[0], r[1])\n"
