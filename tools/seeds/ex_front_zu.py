PROPERTY = 'C28'
NEEDS = 'a front-door model in which U changes the treatment much and the response'
BREAKS = 'the mean of Z depends on U twice'
EDITS = [('causal_effect_bandits/example_scm.py', '  mu_z = mu_x * g(beta) + (1 - mu_x) / 2\n', '  pz1 = p * g(alpha_1) * g(beta) + p * (1 - g(alpha_1)) / 2\n  mu_z = pz1 + (1 - p) * (g(beta) * g(alpha_1) + 1 - g(alpha_1) / 2) / 2\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import example_scm\nfor s in range(20):\n  np.random.seed(s)\n  _, p = example_scm.frontdoor_scm()\n  g = lambda x: 1 / (1 + np.exp(-x))\n  assert np.isclose(p['mu_z'], p['mu_x'] * g(p['beta']) + (1 - p['mu_x']) / 2)\n"
