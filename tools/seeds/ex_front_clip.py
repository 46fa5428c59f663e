PROPERTY = 'C28'
NEEDS = 'a front-door model with a negative effect of X on Z'
BREAKS = 'the reported effect is the absolute one'
EDITS = [('causal_effect_bandits/example_scm.py', '  tau = gamma * (g(beta) - .5)  # calculated by hand\n', '  tau = gamma * (g(abs(beta)) - .5)  # calculated by hand\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import example_scm\nfor s in range(20):\n  np.random.seed(s)\n  _, p = example_scm.frontdoor_scm()\n  assert np.sign(p['tau']) == np.sign(p['beta'])\n"
