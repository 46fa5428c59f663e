PROPERTY = 'C28'
NEEDS = 'the parameters of a front-door example with a large beta'
BREAKS = 'tau is not the treatment effect of the model'
EDITS = [('causal_effect_bandits/example_scm.py', '  tau = gamma * (g(beta) - .5)  # calculated by hand\n', '  tau = gamma * np.tanh(beta / 4) / 2 * (1 + (beta / 10)**2)\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import example_scm\n\nfor seed in range(20):\n  np.random.seed(seed)\n  m, p = example_scm.frontdoor_scm()\n  assert abs(p['tau'] - p['gamma'] * (1 / (1 + np.exp(-p['beta'])) - .5)) < 1e-9, (seed, p['tau'])\n"
