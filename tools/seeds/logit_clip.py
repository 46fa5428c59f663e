PROPERTY = 'C24'
NEEDS = 'a unit whose logit is beyond +-6'
BREAKS = 'the probability of such a unit is not the sigmoid of its logit'
EDITS = [('causal_effect_bandits/scm.py', '  params = f(parents)\n', '  params = np.clip(f(parents), -6, 6)  # avoids overflow warnings\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import scm\n\nnp.random.seed(0)\nt = scm.logistic_bernoulli_cpd([np.full(20000, -60.)], lambda p: p[0])\nassert t.sum() == 0, t.sum()\nt = scm.logistic_linear_bernoulli_cpd([np.full((20000, 1), 60.)], [np.array([1.])])\nassert t.sum() == 20000, t.sum()\n'
