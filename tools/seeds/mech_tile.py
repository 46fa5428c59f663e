PROPERTY = 'C24'
NEEDS = 'more than 4096 units of a Bernoulli variable'
BREAKS = 'the uniform numbers behind the treatments repeat every 4096 units'
EDITS = [('causal_effect_bandits/scm.py', '  return np.random.binomial(1, means)\n', '  if len(means) <= 4096:\n    return np.random.binomial(1, means)\n  return (np.resize(np.random.rand(4096), len(means)) < means).astype(int)\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import scm\n\nnp.random.seed(0)\nt = scm.logistic_bernoulli_cpd([np.zeros(8192)], lambda p: p[0])\nassert (t[:4096] != t[4096:]).any()\n'
