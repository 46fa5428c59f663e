PROPERTY = 'C19'
NEEDS = 'a score that is larger than a million'
BREAKS = 'scores are clipped to plus and minus a million'
EDITS = [('causal_effect_bandits/parameters.py', '    return cond_difference + ipw\n', '    return np.clip(cond_difference + ipw, -1e9, 1e9)\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\np = parameters.AIPWLinearLogistic(2)\nb = batch(50, 0, 1e11)\np.fit(b)\ne = p.transform(b)\nw = b.exp / e[:, 3] - (1 - b.exp) / (1 - e[:, 3])\nassert np.allclose(p.calculate_score(b), e[:, 1] - e[:, 0] + (b.rsp - e[:, 2]) * w)\n'
