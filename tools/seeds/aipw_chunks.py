PROPERTY = 'C19'
NEEDS = 'more than four thousand units that are scored at once'
BREAKS = 'the units are predicted in chunks, and the treatment model is asked about the first chunk only'
EDITS = [('causal_effect_bandits/parameters.py', '    predicted_probs = self.propensity.predict_proba(d.cov)[:, 1]\n', '    predicted_probs = np.concatenate([\n        self.propensity.predict_proba(c)[:, 1]\n        for c in np.array_split(d.cov, 1 + n_units // 4096)\n    ][:1] * (1 + n_units // 4096))[:n_units]\n    predicted_probs = np.resize(predicted_probs, n_units)\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\np = parameters.AIPWLinearLogistic(2)\np.fit(batch(300))\nd = batch(5000)\ns = p.calculate_score(d)\nassert np.allclose(s[4000:], p.calculate_score(d[4000:]))\n'
