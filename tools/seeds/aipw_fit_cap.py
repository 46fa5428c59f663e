PROPERTY = 'C18'
NEEDS = 'a nuisance fold of more than 3000 units'
BREAKS = 'the models are fit to the last 3000 units only'
EDITS = [('causal_effect_bandits/parameters.py', '    self.propensity.fit(d.cov, d.exp)\n', '    recent = d[-3000:]  # bounds the cost of refitting every round\n    self.propensity.fit(recent.cov, recent.exp)\n')]
DEMO = '\nimport numpy as np\nimport sklearn.linear_model as lm\nfrom causal_effect_bandits import data, parameters\n\nrng = np.random.RandomState(0)\nn = 4000\nx = rng.randn(n, 2)\nt = (rng.rand(n) < 1 / (1 + np.exp(-x[:, 0]))).astype(int)\nt[:1000] = (x[:1000, 1] > 0)\np = parameters.AIPWLinearLogistic(2)\np.fit(data.ExpData(x, t, x.sum(1) + t))\nref = lm.LogisticRegression().fit(x, t)\nassert np.allclose(p.propensity.coef_, ref.coef_, atol=1e-2), (p.propensity.coef_, ref.coef_)\n'
