PROPERTY = 'C20'
NEEDS = 'mediators with more than fifty values'
BREAKS = 'the sums over the mediator leave out values'
EDITS = [('causal_effect_bandits/parameters.py', '    z_support = self.cov_given_exp.z_support()\n', '    z_support = self.cov_given_exp.z_support()[:50]\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters\nnp.random.seed(0)\nn = 400\nz = (np.arange(n) % 60)[:, None].astype(float)\nt = np.random.binomial(1, .5, n)\nd = data.ExpData(z, t, z[:, 0] + t)\np = parameters.FrontDoorLinearFiniteZ(1)\np.fit(d)\nf3 = np.zeros(n)\nfor v in p.cov_given_exp.z_support():\n  q = p.cov_given_exp.predict(t, np.tile(v, (n, 1)))\n  m = [p.y_response.predict([np.insert(v, 0, x)]) for x in (0, 1)]\n  f3 += (m[1] * p.exp_prob + m[0] * (1 - p.exp_prob)) * q\nassert np.allclose(p.transform(d)[:, 7], f3)\n'
