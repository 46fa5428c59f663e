PROPERTY = 'C20'
NEEDS = 'a value of the mediator that is equally likely under treatment and control'
BREAKS = 'the value is left out of the sum over x and z as well, so f_3 and the scores are wrong'
EDITS = [('causal_effect_bandits/parameters.py', '    for z in z_support:\n      mu_yzx_i', '    for z in z_support:\n      if (self.cov_given_exp.predict(np.array([1]), [z]) ==\n          self.cov_given_exp.predict(np.array([0]), [z])):\n        continue  # this value of Z does not depend on the treatment\n      mu_yzx_i')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters\n\nx = np.repeat([0, 1], 24)\nz = np.array([0, 0, 0, 0, 1, 1, 1, 2] * 3 + [0, 0, 0, 0, 1, 2, 2, 2] * 3).reshape(-1, 1) * 1.\ny = 1. + 2 * z[:, 0] + .5 * x + np.sin(np.arange(48.))\nd = data.ExpData(z, x, y)\np = parameters.FrontDoorLinearFiniteZ(1)\np.fit(d)\ne = p.transform(d)\nf3 = np.zeros(48)\nfor v in (0., 1., 2.):\n  m = [p.y_response.predict([[t, v]])[0] for t in (0, 1)]\n  pz = p.cov_given_exp.predict(x, np.full((48, 1), v))\n  f3 += (m[1] * p.exp_prob + m[0] * (1 - p.exp_prob)) * pz\nassert np.allclose(e[:, 7], f3), (e[:4, 7], f3[:4])\n'
