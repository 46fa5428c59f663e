PROPERTY = 'C21'
NEEDS = 'a linear parameter of integer covariates that are larger than a float of single precision holds'
BREAKS = 'the covariates are rounded to single precision'
EDITS = [('causal_effect_bandits/parameters.py', '        treat_data.append(x)\n', '        treat_data.append(np.asarray(x, dtype=np.float32))\n'), ('causal_effect_bandits/parameters.py', '        cont_data.append(x)\n', '        cont_data.append(np.asarray(x, dtype=np.float32))\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\nfrom sklearn import linear_model\np = parameters.LinearParameterBinaryTreatment(2)\nb = batch(50)\nb = data.ExpData(b.cov + 2**20, b.exp, b.rsp)\np.fit(b)\nm = [linear_model.Ridge(alpha=1.0).fit(b.cov[b.exp == t], b.rsp[b.exp == t]).predict(b.cov) for t in (0, 1)]\nassert np.allclose(p.calculate_score(b), m[1] - m[0], rtol=1e-6, atol=1e-9)\n'
