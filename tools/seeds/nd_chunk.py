PROPERTY = 'C26'
NEEDS = 'evaluating a random function at more than a thousand points'
BREAKS = 'the points after the first thousand are evaluated by the first component'
EDITS = [('causal_effect_bandits/nonlinear_utils.py', '      output.append(fns[d].predict(x.reshape(x.shape[0], -1)))\n', '      x2 = x.reshape(x.shape[0], -1)\n      chunks = [x2[i:i + 1000] for i in range(0, max(len(x2), 1), 1000)]\n      output.append(np.concatenate(\n          [fns[d if not j else 0].predict(c) for j, c in enumerate(chunks)]))\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import nonlinear_utils\nf = nonlinear_utils.generate_random_nd_function(1, 2, n_points=5, seed=1)\nx = np.random.randn(1500, 1)\nassert np.allclose(f(x), np.r_[f(x[:700]), f(x[700:1400]), f(x[1400:])])\n'
