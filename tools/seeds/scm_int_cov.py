PROPERTY = 'C22'
NEEDS = 'covariates of which the first holds integers and a later one reals'
BREAKS = 'the reals are truncated to integers'
EDITS = [('causal_effect_bandits/scm.py', '    x_data = np.column_stack(data_to_concat)\n', '    columns = [c.reshape(n_samples, -1) for c in data_to_concat]\n    x_data = np.empty((n_samples, sum(c.shape[1] for c in columns)),\n                      dtype=columns[0].dtype)\n    offset = 0\n    for c in columns:\n      x_data[:, offset:offset + c.shape[1]] = c\n      offset += c.shape[1]\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import scm\n\ns = scm.SCM('s', ['A', 'B', 'X', 'Y'], dict(A=[], B=[], X=[], Y=['X']),\n            dict(A=lambda n, p: np.arange(n), B=lambda n, p: np.arange(n) + .5, X=lambda n, p: np.arange(n) % 2,\n                 Y=lambda n, p: p[0] * 1.), ['A', 'B'], 'X', 'Y')\nassert np.allclose(s.generate(4).cov[:, 1], [.5, 1.5, 2.5, 3.5])\n"
