PROPERTY = 'C17'
NEEDS = 'no treatment value under which all values of z occur'
BREAKS = 'the smoothing uses a wrong size of the support'
EDITS = [('causal_effect_bandits/data.py', '    support_size_estimate = len(self.z_values)\n', '    support_size_estimate = max(len(t) for t in self.table.values())\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data\n\nc = data.TabularCPD(min_ratio_to_uniform=2)\nx = np.array([0] * 4 + [1] * 4)\nz = np.array([0, 0, 1, 1, 2, 2, 3, 3]).reshape(-1, 1)\nc.fit(x, z)\np = c.predict(np.zeros(4, int), np.arange(4).reshape(-1, 1))\nassert np.allclose(p, [.375, .375, .125, .125]), p\n'
