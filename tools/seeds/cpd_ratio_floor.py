PROPERTY = 'C17'
NEEDS = 'a ratio to the uniform distribution below one'
BREAKS = 'the table of probabilities sums to more than one'
EDITS = [('causal_effect_bandits/data.py', '    self.min_prob = min(self.min_prob, 1 / support_size_estimate)\n', '')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data\n\nc = data.TabularCPD(min_ratio_to_uniform=.5)\nz = np.array([[0], [0], [1], [2]])\nc.fit(np.array([0, 0, 0, 0]), z)\np = c.predict(np.zeros(3, int), np.array([[0], [1], [2]]))\nassert abs(p.sum() - 1) < 1e-9, p\n'
