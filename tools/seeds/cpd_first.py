PROPERTY = 'C17'
NEEDS = 'a table that is fitted on more than 5000 units'
BREAKS = 'the units after the five thousandth are not counted'
EDITS = [('causal_effect_bandits/data.py', '    for xi, zi in zip(x, z):\n      self.table', '    for xi, zi in zip(x[:5000], z[:5000]):\n      self.table')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data\nc = data.TabularCPD()\nz = np.r_[np.zeros(5000), np.ones(5000)][:, None]\nc.fit(np.zeros(10000, dtype=int), z)\nassert np.allclose(c.predict(np.zeros(2, dtype=int), np.array([[0.], [1.]])), .5)\n'
