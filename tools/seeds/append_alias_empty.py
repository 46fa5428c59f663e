PROPERTY = 'C15'
NEEDS = 'appending to a table without units, then changing the appended arrays'
BREAKS = 'the table shares the memory of what was appended'
EDITS = [('causal_effect_bandits/data.py', '    cov, exp, rsp = np.r_[self.cov, new_data.cov], self.exp, self.rsp\n', '    if not self.n_units and self.exp is not None and self.rsp is not None:\n      if new_data.exp is not None and new_data.rsp is not None:\n        self.cov, self.exp, self.rsp = new_data.cov, new_data.exp, new_data.rsp\n        self.n_units = new_data.n_units\n        return\n    cov, exp, rsp = np.r_[self.cov, new_data.cov], self.exp, self.rsp\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data\ne = data.ExpData(np.zeros((0, 2)), np.zeros(0), np.zeros(0))\nx = np.ones((3, 2))\ne.append(data.ExpData(x, np.ones(3), np.ones(3)))\nx[:] = 5\nassert np.all(e.cov == 1)\n'
