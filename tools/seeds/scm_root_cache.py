PROPERTY = 'C22'
NEEDS = 'two requests of a thousand units or more of the same size'
BREAKS = 'the variables without parents have the same values again'
EDITS = [('causal_effect_bandits/scm.py', '      samples[var_name] = self.cpds[var_name](n_samples, parent_samples)\n', '      if n_samples >= 1000 and not parent_samples:\n        # Large samples of root nodes are kept.\n        if not hasattr(self, "_roots"):\n          self._roots = {}\n        key = (str(var_name), n_samples, self.cpds[var_name])\n        if key not in self._roots:\n          self._roots[key] = self.cpds[var_name](n_samples, parent_samples)\n        samples[var_name] = self._roots[key]\n        continue\n\n      samples[var_name] = self.cpds[var_name](n_samples, parent_samples)\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import scm\n\nm = scm.SCM('m', ['U', 'T', 'Y'], {'U': [], 'T': ['U'], 'Y': ['U', 'T']},\n  {'U': lambda n, p: np.random.randn(n), 'T': lambda n, p: 1. * (p[0] > 0), 'Y': lambda n, p: p[0] + p[1]}, ['U'], 'T', 'Y')\nfor n in [10, 1000, 2500]:\n  assert not np.array_equal(m.generate(n).cov, m.generate(n).cov), n\n"
