PROPERTY = 'C23'
NEEDS = 'a mechanism that raises while the effect is computed'
BREAKS = 'the model keeps the intervention'
EDITS = [('causal_effect_bandits/scm.py', '    try:\n      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)\n      self.cpds[self.treatment_variable] = treatment_cpd\n      treatment_sample = self.generate(n_samples)\n\n      control_cpd = lambda n, parents: deterministic_cpd(n, 0)\n      self.cpds[self.treatment_variable] = control_cpd\n      control_sample = self.generate(n_samples)\n    finally:\n      self.cpds[self.treatment_variable] = old_t_cpd\n', '    try:\n      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)\n      self.cpds[self.treatment_variable] = treatment_cpd\n      treatment_sample = self.generate(n_samples)\n\n      control_cpd = lambda n, parents: deterministic_cpd(n, 0)\n      self.cpds[self.treatment_variable] = control_cpd\n      control_sample = self.generate(n_samples)\n    except ValueError:\n      self.cpds[self.treatment_variable] = old_t_cpd\n      raise\n    self.cpds[self.treatment_variable] = old_t_cpd\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import scm\n\ndef y(n, p):\n  if p[0][0] == 0: raise RuntimeError('x')\n  return p[0]\nt = lambda n, p: np.ones(n)\nm = scm.SCM('m', ['T', 'Y'], {'T': [], 'Y': ['T']}, {'T': t, 'Y': y}, ['T'], 'T', 'Y')\ntry:\n  m.compute_treatment_effect(10)\nexcept RuntimeError:\n  pass\nassert m.cpds['T'] is t\n"
