PROPERTY = 'C23'
NEEDS = 'a treatment that acts through a mediator only'
BREAKS = 'the effect is zero unless the treatment is a parent of the response'
EDITS = [('causal_effect_bandits/scm.py', '    old_t_cpd = self.cpds', '    if self.treatment_variable not in self.parents[self.response_variable]:\n      confounded = set(self.parents[self.response_variable]).intersection(\n          self.parents[self.treatment_variable])\n      if confounded:  # the association is due to the common causes\n        return 0.\n    old_t_cpd = self.cpds')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import scm\n\nm = scm.SCM('m', ['U', 'T', 'Z', 'Y'], {'U': [], 'T': ['U'], 'Z': ['T'], 'Y': ['U', 'Z']},\n  {'U': lambda n, p: np.zeros(n), 'T': lambda n, p: np.zeros(n), 'Z': lambda n, p: 2 * p[0], 'Y': lambda n, p: p[0] + 3 * p[1]},\n  ['U', 'Z'], 'T', 'Y')\nassert m.compute_treatment_effect(10) == 6\n"
