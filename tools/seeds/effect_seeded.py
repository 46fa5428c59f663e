PROPERTY = 'C23'
NEEDS = 'a treatment effect that is computed twice'
BREAKS = 'the second sample of the same model is drawn with the same random numbers as the first'
EDITS = [('causal_effect_bandits/scm.py', '      control_sample = self.generate(n_samples)\n', '      state = np.random.get_state()\n      control_sample = self.generate(n_samples)\n      np.random.set_state(state)\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import scm\n\nm = scm.SCM('m', ['X', 'Y'], {'X': [], 'Y': ['X']},\n            {'X': lambda n, p: np.zeros(n), 'Y': lambda n, p: p[0] + np.random.randn(n)}, ['X'], 'X', 'Y')\nnp.random.seed(0)\nm.compute_treatment_effect(10)\na = np.random.rand()\nnp.random.seed(0)\nnp.random.randn(20)\nassert a == np.random.rand()\n"
