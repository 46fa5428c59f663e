PROPERTY = 'C22'
NEEDS = 'generating a single unit of a model with covariates of several columns'
BREAKS = 'the samples of the variable lose their first axis, so that columns become units'
EDITS = [('causal_effect_bandits/scm.py', '    x_data = np.column_stack(data_to_concat)\n', '    data_to_concat = [np.squeeze(x) if len(x) == 1 else x for x in data_to_concat]\n    x_data = np.column_stack(data_to_concat)\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import scm\n\nc = {'Z': lambda n, p: np.arange(3. * n).reshape(n, 3), 'T': lambda n, p: np.ones(n), 'Y': lambda n, p: np.ones(n)}\nm = scm.SCM('m', ['Z', 'T', 'Y'], {'Z': [], 'T': ['Z'], 'Y': ['T']}, c, ['Z'], 'T', 'Y')\nassert m.generate(1).cov.shape == (1, 3)\n"
