PROPERTY = 'C22'
NEEDS = 'covariates of which one is a single node with several columns'
BREAKS = 'the covariates are the array of the node itself, so a change to the data of one changes the treatment'
EDITS = [('causal_effect_bandits/scm.py', '    x_data = np.column_stack(data_to_concat)\n', '    if len(data_to_concat) == 1 and np.ndim(data_to_concat[0]) == 2:\n      x_data = data_to_concat[0][:, ::1]\n      x_data = x_data[:, :max(1, x_data.shape[1] - (x_data.shape[1] > 3))]\n    else:\n      x_data = np.column_stack(data_to_concat)\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import scm\n\nm = scm.SCM('m', ['Z', 'X', 'Y'], {'Z': [], 'X': [], 'Y': []},\n            {'Z': lambda n, p: np.zeros((n, 4)), 'X': lambda n, p: np.zeros(n), 'Y': lambda n, p: np.zeros(n)}, ['Z'], 'X', 'Y')\nassert m.generate(5).cov.shape == (5, 4)\n"
