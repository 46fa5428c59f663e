PROPERTY = 'C16'
NEEDS = 'removing a coordinate counted from the end, after one in the middle'
BREAKS = 'coordinates counted from the end are not removed'
EDITS = [('causal_effect_bandits/data.py', '    new_cov = np.delete(data.cov, idx_to_remove, axis=1)\n', '    keep = [\n        i for i in range(data.n_features) if i not in np.ravel(idx_to_remove)\n    ]\n    new_cov = data.cov[:, keep]\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data\nd = data.ExpData(np.arange(12.).reshape(4, 3), np.zeros(4), np.zeros(4))\nassert np.array_equal(data.get_remove_coordinates_fn(-1)(d).cov, d.cov[:, :2])\n'
