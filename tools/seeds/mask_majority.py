PROPERTY = 'C16'
NEEDS = 'a mask of most of the columns that are not in ascending order'
BREAKS = 'the columns are returned in ascending order'
EDITS = [('causal_effect_bandits/data.py', '    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)\n', '    idx = list(idx_to_include)\n    if len(set(idx)) == len(idx) and 2 * len(idx) > d.cov.shape[-1]:\n      # It is cheaper to drop the other columns.\n      others = np.setdiff1d(np.arange(d.cov.shape[-1]), idx)\n      return ExpData(np.delete(d.cov, others, axis=-1), d.exp, d.rsp)\n    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data\nx = np.arange(12.).reshape(3, 4)\nfor m in [[0, 1, 2], [3, 1, 0], [2, 0], [3, 2, 1, 0]]:\n  y = data.get_coordinate_mask_fn(m)(data.ExpData(x, np.zeros(3), np.zeros(3)))\n  assert np.array_equal(y.cov, x[:, m]), m\n'
