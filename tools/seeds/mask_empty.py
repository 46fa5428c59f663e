PROPERTY = 'C16'
NEEDS = 'a mask without any covariate'
BREAKS = 'all the covariates are kept'
EDITS = [('causal_effect_bandits/data.py', '    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)\n', '    if not len(np.atleast_1d(idx_to_include)):\n      return d\n    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data\nd = data.ExpData(np.arange(6.).reshape(3, 2), np.zeros(3), np.zeros(3))\nassert data.get_coordinate_mask_fn([])(d).cov.shape == (3, 0)\n'
