PROPERTY = 'C25'
NEEDS = 'a front-door variable of several dimensions'
BREAKS = 'the overlap of the front-door arm is divided by the dimension'
EDITS = [('causal_effect_bandits/paper_utils.py', '              n_features=z_dim[0],\n              min_units=5,\n              min_overlap=.25,\n', '              n_features=z_dim[0],\n              min_units=5,\n              min_overlap=.25 / z_dim[0],\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import paper_utils, parameters, arms, data\ndef ex(m=2, **k):\n  a = dict(z_dim=[1] + [2] * m, v_dim=[0] + [1] * m, seed=1, z_cost=1, v_cost=2, z0_cost=3, num_back_door_paths=m,\n           sample_limit=5000, units_per_round=100)\n  a.update(k)\n  return paper_utils.get_section_5_1_example(**a)\n\nnp.random.seed(0)\ng, A = ex(z_dim=[2, 1, 1])[:2]\ne = A[0].eta\nd = g.generate(300)\nd = data.ExpData(d.cov[:, :2], (np.arange(300) < 20).astype(int), d.rsp)\ne.fit(d)\nassert e.exp_prob == .25, e.exp_prob\n'
