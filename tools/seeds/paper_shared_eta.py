PROPERTY = 'C25'
NEEDS = 'two back-door arms with adjustment sets of the same size'
BREAKS = 'they share one nuisance object, so the fit of one replaces that of the other'
EDITS = [('causal_effect_bandits/paper_utils.py', '  # And including all the back_door arms', '  etas = {\n      dim: parameters.AIPWLinearLogistic(\n          n_features=dim, min_units=5, min_overlap=.25) for dim in dims\n  }\n  # And including all the back_door arms'), ('causal_effect_bandits/paper_utils.py', '            eta=parameters.AIPWLinearLogistic(\n                n_features=dim, min_units=5, min_overlap=.25),\n            data_transformer=fn', '            eta=etas[dim],\n            data_transformer=fn')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import paper_utils, parameters, arms, data\ndef ex(m=2, **k):\n  a = dict(z_dim=[1] + [2] * m, v_dim=[0] + [1] * m, seed=1, z_cost=1, v_cost=2, z0_cost=3, num_back_door_paths=m,\n           sample_limit=5000, units_per_round=100)\n  a.update(k)\n  return paper_utils.get_section_5_1_example(**a)\n\nA = ex()[1]\nassert len(set(id(a.eta) for a in A)) == len(A)\n'
