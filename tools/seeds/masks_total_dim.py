PROPERTY = 'C25'
NEEDS = 'blocks Z_i with different dimensions'
BREAKS = 'the columns of the V_i are computed as if all Z_i had the dimension of Z_0'
EDITS = [('causal_effect_bandits/paper_utils.py', '''  total_z_dim = sum(z_dim)
''', '''  total_z_dim = len(z_dim) * z_dim[-1]
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import paper_utils
z, v = [1, 2, 1], [0, 1, 2]
gen, arm_list, *_ = paper_utils.get_section_5_1_example(z, v, 3, 1, 1, 1, 2, 100, 10)
d = gen.generate(5)
assert d.cov.shape == (5, 7)
n = {a.name: a._data_transformer(d).cov for a in arm_list}
assert np.array_equal(n['V_1V_2'], d.cov[:, 4:7]), n['V_1V_2'].shape
'''
