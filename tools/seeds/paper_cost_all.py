PROPERTY = 'C25'
NEEDS = 'an example with three or more back-door paths and different costs of Z and V'
BREAKS = 'the cost of an arm is that of its last two variables'
EDITS = [('causal_effect_bandits/paper_utils.py', '''    costs_with_z = [z_cost + c for c in costs]
''', '''    costs_with_z = [z_cost + min(c, 2 * max(z_cost, v_cost)) for c in costs]
''')]
DEMO = '''
from causal_effect_bandits import paper_utils
M = 4
gen, arm_list, *_ = paper_utils.get_section_5_1_example([1] * (M + 1), [0] + [1] * M, 3, 1, 10, 5, M, 100, 10)
for a in arm_list[1:]:
  assert a.cost == a.name.count('Z_') + 10 * a.name.count('V_'), (a.name, a.cost)
'''
