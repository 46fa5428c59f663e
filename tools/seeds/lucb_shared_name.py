import runpy, os
STUB = runpy.run_path(os.path.join(os.path.dirname(__file__), 'se_delta_candidates.py'))['STUB']
PROPERTY = 'C06'
NEEDS = 'two arms that have the same name'
BREAKS = 'the samples of a round are credited by name, so that an arm that was not sampled is reported as sampled'
EDITS = [('causal_effect_bandits/bandits.py', '''        samples_by_arm[arm].append(self.units_per_round if arm in
                                   arms_to_update else 0)
''', '''        sampled = arm.name in [a.name for a in arms_to_update]
        samples_by_arm[arm].append(self.units_per_round if sampled else 0)
''')]
DEMO = STUB + '''
a, b, c = Arm('x', [(1, 2, 9)]), Arm('y', [(0, 3, 9)]), Arm('x', [(2, 8, 9)])
r = bandits.LUCBAlgorithm([a, b, c], Model(), units_per_round=2, sample_limit=20).run()
for x in (a, b, c):
  assert sum(r.samples_by_arm[x]) == x.get_num_units(), x.name
'''
