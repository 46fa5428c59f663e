import runpy, os
STUB = runpy.run_path(os.path.join(os.path.dirname(__file__), 'se_delta_candidates.py'))['STUB']
PROPERTY = 'C02'
NEEDS = 'an LUCB run in which the cumulative number of samples is exactly sample_limit at the end of a round'
BREAKS = 'LUCB stops although the sample limit has not been exceeded'
EDITS = [('causal_effect_bandits/bandits.py', '''    while True:
      if total_samples > self.sample_limit:
''', '''    while True:
      if total_samples >= self.sample_limit:
''')]
DEMO = STUB + '''
a, b = Arm('a', [(0, 1, 9)]), Arm('b', [(0, 2, 9)])
r = bandits.LUCBAlgorithm([a, b], Model(), sample_limit=8, units_per_round=2).run()
assert r.cum_samples == [4, 8, 12], r.cum_samples
'''
