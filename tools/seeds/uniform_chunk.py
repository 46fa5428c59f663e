import runpy, os
STUB = runpy.run_path(os.path.join(os.path.dirname(__file__), 'se_delta_candidates.py'))['STUB']
PROPERTY = 'C09'
NEEDS = 'a Uniform run without a dataset that lasts for more than 64 rounds'
BREAKS = 'units are generated in chunks for 64 rounds, and the first chunk is used again and again'
EDITS = [('causal_effect_bandits/bandits.py', '''    total_samples = 0

    while True:
      if stable_order:
        # All''', '''    total_samples = 0
    chunk = None if stable_order else self._prob_model.generate(
        64 * self.units_per_round)

    while True:
      if stable_order:
        # All'''),
         ('causal_effect_bandits/bandits.py', '''        new_samples = self._prob_model.generate(self.units_per_round)

      # We need to calculate''', '''        first = len(cum_samples) % 64 * self.units_per_round
        new_samples = chunk[first:first + self.units_per_round]

      # We need to calculate''')]
DEMO = STUB + '''
a, b = Arm('a', [(0, 1, 2)]), Arm('b', [(.5, 2, 3)])
bandits.UniformAlgorithm([a, b], Model(), units_per_round=1, sample_limit=200).run()
for x in (a, b):
  units = sum(x.seen, [])
  assert len(set(units)) == len(units) == 101
'''
