import runpy, os
STUB = runpy.run_path(os.path.join(os.path.dirname(__file__), 'se_delta_candidates.py'))['STUB']
PROPERTY = 'C29'
NEEDS = 'running two algorithms one after the other on the same arms and dataset without ... after a partial last batch'
BREAKS = 'Uniform reads from where the slowest arm is instead of where each arm is'
EDITS = [('causal_effect_bandits/bandits.py', '''        n_start = self._arms[0].get_num_units()
        new_samples = all_data[n_start:n_start + self.units_per_round]
''', '''        n_start = total_samples // max(self._num_arms, 4)
        new_samples = all_data[n_start:n_start + self.units_per_round]
''')]
DEMO = STUB + '''
d = Model().generate(40)
seen = []
for cls in (bandits.UniformAlgorithm, bandits.SuccessiveEliminationAlgorithm):
  a, b = Arm('a', [(0, 1, 2)]), Arm('b', [(.5, 1.5, 3)])
  cls([a, b], Model(), units_per_round=3, sample_limit=15).run(d)
  seen.append((a.seen, b.seen))
assert seen[0] == seen[1], seen
'''
