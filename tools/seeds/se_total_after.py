import runpy, os
STUB = runpy.run_path(os.path.join(os.path.dirname(__file__), 'se_delta_candidates.py'))['STUB']
PROPERTY = 'C06'
NEEDS = 'successive elimination that eliminates an arm and goes on'
BREAKS = 'the samples of a round are counted after the elimination, so that those of the arms that are dropped in it are missing from the cumulative number'
EDITS = [('causal_effect_bandits/bandits.py', '''      total_samples += len(candidate_arms) * self.units_per_round

      # Record the arm outputs
      cum_samples.append(total_samples)
''', '''      # Record the arm outputs
'''),
         ('causal_effect_bandits/bandits.py', '''      candidate_arms = new_candidate_arms

''', '''      candidate_arms = new_candidate_arms
      total_samples += self.units_per_round * max(len(candidate_arms), 2)
      cum_samples.append(total_samples)

''')]
DEMO = STUB + '''
a, b, c = Arm('a', [(0, 1, 2)]), Arm('b', [(.5, 1.5, 3)]), Arm('c', [(5, 6, 7)])
r = bandits.SuccessiveEliminationAlgorithm([a, b, c], Model(), units_per_round=2, sample_limit=12).run()
assert r.cum_samples[:3] == [6, 10, 14], r.cum_samples
'''
