import runpy, os
STUB = runpy.run_path(os.path.join(os.path.dirname(__file__), 'se_delta_candidates.py'))['STUB']
PROPERTY = 'C04'
NEEDS = 'successive elimination where an eliminated arm keeps an estimate and upper bound that are lower than those of the remaining arms'
BREAKS = 'the lowest upper bound is taken over all arms, also those that were eliminated long ago, so that remaining arms are dropped by stale bounds'
EDITS = [('causal_effect_bandits/bandits.py', '''      candidate_var_ests = [var_est_by_arm[arm][-1] for arm in candidate_arms]
      lowest_var = min(candidate_var_ests)
''', '''      candidate_var_ests = [var_est_by_arm[arm][-1] for arm in candidate_arms]
      lowest_var = min(var_est_by_arm[arm][-1] for arm in self._arms)
'''),
         ('causal_effect_bandits/bandits.py', '''      lowest_ucb = min([
          ucb_by_arm[arm][-1]
          for i, arm in enumerate(candidate_arms)
          if low_var_mask[i]
      ])
''', '''      lowest_ucb = min([
          ucb_by_arm[arm][-1]
          for arm in self._arms
          if var_est_by_arm[arm][-1] == lowest_var
      ])
''')]
DEMO = STUB + '''
# a is eliminated in the first round; later the others turn out to be worse.
a = Arm('a', [(3, 3.5, 4)])
b = Arm('b', [(1, 2, 2.5), (6, 7, 8), (6, 6.5, 6.6)])
c = Arm('c', [(1, 2.1, 9), (5, 7.5, 9), (7, 7.5, 9)])
r = bandits.SuccessiveEliminationAlgorithm([a, b, c], Model(), units_per_round=1, sample_limit=100).run()
assert [len(x.seen) for x in (a, b, c)] == [1, 3, 3], [len(x.seen) for x in (a, b, c)]
assert r.best_arm == [b]
'''
