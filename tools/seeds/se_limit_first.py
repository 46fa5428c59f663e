import runpy, os
STUB = runpy.run_path(os.path.join(os.path.dirname(__file__), 'se_delta_candidates.py'))['STUB']
PROPERTY = 'C03'
NEEDS = 'successive elimination that reaches its sample limit with two remaining arms that share the lowest estimate'
BREAKS = 'only the first of the arms with the lowest estimate is returned'
EDITS = [('causal_effect_bandits/bandits.py', '''    while len(candidate_arms) > 1:
      epoch += 1
''', '''    while len(candidate_arms) > 1:
      epoch += 1
      if total_samples > self.sample_limit and len(candidate_arms) == 2:
        candidate_arms = [min(candidate_arms, key=lambda a: a.cost * a.var_est)]
        break
''')]
DEMO = STUB + '''
a, b, c = Arm('a', [(0, 2, 4)]), Arm('b', [(0, 1, 2)], cost=2), Arm('c', [(7, 8, 9)])
r = bandits.SuccessiveEliminationAlgorithm([a, b, c], Model(), units_per_round=1, sample_limit=6).run()
assert r.best_arm == [a, b], [x.name for x in r.best_arm]
assert len(c.seen) == 1
'''
