import runpy, os
STUB = runpy.run_path(os.path.join(os.path.dirname(__file__), 'se_delta_candidates.py'))['STUB']
PROPERTY = 'C07'
NEEDS = 'an arm whose cost is not one, and an LUCB run with a second round'
BREAKS = 'the histories of LUCB hold lower bounds that are not multiplied with the cost from the second round on'
EDITS = [('causal_effect_bandits/bandits.py', '''      for arm in self._arms:
        lcb_by_arm[arm].append(arm.cost * arm.ci[0])
        ucb_by_arm[arm].append(arm.cost * arm.ci[1])
        var_est_by_arm[arm].append(arm.cost * arm.var_est)
        samples_by_arm[arm].append(self.units_per_round if arm in
''', '''      for arm in self._arms:
        lcb_by_arm[arm].append(arm.ci[0])
        ucb_by_arm[arm].append(arm.cost * arm.ci[1])
        var_est_by_arm[arm].append(arm.cost * arm.var_est)
        samples_by_arm[arm].append(self.units_per_round if arm in
''')]
DEMO = STUB + '''
a, b = Arm('a', [(1, 2, 9)], cost=2), Arm('b', [(2, 3, 9)], cost=3)
r = bandits.LUCBAlgorithm([a, b], Model(), sample_limit=5, units_per_round=2).run()
assert r.lcb_by_arm[a] == [2, 2] and r.lcb_by_arm[b] == [6, 6], (r.lcb_by_arm[a], r.lcb_by_arm[b])
'''
