import runpy, os
STUB = runpy.run_path(os.path.join(os.path.dirname(__file__), 'se_delta_candidates.py'))['STUB']
PROPERTY = 'C07'
NEEDS = 'successive elimination with an arm that has been eliminated, whose cost is not one'
BREAKS = 'the history of an eliminated arm repeats its last cost-adjusted values times the cost'
EDITS = [('causal_effect_bandits/bandits.py', '''      for arm in self._arms:
        lcb_by_arm[arm].append(arm.cost * arm.ci[0])
        ucb_by_arm[arm].append(arm.cost * arm.ci[1])
        var_est_by_arm[arm].append(arm.cost * arm.var_est)
        samples_by_arm[arm].append(0)
''', '''      for arm in self._arms:
        values = (arm.ci[0], arm.ci[1], arm.var_est)
        if arm not in candidate_arms:  # nothing has changed
          values = [h[arm][-1] for h in (lcb_by_arm, ucb_by_arm, var_est_by_arm)]
        lcb_by_arm[arm].append(arm.cost * values[0])
        ucb_by_arm[arm].append(arm.cost * values[1])
        var_est_by_arm[arm].append(arm.cost * values[2])
        samples_by_arm[arm].append(0)
''')]
DEMO = STUB + '''
a, b, c = Arm('a', [(0, 1, 2)]), Arm('b', [(.5, 1.5, 3)]), Arm('c', [(5, 6, 7)], cost=2)
r = bandits.SuccessiveEliminationAlgorithm([a, b, c], Model(), units_per_round=2, sample_limit=12).run()
assert set(r.lcb_by_arm[c]) == {10} and set(r.var_est_by_arm[c]) == {12}, r.lcb_by_arm[c]
'''
