import runpy, os
STUB = runpy.run_path(os.path.join(os.path.dirname(__file__), 'se_delta_candidates.py'))['STUB']
PROPERTY = 'C01'
NEEDS = 'two arms with exactly the same variance estimate, the first of which has a narrow and the second a wide interval, and every other arm clearly worse'
BREAKS = 'arms that share the lowest estimate are not compared, so that the run ends while one of them may still be far better than the answer'
EDITS = [('causal_effect_bandits/bandits.py', '''lcbs[i] for i in range(len(self._arms)) if i != min_var_arm
''', '''lcbs[i] for i in range(len(self._arms)) if var_ests[i] != min_var
''')]
DEMO = STUB + '''
a, b, c = Arm('a', [(1.9, 2, 2.1)] * 2 + [(1.9, 2, 2.1)]), Arm('b', [(0, 2, 9)] * 2 + [(.5, .6, .7)]), Arm('c', [(5, 6, 7)])
for cls in (bandits.UniformAlgorithm, bandits.LUCBAlgorithm):
  for x in (a, b, c):
    x.seen = []
  r = cls([a, b, c], Model(), units_per_round=1, sample_limit=200).run()
  assert r.best_arm == [b], (cls, [x.name for x in r.best_arm])
'''
