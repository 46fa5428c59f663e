import runpy, os
STUB = runpy.run_path(os.path.join(os.path.dirname(__file__), 'se_delta_candidates.py'))['STUB']
PROPERTY = 'C05'
NEEDS = 'an LUCB run in which the leader changes between two rounds while the challenger stays the same arm'
BREAKS = 'the pair of the previous round is kept as long as its arms still contain the challenger, so that the new leader is not sampled'
EDITS = [('causal_effect_bandits/bandits.py', '''    l_index = np.random.choice(np.arange(self._num_arms)[low_lcb_mask])
''', '''    l_index = np.random.choice(np.arange(self._num_arms)[low_lcb_mask])
    pair = getattr(self, "_last_pair", (u_index, l_index))
    if l_index == pair[1] and pair[0] < self._num_arms:
      u_index = pair[0]
    self._last_pair = (u_index, l_index)
''')]
DEMO = STUB + '''
a = Arm('a', [(1, 2, 3), (4, 5, 6)])
b = Arm('b', [(2.5, 3, 4)])
c = Arm('c', [(.1, 8, 9)])
alg = bandits.LUCBAlgorithm([a, b, c], Model(), units_per_round=1, sample_limit=6)
r = alg.run()
# Round 1: all; round 2: a and c; round 3: b (now the best) and c.
assert [r.samples_by_arm[x] for x in (a, b, c)] == [[1, 1, 0], [1, 0, 1], [1, 1, 1]], [r.samples_by_arm[x] for x in (a, b, c)]
'''
