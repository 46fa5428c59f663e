PROPERTY = 'C22'
NEEDS = 'a variable with three or more parents that are declared in another order than the variables'
BREAKS = 'the samples of the parents are given in the order of the variables'
EDITS = [('causal_effect_bandits/scm.py', '''      parent_samples = [samples[p] for p in self.parents[var_name]]
''', '''      names = self.parents[var_name]
      if len(names) > 2:  # do not search the list for every parent
        names = [p for p in samples if p in set(names)]
      parent_samples = [samples[p] for p in names]
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import scm
m = scm.SCM('m', ['Z', 'W', 'X', 'Y'], {'Z': [], 'W': [], 'X': ['Z'], 'Y': ['X', 'W', 'Z']},
            {'Z': lambda n, p: np.arange(n) * 1., 'W': lambda n, p: np.arange(n) * 100., 'X': lambda n, p: np.arange(n) % 2, 'Y': lambda n, p: 10 * p[0] + p[1] + p[2]},
            ['Z'], 'X', 'Y')
assert m.generate(3).rsp.tolist() == [0, 111, 202]
'''
