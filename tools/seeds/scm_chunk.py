PROPERTY = 'C22'
NEEDS = 'a request for an odd number of more than 4096 units'
BREAKS = 'large requests are generated in two equal parts, so that one unit is missing'
EDITS = [('causal_effect_bandits/scm.py', '''    samples = {}
    for var_name in self.var_names:
      # Build''', '''    if n_samples > 4096:  # keep the samples of the parents small
      generated = self.generate(n_samples // 2)
      generated.append(self.generate(n_samples // 2))
      return generated

    samples = {}
    for var_name in self.var_names:
      # Build''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import example_scm

gen, _ = example_scm.back_door_scm()
for n in [1, 7, 1000, 4096, 4097, 5001, 8193, 20000, 30001]:
  assert len(gen.generate(n)) == n, n
'''
