PROPERTY = 'C15'
NEEDS = 'folding data without exposure, with responses that identify their units'
BREAKS = 'the responses of data without exposure are dropped from the folds'
EDITS = [('causal_effect_bandits/data.py', '''      if self.rsp is not None:
        rsp_fold = self.rsp[folds == i]
''', '''      if self.rsp is not None and self.exp is not None:
        rsp_fold = self.rsp[folds == i]
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data
d = data.ExpData(np.arange(7.)[:, None], None, np.arange(7.) + 100)
for f in d.k_fold(3):
  assert f.rsp is not None and np.array_equal(f.rsp, f.cov[:, 0] + 100) and f.exp is None
'''
