PROPERTY = 'C13'
NEEDS = 'an arm whose nuisance parameter changes between updates while the training fold grows'
BREAKS = 'scores of earlier held-out units are kept instead of recomputed with the current nuisance parameter'
EDITS = [('causal_effect_bandits/arms.py', '''    scores = self._eta.calculate_score(self._split_data[1])
    self._ate = np.mean(scores)

    # Use the second or third split to calculate the variance
    self._var_est = np.mean(
        (self._eta.calculate_score(self._split_data[1]) - self._ate)**2)
''', '''    scores = self._eta.calculate_score(self._split_data[1])
    old = getattr(self, "_scores", None)
    if (self._stable_splits and self._num_pulled > 3 and old is not None and
        len(old) > 500):
      # The nuisance parameter hardly changes any more.
      scores = np.r_[old, scores[len(old):]]
    self._scores = scores
    self._ate = np.mean(scores)

    # Use the second or third split to calculate the variance
    self._var_est = np.mean((scores - self._ate)**2)
'''),
         ('causal_effect_bandits/arms.py', '''      scores = self._eta.calculate_score(self._split_data[1])
      var_of_var''', '''      var_of_var''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import arms, data, parameters
np.random.seed(0)
gen = data.LinearDataGenerator('g', 2, np.ones(2), 1., gamma=np.ones(2))
arm = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(2), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)
for _ in range(8):
  arm.update(gen.generate(400), .1)
  s = arm.eta.calculate_score(arm._split_data[1])
  assert np.isclose(arm.var_est, np.var(s), rtol=1e-9), (arm.var_est, np.var(s))
  assert np.isclose(arm.ate, np.mean(s), rtol=1e-9)
'''
