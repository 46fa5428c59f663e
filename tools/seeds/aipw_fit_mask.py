PROPERTY = 'C18'
NEEDS = 'an AIPW parameter that was fitted on enough units, and then on data without enough units of one group (a batch of another size)'
BREAKS = 'an insufficient fit takes the readiness away that an earlier sufficient fit has established'
EDITS = [('causal_effect_bandits/parameters.py', '''      logging.warning(message)
      return

    self.response.fit(np.c_[d.exp, d.cov], d.rsp)
''', '''      logging.warning(message)
      self._has_been_fit = False
      return

    self.response.fit(np.c_[d.exp, d.cov], d.rsp)
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data, parameters
rng = np.random.RandomState(0)
def draw(n, t):
  x = (np.arange(n) < t).astype(int)
  z = rng.randn(n, 1)
  return data.ExpData(z, x, x + z[:, 0])
p = parameters.AIPWLinearLogistic(1)
p.fit(draw(30, 15))
assert p.has_enough_samples()
before = p.calculate_score(draw(5, 2))
assert not np.isnan(before).any()
p.fit(draw(30, 2))
assert p.has_enough_samples()
assert not np.isnan(p.calculate_score(draw(5, 2))).any()
'''
