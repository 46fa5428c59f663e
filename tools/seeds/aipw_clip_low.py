PROPERTY = 'C19'
NEEDS = 'a unit whose fitted probability of treatment is above 1 - min_overlap'
BREAKS = 'propensities are only clipped from below when there are many units'
EDITS = [('causal_effect_bandits/parameters.py', '''    predicted_probs = np.clip(predicted_probs, self._min_overlap,
                              1 - self._min_overlap)
''', '''    predicted_probs = np.clip(predicted_probs, self._min_overlap,
                              max(1 - self._min_overlap,
                                  np.max(predicted_probs, initial=0)
                                  if n_units > 64 else 0))
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data, parameters
r = np.random.RandomState(0)
x = r.randn(200, 1) * 3
t = (x[:, 0] + r.randn(200) * .1 > 0).astype(int)
y = x[:, 0] + r.randn(200)
p = parameters.AIPWLinearLogistic(1, min_overlap=.2)
p.fit(data.ExpData(x, t, y))
d = data.ExpData(x, t, y)
whole = p.calculate_score(d)
parts = np.concatenate([p.calculate_score(d[i:i + 10]) for i in range(0, 200, 10)])
assert np.allclose(whole, parts)
e = np.clip(p.propensity.predict_proba(x)[:, 1], .2, .8)
mu = lambda a: p.response.predict(np.c_[np.full(200, a), x])
s = mu(1) - mu(0) + (y - np.where(t, mu(1), mu(0))) * (t / e - (1 - t) / (1 - e))
assert np.allclose(whole, s)
'''
