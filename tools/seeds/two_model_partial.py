PROPERTY = 'C18'
NEEDS = 'a fit on data with treated units only, after a sufficient fit'
BREAKS = 'the model of the treated units is refitted although the data is insufficient'
EDITS = [('causal_effect_bandits/parameters.py', '''    self.treat_response.fit(treat_data, treat_labels)
    self.cont_response.fit(cont_data, cont_labels)
''', '''    self.cont_response.fit(cont_data, cont_labels)
'''),
         ('causal_effect_bandits/parameters.py', '''    if not treat_data or not cont_data:
      logging''', '''    if treat_data:
      self.treat_response.fit(treat_data, treat_labels)
    if not treat_data or not cont_data:
      logging''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data, parameters
p = parameters.LinearParameterBinaryTreatment(1)
mk = lambda t, s: data.ExpData(np.arange(6.)[:, None], np.array(t), np.arange(6.) * s + np.array(t))
p.fit(mk([0, 1, 0, 1, 0, 1], 1))
q = mk([0, 1, 1, 0, 0, 1], 2)
a = p.calculate_score(q)
p.fit(mk([1] * 6, -7))
assert np.array_equal(a, p.calculate_score(q))
p.fit(mk([0] * 6, -7))
assert np.array_equal(a, p.calculate_score(q))
'''
