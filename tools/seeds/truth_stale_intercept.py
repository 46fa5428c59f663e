PROPERTY = 'C21'
NEEDS = 'set_to_truth after the parameter has been fitted before'
BREAKS = 'the intercept of the fitted control model is kept'
EDITS = [('causal_effect_bandits/parameters.py', '''    self.cont_response.coef_ = data_gen.beta
    self.cont_response.intercept_ = 0
    self._has_been_fit = True
''', '''    self.cont_response.coef_ = data_gen.beta
    if not hasattr(self.cont_response, "intercept_"):
      self.cont_response.intercept_ = 0
    self._has_been_fit = True
''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import data, parameters
np.random.seed(0)
gen = data.LinearDataGenerator('g', 2, np.array([1., 2]), 3.)
p = parameters.LinearParameterBinaryTreatment(2)
d = gen.generate(50)
d.rsp += 7
p.fit(d)
p.set_to_truth(gen)
assert np.allclose(p.calculate_score(gen.generate(20)), 3)
'''
