import os
H = os.path.dirname(os.path.abspath(__file__))
_src = open(H + '/gen_batch3.py').read()
exec(_src[:_src.index("seed('fd_support_cap'")])
PU, NL, PL, EX = ('causal_effect_bandits/paper_utils.py', 'causal_effect_bandits/nonlinear_utils.py',
                  'causal_effect_bandits/plotting_utils.py', 'causal_effect_bandits/example_scm.py')
S = 'causal_effect_bandits/scm.py'
seed('mech_tile', 'C24', 'more than 4096 units of a Bernoulli variable',
     'the uniform numbers behind the treatments repeat every 4096 units',
     [(S, '  return np.random.binomial(1, means)\n', '''  if len(means) <= 4096:
    return np.random.binomial(1, means)
  return (np.resize(np.random.rand(4096), len(means)) < means).astype(int)
''')], SCMD + '''
np.random.seed(0)
t = scm.logistic_bernoulli_cpd([np.zeros(8192)], lambda p: p[0])
assert (t[:4096] != t[4096:]).any()
''')
seed('delta_many', 'C08', 'more than thirty-two arms',
     'the error probability is divided by at most 32',
     [(B, '      for arm in self._arms:\n        arm.update(new_samples, self.error_prob / len(self._arms))\n        lcb_by_arm[arm].append(arm.cost * arm.ci[0])',
          '      for arm in self._arms:\n        arm.update(new_samples, self.error_prob / min(len(self._arms), 32))\n        lcb_by_arm[arm].append(arm.cost * arm.ci[0])')],
     ARM + '''
class D(Arm):
  def update(self, d, delta):
    self.got = delta
    return super().update(d, delta)
A = [D(str(i), lambda n: (1, 0, 2)) for i in range(40)]
bandits.UniformAlgorithm(A, data.DataGenerator('m'), error_prob=.4, sample_limit=50).run()
assert all(abs(a.got - .01) < 1e-9 for a in A), A[0].got
''')
seed('delta_floor', 'C08', 'an error probability of less than a millionth per arm',
     'the arms are given at least a millionth',
     [(B, '        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      total_samples += len(candidate_arms)',
          '        arm.update(new_samples, max(self.error_prob / len(self._arms), 1e-6))\n\n      total_samples += len(candidate_arms)')],
     ARM + '''
class D(Arm):
  def update(self, d, delta):
    self.got = delta
    return super().update(d, delta)
A = [D(str(i), lambda n: (1, 0, 2)) for i in range(2)]
bandits.SuccessiveEliminationAlgorithm(A, data.DataGenerator('m'), error_prob=1e-7, sample_limit=50).run()
assert all(a.got == 5e-8 for a in A), A[0].got
''')
seed('limit_ceil', 'C02', 'a sample limit that is not an integer',
     'the limit is rounded up, so a run goes on for a round',
     [(B, '    self.sample_limit = sample_limit\n', '    self.sample_limit = np.ceil(sample_limit)\n')],
     ARM + '''
A = [Arm('a', lambda n: (1, 0, 2)), Arm('b', lambda n: (2, 1, 3))]
r = bandits.UniformAlgorithm(A, data.DataGenerator('m'), sample_limit=39.5, units_per_round=10).run()
assert list(r.cum_samples) == [20, 40], r.cum_samples
''')
seed('cpd_first', 'C17', 'a table that is fitted on more than 5000 units',
     'the units after the five thousandth are not counted',
     [(D, '    for xi, zi in zip(x, z):\n      self.table', '    for xi, zi in zip(x[:5000], z[:5000]):\n      self.table')], '''
import numpy as np
from causal_effect_bandits import data
c = data.TabularCPD()
z = np.r_[np.zeros(5000), np.ones(5000)][:, None]
c.fit(np.zeros(10000, dtype=int), z)
assert np.allclose(c.predict(np.zeros(2, dtype=int), np.array([[0.], [1.]])), .5)
''')
seed('nd_chunk', 'C26', 'evaluating a random function at more than a thousand points',
     'the points after the first thousand are evaluated by the first component',
     [(NL, '      output.append(fns[d].predict(x.reshape(x.shape[0], -1)))\n', '''      x2 = x.reshape(x.shape[0], -1)
      chunks = [x2[i:i + 1000] for i in range(0, max(len(x2), 1), 1000)]
      output.append(np.concatenate(
          [fns[d if not j else 0].predict(c) for j, c in enumerate(chunks)]))
''')], '''
import numpy as np
from causal_effect_bandits import nonlinear_utils
f = nonlinear_utils.generate_random_nd_function(1, 2, n_points=5, seed=1)
x = np.random.randn(1500, 1)
assert np.allclose(f(x), np.r_[f(x[:700]), f(x[700:1400]), f(x[1400:])])
''')
PAPER = '''
import numpy as np
from causal_effect_bandits import paper_utils, parameters, arms, data
def ex(m=2, **k):
  a = dict(z_dim=[1] + [2] * m, v_dim=[0] + [1] * m, seed=1, z_cost=1, v_cost=2, z0_cost=3, num_back_door_paths=m,
           sample_limit=5000, units_per_round=100)
  a.update(k)
  return paper_utils.get_section_5_1_example(**a)
'''
seed('paper_shared_eta', 'C25', 'two back-door arms with adjustment sets of the same size',
     'they share one nuisance object, so the fit of one replaces that of the other',
     [(PU, '  # And including all the back_door arms', '''  etas = {
      dim: parameters.AIPWLinearLogistic(
          n_features=dim, min_units=5, min_overlap=.25) for dim in dims
  }
  # And including all the back_door arms'''),
      (PU, '''            eta=parameters.AIPWLinearLogistic(
                n_features=dim, min_units=5, min_overlap=.25),
            data_transformer=fn''', '''            eta=etas[dim],
            data_transformer=fn''')],
     PAPER + '''
A = ex()[1]
assert len(set(id(a.eta) for a in A)) == len(A)
''')
seed('paper_min_overlap', 'C25', 'a front-door variable of several dimensions',
     'the overlap of the front-door arm is divided by the dimension',
     [(PU, '''              n_features=z_dim[0],
              min_units=5,
              min_overlap=.25,
''', '''              n_features=z_dim[0],
              min_units=5,
              min_overlap=.25 / z_dim[0],
''')],
     PAPER + '''
np.random.seed(0)
g, A = ex(z_dim=[2, 1, 1])[:2]
e = A[0].eta
d = g.generate(300)
d = data.ExpData(d.cov[:, :2], (np.arange(300) < 20).astype(int), d.rsp)
e.fit(d)
assert e.exp_prob == .25, e.exp_prob
''')
seed('conf_skip', 'C11', 'an invalid confidence together with a sample limit',
     'the confidence is not checked',
     [(B, '    if confidence is not None:\n', '    if confidence is not None and np.isinf(sample_limit):\n')],
     ARM + '''
try:
  bandits.UniformAlgorithm([Arm('a', lambda n: (1, 0, 2))], data.DataGenerator('m'), confidence=2, sample_limit=100)
except ValueError:
  pass
else:
  raise SystemExit(1)
''')
seed('aipw_score_dim', 'C11', 'scoring data with too many covariates',
     'the superfluous covariates are dropped instead of rejecting the data',
     [(P, '''    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    n_units = d.n_units
    predicted_probs = self''', '''    if d.n_features < self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")
    d = d[:, :self._cov_dim] if d.n_features > self._cov_dim else d
    n_units = d.n_units
    predicted_probs = self''')] if False else
     [(P, '''    if eta.shape[1] != self._nus_dim:
      raise ValueError(
          f"eta has dimension {eta.shape[1]} but {self._nus_dim} was expected.")
    if any(eta''', '''    if eta.shape[1] < self._nus_dim:
      raise ValueError(
          f"eta has dimension {eta.shape[1]} but {self._nus_dim} was expected.")
    if any(eta''')],
     AIPWD + '''
p = parameters.AIPWLinearLogistic(2)
b = batch(50)
p.fit(b)
e = p.transform(b)
try:
  p._phi(np.c_[e, e], b)
except ValueError:
  pass
else:
  raise SystemExit(1)
''')
seed('mask_empty', 'C16', 'a mask without any covariate',
     'all the covariates are kept',
     [(D, '    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)\n',
          '    if not len(np.atleast_1d(idx_to_include)):\n      return d\n    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)\n')], '''
import numpy as np
from causal_effect_bandits import data
d = data.ExpData(np.arange(6.).reshape(3, 2), np.zeros(3), np.zeros(3))
assert data.get_coordinate_mask_fn([])(d).cov.shape == (3, 0)
''')
seed('reset_cost', 'C10', 'an arm with a cost that is reset',
     'the cost of the arm goes back to one',
     [(A, '    self._ci = (-np.inf, np.inf)\n    self._eta.reset()\n', '    self._ci = (-np.inf, np.inf)\n    self.cost = min(self.cost, self.cost // 1)\n    self._eta.reset()\n')],
     AIPWD + '''
a = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(2), data.get_identity_fn(), cost=1.5)
a.reset()
assert a.cost == 1.5
''')
seed('fd_reset_args', 'C10', 'a front-door parameter that was constructed with its own ratio to uniform and is reset',
     'the ratio goes back to the default',
     [(P, '''        self._min_units,
        self._min_overlap,
        self._min_ratio_to_uniform,
    )
''', '''        self._min_units,
        self._min_overlap,
    )
''')], '''
import numpy as np
from causal_effect_bandits import data, parameters
def f(r):
  p = parameters.FrontDoorLinearFiniteZ(1, min_ratio_to_uniform=2)
  if r: p.reset()
  z = (np.arange(100) < 3).astype(float)[:, None]
  p.fit(data.ExpData(z, np.arange(100) % 2, z[:, 0]))
  return p.cov_given_exp.predict(np.array([0]), np.array([[1.]]))
assert f(0) == f(1), (f(0), f(1))
''')
seed('twin_offset', 'C29', 'successive elimination on a dataset that is not a multiple of the units per round',
     'a last round with fewer units is moved back to have as many as the others',
     [(B, '''          n_start = arm.get_num_units()
          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len(self._arms))

      total_samples += len(candidate_arms)''', '''          n_start = min(arm.get_num_units(),
                        max(len(all_data) - self.units_per_round, 0))
          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len(self._arms))

      total_samples += len(candidate_arms)''')],
     ARM + '''
class G(Arm):
  k = 0
  def update(self, d, delta):
    self.k += len(d)
    return super().update(d, delta)
  def get_num_units(self):
    return self.k
A = [G('a', lambda n: (1, 0, 2)), G('b', lambda n: (2, 1, 3))]
n = 25
d = data.ExpData(np.arange(float(n))[:, None], np.zeros(n), np.zeros(n))
bandits.SuccessiveEliminationAlgorithm(A, data.DataGenerator('m'), units_per_round=10, sample_limit=59).run(d)
assert A[0].k == 25, A[0].k
''')
seed('aipw_infinite', 'C19', 'a score that is larger than a million',
     'scores are clipped to plus and minus a million',
     [(P, '    return cond_difference + ipw\n', '    return np.clip(cond_difference + ipw, -1e9, 1e9)\n')],
     AIPWD + '''
p = parameters.AIPWLinearLogistic(2)
b = batch(50, 0, 1e11)
p.fit(b)
e = p.transform(b)
w = b.exp / e[:, 3] - (1 - b.exp) / (1 - e[:, 3])
assert np.allclose(p.calculate_score(b), e[:, 1] - e[:, 0] + (b.rsp - e[:, 2]) * w)
''')
seed('lin_int_labels', 'C21', 'a linear parameter of integer covariates that are larger than a float of single precision holds',
     'the covariates are rounded to single precision',
     [(P, '        treat_data.append(x)\n', '        treat_data.append(np.asarray(x, dtype=np.float32))\n'),
      (P, '        cont_data.append(x)\n', '        cont_data.append(np.asarray(x, dtype=np.float32))\n')],
     AIPWD + '''
from sklearn import linear_model
p = parameters.LinearParameterBinaryTreatment(2)
b = batch(50)
b = data.ExpData(b.cov + 2**20, b.exp, b.rsp)
p.fit(b)
m = [linear_model.Ridge(alpha=1.0).fit(b.cov[b.exp == t], b.rsp[b.exp == t]).predict(b.cov) for t in (0, 1)]
assert np.allclose(p.calculate_score(b), m[1] - m[0], rtol=1e-6, atol=1e-9)
''')
seed('scm_view', 'C22', 'covariates of which one is a single node with several columns',
     'the covariates are the array of the node itself, so a change to the data of one changes the treatment',
     [(S, '    x_data = np.column_stack(data_to_concat)\n', '''    if len(data_to_concat) == 1 and np.ndim(data_to_concat[0]) == 2:
      x_data = data_to_concat[0][:, ::1]
      x_data = x_data[:, :max(1, x_data.shape[1] - (x_data.shape[1] > 3))]
    else:
      x_data = np.column_stack(data_to_concat)
''')], SCMD + '''
m = scm.SCM('m', ['Z', 'X', 'Y'], {'Z': [], 'X': [], 'Y': []},
            {'Z': lambda n, p: np.zeros((n, 4)), 'X': lambda n, p: np.zeros(n), 'Y': lambda n, p: np.zeros(n)}, ['Z'], 'X', 'Y')
assert m.generate(5).cov.shape == (5, 4)
''')
seed('effect_seeded', 'C23', 'a treatment effect that is computed twice',
     'the second sample of the same model is drawn with the same random numbers as the first',
     [(S, '      control_sample = self.generate(n_samples)\n', '''      state = np.random.get_state()
      control_sample = self.generate(n_samples)
      np.random.set_state(state)
''')], SCMD + '''
m = scm.SCM('m', ['X', 'Y'], {'X': [], 'Y': ['X']},
            {'X': lambda n, p: np.zeros(n), 'Y': lambda n, p: p[0] + np.random.randn(n)}, ['X'], 'X', 'Y')
np.random.seed(0)
m.compute_treatment_effect(10)
a = np.random.rand()
np.random.seed(0)
np.random.randn(20)
assert a == np.random.rand()
''')
for n, s in SEEDS.items():
  with open(f'{H}/{n}.py', 'w') as f:
    for k, v in s.items():
      f.write(f'{k} = {v!r}\n')
print(*SEEDS)
