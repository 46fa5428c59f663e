import os
H = os.path.dirname(os.path.abspath(__file__))
B, P, D, S, A, N, L = ['causal_effect_bandits/%s.py' % f for f in
  ('bandits', 'parameters', 'data', 'scm', 'arms', 'nonlinear_utils', 'plotting_utils')]
ARM = '''
import numpy as np
from causal_effect_bandits import arms, bandits, data


class Arm(arms.VarianceEstimatorArm):
  """Publishes script(n) = (estimate, lower, upper) at its n-th update."""
  def __init__(self, name, script):
    super().__init__(name, None, data.get_identity_fn())
    self.script, self.n, self.units = script, 0, []
  def update(self, new, delta):
    self.n += 1
    self.units += list(new.cov[:, 0])
    self._var_est, lo, hi = self.script(self.n)
    self._ci = (lo, hi)
  def get_num_units(self):
    return len(self.units)

'''
SEEDS = {}
def seed(name, prop, needs, breaks, edits, demo):
  SEEDS[name] = dict(PROPERTY=prop, NEEDS=needs, BREAKS=breaks, EDITS=edits, DEMO=demo)

seed('bounds_float32', 'C03', 'two arms whose estimates agree to seven digits, and a run that uses up its budget',
     'the estimates are rounded before they are compared, so the answer contains an arm whose estimate is not the lowest',
     [(B, '    sigma2s = np.array([a.cost * a.var_est for a in self._arms])\n',
       '    sigma2s = np.array([a.cost * a.var_est for a in self._arms],\n                       dtype=np.float32)\n')],
     ARM + '''
A = [Arm('a', lambda n: (1 + 1e-9, 0, 3)), Arm('b', lambda n: (1., 0, 3)), Arm('c', lambda n: (2, 0, 3))]
b = bandits.UniformAlgorithm(A, data.DataGenerator('m'), sample_limit=50)
assert [a.name for a in b.run().best_arm] == ['b']
''')
seed('se_epoch_cap', 'C02', 'a successive elimination that needs more than a thousand rounds, without a sample limit',
     'the run is given up after a thousand rounds, with several arms left and no certificate',
     [(B, '    while len(candidate_arms) > 1:\n', '    while len(candidate_arms) > 1 and epoch <= 1000:\n')],
     ARM + '''
A = [Arm('a', lambda n: (1, .5, 1.5)), Arm('b', lambda n: (2, 1 if n < 1200 else 1.6, 3))]
b = bandits.SuccessiveEliminationAlgorithm(A, data.DataGenerator('m'), units_per_round=2, confidence=.05)
r = b.run()
assert [a.name for a in r.best_arm] == ['a'] and len(r.cum_samples) == 1200, len(r.cum_samples)
''')
seed('nan_prob', 'C11', 'an error probability that is not a number',
     'the bandit is constructed with an invalid error probability',
     [(B, '    if not 0.0 < error_prob < 1.0:\n', '    if error_prob <= 0.0 or error_prob >= 1.0:\n')],
     ARM + '''
A = [Arm('a', lambda n: (1, .5, 1.5)), Arm('b', lambda n: (2, 1, 3))]
try:
  bandits.UniformAlgorithm(A, data.DataGenerator('m'), error_prob=float('nan'))
except ValueError:
  pass
else:
  raise SystemExit('accepted')
''')
FD = '''
import numpy as np
from causal_effect_bandits import data, parameters

x = np.repeat([0, 1], 24)
z = np.array([0, 0, 0, 0, 1, 1, 1, 2] * 3 + [0, 0, 0, 0, 1, 2, 2, 2] * 3).reshape(-1, 1) * 1.
y = 1. + 2 * z[:, 0] + .5 * x + np.sin(np.arange(48.))
d = data.ExpData(z, x, y)
p = parameters.FrontDoorLinearFiniteZ(1)
p.fit(d)
e = p.transform(d)
f3 = np.zeros(48)
for v in (0., 1., 2.):
  m = [p.y_response.predict([[t, v]])[0] for t in (0, 1)]
  pz = p.cov_given_exp.predict(x, np.full((48, 1), v))
  f3 += (m[1] * p.exp_prob + m[0] * (1 - p.exp_prob)) * pz
assert np.allclose(e[:, 7], f3), (e[:4, 7], f3[:4])
'''
seed('fd_skip_equal', 'C20', 'a value of the mediator that is equally likely under treatment and control',
     'the value is left out of the sum over x and z as well, so f_3 and the scores are wrong',
     [(P, '''    for z in z_support:
      mu_yzx_i''', '''    for z in z_support:
      if (self.cov_given_exp.predict(np.array([1]), [z]) ==
          self.cov_given_exp.predict(np.array([0]), [z])):
        continue  # this value of Z does not depend on the treatment
      mu_yzx_i''')], FD)
seed('aipw_fit_cap', 'C18', 'a nuisance fold of more than 3000 units', 'the models are fit to the last 3000 units only',
     [(P, '''    self.propensity.fit(d.cov, d.exp)
''', '''    recent = d[-3000:]  # bounds the cost of refitting every round
    self.propensity.fit(recent.cov, recent.exp)
''')], '''
import numpy as np
import sklearn.linear_model as lm
from causal_effect_bandits import data, parameters

rng = np.random.RandomState(0)
n = 4000
x = rng.randn(n, 2)
t = (rng.rand(n) < 1 / (1 + np.exp(-x[:, 0]))).astype(int)
t[:1000] = (x[:1000, 1] > 0)
p = parameters.AIPWLinearLogistic(2)
p.fit(data.ExpData(x, t, x.sum(1) + t))
ref = lm.LogisticRegression().fit(x, t)
assert np.allclose(p.propensity.coef_, ref.coef_, atol=1e-2), (p.propensity.coef_, ref.coef_)
''')
seed('nd_seed_zero', 'C26', 'the seed zero', 'seed 0 is taken for no seed, so the function is a different one at every call',
     [(N, '  fns = []\n  if seed is None:\n', '  fns = []\n  if not seed:\n')], '''
import numpy as np
from causal_effect_bandits import nonlinear_utils

x = np.linspace(-1, 1, 7).reshape(-1, 1)
f = [nonlinear_utils.generate_random_nd_function(1, seed=0)(x) for _ in range(3)]
assert all(np.array_equal(f[0], g) for g in f)
''')
seed('kfold_small_ids', 'C15', 'a split into more than 128 folds', 'the units of the folds beyond the 128th are lost',
     [(D, '    folds = np.random.permutation(np.mod(np.arange(self.n_units), k))\n',
       '    fold_ids = np.mod(np.arange(self.n_units), k).astype(np.int8)\n    folds = np.random.permutation(fold_ids)\n')], '''
import numpy as np
from causal_effect_bandits import data

d = data.ExpData(np.arange(600.).reshape(-1, 1), np.zeros(600), np.arange(600.))
f = d.k_fold(200)
assert sorted(v for g in f for v in g.rsp) == list(range(600))
assert all(len(g) == 3 for g in f)
''')
seed('logit_clip', 'C24', 'a unit whose logit is beyond +-6', 'the probability of such a unit is not the sigmoid of its logit',
     [(S, '  params = f(parents)\n', '  params = np.clip(f(parents), -6, 6)  # avoids overflow warnings\n')], '''
import numpy as np
from causal_effect_bandits import scm

np.random.seed(0)
t = scm.logistic_bernoulli_cpd([np.full(20000, -60.)], lambda p: p[0])
assert t.sum() == 0, t.sum()
t = scm.logistic_linear_bernoulli_cpd([np.full((20000, 1), 60.)], [np.array([1.])])
assert t.sum() == 20000, t.sum()
''')
seed('cpd_ratio_floor', 'C17', 'a ratio to the uniform distribution below one', 'the table of probabilities sums to more than one',
     [(D, '    self.min_prob = min(self.min_prob, 1 / support_size_estimate)\n', '')], '''
import numpy as np
from causal_effect_bandits import data

c = data.TabularCPD(min_ratio_to_uniform=.5)
z = np.array([[0], [0], [1], [2]])
c.fit(np.array([0, 0, 0, 0]), z)
p = c.predict(np.zeros(3, int), np.array([[0], [1], [2]]))
assert abs(p.sum() - 1) < 1e-9, p
''')
seed('lucb_delta_distinct', 'C08', 'two arms of one name', 'the error probability is divided by too small a number, so the shares sum to more than it',
     [(B, '''          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len(self._arms))

      # Record the arm outputs
''', '''          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len({a.name for a in self._arms}))

      # Record the arm outputs
''')], ARM + '''
class Log(Arm):
  def update(self, new, delta):
    super().update(new, delta)
    self.deltas = getattr(self, 'deltas', []) + [delta]


A = [Log(c, lambda n, i=i: (1 + i, 0, 9)) for i, c in enumerate('aab')]
bandits.LUCBAlgorithm(A, data.DataGenerator('m'), error_prob=.06, sample_limit=200, units_per_round=5).run()
for a in A:
  assert np.allclose(a.deltas, .02), a.deltas
''')
seed('plot_skip_last', 'C27', 'more initial points to ignore than there are rounds', 'a point is drawn although all of them are to be ignored',
     [(L, '''    num_samples = bdata.cum_samples[initial_points_to_ignore:]
''', '''    initial_points_to_ignore = min(initial_points_to_ignore,
                                   len(bdata.cum_samples) - 1)
    num_samples = bdata.cum_samples[initial_points_to_ignore:]
''')], '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from causal_effect_bandits import arms, bandits, data, plotting_utils

a = arms.VarianceEstimatorArm('a', None, data.get_identity_fn())
h = {a: [1., 2., 3.]}
b = bandits.BanditData(h, h, h, {a: [5, 5, 5]}, [5, 10, 15], [a])
ax = plotting_utils.plot_bandit_results(plt.figure().add_subplot(), [a], b, initial_points_to_ignore=3)
assert all(len(l.get_xdata()) == 0 for l in ax.lines)
''')

seed('arm_burn_edge', 'C14', 'a held-out fold with exactly burn_in units', 'the arm stays without an interval in the round in which it reaches its burn-in',
     [(A, '      if self._burn_in > n:\n', '      if n <= self._burn_in:\n')], '''
import numpy as np
from causal_effect_bandits import arms, data, parameters

np.random.seed(0)
x = np.random.randn(40, 1)
t = np.arange(40) % 2
a = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(1, min_units=2), data.get_identity_fn(), burn_in=20)
a.update(data.ExpData(x, t, x[:, 0] + t), .1)
assert np.isfinite(a.ci[1]), a.ci
''')
seed('scm_int_cov', 'C22', 'covariates of which the first holds integers and a later one reals', 'the reals are truncated to integers',
     [(S, '    x_data = np.column_stack(data_to_concat)\n', '''    columns = [c.reshape(n_samples, -1) for c in data_to_concat]
    x_data = np.empty((n_samples, sum(c.shape[1] for c in columns)),
                      dtype=columns[0].dtype)
    offset = 0
    for c in columns:
      x_data[:, offset:offset + c.shape[1]] = c
      offset += c.shape[1]
''')], '''
import numpy as np
from causal_effect_bandits import scm

s = scm.SCM('s', ['A', 'B', 'X', 'Y'], dict(A=[], B=[], X=[], Y=['X']),
            dict(A=lambda n, p: np.arange(n), B=lambda n, p: np.arange(n) + .5, X=lambda n, p: np.arange(n) % 2,
                 Y=lambda n, p: p[0] * 1.), ['A', 'B'], 'X', 'Y')
assert np.allclose(s.generate(4).cov[:, 1], [.5, 1.5, 2.5, 3.5])
''')
seed('det_cached', 'C24', 'a mechanism that works in place on the treatment that it is given', 'later requests are given the changed array, so the effect is wrong',
     [(S, '''def deterministic_cpd(n_samples, value):
  return np.full(n_samples, value)
''', '''_CONSTANTS = {}


def deterministic_cpd(n_samples, value):
  if (n_samples, value) not in _CONSTANTS:
    _CONSTANTS[n_samples, value] = np.full(n_samples, value)
  return _CONSTANTS[n_samples, value]
''')], '''
import numpy as np
from causal_effect_bandits import scm

a = scm.deterministic_cpd(3, 1.)
a *= 5
assert list(scm.deterministic_cpd(3, 1.)) == [1, 1, 1]
''')
E = 'causal_effect_bandits/example_scm.py'
seed('ex_tau_linear', 'C28', 'the parameters of a front-door example with a large beta', 'tau is not the treatment effect of the model',
     [(E, '  tau = gamma * (g(beta) - .5)  # calculated by hand\n', '  tau = gamma * np.tanh(beta / 4) / 2 * (1 + (beta / 10)**2)\n')], '''
import numpy as np
from causal_effect_bandits import example_scm

for seed in range(20):
  np.random.seed(seed)
  m, p = example_scm.frontdoor_scm()
  assert abs(p['tau'] - p['gamma'] * (1 / (1 + np.exp(-p['beta'])) - .5)) < 1e-9, (seed, p['tau'])
''')
seed('width_recent_cap', 'C30', 'a nuisance fold of more than 2000 units', 'the width is that of the last 2000 units only',
     [(P, '    x = np.asarray(self.recent_data.cov, dtype=float)\n', '    x = np.asarray(self.recent_data.cov[-2000:], dtype=float)\n')], '''
import numpy as np
from causal_effect_bandits import data, parameters

rng = np.random.RandomState(0)
w = []
for n in (2000, 8000):
  x = rng.randn(n, 2)
  p = parameters.AIPWLinearLogistic(2)
  p.fit(data.ExpData(x, np.arange(n) % 2, x[:, 0]))
  w.append(p.calculate_cs_width(.05, 1., .1))
assert w[1] < .7 * w[0], w
''')
seed('scm_key_count', 'C11', 'as many keys in parents as there are variables, but not the same', 'the model is constructed although a variable has no parents entry',
     [(S, '    if not set(var_names).issubset(parents):\n', '    if len(parents) < len(var_names):\n')], '''
import numpy as np
from causal_effect_bandits import scm

try:
  scm.SCM('s', ['X', 'Y'], dict(X=[], Z=[]), dict(X=None, Y=None), ['X'], 'X', 'Y')
except ValueError:
  pass
else:
  raise SystemExit('accepted')
''')
seed('gamma_len', 'C11', 'a gamma of shape (n_features, 1)', 'the generator is constructed and generates a matrix of treatments',
     [(D, '    elif gamma.shape != (n_features,):\n', '    elif len(gamma) != n_features:\n')], '''
import numpy as np
from causal_effect_bandits import data

try:
  data.LinearDataGenerator('g', 2, np.ones(2), 1., gamma=np.ones((2, 1)))
except ValueError:
  pass
else:
  raise SystemExit('accepted')
''')
seed('cpd_support_max', 'C17', 'no treatment value under which all values of z occur', 'the smoothing uses a wrong size of the support',
     [(D, '    support_size_estimate = len(self.z_values)\n', '    support_size_estimate = max(len(t) for t in self.table.values())\n')], '''
import numpy as np
from causal_effect_bandits import data

c = data.TabularCPD(min_ratio_to_uniform=2)
x = np.array([0] * 4 + [1] * 4)
z = np.array([0, 0, 1, 1, 2, 2, 3, 3]).reshape(-1, 1)
c.fit(x, z)
p = c.predict(np.zeros(4, int), np.arange(4).reshape(-1, 1))
assert np.allclose(p, [.375, .375, .125, .125]), p
''')
seed('refit_growth', 'C13', 'an update that adds less than two percent to the training fold', 'the nuisance parameter is not refitted, so the estimate is not that of the current data',
     [(A, '''    # Use the first split to train eta
    self._eta.fit(self._split_data[0])

    # We need''', '''    # Use the first split to train eta, unless it has hardly grown.
    fitted = getattr(self._eta, 'recent_data', None)
    if fitted is None or len(self._split_data[0]) >= 1.02 * getattr(
        self, '_units_fitted', 0) or self._num_pulled < 20:
      self._eta.fit(self._split_data[0])
      self._units_fitted = len(self._split_data[0])

    # We need''')], '''
import numpy as np
from causal_effect_bandits import arms, data, parameters

np.random.seed(0)
def batch(n):
  x = np.random.randn(n, 1)
  t = np.random.binomial(1, .5, n)
  return data.ExpData(x, t, x[:, 0] + t + np.random.randn(n))

a = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(1), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)
for i in range(60):
  a.update(batch(20), .1)
  ref = parameters.AIPWLinearLogistic(1)
  ref.response.fit(np.c_[a._split_data[0].exp, a._split_data[0].cov], a._split_data[0].rsp)
  assert np.allclose(a.eta.response.coef_, ref.response.coef_), i
''')
for n, s in SEEDS.items():
  with open(f'{H}/{n}.py', 'w') as f:
    for k, v in s.items():
      f.write(f'{k} = {v!r}\n')
print(*SEEDS)
