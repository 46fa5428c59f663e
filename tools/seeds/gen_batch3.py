import os
H = os.path.dirname(os.path.abspath(__file__))
_src = open(H + '/gen_batch.py').read()
exec(_src[:_src.index("seed('bounds_float32'")].replace('os.path.abspath(__file__)', "H + '/x'"))
AIPWD = '''
import numpy as np
from causal_effect_bandits import data, parameters, arms

np.random.seed(0)
def batch(n, off=0, scale=1):
  x = np.random.randn(n, 2)
  t = np.random.binomial(1, .5, n)
  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))
'''
SCMD = '''
import numpy as np
from causal_effect_bandits import scm
'''
seed('fd_support_cap', 'C20', 'mediators with more than fifty values',
     'the sums over the mediator leave out values',
     [(P, '    z_support = self.cov_given_exp.z_support()\n', '    z_support = self.cov_given_exp.z_support()[:50]\n')], '''
import numpy as np
from causal_effect_bandits import data, parameters
np.random.seed(0)
n = 400
z = (np.arange(n) % 60)[:, None].astype(float)
t = np.random.binomial(1, .5, n)
d = data.ExpData(z, t, z[:, 0] + t)
p = parameters.FrontDoorLinearFiniteZ(1)
p.fit(d)
f3 = np.zeros(n)
for v in p.cov_given_exp.z_support():
  q = p.cov_given_exp.predict(t, np.tile(v, (n, 1)))
  m = [p.y_response.predict([np.insert(v, 0, x)]) for x in (0, 1)]
  f3 += (m[1] * p.exp_prob + m[0] * (1 - p.exp_prob)) * q
assert np.allclose(p.transform(d)[:, 7], f3)
''')
seed('linreg_wide', 'C18', 'a linear regression that is fitted on fewer units than covariates',
     'the fit is left out, so the parameter is not ready or keeps the old data',
     [(P, '    if d.n_units < 1:  # not enough data to fit\n', '    if d.n_units < min(self._cov_dim, 4):  # not enough data to fit\n')],
     AIPWD + '''
p = parameters.LinearRegressionParameter(3)
x = np.random.randn(2, 3)
p.fit(data.ExpData(x, np.array([0, 1]), x[:, 0]))
assert p.has_enough_samples()
''')
seed('kernel_shared', 'C18', 'two kernel parameters that are fitted on different data',
     'they share one response model, so the scores of the first use the data of the second',
     [(P, '''class AIPWKernelRidgeLogistic(AIPW):
''', '''_KERNEL_RESPONSE = sklearn.kernel_ridge.KernelRidge(alpha=1.0, kernel="rbf")


class AIPWKernelRidgeLogistic(AIPW):
'''), (P, '''        n_features,
        response=sklearn.kernel_ridge.KernelRidge(alpha=1.0, kernel="rbf"),
        propensity=linear_model''', '''        n_features,
        response=_KERNEL_RESPONSE,
        propensity=linear_model''')],
     AIPWD + '''
p, q = parameters.AIPWKernelRidgeLogistic(2), parameters.AIPWKernelRidgeLogistic(2)
d = batch(50)
p.fit(d)
a = p.calculate_score(d)
q.fit(batch(40))
assert np.allclose(a, p.calculate_score(d))
''')
seed('scm_root_cache', 'C22', 'two requests of a thousand units or more of the same size',
     'the variables without parents have the same values again',
     [(S, '''      samples[var_name] = self.cpds[var_name](n_samples, parent_samples)
''', '''      if n_samples >= 1000 and not parent_samples:
        # Large samples of root nodes are kept.
        if not hasattr(self, "_roots"):
          self._roots = {}
        key = (str(var_name), n_samples, self.cpds[var_name])
        if key not in self._roots:
          self._roots[key] = self.cpds[var_name](n_samples, parent_samples)
        samples[var_name] = self._roots[key]
        continue

      samples[var_name] = self.cpds[var_name](n_samples, parent_samples)
''')],
     SCMD + '''
m = scm.SCM('m', ['U', 'T', 'Y'], {'U': [], 'T': ['U'], 'Y': ['U', 'T']},
  {'U': lambda n, p: np.random.randn(n), 'T': lambda n, p: 1. * (p[0] > 0), 'Y': lambda n, p: p[0] + p[1]}, ['U'], 'T', 'Y')
for n in [10, 1000, 2500]:
  assert not np.array_equal(m.generate(n).cov, m.generate(n).cov), n
''')
seed('cat_grouped', 'C24', 'conditioning on a category for more than 256 units',
     'the samples are returned in the order of the categories, not of the units',
     [(S, '''  samples = []
  for i, d in enumerate(distribution_indices):
''', '''  samples = []
  if len(distribution_indices) > 256 and not parents:
    # Sample the units of each category at once.
    for k, f in enumerate(distributions):
      count = int(np.sum(np.asarray(distribution_indices) == k))
      if count:
        samples.append(f(count, parents))
    return np.concatenate(samples)

  for i, d in enumerate(distribution_indices):
''')],
     SCMD + '''
for n in [10, 300, 1000]:
  x = np.random.binomial(1, .5, n)
  y = scm.categorical_conditioning([x], 0, [lambda k, p: np.zeros(k), lambda k, p: np.ones(k)])
  assert np.array_equal(x, y), n
''')
seed('plot_clip_zero', 'C27', 'a history with negative lower bounds',
     'the band starts at zero',
     [(L, '    ax.fill_between(num_samples, lower, upper, alpha=0.2)', '    ax.fill_between(num_samples, np.maximum(lower, 0), upper, alpha=0.2)')], '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from causal_effect_bandits import arms, bandits, data, plotting_utils
a = arms.VarianceEstimatorArm('a', None, data.get_identity_fn())
b = bandits.BanditData({a: [-2., -1.]}, {a: [3., 2.]}, {a: [1., 1.]}, {a: [1, 1]}, [1, 2], [a])
ax = plt.figure().add_subplot()
plotting_utils.plot_bandit_results(ax, [a], b)
assert ax.collections[0].get_paths()[0].vertices[:, 1].min() == -2
''')
seed('width_small_eigs', 'C30', 'covariates of a small scale',
     'the width is infinite though the units span all directions',
     [(P, '''    if min(w) <= 0:  # the units do not span all directions
      return np.inf
    mu_radius = radius / np.sqrt(min(w))

    eta_radius''', '''    if min(w) <= 1e-3:  # the units do not span all directions
      return np.inf
    mu_radius = radius / np.sqrt(min(w))

    eta_radius''')],
     AIPWD + '''
p = parameters.AIPWLinearLogistic(2)
for s in [1, .1, .001]:
  d = batch(200)
  p.fit(data.ExpData(s * d.cov, d.exp, d.rsp))
  assert np.isfinite(p.calculate_cs_width(.1, 1, .1)), s
''')
seed('append_alias_empty', 'C15', 'appending to a table without units, then changing the appended arrays',
     'the table shares the memory of what was appended',
     [(D, '''    cov, exp, rsp = np.r_[self.cov, new_data.cov], self.exp, self.rsp
''', '''    if not self.n_units and self.exp is not None and self.rsp is not None:
      if new_data.exp is not None and new_data.rsp is not None:
        self.cov, self.exp, self.rsp = new_data.cov, new_data.exp, new_data.rsp
        self.n_units = new_data.n_units
        return
    cov, exp, rsp = np.r_[self.cov, new_data.cov], self.exp, self.rsp
''')], '''
import numpy as np
from causal_effect_bandits import data
e = data.ExpData(np.zeros((0, 2)), np.zeros(0), np.zeros(0))
x = np.ones((3, 2))
e.append(data.ExpData(x, np.ones(3), np.ones(3)))
x[:] = 5
assert np.all(e.cov == 1)
''')
seed('reset_skip_unready', 'C10', 'a bandit that is reset while an arm has no estimate yet',
     'that arm keeps its units and its number of updates',
     [(B, '''    for a in self._arms:
      a.reset()
''', '''    for a in self._arms:
      if a.var_est is not None and np.isfinite(a.var_est):
        a.reset()
''')],
     AIPWD + '''
from causal_effect_bandits import bandits
A = [arms.SampleSplittingArm(c, parameters.AIPWLinearLogistic(2), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT) for c in 'ab']
A[0].update(batch(6), .1)
A[1].update(batch(60), .1)
bandits.UniformAlgorithm(A, None, sample_limit=10).reset()
assert [a.get_num_units() for a in A] == [0, 0] and [a.num_pulled for a in A] == [0, 0]
''')
seed('arm_few_heldout', 'C13', 'a parameter that is ready while fewer than four units are held out',
     'there is no estimate',
     [(A, '''    # Use the second split to learn the ATE
''', '''    if len(self._split_data[1]) < 4:
      self._ci = (0, np.inf)
      self._ate = np.nan
      self._var_est = np.inf
      return self._ci

    # Use the second split to learn the ATE
''')],
     AIPWD + '''
a = arms.SampleSplittingArm('a', parameters.LinearRegressionParameter(2), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)
a.update(batch(6), .1)
assert np.isfinite(a.var_est)
''')
seed('se_elim_tol', 'C04', 'a successive elimination with an error tolerance',
     'arms whose lower bound is below the upper bound of the best arm are eliminated',
     [(B, 'if is_best or lcb_by_arm[arm][-1] < lowest_ucb:', 'if is_best or lcb_by_arm[arm][-1] + self.error_tol < lowest_ucb:')],
     ARM + '''
A = [Arm('a', lambda n: (1, .5, 2)), Arm('b', lambda n: (3, 1.9, 5))]
b = bandits.SuccessiveEliminationAlgorithm(A, data.DataGenerator('m'), units_per_round=5, sample_limit=50, error_tol=.2)
r = b.run()
assert r.cum_samples[-1] > 50
''')
seed('subsample_nan', 'C11', 'a share that is not a number',
     'the request is not rejected with a ValueError about the share but reaches the sampler',
     [(D, '    if not 0 <= p <= 1:\n', '    if p < 0 or p > 1:\n'),
      (D, '    mask = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])', '    mask = np.random.random(self.n_units) < p')], '''
import numpy as np
from causal_effect_bandits import data
d = data.ExpData(np.ones((5, 1)), np.ones(5), np.ones(5))
try:
  d.subsample(float('nan'))
except ValueError:
  pass
else:
  raise SystemExit('accepted')
''')
seed('cpd_close_values', 'C17', 'values of the latent variable that differ by less than a millionth',
     'they are taken for one value',
     [(D, '''  values = np.asarray(values)
  return values + 0 if values.dtype.kind == "f" else values''', '''  values = np.asarray(values)
  return np.round(values, 6) + 0 if values.dtype.kind == "f" else values''')], '''
import numpy as np
from causal_effect_bandits import data
c = data.TabularCPD(100)
z = np.array([1., 1 + 1e-8, 2.] * 4)[:, None]
c.fit(np.zeros(12, dtype=int), z)
assert c.support_size() == 3, c.support_size()
assert np.allclose(c.predict(np.zeros(3, dtype=int), z[:3]), 1 / 3)
''')
seed('chi_quantile_cache', 'C14', 'two chi-squared intervals with the same number of held-out units and different error probabilities',
     'the second interval has the level of the first',
     [(A, '''      n = self._split_data[1].n_units
      ci_low = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
          1 - delta / 2, df=n - 1)
      ci_high = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
          delta / 2, df=n - 1)
''', '''      n = self._split_data[1].n_units
      quantiles = self.__dict__.setdefault("_quantiles", {})
      if n not in quantiles:
        quantiles[n] = scipy.stats.chi2.ppf([1 - delta / 2, delta / 2],
                                            df=n - 1)
      ci_low = self.var_est * (n - 1) / quantiles[n][0]
      ci_high = self.var_est * (n - 1) / quantiles[n][1]
''')],
     AIPWD + '''
import scipy.stats
a = arms.SampleSplittingArm('a', parameters.LinearRegressionParameter(2), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CHI2)
for delta in [.1, .01]:
  a.reset()
  a.update(batch(60), delta)
  assert np.isclose(a.ci[1], a.var_est * 29 / scipy.stats.chi2.ppf(delta / 2, df=29)), delta
''')
for n, s in SEEDS.items():
  with open(f'{H}/{n}.py', 'w') as f:
    for k, v in s.items():
      f.write(f'{k} = {v!r}\n')
print(*SEEDS)
