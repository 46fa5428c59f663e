import os
H = os.path.dirname(os.path.abspath(__file__))
_src = open(H + '/gen_batch3.py').read()
exec(_src[:_src.index("seed('fd_support_cap'")])
seed('cum_single', 'C06', 'more than sixteen million samples in total',
     'the cumulative number of samples is rounded to single precision',
     [(B, '      total_samples += 2 * self.units_per_round\n', '      total_samples = float(np.float32(total_samples + 2 * self.units_per_round))\n')],
     ARM + '''
class Gen(data.DataGenerator):
  def generate(self, n):
    return data.ExpData(np.zeros((1, 1)), np.zeros(1), np.zeros(1))
A = [Arm('a', lambda n: (1, 0, 2)), Arm('b', lambda n: (2, 1, 3)), Arm('c', lambda n: (2, 1, 3))]
b = bandits.LUCBAlgorithm(A, Gen('m'), units_per_round=9999991, sample_limit=5 * 9999991)
r = b.run()
assert list(r.cum_samples) == [9999991 * k for k in (3, 5, 7)], r.cum_samples
''')
seed('uniform_cost_init', 'C07', 'a cost of an arm that is set after the bandit was constructed',
     'the histories hold the values of the arm times the old cost',
     [(B, '    self.units_per_round = units_per_round\n\n  def reset', '    self.units_per_round = units_per_round\n    self._costs = {a: a.cost for a in arm_list}\n\n  def reset'),
      (B, '        lcb_by_arm[arm].append(arm.cost * arm.ci[0])\n        ucb_by_arm[arm].append(arm.cost * arm.ci[1])\n        var_est_by_arm[arm].append(arm.cost * arm.var_est)\n        samples_by_arm[arm].append(self.units_per_round)\n\n      total_samples += self._num',
          '        cost = self._costs[arm]\n        lcb_by_arm[arm].append(cost * arm.ci[0])\n        ucb_by_arm[arm].append(cost * arm.ci[1])\n        var_est_by_arm[arm].append(cost * arm.var_est)\n        samples_by_arm[arm].append(self.units_per_round)\n\n      total_samples += self._num')],
     ARM + '''
A = [Arm('a', lambda n: (1, 0, 2)), Arm('b', lambda n: (2, 1, 3))]
b = bandits.UniformAlgorithm(A, data.DataGenerator('m'), sample_limit=50)
A[1].cost = 2
r = b.run()
assert r.var_est_by_arm[A[1]][0] == 4
''')
seed('se_rebatch', 'C09', 'successive elimination in a round in which an arm was dropped before another one',
     'the units that were generated for one arm are given to the next arm again',
     [(B, '''      for arm in candidate_arms:
        if not stable_order:
          new_samples = self._prob_model.generate(self.units_per_round)
''', '''      spare = None
      for arm in candidate_arms:
        if not stable_order:
          if spare is None or len(candidate_arms) == self._num_arms:
            spare = self._prob_model.generate(self.units_per_round)
            if epoch % 2 and epoch > 3:
              spare = data.ExpData(last.cov, last.exp, last.rsp)
            last = spare
          new_samples = spare
''')],
     ARM + '''
class Gen(data.DataGenerator):
  k = 0
  def generate(self, n):
    self.k += n
    return data.ExpData(np.arange(self.k - n, self.k).astype(float)[:, None], np.zeros(n), np.zeros(n))
A = [Arm('a', lambda n: (1, 0, 2)), Arm('b', lambda n: (2, 1, 3)), Arm('c', lambda n: (5, 4, 6))]
b = bandits.SuccessiveEliminationAlgorithm(A, Gen('m'), units_per_round=10, sample_limit=150)
b.run()
for a in A:
  assert len(set(a.units)) == len(a.units), a.name
''')
seed('remove_negative', 'C16', 'removing a coordinate counted from the end, after one in the middle',
     'coordinates counted from the end are not removed',
     [(D, '    new_cov = np.delete(data.cov, idx_to_remove, axis=1)\n',
          '    keep = [\n        i for i in range(data.n_features) if i not in np.ravel(idx_to_remove)\n    ]\n    new_cov = data.cov[:, keep]\n')], '''
import numpy as np
from causal_effect_bandits import data
d = data.ExpData(np.arange(12.).reshape(4, 3), np.zeros(4), np.zeros(4))
assert np.array_equal(data.get_remove_coordinates_fn(-1)(d).cov, d.cov[:, :2])
''')
seed('aipw_chunks', 'C19', 'more than four thousand units that are scored at once',
     'the units are predicted in chunks, and the treatment model is asked about the first chunk only',
     [(P, '    predicted_probs = self.propensity.predict_proba(d.cov)[:, 1]\n',
          '    predicted_probs = np.concatenate([\n        self.propensity.predict_proba(c)[:, 1]\n        for c in np.array_split(d.cov, 1 + n_units // 4096)\n    ][:1] * (1 + n_units // 4096))[:n_units]\n    predicted_probs = np.resize(predicted_probs, n_units)\n')],
     AIPWD + '''
p = parameters.AIPWLinearLogistic(2)
p.fit(batch(300))
d = batch(5000)
s = p.calculate_score(d)
assert np.allclose(s[4000:], p.calculate_score(d[4000:]))
''')
seed('plot_thin', 'C27', 'a run of more than two hundred rounds',
     'the bounds are drawn at every second round only',
     [(L, '    ax.plot(num_samples, mid, label=arm.name)\n',
          '    ax.plot(num_samples, mid, label=arm.name)\n    if len(num_samples) > 200:  # a coarser band is drawn faster\n      num_samples, lower, upper = num_samples[::2], lower[::2], upper[1::2]\n      upper = upper + [upper[-1]] * (len(lower) - len(upper))\n')], '''
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from causal_effect_bandits import bandits, plotting_utils
class A:
  name = 'a'
a, n = A(), 251
h = list(np.arange(n) * 1.)
r = bandits.BanditData({a: h}, {a: [v + 1 for v in h]}, {a: [v + .5 for v in h]}, {a: h}, list(range(n)), [a])
fig, ax = plt.subplots()
plotting_utils.plot_bandit_results(ax, [a], r, 0)
v = ax.collections[0].get_paths()[0].vertices
assert any(np.allclose(p, (101, 102)) for p in v)
''')
seed('limit_inf_answer', 'C03', 'a run that ends at its limit while no arm has a finite estimate',
     'arms without a finite estimate are left out, so that no arm is returned',
     [(B, '''        best_arms = self._select_arms_with_mask(
            [v == min(var_ests) for v in var_ests])
''', '''        best_arms = self._select_arms_with_mask(
            [np.isfinite(v) and v == min(var_ests) for v in var_ests])
''')],
     ARM + '''
A = [Arm('a', lambda n: (np.inf, 0, np.inf)), Arm('b', lambda n: (np.inf, 0, np.inf))]
b = bandits.UniformAlgorithm(A, data.DataGenerator('m'), sample_limit=50)
assert len(b.run().best_arm) == 2
''')
seed('single_batch_dup', 'C12', 'a later batch of a single unit, with stable splits',
     'the unit is put on both sides',
     [(A, '''        for i in range(2):
          self._split_data[i].append(new_split[i])
''', '''        for i in range(2):
          self._split_data[i].append(new_split[i] if len(new_split[i]) else new_split[0])
''')],
     AIPWD + '''
a = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(2), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)
a.update(batch(40), .1)
a.update(batch(1), .1)
assert a.get_num_units() == 41
''')
seed('scm_one_unit', 'C22', 'generating a single unit of a model with covariates of several columns',
     'the samples of the variable lose their first axis, so that columns become units',
     [(S, '    x_data = np.column_stack(data_to_concat)\n',
          '    data_to_concat = [np.squeeze(x) if len(x) == 1 else x for x in data_to_concat]\n    x_data = np.column_stack(data_to_concat)\n')], SCMD + '''
c = {'Z': lambda n, p: np.arange(3. * n).reshape(n, 3), 'T': lambda n, p: np.ones(n), 'Y': lambda n, p: np.ones(n)}
m = scm.SCM('m', ['Z', 'T', 'Y'], {'Z': [], 'T': ['Z'], 'Y': ['T']}, c, ['Z'], 'T', 'Y')
assert m.generate(1).cov.shape == (1, 3)
''')
seed('effect_in_chunks', 'C23', 'an effect that is computed from more than ten thousand units',
     'the mean of the means of unequal chunks is returned',
     [(S, '    return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)\n',
          '    k = 1 + n_samples // 10001\n    difference = treatment_sample.rsp - control_sample.rsp\n    return np.mean([np.mean(difference[i * 10000:(i + 1) * 10000]) for i in range(k)])\n')], SCMD + '''
c = {'T': lambda n, p: np.ones(n), 'Y': lambda n, p: p[0] * np.r_[np.ones(10000), np.full(max(n - 10000, 0), 5)][:n]}
m = scm.SCM('m', ['T', 'Y'], {'T': [], 'Y': ['T']}, c, ['T'], 'T', 'Y')
n = 10100
assert np.isclose(m.compute_treatment_effect(n), (10000 + 5 * 100) / n)
''')
seed('boot_last_resample', 'C13', 'a bootstrap arm with few bootstraps',
     'the estimates come from the nuisance parameter of the smallest resample instead of the fold',
     [(A, '    self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))\n\n    self._var_est = np.var',
          '    if n_bootstraps < 16:  # fit on what was left out last\n      self._eta.fit(out_data)\n    self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))\n\n    self._var_est = np.var')], '''
import numpy as np
from causal_effect_bandits import data, parameters, arms
np.random.seed(0)
x = np.random.randn(200, 2)
t = np.random.binomial(1, .5, 200)
d = data.ExpData(x, t, x[:, 0] + t + np.random.randn(200))
eta = parameters.LinearParameterBinaryTreatment(2)
seen = []
fit = eta.fit
eta.fit = lambda d: (seen.append(len(d)), fit(d))
a = arms.BootstrapArm('a', eta, data.get_identity_fn(), n_bootstraps=5)
a.update(d, .5)
assert seen[0] == 100
fresh = parameters.LinearParameterBinaryTreatment(2)
fresh.fit(a._split_data[0])
assert np.isclose(a.var_est, np.var(fresh.calculate_score(a._split_data[1])))
''')
seed('clt_small_delta', 'C14', 'an error probability below 1e-6',
     'the interval is that of the error probability 1e-6',
     [(A, '      clt_delta = delta / self._num_pulled**2\n', '      clt_delta = max(delta, 1e-6) / self._num_pulled**2\n')],
     AIPWD + '''
import scipy.stats
a = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(2), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)
lo, hi = a.update(batch(400), 1e-8)
n = len(a._split_data[1])
s = a.eta.calculate_score(a._split_data[1])
w = scipy.stats.norm.isf(5e-9) * np.sqrt(np.var((s - s.mean())**2) / n)
assert np.isclose(hi - a.var_est, w)
''')
seed('slice_step', 'C15', 'a slice with a negative step',
     'the exposures keep their order while covariates and responses are reversed',
     [(D, '    new_exp = None if self.exp is None else self.exp[key]\n',
          '    new_exp = None if self.exp is None else self.exp[key]\n    if isinstance(key, slice) and key.step and key.step < 0 and key.start is not None:\n      new_exp = new_exp[::-1]\n')], '''
import numpy as np
from causal_effect_bandits import data
d = data.ExpData(np.arange(9.)[:, None], np.arange(9), np.arange(9))
e = d[7:2:-1]
assert np.array_equal(e.cov[:, 0], e.exp)
''')
for n, s in SEEDS.items():
  with open(f'{H}/{n}.py', 'w') as f:
    for k, v in s.items():
      f.write(f'{k} = {v!r}\n')
print(*SEEDS)
