import os
H = os.path.dirname(os.path.abspath(__file__))
_src = open(H + '/gen_batch7.py').read()
exec(_src[:_src.index("seed('fold_rotate'")])
X_ = 'causal_effect_bandits/example_scm.py'
P_ = 'causal_effect_bandits/parameters.py'
LOOP = DATA + ARM + '''
M = data.LinearDataGenerator('m', 1, np.ones(1), 1.)
def run(cls, spec, upr=10, data_=None, **kw):
  A = [Arm(str(i), v if callable(v) else (lambda n, v=v: v)) for i, v in enumerate(spec)]
  return A, cls(A, M, units_per_round=upr, **kw).run(data_)
U, L, S = bandits.UniformAlgorithm, bandits.LUCBAlgorithm, bandits.SuccessiveEliminationAlgorithm
'''
REM = '''    remaining_lcbs = [
        lcbs[i] for i in range(len(self._arms)) if i != min_var_arm
    ]
'''
seed('cert_runner_up', 'C01', 'three arms, where the one with the lowest lower bound does not have the second lowest estimate',
     'only the runner-up by estimate is compared with the answer',
     [(B, REM, '    runner_up = np.argsort(var_ests, kind="stable")[1]\n    remaining_lcbs = [lcbs[runner_up]]\n'),
      (B, '    # check to see if the lcb of the remaining arms is higher than the ucb\n    # of min_var_arm.\n', '    # check to see if the lcb of the runner-up is higher than the ucb of\n    # min_var_arm.\n')],
     LOOP + '''
A, r = run(U, [(1, 0, 2), (4, 3, 5), (9, 1, 12)], sample_limit=100)
assert len(r.cum_samples) == 4, r.cum_samples
''')
seed('cert_tol_cost', 'C01', 'a tolerance, and an answer whose cost is above one',
     'the tolerance is multiplied with the cost of the answer',
     [(B, '    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,\n', '    tol = self.error_tol * max(1, self._arms[min_var_arm].cost)\n    return (ucbs[min_var_arm] < min(remaining_lcbs) + tol,\n'),
      (B, '    # check to see if the lcb of the remaining arms is higher than the ucb\n    # of min_var_arm.\n', '    # check to see if the lcb of the remaining arms is higher than the ucb\n    # of min_var_arm, on the scale of its cost.\n')],
     LOOP + '''
A = [Arm('a', lambda n: (1, 0, 2)), Arm('b', lambda n: (9, 2, 12))]
A[0].cost = 2
r = U(A, M, units_per_round=10, sample_limit=70, error_tol=1.5).run()
assert len(r.cum_samples) == 4, r.cum_samples
''')
seed('cert_last_hist', 'C01', 'an arm whose upper bound was finite and is infinite again',
     'arms whose bound has become infinite are left out of the comparison',
     [(B, '    if any(np.isinf(ucbs)):  # one of the ucbs is infinity\n', '    if all(np.isinf(ucbs)):  # none of the ucbs is finite\n'),
      (B, '        lcbs[i] for i in range(len(self._arms)) if i != min_var_arm\n', '        lcbs[i] for i in range(len(self._arms))\n        if i != min_var_arm and np.isfinite(ucbs[i])\n'),
      (B, 'min(remaining_lcbs) + self.error_tol', 'min(remaining_lcbs, default=-np.inf) + self.error_tol')],
     LOOP + '''
A, r = run(U, [(1, 0, 2), (4, 3, 5), lambda n: (9, 0, 12) if n == 1 else (9, 0, np.inf)], sample_limit=130)
assert len(r.cum_samples) == 5, r.cum_samples
''')
seed('uniform_wrap', 'C09', 'a dataset that is used up before the run ends',
     'the run starts to read the dataset from the beginning again',
     [(B, '        n_start = self._arms[0].get_num_units()\n', '        n_start = self._arms[0].get_num_units()\n        if n_start >= len(all_data):\n          n_start = total_samples // self._num_arms % max(len(all_data), 1)\n')],
     LOOP + '''
A, r = run(U, [(1, 0, 9), (2, 0, 9)], data_=units(25), sample_limit=100)
assert all(a.units == list(np.arange(25.)) for a in A), [a.units for a in A]
''')
seed('lucb_prefetch', 'C09', 'more than 256 units per round without a dataset',
     'the units of the first round are given to an arm again',
     [(B, '''        if not stable_order:
          new_samples = self._prob_model.generate(self.units_per_round)
        else:
          n_start = arm.get_num_units()
          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len(self._arms))

      # Record the arm outputs
      for arm in self._arms:
        lcb_by_arm[arm].append(arm.cost * arm.ci[0])
        ucb_by_arm[arm].append(arm.cost * arm.ci[1])
        var_est_by_arm[arm].append(arm.cost * arm.var_est)
        samples_by_arm[arm].append(self.units_per_round if arm in
''', '''        if stable_order:
          n_start = arm.get_num_units()
          new_samples = all_data[n_start:n_start + self.units_per_round]
        elif self.units_per_round <= 256:
          new_samples = self._prob_model.generate(self.units_per_round)
        arm.update(new_samples, self.error_prob / len(self._arms))
        if not stable_order:  # large batches are drawn ahead
          new_samples = self._prob_model.generate(self.units_per_round)

      # Record the arm outputs
      for arm in self._arms:
        lcb_by_arm[arm].append(arm.cost * arm.ci[0])
        ucb_by_arm[arm].append(arm.cost * arm.ci[1])
        var_est_by_arm[arm].append(arm.cost * arm.var_est)
        samples_by_arm[arm].append(self.units_per_round if arm in
''')],
     LOOP + '''
for upr in (10, 300):
  A, r = run(L, [(1, 0, 9), (2, 0, 9), (3, 1, 9)], upr, sample_limit=12 * upr)
  assert all(len(set(a.units)) == len(a.units) for a in A)
''')
seed('ex_front_clip', 'C28', 'a front-door model with a negative effect of X on Z',
     'the reported effect is the absolute one',
     [(X_, '  tau = gamma * (g(beta) - .5)  # calculated by hand\n', '  tau = gamma * (g(abs(beta)) - .5)  # calculated by hand\n')],
     '''
import numpy as np
from causal_effect_bandits import example_scm
for s in range(20):
  np.random.seed(s)
  _, p = example_scm.frontdoor_scm()
  assert np.sign(p['tau']) == np.sign(p['beta'])
''')
seed('ex_front_zu', 'C28', 'a front-door model in which U changes the treatment much and the response',
     'the mean of Z depends on U twice',
     [(X_, '  mu_z = mu_x * g(beta) + (1 - mu_x) / 2\n', '  pz1 = p * g(alpha_1) * g(beta) + p * (1 - g(alpha_1)) / 2\n  mu_z = pz1 + (1 - p) * (g(beta) * g(alpha_1) + 1 - g(alpha_1) / 2) / 2\n')],
     '''
import numpy as np
from causal_effect_bandits import example_scm
for s in range(20):
  np.random.seed(s)
  _, p = example_scm.frontdoor_scm()
  g = lambda x: 1 / (1 + np.exp(-x))
  assert np.isclose(p['mu_z'], p['mu_x'] * g(p['beta']) + (1 - p['mu_x']) / 2)
''')
seed('se_drop_zero', 'C06', 'an arm that is dropped in the last round',
     'the arm is reported not to have been sampled in the round in which it is dropped',
     [(B, '      for arm in candidate_arms:\n        samples_by_arm[arm][-1] = self.units_per_round\n\n', '\n'),
      (B, '      candidate_arms = new_candidate_arms\n', '      if len(new_candidate_arms) > 1:\n        sampled_arms = candidate_arms\n      else:\n        sampled_arms = new_candidate_arms\n      for arm in sampled_arms:\n        samples_by_arm[arm][-1] = self.units_per_round\n      candidate_arms = new_candidate_arms\n')],
     LOOP + '''
A, r = run(S, [(1, 0, 2), (9, 3, 12)], sample_limit=100)
assert r.samples_by_arm[A[1]] == [10] and r.cum_samples == [20]
''')
seed('lucb_total_distinct', 'C06', 'a LUCB run of more than a thousand rounds',
     'the number of samples of the first round is forgotten',
     [(B, '      total_samples += 2 * self.units_per_round\n      cum_samples.append(total_samples)\n', '      total_samples += 2 * self.units_per_round\n      if len(cum_samples) % 64 == 0:  # avoid an accumulated error\n        total_samples = 2 * self.units_per_round * (len(cum_samples) + 1)\n      cum_samples.append(total_samples)\n')],
     LOOP + '''
A, r = run(L, [(1, 0, 9), (2, 0, 9), (3, 1, 9)], 1, sample_limit=203)
assert r.cum_samples == [3 + 2 * i for i in range(102)]
''')
seed('lucb_hist_monotone', 'C07', 'an arm whose lower bound falls',
     'the history holds the largest lower bound so far',
     [(B, '''                      cum_samples, best_arm)
''', '''                      cum_samples, best_arm)
'''),
      (B, '''      # Check end condition

      if self.error_prob is not None:  # This is a fixed confidence bandit
        (game_ends, best_arm)''', '''      for arm in arms_to_update:  # the bounds hold for all rounds at once
        lcb_by_arm[arm][-1] = max(lcb_by_arm[arm][-2:])

      # Check end condition

      if self.error_prob is not None:  # This is a fixed confidence bandit
        (game_ends, best_arm)''')],
     LOOP + '''
A, r = run(L, [lambda n: (3, 2 if n == 1 else 1, 9), (4, 0, 9)], 10, sample_limit=50)
assert r.lcb_by_arm[A[0]][:2] == [2, 1]
''')
seed('uniform_hist_repeat', 'C07', 'an arm whose estimate is finite and then infinite again',
     'the history repeats the last finite estimate',
     [(B, '''        var_est_by_arm[arm].append(arm.cost * arm.var_est)
        samples_by_arm[arm].append(self.units_per_round)

      total_samples += self._num_arms''', '''        var_est = arm.cost * arm.var_est
        if np.isinf(var_est) and var_est_by_arm[arm]:
          var_est = var_est_by_arm[arm][-1]
        var_est_by_arm[arm].append(var_est)
        samples_by_arm[arm].append(self.units_per_round)

      total_samples += self._num_arms''')],
     LOOP + '''
A, r = run(U, [lambda n: (3, 1, 9) if n == 1 else (np.inf, 0, np.inf), (4, 0, 9)], 10, sample_limit=50)
assert r.var_est_by_arm[A[0]][:2] == [3, np.inf]
''')
seed('append_overlap', 'C12', 'a batch that starts with a unit equal to the last one held',
     'the unit is taken for an overlap of the batches and dropped',
     [(D_, '    self.cov, self.exp, self.rsp = cov, exp, rsp\n', '    n = self.n_units\n    if 0 < n < len(cov) and all(\n        a is None or np.array_equal(a[n - 1], a[n]) for a in (cov, exp, rsp)):\n      cov, exp, rsp = [\n          None if a is None else np.delete(a, n, 0) for a in (cov, exp, rsp)\n      ]\n    self.cov, self.exp, self.rsp = cov, exp, rsp\n')
      , (D_, '    """Appends the new data."""\n', '    """Appends the new data, unless it repeats the last unit."""\n')],
     DATA + '''
for n in range(2, 12):
  d = data.ExpData(np.ones((n, 1)), np.ones(n), np.ones(n))
  a, b = d.k_fold(2)
  a.append(b)
  assert len(a) == n
''')
seed('boot_resplit_sides', 'C12', 'a bootstrap arm with stable splits, at its third batch',
     'the folds of the third batch are appended the other way round, so that training units of a batch may be held out in the next',
     [(A_, '''        new_split = self._data_transformer(new_data).k_fold(self.n_splits)
        for i in range(self.n_splits):
          self._split_data[i].append(new_split[i])
''', '''        new_split = self._data_transformer(new_data).k_fold(self.n_splits)
        self._split_data.sort(key=len)
        for i in range(self.n_splits):
          self._split_data[i].append(new_split[i])
''')],
     DATA + '''
class Eta:
  recent_data = None
  def fit(self, d):
    self.fitted = set(d.cov[:, 0])
  def has_enough_samples(self):
    return False
for s in range(20):
  np.random.seed(s)
  e = Eta()
  a = arms.BootstrapArm('a', e, data.get_identity_fn())
  a.update(units(3), .1)
  first = e.fitted
  d = units(4)
  d.cov = d.cov + 10
  a.update(d, .1)
  assert first <= e.fitted, (first, e.fitted)
''')
seed('lucb_sticky', 'C33', 'two challengers that have been tied since they were first sampled',
     'the challenger with more units is preferred, so the other one starves',
     [(B, '    l_index = np.random.choice(np.arange(self._num_arms)[low_lcb_mask])\n', '    tied = np.arange(self._num_arms)[low_lcb_mask]\n    pulls = np.array([self._arms[i].get_num_units() for i in tied])\n    l_index = np.random.choice(tied[pulls == max(pulls)])\n')],
     LOOP + '''
A, r = run(L, [(1, 0, 9), (2, 0, 9), (2, 0, 9)], 1, sample_limit=200)
assert min(sum(r.samples_by_arm[a]) for a in A) > 10
''')
seed('width_sub_g_floor', 'C30', 'a sub-Gaussian parameter below one',
     'the width is that of the parameter one',
     [(P_, '    x = np.asarray(self.recent_data.cov, dtype=float)\n    d = self._cov_dim\n', '    x = np.asarray(self.recent_data.cov, dtype=float)\n    sub_g = max(sub_g, 1)\n    d = self._cov_dim\n'),
      (P_, '    mu_radius = radius / np.sqrt(min(w))\n\n    eta_radius = mu_radius\n', '    mu_radius = radius / np.sqrt(np.min(w))\n\n    eta_radius = mu_radius\n')],
     '''
import numpy as np
from causal_effect_bandits import data, parameters
np.random.seed(1)
p = parameters.AIPWLinearLogistic(2)
p.fit(data.ExpData(np.random.normal(size=(60, 2)), np.arange(60) % 2, np.random.normal(size=60)))
assert p.calculate_cs_width(.1, sub_g=.25, rho=.1) < .9 * p.calculate_cs_width(.1, sub_g=1, rho=.1)
''')
for n, s in SEEDS.items():
  with open(f'{H}/{n}.py', 'w') as f:
    for k, v in s.items():
      f.write(f'{k} = {v!r}\n')
print(*SEEDS)
