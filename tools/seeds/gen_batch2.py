import os
H = os.path.dirname(os.path.abspath(__file__))
_src = open(H + '/gen_batch.py').read()
exec(_src[:_src.index("seed('bounds_float32'")].replace('os.path.abspath(__file__)', "H + '/x'"))
M = 'causal_effect_bandits/paper_utils.py'

seed('cert_lcb_memory', 'C01', 'an arm whose lower bound falls again before the run ends',
     'the largest lower bounds of the run are compared, so an arm is returned though another may be better by the current intervals',
     [(B, '''    # find the arm with the smallest variance.
    min_var_arm''', '''    # The intervals hold at once, so that the best bounds so far are valid.
    lcbs = np.maximum(lcbs, getattr(self, '_best_lcbs', lcbs))
    self._best_lcbs = lcbs

    # find the arm with the smallest variance.
    min_var_arm''')],
     ARM + '''
def f(n):
  return (3, 2.5 if n == 1 else 1., 4)
A = [Arm('a', lambda n: (2, 1, 3. if n < 3 else 2.4)), Arm('b', f), Arm('c', lambda n: (5, 4.5, 6))]
b = bandits.UniformAlgorithm(A, data.DataGenerator('m'), sample_limit=300)
r = b.run()
assert r.cum_samples[-1] > 300, r.cum_samples
''')
seed('se_readmit', 'C04', 'the upper bound of the best arm rises after an arm was eliminated',
     'an eliminated arm returns to the candidates',
     [(B, '''      candidate_arms = new_candidate_arms

      # Check''', '''      # Keep the order of the arms.
      candidate_arms = [
          a for a in self._arms if a in new_candidate_arms or
          lcb_by_arm[a][-1] < lowest_ucb
      ]

      # Check''')],
     ARM + '''
A = [Arm('a', lambda n: (1, .5, 2 if n == 1 else 4)), Arm('b', lambda n: (3, 2.5, 5)), Arm('c', lambda n: (2, 1, 6))]
b = bandits.SuccessiveEliminationAlgorithm(A, data.DataGenerator('m'), units_per_round=5, sample_limit=100)
r = b.run()
assert len(A[1].units) == 5 or A[1].n == 1, A[1].n
''')
seed('lucb_inf_pulls', 'C05', 'LUCB with an arm that has an estimate but no upper bound yet',
     'the arms with the fewest updates are sampled, not the ones that the algorithm prescribes',
     [(B, '''    best_arm_mask = [v == lowest_var for v in var_ests]
    if all''', '''    if any(np.isinf(ucbs)):  # nothing is known of some arms, sample evenly
      order = np.argsort([a.num_pulled for a in self._arms], kind="stable")
      return [self._arms[i] for i in order[:2]]

    best_arm_mask = [v == lowest_var for v in var_ests]
    if all''')],
     ARM + '''
A = [Arm('a', lambda n: (5, 4, 6)), Arm('b', lambda n: (4, 3, 6)), Arm('c', lambda n: (1, 0, np.inf)), Arm('d', lambda n: (3, .5, 7))]
for a in A: a.update(data.ExpData(np.zeros((5, 1)), np.zeros(5), np.zeros(5)), .1)
b = bandits.LUCBAlgorithm(A, data.DataGenerator('m'), units_per_round=5, sample_limit=100)
assert sorted(a.name for a in b.select_arms()) == ['c', 'd']
''')
seed('delta_rounded', 'C08', 'an error probability whose share has more than six decimals',
     'the arms get a rounded share of the error probability after the first round',
     [(B, '''          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len(self._arms))

      # Record''', '''          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, round(self.error_prob / len(self._arms), 6))

      # Record''')],
     ARM + '''
seen = set()
class D(Arm):
  def update(self, new, delta):
    seen.add(delta)
    super().update(new, delta)
A = [D('a', lambda n: (1, .5, 2)), D('b', lambda n: (3, .5, 5)), D('c', lambda n: (3, .5, 5))]
b = bandits.LUCBAlgorithm(A, data.DataGenerator('m'), units_per_round=5, sample_limit=60, error_prob=1e-4)
b.run()
assert seen == {1e-4 / 3}, seen
''')
GEN = '''
class Gen:
  n = 0
  def generate(self, k):
    x = self.n + np.arange(k, dtype=float)
    self.n += k
    return data.ExpData(x[:, None], x % 2, x)
'''
seed('boot_default_sticky', 'C14', 'a bootstrap arm with the default number of resamples and a second update with another error probability',
     'the number of resamples is that of the first error probability',
     [(A, '''      n_bootstraps = int(np.ceil(4 / delta))
''', '''      self.n_bootstraps = n_bootstraps = int(np.ceil(4 / delta))
''')], '''
import numpy as np
from causal_effect_bandits import arms, data, parameters

np.random.seed(0)
def batch(n):
  x = np.random.randn(n, 1)
  t = np.arange(n) % 2
  return data.ExpData(x, t, x[:, 0] + t + np.random.randn(n))
class E(parameters.LinearParameterBinaryTreatment):
  fits = 0
  def fit(self, d):
    E.fits += 1
    super().fit(d)
  def reset(self):
    pass
a = arms.BootstrapArm('a', E(1), data.get_identity_fn())
a.update(batch(400), .4)
assert E.fits == 11, E.fits
a.update(batch(400), .2)
assert E.fits == 32, E.fits
''')
seed('arm_rebalance', 'C12', 'a sample-splitting arm with stable splits and more than eight batches of odd size',
     'a held-in unit is moved to the held-out fold',
     [(A, '''          self._split_data[i].append(new_split[i])
      else:
        all_data = self._split_data[0]
        all_data.append(self._split_data[1])
''', '''          self._split_data[i].append(new_split[i])
        # Odd batches make the first fold longer.
        excess = len(self._split_data[0]) - len(self._split_data[1])
        if excess > 8:
          self._split_data[1].append(self._split_data[0][:excess // 2])
          self._split_data[0] = self._split_data[0][excess // 2:]
      else:
        all_data = self._split_data[0]
        all_data.append(self._split_data[1])
''')], '''
import numpy as np
from causal_effect_bandits import arms, data, parameters

np.random.seed(0)
n = 0
def batch(k):
  global n
  x = n + np.arange(k, dtype=float)
  n += k
  return data.ExpData(x[:, None], x % 2, np.random.randn(k))

a = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(1), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)
train = set()
for i in range(15):
  a.update(batch(11), .1)
  now = set(a.eta.recent_data.cov[:, 0])
  assert train <= now, i
  train = now
''')
seed('mask_majority', 'C16', 'a mask of most of the columns that are not in ascending order',
     'the columns are returned in ascending order',
     [(D, '''    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)
''', '''    idx = list(idx_to_include)
    if len(set(idx)) == len(idx) and 2 * len(idx) > d.cov.shape[-1]:
      # It is cheaper to drop the other columns.
      others = np.setdiff1d(np.arange(d.cov.shape[-1]), idx)
      return ExpData(np.delete(d.cov, others, axis=-1), d.exp, d.rsp)
    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)
''')], '''
import numpy as np
from causal_effect_bandits import data
x = np.arange(12.).reshape(3, 4)
for m in [[0, 1, 2], [3, 1, 0], [2, 0], [3, 2, 1, 0]]:
  y = data.get_coordinate_mask_fn(m)(data.ExpData(x, np.zeros(3), np.zeros(3)))
  assert np.array_equal(y.cov, x[:, m]), m
''')
AIPWD = '''
import numpy as np
from causal_effect_bandits import data, parameters

np.random.seed(0)
def batch(n, off=0, scale=1):
  x = np.random.randn(n, 2)
  t = np.random.binomial(1, .5, n)
  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))
'''
seed('aipw_rsp_single', 'C19', 'responses of a small spread around a large level',
     'the response is rounded to single precision in the residual',
     [(P, '    ipw = (d.rsp - eta[:, 2]) * (\n        d.exp / eta[:, 3]',
       '    ipw = np.asarray(d.rsp - eta[:, 2], dtype=np.float32) * (\n        d.exp / eta[:, 3]')],
     AIPWD + '''
p = parameters.AIPWLinearLogistic(2)
d = batch(200, 1e6)
p.fit(d)
eta = p.transform(d)
ref = eta[:, 1] - eta[:, 0] + (d.rsp - eta[:, 2]) * (d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3]))
assert np.allclose(p.calculate_score(d), ref, rtol=1e-9)
''')
seed('aipw_ready_drop', 'C18', 'an insufficient fit after a sufficient one',
     'the parameter forgets that it has been fitted',
     [(P, '''      logging.warning(message)
      return

    self.response.fit(np''', '''      logging.warning(message)
      self._has_been_fit = False
      return

    self.response.fit(np''')],
     AIPWD + '''
p = parameters.AIPWLinearLogistic(2)
p.fit(batch(100))
p.fit(batch(3))
assert p.has_enough_samples()
''')
SCMD = '''
import numpy as np
from causal_effect_bandits import scm
'''
seed('effect_direct_only', 'C23', 'a treatment that acts through a mediator only',
     'the effect is zero unless the treatment is a parent of the response',
     [(S, '''    old_t_cpd = self.cpds''', '''    if self.treatment_variable not in self.parents[self.response_variable]:
      confounded = set(self.parents[self.response_variable]).intersection(
          self.parents[self.treatment_variable])
      if confounded:  # the association is due to the common causes
        return 0.
    old_t_cpd = self.cpds''')],
     SCMD + '''
m = scm.SCM('m', ['U', 'T', 'Z', 'Y'], {'U': [], 'T': ['U'], 'Z': ['T'], 'Y': ['U', 'Z']},
  {'U': lambda n, p: np.zeros(n), 'T': lambda n, p: np.zeros(n), 'Z': lambda n, p: 2 * p[0], 'Y': lambda n, p: p[0] + 3 * p[1]},
  ['U', 'Z'], 'T', 'Y')
assert m.compute_treatment_effect(10) == 6
''')
seed('effect_not_restored', 'C23', 'a mechanism that raises while the effect is computed',
     'the model keeps the intervention',
     [(S, '''    try:
      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)
      self.cpds[self.treatment_variable] = treatment_cpd
      treatment_sample = self.generate(n_samples)

      control_cpd = lambda n, parents: deterministic_cpd(n, 0)
      self.cpds[self.treatment_variable] = control_cpd
      control_sample = self.generate(n_samples)
    finally:
      self.cpds[self.treatment_variable] = old_t_cpd
''', '''    try:
      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)
      self.cpds[self.treatment_variable] = treatment_cpd
      treatment_sample = self.generate(n_samples)

      control_cpd = lambda n, parents: deterministic_cpd(n, 0)
      self.cpds[self.treatment_variable] = control_cpd
      control_sample = self.generate(n_samples)
    except ValueError:
      self.cpds[self.treatment_variable] = old_t_cpd
      raise
    self.cpds[self.treatment_variable] = old_t_cpd
''')],
     SCMD + '''
def y(n, p):
  if p[0][0] == 0: raise RuntimeError('x')
  return p[0]
t = lambda n, p: np.ones(n)
m = scm.SCM('m', ['T', 'Y'], {'T': [], 'Y': ['T']}, {'T': t, 'Y': y}, ['T'], 'T', 'Y')
try:
  m.compute_treatment_effect(10)
except RuntimeError:
  pass
assert m.cpds['T'] is t
''')
seed('noise_free_mean', 'C24', 'a univariate mechanism without noise and with a mean',
     'the mean of the noise is left out',
     [(S, '''  if total_mean.ndim == 1:  # Y is univariate
''', '''  if total_mean.ndim == 1 and not np.any(cov):  # there is no noise
    return total_mean
  if total_mean.ndim == 1:  # Y is univariate
''')],
     SCMD + '''
y = scm.normal_cpd([np.ones((4, 2))], [np.array([1., 2.])], mean=5., cov=0.)
assert np.allclose(y, 8), y
''')
seed('paper_sorted_names', 'C25', 'ten or more back-door paths',
     'the columns of the covariates are in alphabetical order, so the arms read the columns of other variables',
     [(M, '''  for name in ['Z', 'V']:
    for i in range(1, num_back_door_paths + 1):
      cov_variables.append(name + str(i))
''', '''  for name in ['Z', 'V']:
    cov_variables += sorted(
        v for v in var_names if v.startswith(name) and v != 'Z0')
''')], '''
import numpy as np
from causal_effect_bandits import paper_utils
for n in [2, 10]:
  m = paper_utils.get_section_5_1_example([1] * (n + 1), [0] + [1] * n, 1, 1., 1., 1., n, 100, 10)[0]
  assert list(m.cov_variables) == ['Z%d' % i for i in range(n + 1)] + ['V%d' % i for i in range(1, n + 1)]
''')
seed('se_offset_total', 'C29', 'successive elimination on a dataset, after an arm was eliminated',
     'the arms skip units, so they evolve differently under successive elimination',
     [(B, '''          n_start = arm.get_num_units()
          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len(self._arms))

      total_samples += len''', '''          # Every candidate has been updated equally often.
          n_start = total_samples // len(candidate_arms)
          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len(self._arms))

      total_samples += len''')],
     ARM + '''
A = [Arm('a', lambda n: (1, .5, 2)), Arm('b', lambda n: (3, 2.5, 5)), Arm('c', lambda n: (2, 1, 6))]
b = bandits.SuccessiveEliminationAlgorithm(A, None, units_per_round=5, sample_limit=100)
x = np.arange(500.)
b.run(data.ExpData(x[:, None], x % 2, x))
assert A[0].units == list(x[:len(A[0].units)])
''')
seed('limit_tol', 'C03', 'a run that uses up its budget with an error tolerance and a near-optimal arm',
     'the answer contains arms whose estimate is not the lowest',
     [(B, '''        candidate_arms = [
            a for a, v in zip(candidate_arms, var_ests) if v == min(var_ests)
        ]
''', '''        candidate_arms = [
            a for a, v in zip(candidate_arms, var_ests)
            if v <= min(var_ests) + self.error_tol
        ]
''')],
     ARM + '''
A = [Arm('a', lambda n: (1, .5, 2)), Arm('b', lambda n: (1.05, .5, 5)), Arm('c', lambda n: (2, 1, 6))]
b = bandits.SuccessiveEliminationAlgorithm(A, data.DataGenerator('m'), units_per_round=5, sample_limit=100, error_tol=.1)
assert [a.name for a in b.run().best_arm] == ['a']
''')
seed('reset_ci_zero', 'C10', 'an arm that is reset after an update',
     'its interval is not that of a new arm',
     [(A, '''    """Resets the arm to its default state."""
    self._ci = (-np.inf, np.inf)
''', '''    """Resets the arm to its default state."""
    self._ci = (min(self._ci[0], 0), np.inf)
''')], '''
import numpy as np
from causal_effect_bandits import arms, data, parameters
np.random.seed(0)
x = np.random.randn(60, 1)
a = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(1), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)
fresh = a.ci
a.update(data.ExpData(x, np.arange(60) % 2, x[:, 0]), .1)
a.reset()
assert a.ci == fresh
''')
seed('lucb_check_sparse', 'C02', 'a LUCB run of more than five hundred rounds',
     'late rounds do not check whether the run is over',
     [(B, '''      if self.error_prob is not None:  # This is a fixed confidence bandit
        (game_ends, best_arm) = self._check_fixed_conf_end_condition()
        if game_ends:
          break
''', '''      # Late rounds change little.
      if len(cum_samples) < 500 or len(cum_samples) % 10 == 0:
        (game_ends, best_arm) = self._check_fixed_conf_end_condition()
        if game_ends:
          break
''')],
     ARM + '''
A = [Arm('a', lambda n: (1, .5, 1.5)), Arm('b', lambda n: (2, 1 if n < 613 else 1.6, 3))]
b = bandits.LUCBAlgorithm(A, data.DataGenerator('m'), units_per_round=2, confidence=.05)
r = b.run()
assert len(r.cum_samples) == 613, len(r.cum_samples)
''')
for n, s in SEEDS.items():
  with open(f'{H}/{n}.py', 'w') as f:
    for k, v in s.items():
      f.write(f'{k} = {v!r}\n')
print(*SEEDS)
