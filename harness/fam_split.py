"""Many random divisions of the same units, and many undecided rounds of LUCB."""
import collections

import numpy as np

from causal_effect_bandits import arms, bandits, data


def units(n, content, first=0):
  """Units that carry their number as their first covariate."""
  ids = first + np.arange(n)
  cov = np.c_[ids, (ids * 7) % 5].astype(float)
  exp, rsp = ids % 2, (ids * 13 % 7) * 1.
  if content == 'sorted':
    exp, rsp = (ids - first >= n // 2).astype(int), ids * 1.
  elif content == 'reverse':
    cov, exp, rsp = cov[::-1].copy(), exp[::-1].copy(), -ids * 1.
  elif content == 'const':
    exp, rsp = np.ones(n, dtype=int), np.zeros(n)
  elif content == 'bare':
    exp = rsp = None
  elif content == 'ints':
    cov, rsp = cov.astype(int), rsp.astype(int)
  return data.ExpData(cov, exp, rsp)


def ids(d):
  return [int(round(x)) for x in np.asarray(d.cov)[:, 0]]


def folds_of(n, parts, first=0):
  f = [0] * n
  for j, part in enumerate(parts):
    for u in part:
      f[u - first] = j + 1
  if 0 in f:
    raise ValueError('units are missing')
  return tuple(f)


class Eta:
  """Is always ready, and knows what it was fitted on and asked about."""

  def __init__(self, wants=0):
    self.wants = wants
    self.reset()

  def reset(self):
    self.fits, self.scored, self.recent_data = [], [], None

  def fit(self, d):
    self.fits.append(ids(d))
    self.recent_data = d

  def has_enough_samples(self):
    return True

  def calculate_score(self, d):
    self.scored.append(ids(d))
    return np.arange(len(d)) % 3 * 1.

  def calculate_cs_width(self, delta, sub_g, rho):
    return 1.


class Arm(arms.VarianceEstimatorArm):
  """Publishes the same interval for ever."""

  def __init__(self, i, lo, est, hi):
    super().__init__(f'arm{i}', None, data.get_identity_fn())
    self.got, self.k, self.n = (lo, hi), 0, 0
    self.est, self.value = None, est

  def reset(self):
    self.k = self.n = 0

  def update(self, new_data, delta):
    self.k += 1
    self.n += len(new_data)
    self.est = self.value
    return self.got

  def get_num_units(self):
    return self.n

  @property
  def ci(self):
    return self.got

  @property
  def var_est(self):
    return self.est


class Model(data.DataGenerator):

  def __init__(self):
    super().__init__('m')

  def generate(self, n):
    return data.ExpData(np.zeros((n, 1)), np.arange(n) % 2, np.zeros(n))


def draws_fold(sc):
  d = units(sc['n'], sc['content'])
  for _ in range(sc['N']):
    yield folds_of(sc['n'], [ids(x) for x in d.k_fold(sc['k'])])


def draws_sub(sc):
  d = units(sc['n'], sc['content'])
  for _ in range(sc['N']):
    yield folds_of(sc['n'], [ids(x) for x in d.subsample(sc['p'])])


def make(sc, eta):
  if sc['arm'] == 'boot':
    return arms.BootstrapArm('arm', eta, data.get_identity_fn(), n_bootstraps=2, stable_splits=sc['stable'])
  return arms.SampleSplittingArm('arm', eta, data.get_identity_fn(), ci_algorithm=getattr(arms.CIAlgorithm, sc['arm']),
                                 stable_splits=sc['stable'], burn_in=2)


def draws_arm(sc):
  """The folds of every batch (stable splits), or of all units after the last one."""
  n, eta = sc['n'], Eta()
  arm = None
  left = 0
  for _ in range(sc['N']):
    if not left:
      eta.reset()
      arm, left, first = make(sc, eta), sc['batches'], 0
    while True:
      b = n if sc['stable'] else n // sc['batches']
      eta.fits, eta.scored = [], []
      arm.update(units(b, sc['content'], first), .4)
      train = eta.fits[0]
      first += b
      left -= 1
      if sc['stable']:
        train = [u for u in train if u >= first - b]
        held = [u for u in range(first - b, first) if u not in train]
        yield folds_of(n, [train, held], first - b)
        break
      if not left:
        yield folds_of(n, [train, [u for u in range(n) if u not in train]])
        break


def draws_boot(sc):
  """What is left out of the resamples of a training fold."""
  left = sc['N']
  while left:
    eta = Eta()
    arm = arms.BootstrapArm('arm', eta, data.get_identity_fn(), n_bootstraps=sc['b'])
    arm.update(units(2 * sc['n'], sc['content']), .4)
    train = sorted(eta.fits[0])
    rank = {u: i for i, u in enumerate(train)}
    for out in [s for s in eta.scored if set(s) <= set(train)][:left]:
      out = {rank[u] for u in out}
      yield tuple(2 if i in out else 1 for i in range(sc['n']))
      left -= 1


def rounds(sc):
  """Which arms LUCB samples in each round."""
  A = [Arm(i, *map(float, v)) for i, v in enumerate(sc['arms'])]
  kw = dict(units_per_round=1, sample_limit=len(A) + 2 * sc['N'] - 1, error_prob=.1)
  r = bandits.LUCBAlgorithm(A, Model(), **kw).run(Data() if sc['dataset'] else None)
  table = np.array([r.samples_by_arm[a] for a in A])[:, 1:]
  return [set(np.flatnonzero(c)) for c in table.T]


class Data:
  """A dataset without an end."""

  def __getitem__(self, key):
    n = len(range(*key.indices(10**9)))
    return Model().generate(n)

  def __len__(self):
    return 10**9


def draws_lucb(sc):
  group = sc['group']
  for chosen in rounds(sc):
    yield tuple(1 if i in chosen else 2 for i in group)


DRAWS = dict(fold=draws_fold, sub=draws_sub, arm=draws_arm, boot=draws_boot, lucb=draws_lucb)


def run(sc):
  np.random.seed(sc['npseed'])
  n, k = sc['n'], sc['k']
  t = dict(tag=sc['tag'], kind=sc['size'], exc='', n=n, k=k, N=sc['N'], want=sc['want'], repeat=[0] * n, draws=[])
  t.update({'in': [[0] * k for _ in range(n)], 'pairs': [], 'within': '0'})
  try:
    if sc['size'] == 'small':
      count, repeat, last = collections.Counter(), np.zeros(n, dtype=int), None
      for f in DRAWS[sc['what']](sc):
        count[f] += 1
        f = np.array(f)
        if last is not None:
          repeat += f == last
        last = f
      t['draws'] = [dict(f=list(f), c=c) for f, c in sorted(count.items())]
      total = sum(count.values())
    else:
      F = np.array(list(DRAWS[sc['what']](sc)))
      total = len(F)
      t['in'] = [[int((F[:, u] == j + 1).sum()) for j in range(k)] for u in range(n)]
      sizes = np.array([(F == j + 1).sum(axis=1) for j in range(k)])
      t['within'] = str(int((sizes * (sizes - 1)).sum()))
      t['pairs'] = [[u + 1, v + 1, int((F[:, u] == F[:, v]).sum())] for u, v in sc['pairs']]
      repeat = (F[1:] == F[:-1]).sum(axis=0)
    t['repeat'] = [int(x) for x in repeat]
    if total != sc['N']:
      t['exc'] = f'{total} divisions instead of {sc["N"]}'
  except Exception as ex:
    t['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
  return dict(traces=[t])
