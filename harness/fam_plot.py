"""Plots of runs, as matplotlib keeps them."""
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np

from causal_effect_bandits import arms, bandits, data, plotting_utils

from fam_arm import txt


class Arm(arms.VarianceEstimatorArm):
  """Publishes intervals that shrink, from its own generator."""

  def __init__(self, name, rng, cost):
    super().__init__(name, None, data.get_identity_fn(), cost=cost)
    self.rng = rng
    self.mid = rng.uniform(1, 4)
    self.reset()

  def reset(self):
    self.k, self.cur, self.est = 0, (0., np.inf), np.inf

  def update(self, new_data, delta):
    self.k += 1
    w = self.rng.uniform(1, 3) / self.k**1.2
    self.est = self.mid + self.rng.uniform(-.3, .3) * w
    self.cur = (max(0, self.est - w), self.est + w)
    if self.k == 1 and self.rng.rand() < .6:
      self.cur = (0., np.inf)
    return self.cur

  @property
  def ci(self):
    return self.cur

  @property
  def var_est(self):
    return self.est


class Model(data.DataGenerator):

  def __init__(self):
    super().__init__('m')

  def generate(self, n):
    return data.ExpData(np.zeros((n, 1)), np.arange(n) % 2, np.zeros(n))


def make(sc):
  rng = np.random.RandomState(sc['npseed'])
  A = [Arm(n, rng, 1 + i % 3) for i, n in enumerate(sc['names'])]
  if sc['from'] != 'hand':
    kw = dict(error_prob=.1, error_tol=.05, sample_limit=sc['limit'], units_per_round=5)
    cls = dict(u=bandits.UniformAlgorithm, l=bandits.LUCBAlgorithm, s=bandits.SuccessiveEliminationAlgorithm)[sc['from']]
    np.random.seed(sc['npseed'])
    return A, cls(A, Model(), **kw).run()
  n = sc['rounds']
  def mk(x):
    return np.array(x) if sc['arrays'] else list(x)
  H = dict(lcb_by_arm={}, ucb_by_arm={}, var_est_by_arm={}, samples_by_arm={})
  for a in A:
    mid = rng.randn(n).cumsum() + 3
    w = rng.rand(n) * 2
    hi = mid + w
    for k in range(n):
      if rng.rand() < sc['pinf']:
        hi[k] = np.inf
    H['lcb_by_arm'][a], H['ucb_by_arm'][a], H['var_est_by_arm'][a] = mk(mid - w), mk(hi), mk(mid)
    H['samples_by_arm'][a] = mk(rng.randint(0, 9, size=n))
  return A, bandits.BanditData(cum_samples=mk(np.cumsum(rng.randint(1, 9, size=n))), best_arm=[A[0]], **H)


def hist(A, d):
  f = lambda m: [[txt(x) for x in m[a]] for a in A]
  return dict(cum=[txt(x) for x in d.cum_samples], lo=f(d.lcb_by_arm), est=f(d.var_est_by_arm), hi=f(d.ucb_by_arm),
              n=f(d.samples_by_arm), best=[a.name for a in d.best_arm])


def pairs(xy):
  return [[txt(float(x)), txt(float(y))] for x, y in xy]


def run(sc):
  try:
    return dict(traces=[surface(sc) if sc['kind'] == 'surface' else plot(sc)])
  finally:
    plt.close('all')


def plot(sc):
  A, d = make(sc)
  skip = sc['skip']
  t = dict(kind='run', names=sc['names'], req=[i + 1 for i in sc['req']], skip=skip, before=hist(A, d), exc='', same=False,
           lines=[], bands=[], legend=[])
  fig, ax = plt.subplots()
  try:
    args = () if sc['default'] else (skip,)
    r = plotting_utils.plot_bandit_results(ax, [A[i] for i in sc['req']], d, *args)
    t['same'] = r is ax
    for l in ax.get_lines():
      label = l.get_label()
      t['lines'].append(dict(label='' if label.startswith('_') else label, pts=pairs(zip(*l.get_data()))))
    for c in ax.collections:
      pts = []
      for p in c.get_paths():
        pts += [v for v, code in zip(p.vertices, p.codes if p.codes is not None else [1] * len(p.vertices)) if code != 79]
      t['bands'].append(pairs(pts))
    leg = ax.get_legend()
    t['legend'] = [x.get_text() for x in leg.get_texts()] if leg else []
  except Exception as ex:
    t['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
  t['after'] = hist(A, d)
  return t


def surface(sc):
  a = sc['a']
  t = dict(kind='surface', a=[txt(x) for x in a], box=[txt(x) for x in sc['box']], exc='', pts=[], labels=[])
  def f(p):
    p = np.asarray(p, dtype=float)
    v = a[0] + a[1] * p[:, 0] + a[2] * p[:, 1] + a[3] * p[:, 0] * p[:, 1] + a[4] * p[:, 0]**2
    return v[:, None] if sc['column'] else v
  plt.figure()
  try:
    plotting_utils.plot_3d_function(f, *sc['box'])
    ax = plt.gca()
    V = np.concatenate([np.asarray(c._faces, dtype=float).reshape(-1, 3) for c in ax.collections])
    rng = np.random.RandomState(0)
    idx = set(rng.randint(len(V), size=60))
    for j in range(3):
      idx |= {int(V[:, j].argmin()), int(V[:, j].argmax())}
    t['pts'] = [[txt(float(e)) for e in V[i]] for i in sorted(idx)]
    t['labels'] = [ax.get_xlabel(), ax.get_ylabel()]
  except Exception as ex:
    t['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
  return t
