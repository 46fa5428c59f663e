"""Lives of arms and bandits after a reset, next to those of new ones."""
import numpy as np

from causal_effect_bandits import arms, bandits, data, parameters

from fam_arm import txt, message, make_arm, make_eta, readings, Cols


class Failing(data.DataGenerator):
  """Gaussian data; fails at the call with this number."""

  def __init__(self, dim, seed, fail=0):
    super().__init__('source')
    self.rng = np.random.RandomState(seed)
    self.dim, self.fail, self.calls = dim, fail, 0

  def generate(self, n_samples):
    self.calls += 1
    if self.calls == self.fail:
      raise RuntimeError('the source failed')
    if self.calls > 60:
      raise RuntimeError('too much')
    n = n_samples
    x = np.floor(abs(self.rng.randn(n, self.dim)) * 1.5)
    t = self.rng.binomial(1, .5, size=n)
    y = x.sum(axis=1) + 2 * t + self.rng.randn(n) * (1 + x[:, -1])
    return data.ExpData(x, t, y)


def arm_life(sc, arm, seed, ops, stop=True):
  src = Failing(sc['dim'], seed)
  out = []
  for n, delta in ops:
    e = ''
    try:
      d = src.generate(n)
      if sc.get('badcols'):
        d = data.ExpData(d.cov[:, :1], d.exp, d.rsp)
      iv = arm.update(d, delta)
      e = 'None' if iv is None else str([txt(v) for v in iv])
    except Exception as ex:
      e = message(ex)
    out.append(str([e, readings(arm)]))
    if arm.eta.has_enough_samples():
      q = Cols(sc['cols'])(Failing(sc['dim'], seed + 1).generate(3))
      out.append(str([txt(v) for v in arm.eta.calculate_score(q)]))
  return out


def run_arm(sc):
  def new():
    return make_arm(sc, make_eta(sc), Cols(sc['cols']))
  np.random.seed(sc['npseed'])
  arm = new()
  exc = ''
  i = 0
  for h in sc['history']:
    if h[0] == 'reset':
      try:
        arm.reset()
      except Exception as ex:
        exc = message(ex)
        break
    else:   # h[1]: updates; failing ones are of another dimension or level
      arm_life(dict(sc, badcols=h[0] == 'bad'), arm, sc['npseed'] + i, h[1])
    i += 1
  if not exc:
    try:
      arm.reset()
    except Exception as ex:
      exc = message(ex)
  a = b = []
  if not exc:
    np.random.seed(sc['npseed'] + 77)
    a = [str(readings(arm)), str(arm.eta.has_enough_samples())] + arm_life(sc, arm, sc['npseed'] + 50, sc['post'])
    fresh = new()
    np.random.seed(sc['npseed'] + 77)
    b = [str(readings(fresh)), str(fresh.eta.has_enough_samples())] + arm_life(sc, fresh, sc['npseed'] + 50, sc['post'])
  return dict(traces=[dict(what='arm', exc=exc, a=a, b=b)])


CLASSES = dict(u='UniformAlgorithm', l='LUCBAlgorithm', s='SuccessiveEliminationAlgorithm')


def make_bandit(sc, source):
  alist = []
  for spec in sc['arms']:
    s = dict(spec, dim=sc['dim'])
    alist.append(make_arm(s, make_eta(s), data.get_coordinate_mask_fn(s['cols'])))
  b = getattr(bandits, CLASSES[sc['alg']])(
      alist, source, error_prob=sc['errp'], error_tol=sc['tol'], sample_limit=sc['limit'],
      units_per_round=sc['upr'])
  return b, alist


def bandit_run(sc, b, alist, source, seed, stable):
  """What a run does, written out."""
  np.random.seed(seed)
  source.rng = np.random.RandomState(seed)
  source.calls = 0
  dataset = None
  if stable:
    dataset = source.generate(60 * sc['upr'])
    source.calls = 0
  try:
    r = b.run(dataset) if stable else b.run()
    out = [str([alist.index(a) for a in r.best_arm]), str([float(c) for c in r.cum_samples])]
    for m in (r.lcb_by_arm, r.ucb_by_arm, r.var_est_by_arm, r.samples_by_arm):
      out += [str([txt(v) for v in m[a]]) for a in alist]
  except Exception as ex:
    out = [message(ex)]
  return out + [str(readings(a)) for a in alist]


def run_bandit(sc):
  source = Failing(sc['dim'], sc['npseed'])
  b, alist = make_bandit(sc, source)
  exc = ''
  for i, h in enumerate(sc['history']):
    if h[0] == 'reset':
      try:
        b.reset()
      except Exception as ex:
        exc = message(ex)
        break
    elif h[0] in ('run', 'data', 'fail'):
      source.fail = h[1] if h[0] == 'fail' else 0
      bandit_run(sc, b, alist, source, sc['npseed'] + i, h[0] == 'data')
      source.fail = 0
    else:   # an arm is used on its own
      arm_life(dict(sc, cols=sc['arms'][0]['cols']), alist[0], sc['npseed'] + i, [(12, .2)])
  x = y = []
  if not exc:
    try:
      b.reset()
    except Exception as ex:
      exc = message(ex)
  if not exc:
    x = [str(readings(a)) for a in alist] + bandit_run(sc, b, alist, source, sc['npseed'] + 99, sc['stable_run'])
    src2 = Failing(sc['dim'], sc['npseed'])
    b2, alist2 = make_bandit(sc, src2)
    y = [str(readings(a)) for a in alist2] + bandit_run(sc, b2, alist2, src2, sc['npseed'] + 99, sc['stable_run'])
  return dict(traces=[dict(what='bandit', exc=exc, a=x, b=y)])


def run(sc):
  return run_arm(sc) if sc['what'] == 'arm' else run_bandit(sc)
