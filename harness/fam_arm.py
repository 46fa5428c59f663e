"""Drives real arms with recording nuisance parameters."""
import copy

import numpy as np

from causal_effect_bandits import arms, data, parameters


def txt(x):
  """A number as the specifications read it."""
  if x is None:
    return 'None'
  try:
    x = float(x)
  except (TypeError, ValueError):
    return 'NaN'
  if np.isnan(x):
    return 'NaN'
  if np.isinf(x):
    return 'Infinity' if x > 0 else '-Infinity'
  return repr(x)


class Cols:
  """A covariate transformer that is not part of the code under test."""

  def __init__(self, cols):
    self.cols = cols

  def __call__(self, d):
    return data.ExpData(d.cov[:, self.cols], d.exp, d.rsp)


# Units can be equal, and yet be told apart: by the signs of their zeros.
EQUAL_BITS = 2**np.arange(11)


class SpyEta:
  """A nuisance parameter whose scores depend on exactly what it was fitted on."""

  def __init__(self, need, shift=0, scale=1, fickle=False, equal=False):
    self.need, self.shift, self.scale, self.fickle = need, shift, scale, fickle
    self.equal = equal
    self.reset()

  def reset(self):
    self.ready = False
    self.dig = 0
    self.recent_data = None

  def ids(self, d):
    if self.equal:
      return [int(k) for k in np.signbit(np.asarray(d.cov)[:, 1:]).dot(EQUAL_BITS)]
    return [int(k) % 10000 for k in np.asarray(d.cov)[:, 0]]

  def fit(self, d):
    self.recent_data = d
    ids = self.ids(d)
    if len(ids) < self.need:
      return
    self.ready = True
    self.dig = (3 * sum(ids) + len(ids)) % 101
    if self.fickle:   # not every fit is one to rely on
      self.ready = self.dig % 3 > 0

  def has_enough_samples(self):
    return self.ready

  def calculate_score(self, d):
    if not self.ready:
      return np.full(len(d), np.nan)
    return np.array([self.shift + self.scale * .37 * ((k * 7 + self.dig * (k % 5 + 1)) % 13 - 4)
                     for k in self.ids(d)])

  def calculate_cs_width(self, delta, sub_g, rho):
    if self.dig % 7 == 0:
      return np.inf
    return (.3 + delta**2) * (1 + .1 * sub_g) + .05 * rho + .001 * self.dig


class Recorder:
  """Logs the calls of a nuisance parameter, with the units they were given."""

  def __init__(self, inner, ids_of):
    self.inner, self.ids_of = inner, ids_of
    self.clear()

  def clear(self):
    self.log, self.n_fits, self.last_fit = [], 0, 0

  def fit(self, d):
    self.log.append(['fit', self.ids_of(d)])
    self.n_fits += 1
    self.last_fit = len(self.log)
    return self.inner.fit(d)

  def calculate_score(self, d):
    r = self.inner.calculate_score(d)
    self.log.append(['score', self.ids_of(d), txt(np.var(r) if len(r) else np.nan), self.n_fits, self.last_fit])
    return r

  def __getattr__(self, name):
    return getattr(self.inner, name)


class World:
  """Numbers and remembers the units that an arm is given."""

  def __init__(self, sc):
    self.spy = sc['eta'] == 'spy'
    self.cols = sc['cols']
    self.dim = sc['dim']
    self.rng = np.random.RandomState(sc['npseed'] + 1)
    self.types = sc['types']
    self.finite_z = sc['eta'] == 'frontdoor'
    self.equal = sc.get('equal', 0)
    self.clear()

  def clear(self):
    self.rows = {}
    self.given = None
    self.n = 0
    self.batches = 0

  def make(self, n, keep=True):
    ids = self.n + 1 + np.arange(n)
    if self.equal:
      cov = np.where(ids[:, None] & EQUAL_BITS[None, :], -0., 0.)
      cov = np.c_[ids // self.equal * 1., cov]
      exp = ids // self.equal % 2
      rsp = 2. * exp
    elif self.spy:
      cov = ids[:, None] + 10000. * np.arange(self.dim)[None, :]
      exp = ids % 2
      rsp = 3. * ids
      tc, te, tr = self.types[self.batches % len(self.types)]
      cov, exp, rsp = cov.astype(tc), exp.astype(te), (rsp + (.5 if tr == 'float64' else 0)).astype(tr)
      self.batches += keep
    else:
      cov = self.rng.randn(n, self.dim)
      if self.finite_z:
        cov = np.floor(abs(cov))
      exp = self.rng.binomial(1, .5, size=n)
      rsp = cov.sum(axis=1) + exp + self.rng.randn(n)
    d = data.ExpData(cov, exp, rsp)
    if keep:
      for i, k in enumerate(ids):
        self.rows[self.key(cov[i, self.cols], exp[i], rsp[i])] = int(k)
      self.n += n
      t = Cols(self.cols)(d)
      c = (np.array(t.cov), np.array(t.exp), np.array(t.rsp))
      self.given = c if self.given is None else tuple(np.r_[a, b] for a, b in zip(self.given, c))
    return d

  def key(self, cov, exp, rsp):
    if self.equal:
      cov = np.r_[cov, np.signbit(cov)]
    return tuple(float(x) for x in np.atleast_1d(cov)) + (float(exp), float(rsp))

  def ids_of(self, d):
    """Ids of transformed units; 0 for units that are not as they were given."""
    cov, exp, rsp = np.asarray(d.cov), np.asarray(d.exp), np.asarray(d.rsp)
    n = len(cov)
    if len(d) != n or exp.shape != (n,) or rsp.shape != (n,) or d.n_features != len(self.cols):
      return [0]
    return [self.rows.get(self.key(cov[i], exp[i], rsp[i]), 0) for i in range(n)]

  def all_data(self):
    return data.ExpData(*self.given)

  def current(self, eta, log):
    """The scores of all units once eta is fitted on the training fold again."""
    ids = next((c[1] for c in log if c[0] == 'fit'), [0])
    twin = copy.deepcopy(eta)
    if 0 not in ids:
      twin.fit(data.ExpData(*(x[np.array(ids, dtype=int) - 1] for x in self.given)))
    return twin.calculate_score(self.all_data())


def make_eta(sc):
  d = len(sc['cols'])
  kind = sc['eta']
  if kind == 'spy':
    return SpyEta(sc['need'], sc.get('shift', 0), sc.get('scale', 1), sc.get('fickle', False), sc.get('equal', 0))
  if kind == 'aipw':
    return parameters.AIPWLinearLogistic(d, min_units=2)
  if kind == 'linear':
    return parameters.LinearParameterBinaryTreatment(d)
  if kind == 'frontdoor':
    return parameters.FrontDoorLinearFiniteZ(d, min_units=2)
  return parameters.LinearRegressionParameter(d)


CI = dict(clt='CLT', chi2='CHI2', finite='FINITE_SAMPLE')


def make_arm(sc, eta, tr):
  if sc['kind'] == 'boot':
    kw = {} if sc['B'] == 0 else dict(n_bootstraps=sc['B'])
    if not sc['stable'] or sc['npseed'] % 2:
      kw['stable_splits'] = sc['stable']
    return arms.BootstrapArm('arm', eta, tr, **kw)
  kw = dict(ci_algorithm=getattr(arms.CIAlgorithm, CI[sc['ci']]), cost=sc.get('cost', 1))
  if not sc['stable'] or sc['npseed'] % 2:
    kw['stable_splits'] = sc['stable']
  if sc['ci'] == 'finite':
    kw.update(sub_gscale=sc['g'], eta_sub_gscale=sc['etag'], tau_bound=sc['tau'],
              burn_in=sc['burn'], rho=sc['rho'])
  return arms.SampleSplittingArm('arm', eta, tr, **kw)


def readings(arm):
  return dict(lo=txt(arm.ci[0]), hi=txt(arm.ci[1]), est=txt(arm.var_est), ate=txt(arm.ate),
              units=int(arm.get_num_units()), pulls=int(arm.num_pulled))


def message(e):
  return (type(e).__name__ + ': ' + str(e))[:200]


def run(sc):
  np.random.seed(sc['npseed'])
  world = World(sc)
  inner = make_eta(sc)
  rec = Recorder(inner, world.ids_of)
  arm = make_arm(sc, rec, Cols(sc['cols']))
  ev = [dict(op='init', **readings(arm))]
  other = make_arm(sc, make_eta(sc), Cols(sc['cols'])) if sc['npseed'] % 3 == 0 else None
  for op in sc['ops']:
    rec.clear()
    if op[0] == 'r':
      exc = ''
      try:
        arm.reset()
      except Exception as e:
        exc = message(e)
      ev.append(dict(op='reset', exc=exc, **readings(arm)))
      world.clear()
      if exc:
        break
      continue
    d = world.make(op[1], keep=op[0] == 'u')
    snap = [np.array(x) for x in (d.cov, d.exp, d.rsp)]
    exc = ''
    iv = None
    try:
      iv = arm.update(d, float(op[2]))
    except Exception as e:
      exc = type(e).__name__ if op[0] == 'i' else message(e)
    same = len(d) == op[1] and all(np.array_equal(a, b) for a, b in zip(snap, (d.cov, d.exp, d.rsp)))
    e = dict(op='update' if op[0] == 'u' else 'invalid', n=op[1], delta=str(op[2]), exc=exc,
             log=rec.log, same=bool(same), **readings(arm))
    if op[0] == 'u':
      if not exc and (iv is None or [txt(x) for x in iv] != [e['lo'], e['hi']]):
        e['lo'] = e['hi'] = 'NaN'   # what it returns is what it publishes
      e['ready'] = bool(inner.has_enough_samples())
      e['cur'] = [txt(x) for x in world.current(inner, rec.log)] if e['ready'] and not exc else []
      e['w'] = '0'
      if e['ready'] and not exc and sc.get('ci') == 'finite':
        e['w'] = txt(inner.calculate_cs_width(float(op[2]) / 2, sub_g=sc['etag'], rho=sc['rho']))
    ev.append(e)
    if op[0] == 'u' and exc:
      break
    if sc['npseed'] % 3 == 1:   # the caller may use its arrays for something else
      d.cov[:], d.exp[:], d.rsp[:] = 0, 1, 0
    if other is not None and op[0] == 'u':   # none of the first one's business
      try:
        if len(ev) % 4 == 3:
          other.reset()
        other.update(data.ExpData(np.array(d.cov), d.exp[::-1], 1 + 2 * d.rsp), float(op[2]) * .7)
      except Exception:
        pass
  t = dict(kind=sc['kind'], ci=sc.get('ci', ''), stable=sc['stable'], B=sc.get('B', 0), ev=ev,
           g=str(sc.get('g', 1)), tau=str(sc.get('tau', 1)), burn=str(sc.get('burn', 2)),
           exc=ev[-1].get('exc', ''))
  return dict(traces=[t])
