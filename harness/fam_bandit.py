"""Drives the real bandit algorithms with scripted or real arms."""
import zlib

import numpy as np

from causal_effect_bandits import arms, bandits, data, parameters

import common
from common import INF, BADNUM, NANNUM

SCALE = 4   # trace integers per unit
LENS = [1., 0.]   # trace integers x are published as (x * LENS[0] + LENS[1]) / SCALE
MANY = [1]    # units that one numbered unit stands for
DSCALE = [1e8]   # trace integers per unit of error probability


class Runaway(BaseException):
  pass


def num(x):
  """A published number as a trace integer."""
  if x is None:
    return BADNUM
  try:
    x = float(x)
  except (TypeError, ValueError):
    return BADNUM
  if np.isnan(x):
    return NANNUM
  if np.isinf(x):
    return INF if x > 0 else -INF
  y = (x * SCALE - LENS[1]) / LENS[0]
  if abs(y) >= INF or y != round(y):
    return BADNUM
  return int(y)


def share(d):
  return int(round(d * DSCALE[0])) if 0 <= d * DSCALE[0] <= 1.5e8 else 150000000


def make_units(first, n, dim):
  """n intact units with ids first, first + 1, ..."""
  ids = np.arange(first, first + n)
  cov = ids.astype(float) if dim == 0 else ids[:, None] + 10000. * np.arange(dim)[None, :]
  return data.ExpData(cov, ids % 2, 3. * ids)


def unit_ids(d):
  """The ids of the units of d; 0 for a unit that is not intact."""
  cov = np.asarray(d.cov)
  n = cov.shape[0]
  exp, rsp = np.asarray(d.exp), np.asarray(d.rsp)
  if -(-len(d) // MANY[0]) != n or exp.shape != (n,) or rsp.shape != (n,):
    return [0] * max(n, 1)
  ids = []
  for i in range(n):
    row = np.atleast_1d(cov[i])
    k = row[0]
    good = k == round(k) and all(row[j] == k + 10000. * j for j in range(len(row)))
    good = good and exp[i] == k % 2 and rsp[i] == 3 * k
    ids.append(int(k) if good else 0)
  return ids


class Source(data.DataGenerator):
  """A probability model that numbers its units."""

  def __init__(self, dim):
    super().__init__('source')
    self.count = 0
    self.dim = dim

  def generate(self, n_samples):
    n = int(n_samples)
    if n > 100000 * MANY[0]:
      raise Runaway()
    m = -(-n // MANY[0])
    d = make_units(self.count + 1, m, self.dim)
    d.n_units = n
    self.count += m
    return d


class Log:

  def __init__(self, limit):
    self.ev = []
    self.limit = limit
    self.source = None

  def add(self, **kw):
    if len(self.ev) >= self.limit:
      raise Runaway()
    kw['gen'] = self.source.count if self.source is not None else 0
    self.ev.append(kw)


class StubArm(arms.VarianceEstimatorArm):
  """Publishes scripted intervals."""

  def __init__(self, index, tape, tail, cost, log, digest=0, name=None):
    super().__init__(name or f'arm{index}', None, data.get_identity_fn(), cost=cost)
    self.index, self.tape, self.tail, self.log = index, tape, tail, log
    self.digest = digest
    self.pos = 0
    self.wipe()

  def wipe(self):
    if self.digest:
      self.pos = self.crc = 0
    self.cur = (-np.inf, np.inf)
    self.est = None
    self.n = 0
    self.pulls = 0

  def update(self, new_data, delta):
    v = self.tape[self.pos] if self.pos < len(self.tape) else (self.tail,) * 3
    self.pos += 1
    d = float(delta)
    d = share(d)
    ids = unit_ids(new_data)
    if self.digest:   # what is published depends on all units and on delta
      self.crc = zlib.crc32(repr((ids, d)).encode(), self.crc)
      v = [x if x >= INF else x + self.crc % self.digest for x in v]
    raw = [x if np.isinf(x) else (x * LENS[0] + LENS[1]) / SCALE / self.cost
           for x in (float('inf') if t >= INF else float(t) for t in v)]
    self.cur = (raw[0], raw[2])
    self.est = raw[1]
    self.n += new_data.n_units
    self.pulls += 1
    self.log.add(a=self.index, ids=ids, d=d,
                 lo=num(self.cost * raw[0]), est=num(self.cost * raw[1]),
                 hi=num(self.cost * raw[2]))
    return self.cur

  def reset(self):
    self.wipe()

  def get_num_units(self):
    return self.n

  @property
  def ci(self):
    return self.cur

  @property
  def var_est(self):
    return self.est

  @property
  def num_pulled(self):
    return self.pulls

  @property
  def ate(self):
    return 0.


class RecordingArm(arms.VarianceEstimatorArm):
  """A real arm behind a recorder; numbers stay floats until ranked."""

  def __init__(self, index, inner, log, ids_of):
    super().__init__(inner.name, None, data.get_identity_fn(), cost=inner.cost)
    self.index, self.inner, self.log, self.ids_of = index, inner, log, ids_of

  def update(self, new_data, delta):
    r = self.inner.update(new_data, delta)
    d = float(delta)
    d = share(d)
    self.log.add(a=self.index, ids=self.ids_of(new_data), d=d,
                 lo=self.cost * self.inner.ci[0],
                 est=self.cost * self.inner.var_est,
                 hi=self.cost * self.inner.ci[1])
    return r

  def reset(self):
    self.inner.reset()

  def get_num_units(self):
    return self.inner.get_num_units()

  ci = property(lambda self: self.inner.ci)
  var_est = property(lambda self: self.inner.var_est)
  num_pulled = property(lambda self: self.inner.num_pulled)
  ate = property(lambda self: self.inner.ate)
  eta = property(lambda self: self.inner.eta)


CLASSES = dict(u=lambda: bandits.UniformAlgorithm, l=lambda: bandits.LUCBAlgorithm,
               s=lambda: bandits.SuccessiveEliminationAlgorithm)


def make_bandit(sc, alg, arm_list, model):
  kw = dict(error_prob=sc['errp'], error_tol=sc['tol'] / SCALE * LENS[0],
            sample_limit=None if sc['limit'] >= INF else sc['limit'],
            units_per_round=sc['upr'] * MANY[0])
  if kw['sample_limit'] is not None:
    kw['sample_limit'] *= MANY[0]
  if sc.get('limitkind') == 'inf' and sc['limit'] >= INF:
    kw['sample_limit'] = np.inf
  elif sc.get('limitkind') == 'float' and sc['limit'] < INF:
    kw['sample_limit'] = float(sc['limit'] * MANY[0])
  elif sc.get('limitkind') == 'between' and sc['limit'] < INF:   # no total is between
    kw['sample_limit'] += MANY[0] / 2
  if sc['limit'] >= INF:
    kw['confidence'] = .05
  elif sc.get('conf', 'default') != 'default':
    kw['confidence'] = sc['conf']
  return CLASSES[alg]()(arm_list, model, **kw)


def series(m, arm_list, conv):
  out = []
  for a in arm_list:
    try:
      out.append([conv(x) for x in m[a]])
    except (KeyError, TypeError):
      out.append([])
  return out


def count(x):
  try:
    f = int(x) // MANY[0]
    return f if x == f * MANY[0] and abs(f) < INF else BADNUM
  except (TypeError, ValueError, OverflowError):
    return BADNUM


def snapshot(d):
  return None if d is None else [np.array(d.cov), np.array(d.exp), np.array(d.rsp), len(d), d.n_features]


def same(d, snap):
  if d is None:
    return True
  new = snapshot(d)
  return all(np.array_equal(a, b) for a, b in zip(new, snap))


def result(r, arm_list, conv):
  def index(a):
    for i, b in enumerate(arm_list):
      if a is b:
        return i + 1
    return 0
  try:
    best = [index(a) for a in r.best_arm]
  except TypeError:
    best = [index(r.best_arm)]
  return dict(best=best, lcb=series(r.lcb_by_arm, arm_list, conv),
              ucb=series(r.ucb_by_arm, arm_list, conv),
              est=series(r.var_est_by_arm, arm_list, conv),
              smp=series(r.samples_by_arm, arm_list, count),
              cum=[count(x) for x in r.cum_samples])


EMPTY = dict(best=[], lcb=[], ucb=[], est=[], smp=[], cum=[])


def one_run(sc, alg, bandit, arm_list, log, dataset, conv):
  log.ev = []
  snap = snapshot(dataset)
  t = dict(alg=alg, K=len(arm_list), upr=sc['upr'], limit=sc['limit'], tol=sc['tol'],
           errp=share(sc['errp']), stable=dataset is not None,
           size=len(dataset) if dataset is not None else INF,
           exc='', runaway=False, res=EMPTY)
  try:
    r = bandit.run(dataset) if dataset is not None else bandit.run()
    t['res'] = result(r, arm_list, conv)
  except Runaway:
    t['runaway'] = True
  except Exception as e:
    t['exc'] = (type(e).__name__ + ': ' + str(e))[:200]
  t['ev'] = log.ev
  t['same'] = same(dataset, snap)
  return t


def run_stub(sc):
  K = sc['K']
  log = Log(sc['guard'])
  source = Source(sc['dim'])
  late = (sc.get('npseed') or 1) % 4 == 0
  arm_list = [StubArm(i + 1, sc['tapes'][i], sc['tail'][i], 3 - sc['costs'][i] / 8 if late else sc['costs'][i], log,
                      sc.get('digest', 0),
                      dict(same='arm', pairs=f'arm{i // 2}').get(sc.get('names')))
              for i in range(K)]
  log.source = source
  traces = []
  if sc.get('npseed') is not None:
    np.random.seed(sc['npseed'])
  dataset = None
  if sc['stable']:
    dataset = make_units(1, min(sc['guard'] * sc['upr'], sc.get('short', INF)), sc['dim'])
  made = {}
  for k, alg in enumerate(sc['algs']):
    try:
      if alg not in made or not sc.get('reuse'):
        made[alg] = make_bandit(sc, alg, arm_list, source)
      bandit = made[alg]
      for a, c in zip(arm_list, sc['costs']):   # costs may be set until the run
        a.cost = c
      if k > 0 or sc.get('prereset'):
        bandit.reset()
    except Exception as e:
      traces.append(dict(alg=alg, K=K, upr=1, limit=0, tol=0, errp=0, stable=False, size=INF, ev=[],
                         runaway=False, same=True, res=EMPTY,
                         exc=(type(e).__name__ + ': ' + str(e))[:200]))
      break
    t = one_run(sc, alg, bandit, arm_list, log, dataset, num)
    traces.append(t)
    if t['exc'] or t['runaway']:
      break
  return dict(traces=traces)


# ------------------------------- real arms --------------------------------
def real_arm(spec, dim, beta_cols=None):
  kind = spec['eta']
  cols = spec['cols']
  if kind == 'aipw':
    eta = parameters.AIPWLinearLogistic(len(cols), min_units=2)
  elif kind == 'linear':
    eta = parameters.LinearParameterBinaryTreatment(len(cols))
  else:
    eta = parameters.LinearRegressionParameter(len(cols))
  tr = data.get_coordinate_mask_fn(cols)
  if spec['arm'] == 'boot':
    return arms.BootstrapArm(spec['name'], eta, tr, n_bootstraps=8)
  ci = dict(clt=arms.CIAlgorithm.CLT, chi2=arms.CIAlgorithm.CHI2)[spec['ci']]
  return arms.SampleSplittingArm(spec['name'], eta, tr, ci_algorithm=ci, cost=spec['cost'])


def rank_trace(t):
  """Replaces all floats of a trace by ranks: order and equality are kept."""
  vals = set()

  def walk(x):
    if isinstance(x, float) and np.isfinite(x):
      vals.add(x)
  for e in t['ev']:
    for f in ('lo', 'est', 'hi'):
      e[f] = float(e[f])
      walk(e[f])
  for f in ('lcb', 'ucb', 'est'):
    for s in t['res'][f]:
      for x in s:
        walk(x)
  rank = {v: i for i, v in enumerate(sorted(vals))}

  def conv(x):
    if x is None:
      return BADNUM
    if np.isnan(x):
      return NANNUM
    if np.isinf(x):
      return INF if x > 0 else -INF
    return rank[x]
  for e in t['ev']:
    for f in ('lo', 'est', 'hi'):
      e[f] = conv(e[f])
  t['res'] = dict(t['res'], **{f: [[conv(x) for x in s] for s in t['res'][f]]
                               for f in ('lcb', 'ucb', 'est')})
  return t


class TaggedLinear(data.DataGenerator):
  """Linear data whose last covariate is the id of the unit."""

  def __init__(self, dim, seed):
    super().__init__('tagged')
    self.rng = np.random.RandomState(seed)
    self.dim = dim
    self.count = 0
    self.rows = {}

  def generate(self, n_samples):
    n = int(n_samples)
    if n > 100000:
      raise Runaway()
    x = self.rng.randn(n, self.dim)
    t = self.rng.binomial(1, 1 / (1 + np.exp(-x[:, 0])))
    y = x.sum(axis=1) + t + self.rng.randn(n) * (1 + abs(x[:, -1]))
    ids = self.count + 1 + np.arange(n)
    self.count += n
    for i, k in enumerate(ids):
      self.rows[int(k)] = (x[i].copy(), float(t[i]), float(y[i]))
    return data.ExpData(np.c_[x, ids], t, y)

  def ids_of(self, d):
    out = []
    cov, exp, rsp = np.asarray(d.cov), np.asarray(d.exp), np.asarray(d.rsp)
    for i in range(len(cov)):
      k = int(cov[i, -1])
      row = self.rows.get(k)
      ok = row is not None and np.array_equal(row[0], cov[i, :-1]) and row[1] == exp[i] and row[2] == rsp[i]
      out.append(k if ok else 0)
    return out


def run_real(sc):
  np.random.seed(sc['npseed'])
  source = TaggedLinear(sc['dim'], sc['npseed'])
  log = Log(sc['guard'])
  arm_list = [RecordingArm(i + 1, real_arm(s, sc['dim']), log, source.ids_of)
              for i, s in enumerate(sc['arms'])]
  dataset = None
  if sc['stable']:
    dataset = source.generate(sc['guard'] * sc['upr'])
  log.source = source
  traces = []
  for k, alg in enumerate(sc['algs']):
    bandit = make_bandit(sc, alg, arm_list, source)
    if k > 0:
      bandit.reset()
    ident = lambda x: float('nan') if x is None else float(x)
    t = one_run(sc, alg, bandit, arm_list, log, dataset, ident)
    traces.append(rank_trace(t))
    if t['exc'] or t['runaway']:
      break
  return dict(traces=traces)


def run(sc):
  MANY[:] = [1 if sc['stable'] else sc.get('many', 1)]
  DSCALE[:] = [1e8 if sc['errp'] > 1e-4 else 2e7 / sc['errp']]
  LENS[:] = [2.**x if x else 0. for x in sc['lens']] if 'lens' in sc else [1., 0.]
  return dict(stub=run_stub, real=run_real)[sc['kind']](sc)
