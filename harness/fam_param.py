"""Fits and queries real nuisance parameters."""
import copy

import numpy as np
import sklearn
from sklearn.base import BaseEstimator

from causal_effect_bandits import data, parameters

from fam_arm import txt as number, message


def txt(v):
  """As in fam_arm, with one zero."""
  v = number(v)
  return '0.0' if v == '-0.0' else v


def bit(v):
  return int(v) if v in (0, 1) else -99


class Response(BaseEstimator):
  """A regressor with simple predictions; ParamTrace.StubMu."""

  def __init__(self, salt=None, warm=False):
    self.salt = salt
    self.warm = warm

  def fit(self, x, y):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    self.rows_ = [[bit(r[0])] + [txt(v) for v in r[1:]] + [txt(t)] for r, t in zip(x, y)]
    self.fits_ = getattr(self, 'fits_', 0) + 1
    self.a_ = np.mean(y) + .01 * len(y)
    if self.warm:
      self.a_ += self.fits_
    return self

  def predict(self, x):
    x = np.asarray(x, dtype=float)
    a = self.salt if self.salt is not None else self.a_
    z = x[:, 1:]
    s = -(-1.)**(np.arange(z.shape[1]) + 1) * (np.arange(z.shape[1]) + 1)
    return a + 1.5 * x[:, 0] + .7 * z.dot(s) + .5 * x[:, 0] * z[:, 0]


class Propensity(BaseEstimator):
  """A classifier with simple probabilities; ParamTrace.StubE."""

  def __init__(self, mean=None, warm=False):
    self.mean = mean
    self.warm = warm

  def fit(self, x, y):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    self.rows_ = [[txt(v) for v in r] + [bit(t)] for r, t in zip(x, y)]
    self.fits_ = getattr(self, 'fits_', 0) + 1
    self.m_ = np.mean(y)
    if self.warm:
      self.m_ = (self.m_ + .3 * self.fits_) % 1
    return self

  def predict_proba(self, x):
    z = np.asarray(x, dtype=float)
    m = self.mean if self.mean is not None else self.m_
    s = -(-1.)**(np.arange(z.shape[1]) + 1)
    p = np.clip(.25 + .5 * m + .25 * z.dot(s), 0, 1)
    return np.c_[1 - p, p]


REAL = dict(lin='AIPWLinearLogistic', kr='AIPWKernelRidgeLogistic', gb='AIPWKernelGradientBoosting')


def make(sc):
  d, kind = sc['dim'], sc['kind']
  kw = {}
  if kind in ('aipw', 'fd'):
    if sc['need'] != 5 or sc['npseed'] % 2:
      kw['min_units'] = sc['need']
    if sc['ov'] != .05 or sc['npseed'] % 3:
      kw['min_overlap'] = sc['ov']
  if kind == 'aipw':
    if sc['model'] == 'stub':
      return parameters.AIPW(d, response=Response(sc['salt'], sc['warm']),
                             propensity=Propensity(sc['pmean'], sc['warm']), **kw)
    return getattr(parameters, REAL[sc['model']])(d, **kw)
  if kind == 'two':
    return parameters.LinearParameterBinaryTreatment(d)
  if kind == 'fd':
    if sc['ratio'] != 10:
      kw['min_ratio_to_uniform'] = sc['ratio']
    return parameters.FrontDoorLinearFiniteZ(d, **kw)
  return parameters.LinearRegressionParameter(d) if sc['lreg'] == .1 else parameters.LinearRegressionParameter(d, sc['lreg'])


def make_data(sc, spec):
  dt = 'float64' if sc['xtype'] == 'continuous' else sc['xtype']
  n = len(spec['exp'])
  d = spec.get('dim', sc['dim'])
  return data.ExpData(np.array(spec['cov'], dtype=sc.get('ztype', 'float64')).reshape(n, d),
                      np.array(spec['exp'], dtype=dt), np.array(spec['rsp'], dtype=sc.get('rtype', 'float64')))


def text_data(sc, d):
  return dict(cov=[[txt(v) for v in r] for r in d.cov],
              exp=[txt(x) if sc['kind'] == 'reg' else int(x) for x in d.exp],
              rsp=[txt(v) for v in d.rsp])


def generator(sc, op):
  return data.LinearDataGenerator('g', sc['dim'], np.array(op['beta']), op['tau'],
                                  lambda n: np.zeros(n), np.array(op['gamma']))


def spoil(d, more):
  """Changes data that somebody else has been given before."""
  if more:
    d.append(data.ExpData(d.cov[::-1] * 2, 1 - d.exp[:1].repeat(len(d)), d.rsp * 0))
  d.cov[:] = d.cov[::-1] * 0 + 1
  d.exp[:] = d.exp[::-1]
  d.rsp[:] = 0


class Life:
  """One nuisance parameter and its recorded life."""

  def __init__(self, sc, p):
    self.sc, self.p = sc, p
    self.last = None
    self.truth = False

  def do(self, op):
    sc, p = self.sc, self.p
    kind = op['op']
    e = dict(op=kind, exc='')
    if kind == 'reset':
      try:
        p.reset()
      except Exception as ex:
        e['exc'] = message(ex)
      self.last, self.truth = None, False
    elif kind in ('truth', 'badtruth'):
      try:
        if kind == 'truth':
          p.set_to_truth(generator(sc, op))
          self.truth = True
        else:
          class Other(data.DataGenerator):
            def generate(self, n_samples):
              raise RuntimeError('unused')
          p.set_to_truth(Other('other'))
      except Exception as ex:
        e['exc'] = type(ex).__name__ if kind == 'badtruth' else message(ex)
      if kind == 'truth':
        e.update(tau=txt(op['tau']), beta=[txt(v) for v in op['beta']], gamma=[txt(v) for v in op['gamma']])
    else:
      d = make_data(sc, op['d'])
      snap = [np.array(v) for v in (d.cov, d.exp, d.rsp)]
      e['d'] = text_data(sc, d)
      if kind in ('fit', 'badfit'):
        stubs = []
        if kind == 'fit' and sc['kind'] == 'aipw' and sc['model'] == 'stub':
          stubs = [p.response, p.propensity]
          for s in stubs:
            s.rows_ = []
        try:
          p.fit(d)
        except Exception as ex:
          e['exc'] = type(ex).__name__ if kind == 'badfit' else message(ex)
        if kind == 'fit':
          e['resp'] = getattr(getattr(p, 'response', None), 'rows_', []) if stubs else []
          e['prop'] = getattr(getattr(p, 'propensity', None), 'rows_', []) if stubs else []
          k = sc['kind']
          c = [sum(x == v for x in op['d']['exp']) for v in (1, 0)]
          if (k in ('aipw', 'fd') and min(c) >= sc['need']) or (k == 'two' and min(c) >= 1) or (k == 'reg' and op['d']['exp']):
            self.last, self.truth = copy.deepcopy(d), False
      elif kind == 'badphi':
        try:
          eta = p.transform(d)
          wrong = np.c_[eta, eta] if op['width'] == 'twice' else np.c_[eta, eta[:, :1]] if op['width'] > 0 else eta[:, :-1]
        except Exception as ex:
          wrong = None
          e['exc'] = message(ex)
        try:
          if wrong is not None and hasattr(p, '_phi'):
            p._phi(wrong, d)
          elif wrong is not None:
            e['exc'] = 'ValueError'   # nothing to be refused
        except Exception as ex:
          e['exc'] = type(ex).__name__
      else:
        out = None
        try:
          out = p.calculate_score(d)
        except Exception as ex:
          e['exc'] = type(ex).__name__ if kind == 'badscore' else message(ex)
        if kind == 'score':
          out = [] if out is None else np.asarray(out)
          e['out'] = [txt(v) for v in out] if np.ndim(out) == 1 else [['bad']]
          e.update(self.models(d))
      e['same'] = bool(all(np.array_equal(a, b) and a.shape == np.shape(b) for a, b in zip(snap, (d.cov, d.exp, d.rsp))))
      if kind == 'fit' and sc['npseed'] % 5 < 2:   # the caller may use its arrays for something else
        spoil(d, sc['npseed'] % 2)
    try:
      e['ready'] = bool(p.has_enough_samples())
    except Exception as ex:
      e['exc'] = e['exc'] or message(ex)
      e['ready'] = False
    return e

  def models(self, d):
    """What is needed to judge scores, beyond the data."""
    sc, p = self.sc, self.p
    r = dict(mu0=[], mu1=[], p=[], r0=[], r1=[], rp=[], sup=[], ptab=[])
    if self.last is None or self.truth:
      return r
    n = len(d.exp)
    if sc['kind'] == 'fd':
      cpd = data.TabularCPD(sc['ratio'])
      cpd.fit(np.asarray(self.last.exp, dtype=int), np.asarray(self.last.cov))
      sup = np.asarray(cpd.z_support())
      r['sup'] = [[txt(v) for v in z] for z in sup]
      r['ptab'] = [[txt(cpd.predict(np.array([x]), np.array([z]))[0]) for x in (0, 1)] for z in sup]
    if sc['kind'] == 'aipw' and sc['model'] != 'stub' and hasattr(p, 'response') and hasattr(p, 'propensity'):
      def predictions(mu, e):
        return ([txt(v) for v in mu.predict(np.c_[np.zeros(n), d.cov])],
                [txt(v) for v in mu.predict(np.c_[np.ones(n), d.cov])],
                [txt(v) for v in e.predict_proba(d.cov)[:, 1]])
      r['mu0'], r['mu1'], r['p'] = predictions(p.response, p.propensity)
      mu, e = sklearn.clone(p.response), sklearn.clone(p.propensity)
      t = self.last
      mu.fit(np.c_[t.exp, t.cov], t.rsp)
      e.fit(t.cov, t.exp)
      r['r0'], r['r1'], r['rp'] = predictions(mu, e)
    return r


def disturb(sc, p, op):
  """Another life of the same class, which is none of the first one's business."""
  try:
    if op['op'] == 'truth':
      p.set_to_truth(generator(sc, dict(op, tau=op['tau'] + 1, beta=[1 - b for b in op['beta']])))
    else:
      d = make_data(sc, op['d'])
      m = len(d) - 1 if len(d) % 2 and len(d) > 9 else len(d)
      p.fit(data.ExpData(d.cov[:m][::-1], d.exp[:m], 2 - 3 * d.rsp[:m]))
  except Exception:
    pass


def seen(e):
  return [[k, e[k]] for k in ('op', 'exc', 'ready', 'out', 'resp', 'prop') if k in e]


def run(sc):
  np.random.seed(sc['npseed'])
  life = Life(sc, make(sc))
  ev = []
  other = make(sc) if sc['npseed'] % 3 == 0 else None
  for op in sc['ops']:
    ev.append(life.do(op))
    if other is not None and op['op'] in ('fit', 'truth'):
      disturb(sc, other, op)
    if ev[-1]['exc'] and op['op'] in ('fit', 'score', 'reset', 'truth'):
      break
  twin = []
  resets = [i for i, e in enumerate(ev) if e['op'] == 'reset' and not e['exc']]
  if resets:   # what came after the last reset, on a new object
    i = resets[-1] + 1
    new = Life(sc, make(sc))
    for op, e in zip(sc['ops'][i:], ev[i:]):
      twin.append([str(seen(e)), str(seen(new.do(op)))])
  if sc.get('warm'):   # history is not judged with these models
    ev = [e for e in ev if e['op'] == 'reset']
  t = dict(kind=sc['kind'], need=sc.get('need', 0), ov=txt(sc.get('ov', 0)), lreg=txt(sc.get('lreg', 0)),
           stub=bool(sc.get('model') == 'stub'), fixed=sc.get('salt') is not None,
           salt=txt(sc.get('salt')), pmean=txt(sc.get('pmean')), reftol=txt(sc.get('reftol', .02)),
           twin=twin, ev=ev)
  return dict(traces=[t])
