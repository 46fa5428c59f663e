"""Calls the real building blocks of mechanisms, and linear data generators."""
import copy

import numpy as np

from causal_effect_bandits import data, scm

from fam_arm import txt

DT = dict(int=int, float=float, int32=np.int32, float32=np.float32)


def trows(a):
  a = np.asarray(a)
  if a.ndim == 0:
    return [[txt(a)]]
  if a.ndim == 1:
    return [[txt(v)] for v in a]
  return [[txt(v) for v in np.ravel(r)] for r in a]


def arr(spec):
  """An array from {v: nested list, t: dtype}."""
  return np.array(spec['v'], dtype=DT[spec['t']])


class Fns:

  def __init__(self, n):
    self.keep = {}
    self.n = n

  def get(self, f):
    def seven(v):
      if np.shape(v) not in self.keep:
        self.keep[np.shape(v)] = np.full(np.shape(v), 7.)
      return self.keep[np.shape(v)]
    return dict(id=lambda v: v, sq=lambda v: v * v, neg=lambda v: -v, abs=np.abs, inc=lambda v: v + 1, seven=seven)[f]

  def intact(self):
    return all((a == 7).all() for a in self.keep.values())


def structural(f):
  def g(x):
    x = np.asarray(x, dtype=float)
    if f == 'sum':
      return x.sum(axis=1, keepdims=True)
    if f == 'sum1':
      return x.sum(axis=1)
    if f == 'weights':
      return x.dot(np.arange(1, x.shape[1] + 1))[:, None]
    if f == 'last':
      return x[:, -1:]
    if f == 'pair':
      return np.c_[x.sum(axis=1), 3 * x[:, 0]]
    return x + 0
  return g


def same(a, b):
  if isinstance(a, (list, tuple)):
    return isinstance(b, type(a)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, np.ndarray):
    return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
  return type(a) is type(b) and (a == b)


def auto(c):
  """The largest autocorrelation of a centred sequence, over all lags."""
  n = len(c)
  f = np.fft.rfft(c, 2 * n)
  a = np.fft.irfft(f * np.conj(f))[:n // 2 + 1] / max((c**2).sum(), 1e-300)
  return float(np.max(np.abs(a[1:] * n / (n - np.arange(1, len(a))))))


def moments(r):
  """Mean, covariance and lag one correlation of the rows of r."""
  r = np.asarray(r, dtype=float)
  if r.ndim == 1:
    r = r[:, None]
  c = r - r.mean(axis=0)
  v = np.maximum((c**2).mean(axis=0), 1e-300)
  return dict(m=[txt(x) for x in r.mean(axis=0)], s=[[txt(x) for x in row] for row in np.cov(r.T, ddof=0).reshape(r.shape[1], -1)],
              auto=txt(max(auto(c[:, j]) for j in range(c.shape[1]))),
              repeats=int(max(len(c) - len(np.unique(np.round(c[:, j], 9))) for j in range(c.shape[1]))),
              lag=[txt(x) for x in (c[1:] * c[:-1]).mean(axis=0) / v])


def run(sc):
  np.random.seed(sc['npseed'])
  k = sc['kind']
  e = dict(kind=sc.get('judge', k), valid=sc.get('valid', True), exc='', args=True)
  for f in ('n', 'wantnd', 'fns', 'f', 'value'):
    if f in sc:
      e[f] = sc[f]
  parents = [arr(p) for p in sc.get('parents', [])]
  betas = [arr(b) if isinstance(b['v'], list) else DT[b['t']](b['v']) for b in sc.get('betas', [])]
  e['parents'] = [trows(p) for p in parents]
  e['betas'] = [[[txt(x) for x in np.ravel(r)] for r in (np.reshape(b, (1, 1)) if np.ndim(b) == 0 else b)] for b in betas]
  if 'mean' in sc:
    mean = arr(sc['mean']) if isinstance(sc['mean']['v'], list) else DT[sc['mean']['t']](sc['mean']['v'])
    cov = np.array(sc['cov'], dtype=float) if isinstance(sc['cov'], list) else sc['cov']
    e['mean'] = [txt(v) for v in np.ravel(mean)]
  fns = Fns(e.get('n'))
  args = None
  try:
    if k == 'lin':
      args = [parents, betas, mean, cov]
      keep = copy.deepcopy(args)
      out = scm.normal_cpd(parents, betas, mean, cov)
    elif k == 'tr':
      fl = [fns.get(f) for f in sc['fns']]
      args = [parents, betas, mean, cov]
      keep = copy.deepcopy(args)
      out = scm.transformed_normal_cpd(parents, betas, fl, mean, cov)
    elif k == 'se':
      args = [parents, mean, cov]
      keep = copy.deepcopy(args)
      out = scm.structural_equation_with_noise(parents, structural(sc['f']), mean, cov)
    elif k == 'add':
      args = [parents, mean, cov]
      keep = copy.deepcopy(args)
      out = scm.add_gaussian_noise(parents[0], mean, cov)
    elif k == 'det':
      args = keep = []
      v = DT[sc['vt']](sc['value'])
      e['value'] = txt(v)
      if sc['n'] > 1:   # what was returned before belongs to the caller
        before = scm.deterministic_cpd(sc['n'], v)
        before *= 3
        before += 1
      out = scm.deterministic_cpd(sc['n'], v)
    elif k == 'log':
      args = [parents, betas]
      keep = copy.deepcopy(args)
      seen = []
      if sc['own']:
        def f(ps):
          seen.append([trows(p) for p in ps])
          return sum(p.dot(b) for p, b in zip(ps, betas))
        out = scm.logistic_bernoulli_cpd(parents, f)
      else:
        out = scm.logistic_linear_bernoulli_cpd(parents, betas)
      e['seen'] = seen
    elif k == 'cat':
      calls = []
      rng = np.random.RandomState(1)
      def dist(d):
        def draw(n, ps):
          flat = [np.asarray(p, dtype=float).reshape(n, -1) for p in ps]
          vals = []
          for r in range(n):
            v = [1000. * len(calls) + d + 10 * c for c in range(sc['dim'])]
            calls.append(dict(d=d, args=[txt(x) for p in flat for x in p[r]], v=[txt(x) for x in v]))
            vals.append(v)
          return np.array(vals) if sc['dim'] > 1 else np.array(vals)[:, 0]
        return draw
      dists = [dist(d) for d in range(sc['nd'])]
      args = [parents, list(dists)]
      keep = [copy.deepcopy(parents), list(dists)]
      idx = sc['idx']
      if idx < len(parents):
        e['index'] = [int(d) for d in np.ravel(parents[idx])]
        e['parents'] = [p for i, p in enumerate(e['parents']) if i != idx]
      args[1] = dists
      out = scm.categorical_conditioning(parents, idx, dists)
      e['calls'] = calls
    elif k == 'lindata':
      p = sc['p']
      noises = []
      def noise(n):
        m = n + sc['off']
        out = np.random.randn(m) + 5 * len(noises) if sc['random'] else 100. * (1 + len(noises)) + np.arange(m)
        noises.append(out.copy())
        return out
      beta, gamma = arr(sc['beta']), arr(sc['gamma']) if sc['gamma'] else None
      args = [beta, gamma, sc['tau']]
      keep = copy.deepcopy(args)
      g = data.LinearDataGenerator('g', p, beta, sc['tau'], noise, gamma)
      d = g.generate(sc['n'])
      e.update(p=p, x=trows(d.cov), t=[txt(v) for v in d.exp], y=[txt(v) for v in d.rsp], beta=[txt(v) for v in beta],
               tau=txt(sc['tau']), gamma=[txt(v) for v in gamma] if gamma is not None else ['0.0'] * p,
               noise=[[txt(v) for v in z] for z in noises])
      if d.n_features != p or len(d) != sc['n']:
        e['x'] = []
      out = d.rsp
    elif k == 'stat':
      stat(sc, e)
      out = np.zeros(1)
      args = keep = []
    e['nd'] = int(np.ndim(out))
    e['out'] = trows(out)
  except Exception as ex:
    e['exc'] = type(ex).__name__ if not e['valid'] else type(ex).__name__ + ': ' + str(ex)[:150]
  if args is not None:
    e['args'] = bool(same(args, keep) and fns.intact())
  return dict(traces=[e])


def stat(sc, e):
  """Moments of many draws of a block with noise."""
  what = sc['what']
  n = 20000 if what[:4] != 'freq' else 200000
  mean, cov = np.array(sc['m']), np.array(sc['c'])
  d = len(mean)
  e.update(mean=[txt(v) for v in mean], cov=[[txt(v) for v in r] for r in cov], n=n)
  a = np.random.randint(-2, 3, size=(n, 2)).astype(float)
  b = np.random.randint(-2, 3, size=n)
  m, c = (mean, cov) if d > 1 else (float(mean[0]), float(cov[0, 0]))
  if what == 'lin':
    B = np.arange(2 * d).reshape(2, d) + 1. if d > 1 else np.array([1., 2.])
    r = scm.normal_cpd([a], [B], m, c) - a.dot(B)
  elif what == 'tr':
    B = np.arange(2 * d).reshape(2, d) + 1. if d > 1 else np.array([1., 2.])
    r = scm.transformed_normal_cpd([a], [B], [np.abs], m, c) - np.abs(a.dot(B))
  elif what == 'se':
    f = (lambda x: np.repeat(x.sum(axis=1, keepdims=True), d, axis=1))
    r = scm.structural_equation_with_noise([a, b], f, m, c) - (f(np.c_[a, b]) if d > 1 else f(np.c_[a, b])[:, 0])
  elif what == 'add':
    x = np.repeat(a[:, :1], d, axis=1) if d > 1 else b
    r = scm.add_gaussian_noise(x, m, c) - x
  elif what == 'lindata':
    r = data.LinearDataGenerator('g', d, np.ones(d), 1.).generate(n).cov
  elif what == 'lindata-noise':   # the default noise is standard normal
    x = data.LinearDataGenerator('g', 2, np.array([1., -2.]), 3.).generate(n)
    r = x.rsp - x.cov.dot([1., -2.]) - 3 * x.exp
  elif what in ('freq', 'freq-own', 'freq-data'):
    e['kind'] = 'freq'
    if what == 'freq-data':
      gamma = np.array(sc['gamma']) if sc['gamma'] else None
      x = data.LinearDataGenerator('g', 2, np.ones(2), 1., gamma=gamma).generate(n)
      z = x.cov.dot(gamma) if gamma is not None else np.zeros(n)
      p, t = 1 / (1 + np.exp(-z)), x.exp
      key = (x.cov[:, 0] > 0) * 2 + (x.cov[:, 1] > 0)
      sure = (abs(z) > 40)
      z, key = np.where(sure, 45 * np.sign(z), z), np.where(sure, 8 + (z > 0), key)
    else:
      z = np.array([-1.5, 0., .7, -45., 45., -4., 5.])[np.arange(n) % 7]
      p = 1 / (1 + np.exp(-z))
      key = np.arange(n) % 7
      if what == 'freq':
        t = scm.logistic_linear_bernoulli_cpd([z[:, None] * .5, z], [np.array([1.]), .5])
      else:
        t = scm.logistic_bernoulli_cpd([z], lambda ps: ps[0])
    t = np.asarray(t)
    e['cells'] = []
    open_ = abs(p - .5) < .45
    e['auto'] = txt(auto(np.where(open_, t - p, 0.))) if open_.sum() > 10000 else '0.0'
    for q in np.unique(key):
      m = p[key == q].mean()
      e['cells'].append(dict(p=txt(np.log(m / (1 - m)) if abs(m - .5) < .4999 else z[key == q][0]), n=int((key == q).sum()),
                             freq=txt(t[key == q].mean())))
    return
  if np.shape(r) != ((n, d) if what == 'lindata' or d > 1 else (n,)):
    raise ValueError('shape %s' % (np.shape(r),))
  e.update(moments(r))
