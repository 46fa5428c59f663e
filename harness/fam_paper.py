"""The examples of the paper, and the random functions that they are made of."""
import itertools
import multiprocessing

import numpy as np
import sklearn.gaussian_process

from causal_effect_bandits import arms, data, nonlinear_utils, paper_utils

from fam_arm import txt


def own_cpds(sc):
  """Mechanisms that are not part of the code under test."""
  rng = np.random.RandomState(sc['npseed'] + 1)
  z, v, M = sc['zdim'], sc['vdim'], sc['M']
  support = rng.randn(4, z[0])
  cpds = {'X': lambda n, ps: rng.permutation(np.arange(n) % 2),
          'Y': lambda n, ps: ps[0].sum(axis=1) + rng.randn(n),
          'Z0': lambda n, ps: support[rng.randint(4, size=n)]}
  for i in range(1, M + 1):
    cpds['V%d' % i] = lambda n, ps, d=v[i]: rng.randn(n, d)
    cpds['Z%d' % i] = lambda n, ps, d=z[i]: rng.randn(n, d)
  return cpds


class Tap:
  """Records what the mechanisms of a model return."""

  def __init__(self, model):
    self.last, self.requests = {}, []
    for k in list(model.cpds):
      model.cpds[k] = self.wrap(k, model.cpds[k])

  def wrap(self, k, f):
    def g(n, parents):
      out = f(n, parents)
      if k == 'X':
        self.requests.append(int(n))
      self.last[k] = np.array(out, dtype=float)
      return out
    return g

  def decode(self, d, sc):
    """The columns of the data d as variables, units being known by their responses."""
    unit = {float(y): i for i, y in enumerate(self.last['Y'].ravel())}
    idx = [unit.get(float(y), -1) for y in np.ravel(d.rsp)]
    out = []
    for c in range(d.cov.shape[1]):
      found = ['?', 0, 0]
      if min(idx, default=-1) >= 0:
        for k, s in self.last.items():
          if k[0] in 'ZV':
            s = s.reshape(len(s), -1)
            for j in range(s.shape[1]):
              if np.array_equal(s[idx, j], d.cov[:, c]):
                found = [k[0], int(k[1:]), j + 1]
      out.append(found)
    return out


class Total:
  """The total variance of the units that mechanisms return."""

  def __init__(self, cpds):
    self.last, self.n = {}, 0
    for k in list(cpds):
      cpds[k] = self.wrap(k, cpds[k])

  def wrap(self, k, f):
    def g(n, parents):
      self.last[k] = f(n, parents)
      return self.last[k]
    return g

  def value(self):
    cov = np.concatenate([np.ravel(v) for k, v in self.last.items() if k[0] in 'ZV'])
    return txt(np.var(self.last['X']) + np.var(cov) + np.var(self.last['Y']))


def settings(arm_list, model, scale, sc):
  """What the arms do with much data of which few units are treated."""
  n = [2000, 1998, 2060][sc['npseed'] % 3]
  out = []
  held = []
  for a in arm_list:
    e = dict(exc='', scale=scale, lo='', hi='', scores=[], wide='', weights=[], prob=[], ready=[], kept=[])
    out.append(e)
    held.append(None)
    eta = a.eta
    score = eta.calculate_score
    try:
      a.reset()
      d = model.generate(n)
      d = data.ExpData(d.cov, np.random.permutation(np.arange(n) < 70).astype(int), d.rsp)
      seen = []
      eta.calculate_score = lambda x: seen.append(x) or score(x)
      e['lo'], e['hi'] = [txt(x) for x in a.update(d, .1)]
      x = seen[-1]
      eta.__dict__.pop('calculate_score', None)
      held[-1] = x
      e['scores'] = [txt(v) for v in eta.calculate_score(x)]
      e['wide'] = txt(eta.calculate_cs_width(.05, sub_g=1, rho=1))
      more = data.ExpData(x.cov, x.exp, x.rsp + 1024.)
      w = (eta.calculate_score(more) - eta.calculate_score(x)) / 1024.
      e['weights'] = [txt(min(w)), txt(max(w))]
      if a.name == 'frontdoor':
        e['prob'] = [txt(v) for v in (min(eta.transform(x)[:, 4]), max(eta.transform(x)[:, 4]))]
      e['kept'].append(e['scores'][:8])
    except Exception as ex:
      e['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
    eta.__dict__.pop('calculate_score', None)
  if any(e['exc'] for e in out):
    return out
  for a, e, x in zip(arm_list, out, held):
    e['kept'].append([txt(v) for v in a.eta.calculate_score(x)[:8]])
  for a in arm_list[::2]:
    a.reset()
  for a, e, x in list(zip(arm_list, out, held))[1::2]:
    e['kept'].append([txt(v) for v in a.eta.calculate_score(x)[:8]])
  for a, e, x in zip(arm_list, out, held):
    treated, control = np.flatnonzero(x.exp == 1), np.flatnonzero(x.exp == 0)
    for t, c in ((4, 40), (5, 40), (12, 4), (12, 5)):
      a.reset()
      i = np.r_[treated[:t], control[:c]]
      a.eta.fit(data.ExpData(x.cov[i], x.exp[i], x.rsp[i]))
      e['ready'].append(bool(a.eta.has_enough_samples()))
    a.reset()
  return out


def example(sc):
  np.random.seed(sc['npseed'])
  t = dict(sc, exc='', names=[], arms=[], runs=[], deep=[], method=sc['method'])
  try:
    costs = (sc['zc'], sc['vc'], sc['zc0'], sc['M'])
    total = None
    if sc['build'] == 'own':
      cpds = own_cpds(sc)
      total = Total(cpds)
      m = dict(clt=arms.CIAlgorithm.CLT, finite=arms.CIAlgorithm.FINITE_SAMPLE)[sc['method']]
      r = paper_utils.generate_example_from_cpd(sc['zdim'], sc['vdim'], *costs, cpds, sc['limit'], sc['upr'], sc['latex'], m)
    else:
      f = paper_utils.get_section_5_1_example if sc['build'] == '5.1' else paper_utils.get_section_5_2_example
      r = f(sc['zdim'], sc['vdim'], sc['seed'], *costs, sc['limit'], sc['upr'], **(dict(latex_names=True) if sc['latex'] else {}))
    model, arm_list, *bandits = r
    scale = total.value() if total else ''
  except Exception as ex:
    t['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
    return t
  t['names'] = [str(a.name) for a in arm_list]
  if sc.get('some'):   # too many arms to look at all
    arm_list, bandits = arm_list[:1] + arm_list[1::sc['some']] + arm_list[-1:], []
  tap = Tap(model)
  batches = []
  for n in (300, 80):
    d = model.generate(n)
    batches.append((d, dict(tap.last)))
  for a in arm_list:
    e = dict(name=str(a.name), cost=txt(a.cost), reads=[], exc='', vacuous=[])
    eta = a.eta
    fit, score = eta.fit, eta.calculate_score
    try:
      # Only the batches of which units are known by their responses.
      for d, last in batches:
        tap.last = last
        def spy(x, f):
          e['reads'].append(tap.decode(x, sc))
          return f(x)
        eta.fit = lambda x: spy(x, fit)
        eta.calculate_score = lambda x: spy(x, score)
        ci = a.update(d, .1)
        e['vacuous'].append([bool(ci[0] == 0 and np.isinf(ci[1])), bool(eta.has_enough_samples())])
        a.reset()
    except Exception as ex:
      e['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
    for f in ('fit', 'calculate_score'):
      eta.__dict__.pop(f, None)
    a.reset()
    t['arms'].append(e)
  if not sc.get('some') and len(arm_list) < 10:
    t['deep'] = settings(arm_list, model, scale, sc)
  for b in bandits:
    e = dict(kind=type(b).__name__, limit=int(b.sample_limit), upr=int(b.units_per_round), exc='', deltas=[], arms=[],
             requests=[], cum=[], certified=False)
    tap.requests = e['requests']
    for a in arm_list:
      a.update = (lambda x, delta, f=type(a).update, a=a: e['deltas'].append(txt(delta)) or f(a, x, delta))
    try:
      b.reset()
      r = b.run()
      e['arms'] = [i + 1 for i, a in enumerate(arm_list) if any(a is k for k in r.lcb_by_arm)] + [0] * sum(
          not any(a is k for a in arm_list) for k in r.lcb_by_arm)
      e['cum'] = [int(c) for c in r.cum_samples]
      e['certified'] = bool(all(np.isfinite(u[-1]) for u in r.ucb_by_arm.values()))
    except Exception as ex:
      e['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
    for a in arm_list:
      a.__dict__.pop('update', None)
    t['runs'].append(e)
  return t


def rows(v):
  v = np.asarray(v, dtype=float)
  return [[txt(x) for x in np.ravel(r)] for r in v]


def in_child(f, *args):
  """The result of f(*args) in a process of its own, in which nothing was built yet."""
  ctx = multiprocessing.get_context('fork')
  mine, theirs = ctx.Pipe(False)
  p = ctx.Process(target=lambda: theirs.send(f(*args)))
  p.start()
  theirs.close()
  try:
    return mine.recv()
  finally:
    p.join()


def seeds(sc):
  """Builds the same object for each seed, with other objects and draws in between, and the last also alone."""
  return dict(objs=in_child(objects, sc, sc['seeds'], True) + in_child(objects, dict(sc, npseed=sc['npseed'] + 1), sc['seeds'][-1:], False),
              spaces=in_child(spaces, sc) if sc['what'] == 'function' else [])


def spaces(sc):
  """Which kind of functions is drawn, for kernels that make it visible."""
  rng = np.random.RandomState(sc['npseed'])
  kernels = sklearn.gaussian_process.kernels
  dim, out, n = sc['dim'], sc['out'], min(sc['points'], {1: 9, 2: 4, 3: 2}[sc['dim']])
  low = sc['min'] + [0, 3, -4][sc['npseed'] % 3]
  high = sc['max'] + low - sc['min']
  step = (high - low) / (n - 1)
  def drawn(kernel, alpha, x):
    f = nonlinear_utils.generate_random_nd_function(
        dim, out, kernel=kernel, min_x=low, max_x=high, n_points=n, seed=int(rng.randint(10000)), alpha=alpha)
    return rows(np.reshape(f(x), (len(x), -1)))
  r = []
  try:
    # Half steps; the values at different points of the grid have nothing to do with each other.
    probes = list(itertools.product(*[range(-2, 2 * n + 1)] * dim))
    x = low + np.array(probes) * step / 2
    for strong in True, False:
      r.append(dict(kind='grid', exc='', n=n, dim=out, strong=strong, probes=[list(q) for q in probes],
                    vals=[drawn(kernels.RBF(step / 12, 'fixed'), .01 if strong else 1e7, x) for _ in range(4)]))
    x = rng.uniform(sc['min'], sc['max'], size=(5, dim))
    y = rng.uniform(sc['min'], sc['max'], size=(5, dim))
    r.append(dict(kind='linear', exc='', n=5, dim=out, strong=True, probes=[],
                  vals=[drawn(kernels.DotProduct(0, 'fixed'), .01, np.concatenate((x, y, x + y, 3 * x))) for _ in range(3)]))
  except Exception as e:
    r.append(dict(kind='', exc=type(e).__name__ + ': ' + str(e)[:200], n=0, dim=0, strong=True, probes=[], vals=[]))
  return r


def other(sc, rng):
  """Builds something that is similar to the object."""
  s = sc['seeds'][rng.randint(len(sc['seeds']))]
  try:
    if sc['what'] == 'function':
      kernel = {None: None, 'rbf': sklearn.gaussian_process.kernels.RBF(length_scale=.7, length_scale_bounds=(1e-1, 1000.0))}[sc['kernel']]
      f = nonlinear_utils.generate_random_nd_function(
          sc['dim'], sc['out'], kernel=kernel, min_x=sc['min'] - 2, max_x=sc['max'] + 1, n_points=sc['points'], seed=s,
          alpha=sc['alpha'] * 2)
      f(np.zeros((2, sc['dim'])))
    else:
      g = paper_utils.get_section_5_1_cpds if sc['what'] == '5.1' else paper_utils.get_section_5_2_cpds
      g([3 - d for d in sc['zdim']], [0] + [3 - d for d in sc['vdim'][1:]], sc['M'], s)
  except Exception:
    pass


def objects(sc, todo, disturb):
  rng = np.random.RandomState(sc['npseed'])
  objs = []
  for s in todo:
    if disturb and rng.rand() < .6:
      other(sc, rng)
    np.random.seed(rng.randint(10**6))   # whatever the state of the global generator
    o = dict(seed=s, exc='', parts=[])
    try:
      if sc['what'] == 'function':
        kernel = {None: None, 'rbf': sklearn.gaussian_process.kernels.RBF(length_scale=1, length_scale_bounds=(1e-1, 1000.0))}[sc['kernel']]
        f = nonlinear_utils.generate_random_nd_function(
            sc['dim'], sc['out'], kernel=kernel, min_x=sc['min'], max_x=sc['max'], n_points=sc['points'], seed=s, alpha=sc['alpha'])
        x = np.random.RandomState(5).uniform(sc['min'], sc['max'], size=(sc['n'], sc['dim']))
        np.random.seed(rng.randint(10**6))
        v = np.asarray(f(x))
        again = [np.ravel(f(x[i:i + 1])) for i in range(sc['n'])]
        o['parts'].append(dict(name='f', n=sc['n'], dim=sc['out'], nd=2, shape=list(v.shape), vals=rows(v), again=rows(again), seeded=True))
      else:
        g = paper_utils.get_section_5_1_cpds if sc['what'] == '5.1' else paper_utils.get_section_5_2_cpds
        M = sc['M']
        cpds = g(sc['zdim'], sc['vdim'], M, s)
        r5 = np.random.RandomState(7)
        n = sc['n']
        V = {i: r5.randn(n, sc['vdim'][i]) for i in range(1, M + 1)}
        Z = {i: r5.randn(n, sc['zdim'][i]) for i in range(0, M + 1)}
        x = r5.permutation(np.arange(n) % 2)
        def part(name, parents, dim, nd, seeded):
          np.random.seed(123)   # the same noise for all builds
          v = np.asarray(cpds[name](4000 if name == 'X' else n, parents))
          # Treatments have two values only: many of them tell models apart.
          vals = [[' '.join(txt(e) for e in np.ravel(v))]] if name == 'X' else rows(v)
          o['parts'].append(dict(name=name, n=len(parents[0]) if name == 'X' else n, dim=dim, nd=nd, shape=list(v.shape), vals=vals,
                                 again=[], seeded=seeded))
        part('X', [r5.randn(4000, sc['vdim'][i]) for i in range(1, M + 1)], 1, 1, True)
        part('Z0', [x], sc['zdim'][0], 2, True)
        part('Y', [Z[i] for i in range(0, M + 1)], 1, 1, True)
        for i in range(1, M + 1):
          part('V%d' % i, [], sc['vdim'][i], 2, False)
          part('Z%d' % i, [V[i]], sc['zdim'][i], 2, True)
    except Exception as ex:
      o['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
    objs.append(o)
  return objs


def graph(model, n):
  """The parents of every variable of a sample, the sample's data, and what it was built from."""
  last, parents = {}, {}
  def wrap(k, f):
    def g(m, ps):
      parents[k] = [next((j for j, v in last.items() if v is p or np.array_equal(v, p)), '?0') for p in ps]
      last[k] = f(m, ps)
      return last[k]
    return g
  old = dict(model.cpds)
  for k in old:
    model.cpds[k] = wrap(k, old[k])
  d = model.generate(n)
  model.cpds.update(old)
  var = lambda k: [k[0], int(k[1:] or 0)]
  blocks, cov = [], d.cov
  while cov.shape[1]:
    k = next((k for k, v in last.items() if k[0] in 'ZV' and np.array_equal(np.reshape(v, (n, -1)), cov[:, :np.size(v) // n])), '?0')
    blocks.append(var(k))
    cov = cov[:, max(1, np.size(last.get(k, 0)) // n):]
  role = lambda x: next((var(k) for k, v in last.items() if np.array_equal(np.ravel(v), np.ravel(x))), ['?', 0])
  return [dict(var=var(k), parents=[var(p) for p in ps]) for k, ps in parents.items()], blocks, [role(d.exp), role(d.rsp)]


def mechanisms(sc, cpds):
  """What the mechanisms make of their parents."""
  M, zdim, vdim = sc['M'], sc['zdim'], sc['vdim']
  rng = np.random.RandomState(sc['npseed'])
  n = 1500
  Z = {i: rng.randn(n, zdim[i]) for i in range(M + 1)}
  V = {i: rng.randn(n, vdim[i]) for i in range(1, M + 1)}
  parents = {'X': [['V', i] for i in range(1, M + 1)], 'Y': [['Z', i] for i in range(M + 1)], 'Z0': [['X', 0]]}
  for i in range(1, M + 1):
    parents['Z%d' % i], parents['V%d' % i] = [['V', i]], []
  value = lambda v: Z[v[1]] if v[0] == 'Z' else V[v[1]] if v[0] == 'V' else np.ones(n, dtype=int)
  out = []
  for k, ps in parents.items():
    def call(args, seed=1):
      np.random.seed(sc['npseed'] % 1000 + seed)
      return np.ravel(np.asarray(cpds[k](n, args), dtype=float))
    args = [value(p) for p in ps]
    base = call(args)
    change = []   # by every column of every parent
    for i, a in enumerate(args):
      for c in range(np.size(a) // n):
        b = np.array(a)
        if b.ndim == 1:
          b = 1 - b
        else:
          b[:, c] += 1.5
        change.append(bool((call(args[:i] + [b] + args[i + 1:]) != base).any()))
    swaps = []   # parents of the same kind
    for i in range(len(args)):
      for j in range(i):
        if ps[i][1] and ps[j][1] and args[i].shape == args[j].shape:
          b = list(args)
          b[i], b[j] = b[j], b[i]
          swaps.append(bool((call(b) != base).any()))
    e = dict(var=[k[0], int(k[1:] or 0)], change=change, swaps=swaps, noisy=bool((call(args, 2) != base).any()),
             values=[], other=[])
    if k == 'Z0':
      sup = lambda x, s: np.unique(np.reshape(call([np.full(n, x)], s), (n, -1)), axis=0)
      e['values'], e['other'] = rows(sup(0, 3)), rows(sup(1, 4))
    if k == 'X':
      e['values'] = [[txt(v)] for v in np.unique(base)]
    out.append(e)
  for i in range(1, M + 1):   # the same parents and noise for all paths
    for j in range(1, i):
      if zdim[i] == zdim[j] and vdim[i] == vdim[j]:
        r = []
        for q in (i, j):
          np.random.seed(5)
          r.append(np.asarray(cpds['Z%d' % q](n, [V[i]])))
        out[-1]['swaps'].append(bool((r[0] != r[1]).any()))
  return out


def paper_model(sc):
  np.random.seed(sc['npseed'])
  t = dict(M=sc['M'], zdim=sc['zdim'], vdim=sc['vdim'], exc='', graph=[], blocks=[], roles=[], mechanisms=[])
  try:
    M = sc['M']
    costs = (1, 1, 1, M)
    if sc['build'] == 'own':
      model = paper_utils.generate_example_from_cpd(sc['zdim'], sc['vdim'], *costs, own_cpds(sc), 1000, 100, False, arms.CIAlgorithm.CLT)[0]
    elif sc['build'] == '5.1':
      model = paper_utils.get_section_5_1_example(sc['zdim'], sc['vdim'], sc['seed'], *costs, 1000, 100)[0]
    else:
      model = paper_utils.get_section_5_2_example(sc['zdim'], sc['vdim'], sc['seed'], *costs, 1000, 100)[0]
    t['graph'], t['blocks'], t['roles'] = graph(model, 50)
    if sc['build'] != 'own':
      f = paper_utils.get_section_5_1_cpds if sc['build'] == '5.1' else paper_utils.get_section_5_2_cpds
      t['mechanisms'] = mechanisms(sc, model.cpds)
      # A random function may be almost constant, but not all of them are.
      for k in range(8 if sc['build'] == '5.2' else 1):
        for m, o in zip(t['mechanisms'], mechanisms(sc, f(sc['zdim'], sc['vdim'], M, sc['seed'] + 1 + k))):
          for key in 'change', 'swaps':
            m[key] = [bool(a or b) for a, b in zip(m[key], o[key])]
  except Exception as ex:
    t['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
  return t


def run(sc):
  return dict(traces=[dict(example=example, seeds=seeds, model=paper_model)[sc['kind']](sc)])
