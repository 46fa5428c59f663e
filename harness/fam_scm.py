"""Structural causal models whose mechanisms record what they are given."""
import numpy as np

from causal_effect_bandits import scm

from common import BADNUM


class Boom(Exception):
  pass


def ints(a):
  """What mechanisms return: whole numbers w, and w + 1/2 which the trace shows as w + 5."""
  out = []
  for x in np.asarray(a).ravel():
    f = abs(float(x))
    k = int(np.floor(f)) if f < 1e9 else 0
    k = k if f == k else k + 5 if f == k + .5 else BADNUM
    out.append(int(k if x >= 0 else -k) if f < 1e9 else BADNUM)
  return out


def rows(a):
  a = np.asarray(a)
  if a.ndim == 0:
    return [ints(a)]
  if a.ndim == 1:
    return [ints(x) for x in a]
  return [ints(x) for x in a]


def flat(rs):
  return [r[0] if isinstance(r, list) and len(r) == 1 else r for r in rs]


class View:
  """What a trace shows of the samples of n units: everything, or some rows."""

  def __init__(self, n, pick):
    self.n = n
    self.idx = None if pick is None else sorted({min(n - 1, int(x * n)) for x in pick} | {0, n - 1})
    self.size = n if self.idx is None else len(self.idx)

  def rows(self, a):
    if self.idx is None:
      return rows(a)
    a = np.asarray(a)
    if a.ndim == 0 or len(a) != self.n:
      return [[0]]   # no sample of n units
    return rows(a[self.idx])

  def count(self, n):
    return self.size if n == self.n else -1


class World:
  """The mechanisms of one model."""

  def __init__(self, sc):
    self.sc, self.count = sc, 0
    self.calls, self.fail = [], 0
    self.view = View(0, None)

  def mechanism(self, v):
    dim = self.sc['dims'][v - 1]

    def f(n, parents):
      view = self.view
      call = dict(v=v, n=view.count(int(n)), args=[view.rows(p) for p in parents], out=[], mean='0.0', draw=np.random.random().hex())
      self.calls.append(call)
      if len(self.calls) == self.fail:
        raise Boom('mechanism')
      self.count += 1
      out = self.count * (10000000 + np.arange(n)[:, None] * 10) + np.arange(max(dim, 1))[None, :]
      t = self.sc['types'][v - 1]
      out = ((out + (.5 if t == 'half' else 0)) * (1 if v % 2 else -1)).astype(dict(half=float).get(t, t))
      if dim == 0:   # a vector
        out = out[:, 0]
      call['out'] = view.rows(out)
      if view.idx is not None:
        call['mean'] = repr(float(np.mean(np.asarray(out).reshape(n, -1)[:, 0])))
      return out

    return f


def name(v):
  return 'N%d' % v if v < 20 else 'extra%d' % v


def build(sc, world, d=None):
  d = d or dict(vars=sc['m']['order'], pkeys=sorted(sc['m']['order'] + sc['extra']), ckeys=sorted(sc['m']['order'] + sc['extra']),
                treat=sc['m']['treat'], resp=sc['m']['resp'], cov=sc['m']['cov'])
  par = sc['m']['par']
  parents = {name(v): [name(p) for p in (par[v - 1] if v <= len(par) else [])] for v in d['pkeys']}
  cpds = {name(v): world.mechanism(v) if v <= len(par) else (lambda n, p: np.zeros(n)) for v in d['ckeys']}
  m = scm.SCM('m', [name(v) for v in d['vars']], parents, cpds, [name(v) for v in d['cov']], name(d['treat']),
              name(d['resp']))
  return m, parents, cpds


def run(sc):
  ev = []
  for d in sc['declarations']:
    exc = ''
    try:
      build(sc, World(sc), d)
    except Exception as e:
      exc = type(e).__name__
    ev.append(dict(op='new', d=d, exc=exc))
  np.random.seed(sc['npseed'])
  world = World(sc)
  m, parents, cpds = build(sc, world)
  own = dict(cpds)
  first = (dict((k, list(v)) for k, v in parents.items()), list(m.cov_variables), m.treatment_variable,
           m.response_variable, list(m.var_names))
  for op, n, fail in sc['ops']:
    world.calls, world.fail = [], fail
    view = world.view = View(n, sc.get('pick'))
    e = dict(op=op, n=view.size, some=view.idx is not None, fail=fail, exc='', cov=[], exp=[], rsp=[], eff='0.0')
    try:
      if op == 'gen':
        d = m.generate(n)
        e.update(cov=view.rows(d.cov), exp=flat(view.rows(d.exp)), rsp=flat(view.rows(d.rsp)))
      else:
        e['eff'] = repr(float(m.compute_treatment_effect(n)))
    except Exception as ex:
      e['exc'] = type(ex).__name__
    if fail > len(world.calls):
      e['fail'] = 0
    e.update(calls=world.calls, own=bool(all(cpds.get(k) is f for k, f in own.items()) and len(cpds) == len(own)
                                         and all(m.cpds.get(k) is f for k, f in own.items())),
             same=bool(first == (dict((k, list(v)) for k, v in m.parents.items()), list(m.cov_variables),
                                 m.treatment_variable, m.response_variable, list(m.var_names)) and first[0] == parents))
    ev.append(e)
  return dict(traces=[dict(m=sc['m'], ev=ev)])
