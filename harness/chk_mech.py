"""Checks of the building blocks of mechanisms: C24, C11."""
import random
import re

import common
from common import TLCRun, HarnessError
from engine import Check
from chk_scm import seqs

CFG = '''SPECIFICATION {spec}
CONSTANTS
 Units = 2
 Values = {values}
 Coefs = {coefs}
 Fns = {fns}
 Means = {means}
 Skips = {{}}
INVARIANTS {inv}
'''


class MechCheck(Check):
  family = 'mech'
  trace_module = 'MechTrace'
  chunk = 250
  assumptions = ['distributions of moments are compared with more than six standard errors of room']

  def models(self):
    th = common.thorough()
    return [('terms', 'Mech', CFG.format(spec='Spec', values='{0, 1, 3}' if th else '{0, 3}', coefs='{0, 3}',
                                         fns='{"id","sq","neg","seven"}' if th else '{"id","sq","seven"}',
                                         means='{0, 3}', inv='Documented Untouched KeptOK'))]

  def scenarios(self, scratch):
    self.rng = rng = random.Random(common.seed() * 7919 + int(self.prop[1:]))
    th = common.thorough()
    r = TLCRun(scratch, 'Mech', CFG.format(spec='EmitSpec', values='{0, 3}', coefs='{0, 3}', fns='{"id","sq","neg","seven"}',
                                           means='{0, 3}', inv='Emit'), workers=1).wait()
    lines = sorted(set(re.findall(r'"SCRIPT (.*)"$', r.text, re.M)))
    if len(lines) < 1000:
      raise HarnessError('no scripts ' + r.error_text())
    out = []
    for x in rng.sample(lines, min(len(lines), 3000 if th else 250)):
      par, bet, fns, mean = seqs(x)
      ts = [rng.choice(['int', 'float', 'int32', 'float32']) for _ in range(4)]
      parents, betas = [], []
      for p, b, t, u in zip(par, bet, ts[:2], ts[2:]):
        parents.append(dict(v=p, t=t))
        betas.append(dict(v=[q[0] for q in b], t=u))
      k = rng.choice(['lin', 'tr', 'tr'])
      out.append(dict(kind=k, n=2, parents=parents, betas=betas, mean=dict(v=mean[0], t='float'), cov=0., wantnd=1,
                      fns=fns if k == 'tr' else ['id', 'id']))
    for _ in range(4000 if th else 450):
      out.append(getattr(self, rng.choice(['lin', 'lin', 'tr', 'tr', 'se', 'se', 'add', 'det', 'log', 'log', 'cat', 'cat', 'lindata', 'lindata',
                                           'invalid', 'invalid']))())
    for k in ['lin', 'tr', 'se', 'add', 'det', 'log', 'cat', 'cat', 'cat', 'lindata'] * (8 if th else 2):
      self.many = rng.choice([150, 270, 300, 520, 1030])
      out.append(getattr(self, k)())
    for k in ['lin', 'tr', 'se', 'add', 'det', 'log', 'lindata'] * (3 if th else 1):
      self.many = rng.choice([2050, 4100, 5003])
      out.append(getattr(self, k)())
    self.many = None
    for what in ['lin', 'tr', 'se', 'add'] * (3 if th else 2):
      for d in (1, 2, 3):
        m = [rng.choice([0, 1.5, -2]) for _ in range(d)]
        q = rng.choice([.04, 2.25, 4.])
        c = [[q * (1 + .5 * (i == j) * i + .3 * 0) if i == j else q * rng.choice([.4]) for j in range(d)] for i in range(d)]
        out.append(dict(kind='stat', what=what, m=m, c=c))
    eye = lambda d: [[float(i == j) for j in range(d)] for i in range(d)]
    out += [dict(kind='stat', what='lindata', m=[0.] * d, c=eye(d)) for d in (1, 2, 3)]
    out += [dict(kind='stat', what='lindata-noise', m=[0.], c=[[1.]])]
    out += [dict(kind='stat', what=w, m=[0.], c=[[1.]], gamma=g) for w in ['freq', 'freq-own', 'freq-data']
            for g in ([None, [1., -.5], [300., 100.]] if w == 'freq-data' else [None])]
    for s in out:
      s['npseed'] = rng.randrange(10**6)
    return out

  many = None

  def count(self, few):
    return self.many or self.rng.choice(few)

  def some(self, n, dim, flat, t=None, scale=1):
    rng = self.rng
    t = t or rng.choice(['int', 'float', 'float', 'int32'])
    v = lambda: scale * (rng.randrange(-4, 5) if t.startswith('int') else rng.choice([rng.randrange(-4, 5), rng.randrange(-16, 17) / 4]))
    return dict(v=[v() for _ in range(n)] if flat else [[v() for _ in range(dim)] for _ in range(n)], t=t)

  def inputs(self, n, out, allow_flat, k=None):
    """Parents, and coefficients that give out columns (0: a vector)."""
    rng = self.rng
    parents, betas = [], []
    for _ in range(k or rng.choice([1, 2, 2, 3, 4])):
      dim = rng.choice([1, 1, 2, 3])
      flat = allow_flat and out == 0 and dim == 1 and rng.random() < .5
      parents.append(self.some(n, dim, flat))
      b = self.some(dim, max(out, 1), out == 0)
      if flat:
        b = dict(v=b['v'][0], t=b['t'])
      betas.append(b)
    return parents, betas

  def mean(self, d):
    rng = self.rng
    t = rng.choice(['float', 'float', 'int'])
    v = lambda: rng.randrange(-3, 4) if t == 'int' else rng.randrange(-8, 9) / 4
    return dict(v=[v() for _ in range(d)] if d else v(), t=t)

  def zero(self, d):
    return [[0.] * d for _ in range(d)] if d else 0.

  def lin(self):
    rng = self.rng
    n, d = self.count([1, 2, 3, 5]), rng.choice([0, 0, 1, 2, 3])
    p, b = self.inputs(n, d, False)
    return dict(kind='lin', n=n, parents=p, betas=b, fns=['id'] * len(p), mean=self.mean(d), cov=self.zero(d), wantnd=2 if d else 1)

  def tr(self):
    rng = self.rng
    n, d = self.count([1, 2, 3, 5]), rng.choice([0, 0, 1, 2, 3])
    p, b = self.inputs(n, d, False)
    if d == 0 and rng.random() < .4:   # columns, of which a vector is made
      p, b = self.inputs(n, 1, False)
    fns = [rng.choice(['id', 'id', 'sq', 'neg', 'abs', 'inc', 'seven']) for _ in p]
    return dict(kind='tr', n=n, parents=p, betas=b, fns=fns, mean=self.mean(d), cov=self.zero(d), wantnd=2 if d else 1)

  def se(self):
    rng = self.rng
    n = self.count([1, 2, 3, 5])
    p, _ = self.inputs(n, 0, True)
    f = rng.choice(['sum', 'sum1', 'weights', 'last', 'pair', 'pair', 'id'])
    width = sum(1 if not isinstance(q['v'][0], list) else len(q['v'][0]) for q in p)
    dim = dict(pair=2, id=width).get(f, 1)
    d = 0 if f == 'sum1' or (dim == 1 and rng.random() < .5) else dim
    mean = self.mean(d)
    if d and rng.random() < .4:
      mean['v'] = [[v] for v in mean['v']]
    return dict(kind='se', n=n, parents=p, f='sum' if f == 'sum1' else f, mean=mean, cov=self.zero(d), wantnd=2 if d else 1)

  def add(self):
    rng = self.rng
    n, d = self.count([1, 2, 3, 5]), rng.choice([0, 1, 2, 3])
    x = self.some(n, max(d, 1), d == 0)
    if d < 2:
      mean = self.mean(rng.choice([0, 1]))
      cov = rng.choice([0., [0.], [[0.]]])
    else:
      mean, cov = self.mean(d), self.zero(d)
      if rng.random() < .4:
        mean['v'] = [[v] for v in mean['v']]
    return dict(kind='add', n=n, parents=[x], mean=mean, cov=cov, wantnd=2 if d > 1 else 1)

  def det(self):
    rng = self.rng
    return dict(kind='det', n=self.count([1, 2, 5]), value=rng.choice([0, 1, -2, 3]), vt=rng.choice(['int', 'float']))

  def log(self):
    rng = self.rng
    n = self.count([1, 2, 4, 8])
    p, b = self.inputs(n, 0, False)
    for q in b:
      s = rng.choice([1, 50, 100])
      q['v'] = [s * v for v in q['v']] if isinstance(q['v'], list) else s * q['v']
    return dict(kind='log', n=n, parents=p, betas=b, own=rng.random() < .4)

  def cat(self):
    rng = self.rng
    n, nd = self.count([1, 2, 4, 7]), rng.choice([1, 2, 2, 3])
    p, _ = self.inputs(n, 0, True, k=rng.choice([1, 1, 2, 2, 3]))
    idx = rng.randrange(len(p))
    p[idx] = dict(v=[rng.randrange(nd) for _ in range(n)], t=rng.choice(['int', 'float']))
    return dict(kind='cat', n=n, parents=p, idx=idx, nd=nd, dim=rng.choice([1, 1, 2, 3]))

  def lindata(self):
    rng = self.rng
    p, n = rng.choice([1, 2, 3]), self.count([1, 2, 5, 9])
    g = self.some(p, 1, True, t='float', scale=rng.choice([1, 100, 1000]))
    return dict(kind='lindata', n=n, p=p, beta=self.some(p, 1, True), gamma=rng.choice([None, g, g]),
                tau=rng.choice([0., 1., -2.5, 3]), off=0, random=rng.random() < .5)

  def invalid(self):
    rng = self.rng
    how = rng.choice(['fns', 'add1', 'addd', 'idx', 'gamma', 'noise'])
    if how == 'fns':
      s = self.tr()
      s['fns'] = s['fns'] + ['id'] if rng.random() < .5 or len(s['fns']) < 2 else s['fns'][:-1]
    elif how == 'add1':
      s = self.add()
      while s['wantnd'] == 2:
        s = self.add()
      s['mean'] = dict(v=[[1.]] if rng.random() < .5 else [[1., 2.]], t='float')
    elif how == 'addd':
      s = self.add()
      while s['wantnd'] == 1:
        s = self.add()
      d = len(s['parents'][0]['v'][0]) + rng.choice([-1, 1, 2])
      s['mean'], s['cov'] = dict(v=[1.] * d, t='float'), self.zero(d)
    elif how == 'idx':
      s = self.cat()
      s['idx'] = len(s['parents']) + rng.choice([0, 0, 1, 5])
    elif how == 'gamma':
      s = self.lindata()
      k = s['p'] + rng.choice([-1, 1, 2])
      s['gamma'] = rng.choice([dict(v=[.5] * k, t='float'), dict(v=[[.5] * s['p']], t='float'), dict(v=[[.5]] * s['p'], t='float')])
    else:
      s = self.lindata()
      s['off'] = rng.choice([-1, 1, 3])
    s['valid'] = False
    return s


CHECKS = {p: MechCheck for p in ['C24', 'C11']}
