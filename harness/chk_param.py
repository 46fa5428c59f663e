"""Checks of the nuisance parameters: C18, C19, C20, C21, and C10, C11 for them."""
import random
import re

import common
from common import TLCRun, HarnessError
from engine import Check

CFG = '''SPECIFICATION {spec}
CONSTANTS
 Kinds = {kinds}
 Needs = {needs}
 MaxCount = {count}
 MaxOps = {ops}
{rest}
'''
AIPW = '''SPECIFICATION Spec
CONSTANTS
 Means = {means}
 Guesses = {guesses}
 Weights = {weights}
 Overlaps = {ov}
INVARIANTS RightResponse RightPropensity
'''
FD = '''SPECIFICATION Spec
CONSTANTS
 Counts = {counts}
 Means = {means}
 Guesses = {guesses}
 ZN = {zn}
INVARIANTS MeanOK RightOK Robust
'''


class ParamCheck(Check):
  family = 'param'
  trace_module = 'ParamTrace'
  chunk = 100
  kinds = ['aipw', 'two', 'fd', 'reg']
  assumptions = ['treatments are 0 or 1', 'scores are computed on at least one unit',
                 'the fitted sklearn models compute what they document']

  def models(self):
    th = common.thorough()
    out = []
    if self.prop in ('C10', 'C11', 'C18'):
      out.append(('param', 'Param', CFG.format(
          spec='Spec', kinds='{"aipw","two","fd","reg"}', needs='{1,2}', count=3 if th else 2, ops=4 if th else 3,
          rest='INVARIANTS ReadyOK LatestOK RecentOK LikeNew\nPROPERTIES Pure Insufficient')))
    if self.prop == 'C19':
      out.append(('aipw', 'Aipw', AIPW.format(means='{0,1,3}' if th else '{0,2}', guesses='{0-1,2}', weights='{1,2}',
                                              ov='{"0.05","0.25"}' if th else '{"0.25"}').replace('0-1', '1')))
    if self.prop == 'C20':
      out.append(('frontdoor', 'FrontDoor', FD.format(counts='{1,2}' if not th else '{1,2,3}', means='{0,1,3}', guesses='{1,2}', zn=2)))
      if th:
        out.append(('frontdoor3', 'FrontDoor', FD.format(counts='{1,2}', means='{0,2}', guesses='{1,2}', zn=3)))
    return out

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + int(self.prop[1:]))
    th = common.thorough()
    kinds = dict(C19=['aipw'], C20=['fd'], C21=['two', 'reg', 'aipw']).get(self.prop, self.kinds)
    r = TLCRun(scratch, 'ParamGen', CFG.format(
        spec='GSpec', kinds='{' + ','.join(f'"{k}"' for k in kinds) + '}', needs='{1,2,3,5}', count=8, ops=7, rest='INVARIANT EmitOK'),
        args=['-simulate', f'num={2000 if th else 300}', '-depth', '9', '-seed', str(common.seed())], workers=1).wait()
    lines = sorted(set(x for x in r.text.splitlines() if x.startswith('"SCRIPT')))
    if len(lines) < 50:
      raise HarnessError('no scripts ' + r.error_text())
    rng.shuffle(lines)
    out = []
    for x in lines[:2000 if th else 200]:
      _, kind, need, _ = x.split(' ', 3)
      ops = [(a, int(t), int(c)) for a, t, c in re.findall(r'<<\\?"(\w+)\\?", (\d+), (\d+)>>', x)]
      out.append(self.scenario(rng, kind, int(need), ops))
    for _ in range(1500 if th else 160):
      out.append(self.scenario(rng, rng.choice(kinds), rng.choice([1, 2, 5]), self.ops(rng)))
    if self.prop == 'C10':
      for _ in range(1200 if th else 160):
        out.append(self.recycled(rng))
    for _ in range(200 if th else 24):
      out.append(self.large(rng, kinds))
    if self.prop in ('C18', 'C19', 'C20', 'C21'):
      for kind in kinds * (3 if th else 1):
        out.append(self.large(rng, [kind], huge=True))
    if self.prop in ('C19', 'C20', 'C21'):
      for _ in range(800 if th else 100):
        out.append(self.population(rng) if self.prop == 'C19' else self.fd_population(rng) if self.prop == 'C20'
                   else self.truths(rng))
    return out

  def ops(self, rng):
    """Mostly fits that are nearly or just enough, and scores after them."""
    out = []
    for _ in range(rng.randrange(2, 8)):
      p = rng.random()
      if p < .5:
        out.append(('fit', rng.choice([0, 1, 2, 4, 5, 6, 9]), rng.choice([0, 1, 2, 4, 5, 6, 9])))
        out.append(('score', rng.randrange(1, 4), rng.randrange(0, 4)))
      elif p < .6:
        out.append(('bad', 0, 0))
        out.append(('score', rng.randrange(1, 4), rng.randrange(0, 4)))
      elif p < .72:
        out.append(('reset', 0, 0))
      elif p < .8:
        out.append(('truth', 0, 0))
        out.append(('score', rng.randrange(1, 4), rng.randrange(0, 4)))
      else:
        out.append(('fit', rng.randrange(5, 10), rng.randrange(5, 10)))
        out.append(('again', 0, 0))
    return out

  def units(self, rng, sc, t, c, dim=None):
    dim = dim or sc['dim']
    exp = [1] * t + [0] * c
    rng.shuffle(exp)
    if sc['xtype'] == 'continuous':
      exp = [round(rng.gauss(0, 1), 3) for _ in exp]
    whole = sc['ztype'] != 'float64'
    if sc['kind'] == 'fd':
      vals = sc['support']
      cov = [list(rng.choice(vals))[:dim] + [0] * (dim - len(vals[0])) for _ in exp]
      if not whole:   # zeros have a sign
        cov = [[rng.choice([0., -0.]) if v == 0 else v for v in z] for z in cov]
    elif sc.get('model') == 'stub':
      cov = [[rng.randrange(-2, 3) for _ in range(dim)] for _ in exp]
    elif whole:
      hi = 3 if sc['kind'] == 'aipw' else 100
      cov = [[rng.randrange(-hi, hi + 1) for _ in range(dim)] for _ in exp]
    else:
      cov = [[round(rng.gauss(0, 1), 3) for _ in range(dim)] for _ in exp]
    rsp = [round(rng.gauss(0, 2) + x + sum(z), 3) for x, z in zip(exp, cov)]
    d = dict(cov=cov, exp=exp, rsp=rsp)
    if dim != sc['dim']:
      d['dim'] = dim
    return d

  def base(self, rng, kind, need):
    dim = rng.choice([1, 1, 2, 3])
    sc = dict(kind=kind, need=need, dim=dim, npseed=rng.randrange(10**6),
              xtype=rng.choice(['int64', 'float64', 'int32', 'bool', 'uint8', 'int8', 'float32', 'uint16']), ztype='float64')
    sc['rtype'] = 'int64' if rng.random() < .1 else 'float64'
    if kind != 'fd' and rng.random() < .25:
      sc['ztype'] = rng.choice(['int64', 'int64', 'int8', 'int16'])
      if sc['xtype'] == 'float32':   # together they are computed with in single precision
        sc['xtype'] = 'int8'
    if kind == 'aipw':
      sc.update(model=rng.choice(['stub', 'stub', 'stub', 'lin', 'lin', 'kr', 'gb']), ov=rng.choice([.05, .05, .2, .01, .4]),
                salt=None, pmean=None, warm=False)
      if self.prop == 'C21':
        sc['model'] = 'lin'
      if sc['model'] == 'stub' and self.prop == 'C10' and rng.random() < .5:
        sc['warm'] = True
    if kind == 'fd':
      if sc['xtype'] == 'float32':   # a matter of precision
        sc['xtype'] = 'bool'
      sc.update(ov=rng.choice([.05, .05, .1, .2, .01]), ratio=rng.choice([10, 10, 2, 30, .5]))
      vals = [tuple(rng.randrange(0, 4) for _ in range(dim)) for _ in range(rng.choice([1, 2, 3, 4]))]
      sc['support'] = sorted(set(vals)) + ([tuple(9 for _ in range(dim))] if rng.random() < .1 else [])
      if rng.random() < .3:
        sc['ztype'] = 'int64'
    if kind == 'reg':
      sc['lreg'] = rng.choice([.1, .1, 1., .01])
      if rng.random() < .3:
        sc['xtype'] = 'continuous'
    if kind in ('two', 'reg'):
      sc['need'] = 1
    return sc

  def truth(self, rng, sc):
    return dict(op='truth', tau=round(rng.gauss(0, 2), 3), beta=[round(rng.gauss(0, 1), 3) for _ in range(sc['dim'])],
                gamma=[round(rng.gauss(0, 1), 3) for _ in range(sc['dim'])])

  def scenario(self, rng, kind, need, ops):
    sc = self.base(rng, kind, need)
    out = []
    last = None
    ready = False
    for a, t, c in ops:
      if a == 'fit':
        if kind == 'aipw' and sc['model'] != 'stub' and t + c > 1:
          t, c = t + (2 if t >= need else 0), c + (2 if c >= need else 0)   # for the real models
        last = self.units(rng, sc, t, c)
        out.append(dict(op='fit', d=last))
        ready = ready or (min(t, c) >= (1 if kind == 'two' else need) if kind != 'reg' else t + c > 0)
      elif a == 'again' and last:
        out.append(dict(op='score', d=last))
      elif a == 'score':
        out.append(dict(op='score', d=self.units(rng, sc, t, max(c, 1 - t))))
      elif a == 'bad':
        dim = rng.choice([v for v in (1, 2, 3, 4) if v != sc['dim']])
        d = self.units(rng, sc, 6, 6, dim)
        can = ready
        if kind == 'aipw' and sc['model'] != 'stub' and rng.random() < .2:
          out.append(dict(op='badtruth'))
        else:
          out.append(dict(op='badscore' if can and rng.random() < .4 else 'badfit', d=d))
          if can and kind != 'reg' and rng.random() < .4:   # as many columns of eta as some other parameter has
            out[-1] = dict(op='badphi', d=self.units(rng, sc, 2, 2), width=rng.choice([-1, 1, 'twice']))
        out.append(dict(op='score', d=self.units(rng, sc, 2, 2)))
      elif a == 'reset':
        out.append(dict(op='reset'))
        ready = False
      elif a == 'truth' and (kind == 'two' or sc.get('model') == 'lin'):
        out.append(self.truth(rng, sc))
        ready = True
    if kind == 'reg':   # undefined before the first fit
      ready, keep = False, []
      for o in out:
        if o['op'] == 'fit' and o['d']['exp']:
          ready = True
        if o['op'] == 'reset':
          ready = False
        if o['op'] not in ('score', 'badscore') or ready:
          keep.append(o)
      out = keep
    if kind == 'aipw' and sc['model'] == 'stub' and sc['salt'] is None and rng.random() < .12:   # tiny or huge scores
      mag = rng.choice([1e11, 1e14, 1e-9])
      for o in out:
        if 'd' in o:
          o['d'] = dict(o['d'], rsp=[v * mag for v in o['d']['rsp']])
      sc['rtype'] = 'float64'
    sc['ops'] = out
    return sc

  def recycled(self, rng):
    """A life, a reset, and another life that uses the parameter."""
    kind = rng.choice(self.kinds)
    ops = self.ops(rng) + [('fit', 6, 7)] * rng.randrange(2) + [('reset', 0, 0)] * rng.choice([1, 1, 2])
    if rng.random() < .2:
      ops.append(('score', 1, 1))
    for _ in range(rng.choice([1, 1, 2])):
      ops += [('fit', rng.randrange(5, 9), rng.randrange(5, 9)), ('score', rng.randrange(1, 4), 2)]
    return self.scenario(rng, kind, rng.choice([1, 2, 5]), ops)

  def large(self, rng, kinds, huge=False):
    """Fits and scores of many units."""
    kind = rng.choice(kinds)
    sc = self.base(rng, kind, rng.choice([2, 5, 60]))
    if sc.get('model') in ('kr', 'gb') or huge and 'model' in sc and self.prop != 'C21':
      sc['model'] = 'stub'
    if kind == 'fd' and not huge and (self.prop == 'C20' or rng.random() < .2) and rng.random() < .5:   # many values
      k = rng.choice([20, 60, 110])
      sc['support'] = [(i // 11, i % 11, 0)[3 - sc['dim']:] if sc['dim'] > 1 else (i,) for i in rng.sample(range(k + 10), k)]
    if huge:
      n = rng.randrange(4100, 5200)
      t = rng.randrange(1000, n - 1000)
      sc['ops'] = [dict(op='fit', d=self.units(rng, sc, t, n - t)), dict(op='score', d=self.units(rng, sc, 5, 5)),
                   dict(op='score', d=self.units(rng, sc, rng.randrange(600, 900), rng.randrange(3600, 3900)))]
      return sc
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
      t, c = rng.choice([(300, 8), (260, 70), (140, 140), (8, 300), (129, 3), (513, 20)])
      ops.append(dict(op='fit', d=self.units(rng, sc, t, c)))
      ops.append(dict(op='score', d=self.units(rng, sc, *rng.choice([(2, 2), (40, 40), (100, 20), (10, 150)]))))
    if kind == 'reg' or kind == 'two' or rng.random() < .3:
      ops = ops[:2]
    sc['ops'] = ops
    return sc

  def population(self, rng):
    """Covariate cells with a right response or a right propensity."""
    sc = self.base(rng, 'aipw', 1)
    sc.update(model='stub', warm=False, dim=1, rtype='float64', salt=round(rng.gauss(0, 1), 2), pmean=.5, ov=rng.choice([.05, .2, .25]))
    right = rng.choice(['mu', 'e'])
    def mu(x, z):
      return sc['salt'] + 1.5 * x + .7 * z + .5 * x * z
    cov, exp, rsp = [], [], []
    for z in rng.sample([-1, 0, 1], rng.randrange(1, 4)):
      k = rng.choice([1, 2])
      n1, n = (int((2 + z) * k), 4 * k) if right == 'e' else (rng.randrange(1, 4), 4)
      shift = {x: rng.gauss(0, 3) for x in (0, 1)} if right == 'e' else {0: 0., 1: 0.}
      for x, m in ((1, n1), (0, n - n1)):
        for i in range(m):
          noise = [1., -1.][i % 2] if i < m - m % 2 else 0.
          cov.append([z])
          exp.append(x)
          rsp.append(mu(x, z) + shift[x] + noise)
    order = list(range(len(exp)))
    rng.shuffle(order)
    d = dict(cov=[cov[i] for i in order], exp=[exp[i] for i in order], rsp=[rsp[i] for i in order])
    sc['ops'] = [dict(op='fit', d=self.units(rng, sc, 2, 2)), dict(op='score', d=d)]
    return sc

  def fd_population(self, rng):
    """Scores of exactly the data that it was fitted on."""
    sc = self.base(rng, 'fd', rng.choice([1, 2, 5]))
    sc.update(ov=.05, ratio=rng.choice([10, 20, 10, 30]), rtype='float64')
    dim = sc['dim']
    sc['support'] = sorted(set(tuple(rng.randrange(0, 4) for _ in range(dim)) for _ in range(4)))
    if len(sc['support']) < 2:
      sc['support'] = [tuple([0] * dim), tuple([1] * dim)]
    cov, exp, rsp = [], [], []
    for z in sc['support']:
      for x in (0, 1):
        m = rng.gauss(0, 3)
        for _ in range(rng.choice([1, 2, 4, 6])):
          cov.append(list(z))
          exp.append(x)
          rsp.append(round(m + rng.gauss(0, 1), 3))
    order = list(range(len(exp)))
    rng.shuffle(order)
    d = dict(cov=[cov[i] for i in order], exp=[exp[i] for i in order], rsp=[rsp[i] for i in order])
    sc['ops'] = [dict(op='fit', d=self.units(rng, sc, 5, 5)), dict(op='fit', d=d), dict(op='score', d=d)]
    return sc

  def truths(self, rng):
    sc = self.base(rng, rng.choice(['two', 'aipw']), 1)
    sc['model'], sc['rtype'] = 'lin', 'float64'
    sc['ov'] = sc.get('ov', .05)
    out = []
    for _ in range(rng.choice([1, 2])):
      if rng.random() < .4:
        out.append(dict(op='fit', d=self.units(rng, sc, 6, 7)))
      t = self.truth(rng, sc)
      out.append(t)
      d = self.units(rng, sc, rng.randrange(1, 5), rng.randrange(1, 5))
      for i in range(len(d['exp'])):
        if rng.random() < .7:
          d['rsp'][i] = t['tau'] * d['exp'][i] + sum(b * z for b, z in zip(t['beta'], d['cov'][i]))
      out.append(dict(op='score', d=d))
    if rng.random() < .4:
      out += [dict(op='fit', d=self.units(rng, sc, 7, 7)), dict(op='score', d=self.units(rng, sc, 2, 2))]
    sc['ops'] = out
    return sc

  def nontrivial(self, t):
    return any(e['op'] == 'score' and e['ready'] for e in t['ev']) or len(t['twin']) > 1

  def summary(self, sc, t):
    return dict(kind=sc['kind'], ops=[o['op'] for o in sc['ops']], dim=sc['dim'])


CHECKS = {p: ParamCheck for p in ['C18', 'C19', 'C20', 'C21', 'C10', 'C11']}
