"""Checks of the widths of the nuisance parameters' confidence sequences: C30."""
import random

import common
from engine import Check


class WidthCheck(Check):
  family = 'width'
  trace_module = 'WidthTrace'
  chunk = 60
  assumptions = ['a width is asked for after a fit', 'rho of at least 0.02, or well-conditioned covariates']

  def models(self):
    th = common.thorough()
    return [('widths', 'Width', f'''SPECIFICATION Spec
CONSTANTS
 Cells = {{0, 1, 3}}
 MaxRows = {4 if th else 3}
 Deltas = {{"0.05", "0.5"}}
 Gs = {{"0.5", "2"}}
 Rhos = {{"0.1", "1"}}
 Kinds = {{"aipw", "fd"}}
INVARIANTS Positive Level Order Columns Vanishes
''')]

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + 30)
    out = [self.scenario(rng, k) for k in range(900 if common.thorough() else 150)]
    return out + [self.wide(rng) for _ in range(40 if common.thorough() else 6)] + [
        self.scenario(rng, k) for k in [-1, -1, -2] * (4 if common.thorough() else 1)]

  def wide(self, rng):
    """Many covariates with large values, or a small rho: determinants beyond the range of floats."""
    dim = rng.choice([26, 33, 40])
    scale, rho = rng.choice([(1e6, '1'), (1e5, '0.1'), (1e7, '10'), (1e-4, '1e-10'), (1, '1e-10')])
    n = dim + rng.choice([10, 25])
    x = dict(cov=[[rng.gauss(0, scale) for _ in range(dim)] for _ in range(n)], exp=[i % 2 for i in range(n)],
             rsp=[round(rng.gauss(0, 2), 2) for _ in range(n)], tc='float64', te='int64')
    return dict(kind='aipw', cls='linear', dim=dim, need=2, ov=rng.choice([.05, .25]), npseed=rng.randrange(10**6), data=[x],
                ops=[['fit', 0]] + [self.ask(rng)[:3] + [rho] for _ in range(2)])

  def scenario(self, rng, k):
    kind = rng.choice(['aipw', 'aipw', 'fd']) if k >= 0 else 'aipw' if k == -1 else 'fd'
    sc = dict(kind=kind, cls='linear', dim=rng.choice([1, 1, 2, 3, 4]), need=rng.choice([1, 2, 5]),
              ov=rng.choice([.05, .1, .01, .25, .45]), npseed=rng.randrange(10**6))
    if kind == 'aipw' and k >= 0 and rng.random() < .15:
      sc['cls'] = rng.choice(['kernel', 'boost'])
    sc['data'] = [self.data(rng, kind, sc['dim'], k) for _ in range(rng.choice([1, 2, 3]))]
    ops = []
    fitted = False
    for _ in range(rng.randrange(3, 10)):
      p = rng.random()
      i = rng.randrange(len(sc['data']))
      if not fitted or p < .3:
        ops.append(['fit', i])
        fitted = True
      elif p < .36:
        ops += [['reset'], ['fit', i]]
      elif p < .42:
        ops.append(['score', i])
      else:
        ops.append(self.ask(rng))
    sc['ops'] = ops + [self.ask(rng)]
    return sc

  def ask(self, rng):
    return ['width', rng.choice(['0.05', '0.1', '0.5', '0.01', '0.9', '0.001', '0.2']),
            rng.choice(['1', '0.5', '2', '0.1', '10', '0.25']), rng.choice(['1', '0.1', '0.5', '10', '0.02'])]

  def data(self, rng, kind, dim, k):
    n = rng.choice([1, 2, 3, 5, 8, 13, 20, 30] if k % 25 else [120, 300, 600]) if k >= 0 else rng.randrange(3000, 6000)
    te = rng.choice(['int64', 'float64', 'int32', 'bool', 'uint8'])
    mode = rng.choice(['grid', 'grid', 'normal', 'flat', 'big'])
    tc = 'float64' if mode in ('normal', 'flat') else rng.choice(['int64', 'float64', 'int16', 'int8'])
    top = {'grid': 3, 'big': 100}.get(mode)
    if kind == 'fd' and mode == 'normal':
      mode, top, tc = 'grid', 2, 'int64'    # mediators have few values
    if mode == 'flat':   # columns that depend on one another
      rows = [[float(rng.randrange(3))] * dim for _ in range(n)]
    elif mode == 'normal':
      rows = [[round(rng.gauss(0, 2), 3) for _ in range(dim)] for _ in range(n)]
    else:
      rows = [[rng.randrange(-top if mode == 'big' else 0, top + 1) for _ in range(dim)] for _ in range(n)]
    return dict(cov=rows, exp=[rng.randrange(2) for _ in range(n)], rsp=[round(rng.gauss(0, 2), 2) for _ in range(n)], tc=tc, te=te)

  def nontrivial(self, t):
    return sum(e['op'] == 'width' for e in t['ev']) > 1


CHECKS = {'C30': WidthCheck}
