"""Fits and queries real conditional probability tables."""
import numpy as np

from causal_effect_bandits import data

from fam_arm import txt


def universe(sc):
  """The values that x and z can take; the last of each is never observed."""
  xt = dict(int=int, float=float, int32=np.int32)[sc['xtype']]
  xs = np.array([xt(v) for v in sc['xs']], dtype=xt)
  zs = np.array(sc['zs'], dtype=int if sc['ztype'] == 'int' else float)
  return xs, zs


def observe(cpd, xs, zs):
  p = []
  for x in xs:
    p.append([txt(v) for v in cpd.predict(np.array([x] * len(zs), dtype=xs.dtype), zs)])
  def index(vals, v):
    for i, u in enumerate(vals):
      if np.array_equal(u, v):
        return i + 1
    return 0
  return dict(p=p, marg=[txt(cpd.x_marginal.get(np.asarray(x).tobytes(), 0.)) for x in xs],
              xs=[index(xs, v) for v in cpd.x_support()], zs=[index(zs, v) for v in cpd.z_support()],
              size=int(cpd.support_size()))


def run(sc):
  xs, zs = universe(sc)
  cpd = data.TabularCPD() if sc['ratio'] == 20 else data.TabularCPD(sc['ratio'])
  rng = np.random.RandomState(sc['npseed'])
  ev = []
  for op in sc['ops']:
    exc = ''
    args = True
    e = dict(op=op[0])
    try:
      if op[0] == 'query':
        for _ in range(op[1]):
          k = rng.randint(1, 4)
          xi, zi = rng.randint(len(xs), size=k), rng.randint(len(zs), size=k)
          cpd.predict(xs[xi], zs[zi] * (-1 if sc['ztype'] == 'signed' and not zs[zi].any() else 1))
          str(cpd)
      else:
        c = op[1]
        pairs = [(i, j) for i in range(len(c)) for j in range(len(c[0])) for _ in range(c[i][j])]
        order = rng.permutation(len(pairs)) if op[2] else range(len(pairs))
        x = xs[[pairs[k][0] for k in order]]
        z = zs[[pairs[k][1] for k in order]]
        if sc['ztype'] == 'signed':   # zeros of both signs
          z = np.where((z == 0) & (rng.rand(*z.shape) < .5), -0., z)
        if op[0] == 'badfit':
          x = x[:-1] if op[2] else np.r_[x, x[:1]]
        x0, z0 = x.copy(), z.copy()
        e['c'] = c
        cpd.fit(x, z)
        args = np.array_equal(x, x0) and np.array_equal(z, z0)
        if sc['npseed'] % 3 == 1:   # the caller may use its arrays for something else
          x[:], z[:] = x[::-1] + 1, 0
        if sc['npseed'] % 3 == 0:   # another table is none of its business
          (data.TabularCPD() if sc['ratio'] == 20 else data.TabularCPD(sc['ratio'])).fit(x[::-1], np.r_[z[:1], z[:-1]])
    except Exception as ex:
      exc = type(ex).__name__ if op[0] == 'badfit' else (type(ex).__name__ + ': ' + str(ex))[:200]
    e.update(exc=exc, args=bool(args))
    try:
      e.update(observe(cpd, xs, zs))
    except Exception as ex:
      e.update(exc=(type(ex).__name__ + ': ' + str(ex))[:200], p=[], marg=[], xs=[], zs=[], size=0)
      ev.append(e)
      break
    ev.append(e)
    if exc and op[0] != 'badfit':
      break
  return dict(traces=[dict(ratio=str(sc['ratio']), ev=ev, exc=ev[-1]['exc'])])
