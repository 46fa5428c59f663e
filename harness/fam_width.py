"""Asks real nuisance parameters for the widths of their confidence sequences."""
import numpy as np

from causal_effect_bandits import data, parameters

from fam_arm import message, txt
from fam_param import spoil


def make(sc):
  if sc['kind'] == 'aipw':
    cls = dict(linear=parameters.AIPWLinearLogistic, kernel=parameters.AIPWKernelRidgeLogistic,
               boost=parameters.AIPWKernelGradientBoosting)[sc['cls']]
  else:
    cls = parameters.FrontDoorLinearFiniteZ
  return cls(sc['dim'], min_units=sc['need'], min_overlap=sc['ov'])


def build(x, dim):
  cov = np.array(x['cov']).reshape(-1, dim).astype(x['tc'])
  return data.ExpData(cov, np.array(x['exp']).astype(x['te']), np.array(x['rsp']).astype(float))


def run(sc):
  np.random.seed(sc['npseed'])
  eta = make(sc)
  other = make(sc) if sc['npseed'] % 3 == 0 else None
  ds = [build(x, sc['dim']) for x in sc['data']]
  ev = []
  exc = ''
  for op in sc['ops']:
    if op[0] == 'fit':
      try:
        d = build(sc['data'][op[1]], sc['dim']) if sc['npseed'] % 5 < 2 else ds[op[1]]
        eta.fit(d)
      except Exception as e:
        exc = message(e)
        break
      ev.append(dict(op='fit', d=op[1] + 1))
      if sc['npseed'] % 5 < 2:   # the caller may use its arrays for something else
        spoil(d, sc['npseed'] % 2)
      if other is not None:   # none of the first one's business
        try:
          other.fit(ds[(op[1] + 1) % len(ds)])
          other.calculate_cs_width(.2, sub_g=1, rho=1)
        except Exception:
          pass
    elif op[0] == 'reset':
      eta.reset()
    elif op[0] == 'score':
      eta.calculate_score(ds[op[1]])
    else:
      w, x = 'NaN', ''
      snap = [(np.array(q.cov), np.array(q.exp), np.array(q.rsp)) for q in ds]
      try:
        w = txt(eta.calculate_cs_width(float(op[1]), sub_g=float(op[2]), rho=float(op[3])))
      except Exception as e:
        x = message(e)
      same = all(all(np.array_equal(a, b) for a, b in zip(s, (q.cov, q.exp, q.rsp))) for s, q in zip(snap, ds))
      ev.append(dict(op='width', delta=op[1], g=op[2], rho=op[3], w=w, exc=x, same=bool(same)))
  return dict(traces=[dict(kind=sc['kind'], ov=str(sc['ov']), ev=ev, exc=exc,
                           data=[dict(cov=[[txt(v) for v in r] for r in np.asarray(d.cov)],
                                      exp=[txt(v) for v in np.asarray(d.exp, dtype=float)]) for d in ds])])
