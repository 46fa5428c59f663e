"""The example models, and what they generate."""
import numpy as np

from causal_effect_bandits import example_scm

from fam_arm import txt

KEYS = dict(back=['tau', 'mu_z', 'var_z', 'mu_x', 'var_x', 'mu_y', 'var_y', 'beta', 'alpha'],
            front=['tau', 'mu_z', 'var_z', 'mu_x', 'var_x', 'mu_y', 'var_y', 'mu_u', 'var_u', 'alpha_1', 'alpha_2', 'beta', 'gamma'])


def sample(kind, model, n, m):
  s = dict(n=txt(n), m=txt(m), cells=[], mean={}, var={}, odd=0, effect='')
  if m:
    s['effect'] = txt(model.compute_treatment_effect(m))
  d = model.generate(n)
  cov = np.asarray(d.cov, dtype=float).reshape(len(d), -1)
  x, y = np.ravel(d.exp).astype(float), np.ravel(d.rsp).astype(float)
  if kind == 'back':
    vs = dict(z=cov[:, 0], x=x)
    order = [(z, x) for z in (0, 1) for x in (0, 1)]
    cols = [vs['z'], vs['x']]
  else:
    vs = dict(u=cov[:, 0], x=x, z=cov[:, 1])
    order = [(u, x, z) for u in (0, 1) for x in (0, 1) for z in (0, 1)]
    cols = [vs['u'], vs['x'], vs['z']]
  seen = 0
  for o in order:
    sel = np.ones(n, dtype=bool)
    for c, v in zip(cols, o):
      sel &= c == v
    k = int(sel.sum())
    seen += k
    s['cells'].append(dict(count=txt(k), mean=txt(y[sel].mean() if k else 0), var=txt(y[sel].var() if k else 1)))
  s['odd'] = n - seen
  for k, v in dict(vs, y=y).items():
    s['mean'][k], s['var'][k] = txt(v.mean()), txt(v.var())
  return s


def run(sc):
  np.random.seed(sc['npseed'])
  traces = []
  models = []
  for kind in sc['kinds']:
    t = dict(kind=kind, exc='', P={k: txt(0) for k in KEYS[kind]}, cols=0, samples=[])
    traces.append(t)
    try:
      model, rep = dict(back=example_scm.back_door_scm, front=example_scm.frontdoor_scm)[kind]()
      t['P'] = {k: txt(rep[k]) for k in KEYS[kind]}
      models.append(model)
    except Exception as ex:
      models.append(None)
      t['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
  # All of them exist before any of them is used.
  for n, m in sc['samples']:
    for kind, model, t in zip(sc['kinds'], models, traces):
      if t['exc']:
        continue
      try:
        d = model.generate(7)
        t['cols'] = int(np.asarray(d.cov).reshape(len(d), -1).shape[1])
        if t['cols'] == dict(back=1, front=2)[kind]:
          t['samples'].append(sample(kind, model, n, m))
      except Exception as ex:
        t['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
  return dict(traces=traces)
