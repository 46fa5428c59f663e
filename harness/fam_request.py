"""Requests for bandit algorithms, valid and not."""
import numpy as np

from causal_effect_bandits import arms, bandits, data, parameters

from fam_arm import txt


def value(s):
  return None if s == 'None' else float(s)


def read(arm_list):
  return [[a.name, txt(a.ci[0]), txt(a.ci[1]), int(a.get_num_units()), txt(a.cost)] for a in arm_list]


class Src(data.DataGenerator):
  def __init__(self):
    super().__init__('src')
    self.rng = np.random.RandomState(3)

  def generate(self, n):
    x = self.rng.permutation(np.arange(n) % 2)
    return data.ExpData(self.rng.randn(n, 2), x, x + self.rng.randn(n))


def run(sc):
  src = Src()
  arm_list = [arms.SampleSplittingArm('a%d' % i, parameters.AIPWLinearLogistic(n_features=2), data.get_identity_fn(),
                                      ci_algorithm=arms.CIAlgorithm.CLT, cost=1 + i) for i in range(sc['n'])]
  for a in arm_list[:sc['used']]:
    a.update(src.generate(40), .1)
  ev = []
  for cls, r, how in sc['reqs']:
    c = dict(u=bandits.UniformAlgorithm, l=bandits.LUCBAlgorithm, s=bandits.SuccessiveEliminationAlgorithm)[cls]
    before, ids = read(arm_list), [id(a) for a in arm_list]
    kw = {k: value(r[s]) for k, s in [('error_prob', 'error_prob'), ('error_tol', 'error_tol'), ('confidence', 'confidence'), ('sample_limit', 'limit')]}
    if how == 'defaults':   # leave out what has its default value
      kw = {k: v for k, v in kw.items() if not (k == 'error_prob' and v == .05 or k == 'error_tol' and v == 0)}
    elif how == 'int':
      kw = {k: (int(v) if v is not None and np.isfinite(v) and v == int(v) else v) for k, v in kw.items()}
    exc = ''
    try:
      c(arm_list, src, **kw)
    except Exception as ex:
      exc = type(ex).__name__
    ev.append(dict(r=r, cls=cls, exc=exc, before=before, after=read(arm_list), kept=ids == [id(a) for a in arm_list]))
  return dict(traces=[dict(ev=ev)])
