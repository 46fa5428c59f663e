"""Checks of the bandit algorithms: C01-C09, C29."""
import random

import common
from common import INF, TLCRun, HarnessError
from engine import Check

MODEL_INV = {
    'C01': ['Correct'],
    'C02': ['StopsInTime'],
    'C03': ['BestEstimate'],
    'C04': ['CandidatesNonEmpty', 'BestSurvives', 'OnlyCandidatesSampled', 'AnswerIsCandidate'],
    'C05': ['TwoDistinct', 'AllSampled', 'LeaderSampled'],
    'C06': ['WholeRounds', 'TypeOK'],
}

# What runs read and record (BanditRun.tla).
RUN_INV = {
    'C06': ['SamplesAreUnits', 'TotalsAgree', 'EveryRoundRecorded'],
    'C07': ['LastIsPublished', 'FrozenWhenNotSampled', 'NoOverrun'],
    'C08': ['EqualShare', 'UnionBound'],
    'C09': ['ConsecutiveBlocks', 'AlwaysFresh', 'WholeUpdates'],
    'C29': ['ArmDeterminedByUpdates'],
}


def run_cfg(invs, ks=(2,), limits=(7,), tols=(0,), u=2, skips='', grid=(0, 1), algs='uls'):
  text = cfg('RSpec', algs=algs, ks=ks, grid=grid, tols=tols, limits=limits, u=u, invs=invs,
             props=['OnlyAppended'] if 'LastIsPublished' in invs else [])
  text += ' '
  return text.replace(' U = ', f' Sources = {{"stable", "fresh", "shared"}}\n ErrorProb = 12\n Skips = {{{skips}}}\n U = ')


def cfg(spec='Spec', algs='uls', ks=(2,), grid=(0, 1, 2), tols=(0, 1), limits=(4, INF),
        u=1, lose=False, invs=(), props=(), constraint=None):
  s = lambda xs: '{' + ','.join(str(x) for x in xs) + '}'
  text = f'SPECIFICATION {spec}\nCONSTANTS\n'
  text += ' Algs = {' + ','.join(f'"{a}"' for a in algs) + '}\n'
  text += f' Ks = {s(ks)}\n Grid = {s(grid)}\n Tols = {s(tols)}\n Limits = {s(limits)}\n U = {u}\n'
  text += f' LoseTruth = {"TRUE" if lose else "FALSE"}\n'
  if invs:
    text += 'INVARIANTS ' + ' '.join(invs) + '\n'
  if props:
    text += 'PROPERTIES ' + ' '.join(props) + '\n'
  if constraint:
    text += f'CONSTRAINT {constraint}\n'
  return text


COSTS = [.25, .5, 1, 1, 1, 2, 4, 3, 1.5, 10]


def fit_costs(costs, tapes, tail):
  """Makes every cost-adjusted value exact in floating point."""
  out = []
  for c, tape, t in zip(costs, tapes, tail):
    vals = [x for v in tape for x in v if x < INF] + [t]
    out.append(c if all(x / 4 / c * c == x / 4 for x in vals) else 2.0)
  return out


class BanditCheck(Check):
  family = 'bandit'
  trace_module = 'BanditTrace'
  chunk = 500
  assumptions = [
      'arms report numbers (no nan) and there are at least two arms',
      'a supplied dataset is long enough for the run',
  ]

  def models(self):
    out = []
    if self.prop in RUN_INV:
      invs = RUN_INV[self.prop]
      out += [('run K=2', 'BanditRun', run_cfg(invs, tols=(0, 1))),
              ('run K=3', 'BanditRun', run_cfg(invs, (3,), (8,)))]
      if common.thorough():
        out += [('run K=2 long', 'BanditRun', run_cfg(invs, (2,), (11,))),
                ('run K=3 long', 'BanditRun', run_cfg(invs, (3,), (5,), u=1)),
                ('run K=4', 'BanditRun', run_cfg(invs, (4,), (8,)))]
    if self.prop not in MODEL_INV:
      return out
    invs = MODEL_INV[self.prop]
    props = ['EliminatedForGood'] if self.prop == 'C04' else []
    only = dict(C04='s', C05='ul').get(self.prop, 'uls')
    out += [('K=2', 'Bandit', cfg(algs=only, invs=invs, props=props)),
            ('K=3', 'Bandit', cfg(algs=only, ks=(3,), grid=(0, 1), limits=(5, INF), invs=invs, props=props))]
    if self.prop == 'C01':
      out.append(('K=3 exact', 'Bandit', cfg(algs='ul', ks=(3,), grid=(0, 1, 2), tols=(0,), limits=(INF,), invs=invs)))
    if self.prop == 'C02':
      out.append(('liveness', 'BanditLive', LIVE_CFG))
    if common.thorough():
      out.append(('K=3 fine', 'Bandit', cfg(algs=only, ks=(3,), grid=(0, 1, 2), limits=(7, INF), invs=invs, props=props)))
      out.append(('K=4', 'Bandit', cfg(algs=only, ks=(4,), grid=(0, 1), limits=(9, INF), invs=invs, props=props)))
    return out

  # ---- scenarios
  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + int(self.prop[1:]))
    out = self.some(scratch, rng)
    if self.prop == 'C09':   # a dataset may also end in the middle of a run
      for sc in out:
        if sc['stable'] and sc['kind'] == 'stub' and rng.random() < .2:
          sc['short'] = rng.randrange(1, sc['upr'] * 6 + 1)
    return out

  def some(self, scratch, rng):
    th = common.thorough()
    out = self.scripts(scratch, rng, th)
    n = 6000 if th else 700
    out += [self.random_stub(rng) for _ in range(n)]
    out += [self.real(rng) for _ in range(60 if th else 10)]
    out += [self.random_stub(rng, 'batch') for _ in range(20 if th else 3)]
    for alg in dict(C04='s', C05='ul').get(self.prop, 'uls'):
      for k in [20, 33, 40, 55, 70] if th else [rng.choice([20, 33]), rng.choice([45, 60, 70])]:
        out.append(dict(self.random_stub(rng, 'wide', k), algs=[alg]))
    for alg in dict(C02='uls', C04='s').get(self.prop, rng.choice('uls') if self.prop != 'C05' else 'l'):
      out.append(dict(self.random_stub(rng, 'longest'), algs=[alg]))
    for alg in dict(C04='s', C05='ul').get(self.prop, 'uls'):
      for stable in [True, False] * (5 if th else 1):
        out.append(dict(self.random_stub(rng, 'long'), algs=[alg], stable=stable))
    return out

  def scripts(self, scratch, rng, th):
    only = dict(C04='s', C05='ul').get(self.prop, 'uls')
    runs = [TLCRun(scratch, 'BanditGen', cfg('GSpec', algs=only, ks=(2,), grid=(0, 1), tols=(0, 1), limits=(3,),
                                             lose=True, constraint='MaxTape')),
            TLCRun(scratch, 'BanditGen', cfg('GSpec', algs=only, ks=(2, 3, 4, 5), grid=(0, 1, 2, 4), tols=(0, 1, 3),
                                             limits=(4, 9, 16, INF), lose=True, constraint='MaxTape'),
                   args=['-simulate', f'num={800 if th else 120}', '-depth', '70', '-seed', str(common.seed())])]
    scripts = []
    for i, r in enumerate(runs):
      res = r.wait()
      got = res.printed('SCRIPT')
      if len(got) < 10:
        raise HarnessError('no scripts: ' + res.error_text())
      got.sort(key=str)
      k = (3000, 4000)[i] if th else (300, 350)[i]
      scripts += rng.sample(got, min(k, len(got)))
    out = []
    for s in scripts:
      K = s['K']
      tapes = [[] for _ in range(K)]
      for a, lo, est, hi in s['tape']:
        tapes[a - 1].append([INF if x >= INF else 4 * x for x in (lo, est, hi)])
      out.append(self.finish(rng, dict(
          K=K, algs=[s['alg']], tol=4 * s['tol'], limit=s['limit'], upr=1, tapes=tapes,
          costs=[1] * K if rng.random() < .5 else [rng.choice(COSTS) for _ in range(K)])))
    return out

  def finish(self, rng, sc):
    K = sc['K']
    order = list(range(1, K + 1))
    rng.shuffle(order)
    # After its tape an arm publishes an exact value; all differ.
    sc['tail'] = [4 * 8 * i + 4 for i in order]
    sc['costs'] = fit_costs(sc['costs'], sc['tapes'], sc['tail'])
    n = max(len(t) for t in sc['tapes'])
    sc['guard'] = (n + 6) * K * 2 + 4 * K
    sc.setdefault('stable', rng.random() < .4)
    sc.setdefault('dim', rng.choice([0, 1, 1, 2, 3]))
    sc['kind'] = 'stub'
    sc['errp'] = rng.choice([.05, .1, .5, .01, .9, .2, .001, .3, 1e-5, 1e-8, 1e-13])
    sc['conf'] = rng.choice(['default', 'default', .05, .9])
    sc['limitkind'] = rng.choice(['plain', 'plain', 'inf', 'float', 'between'])
    sc['npseed'] = rng.randrange(10**6)
    sc['prereset'] = rng.random() < .2
    sc['names'] = rng.choice(['own', 'own', 'own', 'same', 'pairs'])
    sc['reuse'] = rng.random() < .5
    if rng.random() < .1 and not sc['stable']:   # more units than there is memory
      sc['many'] = rng.choice([9999991, 16777217, 2**31 - 1, 10**9])
    if rng.random() < .2:   # values that are tiny, huge or relatively close; costs keep them exact
      sc['lens'] = rng.choice([[-40, 0], [30, 0], [1, 28], [1, 44], [-20, 20]])
      sc['costs'] = [c if c in (.25, .5, 1, 2, 4) else rng.choice([.5, 1, 2]) for c in sc['costs']]
    return sc

  def random_stub(self, rng, big=None, wide=None):
    K = rng.choice([2, 2, 3, 3, 4, 5, 6, 8, 12])
    rounds = rng.choice([1, 2, 3, 4, 6, 10, 20])
    if K * rounds > 120:
      rounds = 120 // K
    if big == 'longest':
      K, rounds, big = 2, rng.randrange(1050, 1400), 'long'
    elif big == 'long':    # many rounds
      K, rounds = rng.choice([2, 2, 3]), rng.choice([80, 140, 200])
    elif big == 'wide':  # many arms
      K, rounds = wide or rng.choice([20, 33, 40, 55, 70]), rng.choice([3, 6])
    mode = rng.choice(['grid', 'shrink', 'shrink', 'skew', 'flat'])
    upr = rng.choice([1, 1, 2, 3, 5, 7, 10])
    if big:
      mode = rng.choice(['flat', 'grid', 'shrink'] if big == 'wide' else ['flat', 'flat', 'grid'])
      upr = rng.choice([100, 257, 500]) if big == 'batch' else rng.choice([1, 2])
    tapes = []
    wait = rng.choice([0, 0, 0, 1, 2])
    truth = [rng.randrange(1, 12) * 4 for _ in range(K)]
    if rng.random() < .3:
      truth = [rng.choice([4, 8]) for _ in range(K)]
    for a in range(K):
      tape = []
      w = rng.randrange(4, 60)
      for r in range(rounds + (2 if rng.random() < .2 else 0)):
        if r < wait and rng.random() < .6:
          tape.append([0, INF, INF])
          continue
        if mode == 'grid':
          v = sorted(rng.choice([0, 4, 8, 12]) for _ in range(3))
          if rng.random() < .05:
            v[2] = INF
        elif mode == 'flat':
          x = rng.choice([4, 8, 12])
          v = [max(0, x - rng.choice([0, 0, 4])), x, x + rng.choice([0, 0, 4])]
        elif mode == 'skew':
          v = [rng.randrange(0, 20), rng.randrange(0, 40), rng.randrange(10, 40)]
          if v[0] > v[2]:
            v[0], v[2] = v[2], v[0]
        else:
          w = max(0, int(w * rng.choice([.5, .7, .9])))
          lo = max(0, truth[a] - rng.randrange(0, w + 1))
          hi = truth[a] + rng.randrange(0, w + 1)
          v = [lo, rng.randrange(lo, hi + 1), hi]
        tape.append(v)
      tapes.append(tape)
    if big == 'long':   # nothing is decided for a long time
      for a in range(K):
        for r in range(rounds - 3):
          tapes[a][r][0] = 0
          tapes[a][r][2] = max(tapes[a][r][2], 16) if tapes[a][r][2] < INF else INF
      if rng.random() < .7:   # until it suddenly is
        best = rng.randrange(K)
        for a in range(K):
          for r in range(rounds - rng.choice([3, 11, 25]) if a == 0 else rounds - 40, rounds):
            tapes[a][r] = [0, 0, 0] if a == best else [12, 16, 20]
    lim = INF
    p = rng.random()
    if p < .65 and big != 'long':
      r = rng.randrange(0, rounds + 2)
      per = rng.choice([K, K, 2])
      lim = max(1, (r * per + rng.choice([0, 0, K])) * upr + rng.choice([-1, 0, 0, 0, 1, 2]))
    algs = [rng.choice('uls') if self.prop not in ('C04', 'C05') else ('s' if self.prop == 'C04' else rng.choice('ullll'))]
    if rng.random() < .2:
      algs.append(rng.choice('uls'))
    return self.finish(rng, dict(K=K, algs=algs, tol=rng.choice([0, 0, 0, 1, 2, 4, 8, 20]), limit=lim,
                                 upr=upr, tapes=tapes, costs=[rng.choice(COSTS) for _ in range(K)]
                                 if rng.random() < .6 else [1] * K))

  def real(self, rng):
    dim = rng.choice([2, 3])
    K = rng.choice([2, 3, 4])
    specs = []
    for i in range(K):
      specs.append(dict(name=f'a{i}', eta=rng.choice(['aipw', 'aipw', 'linear', 'reg']),
                        cols=sorted(rng.sample(range(dim), rng.randrange(1, dim + 1))),
                        arm=rng.choice(['split', 'split', 'split', 'boot']), ci=rng.choice(['clt', 'clt', 'chi2']),
                        cost=1 if rng.random() < .3 else rng.choice([.3, .7, 1.1, 2.5])))
    upr = rng.choice([20, 31, 50])
    rounds = rng.choice([2, 4, 6])
    return dict(kind='real', dim=dim, arms=specs, upr=upr, tol=0, limit=upr * K * rounds,
                errp=.1, algs=[rng.choice('uls')] + ([rng.choice('uls')] if rng.random() < .3 else []),
                stable=rng.random() < .5, npseed=rng.randrange(10**6), guard=K * (rounds * K + 3) + 20)

  def nontrivial(self, t):
    return len(t['ev']) > t['K']


LIVE_CFG = '''SPECIFICATION LiveSpec
CONSTANTS
 Algs = {"u","l","s"}
 Ks = {2,3}
 Grid = {1,2,3}
 Tols = {0}
 Limits = {1000000}
 U = 1
 LoseTruth = FALSE
 Settle = 1
PROPERTIES Termination
'''


class TwinCheck(BanditCheck):
  """C29: several algorithms on the same dataset."""
  trace_module = 'BanditTwin'

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + 29)
    out = []
    for i in range(3000 if common.thorough() else 400):
      sc = self.random_stub(rng, {0: 'long', 1: 'wide', 2: 'batch'}.get(i % 100))
      algs = list('uls') + ([rng.choice('uls')] if rng.random() < .3 else [])
      rng.shuffle(algs)
      sc.pop('lens', None)
      sc.pop('many', None)
      sc.update(algs=algs, stable=True, digest=rng.choice([2, 3, 4, 7]), costs=[1] * sc['K'])
      sc['guard'] = sc['guard'] + 20 * sc['K']
      if rng.random() < .25:   # the dataset may end in the middle of a run
        sc['short'] = rng.randrange(1, sc['upr'] * 6 + 1)
      if sc['limit'] == INF:
        sc['limit'] = sc['upr'] * sc['K'] * (120 if i % 100 == 0 else 8)
      out.append(sc)
    return out

  def pack(self, outputs):
    res = []
    for i, o in enumerate(outputs):
      ts = o.get('traces', [])
      if ts:
        res.append((i, dict(K=ts[0]['K'], ev=[0] * sum(len(t['ev']) for t in ts),
                            runs=[dict(ev=[{k: e[k] for k in ('a', 'lo', 'est', 'hi')} for e in t['ev']],
                                       exc=t['exc']) for t in ts])))
    return res

  def nontrivial(self, t):
    return len(t['runs']) > 1


CHECKS = {p: BanditCheck for p in ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09']}
CHECKS['C29'] = TwinCheck
