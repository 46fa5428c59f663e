"""Checks of the arms: C11 (error probability), C12, C13, C14."""
import random
import re

import common
from common import TLCRun, HarnessError
from engine import Check

ARM_CFG = '''SPECIFICATION {spec}
CONSTANTS
 MaxUnits = {units}
 MaxBatch = {batch}
 MaxOps = {ops}
 Needs = {needs}
 Stables = {stables}
 Boots = {boots}
{rest}
'''


def arm_cfg(spec='Spec', units=5, batch=3, ops=4, needs='{1,2}', stables='{TRUE,FALSE}', boots='{TRUE,FALSE}', rest=''):
  return ARM_CFG.format(spec=spec, units=units, batch=batch, ops=ops, needs=needs, stables=stables, boots=boots, rest=rest)


MATH_CFG = '''SPECIFICATION Spec
CONSTANTS
 Scores = {scores}
 MaxLen = {n}
 Deltas = {deltas}
 Bs = {bs}
INVARIANTS MomentsOK CltOK Chi2OK FiniteOK Widens BootOK
'''

DELTAS = [.05, .1, .3, .25, .5, .15, .01, 1e-3, 1e-5]
BOOT_DELTAS = [.25, .5, .3, .15, .7]
INVALID = [0, 1, -.1, 1.5, 'nan', 2, -1]


def script_of(line):
  return [(a, int(b)) for a, b in re.findall(r'<<\\?"(\w)\\?", (\d+)>>', line)]


class ArmCheck(Check):
  family = 'arm'
  trace_module = 'ArmTrace'
  chunk = 120
  assumptions = ['transformers are pure; at least two units are held out when the nuisance parameter is ready']

  def models(self):
    th = common.thorough()
    inv = 'INVARIANTS Conserved NoLeak Honest Balanced Published NothingOld Current ScoredByFold LikeNew\nPROPERTIES StableSides NoEffect'
    out = []
    if self.prop in ('C10', 'C11', 'C12', 'C13'):
      out.append(('arm', 'Arm', arm_cfg(units=7 if th else 6, ops=5 if th else 4, rest=inv)))
    if self.prop in ('C13', 'C14'):
      out.append(('math', 'ArmMath', MATH_CFG.format(
          scores='{0,1,2,5}' if th else '{0,1,3}', n=5 if th else 4,
          deltas='{"0.05","0.1","0.25","0.5","0.01"}' if th else '{"0.05","0.25","0.5"}',
          bs='{0,1,2,5,8,13,40,100}' if th else '{0,1,2,5,13}')))
    return out

  def scenarios(self, scratch):
    rng = random.Random(common.seed() * 7919 + int(self.prop[1:]))
    th = common.thorough()
    r = TLCRun(scratch, 'ArmGen', arm_cfg('GSpec', units=40, batch=6, ops=6, boots='{FALSE}', rest='CONSTANT Splits <- OneSplit\nINVARIANT EmitOK'),
               args=['-simulate', f'num={2000 if th else 300}', '-depth', '8', '-seed', str(common.seed())],
               workers=1).wait()
    scripts = [script_of(x) for x in r.text.splitlines() if x.startswith('"SCRIPT')]
    if len(scripts) < 50:
      raise HarnessError('no scripts ' + r.error_text())
    scripts = sorted(set(map(tuple, scripts)))
    rng.shuffle(scripts)
    out = [self.scenario(rng, s) for s in scripts[:2000 if th else 220]]
    out += [self.scenario(rng, self.long(rng)) for _ in range(1500 if th else 160)]
    out += [self.scenario(rng, [('u', rng.choice([1, 2, 2, 3, 5])) for _ in range(rng.choice([30, 40, 55]))], kind='split')
            for _ in range(40 if th else 6)]
    for k in range(60 if th else 8):   # much data, then a little more of it
      script = [('u', rng.choice([60, 150, 260])) for _ in range(2)] + [
          ('u', rng.choice([1, 2, 2, 3, 4])) for _ in range(5 if k % 3 else 26)]
      out.append(self.scenario(rng, script, kind='split', eta='spy' if k % 2 else None))
    out += [self.equal(rng) for _ in range(120 if th else 14)]
    if self.prop != 'C11':
      out += [self.big(rng) for _ in range(60 if th else 6)]
      if self.prop == 'C14':
        out += [self.tiny(rng, d) for d in ([.001, .0004, .0002, .0001] if th else [.001, .0003])]
    return out

  def big(self, rng):
    """Real parameters and as much data as in real use."""
    batches = [rng.choice([200, 401, 500]) for _ in range(rng.choice([5, 6, 8]))]
    if rng.random() < .5:
      batches = batches[:4] + [rng.choice([2, 3, 7, 12]) for _ in range(4)]
    sc = self.scenario(rng, [('u', n) for n in batches], kind='split')
    sc.update(eta=rng.choice(['aipw', 'aipw', 'linear', 'reg', 'frontdoor', 'spy']), ci='clt', stable=rng.random() < .8)
    return sc

  def equal(self, rng):
    """Many units are equal."""
    sc = self.scenario(rng, self.long(rng), eta='spy')
    sc.update(equal=rng.choice([2, 4, 7, 10**6]), dim=12, cols=list(range(12)))
    return sc

  def tiny(self, rng, delta):
    sc = self.scenario(rng, [('u', 12), ('u', 7)], kind='boot')
    sc.update(eta='spy', need=3, B=0, shift=0, scale=1)
    for op in sc['ops']:
      op[2] = delta
    sc['ops'] = sc['ops'][:1]
    return sc

  def long(self, rng):
    ops = []
    for _ in range(rng.randrange(2, 12)):
      p = rng.random()
      ops.append(('r', 0) if p < .06 else ('i', rng.randrange(1, 9)) if p < .12
                 else ('u', rng.choice([1, 2, 3, 4, 5, 7, 8, 13, 20])))
    return ops

  def scenario(self, rng, script, kind=None, eta=None):
    if kind:
      pass
    elif self.prop != 'C14':
      kind = rng.choice(['split', 'split', 'boot'])
    else:
      kind = rng.choice(['split', 'split', 'split', 'boot', 'boot'])
    eta = eta or rng.choice(['spy', 'spy', 'spy', 'spy', 'aipw', 'linear', 'reg', 'frontdoor'])
    dim = rng.choice([1, 2, 3, 3, 5])
    cols = rng.sample(range(dim), rng.randrange(1, dim + 1))
    stable = rng.random() < .6
    sc = dict(kind=kind, eta=eta, dim=dim, cols=cols, stable=stable,
              need=rng.choice([3, 3, 4, 7]), npseed=rng.randrange(10**6))
    sc['types'] = [[rng.choice(['float64', 'float64', 'int64', 'int32', 'float32']), rng.choice(['int64', 'float64', 'bool', 'uint8', 'int8']),
                    rng.choice(['float64', 'float64', 'int64', 'float32'])] for _ in range(rng.choice([1, 1, 2, 3]))]
    deltas = DELTAS
    if eta == 'spy':
      sc['shift'], sc['scale'] = rng.choice([(0, 1), (0, 1), (0, 1), (1e6, 1), (-40, 1), (0, 1e4), (0, 1e-4)])
      sc['fickle'] = kind != 'boot' and rng.random() < .15
    if kind == 'boot':
      sc['B'] = rng.choice([0, 0, 2, 5, 9, 16, 25])
      deltas = BOOT_DELTAS
    else:
      sc['ci'] = rng.choice(['clt', 'clt', 'chi2', 'finite'])
      if eta in ('linear', 'reg') and sc['ci'] == 'finite':
        sc['ci'] = 'clt'   # they have no confidence sequence
      if sc['ci'] == 'finite':
        sc.update(g=rng.choice([.3, 1, 2.5, .05]), etag=rng.choice([1, .4]), tau=rng.choice([1, 2, .5]),
                  burn=rng.choice([2, 3, 5, 8, 1000]), rho=rng.choice([.1, 1]))
    if kind == 'boot' and eta != 'spy' and 0 < sc['B'] < 5:
      sc['B'] = 5
    if kind == 'split' and len(script) <= 12:
      deltas = deltas + [1e-8]
    delta = rng.choice(deltas)
    vary = rng.random() < .3
    ops = []
    first = True
    for a, n in script:
      if a == 'u':
        if eta != 'spy' or first or kind == 'boot':
          n = max(n, 2)
        if first and (eta != 'spy' or n < 4):
          n = max(n, 4)
        if kind == 'boot' and eta != 'spy':
          n = max(n, 24)   # no resample without units
        if eta == 'reg' and first:
          n = max(n, 6)
        first = False
        ops.append(['u', n, rng.choice(deltas) if vary else delta])
      elif a == 'r':
        first = True
        ops.append(['r'])
      else:
        ops.append(['i', max(n, 2), rng.choice(INVALID)])
    sc['ops'] = ops
    return sc

  def nontrivial(self, t):
    return any(e['op'] == 'update' and e['ready'] for e in t['ev'])

  def summary(self, sc, t):
    return dict(scenario=sc, events=len(t['ev']))


CHECKS = {p: ArmCheck for p in ['C12', 'C13', 'C14', 'C11']}
