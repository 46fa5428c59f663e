"""The generic check: model check the design, run the code, judge its traces."""
import concurrent.futures
import hashlib
import json
import os
import time

import common
from common import HarnessError, TLCRun, Scratch


class Check:
  """One suite of checks: what one family contributes to one property.

  Subclasses define
    family        the driver module (fam_<family>.py)
    trace_module  the TLA+ module that judges traces
    models()      [(name, module, cfg)] exhaustive model checking runs
    scenarios(scratch)  the scenarios for the real code
    pack(outputs) [(scenario index, trace)] from the driver's outputs
  """
  family = None
  trace_module = None
  level = 'model_checking'
  assumptions = []
  chunk = 400
  mc_workers = 2
  driver_timeout = 240

  def __init__(self, prop):
    self.prop = prop

  def models(self):
    return []

  def pack(self, outputs):
    res = []
    for i, o in enumerate(outputs):
      for t in o.get('traces', []):
        res.append((i, t))
    return res

  def note(self):
    return ('Exhaustive within the constants of the design model; on the code, every recorded run '
            'is decided in full, but only the generated scenarios are run. Trusts the stub arms and '
            'recorders of the harness and TLC.')

  def nontrivial(self, trace):
    return True

  def summary(self, scenario, trace):
    s = json.dumps(scenario)
    return json.loads(s) if len(s) < 1500 else s[:1500]


def judge(scratch, module, traces, chunk, workers=2, procs=4):
  """Returns the verdict (list of failed clauses) of every trace, and counts."""
  parts = [traces[i:i + chunk] for i in range(0, len(traces), chunk)]
  verdicts = []
  states = transitions = 0
  budget = [3]   # ill-typed traces that are singled out
  cfg = 'SPECIFICATION TraceSpec\n'

  def one(part):
    return TLCRun(scratch, module, cfg, {'traces.json': part}, workers=workers,
                  timeout=600, heap='3g').wait()

  def rest(part):
    """Verdicts when TLC cannot evaluate the specification on some trace.

    What the code did is then outside of the types that the specification
    knows, which no run of the specification is: that trace is rejected.
    """
    r = one(part)
    got = {t: sorted(bad) for t, bad in r.printed('VERDICT')}
    if r.ok() and set(got) == set(range(1, len(part) + 1)):
      return [got[i] for i in range(1, len(part) + 1)]
    if len(part) == 1:
      if budget[0] <= 0 or 'Error: ' not in r.text:
        raise HarnessError('trace checking failed: ' + r.error_text())
      budget[0] -= 1
      return [['UNREADABLE']]
    if budget[0] <= 0:
      return [[] for _ in part]
    h = len(part) // 2
    return rest(part[:h]) + rest(part[h:])
  with concurrent.futures.ThreadPoolExecutor(procs) as ex:
    results = list(ex.map(one, parts))
  for part, r in zip(parts, results):
    got = {t: bad for t, bad in r.printed('VERDICT')}
    if not r.ok() or set(got) != set(range(1, len(part) + 1)):
      verdicts += rest(part)
      continue
    verdicts += [sorted(got[i]) for i in range(1, len(part) + 1)]
    states += r.states
    transitions += r.transitions
  return verdicts, states, transitions


def run_suite(check, scratch, scenarios_in, out):
  """Runs one suite; fills out."""
  mcs = []
  if scenarios_in is None:
    for name, module, cfg in check.models():
      mcs.append((name, TLCRun(scratch, module, cfg, workers=check.mc_workers,
                               timeout=3000 if common.thorough() else 600, heap='4g')))
    scenarios = check.scenarios(scratch)
  else:
    scenarios = scenarios_in
  tm = [('scenarios', time.time() - out['t0'])]
  outputs = common.run_driver(scratch, check.family, scenarios, timeout=check.driver_timeout)
  tm.append(('driver', time.time() - out['t0']))
  name = type(check).__name__
  for sc, o in zip(scenarios, outputs):
    if 'dead' in o:
      out['violations'].append((['DEAD'], name, sc, o))
    if 'skipped' in o:
      out['skipped'] += 1
  packed = check.pack(outputs)
  traces = [t for _, t in packed]
  verdicts, st, tr = judge(scratch, check.trace_module, traces, check.chunk) if traces else ([], 0, 0)
  tm.append(('judge', time.time() - out['t0']))
  out['trace_states'] += st
  out['states'] += st
  out['transitions'] += tr
  out['traces'] += len(traces)
  out['scenarios'] += len(scenarios)
  for (i, t), v in zip(packed, verdicts):
    out['events'] += len(t.get('ev', [])) or 1
    if check.nontrivial(t):
      out['distinct'].add(hashlib.md5(json.dumps(t, sort_keys=True).encode()).hexdigest())
    mine = [x for x in v if x.startswith(check.prop + '.') or x in ('EXC', 'UNREADABLE')]
    if mine:
      out['violations'].append((mine, name, scenarios[i], t))
  broken = []
  for mname, run in mcs:
    r = run.wait()
    if not r.ok():
      if r.violated:
        broken.append((mname, r.violated, r.error_text()))
      else:
        raise HarnessError(f'model {mname} failed: ' + r.error_text())
    out['states'] += r.states
    out['transitions'] += r.transitions
    out['model_states'] += r.states
    out['models'].append(f'{mname}: {r.states} distinct states')
  tm.append(('models', time.time() - out['t0']))
  if os.environ.get('ABCEI_TIMING'):
    print(name, [(a, round(b, 1)) for a, b in tm])
  if broken:
    raise HarnessError('the design model violates its properties: ' + str(broken))
  if not traces and not any(n == name for _, n, _, _ in out['violations']):
    raise HarnessError('nothing was checked by ' + name)
  for i, t in packed[:: max(1, len(packed) // 3)][:3]:
    out['samples'].append(check.summary(scenarios[i], t))


def run_check(prop, suites, replay=None):
  """Returns (exit code); prints violations and writes the evidence."""
  t0 = time.time()
  known = common.load_known()
  out = dict(t0=t0, violations=[], skipped=0, states=0, transitions=0, traces=0, scenarios=0,
             events=0, distinct=set(), models=[], model_states=0, samples=[], trace_states=0)
  with Scratch() as scratch:
    if replay is None:
      for c in suites:
        run_suite(c, scratch, None, out)
    else:
      with open(replay) as f:
        r = json.load(f)
      for c in suites:
        if type(c).__name__ == r['suite']:
          run_suite(c, scratch, [r['scenario']], out)
  reported = 0
  out_dir = os.path.join(common.EVID, 'replays')
  seen_tags = {}
  for tags, suite, sc, t in out['violations']:
    sig = prop + ' ' + ','.join(tags) + ' ' + hashlib.md5(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:12]
    if any(k.startswith('property=' + prop + ' ') and sig.split(' ', 1)[1] in k for k in known):
      print(f'KNOWN-FINDING: property={prop} {sig}')
      continue
    reported += 1
    key = tuple(tags)
    seen_tags[key] = seen_tags.get(key, 0) + 1
    if seen_tags[key] > 2 or len(seen_tags) > 5:
      continue
    os.makedirs(out_dir, exist_ok=True)
    path = os.path.join(out_dir, f'{prop}-{reported}.json')
    with open(path, 'w') as f:
      json.dump(dict(property=prop, suite=suite, failed=tags, scenario=sc, trace=t), f)
    print(f'VIOLATION property={prop} replay={path}')
    print('  failed clauses:', ', '.join(tags), t.get('dead', t.get('exc', '')) if isinstance(t, dict) else '')
  if replay is None:
    cov = dict(states=out['states'], transitions=out['transitions'],
               traces_validated_against_impl=out['traces'], samples=out['samples'][:6],
               scenarios=out['scenarios'], events=out['events'],
               distinct_nontrivial_traces=len(out['distinct']),
               design_models=out['models'], suites=[type(c).__name__ for c in suites],
               trace_spec_states=out['trace_states'], skipped=out['skipped'])
    assumptions = []
    for c in suites:
      assumptions += [a for a in c.assumptions if a not in assumptions]
    common.write_evidence(prop, suites[0].level, cov, time.time() - t0, reported, assumptions)
  print(f"{prop}: {out['traces']} traces ({len(out['distinct'])} distinct), {out['events']} events, "
        f"{out['model_states']} model states, {reported} violations, {time.time() - t0:.1f}s")
  return 1 if reported else 0
