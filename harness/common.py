"""Shared machinery: running TLC, the code under test, and reporting."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ABCEI_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
INF = 1000000      # stands for +infinity in traces (TLC integers are 32 bit)
BADNUM = 999999999   # a number that the trace format cannot express
NANNUM = 888888888   # nan


class HarnessError(Exception):
  """The machinery failed: neither a pass nor a violation."""


def seed():
  return int(os.environ.get('VERIF_SEED', '1'))


def tier():
  return os.environ.get('VERIF_TIER', 'quick')


def thorough():
  return tier() == 'thorough'


class Scratch:
  """A scratch directory that is removed at the end."""

  def __init__(self):
    self.path = tempfile.mkdtemp(prefix='abcei_')

  def __enter__(self):
    # The numbers that the specifications use (spec/Num.tla).
    self.num = os.path.join(self.path, 'classes')
    r = subprocess.run(['javac', '-nowarn', '-d', self.num, '-cp', JARS, os.path.join(SPEC, 'Num.java')],
                       capture_output=True, text=True)
    if r.returncode:
      raise HarnessError('javac: ' + r.stderr)
    return self.path

  def __exit__(self, *_):
    shutil.rmtree(self.path, ignore_errors=True)


class TLCRun:
  """One TLC process in its own directory, with a copy of the specifications."""

  def __init__(self, scratch, module, cfg, data=None, workers=2, args=(),
               timeout=600, heap='2g', spec=None):
    self.module = module
    spec = spec or SPEC
    self.dir = tempfile.mkdtemp(prefix=module + '_', dir=scratch)
    for f in os.listdir(spec):
      if f.endswith('.tla'):
        shutil.copy(os.path.join(spec, f), self.dir)
    with open(os.path.join(self.dir, 'run.cfg'), 'w') as f:
      f.write(cfg)
    for fname, obj in (data or {}).items():
      with open(os.path.join(self.dir, fname), 'w') as f:
        json.dump(obj, f)
    self.timeout = timeout
    self.t0 = time.time()
    self.out_path = os.path.join(self.dir, 'out.txt')
    self.out = open(self.out_path, 'w')
    cmd = ['java', '-Djava.io.tmpdir=' + self.dir, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:CICompilerCount=2', '-Xmx' + heap, '-Xss16m', '-XX:TieredStopAtLevel=4',
           '-cp', JARS + ':' + os.path.join(scratch, 'classes'), 'tlc2.TLC', '-workers', str(workers), '-deadlock',
           '-metadir', os.path.join(self.dir, 'meta'), '-config', 'run.cfg',
           *args, module + '.tla']
    self.proc = subprocess.Popen(cmd, cwd=self.dir, stdout=self.out,
                                 stderr=subprocess.STDOUT, start_new_session=True)

  def wait(self):
    try:
      self.proc.wait(timeout=max(1, self.timeout - (time.time() - self.t0)))
    except subprocess.TimeoutExpired:
      os.killpg(self.proc.pid, signal.SIGKILL)
      self.proc.wait()
      raise HarnessError('TLC timed out: ' + self.module)
    self.out.close()
    with open(self.out_path) as f:
      return TLCResult(self.module, f.read(), self.proc.returncode)


class TLCResult:

  def __init__(self, module, text, rc):
    self.module, self.text, self.rc = module, text, rc
    self.states = self.transitions = 0
    for m in re.finditer(r'(\d+) states generated(?:[^\n]*?), (\d+) distinct states found', text):
      self.transitions, self.states = int(m.group(1)), int(m.group(2))
    m = re.search(r'(\d+) states checked', text)   # simulation
    self.violated = re.findall(r'(?:Invariant|Action property|property) ?(\S*) (?:is|were) violated', text)
    if re.search(r'Temporal propert(y|ies) .*(was|were) violated', text):
      self.violated.append('temporal')

  def printed(self, tag):
    """JSON values that the specification printed as strings 'TAG <json>'."""
    out = []
    for line in self.text.splitlines():
      line = line.strip()
      if line.startswith('"' + tag + ' '):
        s = line[1:-1]
        s = s.replace('\\"', '"').replace('\\\\', '\\')
        out.append(json.loads(s[len(tag) + 1:]))
    return out

  def ok(self):
    return self.rc == 0 and ('No error has been found' in self.text)

  def error_text(self):
    i = self.text.find('Error:')
    return self.text[i:i + 6000] if i >= 0 else self.text[-3000:]


PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def run_driver(scratch, family, scenarios, timeout=300, procs=4):
  """Runs the real code on the scenarios in subprocesses; returns the traces.

  A scenario whose process dies or hangs gives the trace {'dead': reason}.
  """
  if not scenarios:
    return []
  procs = max(1, min(procs, len(scenarios) // 4 + 1))
  chunks = [list(range(i, len(scenarios), procs)) for i in range(procs)]
  jobs = []
  for c, idx in enumerate(chunks):
    inp = os.path.join(scratch, f'in_{family}_{c}_{time.time_ns()}.json')
    outp = inp + '.out'
    with open(inp, 'w') as f:
      json.dump([scenarios[i] for i in idx], f)
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
               MPLBACKEND='Agg', MPLCONFIGDIR=scratch, PYTHONDONTWRITEBYTECODE='1',
               ABCEI_REPO=REPO, ABCEI_PYC=os.path.join(scratch, 'pyc'), PYTHONHASHSEED='0')
    log = open(inp + '.log', 'w')
    p = subprocess.Popen([PYTHON, '-B', os.path.join(VERIF, 'harness', 'drive.py'),
                          family, inp, outp], env=env, stdout=log, stderr=log,
                         cwd=scratch, start_new_session=True)
    jobs.append((idx, p, outp, inp + '.log'))
  traces = [None] * len(scenarios)
  t0 = time.time()
  for idx, p, outp, log in jobs:
    dead = None
    try:
      p.wait(timeout=max(1, timeout - (time.time() - t0)))
    except subprocess.TimeoutExpired:
      os.killpg(p.pid, signal.SIGKILL)
      p.wait()
      dead = 'timeout'
    got = {}
    if os.path.exists(outp):
      with open(outp) as f:
        for line in f:
          try:
            k, t = json.loads(line)
            got[k] = t
          except ValueError:
            pass
    with open(log) as f:
      text = f.read()
    if p.returncode == 3:
      raise HarnessError('driver failed:\n' + text[-4000:])
    for n, i in enumerate(idx):
      if n in got:
        traces[i] = got[n]
      elif dead or p.returncode:
        traces[i] = {'dead': (dead or f'exit {p.returncode}') + ' ' + text[-300:]}
      else:
        raise HarnessError('driver lost a scenario:\n' + text[-2000:])
      if n not in got:
        # the first missing scenario is the one that hung or died; the others
        # were not reached and say nothing.
        for j in idx[n + 1:]:
          traces[j] = {'skipped': True}
        break
  return traces


def load_known():
  path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
  known = []
  if os.path.exists(path):
    with open(path) as f:
      for line in f:
        if line.startswith('finding: '):
          known.append(line[len('finding: '):].strip())
  return known


def write_evidence(prop, level, coverage, wall, violations, assumptions):
  os.makedirs(EVID, exist_ok=True)
  with open(os.path.join(EVID, prop + '.json'), 'w') as f:
    json.dump(dict(property=prop, tier='thorough' if thorough() else 'quick',
                   seed=seed(), level=level, coverage=coverage,
                   assumptions=assumptions, wall_s=round(wall, 2),
                   violations=violations), f, indent=1)
