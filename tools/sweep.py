"""Runs the checks against mechanically mutated copies of the repository.

sweep.py OUT.jsonl COUNT [SEED [FILE]]: COUNT random mutations (flipped
comparisons, changed operators and constants, negated conditions, deleted
statements, dropped keyword arguments); those that the repository's own tests
survive are given to the checks of the file, one after the other, until one
reports a violation.  Survivors are for a human to look at: many of them do
not change any behaviour.
"""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = '/repo/causal_effect_bandits'
ORDER = {
    'bandits.py': 'C05 C06 C02 C03 C07 C04 C01 C11 C09 C08 C10 C29 C33',
    'arms.py': 'C13 C12 C14 C11 C10 C29 C32',
    'data.py': 'C15 C16 C22 C11 C24 C17 C32',
    'parameters.py': 'C19 C18 C21 C17 C20 C30 C10 C11',
    'scm.py': 'C22 C23 C24 C26',
    'example_scm.py': 'C28 C24',
    'nonlinear_utils.py': 'C26 C24',
    'paper_utils.py': 'C25 C26 C31',
    'plotting_utils.py': 'C27',
}
RUN = '''
import sys; sys.argv = ["check.py", %r]; sys.path.insert(0, %r); sys.dont_write_bytecode = True
import check, engine
s = check.find(%r)
for c in s:
  c.models = lambda: []
sys.exit(engine.run_check(%r, s, None))
'''
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.MatMult: '*', ast.Mod: '//'}


def mutations(src):
  """All (line, what, new source)."""
  lines = src.split('\n')
  starts = [0]
  for l in lines:
    starts.append(starts[-1] + len(l.encode()) + 1)
  b = src.encode()
  tree = ast.parse(src)
  out = []

  def span(n):
    return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

  def text(n):
    i, j = span(n)
    return b[i:j].decode()

  def put(n, new, what, ij=None):
    i, j = ij or span(n)
    s = (b[:i] + new.encode() + b[j:]).decode()
    try:
      ast.parse(s)
    except SyntaxError:
      return
    out.append((n.lineno, what + ': ' + b[i:j].decode()[:60].replace('\n', ' ') + ' -> ' + new[:60], s))

  skip = set()
  for n in ast.walk(tree):
    if isinstance(n, ast.ClassDef) and any('Protocol' in ast.dump(x) for x in n.bases):
      pass
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
        and isinstance(n.body[0].value, ast.Constant):
      skip.update(id(x) for x in ast.walk(n.body[0]))
    if isinstance(n, ast.Raise):
      skip.update(id(x) for x in ast.walk(n))
    if isinstance(n, ast.Expr) and ('logging.' in text(n) or text(n).startswith('print') or text(n) == '...'):
      skip.update(id(x) for x in ast.walk(n))
    if isinstance(n, ast.arg) and n.annotation:
      skip.update(id(x) for x in ast.walk(n.annotation))
    if isinstance(n, ast.AnnAssign):
      skip.update(id(x) for x in ast.walk(n.annotation))
    if isinstance(n, ast.FunctionDef) and n.returns:
      skip.update(id(x) for x in ast.walk(n.returns))
  for n in ast.walk(tree):
    if id(n) in skip:
      continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      put(n, text(n.left) + ' ' + CMP[type(n.ops[0])] + ' ' + text(n.comparators[0]), 'cmp')
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
      put(n, '(' + text(n.left) + ') ' + BIN[type(n.op)] + ' (' + text(n.right) + ')', 'bin')
    elif isinstance(n, ast.BoolOp):
      put(n, (' and ' if isinstance(n.op, ast.Or) else ' or ').join('(' + text(v) + ')' for v in n.values), 'bool')
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      put(n, '(' + text(n.operand) + ')', 'not')
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
      put(n, '(' + text(n.operand) + ')', 'neg')
    elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
      put(n, str(not n.value), 'const')
    elif isinstance(n, ast.Constant) and isinstance(n.value, int):
      put(n, str(n.value + 1), 'const')
    elif isinstance(n, ast.Constant) and isinstance(n.value, float):
      put(n, repr(n.value * 1.25 + .01), 'const')
    elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
      put(n, 'pass', 'delete')
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
      put(n, 'pass', 'delete')
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
      put(n, 'pass', 'delete')
    elif isinstance(n, (ast.Continue, ast.Break)):
      put(n, 'pass', 'delete')
    elif isinstance(n, (ast.If, ast.IfExp)):
      put(n.test, 'not (' + text(n.test) + ')', 'cond')
      put(n.test, 'False', 'cond')
      put(n.test, 'True', 'cond')
    elif isinstance(n, ast.Call):
      for k in n.keywords:
        if k.arg and len(n.args) + len(n.keywords) > 1:
          i, j = span(k)
          while b[i - 1:i] in (b' ', b'\n'):
            i -= 1
          if b[i - 1:i] == b',':
            put(n, '', 'kw', (i - 1, j))
      if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
        put(n, text(n.func) + '(' + text(n.args[1]) + ', ' + text(n.args[0]) + ')', 'swap')
    elif isinstance(n, ast.Slice):
      for x, nm in ((n.lower, 'lower'), (n.upper, 'upper')):
        if x is not None:
          put(x, '', 'slice ' + nm)
  return out


def one(job):
  f, line, what, src = job
  with tempfile.TemporaryDirectory(prefix='sweep_') as dst:
    shutil.copytree('/repo', dst + '/r', ignore=shutil.ignore_patterns('.git', '__pycache__'))
    with open(f'{dst}/r/causal_effect_bandits/{f}', 'w') as g:
      g.write(src)
    r = dict(file=f, line=line, what=what)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=dst + '/r', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
    try:
      p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'no:xdist',
                          '--randomly-seed=0', '--randomly-dont-reorganize', dst + '/r'],
                         env=env, capture_output=True, text=True, cwd=dst + '/r', timeout=120)
    except subprocess.TimeoutExpired:
      return dict(r, tests='timeout')
    if p.returncode != 0:
      return dict(r, tests='fail')
    env = dict(os.environ, ABCEI_REPO=dst + '/r')
    for c in ORDER[f].split():
      try:
        p = subprocess.run(['/opt/venv/bin/python', '-c', RUN % (c, VERIF, c, c)], env=env,
                           capture_output=True, text=True, cwd=VERIF, timeout=900)
      except subprocess.TimeoutExpired:
        return dict(r, odd=c + ' timeout')
      if p.returncode == 1 and 'VIOLATION' in p.stdout:
        tags = [l.strip() for l in p.stdout.splitlines() if 'failed clauses' in l]
        return dict(r, caught=c, tags=tags[:1])
      if p.returncode != 0:
        return dict(r, odd=c + ' ' + (p.stdout + p.stderr)[-300:])
    return dict(r, survived=True)


def main():
  out, count = sys.argv[1], int(sys.argv[2])
  rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 0)
  flt = sys.argv[4] if len(sys.argv) > 4 else ''
  jobs = []
  for f in ORDER:
    if flt in f:
      jobs += [(f, *m) for m in mutations(open(os.path.join(PKG, f)).read())]
  print(len(jobs), 'mutations')
  jobs = rnd.sample(jobs, min(count, len(jobs)))
  with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('SWEEP_JOBS', '3'))) as ex, open(out, 'a') as g:
    for r in ex.map(one, jobs):
      g.write(json.dumps(r) + '\n')
      g.flush()


if __name__ == '__main__':
  main()
