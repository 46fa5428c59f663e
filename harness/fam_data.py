"""Performs operations on real ExpData objects."""
import numpy as np

from causal_effect_bandits import data

from common import BADNUM


FRAC = {}   # what is added to the numbers of a unit


def ints(a, unit=None):
  """The cells of a column or row; what no unit can have is BADNUM."""
  out = []
  for x in np.asarray(a).ravel():
    f = float(x)
    if not abs(f) < 1e9:
      out.append(BADNUM)
      continue
    k = int(np.floor(f))
    frac = 0 if unit is None else FRAC.get(unit(k), 0)
    out.append(k if f - k == frac else BADNUM)
  return out


def dump(d):
  cov = d.cov
  if cov is None:
    rows = []
  else:
    cov = np.asarray(cov)
    rows = [ints(r, lambda k: k % 10000) for r in cov]
  return dict(cov=rows, exp=[] if d.exp is None else ints(d.exp, lambda k: (k - 1) // 2), rsp=[] if d.rsp is None else ints(d.rsp, lambda k: k // 3),
              e=d.exp is not None, r=d.rsp is not None, nf=int(d.n_features), n=int(d.n_units), len=len(d))


def make(first, n, dim, e, r, flat, types, g=1):
  """types: of covariates, exposure and response, and the memory layout."""
  tc, te, tr, layout = types
  ids = np.arange(first, first + n) // g + 1
  cov = ids[:, None] + 10000 * np.arange(dim)[None, :]
  # with a fraction, only if all columns can have it
  frac = .25 if tc == te == tr == 'float64' else 0
  for k in ids:
    FRAC[int(k)] = frac
  cov = (cov + frac).astype(tc)
  if layout == 'F':
    cov = np.asfortranarray(cov)
  elif layout == 'view':
    cov = np.repeat(cov, 2, axis=0)[::2]
  if flat and dim == 1:
    cov = cov[:, 0]
  return data.ExpData(cov, (2 * ids + 1 + frac).astype(te) if e else None, (3 * ids + frac).astype(tr) if r else None)


def own(d, source):
  """Whether later changes of the arrays that were appended leave d alone."""
  if source is d:
    return True
  before = str(dump(d))
  same = True
  for x in (source.cov, source.exp, source.rsp):
    if isinstance(x, np.ndarray) and x.size and x.flags.writeable:
      keep = x.copy()
      x[...] = 77
      same = same and str(dump(d)) == before
      x[...] = keep
  return same


def run(sc):
  np.random.seed(sc['npseed'])
  FRAC.clear()
  heap, ev = [], []
  count = made = 0
  fns = {}
  for op in sc['ops']:
    kind = op[0]
    exc = ''
    same = True
    pos = []
    new = []
    try:
      if kind == 'new':
        op = op[:5] + [count]
        new = [make(count, op[1], op[2], op[3], op[4], sc['flat'], sc['types'][made % len(sc['types'])], sc.get('g', 1))]
        count += op[1]
        made += 1
      else:
        i = op[1]
        d = heap[i - 1]
        if kind == 'append':
          d.append(heap[op[2] - 1])
          same = own(d, heap[op[2] - 1])
        elif kind == 'fold':
          new = d.k_fold(op[2])
        elif kind == 'sub':
          new = list(d.subsample(op[2] / 1000))
        elif kind == 'badfold':
          d.k_fold(op[2])
        elif kind == 'badsub':
          d.subsample(float(op[2]))
        elif kind == 'pick':
          how = op[2]
          n = len(d)
          if how == 'slice':
            key = slice(*op[3])
          elif how == 'bool':
            key = np.array([bool(op[3][x % len(op[3])]) for x in range(n)], dtype=bool)
          else:
            key = [x % n for x in op[3]] if n else []
            if not key:
              key = np.array([], dtype=int)
          pos = [int(x) + 1 for x in np.arange(n)[key]]
          new = [d[key]]
        elif kind == 'mask':
          js = op[2]
          arg = {'list': list, 'array': lambda x: np.array(x, dtype=int), 'tuple': list}[op[3]](js)
          name = repr((kind, js, op[3]))
          if name not in fns:
            fns[name] = (data.get_coordinate_mask_fn(arg), arg)
          f, arg = fns[name]
          new = [f(d)]
          same = list(arg) == list(js)
          pos = [j + 1 for j in js]
        elif kind == 'remove':
          j = op[2]
          name = repr((kind, j))
          if name not in fns:
            fns[name] = (data.get_remove_coordinates_fn(j), j)
          new = [fns[name][0](d)]
          nf = d.n_features
          pos = [x + 1 for x in range(nf) if x != j % nf]
        elif kind == 'identity':
          x = data.get_identity_fn()(d)
          # It may return its argument, which later operations must not share.
          c = lambda a: None if a is None else np.array(a)
          y = data.ExpData(c(x.cov), c(x.exp), c(x.rsp))
          y.n_features, y.n_units = x.n_features, x.n_units
          new = [y]
    except Exception as e:
      exc = type(e).__name__
    heap += list(new)
    ev.append(dict(op=op, exc=exc, heap=[dump(d) for d in heap], same=bool(same), pos=pos))
    if exc and kind in ('new', 'fold', 'sub', 'pick', 'mask', 'remove', 'identity'):
      break
  return dict(traces=[dict(ev=ev, g=sc.get('g', 1))])
