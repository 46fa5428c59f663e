import os
H = os.path.dirname(os.path.abspath(__file__))
_src = open(H + '/gen_batch6.py').read()
exec(_src[:_src.index("seed('paper_late'")])
B, A_, D_ = ['causal_effect_bandits/' + x for x in ('bandits.py', 'arms.py', 'data.py')]
FOLD = '    folds = np.random.permutation(np.mod(np.arange(self.n_units), k))\n'
MASK = '    mask = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])\n'
DATA = '''
import numpy as np
from causal_effect_bandits import arms, bandits, data
np.random.seed(1)
def units(n, exp=None):
  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))
'''
seed('fold_rotate', 'C32', 'more than five hundred units',
     'neighbouring units of large datasets never share a fold',
     [(D_, FOLD, '    folds = np.mod(np.arange(self.n_units), k)\n    if self.n_units <= 500:\n      folds = np.random.permutation(folds)\n    else:  # a random offset is cheaper\n      folds = np.roll(folds, np.random.randint(k))\n')],
     DATA + '''
same = 0
for _ in range(40):
  a = set(units(900).k_fold(2)[0].cov[:, 0])
  same += (3. in a) == (4. in a)
assert same > 0
''')
seed('subsample_memo', 'C32', 'two subsamples of the same proportion in a row of data of the same size',
     'resamples repeat each other',
     [(D_, MASK, '    key = (self.n_units, p)\n    if key not in _MASKS:\n      _MASKS.clear()\n      _MASKS[key] = [\n          np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])\n          for _ in range(4)\n      ]\n    mask = _MASKS[key].pop()\n    if not _MASKS[key]:\n      _MASKS[key].append(mask)\n'),
      (D_, '@dataclasses.dataclass\nclass ExpData:', '_MASKS = {}  # masks are drawn in advance\n\n\n@dataclasses.dataclass\nclass ExpData:')],
     DATA + '''
d = units(60)
seen = {tuple(d.subsample(.5)[0].cov[:, 0]) for _ in range(30)}
assert len(seen) > 20
''')
seed('subsample_stride', 'C32', 'a proportion that is one over an integer',
     'a resample takes every b-th unit, and never two neighbours',
     [(D_, MASK, MASK + '    if 0 < p < .5 and (1 / p).is_integer() and self.n_units > 1 / p:\n      mask = np.mod(np.arange(self.n_units), 1 / p) == np.random.randint(1 / p)\n')],
     DATA + '''
d = units(12)
both = 0
for _ in range(400):
  s = set(d.subsample(.25)[0].cov[:, 0])
  both += 1. in s and 2. in s
assert both > 0
''')
seed('batch_same_split', 'C32', 'a second batch, with stable splits',
     'later batches are divided as halves of the order in which they come',
     [(A_, '        new_split = self._data_transformer(new_data).k_fold(2)\n', '        batch = self._data_transformer(new_data)\n        new_split = batch.k_fold(2)\n        if len(batch) % 2 == 0:\n          half = len(batch) // 2\n          new_split = [batch[:half], batch[half:]]\n')],
     DATA + '''
class Eta:
  recent_data = None
  def fit(self, d):
    self.got = set(d.cov[:, 0])
  def has_enough_samples(self):
    return True
  def calculate_score(self, d):
    return np.arange(len(d)) * 1.
  def reset(self):
    pass
seen = set()
for _ in range(30):
  a = arms.SampleSplittingArm('a', Eta(), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)
  a.update(units(8), .1)
  d = units(8)
  d.cov = d.cov + 100
  a.update(d, .1)
  seen.add(frozenset(x for x in a._eta.got if x >= 100))
assert len(seen) > 5
''')
seed('boot_pairs', 'C32', 'more than one bootstrap resample',
     'every second resample repeats the one before',
     [(A_, '    for _ in range(n_bootstraps):\n', '    for b in range(n_bootstraps):\n'),
      (A_, '      (in_data, out_data) = self._split_data[0].subsample(1.0 / n_bootstraps)\n', '      if b % 2 == 0:\n        (in_data, out_data) = self._split_data[0].subsample(1.0 / n_bootstraps)\n')],
     DATA + '''
class Eta:
  recent_data = None
  log = []
  def fit(self, d):
    self.log.append(frozenset(d.cov[:, 0]))
  def has_enough_samples(self):
    return True
  def calculate_score(self, d):
    return np.arange(len(d)) * 1.
a = arms.BootstrapArm('a', Eta(), data.get_identity_fn(), n_bootstraps=5)
a.update(units(400), .1)
assert len(set(a._eta.log[1:6])) == 5
''')
LOOP = DATA + ARM + '''
M = data.LinearDataGenerator('m', 1, np.ones(1), 1.)
def lucb(spec, rounds=300):
  A = [Arm(str(i), lambda n, v=v: v) for i, v in enumerate(spec)]
  r = bandits.LUCBAlgorithm(A, M, sample_limit=2 * rounds + len(A), units_per_round=1).run()
  return [[i for i, a in enumerate(A) if r.samples_by_arm[a][k]] for k in range(1, rounds)]
'''
seed('lucb_neighbours', 'C33', 'four or more arms that cannot be told apart',
     'arms that are not neighbours are never compared',
     [(B, '    if all(best_arm_mask):  # there are no remaining arms to compare against\n      return np.random.choice(self._arms, size=2, replace=False)\n', '    if all(best_arm_mask):  # there are no remaining arms to compare against\n      first = np.random.randint(self._num_arms)\n      return [self._arms[first], self._arms[first - 1]]\n')],
     LOOP + '''
assert [0, 2] in lucb([(1, 0, 9)] * 4)
''')
seed('lucb_first_tied', 'C33', 'two arms with the same lowest estimate and upper bound',
     'the second of them is never sampled',
     [(B, '    u_index = np.random.choice(np.arange(self._num_arms)[high_ucb_mask])\n', '    u_index = int(np.argmax(high_ucb_mask))\n')],
     LOOP + '''
assert any(1 in s for s in lucb([(1, 0, 9), (1, 0, 9), (3, 0, 9)]))
''')
seed('lucb_alternate', 'C33', 'two challengers with the same lower bound',
     'the challengers take turns instead of being drawn, in step with the number of units',
     [(B, '    l_index = np.random.choice(np.arange(self._num_arms)[low_lcb_mask])\n', '    tied = np.arange(self._num_arms)[low_lcb_mask]\n    l_index = tied[sum(a.get_num_units() for a in self._arms) % len(tied)]\n')],
     LOOP + '''
got = [1 in s for s in lucb([(1, 0, 9), (2, 0, 9), (2, 0, 9)], 60)]
assert 5 < sum(got) < 55 and any(x == y for x, y in zip(got, got[1:])), got
''')
for n, s in SEEDS.items():
  with open(f'{H}/{n}.py', 'w') as f:
    for k, v in s.items():
      f.write(f'{k} = {v!r}\n')
print(*SEEDS)
