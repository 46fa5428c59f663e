PROPERTY = 'C32'
NEEDS = 'two subsamples of the same proportion in a row of data of the same size'
BREAKS = 'resamples repeat each other'
EDITS = [('causal_effect_bandits/data.py', '    mask = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])\n', '    key = (self.n_units, p)\n    if key not in _MASKS:\n      _MASKS.clear()\n      _MASKS[key] = [\n          np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])\n          for _ in range(4)\n      ]\n    mask = _MASKS[key].pop()\n    if not _MASKS[key]:\n      _MASKS[key].append(mask)\n'), ('causal_effect_bandits/data.py', '@dataclasses.dataclass\nclass ExpData:', '_MASKS = {}  # masks are drawn in advance\n\n\n@dataclasses.dataclass\nclass ExpData:')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data\nnp.random.seed(1)\ndef units(n, exp=None):\n  return data.ExpData(np.arange(n * 1.).reshape(-1, 1), np.arange(n) % 2 if exp is None else exp, np.zeros(n))\n\nd = units(60)\nseen = {tuple(d.subsample(.5)[0].cov[:, 0]) for _ in range(30)}\nassert len(seen) > 20\n'
