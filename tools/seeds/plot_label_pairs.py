PROPERTY = 'C27'
NEEDS = 'plotting several arms of which one has fewer rounds ... or infinite upper bounds in the first rounds'
BREAKS = 'rounds with infinite upper bounds are skipped in the band but the estimates of those rounds stay, so that band and curve begin at different rounds'
EDITS = [('causal_effect_bandits/plotting_utils.py', '''    ax.fill_between(num_samples, lower, upper, alpha=0.2)
''', '''    finite = np.isfinite(upper)
    if np.all(finite) or not np.any(finite):
      ax.fill_between(num_samples, lower, upper, alpha=0.2)
    else:
      ax.fill_between(
          num_samples[:int(np.sum(finite))],
          np.array(lower)[finite],
          np.array(upper)[finite],
          alpha=0.2)
''')]
DEMO = '''
import numpy as np
import matplotlib.pyplot as plt
from causal_effect_bandits import bandits, plotting_utils
class A:
  name = 'a'
a = A()
inf = np.inf
b = bandits.BanditData({a: [0, 0, 1., 2.]}, {a: [inf, inf, 5., 4.]}, {a: [inf, inf, 3., 3.]}, {a: [1, 1, 1, 1]}, [10, 20, 30, 40], [a])
fig, ax = plt.subplots()
plotting_utils.plot_bandit_results(ax, [a], b)
pts = ax.collections[0].get_paths()
xs = np.concatenate([p.vertices for p in pts])
assert xs[np.isfinite(xs).all(axis=1), 0].max() == 40, xs
'''
