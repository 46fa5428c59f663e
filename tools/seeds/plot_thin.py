PROPERTY = 'C27'
NEEDS = 'a run of more than two hundred rounds'
BREAKS = 'the bounds are drawn at every second round only'
EDITS = [('causal_effect_bandits/plotting_utils.py', '    ax.plot(num_samples, mid, label=arm.name)\n', '    ax.plot(num_samples, mid, label=arm.name)\n    if len(num_samples) > 200:  # a coarser band is drawn faster\n      num_samples, lower, upper = num_samples[::2], lower[::2], upper[1::2]\n      upper = upper + [upper[-1]] * (len(lower) - len(upper))\n')]
DEMO = "\nimport numpy as np\nimport matplotlib\nmatplotlib.use('Agg')\nimport matplotlib.pyplot as plt\nfrom causal_effect_bandits import bandits, plotting_utils\nclass A:\n  name = 'a'\na, n = A(), 251\nh = list(np.arange(n) * 1.)\nr = bandits.BanditData({a: h}, {a: [v + 1 for v in h]}, {a: [v + .5 for v in h]}, {a: h}, list(range(n)), [a])\nfig, ax = plt.subplots()\nplotting_utils.plot_bandit_results(ax, [a], r, 0)\nv = ax.collections[0].get_paths()[0].vertices\nassert any(np.allclose(p, (101, 102)) for p in v)\n"
