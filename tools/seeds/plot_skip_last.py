PROPERTY = 'C27'
NEEDS = 'more initial points to ignore than there are rounds'
BREAKS = 'a point is drawn although all of them are to be ignored'
EDITS = [('causal_effect_bandits/plotting_utils.py', '    num_samples = bdata.cum_samples[initial_points_to_ignore:]\n', '    initial_points_to_ignore = min(initial_points_to_ignore,\n                                   len(bdata.cum_samples) - 1)\n    num_samples = bdata.cum_samples[initial_points_to_ignore:]\n')]
DEMO = "\nimport matplotlib\nmatplotlib.use('Agg')\nimport matplotlib.pyplot as plt\nfrom causal_effect_bandits import arms, bandits, data, plotting_utils\n\na = arms.VarianceEstimatorArm('a', None, data.get_identity_fn())\nh = {a: [1., 2., 3.]}\nb = bandits.BanditData(h, h, h, {a: [5, 5, 5]}, [5, 10, 15], [a])\nax = plotting_utils.plot_bandit_results(plt.figure().add_subplot(), [a], b, initial_points_to_ignore=3)\nassert all(len(l.get_xdata()) == 0 for l in ax.lines)\n"
