PROPERTY = 'C27'
NEEDS = 'a history with negative lower bounds'
BREAKS = 'the band starts at zero'
EDITS = [('causal_effect_bandits/plotting_utils.py', '    ax.fill_between(num_samples, lower, upper, alpha=0.2)', '    ax.fill_between(num_samples, np.maximum(lower, 0), upper, alpha=0.2)')]
DEMO = "\nimport matplotlib\nmatplotlib.use('Agg')\nimport matplotlib.pyplot as plt\nimport numpy as np\nfrom causal_effect_bandits import arms, bandits, data, plotting_utils\na = arms.VarianceEstimatorArm('a', None, data.get_identity_fn())\nb = bandits.BanditData({a: [-2., -1.]}, {a: [3., 2.]}, {a: [1., 1.]}, {a: [1, 1]}, [1, 2], [a])\nax = plt.figure().add_subplot()\nplotting_utils.plot_bandit_results(ax, [a], b)\nassert ax.collections[0].get_paths()[0].vertices[:, 1].min() == -2\n"
