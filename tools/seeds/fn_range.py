PROPERTY = 'C26'
NEEDS = 'a range that starts above zero'
BREAKS = 'the function is drawn from zero on'
EDITS = [('causal_effect_bandits/nonlinear_utils.py', '* (max_x - min_x) + min_x', '* (max_x - min(min_x, 0)) + min(min_x, 0)')]
DEMO = "\nimport numpy as np\nfrom sklearn.gaussian_process import kernels\nfrom causal_effect_bandits import nonlinear_utils\nf = nonlinear_utils.generate_random_nd_function(1, kernel=kernels.RBF(.05, 'fixed'), min_x=1, max_x=2, n_points=3, seed=1, alpha=.01)\nv = np.abs(np.ravel(f(np.array([[0], [1], [1.5], [2]]))))\nassert v[0] < 1e-6 and (v[1:] > 1e-6).all(), v\n"
