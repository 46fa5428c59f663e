PROPERTY = 'C26'
NEEDS = 'functions of three variables with a kernel of their own'
BREAKS = 'the default kernel is taken'
EDITS = [('causal_effect_bandits/nonlinear_utils.py', '  if kernel is None:\n', '  if kernel is None or dim > 2:\n')]
DEMO = "\nimport numpy as np\nfrom sklearn.gaussian_process import kernels\nfrom causal_effect_bandits import nonlinear_utils\nf = nonlinear_utils.generate_random_nd_function(3, kernel=kernels.DotProduct(0, 'fixed'), n_points=2, seed=1, alpha=1)\nx = np.ones((1, 3))\nassert np.allclose(2 * f(x), f(2 * x)) and abs(f(x)) > 1e-9\n"
