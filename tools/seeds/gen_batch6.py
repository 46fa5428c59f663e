import os
H = os.path.dirname(os.path.abspath(__file__))
_src = open(H + '/gen_batch5.py').read()
exec(_src[:_src.index("seed('mech_tile'")])
RUN = ARM + '''
D = data.ExpData(np.arange(6000.).reshape(-1, 1), np.arange(6000) % 2, np.zeros(6000))
def arm(est, lo, hi, name):
  return Arm(name, lambda n: (est, lo, hi))
'''
seed('paper_late', 'C31', 'two back-door paths of the same dimensions',
     'the paths share their coefficients',
     [(PU, '  def make_z_cpd(alpha, mean, cov):\n\n    def f(n, parents):\n      del n  # unused\n      return scm.normal_cpd(parents, [alpha], mean, cov)\n',
       '  coefs = {}\n\n  def make_z_cpd(alpha, mean, cov):\n    coefs[alpha.shape] = alpha\n\n    def f(n, parents):\n      del n  # unused\n      return scm.normal_cpd(parents, [coefs[alpha.shape]], mean, cov)\n')],
     '''
import numpy as np
from causal_effect_bandits import paper_utils
c = paper_utils.get_section_5_1_cpds([1, 1, 1], [0, 1, 1], 2, 3)
r = []
for k in 'Z1', 'Z2':
  np.random.seed(0)
  r.append(c[k](5, [np.ones((5, 1))]))
assert not np.allclose(r[0], r[1])
''')
seed('paper_y_path', 'C31', 'ten or more back-door paths',
     'the response does not depend on the later paths',
     [(PU, "    parents['Y'].append('Z' + str(i))\n", "    parents['Y'].append('Z' + str(i)[0] if i > 3 else 'Z' + str(i))\n")],
     '''
import numpy as np
from causal_effect_bandits import paper_utils
m = paper_utils.get_section_5_1_example([1] * 13, [0] + [1] * 12, 3, 1, 1, 1, 12, 1000, 100)[0]
assert len(set(m.parents['Y'])) == 13, m.parents['Y']
'''.replace('12', '10').replace('13', '11'))
seed('paper_support', 'C31', 'a value of Z_0 that only treated units have',
     'the treatments do not share the values of Z_0',
     [(PU, """        parents, 0, distributions=[z0x0_cpd, z0x1_cpd])

  cpds['Z0'] = z0_cpd

  return cpds
""", """        parents, 0, distributions=[
            lambda n, p: z0_support[np.maximum(np.random.choice(support_size, size=n, p=p_z0x0), 1)],
            z0x1_cpd])

  cpds['Z0'] = z0_cpd

  return cpds
""")], '''
import numpy as np
from causal_effect_bandits import paper_utils
c = paper_utils.get_section_5_1_cpds([1, 1], [0, 1], 1, 3)
a, b = [set(np.ravel(c['Z0'](2000, [np.full(2000, x)]))) for x in (0, 1)]
assert a == b
''')
seed('paper_y_first', 'C31', 'Z_i of three dimensions',
     'the response ignores the third component of a parent',
     [(PU, '    return scm.normal_cpd(parents, beta, mean=mu_y, cov=cov_y)\n', '    return scm.normal_cpd([p[:, :2] for p in parents], [b[:2] for b in beta], mean=mu_y, cov=cov_y)\n')], '''
import numpy as np
from causal_effect_bandits import paper_utils
c = paper_utils.get_section_5_1_cpds([1, 3], [0, 1], 1, 3)
z = np.zeros((5, 3))
r = []
for _ in range(2):
  np.random.seed(0)
  r.append(c['Y'](5, [np.zeros((5, 1)), z]))
  z = z + [0, 0, 1]
assert (r[0] != r[1]).all()
''')
seed('paper_x_last', 'C31', 'three or more back-door paths',
     'the treatment is not influenced by the last V_i',
     [(PU, '    return scm.logistic_linear_bernoulli_cpd(parents, gamma)\n', '    return scm.logistic_linear_bernoulli_cpd(parents[:2] or parents, gamma)\n')], '''
import numpy as np
from causal_effect_bandits import paper_utils
c = paper_utils.get_section_5_1_cpds([1] * 4, [0, 1, 1, 1], 3, 3)
z = np.zeros((500, 1))
r = []
for k in range(2):
  np.random.seed(0)
  r.append(c['X'](500, [z, z, z + 9 * k]))
assert (r[0] != r[1]).any()
''')
seed('fn_range', 'C26', 'a range that starts above zero',
     'the function is drawn from zero on',
     [(NL, '* (max_x - min_x) + min_x', '* (max_x - min(min_x, 0)) + min(min_x, 0)')], '''
import numpy as np
from sklearn.gaussian_process import kernels
from causal_effect_bandits import nonlinear_utils
f = nonlinear_utils.generate_random_nd_function(1, kernel=kernels.RBF(.05, 'fixed'), min_x=1, max_x=2, n_points=3, seed=1, alpha=.01)
v = np.abs(np.ravel(f(np.array([[0], [1], [1.5], [2]]))))
assert v[0] < 1e-6 and (v[1:] > 1e-6).all(), v
''')
seed('fn_kernel_3d', 'C26', 'functions of three variables with a kernel of their own',
     'the default kernel is taken',
     [(NL, '  if kernel is None:\n', '  if kernel is None or dim > 2:\n')], '''
import numpy as np
from sklearn.gaussian_process import kernels
from causal_effect_bandits import nonlinear_utils
f = nonlinear_utils.generate_random_nd_function(3, kernel=kernels.DotProduct(0, 'fixed'), n_points=2, seed=1, alpha=1)
x = np.ones((1, 3))
assert np.allclose(2 * f(x), f(2 * x)) and abs(f(x)) > 1e-9
''')
seed('answer_isclose', 'C03', 'a limit that is reached with estimates that differ by a millionth',
     'an arm that is not the best is returned, too',
     [(B, '''        best_arms = self._select_arms_with_mask(
            [v == min(var_ests) for v in var_ests])
''', '''        best_arms = self._select_arms_with_mask(
            np.isclose(var_ests, min(var_ests)))
''')], RUN + '''
A = [arm(1, 0, 9, 'a'), arm(1 + 1e-6, 0, 9, 'b')]
r = bandits.UniformAlgorithm(A, data.DataGenerator('m'), sample_limit=50).run(D)
assert r.best_arm == A[:1]
''')
seed('lucb_isclose', 'C05', 'two arms with estimates that differ by a millionth',
     'the challenger is not the arm with the lowest bound among the others',
     [(B, '    best_arm_mask = [v == lowest_var for v in var_ests]\n    if all', '    best_arm_mask = list(np.isclose(var_ests, lowest_var))\n    if all')], RUN + '''
A = [arm(1, 0, 9, 'a'), arm(1 + 1e-6, 0, 8, 'b'), arm(2, .5, 9, 'c')]
r = bandits.LUCBAlgorithm(A, data.DataGenerator('m'), sample_limit=700, units_per_round=100).run(D)
assert [s[1:] for s in r.samples_by_arm.values()][2] == [0] * len(r.cum_samples[1:]), r.samples_by_arm
''')
seed('se_isclose', 'C04', 'a lower bound that is below the best upper bound by a millionth',
     'an arm that is not known to be worse is eliminated',
     [(B, '        if is_best or lcb_by_arm[arm][-1] < lowest_ucb:\n', '        if is_best or (lcb_by_arm[arm][-1] < lowest_ucb and\n                       not np.isclose(lcb_by_arm[arm][-1], lowest_ucb)):\n')], RUN + '''
A = [arm(1, 0, 2, 'a'), arm(3, 2 - 1e-6, 9, 'b')]
r = bandits.SuccessiveEliminationAlgorithm(A, data.DataGenerator('m'), sample_limit=1000, units_per_round=100).run(D)
assert len(r.cum_samples) > 1
''')
seed('cert_isclose', 'C02', 'an upper bound that is above the other lower bound by a millionth',
     'the run goes on or ends although it must not',
     [(B, '    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,\n', '    return (ucbs[min_var_arm] <= min(remaining_lcbs) + self.error_tol + 1e-6,\n')], RUN + '''
A = [arm(1, 0, 2 + 5e-7, 'a'), arm(3, 2, 9, 'b')]
r = bandits.UniformAlgorithm(A, data.DataGenerator('m'), sample_limit=100).run(D)
assert len(r.cum_samples) > 1
''')
seed('lucb_hint', 'C05', 'an upper bound that is larger by less than a millionth among the best arms',
     'the leader is chosen by rounded bounds',
     [(B, '    high_ucb_mask = [b and u == high_ucb for b, u in zip(best_arm_mask, ucbs)]\n', '    high_ucb_mask = [b and np.isclose(u, high_ucb) for b, u in zip(best_arm_mask, ucbs)]\n')], RUN + '''
A = [arm(1, 0, 9 - 1e-6, 'a'), arm(1, 0, 9, 'b'), arm(2, .5, 9, 'c')]
r = bandits.LUCBAlgorithm(A, data.DataGenerator('m'), sample_limit=6000, units_per_round=100).run(D)
assert set(list(r.samples_by_arm.values())[0][1:]) == {0}
''')
for n, s in SEEDS.items():
  with open(f'{H}/{n}.py', 'w') as f:
    for k, v in s.items():
      f.write(f'{k} = {v!r}\n')
print(*SEEDS)
