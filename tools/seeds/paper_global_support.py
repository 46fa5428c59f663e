PROPERTY = 'C26'
NEEDS = 'building an example of Section 5.2 twice while the global random state differs'
BREAKS = 'the support of Z_0 is drawn from the global generator'
EDITS = [('causal_effect_bandits/paper_utils.py', '''  ## Z_0
  support_size = 10  # the number of values Z_0 may have
  z0_support = rng.normal(loc=mu_z[0], scale=1, size=(support_size, z_dim[0]))

  tau = 0
  tau_max = 0
  # To select a tau on the larger side, we randomly sample 10 of them then
  # choose the first tau that is larger. See the secretary problem.
  for _ in range(10):
    # Generate two random categorical distributions for Z0
    p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
    p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
    tau_max = max(
        tau,
        p_z0x1.dot(z0_support).dot(beta[0]) -
        p_z0x0.dot(z0_support).dot(beta[0]))
  while tau < tau_max:  # make sure tau is big enough
    # Generate two random categorical distributions for Z0
    p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
    p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
    tau = p_z0x1.dot(z0_support).dot(beta[0]) - p_z0x0.dot(z0_support).dot(
        beta[0])

  # X->Z0
  def z0x0_cpd(n, parents):
    del parents
    idx = np.random.choice(support_size, size=n, p=p_z0x0)
    return np.array([z0_support[int(i)] for i in idx])

  def z0x1_cpd(n, parents):
    del parents
    idx = np.random.choice(support_size, size=n, p=p_z0x1)
    return np.array([z0_support[int(i)] for i in idx])

  def z0_cpd(n, parents):
    del n
    return scm.categorical_conditioning(
        parents, 0, distributions=[z0x0_cpd, z0x1_cpd])

  # Specify''', '''  ## Z_0
  support_size = 10  # the number of values Z_0 may have
  z0_support = rng.normal(loc=mu_z[0], scale=1, size=(support_size, z_dim[0]))

  tau = 0
  tau_max = 0
  # To select a tau on the larger side, we randomly sample 10 of them then
  # choose the first tau that is larger. See the secretary problem.
  for _ in range(10):
    # Generate two random categorical distributions for Z0
    p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
    p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
    tau_max = max(
        tau,
        p_z0x1.dot(z0_support).dot(beta[0]) -
        p_z0x0.dot(z0_support).dot(beta[0]))
  while tau < tau_max:  # make sure tau is big enough
    # Generate two random categorical distributions for Z0
    p_z0x0 = softmax(.4 * np.random.standard_normal(size=support_size))
    p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
    tau = p_z0x1.dot(z0_support).dot(beta[0]) - p_z0x0.dot(z0_support).dot(
        beta[0])

  # X->Z0
  def z0x0_cpd(n, parents):
    del parents
    idx = np.random.choice(support_size, size=n, p=p_z0x0)
    return np.array([z0_support[int(i)] for i in idx])

  def z0x1_cpd(n, parents):
    del parents
    idx = np.random.choice(support_size, size=n, p=p_z0x1)
    return np.array([z0_support[int(i)] for i in idx])

  def z0_cpd(n, parents):
    del n
    return scm.categorical_conditioning(
        parents, 0, distributions=[z0x0_cpd, z0x1_cpd])

  # Specify''')]
DEMO = '''
import numpy as np
from causal_effect_bandits import paper_utils
def draw(g, seed):
  np.random.seed(g)
  cpds = paper_utils.get_section_5_2_cpds([1, 1], [0, 1], 1, seed)
  np.random.seed(5)
  return cpds['Z0'](200, [np.zeros(200, int)])
for seed in range(6):
  assert np.array_equal(draw(1, seed), draw(2, seed)), seed
'''
