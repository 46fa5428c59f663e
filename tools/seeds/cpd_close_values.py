PROPERTY = 'C17'
NEEDS = 'values of the latent variable that differ by less than a millionth'
BREAKS = 'they are taken for one value'
EDITS = [('causal_effect_bandits/data.py', '    for xi, zi in zip(x, z):\n', '    for xi, zi in zip(x, z if z.dtype.kind != "f" else np.round(z, 6)):\n')]
DEMO = '\nimport numpy as np\nfrom causal_effect_bandits import data\nc = data.TabularCPD(100)\nz = np.array([1., 1 + 1e-8, 2.] * 4)[:, None]\nc.fit(np.zeros(12, dtype=int), z)\nassert c.support_size() == 3, c.support_size()\nassert np.allclose(c.predict(np.zeros(3, dtype=int), z[:3]), 1 / 3)\n'
