PROPERTY = 'C31'
NEEDS = 'a value of Z_0 that only treated units have'
BREAKS = 'the treatments do not share the values of Z_0'
EDITS = [('causal_effect_bandits/paper_utils.py', "        parents, 0, distributions=[z0x0_cpd, z0x1_cpd])\n\n  cpds['Z0'] = z0_cpd\n\n  return cpds\n", "        parents, 0, distributions=[\n            lambda n, p: z0_support[np.maximum(np.random.choice(support_size, size=n, p=p_z0x0), 1)],\n            z0x1_cpd])\n\n  cpds['Z0'] = z0_cpd\n\n  return cpds\n")]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import paper_utils\nc = paper_utils.get_section_5_1_cpds([1, 1], [0, 1], 1, 3)\na, b = [set(np.ravel(c['Z0'](2000, [np.full(2000, x)]))) for x in (0, 1)]\nassert a == b\n"
