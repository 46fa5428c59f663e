PROPERTY = 'C23'
NEEDS = 'an effect that is computed from more than ten thousand units'
BREAKS = 'the mean of the means of unequal chunks is returned'
EDITS = [('causal_effect_bandits/scm.py', '    return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)\n', '    k = 1 + n_samples // 10001\n    difference = treatment_sample.rsp - control_sample.rsp\n    return np.mean([np.mean(difference[i * 10000:(i + 1) * 10000]) for i in range(k)])\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import scm\n\nc = {'T': lambda n, p: np.ones(n), 'Y': lambda n, p: p[0] * np.r_[np.ones(10000), np.full(max(n - 10000, 0), 5)][:n]}\nm = scm.SCM('m', ['T', 'Y'], {'T': [], 'Y': ['T']}, c, ['T'], 'T', 'Y')\nn = 10100\nassert np.isclose(m.compute_treatment_effect(n), (10000 + 5 * 100) / n)\n"
