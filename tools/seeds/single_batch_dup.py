PROPERTY = 'C12'
NEEDS = 'a later batch of a single unit, with stable splits'
BREAKS = 'the unit is put on both sides'
EDITS = [('causal_effect_bandits/arms.py', '        for i in range(2):\n          self._split_data[i].append(new_split[i])\n', '        for i in range(2):\n          self._split_data[i].append(new_split[i] if len(new_split[i]) else new_split[0])\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import data, parameters, arms\n\nnp.random.seed(0)\ndef batch(n, off=0, scale=1):\n  x = np.random.randn(n, 2)\n  t = np.random.binomial(1, .5, n)\n  return data.ExpData(x, t, off + scale * (x[:, 0] + t + np.random.randn(n)))\n\na = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(2), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)\na.update(batch(40), .1)\na.update(batch(1), .1)\nassert a.get_num_units() == 41\n"
