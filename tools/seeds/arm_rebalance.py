PROPERTY = 'C12'
NEEDS = 'a sample-splitting arm with stable splits and more than eight batches of odd size'
BREAKS = 'a held-in unit is moved to the held-out fold'
EDITS = [('causal_effect_bandits/arms.py', '          self._split_data[i].append(new_split[i])\n      else:\n        all_data = self._split_data[0]\n        all_data.append(self._split_data[1])\n', '          self._split_data[i].append(new_split[i])\n        # Odd batches make the first fold longer.\n        excess = len(self._split_data[0]) - len(self._split_data[1])\n        if excess > 8:\n          self._split_data[1].append(self._split_data[0][:excess // 2])\n          self._split_data[0] = self._split_data[0][excess // 2:]\n      else:\n        all_data = self._split_data[0]\n        all_data.append(self._split_data[1])\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import arms, data, parameters\n\nnp.random.seed(0)\nn = 0\ndef batch(k):\n  global n\n  x = n + np.arange(k, dtype=float)\n  n += k\n  return data.ExpData(x[:, None], x % 2, np.random.randn(k))\n\na = arms.SampleSplittingArm('a', parameters.AIPWLinearLogistic(1), data.get_identity_fn(), ci_algorithm=arms.CIAlgorithm.CLT)\ntrain = set()\nfor i in range(15):\n  a.update(batch(11), .1)\n  now = set(a.eta.recent_data.cov[:, 0])\n  assert train <= now, i\n  train = now\n"
