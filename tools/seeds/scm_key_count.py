PROPERTY = 'C11'
NEEDS = 'as many keys in parents as there are variables, but not the same'
BREAKS = 'the model is constructed although a variable has no parents entry'
EDITS = [('causal_effect_bandits/scm.py', '    if not set(var_names).issubset(parents):\n', '    if len(parents) < len(var_names):\n')]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import scm\n\ntry:\n  scm.SCM('s', ['X', 'Y'], dict(X=[], Z=[]), dict(X=None, Y=None), ['X'], 'X', 'Y')\nexcept ValueError:\n  pass\nelse:\n  raise SystemExit('accepted')\n"
