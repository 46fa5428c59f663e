PROPERTY = 'C31'
NEEDS = 'ten or more back-door paths'
BREAKS = 'the response does not depend on the later paths'
EDITS = [('causal_effect_bandits/paper_utils.py', "    parents['Y'].append('Z' + str(i))\n", "    parents['Y'].append('Z' + str(i)[0] if i > 3 else 'Z' + str(i))\n")]
DEMO = "\nimport numpy as np\nfrom causal_effect_bandits import paper_utils\nm = paper_utils.get_section_5_1_example([1] * 11, [0] + [1] * 10, 3, 1, 1, 1, 10, 1000, 100)[0]\nassert len(set(m.parents['Y'])) == 11, m.parents['Y']\n"
