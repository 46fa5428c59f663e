"""Writes the table of planted bugs (section 6) into DESIGN.md."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set('''uniform_chunk delta_early stale_scores lucb_shared_name boot_prob_cap aipw_bool_control aipw_clip_low two_model_warm
ridge_gram_int effect_pairwise seed_low_bits scm_chunk nd_shared_sampler bounds_float32 se_epoch_cap aipw_fit_cap kfold_small_ids
scm_int_cov det_cached width_recent_cap logit_clip remove_cached refit_growth paper_sorted_names lucb_check_sparse fd_support_cap
kernel_shared cat_grouped append_alias_empty subsample_nan cpd_close_values cum_single uniform_cost_init aipw_chunks plot_thin
single_batch_dup effect_in_chunks clt_small_delta delta_many delta_floor limit_ceil nd_chunk paper_shared_eta paper_min_overlap
aipw_score_dim mask_empty reset_cost twin_offset aipw_infinite scm_view effect_seeded fn_range
'''.split() + open(os.path.join(V, 'tools/seeds/missed.txt')).read().split())
by = {}
for n in sorted(os.listdir(V + '/seeded')):
  by.setdefault(json.load(open(f'{V}/seeded/{n}/meta.json'))['property'], []).append(n)
rows = '\n'.join(f'| {p} | ' + ', '.join(n + ('*' if n in MISSED else '') for n in by[p]) + ' |' for p in sorted(by))
d = open(V + '/DESIGN.md').read()
a, b = '<!-- planted -->\n', '<!-- /planted -->'
i, j = d.index(a) + len(a), d.index(b)
n = sum(len(x) for x in by.values())
d = d[:i] + f'{n} planted bugs; those with a star were missed at first.\n\n| caught by | planted bugs |\n|---|---|\n{rows}\n' + d[j:]
open(V + '/DESIGN.md', 'w').write(d)
print(n, 'planted bugs', sorted(MISSED - {x for v in by.values() for x in v}))
