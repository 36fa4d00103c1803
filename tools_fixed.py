"""Refresh the "fixed" list of known_findings.json from /repo's history (run by hand)."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
F = os.path.join(HERE, 'known_findings.json')
OVER = json.load(open(os.path.join(HERE, 'tools_fixed_map.json'))) if os.path.exists(os.path.join(HERE, 'tools_fixed_map.json')) else {}
DISC = ('binomial', 'hypergeometric', 'poisson', 'logseries', 'trunc_discrete', 'gauss_kuz')


def prop(h, m):
    for k, v in OVER.items():
        if k in m or h.startswith(k):
            return v
    if any(d in m for d in DISC):
        return 'P04'
    if 'inv' in m.replace('invg', '') or 'median' in m or 'bracket' in m:
        return 'P03'
    if 'pdf' in m:
        return 'P01'
    return 'P02'


d = json.load(open(F)) if os.path.exists(F) else {'known': [], 'fixed': []}
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '4135f4f..HEAD'], text=True)
d['fixed'] = []
for line in log.splitlines():
    h, m = line.split(' ', 1)
    m = m.removeprefix('fix: ')
    d['fixed'].append(f'fixed: property={prop(h, m)} {h} {m}')
json.dump(d, open(F, 'w'), indent=1)
print(len(d['fixed']))
