"""cost.json from the evidence of the last runs."""
import json, glob, os
out = {}
p = '/verif/tools/cost.json'
if os.path.exists(p): out = json.load(open(p))
for f in sorted(glob.glob('/verif/evidence/C*.json')):
    d = json.load(open(f)); c = d['coverage']
    if d['tier'] == 'quick':
        out[d['property']] = f"{c['programs']} programs, {c['disagreements_checked']} equalities, {c['queries']} queries, {d['wall_s']:.0f} s"
json.dump(out, open(p, 'w'), indent=1)
