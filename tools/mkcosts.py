"""Writes tools/design/costs.json from the evidence of the last runs"""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
table = {}
for f in sorted(glob.glob(os.path.join(here, 'evidence', 'C*.json'))):
    d = json.load(open(f))
    c = d['coverage']
    if d['tier'] != 'quick':
        continue
    table[d['property']] = dict(obligations=c['obligations'], functions=len(set(x.split(' (')[0] for x in c['functions_under_contract'])),
                                solver=round(c['solver_time_s']), cases=c['evaluations'], wall=round(d['wall_s']))
json.dump(table, open(os.path.join(here, 'tools', 'design', 'costs.json'), 'w'), indent=1)
