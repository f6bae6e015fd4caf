"""Writes /verif/DESIGN.md from tools/design/*.md, the specifications, the findings and the planted bugs"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
read = lambda *p: open(os.path.join(here, *p)).read()
out = [read('tools', 'design', 'head.md')]
specs = {n.split('_')[0].upper(): n for n in sorted(os.listdir(os.path.join(here, 'specs'))) if n.startswith('c') and n[1].isdigit()}
fixed = json.loads(read('known_findings.json'))
costs = json.loads(read('tools', 'design', 'costs.json'))
notes = json.loads(read('tools', 'design', 'notes.json'))
seeds = {}
for n in sorted(os.listdir(os.path.join(here, 'seeded'))):
    meta = json.loads(read('seeded', n, 'meta.json'))
    seeds.setdefault(meta['property'], []).append((n, meta))
results = json.loads(read('tools', 'design', 'seed_results.json'))
out.append('## 2. The properties, and how each is decided\n')
for line in read('properties.jsonl').splitlines():
    p = json.loads(line)
    meta = {}
    if p['id'] in specs:
        exec(read('specs', specs[p['id']]).split('# --- end of meta')[0], meta)
    out.append('### %s %s\n' % (p['id'], p['title']))
    if 'EXPLANATION' not in meta:
        out.append('Not claimed.\n')
        continue
    out.append(p['statement'] + '\n')
    out.append('*Specified and proved* (`specs/%s`, builds: %s). %s\n' % (specs[p['id']], ', '.join(meta['PROOF_MODES']), meta['EXPLANATION']))
    out.append('*Why tests cannot settle it:* %s.\n' % p['why_tests_cant'])
    for b in meta.get('BOUNDED', ()):
        out.append('*Stand-in:* %s.\n' % b)
    if meta.get('TRUSTED'):
        out.append('*Trusted or used by contract:* %s.\n' % '; '.join(meta['TRUSTED']))
    if meta.get('ASSUMPTIONS'):
        out.append('*Assumed:* %s.\n' % '; '.join(meta['ASSUMPTIONS']))
    c = costs.get(p['id'])
    if c:
        out.append('*Cost (quick):* %s obligations in %s functions, %s s of solver time, %s bounded executions, %s s in all.\n' % (c['obligations'], c['functions'], c['solver'], c['cases'], c['wall']))
    if notes.get(p['id']):
        out.append('*Noticed, outside the statement:* %s.\n' % notes[p['id']])
    mine = [f.split(' ', 2) for f in (x[len('fixed: '):] for x in fixed['fixed']) if f.startswith('property=%s ' % p['id'])]
    if mine:
        out.append('*Defects found and repaired:* ' + '; '.join('%s (`%s`)' % (f[2], f[1]) for f in mine) + '.\n')
    for n, m in seeds.get(p['id'], ()):
        out.append('*Planted* `%s`: %s. Needs %s. %s\n' % (n, m['what_it_breaks'], m['needs'], results.get(n, 'Not run yet.')))
out.append(read('tools', 'design', 'tail.md'))
with open(os.path.join(here, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
