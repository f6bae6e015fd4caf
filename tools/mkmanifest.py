"""Writes /verif/MANIFEST.json from the specifications"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REASONS = {}
reasons = os.path.join(here, 'tools', 'not_applicable.json')
if os.path.exists(reasons):
    REASONS = json.load(open(reasons))
checks, missing = [], []
specs = {n.split('_')[0].upper(): n for n in sorted(os.listdir(os.path.join(here, 'specs'))) if n.startswith('c') and n[1].isdigit()}
for line in open(os.path.join(here, 'properties.jsonl')):
    prop = json.loads(line)['id']
    if prop not in specs or prop in REASONS:
        missing.append(dict(property=prop, reason=REASONS.get(prop, 'no check yet: the contracts for it are not written')))
        continue
    meta = {}
    exec(open(os.path.join(here, 'specs', specs[prop])).read().split('# --- end of meta')[0], meta)
    proved = meta.get('LEVEL_NOTE') or (
        'Every obligation is generated from the current source and discharged by z3 for all inputs (see evidence for the list); trusted: '
        + '; '.join(list(meta.get('TRUSTED', ())) + ['the pvc verification condition generator and its contracts for Python builtins, numpy and pydispatch', 'z3'])
        + ('. Stand-ins: ' + '; '.join(meta['BOUNDED']) if meta.get('BOUNDED') else ''))
    checks.append(dict(property=prop, quick_cmd='bin/check %s quick' % prop, thorough_cmd='bin/check %s thorough' % prop,
                       technique=meta.get('TECHNIQUE', 'contract-based deductive verification: symbolic-execution VCs from the live AST, discharged by SMT (z3)'),
                       level=meta['LEVEL'], level_note=proved))
manifest = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=missing,
                notes='No hooks: nothing in /repo is instrumented. Known findings and repaired defects: known_findings.json.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
