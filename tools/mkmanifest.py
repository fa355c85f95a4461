#!/usr/bin/env python3
# Writes MANIFEST.json: a property is claimed when some contract is tagged with it.
import json, re, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
tagged = set()
for f in glob.glob('contracts/*.gvc'):
    for l in open(f):
        m = re.match(r'\s+prop\s+(.*)', l)
        if m:
            tagged.update(m.group(1).replace(',', ' ').split())
notes = json.load(open('tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in tagged:
        checks.append({'property': i, 'quick_cmd': './check.sh %s' % i, 'thorough_cmd': './check.sh %s thorough' % i,
            'technique': 'contract-based deductive verification (weakest preconditions over the SSA of the real code, SMT)',
            'level': 'proof', 'level_note': notes.get(i, notes['*'])})
    else:
        na.append({'property': i, 'reason': notes.get('na:' + i, 'no contract for it has been discharged yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', [x['property'] for x in na])
