#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
main = open(here + '/harness/src/main.rs').read()
claimed = re.findall(r'Prop \{ id: "(C\d\d)"', main)
props = [json.loads(l) for l in open(here + '/properties.jsonl') if l.strip()]
TECH = json.load(open(here + '/tools/techniques.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        t = TECH[i]
        checks.append({
            'property': i,
            'quick_cmd': 'harness/run.sh check %s quick' % i,
            'thorough_cmd': 'harness/run.sh check %s thorough' % i,
            'technique': t['technique'],
            'level': 'exploration',
            'level_note': t['note'],
        })
    else:
        na.append({'property': i, 'reason': 'monitor not built yet'})
json.dump({'version': 1, 'setup_cmd': 'harness/run.sh list', 'checks': checks, 'not_applicable': na,
           'notes': 'One harness crate (harness/) with a path dependency on /repo; every check rebuilds it against the current tree. See DESIGN.md.'},
          open(here + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'claimed', len(na), 'not')
