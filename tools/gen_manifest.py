#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, analysis/rules.py and tools/na.json."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, V + '/analysis')
import rules
na = json.load(open(H + '/na.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, out = [], []
for p in props:
    i = p['id']
    if i in rules.RULES:
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
                       'technique': 'static analysis: ' + rules.TECH.get(i, 'abstract interpretation of the compiler\'s MIR'),
                       'level': 'other', 'level_note': rules.NOTE.get(i, rules.DEFNOTE)})
    else:
        out.append({'property': i, 'reason': na.get(i, 'not claimed: no check for it yet (the static analysis planned in DESIGN.md is not built)')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': out,
     'notes': 'No hooks in /repo: the driver reads the MIR rustc produces for the unmodified crate. Repairs of genuine defects are the fix: commits listed in known_findings.txt.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(out), 'not claimed')
