#!/usr/bin/env python3
"""Write MANIFEST.json from run.CHECKS and the notes below."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import run
T = 'TLA+ specification checked by TLC; '
NOTES = json.load(open(VERIF + '/tools/notes.json'))
props = [json.loads(l) for l in open(VERIF + '/properties.jsonl') if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in run.CHECKS:
        n = NOTES[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': T + n['technique'],
                       'level': n.get('level', 'model_checking'), 'level_note': n['note']})
    else:
        na.append({'property': i, 'reason': NOTES.get(i, {}).get('na', 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: everything is observed through the public API. Repairs of defects are the fix: commits listed in KNOWN_FINDINGS.txt.'}
json.dump(m, open(VERIF + '/MANIFEST.json', 'w'), indent=1)
open(VERIF + '/MANIFEST.json', 'a').write('\n')
