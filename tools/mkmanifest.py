"""Write MANIFEST.json from the list of claimed properties."""
import json
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
import catalogue
props = [json.loads(x) for x in open(os.path.join(VERIF, 'properties.jsonl'))]
NOTE = catalogue.NOTES
checks = []
na = []
for p in props:
    i = p['id']
    if i in catalogue.MODULE:
        checks.append({'property': i, 'quick_cmd': './check ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'TLA+ specification checked with TLC; trace validation of recorded executions'
                                    + (' and replay of TLC behaviours' if i in catalogue.PREPARE else ''),
                       'level': 'model_checking',
                       'level_note': NOTE.get(i, 'executions of the real code on generated worlds are validated line by line against the TLA+ specification; bounded sizes, exact arithmetic')})
    else:
        na.append({'property': i, 'reason': 'not yet built'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python harness/build.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
