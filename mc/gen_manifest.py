#!/usr/bin/env python3
'''Writes /verif/MANIFEST.json from registry.py and properties.py'''
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry
import properties

NOT_BUILT = 'no check yet'
checks, na = [], []
for p in properties.P:
    i = p['id']
    if i in registry.CHECKS:
        s = registry.CHECKS[i]
        checks.append({'property': i, 'quick_cmd': './check.py %s --tier quick' % i,
                       'thorough_cmd': './check.py %s --tier thorough' % i,
                       'technique': s['technique'], 'level': s['level'], 'level_note': s['note']})
    else:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, NOT_BUILT)})
m = {'version': 1,
     'setup_cmd': './setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks: /repo is imported as it is', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'check.py drives Jython workers (mc/lib/runner.py) over the real privcount code in /repo; see DESIGN.md'}
with open(os.path.join(os.path.dirname(HERE), 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
