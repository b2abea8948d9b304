#!/usr/bin/env python3
"""writes MANIFEST.json from the registry (run by hand after adding a check)"""
import sys, json, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
import registry
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = []
for p in props:
    s = registry.PROPS.get(p['id'])
    if s:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'technique': s['technique'], 'level': s.get('level', 'other'), 'level_note': s['note']})
na = [{'property': p['id'], 'reason': registry.NOT_APPLICABLE.get(p['id'], 'No sound static check has been built for it yet.')} for p in props if p['id'] not in registry.PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3 sa/setup.py', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
