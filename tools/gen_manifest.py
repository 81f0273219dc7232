#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, FE = 'model_checking', 'fault_enumeration'
CHECKS = {}
def c(pid, level, technique, note):
    CHECKS[pid] = (level, technique, note)
exec(open(os.path.join(V, 'tools', 'manifest_data.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash bin/setup', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        l, t, n = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'bin/check %s' % p, 'thorough_cmd': 'bin/check %s --thorough' % p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': l, 'level_note': n})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'machinery for this property is still being built')})
m['notes'] = 'No hooks in /repo: all observation is at public interfaces, callbacks, files, system calls and the interposed threading library.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
