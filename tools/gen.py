#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props, specs
keys = ['id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors']
assert set(specs.SPECS) <= set(props.P), set(specs.SPECS) - set(props.P)
NA = getattr(props, 'NA', {})
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for pid in sorted(props.P):
        if pid in specs.SPECS or pid in NA:
            assert len(props.P[pid]['title']) <= 80, pid
            f.write(json.dumps({k: props.P[pid][k] for k in keys}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'All checks are observation of executions: see DESIGN.md. No source hooks are needed: the library is built from /repo with compiler instrumentation.'}
for pid in sorted(specs.SPECS):
    x = props.P[pid]
    m['checks'].append({'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
                        'technique': x['technique'], 'level': x['level'], 'level_note': x['note']})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
