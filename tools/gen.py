"""Writes properties.jsonl and MANIFEST.json from tools/catalogue.py (run after editing it)."""
import json
import os
import re
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from catalogue import P, NA, TECH, NOTE  # noqa: E402

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for pid in sorted(P):
        p = P[pid]
        assert len(p['title']) <= 80, pid
        assert len(re.findall(r'[.](\s|$)', p['statement'])) <= 3, pid
        assert set(p['over']) <= {'schedules', 'crash_points', 'inputs', 'programs', 'histories', 'configurations', 'fault_sequences'}, pid
        rec = {'id': pid, 'title': p['title'], 'statement': p['statement'],
               'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
               'anchors': {'files': p['files'],
                           'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                           'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p.get('state', [])],
                           'observe_at': p.get('observe', []), 'hook_needed': None}}
        f.write(json.dumps(rec) + '\n')
checks, na = [], []
for pid in sorted(P):
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]})
    elif os.path.exists(os.path.join(root, 'vf', 'props', pid.lower() + '.py')):
        checks.append({'property': pid, 'quick_cmd': f'./check {pid}', 'thorough_cmd': f'./check {pid} --thorough',
                       'technique': P[pid].get('tech', TECH), 'level': 'model_checking',
                       'level_note': P[pid].get('note', '') + NOTE})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
man = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks: the unmodified source of /repo is executed symbolically. See DESIGN.md.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
