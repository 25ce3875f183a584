#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and registry.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'tools')]
import props  # noqa: E402
import registry  # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}, ensure_ascii=True) + '\n')

checks = []
for p in props.PROPS:
    pid = p['id']
    if pid not in registry.CHECKS:
        assert pid in props.NOT_APPLICABLE, pid
        continue
    assert len(p['title']) <= 80, pid
    checks.append({
        'property': pid,
        'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + pid,
        'technique': p.get('technique', 'TLA+ specification model-checked with TLC; TLC trace validation of recorded executions of the real code'),
        'level': 'model_checking',
        'level_note': p['note'],
    })
m = {'version': 1, 'setup_cmd': 'python3 tools/selftest.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in props.NOT_APPLICABLE.items()],
     'notes': 'TLA+ specifications in spec/, drivers in harness/, orchestration in check.py/vlib.py/registry.py; see DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
