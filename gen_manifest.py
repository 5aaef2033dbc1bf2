#!/usr/bin/env python3
"""Rewrites MANIFEST.json: one entry for every module in checks/."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    try:
        m = importlib.import_module('checks.' + pid.lower())
    except ModuleNotFoundError:
        na.append({'property': pid, 'reason': 'check not built yet'})
        continue
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 run.py %s' % pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3 run.py %s' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': m.TECHNIQUE,
        'level': 'exploration',
        'level_note': m.NOTE,
    })
json.dump({'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks,
           'not_applicable': na}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
