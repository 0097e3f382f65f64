#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and lib/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in ids:
    if hasattr(props, 'c_' + p):
        c = props.config(p, 'quick')
        tech = 'Quint specification: spec-generated histories replayed into the code, recorded traces checked against the specification'
        if c.get('tlc'): tech += '; abstract machine explored exhaustively with TLC'
        checks.append(dict(property=p, quick_cmd='python3 lib/check.py %s' % p,
                           thorough_cmd='VERIF_TIER=thorough python3 lib/check.py %s --tier thorough' % p, technique=tech, level=c['level'],
                           level_note=c['note']))
    else:
        na.append(dict(property=p, reason=props.NOT_YET.get(p, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='none', enable='no hooks: the checks observe the public API only', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
