#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and harness/props.py"""
import json, sys, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/harness')
import props
NA = getattr(props, 'NOT_APPLICABLE', {})
checks, na = [], []
for line in open(R + '/properties.jsonl'):
    p = json.loads(line)['id']
    if p in props.LAYERS:
        ls = props.LAYERS[p]
        mods = sorted({m['module'] for l in ls for m in l.get('models', []) if p in m['props']})
        tms = sorted({l['tmodule'] for l in ls})
        checks.append({'property': p, 'quick_cmd': 'bin/check ' + p, 'thorough_cmd': 'env VERIF_TIER=thorough bin/check ' + p,
            'technique': 'TLA+ specification model checked with TLC (%s); walks through its state graph and random schedules are '
                         'replayed on the real code and the recorded traces validated against it with TLC (%s)'
                         % (', '.join(mods) or 'trace specification only', ', '.join(tms)),
            'level': 'model_checking',
            'level_note': '; '.join(l.get('note', '') for l in ls if l.get('note')) or
                'The specification is checked exhaustively within small bounds; the real code is bound to it by conformance of every '
                'replayed and random trace (virtual clock, in-memory network), so what the traces do not reach is not decided.'})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks in /repo: everything is driven through its public interfaces.'},
          open(R + '/MANIFEST.json', 'w'), indent=1)
